use crate::field::*;
use crate::specs;

fn limbs() -> [u64; 4] {
    let l: [u64; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    kani::assume(below(&l, &P));
    l
}
fn must(r: specs::R) {
    assert!(r.is_ok());
}
macro_rules! roundtrip {
    ($name:ident, $b:expr, $u:expr) => {
        #[kani::proof]
        #[kani::unwind(262)]
        fn $name() {
            must(specs::roundtrip::<KM>(limbs(), $b));
        }
    };
}
roundtrip!(roundtrip_4, 4, 66);
roundtrip!(roundtrip_8, 8, 34);
roundtrip!(roundtrip_16, 16, 34);

macro_rules! decode {
    ($name:ident, $b:expr, $n:expr, $u:expr) => {
        #[kani::proof]
        #[kani::unwind(262)]
        fn $name() {
            let d: [u16; $n] = kani::any();
            let mut i = 0;
            while i < $n {
                kani::assume($b == 16 || (d[i] as u32) < (1u32 << $b));
                i += 1;
            }
            must(specs::decode::<KM>(&d, $b));
        }
    };
}
decode!(decode_4, 4, 64, 66);
decode!(decode_4_n6, 4, 6, 34);
decode!(decode_4_n2, 4, 2, 34);
decode!(decode_8, 8, 32, 34);
decode!(decode_8_n5, 8, 5, 34);
decode!(decode_16, 16, 16, 34);
decode!(decode_16_n3, 16, 3, 34);

#[kani::proof]
#[kani::unwind(262)]
fn unsupported() {
    must(specs::unsupported::<KM>(limbs(), kani::any(), kani::any()));
}

macro_rules! odd {
    ($name:ident, $n:expr, $u:expr) => {
        #[kani::proof]
        #[kani::unwind(262)]
        fn $name() {
            let d: [u16; $n] = kani::any();
            let mut i = 0;
            while i < $n {
                kani::assume(d[i] < 16);
                i += 1;
            }
            must(specs::odd::<KM>(&d));
        }
    };
}
odd!(odd_1, 1, 34);
odd!(odd_3, 3, 34);
odd!(odd_4, 4, 34);
odd!(odd_63, 63, 66);

#[kani::proof]
fn count() {
    must(specs::count::<KM>(kani::any()));
}

// reachability: these must be reported as failing
#[kani::proof]
#[kani::unwind(262)]
fn witness_roundtrip_16() {
    let l = limbs();
    must(specs::roundtrip::<KM>(l, 16));
    assert!(l[0] != 12345);
}
