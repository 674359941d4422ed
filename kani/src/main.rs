//! Native side of the Kani proofs: replays counterexamples on the real BLS12-381 scalar field and
//! validates the field model used by the proofs against it.
use ark_bls12_381::Fr;
use ark_ff::{BigInt, Field, PrimeField};
use kanih::field::KM;
use kanih::specs::{self, R};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn num(s: &str) -> usize {
    s.parse().unwrap_or(0)
}
/// (kind, chunk size, digits) of a harness name
fn parse(name: &str) -> (String, u8, usize) {
    let p: Vec<&str> = name.split('_').collect();
    match p[0] {
        "roundtrip" => ("roundtrip".into(), num(p[1]) as u8, 0),
        "decode" => {
            let b = num(p[1]);
            ("decode".into(), b as u8, p.get(2).map(|x| num(&x[1..])).unwrap_or(256 / b))
        }
        "odd" => ("odd".into(), 4, num(p[1])),
        x => (x.into(), 0, 0),
    }
}
/// the values a harness takes, in the order it takes them
fn widths(name: &str) -> Vec<usize> {
    let (k, _, n) = parse(name);
    match k.as_str() {
        "roundtrip" => vec![8; 4],
        "decode" | "odd" => vec![2; n],
        "unsupported" => vec![8, 8, 8, 8, 1, 2],
        _ => vec![1],
    }
}
fn run<F: PrimeField<BigInt = BigInt<4>>>(name: &str, v: &[u64]) -> R {
    let (k, b, _) = parse(name);
    let l = |v: &[u64]| [v[0], v[1], v[2], v[3]];
    let d = |v: &[u64]| v.iter().map(|x| *x as u16).collect::<Vec<u16>>();
    match k.as_str() {
        "roundtrip" => specs::roundtrip::<F>(l(v), b),
        "decode" => specs::decode::<F>(&d(v), b),
        "odd" => specs::odd::<F>(&d(v)),
        "unsupported" => specs::unsupported::<F>(l(v), v[4] as u8, v[5] as u16),
        "count" => specs::count::<F>(v[0] as u8),
        _ => Ok(()),
    }
}
fn native(name: &str, v: &[u64]) -> Option<String> {
    match std::panic::catch_unwind(|| run::<Fr>(name, v)) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e.into()),
        Err(p) => Some(format!(
            "panic: {}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}
fn cand(name: &str, r: &mut Rng, i: usize) -> Vec<u64> {
    let (k, b, n) = parse(name);
    let full = (1u64 << b.min(16)) - 1;
    match k.as_str() {
        "roundtrip" | "unsupported" => {
            let mut l = match i % 6 {
                0 => [r.next(), r.next(), r.next(), r.next() >> 2],
                1 => [0, 0, 0, 0],
                2 => {
                    let mut l = [0; 4];
                    let b = (r.next() % 254) as usize;
                    l[b / 64] = 1 << (b % 64);
                    l
                }
                3 => [0xffff_ffff_0000_0000, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48],
                4 => [u64::MAX, u64::MAX, u64::MAX, u64::MAX >> 2],
                _ => [r.next() >> (r.next() % 64), 0, 0, r.next() >> (2 + r.next() % 62)],
            };
            if Fr::from_bigint(BigInt(l)).is_none() {
                l[3] >>= 2;
            }
            let mut v = l.to_vec();
            if k == "unsupported" {
                v.push(i as u64 % 256);
                v.push(r.next() & 0xffff);
            }
            v
        }
        "decode" | "odd" => (0..n)
            .map(|_| match (i % 5, r.next() % 4) {
                (0, _) => r.next() & full,
                (1, 0) => r.next() & full,
                (1, _) => 0,
                (2, _) => full,
                (3, x) => if x < 2 { full } else { 0 },
                _ => 1,
            })
            .collect(),
        _ => vec![i as u64 % 256],
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // kreplay run HARNESS v1,v2,..   (exit 1: the real code breaks the property)
        "run" => {
            let v: Vec<u64> = a[3].split(',').map(|x| x.parse().unwrap()).collect();
            match native(&a[2], &v) {
                Some(e) => {
                    println!("reproduced: {}", e);
                    std::process::exit(1)
                }
                None => println!("not reproduced"),
            }
        }
        "widths" => println!("{}", widths(&a[2]).iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        // kreplay probe HARNESS SEED: only called once the solver has refuted the harness
        "probe" => {
            let mut r = Rng(a[3].parse().unwrap());
            for i in 0..6000 {
                let v = cand(&a[2], &mut r, i);
                if let Some(e) = native(&a[2], &v) {
                    println!("{}|{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), e);
                    std::process::exit(1)
                }
            }
        }
        // kreplay validate SEED: the field model of the proofs agrees with the real field
        "validate" => {
            let mut r = Rng(a[2].parse().unwrap());
            let mut n = 0u64;
            for i in 0..400 {
                let mut l = [r.next(), r.next(), r.next(), r.next() >> 1];
                if i % 3 == 0 {
                    l[3] = 0x73eda753299d7d48;
                    l[2] = 0x3339d80809a1d805;
                }
                let (x, y) = (Fr::from_bigint(BigInt(l)), KM::from_bigint(BigInt(l)));
                assert_eq!(x.is_some(), y.is_some());
                if let (Some(x), Some(y)) = (x, y) {
                    assert_eq!(x.into_bigint(), y.into_bigint());
                    let (u, v) = (Fr::from(r.next()), KM::from(0u64));
                    let w = KM(u.into_bigint().0);
                    assert_eq!((x * u + u - x.square()).into_bigint(), (y * w + w - y * y + v).into_bigint());
                }
                let len = (r.next() % 33) as usize;
                let bytes: Vec<u8> = (0..len).map(|_| if i % 4 == 0 { 0xff } else { r.next() as u8 }).collect();
                assert_eq!(Fr::from_be_bytes_mod_order(&bytes).into_bigint(), KM::from_be_bytes_mod_order(&bytes).into_bigint());
                assert_eq!(Fr::from_le_bytes_mod_order(&bytes).into_bigint(), KM::from_le_bytes_mod_order(&bytes).into_bigint());
                n += 4;
                for h in &a[3..] {
                    let v = cand(h, &mut r, i);
                    // both sides run the same code and must agree on the verdict
                    let m = std::panic::catch_unwind(|| run::<KM>(h, &v)).map(|r| r.is_ok()).unwrap_or(false);
                    assert_eq!(m, native(h, &v).is_none(), "{}", h);
                    n += 1;
                }
            }
            println!("validated {}", n);
        }
        _ => {}
    }
}
