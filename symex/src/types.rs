//! Symbolic pairing engine `SymE`: group elements are their exponents, `G1 x G2 -> GT` multiplies
//! exponents.  Also the symbolic rng and the hash-to-element oracle.
use crate::ctx::*;
use crate::field::SymF;
use ark_std::rand::RngCore;

boiler::impl_group!(SymG1, SymG1A, SymG1P, SymC1, SymF, 1);
boiler::impl_group!(SymG2, SymG2A, SymG2P, SymC2, SymF, 2);
boiler::impl_target!(SymGT, SymF);
boiler::impl_pairing!(SymE, SymF, SymG1, SymG1A, SymG1P, SymG2, SymG2A, SymG2P, SymGT);

/// Every `next_u64` is a tagged draw that `SymF::rand` turns into a fresh variable.
#[derive(Clone)]
pub struct SymRng {
    pub k: u64,
}
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        self.k += 1;
        (self.k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.k += 1;
        crate::field::RNG_TAG | self.k
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d.iter_mut() {
            *b = self.next_u32() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Oracle for `from_random_bytes`: whether the bytes decode is an unconstrained boolean per byte
/// string, and the decoded element is a fresh unknown per byte string (an uninterpreted function).
pub fn elem_from_hash(tag: u32, b: &[u8]) -> Option<SymF> {
    let key: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    let name = format!("undecodable:{}:{}", tag, key);
    let (known, fails) = CTX.with(|c| {
        let c = c.borrow();
        (c.bools.get(&name).cloned(), c.bools.iter().filter(|(k, v)| k.starts_with("undecodable:") && **v).count())
    });
    // past the bound every further hash decodes; what was decided before stays decided
    let bad = match known {
        Some(b) => b,
        None if fails >= CTX.with(|c| c.borrow().max_hash_fails) => false,
        None => decide_bool(&name),
    };
    if bad {
        return None;
    }
    Some(named(&format!("hash:{}:{}", tag, key), false))
}

/// raw decoded point -> point of the prime-order subgroup: an uninterpreted injective map
pub fn clear_cofactor(tag: u32, e: SymF) -> SymF {
    let n = e.show();
    named(&format!("cleared:{}:{}", tag, n), true)
}

pub fn named(name: &str, nz: bool) -> SymF {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(v) = c.vars.iter().position(|v| v.name == name) {
            let v = v as u16;
            return SymF::P(c.var_poly(v));
        }
        let v = c.fresh_var(name, nz, None);
        SymF::P(c.var_poly(v))
    })
}
