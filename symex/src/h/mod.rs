use crate::env::*;
use crate::H;
mod keys;
mod enc;
mod groth;
pub mod misc;
mod sec;
mod equiv;
mod open;
mod rnd;
#[cfg(feature = "seq")]
mod c24;

#[macro_export]
macro_rules! harness {
    ($v:expr, $prop:expr, $name:expr, $tier:ident, $f:path, $params:expr, $funcs:expr, $bounds:expr) => {
        harness!($v, $prop, $name, $tier, $f, $params, $funcs, $bounds, 6, 240)
    };
    ($v:expr, $prop:expr, $name:expr, $tier:ident, $f:path, $params:expr, $funcs:expr, $bounds:expr, $val:expr, $to:expr) => {
        $v.push(crate::H {
            prop: $prop,
            name: format!("{}/{}", $prop, $name),
            thorough: stringify!($tier) == "thorough",
            params: $params.to_vec(),
            sym: $f,
            nat: $f,
            funcs: $funcs,
            bounds: $bounds.to_string(),
            validate: $val,
            timeout_s: $to,
        })
    };
}

/// the vector sizes every size-generic claim is decided for on every run: all up to 66 (so the real chunk
/// counts 16, 32, 64 and their neighbours), and those around 128 and around the largest a key can have
pub fn sizes() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=66).collect();
    v.extend([96, 100, 127, 128, 129, 192, 200, 251, 252, 253, 254, 255]);
    v
}
/// all the other sizes a key can have
pub fn sizes_more() -> Vec<u64> {
    let s = sizes();
    (0..=255).filter(|n| !s.contains(n)).collect()
}

pub fn all() -> Vec<H> {
    let mut v = vec![];
    keys::reg(&mut v);
    enc::reg(&mut v);
    groth::reg(&mut v);
    misc::reg(&mut v);
    sec::reg(&mut v);
    equiv::reg(&mut v);
    open::reg(&mut v);
    rnd::reg(&mut v);
    #[cfg(feature = "seq")]
    c24::reg(&mut v);
    v
}
