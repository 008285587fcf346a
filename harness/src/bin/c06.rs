//! C06: whole-mask queries, bitmask, bitwise reductions
use packed_simd::*;
use vmon::*;

fn bitm(o: &Obs, k: K) -> Result<(), String> {
    let mut w = 0u128;
    for (i, x) in o.ins[0].iter().enumerate() {
        w |= ((x >> (k.bits() - 1)) & 1) << i;
    }
    if o.out[0] == w {
        Ok(())
    } else {
        Err(format!("bitmask {:#b} want {:#b}", o.out[0], w))
    }
}
fn want(o: &Obs, w: u128) -> Result<(), String> {
    if o.out[0] == w {
        Ok(())
    } else {
        Err(format!("got {:#x} want {:#x}", o.out[0], w))
    }
}
/// integer vectors whose lanes are mostly extreme, so that reductions see interesting folds
fn main() {
    let mut c = Ctx::from_args("C06");
    let bool_k = K::U(8);
    let _ = bool_k;
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const O: S = S::S(KK);
                const BM: S = S::S(K::U(std::mem::size_of::<$bm>() as u32 * 8));
                for g in [G::Any, G::Mask] {
                    let gs = [g, G::Any, G::Any];
                    let nm = |a: &'static str, b: &'static str| if g == G::Any { a } else { b };
                    wh(c, op1(TY, nm("and", "and:ext"), V, O, glue!(|a: $v| -> $e { a.and() })), gs, &|o| want(o, o.ins[0].iter().fold(KK.mask(), |x, y| x & y)));
                    wh(c, op1(TY, nm("or", "or:ext"), V, O, glue!(|a: $v| -> $e { a.or() })), gs, &|o| want(o, o.ins[0].iter().fold(0, |x, y| x | y)));
                    wh(c, op1(TY, nm("xor", "xor:ext"), V, O, glue!(|a: $v| -> $e { a.xor() })), gs, &|o| want(o, o.ins[0].iter().fold(0, |x, y| x ^ y)));
                    wh(c, op1(TY, nm("bitmask", "bitmask:ext"), V, BM, glue!(|a: $v| -> $bm { a.bitmask() })), gs, &|o| bitm(o, KK));
                }
            }
            all(&mut c);
        }};
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::M($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const O: S = S::S(K::U(8));
                const BM: S = S::S(K::U(std::mem::size_of::<$bm>() as u32 * 8));
                wh(c, op1(TY, "all", V, O, glue!(|a: $v| -> bool { a.all() })), ANY, &|o| want(o, o.ins[0].iter().all(|x| *x != 0) as u128));
                wh(c, op1(TY, "any", V, O, glue!(|a: $v| -> bool { a.any() })), ANY, &|o| want(o, o.ins[0].iter().any(|x| *x != 0) as u128));
                wh(c, op1(TY, "none", V, O, glue!(|a: $v| -> bool { a.none() })), ANY, &|o| want(o, o.ins[0].iter().all(|x| *x == 0) as u128));
                wh(c, op1(TY, "and", V, O, glue!(|a: $v| -> bool { a.and() })), ANY, &|o| want(o, o.ins[0].iter().all(|x| *x != 0) as u128));
                wh(c, op1(TY, "or", V, O, glue!(|a: $v| -> bool { a.or() })), ANY, &|o| want(o, o.ins[0].iter().any(|x| *x != 0) as u128));
                wh(c, op1(TY, "xor", V, O, glue!(|a: $v| -> bool { a.xor() })), ANY, &|o| want(o, o.ins[0].iter().filter(|x| **x != 0).count() as u128 & 1));
                wh(c, op1(TY, "bitmask", V, BM, glue!(|a: $v| -> $bm { a.bitmask() })), ANY, &|o| bitm(o, KK));
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_masks!(mty);
    c.finish()
}
