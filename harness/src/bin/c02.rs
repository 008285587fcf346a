//! C02: float vector arithmetic, neg, min, max
use packed_simd::*;
use vmon::*;

fn minmax(k: K, is_min: bool, a: u128, b: u128) -> X {
    let (na, nb) = (k.is_nan(a), k.is_nan(b));
    if na && nb {
        return X::Nan;
    }
    if na || nb {
        let (num, nan) = if na { (b, a) } else { (a, b) };
        // a signalling NaN may also propagate
        return if k.is_snan(nan) { X::EqOrNan(num) } else { X::Eq(num) };
    }
    if k.eq(a, b) {
        return X::Either(a, b);
    }
    X::Eq(if k.lt(a, b) == is_min { a } else { b })
}
macro_rules! bo {
    ($c:ident, $ty:expr, $nm:expr, $base:expr, $ins:expr, $k:expr, $n:expr, $f:expr) => {
        lw($c, Op { ty: $ty, op: $nm, ins: $ins, out: S::V($k, $n), f: $f }, ANY, None, &|t| fx($k, flt::bin($k, $base, t[0], t[1])));
    };
}
fn main() {
    let mut c = Ctx::from_args("C02");
    macro_rules! ty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::F($b);
                const TY: &str = stringify!($v);
                const VV: [S; 3] = [S::V(KK, $n), S::V(KK, $n), S::N];
                const VS: [S; 3] = [S::V(KK, $n), S::S(KK), S::N];
                const SV: [S; 3] = [S::S(KK), S::V(KK, $n), S::N];
                macro_rules! bin {
                    ($nm:expr, $o:tt, $oa:tt) => {
                        bo!(c, TY, $nm, $nm, VV, KK, $n, glue!(|a: $v, b: $v| -> $v { a $o b }));
                        bo!(c, TY, concat!($nm, "_scalar"), $nm, VS, KK, $n, glue!(|a: $v, b: $e| -> $v { a $o b }));
                        bo!(c, TY, concat!("scalar_", $nm), $nm, SV, KK, $n, glue!(|a: $e, b: $v| -> $v { a $o b }));
                        bo!(c, TY, concat!($nm, "_assign"), $nm, VV, KK, $n, glue!(|a: $v, b: $v| -> $v { a $oa b; a }));
                        bo!(c, TY, concat!($nm, "_assign_scalar"), $nm, VS, KK, $n, glue!(|a: $v, b: $e| -> $v { a $oa b; a }));
                    };
                }
                bin!("add", +, +=);
                bin!("sub", -, -=);
                bin!("mul", *, *=);
                bin!("div", /, /=);
                bin!("rem", %, %=);
                lw(c, op1(TY, "neg", S::V(KK, $n), S::V(KK, $n), glue!(|a: $v| -> $v { -a })), ANY, None, &|t| {
                    fx(KK, t[0] ^ (1u128 << ($b - 1)))
                });
                lw(c, op2(TY, "min", S::V(KK, $n), S::V(KK, $n), S::V(KK, $n), glue!(|a: $v, b: $v| -> $v { a.min(b) })), ANY, None, &|t| {
                    minmax(KK, true, t[0], t[1])
                });
                lw(c, op2(TY, "max", S::V(KK, $n), S::V(KK, $n), S::V(KK, $n), glue!(|a: $v, b: $v| -> $v { a.max(b) })), ANY, None, &|t| {
                    minmax(KK, false, t[0], t[1])
                });
            }
            all(&mut c);
        }};
    }
    for_floats!(ty);
    c.finish()
}
