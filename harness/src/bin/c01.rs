//! C01: integer vector arithmetic
use packed_simd::*;
use vmon::*;

fn oracle(k: K, op: &str, a: u128, b: u128) -> u128 {
    let m = k.mask();
    let r = match op {
        "add" => a.wrapping_add(b),
        "sub" => a.wrapping_sub(b),
        "mul" => a.wrapping_mul(b),
        "neg" => a.wrapping_neg(),
        "div" => {
            if k.signed() {
                (k.sval(a) / k.sval(b)) as u128
            } else {
                a / b
            }
        }
        "rem" => {
            if k.signed() {
                (k.sval(a) % k.sval(b)) as u128
            } else {
                a % b
            }
        }
        _ => unreachable!(),
    };
    r & m
}
fn div_ok(k: K, t: [u128; 3]) -> bool {
    t[1] != 0 && !(k.signed() && t[0] == k.min_bits() && t[1] == k.mask())
}

macro_rules! go {
    ($c:ident, $name:expr, $base:expr, $ins:expr, $k:expr, $n:expr, $f:expr) => {{
        let k = $k;
        let base: &'static str = $base;
        let v = move |t: [u128; 3]| div_ok(k, t);
        let valid: Option<&dyn Fn([u128; 3]) -> bool> = if base == "div" || base == "rem" { Some(&v) } else { None };
        let ins: [S; 3] = $ins;
        lw($c, Op { ty: $name.0, op: $name.1, ins, out: S::V(k, $n), f: $f }, ANY, valid, &move |t| X::Eq(oracle(k, base, t[0], t[1])));
    }};
}

fn main() {
    let mut c = Ctx::from_args("C01");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const VV: [S; 3] = [S::V(KK, $n), S::V(KK, $n), S::N];
                const VS: [S; 3] = [S::V(KK, $n), S::S(KK), S::N];
                const SV: [S; 3] = [S::S(KK), S::V(KK, $n), S::N];
                macro_rules! bin {
                    ($nm:expr, $o:tt, $oa:tt) => {
                        go!(c, (stringify!($v), $nm), $nm, VV, KK, $n, glue!(|a: $v, b: $v| -> $v { a $o b }));
                        go!(c, (stringify!($v), concat!($nm, "_scalar")), $nm, VS, KK, $n, glue!(|a: $v, b: $e| -> $v { a $o b }));
                        go!(c, (stringify!($v), concat!("scalar_", $nm)), $nm, SV, KK, $n, glue!(|a: $e, b: $v| -> $v { a $o b }));
                        go!(c, (stringify!($v), concat!($nm, "_assign")), $nm, VV, KK, $n, glue!(|a: $v, b: $v| -> $v { a $oa b; a }));
                        go!(c, (stringify!($v), concat!($nm, "_assign_scalar")), $nm, VS, KK, $n, glue!(|a: $v, b: $e| -> $v { a $oa b; a }));
                    };
                }
                bin!("add", +, +=);
                bin!("sub", -, -=);
                bin!("mul", *, *=);
                bin!("div", /, /=);
                bin!("rem", %, %=);
            }
            all(&mut c);
        }};
    }
    macro_rules! sty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                go!(c, (stringify!($v), "neg"), "neg", [S::V(KK, $n), S::N, S::N], KK, $n, glue!(|a: $v| -> $v { -a }));
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_sints!(sty);
    c.finish()
}
