//! C03: bitwise operators, shifts, rotates
use packed_simd::*;
use vmon::*;

fn shl(k: K, a: u128, n: u32) -> u128 {
    (a << n) & k.mask()
}
fn shr(k: K, a: u128, n: u32) -> u128 {
    if k.signed() {
        (k.sval(a) >> n) as u128 & k.mask()
    } else {
        a >> n
    }
}
fn rotl(k: K, a: u128, n: u32) -> u128 {
    let w = k.bits();
    let n = n % w;
    if n == 0 {
        a
    } else {
        ((a << n) | (a >> (w - n))) & k.mask()
    }
}
fn main() {
    let mut c = Ctx::from_args("C03");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const SH: [G; 3] = [G::Any, G::Below($b), G::Any];
                macro_rules! bin {
                    ($nm:expr, $o:tt, $oa:tt, $f:expr) => {
                        lw(c, op2(TY, $nm, V, V, V, glue!(|a: $v, b: $v| -> $v { a $o b })), ANY, None, $f);
                        lw(c, op2(TY, concat!($nm, "_scalar"), V, S::S(KK), V, glue!(|a: $v, b: $e| -> $v { a $o b })), ANY, None, $f);
                        lw(c, op2(TY, concat!("scalar_", $nm), S::S(KK), V, V, glue!(|a: $e, b: $v| -> $v { a $o b })), ANY, None, $f);
                        lw(c, op2(TY, concat!($nm, "_assign"), V, V, V, glue!(|a: $v, b: $v| -> $v { a $oa b; a })), ANY, None, $f);
                        lw(c, op2(TY, concat!($nm, "_assign_scalar"), V, S::S(KK), V, glue!(|a: $v, b: $e| -> $v { a $oa b; a })), ANY, None, $f);
                    };
                }
                bin!("and", &, &=, &|t| X::Eq(t[0] & t[1]));
                bin!("or", |, |=, &|t| X::Eq(t[0] | t[1]));
                bin!("xor", ^, ^=, &|t| X::Eq(t[0] ^ t[1]));
                lw(c, op1(TY, "not", V, V, glue!(|a: $v| -> $v { !a })), ANY, None, &|t| X::Eq(!t[0] & KK.mask()));
                macro_rules! sh {
                    ($nm:expr, $o:tt, $oa:tt, $f:expr) => {
                        lw(c, op2(TY, $nm, V, V, V, glue!(|a: $v, b: $v| -> $v { a $o b })), SH, None, $f);
                        lw(c, op2(TY, concat!($nm, "_scalar"), V, S::S(K::U(32)), V, glue!(|a: $v, b: u32| -> $v { a $o b })), SH, None, $f);
                        lw(c, op2(TY, concat!($nm, "_assign"), V, V, V, glue!(|a: $v, b: $v| -> $v { a $oa b; a })), SH, None, $f);
                        lw(c, op2(TY, concat!($nm, "_assign_scalar"), V, S::S(K::U(32)), V, glue!(|a: $v, b: u32| -> $v { a $oa b; a })), SH, None, $f);
                    };
                }
                sh!("shl", <<, <<=, &|t| X::Eq(shl(KK, t[0], t[1] as u32)));
                sh!("shr", >>, >>=, &|t| X::Eq(shr(KK, t[0], t[1] as u32)));
                // rotates: amounts in range, and arbitrary amounts (taken modulo the lane width, a power of two)
                lw(c, op2(TY, "rotate_left", V, V, V, glue!(|a: $v, b: $v| -> $v { a.rotate_left(b) })), SH, None, &|t| X::Eq(rotl(KK, t[0], t[1] as u32)));
                lw(c, op2(TY, "rotate_right", V, V, V, glue!(|a: $v, b: $v| -> $v { a.rotate_right(b) })), SH, None, &|t| {
                    X::Eq(rotl(KK, t[0], $b - (t[1] as u32 % $b)))
                });
                lw(c, op2(TY, "rotate_left_any", V, V, V, glue!(|a: $v, b: $v| -> $v { a.rotate_left(b) })), ANY, None, &|t| {
                    X::Eq(rotl(KK, t[0], (t[1] % $b) as u32))
                });
                lw(c, op2(TY, "rotate_right_any", V, V, V, glue!(|a: $v, b: $v| -> $v { a.rotate_right(b) })), ANY, None, &|t| {
                    X::Eq(rotl(KK, t[0], $b - (t[1] % $b) as u32))
                });
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    c.finish()
}
