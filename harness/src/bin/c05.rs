//! C05: vertical comparisons, mask logic, select, integer min/max
use packed_simd::*;
use vmon::*;

fn cmp(k: K, op: usize, a: u128, b: u128) -> bool {
    let nan = k.is_nan(a) || k.is_nan(b);
    let (lt, eq) = (k.lt(a, b), k.eq(a, b));
    match op {
        0 => eq,
        1 => !eq,
        2 => lt,
        3 => lt || eq,
        4 => !nan && !lt && !eq,
        _ => !nan && !lt,
    }
}
fn mk(b: u32, x: bool) -> X {
    X::Eq(if x { ones(b) } else { 0 })
}
fn cmps(c: &mut Ctx, ty: &'static str, k: K, n: usize, mb: u32, f: [F; 6]) {
    for (i, nm) in ["eq", "ne", "lt", "le", "gt", "ge"].iter().enumerate() {
        lw(c, op2(ty, nm, S::V(k, n), S::V(k, n), S::V(K::M(mb), n), f[i]), ANY, None, &|t| mk(mb, cmp(k, i, t[0], t[1])));
    }
}
macro_rules! six {
    ($v:ident, $m:ident) => {
        [
            glue!(|a: $v, b: $v| -> $m { a.eq(b) }),
            glue!(|a: $v, b: $v| -> $m { a.ne(b) }),
            glue!(|a: $v, b: $v| -> $m { a.lt(b) }),
            glue!(|a: $v, b: $v| -> $m { a.le(b) }),
            glue!(|a: $v, b: $v| -> $m { a.gt(b) }),
            glue!(|a: $v, b: $v| -> $m { a.ge(b) }),
        ]
    };
}
fn main() {
    let mut c = Ctx::from_args("C05");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                cmps(c, TY, KK, $n, $b, six!($v, $m));
                lw(c, op2(TY, "min", V, V, V, glue!(|a: $v, b: $v| -> $v { a.min(b) })), ANY, None, &|t| X::Eq(if KK.lt(t[0], t[1]) { t[0] } else { t[1] }));
                lw(c, op2(TY, "max", V, V, V, glue!(|a: $v, b: $v| -> $v { a.max(b) })), ANY, None, &|t| X::Eq(if KK.lt(t[0], t[1]) { t[1] } else { t[0] }));
            }
            all(&mut c);
        }};
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                cmps(c, stringify!($v), K::F($b), $n, $b, six!($v, $m));
            }
            all(&mut c);
        }};
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::M($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const BO: S = S::S(K::U(8));
                const VB: [G; 3] = [G::Any, G::Below(2), G::Any];
                const BV: [G; 3] = [G::Below(2), G::Any, G::Any];
                cmps(c, TY, KK, $n, $b, six!($v, $v));
                lw(c, op1(TY, "not", V, V, glue!(|a: $v| -> $v { !a })), ANY, None, &|t| mk($b, t[0] == 0));
                macro_rules! bin {
                    ($nm:expr, $o:tt, $oa:tt) => {
                        lw(c, op2(TY, $nm, V, V, V, glue!(|a: $v, b: $v| -> $v { a $o b })), ANY, None, &|t| mk($b, (t[0] != 0) $o (t[1] != 0)));
                        lw(c, op2(TY, concat!($nm, "_bool"), V, BO, V, glue!(|a: $v, b: bool| -> $v { a $o b })), VB, None, &|t| mk($b, (t[0] != 0) $o (t[1] != 0)));
                        lw(c, op2(TY, concat!("bool_", $nm), BO, V, V, glue!(|a: bool, b: $v| -> $v { a $o b })), BV, None, &|t| mk($b, (t[0] != 0) $o (t[1] != 0)));
                        lw(c, op2(TY, concat!($nm, "_assign"), V, V, V, glue!(|a: $v, b: $v| -> $v { a $oa b; a })), ANY, None, &|t| mk($b, (t[0] != 0) $o (t[1] != 0)));
                        lw(c, op2(TY, concat!($nm, "_assign_bool"), V, BO, V, glue!(|a: $v, b: bool| -> $v { a $oa b; a })), VB, None, &|t| mk($b, (t[0] != 0) $o (t[1] != 0)));
                    };
                }
                bin!("and", &, &=);
                bin!("or", |, |=);
                bin!("xor", ^, ^=);
            }
            all(&mut c);
        }};
    }
    fn sel(c: &mut Ctx, nm: &'static str, vt: &'static str, mb: u32, k: K, n: usize, f: F) {
        lw(c, op3(nm, vt, S::V(K::M(mb), n), S::V(k, n), S::V(k, n), S::V(k, n), f), ANY, None, &|t| X::Eq(if t[0] != 0 { t[1] } else { t[2] }));
    }
    macro_rules! selp {
        ($m:ident, $mb:expr, $v:ident, $ku:ident, $b:expr, $n:expr) => {{
            sel(&mut c, stringify!($m), concat!("select:", stringify!($v)), $mb, K::$ku($b), $n, glue!(|m: $m, a: $v, b: $v| -> $v { m.select(a, b) }));
        }};
    }
    for_ints!(ty);
    for_floats!(fty);
    for_masks!(mty);
    for_select!(selp);
    c.finish()
}
