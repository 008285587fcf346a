//! C10: numeric casts and lossless vector conversions
use packed_simd::*;
use vmon::*;

fn f_of(k: K, x: f64) -> X {
    fx(k, fbits(k, x))
}
/// scalar `as` conversion of one lane
fn conv(s: K, d: K, x: u128) -> X {
    match (s, d) {
        (K::F(_), K::M(_)) => X::Eq(if s.to_f64(x) != 0.0 { d.mask() } else { 0 }),
        (_, K::M(_)) => X::Eq(if x != 0 { d.mask() } else { 0 }),
        (K::F(_), K::F(_)) => f_of(d, s.to_f64(x)),
        (K::F(_), K::U(_)) => X::Eq((s.to_f64(x) as u128).min(d.mask())),
        (K::F(_), _) => {
            let (lo, hi) = (d.sval(d.min_bits()), d.sval(d.max_bits()));
            X::Eq((s.to_f64(x) as i128).clamp(lo, hi) as u128 & d.mask())
        }
        (K::U(_), K::F(32)) => X::Eq((x as f32).to_bits() as u128),
        (K::U(_), K::F(_)) => X::Eq((x as f64).to_bits() as u128),
        (_, K::F(32)) => X::Eq((s.sval(x) as f32).to_bits() as u128),
        (_, K::F(_)) => X::Eq((s.sval(x) as f64).to_bits() as u128),
        _ => X::Eq(s.sval(x) as u128 & d.mask()),
    }
}
fn g(s: K) -> [G; 3] {
    [if let K::M(_) = s { G::Mask } else { G::Any }, G::Any, G::Any]
}
fn main() {
    let mut c = Ctx::from_args("C10");
    macro_rules! cast {
        ($d:ident, $dk:ident, $db:expr, $dn:expr, $s:ident, $sk:ident, $sb:expr, $sn:expr) => {{
            const DK: K = K::$dk($db);
            const SK: K = K::$sk($sb);
            const TY: &str = stringify!($d);
            let (v, o) = (S::V(SK, $sn), S::V(DK, $dn));
            lw(&mut c, op1(TY, concat!("from_cast_", stringify!($s)), v, o, glue!(|a: $s| -> $d { FromCast::from_cast(a) })), g(SK), None, &|t| conv(SK, DK, t[0]));
            lw(&mut c, op1(TY, concat!("cast_from_", stringify!($s)), v, o, glue!(|a: $s| -> $d { Cast::<$d>::cast(a) })), g(SK), None, &|t| conv(SK, DK, t[0]));
        }};
    }
    for_cast_pairs!(cast);
    macro_rules! from {
        ($d:ident, $dk:ident, $db:expr, $dn:expr, $s:ident, $sk:ident, $sb:expr, $sn:expr) => {{
            const DK: K = K::$dk($db);
            const SK: K = K::$sk($sb);
            const TY: &str = stringify!($d);
            let (v, o) = (S::V(SK, $sn), S::V(DK, $dn));
            lw(&mut c, op1(TY, concat!("from_", stringify!($s)), v, o, glue!(|a: $s| -> $d { <$d>::from(a) })), g(SK), None, &|t| conv(SK, DK, t[0]));
            lw(&mut c, op1(TY, concat!("into_from_", stringify!($s)), v, o, glue!(|a: $s| -> $d { a.into() })), g(SK), None, &|t| conv(SK, DK, t[0]));
        }};
    }
    for_from_pairs!(from);
    // reflexive casts
    macro_rules! refl {
        ($($d:ident, $dk:ident, $db:expr, $dn:expr;)*) => {$(
            const _: () = ();
            lw(&mut c, op1(stringify!($d), "cast_self", S::V(K::$dk($db), $dn), S::V(K::$dk($db), $dn), glue!(|a: $d| -> $d { Cast::<$d>::cast(a) })), g(K::$dk($db)), None, &|t| fx(K::$dk($db), t[0]));
        )*};
    }
    refl! { i8x16, I, 8, 16; u16x32, U, 16, 32; i32x4, I, 32, 4; f32x8, F, 32, 8; f64x2, F, 64, 2; m8x64, M, 8, 64; m64x4, M, 64, 4; i128x2, I, 128, 2; usizex4, U, 64, 4; }
    c.finish()
}
