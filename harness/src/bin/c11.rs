//! C11: bit reinterpretation
use packed_simd::*;
use std::arch::x86_64::*;
use vmon::*;

fn g(s: K) -> [G; 3] {
    [if let K::M(_) = s { G::Mask } else { G::Any }, G::Any, G::Any]
}
fn same(o: &Obs, ins: S) -> Result<(), String> {
    let mut b = vec![0u8; ins.n() * ins.k().bytes()];
    for (i, x) in o.ins[0].iter().enumerate() {
        put(&mut b, ins.k(), i, *x);
    }
    if o.raw == &b[..] {
        Ok(())
    } else {
        Err(format!("byte image changed: {:02x?} -> {:02x?}", b, o.raw))
    }
}
fn main() {
    let mut c = Ctx::from_args("C11");
    // the result is observed in two ways: as the destination type's memory image, and after converting back
    macro_rules! bits {
        ($d:ident, $dk:ident, $db:expr, $dn:expr, $s:ident, $sk:ident, $sb:expr, $sn:expr) => {{
            const DK: K = K::$dk($db);
            const SK: K = K::$sk($sb);
            const TY: &str = stringify!($d);
            let (v, o) = (S::V(SK, $sn), S::V(DK, $dn));
            wh(&mut c, op1(TY, concat!("from_bits_", stringify!($s)), v, o, glue!(|a: $s| -> $d { FromBits::from_bits(a) })), g(SK), &|ob| same(ob, v));
            wh(&mut c, op1(TY, concat!("into_bits_from_", stringify!($s)), v, o, glue!(|a: $s| -> $d { IntoBits::<$d>::into_bits(a) })), g(SK), &|ob| same(ob, v));
        }};
    }
    for_bits_pairs!(bits);
    for_arch_pairs!(bits);
    // round trips through other types
    macro_rules! round {
        ($($s:ident, $sk:ident, $sb:expr, $sn:expr => $d:ident;)*) => {$(
            let v = S::V(K::$sk($sb), $sn);
            wh(&mut c, op1(stringify!($s), concat!("roundtrip_", stringify!($d)), v, v, glue!(|a: $s| -> $s { let b: $d = a.into_bits(); b.into_bits() })), g(K::$sk($sb)), &|ob| same(ob, v));
        )*};
    }
    round! {
        i8x2, I, 8, 2 => u8x2;
        i8x4, I, 8, 4 => u16x2; i8x8, I, 8, 8 => f32x2; u16x4, U, 16, 4 => i32x2;
        i8x16, I, 8, 16 => f64x2; f32x4, F, 32, 4 => u8x16; f32x4, F, 32, 4 => __m128i; f64x2, F, 64, 2 => __m128; u16x8, U, 16, 8 => __m128i; i128x1, I, 128, 1 => i8x16;
        f64x4, F, 64, 4 => __m256i; i16x16, I, 16, 16 => __m256; u8x32, U, 8, 32 => i128x2; f32x8, F, 32, 8 => i64x4; u128x2, U, 128, 2 => __m256d;
        f64x8, F, 64, 8 => u8x64; i8x64, I, 8, 64 => i128x4; f32x16, F, 32, 16 => u16x32; u64x8, U, 64, 8 => f32x16; i128x4, I, 128, 4 => u32x16;
    }
    c.finish()
}
