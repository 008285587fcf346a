// generated by tools/genpairs.py
#[macro_export]
macro_rules! for_cast_pairs { ($m:ident) => {
    $m!(i8x16, I, 8, 16, u8x16, U, 8, 16);
    $m!(i8x16, I, 8, 16, m8x16, M, 8, 16);
    $m!(i8x16, I, 8, 16, i16x16, I, 16, 16);
    $m!(i8x16, I, 8, 16, u16x16, U, 16, 16);
    $m!(i8x16, I, 8, 16, m16x16, M, 16, 16);
    $m!(i8x16, I, 8, 16, i32x16, I, 32, 16);
    $m!(i8x16, I, 8, 16, u32x16, U, 32, 16);
    $m!(i8x16, I, 8, 16, f32x16, F, 32, 16);
    $m!(i8x16, I, 8, 16, m32x16, M, 32, 16);
    $m!(u8x16, U, 8, 16, i8x16, I, 8, 16);
    $m!(u8x16, U, 8, 16, m8x16, M, 8, 16);
    $m!(u8x16, U, 8, 16, i16x16, I, 16, 16);
    $m!(u8x16, U, 8, 16, u16x16, U, 16, 16);
    $m!(u8x16, U, 8, 16, m16x16, M, 16, 16);
    $m!(u8x16, U, 8, 16, i32x16, I, 32, 16);
    $m!(u8x16, U, 8, 16, u32x16, U, 32, 16);
    $m!(u8x16, U, 8, 16, f32x16, F, 32, 16);
    $m!(u8x16, U, 8, 16, m32x16, M, 32, 16);
    $m!(i16x8, I, 16, 8, i8x8, I, 8, 8);
    $m!(i16x8, I, 16, 8, u8x8, U, 8, 8);
    $m!(i16x8, I, 16, 8, m8x8, M, 8, 8);
    $m!(i16x8, I, 16, 8, u16x8, U, 16, 8);
    $m!(i16x8, I, 16, 8, m16x8, M, 16, 8);
    $m!(i16x8, I, 16, 8, i32x8, I, 32, 8);
    $m!(i16x8, I, 16, 8, u32x8, U, 32, 8);
    $m!(i16x8, I, 16, 8, f32x8, F, 32, 8);
    $m!(i16x8, I, 16, 8, m32x8, M, 32, 8);
    $m!(i16x8, I, 16, 8, i64x8, I, 64, 8);
    $m!(i16x8, I, 16, 8, u64x8, U, 64, 8);
    $m!(i16x8, I, 16, 8, f64x8, F, 64, 8);
    $m!(i16x8, I, 16, 8, m64x8, M, 64, 8);
    $m!(i16x8, I, 16, 8, isizex8, I, 64, 8);
    $m!(i16x8, I, 16, 8, usizex8, U, 64, 8);
    $m!(i16x8, I, 16, 8, msizex8, M, 64, 8);
    $m!(u16x8, U, 16, 8, i8x8, I, 8, 8);
    $m!(u16x8, U, 16, 8, u8x8, U, 8, 8);
    $m!(u16x8, U, 16, 8, m8x8, M, 8, 8);
    $m!(u16x8, U, 16, 8, i16x8, I, 16, 8);
    $m!(u16x8, U, 16, 8, m16x8, M, 16, 8);
    $m!(u16x8, U, 16, 8, i32x8, I, 32, 8);
    $m!(u16x8, U, 16, 8, u32x8, U, 32, 8);
    $m!(u16x8, U, 16, 8, f32x8, F, 32, 8);
    $m!(u16x8, U, 16, 8, m32x8, M, 32, 8);
    $m!(u16x8, U, 16, 8, i64x8, I, 64, 8);
    $m!(u16x8, U, 16, 8, u64x8, U, 64, 8);
    $m!(u16x8, U, 16, 8, f64x8, F, 64, 8);
    $m!(u16x8, U, 16, 8, m64x8, M, 64, 8);
    $m!(u16x8, U, 16, 8, isizex8, I, 64, 8);
    $m!(u16x8, U, 16, 8, usizex8, U, 64, 8);
    $m!(u16x8, U, 16, 8, msizex8, M, 64, 8);
    $m!(i32x4, I, 32, 4, i8x4, I, 8, 4);
    $m!(i32x4, I, 32, 4, u8x4, U, 8, 4);
    $m!(i32x4, I, 32, 4, m8x4, M, 8, 4);
    $m!(i32x4, I, 32, 4, i16x4, I, 16, 4);
    $m!(i32x4, I, 32, 4, u16x4, U, 16, 4);
    $m!(i32x4, I, 32, 4, m16x4, M, 16, 4);
    $m!(i32x4, I, 32, 4, u32x4, U, 32, 4);
    $m!(i32x4, I, 32, 4, f32x4, F, 32, 4);
    $m!(i32x4, I, 32, 4, m32x4, M, 32, 4);
    $m!(i32x4, I, 32, 4, i64x4, I, 64, 4);
    $m!(i32x4, I, 32, 4, u64x4, U, 64, 4);
    $m!(i32x4, I, 32, 4, f64x4, F, 64, 4);
    $m!(i32x4, I, 32, 4, m64x4, M, 64, 4);
    $m!(i32x4, I, 32, 4, i128x4, I, 128, 4);
    $m!(i32x4, I, 32, 4, u128x4, U, 128, 4);
    $m!(i32x4, I, 32, 4, m128x4, M, 128, 4);
    $m!(i32x4, I, 32, 4, isizex4, I, 64, 4);
    $m!(i32x4, I, 32, 4, usizex4, U, 64, 4);
    $m!(i32x4, I, 32, 4, msizex4, M, 64, 4);
    $m!(u32x4, U, 32, 4, i8x4, I, 8, 4);
    $m!(u32x4, U, 32, 4, u8x4, U, 8, 4);
    $m!(u32x4, U, 32, 4, m8x4, M, 8, 4);
    $m!(u32x4, U, 32, 4, i16x4, I, 16, 4);
    $m!(u32x4, U, 32, 4, u16x4, U, 16, 4);
    $m!(u32x4, U, 32, 4, m16x4, M, 16, 4);
    $m!(u32x4, U, 32, 4, i32x4, I, 32, 4);
    $m!(u32x4, U, 32, 4, f32x4, F, 32, 4);
    $m!(u32x4, U, 32, 4, m32x4, M, 32, 4);
    $m!(u32x4, U, 32, 4, i64x4, I, 64, 4);
    $m!(u32x4, U, 32, 4, u64x4, U, 64, 4);
    $m!(u32x4, U, 32, 4, f64x4, F, 64, 4);
    $m!(u32x4, U, 32, 4, m64x4, M, 64, 4);
    $m!(u32x4, U, 32, 4, i128x4, I, 128, 4);
    $m!(u32x4, U, 32, 4, u128x4, U, 128, 4);
    $m!(u32x4, U, 32, 4, m128x4, M, 128, 4);
    $m!(u32x4, U, 32, 4, isizex4, I, 64, 4);
    $m!(u32x4, U, 32, 4, usizex4, U, 64, 4);
    $m!(u32x4, U, 32, 4, msizex4, M, 64, 4);
    $m!(f32x4, F, 32, 4, i8x4, I, 8, 4);
    $m!(f32x4, F, 32, 4, u8x4, U, 8, 4);
    $m!(f32x4, F, 32, 4, m8x4, M, 8, 4);
    $m!(f32x4, F, 32, 4, i16x4, I, 16, 4);
    $m!(f32x4, F, 32, 4, u16x4, U, 16, 4);
    $m!(f32x4, F, 32, 4, m16x4, M, 16, 4);
    $m!(f32x4, F, 32, 4, i32x4, I, 32, 4);
    $m!(f32x4, F, 32, 4, u32x4, U, 32, 4);
    $m!(f32x4, F, 32, 4, m32x4, M, 32, 4);
    $m!(f32x4, F, 32, 4, i64x4, I, 64, 4);
    $m!(f32x4, F, 32, 4, u64x4, U, 64, 4);
    $m!(f32x4, F, 32, 4, f64x4, F, 64, 4);
    $m!(f32x4, F, 32, 4, m64x4, M, 64, 4);
    $m!(f32x4, F, 32, 4, i128x4, I, 128, 4);
    $m!(f32x4, F, 32, 4, u128x4, U, 128, 4);
    $m!(f32x4, F, 32, 4, m128x4, M, 128, 4);
    $m!(f32x4, F, 32, 4, isizex4, I, 64, 4);
    $m!(f32x4, F, 32, 4, usizex4, U, 64, 4);
    $m!(f32x4, F, 32, 4, msizex4, M, 64, 4);
    $m!(i64x2, I, 64, 2, i8x2, I, 8, 2);
    $m!(i64x2, I, 64, 2, u8x2, U, 8, 2);
    $m!(i64x2, I, 64, 2, m8x2, M, 8, 2);
    $m!(i64x2, I, 64, 2, i16x2, I, 16, 2);
    $m!(i64x2, I, 64, 2, u16x2, U, 16, 2);
    $m!(i64x2, I, 64, 2, m16x2, M, 16, 2);
    $m!(i64x2, I, 64, 2, i32x2, I, 32, 2);
    $m!(i64x2, I, 64, 2, u32x2, U, 32, 2);
    $m!(i64x2, I, 64, 2, f32x2, F, 32, 2);
    $m!(i64x2, I, 64, 2, m32x2, M, 32, 2);
    $m!(i64x2, I, 64, 2, u64x2, U, 64, 2);
    $m!(i64x2, I, 64, 2, f64x2, F, 64, 2);
    $m!(i64x2, I, 64, 2, m64x2, M, 64, 2);
    $m!(i64x2, I, 64, 2, i128x2, I, 128, 2);
    $m!(i64x2, I, 64, 2, u128x2, U, 128, 2);
    $m!(i64x2, I, 64, 2, m128x2, M, 128, 2);
    $m!(i64x2, I, 64, 2, isizex2, I, 64, 2);
    $m!(i64x2, I, 64, 2, usizex2, U, 64, 2);
    $m!(i64x2, I, 64, 2, msizex2, M, 64, 2);
    $m!(u64x2, U, 64, 2, i8x2, I, 8, 2);
    $m!(u64x2, U, 64, 2, u8x2, U, 8, 2);
    $m!(u64x2, U, 64, 2, m8x2, M, 8, 2);
    $m!(u64x2, U, 64, 2, i16x2, I, 16, 2);
    $m!(u64x2, U, 64, 2, u16x2, U, 16, 2);
    $m!(u64x2, U, 64, 2, m16x2, M, 16, 2);
    $m!(u64x2, U, 64, 2, i32x2, I, 32, 2);
    $m!(u64x2, U, 64, 2, u32x2, U, 32, 2);
    $m!(u64x2, U, 64, 2, f32x2, F, 32, 2);
    $m!(u64x2, U, 64, 2, m32x2, M, 32, 2);
    $m!(u64x2, U, 64, 2, i64x2, I, 64, 2);
    $m!(u64x2, U, 64, 2, f64x2, F, 64, 2);
    $m!(u64x2, U, 64, 2, m64x2, M, 64, 2);
    $m!(u64x2, U, 64, 2, i128x2, I, 128, 2);
    $m!(u64x2, U, 64, 2, u128x2, U, 128, 2);
    $m!(u64x2, U, 64, 2, m128x2, M, 128, 2);
    $m!(u64x2, U, 64, 2, isizex2, I, 64, 2);
    $m!(u64x2, U, 64, 2, usizex2, U, 64, 2);
    $m!(u64x2, U, 64, 2, msizex2, M, 64, 2);
    $m!(f64x2, F, 64, 2, i8x2, I, 8, 2);
    $m!(f64x2, F, 64, 2, u8x2, U, 8, 2);
    $m!(f64x2, F, 64, 2, m8x2, M, 8, 2);
    $m!(f64x2, F, 64, 2, i16x2, I, 16, 2);
    $m!(f64x2, F, 64, 2, u16x2, U, 16, 2);
    $m!(f64x2, F, 64, 2, m16x2, M, 16, 2);
    $m!(f64x2, F, 64, 2, i32x2, I, 32, 2);
    $m!(f64x2, F, 64, 2, u32x2, U, 32, 2);
    $m!(f64x2, F, 64, 2, f32x2, F, 32, 2);
    $m!(f64x2, F, 64, 2, m32x2, M, 32, 2);
    $m!(f64x2, F, 64, 2, i64x2, I, 64, 2);
    $m!(f64x2, F, 64, 2, u64x2, U, 64, 2);
    $m!(f64x2, F, 64, 2, m64x2, M, 64, 2);
    $m!(f64x2, F, 64, 2, i128x2, I, 128, 2);
    $m!(f64x2, F, 64, 2, u128x2, U, 128, 2);
    $m!(f64x2, F, 64, 2, m128x2, M, 128, 2);
    $m!(f64x2, F, 64, 2, isizex2, I, 64, 2);
    $m!(f64x2, F, 64, 2, usizex2, U, 64, 2);
    $m!(f64x2, F, 64, 2, msizex2, M, 64, 2);
    $m!(isizex2, I, 64, 2, i8x2, I, 8, 2);
    $m!(isizex2, I, 64, 2, u8x2, U, 8, 2);
    $m!(isizex2, I, 64, 2, m8x2, M, 8, 2);
    $m!(isizex2, I, 64, 2, i16x2, I, 16, 2);
    $m!(isizex2, I, 64, 2, u16x2, U, 16, 2);
    $m!(isizex2, I, 64, 2, m16x2, M, 16, 2);
    $m!(isizex2, I, 64, 2, i32x2, I, 32, 2);
    $m!(isizex2, I, 64, 2, u32x2, U, 32, 2);
    $m!(isizex2, I, 64, 2, f32x2, F, 32, 2);
    $m!(isizex2, I, 64, 2, m32x2, M, 32, 2);
    $m!(isizex2, I, 64, 2, i64x2, I, 64, 2);
    $m!(isizex2, I, 64, 2, u64x2, U, 64, 2);
    $m!(isizex2, I, 64, 2, f64x2, F, 64, 2);
    $m!(isizex2, I, 64, 2, m64x2, M, 64, 2);
    $m!(isizex2, I, 64, 2, i128x2, I, 128, 2);
    $m!(isizex2, I, 64, 2, u128x2, U, 128, 2);
    $m!(isizex2, I, 64, 2, m128x2, M, 128, 2);
    $m!(isizex2, I, 64, 2, usizex2, U, 64, 2);
    $m!(isizex2, I, 64, 2, msizex2, M, 64, 2);
    $m!(usizex2, U, 64, 2, i8x2, I, 8, 2);
    $m!(usizex2, U, 64, 2, u8x2, U, 8, 2);
    $m!(usizex2, U, 64, 2, m8x2, M, 8, 2);
    $m!(usizex2, U, 64, 2, i16x2, I, 16, 2);
    $m!(usizex2, U, 64, 2, u16x2, U, 16, 2);
    $m!(usizex2, U, 64, 2, m16x2, M, 16, 2);
    $m!(usizex2, U, 64, 2, i32x2, I, 32, 2);
    $m!(usizex2, U, 64, 2, u32x2, U, 32, 2);
    $m!(usizex2, U, 64, 2, f32x2, F, 32, 2);
    $m!(usizex2, U, 64, 2, m32x2, M, 32, 2);
    $m!(usizex2, U, 64, 2, i64x2, I, 64, 2);
    $m!(usizex2, U, 64, 2, u64x2, U, 64, 2);
    $m!(usizex2, U, 64, 2, f64x2, F, 64, 2);
    $m!(usizex2, U, 64, 2, m64x2, M, 64, 2);
    $m!(usizex2, U, 64, 2, i128x2, I, 128, 2);
    $m!(usizex2, U, 64, 2, u128x2, U, 128, 2);
    $m!(usizex2, U, 64, 2, m128x2, M, 128, 2);
    $m!(usizex2, U, 64, 2, isizex2, I, 64, 2);
    $m!(usizex2, U, 64, 2, msizex2, M, 64, 2);
    $m!(i128x1, I, 128, 1, u128x1, U, 128, 1);
    $m!(i128x1, I, 128, 1, m128x1, M, 128, 1);
    $m!(u128x1, U, 128, 1, i128x1, I, 128, 1);
    $m!(u128x1, U, 128, 1, m128x1, M, 128, 1);
    $m!(m128x1, M, 128, 1, i128x1, I, 128, 1);
    $m!(m128x1, M, 128, 1, u128x1, U, 128, 1);
    $m!(m8x16, M, 8, 16, i8x16, I, 8, 16);
    $m!(m8x16, M, 8, 16, u8x16, U, 8, 16);
    $m!(m8x16, M, 8, 16, i16x16, I, 16, 16);
    $m!(m8x16, M, 8, 16, u16x16, U, 16, 16);
    $m!(m8x16, M, 8, 16, m16x16, M, 16, 16);
    $m!(m8x16, M, 8, 16, i32x16, I, 32, 16);
    $m!(m8x16, M, 8, 16, u32x16, U, 32, 16);
    $m!(m8x16, M, 8, 16, f32x16, F, 32, 16);
    $m!(m8x16, M, 8, 16, m32x16, M, 32, 16);
    $m!(m16x8, M, 16, 8, i8x8, I, 8, 8);
    $m!(m16x8, M, 16, 8, u8x8, U, 8, 8);
    $m!(m16x8, M, 16, 8, m8x8, M, 8, 8);
    $m!(m16x8, M, 16, 8, i16x8, I, 16, 8);
    $m!(m16x8, M, 16, 8, u16x8, U, 16, 8);
    $m!(m16x8, M, 16, 8, i32x8, I, 32, 8);
    $m!(m16x8, M, 16, 8, u32x8, U, 32, 8);
    $m!(m16x8, M, 16, 8, f32x8, F, 32, 8);
    $m!(m16x8, M, 16, 8, m32x8, M, 32, 8);
    $m!(m16x8, M, 16, 8, i64x8, I, 64, 8);
    $m!(m16x8, M, 16, 8, u64x8, U, 64, 8);
    $m!(m16x8, M, 16, 8, f64x8, F, 64, 8);
    $m!(m16x8, M, 16, 8, m64x8, M, 64, 8);
    $m!(m16x8, M, 16, 8, isizex8, I, 64, 8);
    $m!(m16x8, M, 16, 8, usizex8, U, 64, 8);
    $m!(m16x8, M, 16, 8, msizex8, M, 64, 8);
    $m!(m32x4, M, 32, 4, i8x4, I, 8, 4);
    $m!(m32x4, M, 32, 4, u8x4, U, 8, 4);
    $m!(m32x4, M, 32, 4, m8x4, M, 8, 4);
    $m!(m32x4, M, 32, 4, i16x4, I, 16, 4);
    $m!(m32x4, M, 32, 4, u16x4, U, 16, 4);
    $m!(m32x4, M, 32, 4, m16x4, M, 16, 4);
    $m!(m32x4, M, 32, 4, i32x4, I, 32, 4);
    $m!(m32x4, M, 32, 4, u32x4, U, 32, 4);
    $m!(m32x4, M, 32, 4, f32x4, F, 32, 4);
    $m!(m32x4, M, 32, 4, i64x4, I, 64, 4);
    $m!(m32x4, M, 32, 4, u64x4, U, 64, 4);
    $m!(m32x4, M, 32, 4, f64x4, F, 64, 4);
    $m!(m32x4, M, 32, 4, m64x4, M, 64, 4);
    $m!(m32x4, M, 32, 4, i128x4, I, 128, 4);
    $m!(m32x4, M, 32, 4, u128x4, U, 128, 4);
    $m!(m32x4, M, 32, 4, m128x4, M, 128, 4);
    $m!(m32x4, M, 32, 4, isizex4, I, 64, 4);
    $m!(m32x4, M, 32, 4, usizex4, U, 64, 4);
    $m!(m32x4, M, 32, 4, msizex4, M, 64, 4);
    $m!(m64x2, M, 64, 2, i8x2, I, 8, 2);
    $m!(m64x2, M, 64, 2, u8x2, U, 8, 2);
    $m!(m64x2, M, 64, 2, m8x2, M, 8, 2);
    $m!(m64x2, M, 64, 2, i16x2, I, 16, 2);
    $m!(m64x2, M, 64, 2, u16x2, U, 16, 2);
    $m!(m64x2, M, 64, 2, m16x2, M, 16, 2);
    $m!(m64x2, M, 64, 2, i32x2, I, 32, 2);
    $m!(m64x2, M, 64, 2, u32x2, U, 32, 2);
    $m!(m64x2, M, 64, 2, f32x2, F, 32, 2);
    $m!(m64x2, M, 64, 2, m32x2, M, 32, 2);
    $m!(m64x2, M, 64, 2, i64x2, I, 64, 2);
    $m!(m64x2, M, 64, 2, u64x2, U, 64, 2);
    $m!(m64x2, M, 64, 2, f64x2, F, 64, 2);
    $m!(m64x2, M, 64, 2, i128x2, I, 128, 2);
    $m!(m64x2, M, 64, 2, u128x2, U, 128, 2);
    $m!(m64x2, M, 64, 2, m128x2, M, 128, 2);
    $m!(m64x2, M, 64, 2, isizex2, I, 64, 2);
    $m!(m64x2, M, 64, 2, usizex2, U, 64, 2);
    $m!(m64x2, M, 64, 2, msizex2, M, 64, 2);
    $m!(msizex2, M, 64, 2, i8x2, I, 8, 2);
    $m!(msizex2, M, 64, 2, u8x2, U, 8, 2);
    $m!(msizex2, M, 64, 2, m8x2, M, 8, 2);
    $m!(msizex2, M, 64, 2, i16x2, I, 16, 2);
    $m!(msizex2, M, 64, 2, u16x2, U, 16, 2);
    $m!(msizex2, M, 64, 2, m16x2, M, 16, 2);
    $m!(msizex2, M, 64, 2, i32x2, I, 32, 2);
    $m!(msizex2, M, 64, 2, u32x2, U, 32, 2);
    $m!(msizex2, M, 64, 2, f32x2, F, 32, 2);
    $m!(msizex2, M, 64, 2, m32x2, M, 32, 2);
    $m!(msizex2, M, 64, 2, i64x2, I, 64, 2);
    $m!(msizex2, M, 64, 2, u64x2, U, 64, 2);
    $m!(msizex2, M, 64, 2, f64x2, F, 64, 2);
    $m!(msizex2, M, 64, 2, m64x2, M, 64, 2);
    $m!(msizex2, M, 64, 2, i128x2, I, 128, 2);
    $m!(msizex2, M, 64, 2, u128x2, U, 128, 2);
    $m!(msizex2, M, 64, 2, m128x2, M, 128, 2);
    $m!(msizex2, M, 64, 2, isizex2, I, 64, 2);
    $m!(msizex2, M, 64, 2, usizex2, U, 64, 2);
    $m!(i8x2, I, 8, 2, u8x2, U, 8, 2);
    $m!(i8x2, I, 8, 2, m8x2, M, 8, 2);
    $m!(i8x2, I, 8, 2, i16x2, I, 16, 2);
    $m!(i8x2, I, 8, 2, u16x2, U, 16, 2);
    $m!(i8x2, I, 8, 2, m16x2, M, 16, 2);
    $m!(i8x2, I, 8, 2, i32x2, I, 32, 2);
    $m!(i8x2, I, 8, 2, u32x2, U, 32, 2);
    $m!(i8x2, I, 8, 2, f32x2, F, 32, 2);
    $m!(i8x2, I, 8, 2, m32x2, M, 32, 2);
    $m!(i8x2, I, 8, 2, i64x2, I, 64, 2);
    $m!(i8x2, I, 8, 2, u64x2, U, 64, 2);
    $m!(i8x2, I, 8, 2, f64x2, F, 64, 2);
    $m!(i8x2, I, 8, 2, m64x2, M, 64, 2);
    $m!(i8x2, I, 8, 2, i128x2, I, 128, 2);
    $m!(i8x2, I, 8, 2, u128x2, U, 128, 2);
    $m!(i8x2, I, 8, 2, m128x2, M, 128, 2);
    $m!(i8x2, I, 8, 2, isizex2, I, 64, 2);
    $m!(i8x2, I, 8, 2, usizex2, U, 64, 2);
    $m!(i8x2, I, 8, 2, msizex2, M, 64, 2);
    $m!(u8x2, U, 8, 2, i8x2, I, 8, 2);
    $m!(u8x2, U, 8, 2, m8x2, M, 8, 2);
    $m!(u8x2, U, 8, 2, i16x2, I, 16, 2);
    $m!(u8x2, U, 8, 2, u16x2, U, 16, 2);
    $m!(u8x2, U, 8, 2, m16x2, M, 16, 2);
    $m!(u8x2, U, 8, 2, i32x2, I, 32, 2);
    $m!(u8x2, U, 8, 2, u32x2, U, 32, 2);
    $m!(u8x2, U, 8, 2, f32x2, F, 32, 2);
    $m!(u8x2, U, 8, 2, m32x2, M, 32, 2);
    $m!(u8x2, U, 8, 2, i64x2, I, 64, 2);
    $m!(u8x2, U, 8, 2, u64x2, U, 64, 2);
    $m!(u8x2, U, 8, 2, f64x2, F, 64, 2);
    $m!(u8x2, U, 8, 2, m64x2, M, 64, 2);
    $m!(u8x2, U, 8, 2, i128x2, I, 128, 2);
    $m!(u8x2, U, 8, 2, u128x2, U, 128, 2);
    $m!(u8x2, U, 8, 2, m128x2, M, 128, 2);
    $m!(u8x2, U, 8, 2, isizex2, I, 64, 2);
    $m!(u8x2, U, 8, 2, usizex2, U, 64, 2);
    $m!(u8x2, U, 8, 2, msizex2, M, 64, 2);
    $m!(m8x2, M, 8, 2, i8x2, I, 8, 2);
    $m!(m8x2, M, 8, 2, u8x2, U, 8, 2);
    $m!(m8x2, M, 8, 2, i16x2, I, 16, 2);
    $m!(m8x2, M, 8, 2, u16x2, U, 16, 2);
    $m!(m8x2, M, 8, 2, m16x2, M, 16, 2);
    $m!(m8x2, M, 8, 2, i32x2, I, 32, 2);
    $m!(m8x2, M, 8, 2, u32x2, U, 32, 2);
    $m!(m8x2, M, 8, 2, f32x2, F, 32, 2);
    $m!(m8x2, M, 8, 2, m32x2, M, 32, 2);
    $m!(m8x2, M, 8, 2, i64x2, I, 64, 2);
    $m!(m8x2, M, 8, 2, u64x2, U, 64, 2);
    $m!(m8x2, M, 8, 2, f64x2, F, 64, 2);
    $m!(m8x2, M, 8, 2, m64x2, M, 64, 2);
    $m!(m8x2, M, 8, 2, i128x2, I, 128, 2);
    $m!(m8x2, M, 8, 2, u128x2, U, 128, 2);
    $m!(m8x2, M, 8, 2, m128x2, M, 128, 2);
    $m!(m8x2, M, 8, 2, isizex2, I, 64, 2);
    $m!(m8x2, M, 8, 2, usizex2, U, 64, 2);
    $m!(m8x2, M, 8, 2, msizex2, M, 64, 2);
    $m!(i8x32, I, 8, 32, u8x32, U, 8, 32);
    $m!(i8x32, I, 8, 32, m8x32, M, 8, 32);
    $m!(i8x32, I, 8, 32, i16x32, I, 16, 32);
    $m!(i8x32, I, 8, 32, u16x32, U, 16, 32);
    $m!(i8x32, I, 8, 32, m16x32, M, 16, 32);
    $m!(u8x32, U, 8, 32, i8x32, I, 8, 32);
    $m!(u8x32, U, 8, 32, m8x32, M, 8, 32);
    $m!(u8x32, U, 8, 32, i16x32, I, 16, 32);
    $m!(u8x32, U, 8, 32, u16x32, U, 16, 32);
    $m!(u8x32, U, 8, 32, m16x32, M, 16, 32);
    $m!(i16x16, I, 16, 16, i8x16, I, 8, 16);
    $m!(i16x16, I, 16, 16, u8x16, U, 8, 16);
    $m!(i16x16, I, 16, 16, m8x16, M, 8, 16);
    $m!(i16x16, I, 16, 16, u16x16, U, 16, 16);
    $m!(i16x16, I, 16, 16, m16x16, M, 16, 16);
    $m!(i16x16, I, 16, 16, i32x16, I, 32, 16);
    $m!(i16x16, I, 16, 16, u32x16, U, 32, 16);
    $m!(i16x16, I, 16, 16, f32x16, F, 32, 16);
    $m!(i16x16, I, 16, 16, m32x16, M, 32, 16);
    $m!(u16x16, U, 16, 16, i8x16, I, 8, 16);
    $m!(u16x16, U, 16, 16, u8x16, U, 8, 16);
    $m!(u16x16, U, 16, 16, m8x16, M, 8, 16);
    $m!(u16x16, U, 16, 16, i16x16, I, 16, 16);
    $m!(u16x16, U, 16, 16, m16x16, M, 16, 16);
    $m!(u16x16, U, 16, 16, i32x16, I, 32, 16);
    $m!(u16x16, U, 16, 16, u32x16, U, 32, 16);
    $m!(u16x16, U, 16, 16, f32x16, F, 32, 16);
    $m!(u16x16, U, 16, 16, m32x16, M, 32, 16);
    $m!(i32x8, I, 32, 8, i8x8, I, 8, 8);
    $m!(i32x8, I, 32, 8, u8x8, U, 8, 8);
    $m!(i32x8, I, 32, 8, m8x8, M, 8, 8);
    $m!(i32x8, I, 32, 8, i16x8, I, 16, 8);
    $m!(i32x8, I, 32, 8, u16x8, U, 16, 8);
    $m!(i32x8, I, 32, 8, m16x8, M, 16, 8);
    $m!(i32x8, I, 32, 8, u32x8, U, 32, 8);
    $m!(i32x8, I, 32, 8, f32x8, F, 32, 8);
    $m!(i32x8, I, 32, 8, m32x8, M, 32, 8);
    $m!(i32x8, I, 32, 8, i64x8, I, 64, 8);
    $m!(i32x8, I, 32, 8, u64x8, U, 64, 8);
    $m!(i32x8, I, 32, 8, f64x8, F, 64, 8);
    $m!(i32x8, I, 32, 8, m64x8, M, 64, 8);
    $m!(i32x8, I, 32, 8, isizex8, I, 64, 8);
    $m!(i32x8, I, 32, 8, usizex8, U, 64, 8);
    $m!(i32x8, I, 32, 8, msizex8, M, 64, 8);
    $m!(u32x8, U, 32, 8, i8x8, I, 8, 8);
    $m!(u32x8, U, 32, 8, u8x8, U, 8, 8);
    $m!(u32x8, U, 32, 8, m8x8, M, 8, 8);
    $m!(u32x8, U, 32, 8, i16x8, I, 16, 8);
    $m!(u32x8, U, 32, 8, u16x8, U, 16, 8);
    $m!(u32x8, U, 32, 8, m16x8, M, 16, 8);
    $m!(u32x8, U, 32, 8, i32x8, I, 32, 8);
    $m!(u32x8, U, 32, 8, f32x8, F, 32, 8);
    $m!(u32x8, U, 32, 8, m32x8, M, 32, 8);
    $m!(u32x8, U, 32, 8, i64x8, I, 64, 8);
    $m!(u32x8, U, 32, 8, u64x8, U, 64, 8);
    $m!(u32x8, U, 32, 8, f64x8, F, 64, 8);
    $m!(u32x8, U, 32, 8, m64x8, M, 64, 8);
    $m!(u32x8, U, 32, 8, isizex8, I, 64, 8);
    $m!(u32x8, U, 32, 8, usizex8, U, 64, 8);
    $m!(u32x8, U, 32, 8, msizex8, M, 64, 8);
    $m!(f32x8, F, 32, 8, i8x8, I, 8, 8);
    $m!(f32x8, F, 32, 8, u8x8, U, 8, 8);
    $m!(f32x8, F, 32, 8, m8x8, M, 8, 8);
    $m!(f32x8, F, 32, 8, i16x8, I, 16, 8);
    $m!(f32x8, F, 32, 8, u16x8, U, 16, 8);
    $m!(f32x8, F, 32, 8, m16x8, M, 16, 8);
    $m!(f32x8, F, 32, 8, i32x8, I, 32, 8);
    $m!(f32x8, F, 32, 8, u32x8, U, 32, 8);
    $m!(f32x8, F, 32, 8, m32x8, M, 32, 8);
    $m!(f32x8, F, 32, 8, i64x8, I, 64, 8);
    $m!(f32x8, F, 32, 8, u64x8, U, 64, 8);
    $m!(f32x8, F, 32, 8, f64x8, F, 64, 8);
    $m!(f32x8, F, 32, 8, m64x8, M, 64, 8);
    $m!(f32x8, F, 32, 8, isizex8, I, 64, 8);
    $m!(f32x8, F, 32, 8, usizex8, U, 64, 8);
    $m!(f32x8, F, 32, 8, msizex8, M, 64, 8);
    $m!(i64x4, I, 64, 4, i8x4, I, 8, 4);
    $m!(i64x4, I, 64, 4, u8x4, U, 8, 4);
    $m!(i64x4, I, 64, 4, m8x4, M, 8, 4);
    $m!(i64x4, I, 64, 4, i16x4, I, 16, 4);
    $m!(i64x4, I, 64, 4, u16x4, U, 16, 4);
    $m!(i64x4, I, 64, 4, m16x4, M, 16, 4);
    $m!(i64x4, I, 64, 4, i32x4, I, 32, 4);
    $m!(i64x4, I, 64, 4, u32x4, U, 32, 4);
    $m!(i64x4, I, 64, 4, f32x4, F, 32, 4);
    $m!(i64x4, I, 64, 4, m32x4, M, 32, 4);
    $m!(i64x4, I, 64, 4, u64x4, U, 64, 4);
    $m!(i64x4, I, 64, 4, f64x4, F, 64, 4);
    $m!(i64x4, I, 64, 4, m64x4, M, 64, 4);
    $m!(i64x4, I, 64, 4, i128x4, I, 128, 4);
    $m!(i64x4, I, 64, 4, u128x4, U, 128, 4);
    $m!(i64x4, I, 64, 4, m128x4, M, 128, 4);
    $m!(i64x4, I, 64, 4, isizex4, I, 64, 4);
    $m!(i64x4, I, 64, 4, usizex4, U, 64, 4);
    $m!(i64x4, I, 64, 4, msizex4, M, 64, 4);
    $m!(u64x4, U, 64, 4, i8x4, I, 8, 4);
    $m!(u64x4, U, 64, 4, u8x4, U, 8, 4);
    $m!(u64x4, U, 64, 4, m8x4, M, 8, 4);
    $m!(u64x4, U, 64, 4, i16x4, I, 16, 4);
    $m!(u64x4, U, 64, 4, u16x4, U, 16, 4);
    $m!(u64x4, U, 64, 4, m16x4, M, 16, 4);
    $m!(u64x4, U, 64, 4, i32x4, I, 32, 4);
    $m!(u64x4, U, 64, 4, u32x4, U, 32, 4);
    $m!(u64x4, U, 64, 4, f32x4, F, 32, 4);
    $m!(u64x4, U, 64, 4, m32x4, M, 32, 4);
    $m!(u64x4, U, 64, 4, i64x4, I, 64, 4);
    $m!(u64x4, U, 64, 4, f64x4, F, 64, 4);
    $m!(u64x4, U, 64, 4, m64x4, M, 64, 4);
    $m!(u64x4, U, 64, 4, i128x4, I, 128, 4);
    $m!(u64x4, U, 64, 4, u128x4, U, 128, 4);
    $m!(u64x4, U, 64, 4, m128x4, M, 128, 4);
    $m!(u64x4, U, 64, 4, isizex4, I, 64, 4);
    $m!(u64x4, U, 64, 4, usizex4, U, 64, 4);
    $m!(u64x4, U, 64, 4, msizex4, M, 64, 4);
    $m!(f64x4, F, 64, 4, i8x4, I, 8, 4);
    $m!(f64x4, F, 64, 4, u8x4, U, 8, 4);
    $m!(f64x4, F, 64, 4, m8x4, M, 8, 4);
    $m!(f64x4, F, 64, 4, i16x4, I, 16, 4);
    $m!(f64x4, F, 64, 4, u16x4, U, 16, 4);
    $m!(f64x4, F, 64, 4, m16x4, M, 16, 4);
    $m!(f64x4, F, 64, 4, i32x4, I, 32, 4);
    $m!(f64x4, F, 64, 4, u32x4, U, 32, 4);
    $m!(f64x4, F, 64, 4, f32x4, F, 32, 4);
    $m!(f64x4, F, 64, 4, m32x4, M, 32, 4);
    $m!(f64x4, F, 64, 4, i64x4, I, 64, 4);
    $m!(f64x4, F, 64, 4, u64x4, U, 64, 4);
    $m!(f64x4, F, 64, 4, m64x4, M, 64, 4);
    $m!(f64x4, F, 64, 4, i128x4, I, 128, 4);
    $m!(f64x4, F, 64, 4, u128x4, U, 128, 4);
    $m!(f64x4, F, 64, 4, m128x4, M, 128, 4);
    $m!(f64x4, F, 64, 4, isizex4, I, 64, 4);
    $m!(f64x4, F, 64, 4, usizex4, U, 64, 4);
    $m!(f64x4, F, 64, 4, msizex4, M, 64, 4);
    $m!(i128x2, I, 128, 2, i8x2, I, 8, 2);
    $m!(i128x2, I, 128, 2, u8x2, U, 8, 2);
    $m!(i128x2, I, 128, 2, m8x2, M, 8, 2);
    $m!(i128x2, I, 128, 2, i16x2, I, 16, 2);
    $m!(i128x2, I, 128, 2, u16x2, U, 16, 2);
    $m!(i128x2, I, 128, 2, m16x2, M, 16, 2);
    $m!(i128x2, I, 128, 2, i32x2, I, 32, 2);
    $m!(i128x2, I, 128, 2, u32x2, U, 32, 2);
    $m!(i128x2, I, 128, 2, f32x2, F, 32, 2);
    $m!(i128x2, I, 128, 2, m32x2, M, 32, 2);
    $m!(i128x2, I, 128, 2, i64x2, I, 64, 2);
    $m!(i128x2, I, 128, 2, u64x2, U, 64, 2);
    $m!(i128x2, I, 128, 2, f64x2, F, 64, 2);
    $m!(i128x2, I, 128, 2, m64x2, M, 64, 2);
    $m!(i128x2, I, 128, 2, u128x2, U, 128, 2);
    $m!(i128x2, I, 128, 2, m128x2, M, 128, 2);
    $m!(i128x2, I, 128, 2, isizex2, I, 64, 2);
    $m!(i128x2, I, 128, 2, usizex2, U, 64, 2);
    $m!(i128x2, I, 128, 2, msizex2, M, 64, 2);
    $m!(u128x2, U, 128, 2, i8x2, I, 8, 2);
    $m!(u128x2, U, 128, 2, u8x2, U, 8, 2);
    $m!(u128x2, U, 128, 2, m8x2, M, 8, 2);
    $m!(u128x2, U, 128, 2, i16x2, I, 16, 2);
    $m!(u128x2, U, 128, 2, u16x2, U, 16, 2);
    $m!(u128x2, U, 128, 2, m16x2, M, 16, 2);
    $m!(u128x2, U, 128, 2, i32x2, I, 32, 2);
    $m!(u128x2, U, 128, 2, u32x2, U, 32, 2);
    $m!(u128x2, U, 128, 2, f32x2, F, 32, 2);
    $m!(u128x2, U, 128, 2, m32x2, M, 32, 2);
    $m!(u128x2, U, 128, 2, i64x2, I, 64, 2);
    $m!(u128x2, U, 128, 2, u64x2, U, 64, 2);
    $m!(u128x2, U, 128, 2, f64x2, F, 64, 2);
    $m!(u128x2, U, 128, 2, m64x2, M, 64, 2);
    $m!(u128x2, U, 128, 2, i128x2, I, 128, 2);
    $m!(u128x2, U, 128, 2, m128x2, M, 128, 2);
    $m!(u128x2, U, 128, 2, isizex2, I, 64, 2);
    $m!(u128x2, U, 128, 2, usizex2, U, 64, 2);
    $m!(u128x2, U, 128, 2, msizex2, M, 64, 2);
    $m!(isizex4, I, 64, 4, i8x4, I, 8, 4);
    $m!(isizex4, I, 64, 4, u8x4, U, 8, 4);
    $m!(isizex4, I, 64, 4, m8x4, M, 8, 4);
    $m!(isizex4, I, 64, 4, i16x4, I, 16, 4);
    $m!(isizex4, I, 64, 4, u16x4, U, 16, 4);
    $m!(isizex4, I, 64, 4, m16x4, M, 16, 4);
    $m!(isizex4, I, 64, 4, i32x4, I, 32, 4);
    $m!(isizex4, I, 64, 4, u32x4, U, 32, 4);
    $m!(isizex4, I, 64, 4, f32x4, F, 32, 4);
    $m!(isizex4, I, 64, 4, m32x4, M, 32, 4);
    $m!(isizex4, I, 64, 4, i64x4, I, 64, 4);
    $m!(isizex4, I, 64, 4, u64x4, U, 64, 4);
    $m!(isizex4, I, 64, 4, f64x4, F, 64, 4);
    $m!(isizex4, I, 64, 4, m64x4, M, 64, 4);
    $m!(isizex4, I, 64, 4, i128x4, I, 128, 4);
    $m!(isizex4, I, 64, 4, u128x4, U, 128, 4);
    $m!(isizex4, I, 64, 4, m128x4, M, 128, 4);
    $m!(isizex4, I, 64, 4, usizex4, U, 64, 4);
    $m!(isizex4, I, 64, 4, msizex4, M, 64, 4);
    $m!(usizex4, U, 64, 4, i8x4, I, 8, 4);
    $m!(usizex4, U, 64, 4, u8x4, U, 8, 4);
    $m!(usizex4, U, 64, 4, m8x4, M, 8, 4);
    $m!(usizex4, U, 64, 4, i16x4, I, 16, 4);
    $m!(usizex4, U, 64, 4, u16x4, U, 16, 4);
    $m!(usizex4, U, 64, 4, m16x4, M, 16, 4);
    $m!(usizex4, U, 64, 4, i32x4, I, 32, 4);
    $m!(usizex4, U, 64, 4, u32x4, U, 32, 4);
    $m!(usizex4, U, 64, 4, f32x4, F, 32, 4);
    $m!(usizex4, U, 64, 4, m32x4, M, 32, 4);
    $m!(usizex4, U, 64, 4, i64x4, I, 64, 4);
    $m!(usizex4, U, 64, 4, u64x4, U, 64, 4);
    $m!(usizex4, U, 64, 4, f64x4, F, 64, 4);
    $m!(usizex4, U, 64, 4, m64x4, M, 64, 4);
    $m!(usizex4, U, 64, 4, i128x4, I, 128, 4);
    $m!(usizex4, U, 64, 4, u128x4, U, 128, 4);
    $m!(usizex4, U, 64, 4, m128x4, M, 128, 4);
    $m!(usizex4, U, 64, 4, isizex4, I, 64, 4);
    $m!(usizex4, U, 64, 4, msizex4, M, 64, 4);
    $m!(m8x32, M, 8, 32, i8x32, I, 8, 32);
    $m!(m8x32, M, 8, 32, u8x32, U, 8, 32);
    $m!(m8x32, M, 8, 32, i16x32, I, 16, 32);
    $m!(m8x32, M, 8, 32, u16x32, U, 16, 32);
    $m!(m8x32, M, 8, 32, m16x32, M, 16, 32);
    $m!(m16x16, M, 16, 16, i8x16, I, 8, 16);
    $m!(m16x16, M, 16, 16, u8x16, U, 8, 16);
    $m!(m16x16, M, 16, 16, m8x16, M, 8, 16);
    $m!(m16x16, M, 16, 16, i16x16, I, 16, 16);
    $m!(m16x16, M, 16, 16, u16x16, U, 16, 16);
    $m!(m16x16, M, 16, 16, i32x16, I, 32, 16);
    $m!(m16x16, M, 16, 16, u32x16, U, 32, 16);
    $m!(m16x16, M, 16, 16, f32x16, F, 32, 16);
    $m!(m16x16, M, 16, 16, m32x16, M, 32, 16);
    $m!(m32x8, M, 32, 8, i8x8, I, 8, 8);
    $m!(m32x8, M, 32, 8, u8x8, U, 8, 8);
    $m!(m32x8, M, 32, 8, m8x8, M, 8, 8);
    $m!(m32x8, M, 32, 8, i16x8, I, 16, 8);
    $m!(m32x8, M, 32, 8, u16x8, U, 16, 8);
    $m!(m32x8, M, 32, 8, m16x8, M, 16, 8);
    $m!(m32x8, M, 32, 8, i32x8, I, 32, 8);
    $m!(m32x8, M, 32, 8, u32x8, U, 32, 8);
    $m!(m32x8, M, 32, 8, f32x8, F, 32, 8);
    $m!(m32x8, M, 32, 8, i64x8, I, 64, 8);
    $m!(m32x8, M, 32, 8, u64x8, U, 64, 8);
    $m!(m32x8, M, 32, 8, f64x8, F, 64, 8);
    $m!(m32x8, M, 32, 8, m64x8, M, 64, 8);
    $m!(m32x8, M, 32, 8, isizex8, I, 64, 8);
    $m!(m32x8, M, 32, 8, usizex8, U, 64, 8);
    $m!(m32x8, M, 32, 8, msizex8, M, 64, 8);
    $m!(m64x4, M, 64, 4, i8x4, I, 8, 4);
    $m!(m64x4, M, 64, 4, u8x4, U, 8, 4);
    $m!(m64x4, M, 64, 4, m8x4, M, 8, 4);
    $m!(m64x4, M, 64, 4, i16x4, I, 16, 4);
    $m!(m64x4, M, 64, 4, u16x4, U, 16, 4);
    $m!(m64x4, M, 64, 4, m16x4, M, 16, 4);
    $m!(m64x4, M, 64, 4, i32x4, I, 32, 4);
    $m!(m64x4, M, 64, 4, u32x4, U, 32, 4);
    $m!(m64x4, M, 64, 4, f32x4, F, 32, 4);
    $m!(m64x4, M, 64, 4, m32x4, M, 32, 4);
    $m!(m64x4, M, 64, 4, i64x4, I, 64, 4);
    $m!(m64x4, M, 64, 4, u64x4, U, 64, 4);
    $m!(m64x4, M, 64, 4, f64x4, F, 64, 4);
    $m!(m64x4, M, 64, 4, i128x4, I, 128, 4);
    $m!(m64x4, M, 64, 4, u128x4, U, 128, 4);
    $m!(m64x4, M, 64, 4, m128x4, M, 128, 4);
    $m!(m64x4, M, 64, 4, isizex4, I, 64, 4);
    $m!(m64x4, M, 64, 4, usizex4, U, 64, 4);
    $m!(m64x4, M, 64, 4, msizex4, M, 64, 4);
    $m!(m128x2, M, 128, 2, i8x2, I, 8, 2);
    $m!(m128x2, M, 128, 2, u8x2, U, 8, 2);
    $m!(m128x2, M, 128, 2, m8x2, M, 8, 2);
    $m!(m128x2, M, 128, 2, i16x2, I, 16, 2);
    $m!(m128x2, M, 128, 2, u16x2, U, 16, 2);
    $m!(m128x2, M, 128, 2, m16x2, M, 16, 2);
    $m!(m128x2, M, 128, 2, i32x2, I, 32, 2);
    $m!(m128x2, M, 128, 2, u32x2, U, 32, 2);
    $m!(m128x2, M, 128, 2, f32x2, F, 32, 2);
    $m!(m128x2, M, 128, 2, m32x2, M, 32, 2);
    $m!(m128x2, M, 128, 2, i64x2, I, 64, 2);
    $m!(m128x2, M, 128, 2, u64x2, U, 64, 2);
    $m!(m128x2, M, 128, 2, m64x2, M, 64, 2);
    $m!(m128x2, M, 128, 2, f64x2, F, 64, 2);
    $m!(m128x2, M, 128, 2, i128x2, I, 128, 2);
    $m!(m128x2, M, 128, 2, u128x2, U, 128, 2);
    $m!(m128x2, M, 128, 2, isizex2, I, 64, 2);
    $m!(m128x2, M, 128, 2, usizex2, U, 64, 2);
    $m!(m128x2, M, 128, 2, msizex2, M, 64, 2);
    $m!(msizex4, M, 64, 4, i8x4, I, 8, 4);
    $m!(msizex4, M, 64, 4, u8x4, U, 8, 4);
    $m!(msizex4, M, 64, 4, m8x4, M, 8, 4);
    $m!(msizex4, M, 64, 4, i16x4, I, 16, 4);
    $m!(msizex4, M, 64, 4, u16x4, U, 16, 4);
    $m!(msizex4, M, 64, 4, m16x4, M, 16, 4);
    $m!(msizex4, M, 64, 4, i32x4, I, 32, 4);
    $m!(msizex4, M, 64, 4, u32x4, U, 32, 4);
    $m!(msizex4, M, 64, 4, f32x4, F, 32, 4);
    $m!(msizex4, M, 64, 4, m32x4, M, 32, 4);
    $m!(msizex4, M, 64, 4, i64x4, I, 64, 4);
    $m!(msizex4, M, 64, 4, u64x4, U, 64, 4);
    $m!(msizex4, M, 64, 4, f64x4, F, 64, 4);
    $m!(msizex4, M, 64, 4, m64x4, M, 64, 4);
    $m!(msizex4, M, 64, 4, i128x4, I, 128, 4);
    $m!(msizex4, M, 64, 4, u128x4, U, 128, 4);
    $m!(msizex4, M, 64, 4, m128x4, M, 128, 4);
    $m!(msizex4, M, 64, 4, isizex4, I, 64, 4);
    $m!(msizex4, M, 64, 4, usizex4, U, 64, 4);
    $m!(i8x4, I, 8, 4, u8x4, U, 8, 4);
    $m!(i8x4, I, 8, 4, m8x4, M, 8, 4);
    $m!(i8x4, I, 8, 4, i16x4, I, 16, 4);
    $m!(i8x4, I, 8, 4, u16x4, U, 16, 4);
    $m!(i8x4, I, 8, 4, m16x4, M, 16, 4);
    $m!(i8x4, I, 8, 4, i32x4, I, 32, 4);
    $m!(i8x4, I, 8, 4, u32x4, U, 32, 4);
    $m!(i8x4, I, 8, 4, f32x4, F, 32, 4);
    $m!(i8x4, I, 8, 4, m32x4, M, 32, 4);
    $m!(i8x4, I, 8, 4, i64x4, I, 64, 4);
    $m!(i8x4, I, 8, 4, u64x4, U, 64, 4);
    $m!(i8x4, I, 8, 4, f64x4, F, 64, 4);
    $m!(i8x4, I, 8, 4, m64x4, M, 64, 4);
    $m!(i8x4, I, 8, 4, i128x4, I, 128, 4);
    $m!(i8x4, I, 8, 4, u128x4, U, 128, 4);
    $m!(i8x4, I, 8, 4, m128x4, M, 128, 4);
    $m!(i8x4, I, 8, 4, isizex4, I, 64, 4);
    $m!(i8x4, I, 8, 4, usizex4, U, 64, 4);
    $m!(i8x4, I, 8, 4, msizex4, M, 64, 4);
    $m!(u8x4, U, 8, 4, i8x4, I, 8, 4);
    $m!(u8x4, U, 8, 4, m8x4, M, 8, 4);
    $m!(u8x4, U, 8, 4, i16x4, I, 16, 4);
    $m!(u8x4, U, 8, 4, u16x4, U, 16, 4);
    $m!(u8x4, U, 8, 4, m16x4, M, 16, 4);
    $m!(u8x4, U, 8, 4, i32x4, I, 32, 4);
    $m!(u8x4, U, 8, 4, u32x4, U, 32, 4);
    $m!(u8x4, U, 8, 4, f32x4, F, 32, 4);
    $m!(u8x4, U, 8, 4, m32x4, M, 32, 4);
    $m!(u8x4, U, 8, 4, i64x4, I, 64, 4);
    $m!(u8x4, U, 8, 4, u64x4, U, 64, 4);
    $m!(u8x4, U, 8, 4, f64x4, F, 64, 4);
    $m!(u8x4, U, 8, 4, m64x4, M, 64, 4);
    $m!(u8x4, U, 8, 4, i128x4, I, 128, 4);
    $m!(u8x4, U, 8, 4, u128x4, U, 128, 4);
    $m!(u8x4, U, 8, 4, m128x4, M, 128, 4);
    $m!(u8x4, U, 8, 4, isizex4, I, 64, 4);
    $m!(u8x4, U, 8, 4, usizex4, U, 64, 4);
    $m!(u8x4, U, 8, 4, msizex4, M, 64, 4);
    $m!(i16x2, I, 16, 2, i8x2, I, 8, 2);
    $m!(i16x2, I, 16, 2, u8x2, U, 8, 2);
    $m!(i16x2, I, 16, 2, m8x2, M, 8, 2);
    $m!(i16x2, I, 16, 2, u16x2, U, 16, 2);
    $m!(i16x2, I, 16, 2, m16x2, M, 16, 2);
    $m!(i16x2, I, 16, 2, i32x2, I, 32, 2);
    $m!(i16x2, I, 16, 2, u32x2, U, 32, 2);
    $m!(i16x2, I, 16, 2, f32x2, F, 32, 2);
    $m!(i16x2, I, 16, 2, m32x2, M, 32, 2);
    $m!(i16x2, I, 16, 2, i64x2, I, 64, 2);
    $m!(i16x2, I, 16, 2, u64x2, U, 64, 2);
    $m!(i16x2, I, 16, 2, f64x2, F, 64, 2);
    $m!(i16x2, I, 16, 2, m64x2, M, 64, 2);
    $m!(i16x2, I, 16, 2, i128x2, I, 128, 2);
    $m!(i16x2, I, 16, 2, u128x2, U, 128, 2);
    $m!(i16x2, I, 16, 2, m128x2, M, 128, 2);
    $m!(i16x2, I, 16, 2, isizex2, I, 64, 2);
    $m!(i16x2, I, 16, 2, usizex2, U, 64, 2);
    $m!(i16x2, I, 16, 2, msizex2, M, 64, 2);
    $m!(u16x2, U, 16, 2, i8x2, I, 8, 2);
    $m!(u16x2, U, 16, 2, u8x2, U, 8, 2);
    $m!(u16x2, U, 16, 2, m8x2, M, 8, 2);
    $m!(u16x2, U, 16, 2, i16x2, I, 16, 2);
    $m!(u16x2, U, 16, 2, m16x2, M, 16, 2);
    $m!(u16x2, U, 16, 2, i32x2, I, 32, 2);
    $m!(u16x2, U, 16, 2, u32x2, U, 32, 2);
    $m!(u16x2, U, 16, 2, f32x2, F, 32, 2);
    $m!(u16x2, U, 16, 2, m32x2, M, 32, 2);
    $m!(u16x2, U, 16, 2, i64x2, I, 64, 2);
    $m!(u16x2, U, 16, 2, u64x2, U, 64, 2);
    $m!(u16x2, U, 16, 2, f64x2, F, 64, 2);
    $m!(u16x2, U, 16, 2, m64x2, M, 64, 2);
    $m!(u16x2, U, 16, 2, i128x2, I, 128, 2);
    $m!(u16x2, U, 16, 2, u128x2, U, 128, 2);
    $m!(u16x2, U, 16, 2, m128x2, M, 128, 2);
    $m!(u16x2, U, 16, 2, isizex2, I, 64, 2);
    $m!(u16x2, U, 16, 2, usizex2, U, 64, 2);
    $m!(u16x2, U, 16, 2, msizex2, M, 64, 2);
    $m!(m8x4, M, 8, 4, i8x4, I, 8, 4);
    $m!(m8x4, M, 8, 4, u8x4, U, 8, 4);
    $m!(m8x4, M, 8, 4, i16x4, I, 16, 4);
    $m!(m8x4, M, 8, 4, u16x4, U, 16, 4);
    $m!(m8x4, M, 8, 4, m16x4, M, 16, 4);
    $m!(m8x4, M, 8, 4, i32x4, I, 32, 4);
    $m!(m8x4, M, 8, 4, u32x4, U, 32, 4);
    $m!(m8x4, M, 8, 4, f32x4, F, 32, 4);
    $m!(m8x4, M, 8, 4, m32x4, M, 32, 4);
    $m!(m8x4, M, 8, 4, i64x4, I, 64, 4);
    $m!(m8x4, M, 8, 4, u64x4, U, 64, 4);
    $m!(m8x4, M, 8, 4, f64x4, F, 64, 4);
    $m!(m8x4, M, 8, 4, m64x4, M, 64, 4);
    $m!(m8x4, M, 8, 4, i128x4, I, 128, 4);
    $m!(m8x4, M, 8, 4, u128x4, U, 128, 4);
    $m!(m8x4, M, 8, 4, m128x4, M, 128, 4);
    $m!(m8x4, M, 8, 4, isizex4, I, 64, 4);
    $m!(m8x4, M, 8, 4, usizex4, U, 64, 4);
    $m!(m8x4, M, 8, 4, msizex4, M, 64, 4);
    $m!(m16x2, M, 16, 2, i8x2, I, 8, 2);
    $m!(m16x2, M, 16, 2, u8x2, U, 8, 2);
    $m!(m16x2, M, 16, 2, m8x2, M, 8, 2);
    $m!(m16x2, M, 16, 2, i16x2, I, 16, 2);
    $m!(m16x2, M, 16, 2, u16x2, U, 16, 2);
    $m!(m16x2, M, 16, 2, i32x2, I, 32, 2);
    $m!(m16x2, M, 16, 2, u32x2, U, 32, 2);
    $m!(m16x2, M, 16, 2, f32x2, F, 32, 2);
    $m!(m16x2, M, 16, 2, m32x2, M, 32, 2);
    $m!(m16x2, M, 16, 2, i64x2, I, 64, 2);
    $m!(m16x2, M, 16, 2, u64x2, U, 64, 2);
    $m!(m16x2, M, 16, 2, f64x2, F, 64, 2);
    $m!(m16x2, M, 16, 2, m64x2, M, 64, 2);
    $m!(m16x2, M, 16, 2, i128x2, I, 128, 2);
    $m!(m16x2, M, 16, 2, u128x2, U, 128, 2);
    $m!(m16x2, M, 16, 2, m128x2, M, 128, 2);
    $m!(m16x2, M, 16, 2, isizex2, I, 64, 2);
    $m!(m16x2, M, 16, 2, usizex2, U, 64, 2);
    $m!(m16x2, M, 16, 2, msizex2, M, 64, 2);
    $m!(i8x64, I, 8, 64, u8x64, U, 8, 64);
    $m!(i8x64, I, 8, 64, m8x64, M, 8, 64);
    $m!(u8x64, U, 8, 64, i8x64, I, 8, 64);
    $m!(u8x64, U, 8, 64, m8x64, M, 8, 64);
    $m!(i16x32, I, 16, 32, i8x32, I, 8, 32);
    $m!(i16x32, I, 16, 32, u8x32, U, 8, 32);
    $m!(i16x32, I, 16, 32, m8x32, M, 8, 32);
    $m!(i16x32, I, 16, 32, u16x32, U, 16, 32);
    $m!(i16x32, I, 16, 32, m16x32, M, 16, 32);
    $m!(u16x32, U, 16, 32, i8x32, I, 8, 32);
    $m!(u16x32, U, 16, 32, u8x32, U, 8, 32);
    $m!(u16x32, U, 16, 32, m8x32, M, 8, 32);
    $m!(u16x32, U, 16, 32, i16x32, I, 16, 32);
    $m!(u16x32, U, 16, 32, m16x32, M, 16, 32);
    $m!(i32x16, I, 32, 16, i8x16, I, 8, 16);
    $m!(i32x16, I, 32, 16, u8x16, U, 8, 16);
    $m!(i32x16, I, 32, 16, m8x16, M, 8, 16);
    $m!(i32x16, I, 32, 16, i16x16, I, 16, 16);
    $m!(i32x16, I, 32, 16, u16x16, U, 16, 16);
    $m!(i32x16, I, 32, 16, m16x16, M, 16, 16);
    $m!(i32x16, I, 32, 16, u32x16, U, 32, 16);
    $m!(i32x16, I, 32, 16, f32x16, F, 32, 16);
    $m!(i32x16, I, 32, 16, m32x16, M, 32, 16);
    $m!(u32x16, U, 32, 16, i8x16, I, 8, 16);
    $m!(u32x16, U, 32, 16, u8x16, U, 8, 16);
    $m!(u32x16, U, 32, 16, m8x16, M, 8, 16);
    $m!(u32x16, U, 32, 16, i16x16, I, 16, 16);
    $m!(u32x16, U, 32, 16, u16x16, U, 16, 16);
    $m!(u32x16, U, 32, 16, m16x16, M, 16, 16);
    $m!(u32x16, U, 32, 16, i32x16, I, 32, 16);
    $m!(u32x16, U, 32, 16, f32x16, F, 32, 16);
    $m!(u32x16, U, 32, 16, m32x16, M, 32, 16);
    $m!(f32x16, F, 32, 16, i8x16, I, 8, 16);
    $m!(f32x16, F, 32, 16, u8x16, U, 8, 16);
    $m!(f32x16, F, 32, 16, m8x16, M, 8, 16);
    $m!(f32x16, F, 32, 16, i16x16, I, 16, 16);
    $m!(f32x16, F, 32, 16, u16x16, U, 16, 16);
    $m!(f32x16, F, 32, 16, m16x16, M, 16, 16);
    $m!(f32x16, F, 32, 16, i32x16, I, 32, 16);
    $m!(f32x16, F, 32, 16, u32x16, U, 32, 16);
    $m!(f32x16, F, 32, 16, m32x16, M, 32, 16);
    $m!(i64x8, I, 64, 8, i8x8, I, 8, 8);
    $m!(i64x8, I, 64, 8, u8x8, U, 8, 8);
    $m!(i64x8, I, 64, 8, m8x8, M, 8, 8);
    $m!(i64x8, I, 64, 8, i16x8, I, 16, 8);
    $m!(i64x8, I, 64, 8, u16x8, U, 16, 8);
    $m!(i64x8, I, 64, 8, m16x8, M, 16, 8);
    $m!(i64x8, I, 64, 8, i32x8, I, 32, 8);
    $m!(i64x8, I, 64, 8, u32x8, U, 32, 8);
    $m!(i64x8, I, 64, 8, f32x8, F, 32, 8);
    $m!(i64x8, I, 64, 8, m32x8, M, 32, 8);
    $m!(i64x8, I, 64, 8, u64x8, U, 64, 8);
    $m!(i64x8, I, 64, 8, f64x8, F, 64, 8);
    $m!(i64x8, I, 64, 8, m64x8, M, 64, 8);
    $m!(i64x8, I, 64, 8, isizex8, I, 64, 8);
    $m!(i64x8, I, 64, 8, usizex8, U, 64, 8);
    $m!(i64x8, I, 64, 8, msizex8, M, 64, 8);
    $m!(u64x8, U, 64, 8, i8x8, I, 8, 8);
    $m!(u64x8, U, 64, 8, u8x8, U, 8, 8);
    $m!(u64x8, U, 64, 8, m8x8, M, 8, 8);
    $m!(u64x8, U, 64, 8, i16x8, I, 16, 8);
    $m!(u64x8, U, 64, 8, u16x8, U, 16, 8);
    $m!(u64x8, U, 64, 8, m16x8, M, 16, 8);
    $m!(u64x8, U, 64, 8, i32x8, I, 32, 8);
    $m!(u64x8, U, 64, 8, u32x8, U, 32, 8);
    $m!(u64x8, U, 64, 8, f32x8, F, 32, 8);
    $m!(u64x8, U, 64, 8, m32x8, M, 32, 8);
    $m!(u64x8, U, 64, 8, i64x8, I, 64, 8);
    $m!(u64x8, U, 64, 8, f64x8, F, 64, 8);
    $m!(u64x8, U, 64, 8, m64x8, M, 64, 8);
    $m!(u64x8, U, 64, 8, isizex8, I, 64, 8);
    $m!(u64x8, U, 64, 8, usizex8, U, 64, 8);
    $m!(u64x8, U, 64, 8, msizex8, M, 64, 8);
    $m!(f64x8, F, 64, 8, i8x8, I, 8, 8);
    $m!(f64x8, F, 64, 8, u8x8, U, 8, 8);
    $m!(f64x8, F, 64, 8, m8x8, M, 8, 8);
    $m!(f64x8, F, 64, 8, i16x8, I, 16, 8);
    $m!(f64x8, F, 64, 8, u16x8, U, 16, 8);
    $m!(f64x8, F, 64, 8, m16x8, M, 16, 8);
    $m!(f64x8, F, 64, 8, i32x8, I, 32, 8);
    $m!(f64x8, F, 64, 8, u32x8, U, 32, 8);
    $m!(f64x8, F, 64, 8, f32x8, F, 32, 8);
    $m!(f64x8, F, 64, 8, m32x8, M, 32, 8);
    $m!(f64x8, F, 64, 8, i64x8, I, 64, 8);
    $m!(f64x8, F, 64, 8, u64x8, U, 64, 8);
    $m!(f64x8, F, 64, 8, m64x8, M, 64, 8);
    $m!(f64x8, F, 64, 8, isizex8, I, 64, 8);
    $m!(f64x8, F, 64, 8, usizex8, U, 64, 8);
    $m!(f64x8, F, 64, 8, msizex8, M, 64, 8);
    $m!(i128x4, I, 128, 4, i8x4, I, 8, 4);
    $m!(i128x4, I, 128, 4, u8x4, U, 8, 4);
    $m!(i128x4, I, 128, 4, m8x4, M, 8, 4);
    $m!(i128x4, I, 128, 4, i16x4, I, 16, 4);
    $m!(i128x4, I, 128, 4, u16x4, U, 16, 4);
    $m!(i128x4, I, 128, 4, m16x4, M, 16, 4);
    $m!(i128x4, I, 128, 4, i32x4, I, 32, 4);
    $m!(i128x4, I, 128, 4, u32x4, U, 32, 4);
    $m!(i128x4, I, 128, 4, f32x4, F, 32, 4);
    $m!(i128x4, I, 128, 4, m32x4, M, 32, 4);
    $m!(i128x4, I, 128, 4, i64x4, I, 64, 4);
    $m!(i128x4, I, 128, 4, u64x4, U, 64, 4);
    $m!(i128x4, I, 128, 4, f64x4, F, 64, 4);
    $m!(i128x4, I, 128, 4, m64x4, M, 64, 4);
    $m!(i128x4, I, 128, 4, u128x4, U, 128, 4);
    $m!(i128x4, I, 128, 4, m128x4, M, 128, 4);
    $m!(i128x4, I, 128, 4, isizex4, I, 64, 4);
    $m!(i128x4, I, 128, 4, usizex4, U, 64, 4);
    $m!(i128x4, I, 128, 4, msizex4, M, 64, 4);
    $m!(u128x4, U, 128, 4, i8x4, I, 8, 4);
    $m!(u128x4, U, 128, 4, u8x4, U, 8, 4);
    $m!(u128x4, U, 128, 4, m8x4, M, 8, 4);
    $m!(u128x4, U, 128, 4, i16x4, I, 16, 4);
    $m!(u128x4, U, 128, 4, u16x4, U, 16, 4);
    $m!(u128x4, U, 128, 4, m16x4, M, 16, 4);
    $m!(u128x4, U, 128, 4, i32x4, I, 32, 4);
    $m!(u128x4, U, 128, 4, u32x4, U, 32, 4);
    $m!(u128x4, U, 128, 4, f32x4, F, 32, 4);
    $m!(u128x4, U, 128, 4, m32x4, M, 32, 4);
    $m!(u128x4, U, 128, 4, i64x4, I, 64, 4);
    $m!(u128x4, U, 128, 4, u64x4, U, 64, 4);
    $m!(u128x4, U, 128, 4, f64x4, F, 64, 4);
    $m!(u128x4, U, 128, 4, m64x4, M, 64, 4);
    $m!(u128x4, U, 128, 4, i128x4, I, 128, 4);
    $m!(u128x4, U, 128, 4, m128x4, M, 128, 4);
    $m!(u128x4, U, 128, 4, isizex4, I, 64, 4);
    $m!(u128x4, U, 128, 4, usizex4, U, 64, 4);
    $m!(u128x4, U, 128, 4, msizex4, M, 64, 4);
    $m!(isizex8, I, 64, 8, i8x8, I, 8, 8);
    $m!(isizex8, I, 64, 8, u8x8, U, 8, 8);
    $m!(isizex8, I, 64, 8, m8x8, M, 8, 8);
    $m!(isizex8, I, 64, 8, i16x8, I, 16, 8);
    $m!(isizex8, I, 64, 8, u16x8, U, 16, 8);
    $m!(isizex8, I, 64, 8, m16x8, M, 16, 8);
    $m!(isizex8, I, 64, 8, i32x8, I, 32, 8);
    $m!(isizex8, I, 64, 8, u32x8, U, 32, 8);
    $m!(isizex8, I, 64, 8, f32x8, F, 32, 8);
    $m!(isizex8, I, 64, 8, m32x8, M, 32, 8);
    $m!(isizex8, I, 64, 8, i64x8, I, 64, 8);
    $m!(isizex8, I, 64, 8, u64x8, U, 64, 8);
    $m!(isizex8, I, 64, 8, f64x8, F, 64, 8);
    $m!(isizex8, I, 64, 8, m64x8, M, 64, 8);
    $m!(isizex8, I, 64, 8, usizex8, U, 64, 8);
    $m!(isizex8, I, 64, 8, msizex8, M, 64, 8);
    $m!(usizex8, U, 64, 8, i8x8, I, 8, 8);
    $m!(usizex8, U, 64, 8, u8x8, U, 8, 8);
    $m!(usizex8, U, 64, 8, m8x8, M, 8, 8);
    $m!(usizex8, U, 64, 8, i16x8, I, 16, 8);
    $m!(usizex8, U, 64, 8, u16x8, U, 16, 8);
    $m!(usizex8, U, 64, 8, m16x8, M, 16, 8);
    $m!(usizex8, U, 64, 8, i32x8, I, 32, 8);
    $m!(usizex8, U, 64, 8, u32x8, U, 32, 8);
    $m!(usizex8, U, 64, 8, f32x8, F, 32, 8);
    $m!(usizex8, U, 64, 8, m32x8, M, 32, 8);
    $m!(usizex8, U, 64, 8, i64x8, I, 64, 8);
    $m!(usizex8, U, 64, 8, u64x8, U, 64, 8);
    $m!(usizex8, U, 64, 8, f64x8, F, 64, 8);
    $m!(usizex8, U, 64, 8, m64x8, M, 64, 8);
    $m!(usizex8, U, 64, 8, isizex8, I, 64, 8);
    $m!(usizex8, U, 64, 8, msizex8, M, 64, 8);
    $m!(m8x64, M, 8, 64, i8x64, I, 8, 64);
    $m!(m8x64, M, 8, 64, u8x64, U, 8, 64);
    $m!(m16x32, M, 16, 32, i8x32, I, 8, 32);
    $m!(m16x32, M, 16, 32, u8x32, U, 8, 32);
    $m!(m16x32, M, 16, 32, m8x32, M, 8, 32);
    $m!(m16x32, M, 16, 32, i16x32, I, 16, 32);
    $m!(m16x32, M, 16, 32, u16x32, U, 16, 32);
    $m!(m32x16, M, 32, 16, i8x16, I, 8, 16);
    $m!(m32x16, M, 32, 16, u8x16, U, 8, 16);
    $m!(m32x16, M, 32, 16, m8x16, M, 8, 16);
    $m!(m32x16, M, 32, 16, i16x16, I, 16, 16);
    $m!(m32x16, M, 32, 16, u16x16, U, 16, 16);
    $m!(m32x16, M, 32, 16, m16x16, M, 16, 16);
    $m!(m32x16, M, 32, 16, i32x16, I, 32, 16);
    $m!(m32x16, M, 32, 16, u32x16, U, 32, 16);
    $m!(m32x16, M, 32, 16, f32x16, F, 32, 16);
    $m!(m64x8, M, 64, 8, i8x8, I, 8, 8);
    $m!(m64x8, M, 64, 8, u8x8, U, 8, 8);
    $m!(m64x8, M, 64, 8, m8x8, M, 8, 8);
    $m!(m64x8, M, 64, 8, i16x8, I, 16, 8);
    $m!(m64x8, M, 64, 8, u16x8, U, 16, 8);
    $m!(m64x8, M, 64, 8, m16x8, M, 16, 8);
    $m!(m64x8, M, 64, 8, i32x8, I, 32, 8);
    $m!(m64x8, M, 64, 8, u32x8, U, 32, 8);
    $m!(m64x8, M, 64, 8, f32x8, F, 32, 8);
    $m!(m64x8, M, 64, 8, m32x8, M, 32, 8);
    $m!(m64x8, M, 64, 8, i64x8, I, 64, 8);
    $m!(m64x8, M, 64, 8, u64x8, U, 64, 8);
    $m!(m64x8, M, 64, 8, f64x8, F, 64, 8);
    $m!(m64x8, M, 64, 8, isizex8, I, 64, 8);
    $m!(m64x8, M, 64, 8, usizex8, U, 64, 8);
    $m!(m64x8, M, 64, 8, msizex8, M, 64, 8);
    $m!(m128x4, M, 128, 4, i8x4, I, 8, 4);
    $m!(m128x4, M, 128, 4, u8x4, U, 8, 4);
    $m!(m128x4, M, 128, 4, m8x4, M, 8, 4);
    $m!(m128x4, M, 128, 4, i16x4, I, 16, 4);
    $m!(m128x4, M, 128, 4, u16x4, U, 16, 4);
    $m!(m128x4, M, 128, 4, m16x4, M, 16, 4);
    $m!(m128x4, M, 128, 4, i32x4, I, 32, 4);
    $m!(m128x4, M, 128, 4, u32x4, U, 32, 4);
    $m!(m128x4, M, 128, 4, f32x4, F, 32, 4);
    $m!(m128x4, M, 128, 4, m32x4, M, 32, 4);
    $m!(m128x4, M, 128, 4, i64x4, I, 64, 4);
    $m!(m128x4, M, 128, 4, u64x4, U, 64, 4);
    $m!(m128x4, M, 128, 4, m64x4, M, 64, 4);
    $m!(m128x4, M, 128, 4, f64x4, F, 64, 4);
    $m!(m128x4, M, 128, 4, i128x4, I, 128, 4);
    $m!(m128x4, M, 128, 4, u128x4, U, 128, 4);
    $m!(m128x4, M, 128, 4, isizex4, I, 64, 4);
    $m!(m128x4, M, 128, 4, usizex4, U, 64, 4);
    $m!(m128x4, M, 128, 4, msizex4, M, 64, 4);
    $m!(msizex8, M, 64, 8, i8x8, I, 8, 8);
    $m!(msizex8, M, 64, 8, u8x8, U, 8, 8);
    $m!(msizex8, M, 64, 8, m8x8, M, 8, 8);
    $m!(msizex8, M, 64, 8, i16x8, I, 16, 8);
    $m!(msizex8, M, 64, 8, u16x8, U, 16, 8);
    $m!(msizex8, M, 64, 8, m16x8, M, 16, 8);
    $m!(msizex8, M, 64, 8, i32x8, I, 32, 8);
    $m!(msizex8, M, 64, 8, u32x8, U, 32, 8);
    $m!(msizex8, M, 64, 8, f32x8, F, 32, 8);
    $m!(msizex8, M, 64, 8, m32x8, M, 32, 8);
    $m!(msizex8, M, 64, 8, i64x8, I, 64, 8);
    $m!(msizex8, M, 64, 8, u64x8, U, 64, 8);
    $m!(msizex8, M, 64, 8, f64x8, F, 64, 8);
    $m!(msizex8, M, 64, 8, m64x8, M, 64, 8);
    $m!(msizex8, M, 64, 8, isizex8, I, 64, 8);
    $m!(msizex8, M, 64, 8, usizex8, U, 64, 8);
    $m!(i8x8, I, 8, 8, u8x8, U, 8, 8);
    $m!(i8x8, I, 8, 8, m8x8, M, 8, 8);
    $m!(i8x8, I, 8, 8, i16x8, I, 16, 8);
    $m!(i8x8, I, 8, 8, u16x8, U, 16, 8);
    $m!(i8x8, I, 8, 8, m16x8, M, 16, 8);
    $m!(i8x8, I, 8, 8, i32x8, I, 32, 8);
    $m!(i8x8, I, 8, 8, u32x8, U, 32, 8);
    $m!(i8x8, I, 8, 8, f32x8, F, 32, 8);
    $m!(i8x8, I, 8, 8, m32x8, M, 32, 8);
    $m!(i8x8, I, 8, 8, i64x8, I, 64, 8);
    $m!(i8x8, I, 8, 8, u64x8, U, 64, 8);
    $m!(i8x8, I, 8, 8, f64x8, F, 64, 8);
    $m!(i8x8, I, 8, 8, m64x8, M, 64, 8);
    $m!(i8x8, I, 8, 8, isizex8, I, 64, 8);
    $m!(i8x8, I, 8, 8, usizex8, U, 64, 8);
    $m!(i8x8, I, 8, 8, msizex8, M, 64, 8);
    $m!(u8x8, U, 8, 8, i8x8, I, 8, 8);
    $m!(u8x8, U, 8, 8, m8x8, M, 8, 8);
    $m!(u8x8, U, 8, 8, i16x8, I, 16, 8);
    $m!(u8x8, U, 8, 8, u16x8, U, 16, 8);
    $m!(u8x8, U, 8, 8, m16x8, M, 16, 8);
    $m!(u8x8, U, 8, 8, i32x8, I, 32, 8);
    $m!(u8x8, U, 8, 8, u32x8, U, 32, 8);
    $m!(u8x8, U, 8, 8, f32x8, F, 32, 8);
    $m!(u8x8, U, 8, 8, m32x8, M, 32, 8);
    $m!(u8x8, U, 8, 8, i64x8, I, 64, 8);
    $m!(u8x8, U, 8, 8, u64x8, U, 64, 8);
    $m!(u8x8, U, 8, 8, f64x8, F, 64, 8);
    $m!(u8x8, U, 8, 8, m64x8, M, 64, 8);
    $m!(u8x8, U, 8, 8, isizex8, I, 64, 8);
    $m!(u8x8, U, 8, 8, usizex8, U, 64, 8);
    $m!(u8x8, U, 8, 8, msizex8, M, 64, 8);
    $m!(i16x4, I, 16, 4, i8x4, I, 8, 4);
    $m!(i16x4, I, 16, 4, u8x4, U, 8, 4);
    $m!(i16x4, I, 16, 4, m8x4, M, 8, 4);
    $m!(i16x4, I, 16, 4, u16x4, U, 16, 4);
    $m!(i16x4, I, 16, 4, m16x4, M, 16, 4);
    $m!(i16x4, I, 16, 4, i32x4, I, 32, 4);
    $m!(i16x4, I, 16, 4, u32x4, U, 32, 4);
    $m!(i16x4, I, 16, 4, f32x4, F, 32, 4);
    $m!(i16x4, I, 16, 4, m32x4, M, 32, 4);
    $m!(i16x4, I, 16, 4, i64x4, I, 64, 4);
    $m!(i16x4, I, 16, 4, u64x4, U, 64, 4);
    $m!(i16x4, I, 16, 4, f64x4, F, 64, 4);
    $m!(i16x4, I, 16, 4, m64x4, M, 64, 4);
    $m!(i16x4, I, 16, 4, i128x4, I, 128, 4);
    $m!(i16x4, I, 16, 4, u128x4, U, 128, 4);
    $m!(i16x4, I, 16, 4, m128x4, M, 128, 4);
    $m!(i16x4, I, 16, 4, isizex4, I, 64, 4);
    $m!(i16x4, I, 16, 4, usizex4, U, 64, 4);
    $m!(i16x4, I, 16, 4, msizex4, M, 64, 4);
    $m!(u16x4, U, 16, 4, i8x4, I, 8, 4);
    $m!(u16x4, U, 16, 4, u8x4, U, 8, 4);
    $m!(u16x4, U, 16, 4, m8x4, M, 8, 4);
    $m!(u16x4, U, 16, 4, i16x4, I, 16, 4);
    $m!(u16x4, U, 16, 4, m16x4, M, 16, 4);
    $m!(u16x4, U, 16, 4, i32x4, I, 32, 4);
    $m!(u16x4, U, 16, 4, u32x4, U, 32, 4);
    $m!(u16x4, U, 16, 4, f32x4, F, 32, 4);
    $m!(u16x4, U, 16, 4, m32x4, M, 32, 4);
    $m!(u16x4, U, 16, 4, i64x4, I, 64, 4);
    $m!(u16x4, U, 16, 4, u64x4, U, 64, 4);
    $m!(u16x4, U, 16, 4, f64x4, F, 64, 4);
    $m!(u16x4, U, 16, 4, m64x4, M, 64, 4);
    $m!(u16x4, U, 16, 4, i128x4, I, 128, 4);
    $m!(u16x4, U, 16, 4, u128x4, U, 128, 4);
    $m!(u16x4, U, 16, 4, m128x4, M, 128, 4);
    $m!(u16x4, U, 16, 4, isizex4, I, 64, 4);
    $m!(u16x4, U, 16, 4, usizex4, U, 64, 4);
    $m!(u16x4, U, 16, 4, msizex4, M, 64, 4);
    $m!(i32x2, I, 32, 2, i8x2, I, 8, 2);
    $m!(i32x2, I, 32, 2, u8x2, U, 8, 2);
    $m!(i32x2, I, 32, 2, m8x2, M, 8, 2);
    $m!(i32x2, I, 32, 2, i16x2, I, 16, 2);
    $m!(i32x2, I, 32, 2, u16x2, U, 16, 2);
    $m!(i32x2, I, 32, 2, m16x2, M, 16, 2);
    $m!(i32x2, I, 32, 2, u32x2, U, 32, 2);
    $m!(i32x2, I, 32, 2, f32x2, F, 32, 2);
    $m!(i32x2, I, 32, 2, m32x2, M, 32, 2);
    $m!(i32x2, I, 32, 2, i64x2, I, 64, 2);
    $m!(i32x2, I, 32, 2, u64x2, U, 64, 2);
    $m!(i32x2, I, 32, 2, f64x2, F, 64, 2);
    $m!(i32x2, I, 32, 2, m64x2, M, 64, 2);
    $m!(i32x2, I, 32, 2, i128x2, I, 128, 2);
    $m!(i32x2, I, 32, 2, u128x2, U, 128, 2);
    $m!(i32x2, I, 32, 2, m128x2, M, 128, 2);
    $m!(i32x2, I, 32, 2, isizex2, I, 64, 2);
    $m!(i32x2, I, 32, 2, usizex2, U, 64, 2);
    $m!(i32x2, I, 32, 2, msizex2, M, 64, 2);
    $m!(u32x2, U, 32, 2, i8x2, I, 8, 2);
    $m!(u32x2, U, 32, 2, u8x2, U, 8, 2);
    $m!(u32x2, U, 32, 2, m8x2, M, 8, 2);
    $m!(u32x2, U, 32, 2, i16x2, I, 16, 2);
    $m!(u32x2, U, 32, 2, u16x2, U, 16, 2);
    $m!(u32x2, U, 32, 2, m16x2, M, 16, 2);
    $m!(u32x2, U, 32, 2, i32x2, I, 32, 2);
    $m!(u32x2, U, 32, 2, f32x2, F, 32, 2);
    $m!(u32x2, U, 32, 2, m32x2, M, 32, 2);
    $m!(u32x2, U, 32, 2, i64x2, I, 64, 2);
    $m!(u32x2, U, 32, 2, u64x2, U, 64, 2);
    $m!(u32x2, U, 32, 2, f64x2, F, 64, 2);
    $m!(u32x2, U, 32, 2, m64x2, M, 64, 2);
    $m!(u32x2, U, 32, 2, i128x2, I, 128, 2);
    $m!(u32x2, U, 32, 2, u128x2, U, 128, 2);
    $m!(u32x2, U, 32, 2, m128x2, M, 128, 2);
    $m!(u32x2, U, 32, 2, isizex2, I, 64, 2);
    $m!(u32x2, U, 32, 2, usizex2, U, 64, 2);
    $m!(u32x2, U, 32, 2, msizex2, M, 64, 2);
    $m!(f32x2, F, 32, 2, i8x2, I, 8, 2);
    $m!(f32x2, F, 32, 2, u8x2, U, 8, 2);
    $m!(f32x2, F, 32, 2, m8x2, M, 8, 2);
    $m!(f32x2, F, 32, 2, i16x2, I, 16, 2);
    $m!(f32x2, F, 32, 2, u16x2, U, 16, 2);
    $m!(f32x2, F, 32, 2, m16x2, M, 16, 2);
    $m!(f32x2, F, 32, 2, i32x2, I, 32, 2);
    $m!(f32x2, F, 32, 2, u32x2, U, 32, 2);
    $m!(f32x2, F, 32, 2, m32x2, M, 32, 2);
    $m!(f32x2, F, 32, 2, i64x2, I, 64, 2);
    $m!(f32x2, F, 32, 2, u64x2, U, 64, 2);
    $m!(f32x2, F, 32, 2, f64x2, F, 64, 2);
    $m!(f32x2, F, 32, 2, m64x2, M, 64, 2);
    $m!(f32x2, F, 32, 2, i128x2, I, 128, 2);
    $m!(f32x2, F, 32, 2, u128x2, U, 128, 2);
    $m!(f32x2, F, 32, 2, m128x2, M, 128, 2);
    $m!(f32x2, F, 32, 2, isizex2, I, 64, 2);
    $m!(f32x2, F, 32, 2, usizex2, U, 64, 2);
    $m!(f32x2, F, 32, 2, msizex2, M, 64, 2);
    $m!(m8x8, M, 8, 8, i8x8, I, 8, 8);
    $m!(m8x8, M, 8, 8, u8x8, U, 8, 8);
    $m!(m8x8, M, 8, 8, i16x8, I, 16, 8);
    $m!(m8x8, M, 8, 8, u16x8, U, 16, 8);
    $m!(m8x8, M, 8, 8, m16x8, M, 16, 8);
    $m!(m8x8, M, 8, 8, i32x8, I, 32, 8);
    $m!(m8x8, M, 8, 8, u32x8, U, 32, 8);
    $m!(m8x8, M, 8, 8, f32x8, F, 32, 8);
    $m!(m8x8, M, 8, 8, m32x8, M, 32, 8);
    $m!(m8x8, M, 8, 8, i64x8, I, 64, 8);
    $m!(m8x8, M, 8, 8, u64x8, U, 64, 8);
    $m!(m8x8, M, 8, 8, f64x8, F, 64, 8);
    $m!(m8x8, M, 8, 8, m64x8, M, 64, 8);
    $m!(m8x8, M, 8, 8, isizex8, I, 64, 8);
    $m!(m8x8, M, 8, 8, usizex8, U, 64, 8);
    $m!(m8x8, M, 8, 8, msizex8, M, 64, 8);
    $m!(m16x4, M, 16, 4, i8x4, I, 8, 4);
    $m!(m16x4, M, 16, 4, u8x4, U, 8, 4);
    $m!(m16x4, M, 16, 4, m8x4, M, 8, 4);
    $m!(m16x4, M, 16, 4, i16x4, I, 16, 4);
    $m!(m16x4, M, 16, 4, u16x4, U, 16, 4);
    $m!(m16x4, M, 16, 4, i32x4, I, 32, 4);
    $m!(m16x4, M, 16, 4, u32x4, U, 32, 4);
    $m!(m16x4, M, 16, 4, f32x4, F, 32, 4);
    $m!(m16x4, M, 16, 4, m32x4, M, 32, 4);
    $m!(m16x4, M, 16, 4, i64x4, I, 64, 4);
    $m!(m16x4, M, 16, 4, u64x4, U, 64, 4);
    $m!(m16x4, M, 16, 4, f64x4, F, 64, 4);
    $m!(m16x4, M, 16, 4, m64x4, M, 64, 4);
    $m!(m16x4, M, 16, 4, i128x4, I, 128, 4);
    $m!(m16x4, M, 16, 4, u128x4, U, 128, 4);
    $m!(m16x4, M, 16, 4, m128x4, M, 128, 4);
    $m!(m16x4, M, 16, 4, isizex4, I, 64, 4);
    $m!(m16x4, M, 16, 4, usizex4, U, 64, 4);
    $m!(m16x4, M, 16, 4, msizex4, M, 64, 4);
    $m!(m32x2, M, 32, 2, i8x2, I, 8, 2);
    $m!(m32x2, M, 32, 2, u8x2, U, 8, 2);
    $m!(m32x2, M, 32, 2, m8x2, M, 8, 2);
    $m!(m32x2, M, 32, 2, i16x2, I, 16, 2);
    $m!(m32x2, M, 32, 2, u16x2, U, 16, 2);
    $m!(m32x2, M, 32, 2, m16x2, M, 16, 2);
    $m!(m32x2, M, 32, 2, i32x2, I, 32, 2);
    $m!(m32x2, M, 32, 2, u32x2, U, 32, 2);
    $m!(m32x2, M, 32, 2, f32x2, F, 32, 2);
    $m!(m32x2, M, 32, 2, i64x2, I, 64, 2);
    $m!(m32x2, M, 32, 2, u64x2, U, 64, 2);
    $m!(m32x2, M, 32, 2, f64x2, F, 64, 2);
    $m!(m32x2, M, 32, 2, m64x2, M, 64, 2);
    $m!(m32x2, M, 32, 2, i128x2, I, 128, 2);
    $m!(m32x2, M, 32, 2, u128x2, U, 128, 2);
    $m!(m32x2, M, 32, 2, m128x2, M, 128, 2);
    $m!(m32x2, M, 32, 2, isizex2, I, 64, 2);
    $m!(m32x2, M, 32, 2, usizex2, U, 64, 2);
    $m!(m32x2, M, 32, 2, msizex2, M, 64, 2);
}; }
#[macro_export]
macro_rules! for_from_pairs { ($m:ident) => {
    $m!(i16x8, I, 16, 8, i8x8, I, 8, 8);
    $m!(i16x8, I, 16, 8, u8x8, U, 8, 8);
    $m!(i32x4, I, 32, 4, i8x4, I, 8, 4);
    $m!(i32x4, I, 32, 4, u8x4, U, 8, 4);
    $m!(i32x4, I, 32, 4, i16x4, I, 16, 4);
    $m!(i32x4, I, 32, 4, u16x4, U, 16, 4);
    $m!(i64x2, I, 64, 2, i8x2, I, 8, 2);
    $m!(i64x2, I, 64, 2, u8x2, U, 8, 2);
    $m!(i64x2, I, 64, 2, i16x2, I, 16, 2);
    $m!(i64x2, I, 64, 2, u16x2, U, 16, 2);
    $m!(i64x2, I, 64, 2, i32x2, I, 32, 2);
    $m!(i64x2, I, 64, 2, u32x2, U, 32, 2);
    $m!(u16x8, U, 16, 8, u8x8, U, 8, 8);
    $m!(u32x4, U, 32, 4, u8x4, U, 8, 4);
    $m!(u32x4, U, 32, 4, u16x4, U, 16, 4);
    $m!(u64x2, U, 64, 2, u8x2, U, 8, 2);
    $m!(u64x2, U, 64, 2, u16x2, U, 16, 2);
    $m!(u64x2, U, 64, 2, u32x2, U, 32, 2);
    $m!(f32x4, F, 32, 4, i8x4, I, 8, 4);
    $m!(f32x4, F, 32, 4, u8x4, U, 8, 4);
    $m!(f32x4, F, 32, 4, i16x4, I, 16, 4);
    $m!(f32x4, F, 32, 4, u16x4, U, 16, 4);
    $m!(f64x2, F, 64, 2, i8x2, I, 8, 2);
    $m!(f64x2, F, 64, 2, u8x2, U, 8, 2);
    $m!(f64x2, F, 64, 2, i16x2, I, 16, 2);
    $m!(f64x2, F, 64, 2, u16x2, U, 16, 2);
    $m!(f64x2, F, 64, 2, i32x2, I, 32, 2);
    $m!(f64x2, F, 64, 2, u32x2, U, 32, 2);
    $m!(f64x2, F, 64, 2, f32x2, F, 32, 2);
    $m!(m8x16, M, 8, 16, m16x16, M, 16, 16);
    $m!(m16x8, M, 16, 8, m8x8, M, 8, 8);
    $m!(m16x8, M, 16, 8, m32x8, M, 32, 8);
    $m!(m32x4, M, 32, 4, m8x4, M, 8, 4);
    $m!(m32x4, M, 32, 4, m16x4, M, 16, 4);
    $m!(m32x4, M, 32, 4, m64x4, M, 64, 4);
    $m!(m64x2, M, 64, 2, m8x2, M, 8, 2);
    $m!(m64x2, M, 64, 2, m16x2, M, 16, 2);
    $m!(m64x2, M, 64, 2, m32x2, M, 32, 2);
    $m!(m64x2, M, 64, 2, m128x2, M, 128, 2);
    $m!(m8x2, M, 8, 2, m16x2, M, 16, 2);
    $m!(m8x2, M, 8, 2, m32x2, M, 32, 2);
    $m!(m8x2, M, 8, 2, m64x2, M, 64, 2);
    $m!(m8x2, M, 8, 2, m128x2, M, 128, 2);
    $m!(i16x16, I, 16, 16, i8x16, I, 8, 16);
    $m!(i16x16, I, 16, 16, u8x16, U, 8, 16);
    $m!(i32x8, I, 32, 8, i8x8, I, 8, 8);
    $m!(i32x8, I, 32, 8, u8x8, U, 8, 8);
    $m!(i32x8, I, 32, 8, i16x8, I, 16, 8);
    $m!(i32x8, I, 32, 8, u16x8, U, 16, 8);
    $m!(i64x4, I, 64, 4, i8x4, I, 8, 4);
    $m!(i64x4, I, 64, 4, u8x4, U, 8, 4);
    $m!(i64x4, I, 64, 4, i16x4, I, 16, 4);
    $m!(i64x4, I, 64, 4, u16x4, U, 16, 4);
    $m!(i64x4, I, 64, 4, i32x4, I, 32, 4);
    $m!(i64x4, I, 64, 4, u32x4, U, 32, 4);
    $m!(i128x2, I, 128, 2, i8x2, I, 8, 2);
    $m!(i128x2, I, 128, 2, u8x2, U, 8, 2);
    $m!(i128x2, I, 128, 2, i16x2, I, 16, 2);
    $m!(i128x2, I, 128, 2, u16x2, U, 16, 2);
    $m!(i128x2, I, 128, 2, i32x2, I, 32, 2);
    $m!(i128x2, I, 128, 2, u32x2, U, 32, 2);
    $m!(i128x2, I, 128, 2, i64x2, I, 64, 2);
    $m!(i128x2, I, 128, 2, u64x2, U, 64, 2);
    $m!(u16x16, U, 16, 16, u8x16, U, 8, 16);
    $m!(u32x8, U, 32, 8, u8x8, U, 8, 8);
    $m!(u32x8, U, 32, 8, u16x8, U, 16, 8);
    $m!(u64x4, U, 64, 4, u8x4, U, 8, 4);
    $m!(u64x4, U, 64, 4, u16x4, U, 16, 4);
    $m!(u64x4, U, 64, 4, u32x4, U, 32, 4);
    $m!(u128x2, U, 128, 2, u8x2, U, 8, 2);
    $m!(u128x2, U, 128, 2, u16x2, U, 16, 2);
    $m!(u128x2, U, 128, 2, u32x2, U, 32, 2);
    $m!(u128x2, U, 128, 2, u64x2, U, 64, 2);
    $m!(f32x8, F, 32, 8, i8x8, I, 8, 8);
    $m!(f32x8, F, 32, 8, u8x8, U, 8, 8);
    $m!(f32x8, F, 32, 8, i16x8, I, 16, 8);
    $m!(f32x8, F, 32, 8, u16x8, U, 16, 8);
    $m!(f64x4, F, 64, 4, i8x4, I, 8, 4);
    $m!(f64x4, F, 64, 4, u8x4, U, 8, 4);
    $m!(f64x4, F, 64, 4, i16x4, I, 16, 4);
    $m!(f64x4, F, 64, 4, u16x4, U, 16, 4);
    $m!(f64x4, F, 64, 4, i32x4, I, 32, 4);
    $m!(f64x4, F, 64, 4, u32x4, U, 32, 4);
    $m!(f64x4, F, 64, 4, f32x4, F, 32, 4);
    $m!(m16x16, M, 16, 16, m8x16, M, 8, 16);
    $m!(m32x8, M, 32, 8, m8x8, M, 8, 8);
    $m!(m32x8, M, 32, 8, m16x8, M, 16, 8);
    $m!(m64x4, M, 64, 4, m8x4, M, 8, 4);
    $m!(m64x4, M, 64, 4, m16x4, M, 16, 4);
    $m!(m64x4, M, 64, 4, m32x4, M, 32, 4);
    $m!(m128x2, M, 128, 2, m8x2, M, 8, 2);
    $m!(m128x2, M, 128, 2, m16x2, M, 16, 2);
    $m!(m128x2, M, 128, 2, m32x2, M, 32, 2);
    $m!(m128x2, M, 128, 2, m64x2, M, 64, 2);
    $m!(i16x2, I, 16, 2, i8x2, I, 8, 2);
    $m!(i16x2, I, 16, 2, u8x2, U, 8, 2);
    $m!(u16x2, U, 16, 2, u8x2, U, 8, 2);
    $m!(m8x4, M, 8, 4, m16x4, M, 16, 4);
    $m!(m8x4, M, 8, 4, m32x4, M, 32, 4);
    $m!(m8x4, M, 8, 4, m64x4, M, 64, 4);
    $m!(m16x2, M, 16, 2, m8x2, M, 8, 2);
    $m!(m16x2, M, 16, 2, m32x2, M, 32, 2);
    $m!(m16x2, M, 16, 2, m64x2, M, 64, 2);
    $m!(m16x2, M, 16, 2, m128x2, M, 128, 2);
    $m!(i16x32, I, 16, 32, i8x32, I, 8, 32);
    $m!(i16x32, I, 16, 32, u8x32, U, 8, 32);
    $m!(i32x16, I, 32, 16, i8x16, I, 8, 16);
    $m!(i32x16, I, 32, 16, u8x16, U, 8, 16);
    $m!(i32x16, I, 32, 16, i16x16, I, 16, 16);
    $m!(i32x16, I, 32, 16, u16x16, U, 16, 16);
    $m!(i64x8, I, 64, 8, i8x8, I, 8, 8);
    $m!(i64x8, I, 64, 8, u8x8, U, 8, 8);
    $m!(i64x8, I, 64, 8, i16x8, I, 16, 8);
    $m!(i64x8, I, 64, 8, u16x8, U, 16, 8);
    $m!(i64x8, I, 64, 8, i32x8, I, 32, 8);
    $m!(i64x8, I, 64, 8, u32x8, U, 32, 8);
    $m!(i128x4, I, 128, 4, i8x4, I, 8, 4);
    $m!(i128x4, I, 128, 4, u8x4, U, 8, 4);
    $m!(i128x4, I, 128, 4, i16x4, I, 16, 4);
    $m!(i128x4, I, 128, 4, u16x4, U, 16, 4);
    $m!(i128x4, I, 128, 4, i32x4, I, 32, 4);
    $m!(i128x4, I, 128, 4, u32x4, U, 32, 4);
    $m!(i128x4, I, 128, 4, i64x4, I, 64, 4);
    $m!(i128x4, I, 128, 4, u64x4, U, 64, 4);
    $m!(u16x32, U, 16, 32, u8x32, U, 8, 32);
    $m!(u32x16, U, 32, 16, u8x16, U, 8, 16);
    $m!(u32x16, U, 32, 16, u16x16, U, 16, 16);
    $m!(u64x8, U, 64, 8, u8x8, U, 8, 8);
    $m!(u64x8, U, 64, 8, u16x8, U, 16, 8);
    $m!(u64x8, U, 64, 8, u32x8, U, 32, 8);
    $m!(u128x4, U, 128, 4, u8x4, U, 8, 4);
    $m!(u128x4, U, 128, 4, u16x4, U, 16, 4);
    $m!(u128x4, U, 128, 4, u32x4, U, 32, 4);
    $m!(u128x4, U, 128, 4, u64x4, U, 64, 4);
    $m!(f32x16, F, 32, 16, i8x16, I, 8, 16);
    $m!(f32x16, F, 32, 16, u8x16, U, 8, 16);
    $m!(f32x16, F, 32, 16, i16x16, I, 16, 16);
    $m!(f32x16, F, 32, 16, u16x16, U, 16, 16);
    $m!(f64x8, F, 64, 8, i8x8, I, 8, 8);
    $m!(f64x8, F, 64, 8, u8x8, U, 8, 8);
    $m!(f64x8, F, 64, 8, i16x8, I, 16, 8);
    $m!(f64x8, F, 64, 8, u16x8, U, 16, 8);
    $m!(f64x8, F, 64, 8, i32x8, I, 32, 8);
    $m!(f64x8, F, 64, 8, u32x8, U, 32, 8);
    $m!(f64x8, F, 64, 8, f32x8, F, 32, 8);
    $m!(m16x32, M, 16, 32, m8x32, M, 8, 32);
    $m!(m32x16, M, 32, 16, m8x16, M, 8, 16);
    $m!(m32x16, M, 32, 16, m16x16, M, 16, 16);
    $m!(m64x8, M, 64, 8, m8x8, M, 8, 8);
    $m!(m64x8, M, 64, 8, m16x8, M, 16, 8);
    $m!(m64x8, M, 64, 8, m32x8, M, 32, 8);
    $m!(m128x4, M, 128, 4, m8x4, M, 8, 4);
    $m!(m128x4, M, 128, 4, m16x4, M, 16, 4);
    $m!(m128x4, M, 128, 4, m32x4, M, 32, 4);
    $m!(m128x4, M, 128, 4, m64x4, M, 64, 4);
    $m!(i16x4, I, 16, 4, i8x4, I, 8, 4);
    $m!(i16x4, I, 16, 4, u8x4, U, 8, 4);
    $m!(i32x2, I, 32, 2, i8x2, I, 8, 2);
    $m!(i32x2, I, 32, 2, u8x2, U, 8, 2);
    $m!(i32x2, I, 32, 2, i16x2, I, 16, 2);
    $m!(i32x2, I, 32, 2, u16x2, U, 16, 2);
    $m!(u16x4, U, 16, 4, u8x4, U, 8, 4);
    $m!(u32x2, U, 32, 2, u8x2, U, 8, 2);
    $m!(u32x2, U, 32, 2, u16x2, U, 16, 2);
    $m!(f32x2, F, 32, 2, i8x2, I, 8, 2);
    $m!(f32x2, F, 32, 2, u8x2, U, 8, 2);
    $m!(f32x2, F, 32, 2, i16x2, I, 16, 2);
    $m!(f32x2, F, 32, 2, u16x2, U, 16, 2);
    $m!(m8x8, M, 8, 8, m16x8, M, 16, 8);
    $m!(m8x8, M, 8, 8, m32x8, M, 32, 8);
    $m!(m16x4, M, 16, 4, m8x4, M, 8, 4);
    $m!(m16x4, M, 16, 4, m32x4, M, 32, 4);
    $m!(m16x4, M, 16, 4, m64x4, M, 64, 4);
    $m!(m32x2, M, 32, 2, m8x2, M, 8, 2);
    $m!(m32x2, M, 32, 2, m16x2, M, 16, 2);
    $m!(m32x2, M, 32, 2, m64x2, M, 64, 2);
    $m!(m32x2, M, 32, 2, m128x2, M, 128, 2);
}; }
#[macro_export]
macro_rules! for_bits_pairs { ($m:ident) => {
    $m!(i8x16, I, 8, 16, u8x16, U, 8, 16);
    $m!(i8x16, I, 8, 16, m8x16, M, 8, 16);
    $m!(i8x16, I, 8, 16, i16x8, I, 16, 8);
    $m!(i8x16, I, 8, 16, u16x8, U, 16, 8);
    $m!(i8x16, I, 8, 16, m16x8, M, 16, 8);
    $m!(i8x16, I, 8, 16, i32x4, I, 32, 4);
    $m!(i8x16, I, 8, 16, u32x4, U, 32, 4);
    $m!(i8x16, I, 8, 16, f32x4, F, 32, 4);
    $m!(i8x16, I, 8, 16, m32x4, M, 32, 4);
    $m!(i8x16, I, 8, 16, i64x2, I, 64, 2);
    $m!(i8x16, I, 8, 16, u64x2, U, 64, 2);
    $m!(i8x16, I, 8, 16, f64x2, F, 64, 2);
    $m!(i8x16, I, 8, 16, m64x2, M, 64, 2);
    $m!(i8x16, I, 8, 16, i128x1, I, 128, 1);
    $m!(i8x16, I, 8, 16, u128x1, U, 128, 1);
    $m!(i8x16, I, 8, 16, m128x1, M, 128, 1);
    $m!(u8x16, U, 8, 16, i8x16, I, 8, 16);
    $m!(u8x16, U, 8, 16, m8x16, M, 8, 16);
    $m!(u8x16, U, 8, 16, i16x8, I, 16, 8);
    $m!(u8x16, U, 8, 16, u16x8, U, 16, 8);
    $m!(u8x16, U, 8, 16, m16x8, M, 16, 8);
    $m!(u8x16, U, 8, 16, i32x4, I, 32, 4);
    $m!(u8x16, U, 8, 16, u32x4, U, 32, 4);
    $m!(u8x16, U, 8, 16, f32x4, F, 32, 4);
    $m!(u8x16, U, 8, 16, m32x4, M, 32, 4);
    $m!(u8x16, U, 8, 16, i64x2, I, 64, 2);
    $m!(u8x16, U, 8, 16, u64x2, U, 64, 2);
    $m!(u8x16, U, 8, 16, f64x2, F, 64, 2);
    $m!(u8x16, U, 8, 16, m64x2, M, 64, 2);
    $m!(u8x16, U, 8, 16, i128x1, I, 128, 1);
    $m!(u8x16, U, 8, 16, u128x1, U, 128, 1);
    $m!(u8x16, U, 8, 16, m128x1, M, 128, 1);
    $m!(m8x16, M, 8, 16, m16x8, M, 16, 8);
    $m!(m8x16, M, 8, 16, m32x4, M, 32, 4);
    $m!(m8x16, M, 8, 16, m64x2, M, 64, 2);
    $m!(m8x16, M, 8, 16, m128x1, M, 128, 1);
    $m!(i16x8, I, 16, 8, i8x16, I, 8, 16);
    $m!(i16x8, I, 16, 8, u8x16, U, 8, 16);
    $m!(i16x8, I, 16, 8, m8x16, M, 8, 16);
    $m!(i16x8, I, 16, 8, u16x8, U, 16, 8);
    $m!(i16x8, I, 16, 8, m16x8, M, 16, 8);
    $m!(i16x8, I, 16, 8, i32x4, I, 32, 4);
    $m!(i16x8, I, 16, 8, u32x4, U, 32, 4);
    $m!(i16x8, I, 16, 8, f32x4, F, 32, 4);
    $m!(i16x8, I, 16, 8, m32x4, M, 32, 4);
    $m!(i16x8, I, 16, 8, i64x2, I, 64, 2);
    $m!(i16x8, I, 16, 8, u64x2, U, 64, 2);
    $m!(i16x8, I, 16, 8, f64x2, F, 64, 2);
    $m!(i16x8, I, 16, 8, m64x2, M, 64, 2);
    $m!(i16x8, I, 16, 8, i128x1, I, 128, 1);
    $m!(i16x8, I, 16, 8, u128x1, U, 128, 1);
    $m!(i16x8, I, 16, 8, m128x1, M, 128, 1);
    $m!(u16x8, U, 16, 8, i8x16, I, 8, 16);
    $m!(u16x8, U, 16, 8, u8x16, U, 8, 16);
    $m!(u16x8, U, 16, 8, m8x16, M, 8, 16);
    $m!(u16x8, U, 16, 8, i16x8, I, 16, 8);
    $m!(u16x8, U, 16, 8, m16x8, M, 16, 8);
    $m!(u16x8, U, 16, 8, i32x4, I, 32, 4);
    $m!(u16x8, U, 16, 8, u32x4, U, 32, 4);
    $m!(u16x8, U, 16, 8, f32x4, F, 32, 4);
    $m!(u16x8, U, 16, 8, m32x4, M, 32, 4);
    $m!(u16x8, U, 16, 8, i64x2, I, 64, 2);
    $m!(u16x8, U, 16, 8, u64x2, U, 64, 2);
    $m!(u16x8, U, 16, 8, f64x2, F, 64, 2);
    $m!(u16x8, U, 16, 8, m64x2, M, 64, 2);
    $m!(u16x8, U, 16, 8, i128x1, I, 128, 1);
    $m!(u16x8, U, 16, 8, u128x1, U, 128, 1);
    $m!(u16x8, U, 16, 8, m128x1, M, 128, 1);
    $m!(m16x8, M, 16, 8, m32x4, M, 32, 4);
    $m!(m16x8, M, 16, 8, m64x2, M, 64, 2);
    $m!(m16x8, M, 16, 8, m128x1, M, 128, 1);
    $m!(i32x4, I, 32, 4, i8x16, I, 8, 16);
    $m!(i32x4, I, 32, 4, u8x16, U, 8, 16);
    $m!(i32x4, I, 32, 4, m8x16, M, 8, 16);
    $m!(i32x4, I, 32, 4, i16x8, I, 16, 8);
    $m!(i32x4, I, 32, 4, u16x8, U, 16, 8);
    $m!(i32x4, I, 32, 4, m16x8, M, 16, 8);
    $m!(i32x4, I, 32, 4, u32x4, U, 32, 4);
    $m!(i32x4, I, 32, 4, f32x4, F, 32, 4);
    $m!(i32x4, I, 32, 4, m32x4, M, 32, 4);
    $m!(i32x4, I, 32, 4, i64x2, I, 64, 2);
    $m!(i32x4, I, 32, 4, u64x2, U, 64, 2);
    $m!(i32x4, I, 32, 4, f64x2, F, 64, 2);
    $m!(i32x4, I, 32, 4, m64x2, M, 64, 2);
    $m!(i32x4, I, 32, 4, i128x1, I, 128, 1);
    $m!(i32x4, I, 32, 4, u128x1, U, 128, 1);
    $m!(i32x4, I, 32, 4, m128x1, M, 128, 1);
    $m!(u32x4, U, 32, 4, i8x16, I, 8, 16);
    $m!(u32x4, U, 32, 4, u8x16, U, 8, 16);
    $m!(u32x4, U, 32, 4, m8x16, M, 8, 16);
    $m!(u32x4, U, 32, 4, i16x8, I, 16, 8);
    $m!(u32x4, U, 32, 4, u16x8, U, 16, 8);
    $m!(u32x4, U, 32, 4, m16x8, M, 16, 8);
    $m!(u32x4, U, 32, 4, i32x4, I, 32, 4);
    $m!(u32x4, U, 32, 4, f32x4, F, 32, 4);
    $m!(u32x4, U, 32, 4, m32x4, M, 32, 4);
    $m!(u32x4, U, 32, 4, i64x2, I, 64, 2);
    $m!(u32x4, U, 32, 4, u64x2, U, 64, 2);
    $m!(u32x4, U, 32, 4, f64x2, F, 64, 2);
    $m!(u32x4, U, 32, 4, m64x2, M, 64, 2);
    $m!(u32x4, U, 32, 4, i128x1, I, 128, 1);
    $m!(u32x4, U, 32, 4, u128x1, U, 128, 1);
    $m!(u32x4, U, 32, 4, m128x1, M, 128, 1);
    $m!(f32x4, F, 32, 4, i8x16, I, 8, 16);
    $m!(f32x4, F, 32, 4, u8x16, U, 8, 16);
    $m!(f32x4, F, 32, 4, m8x16, M, 8, 16);
    $m!(f32x4, F, 32, 4, i16x8, I, 16, 8);
    $m!(f32x4, F, 32, 4, u16x8, U, 16, 8);
    $m!(f32x4, F, 32, 4, m16x8, M, 16, 8);
    $m!(f32x4, F, 32, 4, i32x4, I, 32, 4);
    $m!(f32x4, F, 32, 4, u32x4, U, 32, 4);
    $m!(f32x4, F, 32, 4, m32x4, M, 32, 4);
    $m!(f32x4, F, 32, 4, i64x2, I, 64, 2);
    $m!(f32x4, F, 32, 4, u64x2, U, 64, 2);
    $m!(f32x4, F, 32, 4, f64x2, F, 64, 2);
    $m!(f32x4, F, 32, 4, m64x2, M, 64, 2);
    $m!(f32x4, F, 32, 4, i128x1, I, 128, 1);
    $m!(f32x4, F, 32, 4, u128x1, U, 128, 1);
    $m!(f32x4, F, 32, 4, m128x1, M, 128, 1);
    $m!(m32x4, M, 32, 4, m64x2, M, 64, 2);
    $m!(m32x4, M, 32, 4, m128x1, M, 128, 1);
    $m!(i64x2, I, 64, 2, i8x16, I, 8, 16);
    $m!(i64x2, I, 64, 2, u8x16, U, 8, 16);
    $m!(i64x2, I, 64, 2, m8x16, M, 8, 16);
    $m!(i64x2, I, 64, 2, i16x8, I, 16, 8);
    $m!(i64x2, I, 64, 2, u16x8, U, 16, 8);
    $m!(i64x2, I, 64, 2, m16x8, M, 16, 8);
    $m!(i64x2, I, 64, 2, i32x4, I, 32, 4);
    $m!(i64x2, I, 64, 2, u32x4, U, 32, 4);
    $m!(i64x2, I, 64, 2, f32x4, F, 32, 4);
    $m!(i64x2, I, 64, 2, m32x4, M, 32, 4);
    $m!(i64x2, I, 64, 2, u64x2, U, 64, 2);
    $m!(i64x2, I, 64, 2, f64x2, F, 64, 2);
    $m!(i64x2, I, 64, 2, m64x2, M, 64, 2);
    $m!(i64x2, I, 64, 2, i128x1, I, 128, 1);
    $m!(i64x2, I, 64, 2, u128x1, U, 128, 1);
    $m!(i64x2, I, 64, 2, m128x1, M, 128, 1);
    $m!(u64x2, U, 64, 2, i8x16, I, 8, 16);
    $m!(u64x2, U, 64, 2, u8x16, U, 8, 16);
    $m!(u64x2, U, 64, 2, m8x16, M, 8, 16);
    $m!(u64x2, U, 64, 2, i16x8, I, 16, 8);
    $m!(u64x2, U, 64, 2, u16x8, U, 16, 8);
    $m!(u64x2, U, 64, 2, m16x8, M, 16, 8);
    $m!(u64x2, U, 64, 2, i32x4, I, 32, 4);
    $m!(u64x2, U, 64, 2, u32x4, U, 32, 4);
    $m!(u64x2, U, 64, 2, f32x4, F, 32, 4);
    $m!(u64x2, U, 64, 2, m32x4, M, 32, 4);
    $m!(u64x2, U, 64, 2, i64x2, I, 64, 2);
    $m!(u64x2, U, 64, 2, f64x2, F, 64, 2);
    $m!(u64x2, U, 64, 2, m64x2, M, 64, 2);
    $m!(u64x2, U, 64, 2, i128x1, I, 128, 1);
    $m!(u64x2, U, 64, 2, u128x1, U, 128, 1);
    $m!(u64x2, U, 64, 2, m128x1, M, 128, 1);
    $m!(f64x2, F, 64, 2, i8x16, I, 8, 16);
    $m!(f64x2, F, 64, 2, u8x16, U, 8, 16);
    $m!(f64x2, F, 64, 2, m8x16, M, 8, 16);
    $m!(f64x2, F, 64, 2, i16x8, I, 16, 8);
    $m!(f64x2, F, 64, 2, u16x8, U, 16, 8);
    $m!(f64x2, F, 64, 2, m16x8, M, 16, 8);
    $m!(f64x2, F, 64, 2, i32x4, I, 32, 4);
    $m!(f64x2, F, 64, 2, u32x4, U, 32, 4);
    $m!(f64x2, F, 64, 2, f32x4, F, 32, 4);
    $m!(f64x2, F, 64, 2, m32x4, M, 32, 4);
    $m!(f64x2, F, 64, 2, i64x2, I, 64, 2);
    $m!(f64x2, F, 64, 2, u64x2, U, 64, 2);
    $m!(f64x2, F, 64, 2, m64x2, M, 64, 2);
    $m!(f64x2, F, 64, 2, i128x1, I, 128, 1);
    $m!(f64x2, F, 64, 2, u128x1, U, 128, 1);
    $m!(f64x2, F, 64, 2, m128x1, M, 128, 1);
    $m!(m64x2, M, 64, 2, m128x1, M, 128, 1);
    $m!(i128x1, I, 128, 1, i8x16, I, 8, 16);
    $m!(i128x1, I, 128, 1, u8x16, U, 8, 16);
    $m!(i128x1, I, 128, 1, m8x16, M, 8, 16);
    $m!(i128x1, I, 128, 1, i16x8, I, 16, 8);
    $m!(i128x1, I, 128, 1, u16x8, U, 16, 8);
    $m!(i128x1, I, 128, 1, m16x8, M, 16, 8);
    $m!(i128x1, I, 128, 1, i32x4, I, 32, 4);
    $m!(i128x1, I, 128, 1, u32x4, U, 32, 4);
    $m!(i128x1, I, 128, 1, f32x4, F, 32, 4);
    $m!(i128x1, I, 128, 1, m32x4, M, 32, 4);
    $m!(i128x1, I, 128, 1, i64x2, I, 64, 2);
    $m!(i128x1, I, 128, 1, u64x2, U, 64, 2);
    $m!(i128x1, I, 128, 1, f64x2, F, 64, 2);
    $m!(i128x1, I, 128, 1, m64x2, M, 64, 2);
    $m!(i128x1, I, 128, 1, u128x1, U, 128, 1);
    $m!(i128x1, I, 128, 1, m128x1, M, 128, 1);
    $m!(u128x1, U, 128, 1, i8x16, I, 8, 16);
    $m!(u128x1, U, 128, 1, u8x16, U, 8, 16);
    $m!(u128x1, U, 128, 1, m8x16, M, 8, 16);
    $m!(u128x1, U, 128, 1, i16x8, I, 16, 8);
    $m!(u128x1, U, 128, 1, u16x8, U, 16, 8);
    $m!(u128x1, U, 128, 1, m16x8, M, 16, 8);
    $m!(u128x1, U, 128, 1, i32x4, I, 32, 4);
    $m!(u128x1, U, 128, 1, u32x4, U, 32, 4);
    $m!(u128x1, U, 128, 1, f32x4, F, 32, 4);
    $m!(u128x1, U, 128, 1, m32x4, M, 32, 4);
    $m!(u128x1, U, 128, 1, i64x2, I, 64, 2);
    $m!(u128x1, U, 128, 1, u64x2, U, 64, 2);
    $m!(u128x1, U, 128, 1, f64x2, F, 64, 2);
    $m!(u128x1, U, 128, 1, m64x2, M, 64, 2);
    $m!(u128x1, U, 128, 1, i128x1, I, 128, 1);
    $m!(u128x1, U, 128, 1, m128x1, M, 128, 1);
    $m!(i8x2, I, 8, 2, u8x2, U, 8, 2);
    $m!(i8x2, I, 8, 2, m8x2, M, 8, 2);
    $m!(u8x2, U, 8, 2, i8x2, I, 8, 2);
    $m!(u8x2, U, 8, 2, m8x2, M, 8, 2);
    $m!(i8x32, I, 8, 32, u8x32, U, 8, 32);
    $m!(i8x32, I, 8, 32, m8x32, M, 8, 32);
    $m!(i8x32, I, 8, 32, i16x16, I, 16, 16);
    $m!(i8x32, I, 8, 32, u16x16, U, 16, 16);
    $m!(i8x32, I, 8, 32, m16x16, M, 16, 16);
    $m!(i8x32, I, 8, 32, i32x8, I, 32, 8);
    $m!(i8x32, I, 8, 32, u32x8, U, 32, 8);
    $m!(i8x32, I, 8, 32, f32x8, F, 32, 8);
    $m!(i8x32, I, 8, 32, m32x8, M, 32, 8);
    $m!(i8x32, I, 8, 32, i64x4, I, 64, 4);
    $m!(i8x32, I, 8, 32, u64x4, U, 64, 4);
    $m!(i8x32, I, 8, 32, f64x4, F, 64, 4);
    $m!(i8x32, I, 8, 32, m64x4, M, 64, 4);
    $m!(i8x32, I, 8, 32, i128x2, I, 128, 2);
    $m!(i8x32, I, 8, 32, u128x2, U, 128, 2);
    $m!(i8x32, I, 8, 32, m128x2, M, 128, 2);
    $m!(u8x32, U, 8, 32, i8x32, I, 8, 32);
    $m!(u8x32, U, 8, 32, m8x32, M, 8, 32);
    $m!(u8x32, U, 8, 32, i16x16, I, 16, 16);
    $m!(u8x32, U, 8, 32, u16x16, U, 16, 16);
    $m!(u8x32, U, 8, 32, m16x16, M, 16, 16);
    $m!(u8x32, U, 8, 32, i32x8, I, 32, 8);
    $m!(u8x32, U, 8, 32, u32x8, U, 32, 8);
    $m!(u8x32, U, 8, 32, f32x8, F, 32, 8);
    $m!(u8x32, U, 8, 32, m32x8, M, 32, 8);
    $m!(u8x32, U, 8, 32, i64x4, I, 64, 4);
    $m!(u8x32, U, 8, 32, u64x4, U, 64, 4);
    $m!(u8x32, U, 8, 32, f64x4, F, 64, 4);
    $m!(u8x32, U, 8, 32, m64x4, M, 64, 4);
    $m!(u8x32, U, 8, 32, i128x2, I, 128, 2);
    $m!(u8x32, U, 8, 32, u128x2, U, 128, 2);
    $m!(u8x32, U, 8, 32, m128x2, M, 128, 2);
    $m!(m8x32, M, 8, 32, m16x16, M, 16, 16);
    $m!(m8x32, M, 8, 32, m32x8, M, 32, 8);
    $m!(m8x32, M, 8, 32, m64x4, M, 64, 4);
    $m!(m8x32, M, 8, 32, m128x2, M, 128, 2);
    $m!(i16x16, I, 16, 16, i8x32, I, 8, 32);
    $m!(i16x16, I, 16, 16, u8x32, U, 8, 32);
    $m!(i16x16, I, 16, 16, m8x32, M, 8, 32);
    $m!(i16x16, I, 16, 16, u16x16, U, 16, 16);
    $m!(i16x16, I, 16, 16, m16x16, M, 16, 16);
    $m!(i16x16, I, 16, 16, i32x8, I, 32, 8);
    $m!(i16x16, I, 16, 16, u32x8, U, 32, 8);
    $m!(i16x16, I, 16, 16, f32x8, F, 32, 8);
    $m!(i16x16, I, 16, 16, m32x8, M, 32, 8);
    $m!(i16x16, I, 16, 16, i64x4, I, 64, 4);
    $m!(i16x16, I, 16, 16, u64x4, U, 64, 4);
    $m!(i16x16, I, 16, 16, f64x4, F, 64, 4);
    $m!(i16x16, I, 16, 16, m64x4, M, 64, 4);
    $m!(i16x16, I, 16, 16, i128x2, I, 128, 2);
    $m!(i16x16, I, 16, 16, u128x2, U, 128, 2);
    $m!(i16x16, I, 16, 16, m128x2, M, 128, 2);
    $m!(u16x16, U, 16, 16, i8x32, I, 8, 32);
    $m!(u16x16, U, 16, 16, u8x32, U, 8, 32);
    $m!(u16x16, U, 16, 16, m8x32, M, 8, 32);
    $m!(u16x16, U, 16, 16, i16x16, I, 16, 16);
    $m!(u16x16, U, 16, 16, m16x16, M, 16, 16);
    $m!(u16x16, U, 16, 16, i32x8, I, 32, 8);
    $m!(u16x16, U, 16, 16, u32x8, U, 32, 8);
    $m!(u16x16, U, 16, 16, f32x8, F, 32, 8);
    $m!(u16x16, U, 16, 16, m32x8, M, 32, 8);
    $m!(u16x16, U, 16, 16, i64x4, I, 64, 4);
    $m!(u16x16, U, 16, 16, u64x4, U, 64, 4);
    $m!(u16x16, U, 16, 16, f64x4, F, 64, 4);
    $m!(u16x16, U, 16, 16, m64x4, M, 64, 4);
    $m!(u16x16, U, 16, 16, i128x2, I, 128, 2);
    $m!(u16x16, U, 16, 16, u128x2, U, 128, 2);
    $m!(u16x16, U, 16, 16, m128x2, M, 128, 2);
    $m!(m16x16, M, 16, 16, m32x8, M, 32, 8);
    $m!(m16x16, M, 16, 16, m64x4, M, 64, 4);
    $m!(m16x16, M, 16, 16, m128x2, M, 128, 2);
    $m!(i32x8, I, 32, 8, i8x32, I, 8, 32);
    $m!(i32x8, I, 32, 8, u8x32, U, 8, 32);
    $m!(i32x8, I, 32, 8, m8x32, M, 8, 32);
    $m!(i32x8, I, 32, 8, i16x16, I, 16, 16);
    $m!(i32x8, I, 32, 8, u16x16, U, 16, 16);
    $m!(i32x8, I, 32, 8, m16x16, M, 16, 16);
    $m!(i32x8, I, 32, 8, u32x8, U, 32, 8);
    $m!(i32x8, I, 32, 8, f32x8, F, 32, 8);
    $m!(i32x8, I, 32, 8, m32x8, M, 32, 8);
    $m!(i32x8, I, 32, 8, i64x4, I, 64, 4);
    $m!(i32x8, I, 32, 8, u64x4, U, 64, 4);
    $m!(i32x8, I, 32, 8, f64x4, F, 64, 4);
    $m!(i32x8, I, 32, 8, m64x4, M, 64, 4);
    $m!(i32x8, I, 32, 8, i128x2, I, 128, 2);
    $m!(i32x8, I, 32, 8, u128x2, U, 128, 2);
    $m!(i32x8, I, 32, 8, m128x2, M, 128, 2);
    $m!(u32x8, U, 32, 8, i8x32, I, 8, 32);
    $m!(u32x8, U, 32, 8, u8x32, U, 8, 32);
    $m!(u32x8, U, 32, 8, m8x32, M, 8, 32);
    $m!(u32x8, U, 32, 8, i16x16, I, 16, 16);
    $m!(u32x8, U, 32, 8, u16x16, U, 16, 16);
    $m!(u32x8, U, 32, 8, m16x16, M, 16, 16);
    $m!(u32x8, U, 32, 8, i32x8, I, 32, 8);
    $m!(u32x8, U, 32, 8, f32x8, F, 32, 8);
    $m!(u32x8, U, 32, 8, m32x8, M, 32, 8);
    $m!(u32x8, U, 32, 8, i64x4, I, 64, 4);
    $m!(u32x8, U, 32, 8, u64x4, U, 64, 4);
    $m!(u32x8, U, 32, 8, f64x4, F, 64, 4);
    $m!(u32x8, U, 32, 8, m64x4, M, 64, 4);
    $m!(u32x8, U, 32, 8, i128x2, I, 128, 2);
    $m!(u32x8, U, 32, 8, u128x2, U, 128, 2);
    $m!(u32x8, U, 32, 8, m128x2, M, 128, 2);
    $m!(f32x8, F, 32, 8, i8x32, I, 8, 32);
    $m!(f32x8, F, 32, 8, u8x32, U, 8, 32);
    $m!(f32x8, F, 32, 8, m8x32, M, 8, 32);
    $m!(f32x8, F, 32, 8, i16x16, I, 16, 16);
    $m!(f32x8, F, 32, 8, u16x16, U, 16, 16);
    $m!(f32x8, F, 32, 8, m16x16, M, 16, 16);
    $m!(f32x8, F, 32, 8, i32x8, I, 32, 8);
    $m!(f32x8, F, 32, 8, u32x8, U, 32, 8);
    $m!(f32x8, F, 32, 8, m32x8, M, 32, 8);
    $m!(f32x8, F, 32, 8, i64x4, I, 64, 4);
    $m!(f32x8, F, 32, 8, u64x4, U, 64, 4);
    $m!(f32x8, F, 32, 8, f64x4, F, 64, 4);
    $m!(f32x8, F, 32, 8, m64x4, M, 64, 4);
    $m!(f32x8, F, 32, 8, i128x2, I, 128, 2);
    $m!(f32x8, F, 32, 8, u128x2, U, 128, 2);
    $m!(f32x8, F, 32, 8, m128x2, M, 128, 2);
    $m!(m32x8, M, 32, 8, m64x4, M, 64, 4);
    $m!(m32x8, M, 32, 8, m128x2, M, 128, 2);
    $m!(i64x4, I, 64, 4, i8x32, I, 8, 32);
    $m!(i64x4, I, 64, 4, u8x32, U, 8, 32);
    $m!(i64x4, I, 64, 4, m8x32, M, 8, 32);
    $m!(i64x4, I, 64, 4, i16x16, I, 16, 16);
    $m!(i64x4, I, 64, 4, u16x16, U, 16, 16);
    $m!(i64x4, I, 64, 4, m16x16, M, 16, 16);
    $m!(i64x4, I, 64, 4, i32x8, I, 32, 8);
    $m!(i64x4, I, 64, 4, u32x8, U, 32, 8);
    $m!(i64x4, I, 64, 4, f32x8, F, 32, 8);
    $m!(i64x4, I, 64, 4, m32x8, M, 32, 8);
    $m!(i64x4, I, 64, 4, u64x4, U, 64, 4);
    $m!(i64x4, I, 64, 4, f64x4, F, 64, 4);
    $m!(i64x4, I, 64, 4, m64x4, M, 64, 4);
    $m!(i64x4, I, 64, 4, i128x2, I, 128, 2);
    $m!(i64x4, I, 64, 4, u128x2, U, 128, 2);
    $m!(i64x4, I, 64, 4, m128x2, M, 128, 2);
    $m!(u64x4, U, 64, 4, i8x32, I, 8, 32);
    $m!(u64x4, U, 64, 4, u8x32, U, 8, 32);
    $m!(u64x4, U, 64, 4, m8x32, M, 8, 32);
    $m!(u64x4, U, 64, 4, i16x16, I, 16, 16);
    $m!(u64x4, U, 64, 4, u16x16, U, 16, 16);
    $m!(u64x4, U, 64, 4, m16x16, M, 16, 16);
    $m!(u64x4, U, 64, 4, i32x8, I, 32, 8);
    $m!(u64x4, U, 64, 4, u32x8, U, 32, 8);
    $m!(u64x4, U, 64, 4, f32x8, F, 32, 8);
    $m!(u64x4, U, 64, 4, m32x8, M, 32, 8);
    $m!(u64x4, U, 64, 4, i64x4, I, 64, 4);
    $m!(u64x4, U, 64, 4, f64x4, F, 64, 4);
    $m!(u64x4, U, 64, 4, m64x4, M, 64, 4);
    $m!(u64x4, U, 64, 4, i128x2, I, 128, 2);
    $m!(u64x4, U, 64, 4, u128x2, U, 128, 2);
    $m!(u64x4, U, 64, 4, m128x2, M, 128, 2);
    $m!(f64x4, F, 64, 4, i8x32, I, 8, 32);
    $m!(f64x4, F, 64, 4, u8x32, U, 8, 32);
    $m!(f64x4, F, 64, 4, m8x32, M, 8, 32);
    $m!(f64x4, F, 64, 4, i16x16, I, 16, 16);
    $m!(f64x4, F, 64, 4, u16x16, U, 16, 16);
    $m!(f64x4, F, 64, 4, m16x16, M, 16, 16);
    $m!(f64x4, F, 64, 4, i32x8, I, 32, 8);
    $m!(f64x4, F, 64, 4, u32x8, U, 32, 8);
    $m!(f64x4, F, 64, 4, f32x8, F, 32, 8);
    $m!(f64x4, F, 64, 4, m32x8, M, 32, 8);
    $m!(f64x4, F, 64, 4, i64x4, I, 64, 4);
    $m!(f64x4, F, 64, 4, u64x4, U, 64, 4);
    $m!(f64x4, F, 64, 4, m64x4, M, 64, 4);
    $m!(f64x4, F, 64, 4, i128x2, I, 128, 2);
    $m!(f64x4, F, 64, 4, u128x2, U, 128, 2);
    $m!(f64x4, F, 64, 4, m128x2, M, 128, 2);
    $m!(m64x4, M, 64, 4, m128x2, M, 128, 2);
    $m!(i128x2, I, 128, 2, i8x32, I, 8, 32);
    $m!(i128x2, I, 128, 2, u8x32, U, 8, 32);
    $m!(i128x2, I, 128, 2, m8x32, M, 8, 32);
    $m!(i128x2, I, 128, 2, i16x16, I, 16, 16);
    $m!(i128x2, I, 128, 2, u16x16, U, 16, 16);
    $m!(i128x2, I, 128, 2, m16x16, M, 16, 16);
    $m!(i128x2, I, 128, 2, i32x8, I, 32, 8);
    $m!(i128x2, I, 128, 2, u32x8, U, 32, 8);
    $m!(i128x2, I, 128, 2, f32x8, F, 32, 8);
    $m!(i128x2, I, 128, 2, m32x8, M, 32, 8);
    $m!(i128x2, I, 128, 2, i64x4, I, 64, 4);
    $m!(i128x2, I, 128, 2, u64x4, U, 64, 4);
    $m!(i128x2, I, 128, 2, f64x4, F, 64, 4);
    $m!(i128x2, I, 128, 2, m64x4, M, 64, 4);
    $m!(i128x2, I, 128, 2, u128x2, U, 128, 2);
    $m!(i128x2, I, 128, 2, m128x2, M, 128, 2);
    $m!(u128x2, U, 128, 2, i8x32, I, 8, 32);
    $m!(u128x2, U, 128, 2, u8x32, U, 8, 32);
    $m!(u128x2, U, 128, 2, m8x32, M, 8, 32);
    $m!(u128x2, U, 128, 2, i16x16, I, 16, 16);
    $m!(u128x2, U, 128, 2, u16x16, U, 16, 16);
    $m!(u128x2, U, 128, 2, m16x16, M, 16, 16);
    $m!(u128x2, U, 128, 2, i32x8, I, 32, 8);
    $m!(u128x2, U, 128, 2, u32x8, U, 32, 8);
    $m!(u128x2, U, 128, 2, f32x8, F, 32, 8);
    $m!(u128x2, U, 128, 2, m32x8, M, 32, 8);
    $m!(u128x2, U, 128, 2, i64x4, I, 64, 4);
    $m!(u128x2, U, 128, 2, u64x4, U, 64, 4);
    $m!(u128x2, U, 128, 2, f64x4, F, 64, 4);
    $m!(u128x2, U, 128, 2, m64x4, M, 64, 4);
    $m!(u128x2, U, 128, 2, i128x2, I, 128, 2);
    $m!(u128x2, U, 128, 2, m128x2, M, 128, 2);
    $m!(i8x4, I, 8, 4, u8x4, U, 8, 4);
    $m!(i8x4, I, 8, 4, m8x4, M, 8, 4);
    $m!(i8x4, I, 8, 4, i16x2, I, 16, 2);
    $m!(i8x4, I, 8, 4, u16x2, U, 16, 2);
    $m!(i8x4, I, 8, 4, m16x2, M, 16, 2);
    $m!(u8x4, U, 8, 4, i8x4, I, 8, 4);
    $m!(u8x4, U, 8, 4, m8x4, M, 8, 4);
    $m!(u8x4, U, 8, 4, i16x2, I, 16, 2);
    $m!(u8x4, U, 8, 4, u16x2, U, 16, 2);
    $m!(u8x4, U, 8, 4, m16x2, M, 16, 2);
    $m!(m8x4, M, 8, 4, m16x2, M, 16, 2);
    $m!(i16x2, I, 16, 2, i8x4, I, 8, 4);
    $m!(i16x2, I, 16, 2, u8x4, U, 8, 4);
    $m!(i16x2, I, 16, 2, m8x4, M, 8, 4);
    $m!(i16x2, I, 16, 2, u16x2, U, 16, 2);
    $m!(i16x2, I, 16, 2, m16x2, M, 16, 2);
    $m!(u16x2, U, 16, 2, i8x4, I, 8, 4);
    $m!(u16x2, U, 16, 2, u8x4, U, 8, 4);
    $m!(u16x2, U, 16, 2, m8x4, M, 8, 4);
    $m!(u16x2, U, 16, 2, i16x2, I, 16, 2);
    $m!(u16x2, U, 16, 2, m16x2, M, 16, 2);
    $m!(i8x64, I, 8, 64, u8x64, U, 8, 64);
    $m!(i8x64, I, 8, 64, m8x64, M, 8, 64);
    $m!(i8x64, I, 8, 64, i16x32, I, 16, 32);
    $m!(i8x64, I, 8, 64, u16x32, U, 16, 32);
    $m!(i8x64, I, 8, 64, m16x32, M, 16, 32);
    $m!(i8x64, I, 8, 64, i32x16, I, 32, 16);
    $m!(i8x64, I, 8, 64, u32x16, U, 32, 16);
    $m!(i8x64, I, 8, 64, f32x16, F, 32, 16);
    $m!(i8x64, I, 8, 64, m32x16, M, 32, 16);
    $m!(i8x64, I, 8, 64, i64x8, I, 64, 8);
    $m!(i8x64, I, 8, 64, u64x8, U, 64, 8);
    $m!(i8x64, I, 8, 64, f64x8, F, 64, 8);
    $m!(i8x64, I, 8, 64, m64x8, M, 64, 8);
    $m!(i8x64, I, 8, 64, i128x4, I, 128, 4);
    $m!(i8x64, I, 8, 64, u128x4, U, 128, 4);
    $m!(i8x64, I, 8, 64, m128x4, M, 128, 4);
    $m!(u8x64, U, 8, 64, i8x64, I, 8, 64);
    $m!(u8x64, U, 8, 64, m8x64, M, 8, 64);
    $m!(u8x64, U, 8, 64, i16x32, I, 16, 32);
    $m!(u8x64, U, 8, 64, u16x32, U, 16, 32);
    $m!(u8x64, U, 8, 64, m16x32, M, 16, 32);
    $m!(u8x64, U, 8, 64, i32x16, I, 32, 16);
    $m!(u8x64, U, 8, 64, u32x16, U, 32, 16);
    $m!(u8x64, U, 8, 64, f32x16, F, 32, 16);
    $m!(u8x64, U, 8, 64, m32x16, M, 32, 16);
    $m!(u8x64, U, 8, 64, i64x8, I, 64, 8);
    $m!(u8x64, U, 8, 64, u64x8, U, 64, 8);
    $m!(u8x64, U, 8, 64, f64x8, F, 64, 8);
    $m!(u8x64, U, 8, 64, m64x8, M, 64, 8);
    $m!(u8x64, U, 8, 64, i128x4, I, 128, 4);
    $m!(u8x64, U, 8, 64, u128x4, U, 128, 4);
    $m!(u8x64, U, 8, 64, m128x4, M, 128, 4);
    $m!(m8x64, M, 8, 64, m16x32, M, 16, 32);
    $m!(m8x64, M, 8, 64, m32x16, M, 32, 16);
    $m!(m8x64, M, 8, 64, m64x8, M, 64, 8);
    $m!(m8x64, M, 8, 64, m128x4, M, 128, 4);
    $m!(i16x32, I, 16, 32, i8x64, I, 8, 64);
    $m!(i16x32, I, 16, 32, u8x64, U, 8, 64);
    $m!(i16x32, I, 16, 32, m8x64, M, 8, 64);
    $m!(i16x32, I, 16, 32, u16x32, U, 16, 32);
    $m!(i16x32, I, 16, 32, m16x32, M, 16, 32);
    $m!(i16x32, I, 16, 32, i32x16, I, 32, 16);
    $m!(i16x32, I, 16, 32, u32x16, U, 32, 16);
    $m!(i16x32, I, 16, 32, f32x16, F, 32, 16);
    $m!(i16x32, I, 16, 32, m32x16, M, 32, 16);
    $m!(i16x32, I, 16, 32, i64x8, I, 64, 8);
    $m!(i16x32, I, 16, 32, u64x8, U, 64, 8);
    $m!(i16x32, I, 16, 32, f64x8, F, 64, 8);
    $m!(i16x32, I, 16, 32, m64x8, M, 64, 8);
    $m!(i16x32, I, 16, 32, i128x4, I, 128, 4);
    $m!(i16x32, I, 16, 32, u128x4, U, 128, 4);
    $m!(i16x32, I, 16, 32, m128x4, M, 128, 4);
    $m!(u16x32, U, 16, 32, i8x64, I, 8, 64);
    $m!(u16x32, U, 16, 32, u8x64, U, 8, 64);
    $m!(u16x32, U, 16, 32, m8x64, M, 8, 64);
    $m!(u16x32, U, 16, 32, i16x32, I, 16, 32);
    $m!(u16x32, U, 16, 32, m16x32, M, 16, 32);
    $m!(u16x32, U, 16, 32, i32x16, I, 32, 16);
    $m!(u16x32, U, 16, 32, u32x16, U, 32, 16);
    $m!(u16x32, U, 16, 32, f32x16, F, 32, 16);
    $m!(u16x32, U, 16, 32, m32x16, M, 32, 16);
    $m!(u16x32, U, 16, 32, i64x8, I, 64, 8);
    $m!(u16x32, U, 16, 32, u64x8, U, 64, 8);
    $m!(u16x32, U, 16, 32, f64x8, F, 64, 8);
    $m!(u16x32, U, 16, 32, m64x8, M, 64, 8);
    $m!(u16x32, U, 16, 32, i128x4, I, 128, 4);
    $m!(u16x32, U, 16, 32, u128x4, U, 128, 4);
    $m!(u16x32, U, 16, 32, m128x4, M, 128, 4);
    $m!(m16x32, M, 16, 32, m32x16, M, 32, 16);
    $m!(m16x32, M, 16, 32, m64x8, M, 64, 8);
    $m!(m16x32, M, 16, 32, m128x4, M, 128, 4);
    $m!(i32x16, I, 32, 16, i8x64, I, 8, 64);
    $m!(i32x16, I, 32, 16, u8x64, U, 8, 64);
    $m!(i32x16, I, 32, 16, m8x64, M, 8, 64);
    $m!(i32x16, I, 32, 16, i16x32, I, 16, 32);
    $m!(i32x16, I, 32, 16, u16x32, U, 16, 32);
    $m!(i32x16, I, 32, 16, m16x32, M, 16, 32);
    $m!(i32x16, I, 32, 16, u32x16, U, 32, 16);
    $m!(i32x16, I, 32, 16, f32x16, F, 32, 16);
    $m!(i32x16, I, 32, 16, m32x16, M, 32, 16);
    $m!(i32x16, I, 32, 16, i64x8, I, 64, 8);
    $m!(i32x16, I, 32, 16, u64x8, U, 64, 8);
    $m!(i32x16, I, 32, 16, f64x8, F, 64, 8);
    $m!(i32x16, I, 32, 16, m64x8, M, 64, 8);
    $m!(i32x16, I, 32, 16, i128x4, I, 128, 4);
    $m!(i32x16, I, 32, 16, u128x4, U, 128, 4);
    $m!(i32x16, I, 32, 16, m128x4, M, 128, 4);
    $m!(u32x16, U, 32, 16, i8x64, I, 8, 64);
    $m!(u32x16, U, 32, 16, u8x64, U, 8, 64);
    $m!(u32x16, U, 32, 16, m8x64, M, 8, 64);
    $m!(u32x16, U, 32, 16, i16x32, I, 16, 32);
    $m!(u32x16, U, 32, 16, u16x32, U, 16, 32);
    $m!(u32x16, U, 32, 16, m16x32, M, 16, 32);
    $m!(u32x16, U, 32, 16, i32x16, I, 32, 16);
    $m!(u32x16, U, 32, 16, f32x16, F, 32, 16);
    $m!(u32x16, U, 32, 16, m32x16, M, 32, 16);
    $m!(u32x16, U, 32, 16, i64x8, I, 64, 8);
    $m!(u32x16, U, 32, 16, u64x8, U, 64, 8);
    $m!(u32x16, U, 32, 16, f64x8, F, 64, 8);
    $m!(u32x16, U, 32, 16, m64x8, M, 64, 8);
    $m!(u32x16, U, 32, 16, i128x4, I, 128, 4);
    $m!(u32x16, U, 32, 16, u128x4, U, 128, 4);
    $m!(u32x16, U, 32, 16, m128x4, M, 128, 4);
    $m!(f32x16, F, 32, 16, i8x64, I, 8, 64);
    $m!(f32x16, F, 32, 16, u8x64, U, 8, 64);
    $m!(f32x16, F, 32, 16, m8x64, M, 8, 64);
    $m!(f32x16, F, 32, 16, i16x32, I, 16, 32);
    $m!(f32x16, F, 32, 16, u16x32, U, 16, 32);
    $m!(f32x16, F, 32, 16, m16x32, M, 16, 32);
    $m!(f32x16, F, 32, 16, i32x16, I, 32, 16);
    $m!(f32x16, F, 32, 16, u32x16, U, 32, 16);
    $m!(f32x16, F, 32, 16, m32x16, M, 32, 16);
    $m!(f32x16, F, 32, 16, i64x8, I, 64, 8);
    $m!(f32x16, F, 32, 16, u64x8, U, 64, 8);
    $m!(f32x16, F, 32, 16, f64x8, F, 64, 8);
    $m!(f32x16, F, 32, 16, m64x8, M, 64, 8);
    $m!(f32x16, F, 32, 16, i128x4, I, 128, 4);
    $m!(f32x16, F, 32, 16, u128x4, U, 128, 4);
    $m!(f32x16, F, 32, 16, m128x4, M, 128, 4);
    $m!(m32x16, M, 32, 16, m64x8, M, 64, 8);
    $m!(m32x16, M, 32, 16, m128x4, M, 128, 4);
    $m!(i64x8, I, 64, 8, i8x64, I, 8, 64);
    $m!(i64x8, I, 64, 8, u8x64, U, 8, 64);
    $m!(i64x8, I, 64, 8, m8x64, M, 8, 64);
    $m!(i64x8, I, 64, 8, i16x32, I, 16, 32);
    $m!(i64x8, I, 64, 8, u16x32, U, 16, 32);
    $m!(i64x8, I, 64, 8, m16x32, M, 16, 32);
    $m!(i64x8, I, 64, 8, i32x16, I, 32, 16);
    $m!(i64x8, I, 64, 8, u32x16, U, 32, 16);
    $m!(i64x8, I, 64, 8, f32x16, F, 32, 16);
    $m!(i64x8, I, 64, 8, m32x16, M, 32, 16);
    $m!(i64x8, I, 64, 8, u64x8, U, 64, 8);
    $m!(i64x8, I, 64, 8, f64x8, F, 64, 8);
    $m!(i64x8, I, 64, 8, m64x8, M, 64, 8);
    $m!(i64x8, I, 64, 8, i128x4, I, 128, 4);
    $m!(i64x8, I, 64, 8, u128x4, U, 128, 4);
    $m!(i64x8, I, 64, 8, m128x4, M, 128, 4);
    $m!(u64x8, U, 64, 8, i8x64, I, 8, 64);
    $m!(u64x8, U, 64, 8, u8x64, U, 8, 64);
    $m!(u64x8, U, 64, 8, m8x64, M, 8, 64);
    $m!(u64x8, U, 64, 8, i16x32, I, 16, 32);
    $m!(u64x8, U, 64, 8, u16x32, U, 16, 32);
    $m!(u64x8, U, 64, 8, m16x32, M, 16, 32);
    $m!(u64x8, U, 64, 8, i32x16, I, 32, 16);
    $m!(u64x8, U, 64, 8, u32x16, U, 32, 16);
    $m!(u64x8, U, 64, 8, f32x16, F, 32, 16);
    $m!(u64x8, U, 64, 8, m32x16, M, 32, 16);
    $m!(u64x8, U, 64, 8, i64x8, I, 64, 8);
    $m!(u64x8, U, 64, 8, f64x8, F, 64, 8);
    $m!(u64x8, U, 64, 8, m64x8, M, 64, 8);
    $m!(u64x8, U, 64, 8, i128x4, I, 128, 4);
    $m!(u64x8, U, 64, 8, u128x4, U, 128, 4);
    $m!(u64x8, U, 64, 8, m128x4, M, 128, 4);
    $m!(f64x8, F, 64, 8, i8x64, I, 8, 64);
    $m!(f64x8, F, 64, 8, u8x64, U, 8, 64);
    $m!(f64x8, F, 64, 8, m8x64, M, 8, 64);
    $m!(f64x8, F, 64, 8, i16x32, I, 16, 32);
    $m!(f64x8, F, 64, 8, u16x32, U, 16, 32);
    $m!(f64x8, F, 64, 8, m16x32, M, 16, 32);
    $m!(f64x8, F, 64, 8, i32x16, I, 32, 16);
    $m!(f64x8, F, 64, 8, u32x16, U, 32, 16);
    $m!(f64x8, F, 64, 8, f32x16, F, 32, 16);
    $m!(f64x8, F, 64, 8, m32x16, M, 32, 16);
    $m!(f64x8, F, 64, 8, i64x8, I, 64, 8);
    $m!(f64x8, F, 64, 8, u64x8, U, 64, 8);
    $m!(f64x8, F, 64, 8, m64x8, M, 64, 8);
    $m!(f64x8, F, 64, 8, i128x4, I, 128, 4);
    $m!(f64x8, F, 64, 8, u128x4, U, 128, 4);
    $m!(f64x8, F, 64, 8, m128x4, M, 128, 4);
    $m!(m64x8, M, 64, 8, m128x4, M, 128, 4);
    $m!(i128x4, I, 128, 4, i8x64, I, 8, 64);
    $m!(i128x4, I, 128, 4, u8x64, U, 8, 64);
    $m!(i128x4, I, 128, 4, m8x64, M, 8, 64);
    $m!(i128x4, I, 128, 4, i16x32, I, 16, 32);
    $m!(i128x4, I, 128, 4, u16x32, U, 16, 32);
    $m!(i128x4, I, 128, 4, m16x32, M, 16, 32);
    $m!(i128x4, I, 128, 4, i32x16, I, 32, 16);
    $m!(i128x4, I, 128, 4, u32x16, U, 32, 16);
    $m!(i128x4, I, 128, 4, f32x16, F, 32, 16);
    $m!(i128x4, I, 128, 4, m32x16, M, 32, 16);
    $m!(i128x4, I, 128, 4, i64x8, I, 64, 8);
    $m!(i128x4, I, 128, 4, u64x8, U, 64, 8);
    $m!(i128x4, I, 128, 4, f64x8, F, 64, 8);
    $m!(i128x4, I, 128, 4, m64x8, M, 64, 8);
    $m!(i128x4, I, 128, 4, u128x4, U, 128, 4);
    $m!(i128x4, I, 128, 4, m128x4, M, 128, 4);
    $m!(u128x4, U, 128, 4, i8x64, I, 8, 64);
    $m!(u128x4, U, 128, 4, u8x64, U, 8, 64);
    $m!(u128x4, U, 128, 4, m8x64, M, 8, 64);
    $m!(u128x4, U, 128, 4, i16x32, I, 16, 32);
    $m!(u128x4, U, 128, 4, u16x32, U, 16, 32);
    $m!(u128x4, U, 128, 4, m16x32, M, 16, 32);
    $m!(u128x4, U, 128, 4, i32x16, I, 32, 16);
    $m!(u128x4, U, 128, 4, u32x16, U, 32, 16);
    $m!(u128x4, U, 128, 4, f32x16, F, 32, 16);
    $m!(u128x4, U, 128, 4, m32x16, M, 32, 16);
    $m!(u128x4, U, 128, 4, i64x8, I, 64, 8);
    $m!(u128x4, U, 128, 4, u64x8, U, 64, 8);
    $m!(u128x4, U, 128, 4, f64x8, F, 64, 8);
    $m!(u128x4, U, 128, 4, m64x8, M, 64, 8);
    $m!(u128x4, U, 128, 4, i128x4, I, 128, 4);
    $m!(u128x4, U, 128, 4, m128x4, M, 128, 4);
    $m!(i8x8, I, 8, 8, u8x8, U, 8, 8);
    $m!(i8x8, I, 8, 8, m8x8, M, 8, 8);
    $m!(i8x8, I, 8, 8, i16x4, I, 16, 4);
    $m!(i8x8, I, 8, 8, u16x4, U, 16, 4);
    $m!(i8x8, I, 8, 8, m16x4, M, 16, 4);
    $m!(i8x8, I, 8, 8, i32x2, I, 32, 2);
    $m!(i8x8, I, 8, 8, u32x2, U, 32, 2);
    $m!(i8x8, I, 8, 8, f32x2, F, 32, 2);
    $m!(i8x8, I, 8, 8, m32x2, M, 32, 2);
    $m!(u8x8, U, 8, 8, i8x8, I, 8, 8);
    $m!(u8x8, U, 8, 8, m8x8, M, 8, 8);
    $m!(u8x8, U, 8, 8, i16x4, I, 16, 4);
    $m!(u8x8, U, 8, 8, u16x4, U, 16, 4);
    $m!(u8x8, U, 8, 8, m16x4, M, 16, 4);
    $m!(u8x8, U, 8, 8, i32x2, I, 32, 2);
    $m!(u8x8, U, 8, 8, u32x2, U, 32, 2);
    $m!(u8x8, U, 8, 8, f32x2, F, 32, 2);
    $m!(u8x8, U, 8, 8, m32x2, M, 32, 2);
    $m!(m8x8, M, 8, 8, m16x4, M, 16, 4);
    $m!(m8x8, M, 8, 8, m32x2, M, 32, 2);
    $m!(i16x4, I, 16, 4, i8x8, I, 8, 8);
    $m!(i16x4, I, 16, 4, u8x8, U, 8, 8);
    $m!(i16x4, I, 16, 4, m8x8, M, 8, 8);
    $m!(i16x4, I, 16, 4, u16x4, U, 16, 4);
    $m!(i16x4, I, 16, 4, m16x4, M, 16, 4);
    $m!(i16x4, I, 16, 4, i32x2, I, 32, 2);
    $m!(i16x4, I, 16, 4, u32x2, U, 32, 2);
    $m!(i16x4, I, 16, 4, f32x2, F, 32, 2);
    $m!(i16x4, I, 16, 4, m32x2, M, 32, 2);
    $m!(u16x4, U, 16, 4, i8x8, I, 8, 8);
    $m!(u16x4, U, 16, 4, u8x8, U, 8, 8);
    $m!(u16x4, U, 16, 4, m8x8, M, 8, 8);
    $m!(u16x4, U, 16, 4, i16x4, I, 16, 4);
    $m!(u16x4, U, 16, 4, m16x4, M, 16, 4);
    $m!(u16x4, U, 16, 4, i32x2, I, 32, 2);
    $m!(u16x4, U, 16, 4, u32x2, U, 32, 2);
    $m!(u16x4, U, 16, 4, f32x2, F, 32, 2);
    $m!(u16x4, U, 16, 4, m32x2, M, 32, 2);
    $m!(m16x4, M, 16, 4, m32x2, M, 32, 2);
    $m!(i32x2, I, 32, 2, i8x8, I, 8, 8);
    $m!(i32x2, I, 32, 2, u8x8, U, 8, 8);
    $m!(i32x2, I, 32, 2, m8x8, M, 8, 8);
    $m!(i32x2, I, 32, 2, i16x4, I, 16, 4);
    $m!(i32x2, I, 32, 2, u16x4, U, 16, 4);
    $m!(i32x2, I, 32, 2, m16x4, M, 16, 4);
    $m!(i32x2, I, 32, 2, u32x2, U, 32, 2);
    $m!(i32x2, I, 32, 2, f32x2, F, 32, 2);
    $m!(i32x2, I, 32, 2, m32x2, M, 32, 2);
    $m!(u32x2, U, 32, 2, i8x8, I, 8, 8);
    $m!(u32x2, U, 32, 2, u8x8, U, 8, 8);
    $m!(u32x2, U, 32, 2, m8x8, M, 8, 8);
    $m!(u32x2, U, 32, 2, i16x4, I, 16, 4);
    $m!(u32x2, U, 32, 2, u16x4, U, 16, 4);
    $m!(u32x2, U, 32, 2, m16x4, M, 16, 4);
    $m!(u32x2, U, 32, 2, i32x2, I, 32, 2);
    $m!(u32x2, U, 32, 2, f32x2, F, 32, 2);
    $m!(u32x2, U, 32, 2, m32x2, M, 32, 2);
    $m!(f32x2, F, 32, 2, i8x8, I, 8, 8);
    $m!(f32x2, F, 32, 2, u8x8, U, 8, 8);
    $m!(f32x2, F, 32, 2, m8x8, M, 8, 8);
    $m!(f32x2, F, 32, 2, i16x4, I, 16, 4);
    $m!(f32x2, F, 32, 2, u16x4, U, 16, 4);
    $m!(f32x2, F, 32, 2, m16x4, M, 16, 4);
    $m!(f32x2, F, 32, 2, i32x2, I, 32, 2);
    $m!(f32x2, F, 32, 2, u32x2, U, 32, 2);
    $m!(f32x2, F, 32, 2, m32x2, M, 32, 2);
}; }
#[macro_export]
macro_rules! for_arch_pairs { ($m:ident) => {
    $m!(__m128, F, 32, 4, i8x16, I, 8, 16);
    $m!(__m128, F, 32, 4, u8x16, U, 8, 16);
    $m!(__m128, F, 32, 4, m8x16, M, 8, 16);
    $m!(__m128, F, 32, 4, i16x8, I, 16, 8);
    $m!(__m128, F, 32, 4, u16x8, U, 16, 8);
    $m!(__m128, F, 32, 4, m16x8, M, 16, 8);
    $m!(__m128, F, 32, 4, i32x4, I, 32, 4);
    $m!(__m128, F, 32, 4, u32x4, U, 32, 4);
    $m!(__m128, F, 32, 4, f32x4, F, 32, 4);
    $m!(__m128, F, 32, 4, m32x4, M, 32, 4);
    $m!(__m128, F, 32, 4, i64x2, I, 64, 2);
    $m!(__m128, F, 32, 4, u64x2, U, 64, 2);
    $m!(__m128, F, 32, 4, f64x2, F, 64, 2);
    $m!(__m128, F, 32, 4, m64x2, M, 64, 2);
    $m!(__m128, F, 32, 4, i128x1, I, 128, 1);
    $m!(__m128, F, 32, 4, u128x1, U, 128, 1);
    $m!(__m128, F, 32, 4, m128x1, M, 128, 1);
    $m!(i8x16, I, 8, 16, __m128, F, 32, 4);
    $m!(u8x16, U, 8, 16, __m128, F, 32, 4);
    $m!(i16x8, I, 16, 8, __m128, F, 32, 4);
    $m!(u16x8, U, 16, 8, __m128, F, 32, 4);
    $m!(i32x4, I, 32, 4, __m128, F, 32, 4);
    $m!(u32x4, U, 32, 4, __m128, F, 32, 4);
    $m!(f32x4, F, 32, 4, __m128, F, 32, 4);
    $m!(i64x2, I, 64, 2, __m128, F, 32, 4);
    $m!(u64x2, U, 64, 2, __m128, F, 32, 4);
    $m!(f64x2, F, 64, 2, __m128, F, 32, 4);
    $m!(i128x1, I, 128, 1, __m128, F, 32, 4);
    $m!(u128x1, U, 128, 1, __m128, F, 32, 4);
    $m!(__m128i, I, 64, 2, i8x16, I, 8, 16);
    $m!(__m128i, I, 64, 2, u8x16, U, 8, 16);
    $m!(__m128i, I, 64, 2, m8x16, M, 8, 16);
    $m!(__m128i, I, 64, 2, i16x8, I, 16, 8);
    $m!(__m128i, I, 64, 2, u16x8, U, 16, 8);
    $m!(__m128i, I, 64, 2, m16x8, M, 16, 8);
    $m!(__m128i, I, 64, 2, i32x4, I, 32, 4);
    $m!(__m128i, I, 64, 2, u32x4, U, 32, 4);
    $m!(__m128i, I, 64, 2, f32x4, F, 32, 4);
    $m!(__m128i, I, 64, 2, m32x4, M, 32, 4);
    $m!(__m128i, I, 64, 2, i64x2, I, 64, 2);
    $m!(__m128i, I, 64, 2, u64x2, U, 64, 2);
    $m!(__m128i, I, 64, 2, f64x2, F, 64, 2);
    $m!(__m128i, I, 64, 2, m64x2, M, 64, 2);
    $m!(__m128i, I, 64, 2, i128x1, I, 128, 1);
    $m!(__m128i, I, 64, 2, u128x1, U, 128, 1);
    $m!(__m128i, I, 64, 2, m128x1, M, 128, 1);
    $m!(i8x16, I, 8, 16, __m128i, I, 64, 2);
    $m!(u8x16, U, 8, 16, __m128i, I, 64, 2);
    $m!(i16x8, I, 16, 8, __m128i, I, 64, 2);
    $m!(u16x8, U, 16, 8, __m128i, I, 64, 2);
    $m!(i32x4, I, 32, 4, __m128i, I, 64, 2);
    $m!(u32x4, U, 32, 4, __m128i, I, 64, 2);
    $m!(f32x4, F, 32, 4, __m128i, I, 64, 2);
    $m!(i64x2, I, 64, 2, __m128i, I, 64, 2);
    $m!(u64x2, U, 64, 2, __m128i, I, 64, 2);
    $m!(f64x2, F, 64, 2, __m128i, I, 64, 2);
    $m!(i128x1, I, 128, 1, __m128i, I, 64, 2);
    $m!(u128x1, U, 128, 1, __m128i, I, 64, 2);
    $m!(__m128d, F, 64, 2, i8x16, I, 8, 16);
    $m!(__m128d, F, 64, 2, u8x16, U, 8, 16);
    $m!(__m128d, F, 64, 2, m8x16, M, 8, 16);
    $m!(__m128d, F, 64, 2, i16x8, I, 16, 8);
    $m!(__m128d, F, 64, 2, u16x8, U, 16, 8);
    $m!(__m128d, F, 64, 2, m16x8, M, 16, 8);
    $m!(__m128d, F, 64, 2, i32x4, I, 32, 4);
    $m!(__m128d, F, 64, 2, u32x4, U, 32, 4);
    $m!(__m128d, F, 64, 2, f32x4, F, 32, 4);
    $m!(__m128d, F, 64, 2, m32x4, M, 32, 4);
    $m!(__m128d, F, 64, 2, i64x2, I, 64, 2);
    $m!(__m128d, F, 64, 2, u64x2, U, 64, 2);
    $m!(__m128d, F, 64, 2, f64x2, F, 64, 2);
    $m!(__m128d, F, 64, 2, m64x2, M, 64, 2);
    $m!(__m128d, F, 64, 2, i128x1, I, 128, 1);
    $m!(__m128d, F, 64, 2, u128x1, U, 128, 1);
    $m!(__m128d, F, 64, 2, m128x1, M, 128, 1);
    $m!(i8x16, I, 8, 16, __m128d, F, 64, 2);
    $m!(u8x16, U, 8, 16, __m128d, F, 64, 2);
    $m!(i16x8, I, 16, 8, __m128d, F, 64, 2);
    $m!(u16x8, U, 16, 8, __m128d, F, 64, 2);
    $m!(i32x4, I, 32, 4, __m128d, F, 64, 2);
    $m!(u32x4, U, 32, 4, __m128d, F, 64, 2);
    $m!(f32x4, F, 32, 4, __m128d, F, 64, 2);
    $m!(i64x2, I, 64, 2, __m128d, F, 64, 2);
    $m!(u64x2, U, 64, 2, __m128d, F, 64, 2);
    $m!(f64x2, F, 64, 2, __m128d, F, 64, 2);
    $m!(i128x1, I, 128, 1, __m128d, F, 64, 2);
    $m!(u128x1, U, 128, 1, __m128d, F, 64, 2);
    $m!(__m256, F, 32, 8, i8x32, I, 8, 32);
    $m!(__m256, F, 32, 8, u8x32, U, 8, 32);
    $m!(__m256, F, 32, 8, m8x32, M, 8, 32);
    $m!(__m256, F, 32, 8, i16x16, I, 16, 16);
    $m!(__m256, F, 32, 8, u16x16, U, 16, 16);
    $m!(__m256, F, 32, 8, m16x16, M, 16, 16);
    $m!(__m256, F, 32, 8, i32x8, I, 32, 8);
    $m!(__m256, F, 32, 8, u32x8, U, 32, 8);
    $m!(__m256, F, 32, 8, f32x8, F, 32, 8);
    $m!(__m256, F, 32, 8, m32x8, M, 32, 8);
    $m!(__m256, F, 32, 8, i64x4, I, 64, 4);
    $m!(__m256, F, 32, 8, u64x4, U, 64, 4);
    $m!(__m256, F, 32, 8, f64x4, F, 64, 4);
    $m!(__m256, F, 32, 8, m64x4, M, 64, 4);
    $m!(__m256, F, 32, 8, i128x2, I, 128, 2);
    $m!(__m256, F, 32, 8, u128x2, U, 128, 2);
    $m!(__m256, F, 32, 8, m128x2, M, 128, 2);
    $m!(i8x32, I, 8, 32, __m256, F, 32, 8);
    $m!(u8x32, U, 8, 32, __m256, F, 32, 8);
    $m!(i16x16, I, 16, 16, __m256, F, 32, 8);
    $m!(u16x16, U, 16, 16, __m256, F, 32, 8);
    $m!(i32x8, I, 32, 8, __m256, F, 32, 8);
    $m!(u32x8, U, 32, 8, __m256, F, 32, 8);
    $m!(f32x8, F, 32, 8, __m256, F, 32, 8);
    $m!(i64x4, I, 64, 4, __m256, F, 32, 8);
    $m!(u64x4, U, 64, 4, __m256, F, 32, 8);
    $m!(f64x4, F, 64, 4, __m256, F, 32, 8);
    $m!(i128x2, I, 128, 2, __m256, F, 32, 8);
    $m!(u128x2, U, 128, 2, __m256, F, 32, 8);
    $m!(__m256i, I, 64, 4, i8x32, I, 8, 32);
    $m!(__m256i, I, 64, 4, u8x32, U, 8, 32);
    $m!(__m256i, I, 64, 4, m8x32, M, 8, 32);
    $m!(__m256i, I, 64, 4, i16x16, I, 16, 16);
    $m!(__m256i, I, 64, 4, u16x16, U, 16, 16);
    $m!(__m256i, I, 64, 4, m16x16, M, 16, 16);
    $m!(__m256i, I, 64, 4, i32x8, I, 32, 8);
    $m!(__m256i, I, 64, 4, u32x8, U, 32, 8);
    $m!(__m256i, I, 64, 4, f32x8, F, 32, 8);
    $m!(__m256i, I, 64, 4, m32x8, M, 32, 8);
    $m!(__m256i, I, 64, 4, i64x4, I, 64, 4);
    $m!(__m256i, I, 64, 4, u64x4, U, 64, 4);
    $m!(__m256i, I, 64, 4, f64x4, F, 64, 4);
    $m!(__m256i, I, 64, 4, m64x4, M, 64, 4);
    $m!(__m256i, I, 64, 4, i128x2, I, 128, 2);
    $m!(__m256i, I, 64, 4, u128x2, U, 128, 2);
    $m!(__m256i, I, 64, 4, m128x2, M, 128, 2);
    $m!(i8x32, I, 8, 32, __m256i, I, 64, 4);
    $m!(u8x32, U, 8, 32, __m256i, I, 64, 4);
    $m!(i16x16, I, 16, 16, __m256i, I, 64, 4);
    $m!(u16x16, U, 16, 16, __m256i, I, 64, 4);
    $m!(i32x8, I, 32, 8, __m256i, I, 64, 4);
    $m!(u32x8, U, 32, 8, __m256i, I, 64, 4);
    $m!(f32x8, F, 32, 8, __m256i, I, 64, 4);
    $m!(i64x4, I, 64, 4, __m256i, I, 64, 4);
    $m!(u64x4, U, 64, 4, __m256i, I, 64, 4);
    $m!(f64x4, F, 64, 4, __m256i, I, 64, 4);
    $m!(i128x2, I, 128, 2, __m256i, I, 64, 4);
    $m!(u128x2, U, 128, 2, __m256i, I, 64, 4);
    $m!(__m256d, F, 64, 4, i8x32, I, 8, 32);
    $m!(__m256d, F, 64, 4, u8x32, U, 8, 32);
    $m!(__m256d, F, 64, 4, m8x32, M, 8, 32);
    $m!(__m256d, F, 64, 4, i16x16, I, 16, 16);
    $m!(__m256d, F, 64, 4, u16x16, U, 16, 16);
    $m!(__m256d, F, 64, 4, m16x16, M, 16, 16);
    $m!(__m256d, F, 64, 4, i32x8, I, 32, 8);
    $m!(__m256d, F, 64, 4, u32x8, U, 32, 8);
    $m!(__m256d, F, 64, 4, f32x8, F, 32, 8);
    $m!(__m256d, F, 64, 4, m32x8, M, 32, 8);
    $m!(__m256d, F, 64, 4, i64x4, I, 64, 4);
    $m!(__m256d, F, 64, 4, u64x4, U, 64, 4);
    $m!(__m256d, F, 64, 4, f64x4, F, 64, 4);
    $m!(__m256d, F, 64, 4, m64x4, M, 64, 4);
    $m!(__m256d, F, 64, 4, i128x2, I, 128, 2);
    $m!(__m256d, F, 64, 4, u128x2, U, 128, 2);
    $m!(__m256d, F, 64, 4, m128x2, M, 128, 2);
    $m!(i8x32, I, 8, 32, __m256d, F, 64, 4);
    $m!(u8x32, U, 8, 32, __m256d, F, 64, 4);
    $m!(i16x16, I, 16, 16, __m256d, F, 64, 4);
    $m!(u16x16, U, 16, 16, __m256d, F, 64, 4);
    $m!(i32x8, I, 32, 8, __m256d, F, 64, 4);
    $m!(u32x8, U, 32, 8, __m256d, F, 64, 4);
    $m!(f32x8, F, 32, 8, __m256d, F, 64, 4);
    $m!(i64x4, I, 64, 4, __m256d, F, 64, 4);
    $m!(u64x4, U, 64, 4, __m256d, F, 64, 4);
    $m!(f64x4, F, 64, 4, __m256d, F, 64, 4);
    $m!(i128x2, I, 128, 2, __m256d, F, 64, 4);
    $m!(u128x2, U, 128, 2, __m256d, F, 64, 4);
}; }
