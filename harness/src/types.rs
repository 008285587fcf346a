// @generated by tools/gentypes.py

#[macro_export]
macro_rules! for_ints {
    ($m:ident) => {
        $m!(i8x2, i8, I, 8, 2, m8x2, u8, (0 1));
        $m!(u8x2, u8, U, 8, 2, m8x2, u8, (0 1));
        $m!(i8x4, i8, I, 8, 4, m8x4, u8, (0 1 2 3));
        $m!(u8x4, u8, U, 8, 4, m8x4, u8, (0 1 2 3));
        $m!(i8x8, i8, I, 8, 8, m8x8, u8, (0 1 2 3 4 5 6 7));
        $m!(u8x8, u8, U, 8, 8, m8x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i8x16, i8, I, 8, 16, m8x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(u8x16, u8, U, 8, 16, m8x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i8x32, i8, I, 8, 32, m8x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(u8x32, u8, U, 8, 32, m8x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(i8x64, i8, I, 8, 64, m8x64, u64, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63));
        $m!(u8x64, u8, U, 8, 64, m8x64, u64, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63));
        $m!(i16x2, i16, I, 16, 2, m16x2, u8, (0 1));
        $m!(u16x2, u16, U, 16, 2, m16x2, u8, (0 1));
        $m!(i16x4, i16, I, 16, 4, m16x4, u8, (0 1 2 3));
        $m!(u16x4, u16, U, 16, 4, m16x4, u8, (0 1 2 3));
        $m!(i16x8, i16, I, 16, 8, m16x8, u8, (0 1 2 3 4 5 6 7));
        $m!(u16x8, u16, U, 16, 8, m16x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i16x16, i16, I, 16, 16, m16x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(u16x16, u16, U, 16, 16, m16x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i16x32, i16, I, 16, 32, m16x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(u16x32, u16, U, 16, 32, m16x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(i32x2, i32, I, 32, 2, m32x2, u8, (0 1));
        $m!(u32x2, u32, U, 32, 2, m32x2, u8, (0 1));
        $m!(i32x4, i32, I, 32, 4, m32x4, u8, (0 1 2 3));
        $m!(u32x4, u32, U, 32, 4, m32x4, u8, (0 1 2 3));
        $m!(i32x8, i32, I, 32, 8, m32x8, u8, (0 1 2 3 4 5 6 7));
        $m!(u32x8, u32, U, 32, 8, m32x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i32x16, i32, I, 32, 16, m32x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(u32x16, u32, U, 32, 16, m32x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i64x2, i64, I, 64, 2, m64x2, u8, (0 1));
        $m!(u64x2, u64, U, 64, 2, m64x2, u8, (0 1));
        $m!(i64x4, i64, I, 64, 4, m64x4, u8, (0 1 2 3));
        $m!(u64x4, u64, U, 64, 4, m64x4, u8, (0 1 2 3));
        $m!(i64x8, i64, I, 64, 8, m64x8, u8, (0 1 2 3 4 5 6 7));
        $m!(u64x8, u64, U, 64, 8, m64x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i128x1, i128, I, 128, 1, m128x1, u8, (0));
        $m!(u128x1, u128, U, 128, 1, m128x1, u8, (0));
        $m!(i128x2, i128, I, 128, 2, m128x2, u8, (0 1));
        $m!(u128x2, u128, U, 128, 2, m128x2, u8, (0 1));
        $m!(i128x4, i128, I, 128, 4, m128x4, u8, (0 1 2 3));
        $m!(u128x4, u128, U, 128, 4, m128x4, u8, (0 1 2 3));
        $m!(isizex2, isize, I, 64, 2, msizex2, u8, (0 1));
        $m!(usizex2, usize, U, 64, 2, msizex2, u8, (0 1));
        $m!(isizex4, isize, I, 64, 4, msizex4, u8, (0 1 2 3));
        $m!(usizex4, usize, U, 64, 4, msizex4, u8, (0 1 2 3));
        $m!(isizex8, isize, I, 64, 8, msizex8, u8, (0 1 2 3 4 5 6 7));
        $m!(usizex8, usize, U, 64, 8, msizex8, u8, (0 1 2 3 4 5 6 7));
    };
}
#[macro_export]
macro_rules! for_sints {
    ($m:ident) => {
        $m!(i8x2, i8, I, 8, 2, m8x2, u8, (0 1));
        $m!(i8x4, i8, I, 8, 4, m8x4, u8, (0 1 2 3));
        $m!(i8x8, i8, I, 8, 8, m8x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i8x16, i8, I, 8, 16, m8x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i8x32, i8, I, 8, 32, m8x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(i8x64, i8, I, 8, 64, m8x64, u64, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63));
        $m!(i16x2, i16, I, 16, 2, m16x2, u8, (0 1));
        $m!(i16x4, i16, I, 16, 4, m16x4, u8, (0 1 2 3));
        $m!(i16x8, i16, I, 16, 8, m16x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i16x16, i16, I, 16, 16, m16x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i16x32, i16, I, 16, 32, m16x32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(i32x2, i32, I, 32, 2, m32x2, u8, (0 1));
        $m!(i32x4, i32, I, 32, 4, m32x4, u8, (0 1 2 3));
        $m!(i32x8, i32, I, 32, 8, m32x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i32x16, i32, I, 32, 16, m32x16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(i64x2, i64, I, 64, 2, m64x2, u8, (0 1));
        $m!(i64x4, i64, I, 64, 4, m64x4, u8, (0 1 2 3));
        $m!(i64x8, i64, I, 64, 8, m64x8, u8, (0 1 2 3 4 5 6 7));
        $m!(i128x1, i128, I, 128, 1, m128x1, u8, (0));
        $m!(i128x2, i128, I, 128, 2, m128x2, u8, (0 1));
        $m!(i128x4, i128, I, 128, 4, m128x4, u8, (0 1 2 3));
        $m!(isizex2, isize, I, 64, 2, msizex2, u8, (0 1));
        $m!(isizex4, isize, I, 64, 4, msizex4, u8, (0 1 2 3));
        $m!(isizex8, isize, I, 64, 8, msizex8, u8, (0 1 2 3 4 5 6 7));
    };
}
#[macro_export]
macro_rules! for_floats {
    ($m:ident) => {
        $m!(f32x2, f32, 32, 2, m32x2, (0 1));
        $m!(f32x4, f32, 32, 4, m32x4, (0 1 2 3));
        $m!(f32x8, f32, 32, 8, m32x8, (0 1 2 3 4 5 6 7));
        $m!(f32x16, f32, 32, 16, m32x16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(f64x2, f64, 64, 2, m64x2, (0 1));
        $m!(f64x4, f64, 64, 4, m64x4, (0 1 2 3));
        $m!(f64x8, f64, 64, 8, m64x8, (0 1 2 3 4 5 6 7));
    };
}
#[macro_export]
macro_rules! for_masks {
    ($m:ident) => {
        $m!(m8x2, m8, 8, 2, u8, (0 1));
        $m!(m8x4, m8, 8, 4, u8, (0 1 2 3));
        $m!(m8x8, m8, 8, 8, u8, (0 1 2 3 4 5 6 7));
        $m!(m8x16, m8, 8, 16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(m8x32, m8, 8, 32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(m8x64, m8, 8, 64, u64, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63));
        $m!(m16x2, m16, 16, 2, u8, (0 1));
        $m!(m16x4, m16, 16, 4, u8, (0 1 2 3));
        $m!(m16x8, m16, 16, 8, u8, (0 1 2 3 4 5 6 7));
        $m!(m16x16, m16, 16, 16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(m16x32, m16, 16, 32, u32, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31));
        $m!(m32x2, m32, 32, 2, u8, (0 1));
        $m!(m32x4, m32, 32, 4, u8, (0 1 2 3));
        $m!(m32x8, m32, 32, 8, u8, (0 1 2 3 4 5 6 7));
        $m!(m32x16, m32, 32, 16, u16, (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15));
        $m!(m64x2, m64, 64, 2, u8, (0 1));
        $m!(m64x4, m64, 64, 4, u8, (0 1 2 3));
        $m!(m64x8, m64, 64, 8, u8, (0 1 2 3 4 5 6 7));
        $m!(m128x1, m128, 128, 1, u8, (0));
        $m!(m128x2, m128, 128, 2, u8, (0 1));
        $m!(m128x4, m128, 128, 4, u8, (0 1 2 3));
        $m!(msizex2, msize, 64, 2, u8, (0 1));
        $m!(msizex4, msize, 64, 4, u8, (0 1 2 3));
        $m!(msizex8, msize, 64, 8, u8, (0 1 2 3 4 5 6 7));
    };
}
#[macro_export]
macro_rules! for_select {
    ($m:ident) => {
        $m!(m8x2, 8, i8x2, I, 8, 2);
        $m!(m8x2, 8, u8x2, U, 8, 2);
        $m!(m8x2, 8, i16x2, I, 16, 2);
        $m!(m8x2, 8, u16x2, U, 16, 2);
        $m!(m8x2, 8, i32x2, I, 32, 2);
        $m!(m8x2, 8, u32x2, U, 32, 2);
        $m!(m8x2, 8, i64x2, I, 64, 2);
        $m!(m8x2, 8, u64x2, U, 64, 2);
        $m!(m8x2, 8, i128x2, I, 128, 2);
        $m!(m8x2, 8, u128x2, U, 128, 2);
        $m!(m8x2, 8, isizex2, I, 64, 2);
        $m!(m8x2, 8, usizex2, U, 64, 2);
        $m!(m8x2, 8, f32x2, F, 32, 2);
        $m!(m8x2, 8, f64x2, F, 64, 2);
        $m!(m8x2, 8, m8x2, M, 8, 2);
        $m!(m8x2, 8, m16x2, M, 16, 2);
        $m!(m8x2, 8, m32x2, M, 32, 2);
        $m!(m8x2, 8, m64x2, M, 64, 2);
        $m!(m8x2, 8, m128x2, M, 128, 2);
        $m!(m8x2, 8, msizex2, M, 64, 2);
        $m!(m8x4, 8, i8x4, I, 8, 4);
        $m!(m8x4, 8, u8x4, U, 8, 4);
        $m!(m8x4, 8, i16x4, I, 16, 4);
        $m!(m8x4, 8, u16x4, U, 16, 4);
        $m!(m8x4, 8, i32x4, I, 32, 4);
        $m!(m8x4, 8, u32x4, U, 32, 4);
        $m!(m8x4, 8, i64x4, I, 64, 4);
        $m!(m8x4, 8, u64x4, U, 64, 4);
        $m!(m8x4, 8, i128x4, I, 128, 4);
        $m!(m8x4, 8, u128x4, U, 128, 4);
        $m!(m8x4, 8, isizex4, I, 64, 4);
        $m!(m8x4, 8, usizex4, U, 64, 4);
        $m!(m8x4, 8, f32x4, F, 32, 4);
        $m!(m8x4, 8, f64x4, F, 64, 4);
        $m!(m8x4, 8, m8x4, M, 8, 4);
        $m!(m8x4, 8, m16x4, M, 16, 4);
        $m!(m8x4, 8, m32x4, M, 32, 4);
        $m!(m8x4, 8, m64x4, M, 64, 4);
        $m!(m8x4, 8, m128x4, M, 128, 4);
        $m!(m8x4, 8, msizex4, M, 64, 4);
        $m!(m8x8, 8, i8x8, I, 8, 8);
        $m!(m8x8, 8, u8x8, U, 8, 8);
        $m!(m8x8, 8, i16x8, I, 16, 8);
        $m!(m8x8, 8, u16x8, U, 16, 8);
        $m!(m8x8, 8, i32x8, I, 32, 8);
        $m!(m8x8, 8, u32x8, U, 32, 8);
        $m!(m8x8, 8, i64x8, I, 64, 8);
        $m!(m8x8, 8, u64x8, U, 64, 8);
        $m!(m8x8, 8, isizex8, I, 64, 8);
        $m!(m8x8, 8, usizex8, U, 64, 8);
        $m!(m8x8, 8, f32x8, F, 32, 8);
        $m!(m8x8, 8, f64x8, F, 64, 8);
        $m!(m8x8, 8, m8x8, M, 8, 8);
        $m!(m8x8, 8, m16x8, M, 16, 8);
        $m!(m8x8, 8, m32x8, M, 32, 8);
        $m!(m8x8, 8, m64x8, M, 64, 8);
        $m!(m8x8, 8, msizex8, M, 64, 8);
        $m!(m8x16, 8, i8x16, I, 8, 16);
        $m!(m8x16, 8, u8x16, U, 8, 16);
        $m!(m8x16, 8, i16x16, I, 16, 16);
        $m!(m8x16, 8, u16x16, U, 16, 16);
        $m!(m8x16, 8, i32x16, I, 32, 16);
        $m!(m8x16, 8, u32x16, U, 32, 16);
        $m!(m8x16, 8, f32x16, F, 32, 16);
        $m!(m8x16, 8, m8x16, M, 8, 16);
        $m!(m8x16, 8, m16x16, M, 16, 16);
        $m!(m8x16, 8, m32x16, M, 32, 16);
        $m!(m8x32, 8, i8x32, I, 8, 32);
        $m!(m8x32, 8, u8x32, U, 8, 32);
        $m!(m8x32, 8, i16x32, I, 16, 32);
        $m!(m8x32, 8, u16x32, U, 16, 32);
        $m!(m8x32, 8, m8x32, M, 8, 32);
        $m!(m8x32, 8, m16x32, M, 16, 32);
        $m!(m8x64, 8, i8x64, I, 8, 64);
        $m!(m8x64, 8, u8x64, U, 8, 64);
        $m!(m8x64, 8, m8x64, M, 8, 64);
        $m!(m16x2, 16, i8x2, I, 8, 2);
        $m!(m16x2, 16, u8x2, U, 8, 2);
        $m!(m16x2, 16, i16x2, I, 16, 2);
        $m!(m16x2, 16, u16x2, U, 16, 2);
        $m!(m16x2, 16, i32x2, I, 32, 2);
        $m!(m16x2, 16, u32x2, U, 32, 2);
        $m!(m16x2, 16, i64x2, I, 64, 2);
        $m!(m16x2, 16, u64x2, U, 64, 2);
        $m!(m16x2, 16, i128x2, I, 128, 2);
        $m!(m16x2, 16, u128x2, U, 128, 2);
        $m!(m16x2, 16, isizex2, I, 64, 2);
        $m!(m16x2, 16, usizex2, U, 64, 2);
        $m!(m16x2, 16, f32x2, F, 32, 2);
        $m!(m16x2, 16, f64x2, F, 64, 2);
        $m!(m16x2, 16, m8x2, M, 8, 2);
        $m!(m16x2, 16, m16x2, M, 16, 2);
        $m!(m16x2, 16, m32x2, M, 32, 2);
        $m!(m16x2, 16, m64x2, M, 64, 2);
        $m!(m16x2, 16, m128x2, M, 128, 2);
        $m!(m16x2, 16, msizex2, M, 64, 2);
        $m!(m16x4, 16, i8x4, I, 8, 4);
        $m!(m16x4, 16, u8x4, U, 8, 4);
        $m!(m16x4, 16, i16x4, I, 16, 4);
        $m!(m16x4, 16, u16x4, U, 16, 4);
        $m!(m16x4, 16, i32x4, I, 32, 4);
        $m!(m16x4, 16, u32x4, U, 32, 4);
        $m!(m16x4, 16, i64x4, I, 64, 4);
        $m!(m16x4, 16, u64x4, U, 64, 4);
        $m!(m16x4, 16, i128x4, I, 128, 4);
        $m!(m16x4, 16, u128x4, U, 128, 4);
        $m!(m16x4, 16, isizex4, I, 64, 4);
        $m!(m16x4, 16, usizex4, U, 64, 4);
        $m!(m16x4, 16, f32x4, F, 32, 4);
        $m!(m16x4, 16, f64x4, F, 64, 4);
        $m!(m16x4, 16, m8x4, M, 8, 4);
        $m!(m16x4, 16, m16x4, M, 16, 4);
        $m!(m16x4, 16, m32x4, M, 32, 4);
        $m!(m16x4, 16, m64x4, M, 64, 4);
        $m!(m16x4, 16, m128x4, M, 128, 4);
        $m!(m16x4, 16, msizex4, M, 64, 4);
        $m!(m16x8, 16, i8x8, I, 8, 8);
        $m!(m16x8, 16, u8x8, U, 8, 8);
        $m!(m16x8, 16, i16x8, I, 16, 8);
        $m!(m16x8, 16, u16x8, U, 16, 8);
        $m!(m16x8, 16, i32x8, I, 32, 8);
        $m!(m16x8, 16, u32x8, U, 32, 8);
        $m!(m16x8, 16, i64x8, I, 64, 8);
        $m!(m16x8, 16, u64x8, U, 64, 8);
        $m!(m16x8, 16, isizex8, I, 64, 8);
        $m!(m16x8, 16, usizex8, U, 64, 8);
        $m!(m16x8, 16, f32x8, F, 32, 8);
        $m!(m16x8, 16, f64x8, F, 64, 8);
        $m!(m16x8, 16, m8x8, M, 8, 8);
        $m!(m16x8, 16, m16x8, M, 16, 8);
        $m!(m16x8, 16, m32x8, M, 32, 8);
        $m!(m16x8, 16, m64x8, M, 64, 8);
        $m!(m16x8, 16, msizex8, M, 64, 8);
        $m!(m16x16, 16, i8x16, I, 8, 16);
        $m!(m16x16, 16, u8x16, U, 8, 16);
        $m!(m16x16, 16, i16x16, I, 16, 16);
        $m!(m16x16, 16, u16x16, U, 16, 16);
        $m!(m16x16, 16, i32x16, I, 32, 16);
        $m!(m16x16, 16, u32x16, U, 32, 16);
        $m!(m16x16, 16, f32x16, F, 32, 16);
        $m!(m16x16, 16, m8x16, M, 8, 16);
        $m!(m16x16, 16, m16x16, M, 16, 16);
        $m!(m16x16, 16, m32x16, M, 32, 16);
        $m!(m16x32, 16, i8x32, I, 8, 32);
        $m!(m16x32, 16, u8x32, U, 8, 32);
        $m!(m16x32, 16, i16x32, I, 16, 32);
        $m!(m16x32, 16, u16x32, U, 16, 32);
        $m!(m16x32, 16, m8x32, M, 8, 32);
        $m!(m16x32, 16, m16x32, M, 16, 32);
        $m!(m32x2, 32, i8x2, I, 8, 2);
        $m!(m32x2, 32, u8x2, U, 8, 2);
        $m!(m32x2, 32, i16x2, I, 16, 2);
        $m!(m32x2, 32, u16x2, U, 16, 2);
        $m!(m32x2, 32, i32x2, I, 32, 2);
        $m!(m32x2, 32, u32x2, U, 32, 2);
        $m!(m32x2, 32, i64x2, I, 64, 2);
        $m!(m32x2, 32, u64x2, U, 64, 2);
        $m!(m32x2, 32, i128x2, I, 128, 2);
        $m!(m32x2, 32, u128x2, U, 128, 2);
        $m!(m32x2, 32, isizex2, I, 64, 2);
        $m!(m32x2, 32, usizex2, U, 64, 2);
        $m!(m32x2, 32, f32x2, F, 32, 2);
        $m!(m32x2, 32, f64x2, F, 64, 2);
        $m!(m32x2, 32, m8x2, M, 8, 2);
        $m!(m32x2, 32, m16x2, M, 16, 2);
        $m!(m32x2, 32, m32x2, M, 32, 2);
        $m!(m32x2, 32, m64x2, M, 64, 2);
        $m!(m32x2, 32, m128x2, M, 128, 2);
        $m!(m32x2, 32, msizex2, M, 64, 2);
        $m!(m32x4, 32, i8x4, I, 8, 4);
        $m!(m32x4, 32, u8x4, U, 8, 4);
        $m!(m32x4, 32, i16x4, I, 16, 4);
        $m!(m32x4, 32, u16x4, U, 16, 4);
        $m!(m32x4, 32, i32x4, I, 32, 4);
        $m!(m32x4, 32, u32x4, U, 32, 4);
        $m!(m32x4, 32, i64x4, I, 64, 4);
        $m!(m32x4, 32, u64x4, U, 64, 4);
        $m!(m32x4, 32, i128x4, I, 128, 4);
        $m!(m32x4, 32, u128x4, U, 128, 4);
        $m!(m32x4, 32, isizex4, I, 64, 4);
        $m!(m32x4, 32, usizex4, U, 64, 4);
        $m!(m32x4, 32, f32x4, F, 32, 4);
        $m!(m32x4, 32, f64x4, F, 64, 4);
        $m!(m32x4, 32, m8x4, M, 8, 4);
        $m!(m32x4, 32, m16x4, M, 16, 4);
        $m!(m32x4, 32, m32x4, M, 32, 4);
        $m!(m32x4, 32, m64x4, M, 64, 4);
        $m!(m32x4, 32, m128x4, M, 128, 4);
        $m!(m32x4, 32, msizex4, M, 64, 4);
        $m!(m32x8, 32, i8x8, I, 8, 8);
        $m!(m32x8, 32, u8x8, U, 8, 8);
        $m!(m32x8, 32, i16x8, I, 16, 8);
        $m!(m32x8, 32, u16x8, U, 16, 8);
        $m!(m32x8, 32, i32x8, I, 32, 8);
        $m!(m32x8, 32, u32x8, U, 32, 8);
        $m!(m32x8, 32, i64x8, I, 64, 8);
        $m!(m32x8, 32, u64x8, U, 64, 8);
        $m!(m32x8, 32, isizex8, I, 64, 8);
        $m!(m32x8, 32, usizex8, U, 64, 8);
        $m!(m32x8, 32, f32x8, F, 32, 8);
        $m!(m32x8, 32, f64x8, F, 64, 8);
        $m!(m32x8, 32, m8x8, M, 8, 8);
        $m!(m32x8, 32, m16x8, M, 16, 8);
        $m!(m32x8, 32, m32x8, M, 32, 8);
        $m!(m32x8, 32, m64x8, M, 64, 8);
        $m!(m32x8, 32, msizex8, M, 64, 8);
        $m!(m32x16, 32, i8x16, I, 8, 16);
        $m!(m32x16, 32, u8x16, U, 8, 16);
        $m!(m32x16, 32, i16x16, I, 16, 16);
        $m!(m32x16, 32, u16x16, U, 16, 16);
        $m!(m32x16, 32, i32x16, I, 32, 16);
        $m!(m32x16, 32, u32x16, U, 32, 16);
        $m!(m32x16, 32, f32x16, F, 32, 16);
        $m!(m32x16, 32, m8x16, M, 8, 16);
        $m!(m32x16, 32, m16x16, M, 16, 16);
        $m!(m32x16, 32, m32x16, M, 32, 16);
        $m!(m64x2, 64, i8x2, I, 8, 2);
        $m!(m64x2, 64, u8x2, U, 8, 2);
        $m!(m64x2, 64, i16x2, I, 16, 2);
        $m!(m64x2, 64, u16x2, U, 16, 2);
        $m!(m64x2, 64, i32x2, I, 32, 2);
        $m!(m64x2, 64, u32x2, U, 32, 2);
        $m!(m64x2, 64, i64x2, I, 64, 2);
        $m!(m64x2, 64, u64x2, U, 64, 2);
        $m!(m64x2, 64, i128x2, I, 128, 2);
        $m!(m64x2, 64, u128x2, U, 128, 2);
        $m!(m64x2, 64, isizex2, I, 64, 2);
        $m!(m64x2, 64, usizex2, U, 64, 2);
        $m!(m64x2, 64, f32x2, F, 32, 2);
        $m!(m64x2, 64, f64x2, F, 64, 2);
        $m!(m64x2, 64, m8x2, M, 8, 2);
        $m!(m64x2, 64, m16x2, M, 16, 2);
        $m!(m64x2, 64, m32x2, M, 32, 2);
        $m!(m64x2, 64, m64x2, M, 64, 2);
        $m!(m64x2, 64, m128x2, M, 128, 2);
        $m!(m64x2, 64, msizex2, M, 64, 2);
        $m!(m64x4, 64, i8x4, I, 8, 4);
        $m!(m64x4, 64, u8x4, U, 8, 4);
        $m!(m64x4, 64, i16x4, I, 16, 4);
        $m!(m64x4, 64, u16x4, U, 16, 4);
        $m!(m64x4, 64, i32x4, I, 32, 4);
        $m!(m64x4, 64, u32x4, U, 32, 4);
        $m!(m64x4, 64, i64x4, I, 64, 4);
        $m!(m64x4, 64, u64x4, U, 64, 4);
        $m!(m64x4, 64, i128x4, I, 128, 4);
        $m!(m64x4, 64, u128x4, U, 128, 4);
        $m!(m64x4, 64, isizex4, I, 64, 4);
        $m!(m64x4, 64, usizex4, U, 64, 4);
        $m!(m64x4, 64, f32x4, F, 32, 4);
        $m!(m64x4, 64, f64x4, F, 64, 4);
        $m!(m64x4, 64, m8x4, M, 8, 4);
        $m!(m64x4, 64, m16x4, M, 16, 4);
        $m!(m64x4, 64, m32x4, M, 32, 4);
        $m!(m64x4, 64, m64x4, M, 64, 4);
        $m!(m64x4, 64, m128x4, M, 128, 4);
        $m!(m64x4, 64, msizex4, M, 64, 4);
        $m!(m64x8, 64, i8x8, I, 8, 8);
        $m!(m64x8, 64, u8x8, U, 8, 8);
        $m!(m64x8, 64, i16x8, I, 16, 8);
        $m!(m64x8, 64, u16x8, U, 16, 8);
        $m!(m64x8, 64, i32x8, I, 32, 8);
        $m!(m64x8, 64, u32x8, U, 32, 8);
        $m!(m64x8, 64, i64x8, I, 64, 8);
        $m!(m64x8, 64, u64x8, U, 64, 8);
        $m!(m64x8, 64, isizex8, I, 64, 8);
        $m!(m64x8, 64, usizex8, U, 64, 8);
        $m!(m64x8, 64, f32x8, F, 32, 8);
        $m!(m64x8, 64, f64x8, F, 64, 8);
        $m!(m64x8, 64, m8x8, M, 8, 8);
        $m!(m64x8, 64, m16x8, M, 16, 8);
        $m!(m64x8, 64, m32x8, M, 32, 8);
        $m!(m64x8, 64, m64x8, M, 64, 8);
        $m!(m64x8, 64, msizex8, M, 64, 8);
        $m!(m128x1, 128, i128x1, I, 128, 1);
        $m!(m128x1, 128, u128x1, U, 128, 1);
        $m!(m128x1, 128, m128x1, M, 128, 1);
        $m!(m128x2, 128, i8x2, I, 8, 2);
        $m!(m128x2, 128, u8x2, U, 8, 2);
        $m!(m128x2, 128, i16x2, I, 16, 2);
        $m!(m128x2, 128, u16x2, U, 16, 2);
        $m!(m128x2, 128, i32x2, I, 32, 2);
        $m!(m128x2, 128, u32x2, U, 32, 2);
        $m!(m128x2, 128, i64x2, I, 64, 2);
        $m!(m128x2, 128, u64x2, U, 64, 2);
        $m!(m128x2, 128, i128x2, I, 128, 2);
        $m!(m128x2, 128, u128x2, U, 128, 2);
        $m!(m128x2, 128, isizex2, I, 64, 2);
        $m!(m128x2, 128, usizex2, U, 64, 2);
        $m!(m128x2, 128, f32x2, F, 32, 2);
        $m!(m128x2, 128, f64x2, F, 64, 2);
        $m!(m128x2, 128, m8x2, M, 8, 2);
        $m!(m128x2, 128, m16x2, M, 16, 2);
        $m!(m128x2, 128, m32x2, M, 32, 2);
        $m!(m128x2, 128, m64x2, M, 64, 2);
        $m!(m128x2, 128, m128x2, M, 128, 2);
        $m!(m128x2, 128, msizex2, M, 64, 2);
        $m!(m128x4, 128, i8x4, I, 8, 4);
        $m!(m128x4, 128, u8x4, U, 8, 4);
        $m!(m128x4, 128, i16x4, I, 16, 4);
        $m!(m128x4, 128, u16x4, U, 16, 4);
        $m!(m128x4, 128, i32x4, I, 32, 4);
        $m!(m128x4, 128, u32x4, U, 32, 4);
        $m!(m128x4, 128, i64x4, I, 64, 4);
        $m!(m128x4, 128, u64x4, U, 64, 4);
        $m!(m128x4, 128, i128x4, I, 128, 4);
        $m!(m128x4, 128, u128x4, U, 128, 4);
        $m!(m128x4, 128, isizex4, I, 64, 4);
        $m!(m128x4, 128, usizex4, U, 64, 4);
        $m!(m128x4, 128, f32x4, F, 32, 4);
        $m!(m128x4, 128, f64x4, F, 64, 4);
        $m!(m128x4, 128, m8x4, M, 8, 4);
        $m!(m128x4, 128, m16x4, M, 16, 4);
        $m!(m128x4, 128, m32x4, M, 32, 4);
        $m!(m128x4, 128, m64x4, M, 64, 4);
        $m!(m128x4, 128, m128x4, M, 128, 4);
        $m!(m128x4, 128, msizex4, M, 64, 4);
        $m!(msizex2, 64, i8x2, I, 8, 2);
        $m!(msizex2, 64, u8x2, U, 8, 2);
        $m!(msizex2, 64, i16x2, I, 16, 2);
        $m!(msizex2, 64, u16x2, U, 16, 2);
        $m!(msizex2, 64, i32x2, I, 32, 2);
        $m!(msizex2, 64, u32x2, U, 32, 2);
        $m!(msizex2, 64, i64x2, I, 64, 2);
        $m!(msizex2, 64, u64x2, U, 64, 2);
        $m!(msizex2, 64, i128x2, I, 128, 2);
        $m!(msizex2, 64, u128x2, U, 128, 2);
        $m!(msizex2, 64, isizex2, I, 64, 2);
        $m!(msizex2, 64, usizex2, U, 64, 2);
        $m!(msizex2, 64, f32x2, F, 32, 2);
        $m!(msizex2, 64, f64x2, F, 64, 2);
        $m!(msizex2, 64, m8x2, M, 8, 2);
        $m!(msizex2, 64, m16x2, M, 16, 2);
        $m!(msizex2, 64, m32x2, M, 32, 2);
        $m!(msizex2, 64, m64x2, M, 64, 2);
        $m!(msizex2, 64, m128x2, M, 128, 2);
        $m!(msizex2, 64, msizex2, M, 64, 2);
        $m!(msizex4, 64, i8x4, I, 8, 4);
        $m!(msizex4, 64, u8x4, U, 8, 4);
        $m!(msizex4, 64, i16x4, I, 16, 4);
        $m!(msizex4, 64, u16x4, U, 16, 4);
        $m!(msizex4, 64, i32x4, I, 32, 4);
        $m!(msizex4, 64, u32x4, U, 32, 4);
        $m!(msizex4, 64, i64x4, I, 64, 4);
        $m!(msizex4, 64, u64x4, U, 64, 4);
        $m!(msizex4, 64, i128x4, I, 128, 4);
        $m!(msizex4, 64, u128x4, U, 128, 4);
        $m!(msizex4, 64, isizex4, I, 64, 4);
        $m!(msizex4, 64, usizex4, U, 64, 4);
        $m!(msizex4, 64, f32x4, F, 32, 4);
        $m!(msizex4, 64, f64x4, F, 64, 4);
        $m!(msizex4, 64, m8x4, M, 8, 4);
        $m!(msizex4, 64, m16x4, M, 16, 4);
        $m!(msizex4, 64, m32x4, M, 32, 4);
        $m!(msizex4, 64, m64x4, M, 64, 4);
        $m!(msizex4, 64, m128x4, M, 128, 4);
        $m!(msizex4, 64, msizex4, M, 64, 4);
        $m!(msizex8, 64, i8x8, I, 8, 8);
        $m!(msizex8, 64, u8x8, U, 8, 8);
        $m!(msizex8, 64, i16x8, I, 16, 8);
        $m!(msizex8, 64, u16x8, U, 16, 8);
        $m!(msizex8, 64, i32x8, I, 32, 8);
        $m!(msizex8, 64, u32x8, U, 32, 8);
        $m!(msizex8, 64, i64x8, I, 64, 8);
        $m!(msizex8, 64, u64x8, U, 64, 8);
        $m!(msizex8, 64, isizex8, I, 64, 8);
        $m!(msizex8, 64, usizex8, U, 64, 8);
        $m!(msizex8, 64, f32x8, F, 32, 8);
        $m!(msizex8, 64, f64x8, F, 64, 8);
        $m!(msizex8, 64, m8x8, M, 8, 8);
        $m!(msizex8, 64, m16x8, M, 16, 8);
        $m!(msizex8, 64, m32x8, M, 32, 8);
        $m!(msizex8, 64, m64x8, M, 64, 8);
        $m!(msizex8, 64, msizex8, M, 64, 8);
    };
}
