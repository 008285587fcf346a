//! C15: pointer vectors behave lane-wise like raw pointers
use packed_simd::*;
use vmon::*;

const U: K = K::U(64);
const I: K = K::I(64);
const WIN: G = G::Below(1 << 20);

fn mk(x: bool) -> X {
    X::Eq(if x { ones(64) } else { 0 })
}
/// element types of many sizes
#[derive(Clone, Copy)]
#[repr(C)]
struct B<const N: usize>([u8; N]);

macro_rules! ptr {
    ($c:ident, $v:ident, $n:expr, $t:ty, $star:ident, $us:ident, $is:ident, $ms:ident) => {{
        fn all(c: &mut Ctx) {
            type V = $v<$t>;
            type P = *$star $t;
            const N: usize = $n;
            const SZ: u128 = std::mem::size_of::<$t>() as u128;
            const TY: &str = concat!(stringify!($v), "<", stringify!($t), ">");
            let pv = S::V(U, N);
            let iv = S::V(I, N);
            let mv = S::V(K::M(64), N);
            let m64 = ones(64);
            let mul = |n: u128| n.wrapping_mul(SZ) & m64;
            // wrapping forms: any pointer, any count
            lw(c, op2(TY, "wrapping_offset", pv, iv, pv, glue!(|a: V, b: $is| -> V { a.wrapping_offset(b) })), ANY, None, &|t| X::Eq(t[0].wrapping_add(mul(t[1])) & m64));
            lw(c, op2(TY, "wrapping_add", pv, pv, pv, glue!(|a: V, b: $us| -> V { a.wrapping_add(b) })), ANY, None, &|t| X::Eq(t[0].wrapping_add(mul(t[1])) & m64));
            lw(c, op2(TY, "wrapping_sub", pv, pv, pv, glue!(|a: V, b: $us| -> V { a.wrapping_sub(b) })), ANY, None, &|t| X::Eq(t[0].wrapping_sub(mul(t[1])) & m64));
            let dist = |t: [u128; 3]| ((t[0].wrapping_sub(t[1])) as u64 as i64).wrapping_div(SZ as i64) as u64 as u128;
            lw(c, op2(TY, "wrapping_offset_from", pv, pv, iv, glue!(|a: V, b: V| -> $is { a.wrapping_offset_from(b) })), ANY, None, &|t| X::Eq(dist(t)));
            // unsafe forms: pointers into one imaginary object (no wrap around, exact multiples)
            let obj = |p: u128| 0x10_0000_0000u128 + p * SZ;
            let g2 = [WIN, WIN, G::Any];
            lw(c, op2(TY, "offset", pv, iv, pv, glue!(|a: V, b: $is| -> V { let base = <$us>::splat(0x10_0000_0000) + std::mem::transmute::<V, $us>(a) * (SZ as usize); let p: V = std::mem::transmute(base); p.offset(b - 500_000) })), g2, None, &|t| X::Eq(obj(t[0]).wrapping_add(mul(t[1].wrapping_sub(500_000))) & m64));
            lw(c, op2(TY, "add", pv, pv, pv, glue!(|a: V, b: $us| -> V { let base = <$us>::splat(0x10_0000_0000) + std::mem::transmute::<V, $us>(a) * (SZ as usize); let p: V = std::mem::transmute(base); p.add(b) })), g2, None, &|t| X::Eq(obj(t[0] + t[1]) & m64));
            lw(c, op2(TY, "sub", pv, pv, pv, glue!(|a: V, b: $us| -> V { let base = <$us>::splat(0x10_0000_0000) + std::mem::transmute::<V, $us>(a) * (SZ as usize); let p: V = std::mem::transmute(base); p.sub(b) })), g2, None, &|t| X::Eq(obj(t[0]).wrapping_sub(t[1] * SZ) & m64));
            lw(c, op2(TY, "offset_from", pv, pv, iv, glue!(|a: V, b: V| -> $is { let f = |x: V| -> V { std::mem::transmute(<$us>::splat(0x10_0000_0000) + std::mem::transmute::<V, $us>(x) * (SZ as usize)) }; f(a).offset_from(f(b)) })), g2, None, &|t| X::Eq(t[0].wrapping_sub(t[1]) & m64));
            // round trip: distance is the inverse of offset
            lw(c, op2(TY, "offset_roundtrip", pv, iv, iv, glue!(|a: V, b: $is| -> $is { let b = b - 500_000; a.wrapping_offset(b).wrapping_offset_from(a) })), g2, None, &|t| X::Eq(t[1].wrapping_sub(500_000) & m64));
            // null, comparisons
            lw(c, op1(TY, "is_null", pv, mv, glue!(|a: V| -> $ms { a.is_null() })), ANY, None, &|t| mk(t[0] == 0));
            lw(c, op1(TY, "null", S::S(U), pv, glue!(|_a: u64| -> V { V::null() })), ANY, None, &|_| X::Eq(0));
            lw(c, op1(TY, "default", S::S(U), pv, glue!(|_a: u64| -> V { V::default() })), ANY, None, &|_| X::Eq(0));
            lw(c, op2(TY, "eq", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.eq(b) })), ANY, None, &|t| mk(t[0] == t[1]));
            lw(c, op2(TY, "ne", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.ne(b) })), ANY, None, &|t| mk(t[0] != t[1]));
            lw(c, op2(TY, "lt", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.lt(b) })), ANY, None, &|t| mk(t[0] < t[1]));
            lw(c, op2(TY, "le", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.le(b) })), ANY, None, &|t| mk(t[0] <= t[1]));
            lw(c, op2(TY, "gt", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.gt(b) })), ANY, None, &|t| mk(t[0] > t[1]));
            lw(c, op2(TY, "ge", pv, pv, mv, glue!(|a: V, b: V| -> $ms { a.ge(b) })), ANY, None, &|t| mk(t[0] >= t[1]));
            for (nm, neg, f) in [
                ("==", false, glue!(|a: V, b: V| -> u8 { PartialEq::eq(&a, &b) as u8 })),
                ("!=", true, glue!(|a: V, b: V| -> u8 { PartialEq::ne(&a, &b) as u8 })),
            ] {
                let op = op2(TY, nm, pv, pv, S::S(K::U(8)), f);
                let chk = |o: &Obs| if (o.out[0] != 0) == ((o.ins[0] == o.ins[1]) != neg) { Ok(()) } else { Err("wrong truth value".to_string()) };
                let lim = c.n(300, 20_000);
                // equal vectors differing in at most one lane, by one bit
                run_extra(c, &op, &Spec { g: ANY, valid: None, check: &chk, weight: 1.0 }, &mut |i, r, l| {
                    for j in 0..N {
                        l[0][j] = draw(r, U, G::Any);
                        l[1][j] = l[0][j];
                    }
                    if i % 4 != 0 {
                        l[1][r.below(N)] ^= 1 << r.below(64);
                    }
                    i < lim
                });
            }
            wh(c, op1(TY, "hash", pv, S::V(U, 2), glue!(|a: V| -> [u64; 2] { let arr: [P; N] = std::mem::transmute(a); [std_hash(&a), std_hash(&arr)] })), ANY, &|o| {
                if o.out[0] == o.out[1] { Ok(()) } else { Err("hash differs from the hash of the array of pointers".into()) }
            });
            // conversions
            wh(c, op1(TY, "array_roundtrip", pv, S::V(U, 2 * N), glue!(|a: [P; N]| -> [V; 2] { let v: V = a.into(); let b: [P; N] = v.into(); [v, V::from(b)] })), ANY, &|o| {
                if &o.out[..N] == o.ins[0] && &o.out[N..] == o.ins[0] { Ok(()) } else { Err("array conversion changes lanes".into()) }
            });
            wh(c, op1(TY, "slice_roundtrip", pv, S::V(U, 2 * N), glue!(|a: [P; N]| -> [V; 2] {
                let v = V::from_slice_unaligned(&a);
                let mut b = [std::ptr::null_mut::<$t>() as P; N];
                v.write_to_slice_unaligned(&mut b);
                [v, std::mem::transmute(b)]
            })), ANY, &|o| {
                if &o.out[..N] == o.ins[0] && &o.out[N..] == o.ins[0] { Ok(()) } else { Err("slice conversion changes lanes".into()) }
            });
        }
        all(&mut $c);
    }};
}
fn main() {
    let mut c = Ctx::from_args("C15");
    macro_rules! tys {
        ($($t:ty),*) => { $(
            ptr!(c, cptrx2, 2, $t, const, usizex2, isizex2, msizex2);
            ptr!(c, cptrx4, 4, $t, const, usizex4, isizex4, msizex4);
            ptr!(c, cptrx8, 8, $t, const, usizex8, isizex8, msizex8);
            ptr!(c, mptrx2, 2, $t, mut, usizex2, isizex2, msizex2);
            ptr!(c, mptrx4, 4, $t, mut, usizex4, isizex4, msizex4);
            ptr!(c, mptrx8, 8, $t, mut, usizex8, isizex8, msizex8);
        )* };
    }
    tys!(u8, u16, i32, f64, u128, B<3>, B<24>, B<1000>);
    c.finish()
}
