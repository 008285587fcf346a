//! C04: bit counts and byte order
use packed_simd::*;
use vmon::*;

fn main() {
    let mut c = Ctx::from_args("C04");
    fn swap_check(o: &Obs, k: K) -> Result<(), String> {
        let mut b = vec![];
        for x in o.ins[0] {
            b.extend_from_slice(&x.to_le_bytes()[..k.bytes()]);
        }
        b.reverse();
        if b == o.raw {
            Ok(())
        } else {
            Err(format!("bytes {:02x?} want {:02x?}", o.raw, b))
        }
    }
    fn same_check(o: &Obs, _k: K) -> Result<(), String> {
        if o.ins[0] == o.out {
            Ok(())
        } else {
            Err("not the identity".into())
        }
    }
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                lw(c, op1(TY, "count_ones", V, V, glue!(|a: $v| -> $v { a.count_ones() })), ANY, None, &|t| X::Eq(popc(t[0])));
                lw(c, op1(TY, "count_zeros", V, V, glue!(|a: $v| -> $v { a.count_zeros() })), ANY, None, &|t| X::Eq($b - popc(t[0])));
                lw(c, op1(TY, "leading_zeros", V, V, glue!(|a: $v| -> $v { a.leading_zeros() })), ANY, None, &|t| X::Eq(lz(t[0], $b)));
                lw(c, op1(TY, "trailing_zeros", V, V, glue!(|a: $v| -> $v { a.trailing_zeros() })), ANY, None, &|t| X::Eq(tz(t[0], $b)));
                wh(c, op1(TY, "swap_bytes", V, V, glue!(|a: $v| -> $v { a.swap_bytes() })), ANY, &|o| swap_check(o, KK));
                wh(c, op1(TY, "swap_bytes_twice", V, V, glue!(|a: $v| -> $v { a.swap_bytes().swap_bytes() })), ANY, &|o| same_check(o, KK));
                wh(c, op1(TY, "to_le", V, V, glue!(|a: $v| -> $v { a.to_le() })), ANY, &|o| same_check(o, KK));
                wh(c, op1(TY, "to_be", V, V, glue!(|a: $v| -> $v { a.to_be() })), ANY, &|o| swap_check(o, KK));
                wh(c, op1(TY, "from_le", V, V, glue!(|a: $v| -> $v { <$v>::from_le(a) })), ANY, &|o| same_check(o, KK));
                wh(c, op1(TY, "from_be", V, V, glue!(|a: $v| -> $v { <$v>::from_be(a) })), ANY, &|o| swap_check(o, KK));
            }
            all(&mut c);
        }};
    }
    fn popc(mut x: u128) -> u128 {
        let mut n = 0;
        while x != 0 {
            x &= x - 1;
            n += 1;
        }
        n
    }
    fn lz(x: u128, b: u32) -> u128 {
        let mut n = 0;
        while n < b && (x >> (b - 1 - n)) & 1 == 0 {
            n += 1;
        }
        n as u128
    }
    fn tz(x: u128, b: u32) -> u128 {
        let mut n = 0;
        while n < b && (x >> n) & 1 == 0 {
            n += 1;
        }
        n as u128
    }
    for_ints!(ty);
    c.finish()
}
