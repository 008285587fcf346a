//! C18: equality, lexicographic order, hashing
use packed_simd::*;
use std::cmp::Ordering;
use vmon::*;

fn lexcmp(k: K, a: &[u128], b: &[u128]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return if k.lt(*x, *y) { Ordering::Less } else { Ordering::Greater };
        }
    }
    Ordering::Equal
}
fn enc(o: Option<Ordering>) -> u8 {
    match o {
        None => 9,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}
/// pairs sharing a prefix, differing in few lanes, with ordinary and boundary values
fn pairs(k: K, n: usize, lim: usize) -> impl FnMut(usize, &mut Rng, &mut [Lanes; 3]) -> bool {
    let pl = pools(k, G::Any);
    move |i, r, l| {
        let small = r.below(3) == 0;
        for j in 0..n {
            let x = if small { pl.core[r.below(3.min(pl.core.len()))] } else if r.bool() { pl.ext[r.below(pl.ext.len())] } else { draw(r, k, G::Any) };
            l[0][j] = x;
            l[1][j] = x;
        }
        let mode = i % 6;
        if mode == 0 {
            // equal
        } else if mode <= 2 {
            // exactly one lane differs
            let p = (i / 6) % n;
            l[1][p] = other(k, r, l[1][p], &pl);
        } else if mode == 3 {
            // everything from p on is fresh
            let p = (i / 6) % n;
            for j in p..n {
                l[1][j] = if r.bool() { pl.ext[r.below(pl.ext.len())] } else { draw(r, k, G::Any) };
            }
        } else if mode == 4 {
            // two lanes differ, in opposite directions when possible
            let p = r.below(n);
            let q = r.below(n);
            l[1][p] = other(k, r, l[1][p], &pl);
            let t = l[0][q];
            l[0][q] = l[1][p];
            l[1][q] = t;
        } else {
            for j in 0..n {
                if r.below(4) == 0 {
                    l[1][j] = other(k, r, l[1][j], &pl);
                }
            }
        }
        i < lim
    }
}
fn other(k: K, r: &mut Rng, x: u128, pl: &Pools) -> u128 {
    match k {
        K::M(b) => x ^ ones(b),
        K::F(b) => match r.below(5) {
            0 => x ^ 1,
            1 => x ^ (1 << (b - 1)),
            2 => (if b == 32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 }),
            3 => draw(r, k, G::Any),
            _ => pl.core[r.below(pl.core.len())],
        },
        _ => match r.below(5) {
            0 => x ^ (1 << r.below(k.bits() as usize)),
            1 => x.wrapping_add(1) & k.mask(),
            2 => x ^ (1 << (k.bits() - 1)),
            3 => pl.core[r.below(pl.core.len())],
            _ => draw(r, k, G::Any),
        },
    }
}
fn eqs(c: &mut Ctx, ty: &'static str, k: K, n: usize, f: F) {
    let v = S::V(k, n);
    let lim = c.n(2500, 100_000).max(12 * n);
    let chk = |o: &Obs| {
        let e = (0..n).all(|i| k.eq(o.ins[0][i], o.ins[1][i]));
        if o.out[0] == e as u128 && o.out[1] == !e as u128 {
            Ok(())
        } else {
            Err(format!("(==, !=) = ({}, {}) but lanes equal = {}", o.out[0], o.out[1], e))
        }
    };
    run_extra(c, &op2(ty, "eq_ne", v, v, S::V(K::U(8), 2), f), &Spec { g: ANY, valid: None, check: &chk, weight: 0.3 }, &mut pairs(k, n, lim));
}
fn lex(c: &mut Ctx, ty: &'static str, k: K, n: usize, f: F) {
    let v = S::V(k, n);
    let lim = c.n(2500, 100_000).max(12 * n);
    let chk = |o: &Obs| {
        let w = lexcmp(k, o.ins[0], o.ins[1]);
        let e = [
            (w == Ordering::Less) as u128,
            (w != Ordering::Greater) as u128,
            (w == Ordering::Greater) as u128,
            (w != Ordering::Less) as u128,
            (w == Ordering::Equal) as u128,
            (w != Ordering::Equal) as u128,
            enc(Some(w)) as u128,
            enc(Some(w)) as u128,
            (w == Ordering::Less) as u128,
            (w != Ordering::Greater) as u128,
            (w == Ordering::Greater) as u128,
            (w != Ordering::Less) as u128,
            enc(Some(w)) as u128,
        ];
        let nm = ["lt", "le", "gt", "ge", "eq", "ne", "partial_cmp", "cmp", "partial lt", "partial le", "partial gt", "partial ge", "partial partial_cmp"];
        for i in 0..13 {
            if o.out[i] != e[i] {
                return Err(format!("{}: got {} want {} (1 Less, 2 Equal, 3 Greater)", nm[i], o.out[i], e[i]));
            }
        }
        Ok(())
    };
    run_extra(c, &op2(ty, "lex", v, v, S::V(K::U(8), 13), f), &Spec { g: ANY, valid: None, check: &chk, weight: 0.3 }, &mut pairs(k, n, lim));
}
macro_rules! eqg {
    ($v:ident) => {
        glue!(|a: $v, b: $v| -> [u8; 2] { [PartialEq::eq(&a, &b) as u8, PartialEq::ne(&a, &b) as u8] })
    };
}
macro_rules! lexg {
    ($v:ident) => {
        glue!(|a: $v, b: $v| -> [u8; 13] {
            let (x, y) = (a.lex_ord(), b.lex_ord());
            let (p, q) = (a.partial_lex_ord(), b.partial_lex_ord());
            [(x < y) as u8, (x <= y) as u8, (x > y) as u8, (x >= y) as u8, (x == y) as u8, (x != y) as u8, enc(x.partial_cmp(&y)), enc(Some(x.cmp(&y))),
             (p < q) as u8, (p <= q) as u8, (p > q) as u8, (p >= q) as u8, enc(p.partial_cmp(&q))]
        })
    };
}
/// sorting vectors through the wrapper equals sorting the lane arrays
macro_rules! sorting {
    ($c:ident, $v:ident, $k:expr, $n:expr) => {{
        if $c.enter(stringify!($v), "sort") {
            let mut r = $c.rng.clone();
            let reps = $c.n(12, 400);
            let mut total = 0u64;
            for rep in 0..reps {
                let m = 2 + r.below(60);
                let pl = pools($k, G::Any);
                let mut vs: Vec<Vec<u128>> = (0..m).map(|_| (0..$n).map(|_| if rep % 2 == 0 { pl.core[r.below(pl.core.len().min(4))] } else { draw(&mut r, $k, G::Any) }).collect()).collect();
                let mut real: Vec<$v> = vs.iter().map(|l| {
                    let mut b = Buf::new(0);
                    for i in 0..$n { put(&mut b.0, $k, i, l[i]); }
                    unsafe { (b.0.as_ptr() as *const $v).read_unaligned() }
                }).collect();
                let p = panics(|| real.sort_by(|a, b| a.lex_ord().cmp(&b.lex_ord())));
                let mut real2 = real.clone();
                real2.reverse();
                real2.sort_by_key(|a| a.lex_ord());
                vs.sort_by(|a, b| lexcmp($k, a, b));
                for (i, w) in vs.iter().enumerate() {
                    for real in [&real, &real2] {
                        let g: Vec<u128> = (0..$n).map(|j| get(as_bytes(&real[i]), $k, j)).collect();
                        if p || g != *w {
                            $c.violation(stringify!($v), "sort", format!("position {}: {} instead of {}", i, show_lanes($k, &g), show_lanes($k, w)));
                        }
                    }
                }
                total += m as u64;
            }
            $c.count("vectors_sorted", total);
            $c.leave(stringify!($v), "sort", reps as u64, reps as u64);
        }
    }};
}
fn main() {
    let mut c = Ctx::from_args("C18");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                eqs(c, stringify!($v), KK, $n, eqg!($v));
                lex(c, stringify!($v), KK, $n, lexg!($v));
                sorting!(c, $v, KK, $n);
                wh(c, op1(stringify!($v), "hash", S::V(KK, $n), S::V(K::U(64), 2), glue!(|a: $v| -> [u64; 2] { let arr: [$e; $n] = std::mem::transmute(a); [std_hash(&a), std_hash(&arr)] })), ANY, &|o| {
                    if o.out[0] == o.out[1] { Ok(()) } else { Err("hash differs from the hash of the lane array".into()) }
                });
            }
            all(&mut c);
        }};
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {
            eqs(&mut c, stringify!($v), K::F($b), $n, eqg!($v))
        };
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                eqs(c, stringify!($v), K::M($b), $n, eqg!($v));
                lex(c, stringify!($v), K::M($b), $n, lexg!($v));
                sorting!(c, $v, K::M($b), $n);
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_floats!(fty);
    for_masks!(mty);
    c.finish()
}
