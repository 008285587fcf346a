//! C13: shuffle1_dyn
use packed_simd::*;
use vmon::*;

unsafe fn rd<T>(p: *const u8) -> T {
    (p as *const T).read_unaligned()
}
fn pattern(which: usize, n: usize, i: usize, r: &mut Rng) -> u128 {
    (match which {
        0 => i,
        1 => n - 1 - i,
        2 => i ^ 1,
        3 => i ^ (n / 2),
        4 => (i + 1) % n,
        5 => (i + n - 1) % n,
        6 => i / 2,
        7 => n / 2 + i / 2,
        8 => (i * 2) % n,
        9 => (i % 2) * (n - 1),
        10 => i & !1,
        11 => i | 1,
        12 => (i * 5 + 3) % n,
        _ => r.below(n),
    } % n) as u128
}
fn dynsh(c: &mut Ctx, ty: &'static str, k: K, n: usize, f: F) {
    let b = k.bits();
    let op = op2(ty, "shuffle1_dyn", S::V(k, n), S::V(K::U(b), n), S::V(k, n), f);
    let check = |o: &Obs| -> Result<(), String> {
        for i in 0..n {
            let w = o.ins[0][o.ins[1][i] as usize];
            if o.out[i] != w {
                return Err(format!("lane {} (index {}): got {} want {}", i, o.ins[1][i], k.show(o.out[i]), k.show(w)));
            }
        }
        Ok(())
    };
    let total = (n as u64).checked_pow(n as u32).unwrap_or(u64::MAX);
    let exh = if total <= 256 { total as usize } else { 0 };
    let nrand = c.n(3000, 100_000);
    let nbc = n * n;
    run_extra(c, &op, &Spec { g: [G::Any, G::Below(n as u128), G::Any], valid: None, check: &check, weight: 1.0 }, &mut |i, r, l| {
        for j in 0..n {
            l[0][j] = draw(r, k, G::Any);
            // distinguishable lanes
            if !matches!(k, K::M(_)) {
                l[0][j] = (l[0][j] & !0xff) | (0x40 + j as u128 * 3) & 0xff;
            }
        }
        if i < exh * 4 {
            let mut x = i / 4;
            for j in 0..n {
                l[1][j] = (x % n) as u128;
                x /= n;
            }
        } else if i < exh * 4 + 13 * 4 {
            let w = (i - exh * 4) / 4;
            for j in 0..n {
                l[1][j] = pattern(w, n, j, r);
            }
        } else if i < exh * 4 + 52 + nbc {
            // all lanes one index except one lane
            let q = i - exh * 4 - 52;
            for j in 0..n {
                l[1][j] = (q / n) as u128;
            }
            l[1][q % n] = r.below(n) as u128;
        } else if i < exh * 4 + 52 + nbc + nrand {
            for j in 0..n {
                l[1][j] = r.below(n) as u128;
            }
            if r.below(3) == 0 {
                // permutation
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                for j in 0..n {
                    l[1][j] = p[j] as u128;
                }
            }
        } else {
            return false;
        }
        true
    });
    // out-of-range indices: may panic or return, but a returned lane may hold nothing that is not in the source
    if matches!(k, K::M(_)) || !c.enter(ty, "shuffle1_dyn:oob") {
        return;
    }
    let mut r = c.rng.clone();
    let (mut pan, mut ret) = (0, 0);
    let reps = c.n(200, 10_000);
    for _ in 0..reps {
        let mut a = Buf::new(0);
        let mut ix = Buf::new(0);
        let mut out = Buf::new(0);
        let nb = n * k.bytes();
        for j in 0..nb {
            a.0[j] = 0xA0 + r.below(8) as u8;
        }
        let hot = r.below(n);
        let mut idx = vec![0u128; n];
        for j in 0..n {
            idx[j] = r.below(n) as u128;
            if j == hot || r.below(4) == 0 {
                idx[j] = match r.below(5) {
                    0 => n as u128,
                    1 => n as u128 + r.below(16) as u128,
                    2 => ones(b),
                    3 => (1u128 << (b - 1)) + r.below(n) as u128,
                    _ => r.u128() & ones(b),
                } & ones(b);
            }
            put(&mut ix.0, K::U(b), j, idx[j]);
        }
        let p = panics(|| unsafe { f(a.0.as_ptr(), ix.0.as_ptr(), std::ptr::null(), out.0.as_mut_ptr()) });
        if p {
            pan += 1;
            continue;
        }
        ret += 1;
        for j in 0..n {
            let w = k.bytes();
            let lane = &out.0[j * w..(j + 1) * w];
            if idx[j] < n as u128 {
                let s = idx[j] as usize;
                if lane != &a.0[s * w..(s + 1) * w] {
                    c.violation(ty, "shuffle1_dyn:oob", format!("in-range lane {} (index {}) wrong next to out-of-range indices {:?}", j, idx[j], idx));
                }
            } else if lane.iter().any(|x| *x != 0 && !(0xA0..0xA8).contains(x)) {
                c.violation(ty, "shuffle1_dyn:oob", format!("lane {} (index {}) exposes bytes {:x?} that are not in the source vector", j, idx[j], lane));
            }
        }
    }
    c.count("oob_calls_panicked", pan);
    c.count("oob_calls_returned", ret);
    c.leave(ty, "shuffle1_dyn:oob", reps as u64, reps as u64);
}
macro_rules! g {
    ($v:ty) => {{
        unsafe fn g(a: *const u8, b: *const u8, _c: *const u8, o: *mut u8) {
            let v: $v = rd(a);
            let r: $v = v.shuffle1_dyn(rd(b));
            (o as *mut $v).write_unaligned(r)
        }
        g as F
    }};
}
fn main() {
    let mut c = Ctx::from_args("C13");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {
            dynsh(&mut c, stringify!($v), K::$ku($b), $n, g!($v))
        };
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {
            dynsh(&mut c, stringify!($v), K::F($b), $n, g!($v))
        };
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => {
            dynsh(&mut c, stringify!($v), K::M($b), $n, g!($v))
        };
    }
    for_ints!(ty);
    for_floats!(fty);
    for_masks!(mty);
    dynsh(&mut c, "cptrx2<u8>", K::U(64), 2, g!(cptrx2<u8>));
    dynsh(&mut c, "cptrx4<u32>", K::U(64), 4, g!(cptrx4<u32>));
    dynsh(&mut c, "cptrx8<f64>", K::U(64), 8, g!(cptrx8<f64>));
    dynsh(&mut c, "mptrx2<u8>", K::U(64), 2, g!(mptrx2<u8>));
    dynsh(&mut c, "mptrx4<u32>", K::U(64), 4, g!(mptrx4<u32>));
    dynsh(&mut c, "mptrx8<f64>", K::U(64), 8, g!(mptrx8<f64>));
    c.finish()
}
