//! C20: the same programs give the same results fused and stepwise, and (compared by the driver) in every build.
#![allow(unused_mut, unused_braces, unused_parens, dead_code, unused_comparisons, unused_variables, unused_macros)]
use packed_simd::*;
use std::hint::black_box;
use vmon::*;

#[inline(always)]
fn fused<T>(x: T) -> T {
    x
}
#[inline(always)]
fn step<T>(x: T) -> T {
    black_box(x)
}
trait Val: Copy {
    const K: K;
    const N: usize;
}
macro_rules! vi { ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => { impl Val for $v { const K: K = K::$ku($b); const N: usize = $n; } }; }
macro_rules! vf { ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => { impl Val for $v { const K: K = K::F($b); const N: usize = $n; } }; }
macro_rules! vm { ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => { impl Val for $v { const K: K = K::M($b); const N: usize = $n; } }; }
for_ints!(vi);
for_floats!(vf);
for_masks!(vm);

/// program inputs: drawn from the value pools, recorded for the report
struct In {
    r: Rng,
    log: Vec<(K, Vec<u128>)>,
}
impl In {
    #[inline(never)]
    fn raw(&mut self, k: K, n: usize, buf: &mut [u8]) {
        let mode = self.r.below(6);
        let core = if let K::M(_) = k { vec![0, k.mask()] } else if let K::F(b) = k { f_core(b) } else { int_core(k.bits()) };
        let base = core[self.r.below(core.len())];
        let dev = self.r.below(n);
        let thr = self.r.below(4);
        let mut l = vec![];
        for i in 0..n {
            let mut x = match (mode, k) {
                // uniform except one lane
                (0, _) => if i == dev { core[self.r.below(core.len())] } else { base },
                (1, _) => core[self.r.below(core.len())],
                (2, K::M(_)) => if i <= dev { k.mask() } else { 0 },
                (_, K::M(_)) => if self.r.below(4) <= thr { k.mask() } else { 0 },
                (_, K::F(b)) => f_rand(&mut self.r, b),
                _ => i_rand(&mut self.r, k.bits()),
            };
            if k.is_snan(x) {
                x |= if k == K::F(32) { 1 << 22 } else { 1 << 51 };
            }
            put(buf, k, i, x);
            l.push(x);
        }
        self.log.push((k, l));
    }
    #[inline(always)]
    fn v<T: Val>(&mut self) -> T {
        let mut b = Buf::new(0);
        self.raw(T::K, T::N, &mut b.0);
        unsafe { (b.0.as_ptr() as *const T).read_unaligned() }
    }
}
/// program results
struct Out {
    h: u64,
    log: Vec<(K, Vec<u128>)>,
}
impl Out {
    #[inline(never)]
    fn raw(&mut self, k: K, n: usize, p: &[u8]) {
        let mut l = vec![];
        for i in 0..n {
            let x = get(p, k, i);
            let x = if k.is_nan(x) { if k == K::F(32) { 0x7fc00000 } else { 0x7ff8000000000000 } } else { x };
            self.h = (self.h ^ x as u64 ^ (x >> 64) as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
            l.push(x);
        }
        self.log.push((k, l));
    }
    #[inline(always)]
    fn put<T: Val>(&mut self, x: T) {
        self.raw(T::K, T::N, as_bytes(&x))
    }
}
include!(concat!(env!("VMON_GEN_DIR"), "/c20_gen.rs"));

fn show(l: &[(K, Vec<u128>)]) -> String {
    l.iter().map(|(k, v)| format!("{:?}{}", k, show_lanes(*k, v))).collect::<Vec<_>>().join(" ")
}
fn exec(p: P, r: &Rng) -> Result<(In, Out), ()> {
    let mut i = In { r: r.clone(), log: vec![] };
    let mut o = Out { h: FNV0, log: vec![] };
    let ok = !panics(|| p(&mut i, &mut o));
    if ok { Ok((i, o)) } else { Err(()) }
}
fn main() {
    let mut c = Ctx::from_args("C20");
    for &(ty, what, s, f) in PROGS {
        if !c.enter(ty, what) {
            continue;
        }
        let mut rng = c.rng.clone();
        let n = if ty == "program" { c.n(80, 2000) } else { c.n(40, 600) };
        let mut seen = std::collections::HashSet::new();
        let mut dig = FNV0;
        let mut detail: Vec<String> = vec![];
        for it in 0..n {
            rng.next();
            let a = exec(s, &rng);
            let b = exec(f, &rng);
            match (a, b) {
                (Ok((i, x)), Ok((_, y))) => {
                    if x.log != y.log {
                        c.violation(ty, what, format!("fused and step-by-step evaluation differ: in {} step {} fused {}", show(&i.log), show(&x.log), show(&y.log)));
                    }
                    c.lanes += x.log.iter().map(|l| l.1.len() as u64).sum::<u64>();
                    seen.insert(x.h);
                    dig = dig.rotate_left(9).wrapping_mul(0x9E3779B97F4A7C15) ^ x.h;
                    detail.push(format!("{:016x}", x.h));
                    if it == 0 && rng.below(40) == 0 {
                        c.sample(|| format!("{} {}: {} -> {}", ty, what, show(&i.log), show(&x.log)));
                    }
                }
                (a, b) => c.violation(ty, what, format!("panicked: step {} fused {} (iteration {})", a.is_err(), b.is_err(), it)),
            }
        }
        c.digests.push((format!("{} {}", ty, what), dig));
        c.leave(ty, what, 2 * n as u64, seen.len() as u64);
        let _ = detail;
    }
    c.finish()
}
