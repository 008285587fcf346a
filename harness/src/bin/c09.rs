//! C09: slice loads and stores, watched by guard pages, byte images and (in the asan build) redzones
use packed_simd::*;
use vmon::*;

type Ld = unsafe fn(*const u8, usize, *mut u8);
type St = unsafe fn(*const u8, *mut u8, usize);

struct T {
    ty: &'static str,
    n: usize,
    eb: usize,
    ealign: usize,
    valign: usize,
    // aligned, aligned_unchecked, unaligned, unaligned_unchecked
    ld: [Ld; 4],
    st: [St; 4],
}
const LN: [&str; 4] = ["from_slice_aligned", "from_slice_aligned_unchecked", "from_slice_unaligned", "from_slice_unaligned_unchecked"];
const SN: [&str; 4] = ["write_to_slice_aligned", "write_to_slice_aligned_unchecked", "write_to_slice_unaligned", "write_to_slice_unaligned_unchecked"];

struct M {
    arena: Arena,
    shadow: Vec<u8>,
    panics: u64,
    done: u64,
    distinct: u64,
}
const PAD: usize = 0xB7;

fn fillr(r: &mut Rng, b: &mut [u8]) {
    for c in b.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
}

/// Is this call allowed (precondition of an unchecked form), and must it panic?
fn verdict(t: &T, which: usize, addr: usize, len: usize) -> (bool, bool) {
    let short = len < t.n;
    let mis = addr % t.valign != 0;
    match which {
        0 => (true, short || mis),
        1 => (!(short || mis), false),
        2 => (true, short),
        _ => (!short, false),
    }
}

fn one_load(c: &mut Ctx, t: &T, m: &mut M, which: usize, addr: usize, len: usize, out: &mut Buf) {
    let (allowed, must) = verdict(t, which, addr, len);
    if !allowed {
        return;
    }
    let nb = t.n * t.eb;
    out.0[..nb + 16].fill(PAD as u8);
    let f = t.ld[which];
    let o = out.0.as_mut_ptr();
    let p = panics(|| unsafe { f(addr as *const u8, len, o) });
    m.done += 1;
    let place = |m: &M| format!("slice at arena+{} (vector align {}, address mod {} = {}), len {} of {} lanes", addr as isize - m.arena.base as isize, t.valign, t.valign, addr % t.valign, len, t.n);
    if p != must {
        let d = place(m);
        c.violation(t.ty, LN[which], format!("{}; {}", if must { "should panic but returned" } else { "panicked although the precondition holds" }, d));
        return;
    }
    if must {
        m.panics += 1;
        return;
    }
    let want = unsafe { std::slice::from_raw_parts(addr as *const u8, nb) };
    if out.0[..nb] != *want {
        let d = place(m);
        let i = (0..nb).find(|i| out.0[*i] != want[*i]).unwrap();
        c.violation(t.ty, LN[which], format!("lane {} (byte {}) differs from the slice; {}", i / t.eb, i, d));
    }
    if out.0[nb..nb + 16].iter().any(|x| *x != PAD as u8) {
        c.violation(t.ty, LN[which], "vector larger than lanes x element size".into());
    }
}

fn one_store(c: &mut Ctx, t: &T, m: &mut M, which: usize, addr: usize, len: usize, val: &Buf) {
    let (allowed, must) = verdict(t, which, addr, len);
    if !allowed {
        return;
    }
    let nb = t.n * t.eb;
    let base = m.arena.base as usize;
    let off = addr - base;
    // window around the slice, the whole arena now and then
    let lo = off.saturating_sub(192);
    let hi = (off + len * t.eb + nb + 192).min(m.arena.len);
    let (lo, hi) = if m.done % 64 == 0 { (0, m.arena.len) } else { (lo, hi) };
    m.shadow[lo..hi].copy_from_slice(&m.arena.bytes()[lo..hi]);
    let f = t.st[which];
    let p = panics(|| unsafe { f(val.0.as_ptr(), addr as *mut u8, len) });
    m.done += 1;
    let place = || format!("slice at arena+{} (vector align {}, address mod {} = {}), len {} of {} lanes", off, t.valign, t.valign, addr % t.valign, len, t.n);
    if p != must {
        c.violation(t.ty, SN[which], format!("{}; {}", if must { "should panic but returned" } else { "panicked although the precondition holds" }, place()));
    }
    if must {
        m.panics += 1;
    } else {
        m.shadow[off..off + nb].copy_from_slice(&val.0[..nb]);
    }
    let img = &m.arena.bytes()[lo..hi];
    if img != &m.shadow[lo..hi] {
        let i = (lo..hi).find(|i| img[*i - lo] != m.shadow[*i]).unwrap();
        let what = if must {
            "modified memory although it panicked"
        } else if i < off || i >= off + nb {
            "modified memory outside the first N elements"
        } else {
            "stored the wrong lanes"
        };
        c.violation(t.ty, SN[which], format!("{} (byte {} relative to the slice start); {}", what, i as isize - off as isize, place()));
    }
}

fn run_type(c: &mut Ctx, t: T) {
    let nb = t.n * t.eb;
    let mut out = Buf::new(0);
    let mut m = M { arena: Arena::new(2), shadow: vec![0; 2 * PAGE], panics: 0, done: 0, distinct: 0 };
    for side in 0..2 {
        for which in 0..4 {
            let nm = if side == 0 { LN[which] } else { SN[which] };
            if !c.enter(t.ty, nm) {
                continue;
            }
            let mut rng = c.rng.clone();
            fillr(&mut rng, m.arena.bytes_mut());
            m.done = 0;
            m.panics = 0;
            m.distinct = 0;
            let mut places: Vec<(usize, usize)> = vec![];
            let b = m.arena.base as usize;
            let e = m.arena.end() as usize;
            let lens: Vec<usize> = if t.n <= 16 { (0..=2 * t.n + 1).collect() } else { (0..5).chain(t.n / 2 - 1..t.n / 2 + 2).chain(t.n - 3..t.n + 4).chain(2 * t.n - 1..2 * t.n + 2).collect() };
            for &len in &lens {
                let sz = len * t.eb;
                // flush against both guard pages
                places.push((e - sz, len));
                places.push((b, len));
                // every element-aligned offset within two vector widths, from both ends and across the page boundary
                let mut off = 0;
                while off <= 2 * nb.max(t.valign) {
                    places.push((b + off, len));
                    if sz + off <= 2 * PAGE {
                        places.push(((e - sz - off) / t.ealign * t.ealign, len));
                    }
                    if off <= PAGE {
                        places.push(((b + PAGE - off) / t.ealign * t.ealign, len));
                    }
                    off += t.ealign;
                }
            }
            for _ in 0..c.n(300, 20_000) {
                let len = match rng.below(4) {
                    0 => rng.below(t.n + 1),
                    1 => t.n,
                    2 => t.n + rng.below(4),
                    _ => t.n + rng.below(2 * t.n + 8),
                };
                let room = 2 * PAGE - len * t.eb;
                let off = rng.below(room / t.ealign + 1) * t.ealign;
                let off = if rng.bool() { off / t.valign * t.valign } else { off };
                places.push((b + off, len));
            }
            places.sort();
            places.dedup();
            rng.shuffle(&mut places);
            let lim = c.n(1500, 60_000);
            // keep those flush with the guard pages first
            places.sort_by_key(|(a, l)| !(a + l * t.eb == e || *a == b));
            places.truncate(lim);
            let reps = c.n(1, 3);
            for _ in 0..reps {
                for &(a, len) in &places {
                    debug_assert!(a >= b && a + len * t.eb <= e);
                    if side == 0 {
                        one_load(c, &t, &mut m, which, a, len, &mut out);
                    } else {
                        let mut v = Buf::new(0);
                        fillr(&mut rng, &mut v.0[..nb]);
                        one_store(c, &t, &mut m, which, a, len, &v);
                    }
                }
            }
            // heap blocks of exactly len elements: redzones in the asan build
            for _ in 0..c.n(24, 400) {
                let len = match rng.below(3) {
                    0 => rng.below(t.n + 1),
                    1 => t.n,
                    _ => t.n + rng.below(3),
                };
                let sz = len * t.eb;
                if sz == 0 {
                    continue;
                }
                let lay = std::alloc::Layout::from_size_align(sz, if rng.bool() { t.valign } else { t.ealign }).unwrap();
                let p = unsafe { std::alloc::alloc(lay) };
                let blk = unsafe { std::slice::from_raw_parts_mut(p, sz) };
                fillr(&mut rng, blk);
                if side == 0 {
                    one_load(c, &t, &mut m, which, p as usize, len, &mut out);
                } else {
                    let (allowed, must) = verdict(&t, which, p as usize, len);
                    if allowed {
                        let before = blk.to_vec();
                        let mut v = Buf::new(0);
                        fillr(&mut rng, &mut v.0[..nb]);
                        let f = t.st[which];
                        let pa = panics(|| unsafe { f(v.0.as_ptr(), p, len) });
                        m.done += 1;
                        if pa != must {
                            c.violation(t.ty, SN[which], format!("heap slice len {} addr mod {} = {}: panic={} expected {}", len, t.valign, p as usize % t.valign, pa, must));
                        }
                        let blk = unsafe { std::slice::from_raw_parts(p, sz) };
                        let mut want = before;
                        if !must {
                            want[..nb].copy_from_slice(&v.0[..nb]);
                        }
                        if blk != &want[..] {
                            c.violation(t.ty, SN[which], format!("heap slice len {}: wrong bytes after the store", len));
                        }
                    }
                }
                unsafe { std::alloc::dealloc(p, lay) };
            }
            c.count("panics_observed", m.panics);
            c.count(if side == 0 { "loads" } else { "stores" }, m.done - m.panics);
            let (d, p) = (m.done, m.panics);
            if rng.below(8) == 0 {
                c.sample(|| format!("{} {}: {} calls at {} placements, {} expected panics observed", t.ty, nm, d, places.len(), p));
            }
            c.leave(t.ty, nm, d, d.min(places.len() as u64));
        }
    }
    unsafe {
        sys::munmap(m.arena.base.sub(PAGE), m.arena.len + 2 * PAGE);
    }
}

macro_rules! mk {
    ($v:ty, $e:ty, $n:expr, $ty:expr) => {{
        unsafe fn l0(p: *const u8, len: usize, o: *mut u8) {
            let r = <$v>::from_slice_aligned(std::slice::from_raw_parts(p as *const $e, len));
            (o as *mut $v).write_unaligned(r)
        }
        unsafe fn l1(p: *const u8, len: usize, o: *mut u8) {
            let r = <$v>::from_slice_aligned_unchecked(std::slice::from_raw_parts(p as *const $e, len));
            (o as *mut $v).write_unaligned(r)
        }
        unsafe fn l2(p: *const u8, len: usize, o: *mut u8) {
            let r = <$v>::from_slice_unaligned(std::slice::from_raw_parts(p as *const $e, len));
            (o as *mut $v).write_unaligned(r)
        }
        unsafe fn l3(p: *const u8, len: usize, o: *mut u8) {
            let r = <$v>::from_slice_unaligned_unchecked(std::slice::from_raw_parts(p as *const $e, len));
            (o as *mut $v).write_unaligned(r)
        }
        unsafe fn s0(v: *const u8, p: *mut u8, len: usize) {
            (v as *const $v).read_unaligned().write_to_slice_aligned(std::slice::from_raw_parts_mut(p as *mut $e, len))
        }
        unsafe fn s1(v: *const u8, p: *mut u8, len: usize) {
            (v as *const $v).read_unaligned().write_to_slice_aligned_unchecked(std::slice::from_raw_parts_mut(p as *mut $e, len))
        }
        unsafe fn s2(v: *const u8, p: *mut u8, len: usize) {
            (v as *const $v).read_unaligned().write_to_slice_unaligned(std::slice::from_raw_parts_mut(p as *mut $e, len))
        }
        unsafe fn s3(v: *const u8, p: *mut u8, len: usize) {
            (v as *const $v).read_unaligned().write_to_slice_unaligned_unchecked(std::slice::from_raw_parts_mut(p as *mut $e, len))
        }
        T { ty: $ty, n: $n, eb: std::mem::size_of::<$e>(), ealign: std::mem::align_of::<$e>(), valign: std::mem::align_of::<$v>(), ld: [l0, l1, l2, l3], st: [s0, s1, s2, s3] }
    }};
}
fn main() {
    let mut c = Ctx::from_args("C09");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {
            run_type(&mut c, mk!($v, $e, $n, stringify!($v)))
        };
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {
            run_type(&mut c, mk!($v, $e, $n, stringify!($v)))
        };
    }
    for_ints!(ty);
    for_floats!(fty);
    run_type(&mut c, mk!(cptrx2<u8>, *const u8, 2, "cptrx2<u8>"));
    run_type(&mut c, mk!(cptrx4<u32>, *const u32, 4, "cptrx4<u32>"));
    run_type(&mut c, mk!(cptrx8<f64>, *const f64, 8, "cptrx8<f64>"));
    run_type(&mut c, mk!(mptrx2<u8>, *mut u8, 2, "mptrx2<u8>"));
    run_type(&mut c, mk!(mptrx4<u32>, *mut u32, 4, "mptrx4<u32>"));
    run_type(&mut c, mk!(mptrx8<f64>, *mut f64, 8, "mptrx8<f64>"));
    c.finish()
}
