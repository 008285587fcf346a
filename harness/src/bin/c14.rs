//! C14: masked gather and scatter. Disabled lanes hold hostile pointers; the arena's byte image, guard pages
//! and (asan build) redzones watch every access.
use packed_simd::*;
use vmon::*;

// ptrs, mask lanes (bool bytes), values, out
type Gf = unsafe fn(*const u64, *const u8, *const u8, *mut u8);

struct T {
    ty: &'static str,
    op: &'static str,
    n: usize,
    eb: usize,
    mb: usize,
    scatter: bool,
    f: Gf,
}

fn fillr(r: &mut Rng, b: &mut [u8]) {
    for c in b.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
}
/// a pointer that must not be dereferenced
fn hostile(r: &mut Rng, a: &Arena, dead: &Arena) -> u64 {
    let b = a.base as u64;
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => a.end() as u64,
        3 => b - 1,
        4 => b - 16,
        5 => a.end() as u64 + r.below(4000) as u64,
        6 => dead.base as u64 + r.below(4096) as u64,
        7 => u64::MAX - r.below(64) as u64,
        8 => 0x8000_0000_0000_0000 | r.next() >> 1,
        9 => 0xffff_8000_0000_0000 + (r.next() & 0xffff),
        10 => r.next(),
        _ => 0xdead_beef_0000 + r.below(64) as u64,
    }
}

fn run_one(c: &mut Ctx, t: &T, a: &mut Arena, dead: &Arena, heap: bool) {
    if !c.enter(t.ty, t.op) {
        return;
    }
    let n = t.n;
    let eb = t.eb;
    let nb = n * eb;
    let mut rng = c.rng.clone();
    fillr(&mut rng, a.bytes_mut());
    let mut shadow = a.bytes().to_vec();
    let base = a.base as usize;
    let slots = a.len / eb;
    let mut evals = 0u64;
    let mut seen: Vec<u64> = vec![];
    let mut hostiles = 0u64;
    let mut dups = 0u64;
    let mut pats: Vec<u64> = vec![];
    for _ in 0..c.n(10, 400).max(300 >> n) {
        pats.extend(0..(1u64 << n));
    }
    rng.shuffle(&mut pats);
    for p in pats {
        let mut ptrs = [0u64; 8];
        let mut mask = [0u8; 8 * 16];
        let mut val = Buf::new(0);
        let mut out = Buf::new(0x5D);
        fillr(&mut rng, &mut val.0[..nb]);
        let mut blocks: Vec<(usize, *mut u8)> = vec![];
        let mut stale: Vec<(usize, *mut u8)> = vec![];
        let mode = rng.below(4);
        let lay = std::alloc::Layout::from_size_align(eb, eb.min(16)).unwrap();
        for i in 0..n {
            let on = (p >> i) & 1 == 1;
            if on {
                mask[i * t.mb..(i + 1) * t.mb].fill(0xff);
                let slot = match mode {
                    // few slots: duplicates; ends of the arena; random; consecutive
                    0 => slots / 2 + rng.below(3),
                    1 => if rng.bool() { rng.below(4) } else { slots - 1 - rng.below(4) },
                    2 => rng.below(slots),
                    _ => 100 + i,
                };
                ptrs[i] = (base + slot * eb) as u64;
                if heap && rng.bool() {
                    let q = unsafe { std::alloc::alloc(lay) };
                    fillr(&mut rng, unsafe { std::slice::from_raw_parts_mut(q, eb) });
                    blocks.push((i, q));
                    ptrs[i] = q as u64;
                }
            } else {
                ptrs[i] = match rng.below(4) {
                    // valid memory too: a disabled lane must not store there either
                    0 => (base + rng.below(slots) * eb) as u64,
                    1 if heap => {
                        let q = unsafe { std::alloc::alloc(lay) };
                        stale.push((i, q));
                        q as u64
                    }
                    _ => {
                        hostiles += 1;
                        hostile(&mut rng, a, dead)
                    }
                };
            }
        }
        for (_, q) in &stale {
            unsafe { std::alloc::dealloc(*q, lay) };
        }
        let mut h = fnv(as_bytes(&ptrs), fnv(&val.0[..nb], p));
        h ^= p;
        seen.push(h);
        // expectation, from plain memory
        let mut want = [0u8; 128];
        let mut heapwant: Vec<(usize, Vec<u8>)> = vec![];
        if t.scatter {
            for i in 0..n {
                if (p >> i) & 1 == 1 {
                    let off = (ptrs[i] as usize).wrapping_sub(base);
                    if off < a.len {
                        shadow[off..off + eb].copy_from_slice(&val.0[i * eb..(i + 1) * eb]);
                        for j in 0..i {
                            if (p >> j) & 1 == 1 && ptrs[j] == ptrs[i] {
                                dups += 1;
                            }
                        }
                    } else {
                        heapwant.push((ptrs[i] as usize, val.0[i * eb..(i + 1) * eb].to_vec()));
                    }
                }
            }
        } else {
            for i in 0..n {
                let w = &mut want[i * eb..(i + 1) * eb];
                if (p >> i) & 1 == 1 {
                    w.copy_from_slice(unsafe { std::slice::from_raw_parts(ptrs[i] as *const u8, eb) });
                } else {
                    w.copy_from_slice(&val.0[i * eb..(i + 1) * eb]);
                }
            }
        }
        let pa = panics(|| unsafe { (t.f)(ptrs.as_ptr(), mask.as_ptr(), val.0.as_ptr(), out.0.as_mut_ptr()) });
        evals += 1;
        let d = || format!("mask={:0w$b} (lane 0 rightmost) ptrs={:x?}", p, &ptrs[..n], w = n);
        if pa {
            c.violation(t.ty, t.op, format!("unexpected panic; {}", d()));
        } else if t.scatter {
            for (q, w) in &heapwant {
                if unsafe { std::slice::from_raw_parts(*q as *const u8, eb) } != &w[..] {
                    c.violation(t.ty, t.op, format!("enabled lane not stored at {:x}; {}", q, d()));
                }
            }
        } else {
            if out.0[..nb] != want[..nb] {
                let i = (0..n).find(|i| out.0[i * eb..(i + 1) * eb] != want[i * eb..(i + 1) * eb]).unwrap();
                c.violation(t.ty, t.op, format!("lane {}: got bytes {:x?}, want {:x?}; {}", i, &out.0[i * eb..(i + 1) * eb], &want[i * eb..(i + 1) * eb], d()));
            }
        }
        if a.bytes() != &shadow[..] {
            let i = (0..a.len).find(|i| a.bytes()[*i] != shadow[*i]).unwrap();
            c.violation(t.ty, t.op, format!("memory image wrong at arena+{} (pointer offsets {:?}); {}", i, ptrs[..n].iter().map(|q| (*q as i64).wrapping_sub(base as i64)).collect::<Vec<_>>(), d()));
            shadow.copy_from_slice(a.bytes());
        }
        for (_, q) in blocks {
            unsafe { std::alloc::dealloc(q, lay) };
        }
    }
    seen.sort();
    seen.dedup();
    c.count("hostile_pointers_in_disabled_lanes", hostiles);
    c.count("duplicate_enabled_scatter_targets", dups);
    if rng.below(16) == 0 {
        c.sample(|| format!("{} {}: {} calls over all {} mask patterns, {} hostile disabled pointers, {} duplicate targets", t.ty, t.op, evals, 1 << n, hostiles, dups));
    }
    c.leave(t.ty, t.op, evals, seen.len() as u64);
}

macro_rules! gs {
    ($c:ident, $a:ident, $d:ident, $n:expr, $cp:ident, $mp:ident, $t:ident, $m:ident) => {{
        type V = Simd<[$t; $n]>;
        type MM = Simd<[$m; $n]>;
        unsafe fn r1(p: *const u64, m: *const u8, v: *const u8, o: *mut u8) {
            let p = (p as *const $cp<$t>).read_unaligned();
            let r: V = p.read((m as *const MM).read_unaligned(), (v as *const V).read_unaligned());
            (o as *mut V).write_unaligned(r)
        }
        unsafe fn r2(p: *const u64, m: *const u8, v: *const u8, o: *mut u8) {
            let p = (p as *const $mp<$t>).read_unaligned();
            let r: V = p.read((m as *const MM).read_unaligned(), (v as *const V).read_unaligned());
            (o as *mut V).write_unaligned(r)
        }
        unsafe fn w(p: *const u64, m: *const u8, v: *const u8, _o: *mut u8) {
            let p = (p as *const $mp<$t>).read_unaligned();
            p.write((m as *const MM).read_unaligned(), (v as *const V).read_unaligned());
        }
        let eb = std::mem::size_of::<$t>();
        let mb = std::mem::size_of::<$m>();
        run_one(&mut $c, &T { ty: concat!(stringify!($cp), "<", stringify!($t), ">"), op: concat!("read:", stringify!($m)), n: $n, eb, mb, scatter: false, f: r1 }, &mut $a, &$d, true);
        run_one(&mut $c, &T { ty: concat!(stringify!($mp), "<", stringify!($t), ">"), op: concat!("read:", stringify!($m)), n: $n, eb, mb, scatter: false, f: r2 }, &mut $a, &$d, true);
        run_one(&mut $c, &T { ty: concat!(stringify!($mp), "<", stringify!($t), ">"), op: concat!("write:", stringify!($m)), n: $n, eb, mb, scatter: true, f: w }, &mut $a, &$d, true);
    }};
}
fn main() {
    let mut c = Ctx::from_args("C14");
    let mut a = Arena::new(1);
    let dead = Arena::new(2);
    dead.protect(0);
    macro_rules! masks {
        ($n:expr, $cp:ident, $mp:ident, [$($t:ident)*], $ms:tt) => { $( masks!(@ $n, $cp, $mp, $t, $ms); )* };
        (@ $n:expr, $cp:ident, $mp:ident, $t:ident, [$($m:ident)*]) => { $( gs!(c, a, dead, $n, $cp, $mp, $t, $m); )* };
    }
    masks!(2, cptrx2, mptrx2, [i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 i128 u128], [m8 m16 m32 m64 msize m128]);
    masks!(4, cptrx4, mptrx4, [i8 u8 i16 u16 i32 u32 i64 u64 f32 f64 i128 u128], [m8 m16 m32 m64 msize m128]);
    masks!(8, cptrx8, mptrx8, [i8 u8 i16 u16 i32 u32 i64 u64 f32 f64], [m8 m16 m32 m64 msize]);
    c.finish()
}
