//! vmon: run-time monitors for packed_simd.
//!
//! The workload calls the real library through small "glue" functions (one per type and operation) on
//! byte buffers; an independent scalar oracle working on raw lane bit patterns judges every observed
//! result. Nothing of packed_simd is used to prepare inputs or to read results.
#![allow(clippy::all)]

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use packed_simd;

#[macro_use]
pub mod types;
#[macro_use]
pub mod pairs;
pub mod flt;

// ---------------------------------------------------------------------------------------------
// lane kinds
// ---------------------------------------------------------------------------------------------
#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    I(u32),
    U(u32),
    F(u32),
    M(u32),
}
impl K {
    pub const fn bits(self) -> u32 {
        match self {
            K::I(b) | K::U(b) | K::F(b) | K::M(b) => b,
        }
    }
    pub const fn bytes(self) -> usize {
        (self.bits() / 8) as usize
    }
    pub const fn mask(self) -> u128 {
        ones(self.bits())
    }
    pub fn signed(self) -> bool {
        matches!(self, K::I(_) | K::M(_))
    }
    /// numeric value of an integer lane as i128 (u128 values wrap, only the 128-bit unsigned kind is affected)
    pub fn sval(self, x: u128) -> i128 {
        let b = self.bits();
        if b == 128 {
            return x as i128;
        }
        if self.signed() && (x >> (b - 1)) & 1 == 1 {
            (x | !ones(b)) as i128
        } else {
            x as i128
        }
    }
    pub fn min_bits(self) -> u128 {
        match self {
            K::I(b) | K::M(b) => 1u128 << (b - 1),
            _ => 0,
        }
    }
    pub fn max_bits(self) -> u128 {
        match self {
            K::I(b) | K::M(b) => ones(b) >> 1,
            K::U(b) => ones(b),
            _ => 0,
        }
    }
    /// integer comparison by value
    pub fn lt(self, a: u128, b: u128) -> bool {
        match self {
            K::U(_) => a < b,
            K::I(_) => self.sval(a) < self.sval(b),
            // masks: false < true
            K::M(_) => (a != 0) < (b != 0),
            K::F(32) => f32::from_bits(a as u32) < f32::from_bits(b as u32),
            K::F(_) => f64::from_bits(a as u64) < f64::from_bits(b as u64),
        }
    }
    pub fn eq(self, a: u128, b: u128) -> bool {
        match self {
            K::F(32) => f32::from_bits(a as u32) == f32::from_bits(b as u32),
            K::F(_) => f64::from_bits(a as u64) == f64::from_bits(b as u64),
            _ => a == b,
        }
    }
    pub fn is_nan(self, a: u128) -> bool {
        match self {
            K::F(32) => f32::from_bits(a as u32).is_nan(),
            K::F(_) => f64::from_bits(a as u64).is_nan(),
            _ => false,
        }
    }
    pub fn is_snan(self, a: u128) -> bool {
        match self {
            K::F(32) => self.is_nan(a) && a & (1 << 22) == 0,
            K::F(_) => self.is_nan(a) && a & (1 << 51) == 0,
            _ => false,
        }
    }
    pub fn to_f64(self, a: u128) -> f64 {
        match self {
            K::F(32) => f32::from_bits(a as u32) as f64,
            K::F(_) => f64::from_bits(a as u64),
            _ => self.sval(a) as f64,
        }
    }
    pub fn show(self, a: u128) -> String {
        match self {
            K::F(32) => format!("{:e}[{:08x}]", f32::from_bits(a as u32), a as u32),
            K::F(_) => format!("{:e}[{:016x}]", f64::from_bits(a as u64), a as u64),
            K::U(_) => format!("{}", a),
            K::I(_) => format!("{}", self.sval(a)),
            K::M(_) => {
                if a == 0 {
                    "F".into()
                } else if a == self.mask() {
                    "T".into()
                } else {
                    format!("mask#{:x}", a)
                }
            }
        }
    }
}
pub const fn ones(b: u32) -> u128 {
    if b >= 128 {
        !0
    } else {
        (1u128 << b) - 1
    }
}

/// Shape of an operand or result.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum S {
    N,
    /// vector of n lanes
    V(K, usize),
    /// one scalar of that kind
    S(K),
}
impl S {
    pub fn k(self) -> K {
        match self {
            S::V(k, _) | S::S(k) => k,
            S::N => K::U(8),
        }
    }
    pub fn n(self) -> usize {
        match self {
            S::V(_, n) => n,
            S::S(_) => 1,
            S::N => 0,
        }
    }
}
pub type F = unsafe fn(*const u8, *const u8, *const u8, *mut u8);

pub struct Op {
    pub ty: &'static str,
    pub op: &'static str,
    pub ins: [S; 3],
    pub out: S,
    pub f: F,
}

/// Glue: read operands of the given Rust types from raw memory, evaluate, store the result raw.
#[macro_export]
macro_rules! glue {
    (|| -> $O:ty $e:block) => {{
        #[allow(unused_unsafe)]
        unsafe fn g(_a: *const u8, _b: *const u8, _c: *const u8, o: *mut u8) {
            let r: $O = $e;
            (o as *mut $O).write_unaligned(r)
        }
        g as $crate::F
    }};
    (|$a:ident : $A:ty| -> $O:ty $e:block) => {{
        #[allow(unused_unsafe, unused_mut)]
        unsafe fn g(a: *const u8, _b: *const u8, _c: *const u8, o: *mut u8) {
            let mut $a: $A = (a as *const $A).read_unaligned();
            let r: $O = $e;
            (o as *mut $O).write_unaligned(r)
        }
        g as $crate::F
    }};
    (|$a:ident : $A:ty, $b:ident : $B:ty| -> $O:ty $e:block) => {{
        #[allow(unused_unsafe, unused_mut)]
        unsafe fn g(a: *const u8, b: *const u8, _c: *const u8, o: *mut u8) {
            let mut $a: $A = (a as *const $A).read_unaligned();
            let mut $b: $B = (b as *const $B).read_unaligned();
            let r: $O = $e;
            (o as *mut $O).write_unaligned(r)
        }
        g as $crate::F
    }};
    (|$a:ident : $A:ty, $b:ident : $B:ty, $c:ident : $C:ty| -> $O:ty $e:block) => {{
        #[allow(unused_unsafe, unused_mut)]
        unsafe fn g(a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
            let mut $a: $A = (a as *const $A).read_unaligned();
            let mut $b: $B = (b as *const $B).read_unaligned();
            let mut $c: $C = (c as *const $C).read_unaligned();
            let r: $O = $e;
            (o as *mut $O).write_unaligned(r)
        }
        g as $crate::F
    }};
}

// ---------------------------------------------------------------------------------------------
// RNG (splitmix64 / xoshiro-like), hashing
// ---------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    pub fn bool(&mut self) -> bool {
        self.next() >> 63 == 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn fnv(data: &[u8], mut h: u64) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
fn mixhash(data: &[u8], mut h: u64) -> u64 {
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(a)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    fnv(it.remainder(), h)
}
pub const FNV0: u64 = 0xcbf29ce484222325;

// ---------------------------------------------------------------------------------------------
// Buffers and lanes
// ---------------------------------------------------------------------------------------------
#[repr(C, align(64))]
#[derive(Clone)]
pub struct Buf(pub [u8; 320]);
impl Buf {
    pub fn new(fill: u8) -> Self {
        Buf([fill; 320])
    }
}
#[inline]
pub fn put(buf: &mut [u8], k: K, i: usize, v: u128) {
    let n = k.bytes();
    buf[i * n..(i + 1) * n].copy_from_slice(&v.to_le_bytes()[..n]);
}
#[inline]
pub fn get(buf: &[u8], k: K, i: usize) -> u128 {
    let n = k.bytes();
    let mut a = [0u8; 16];
    a[..n].copy_from_slice(&buf[i * n..(i + 1) * n]);
    u128::from_le_bytes(a)
}
pub fn show_lanes(k: K, l: &[u128]) -> String {
    let mut s = String::from("[");
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&k.show(*x));
    }
    s.push(']');
    s
}

// ---------------------------------------------------------------------------------------------
// Value pools
// ---------------------------------------------------------------------------------------------
pub fn int_core(bits: u32) -> Vec<u128> {
    let m = ones(bits);
    let h = 1u128 << (bits - 1);
    let half = ones(bits / 2);
    let mut v = vec![
        0, 1, 2, 3, 5, 7, 10, m, m - 1, m - 2, h, h + 1, h - 1, h - 2, h + 2, half, half + 1, m ^ half, 0x55 & m,
    ];
    let mut a5: u128 = 0;
    let mut c3: u128 = 0;
    for i in 0..16 {
        a5 |= 0xA5 << (8 * i);
        c3 |= 0x33 << (8 * i);
    }
    v.push(a5 & m);
    v.push(c3 & m);
    v.push(!a5 & m);
    v.push(0x0123456789abcdef0f1e2d3c4b5a6978u128 & m);
    v.push(1u128 << (bits / 2));
    v.sort();
    v.dedup();
    v
}
pub fn int_ext(bits: u32) -> Vec<u128> {
    let m = ones(bits);
    let mut v = int_core(bits);
    for i in 0..bits {
        let p = 1u128 << i;
        v.extend_from_slice(&[p, p.wrapping_sub(1) & m, p.wrapping_add(1) & m, !p & m, p.wrapping_neg() & m, (m << i) & m]);
    }
    for i in 0..=20u128 {
        v.push(i & m);
        v.push(i.wrapping_neg() & m);
    }
    v.sort();
    v.dedup();
    v
}
pub fn f_core(bits: u32) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    if bits == 32 {
        let p: &[f32] = &[
            0.0, 1.0, 0.5, 1.5, 2.0, 3.0, 2.5, 0.1, 10.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 1.0 + f32::EPSILON,
            1.0 - f32::EPSILON / 2.0, 16777216.0, 8388607.5, 1e-30, 3.1415927, 1e20,
        ];
        for x in p {
            v.push(x.to_bits() as u128);
            v.push((-x).to_bits() as u128);
        }
        v.extend_from_slice(&[1, 0x80000001, 0x7fffff, 0x807fffff, 0x400000, 0x7fc00000, 0xffc00000, 0x7fc12345, 0x7f800001]);
    } else {
        let p: &[f64] = &[
            0.0, 1.0, 0.5, 1.5, 2.0, 3.0, 2.5, 0.1, 10.0, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, 1.0 + f64::EPSILON,
            1.0 - f64::EPSILON / 2.0, 9007199254740992.0, 4503599627370495.5, 1e-200, 3.141592653589793, 1e160,
        ];
        for x in p {
            v.push(x.to_bits() as u128);
            v.push((-x).to_bits() as u128);
        }
        v.extend_from_slice(&[
            1,
            0x8000000000000001,
            0xfffffffffffff,
            0x800fffffffffffff,
            0x8000000000000,
            0x7ff8000000000000,
            0xfff8000000000000,
            0x7ff8000012345678,
            0x7ff0000000000001,
        ]);
    }
    v.sort();
    v.dedup();
    v
}
pub fn f_ext(bits: u32) -> Vec<u128> {
    let mut v = f_core(bits);
    let mut add = |x: f64| {
        if bits == 32 {
            v.push((x as f32).to_bits() as u128);
            v.push((-x as f32).to_bits() as u128);
        } else {
            v.push(x.to_bits() as u128);
            v.push((-x).to_bits() as u128);
        }
    };
    for e in [0, 1, 2, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 52, 53, 62, 63, 64, 65, 126, 127, 128] {
        let p = 2f64.powi(e);
        for d in [0.0, 1.0, -1.0, 0.5, -0.5, 0.25, -0.25] {
            add(p + d);
        }
        add(1.0 / p);
        add(p * (1.0 + f64::EPSILON));
        add(p * (1.0 - f64::EPSILON / 2.0));
        add(p * (1.0 + f32::EPSILON as f64));
        add(p * (1.0 - f32::EPSILON as f64 / 2.0));
    }
    for i in 0..20 {
        add(i as f64);
        add(i as f64 + 0.5);
        add(i as f64 * 0.3);
    }
    // neighbourhood of the f64 -> f32 limits
    for x in [f32::MAX as f64, f32::MIN_POSITIVE as f64, 1.401298464324817e-45, 7.006492321624085e-46, 3.4028235677973366e38] {
        add(x);
        add(f64::from_bits(x.to_bits() + 1));
        add(f64::from_bits(x.to_bits() - 1));
    }
    v.sort();
    v.dedup();
    v
}
pub fn f_rand(r: &mut Rng, bits: u32) -> u128 {
    let mode = r.below(8);
    if bits == 32 {
        (match mode {
            0 => r.next() as u32,
            1 | 2 => ((r.next() as u32) & 0x807fffff) | (((127 - 8) + r.below(16) as u32) << 23),
            3 => ((r.below(2001) as i32 - 1000) as f32).to_bits(),
            4 => ((r.below(20001) as i32 - 10000) as f32 / 128.0).to_bits(),
            5 => ((r.next() as u32) & 0x807fffff) | ((r.below(255) as u32) << 23),
            6 => (r.next() as u32) & 0x807fffff,
            _ => (((r.next() >> 11) as f64 / (1u64 << 53) as f64) as f32).to_bits(),
        }) as u128
    } else {
        (match mode {
            0 => r.next(),
            1 | 2 => (r.next() & 0x800fffffffffffff) | (((1023 - 16) + r.below(32) as u64) << 52),
            3 => ((r.below(2001) as i64 - 1000) as f64).to_bits(),
            4 => ((r.below(2000001) as i64 - 1000000) as f64 / 1024.0).to_bits(),
            5 => (r.next() & 0x800fffffffffffff) | ((r.below(2047) as u64) << 52),
            6 => r.next() & 0x800fffffffffffff,
            _ => ((r.next() >> 11) as f64 / (1u64 << 53) as f64).to_bits(),
        }) as u128
    }
}
pub fn i_rand(r: &mut Rng, bits: u32) -> u128 {
    let m = ones(bits);
    let x = r.u128();
    match r.below(6) {
        0 | 1 => x & m,
        2 => x & m & ones(1 + r.below(bits as usize) as u32),
        3 => !(x & ones(1 + r.below(bits as usize) as u32)) & m,
        4 => {
            // sparse
            let y = r.u128();
            let z = r.u128();
            x & y & z & m
        }
        _ => (1u128 << r.below(bits as usize)).wrapping_add((r.below(5) as u128).wrapping_sub(2)) & m,
    }
}

/// How an operand's lanes are drawn.
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum G {
    Any,
    /// uniformly below n
    Below(u128),
    /// canonical mask lanes
    Mask,
    /// only finite, "exact-friendly" floats
    Small,
    /// plus or minus a small power of two (products stay exact)
    Pow2,
    /// finite floats of moderate magnitude
    Mod,
}
pub fn fbits(k: K, x: f64) -> u128 {
    if k == K::F(32) {
        (x as f32).to_bits() as u128
    } else {
        x.to_bits() as u128
    }
}
pub struct Pools {
    pub core: Vec<u128>,
    pub ext: Vec<u128>,
}
pub fn pools(k: K, g: G) -> Pools {
    match g {
        G::Any => match k {
            K::I(b) | K::U(b) => Pools { core: int_core(b), ext: int_ext(b) },
            K::F(b) => Pools { core: f_core(b), ext: f_ext(b) },
            K::M(b) => Pools { core: vec![0, ones(b)], ext: vec![0, ones(b)] },
        },
        G::Mask => Pools { core: vec![0, k.mask()], ext: vec![0, k.mask()] },
        G::Below(n) => {
            let v: Vec<u128> = if n <= 160 {
                (0..n).collect()
            } else {
                let mut v: Vec<u128> = (0..40).collect();
                v.extend((n - 40)..n);
                v
            };
            Pools { core: v.clone(), ext: v }
        }
        G::Pow2 | G::Mod => {
            let mut v = vec![];
            for i in -3..=3i32 {
                for s in [1.0, -1.0] {
                    v.push(fbits(k, s * 2f64.powi(i)));
                }
            }
            Pools { core: v.clone(), ext: v }
        }
        G::Small => {
            let mut v = vec![];
            for i in -16..=16i32 {
                v.push(if k == K::F(32) { (i as f32 * 0.5).to_bits() as u128 } else { (i as f64 * 0.5).to_bits() as u128 });
            }
            Pools { core: v.clone(), ext: v }
        }
    }
}
pub fn draw(r: &mut Rng, k: K, g: G) -> u128 {
    match g {
        G::Any => match k {
            K::I(b) | K::U(b) => i_rand(r, b),
            K::F(b) => f_rand(r, b),
            K::M(b) => {
                if r.bool() {
                    ones(b)
                } else {
                    0
                }
            }
        },
        G::Mask => {
            if r.bool() {
                k.mask()
            } else {
                0
            }
        }
        G::Below(n) => {
            if n <= u64::MAX as u128 {
                r.next() as u128 % n
            } else {
                r.u128() % n
            }
        }
        G::Pow2 => {
            let e = r.below(7) as i32 - 3;
            fbits(k, if r.bool() { 2f64.powi(e) } else { -2f64.powi(e) })
        }
        G::Mod => {
            let m = 1.0 + (r.next() >> 11) as f64 / (1u64 << 53) as f64;
            let e = r.below(13) as i32 - 6;
            let x = m * 2f64.powi(e);
            fbits(k, if r.bool() { x } else { -x })
        }
        G::Small => {
            let i = r.below(4097) as i64 - 2048;
            if k == K::F(32) {
                (i as f32 / 8.0).to_bits() as u128
            } else {
                (i as f64 / 8.0).to_bits() as u128
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Context: arguments, counters, violations, evidence
// ---------------------------------------------------------------------------------------------
pub struct Ctx {
    pub prop: String,
    pub cfg: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub filter: Option<String>,
    pub evals: u64,
    pub lanes: u64,
    pub distinct: u64,
    pub ops: BTreeMap<String, u64>,
    pub types: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub digests: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub nviol: u64,
    out: Option<String>,
    cur_viol: u32,
    pub rng: Rng,
}

static mut CUR_CTX: [u8; 512] = [0; 512];
static mut CUR_LEN: usize = 0;
static mut CUR_BUFS: [*const u8; 3] = [std::ptr::null(); 3];
static mut CUR_LENS: [usize; 3] = [0; 3];

/// Name what is about to be executed: the signal handler reports it if the process dies there.
pub fn set_current(s: &str) {
    unsafe {
        let b = s.as_bytes();
        let n = b.len().min(500);
        let p = std::ptr::addr_of_mut!(CUR_CTX) as *mut u8;
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
        CUR_LEN = n;
    }
}
pub fn clear_current() {
    unsafe {
        CUR_LEN = 0;
        CUR_BUFS = [std::ptr::null(); 3];
    }
}

pub mod sys {
    //! minimal libc declarations
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
    #[repr(C)]
    pub struct StackT {
        pub sp: *mut u8,
        pub flags: i32,
        pub size: usize,
    }
    extern "C" {
        pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
        pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
        pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
        pub fn munmap(addr: *mut u8, len: usize) -> i32;
        pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
        pub fn _exit(c: i32) -> !;
    }
}

unsafe fn hexdump(p: *const u8, n: usize) {
    const H: &[u8; 16] = b"0123456789abcdef";
    for i in 0..n {
        let b = *p.add(i);
        let o = [H[(b >> 4) as usize], H[(b & 15) as usize]];
        sys::write(2, o.as_ptr(), 2);
    }
}
unsafe extern "C" fn on_signal(sig: i32, _info: *mut u8, _uc: *mut u8) {
    let n = CUR_LEN;
    if n == 0 {
        // not inside a monitored call: harness failure, not an observation
        let m = b"HARNESS-CRASH\n";
        sys::write(2, m.as_ptr(), m.len());
        sys::_exit(70);
    }
    let m = b"\nCRASH signal=";
    sys::write(2, m.as_ptr(), m.len());
    let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8, b' '];
    sys::write(2, d.as_ptr(), 3);
    sys::write(2, std::ptr::addr_of!(CUR_CTX) as *const u8, n);
    for i in 0..3 {
        if !CUR_BUFS[i].is_null() {
            let m = b" in=";
            sys::write(2, m.as_ptr(), m.len());
            hexdump(CUR_BUFS[i], CUR_LENS[i]);
        }
    }
    sys::write(2, b"\n".as_ptr(), 1);
    sys::_exit(77);
}
pub fn install_handlers() {
    unsafe {
        let st = Box::leak(vec![0u8; 65536].into_boxed_slice());
        let ss = sys::StackT { sp: st.as_mut_ptr(), flags: 0, size: st.len() };
        sys::sigaltstack(&ss, std::ptr::null_mut());
        for s in [4, 6, 7, 8, 11] {
            // ILL ABRT BUS FPE SEGV, SA_SIGINFO|SA_ONSTACK
            if cfg!(vmon_asan) && (s == 11 || s == 6 || s == 7) {
                continue;
            }
            let a = sys::SigAction { handler: on_signal as usize, mask: [0; 16], flags: 4 | 0x08000000, restorer: 0 };
            sys::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn from_args(prop: &str) -> Ctx {
        let mut c = Ctx {
            prop: prop.into(),
            cfg: "?".into(),
            seed: 1,
            thorough: false,
            scale: 1.0,
            filter: None,
            evals: 0,
            lanes: 0,
            distinct: 0,
            ops: BTreeMap::new(),
            types: BTreeMap::new(),
            extra: BTreeMap::new(),
            digests: vec![],
            samples: vec![],
            violations: vec![],
            nviol: 0,
            out: None,
            cur_viol: 0,
            rng: Rng(1),
        };
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i + 1 < a.len() + 1 && i < a.len() {
            let v = a.get(i + 1).cloned().unwrap_or_default();
            match a[i].as_str() {
                "--seed" => c.seed = v.parse().unwrap(),
                "--cfg" => c.cfg = v,
                "--tier" => c.thorough = v == "thorough",
                "--scale" => c.scale = v.parse().unwrap(),
                "--filter" => c.filter = Some(v),
                "--out" => c.out = Some(v),
                x => panic!("unknown argument {}", x),
            }
            i += 2;
        }
        check_cpu();
        std::panic::set_hook(Box::new(|_| {}));
        install_handlers();
        c
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let b = if self.thorough { thorough } else { quick };
        ((b as f64 * self.scale).ceil() as usize).max(1)
    }
    /// Enters the monitor for (ty, op); false if filtered out.
    pub fn enter(&mut self, ty: &str, op: &str) -> bool {
        if let Some(f) = &self.filter {
            let full = format!("{} {}", ty, op);
            if full != *f && ty != f && op != f {
                return false;
            }
        }
        self.cur_viol = 0;
        self.rng = Rng(fnv(op.as_bytes(), fnv(ty.as_bytes(), FNV0)) ^ self.seed.wrapping_mul(0x2545F4914F6CDD1D));
        for _ in 0..3 {
            self.rng.next();
        }
        set_current(&format!("{} {}", ty, op));
        true
    }
    pub fn leave(&mut self, ty: &str, op: &str, evals: u64, distinct: u64) {
        clear_current();
        self.evals += evals;
        self.distinct += distinct;
        *self.ops.entry(op.to_string()).or_insert(0) += evals;
        *self.types.entry(ty.to_string()).or_insert(0) += evals;
    }
    pub fn violation(&mut self, ty: &str, op: &str, what: String) {
        self.nviol += 1;
        self.cur_viol += 1;
        if self.cur_viol <= 3 && self.violations.len() < 200 {
            eprintln!("MISMATCH cfg={} {} {}: {}", self.cfg, ty, op, what);
            self.violations.push(format!("{} {}: {}", ty, op, what));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 40 {
            let x = s();
            self.samples.push(x);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn finish(self) -> ! {
        clear_current();
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\"prop\":{},\"cfg\":{},\"seed\":{},\"evals\":{},\"lanes\":{},\"distinct\":{},\"nviol\":{}",
            jstr(&self.prop),
            jstr(&self.cfg),
            self.seed,
            self.evals,
            self.lanes,
            self.distinct,
            self.nviol
        );
        for (name, m) in [("ops", &self.ops), ("types", &self.types), ("extra", &self.extra)] {
            let _ = write!(s, ",\"{}\":{{", name);
            for (i, (k, v)) in m.iter().enumerate() {
                let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v);
            }
            s.push('}');
        }
        for (name, m) in [("samples", &self.samples), ("violations", &self.violations)] {
            let _ = write!(s, ",\"{}\":[", name);
            for (i, v) in m.iter().enumerate() {
                let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, jstr(v));
            }
            s.push(']');
        }
        s.push_str(",\"digests\":{");
        for (i, (k, v)) in self.digests.iter().enumerate() {
            let _ = write!(s, "{}{}:\"{:016x}\"", if i > 0 { "," } else { "" }, jstr(k), v);
        }
        s.push_str("}}\n");
        if let Some(o) = &self.out {
            std::fs::write(o, &s).expect("write result");
        } else {
            print!("{}", s);
        }
        std::process::exit(if self.nviol > 0 { 1 } else { 0 })
    }
}

fn check_cpu() {
    macro_rules! need { ($($f:tt),*) => { $( if cfg!(target_feature=$f) && !std::is_x86_feature_detected!($f) { eprintln!("SKIP: cpu lacks {}", $f); std::process::exit(78); } )* } }
    need!("ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2", "fma", "bmi1", "bmi2", "lzcnt", "avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd");
}

// ---------------------------------------------------------------------------------------------
// The monitor driver
// ---------------------------------------------------------------------------------------------
pub type Lanes = [u128; 128];

/// What a monitor knows about one observed call.
pub struct Obs<'a> {
    pub ins: [&'a [u128]; 3],
    pub out: &'a [u128],
    pub raw: &'a [u8],
}
pub struct Spec<'a> {
    pub g: [G; 3],
    /// is the operation defined on this lane tuple?
    pub valid: Option<&'a dyn Fn([u128; 3]) -> bool>,
    /// verdict on one observed call
    pub check: &'a dyn Fn(&Obs) -> Result<(), String>,
    /// relative workload size
    pub weight: f64,
}

/// lane-level expectation
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum X {
    Eq(u128),
    Nan,
    Either(u128, u128),
    EqOrNan(u128),
    /// |got - want| <= ulps of want (floats)
    Ulp(f64, f64),
    Any,
}
impl X {
    pub fn ok(&self, k: K, got: u128) -> bool {
        match *self {
            X::Eq(w) => got == w,
            X::Nan => k.is_nan(got),
            X::Either(a, b) => got == a || got == b,
            X::EqOrNan(a) => got == a || k.is_nan(got),
            X::Ulp(w, tol) => flt::close(k, got, w, tol),
            X::Any => true,
        }
    }
    pub fn show(&self, k: K) -> String {
        match *self {
            X::Eq(w) => k.show(w),
            X::Nan => "NaN".into(),
            X::Either(a, b) => format!("{} or {}", k.show(a), k.show(b)),
            X::EqOrNan(a) => format!("{} or NaN", k.show(a)),
            X::Ulp(w, t) => format!("{:e} +- {} ulp", w, t),
            X::Any => "anything".into(),
        }
    }
}
/// Canonical expectation from a float result's bits.
pub fn fx(k: K, bits: u128) -> X {
    if k.is_nan(bits) {
        X::Nan
    } else {
        X::Eq(bits)
    }
}

/// Builds a whole-call check out of a per-lane oracle.
pub fn lanewise<'a>(ok: K, o: &'a dyn Fn([u128; 3]) -> X) -> impl Fn(&Obs) -> Result<(), String> + 'a {
    move |ob: &Obs| {
        for i in 0..ob.out.len() {
            let mut t = [0u128; 3];
            for j in 0..3 {
                let l = ob.ins[j];
                t[j] = match l.len() {
                    0 => 0,
                    1 => l[0],
                    _ => l[i],
                };
            }
            let x = o(t);
            if !x.ok(ok, ob.out[i]) {
                return Err(format!("lane {}: got {}, want {}", i, ok.show(ob.out[i]), x.show(ok)));
            }
        }
        Ok(())
    }
}

struct Runner<'a> {
    op: &'a Op,
    spec: &'a Spec<'a>,
    ins: [Buf; 3],
    out: Buf,
    lanes: [Lanes; 3],
    olanes: Lanes,
    seen: Vec<u64>,
    evals: u64,
    digest: u64,
}

impl<'a> Runner<'a> {
    fn dump(&self) -> String {
        let mut s = String::new();
        for j in 0..3 {
            let sh = self.op.ins[j];
            if sh == S::N {
                continue;
            }
            let _ = write!(s, "{}={} ", ["a", "b", "c"][j], show_lanes(sh.k(), &self.lanes[j][..sh.n()]));
        }
        s
    }
    /// executes the call on the prepared lanes and judges it
    fn exec(&mut self, c: &mut Ctx) {
        let op = self.op;
        let mut h = FNV0;
        for j in 0..3 {
            let sh = op.ins[j];
            if sh == S::N {
                continue;
            }
            let k = sh.k();
            let n = sh.n();
            for i in 0..n {
                put(&mut self.ins[j].0, k, i, self.lanes[j][i]);
            }
            let nb = n * k.bytes();
            h = mixhash(&self.ins[j].0[..nb], h ^ j as u64);
        }
        let ok = op.out.k();
        let on = op.out.n();
        let ob = on * ok.bytes();
        for b in self.out.0[..ob + 32].iter_mut() {
            *b = 0xC9;
        }
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            (op.f)(self.ins[0].0.as_ptr(), self.ins[1].0.as_ptr(), self.ins[2].0.as_ptr(), self.out.0.as_mut_ptr())
        }));
        self.evals += 1;
        self.seen.push(h);
        if r.is_err() {
            let d = self.dump();
            c.violation(op.ty, op.op, format!("unexpected panic; {}", d));
            return;
        }
        if self.out.0[ob..ob + 32].iter().any(|b| *b != 0xC9) {
            let d = self.dump();
            c.violation(op.ty, op.op, format!("result occupies more than {} bytes; {}", ob, d));
            return;
        }
        for i in 0..on {
            self.olanes[i] = get(&self.out.0, ok, i);
        }
        for i in 0..on {
            let x = self.olanes[i];
            let x = if ok.is_nan(x) { u128::MAX } else { x };
            self.digest = (self.digest ^ x as u64 ^ (x >> 64) as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        }
        let obs = Obs {
            ins: [
                &self.lanes[0][..op.ins[0].n()],
                &self.lanes[1][..op.ins[1].n()],
                &self.lanes[2][..op.ins[2].n()],
            ],
            out: &self.olanes[..on],
            raw: &self.out.0[..ob],
        };
        c.lanes += on as u64;
        if let Err(e) = (self.spec.check)(&obs) {
            let d = self.dump();
            let o = show_lanes(ok, &self.olanes[..on]);
            c.violation(op.ty, op.op, format!("{}; {}-> {}", e, d, o));
        }
    }
    fn lane_ok(&self, t: [u128; 3]) -> bool {
        match self.spec.valid {
            Some(v) => v(t),
            None => true,
        }
    }
}

/// Runs the workload for one operation of one type under its monitor.
pub fn run(c: &mut Ctx, op: &Op, spec: &Spec) {
    run_extra(c, op, spec, &mut |_, _, _| false)
}
/// As `run`, plus explicit cases: `extra(i, rng, lanes)` fills the operands for i = 0, 1, .. until it returns false.
pub fn run_extra(c: &mut Ctx, op: &Op, spec: &Spec, extra: &mut dyn FnMut(usize, &mut Rng, &mut [Lanes; 3]) -> bool) {
    if !c.enter(op.ty, op.op) {
        return;
    }
    let mut rng = c.rng.clone();
    let mut r = Runner {
        op,
        spec,
        ins: [Buf::new(0), Buf::new(0), Buf::new(0)],
        out: Buf::new(0),
        lanes: [[0; 128]; 3],
        olanes: [0; 128],
        seen: vec![],
        evals: 0,
        digest: FNV0,
    };
    unsafe {
        for j in 0..3 {
            CUR_BUFS[j] = if op.ins[j] == S::N { std::ptr::null() } else { r.ins[j].0.as_ptr() };
            CUR_LENS[j] = op.ins[j].n() * op.ins[j].k().bytes();
        }
    }
    let ar = op.ins.iter().filter(|s| **s != S::N).count();
    let w = spec.weight;
    let pl: Vec<Pools> = (0..3).map(|j| if op.ins[j] == S::N { Pools { core: vec![0], ext: vec![0] } } else { pools(op.ins[j].k(), spec.g[j]) }).collect();
    let n = op.ins.iter().map(|s| if let S::V(_, n) = s { *n } else { 0 }).max().unwrap();
    let has_scalar = op.ins.iter().any(|s| matches!(s, S::S(_)));
    let pick = |rng: &mut Rng, j: usize| -> u128 {
        let sh = op.ins[j];
        if sh == S::N {
            return 0;
        }
        let z = rng.below(4);
        if z == 0 {
            pl[j].core[rng.below(pl[j].core.len())]
        } else if z == 1 {
            pl[j].ext[rng.below(pl[j].ext.len())]
        } else {
            draw(rng, sh.k(), spec.g[j])
        }
    };

    // Phase A: grid of tuples of interesting values, spread over the lanes
    if ar > 0 && n > 0 && !has_scalar && w >= 0.2 {
        let mut tuples: Vec<[u128; 3]> = vec![];
        let max_tuples = c.n(6000, 120_000).max(200);
        if ar == 1 {
            let sh = op.ins[0];
            let full = sh.k().bits() <= 16 && spec.g[0] == G::Any && !matches!(sh.k(), K::M(_));
            if full && (sh.k().bits() == 8 || c.scale >= 1.0) {
                for x in 0..=ones(sh.k().bits()) {
                    tuples.push([x, 0, 0]);
                }
            } else {
                for x in &pl[0].ext {
                    tuples.push([*x, 0, 0]);
                }
            }
        } else if ar == 2 {
            let b = op.ins[0].k().bits().max(op.ins[1].k().bits());
            if b == 8 && spec.g[0] == G::Any && spec.g[1] == G::Any && !matches!(op.ins[0].k(), K::M(_)) && c.scale >= 1.0 {
                for x in 0..256u128 {
                    for y in 0..256u128 {
                        tuples.push([x, y, 0]);
                    }
                }
            } else {
                for x in &pl[0].core {
                    for y in &pl[1].core {
                        tuples.push([*x, *y, 0]);
                    }
                }
                // equal and adjacent operands
                for x in &pl[0].ext {
                    if op.ins[0].k() == op.ins[1].k() && spec.g[1] == spec.g[0] {
                        let k = op.ins[0].k();
                        tuples.push([*x, *x, 0]);
                        if spec.g[0] == G::Any && !matches!(k, K::M(_)) {
                            tuples.push([*x, x.wrapping_add(1) & k.mask(), 0]);
                            tuples.push([*x, x.wrapping_sub(1) & k.mask(), 0]);
                            tuples.push([*x, x ^ k.mask(), 0]);
                        }
                    }
                }
                rng.shuffle(&mut tuples);
                tuples.truncate(max_tuples);
            }
        } else {
            let mut count = 0;
            let lim = c.n(8000, 100_000);
            while count < lim {
                let t = [
                    pl[0].core[rng.below(pl[0].core.len())],
                    pl[1].core[rng.below(pl[1].core.len())],
                    pl[2].core[rng.below(pl[2].core.len())],
                ];
                tuples.push(t);
                count += 1;
            }
        }
        tuples.retain(|t| r.lane_ok(*t));
        // few tuples (small pools): repeat so that every tuple visits many lanes
        let passes = c.n(2, if n <= 8 { 8 } else { n.min(32) }).max(1);
        let passes = if tuples.len() < 1024 { passes.max((2048 / tuples.len().max(1)).min(2 * n).max(1)) } else { passes };
        for _ in 0..passes {
            rng.shuffle(&mut tuples);
            let mut i = 0;
            while i < tuples.len() {
                for l in 0..n {
                    let t = tuples[(i + l) % tuples.len()];
                    for j in 0..3 {
                        r.lanes[j][l] = t[j];
                    }
                }
                i += n;
                r.exec(c);
            }
        }
    }
    // Phase A': scalar operands: every interesting scalar against vectors of interesting lanes
    if has_scalar && n > 0 {
        let js = (0..3).find(|j| matches!(op.ins[*j], S::S(_))).unwrap();
        let mut sv = pl[js].ext.clone();
        rng.shuffle(&mut sv);
        sv.truncate(c.n(120, 2000));
        for s in sv {
            let reps = c.n(3, 24);
            for _ in 0..reps {
                fill(&mut r, &mut rng, &pick, n, Some((js, s)), c);
            }
        }
    }
    // Phase B: random lanes
    let nb = (c.n(400, 20_000) as f64 * w).ceil() as usize;
    for _ in 0..nb {
        fill(&mut r, &mut rng, &pick, n.max(1), None, c);
    }
    // Phase C: uniform vectors with a single deviating lane, at every position
    if ar > 0 && n > 1 {
        let reps = c.n(2, 40);
        for _ in 0..reps {
            for lane in 0..n {
                let base = valid_tuple(&r, &mut rng, &pick);
                let dev = valid_tuple(&r, &mut rng, &pick);
                let (base, dev) = match (base, dev) {
                    (Some(b), Some(d)) => (b, d),
                    _ => continue,
                };
                let mut ok = true;
                for j in 0..3 {
                    for l in 0..n {
                        r.lanes[j][l] = if l == lane && !matches!(op.ins[j], S::S(_)) { dev[j] } else { base[j] };
                    }
                }
                for l in 0..n {
                    let t = lane_tuple(&r, l);
                    ok &= r.lane_ok(t);
                }
                if ok {
                    r.exec(c);
                }
            }
        }
    }
    // Phase D: mask-like operands: exhaustive or structured patterns
    for j in 0..3 {
        let (k, nn) = match op.ins[j] {
            S::V(k, nn) if spec.g[j] == G::Mask || (matches!(k, K::M(_)) && spec.g[j] == G::Any) => (k, nn),
            _ => continue,
        };
        let pats = mask_patterns(nn, &mut rng, c.n(1 << 12, 1 << 16), c.n(300, 20_000));
        for p in pats {
            for l in 0..nn {
                r.lanes[j][l] = if (p >> l) & 1 == 1 { k.mask() } else { 0 };
            }
            for jj in 0..3 {
                if jj != j && op.ins[jj] != S::N {
                    for l in 0..op.ins[jj].n() {
                        r.lanes[jj][l] = pick(&mut rng, jj);
                    }
                }
            }
            let ok = (0..n).all(|l| r.lane_ok(lane_tuple(&r, l)));
            if ok {
                r.exec(c);
            }
        }
    }
    let mut i = 0;
    while extra(i, &mut rng, &mut r.lanes) {
        r.exec(c);
        i += 1;
    }
    let evals = r.evals;
    let mut seen = std::mem::take(&mut r.seen);
    seen.sort_unstable();
    seen.dedup();
    let d = seen.len() as u64;
    for j in 0..3 {
        for i in 0..op.ins[j].n() {
            r.lanes[j][i] = get(&r.ins[j].0, op.ins[j].k(), i);
        }
    }
    let sm = r.dump();
    let so = show_lanes(op.out.k(), &r.olanes[..op.out.n()]);
    let dig = r.digest;
    if rng.below(24) == 0 || c.samples.is_empty() {
        c.sample(|| format!("{} {}: {}-> {}", op.ty, op.op, sm, so));
    }
    c.digests.push((format!("{} {}", op.ty, op.op), dig));
    c.leave(op.ty, op.op, evals, d);
}
fn lane_tuple(r: &Runner, l: usize) -> [u128; 3] {
    let mut t = [0; 3];
    for j in 0..3 {
        t[j] = match r.op.ins[j] {
            S::N => 0,
            S::S(_) => r.lanes[j][0],
            S::V(_, _) => r.lanes[j][l],
        };
    }
    t
}
fn valid_tuple(r: &Runner, rng: &mut Rng, pick: &dyn Fn(&mut Rng, usize) -> u128) -> Option<[u128; 3]> {
    for _ in 0..50 {
        let t = [pick(rng, 0), pick(rng, 1), pick(rng, 2)];
        if r.lane_ok(t) {
            return Some(t);
        }
    }
    None
}
fn fill(r: &mut Runner, rng: &mut Rng, pick: &dyn Fn(&mut Rng, usize) -> u128, n: usize, fixed: Option<(usize, u128)>, c: &mut Ctx) {
    for j in 0..3 {
        if let S::S(_) = r.op.ins[j] {
            r.lanes[j][0] = match fixed {
                Some((jj, s)) if jj == j => s,
                _ => pick(rng, j),
            };
        }
    }
    for l in 0..n {
        let mut ok = false;
        for _ in 0..40 {
            let mut t = [0; 3];
            for j in 0..3 {
                t[j] = match r.op.ins[j] {
                    S::N => 0,
                    S::S(_) => r.lanes[j][0],
                    S::V(_, _) => pick(rng, j),
                };
            }
            if r.lane_ok(t) {
                for j in 0..3 {
                    if let S::V(_, _) = r.op.ins[j] {
                        r.lanes[j][l] = t[j];
                    }
                }
                ok = true;
                break;
            }
        }
        if !ok {
            return;
        }
    }
    r.exec(c);
}

/// Lane patterns for n-lane masks: exhaustive when 2^n <= lim, otherwise structured plus random ones.
pub fn mask_patterns(n: usize, rng: &mut Rng, lim: usize, nrand: usize) -> Vec<u64> {
    let full: u64 = if n == 64 { !0 } else { (1u64 << n) - 1 };
    if n < 20 && (1usize << n) <= lim {
        return (0..(1u64 << n)).collect();
    }
    let mut v = vec![0, full];
    for i in 0..n {
        v.push(1 << i);
        v.push(full & !(1 << i));
        v.push(full >> i);
        v.push((full << i) & full);
        for j in 0..i {
            v.push(1 << i | 1 << j);
            v.push(full & !(1 << i | 1 << j));
        }
    }
    for b in [2usize, 4, 8, 16, 32] {
        if b < n {
            let mut p = 0u64;
            for i in 0..n {
                if (i / b) % 2 == 0 {
                    p |= 1 << i;
                }
            }
            v.push(p);
            v.push(full & !p);
            // one block only
            for s in 0..n / b {
                let blk = (((1u128 << b) - 1) as u64) << (s * b);
                v.push(blk & full);
                v.push(full & !blk);
            }
        }
    }
    v.push(0x5555555555555555 & full);
    v.push(0xAAAAAAAAAAAAAAAA & full);
    for _ in 0..nrand {
        let a = rng.next();
        let b = rng.next();
        let d = rng.next();
        v.push(match rng.below(4) {
            0 => a,
            1 => a & b,
            2 => a | b,
            _ => a & b & d,
        } & full);
    }
    v.sort();
    v.dedup();
    v
}

/// Shorthand constructors
pub fn op1(ty: &'static str, op: &'static str, a: S, out: S, f: F) -> Op {
    Op { ty, op, ins: [a, S::N, S::N], out, f }
}
pub fn op2(ty: &'static str, op: &'static str, a: S, b: S, out: S, f: F) -> Op {
    Op { ty, op, ins: [a, b, S::N], out, f }
}
pub fn op3(ty: &'static str, op: &'static str, a: S, b: S, d: S, out: S, f: F) -> Op {
    Op { ty, op, ins: [a, b, d], out, f }
}
pub fn lw(c: &mut Ctx, op: Op, g: [G; 3], valid: Option<&dyn Fn([u128; 3]) -> bool>, o: &dyn Fn([u128; 3]) -> X) {
    let chk = lanewise(op.out.k(), o);
    run(c, &op, &Spec { g, valid, check: &chk, weight: 1.0 });
}
pub const ANY: [G; 3] = [G::Any; 3];

/// whole-call check
pub fn wh(c: &mut Ctx, op: Op, g: [G; 3], check: &dyn Fn(&Obs) -> Result<(), String>) {
    run(c, &op, &Spec { g, valid: None, check, weight: 1.0 });
}
/// true if f panics
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
pub fn as_bytes<T>(x: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
}

/// Two accessible pages between two inaccessible ones.
pub struct Arena {
    pub base: *mut u8,
    pub len: usize,
}
pub const PAGE: usize = 4096;
impl Arena {
    pub fn new(pages: usize) -> Arena {
        unsafe {
            let tot = (pages + 2) * PAGE;
            let p = sys::mmap(std::ptr::null_mut(), tot, 0, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            assert_eq!(sys::mprotect(p.add(PAGE), pages * PAGE, 3), 0);
            Arena { base: p.add(PAGE), len: pages * PAGE }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    pub fn end(&self) -> *mut u8 {
        unsafe { self.base.add(self.len) }
    }
    pub fn protect(&self, prot: i32) {
        unsafe { assert_eq!(sys::mprotect(self.base, self.len, prot), 0) }
    }
}

pub fn std_hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(0x1234, 0x5678);
    x.hash(&mut h);
    h.finish()
}
