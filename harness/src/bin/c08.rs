//! C08: construction, lane access, array conversion
use packed_simd::*;
use vmon::*;

fn same(o: &Obs) -> Result<(), String> {
    if o.ins[0] == o.out {
        Ok(())
    } else {
        Err("lanes differ from the input".into())
    }
}
fn bools(b: u32) -> impl Fn(&Obs) -> Result<(), String> {
    // bool in, mask lanes out
    move |o: &Obs| {
        for i in 0..o.out.len() {
            let w = if o.ins[0][if o.ins[0].len() == 1 { 0 } else { i }] != 0 { ones(b) } else { 0 };
            if o.out[i] != w {
                return Err(format!("lane {} got {:#x} want {:#x}", i, o.out[i], w));
            }
        }
        Ok(())
    }
}
fn splat(o: &Obs) -> Result<(), String> {
    if o.out.iter().all(|x| *x == o.ins[0][0]) {
        Ok(())
    } else {
        Err("lane differs from the splat value".into())
    }
}
fn extract(o: &Obs) -> Result<(), String> {
    if o.out[0] == o.ins[0][o.ins[1][0] as usize] {
        Ok(())
    } else {
        Err(format!("wrong lane value for index {}", o.ins[1][0]))
    }
}
fn extract_bool(o: &Obs) -> Result<(), String> {
    if o.out[0] == (o.ins[0][o.ins[1][0] as usize] != 0) as u128 {
        Ok(())
    } else {
        Err(format!("wrong lane value for index {}", o.ins[1][0]))
    }
}
/// output: new vector then the original
fn replace(o: &Obs, val: u128) -> Result<(), String> {
    let n = o.ins[0].len();
    let i = o.ins[1][0] as usize;
    for l in 0..n {
        let w = if l == i { val } else { o.ins[0][l] };
        if o.out[l] != w {
            return Err(format!("replace({}): lane {} wrong", i, l));
        }
        if o.out[n + l] != o.ins[0][l] {
            return Err(format!("replace({}): original lane {} modified", i, l));
        }
    }
    Ok(())
}
const IX: [G; 3] = [G::Any, G::Any, G::Any];

/// out-of-range indices must panic
fn oob(c: &mut Ctx, ty: &str, op: &str, n: usize, f: &dyn Fn(usize)) {
    if !c.enter(ty, op) {
        return;
    }
    let mut v: Vec<usize> = vec![
        n, n + 1, n + 2, 2 * n, 3 * n, 15 * n, 64, 127, 128, 255, 256, 256 + n - 1, 257, 65535, 65536, 65536 + n - 1, 1 << 31, (1 << 31) + 1, u32::MAX as usize, 1 << 32, (1 << 32) + 1,
        (1 << 32) + n - 1, 1 << 33, 1 << 63, usize::MAX, usize::MAX - 1, isize::MAX as usize, usize::MAX - n + 1,
    ];
    let mut r = c.rng.clone();
    for _ in 0..c.n(64, 2000) {
        let x = r.next() as usize >> r.below(60);
        v.push(x);
    }
    v.retain(|i| *i >= n);
    v.sort();
    v.dedup();
    for i in &v {
        if !panics(|| f(std::hint::black_box(*i))) {
            c.violation(ty, op, format!("index {} (lanes {}) did not panic", i, n));
        }
    }
    c.count("out_of_range_indices_tried", v.len() as u64);
    c.sample(|| format!("{} {}: {} out-of-range indices, all panicked", ty, op, v.len()));
    c.leave(ty, op, v.len() as u64, v.len() as u64);
}
macro_rules! raw_lanes {
    ($v:expr, $k:expr, $n:expr) => {{
        let v = $v;
        let b = as_bytes(&v);
        (0..$n).map(|i| get(b, $k, i)).collect::<Vec<u128>>()
    }};
}
fn expect(c: &mut Ctx, ty: &str, op: &str, k: K, got: Vec<u128>, want: Vec<u128>) {
    if !c.enter(ty, op) {
        return;
    }
    if got != want {
        c.violation(ty, op, format!("got {} want {}", show_lanes(k, &got), show_lanes(k, &want)));
    }
    c.leave(ty, op, 1, 1);
}

fn main() {
    let mut c = Ctx::from_args("C08");
    macro_rules! common {
        ($c:ident, $v:ty, $e:ty, $k:expr, $n:expr, $ty:expr, $ix:tt) => {{
            const V: S = S::V($k, $n);
            const TY: &str = $ty;
            wh($c, op1(TY, "from_array", V, V, glue!(|a: [$e; $n]| -> $v { <$v>::from(a) })), ANY, &same);
            wh($c, op1(TY, "array_into", V, V, glue!(|a: [$e; $n]| -> $v { a.into() })), ANY, &same);
            wh($c, op1(TY, "into_array", V, V, glue!(|a: $v| -> [$e; $n] { a.into() })), ANY, &same);
            wh($c, op1(TY, "copy", V, V, glue!(|a: $v| -> $v { #[allow(clippy::clone_on_copy)] a.clone() })), ANY, &same);
            expect($c, TY, "layout", K::U(64), vec![std::mem::size_of::<$v>() as u128, <$v>::lanes() as u128], vec![($k.bytes() * $n) as u128, $n as u128]);
            expect($c, TY, "default", $k, raw_lanes!(<$v as Default>::default(), $k, $n), vec![0; $n]);
            const LANES: usize = <$v>::lanes();
            expect($c, TY, "const_lanes", K::U(64), vec![LANES as u128], vec![$n as u128]);
        }};
    }
    macro_rules! num {
        ($c:ident, $v:ty, $e:ty, $k:expr, $n:expr, $ty:expr, ($($i:tt)*)) => {{
            const KK: K = $k;
            const V: S = S::V(KK, $n);
            const E: S = S::S(KK);
            const TY: &str = $ty;
            const US: S = S::S(K::U(64));
            const G2: [G; 3] = [G::Any, G::Below($n), G::Any];
            let _ = IX;
            common!($c, $v, $e, KK, $n, $ty, ($($i)*));
            wh($c, op1(TY, "new", V, V, glue!(|a: [$e; $n]| -> $v { <$v>::new($(a[$i]),*) })), ANY, &same);
            wh($c, op1(TY, "splat", E, V, glue!(|a: $e| -> $v { <$v>::splat(a) })), ANY, &splat);
            wh($c, op2(TY, "extract", V, US, E, glue!(|a: $v, i: usize| -> $e { a.extract(i) })), G2, &extract);
            wh($c, op2(TY, "extract_unchecked", V, US, E, glue!(|a: $v, i: usize| -> $e { a.extract_unchecked(i) })), G2, &extract);
            wh($c, op3(TY, "replace", V, US, E, S::V(KK, 2 * $n), glue!(|a: $v, i: usize, x: $e| -> [$v; 2] { let r = a.replace(i, x); [r, a] })), G2, &|o| replace(o, o.ins[2][0]));
            wh($c, op3(TY, "replace_unchecked", V, US, E, S::V(KK, 2 * $n), glue!(|a: $v, i: usize, x: $e| -> [$v; 2] { let r = a.replace_unchecked(i, x); [r, a] })), G2, &|o| replace(o, o.ins[2][0]));
            // each lane extracted with a literal index
            wh($c, op1(TY, "extract_each", V, V, glue!(|a: $v| -> [$e; $n] { [$(a.extract($i)),*] })), ANY, &same);
            let v0: $v = Default::default();
            oob($c, TY, "extract:oob", $n, &|i| { std::hint::black_box(std::hint::black_box(v0).extract(i)); });
            let e0: $e = v0.extract(0);
            oob($c, TY, "replace:oob", $n, &|i| { std::hint::black_box(std::hint::black_box(v0).replace(i, e0)); });
        }};
    }
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, ($($i:tt)*)) => {{
            fn all(c: &mut Ctx) {
                num!(c, $v, $e, K::$ku($b), $n, stringify!($v), ($($i)*));
                wh(c, op1(stringify!($v), "array_from", S::V(K::$ku($b), $n), S::V(K::$ku($b), $n), glue!(|a: $v| -> [$e; $n] { <[$e; $n]>::from(a) })), ANY, &same);
                const CN: $v = <$v>::new($(($i as $e).wrapping_mul(37).wrapping_sub(100)),*);
                const CS: $v = <$v>::splat((0 as $e).wrapping_sub(77));
                let want: Vec<u128> = (0..$n as u128).map(|i| i.wrapping_mul(37).wrapping_sub(100) & ones($b)).collect();
                expect(c, stringify!($v), "const_new", K::$ku($b), raw_lanes!(CN, K::$ku($b), $n), want);
                expect(c, stringify!($v), "const_splat", K::$ku($b), raw_lanes!(CS, K::$ku($b), $n), vec![0u128.wrapping_sub(77) & ones($b); $n]);
            }
            all(&mut c);
        }};
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, ($($i:tt)*)) => {{
            fn all(c: &mut Ctx) {
                num!(c, $v, $e, K::F($b), $n, stringify!($v), ($($i)*));
                wh(c, op1(stringify!($v), "array_from", S::V(K::F($b), $n), S::V(K::F($b), $n), glue!(|a: $v| -> [$e; $n] { <[$e; $n]>::from(a) })), ANY, &same);
                const CN: $v = <$v>::new($($i as $e * 1.25 - 3.0),*);
                const CS: $v = <$v>::splat(-0.1);
                let want: Vec<u128> = (0..$n as i32).map(|i| fbits(K::F($b), i as f64 * 1.25 - 3.0)).collect();
                expect(c, stringify!($v), "const_new", K::F($b), raw_lanes!(CN, K::F($b), $n), want);
                expect(c, stringify!($v), "const_splat", K::F($b), raw_lanes!(CS, K::F($b), $n), vec![fbits(K::F($b), -0.1); $n]);
            }
            all(&mut c);
        }};
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, ($($i:tt)*)) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::M($b);
                const V: S = S::V(KK, $n);
                const TY: &str = stringify!($v);
                const US: S = S::S(K::U(64));
                const BO: S = S::S(K::U(8));
                const BV: S = S::V(K::U(8), $n);
                const G2: [G; 3] = [G::Any, G::Below($n), G::Below(2)];
                const GB: [G; 3] = [G::Below(2), G::Any, G::Any];
                common!(c, $v, $e, KK, $n, stringify!($v), ($($i)*));
                wh(c, op1(TY, "array_from", V, V, glue!(|a: $v| -> [$e; $n] { <[$e; $n]>::from(a) })), ANY, &same);
                wh(c, op1(TY, "new", BV, V, glue!(|a: [bool; $n]| -> $v { <$v>::new($(a[$i]),*) })), GB, &bools($b));
                wh(c, op1(TY, "splat", BO, V, glue!(|a: bool| -> $v { <$v>::splat(a) })), GB, &bools($b));
                wh(c, op2(TY, "extract", V, US, BO, glue!(|a: $v, i: usize| -> bool { a.extract(i) })), G2, &extract_bool);
                wh(c, op2(TY, "extract_unchecked", V, US, BO, glue!(|a: $v, i: usize| -> bool { a.extract_unchecked(i) })), G2, &extract_bool);
                wh(c, op3(TY, "replace", V, US, BO, S::V(KK, 2 * $n), glue!(|a: $v, i: usize, x: bool| -> [$v; 2] { let r = a.replace(i, x); [r, a] })), G2, &|o| replace(o, if o.ins[2][0] != 0 { KK.mask() } else { 0 }));
                wh(c, op3(TY, "replace_unchecked", V, US, BO, S::V(KK, 2 * $n), glue!(|a: $v, i: usize, x: bool| -> [$v; 2] { let r = a.replace_unchecked(i, x); [r, a] })), G2, &|o| replace(o, if o.ins[2][0] != 0 { KK.mask() } else { 0 }));
                let v0 = <$v>::default();
                oob(c, TY, "extract:oob", $n, &|i| { std::hint::black_box(std::hint::black_box(v0).extract(i)); });
                oob(c, TY, "replace:oob", $n, &|i| { std::hint::black_box(std::hint::black_box(v0).replace(i, true)); });
                const CN: $v = <$v>::new($($i % 3 == 1),*);
                const CS: $v = <$v>::splat(true);
                let want: Vec<u128> = (0..$n as u128).map(|i| if i % 3 == 1 { KK.mask() } else { 0 }).collect();
                expect(c, TY, "const_new", KK, raw_lanes!(CN, KK, $n), want);
                expect(c, TY, "const_splat", KK, raw_lanes!(CS, KK, $n), vec![KK.mask(); $n]);
            }
            all(&mut c);
        }};
    }
    macro_rules! pty {
        ($v:ident, $e:ty, $n:expr, $idx:tt, $t:ty) => {{
            fn all(c: &mut Ctx) {
                num!(c, $v<$t>, $e, K::U(64), $n, concat!(stringify!($v), "<", stringify!($t), ">"), $idx);
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_floats!(fty);
    for_masks!(mty);
    pty!(cptrx2, *const u32, 2, (0 1), u32);
    pty!(cptrx4, *const u8, 4, (0 1 2 3), u8);
    pty!(cptrx8, *const f64, 8, (0 1 2 3 4 5 6 7), f64);
    pty!(mptrx2, *mut u32, 2, (0 1), u32);
    pty!(mptrx4, *mut u8, 4, (0 1 2 3), u8);
    pty!(mptrx8, *mut f64, 8, (0 1 2 3 4 5 6 7), f64);
    c.finish()
}
