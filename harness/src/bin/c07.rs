//! C07: horizontal reductions, iterator sums and products
use packed_simd::*;
use vmon::*;

fn want(k: K, o: &Obs, w: u128) -> Result<(), String> {
    if o.out[0] == w {
        Ok(())
    } else {
        Err(format!("got {} want {}", k.show(o.out[0]), k.show(w)))
    }
}
fn ext(k: K, l: &[u128], is_min: bool) -> u128 {
    let mut b = l[0];
    for x in l {
        if (is_min && k.lt(*x, b)) || (!is_min && k.lt(b, *x)) {
            b = *x;
        }
    }
    b
}
fn fext(k: K, o: &Obs, is_min: bool) -> Result<(), String> {
    let l: Vec<u128> = o.ins[0].iter().cloned().filter(|x| !k.is_nan(*x)).collect();
    let g = o.out[0];
    let snan = o.ins[0].iter().any(|x| k.is_snan(*x));
    if l.is_empty() {
        return if k.is_nan(g) { Ok(()) } else { Err("want NaN".into()) };
    }
    if snan {
        // a signalling NaN may or may not poison (part of) the reduction
        if k.is_nan(g) || l.iter().any(|x| k.eq(*x, g)) {
            return Ok(());
        }
        return Err("result is not one of the lanes".into());
    }
    let w = ext(k, &l, is_min);
    if k.eq(g, w) && l.contains(&g) {
        Ok(())
    } else {
        Err(format!("got {} want {}", k.show(g), k.show(w)))
    }
}
/// sum with error-free transformation (double-double)
fn dd_sum(v: &[f64]) -> (f64, f64) {
    let (mut hi, mut lo) = (0f64, 0f64);
    for &x in v {
        let s = hi + x;
        let bb = s - hi;
        lo += (hi - (s - bb)) + (x - bb);
        hi = s;
    }
    (hi + lo, v.iter().map(|x| x.abs()).sum())
}
fn eps(k: K) -> f64 {
    if k == K::F(32) {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
fn fsum(k: K, o: &Obs, exact: bool) -> Result<(), String> {
    let v: Vec<f64> = o.ins[0].iter().map(|x| k.to_f64(*x)).collect();
    let g = k.to_f64(o.out[0]);
    if v.iter().any(|x| x.is_nan()) {
        return if g.is_nan() { Ok(()) } else { Err("want NaN".into()) };
    }
    let (pi, ni) = (v.contains(&f64::INFINITY), v.contains(&f64::NEG_INFINITY));
    let lim = if k == K::F(32) { f32::MAX as f64 } else { f64::MAX };
    let big: f64 = v.iter().filter(|x| x.is_finite()).map(|x| x.abs() / v.len() as f64).fold(0.0, f64::max) * v.len() as f64;
    if big >= lim / 64.0 {
        return Ok(()); // intermediate overflow depends on the association
    }
    if pi && ni {
        return if g.is_nan() { Ok(()) } else { Err("want NaN (inf - inf)".into()) };
    }
    if pi || ni {
        let w = if pi { f64::INFINITY } else { f64::NEG_INFINITY };
        return if g == w { Ok(()) } else { Err(format!("want {}", w)) };
    }
    let (s, a) = dd_sum(&v);
    let tol = if exact { 0.0 } else { v.len() as f64 * eps(k) * a + f64::from_bits(1) };
    if (g - s).abs() <= tol {
        Ok(())
    } else {
        Err(format!("got {:e} want {:e} +- {:e}", g, s, tol))
    }
}
fn fprod(k: K, o: &Obs, exact: bool) -> Result<(), String> {
    let v: Vec<f64> = o.ins[0].iter().map(|x| k.to_f64(*x)).collect();
    let g = k.to_f64(o.out[0]);
    if v.iter().any(|x| x.is_nan()) {
        return if g.is_nan() { Ok(()) } else { Err("want NaN".into()) };
    }
    let (lo, hi) = if k == K::F(32) { (-120.0, 120.0) } else { (-1000.0, 1000.0) };
    let logs: Vec<f64> = v.iter().filter(|x| x.is_finite() && **x != 0.0).map(|x| x.abs().log2()).collect();
    let up: f64 = logs.iter().filter(|x| **x > 0.0).sum();
    let dn: f64 = logs.iter().filter(|x| **x < 0.0).sum();
    if up >= hi || dn <= lo {
        return Ok(());
    }
    let neg = v.iter().filter(|x| x.is_sign_negative()).count() % 2 == 1;
    let (z, inf) = (v.contains(&0.0), v.iter().any(|x| x.is_infinite()));
    if z && inf {
        return if g.is_nan() { Ok(()) } else { Err("want NaN (0 * inf)".into()) };
    }
    if g.is_nan() || g.is_sign_negative() != neg {
        return Err(format!("got {:e}: wrong sign or NaN", g));
    }
    if z || inf {
        return if (z && g == 0.0) || (inf && g.is_infinite()) { Ok(()) } else { Err(format!("got {:e}", g)) };
    }
    // product with the rounding errors tracked in units of eps
    let mut hi = 1f64;
    let mut err = 0f64;
    for &x in &v {
        let p = hi * x;
        let e = hi.mul_add(x, -p);
        err = err * x + e;
        hi = p;
    }
    let s = hi + err;
    let tol = if exact { 0.0 } else { (v.len() as f64 + 1.0) * eps(k) * s.abs() };
    if (g - s).abs() <= tol {
        Ok(())
    } else {
        Err(format!("got {:e} want {:e} +- {:e}", g, s, tol))
    }
}
/// lane-wise fold over a sequence of the three operands
fn fold(k: K, seq: &[usize], t: [u128; 3], mul: bool) -> X {
    match k {
        K::F(_) => {
            let mut x = fbits(k, if mul { 1.0 } else { 0.0 });
            for i in seq {
                x = flt::bin(k, if mul { "mul" } else { "add" }, x, t[*i]);
            }
            if k.eq(x, 0) {
                X::Either(0, 1u128 << (k.bits() - 1))
            } else {
                fx(k, x)
            }
        }
        _ => {
            let mut x: u128 = mul as u128;
            for i in seq {
                x = if mul { x.wrapping_mul(t[*i]) } else { x.wrapping_add(t[*i]) };
            }
            X::Eq(x & k.mask())
        }
    }
}
macro_rules! iters {
    ($c:ident, $v:ident, $k:expr, $n:expr) => {{
        const V: S = S::V($k, $n);
        const TY: &str = stringify!($v);
        macro_rules! it {
            ($nm:expr, [$ix:expr], $mul:expr, $e:expr) => {
                lw($c, op3(TY, $nm, V, V, V, V, $e), ANY, None, &|t| fold($k, &$ix, t, $mul));
            };
        }
        it!("iter_sum0", [[]], false, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, b, d); let e: [$v; 0] = []; e.iter().sum() }));
        it!("iter_sum1", [[1]], false, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, d); [b].iter().sum() }));
        it!("iter_sum3", [[0, 1, 2]], false, glue!(|a: $v, b: $v, d: $v| -> $v { [a, b, d].iter().sum() }));
        it!("iter_sum_val", [[0, 1, 2, 1]], false, glue!(|a: $v, b: $v, d: $v| -> $v { [a, b, d, b].into_iter().sum() }));
        it!("iter_sum_val0", [[]], false, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, b, d); std::iter::empty::<$v>().sum() }));
        it!("iter_product0", [[]], true, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, b, d); let e: [$v; 0] = []; e.iter().product() }));
        it!("iter_product1", [[1]], true, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, d); [b].iter().product() }));
        it!("iter_product3", [[0, 1, 2]], true, glue!(|a: $v, b: $v, d: $v| -> $v { [a, b, d].iter().product() }));
        it!("iter_product_val", [[0, 1, 2, 1]], true, glue!(|a: $v, b: $v, d: $v| -> $v { [a, b, d, b].into_iter().product() }));
        it!("iter_product_val0", [[]], true, glue!(|a: $v, b: $v, d: $v| -> $v { let _ = (a, b, d); std::iter::empty::<$v>().product() }));
    }};
}
fn main() {
    let mut c = Ctx::from_args("C07");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::$ku($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const O: S = S::S(KK);
                wh(c, op1(TY, "wrapping_sum", V, O, glue!(|a: $v| -> $e { a.wrapping_sum() })), ANY, &|o| want(KK, o, o.ins[0].iter().fold(0u128, |x, y| x.wrapping_add(*y)) & KK.mask()));
                wh(c, op1(TY, "wrapping_product", V, O, glue!(|a: $v| -> $e { a.wrapping_product() })), ANY, &|o| want(KK, o, o.ins[0].iter().fold(1u128, |x, y| x.wrapping_mul(*y)) & KK.mask()));
                // odd lanes only: the product never collapses to zero
                wh(c, op1(TY, "wrapping_product:odd", V, O, glue!(|a: $v| -> $e { (a | (1 as $e)).wrapping_product() })), ANY, &|o| want(KK, o, o.ins[0].iter().fold(1u128, |x, y| x.wrapping_mul(*y | 1)) & KK.mask()));
                wh(c, op1(TY, "min_element", V, O, glue!(|a: $v| -> $e { a.min_element() })), ANY, &|o| want(KK, o, ext(KK, o.ins[0], true)));
                wh(c, op1(TY, "max_element", V, O, glue!(|a: $v| -> $e { a.max_element() })), ANY, &|o| want(KK, o, ext(KK, o.ins[0], false)));
                iters!(c, $v, KK, $n);
            }
            all(&mut c);
        }};
    }
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::F($b);
                const TY: &str = stringify!($v);
                const V: S = S::V(KK, $n);
                const O: S = S::S(KK);
                const fn g(x: G) -> [G; 3] {
                    [x, G::Any, G::Any]
                }
                wh(c, op1(TY, "sum:exact", V, O, glue!(|a: $v| -> $e { a.sum() })), g(G::Small), &|o| fsum(KK, o, true));
                wh(c, op1(TY, "sum:moderate", V, O, glue!(|a: $v| -> $e { a.sum() })), g(G::Mod), &|o| fsum(KK, o, false));
                wh(c, op1(TY, "sum:any", V, O, glue!(|a: $v| -> $e { a.sum() })), ANY, &|o| fsum(KK, o, false));
                wh(c, op1(TY, "product:exact", V, O, glue!(|a: $v| -> $e { a.product() })), g(G::Pow2), &|o| fprod(KK, o, true));
                wh(c, op1(TY, "product:moderate", V, O, glue!(|a: $v| -> $e { a.product() })), g(G::Mod), &|o| fprod(KK, o, false));
                wh(c, op1(TY, "product:any", V, O, glue!(|a: $v| -> $e { a.product() })), ANY, &|o| fprod(KK, o, false));
                for (nm, gg) in [("min_element", G::Any), ("min_element:moderate", G::Mod)] {
                    wh(c, op1(TY, nm, V, O, glue!(|a: $v| -> $e { a.min_element() })), g(gg), &|o| fext(KK, o, true));
                }
                for (nm, gg) in [("max_element", G::Any), ("max_element:moderate", G::Mod)] {
                    wh(c, op1(TY, nm, V, O, glue!(|a: $v| -> $e { a.max_element() })), g(gg), &|o| fext(KK, o, false));
                }
                iters!(c, $v, KK, $n);
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_floats!(fty);
    c.finish()
}
