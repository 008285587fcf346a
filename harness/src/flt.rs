//! float helpers for oracles
use crate::K;

/// scalar IEEE operation on bit patterns
pub fn bin(k: K, op: &str, a: u128, b: u128) -> u128 {
    macro_rules! go {
        ($F:ident, $U:ident) => {{
            let (x, y) = (std::hint::black_box($F::from_bits(a as $U)), std::hint::black_box($F::from_bits(b as $U)));
            let r = match op {
                "add" => x + y,
                "sub" => x - y,
                "mul" => x * y,
                "div" => x / y,
                "rem" => x % y,
                _ => unreachable!(),
            };
            std::hint::black_box(r).to_bits() as u128
        }};
    }
    match k {
        K::F(32) => go!(f32, u32),
        _ => go!(f64, u64),
    }
}
/// distance of `got` from the real value `want` in units in the last place of the result type
pub fn ulp_err(k: K, got: u128, want: f64) -> f64 {
    let g = k.to_f64(got);
    if want.is_nan() {
        return if g.is_nan() { 0.0 } else { f64::INFINITY };
    }
    if g.is_nan() {
        return f64::INFINITY;
    }
    if want.is_infinite() || g.is_infinite() {
        if g == want {
            return 0.0;
        }
        // the rounded result may legitimately overflow / not overflow next to the limit
        let (lim, one) = if k == K::F(32) { (f32::MAX as f64, f32::MAX as f64 * f32::EPSILON as f64 / 2.0) } else { (f64::MAX, f64::MAX * f64::EPSILON / 2.0) };
        if g.is_infinite() && want.is_finite() {
            return if (g > 0.0) == (want > 0.0) { (lim - want.abs()).max(0.0) / one + 1.0 } else { f64::INFINITY };
        }
        if want.is_infinite() && g.is_finite() {
            return if (g > 0.0) == (want > 0.0) { (lim - g.abs()) / one + 1.0 } else { f64::INFINITY };
        }
        return f64::INFINITY;
    }
    let ulp = ulp_of(k, want);
    (g - want).abs() / ulp
}
pub fn ulp_of(k: K, want: f64) -> f64 {
    let a = want.abs();
    if k == K::F(32) {
        if a < f32::MIN_POSITIVE as f64 {
            return f32::from_bits(1) as f64;
        }
        let e = ((a.to_bits() >> 52) as i32) - 1023;
        2f64.powi(e - 23)
    } else {
        if a < f64::MIN_POSITIVE {
            return f64::from_bits(1);
        }
        let e = ((a.to_bits() >> 52) as i32) - 1023;
        if e - 52 < -1022 {
            f64::from_bits(1u64 << (e - 52 + 1074))
        } else {
            2f64.powi(e - 52)
        }
    }
}
pub fn close(k: K, got: u128, want: f64, tol: f64) -> bool {
    ulp_err(k, got, want) <= tol
}
