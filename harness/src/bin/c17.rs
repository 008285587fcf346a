//! C17: approximate float functions
use packed_simd::*;
use vmon::*;
use std::hint::black_box as bb;

/// within `tol` ulp of the scalar result in the lane's own type; zeros, infinities and NaN by kind and sign
fn near(k: K, got: u128, want: u128, tol: f64) -> bool {
    if k.is_nan(want) {
        return k.is_nan(got);
    }
    let w = k.to_f64(want);
    let g = k.to_f64(got);
    if w == 0.0 && g == 0.0 {
        return w.is_sign_negative() == g.is_sign_negative();
    }
    flt::ulp_err(k, got, w) <= tol
}
fn un(k: K, a: u128, f: fn(f64) -> f64, g: fn(f32) -> f32) -> u128 {
    if k == K::F(32) {
        bb(g)(bb(f32::from_bits(a as u32))).to_bits() as u128
    } else {
        bb(f)(bb(f64::from_bits(a as u64))).to_bits() as u128
    }
}
fn times_pi(k: K, a: u128) -> u128 {
    if k == K::F(32) {
        (f32::from_bits(a as u32) * std::f32::consts::PI).to_bits() as u128
    } else {
        (f64::from_bits(a as u64) * std::f64::consts::PI).to_bits() as u128
    }
}
fn checker<'a>(k: K, tol: f64, o: &'a dyn Fn([u128; 3]) -> u128) -> impl Fn(&Obs) -> Result<(), String> + 'a {
    move |ob: &Obs| {
        for i in 0..ob.out.len() {
            let l = |j: usize| if ob.ins[j].is_empty() { 0 } else { ob.ins[j][i % ob.ins[j].len()] };
            let w = o([l(0), l(1), i as u128]);
            if !near(k, ob.out[i], w, tol) {
                return Err(format!("lane {}: got {}, scalar gives {}", i, k.show(ob.out[i]), k.show(w)));
            }
        }
        Ok(())
    }
}
/// arguments of moderate size, near multiples of pi/2, near 0 and 1
fn interesting(k: K, r: &mut Rng) -> u128 {
    let x = match r.below(8) {
        0 => (r.below(2001) as f64 - 1000.0) * std::f64::consts::FRAC_PI_2 * (1.0 + (r.below(5) as f64 - 2.0) * 1e-7),
        1 => (r.below(4001) as f64 - 2000.0) / 2.0,
        2 => (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0,
        3 => (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 200.0 - 100.0,
        4 => 1.0 + ((r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 2f64.powi(-(r.below(30) as i32)),
        5 => ((r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 2f64.powi(-(r.below(60) as i32)),
        6 => ((r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * if k == K::F(32) { 220.0 } else { 1500.0 },
        _ => return draw(r, k, G::Any),
    };
    fbits(k, x)
}
struct Fs {
    un: [F; 7],
    sc: F,
    pw: F,
    est: [F; 3],
    ma: F,
}
fn rel(k: K, got: u128, want: f64) -> bool {
    let g = k.to_f64(got);
    if want.is_nan() {
        return g.is_nan();
    }
    if want.is_infinite() || want == 0.0 {
        return g == want;
    }
    (g - want).abs() <= want.abs() * 2f64.powi(-11)
}
fn all(c: &mut Ctx, ty: &'static str, k: K, n: usize, f: Fs) {
    let v = S::V(k, n);
    const TOL: f64 = 4.0;
    let lim = c.n(1500, 60_000);
    let fillx = |ar: usize| {
        move |i: usize, r: &mut Rng, l: &mut [Lanes; 3]| {
            for a in 0..ar {
                for j in 0..n {
                    l[a][j] = interesting(k, r);
                }
            }
            i < lim
        }
    };
    let sin = |t: [u128; 3]| un(k, t[0], f64::sin, f32::sin);
    let cos = |t: [u128; 3]| un(k, t[0], f64::cos, f32::cos);
    let exp = |t: [u128; 3]| un(k, t[0], f64::exp, f32::exp);
    let ln = |t: [u128; 3]| un(k, t[0], f64::ln, f32::ln);
    let tanh = |t: [u128; 3]| un(k, t[0], f64::tanh, f32::tanh);
    let sinpi = |t: [u128; 3]| un(k, times_pi(k, t[0]), f64::sin, f32::sin);
    let cospi = |t: [u128; 3]| un(k, times_pi(k, t[0]), f64::cos, f32::cos);
    let os: [(&'static str, &dyn Fn([u128; 3]) -> u128); 7] = [("sin", &sin), ("cos", &cos), ("exp", &exp), ("ln", &ln), ("tanh", &tanh), ("sin_pi", &sinpi), ("cos_pi", &cospi)];
    for (i, (nm, o)) in os.iter().enumerate() {
        let chk = checker(k, TOL, *o);
        run_extra(c, &op1(ty, nm, v, v, f.un[i]), &Spec { g: ANY, valid: None, check: &chk, weight: 0.5 }, &mut fillx(1));
    }
    let both = |t: [u128; 3]| if (t[2] as usize) < n { sinpi(t) } else { cospi(t) };
    let chk = checker(k, TOL, &both);
    run_extra(c, &op1(ty, "sin_cos_pi", v, S::V(k, 2 * n), f.sc), &Spec { g: ANY, valid: None, check: &chk, weight: 0.5 }, &mut fillx(1));
    let pow = |t: [u128; 3]| {
        if k == K::F(32) {
            bb(f32::from_bits(t[0] as u32)).powf(bb(f32::from_bits(t[1] as u32))).to_bits() as u128
        } else {
            bb(f64::from_bits(t[0] as u64)).powf(bb(f64::from_bits(t[1] as u64))).to_bits() as u128
        }
    };
    let chk = checker(k, TOL, &pow);
    run_extra(c, &op2(ty, "powf", v, v, v, f.pw), &Spec { g: ANY, valid: None, check: &chk, weight: 0.5 }, &mut fillx(2));
    // estimates: inputs 0, infinity, NaN or normal with a normal result
    let lo = if k == K::F(32) { 2f64.powi(-125) } else { 2f64.powi(-1021) };
    let valid = |t: [u128; 3]| {
        let x = k.to_f64(t[0]).abs();
        x == 0.0 || x.is_infinite() || (x.is_nan() && !k.is_snan(t[0])) || (x >= lo && 1.0 / x >= lo)
    };
    let ests: [(&'static str, fn(f64) -> f64); 3] = [("sqrte", |x| x.sqrt()), ("rsqrte", |x| 1.0 / x.sqrt()), ("recpre", |x| 1.0 / x)];
    for (i, (nm, o)) in ests.iter().enumerate() {
        let chk = |ob: &Obs| {
            for i in 0..n {
                let w = o(k.to_f64(ob.ins[0][i]));
                if !rel(k, ob.out[i], w) {
                    return Err(format!("lane {}: got {}, want {:e} within 2^-11", i, k.show(ob.out[i]), w));
                }
            }
            Ok(())
        };
        run(c, &op1(ty, nm, v, v, f.est[i]), &Spec { g: ANY, valid: Some(&valid), check: &chk, weight: 3.0 });
    }
    let chk = |ob: &Obs| {
        for i in 0..n {
            let (x, y, z) = (ob.ins[0][i], ob.ins[1][i], ob.ins[2][i]);
            let fused = if k == K::F(32) {
                f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
            } else {
                f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
            };
            let two = flt::bin(k, "add", flt::bin(k, "mul", x, y), z);
            if !fx(k, fused).ok(k, ob.out[i]) && !fx(k, two).ok(k, ob.out[i]) {
                return Err(format!("lane {}: got {}, neither the fused {} nor the two-step {}", i, k.show(ob.out[i]), k.show(fused), k.show(two)));
            }
        }
        Ok(())
    };
    run(c, &op3(ty, "mul_adde", v, v, v, v, f.ma), &Spec { g: ANY, valid: None, check: &chk, weight: 3.0 });
}
fn main() {
    let mut c = Ctx::from_args("C17");
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {{
            let fs = Fs {
                un: [
                    glue!(|a: $v| -> $v { a.sin() }),
                    glue!(|a: $v| -> $v { a.cos() }),
                    glue!(|a: $v| -> $v { a.exp() }),
                    glue!(|a: $v| -> $v { a.ln() }),
                    glue!(|a: $v| -> $v { a.tanh() }),
                    glue!(|a: $v| -> $v { a.sin_pi() }),
                    glue!(|a: $v| -> $v { a.cos_pi() }),
                ],
                sc: glue!(|a: $v| -> [$v; 2] {
                    let r = a.sin_cos_pi();
                    [r.0, r.1]
                }),
                pw: glue!(|a: $v, b: $v| -> $v { a.powf(b) }),
                est: [glue!(|a: $v| -> $v { a.sqrte() }), glue!(|a: $v| -> $v { a.rsqrte() }), glue!(|a: $v| -> $v { a.recpre() })],
                ma: glue!(|a: $v, b: $v, d: $v| -> $v { a.mul_adde(b, d) }),
            };
            all(&mut c, stringify!($v), K::F($b), $n, fs);
        }};
    }
    for_floats!(fty);
    c.finish()
}
