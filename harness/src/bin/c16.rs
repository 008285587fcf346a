//! C16: exact float functions, classification, constants
#![feature(macro_metavar_expr)]
use packed_simd::*;
use vmon::*;

fn un(k: K, a: u128, f: fn(f64) -> f64, g: fn(f32) -> f32) -> X {
    use std::hint::black_box as bb;
    fx(k, if k == K::F(32) { g(bb(f32::from_bits(a as u32))).to_bits() as u128 } else { f(bb(f64::from_bits(a as u64))).to_bits() as u128 })
}
fn sabs(k: K, a: u128) -> X {
    fx(k, a & (k.mask() >> 1))
}
fn fma(k: K, t: [u128; 3]) -> X {
    fx(
        k,
        if k == K::F(32) {
            f32::from_bits(t[0] as u32).mul_add(f32::from_bits(t[1] as u32), f32::from_bits(t[2] as u32)).to_bits() as u128
        } else {
            f64::from_bits(t[0] as u64).mul_add(f64::from_bits(t[1] as u64), f64::from_bits(t[2] as u64)).to_bits() as u128
        },
    )
}
fn class(k: K, a: u128) -> (bool, bool) {
    let (e, m) = if k == K::F(32) { ((a >> 23) & 0xff == 0xff, a & 0x7fffff != 0) } else { ((a >> 52) & 0x7ff == 0x7ff, a & 0xfffffffffffff != 0) };
    (e && m, e && !m)
}
fn mk(b: u32, x: bool) -> X {
    X::Eq(if x { ones(b) } else { 0 })
}
/// operands whose exact product nearly cancels the addend: double rounding becomes visible
fn fma_extra(k: K, n: usize, lim: usize) -> impl FnMut(usize, &mut Rng, &mut [Lanes; 3]) -> bool {
    move |i, r, l| {
        for j in 0..n {
            let x = draw(r, k, G::Mod);
            let y = draw(r, k, G::Mod);
            l[0][j] = x;
            l[1][j] = y;
            let p = k.to_f64(x) * k.to_f64(y);
            let z = match r.below(3) {
                0 => fbits(k, -p),
                1 => fbits(k, -p * (1.0 + if k == K::F(32) { f32::EPSILON as f64 } else { f64::EPSILON })),
                _ => fbits(k, p * 2f64.powi(r.below(60) as i32 - 30)),
            };
            l[2][j] = z;
        }
        i < lim
    }
}
fn fty_run(c: &mut Ctx, ty: &'static str, k: K, n: usize, f: [F; 6]) {
    let b = k.bits();
    let v = S::V(k, n);
    let m = S::V(K::M(b), n);
    lw(c, op1(ty, "abs", v, v, f[0]), ANY, None, &|t| sabs(k, t[0]));
    lw(c, op1(ty, "sqrt", v, v, f[1]), ANY, None, &|t| un(k, t[0], f64::sqrt, f32::sqrt));
    let o = |t: [u128; 3]| fma(k, t);
    let chk = lanewise(k, &o);
    let lim = c.n(2000, 60_000);
    run_extra(c, &op3(ty, "mul_add", v, v, v, v, f[2]), &Spec { g: ANY, valid: None, check: &chk, weight: 2.0 }, &mut fma_extra(k, n, lim));
    lw(c, op1(ty, "is_nan", v, m, f[3]), ANY, None, &|t| mk(b, class(k, t[0]).0));
    lw(c, op1(ty, "is_infinite", v, m, f[4]), ANY, None, &|t| mk(b, class(k, t[0]).1));
    lw(c, op1(ty, "is_finite", v, m, f[5]), ANY, None, &|t| mk(b, !class(k, t[0]).0 && !class(k, t[0]).1));
}
/// sweep over consecutive bit patterns of f32 (classification, abs, sqrt): stride chosen by tier
fn sweep32(c: &mut Ctx, ty: &'static str, n: usize, names: [&'static str; 5], f: [F; 5]) {
    let k = K::F(32);
    for w in 0..5 {
        if !c.enter(ty, names[w]) {
            continue;
        }
        let mut r = c.rng.clone();
        let calls = c.n(20_000, 4_000_000);
        let mut a = Buf::new(0);
        let mut o = Buf::new(0);
        let step = (1u64 << 32) / (calls * n) as u64;
        let mut x = r.next() % step.max(1);
        for _ in 0..calls {
            let mut ins = [0u128; 64];
            for j in 0..n {
                ins[j] = (x & 0xffff_ffff) as u128;
                put(&mut a.0, k, j, ins[j]);
                x = x.wrapping_add(step.max(1));
            }
            unsafe { f[w](a.0.as_ptr(), std::ptr::null(), std::ptr::null(), o.0.as_mut_ptr()) };
            for j in 0..n {
                let g = get(&o.0, k, j);
                let (nan, inf) = class(k, ins[j]);
                let want = match w {
                    0 => sabs(k, ins[j]),
                    1 => un(k, ins[j], f64::sqrt, f32::sqrt),
                    2 => mk(32, nan),
                    3 => mk(32, inf),
                    _ => mk(32, !nan && !inf),
                };
                if !want.ok(k, g) {
                    c.violation(ty, names[w], format!("lane {} input {}: got {:08x}, want {}", j, k.show(ins[j]), g, want.show(k)));
                }
            }
        }
        c.count("f32_bit_patterns_swept", (calls * n) as u64);
        c.leave(ty, names[w], calls as u64, calls as u64);
    }
}
fn konst(c: &mut Ctx, ty: &str, nm: &str, k: K, n: usize, bytes: &[u8], want: u128) {
    if !c.enter(ty, nm) {
        return;
    }
    for i in 0..n {
        let g = get(bytes, k, i);
        if !fx(k, want).ok(k, g) {
            c.violation(ty, nm, format!("lane {}: {} instead of {}", i, k.show(g), k.show(want)));
        }
    }
    c.count("constants", 1);
    c.leave(ty, nm, 1, 1);
}
fn main() {
    let mut c = Ctx::from_args("C16");
    macro_rules! fty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $m:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                let fs = [
                    glue!(|a: $v| -> $v { a.abs() }),
                    glue!(|a: $v| -> $v { a.sqrt() }),
                    glue!(|a: $v, b: $v, d: $v| -> $v { a.mul_add(b, d) }),
                    glue!(|a: $v| -> $m { a.is_nan() }),
                    glue!(|a: $v| -> $m { a.is_infinite() }),
                    glue!(|a: $v| -> $m { a.is_finite() }),
                ];
                fty_run(c, stringify!($v), K::F($b), $n, fs);
                if $b == 32 {
                    sweep32(c, stringify!($v), $n, ["abs:sweep", "sqrt:sweep", "is_nan:sweep", "is_infinite:sweep", "is_finite:sweep"], [fs[0], fs[1], fs[3], fs[4], fs[5]]);
                }
                macro_rules! k {
                    ($s:expr, [$$($id:ident)*]) => { $$( konst(c, stringify!($v), stringify!($id), K::F($b), $n, as_bytes(&<$v>::$id), ($s)(stringify!($id))); )* };
                }
                let scalar = |nm: &str| -> u128 {
                    use std::$e::consts as cs;
                    (match nm {
                        "EPSILON" => $e::EPSILON, "MIN" => $e::MIN, "MIN_POSITIVE" => $e::MIN_POSITIVE, "MAX" => $e::MAX,
                        "NAN" => $e::NAN, "INFINITY" => $e::INFINITY, "NEG_INFINITY" => $e::NEG_INFINITY,
                        "PI" => cs::PI, "FRAC_PI_2" => cs::FRAC_PI_2, "FRAC_PI_3" => cs::FRAC_PI_3, "FRAC_PI_4" => cs::FRAC_PI_4,
                        "FRAC_PI_6" => cs::FRAC_PI_6, "FRAC_PI_8" => cs::FRAC_PI_8, "FRAC_1_PI" => cs::FRAC_1_PI,
                        "FRAC_2_PI" => cs::FRAC_2_PI, "FRAC_2_SQRT_PI" => cs::FRAC_2_SQRT_PI, "SQRT_2" => cs::SQRT_2,
                        "FRAC_1_SQRT_2" => cs::FRAC_1_SQRT_2, "E" => cs::E, "LOG2_E" => cs::LOG2_E, "LOG10_E" => cs::LOG10_E,
                        "LN_2" => cs::LN_2, "LN_10" => cs::LN_10,
                        _ => unreachable!(),
                    }).to_bits() as u128
                };
                k!(scalar, [EPSILON MIN MIN_POSITIVE MAX NAN INFINITY NEG_INFINITY PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 FRAC_1_PI FRAC_2_PI FRAC_2_SQRT_PI SQRT_2 FRAC_1_SQRT_2 E LOG2_E LOG10_E LN_2 LN_10]);
            }
            all(&mut c);
        }};
    }
    for_floats!(fty);
    c.finish()
}
