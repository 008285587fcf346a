//! C12: shuffles with compile-time indices. The calls are generated per run (tools/gen_c12.py).
use packed_simd::*;
use vmon::*;

fn judge(idx: &[usize], o: &Obs) -> Result<(), String> {
    let n = o.ins[0].len();
    for (i, &x) in idx.iter().enumerate() {
        let w = if x < n { o.ins[0][x] } else { o.ins[1][x - n] };
        if o.out[i] != w {
            return Err(format!("lane {} holds {:#x}, selected source lane {} holds {:#x}", i, o.out[i], x, w));
        }
    }
    Ok(())
}
fn g(k: K) -> G {
    if let K::M(_) = k {
        G::Mask
    } else {
        G::Any
    }
}
fn go(c: &mut Ctx, op: Op, idx: &[usize]) {
    let gg = g(op.ins[0].k());
    let (k, n) = (op.ins[0].k(), op.ins[0].n());
    let two = op.ins[1] != S::N;
    let m = k.mask();
    let reps = c.n(6, 60);
    run_extra(c, &op, &Spec { g: [gg; 3], valid: None, check: &|o| judge(idx, o), weight: 0.1 }, &mut |i, r, l| {
        // all lanes distinct (as far as the lane type allows)
        let base = r.u128();
        for j in 0..n {
            for (a, off) in [(0, 0), (1, n)] {
                l[a][j] = match k {
                    K::M(_) => if r.bool() { m } else { 0 },
                    _ => base.wrapping_add(0x0101010101010101_0101010101010101u128.wrapping_mul((j + off) as u128)) & m,
                };
            }
        }
        let _ = two;
        i < reps
    });
}
macro_rules! sh1 {
    ($c:ident, $ty:expr, $nm:expr, $s:ty, $k:expr, $n:expr, $d:ty, $m:expr, [$($i:expr),*]) => {
        go($c, op1($ty, $nm, S::V($k, $n), S::V($k, $m), glue!(|a: $s| -> $d { shuffle!(a, [$($i),*]) })), &[$($i),*]);
    };
}
macro_rules! sh2 {
    ($c:ident, $ty:expr, $nm:expr, $s:ty, $k:expr, $n:expr, $d:ty, $m:expr, [$($i:expr),*]) => {
        go($c, op2($ty, $nm, S::V($k, $n), S::V($k, $n), S::V($k, $m), glue!(|a: $s, b: $s| -> $d { shuffle!(a, b, [$($i),*]) })), &[$($i),*]);
    };
}
include!(concat!(env!("VMON_GEN_DIR"), "/c12_gen.rs"));

fn main() {
    let mut c = Ctx::from_args("C12");
    gen(&mut c);
    // operand expressions are evaluated exactly once, left to right
    use std::cell::RefCell;
    thread_local!(static LOG: RefCell<Vec<u32>> = RefCell::new(vec![]));
    fn eval<T>(id: u32, x: T) -> T {
        LOG.with(|l| l.borrow_mut().push(id));
        x
    }
    macro_rules! once {
        ($ty:expr, $nm:expr, $want:expr, $e:expr) => {{
            if c.enter($ty, $nm) {
                LOG.with(|l| l.borrow_mut().clear());
                let _ = $e;
                let got = LOG.with(|l| l.borrow().clone());
                if got != $want {
                    c.violation($ty, $nm, format!("operand expressions evaluated {:?}, want {:?}", got, $want));
                }
                c.leave($ty, $nm, 1, 1);
            }
        }};
    }
    once!("i32x2", "evaluate_one", vec![1], { let r: i32x2 = shuffle!(eval(1, i32x2::splat(3)), [1, 0]); r });
    once!("i32x4", "evaluate_one", vec![1], { let r: i32x4 = shuffle!(eval(1, i32x4::splat(3)), [1, 0, 3, 3]); r });
    once!("m8x8", "evaluate_one", vec![1], { let r: m8x2 = shuffle!(eval(1, m8x8::splat(true)), [1, 7]); r });
    once!("i32x2", "evaluate_two", vec![1, 2], { let r: i32x2 = shuffle!(eval(1, i32x2::splat(3)), eval(2, i32x2::splat(4)), [1, 2]); r });
    once!("f32x4", "evaluate_two", vec![1, 2], { let r: f32x8 = shuffle!(eval(1, f32x4::splat(3.)), eval(2, f32x4::splat(4.)), [1, 2, 3, 4, 5, 6, 7, 0]); r });
    once!("u8x16", "evaluate_two", vec![1, 2], { let r: u8x16 = shuffle!(eval(1, u8x16::splat(3)), eval(2, u8x16::splat(4)), [1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5, 6, 7, 31]); r });
    c.finish()
}
