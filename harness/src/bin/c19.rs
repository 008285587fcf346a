//! C19: formatting
use packed_simd::*;
use vmon::*;

fn cmpfmt(c: &mut Ctx, ty: &str, op: &str, got: String, want: String) -> bool {
    if got != want {
        c.violation(ty, op, format!("printed {:?}, expected {:?}", got, want));
        return false;
    }
    true
}
fn shape(name: &str, lanes: Vec<String>) -> String {
    format!("{}({})", name, lanes.join(", "))
}
/// a writer that fails after a byte budget: formatting must report the error, not panic or drop output
struct Lim {
    left: usize,
    got: String,
}
impl std::fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

macro_rules! specs {
    ($c:ident, $ty:expr, $name:expr, $v:expr, $arr:expr, $cnt:ident, [$($f:literal)*]) => { $(
        {
            let got = format!($f, $v);
            let want = shape(&$name, $arr.iter().map(|x| format!($f, x)).collect());
            cmpfmt($c, $ty, $f, got, want);
            $cnt += 1;
        }
    )* };
}
macro_rules! dynspecs {
    ($c:ident, $ty:expr, $name:expr, $v:expr, $arr:expr, $cnt:ident, $w:expr, [$($f:literal)*]) => { $(
        {
            let got = format!($f, $v, $w);
            let want = shape(&$name, $arr.iter().map(|x| format!($f, x, $w)).collect());
            cmpfmt($c, $ty, $f, got, want);
            $cnt += 1;
        }
    )* };
}
macro_rules! limited {
    ($c:ident, $ty:expr, $v:expr, $r:ident) => {{
        use std::fmt::Write;
        let full = format!("{:?}", $v);
        let k = $r.below(full.len() + 3);
        let mut l = Lim { left: k, got: String::new() };
        let e = write!(l, "{:?}", $v);
        if e.is_ok() != (k >= full.len()) || !full.starts_with(&l.got) {
            $c.violation($ty, "failing writer", format!("budget {} of {}: result {:?}, wrote {:?}", k, full.len(), e, l.got));
        }
    }};
}
macro_rules! go {
    ($c:ident, $v:ty, $name:expr, $k:expr, $n:expr, $e:ty, |$x:ident| $lane:expr, debug: $dbg:tt, num: $num:tt) => {{
        if $c.enter($name, "fmt") {
            let mut r = $c.rng.clone();
            let pl = pools($k, G::Any);
            let reps = $c.n(40, 1500);
            let mut cnt = 0u64;
            for rep in 0..reps {
                let mut b = Buf::new(0);
                let mut lanes = vec![];
                for i in 0..$n {
                    let x = if r.bool() { pl.ext[(rep * $n + i * 7 + r.below(3)) % pl.ext.len()] } else { draw(&mut r, $k, G::Any) };
                    put(&mut b.0, $k, i, x);
                    lanes.push(x);
                }
                let v: $v = unsafe { (b.0.as_ptr() as *const $v).read_unaligned() };
                let arr: Vec<_> = lanes.iter().map(|$x| $lane).collect();
                let name = $name.to_string();
                specs!($c, $name, name, v, arr, cnt, $dbg);
                specs!($c, $name, name, v, arr, cnt, $num);
                let w = r.below(24);
                dynspecs!($c, $name, name, v, arr, cnt, w, ["{:1$?}" "{:<1$?}" "{:_^+1$?}" "{:01$?}" "{:.1$?}"]);
                limited!($c, $name, v, r);
                if rep == 0 && r.below(12) == 0 {
                    $c.sample(|| format!("{:?} / {:#?}", v, v));
                }
            }
            $c.leave($name, "fmt", cnt, cnt);
        }
    }};
}
fn f32b(x: &u128) -> f32 {
    f32::from_bits(*x as u32)
}
fn f64b(x: &u128) -> f64 {
    f64::from_bits(*x as u64)
}
fn main() {
    let mut c = Ctx::from_args("C19");
    macro_rules! ty {
        ($v:ident, $e:ident, $ku:ident, $b:expr, $n:expr, $m:ident, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                go!(c, $v, stringify!($v), K::$ku($b), $n, $e, |x| *x as $e,
                    debug: ["{:?}" "{:+?}" "{:8?}" "{:08?}" "{:>10?}" "{:<6?}" "{:*^12?}" "{:#?}" "{:x?}" "{:X?}" "{:#x?}" "{:#010X?}"],
                    num: ["{:x}" "{:#x}" "{:08x}" "{:#010x}" "{:>12x}" "{:X}" "{:#X}" "{:#06X}" "{:o}" "{:#o}" "{:12o}" "{:b}" "{:#b}" "{:034b}" "{:#<20b}"]);
            }
            all(&mut c);
        }};
    }
    macro_rules! fty {
        ($v:ident, f32, $b:expr, $n:expr, $m:ident, $idx:tt) => { fty!(@ $v, f32, $b, $n, f32b) };
        ($v:ident, f64, $b:expr, $n:expr, $m:ident, $idx:tt) => { fty!(@ $v, f64, $b, $n, f64b) };
        (@ $v:ident, $e:ident, $b:expr, $n:expr, $f:ident) => {{
            fn all(c: &mut Ctx) {
                go!(c, $v, stringify!($v), K::F($b), $n, $e, |x| $f(x),
                    debug: ["{:?}" "{:+?}" "{:8?}" "{:08?}" "{:>10?}" "{:<6?}" "{:*^12?}" "{:#?}" "{:.0?}" "{:.3?}" "{:+012.2?}" "{:e^20.1?}"],
                    num: []);
            }
            all(&mut c);
        }};
    }
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, $idx:tt) => {{
            fn all(c: &mut Ctx) {
                go!(c, $v, stringify!($v), K::M($b), $n, $e, |x| *x != 0,
                    debug: ["{:?}" "{:8?}" "{:>10?}" "{:<6?}" "{:*^12?}" "{:#?}" "{:.2?}"],
                    num: []);
            }
            all(&mut c);
        }};
    }
    macro_rules! pty {
        ($v:ident, $star:ident, $t:ty, $n:expr) => {{
            fn all(c: &mut Ctx) {
                go!(c, $v<$t>, concat!(stringify!($v), "<", stringify!($t), ">"), K::U(64), $n, *$star $t, |x| *x as u64 as usize as *$star $t,
                    debug: ["{:?}" "{:8?}" "{:>20?}" "{:<26?}" "{:*^28?}" "{:#?}" "{:#026?}"],
                    num: []);
            }
            all(&mut c);
        }};
    }
    for_ints!(ty);
    for_floats!(fty);
    for_masks!(mty);
    pty!(cptrx2, const, u8, 2);
    pty!(cptrx4, const, i32, 4);
    pty!(cptrx8, const, f64, 8);
    pty!(mptrx2, mut, u8, 2);
    pty!(mptrx4, mut, i32, 4);
    pty!(mptrx8, mut, f64, 8);
    macro_rules! sm {
        ($($m:ident)*) => { $(
            if c.enter(stringify!($m), "fmt") {
                for b in [false, true] {
                    for (op, got) in [("{:?}", format!("{:?}", $m::new(b))), ("{:#?}", format!("{:#?}", $m::new(b)))] {
                        cmpfmt(&mut c, stringify!($m), op, got, format!("{}({})", stringify!($m), b));
                    }
                }
                c.leave(stringify!($m), "fmt", 4, 4);
            }
        )* };
    }
    sm!(m8 m16 m32 m64 m128 msize);
    c.finish()
}
