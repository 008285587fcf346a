//! C21: scalar masks
use packed_simd::*;
use vmon::*;

macro_rules! ok {
    ($c:ident, $t:expr, $op:expr, $cond:expr, $n:ident, $($a:tt)*) => {
        $n += 1;
        if !$cond { $c.violation($t, $op, format!($($a)*)); }
    };
}
fn main() {
    let mut c = Ctx::from_args("C21");
    macro_rules! sm {
        ($($m:ident $b:expr),*) => { $(
            if c.enter(stringify!($m), "scalar") {
                let t = stringify!($m);
                let mut n = 0u64;
                ok!(c, t, "size", std::mem::size_of::<$m>() * 8 == $b, n, "size {}", std::mem::size_of::<$m>());
                ok!(c, t, "default", !$m::default().test() && get(as_bytes(&$m::default()), K::M($b), 0) == 0, n, "default is not false");
                for x in [false, true] {
                    let a = $m::new(std::hint::black_box(x));
                    ok!(c, t, "test", a.test() == x, n, "new({}).test() = {}", x, a.test());
                    let r = get(as_bytes(&a), K::M($b), 0);
                    ok!(c, t, "repr", r == if x { ones($b) } else { 0 }, n, "new({}) has bits {:x}", x, r);
                    ok!(c, t, "hash", std_hash(&a) == std_hash(&x), n, "hash of {} differs from bool's", x);
                    #[allow(clippy::clone_on_copy)]
                    let cl = a.clone();
                    ok!(c, t, "clone", cl.test() == x, n, "clone of {}", x);
                    for y in [false, true] {
                        let b = $m::new(std::hint::black_box(y));
                        ok!(c, t, "eq", (a == b) == (x == y), n, "{} == {}", x, y);
                        ok!(c, t, "ne", (a != b) == (x != y), n, "{} != {}", x, y);
                        ok!(c, t, "lt", (a < b) == (x < y), n, "{} < {}", x, y);
                        ok!(c, t, "le", (a <= b) == (x <= y), n, "{} <= {}", x, y);
                        ok!(c, t, "gt", (a > b) == (x > y), n, "{} > {}", x, y);
                        ok!(c, t, "ge", (a >= b) == (x >= y), n, "{} >= {}", x, y);
                        ok!(c, t, "cmp", a.cmp(&b) == x.cmp(&y), n, "cmp({}, {})", x, y);
                        ok!(c, t, "partial_cmp", a.partial_cmp(&b) == x.partial_cmp(&y), n, "partial_cmp({}, {})", x, y);
                        ok!(c, t, "min", a.min(b).test() == x.min(y), n, "min({}, {})", x, y);
                        ok!(c, t, "max", a.max(b).test() == x.max(y), n, "max({}, {})", x, y);
                        for z in [false, true] {
                            let d = $m::new(std::hint::black_box(z));
                            let mut v = [a, b, d];
                            let mut w = [x, y, z];
                            v.sort();
                            w.sort();
                            ok!(c, t, "sort", v.iter().map(|q| q.test()).eq(w.iter().copied()), n, "sort {} {} {}", x, y, z);
                            ok!(c, t, "slice_hash", std_hash(&[a, b, d]).eq(&std_hash(&[a, b, d])), n, "hash not a function");
                            ok!(c, t, "clamp", a.max(b).min(d).test() == x.max(y).min(z), n, "max/min {} {} {}", x, y, z);
                        }
                    }
                }
                c.sample(|| format!("{}: {} exhaustive checks over both truth values", t, n));
                c.leave(t, "scalar", n, n);
            }
        )* };
    }
    sm!(m8 8, m16 16, m32 32, m64 64, m128 128, msize 64);
    // vectors <-> arrays of scalar masks, lane by lane
    macro_rules! mty {
        ($v:ident, $e:ident, $b:expr, $n:expr, $bm:ident, ($($i:tt)*)) => {{
            fn all(c: &mut Ctx) {
                const KK: K = K::M($b);
                const V: S = S::V(KK, $n);
                const BV: S = S::V(K::U(8), $n);
                const GB: [G; 3] = [G::Below(2), G::Any, G::Any];
                const TY: &str = stringify!($v);
                let same = |o: &Obs| if o.out == o.ins[0] { Ok(()) } else { Err("round trip changed the mask".to_string()) };
                let bools = |o: &Obs| {
                    for i in 0..$n {
                        if (o.out[i] != 0) != (o.ins[0][i] != 0) || (o.out[i] != 0 && o.out[i] != 1) { return Err(format!("lane {} reads {}", i, o.out[i])); }
                    }
                    Ok(())
                };
                let canon = |o: &Obs| {
                    for i in 0..$n {
                        if o.out[i] != if o.ins[0][i] != 0 { KK.mask() } else { 0 } { return Err(format!("lane {} is {:x}", i, o.out[i])); }
                    }
                    Ok(())
                };
                wh(c, op1(TY, "vec->array->vec", V, V, glue!(|a: $v| -> $v { let x: [$e; $n] = a.into(); x.into() })), ANY, &same);
                wh(c, op1(TY, "vec->array", V, V, glue!(|a: $v| -> [$e; $n] { a.into() })), ANY, &same);
                wh(c, op1(TY, "array.test", V, BV, glue!(|a: $v| -> [bool; $n] { let x: [$e; $n] = a.into(); [$(x[$i].test()),*] })), ANY, &bools);
                wh(c, op1(TY, "extract", V, BV, glue!(|a: $v| -> [bool; $n] { [$(a.extract($i)),*] })), ANY, &bools);
                wh(c, op1(TY, "bools->scalars->vec", BV, V, glue!(|a: [bool; $n]| -> $v { <$v>::from([$($e::new(a[$i])),*]) })), GB, &canon);
                wh(c, op1(TY, "extract->new->array->vec", V, V, glue!(|a: $v| -> $v { <$v>::from([$($e::new(a.extract($i))),*]) })), ANY, &same);
            }
            all(&mut c);
        }};
    }
    for_masks!(mty);
    c.finish()
}
