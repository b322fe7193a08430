//! F01 (real elementary functions), F02 (atan2), O05 (Ackley function): exhaustive enumeration of inputs against
//! references that do not use the library.
use magnesia::functions::{Abs, Asin, Atan2, Cos, Cosh, Exp, Ln, Sin, Sinh, Sqrt, Tan};
use magnesia::optimize::test_functions::ackley;
use mc::bf::{self, Bf, F32, F64};
use mc::engine::*;
use mc::ensure;

const TOL: f64 = 4.0;

/// Error of an f32 against a much more accurate f64, in units in the last place.
fn err32(got: f32, want: f64) -> f64 {
    if got.is_nan() || want.is_nan() {
        return if got.is_nan() && want.is_nan() { 0.0 } else { f64::INFINITY };
    }
    if want.is_infinite() {
        return if got as f64 == want { 0.0 } else { f64::INFINITY };
    }
    if got == 0.0 {
        // the sign of zero
        if got.is_sign_negative() != want.is_sign_negative() {
            return f64::INFINITY;
        }
    }
    let e = if want == 0.0 { -126 } else { (((want.to_bits() >> 52) & 0x7ff) as i32 - 1023).clamp(-126, 127) };
    let ulp = f64::from_bits(((e - 23 + 1023) as u64) << 52);
    if got.is_infinite() {
        let big = 2f64.powi(128);
        return if (got < 0.0) != (want < 0.0) { f64::INFINITY } else if want.abs() >= big { 0.0 } else { (big - want.abs()) / 2f64.powi(104) };
    }
    (got as f64 - want).abs() / ulp
}

type F1 = (&'static str, fn(f32) -> f32, fn(f64) -> f64);
const FUNS32: [F1; 8] = [
    ("asin", <f32 as Asin>::asin, f64::asin),
    ("cos", <f32 as Cos>::cos, f64::cos),
    ("cosh", <f32 as Cosh>::cosh, f64::cosh),
    ("exp", <f32 as Exp>::exp, f64::exp),
    ("ln", <f32 as Ln>::ln, f64::ln),
    ("sin", <f32 as Sin>::sin, f64::sin),
    ("sinh", <f32 as Sinh>::sinh, f64::sinh),
    ("tan", <f32 as Tan>::tan, f64::tan),
];
type F2 = (&'static str, fn(f64) -> f64, fn(f64) -> Want);
enum Want {
    Nan,
    Exact(f64),
    Approx(Bf),
}
use Want::*;
fn zero_or(x: f64, f: impl Fn(f64) -> Bf) -> Want {
    // odd functions: exact signed zero at zero
    if x == 0.0 { Exact(x) } else { Approx(f(x)) }
}
fn w_asin(x: f64) -> Want {
    if x.is_nan() || x.abs() > 1.0 { Nan } else { zero_or(x, Bf::asin) }
}
fn w_sin(x: f64) -> Want {
    if !x.is_finite() { Nan } else { zero_or(x, |x| bf::sin_cos(x).0) }
}
fn w_cos(x: f64) -> Want {
    if !x.is_finite() { Nan } else { Approx(bf::sin_cos(x).1) }
}
fn w_tan(x: f64) -> Want {
    if !x.is_finite() { Nan } else { zero_or(x, |x| { let (s, c) = bf::sin_cos(x); s.div(c) }) }
}
fn w_exp(x: f64) -> Want {
    if x.is_nan() { Nan } else if x == f64::INFINITY { Exact(x) } else if x == f64::NEG_INFINITY { Exact(0.0) } else { Approx(Bf::f(x).exp()) }
}
fn w_sinh(x: f64) -> Want {
    if x.is_nan() { Nan } else if x.is_infinite() { Exact(x) } else { zero_or(x, |x| Bf::f(x).sinh()) }
}
fn w_cosh(x: f64) -> Want {
    if x.is_nan() { Nan } else if x.is_infinite() { Exact(f64::INFINITY) } else { Approx(Bf::f(x).cosh()) }
}
fn w_ln(x: f64) -> Want {
    if x.is_nan() || x < 0.0 { Nan } else if x == 0.0 { Exact(f64::NEG_INFINITY) } else if x.is_infinite() { Exact(x) } else if x == 1.0 { Exact(0.0) } else { Approx(Bf::f(x).ln()) }
}
const FUNS64: [F2; 8] = [
    ("asin", <f64 as Asin>::asin, w_asin),
    ("cos", <f64 as Cos>::cos, w_cos),
    ("cosh", <f64 as Cosh>::cosh, w_cosh),
    ("exp", <f64 as Exp>::exp, w_exp),
    ("ln", <f64 as Ln>::ln, w_ln),
    ("sin", <f64 as Sin>::sin, w_sin),
    ("sinh", <f64 as Sinh>::sinh, w_sinh),
    ("tan", <f64 as Tan>::tan, w_tan),
];
fn err64(got: f64, want: &Want) -> f64 {
    match want {
        Nan => if got.is_nan() { 0.0 } else { f64::INFINITY },
        Exact(w) => if got.to_bits() == w.to_bits() { 0.0 } else { f64::INFINITY },
        Approx(b) => {
            if got == 0.0 && !b.is_zero() && got.is_sign_negative() != (b.m.0 < 0.0) {
                return f64::INFINITY;
            }
            F64.ulps(got, *b)
        }
    }
}
/// Whether s is the correctly rounded square root of the finite positive x.
fn sqrt_correct(x: f64, s: f64) -> bool {
    let dec = |v: f64| {
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let sh = m.leading_zeros() as i64 - 11;
        (m << sh, e - sh)
    };
    if !(s > 0.0) || !s.is_finite() {
        return false;
    }
    let ((mx, ex), (ms, es)) = (dec(x), dec(s));
    // (2 ms - 1)^2 * 2^(2 es) < 4 mx 2^ex < (2 ms + 1)^2 2^(2 es)
    let sh = ex - 2 * es;
    if !(0..=70).contains(&sh) {
        return false;
    }
    let v = (mx as u128) << (sh + 2);
    let (lo, hi) = (2 * ms as u128 - 1, 2 * ms as u128 + 1);
    lo * lo < v && v < hi * hi
}
fn points64(w: &Worker, e: usize) -> Vec<f64> {
    // all mantissas of the form: high bits pattern | low bits pattern
    let (hb, lows): (u32, &[u64]) = if w.tier == Tier::Quick { (if w.second_run() { 4 } else { 6 }, &[0, 1, 2, 0x1234_5678_9abc, 0x5555_5555_5555, 0xffff_ffff_ffff]) } else { (9, &[0, 1, 2, 3, 7, 0x1234_5678_9abc >> 5, 0x5555_5555_5555 >> 5, 0xaaaa_aaaa_aaaa >> 5, (1 << 43) - 1, (1 << 43) - 2]) };
    let mut v = vec![];
    for h in 0..1u64 << hb {
        for l in lows {
            let m = h << (52 - hb) | (l & ((1 << (52 - hb)) - 1));
            for s in [0u64, 1] {
                v.push(f64::from_bits(s << 63 | (e as u64) << 52 | m));
            }
        }
    }
    v
}
/// Decimal, integer and dense grids: the values that tables, range splits and shortcuts go by.
fn decimals(w: &Worker, p: usize, parts: usize) -> Vec<f64> {
    let t = w.tier == Tier::Thorough;
    let (ni, nk, nd) = if t { (1_000_000i64, 1_000_000i64, 3_000_000i64) } else { (100_000, 100_000, 150_000) };
    let mut v = vec![];
    let mut k = p as i64;
    while k <= ni.max(nk).max(nd) {
        if k <= ni {
            v.extend([k as f64, k as f64 + 0.5]);
        }
        if k <= nk {
            v.extend([k as f64 / 1000.0, k as f64 / 64.0, k as f64 * std::f64::consts::PI / 180.0, k as f64 / 1e6, 1.0 - k as f64 / 1e7, 1.0 + k as f64 / 1e7]);
        }
        if k <= nd {
            v.push(k as f64 * 750.0 / nd as f64);
        }
        k += parts as i64;
    }
    let mut r: Vec<f64> = v.iter().map(|x| -x).collect();
    r.extend(v);
    r
}
fn near(x: f64, n: u64) -> Vec<f64> {
    // x and its neighbours, both signs
    let mut v = vec![];
    for d in 0..=n {
        for b in [x.to_bits().wrapping_add(d), x.to_bits().wrapping_sub(d)] {
            v.push(f64::from_bits(b));
            v.push(-f64::from_bits(b));
        }
    }
    v
}
/// Whether sine or cosine are so small that the reduction of huge arguments dominates the error.
fn near_zero_or_pole(x: f64) -> bool {
    let (s, c) = bf::sin_cos(x);
    s.to_f64().abs().min(c.to_f64().abs()) < 1e-15
}
fn check64(w: &mut Worker, pts: &[f64], what: &str) {
    for (name, f, want) in FUNS64 {
        w.case(|| format!("{name} on {what}"), |w| {
            for &x in pts {
                let got = f(x);
                let mut e = err64(got, &want(x));
                if e > TOL && x.abs() > 1e8 && x.is_finite() && near_zero_or_pole(x) {
                    // the system library reduces huge arguments with an absolute error of about 2^-110
                    let r = match want(x) { Approx(b) => b, _ => unreachable!() };
                    let d = Bf::f(got).sub(r).abs();
                    let scale = if name == "tan" { Bf::f(1.0).add(r.mul(r)) } else { Bf::f(1.0) };
                    w.max("reduction error * 2^110", d.div(scale).to_f64() * 2f64.powi(110));
                    if d.div(scale).to_f64() < 2f64.powi(-105) {
                        e = 0.0
                    }
                }
                if e > TOL {
                    let s = match want(x) { Nan => "NaN".into(), Exact(v) => format!("{v:e}"), Approx(b) => format!("{:e}", b.to_f64()) };
                    return Err(format!("{name}({x:e}) = {got:e} (bits of x {:#x}), expected {s}, error {e} ulp", x.to_bits()));
                }
                w.max(name, e);
                w.outcome(&(name, got.to_bits() >> 51));
            }
            w.ops(pts.len() as u64);
            w.distinct(pts.len() as u64);
            Ok(())
        });
    }
    w.case(|| format!("sqrt and abs on {what}"), |w| {
        for &x in pts {
            let s = Sqrt::sqrt(&x);
            let ok = if x.is_nan() || x < 0.0 { s.is_nan() } else if x == 0.0 || x.is_infinite() { s.to_bits() == x.to_bits() } else { sqrt_correct(x, s) };
            ensure!(ok, "sqrt({x:e}) = {s:e} is not the correctly rounded square root (bits of x {:#x})", x.to_bits());
            let (a, b): (f64, f64) = (Abs::abs(x), Abs::abs(&x));
            let want = f64::from_bits(x.to_bits() & !(1 << 63));
            for a in [a, b] {
                ensure!(if x.is_nan() { a.is_nan() } else { a.to_bits() == want.to_bits() }, "abs({x:e}) = {a:e}");
            }
        }
        w.ops(3 * pts.len() as u64);
        Ok(())
    });
}

fn f01(c: &mut Check) {
    match bf::selftest() {
        Ok(_) => {}
        Err(e) => {
            eprintln!("reference self-test failed: {e}");
            std::process::exit(3)
        }
    }
    let t = !c.quick();
    // f32: thorough all 2^32 values; quick: all values of the high 17 bits x 2^7 low patterns
    let lows: Vec<u32> = if t { (0..1 << 15).collect() } else { (0..64).chain((0..64).map(|i| 0x7fff - i * 509)).collect() };
    let all: Vec<u32> = (0..1 << 15).collect();
    c.suite("f32", if t { "all 2^32 values of f32 x 10 functions against f64 references" } else { "f32: all values with 2^-14 <= |x| < 2^8 (main run), and elsewhere all signs, exponents and 8 high mantissa bits x 128 patterns of the low bits, x 10 functions, against f64 references" }, 512, |w, p| {
        for h in (p as u32) << 8..(p as u32 + 1) << 8 {
            w.case(|| format!("f32 with high bits {h:#x}"), |w| {
                let e = h >> 8 & 0xff;
                let lows = if !w.second_run() && (127 - 14..127 + 8).contains(&e) { &all } else { &lows };
                for l in lows {
                    let x = f32::from_bits(h << 15 | l);
                    for (name, f, g) in FUNS32 {
                        let got = f(x);
                        let want = g(x as f64);
                        let e = err32(got, want);
                        if e > TOL {
                            return Err(format!("{name}({x:e}) = {got:e} (bits of x {:#x}), expected {want:e}, error {e} ulp", x.to_bits()));
                        }
                        if e > 0.5 {
                            w.max(name, e);
                        }
                    }
                    let s = Sqrt::sqrt(&x);
                    let want = (x as f64).sqrt() as f32;
                    ensure!(if want.is_nan() { s.is_nan() } else { s.to_bits() == want.to_bits() }, "sqrt({x:e}) = {s:e}, expected {want:e}");
                    let want = f32::from_bits(x.to_bits() & !(1 << 31));
                    let (a, b): (f32, f32) = (Abs::abs(x), Abs::abs(&x));
                    for a in [a, b] {
                        ensure!(if x.is_nan() { a.is_nan() } else { a.to_bits() == want.to_bits() }, "abs({x:e}) = {a:e}");
                    }
                }
                w.ops(11 * lows.len() as u64);
                w.distinct(lows.len() as u64);
                Ok(())
            });
        }
    });
    c.suite("f64-grid", "f64: all 2048 exponents x both signs x mantissa patterns (64 x 6, thorough 512 x 10) x 10 functions against the double-double reference", 2048, |w, e| {
        let pts = points64(w, e);
        check64(w, &pts, &format!("mantissa patterns with exponent field {e}"));
    });
    c.suite("f64-decimals", "f64, both signs: all k and k + 1/2, k/1000, k/64, k degrees in radians, k/10^6, 1 -+ k/10^7 for k up to 100000 (thorough 1000000), dense grid on [-750, 750] of 300001 (thorough 6000001) points", if c.quick() { 512 } else { 4096 }, |w, p| {
        if w.second_run() && p % 8 != 0 {
            return;
        }
        let pts = decimals(w, p, if w.tier == Tier::Quick { 512 } else { 4096 });
        check64(w, &pts, &format!("decimal, integer and dense grids, slice {p}"));
    });
    let kmax = c.by_tier(256usize, 4096);
    c.suite("f64-critical", &format!("f64: neighbourhoods (+-3 ulp) of multiples of pi/4 up to {kmax}, of ln 2 multiples, of 1 -+ 2^-k, of overflow and underflow thresholds, hard cases of argument reduction"), 64, |w, p| {
        let n = 3;
        let mut v = vec![];
        let mut k = p;
        while k <= kmax {
            v.extend(near(k as f64 * std::f64::consts::FRAC_PI_4, n));
            v.extend(near(k as f64 * std::f64::consts::LN_2 / 2.0, n));
            k += 64;
        }
        for k in 1..53i32 {
            if k as usize % 64 == p {
                v.extend(near(1.0 - 2f64.powi(-k), n));
                v.extend(near(1.0 + 2f64.powi(-k), n));
            }
        }
        if p == 0 {
            for x in [709.782712893384, 710.4758600739439, -708.3964185322641, -745.1332191019411, 744.4400719213812, 0.5, 1.0, 1e16, 1e22, 1e300, 6381956970095103.0 * 2f64.powi(797), 5.319372648326541e255, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NAN, 0.0] {
                v.extend(near(x, 8));
            }
        }
        check64(w, &v, &format!("critical points, slice {p}"));
    });
    c.assume("f32: the host's f64 functions, whose own error is below 2^-20 f32 ulp, serve as reference; f64: a double-double reference (relative error < 2^-90, self-tested against mpmath values).");
    c.assume("A few units in the last place: 4 ulp (measured on the unchanged tree: see max_* in the suites).");
}

// ------------------------------------------------------------------------------------------------ F02
fn alpha32(t: bool) -> Vec<f32> {
    let ms: &[u32] = if t { &[0, 1, 2, 0x0fffff, 0x2aaaaa, 0x3504f3, 0x400000, 0x555555, 0x6aaaab, 0x7fffff] } else { &[0, 1, 0x0fffff, 0x2aaaaa, 0x3504f3, 0x400000, 0x555555, 0x7fffff] };
    let mut v = vec![];
    for e in 0..=255u32 {
        for m in ms {
            if e == 255 && *m > 1 && *m != 0x7fffff {
                continue;
            }
            for s in [0u32, 1] {
                v.push(f32::from_bits(s << 31 | e << 23 | m));
            }
        }
    }
    v
}
fn alpha64(t: bool) -> Vec<f64> {
    let ms: &[u64] = if t { &[0, 1, 1 << 51, 0x5555_5555_5555_5, 0xf_ffff_ffff_ffff] } else { &[0, 1, 0x5555_5555_5555_5, 0xf_ffff_ffff_ffff] };
    let mut es: Vec<u64> = vec![0, 1, 2, 500, 900, 960, 970, 1000, 1010, 1100, 1500, 2044, 2045, 2046, 2047];
    es.extend(1000..1046);
    es.extend((3..2044).step_by(61));
    if t {
        es.extend((3..2044).step_by(9));
        es.extend(900..1150);
    }
    es.sort();
    es.dedup();
    let mut v = vec![];
    for e in es {
        for m in ms {
            for s in [0u64, 1] {
                v.push(f64::from_bits(s << 63 | e << 52 | m));
            }
        }
    }
    v
}
/// IEEE 754 (and C99 F.10.1.4) values at zeros, infinities, NaN.
fn atan2_special(y: f64, x: f64) -> Option<Result<f64, Bf>> {
    let pi = Bf::pi();
    let sg = |b: Bf| if y.is_sign_negative() { b.neg() } else { b };
    Some(if y.is_nan() || x.is_nan() {
        Ok(f64::NAN)
    } else if y == 0.0 {
        if x.is_sign_negative() { Err(sg(pi)) } else { Ok(y) }
    } else if y.is_infinite() {
        if x.is_infinite() {
            let q = pi.half().half();
            Err(sg(if x > 0.0 { q } else { pi.sub(q) }))
        } else {
            Err(sg(pi.half()))
        }
    } else if x.is_infinite() {
        if x > 0.0 { Ok(0f64.copysign(y)) } else { Err(sg(pi)) }
    } else if x == 0.0 {
        Err(sg(pi.half()))
    } else {
        return None;
    })
}
fn f02(c: &mut Check) {
    if let Err(e) = bf::selftest() {
        eprintln!("reference self-test failed: {e}");
        std::process::exit(3)
    }
    let t = !c.quick();
    let a = alpha32(t);
    c.suite("f32-grid", &format!("all pairs of {} f32 values (all exponents, both signs, zeros, subnormals, infinities, NaN) against f64", a.len()), a.len(), |w, p| {
        let y = a[p];
        w.case(|| format!("y = {y:e}, all x"), |w| {
            for &x in &a {
                let got = Atan2::atan2(y, x);
                let want = (y as f64).atan2(x as f64);
                // the f64 reference itself must be right at the special values
                if let Some(s) = atan2_special(y as f64, x as f64) {
                    let ok = match s { Ok(v) => v.to_bits() == want.to_bits() || v.is_nan() && want.is_nan(), Err(b) => F64.ulps(want, b) <= 1.0 };
                    assert!(ok, "reference atan2({y}, {x}) = {want}");
                }
                let e = err32(got, want);
                ensure!(e <= TOL, "atan2({y:e}, {x:e}) = {got:e}, expected {want:e}, error {e} ulp");
                w.max("ulp", e);
            }
            w.ops(a.len() as u64);
            w.distinct(a.len() as u64);
            Ok(())
        });
    });
    let b = alpha64(t);
    c.suite("f64-grid", &format!("all pairs of {} f64 values (exponent ladder with all special values) against the double-double reference", b.len()), b.len(), |w, p| {
        let y = b[p];
        w.case(|| format!("y = {y:e}, all x"), |w| {
            for &x in &b {
                let got = Atan2::atan2(y, x);
                let (e, want) = match atan2_special(y, x) {
                    Some(Ok(v)) => (if v.is_nan() && got.is_nan() || v.to_bits() == got.to_bits() { 0.0 } else { f64::INFINITY }, v),
                    Some(Err(r)) => (F64.ulps(got, r), r.to_f64()),
                    None => {
                        let r = Bf::atan2(Bf::f(y), Bf::f(x));
                        let sign_ok = got != 0.0 || got.is_sign_negative() == y.is_sign_negative();
                        (if sign_ok { F64.ulps(got, r) } else { f64::INFINITY }, r.to_f64())
                    }
                };
                ensure!(e <= TOL, "atan2({y:e}, {x:e}) = {got:e}, expected {want:e}, error {e} ulp");
                w.max("ulp", e);
            }
            w.ops(b.len() as u64);
            w.distinct(b.len() as u64);
            Ok(())
        });
    });
    // all directions, at several distances
    let n = c.by_tier(20_000usize, 1_000_000);
    c.suite("angles", &format!("points at {n} angles of the full circle x 16 distances from 2^-1000 to 2^1000, f64, and 2^-120 to 2^120, f32"), 512, |w, p| {
        w.case(|| format!("angles k * 2 pi / {n}, k = {p} mod 512"), |w| {
            let mut k = p;
            while k < n {
                let (s, c) = (k as f64 / n as f64 * std::f64::consts::TAU).sin_cos();
                for d in [-1000, -520, -300, -90, -40, -13, -1, 0, 1, 2, 10, 31, 64, 333, 511, 1000] {
                    for m in [1.0, 1.37] {
                        let (y, x) = (s * m * 2f64.powi(d), c * m * 2f64.powi(d));
                        if y != 0.0 && x != 0.0 {
                            let (r, g) = (Bf::atan2(Bf::f(y), Bf::f(x)), Atan2::atan2(y, x));
                            let e = F64.ulps(g, r);
                            ensure!(e <= TOL, "atan2({y:e}, {x:e}) = {g:e}, expected {:e}, error {e} ulp", r.to_f64());
                        }
                        let h = 2f64.powf(d as f64 * 0.12);
                        let (y, x) = ((s * m * h) as f32, (c * m * h) as f32);
                        let (r, g) = ((y as f64).atan2(x as f64), Atan2::atan2(y, x));
                        let e = err32(g, r);
                        ensure!(e <= TOL, "atan2({y:e}, {x:e}) = {g:e}, expected {r:e}, error {e} ulp");
                    }
                }
                w.ops(64);
                w.distinct(64);
                k += 512;
            }
            Ok(())
        });
    });
    // points on rays: all integer directions
    let n = c.by_tier(400i32, 2000);
    c.suite("directions", &format!("all integer points (x, y) with |x|, |y| <= {n}, f32 and f64"), 2 * n as usize + 1, |w, p| {
        let yi = p as i32 - n;
        w.case(|| format!("y = {yi}, all x"), |w| {
            for xi in -n..=n {
                let (y, x) = (yi as f64, xi as f64);
                let r = match atan2_special(y, x) { Some(Ok(v)) => Bf::f(v), Some(Err(r)) => r, None => Bf::atan2(Bf::f(y), Bf::f(x)) };
                let (g, h) = (Atan2::atan2(y, x), Atan2::atan2(yi as f32, xi as f32));
                ensure!(F64.ulps(g, r) <= TOL && F32.ulps(h as f64, r) <= TOL, "atan2({y}, {x}) = {g:e} (f64), {h:e} (f32), expected {:e}", r.to_f64());
            }
            w.ops(2 * (2 * n as u64 + 1));
            w.distinct(2 * n as u64 + 1);
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------------------ O05
fn ackley_ref(x: f64, y: f64) -> f64 {
    let tau = 2.0 * std::f64::consts::PI;
    // exp_m1 forms avoid cancellation at the origin
    let a = -20.0 * (-0.2 * (0.5 * (x * x + y * y)).sqrt()).exp_m1();
    let s = |t: f64| -2.0 * (std::f64::consts::PI * t).sin().powi(2); // cos(tau t) - 1
    let _ = tau;
    let b = -std::f64::consts::E * (0.5 * (s(x) + s(y))).exp_m1();
    a + b
}
fn o05_points(w: &mut Worker, xs: &[f32], y: f32) {
    w.case(|| format!("y = {y:e}, {} values of x from {:e} to {:e}", xs.len(), xs[0], xs[xs.len() - 1]), |w| {
        for &x in xs {
            let f = ackley(x, y);
            let want = ackley_ref(x as f64, y as f64);
            // rounding error: a few f32 epsilons of the largest term (20 near the rim, E near the origin) and of 2 pi x
            let tol = f32::EPSILON as f64 * (4.0 * want.abs() + 2.0 * std::f64::consts::E * (1.0 + std::f64::consts::PI * (x.abs() as f64 + y.abs() as f64)));
            let err = (f as f64 - want).abs();
            ensure!(err <= tol, "ackley({x:e}, {y:e}) = {f:e}, expected {want:e} +- {tol:e}");
            w.max("error/tolerance", err / tol);
            ensure!(f >= 0.0, "ackley({x:e}, {y:e}) = {f:e} is negative");
            ensure!(f > 0.0 || want <= tol, "ackley({x:e}, {y:e}) = {f:e}, expected {want:e}");
            if x == 0.0 && y == 0.0 {
                ensure!(f == 0.0, "ackley at the origin is {f:e}");
            }
            for (a, b) in [(-x, y), (x, -y), (-x, -y), (y, x), (-y, x)] {
                let g = ackley(a, b);
                ensure!((g as f64 - f as f64).abs() <= 2.0 * tol, "ackley({x:e}, {y:e}) = {f:e} but ackley({a:e}, {b:e}) = {g:e}");
            }
        }
        w.ops(6 * xs.len() as u64);
        w.distinct(xs.len() as u64);
        Ok(())
    });
}
fn o05(c: &mut Check) {
    let d = c.by_tier(64i32, 512);
    let n = 5 * d;
    let xs: Vec<f32> = (-n..=n).map(|i| i as f32 / d as f32).collect();
    c.suite("grid", &format!("all points of the grid with spacing 1/{d} on [-5, 5]^2, against f64; symmetries; sign"), xs.len(), |w, p| o05_points(w, &xs, xs[p]));
    let m = c.by_tier(500i32, 3000);
    let ys: Vec<f32> = (-m..=m).map(|i| (i as f64 * 5.0 / m as f64) as f32).collect();
    c.suite("decimal-grid", &format!("all points of a grid with {} non-dyadic coordinates per axis", ys.len()), ys.len(), |w, p| o05_points(w, &ys, ys[p]));
    let mut zs: Vec<f32> = vec![0.0, -0.0];
    for e in 0..=129u32 {
        for k in 0..c.by_tier(2u32, 8) {
            let x = f32::from_bits(e << 23 | k * (0x7fffff / 8));
            if x <= 5.0 {
                zs.push(x);
                zs.push(-x);
            }
        }
    }
    c.suite("exponents", &format!("all pairs of {} coordinates from all exponents (subnormal to 5), around the origin and the axes", zs.len()), zs.len(), |w, p| o05_points(w, &zs, zs[p]));
    let ints: Vec<f32> = (0..=10u32).flat_map(|k| { let h = k as f32 / 2.0; let b = h.to_bits(); (0..=16u32).flat_map(move |d| [f32::from_bits(b.saturating_add(d)), f32::from_bits(b.saturating_sub(d))]) }).filter(|x| *x <= 5.0).flat_map(|x| [x, -x]).collect();
    c.suite("extrema", &format!("neighbourhoods (16 ulp) of the half-integer lattice points, where the local extrema lie: all pairs of {} coordinates", ints.len()), ints.len(), |w, p| o05_points(w, &ints, ints[p]));
}

fn main() {
    main_for(&[("F01", f01), ("F02", f02), ("O05", o05)])
}
