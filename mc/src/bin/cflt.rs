//! C03 (complex floating point arithmetic), C04 (exp, sin, cos, sinh, cosh, tan), C05 (sqrt, ln, arg, abs):
//! exhaustive enumeration of grids of f32 and f64 components against a reference with more precision and range.
use magnesia::algebra::{Complex, Conj};
use magnesia::functions::{Abs, Atan2, Cos, Cosh, Exp, Ln, Sin, Sinh, Sqrt, Tan};
use mc::bf::{self, Bf, Fmt, F32, F64};
use mc::engine::*;
use mc::ensure;
use std::ops::{Add, Div, Mul, Neg, Sub};

trait Fl: Copy + Send + Sync + 'static + PartialOrd + std::fmt::LowerExp + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> {
    const F: Fmt;
    const NAME: &'static str;
    fn w(self) -> f64;
    /// Rounds to this type.
    fn of(x: f64) -> Self;
    fn next(self, k: i32) -> Self;
    /// sign, exponent field and 52 bit mantissa pattern
    fn make(neg: bool, e: i32, m: u64) -> Self;
    fn b(self) -> u64 {
        self.w().to_bits()
    }
    fn bf(self) -> Bf {
        Bf::f(self.w())
    }
}
impl Fl for f32 {
    const F: Fmt = F32;
    const NAME: &'static str = "f32";
    fn w(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn next(self, k: i32) -> f32 {
        f32::from_bits((self.to_bits() as i64 + k as i64) as u32)
    }
    fn make(neg: bool, e: i32, m: u64) -> f32 {
        let m = (m >> 29) as u32 & 0x7fffff;
        let v = if e < -126 { f32::from_bits((1 << 23 | m) >> (-126 - e).min(31)) } else { f32::from_bits(((e + 127) as u32) << 23 | m) };
        if neg { -v } else { v }
    }
}
impl Fl for f64 {
    const F: Fmt = F64;
    const NAME: &'static str = "f64";
    fn w(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
    fn next(self, k: i32) -> f64 {
        f64::from_bits((self.to_bits() as i64 + k as i64) as u64)
    }
    fn make(neg: bool, e: i32, m: u64) -> f64 {
        let m = m & ((1 << 52) - 1);
        let v = if e < -1022 { f64::from_bits((1 << 52 | m) >> (-1022 - e).min(63)) } else { f64::from_bits(((e + 1023) as u64) << 52 | m) };
        if neg { -v } else { v }
    }
}
fn z<T: Fl>(x: T, y: T) -> String {
    format!("{x:e} + {y:e} i (bits {:#x}, {:#x} as f64)", x.b(), y.b())
}
fn signs<T: Fl>(v: &mut Vec<T>) {
    let n: Vec<T> = v.iter().map(|x| -*x).collect();
    v.extend(n);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.b()));
}
/// Neither overflow nor underflow: zero because of a zero factor, or a normal number.
fn fits(f: Fmt, x: Bf) -> bool {
    f.normal(x)
}
fn check_reference() {
    if let Err(e) = bf::selftest() {
        eprintln!("reference self-test failed: {e}");
        std::process::exit(3)
    }
}

// ------------------------------------------------------------------------------------------------ C03
const MUL: f64 = 3.0;
const DIV: f64 = 6.0;
const NORM: f64 = 3.0;

fn norm2(x: Bf, y: Bf) -> Bf {
    x.mul(x).add(y.mul(y))
}
fn same<T: Fl>(op: &str, got: Complex<T>, re: T, im: T) -> Result<(), String> {
    ensure!(got.re.b() == re.b() && got.im.b() == im.b(), "{op}: got {}, the correctly rounded components are {}", z(got.re, got.im), z(re, im));
    Ok(())
}
macro_rules! arith {
    ($name:ident, $T:ty) => {
        fn $name(w: &mut Worker, a: Complex<$T>, b: Complex<$T>) -> Result<(), String> {
            type T = $T;
            let f = <T as Fl>::F;
            let finite = |x: T, y: T| x.is_finite() && y.is_finite();
            let mut n = 0;
            // component-wise operations
            let (re, im) = (a.re + b.re, a.im + b.im);
            if finite(re, im) {
                let mut c = a;
                c += b;
                let mut d = a;
                d += &b;
                same("a + b", a + b, re, im)?;
                same("a += b", c, re, im)?;
                same("a += &b", d, re, im)?;
                n += 3;
            }
            let (re, im) = (a.re - b.re, a.im - b.im);
            if finite(re, im) {
                let mut c = a;
                c -= b;
                let mut d = a;
                d -= &b;
                same("a - b", a - b, re, im)?;
                same("a -= b", c, re, im)?;
                same("a -= &b", d, re, im)?;
                n += 3;
            }
            let (ax, ay, bx, by) = (a.re.bf(), a.im.bf(), b.re.bf(), b.im.bf());
            let (na, nb) = (norm2(ax, ay), norm2(bx, by));
            // scalar product and quotient
            let s = b.re;
            if fits(f, ax.mul(bx)) && fits(f, ay.mul(bx)) {
                same("a * s", a * s, a.re * s, a.im * s)?;
                n += 1;
            }
            if s != 0.0 && fits(f, ax.div(bx)) && fits(f, ay.div(bx)) {
                let (re, im) = (a.re / s, a.im / s);
                same("a / s", a / s, re, im)?;
                same("a / &s", a / &s, re, im)?;
                same("&a / &s", &a / &s, re, im)?;
                n += 3;
            }
            // complex product
            let (p1, p2, p3, p4) = (ax.mul(bx), ax.mul(by), ay.mul(bx), ay.mul(by));
            let products = fits(f, p1) && fits(f, p2) && fits(f, p3) && fits(f, p4);
            let (re, im) = (p1.sub(p4), p2.add(p3));
            let mag = |re: Bf, im: Bf| norm2(re, im).sqrt();
            let err = |c: Complex<T>, re: Bf, im: Bf| {
                let m = mag(re, im);
                if !c.re.is_finite() || !c.im.is_finite() {
                    return f64::INFINITY;
                }
                let d = mag(c.re.bf().sub(re), c.im.bf().sub(im));
                f.eps(d.to_f64(), Bf::ZERO, m)
            };
            if products && f.normal(mag(re, im)) {
                let mut c = a;
                c *= b;
                for (op, c) in [("a * b", a * b), ("&a * &b", &a * &b), ("a *= b", c)] {
                    let e = err(c, re, im);
                    ensure!(e <= MUL, "{op} = {}, error {e} machine epsilons relative to the magnitude of the exact result {:e} + {:e} i", z(c.re, c.im), re.to_f64(), im.to_f64());
                    w.max("mul", e);
                    n += 1;
                }
            }
            // complex quotient
            let (qre, qim) = (p1.add(p4), p3.sub(p2));
            if products && !nb.is_zero() && f.normal(nb) && fits(f, bx.mul(bx)) && fits(f, by.mul(by)) && f.normal(mag(qre, qim)) {
                let (re, im) = (qre.div(nb), qim.div(nb));
                if f.normal(mag(re, im)) {
                    for (op, c) in [("a / b", a / b), ("&a / &b", &a / &b)] {
                        let e = err(c, re, im);
                        ensure!(e <= DIV, "{op} = {}, error {e} machine epsilons relative to the magnitude of the exact result {:e} + {:e} i", z(c.re, c.im), re.to_f64(), im.to_f64());
                        w.max("div", e);
                        n += 1;
                    }
                }
            }
            let _ = na;
            w.ops(n);
            Ok(())
        }
    };
}
arith!(arith32, f32);
arith!(arith64, f64);
macro_rules! unary {
    ($name:ident, $T:ty) => {
        fn $name(w: &mut Worker, a: Complex<$T>) -> Result<(), String> {
            let f = <$T as Fl>::F;
            same("-a", -a, -a.re, -a.im)?;
            same("conj", a.conj(), a.re, -a.im)?;
            let (x, y) = (a.re.bf(), a.im.bf());
            let n = norm2(x, y);
            w.ops(3);
            if f.normal(n) && fits(f, x.mul(x)) && fits(f, y.mul(y)) {
                let g = a.sqr_norm();
                ensure!(g.is_finite(), "squared norm {g:e}, expected {:e}", n.to_f64());
                let e = f.eps(g.w(), n, n);
                ensure!(e <= NORM, "squared norm {g:e}, expected {:e}, error {e} machine epsilons", n.to_f64());
                w.max("norm", e);
            }
            Ok(())
        }
    };
}
unary!(unary32, f32);
unary!(unary64, f64);

fn ladder<T: Fl>(es: impl Iterator<Item = i32>, ms: &[u64]) -> Vec<T> {
    let mut v = vec![];
    for e in es {
        for m in ms {
            v.push(T::make(false, e, *m));
        }
    }
    v
}
const M1: u64 = 0x5_5555_5555_5555;
const M2: u64 = 0xf_ffff_ffff_ffff;
const M3: u64 = 0x8_0000_2000_0001;

fn c03_one<T: Fl>(c: &mut Check, ar: fn(&mut Worker, Complex<T>, Complex<T>) -> Result<(), String>, un: fn(&mut Worker, Complex<T>) -> Result<(), String>) {
    let f = T::F;
    let (lo, hi) = (f.emin as i32, f.emax as i32);
    // quadruples around 1: cancellations, rounding
    let mut a: Vec<T> = [0.0, 1.0, 3.0, 0.1, 7.0 / 3.0].map(T::of).to_vec();
    a.push(T::make(false, 0, 1 << 29)); // one bit above 1 in f32
    a.push(T::of(1.0).next(1));
    a.push(T::of(1.0).next(-1));
    a.extend([1e-3, 1.5, 0.7, 123.456, 1e-8, 1e8].map(T::of));
    a.push(T::make(false, -1, M2 - (1 << 30)));
    a.push(T::make(false, 12, M3));
    if !c.quick() {
        a.extend([2.5, 0.3, 1e-5, 9999.0, 1e-7, 3e7, 5.0 / 3.0].map(T::of));
        a.push(T::make(false, -12, M1));
        a.push(T::make(false, 1, M2 - (1 << 29)));
    }
    signs(&mut a);
    let n = a.len();
    c.suite(&format!("{}-near-one", T::NAME), &format!("all pairs of complex numbers with components from {n} values of moderate size (signed zeros, 1 -+ ulp, ...)"), n * n, |w, p| {
        let x = Complex::new(a[p % n], a[p / n]);
        w.case(|| format!("a = {}", z(x.re, x.im)), |w| {
            un(w, x)?;
            for &br in &a {
                for &bi in &a {
                    let b = Complex::new(br, bi);
                    ar(w, x, b).map_err(|e| format!("b = {}: {e}", z(br, bi)))?;
                    w.outcome(&((br.b() ^ x.re.b()) >> 44, (bi.b() ^ x.im.b()) >> 44));
                }
            }
            w.distinct((n * n) as u64);
            Ok(())
        });
    });
    // quadruples over the exponent range
    let q = c.by_tier(17, 33);
    let es: Vec<i32> = (0..q).map(|k| lo / 2 + 2 + k * ((hi - lo) / 2 - 4) / (q - 1)).collect();
    let mut a: Vec<T> = es.iter().enumerate().map(|(i, e)| T::make(false, *e, [M1, M2, M3, 0][i % 4])).collect();
    a.extend([0.0].map(T::of));
    signs(&mut a);
    let n = a.len();
    c.suite(&format!("{}-scales", T::NAME), &format!("all pairs of complex numbers with components from {n} values spread over the exponents {}..{}", es[0], es[es.len() - 1]), n * n, |w, p| {
        let x = Complex::new(a[p % n], a[p / n]);
        w.case(|| format!("a = {}", z(x.re, x.im)), |w| {
            un(w, x)?;
            for &br in &a {
                for &bi in &a {
                    ar(w, x, Complex::new(br, bi)).map_err(|e| format!("b = {}: {e}", z(br, bi)))?;
                }
            }
            w.distinct((n * n) as u64);
            Ok(())
        });
    });
    // pairs over the whole range of exponents, and the extremes
    let step = if lo < -200 { c.by_tier(4, 2) } else { 1 };
    let mut a: Vec<T> = ladder((lo - f.p as i32..=hi).step_by(step), if c.quick() { &[0, M1] } else { &[0, M1, M2, M3, 1 << 40] });
    a.extend([0.0].map(T::of));
    a.push(T::make(false, hi, M2));
    a.push(T::make(false, lo, 0));
    signs(&mut a);
    let n = a.len();
    c.suite(&format!("{}-range", T::NAME), &format!("component-wise and scalar operations and squared norm on all pairs of {n} values over the whole exponent range; products of numbers of different scales"), n, |w, p| {
        let re = a[p];
        w.case(|| format!("a.re = {re:e}"), |w| {
            for &im in &a {
                let x = Complex::new(re, im);
                un(w, x).map_err(|e| format!("a = {}: {e}", z(re, im)))?;
                for b in [Complex::new(im, re), x, Complex::new(re, T::of(0.0)), Complex::new(T::of(0.75), im), Complex::new(im, T::of(-1.25))] {
                    ar(w, x, b).map_err(|e| format!("a = {}, b = {}: {e}", z(re, im), z(b.re, b.im)))?;
                }
            }
            w.distinct(5 * n as u64);
            Ok(())
        });
    });
}
fn c03(c: &mut Check) {
    check_reference();
    c03_one::<f32>(c, arith32, unary32);
    c03_one::<f64>(c, arith64, unary64);
    // Gaussian integers: everything is exactly representable, so products must be exact
    let m = c.by_tier(15i32, 30);
    let side = (2 * m + 1) as usize;
    c.suite("gaussian-integers", &format!("all pairs of Gaussian integers with components up to {m}: products and squared norms are exact in f32 and f64, quotients accurate"), side * side, |w, p| {
        let (ar, ai) = ((p % side) as i32 - m, (p / side) as i32 - m);
        w.case(|| format!("a = {ar} + {ai} i"), |w| {
            for br in -m..=m {
                for bi in -m..=m {
                    let (x, y) = (Complex::new(ar as f32, ai as f32), Complex::new(br as f32, bi as f32));
                    let (u, v) = (Complex::new(ar as f64, ai as f64), Complex::new(br as f64, bi as f64));
                    let (re, im) = (ar * br - ai * bi, ar * bi + ai * br);
                    let (g, h) = (x * y, u * v);
                    ensure!(g.re == re as f32 && g.im == im as f32 && h.re == re as f64 && h.im == im as f64, "({ar} + {ai} i) * ({br} + {bi} i) = {g:?} (f32), {h:?} (f64)");
                    arith32(w, x, y).map_err(|e| format!("f32, b = {br} + {bi} i: {e}"))?;
                    arith64(w, u, v).map_err(|e| format!("f64, b = {br} + {bi} i: {e}"))?;
                }
            }
            ensure!(Complex::new(ar as f64, ai as f64).sqr_norm() == (ar * ar + ai * ai) as f64 && Complex::new(ar as f32, ai as f32).sqr_norm() == (ar * ar + ai * ai) as f32, "squared norm");
            w.distinct((side * side) as u64);
            Ok(())
        });
    });
    c.assume("The reference (double-double mantissa, unbounded exponent) is exact to 2^-90 and self-tested against committed multi-precision values.");
    c.assume("Tolerances: product 3, quotient 6, squared norm 3 machine epsilons; component-wise operations bit-exact.");
}

// ------------------------------------------------------------------------------------------------ C04
/// Everything the reference needs of one real number.
struct Real<T> {
    x: T,
    s: Bf,
    c: Bf,
    e: Bf,
    sh: Bf,
    ch: Bf,
}
impl<T: Fl> Real<T> {
    fn new(x: T) -> Self {
        let b = x.bf();
        let (s, c) = bf::sin_cos(x.w());
        Real { x, s, c, e: b.exp(), sh: b.sinh(), ch: b.cosh() }
    }
}
const COMP: f64 = 8.0;
const TAN: f64 = 14.0;
type Fc<T> = fn(Complex<T>) -> Complex<T>;
struct Elem<T> {
    exp: Fc<T>,
    sin: Fc<T>,
    cos: Fc<T>,
    sinh: Fc<T>,
    cosh: Fc<T>,
    tan: Fc<T>,
}
fn c04_point<T: Fl>(w: &mut Worker, l: &Elem<T>, a: &Real<T>, b: &Real<T>) -> Result<(), String> {
    let f = T::F;
    let v = Complex::new(a.x, b.x);
    let comp = |w: &mut Worker, name: &'static str, got: Complex<T>, re: [Bf; 2], im: [Bf; 2]| -> Result<(), String> {
        // no intermediate value overflows or underflows
        if [re[0], re[1], im[0], im[1]].iter().any(|x| !f.normal(*x)) {
            return Ok(());
        }
        for (part, g, fs) in [("real", got.re, re), ("imaginary", got.im, im)] {
            let want = fs[0].mul(fs[1]);
            if !f.normal(want) {
                continue;
            }
            ensure!(g.w().is_finite(), "{name}({}): {part} part {g:e}, expected {:e}", z(a.x, b.x), want.to_f64());
            let e = if want.is_zero() { if g.w() == 0.0 { 0.0 } else { f64::INFINITY } } else { f.eps(g.w(), want, want) };
            ensure!(e <= COMP, "{name}({}): {part} part {g:e}, expected {:e}, error {e} machine epsilons", z(a.x, b.x), want.to_f64());
            w.max(name, e);
        }
        w.ops(1);
        Ok(())
    };
    comp(w, "exp", (l.exp)(v), [a.e, b.c], [a.e, b.s])?;
    comp(w, "sin", (l.sin)(v), [a.s, b.ch], [a.c, b.sh])?;
    comp(w, "cos", (l.cos)(v), [a.c, b.ch], [a.s, b.sh.neg()])?;
    comp(w, "sinh", (l.sinh)(v), [a.sh, b.c], [a.ch, b.s])?;
    comp(w, "cosh", (l.cosh)(v), [a.ch, b.c], [a.sh, b.s])?;
    // tan = sin / cos
    let inter = [a.s, a.c, b.sh, b.ch];
    let (sr, si, cr, ci) = (a.s.mul(b.ch), a.c.mul(b.sh), a.c.mul(b.ch), a.s.mul(b.sh).neg());
    let (ns, nc) = (norm2(sr, si), norm2(cr, ci));
    // products of parts of sine and cosine are bounded by |sin||cos|, so squared magnitudes suffice
    if inter.iter().all(|x| f.normal(*x)) && f.normal(nc) && f.normal(ns) && !nc.is_zero() && f.normal(ns.mul(nc).sqrt()) {
        let (re, im) = (sr.mul(cr).add(si.mul(ci)).div(nc), si.mul(cr).sub(sr.mul(ci)).div(nc));
        let m = norm2(re, im).sqrt();
        if f.normal(m) {
            let g = (l.tan)(v);
            ensure!(g.re.w().is_finite() && g.im.w().is_finite(), "tan({}) = {}, expected {:e} + {:e} i", z(a.x, b.x), z(g.re, g.im), re.to_f64(), im.to_f64());
            let e = if m.is_zero() { if g.re.w() == 0.0 && g.im.w() == 0.0 { 0.0 } else { f64::INFINITY } } else { f.eps(norm2(g.re.bf().sub(re), g.im.bf().sub(im)).sqrt().to_f64(), Bf::ZERO, m) };
            ensure!(e <= TAN, "tan({}) = {}, expected {:e} + {:e} i, error {e} machine epsilons relative to the magnitude", z(a.x, b.x), z(g.re, g.im), re.to_f64(), im.to_f64());
            w.max("tan", e);
            w.ops(1);
        }
    }
    Ok(())
}
fn c04_one<T: Fl>(c: &mut Check, l: Elem<T>) {
    let f = T::F;
    let wide = f.emin < -200;
    let mut a: Vec<T> = if wide { ladder((f.emin as i32..40).step_by(c.by_tier(8, 1)), &[M1]) } else { ladder((f.emin as i32..=f.emax as i32).step_by(1), &[M1]) };
    a.extend(ladder::<T>(-12..12, if c.quick() { &[0, M1, M2, M3] } else { &[0, M1, M2, M3, M1 / 2, M1 + M1 / 2, M2 - (1 << 30)] }));
    a.push(T::of(0.0));
    let k = c.by_tier(160, 1000);
    for i in 0..=k {
        a.push(T::of(i as f64 * std::f64::consts::PI / 8.0));
        a.push(T::of(i as f64 / 4.0));
    }
    for i in 0..=c.by_tier(300, 1800) {
        // the range of exponents of exp
        a.push(T::of(i as f64 * if wide { 12.0 } else { 1.5 } / c.by_tier(5.0, 30.0)));
    }
    for i in 1..9 {
        for d in [-1, 1] {
            a.push(T::of(i as f64 * std::f64::consts::FRAC_PI_2).next(d));
        }
    }
    signs(&mut a);
    let a: Vec<Real<T>> = a.into_iter().map(Real::new).collect();
    let n = a.len();
    let (l, a) = (&l, &a);
    c.suite(&format!("{}-grid", T::NAME), &format!("exp, sin, cos, sinh, cosh, tan on all pairs of {n} components (exponent ladder, multiples of pi/8, overflow range, neighbours of multiples of pi/2)"), n, move |w, p| {
        w.case(|| format!("re = {:e}, all im", a[p].x), |w| {
            for b in a {
                c04_point(w, l, &a[p], b)?;
            }
            w.distinct(n as u64);
            Ok(())
        });
    });
    // decimals
    let d = c.by_tier(400i32, 4000);
    let (r10, r) = (d / 10, (-d..=d).map(|i| Real::new(T::of(i as f64 / 10.0))).collect::<Vec<Real<T>>>());
    let r = &r;
    c.suite(&format!("{}-decimals", T::NAME), &format!("all pairs of the decimals k/10 in [-{r10}, {r10}]"), r.len(), move |w, p| {
        w.case(|| format!("re = {:e}, all im", r[p].x), |w| {
            for b in r {
                c04_point(w, l, &r[p], b)?;
            }
            w.distinct(r.len() as u64);
            Ok(())
        });
    });
    // a dense square
    let d = c.by_tier(1000usize, 8000);
    let r: Vec<Real<T>> = (0..=d).map(|i| Real::new(T::of((i as f64 / d as f64 - 0.5) * 14.0))).collect();
    let r = &r;
    c.suite(&format!("{}-dense", T::NAME), &format!("all points of a grid of {0} x {0} points on [-7, 7]^2", d + 1), d + 1, move |w, p| {
        w.case(|| format!("re = {:e}, all im", r[p].x), |w| {
            for b in r {
                c04_point(w, l, &r[p], b)?;
            }
            w.distinct(d as u64 + 1);
            Ok(())
        });
    });
}
fn c04(c: &mut Check) {
    check_reference();
    macro_rules! elem {
        ($T:ty) => {
            Elem::<$T> { exp: <Complex<$T> as Exp>::exp, sin: <Complex<$T> as Sin>::sin, cos: <Complex<$T> as Cos>::cos, sinh: <Complex<$T> as Sinh>::sinh, cosh: <Complex<$T> as Cosh>::cosh, tan: <Complex<$T> as Tan>::tan }
        };
    }
    c04_one::<f32>(c, elem!(f32));
    c04_one::<f64>(c, elem!(f64));
    c.assume("Tolerances: 8 machine epsilons per component, 14 for tan relative to its magnitude; points where an intermediate value of the defining formula leaves the normal range are outside the property.");
}

// ------------------------------------------------------------------------------------------------ C05
const SQRT: f64 = 12.0;
const ABS: f64 = 4.0;
const LN: f64 = 6.0;
const ARG: f64 = 4.0;
struct Roots<T> {
    sqrt: fn(&Complex<T>) -> Complex<T>,
    ln: fn(Complex<T>) -> Complex<T>,
    arg: fn(Complex<T>) -> T,
    abs: [fn(Complex<T>) -> T; 2],
}
fn angle<T: Fl>(y: T, x: T) -> Bf {
    let neg = y.w().is_sign_negative();
    if y.w() == 0.0 {
        let p = if x.w().is_sign_negative() { Bf::pi() } else { Bf::ZERO };
        return if neg { p.neg() } else { p };
    }
    Bf::atan2(y.bf(), x.bf())
}
fn c05_point<T: Fl>(w: &mut Worker, l: &Roots<T>, x: T, y: T) -> Result<(), String> {
    let f = T::F;
    let v = Complex::new(x, y);
    let (bx, by) = (x.bf(), y.bf());
    let n = norm2(bx, by);
    let t = angle(y, x);
    let check_arg = |w: &mut Worker, name: &str, g: T| -> Result<(), String> {
        ensure!(g.w().is_finite(), "{name}({}) = {g:e}", z(x, y));
        let e = f.ulps(g.w(), t);
        ensure!(e <= ARG && (y.w() != 0.0 || g.w().is_sign_negative() == y.w().is_sign_negative()), "{name}({}) = {g:e}, expected {:e}, error {e} ulp", z(x, y), t.to_f64());
        w.max("arg", e);
        Ok(())
    };
    check_arg(w, "arg", (l.arg)(v))?;
    w.ops(1);
    if !f.normal(n) {
        return Ok(());
    }
    let m = n.sqrt();
    for (i, g) in l.abs.iter().enumerate() {
        let g = g(v);
        ensure!(g.w().is_finite(), "abs({}) = {g:e}", z(x, y));
        let e = if m.is_zero() { if g.w() == 0.0 { 0.0 } else { f64::INFINITY } } else { f.eps(g.w(), m, m) };
        ensure!(e <= ABS, "abs({}){} = {g:e}, expected {:e}, error {e} machine epsilons", z(x, y), ["", " of a reference"][i], m.to_f64());
        w.max("abs", e);
    }
    let s = (l.sqrt)(&v);
    w.ops(3);
    ensure!(s.re.w().is_finite() && s.im.w().is_finite(), "sqrt({}) = {}", z(x, y), z(s.re, s.im));
    let (re, im) = if m.is_zero() {
        (Bf::ZERO, Bf::ZERO)
    } else if x.w() >= 0.0 {
        let re = m.add(bx).half().sqrt();
        (re, by.div(re).half())
    } else {
        let im = m.sub(bx).half().sqrt();
        (by.abs().div(im).half(), if y.w() < 0.0 { im.neg() } else { im })
    };
    ensure!(s.re.w() >= 0.0, "sqrt({}) = {} has a negative real part", z(x, y), z(s.re, s.im));
    for (part, g, want) in [("real", s.re, re), ("imaginary", s.im, im)] {
        let mut g = g.w();
        if part == "imaginary" && y.w() == 0.0 && y.w().is_sign_negative() {
            // a negative zero: either sign is accepted (zero has no sign as a number)
            g = g.abs();
        }
        let e = if want.is_zero() { if g == 0.0 { 0.0 } else { f64::INFINITY } } else { f.eps(g, want, want) };
        ensure!(e <= SQRT && (g == 0.0 || want.is_zero() || (g < 0.0) == (want.m.0 < 0.0)), "sqrt({}) = {}: {part} part, expected {:e}, error {e} machine epsilons", z(x, y), z(s.re, s.im), want.to_f64());
        w.max(if part == "real" { "sqrt.re" } else { "sqrt.im" }, e);
    }
    if !m.is_zero() {
        let g = (l.ln)(v);
        check_arg(w, "Im ln", g.im)?;
        let want = n.ln().half();
        ensure!(g.re.w().is_finite(), "ln({}) = {}", z(x, y), z(g.re, g.im));
        let scale = if want.cmp_abs(Bf::f(1.0)) == std::cmp::Ordering::Less { Bf::f(1.0) } else { want };
        let e = f.eps(g.re.w(), want, scale);
        ensure!(e <= LN, "ln({}): real part {:e}, expected {:e}, error {e} machine epsilons", z(x, y), g.re, want.to_f64());
        w.max("ln", e);
        w.ops(1);
    }
    Ok(())
}
fn c05_one<T: Fl>(c: &mut Check, l: Roots<T>) {
    let f = T::F;
    let (lo, hi) = (f.emin as i32, f.emax as i32);
    let wide = lo < -200;
    let l = &l;
    let mut a: Vec<T> = ladder((lo - f.p as i32..=hi).step_by(if wide { c.by_tier(5, 1) } else { 1 }), if c.quick() { &[0, M1, M3] } else { &[0, M1, M2, M3, 1 << 40] });
    a.extend(ladder::<T>(-30..30, if c.quick() { &[M2, 1 << 51] } else { &[M2, 1 << 51, M1 / 2, M1 + M1 / 2, M2 - (1 << 30), 1 << 29] }));
    a.push(T::of(0.0));
    signs(&mut a);
    let n = a.len();
    let a = &a;
    c.suite(&format!("{}-scales", T::NAME), &format!("sqrt, ln, arg, abs on all pairs of {n} components (all exponents, signed zeros, subnormals)"), n, move |w, p| {
        w.case(|| format!("re = {:e}, all im", a[p]), |w| {
            for &y in a {
                c05_point(w, l, a[p], y)?;
            }
            w.distinct(n as u64);
            Ok(())
        });
    });
    // directions: all ratios im/re, at several scales, with neighbours
    let m = c.by_tier(200i32, 900);
    let scales: Vec<i32> = vec![0, 1, -7, 20, lo / 2 + 8, hi / 2 - 10];
    let scales = &scales;
    c.suite(&format!("{}-directions", T::NAME), &format!("all integer directions up to {m} at scales 2^{scales:?}, the real part also 1 and 2 ulp off"), 2 * m as usize + 1, move |w, p| {
        let yi = p as i32 - m;
        w.case(|| format!("im = {yi}, all re"), |w| {
            for xi in -m..=m {
                for e in scales {
                    let k = 2f64.powi(*e);
                    let (x, y) = (T::of(xi as f64 * k), T::of(yi as f64 * k));
                    c05_point(w, l, x, y)?;
                    if xi != 0 {
                        for d in [-2, -1, 1, 2] {
                            c05_point(w, l, x.next(d), y)?;
                        }
                    }
                }
            }
            w.distinct(30 * (2 * m as u64 + 1));
            Ok(())
        });
    });
    // decimals
    let d = c.by_tier(400i32, 2000);
    c.suite(&format!("{}-decimals", T::NAME), &format!("all pairs of the decimals k/10, and of k/1000, with |k| <= {d}"), 2 * d as usize + 1, move |w, p| {
        let yi = p as i32 - d;
        w.case(|| format!("im = {yi}/10 and /1000, all re"), |w| {
            for xi in -d..=d {
                for q in [10.0, 1000.0] {
                    c05_point(w, l, T::of(xi as f64 / q), T::of(yi as f64 / q))?;
                }
            }
            w.distinct(2 * (2 * d as u64 + 1));
            Ok(())
        });
    });
    // the unit circle, where ln has a zero, and circles close to it
    let k = c.by_tier(20000usize, 2000000);
    c.suite(&format!("{}-circle", T::NAME), &format!("{k} points on each of 9 circles with radius around 1"), k, move |w, p| {
        let t = 2.0 * std::f64::consts::PI * p as f64 / k as f64;
        w.case(|| format!("angle {t}"), |w| {
            for r in [1.0, 1.0 + 1e-7, 1.0 - 1e-7, 1.0 + 1e-15, 1.0 - 1e-15, 1.01, 0.99, 0.5, 3.0] {
                c05_point(w, l, T::of(r * t.cos()), T::of(r * t.sin()))?;
            }
            w.distinct(9);
            Ok(())
        });
    });
}
fn c05(c: &mut Check) {
    check_reference();
    macro_rules! roots {
        ($T:ty) => {
            Roots::<$T> { sqrt: <Complex<$T> as Sqrt>::sqrt, ln: <Complex<$T> as Ln>::ln, arg: Complex::<$T>::arg, abs: [|v| Abs::abs(v), |v| Abs::abs(&v)] }
        };
    }
    let _ = <f32 as Atan2>::atan2;
    c05_one::<f32>(c, roots!(f32));
    c05_one::<f64>(c, roots!(f64));
    c.assume("Tolerances: sqrt 12 machine epsilons per component, abs 4, real part of ln 6 (absolute or relative, whichever is larger), arg 4 ulp.");
}

fn main() {
    main_for(&[("C03", c03), ("C04", c04), ("C05", c05)])
}
