//! Reference arithmetic: floating-point numbers with a double-double mantissa (about 104 bits) and an unbounded
//! exponent, and the elementary functions on them (relative error below 2^-90; checked against a table of values
//! computed with mpmath at 1500 bits in `selftest`). Independent of the library and, except for first guesses, of libm.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd(pub f64, pub f64);
fn two_sum(a: f64, b: f64) -> Dd {
    let s = a + b;
    let t = s - a;
    Dd(s, (a - (s - t)) + (b - t))
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd(s, b - (s - a))
}
fn two_prod(a: f64, b: f64) -> Dd {
    let p = a * b;
    Dd(p, a.mul_add(b, -p))
}
impl Dd {
    pub const PI_2: Dd = Dd(1.5707963267948966, 6.123233995736766e-17);
    pub const LN2: Dd = Dd(0.6931471805599453, 2.3190468138462996e-17);
    pub fn add(self, o: Dd) -> Dd {
        let s = two_sum(self.0, o.0);
        let t = two_sum(self.1, o.1);
        let c = quick(s.0, s.1 + t.0);
        quick(c.0, c.1 + t.1)
    }
    pub fn neg(self) -> Dd {
        Dd(-self.0, -self.1)
    }
    pub fn sub(self, o: Dd) -> Dd {
        self.add(o.neg())
    }
    pub fn mul(self, o: Dd) -> Dd {
        let p = two_prod(self.0, o.0);
        quick(p.0, p.1 + (self.0 * o.1 + self.1 * o.0))
    }
    pub fn scale(self, f: f64) -> Dd {
        self.mul(Dd(f, 0.0))
    }
    /// Exact product with a power of two.
    pub fn pow2(self, f: f64) -> Dd {
        Dd(self.0 * f, self.1 * f)
    }
    pub fn div(self, o: Dd) -> Dd {
        let q1 = self.0 / o.0;
        let r = self.sub(o.scale(q1));
        let q2 = r.0 / o.0;
        let r = r.sub(o.scale(q2));
        let q3 = r.0 / o.0;
        quick(q1, q2).add(Dd(q3, 0.0))
    }
    pub fn sqrt(self) -> Dd {
        if self.0 == 0.0 {
            return self;
        }
        let x = self.0.sqrt();
        let d = self.sub(two_prod(x, x));
        let y = quick(x, d.0 / (2.0 * x));
        // one more Newton step
        let d = self.sub(y.mul(y));
        y.add(Dd(d.0 / (2.0 * y.0), 0.0))
    }
}

/// sum of x^(start + 2 i) sign^i / (start + 2 i)!
fn series(x: Dd, start: u32, alternate: bool) -> Dd {
    let x2 = x.mul(x);
    let mut term = if start == 0 { Dd(1.0, 0.0) } else { x };
    let mut sum = term;
    let mut k = start as f64;
    for _ in 0..30 {
        term = term.mul(x2).div(Dd((k + 1.0) * (k + 2.0), 0.0));
        if alternate {
            term = term.neg()
        }
        k += 2.0;
        sum = sum.add(term);
        if term.0.abs() < sum.0.abs() * 1e-35 {
            break;
        }
    }
    sum
}
const TWO_OVER_PI: [u64; 20] = [
    0xa2f9836e4e441529, 0xfc2757d1f534ddc0, 0xdb6295993c439041, 0xfe5163abdebbc561, 0xb7246e3a424dd2e0, 0x06492eea09d1921c, 0xfe1deb1cb129a73e, 0xe88235f52ebb4484, 0xe99c7026b45f7e41, 0x3991d639835339f4,
    0x9c845f8bbdf9283b, 0x1ff897ffde05980f, 0xef2f118b5a0a6d1f, 0x6d367ecf27cb09b7, 0x4f463f669e5fea2d, 0x7527bac7ebe5f17b, 0x3d0739f78a5292ea, 0x6bfb5fb11f8d5d08, 0x56033046fc7b6bab, 0xf0cfbc209af4361d,
];
/// (quadrant, r) with x = quadrant * pi/2 + r and |r| <= pi/4, for finite x.
pub fn reduce(x: f64) -> (u32, Dd) {
    if x.abs() < 0.785 {
        return (0, Dd(x, 0.0));
    }
    let b = x.abs().to_bits();
    let m = (b & ((1 << 52) - 1)) | (1 << 52);
    let e = (b >> 52) as i32 - 1075;
    // m * 2/pi as fixed point number with 1280 fraction bits, little endian limbs
    let mut p = [0u64; 21];
    let mut carry = 0u128;
    for i in 0..20 {
        let t = m as u128 * TWO_OVER_PI[19 - i] as u128 + carry;
        p[i] = t as u64;
        carry = t >> 64;
    }
    p[20] = carry as u64;
    let i0 = 1280 - e; // position of the unit bit
    let limb = |pos: i32| -> u64 {
        // 64 bits starting at bit `pos`
        if pos <= -64 || pos >= 21 * 64 {
            return 0;
        }
        let (q, r) = (pos.div_euclid(64), pos.rem_euclid(64));
        let g = |i: i32| if (0..21).contains(&i) { p[i as usize] } else { 0 };
        if r == 0 {
            g(q)
        } else {
            (g(q) >> r) | (g(q + 1) << (64 - r))
        }
    };
    let mut quad = (limb(i0) & 3) as u32;
    let mut f = [limb(i0 - 64), limb(i0 - 128), limb(i0 - 192)];
    let flip = f[0] >> 63 == 1;
    if flip {
        quad = (quad + 1) & 3;
        // f := 1 - f
        let mut c = true;
        for k in (0..3).rev() {
            let (v, o) = (!f[k]).overflowing_add(c as u64);
            f[k] = v;
            c = o;
        }
    }
    let mut r = Dd(0.0, 0.0);
    for (k, l) in f.iter().enumerate().rev() {
        let s = 2f64.powi(-64 * (k as i32 + 1));
        let w = two_sum((l >> 32) as f64 * 4294967296.0, (l & 0xffff_ffff) as f64);
        r = r.add(w.pow2(s));
    }
    r = r.mul(Dd::PI_2);
    if flip {
        r = r.neg()
    }
    if x < 0.0 {
        ((4 - quad) & 3, r.neg())
    } else {
        (quad, r)
    }
}

/// m * 2^e with |m.0| in [1, 2), or zero.
#[derive(Clone, Copy, Debug)]
pub struct Bf {
    pub m: Dd,
    pub e: i64,
}
fn exponent(x: f64) -> i64 {
    // of a normal number
    ((x.to_bits() >> 52) & 0x7ff) as i64 - 1023
}
fn p2(e: i64) -> f64 {
    if e < -1022 || e > 1023 {
        assert!(e < 0, "power of two out of range");
        return if e < -1074 { 0.0 } else { f64::from_bits(1 << (e + 1074)) };
    }
    f64::from_bits(((e + 1023) as u64) << 52)
}
impl Bf {
    pub const ZERO: Bf = Bf { m: Dd(0.0, 0.0), e: 0 };
    pub fn new(m: Dd, e: i64) -> Bf {
        if m.0 == 0.0 {
            return Bf::ZERO;
        }
        let k = if m.0.abs() < f64::MIN_POSITIVE { -1100 } else { exponent(m.0) };
        if k == -1100 {
            return Bf::new(m.pow2(p2(200)), e - 200);
        }
        let (a, b) = (k / 2, k - k / 2);
        Bf { m: m.pow2(p2(-a)).pow2(p2(-b)), e: e + k }
    }
    pub fn f(x: f64) -> Bf {
        assert!(x.is_finite());
        Bf::new(Dd(x, 0.0), 0)
    }
    pub fn pi() -> Bf {
        Bf::new(Dd::PI_2, 1)
    }
    pub fn pi_2() -> Bf {
        Bf::new(Dd::PI_2, 0)
    }
    pub fn is_zero(self) -> bool {
        self.m.0 == 0.0
    }
    pub fn neg(self) -> Bf {
        Bf { m: self.m.neg(), e: self.e }
    }
    pub fn abs(self) -> Bf {
        if self.m.0 < 0.0 { self.neg() } else { self }
    }
    pub fn mul(self, o: Bf) -> Bf {
        Bf::new(self.m.mul(o.m), self.e + o.e)
    }
    pub fn div(self, o: Bf) -> Bf {
        assert!(!o.is_zero());
        Bf::new(self.m.div(o.m), self.e - o.e)
    }
    pub fn add(self, o: Bf) -> Bf {
        if self.is_zero() {
            return o;
        }
        if o.is_zero() {
            return self;
        }
        let (a, b) = if self.e >= o.e { (self, o) } else { (o, self) };
        if a.e - b.e > 200 {
            return a;
        }
        Bf::new(a.m.add(b.m.pow2(p2(b.e - a.e))), a.e)
    }
    pub fn sub(self, o: Bf) -> Bf {
        self.add(o.neg())
    }
    pub fn sqrt(self) -> Bf {
        assert!(self.m.0 >= 0.0);
        let odd = self.e.rem_euclid(2);
        Bf::new(self.m.pow2(if odd == 1 { 2.0 } else { 1.0 }).sqrt(), (self.e - odd) / 2)
    }
    pub fn half(self) -> Bf {
        if self.is_zero() { self } else { Bf { m: self.m, e: self.e - 1 } }
    }
    pub fn cmp_abs(self, o: Bf) -> Ordering {
        let d = self.abs().sub(o.abs());
        d.m.0.partial_cmp(&0.0).unwrap()
    }
    /// Nearest f64 up to double rounding; overflow gives infinity.
    pub fn to_f64(self) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        if self.e > 1023 {
            return f64::INFINITY.copysign(self.m.0);
        }
        if self.e < -1080 {
            return 0f64.copysign(self.m.0);
        }
        let (a, b) = (self.e / 2, self.e - self.e / 2);
        self.m.0 * p2(a) * p2(b)
    }
    /// |self| as a multiple of 2^u.
    fn in_units(self, u: i64) -> f64 {
        if self.is_zero() {
            return 0.0;
        }
        let k = self.e - u;
        if k > 1000 {
            f64::INFINITY
        } else if k < -1000 {
            0.0
        } else {
            (self.m.0 * p2(k)).abs()
        }
    }

    pub fn exp(self) -> Bf {
        if self.is_zero() {
            return Bf::f(1.0);
        }
        if self.e > 40 {
            return if self.m.0 > 0.0 { Bf { m: Dd(1.0, 0.0), e: 1 << 40 } } else { Bf { m: Dd(1.0, 0.0), e: -(1 << 40) } };
        }
        if self.e < -120 {
            return Bf::f(1.0).add(self);
        }
        let x = self.m.pow2(p2(self.e));
        let k = (x.0 / Dd::LN2.0).round();
        let r = x.sub(Dd::LN2.scale(k)).pow2(1.0 / 256.0);
        // exp(r) - 1 by Taylor, then repeated squaring of (1 + s): s -> 2 s + s^2
        let mut term = r;
        let mut s = r;
        for i in 2..24 {
            term = term.mul(r).div(Dd(i as f64, 0.0));
            s = s.add(term);
            if term.0.abs() < 1e-36 * s.0.abs() {
                break;
            }
        }
        for _ in 0..8 {
            s = s.pow2(2.0).add(s.mul(s));
        }
        Bf::new(s.add(Dd(1.0, 0.0)), k as i64)
    }
    pub fn sinh(self) -> Bf {
        if self.e < -60 || self.is_zero() {
            return self;
        }
        if self.e < 0 {
            return Bf::new(series(self.m.pow2(p2(self.e)), 1, false), 0);
        }
        self.exp().sub(self.neg().exp()).half()
    }
    pub fn cosh(self) -> Bf {
        self.exp().add(self.neg().exp()).half()
    }
    /// ln of a positive number.
    pub fn ln(self) -> Bf {
        assert!(self.m.0 > 0.0);
        let (mut m, mut e) = (self.m, self.e);
        if m.0 > std::f64::consts::SQRT_2 {
            m = m.pow2(0.5);
            e += 1;
        }
        let one = Dd(1.0, 0.0);
        let t = m.sub(one).div(m.add(one));
        let t2 = t.mul(t);
        let mut pw = t;
        let mut s = t;
        for k in 1..40 {
            pw = pw.mul(t2);
            let term = pw.div(Dd((2 * k + 1) as f64, 0.0));
            s = s.add(term);
            if term.0.abs() < 1e-36 * s.0.abs() {
                break;
            }
        }
        Bf::new(Dd::LN2.scale(e as f64), 0).add(Bf::new(s.pow2(2.0), 0))
    }
    /// Angle of the point (x, y), not both zero.
    pub fn atan2(y: Bf, x: Bf) -> Bf {
        assert!(!y.is_zero() || !x.is_zero());
        let (a, b) = (y.abs(), x.abs());
        let swap = a.cmp_abs(b) == Ordering::Greater;
        let q = if swap { b.div(a) } else { a.div(b) };
        let mut t = if q.is_zero() {
            Bf::ZERO
        } else if q.e < -30 {
            // q - q^3/3 + q^5/5 - q^7/7
            let q2 = q.mul(q);
            let mut s = q;
            let mut p = q;
            for k in 1..4 {
                p = p.mul(q2).neg();
                s = s.add(p.div(Bf::f((2 * k + 1) as f64)));
            }
            s
        } else {
            let q = q.m.pow2(p2(q.e));
            let t0 = Dd(q.0.atan(), 0.0);
            let (s, c) = (series(t0, 1, true), series(t0, 0, true));
            let d = q.mul(c).sub(s).div(c.add(q.mul(s)));
            Bf::new(t0.add(d), 0)
        };
        if swap {
            t = Bf::pi_2().sub(t)
        }
        if x.m.0 < 0.0 {
            t = Bf::pi().sub(t)
        }
        if y.m.0 < 0.0 { t.neg() } else { t }
    }
    pub fn asin(x: f64) -> Bf {
        let b = Bf::f(x);
        if b.is_zero() || b.e < -60 {
            return b;
        }
        let one = Bf::f(1.0);
        Bf::atan2(b, one.sub(b).mul(one.add(b)).sqrt())
    }
}
/// (sin x, cos x)
pub fn sin_cos(x: f64) -> (Bf, Bf) {
    if x.abs() < 1e-20 {
        return (Bf::f(x), Bf::f(1.0));
    }
    let (q, r) = reduce(x);
    let (s, c) = (Bf::new(series(r, 1, true), 0), Bf::new(series(r, 0, true), 0));
    match q {
        0 => (s, c),
        1 => (c, s.neg()),
        2 => (s.neg(), c.neg()),
        _ => (c.neg(), s),
    }
}

/// Formats: (precision bits after the leading one, minimal exponent, maximal exponent).
#[derive(Clone, Copy)]
pub struct Fmt {
    pub p: i64,
    pub emin: i64,
    pub emax: i64,
}
pub const F32: Fmt = Fmt { p: 23, emin: -126, emax: 127 };
pub const F64: Fmt = Fmt { p: 52, emin: -1022, emax: 1023 };
impl Fmt {
    /// Error of `got` (a value of this format, given as f64) against the exact `want`, in units in the last place of
    /// `want` (at least the smallest subnormal). Infinity if one is infinite or NaN and the other is not.
    pub fn ulps(self, got: f64, want: Bf) -> f64 {
        if got.is_nan() {
            return f64::INFINITY;
        }
        let e = if want.is_zero() { self.emin } else { want.e.clamp(self.emin, self.emax) };
        let u = e - self.p;
        if got.is_infinite() {
            // accepted as the rounded value if the exact one lies within some ulps of the overflow threshold
            if (got < 0.0) != (want.m.0 < 0.0) {
                return f64::INFINITY;
            }
            if want.e > self.emax {
                return 0.0;
            }
            let big = Bf { m: Dd(1.0, 0.0), e: self.emax + 1 };
            return big.sub(want.abs()).in_units(self.emax - self.p);
        }
        let d = Bf::f(got).sub(want).in_units(u);
        if want.e > self.emax + 60 { f64::INFINITY } else { d }
    }
    /// |got - want| relative to the scale, in units of the machine epsilon; absolute errors of a few of the smallest
    /// subnormal number are free.
    pub fn eps(self, got: f64, want: Bf, scale: Bf) -> f64 {
        if !got.is_finite() {
            return f64::INFINITY;
        }
        let d = Bf::f(got).sub(want);
        if d.in_units(self.emin - self.p) <= 2.0 || d.is_zero() {
            return 0.0;
        }
        if scale.is_zero() {
            return f64::INFINITY;
        }
        let q = d.abs().div(scale.abs());
        q.in_units(-self.p)
    }
    /// Whether x is zero or rounds to a normal number of this format.
    pub fn normal(self, x: Bf) -> bool {
        x.is_zero() || (x.e >= self.emin && x.e < self.emax)
    }
}

/// Compares every function with the committed table. Returns the largest relative error (as binary logarithm).
pub fn selftest() -> Result<f64, String> {
    let mut worst = -1e9f64;
    for (f, a, b, hi, lo, e) in crate::bftab::TABLE {
        let (x, y) = (f64::from_bits(*a), f64::from_bits(*b));
        let want = Bf::new(Dd(f64::from_bits(*hi), f64::from_bits(*lo)), *e);
        let got = match *f {
            "exp" => Bf::f(x).exp(),
            "sinh" => Bf::f(x).sinh(),
            "cosh" => Bf::f(x).cosh(),
            "ln" => Bf::f(x).ln(),
            "sin" => sin_cos(x).0,
            "cos" => sin_cos(x).1,
            "tan" => sin_cos(x).0.div(sin_cos(x).1),
            "asin" => Bf::asin(x),
            "atan2" => Bf::atan2(Bf::f(x), Bf::f(y)),
            "sqrt" => Bf::f(x).sqrt(),
            "mul" => Bf::f(x).mul(Bf::f(y)),
            "div" => Bf::f(x).div(Bf::f(y)),
            "add" => Bf::f(x).add(Bf::f(y)),
            _ => return Err(format!("unknown function {f}")),
        };
        let d = got.sub(want);
        let r = if d.is_zero() {
            -200.0
        } else if want.is_zero() {
            1000.0
        } else {
            let q = d.div(want);
            q.e as f64
        };
        if r > -90.0 {
            return Err(format!("reference {f}({x:e}, {y:e}): relative error 2^{r}, got {got:?}, want {want:?}"));
        }
        worst = worst.max(r);
    }
    Ok(worst)
}
