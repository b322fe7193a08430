//! Element types for data-independent and exhaustive exploration. None of them uses library code for its
//! arithmetic; they only implement the library's element traits.
use magnesia::algebra::{Conj, One, Ring, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::*;

/// What the harness needs to compute with an element type by itself.
pub trait El: Clone + Debug + PartialEq + 'static {
    fn z() -> Self;
    fn o() -> Self;
    fn a(&self, r: &Self) -> Self;
    fn s(&self, r: &Self) -> Self;
    fn m(&self, r: &Self) -> Self;
    fn n(&self) -> Self;
    fn cj(&self) -> Self;
}

/// Element types with all operator forms the library may ask for.
pub trait FullEl:
    El + Ring + Conj + Eq + Hash
    + Add<Self, Output = Self> + for<'a> Add<&'a Self, Output = Self>
    + Sub<Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + Mul<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
{
}

macro_rules! ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Zero for $t { fn zero() -> Self { <Self as El>::z() } }
        impl<$($g)*> One for $t { fn one() -> Self { <Self as El>::o() } }
        impl<$($g)*> Conj for $t { fn conj(self) -> Self { self.cj() } }
        impl<$($g)*> Neg for $t { type Output = Self; fn neg(self) -> Self { self.n() } }
        impl<$($g)*> Add for $t { type Output = Self; fn add(self, r: Self) -> Self { self.a(&r) } }
        impl<'a, $($g)*> Add<&'a $t> for $t { type Output = Self; fn add(self, r: &'a Self) -> Self { self.a(r) } }
        impl<'a, 'b, $($g)*> Add<&'a $t> for &'b $t { type Output = $t; fn add(self, r: &'a $t) -> $t { self.a(r) } }
        impl<$($g)*> Sub for $t { type Output = Self; fn sub(self, r: Self) -> Self { self.s(&r) } }
        impl<'a, $($g)*> Sub<&'a $t> for $t { type Output = Self; fn sub(self, r: &'a Self) -> Self { self.s(r) } }
        impl<'a, 'b, $($g)*> Sub<&'a $t> for &'b $t { type Output = $t; fn sub(self, r: &'a $t) -> $t { self.s(r) } }
        impl<$($g)*> Mul for $t { type Output = Self; fn mul(self, r: Self) -> Self { self.m(&r) } }
        impl<'a, 'b, $($g)*> Mul<&'a $t> for &'b $t { type Output = $t; fn mul(self, r: &'a $t) -> $t { self.m(r) } }
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, r: Self) { *self = self.a(&r) } }
        impl<'a, $($g)*> AddAssign<&'a $t> for $t { fn add_assign(&mut self, r: &'a Self) { *self = self.a(r) } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, r: Self) { *self = self.s(&r) } }
        impl<'a, $($g)*> SubAssign<&'a $t> for $t { fn sub_assign(&mut self, r: &'a Self) { *self = self.s(r) } }
        impl<$($g)*> Ring for $t {}
        impl<$($g)*> FullEl for $t {}
    };
}

/// Integers modulo P (P <= 64).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Zn<const P: u16>(pub u16);
impl<const P: u16> Debug for Zn<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u16> El for Zn<P> {
    fn z() -> Self {
        Zn(0)
    }
    fn o() -> Self {
        Zn(1 % P)
    }
    fn a(&self, r: &Self) -> Self {
        Zn((self.0 + r.0) % P)
    }
    fn s(&self, r: &Self) -> Self {
        Zn((self.0 + P - r.0) % P)
    }
    fn m(&self, r: &Self) -> Self {
        Zn(((self.0 as u32 * r.0 as u32) % P as u32) as u16)
    }
    fn n(&self) -> Self {
        Zn((P - self.0) % P)
    }
    fn cj(&self) -> Self {
        *self
    }
}
ops!([const P: u16] Zn<P>);
impl<const P: u16> Zn<P> {
    pub fn inv(&self) -> Option<Self> {
        (0..P).map(Zn).find(|x| self.m(x) == Self::o())
    }
    fn d(&self, r: &Self) -> Self {
        match r.inv() {
            Some(i) => self.m(&i),
            None => panic!("element: division by a non-invertible element"),
        }
    }
}
impl<const P: u16> Div for Zn<P> {
    type Output = Self;
    fn div(self, r: Self) -> Self {
        self.d(&r)
    }
}
impl<'a, const P: u16> Div<&'a Zn<P>> for Zn<P> {
    type Output = Self;
    fn div(self, r: &'a Self) -> Self {
        self.d(r)
    }
}
impl<'a, const P: u16> Div<&'a Zn<P>> for &Zn<P> {
    type Output = Zn<P>;
    fn div(self, r: &'a Zn<P>) -> Zn<P> {
        self.d(r)
    }
}
impl<const P: u16> magnesia::algebra::Field for Zn<P> {}
impl<const P: u16> Fin for Zn<P> {
    const N: usize = P as usize;
    fn nth(i: usize) -> Self {
        Zn(i as u16)
    }
}

/// Finite types with an enumeration of all elements.
pub trait Fin: FullEl {
    const N: usize;
    fn nth(i: usize) -> Self;
}

/// Integers modulo 2^64: a large ring for single generic points.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct W(pub u64);
impl El for W {
    fn z() -> Self {
        W(0)
    }
    fn o() -> Self {
        W(1)
    }
    fn a(&self, r: &Self) -> Self {
        W(self.0.wrapping_add(r.0))
    }
    fn s(&self, r: &Self) -> Self {
        W(self.0.wrapping_sub(r.0))
    }
    fn m(&self, r: &Self) -> Self {
        W(self.0.wrapping_mul(r.0))
    }
    fn n(&self) -> Self {
        W(self.0.wrapping_neg())
    }
    fn cj(&self) -> Self {
        *self
    }
}
ops!([] W);

/// 2x2 matrices: a non-commutative ring. `cj` is the entry-wise conjugate composed with swapping the two
/// coordinates (a ring automorphism that is not the identity), so that missing conjugations show.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct M2<R>(pub [R; 4]);
impl<R: Debug> Debug for M2<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{:?} {:?};{:?} {:?}]", self.0[0], self.0[1], self.0[2], self.0[3])
    }
}
impl<R: FullEl> El for M2<R> {
    fn z() -> Self {
        M2([R::z(), R::z(), R::z(), R::z()])
    }
    fn o() -> Self {
        M2([R::o(), R::z(), R::z(), R::o()])
    }
    fn a(&self, r: &Self) -> Self {
        M2(std::array::from_fn(|i| self.0[i].a(&r.0[i])))
    }
    fn s(&self, r: &Self) -> Self {
        M2(std::array::from_fn(|i| self.0[i].s(&r.0[i])))
    }
    fn m(&self, r: &Self) -> Self {
        let (x, y) = (&self.0, &r.0);
        M2([
            x[0].m(&y[0]).a(&x[1].m(&y[2])),
            x[0].m(&y[1]).a(&x[1].m(&y[3])),
            x[2].m(&y[0]).a(&x[3].m(&y[2])),
            x[2].m(&y[1]).a(&x[3].m(&y[3])),
        ])
    }
    fn n(&self) -> Self {
        M2(std::array::from_fn(|i| self.0[i].n()))
    }
    fn cj(&self) -> Self {
        M2([self.0[3].cj(), self.0[2].cj(), self.0[1].cj(), self.0[0].cj()])
    }
}
ops!([R: FullEl] M2<R>);
impl<R: Fin> Fin for M2<R> {
    const N: usize = R::N * R::N * R::N * R::N;
    fn nth(i: usize) -> Self {
        let d = digits4(i, R::N);
        M2(std::array::from_fn(|k| R::nth(d[k])))
    }
}
fn digits4(mut i: usize, b: usize) -> [usize; 4] {
    std::array::from_fn(|_| {
        let r = i % b;
        i /= b;
        r
    })
}
/// Generic point: M2 over Z/2^64.
pub type G = M2<W>;
/// A fixed "generic" element for an index (splitmix64 of the index): no accidental coincidences.
pub fn gpt(i: u64) -> G {
    M2(std::array::from_fn(|k| W(splitmix(i.wrapping_mul(4).wrapping_add(k as u64 + 1)))))
}
pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Structured sequences of values (fast paths for zero, one, sparse, equal or vanishing values at any length).
pub const PATTERNS: usize = 20;
pub fn pattern(kind: usize, n: usize, base: u64) -> Vec<G> {
    let h = n / 2;
    let nil = |i: u64| {
        // products of two of these are zero
        let M2(x) = gpt(base + i);
        M2(x.map(|e| W(e.0 << 32)))
    };
    (0..n)
        .map(|i| {
            let g = gpt(base + i as u64);
            let keep = |b: bool| if b { g.clone() } else { G::z() };
            match kind {
                0 => g,
                1 => G::z(),
                2 => G::o(),
                3 => G::o().n(),
                4 => gpt(base),
                5 => keep(i >= h),
                6 => keep(i < h),
                7 => keep(i % 2 == 1),
                8 => keep(i % 2 == 0),
                9 => keep(i == 0),
                10 => keep(i + 1 == n),
                11 => keep(i == h),
                12 => gpt(base + i.min(n - 1 - i) as u64),
                13 => if i % 2 == 0 { G::o() } else { G::o().n() },
                14 => if i + 1 == n { G::o() } else { G::z() },
                15 => nil(i as u64),
                16 => if i < h { nil(i as u64) } else { g },
                17 => keep(i % 4 == 0),
                18 => if i == 0 { G::o() } else { G::z() },
                19 => keep(i == 0 || i + 1 == n),
                _ => unreachable!(),
            }
        })
        .collect()
}
/// The same for matrices, row by row, with some patterns of their own.
pub const MPATTERNS: usize = PATTERNS + 9;
pub fn mpattern(kind: usize, r: usize, c: usize, base: u64) -> Vec<G> {
    if kind < PATTERNS {
        return pattern(kind, r * c, base);
    }
    (0..r * c)
        .map(|x| {
            let (i, j) = (x / c, x % c);
            let g = gpt(base + x as u64);
            let keep = |b: bool| if b { g.clone() } else { G::z() };
            match kind - PATTERNS {
                0 => if i == j { G::o() } else { G::z() },
                1 => keep(i == j),
                2 => keep(i <= j),
                3 => keep(i >= j),
                4 => gpt(base + (i.min(j) * 1000 + i.max(j)) as u64),
                5 => if i + j + 1 == r { G::o() } else { G::z() },
                6 => keep(i != r / 2),
                7 => keep(j != c / 2),
                _ => gpt(base + i as u64).m(&gpt(base + 5000 + j as u64)),
            }
        })
        .collect()
}

/// Gaussian-like pair with conjugation, reference model of complex numbers over any El (harness arithmetic).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Gi<R>(pub R, pub R);
impl<R: Debug> Debug for Gi<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({:?}+{:?}i)", self.0, self.1)
    }
}
impl<R: FullEl> El for Gi<R> {
    fn z() -> Self {
        Gi(R::z(), R::z())
    }
    fn o() -> Self {
        Gi(R::o(), R::z())
    }
    fn a(&self, r: &Self) -> Self {
        Gi(self.0.a(&r.0), self.1.a(&r.1))
    }
    fn s(&self, r: &Self) -> Self {
        Gi(self.0.s(&r.0), self.1.s(&r.1))
    }
    fn m(&self, r: &Self) -> Self {
        Gi(self.0.m(&r.0).s(&self.1.m(&r.1)), self.0.m(&r.1).a(&self.1.m(&r.0)))
    }
    fn n(&self) -> Self {
        Gi(self.0.n(), self.1.n())
    }
    fn cj(&self) -> Self {
        Gi(self.0.clone(), self.1.n())
    }
}
ops!([R: FullEl] Gi<R>);
impl<R: Fin> Fin for Gi<R> {
    const N: usize = R::N * R::N;
    fn nth(i: usize) -> Self {
        Gi(R::nth(i % R::N), R::nth(i / R::N))
    }
}

/// Free non-commutative Z-algebra over generators, with uninterpreted (involutive, multiplicative, additive)
/// conjugation of generators and uninterpreted division and function application as further generators.
/// Two values are equal iff the ring axioms force them to be.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Free(pub BTreeMap<Vec<u32>, i64>);

#[derive(Clone, PartialEq, Eq, Hash)]
enum Node {
    Div(Free, Free),
    Fun(u32, Free),
}
thread_local! {
    static NODES: RefCell<(Vec<Node>, HashMap<Node, u32>)> = RefCell::new((Vec::new(), HashMap::new()));
}
const CONJ: u32 = 1 << 31;
const NODE: u32 = 1 << 30;
fn intern(n: Node) -> u32 {
    NODES.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.1.get(&n) {
            return *i;
        }
        let i = t.0.len() as u32 | NODE;
        t.0.push(n.clone());
        t.1.insert(n, i);
        i
    })
}
/// Forgets all interned nodes (call between independent cases).
pub fn free_reset() {
    NODES.with(|t| {
        let mut t = t.borrow_mut();
        t.0.clear();
        t.1.clear();
    })
}
impl Free {
    pub fn gen(i: u32) -> Free {
        assert!(i < NODE);
        Free(BTreeMap::from([(vec![i], 1)]))
    }
    pub fn div(&self, r: &Free) -> Free {
        Free(BTreeMap::from([(vec![intern(Node::Div(self.clone(), r.clone()))], 1)]))
    }
    /// Uninterpreted unary function symbol.
    pub fn fun(&self, f: u32) -> Free {
        Free(BTreeMap::from([(vec![intern(Node::Fun(f, self.clone()))], 1)]))
    }
    fn acc(&mut self, k: &[u32], c: i64) {
        if c == 0 {
            return;
        }
        if let Some(v) = self.0.get_mut(k) {
            *v += c;
            if *v == 0 {
                self.0.remove(k);
            }
        } else {
            self.0.insert(k.to_vec(), c);
        }
    }
}
impl Debug for Free {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        for (i, (m, c)) in self.0.iter().enumerate() {
            if i > 0 || *c < 0 {
                write!(f, "{}", if *c < 0 { "-" } else { "+" })?
            }
            if c.abs() != 1 || m.is_empty() {
                write!(f, "{}", c.abs())?
            }
            for a in m {
                let g = a & !(CONJ | NODE);
                let s = if a & NODE != 0 {
                    NODES.with(|t| match &t.borrow().0[g as usize] {
                        Node::Div(a, b) => format!("[({a:?})/({b:?})]"),
                        Node::Fun(n, a) => format!("f{n}({a:?})"),
                    })
                } else {
                    format!("x{g}")
                };
                write!(f, "{s}{}", if a & CONJ != 0 { "'" } else { "" })?
            }
        }
        Ok(())
    }
}
impl El for Free {
    fn z() -> Self {
        Free(BTreeMap::new())
    }
    fn o() -> Self {
        Free(BTreeMap::from([(vec![], 1)]))
    }
    fn a(&self, r: &Self) -> Self {
        let mut x = self.clone();
        for (k, c) in &r.0 {
            x.acc(k, *c)
        }
        x
    }
    fn s(&self, r: &Self) -> Self {
        let mut x = self.clone();
        for (k, c) in &r.0 {
            x.acc(k, -*c)
        }
        x
    }
    fn m(&self, r: &Self) -> Self {
        let mut x = Self::z();
        for (k, c) in &self.0 {
            for (l, d) in &r.0 {
                let mut m = k.clone();
                m.extend(l);
                x.acc(&m, c * d)
            }
        }
        x
    }
    fn n(&self) -> Self {
        Free(self.0.iter().map(|(k, c)| (k.clone(), -c)).collect())
    }
    fn cj(&self) -> Self {
        Free(self.0.iter().map(|(k, c)| (k.iter().map(|a| a ^ CONJ).collect(), *c)).collect())
    }
}
ops!([] Free);
impl Div for Free {
    type Output = Free;
    fn div(self, r: Free) -> Free {
        Free::div(&self, &r)
    }
}
impl<'a> Div<&'a Free> for Free {
    type Output = Free;
    fn div(self, r: &'a Free) -> Free {
        Free::div(&self, r)
    }
}
impl<'a> Div<&'a Free> for &Free {
    type Output = Free;
    fn div(self, r: &'a Free) -> Free {
        Free::div(self, r)
    }
}
