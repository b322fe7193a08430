//! R01 (ring laws through the Ring trait), R02 (scalars in the algebra traits), I01 (no spurious integer overflow).
use magnesia::algebra::{Complex, Conj, DivRefs, Field, MulRefs, One, Polynomial, Ring, Zero};
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, SMatrix, SVector, VectorExpr};
use mc::engine::*;
use mc::ensure;
use mc::probe::at;
use mc::rings::*;
use std::fmt::Debug;

type Res = Result<(), String>;

// ------------------------------------------------------------------------------------------------ R01
fn add<T: Ring>(a: &T, b: &T) -> T {
    let mut x = a.clone();
    x += b;
    x
}
fn sub<T: Ring>(a: &T, b: &T) -> T {
    let mut x = a.clone();
    x -= b;
    x
}
fn mul<T: Ring>(a: &T, b: &T) -> T {
    a.mul_refs(b)
}
fn neg<T: Ring>(a: &T) -> T {
    -a.clone()
}
macro_rules! law {
    ($w:expr, $name:literal, $l:expr, $r:expr, $show:expr) => {{
        let (l, r) = (&$l, &$r);
        $w.ops(1);
        if !(l == r) || l != r || !(r == l) {
            return Err(format!("{}: {} != {}", $name, $show(l), $show(r)));
        }
    }};
}
fn laws1<T: Ring>(w: &mut Worker, a: &T, show: &dyn Fn(&T) -> String) -> Res {
    let (z, o) = (T::zero(), T::one());
    law!(w, "reflexivity", a.clone(), *a, show);
    law!(w, "a + 0 = a", add(a, &z), *a, show);
    law!(w, "0 + a = a", add(&z, a), *a, show);
    law!(w, "a - 0 = a", sub(a, &z), *a, show);
    law!(w, "0 - a = -a", sub(&z, a), neg(a), show);
    law!(w, "a - a = 0", sub(a, a), z, show);
    law!(w, "a + (-a) = 0", add(a, &neg(a)), z, show);
    law!(w, "(-a) + a = 0", add(&neg(a), a), z, show);
    law!(w, "-(-a) = a", neg(&neg(a)), *a, show);
    law!(w, "1 * a = a", mul(&o, a), *a, show);
    law!(w, "a * 1 = a", mul(a, &o), *a, show);
    law!(w, "0 * a = 0", mul(&z, a), z, show);
    law!(w, "a * 0 = 0", mul(a, &z), z, show);
    law!(w, "(-1) * a = -a", mul(&neg(&o), a), neg(a), show);
    law!(w, "a * (-1) = -a", mul(a, &neg(&o)), neg(a), show);
    Ok(())
}
fn laws2<T: Ring>(w: &mut Worker, a: &T, b: &T, show: &dyn Fn(&T) -> String) -> Res {
    law!(w, "a + b = b + a", add(a, b), add(b, a), show);
    law!(w, "(a + b) - b = a", sub(&add(a, b), b), *a, show);
    law!(w, "(a - b) + b = a", add(&sub(a, b), b), *a, show);
    law!(w, "a - b = a + (-b)", sub(a, b), add(a, &neg(b)), show);
    law!(w, "-(a - b) = b - a", neg(&sub(a, b)), sub(b, a), show);
    law!(w, "-(a + b) = -a - b", neg(&add(a, b)), sub(&neg(a), b), show);
    law!(w, "(-a) * b = -(a * b)", mul(&neg(a), b), neg(&mul(a, b)), show);
    law!(w, "a * (-b) = -(a * b)", mul(a, &neg(b)), neg(&mul(a, b)), show);
    // a = b exactly if a - b = 0
    let (d, z) = (sub(a, b), T::zero());
    ensure!((a == b) == (d == z), "{} == {} is {}, but the difference {} == 0 is {}", show(a), show(b), a == b, show(&d), d == z);
    ensure!((a == b) == (b == a) && (a == b) != (a != b), "== is not symmetric or disagrees with != for {} and {}", show(a), show(b));
    Ok(())
}
fn laws3<T: Ring>(w: &mut Worker, a: &T, b: &T, c: &T, show: &dyn Fn(&T) -> String) -> Res {
    law!(w, "(a + b) + c = a + (b + c)", add(&add(a, b), c), add(a, &add(b, c)), show);
    law!(w, "(a - b) - c = a - (b + c)", sub(&sub(a, b), c), sub(a, &add(b, c)), show);
    law!(w, "(a * b) * c = a * (b * c)", mul(&mul(a, b), c), mul(a, &mul(b, c)), show);
    law!(w, "a * (b + c) = a * b + a * c", mul(a, &add(b, c)), add(&mul(a, b), &mul(a, c)), show);
    law!(w, "(a + b) * c = a * c + b * c", mul(&add(a, b), c), add(&mul(a, c), &mul(b, c)), show);
    law!(w, "a * (b - c) = a * b - a * c", mul(a, &sub(b, c)), sub(&mul(a, b), &mul(a, c)), show);
    ensure!(!(a == b && b == c) || a == c, "== is not transitive");
    Ok(())
}
/// All triples of `els`; with `sparse`, the third element runs over every `sparse`-th element only.
fn law_suite<T: Ring + Sync>(c: &mut Check, name: &str, what: &str, els: &[T], key: impl Fn(usize) -> String + Sync, classes: usize, sparse: usize, show: fn(&T) -> String) {
    let n = els.len();
    c.suite(name, &format!("{what}: {n} elements ({classes} classes), all elements, all pairs, all triples{}", if sparse > 1 { format!(" with the third from every {sparse}th element") } else { String::new() }), n, |w, i| {
        let a = &els[i];
        w.distinct(1);
        w.case(|| format!("a = {}", key(i)), |w| laws1(w, a, &show));
        if i == 0 {
            w.case(|| "number of classes of ==".into(), |w| {
                let mut reps: Vec<&T> = vec![];
                for e in els {
                    if !reps.iter().any(|r| *r == e) {
                        reps.push(e);
                    }
                }
                w.ops(1);
                ensure!(reps.len() == classes, "the elements fall into {} classes, expected {classes}", reps.len());
                Ok(())
            });
        }
        for j in 0..n {
            let b = &els[j];
            w.distinct(1);
            w.case(|| format!("a = {}, b = {}", key(i), key(j)), |w| laws2(w, a, b, &show));
            let off = (i + j) % sparse;
            for k in (off..n).step_by(sparse) {
                w.distinct(1);
                w.case(|| format!("a = {}, b = {}, c = {}", key(i), key(j), key(k)), |w| laws3(w, a, b, &els[k], &show));
            }
        }
    });
}
fn cshow<T: Debug>(x: &Complex<T>) -> String {
    format!("{x:?}")
}
fn mshow<T>(_: &SMatrix<T, 2, 2>) -> String {
    "(2x2 matrix)".into()
}
fn pshow<T: Ring>(_: &Polynomial<T>) -> String {
    "(polynomial)".into()
}
fn nshow<T>(_: &T) -> String {
    "(nested)".into()
}
fn cplx<R: Ring + Clone>(base: &[R]) -> Vec<Complex<R>> {
    base.iter().flat_map(|a| base.iter().map(move |b| Complex::new(a.clone(), b.clone()))).collect()
}
fn mats<R: Ring + Clone>(base: &[R]) -> Vec<SMatrix<R, 2, 2>> {
    (0..base.len().pow(4)).map(|i| {
        let d = digits(i, base.len(), 4);
        SMatrix::from([[base[d[0]].clone(), base[d[1]].clone()], [base[d[2]].clone(), base[d[3]].clone()]])
    }).collect()
}
fn polys<R: Ring + Clone>(base: &[R], len: usize) -> Vec<Polynomial<R>> {
    (0..words_upto(base.len(), len)).map(|i| Polynomial::from_coefficients(word(i, base.len()).iter().map(|k| base[*k].clone()).collect())).collect()
}
fn zs<const P: u16>() -> Vec<Zn<P>> {
    (0..P).map(Zn).collect()
}
fn mixed<T: Ring + Clone>(v: &[T], step: usize, max: usize) -> Vec<T> {
    (0..v.len()).step_by(step).take(max).map(|i| v[i].clone()).collect()
}

/// Generic points over the free algebra or 2x2 matrices over Z/2^64: one triple decides the law for all entries.
fn generic<T: Ring>(w: &mut Worker, what: &str, mk: impl Fn(u64) -> T) {
    let (a, b, c) = (mk(1), mk(2), mk(3));
    w.distinct(1);
    let show = |_: &T| "(generic)".to_string();
    w.case(|| format!("{what}: generic triple"), |w| {
        for x in [&a, &b, &c] {
            laws1(w, x, &show)?;
            for y in [&a, &b, &c] {
                laws2(w, x, y, &show)?;
                for z in [&a, &b, &c] {
                    laws3(w, x, y, z, &show)?;
                }
            }
        }
        ensure!(a != b && b != c && a != T::zero() && a != T::one() && T::zero() != T::one(), "different generic elements compare equal");
        Ok(())
    });
}

fn r01(c: &mut Check) {
    let t = c.by(false, true, true);
    let k = |i: usize| format!("element {i}");
    law_suite(c, "complex-z2", "Complex<Z/2>", &cplx(&zs::<2>()), k, 4, 1, cshow);
    law_suite(c, "complex-z3", "Complex<Z/3>", &cplx(&zs::<3>()), k, 9, 1, cshow);
    law_suite(c, "complex-z5", "Complex<Z/5>", &cplx(&zs::<5>()), k, 25, 1, cshow);
    if t {
        law_suite(c, "complex-z8", "Complex<Z/8>", &cplx(&zs::<8>()), k, 64, 1, cshow);
    }
    law_suite(c, "complex-m2", "Complex<2x2 matrices over Z/2> (harness matrices)", &cplx(&(0..16).map(M2::<Zn<2>>::nth).collect::<Vec<_>>()), k, 256, if t { 1 } else { 16 }, cshow);
    law_suite(c, "matrix-z2", "SMatrix<Z/2, 2, 2>", &mats(&zs::<2>()), k, 16, 1, mshow);
    law_suite(c, "matrix-z3", "SMatrix<Z/3, 2, 2>", &mats(&zs::<3>()), k, 81, 1, mshow);
    {
        let m3: Vec<SMatrix<Zn<2>, 3, 3>> = (0..512usize).map(|i| SMatrix::from(std::array::from_fn(|r| std::array::from_fn(|q| Zn(((i >> (3 * r + q)) & 1) as u16))))).collect();
        law_suite(c, "matrix3-z2", "SMatrix<Z/2, 3, 3>", &m3, k, 512, c.by(128, 16, 2), nshow);
        let m1: Vec<SMatrix<Zn<5>, 1, 1>> = zs::<5>().into_iter().map(|x| SMatrix::from([[x]])).collect();
        law_suite(c, "matrix1-z5", "SMatrix<Z/5, 1, 1>", &m1, k, 5, 1, nshow);
        let m0: Vec<SMatrix<Zn<5>, 0, 0>> = vec![SMatrix::from([])];
        law_suite(c, "matrix0", "SMatrix<Z/5, 0, 0>, the zero ring", &m0, k, 1, 1, nshow);
    }
    law_suite(c, "poly-z2", "Polynomial<Z/2> of length <= 4, thorough 6", &polys(&zs::<2>(), c.by(4, 4, 6)), k, c.by(16, 16, 64), 1, pshow);
    law_suite(c, "poly-z3", "Polynomial<Z/3> of length <= 3, thorough 4", &polys(&zs::<3>(), c.by(3, 3, 4)), k, c.by(27, 27, 81), 1, pshow);
    law_suite(c, "poly-z4", "Polynomial<Z/4> (zero divisors) of length <= 2, thorough 3", &polys(&zs::<4>(), if t { 3 } else { 2 }), k, if t { 64 } else { 16 }, 1, pshow);
    law_suite(c, "poly-m2", "Polynomial<2x2 matrices over Z/2> of length <= 1, thorough 2", &polys(&(0..16).map(M2::<Zn<2>>::nth).collect::<Vec<_>>(), if t { 2 } else { 1 }), k, if t { 256 } else { 16 }, if t { 8 } else { 1 }, pshow);
    // nestings of the library's own constructors
    let cz2 = cplx(&zs::<2>());
    let mz2 = mats(&zs::<2>());
    let pz2 = polys(&zs::<2>(), 2);
    law_suite(c, "complex-complex", "Complex<Complex<Z/2>>", &cplx(&cz2), k, 16, 1, nshow);
    law_suite(c, "complex-complex-z3", "Complex<Complex<Z/3>>", &cplx(&cplx(&zs::<3>())), k, 81, 1, nshow);
    law_suite(c, "complex-matrix", "Complex<SMatrix<Z/2, 2, 2>>", &cplx(&mz2), k, 256, if t { 1 } else { 16 }, nshow);
    law_suite(c, "complex-poly", "Complex<Polynomial<Z/2>>, coefficient lists of length <= 2", &cplx(&pz2), k, 16, 1, nshow);
    law_suite(c, "matrix-complex", "SMatrix<Complex<Z/2>, 2, 2>", &mats(&cz2), k, 256, if t { 1 } else { 16 }, nshow);
    law_suite(c, "matrix-matrix", "SMatrix<SMatrix<Z/2, 2, 2>, 2, 2>, entries among 4 matrices", &mats(&[mz2[0].clone(), mz2[9].clone(), mz2[2].clone(), mz2[11].clone()]), k, 256, if t { 1 } else { 16 }, nshow);
    law_suite(c, "matrix-poly", "SMatrix<Polynomial<Z/2>, 2, 2>, entries of length <= 1 and the padded zero", &mats(&[pz2[0].clone(), pz2[1].clone(), pz2[2].clone(), Polynomial::from_coefficients(vec![Zn(0), Zn(1)])]), k, 81, c.by(16, 8, 1), nshow);
    law_suite(c, "poly-complex", "Polynomial<Complex<Z/2>> of length <= 2, thorough 3", &polys(&cz2, c.by(2, 2, 3)), k, c.by(16, 16, 64), 1, nshow);
    law_suite(c, "poly-matrix", "Polynomial<SMatrix<Z/2, 2, 2>> of length <= 1 and some of length 2", &{
        let mut v = polys(&mz2, 1);
        v.extend(mixed(&polys(&mz2, 2)[17..], 23, 12));
        v
    }, k, 27, 1, nshow);
    law_suite(c, "poly-poly", "Polynomial<Polynomial<Z/2>>, length <= 2 of length <= 1 coefficient lists", &polys(&polys(&zs::<2>(), 1), 2), k, 4, 1, nshow);
    law_suite(c, "poly-poly-2", "Polynomial<Polynomial<Z/2>>, length <= 2 of length <= 2 coefficient lists", &polys(&pz2, 2), k, 16, 1, nshow);
    law_suite(c, "poly-poly-poly", "three nested polynomials", &polys(&polys(&polys(&zs::<2>(), 1), 1), 2), k, 4, 1, nshow);
    law_suite(c, "complex-matrix-poly", "Complex<SMatrix<Polynomial<Z/2>, 2, 2>>, sample of entries", &mixed(&cplx(&mixed(&mats(&pz2), 61, 40)), 67, 24), k, class_count(&mixed(&cplx(&mixed(&mats(&pz2), 61, 40)), 67, 24)), 1, nshow);
    // machine numbers (no overflow, exact)
    macro_rules! prim { ($($t:ty),*) => { $(
        law_suite(c, concat!("primitive-", stringify!($t)), "values -4..=4", &(-4i8..=4).map(|x| x as $t).collect::<Vec<$t>>(), k, 9, 1, nshow);
        law_suite(c, concat!("complex-", stringify!($t)), "Complex of values -1..=1", &cplx(&(-1i8..=1).map(|x| x as $t).collect::<Vec<$t>>()), k, 9, 1, nshow);
        law_suite(c, concat!("matrix-", stringify!($t)), "2x2 matrices of values -1..=1", &mats(&(-1i8..=1).map(|x| x as $t).collect::<Vec<$t>>()), k, 81, 4, nshow);
        law_suite(c, concat!("poly-", stringify!($t)), "polynomials of length <= 2 with coefficients -1..=1", &polys(&(-1i8..=1).map(|x| x as $t).collect::<Vec<$t>>(), 2), k, 9, 1, nshow);
    )* } }
    prim!(i8, i16, i32, i64, i128, isize, f32, f64);
    c.suite("generic", "one triple of generic elements (entries generators of the free non-commutative ring) per constructor and nesting, which decides each law for all entries of these shapes", 12, |w, p| {
        let g = |s: u64, i: u64| Free::gen((s * 1000 + i) as u32);
        let cg = |s: u64, i: u64| Complex::new(g(s, 2 * i), g(s, 2 * i + 1));
        match p {
            0 => generic(w, "Complex<Free>", |s| cg(s, 0)),
            1 => generic(w, "SMatrix<Free,1,1>", |s| SMatrix::from([[g(s, 0)]])),
            2 => generic(w, "SMatrix<Free,2,2>", |s| SMatrix::<_, 2, 2>::from(std::array::from_fn(|r| std::array::from_fn(|q| g(s, (r * 2 + q) as u64))))),
            3 => generic(w, "SMatrix<Free,3,3>", |s| SMatrix::<_, 3, 3>::from(std::array::from_fn(|r| std::array::from_fn(|q| g(s, (r * 3 + q) as u64))))),
            4 => generic(w, "Polynomial<Free>, lengths 3, 1, 2", |s| Polynomial::from_coefficients((0..[0, 3, 1, 2][s as usize]).map(|i| g(s, i)).collect())),
            5 => generic(w, "Polynomial<Free>, lengths 2, 5, 3", |s| Polynomial::from_coefficients((0..[0, 2, 5, 3][s as usize]).map(|i| g(s, i)).collect())),
            6 => generic(w, "Complex<Complex<Free>>", |s| Complex::new(cg(s, 0), cg(s, 1))),
            7 => generic(w, "Complex<SMatrix<Free,2,2>>", |s| Complex::new(SMatrix::from([[g(s, 0), g(s, 1)], [g(s, 2), g(s, 3)]]), SMatrix::from([[g(s, 4), g(s, 5)], [g(s, 6), g(s, 7)]]))),
            8 => generic(w, "SMatrix<Complex<Free>,2,2>", |s| SMatrix::from([[cg(s, 0), cg(s, 1)], [cg(s, 2), cg(s, 3)]])),
            9 => generic(w, "Polynomial<Complex<Free>>, lengths 2, 1, 3", |s| Polynomial::from_coefficients((0..[0, 2, 1, 3][s as usize]).map(|i| cg(s, i)).collect())),
            10 => generic(w, "Polynomial<SMatrix<Free,2,2>>, lengths 1, 2, 2", |s| Polynomial::from_coefficients((0..[0, 1, 2, 2][s as usize]).map(|i| SMatrix::<_, 2, 2>::from(std::array::from_fn(|r| std::array::from_fn(|q| g(s, i * 4 + (r * 2 + q) as u64))))).collect())),
            _ => generic(w, "SMatrix<Polynomial<Free>,2,2>, lengths 0..=2", |s| SMatrix::<_, 2, 2>::from(std::array::from_fn(|r| std::array::from_fn(|q| Polynomial::from_coefficients((0..((r + 2 * q) as u64 + s) % 3).map(|i| g(s, i * 4 + (r * 2 + q) as u64)).collect()))))),
        }
    });
    c.suite("generic-large", "one triple at generic points of 2x2 matrices over Z/2^64: square matrices of sizes 3..=18, 24, 31, 32, 33, 40, 48, 50, 64, 65; polynomials of lengths up to 1000", 37, |w, p| {
        fn m<const N: usize>(s: u64) -> SMatrix<G, N, N> {
            SMatrix::from(std::array::from_fn(|r| std::array::from_fn(|q| gpt(s * 100_000 + (r * 100 + q) as u64))))
        }
        match p {
            0 => generic(w, "SMatrix<G,3,3>", m::<3>),
            1 => generic(w, "SMatrix<G,4,4>", m::<4>),
            2 => generic(w, "SMatrix<G,5,5>", m::<5>),
            3 => generic(w, "SMatrix<G,6,6>", m::<6>),
            4 => generic(w, "SMatrix<G,7,7>", m::<7>),
            5 => generic(w, "SMatrix<G,8,8>", m::<8>),
            6 => generic(w, "SMatrix<G,9,9>", m::<9>),
            7 => generic(w, "SMatrix<G,10,10>", m::<10>),
            8 => generic(w, "SMatrix<G,11,11>", m::<11>),
            9 => generic(w, "SMatrix<G,12,12>", m::<12>),
            10 => generic(w, "SMatrix<G,13,13>", m::<13>),
            11 => generic(w, "SMatrix<G,14,14>", m::<14>),
            12 => generic(w, "SMatrix<G,15,15>", m::<15>),
            13 => generic(w, "SMatrix<G,16,16>", m::<16>),
            14 => generic(w, "SMatrix<G,17,17>", m::<17>),
            15 => generic(w, "SMatrix<G,18,18>", m::<18>),
            16 => generic(w, "SMatrix<G,24,24>", m::<24>),
            17 => generic(w, "SMatrix<G,31,31>", m::<31>),
            18 => generic(w, "SMatrix<G,32,32>", m::<32>),
            19 => generic(w, "SMatrix<G,33,33>", m::<33>),
            20 => generic(w, "SMatrix<G,40,40>", m::<40>),
            21 => generic(w, "SMatrix<G,48,48>", m::<48>),
            22 => generic(w, "SMatrix<G,50,50>", m::<50>),
            23 => generic(w, "SMatrix<G,64,64>", m::<64>),
            24 => generic(w, "SMatrix<G,65,65>", m::<65>),
            _ => {
                let l = [[300, 257, 129], [128, 127, 1000], [257, 3, 256], [60, 17, 33], [1, 16, 32], [64, 8, 9], [65, 31, 2], [48, 48, 48], [49, 50, 47], [100, 3, 7], [33, 65, 12], [24, 40, 36]][p - 25];
                generic(w, &format!("Polynomial<G>, lengths {l:?}"), |s| Polynomial::from_coefficients((0..l[s as usize - 1]).map(|i| gpt(s * 1000 + i)).collect()))
            }
        }
    });
    c.assume("Base rings: Z/n, the harness's own 2x2 matrix ring, the free non-commutative ring, and small machine numbers.");
}
/// Number of classes computed with pairwise ==; only for lists where a formula would be opaque (then the class count is not an independent check).
fn class_count<T: Ring>(v: &[T]) -> usize {
    let mut r: Vec<&T> = vec![];
    for e in v {
        if !r.iter().any(|x| *x == e) {
            r.push(e)
        }
    }
    r.len()
}

// ------------------------------------------------------------------------------------------------ R02
trait Bits: Copy + Debug + 'static {
    /// Equality of values (bitwise, NaNs identified).
    fn same(self, o: Self) -> bool;
    const ALPHA: &'static [Self];
}
macro_rules! bits_int { ($($t:ty),*) => { $(
    impl Bits for $t {
        fn same(self, o: Self) -> bool { self == o }
        const ALPHA: &'static [Self] = &[0, 1, 2, 3, 5, 7, 10, 11, 12, 15, 16, 17, 63, 64, 100, 126, 127, <$t>::MIN, <$t>::MIN + 1, <$t>::MIN + 2, <$t>::MIN / 2, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX - 2, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MAX / 3, !0, !1, !2, !6, !15];
    }
)* } }
bits_int!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
macro_rules! bits_float { ($($t:ty),*) => { $(
    impl Bits for $t {
        fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        const ALPHA: &'static [Self] = &[0.0, -0.0, 1.0, -1.0, 2.0, 3.0, -3.0, 0.5, 0.1, -0.1, 1e-3, 7.25e5, -123.456, 1.0 / 3.0, 1.0 + <$t>::EPSILON, 1.0 - <$t>::EPSILON / 2.0, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE * <$t>::EPSILON, <$t>::MIN_POSITIVE * 0.75, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2.0, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, 1e19, -1e-19, 3e38, 1e-38, 16777217.0, 9007199254740993.0];
    }
)* } }
bits_float!(f32, f64);

/// Both sides evaluated; a panic (division by zero, overflow) must occur on both or on neither.
fn agree<T: Bits>(what: &str, a: T, b: T, lhs: impl Fn() -> T, rhs: impl Fn() -> T) -> Res {
    let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&rhs)).ok();
    match (lib(&lhs), want) {
        (Ok(x), Some(y)) => {
            ensure!(x.same(y), "{what} of {a:?} and {b:?} is {x:?}, the type's own operation gives {y:?}");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(x), None) => Err(format!("{what} of {a:?} and {b:?} is {x:?}, the type's own operation panics")),
        (Err(e), Some(y)) => Err(format!("{what} of {a:?} and {b:?}: {e}; the type's own operation gives {y:?}")),
    }
}
fn is_ring<T: Ring>() {}
fn is_field<T: Field>() {}

fn r02(c: &mut Check) {
    c.suite("constants", "zero and one of all primitive types convertible from i8", 8, |w, p| {
        macro_rules! k { ($t:ty, $i:expr) => { if p == $i {
            w.distinct(2);
            w.case(|| stringify!($t).into(), |w| {
                is_ring::<$t>();
                let (z, o): ($t, $t) = (Zero::zero(), One::one());
                w.ops(2);
                ensure!(z.same(0 as $t), "zero is {z:?}");
                ensure!(o.same(1 as $t), "one is {o:?}");
                Ok(())
            });
        } } }
        k!(i8, 0); k!(i16, 1); k!(i32, 2); k!(i64, 3); k!(i128, 4); k!(isize, 5); k!(f32, 6); k!(f64, 7);
        is_field::<f32>();
        is_field::<f64>();
    });
    macro_rules! pairs { ($($t:ident),*) => { $(
        c.suite(concat!("pairs-", stringify!($t)), "mul_refs and div_refs on all pairs of an alphabet of 32 values with the extremes, compared with the operators of the type (including whether they panic)", 32, |w, p| {
            let a = $t::ALPHA[p];
            for &b in $t::ALPHA {
                w.distinct(1);
                w.case(|| format!("{a:?}, {b:?}"), |w| {
                    w.ops(2);
                    agree("mul_refs", a, b, || a.mul_refs(&b), || a * b)?;
                    agree("div_refs", a, b, || a.div_refs(&b), || a / b)
                });
            }
        });
    )* } }
    pairs!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
    c.suite("pairs-8-bit", "mul_refs and div_refs on all pairs of i8 and of u8", 256, |w, p| {
        let (a, x) = (p as u8 as i8, p as u8);
        for q in 0..256 {
            let (b, y) = (q as u8 as i8, q as u8);
            w.distinct(2);
            w.case(|| format!("{a} and {b}, {x} and {y}"), |w| {
                w.ops(4);
                match a.checked_mul(b) {
                    Some(m) => ensure!(a.mul_refs(&b) == m, "{a}.mul_refs({b}) = {}", a.mul_refs(&b)),
                    None => agree("mul_refs", a, b, || a.mul_refs(&b), || a * b)?,
                }
                match x.checked_mul(y) {
                    Some(m) => ensure!(x.mul_refs(&y) == m, "{x}.mul_refs({y}) = {}", x.mul_refs(&y)),
                    None => agree("mul_refs", x, y, || x.mul_refs(&y), || x * y)?,
                }
                match a.checked_div(b) {
                    Some(m) => ensure!(a.div_refs(&b) == m, "{a}.div_refs({b}) = {}", a.div_refs(&b)),
                    None => agree("div_refs", a, b, || a.div_refs(&b), || a / b)?,
                }
                match x.checked_div(y) {
                    Some(m) => ensure!(x.div_refs(&y) == m, "{x}.div_refs({y}) = {}", x.div_refs(&y)),
                    None => agree("div_refs", x, y, || x.div_refs(&y), || x / y)?,
                }
                Ok(())
            });
        }
    });
    let step = c.by(601usize, 13, 1);
    c.suite("pairs-16-bit", &format!("mul_refs and div_refs on pairs of i16 and of u16 without overflow: every {step}th left value with all right values"), 256, |w, p| {
        for l in (p..65536).step_by(256 * step) {
            w.case(|| format!("left operand {l}, all right operands"), |w| {
                let (a, x) = (l as u16 as i16, l as u16);
                for r in 0..65536u32 {
                    let (b, y) = (r as u16 as i16, r as u16);
                    // kept from being computed at compile time or dropped as redundant
                    let (a, b, x, y) = std::hint::black_box((a, b, x, y));
                    if let Some(m) = a.checked_mul(b) {
                        ensure!(a.mul_refs(&b) == m, "{a}.mul_refs({b}) = {}", a.mul_refs(&b));
                    }
                    if let Some(m) = x.checked_mul(y) {
                        ensure!(x.mul_refs(&y) == m, "{x}.mul_refs({y}) = {}", x.mul_refs(&y));
                    }
                    if let Some(m) = a.checked_div(b) {
                        ensure!(a.div_refs(&b) == m, "{a}.div_refs({b}) = {}", a.div_refs(&b));
                    }
                    if let Some(m) = x.checked_div(y) {
                        ensure!(x.div_refs(&y) == m, "{x}.div_refs({y}) = {}", x.div_refs(&y));
                    }
                }
                w.ops(4 * 65536);
                w.distinct(65536);
                Ok(())
            });
        }
    });
    macro_rules! cj { ($($t:ident),*) => { $(
        c.suite(concat!("conj-", stringify!($t)), "conj on an alphabet of 32 values", 1, |w, _| {
            for &a in $t::ALPHA {
                w.distinct(1);
                w.case(|| format!("{a:?}"), |w| {
                    w.ops(1);
                    ensure!(a.conj().same(a), "conj({a:?}) = {:?}", a.conj());
                    Ok(())
                });
            }
        });
    )* } }
    cj!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, f32, f64);
    c.suite("conj-16-bit", "conj on all values of i8, u8, i16, u16", 64, |w, p| {
        w.case(|| format!("slice {p} of all 16-bit values"), |w| {
            for i in p * 1024..(p + 1) * 1024 {
                ensure!((i as u16).conj() == i as u16 && (i as i16).conj() == i as i16 && (i as u8).conj() == i as u8 && (i as i8).conj() == i as i8, "conj of the value with bits {i:#x}");
            }
            w.ops(4096);
            w.distinct(2048);
            Ok(())
        });
    });
    let s32 = c.by(16usize, 1, 1);
    c.suite("conj-32-bit", &format!("conj on f32, i32, u32: every {s32}th slice of 2^16 consecutive values"), 4096, |w, p| {
        for h in (p * 16..p * 16 + 16).step_by(s32) {
            w.case(|| format!("values with high half {h:#x}"), |w| {
                for l in 0..65536u32 {
                    let b = std::hint::black_box((h as u32) << 16 | l);
                    let f = f32::from_bits(b);
                    ensure!(f.conj().same(f), "conj of the f32 with bits {b:#x}");
                    ensure!(b.conj() == b && (b as i32).conj() == b as i32, "conj of the integer with bits {b:#x}");
                }
                w.ops(3 * 65536);
                w.distinct(65536);
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------ I01
fn fits(x: i64) -> bool {
    (-128..=127).contains(&x)
}
/// The exact sum, if it and the sum of every subset of the terms are representable (any order of summation is then safe).
fn safe_sum(terms: &[i64]) -> Option<i64> {
    let p: i64 = terms.iter().filter(|x| **x > 0).sum();
    let n: i64 = terms.iter().filter(|x| **x < 0).sum();
    (fits(p) && fits(n)).then(|| p + n)
}
fn safe_dot(a: &[i64], b: &[i64]) -> Option<i64> {
    let t: Vec<i64> = a.iter().zip(b).map(|(x, y)| x * y).collect();
    if t.iter().any(|x| !fits(*x)) {
        return None;
    }
    safe_sum(&t)
}
fn all<T>(v: Vec<Option<T>>) -> Option<Vec<T>> {
    v.into_iter().collect()
}
fn i8s(v: &[i64]) -> Vec<i8> {
    v.iter().map(|x| *x as i8).collect()
}
const AL: [i64; 18] = [-128, -127, -64, -63, -16, -12, -11, -2, -1, 0, 1, 2, 8, 11, 12, 16, 64, 127];

macro_rules! want {
    ($w:expr, $what:expr, $want:expr, $got:expr) => {
        if let Some(want) = $want {
            $w.ops(1);
            match lib(|| $got) {
                Ok(got) => ensure!(got == want, "{}: got {:?}, exact result {:?}", $what, got, want),
                Err(e) => return Err(format!("{}: exact result {:?} is representable, but: {}", $what, want, e)),
            }
        }
    };
}
fn pol(c: &[i64]) -> Polynomial<i8> {
    Polynomial::from_coefficients(i8s(c))
}
/// Coefficients of a polynomial, read off through equality with a candidate.
fn is_pol(p: Polynomial<i8>, c: &[i64]) -> bool {
    p == pol(c)
}
fn i01(c: &mut Check) {
    // overflow checks make an intermediate overflow observable as a panic
    if !cfg!(debug_assertions) {
        eprintln!("I01 has to be built with overflow checks");
        std::process::exit(3);
    }
    c.suite("pairs", "all pairs of i8 values: sums, differences, negatives, products of one-element vectors, matrices, polynomials and of complex numbers, in all operator forms", 256, |w, p| {
        let a = p as i64 - 128;
        for b in -128i64..=127 {
            w.distinct(1);
            w.case(|| format!("{a}, {b}"), |w| {
                let (x, y) = (a as i8, b as i8);
                let s = fits(a + b).then_some((a + b) as i8);
                let d = fits(a - b).then_some((a - b) as i8);
                let m = fits(a * b).then_some((a * b) as i8);
                let n = fits(-a).then_some(-a as i8);
                let n2 = fits(-b).then_some(-b as i8);
                w.outcome(&(s, d, m));
                // complex
                let z = |r: i8, i: i8| Complex::new(r, i);
                for swap in [false, true] {
                    // the second component carries 0 or the values themselves
                    let (u, v) = if swap { (z(0, x), z(0, y)) } else { (z(x, 0), z(y, 0)) };
                    let mk = |t: i8| if swap { z(0, t) } else { z(t, 0) };
                    want!(w, "complex sum", s.map(mk), u + v);
                    want!(w, "complex +=", s.map(mk), { let mut t = u; t += v; t });
                    want!(w, "complex += &", s.map(mk), { let mut t = u; t += &v; t });
                    want!(w, "complex difference", d.map(mk), u - v);
                    want!(w, "complex -=", d.map(mk), { let mut t = u; t -= v; t });
                    want!(w, "complex -= &", d.map(mk), { let mut t = u; t -= &v; t });
                    want!(w, "complex scalar product", m.map(mk), u * y);
                }
                want!(w, "complex negative", n.and_then(|p| n2.map(|q| z(p, q))), -z(x, y));
                want!(w, "complex conjugate", n2.map(|q| z(x, q)), z(x, y).conj());
                want!(w, "complex squared norm", safe_dot(&[a, b], &[a, b]).map(|t| t as i8), z(x, y).sqr_norm());
                want!(w, "complex product with a real number", safe_dot(&[a], &[b]).map(|t| z(t as i8, 0)), z(x, 0) * z(y, 0));
                want!(w, "complex product of imaginary numbers", (fits(a * b) && fits(-a * b)).then_some(z((-a * b) as i8, 0)), &z(0, x) * &z(0, y));
                want!(w, "complex product with i", (fits(-b)).then_some(z(-b as i8, x)), z(x, y) * z(0, 1));
                want!(w, "complex product with 1", Some(z(x, y)), z(x, y) * z(1, 0));
                // static
                let sm = |t: i8| SMatrix::<i8, 1, 1>::from([[t]]);
                want!(w, "static matrix sum", s.map(|t| true | (t == 0)), sm(x) + sm(y) == sm(s.unwrap()));
                want!(w, "static matrix sum &", s.map(|_| true), sm(x) + &sm(y) == sm(s.unwrap()));
                want!(w, "static matrix +=", s.map(|_| true), { let mut t = sm(x); t += sm(y); t == sm(s.unwrap()) });
                want!(w, "static matrix += &", s.map(|_| true), { let mut t = sm(x); t += &sm(y); t == sm(s.unwrap()) });
                want!(w, "static matrix difference", d.map(|_| true), sm(x) - sm(y) == sm(d.unwrap()));
                want!(w, "static matrix difference &", d.map(|_| true), sm(x) - &sm(y) == sm(d.unwrap()));
                want!(w, "static matrix -=", d.map(|_| true), { let mut t = sm(x); t -= sm(y); t == sm(d.unwrap()) });
                want!(w, "static matrix -= &", d.map(|_| true), { let mut t = sm(x); t -= &sm(y); t == sm(d.unwrap()) });
                want!(w, "static matrix negative", n.map(|_| true), -sm(x) == sm(n.unwrap()));
                want!(w, "static matrix product", m.map(|_| true), sm(x) * sm(y) == sm(m.unwrap()));
                want!(w, "static matrix product &", m.map(|_| true), &sm(x) * &sm(y) == sm(m.unwrap()));
                want!(w, "static matrix *=", m.map(|_| true), { let mut t = sm(x); t *= sm(y); t == sm(m.unwrap()) });
                want!(w, "static matrix *= &", m.map(|_| true), { let mut t = sm(x); t *= &sm(y); t == sm(m.unwrap()) });
                let sv = |t: i8| SVector::from([t]);
                want!(w, "static vector sum", s, *at(&(sv(x) + sv(y)), 0));
                want!(w, "static vector difference", d, *at(&(sv(x) - sv(y)), 0));
                want!(w, "static vector +=", s, { let mut t = sv(x); t += sv(y); *at(&t, 0) });
                want!(w, "static vector -=", d, { let mut t = sv(x); t -= sv(y); *at(&t, 0) });
                want!(w, "static dot product", m, sv(x) * sv(y));
                want!(w, "static vector scaling", m, *at(&(sv(x) * y), 0));
                want!(w, "static matrix-vector product", m, *at(&(&sm(x) * &sv(y)), 0));
                // dynamic
                let dvx = |t: i8| make_vector_expr(1, move |_| t).eval();
                let dmx = |t: i8| make_matrix_expr(1, 1, move |_, _| t).eval();
                want!(w, "dynamic vector sum", s, *at(&(&dvx(x) + &dvx(y)).eval(), 0));
                want!(w, "dynamic vector difference", d, *at(&(&dvx(x) - &dvx(y)).eval(), 0));
                want!(w, "dynamic vector +=", s, { let mut t = dvx(x); t += &dvx(y); *at(&t, 0) });
                want!(w, "dynamic vector -=", d, { let mut t = dvx(x); t -= &dvx(y); *at(&t, 0) });
                want!(w, "dynamic vector element-wise product", m, *at(&dvx(x).mul_elemwise(&dvx(y)).eval(), 0));
                want!(w, "dynamic inner product", m, &dvx(x) * &dvx(y));
                want!(w, "dynamic inner product by value", m, dvx(x) * dvx(y));
                want!(w, "dynamic vector conj", Some(x), *at(&dvx(x).conj().eval(), 0));
                want!(w, "dynamic matrix sum", s, *at(&(&dmx(x) + &dmx(y)).eval(), [0, 0]));
                want!(w, "dynamic matrix difference", d, *at(&(&dmx(x) - &dmx(y)).eval(), [0, 0]));
                want!(w, "dynamic matrix +=", s, { let mut t = dmx(x); t += &dmx(y); *at(&t, [0, 0]) });
                want!(w, "dynamic matrix -=", d, { let mut t = dmx(x); t -= &dmx(y); *at(&t, [0, 0]) });
                want!(w, "dynamic matrix element-wise product", m, *at(&dmx(x).mul_elemwise(&dmx(y)).eval(), [0, 0]));
                want!(w, "dynamic matrix product", m, *at(&(&dmx(x) * &dmx(y)).eval(), [0, 0]));
                // polynomials with one coefficient on either side
                want!(w, "polynomial sum", s.map(|_| true), is_pol(pol(&[a]) + pol(&[b]), &[a + b]));
                want!(w, "polynomial +=", s.map(|_| true), { let mut t = pol(&[a]); t += pol(&[b]); is_pol(t, &[a + b]) });
                want!(w, "polynomial += &", s.map(|_| true), { let mut t = pol(&[a]); t += &pol(&[b]); is_pol(t, &[a + b]) });
                want!(w, "polynomial difference", d.map(|_| true), is_pol(pol(&[a]) - pol(&[b]), &[a - b]));
                want!(w, "polynomial -=", d.map(|_| true), { let mut t = pol(&[a]); t -= pol(&[b]); is_pol(t, &[a - b]) });
                want!(w, "polynomial -= &", d.map(|_| true), { let mut t = pol(&[a]); t -= &pol(&[b]); is_pol(t, &[a - b]) });
                want!(w, "polynomial product", m.map(|_| true), is_pol(pol(&[a]) * pol(&[b]), &[a * b]));
                want!(w, "polynomial negative", n.map(|_| true), is_pol(-pol(&[a]), &[-a]));
                // unequal lengths: one side longer, with both values in it
                want!(w, "longer + shorter", s.map(|_| true), is_pol(pol(&[a, b]) + pol(&[b]), &[a + b, b]));
                want!(w, "shorter + longer", s.map(|_| true), is_pol(pol(&[b]) + pol(&[a, b]), &[a + b, b]));
                want!(w, "longer - shorter", d.map(|_| true), is_pol(pol(&[a, b]) - pol(&[b]), &[a - b, b]));
                want!(w, "shorter - longer", d.and(n2).map(|_| true), is_pol(pol(&[a]) - pol(&[b, b]), &[a - b, -b]));
                want!(w, "empty + p", Some(true), is_pol(pol(&[]) + pol(&[a, b]), &[a, b]));
                want!(w, "p - empty", Some(true), is_pol(pol(&[a, b]) - pol(&[]), &[a, b]));
                want!(w, "empty - p", n.and(n2).map(|_| true), is_pol(pol(&[]) - pol(&[a, b]), &[-a, -b]));
                want!(w, "p -= longer", d.and(n2).map(|_| true), { let mut t = pol(&[a]); t -= pol(&[b, b]); is_pol(t, &[a - b, -b]) });
                // evaluation of degree 0 and 1
                want!(w, "eval of a constant", Some(x), pol(&[a]).eval(y));
                want!(w, "eval of a linear polynomial", (fits(a * b)).then_some((a * b) as i8), pol(&[0, a]).eval_ref(&y));
                Ok(())
            });
        }
    });
    let al = AL;
    c.suite("quadruples", "all quadruples of 18 i8 values including the extremes: complex products, two-term inner products, matrix products, products and evaluations of polynomials", 18 * 18, |w, p| {
        let (a, b) = (al[p / 18], al[p % 18]);
        for q in 0..18 * 18 {
            let (e, f) = (al[q / 18], al[q % 18]);
            w.distinct(1);
            w.case(|| format!("{a}, {b}, {e}, {f}"), |w| {
                let v = [a, b, e, f];
                let t = i8s(&v);
                // complex product (a + bi)(e + fi): products a*e, b*f, a*f, b*e and the two components
                let ok = [a * e, b * f, a * f, b * e, a * e - b * f, a * f + b * e].iter().all(|x| fits(*x));
                let z = ok.then(|| Complex::new((a * e - b * f) as i8, (a * f + b * e) as i8));
                let (x, y) = (Complex::new(t[0], t[1]), Complex::new(t[2], t[3]));
                w.outcome(&z.map(|z| (z.re, z.im)));
                want!(w, "complex product", z, x * y);
                want!(w, "complex product &", z, &x * &y);
                want!(w, "complex *=", z, { let mut t = x; t *= y; t });
                let sum = (fits(a + e) && fits(b + f)).then(|| Complex::new((a + e) as i8, (b + f) as i8));
                want!(w, "complex sum", sum, x + y);
                let dif = (fits(a - e) && fits(b - f)).then(|| Complex::new((a - e) as i8, (b - f) as i8));
                want!(w, "complex difference", dif, x - y);
                // (a, b) . (e, f)
                let dot = safe_dot(&[a, b], &[e, f]).map(|x| x as i8);
                want!(w, "static dot product", dot, SVector::from([t[0], t[1]]) * SVector::from([t[2], t[3]]));
                let d2 = |i: usize| make_vector_expr(2, { let t = t.clone(); move |k| t[i + k] }).eval();
                want!(w, "dynamic inner product", dot, &d2(0) * &d2(2));
                want!(w, "dynamic inner product by value", dot, d2(0) * d2(2));
                let row = make_matrix_expr(1, 2, |_, k| t[k]).eval();
                let col = make_matrix_expr(2, 1, |k, _| t[2 + k]).eval();
                want!(w, "dynamic matrix product (inner)", dot, *at(&(&row * &col).eval(), [0, 0]));
                let (srow, scol) = (SMatrix::from([[t[0], t[1]]]), SMatrix::from([[t[2]], [t[3]]]));
                want!(w, "static matrix product (inner)", dot.map(|_| true), &srow * &scol == SMatrix::from([[dot.unwrap()]]));
                want!(w, "static matrix-vector product", dot, *at(&(&srow * &SVector::from([t[2], t[3]])), 0));
                // outer product (a, b)^T (e, f)
                let outer = all(vec![safe_dot(&[a], &[e]), safe_dot(&[a], &[f]), safe_dot(&[b], &[e]), safe_dot(&[b], &[f])]);
                if let Some(o) = &outer {
                    let oi = i8s(o);
                    let c1 = make_matrix_expr(2, 1, |k, _| t[k]).eval();
                    let r1 = make_matrix_expr(1, 2, |_, k| t[2 + k]).eval();
                    let e1 = make_matrix_expr(2, 2, |r, c| oi[2 * r + c]).eval();
                    want!(w, "dynamic matrix product (outer)", Some(true), (&c1 * &r1).eval() == e1);
                    want!(w, "static matrix product (outer)", Some(true), SMatrix::from([[t[0]], [t[1]]]) * SMatrix::from([[t[2], t[3]]]) == SMatrix::from([[oi[0], oi[1]], [oi[2], oi[3]]]));
                    // polynomial product of lengths 2 and 2
                    let mid = safe_sum(&[a * f, b * e]);
                    want!(w, "polynomial product", mid.map(|_| true), is_pol(pol(&[a, b]) * pol(&[e, f]), &[a * e, mid.unwrap(), b * f]));
                    want!(w, "polynomial product &", mid.map(|_| true), is_pol(&pol(&[a, b]) * &pol(&[e, f]), &[a * e, mid.unwrap(), b * f]));
                    want!(w, "polynomial *=", mid.map(|_| true), { let mut t = pol(&[a, b]); t *= pol(&[e, f]); is_pol(t, &[a * e, mid.unwrap(), b * f]) });
                }
                // a + b*f + e*f^2 at f: Horner and power form
                let powers = [a, b * f, e * f * f];
                let horner = [e * f, e * f + b, (e * f + b) * f, (e * f + b) * f + a, f * f];
                let ev = if powers.iter().chain(&horner).all(|x| fits(*x)) { safe_sum(&powers).map(|x| x as i8) } else { None };
                want!(w, "eval", ev, pol(&[a, b, e]).eval(t[3]));
                want!(w, "eval_ref", ev, pol(&[a, b, e]).eval_ref(&t[3]));
                let powers = [a, b * f];
                let ev = if powers.iter().all(|x| fits(*x)) { safe_sum(&powers).map(|x| x as i8) } else { None };
                want!(w, "eval (linear)", ev, pol(&[a, b]).eval(t[3]));
                // sums and differences, lengths 2/2, 1/3, 3/1
                let s2 = all(vec![safe_sum(&[a, e]), safe_sum(&[b, f])]);
                if fits(a + e) && fits(b + f) {
                    want!(w, "polynomial sum", Some(true), is_pol(pol(&[a, b]) + pol(&[e, f]), &[a + e, b + f]));
                }
                let _ = s2;
                if fits(a - e) && fits(b - f) {
                    want!(w, "polynomial difference", Some(true), is_pol(pol(&[a, b]) - pol(&[e, f]), &[a - e, b - f]));
                    want!(w, "static vector difference", Some(((a - e) as i8, (b - f) as i8)), { let d = SVector::from([t[0], t[1]]) - SVector::from([t[2], t[3]]); (*at(&d, 0), *at(&d, 1)) });
                }
                if fits(a - b) {
                    want!(w, "longer - shorter", Some(true), is_pol(pol(&[a, e, f]) - pol(&[b]), &[a - b, e, f]));
                    if fits(-e) && fits(-f) {
                        want!(w, "shorter - longer", Some(true), is_pol(pol(&[a]) - pol(&[b, e, f]), &[a - b, -e, -f]));
                    }
                }
                Ok(())
            });
        }
    });
    c.suite("triples", "three-term inner products: all sextuples over {-128, -127, -11, -1, 0, 1, 11, 127} in all product forms", 64, |w, p| {
        let al = [-128i64, -127, -11, -1, 0, 1, 11, 127];
        for q in 0..4096 {
            let mut d = digits(q, 8, 4);
            d.extend([p % 8, p / 8]);
            let v: Vec<i64> = d.iter().map(|i| al[*i]).collect();
            let Some(s) = safe_dot(&v[..3], &v[3..]) else { continue };
            w.distinct(1);
            w.case(|| format!("{v:?}"), |w| {
                let t = i8s(&v);
                let s = Some(s as i8);
                w.outcome(&s);
                want!(w, "static dot product", s, SVector::from([t[0], t[1], t[2]]) * SVector::from([t[3], t[4], t[5]]));
                let d3 = |i: usize| make_vector_expr(3, { let t = t.clone(); move |k| t[i + k] }).eval();
                want!(w, "dynamic inner product", s, &d3(0) * &d3(3));
                let row = make_matrix_expr(1, 3, |_, k| t[k]).eval();
                let col = make_matrix_expr(3, 1, |k, _| t[3 + k]).eval();
                want!(w, "dynamic matrix product", s, *at(&(&row * &col).eval(), [0, 0]));
                want!(w, "static matrix product", Some(true), &SMatrix::from([[t[0], t[1], t[2]]]) * &SMatrix::from([[t[3]], [t[4]], [t[5]]]) == SMatrix::from([[s.unwrap()]]));
                // sum of squares on the diagonal: polynomial product, coefficient 2
                let coef: Vec<Option<i64>> = (0..5usize).map(|k| {
                    let t: Vec<i64> = (0..3usize).filter(|i| k >= *i && k - i < 3).map(|i| v[i] * v[3 + k - i]).collect();
                    if t.iter().any(|x| !fits(*x)) { None } else { safe_sum(&t) }
                }).collect();
                if let Some(cs) = all(coef) {
                    want!(w, "polynomial product", Some(true), is_pol(pol(&v[..3]) * pol(&v[3..]), &cs));
                }
                Ok(())
            });
        }
    });
    let al2 = if c.quick() { vec![-128i64, -11, 0, 1, 127] } else { vec![-128i64, -11, -1, 0, 1, 12, 127] };
    let k2 = al2.len();
    c.suite("square-matrices", &format!("all pairs of 2x2 matrices over {al2:?} whose product is safe: static and dynamic products, in place, with a vector, of complex numbers as matrices"), k2.pow(4), |w, p| {
        let d = digits(p, k2, 4);
        let a: Vec<i64> = d.iter().map(|i| al2[*i]).collect();
        for q in 0..k2.pow(4) {
            let b: Vec<i64> = digits(q, k2, 4).iter().map(|i| al2[*i]).collect();
            let e = |r: usize, c: usize| safe_dot(&[a[2 * r], a[2 * r + 1]], &[b[c], b[2 + c]]);
            let full = all(vec![e(0, 0), e(0, 1), e(1, 0), e(1, 1)]);
            let col = all(vec![e(0, 0), e(1, 0)]);
            if col.is_none() {
                continue;
            }
            w.distinct(1);
            w.case(|| format!("A={a:?} B={b:?}"), |w| {
                let (x, y) = (i8s(&a), i8s(&b));
                let sm = |v: &[i8]| SMatrix::from([[v[0], v[1]], [v[2], v[3]]]);
                let col = col.map(|v| i8s(&v));
                want!(w, "static matrix-vector product", col.clone(), { let u = &sm(&x) * &SVector::from([y[0], y[2]]); vec![*at(&u, 0), *at(&u, 1)] });
                if let Some(f) = full.map(|f| i8s(&f)) {
                    w.outcome(&f);
                    let dm = |v: &[i8]| { let v = v.to_vec(); make_matrix_expr(2, 2, move |r, c| v[2 * r + c]).eval() };
                    want!(w, "dynamic product", Some(true), (&dm(&x) * &dm(&y)).eval() == dm(&f));
                    want!(w, "static product", Some(true), sm(&x) * sm(&y) == sm(&f));
                    want!(w, "static product &", Some(true), &sm(&x) * &sm(&y) == sm(&f));
                    want!(w, "static *=", Some(true), { let mut t = sm(&x); t *= sm(&y); t == sm(&f) });
                    want!(w, "static *= &", Some(true), { let mut t = sm(&x); t *= &sm(&y); t == sm(&f) });
                    want!(w, "mul_refs", Some(true), sm(&x).mul_refs(&sm(&y)) == sm(&f));
                }
                Ok(())
            });
        }
    });
    c.suite("one-extreme", "inner products, matrix and polynomial products and evaluations of all lengths 1..=40: one extreme pair of factors at every position, all others 0, and a long run of +1/-1", 40, |w, p| {
        let n = p + 1;
        for (x, y) in [(-128i64, 1i64), (127, 1), (127, -1), (1, -128), (-1, 127), (-127, -1), (-11, 11), (11, -11), (12, -10), (-64, 2)] {
            for i in 0..n {
                w.distinct(1);
                w.case(|| format!("length {n}, {x} times {y} at position {i}"), |w| {
                    let (u, v) = (i8s(&(0..n).map(|k| if k == i { x } else { 0 }).collect::<Vec<_>>()), i8s(&(0..n).map(|k| if k == i { y } else if k % 2 == 0 { 1 } else { -1 }).collect::<Vec<_>>()));
                    let m = Some((x * y) as i8);
                    let dv = |t: &[i8]| { let t = t.to_vec(); make_vector_expr(n, move |k| t[k]).eval() };
                    want!(w, "dynamic inner product", m, &dv(&u) * &dv(&v));
                    want!(w, "dynamic inner product by value", m, dv(&v) * dv(&u));
                    let row = { let u = u.clone(); make_matrix_expr(1, n, move |_, k| u[k]).eval() };
                    let col = { let v = v.clone(); make_matrix_expr(n, 1, move |k, _| v[k]).eval() };
                    want!(w, "dynamic matrix product", m, *at(&(&row * &col).eval(), [0, 0]));
                    if n == 32 {
                        let f = |t: &[i8]| SVector::<i8, 32>::from(std::array::from_fn(|k| t[k]));
                        want!(w, "static dot product", m, f(&u) * f(&v));
                        let srow = SMatrix::<i8, 1, 32>::from([std::array::from_fn(|k| u[k])]);
                        want!(w, "static matrix-vector product", m, *at(&(&srow * &f(&v)), 0));
                    }
                    // one coefficient x at i times y: and evaluation at 1, -1 and 0
                    let pu = || Polynomial::from_coefficients(u.clone());
                    let pr = Polynomial::from_coefficients((0..n).map(|k| if k == i { (x * y) as i8 } else { 0 }).collect());
                    want!(w, "polynomial times constant", Some(true), pu() * pol(&[y]) == pr);
                    want!(w, "constant times polynomial", Some(true), pol(&[y]) * pu() == pr);
                    want!(w, "evaluation at 1", Some(x as i8), pu().eval(1));
                    want!(w, "evaluation at 0", Some(if i == 0 { x as i8 } else { 0 }), pu().eval_ref(&0));
                    if i % 2 == 0 || x != -128 {
                        let e = if i % 2 == 0 { x } else { -x };
                        if x != -128 {
                            want!(w, "evaluation at -1", Some(e as i8), pu().eval(-1));
                        }
                    }
                    Ok(())
                });
            }
        }
        // terms +1 and -1 in any arrangement that keeps all partial sums small
        w.case(|| format!("length {n}, ones"), |w| {
            let ones = vec![1i8; n];
            let dv = |t: &[i8]| { let t = t.to_vec(); make_vector_expr(n, move |k| t[k]).eval() };
            want!(w, "inner product of ones", Some(n as i8), &dv(&ones) * &dv(&ones));
            want!(w, "evaluation of ones", Some(n as i8), Polynomial::from_coefficients(ones.clone()).eval(1));
            let sq: Vec<i8> = (0..2 * n - 1).map(|k| (k + 1).min(2 * n - 1 - k) as i8).collect();
            want!(w, "square of the polynomial of ones", Some(true), Polynomial::from_coefficients(ones.clone()) * Polynomial::from_coefficients(ones.clone()) == Polynomial::from_coefficients(sq.clone()));
            Ok(())
        });
    });
    let alc = [-128i64, -8, -1, 0, 1, 8, 127];
    c.suite("complex-entries", "two-term inner products of vectors of Complex<i8> and products of polynomials of length 1 and 2 with complex coefficients, parts in {-128, -8, -1, 0, 1, 8, 127}, where all elementary products and subset sums of both parts are safe", 7 * 7 * 7, |w, p| {
        let d = digits(p, 7, 3);
        for q in 0..7usize.pow(4) {
            let e = digits(q, 7, 4);
            let v: Vec<i64> = d.iter().chain(&e).map(|i| alc[*i]).chain([1]).collect();
            // a = v0 + v1 i, b = v2 + v3 i, c = v4 + v5 i, d = v6 + i
            let (ar, ai, br, bi, cr, ci, dr, di) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
            if [ai, bi].iter().any(|x| !fits(-x)) {
                continue;
            }
            // conj(a) c + conj(b) d, as the sum of the terms of each part
            let terms = |x: &[i64]| if x.iter().all(|t| fits(*t)) { safe_sum(x) } else { None };
            let re = terms(&[ar * cr, ai * ci, br * dr, bi * di]);
            let im = terms(&[ar * ci, -ai * cr, br * di, -bi * dr]);
            let plain_neg = [-ai * ci, -bi * di, ai * cr, bi * dr].iter().all(|t| fits(*t));
            if let (Some(re), Some(im), true) = (re, im, plain_neg) {
                w.distinct(1);
                w.case(|| format!("{v:?}"), |w| {
                    let t = i8s(&v);
                    let z = |k: usize| Complex::new(t[2 * k], t[2 * k + 1]);
                    let f = [z(0), z(1), z(2), z(3)];
                    let dv = |k: usize| make_vector_expr(2, move |i| f[k + i]).eval();
                    w.outcome(&(re, im));
                    want!(w, "inner product", Some(Complex::new(re as i8, im as i8)), &dv(0) * &dv(2));
                    Ok(())
                });
            }
            // a (c + d x)
            let parts = all(vec![terms(&[ar * cr, -ai * ci]), terms(&[ar * ci, ai * cr]), terms(&[ar * dr, -ai * di]), terms(&[ar * di, ai * dr])]);
            let plain = [ai * ci, ai * di].iter().all(|t| fits(*t));
            if let (Some(s), true, true) = (parts, plain, v[2] == 0 && v[3] == 0) {
                w.distinct(1);
                w.case(|| format!("polynomials {v:?}"), |w| {
                    let (t, s) = (i8s(&v), i8s(&s));
                    let z = |k: usize| Complex::new(t[2 * k], t[2 * k + 1]);
                    let mk = |v: &[Complex<i8>]| Polynomial::from_coefficients(v.to_vec());
                    want!(w, "polynomial product", Some(true), mk(&[z(0)]) * mk(&[z(2), z(3)]) == mk(&[Complex::new(s[0], s[1]), Complex::new(s[2], s[3])]));
                    Ok(())
                });
            }
        }
    });
    macro_rules! wide { ($($t:ident),*) => { $(
        c.suite(concat!("extremes-", stringify!($t)), "sums, differences, products by 0, 1, -1 of extreme values in complex numbers, vectors, matrices, polynomials", 7, |w, p| {
            let al = [$t::MIN, $t::MIN + 1, -1, 0, 1, $t::MAX - 1, $t::MAX];
            let a = al[p];
            for b in al {
                w.distinct(1);
                w.case(|| format!("{a}, {b}"), |w| {
                    let (s, d, m) = (a.checked_add(b), a.checked_sub(b), a.checked_mul(b));
                    let z = |r: $t, i: $t| Complex::new(r, i);
                    want!(w, "complex sum", s.map(|s| z(s, s)), z(a, a) + z(b, b));
                    want!(w, "complex difference", d.map(|s| z(s, s)), z(a, a) - z(b, b));
                    want!(w, "complex product", m.map(|s| z(s, 0)), z(a, 0) * z(b, 0));
                    want!(w, "dot", m, SVector::from([a, 0]) * SVector::from([b, 0]));
                    want!(w, "dot", m, SVector::from([0, a]) * SVector::from([0, b]));
                    let dv = |x: $t| make_vector_expr(2, move |_| x).eval();
                    let e: DVector<$t> = dv(a);
                    let _: &DMatrix<$t> = &make_matrix_expr(1, 1, |_, _| a).eval();
                    want!(w, "vector sum", s, *at(&(&e + &dv(b)).eval(), 1));
                    want!(w, "vector difference", d, *at(&(&e - &dv(b)).eval(), 1));
                    let pl = |v: &[$t]| Polynomial::from_coefficients(v.to_vec());
                    want!(w, "polynomial sum", s.map(|_| true), pl(&[a]) + pl(&[b, a]) == pl(&[s.unwrap(), a]));
                    want!(w, "polynomial difference", d.map(|_| true), pl(&[a, b]) - pl(&[b]) == pl(&[d.unwrap(), b]));
                    let nb = b.checked_neg();
                    want!(w, "polynomial difference", d.and(nb).map(|_| true), pl(&[a]) - pl(&[b, b]) == pl(&[d.unwrap(), nb.unwrap()]));
                    want!(w, "polynomial product", m.map(|_| true), pl(&[0, a]) * pl(&[b]) == pl(&[0, m.unwrap()]));
                    want!(w, "evaluation", m, pl(&[0, a]).eval(b));
                    want!(w, "static matrix difference", d.map(|_| true), SMatrix::from([[a, a]]) - SMatrix::from([[b, b]]) == SMatrix::from([[d.unwrap(), d.unwrap()]]));
                    Ok(())
                });
            }
        });
    )* } }
    wide!(i16, i32, i64, i128, isize);
    c.assume("Precondition of every comparison: the exact result, every exact elementary product, and every sum of a subset of the terms are representable, so that any order of summation is safe.");
}

fn main() {
    main_for(&[("R01", r01), ("R02", r02), ("I01", i01)])
}
