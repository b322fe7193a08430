//! S01, S02, S03: vectors and matrices of fixed size.
use magnesia::algebra::{Conj, MulRefs, One, Zero};
use magnesia::linalg::{SMatrix, SVector};
use mc::engine::*;
use mc::ensure;
use mc::probe::{at, at_mut};
use mc::rings::*;
use std::array::from_fn;
use std::collections::VecDeque;

type Arr<R, const M: usize, const N: usize> = [[R; N]; M];

fn mx<R: Clone, const M: usize, const N: usize>(a: &Arr<R, M, N>) -> SMatrix<R, M, N> {
    SMatrix::from(a.clone())
}
fn same_m<R: FullEl, const M: usize, const N: usize>(what: &str, got: &SMatrix<R, M, N>, want: &Arr<R, M, N>) -> Result<(), String> {
    let w = mx(want);
    ensure!(*got == w && w == *got && !(*got != w), "{what}: got {got:?}, expected {want:?}");
    if M * N <= 40 {
        ensure!(format!("{got:?}") == format!("{w:?}"), "{what}: got {got:?}, expected {want:?}");
    }
    Ok(())
}
fn same_v<R: FullEl, const N: usize>(what: &str, got: &SVector<R, N>, want: &[R; N]) -> Result<(), String> {
    ensure!(got.0 == *want && *got == SVector(want.clone()), "{what}: got {got:?}, expected {want:?}");
    Ok(())
}
fn zip2<R: El, const M: usize, const N: usize>(a: &Arr<R, M, N>, b: &Arr<R, M, N>, f: impl Fn(&R, &R) -> R) -> Arr<R, M, N> {
    from_fn(|r| from_fn(|c| f(&a[r][c], &b[r][c])))
}
fn map1<R: El, const M: usize, const N: usize>(a: &Arr<R, M, N>, f: impl Fn(&R) -> R) -> Arr<R, M, N> {
    from_fn(|r| from_fn(|c| f(&a[r][c])))
}
fn r_mul<R: El, const L: usize, const M: usize, const N: usize>(a: &Arr<R, L, M>, b: &Arr<R, M, N>) -> Arr<R, L, N> {
    from_fn(|r| from_fn(|c| (0..M).fold(R::z(), |s, k| s.a(&a[r][k].m(&b[k][c])))))
}

// ---------------------------------------------------------------- S01
fn entrywise<R: FullEl, const M: usize, const N: usize>(a: &Arr<R, M, N>, b: &Arr<R, M, N>) -> Result<u64, String> {
    let (p, q) = (mx(a), mx(b));
    let (sum, dif) = (zip2(a, b, |x, y| x.a(y)), zip2(a, b, |x, y| x.s(y)));
    same_m("A + B", &(p.clone() + q.clone()), &sum)?;
    same_m("A + &B", &(p.clone() + &q), &sum)?;
    let mut t = p.clone();
    t += q.clone();
    same_m("A += B", &t, &sum)?;
    let mut t = p.clone();
    t += &q;
    same_m("A += &B", &t, &sum)?;
    same_m("A - B", &(p.clone() - q.clone()), &dif)?;
    same_m("A - &B", &(p.clone() - &q), &dif)?;
    let mut t = p.clone();
    t -= q.clone();
    same_m("A -= B", &t, &dif)?;
    let mut t = p.clone();
    t -= &q;
    same_m("A -= &B", &t, &dif)?;
    same_m("-A", &-p.clone(), &map1(a, |x| x.n()))?;
    same_m("conj A", &p.clone().conj(), &map1(a, |x| x.cj()))?;
    same_m("0", &SMatrix::<R, M, N>::zero(), &map1(a, |_| R::z()))?;
    same_m("1", &SMatrix::<R, M, N>::one(), &from_fn(|r| from_fn(|c| if r == c { R::o() } else { R::z() })))?;
    ensure!((p == q) == (a == b) && (p != q) == (a != b), "A == B gives {}", p == q);
    same_m("A afterwards", &p, a)?;
    same_m("B afterwards", &q, b)?;
    Ok(13)
}
fn entrywise_v<R: FullEl, const N: usize>(a: &[R; N], b: &[R; N]) -> Result<u64, String> {
    let (p, q) = (SVector::from(a.clone()), SVector(b.clone()));
    let sum: [R; N] = from_fn(|i| a[i].a(&b[i]));
    let dif: [R; N] = from_fn(|i| a[i].s(&b[i]));
    same_v("v + w", &(p.clone() + q.clone()), &sum)?;
    same_v("v + &w", &(p.clone() + &q), &sum)?;
    let mut t = p.clone();
    t += q.clone();
    same_v("v += w", &t, &sum)?;
    let mut t = p.clone();
    t += &q;
    same_v("v += &w", &t, &sum)?;
    same_v("v - w", &(p.clone() - q.clone()), &dif)?;
    same_v("v - &w", &(p.clone() - &q), &dif)?;
    let mut t = p.clone();
    t -= q.clone();
    same_v("v -= w", &t, &dif)?;
    let mut t = p.clone();
    t -= &q;
    same_v("v -= &w", &t, &dif)?;
    same_v("0", &SVector::<R, N>::zero(), &from_fn(|_| R::z()))?;
    ensure!((p == q) == (a == b) && (p != q) == (a != b), "v == w gives {}", p == q);
    same_v("v afterwards", &p, a)?;
    same_v("w afterwards", &q, b)?;
    Ok(10)
}

fn gens<const M: usize, const N: usize>(base: u32) -> Arr<Free, M, N> {
    from_fn(|r| from_fn(|c| Free::gen(base + (r * N + c) as u32)))
}
fn gpts<const M: usize, const N: usize>(base: u64) -> Arr<G, M, N> {
    from_fn(|r| from_fn(|c| gpt(base + (r * N + c) as u64)))
}
fn fins<R: Fin, const M: usize, const N: usize>(i: usize) -> Arr<R, M, N> {
    let d = digits(i, R::N, M * N);
    from_fn(|r| from_fn(|c| R::nth(d[r * N + c])))
}

fn s01_sym<const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{M}x{N}, all entries generic"), |w| {
        w.distinct(1);
        let (a, b) = (gens::<M, N>(0), gens::<M, N>(10000));
        let mut n = entrywise(&a, &b)? + entrywise(&a, &a)? + entrywise(&a, &map1(&a, |x| x.n()))?;
        // equality: different in exactly one entry
        for r in 0..M {
            for c in 0..N {
                let mut d = a.clone();
                d[r][c] = Free::gen(1 << 20);
                ensure!(mx(&a) != mx(&d) && !(mx(&a) == mx(&d)), "matrices that differ in entry ({r},{c}) compare equal");
                n += 1;
            }
        }
        w.ops(n);
        w.outcome(&(M, N));
        Ok(())
    });
}
fn s01_vec<const N: usize>(w: &mut Worker) {
    w.case(|| format!("vectors of length {N}, all entries generic"), |w| {
        w.distinct(1);
        let a: [Free; N] = from_fn(|i| Free::gen(i as u32));
        let b: [Free; N] = from_fn(|i| Free::gen(10000 + i as u32));
        let mut n = entrywise_v(&a, &b)? + entrywise_v(&a, &a)?;
        for i in 0..N {
            let mut d = a.clone();
            d[i] = Free::gen(1 << 20);
            ensure!(SVector(a.clone()) != SVector(d), "vectors that differ in entry {i} compare equal");
            n += 1;
        }
        w.ops(n);
        w.outcome(&N);
        Ok(())
    });
}
fn s01_gen<const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{M}x{N}, generic point"), |w| {
        w.distinct(1);
        let n = entrywise(&gpts::<M, N>(0), &gpts::<M, N>(1 << 30))?;
        w.ops(n);
        Ok(())
    });
}
fn s01_exh<R: Fin, const M: usize, const N: usize>(w: &mut Worker) {
    let n = R::N.pow((M * N) as u32);
    for i in 0..n {
        let a = fins::<R, M, N>(i);
        for j in 0..n {
            let b = fins::<R, M, N>(j);
            w.case(|| format!("A={a:?} B={b:?}"), |w| {
                w.distinct(1);
                let k = entrywise(&a, &b)?;
                w.ops(k);
                if M == 1 {
                    let k = entrywise_v(&a[0], &b[0])?;
                    w.ops(k);
                }
                Ok(())
            });
        }
    }
}

macro_rules! grid { ($w:expr, $f:ident, [$($m:literal)*], $ns:tt) => {{ $( grid!(@row $w, $f, $m, $ns); )* }};
    (@row $w:expr, $f:ident, $m:literal, [$($n:literal)*]) => {{ $( $f::<$m, $n>($w); )* }} }
macro_rules! row { ($w:expr, $f:ident, [$($n:literal)*]) => {{ $( $f::<$n>($w); )* }} }

fn s01(c: &mut Check) {
    c.suite("symbolic-shapes", "all shapes 0..=7 x 0..=7 with all entries generic in the free ring (uninterpreted conjugation); equality against every single-entry change", 8, |w, p| match p {
        0 => grid!(w, s01_sym, [0], [0 1 2 3 4 5 6 7]),
        1 => grid!(w, s01_sym, [1], [0 1 2 3 4 5 6 7]),
        2 => grid!(w, s01_sym, [2], [0 1 2 3 4 5 6 7]),
        3 => grid!(w, s01_sym, [3], [0 1 2 3 4 5 6 7]),
        4 => grid!(w, s01_sym, [4], [0 1 2 3 4 5 6 7]),
        5 => grid!(w, s01_sym, [5], [0 1 2 3 4 5 6 7]),
        6 => grid!(w, s01_sym, [6], [0 1 2 3 4 5 6 7]),
        _ => grid!(w, s01_sym, [7], [0 1 2 3 4 5 6 7]),
    });
    c.suite("symbolic-vectors", "lengths 0..=36 and around powers of two and some other numbers up to 1025, all entries generic", 3, |w, p| match p {
        0 => row!(w, s01_vec, [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20]),
        1 => row!(w, s01_vec, [21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36]),
        _ => row!(w, s01_vec, [39 40 41 47 48 49 50 63 64 65 66 95 96 97 100 127 128 129 130 255 256 257 300 511 512 513 1000 1024 1025]),
    });
    c.suite("generic-shapes", "larger and elongated shapes (1 x n, n x 1 for all n up to 36 and around larger powers of two, up to 129 x 129) at a generic point", 8, |w, p| match p {
        7 => { grid!(w, s01_gen, [40 48 100], [40 50 99]); s01_gen::<128, 128>(w); s01_gen::<129, 129>(w); s01_gen::<2, 300>(w); s01_gen::<300, 3>(w); s01_gen::<513, 2>(w); s01_gen::<2, 1025>(w) }
        0 => grid!(w, s01_gen, [1 2 3], [8 9 15 16 17 31 32 33 64 65]),
        1 => grid!(w, s01_gen, [8 9 15 16 17 31 32 33 64 65], [1 2 3]),
        2 => grid!(w, s01_gen, [8 9 16], [8 9 16 17]),
        5 => grid!(w, s01_gen, [1], [10 11 12 13 14 18 19 20 21 22 23 24 25 26 27 28 29 30 34 35 36 39 40 41 47 48 49 50 63 64 65 66 95 96 97 100 127 128 129 130 256 257]),
        6 => grid!(w, s01_gen, [10 11 12 13 14 18 19 20 21 22 23 24 25 26 27 28 29 30 34 35 36 39 40 41 47 48 49 50 63 64 65 66 95 96 97 100 127 128 129 130 256 257], [1]),
        3 => grid!(w, s01_gen, [17 33], [16 17 32 33]),
        _ => grid!(w, s01_gen, [64 65], [64 65]),
    });
    c.suite("structured", &format!("11 shapes of matrices, 9 lengths of vectors: all pairs of {MPATTERNS} ({PATTERNS}) patterns of values, and equal operands"), 5, |w, p| match p {
        0 => { grid!(w, s01_str, [1 2 3], [3 4]) }
        1 => { s01_str::<8, 8>(w); s01_str::<4, 4>(w); s01_str::<5, 2>(w) }
        2 => { s01_str::<1, 17>(w); s01_str::<33, 2>(w) }
        3 => row!(w, s01_strv, [1 2 3 4 7 8]),
        _ => row!(w, s01_strv, [16 33 65]),
    });
    c.suite("exhaustive-values", "all pairs of matrices: 1x0..1x3, 2x1, 3x1, 2x2 over Z3; 2x3, 3x2, 1x6, 1x5 over Z2; 1x1 over Z16 and M2(Z2)", 12, |w, p| match p {
        0 => s01_exh::<Zn<3>, 1, 0>(w),
        1 => s01_exh::<Zn<3>, 1, 1>(w),
        2 => s01_exh::<Zn<3>, 1, 2>(w),
        3 => s01_exh::<Zn<3>, 1, 3>(w),
        4 => { s01_exh::<Zn<3>, 2, 1>(w); s01_exh::<Zn<3>, 3, 1>(w) }
        5 => s01_exh::<Zn<3>, 2, 2>(w),
        6 => s01_exh::<Zn<2>, 2, 3>(w),
        7 => s01_exh::<Zn<2>, 3, 2>(w),
        8 => s01_exh::<Zn<2>, 1, 6>(w),
        9 => s01_exh::<Zn<2>, 1, 5>(w),
        10 => s01_exh::<Zn<16>, 1, 1>(w),
        _ => s01_exh::<M2<Zn<2>>, 1, 1>(w),
    });
    hist::<Zn<3>, 1, 2>(c, "histories-1x2-Z3");
    hist::<Zn<3>, 2, 1>(c, "histories-2x1-Z3");
    hist::<Zn<2>, 2, 2>(c, "histories-2x2-Z2");
    hist::<Zn<2>, 1, 3>(c, "histories-1x3-Z2");
    if c.by(false, true, true) {
        hist::<Zn<3>, 2, 2>(c, "histories-2x2-Z3");
    }
    floats_entrywise(c);
    if c.by(false, false, true) {
        hist::<Zn<2>, 2, 3>(c, "histories-2x3-Z2");
    }
    c.assume("Symbolic suites rely on data independence of code generic in the element type; sizes beyond those enumerated are covered by the size-generic code being one function per operation.");
}

/// Closure of two matrix variables under all entry-wise updates.
fn hist<R: Fin, const M: usize, const N: usize>(c: &mut Check, name: &str) {
    c.suite(name, "closure of two matrix variables under all histories of entry-wise operations", 1, |w, _| {
        const NAMES: [&str; 13] = ["A+=B", "A+=&B", "A=A+B", "A=A+&B", "A-=B", "A-=&B", "A=A-B", "A=A-&B", "A=-A", "A=conj A", "swap", "A=one", "A=zero"];
        let mut queue = VecDeque::new();
        let n = R::N.pow((M * N) as u32);
        for i in 0..n {
            let (a, b) = (fins::<R, M, N>(i), fins::<R, M, N>(n - 1 - i));
            w.state(&format!("{a:?}{b:?}"));
            queue.push_back((mx(&a), mx(&b), a, b));
        }
        while let Some((p, q, a, b)) = queue.pop_front() {
            for op in 0..NAMES.len() {
                let r = w.step(|| format!("A={a:?} B={b:?}, {}", NAMES[op]), |w| {
                    w.ops(1);
                    let (mut p, mut q, mut a, mut b) = (p.clone(), q.clone(), a.clone(), b.clone());
                    match op {
                        0 => { p += q.clone(); a = zip2(&a, &b, |x, y| x.a(y)) }
                        1 => { p += &q; a = zip2(&a, &b, |x, y| x.a(y)) }
                        2 => { p = p + q.clone(); a = zip2(&a, &b, |x, y| x.a(y)) }
                        3 => { p = p + &q; a = zip2(&a, &b, |x, y| x.a(y)) }
                        4 => { p -= q.clone(); a = zip2(&a, &b, |x, y| x.s(y)) }
                        5 => { p -= &q; a = zip2(&a, &b, |x, y| x.s(y)) }
                        6 => { p = p - q.clone(); a = zip2(&a, &b, |x, y| x.s(y)) }
                        7 => { p = p - &q; a = zip2(&a, &b, |x, y| x.s(y)) }
                        8 => { p = -p; a = map1(&a, |x| x.n()) }
                        9 => { p = p.conj(); a = map1(&a, |x| x.cj()) }
                        10 => { std::mem::swap(&mut p, &mut q); std::mem::swap(&mut a, &mut b) }
                        11 => { p = SMatrix::one(); a = from_fn(|r| from_fn(|c| if r == c { R::o() } else { R::z() })) }
                        _ => { p = SMatrix::zero(); a = map1(&a, |_| R::z()) }
                    }
                    same_m("A", &p, &a)?;
                    same_m("B", &q, &b)?;
                    Ok((p, q, a, b))
                });
                if let Some((p, q, a, b)) = r {
                    if w.state(&format!("{a:?}{b:?}")) {
                        queue.push_back((p, q, a, b));
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- values of machine floats
const SPECIAL: [f64; 8] = [0.0, -0.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
/// One value, up to the sign of zeros and the kind of NaN.
fn eqf(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// One value, with the sign of zeros but any kind of NaN.
fn exactly(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// A matrix as text (the entries of an SMatrix cannot be read in another way without arithmetic), zeros unsigned.
fn shown<const M: usize, const N: usize>(m: &SMatrix<f64, M, N>) -> String {
    format!("{m:?}").replace("-0.0", "0.0")
}
fn flt<const N: usize>(i: usize) -> [f64; N] {
    let d = digits(i, SPECIAL.len(), N);
    from_fn(|k| SPECIAL[d[k]])
}
fn floats_entrywise(c: &mut Check) {
    fn go<const N: usize>(w: &mut Worker, part: usize, parts: usize) {
        let n = SPECIAL.len().pow(N as u32);
        for i in (part..n).step_by(parts) {
            let a = flt::<N>(i);
            w.case(|| format!("{a:?} against all"), |w| {
                for j in 0..n {
                    let b = flt::<N>(j);
                    w.distinct(1);
                    w.ops(9);
                    let (p, q) = (SMatrix::<f64, 1, N>::from([a]), SMatrix::<f64, 1, N>::from([b]));
                    let (v, u) = (SVector(a), SVector(b));
                    let check = |what: &str, got: SMatrix<f64, 1, N>, want: [f64; N]| -> Result<(), String> {
                        ensure!(format!("{got:?}") == format!("{:?}", SMatrix::from([want])), "{what} with {b:?}: {got:?}, expected {want:?}");
                        Ok(())
                    };
                    let check_v = |what: &str, got: SVector<f64, N>, want: [f64; N]| -> Result<(), String> {
                        ensure!((0..N).all(|k| exactly(got.0[k], want[k])), "{what} with {b:?}: {got:?}, expected {want:?}");
                        Ok(())
                    };
                    let (sum, dif): ([f64; N], [f64; N]) = (from_fn(|k| a[k] + b[k]), from_fn(|k| a[k] - b[k]));
                    check("A + B", p + &q, sum)?;
                    check("A - B", p - &q, dif)?;
                    check("-A", -p, a.map(|x| -x))?;
                    check("conj A", p.conj(), a)?;
                    check_v("v + w", v + u, sum)?;
                    check_v("v - w", v - &u, dif)?;
                    let mut t = p;
                    t += &q;
                    check("A += B", t, sum)?;
                    t = p;
                    t -= q;
                    check("A -= B", t, dif)?;
                    let mut t = v;
                    t += u;
                    check_v("v += w", t, sum)?;
                    ensure!((p == q) == (a == b) && (p != q) == (a != b), "A == B with {b:?} gives {}", p == q);
                    ensure!((v == u) == (a == b) && (v != u) == (a != b), "v == w with {b:?} gives {}", v == u);
                }
                Ok(())
            });
        }
    }
    c.suite("special-floats", "all pairs of rows of length 1, 2 and 3 over {0, -0, 1, -1, 2, inf, -inf, NaN} (f64)", 24, |w, p| match p % 3 {
        0 => go::<1>(w, p / 3, 8),
        1 => go::<2>(w, p / 3, 8),
        _ => go::<3>(w, p / 3, 8),
    });
}
/// Any order of summation gives the same value up to the sign of zero: the finite terms are small integers.
fn fdot<const N: usize>(a: impl Fn(usize) -> f64, b: impl Fn(usize) -> f64) -> f64 {
    (0..N).map(|k| a(k) * b(k)).sum()
}
fn floats_product(c: &mut Check) {
    fn go<const L: usize, const M: usize, const N: usize>(w: &mut Worker, part: usize, parts: usize) {
        let (na, nb) = (SPECIAL.len().pow((L * M) as u32), SPECIAL.len().pow((M * N) as u32));
        for i in (part..na).step_by(parts) {
            let d = digits(i, SPECIAL.len(), L * M);
            let a: Arr<f64, L, M> = from_fn(|r| from_fn(|k| SPECIAL[d[r * M + k]]));
            w.case(|| format!("{a:?} times all {M}x{N} matrices"), |w| {
                for j in 0..nb {
                    let d = digits(j, SPECIAL.len(), M * N);
                    let b: Arr<f64, M, N> = from_fn(|k| from_fn(|c| SPECIAL[d[k * N + c]]));
                    w.distinct(1);
                    w.ops(3);
                    let (p, q) = (SMatrix::from(a), SMatrix::from(b));
                    let want: Arr<f64, L, N> = from_fn(|r| from_fn(|c| fdot::<M>(|k| a[r][k], |k| b[k][c])));
                    for (what, got) in [("&A * &B", &p * &q), ("A * B", p * q)] {
                        ensure!(shown(&got) == shown(&SMatrix::from(want)), "{what}, B={b:?}: {got:?}, expected {want:?}");
                    }
                    let v: SVector<f64, M> = SVector(from_fn(|k| b[k][0]));
                    let got = &p * &v;
                    ensure!((0..L).all(|r| eqf(got.0[r], want[r][0])), "&A * &v, v={v:?}: {got:?}");
                }
                Ok(())
            });
        }
    }
    c.suite("special-floats", "1x1*1x1, 1x2*2x1, 2x1*1x2, 1x1*1x2, 2x2*2x1, 1x3*3x1 (first factor) over {0, -0, 1, -1, 2, inf, -inf, NaN}", 48, |w, p| match p % 6 {
        0 => go::<1, 1, 1>(w, p / 6, 8),
        1 => go::<1, 2, 1>(w, p / 6, 8),
        2 => go::<2, 1, 2>(w, p / 6, 8),
        3 => go::<1, 1, 2>(w, p / 6, 8),
        4 => go::<2, 2, 1>(w, p / 6, 8),
        _ => go::<1, 3, 1>(w, p / 6, 8),
    });
}
/// Every pattern of zero and one entries, the others generic.
fn zero_patterns(c: &mut Check) {
    fn go<const L: usize, const M: usize, const N: usize>(w: &mut Worker, part: usize, parts: usize) {
        let (na, nb) = (3usize.pow((L * M) as u32), 3usize.pow((M * N) as u32));
        for i in (part..na).step_by(parts) {
            let d = digits(i, 3, L * M);
            let el = |d: usize, g: u32| match d { 0 => Free::gen(g), 1 => Free::z(), _ => Free::o() };
            let a: Arr<Free, L, M> = from_fn(|r| from_fn(|k| el(d[r * M + k], (r * M + k) as u32)));
            for j in 0..nb {
                let d = digits(j, 3, M * N);
                let b: Arr<Free, M, N> = from_fn(|k| from_fn(|c| el(d[k * N + c], 100 + (k * N + c) as u32)));
                w.case(|| format!("A={a:?} B={b:?}"), |w| {
                    w.distinct(1);
                    let mut n = product(&a, &b)?;
                    if M == N {
                        let sq: Arr<Free, N, N> = from_fn(|r| from_fn(|c| b[r][c].clone()));
                        let l: Arr<Free, L, N> = from_fn(|r| from_fn(|c| a[r][c].clone()));
                        n += product_sq(&l, &sq)?;
                    }
                    w.ops(n);
                    Ok(())
                });
            }
        }
    }
    c.suite("symbolic-zero-patterns", "2x2*2x2, 1x3*3x1, 3x1*1x3, 2x2*2x1, 1x2*2x3: every pattern of entries zero, one or generic", 40, |w, p| match p % 5 {
        0 => go::<2, 2, 2>(w, p / 5, 8),
        1 => go::<1, 3, 1>(w, p / 5, 8),
        2 => go::<3, 1, 3>(w, p / 5, 8),
        3 => go::<2, 2, 1>(w, p / 5, 8),
        _ => go::<1, 2, 3>(w, p / 5, 8),
    });
}
fn floats_vector(c: &mut Check) {
    fn go<const N: usize>(w: &mut Worker, part: usize, parts: usize) {
        let n = SPECIAL.len().pow(N as u32);
        for i in (part..n).step_by(parts) {
            let a = flt::<N>(i);
            w.case(|| format!("{a:?} against all"), |w| {
                for s in SPECIAL {
                    let want = a.map(|x| x * s);
                    let (p, mut t, mut u) = (SVector(a) * s, SVector(a), SVector(a));
                    t *= s;
                    u *= &s;
                    w.ops(3);
                    for g in [p, t, u] {
                        ensure!((0..N).all(|k| eqf(g.0[k], want[k])), "scaled by {s}: {g:?}, expected {want:?}");
                    }
                }
                for j in 0..n {
                    let b = flt::<N>(j);
                    w.distinct(1);
                    w.ops(2);
                    let want = fdot::<N>(|k| a[k], |k| b[k]);
                    let (x, y): (f64, f64) = (SVector(a) * SVector(b), SVector(a) * &SVector(b));
                    ensure!(eqf(x, want) && eqf(y, want), "inner product with {b:?}: {x:?}, {y:?}, expected {want:?}");
                }
                Ok(())
            });
        }
    }
    c.suite("special-floats", "all pairs of vectors of length 1, 2 and 3 and scalars over {0, -0, 1, -1, 2, inf, -inf, NaN} (f64)", 24, |w, p| match p % 3 {
        0 => go::<1>(w, p / 3, 8),
        1 => go::<2>(w, p / 3, 8),
        _ => go::<3>(w, p / 3, 8),
    });
}

// ---------------------------------------------------------------- S02
fn product<R: FullEl, const L: usize, const M: usize, const N: usize>(a: &Arr<R, L, M>, b: &Arr<R, M, N>) -> Result<u64, String> {
    let (p, q) = (mx(a), mx(b));
    let want = r_mul(a, b);
    same_m("&A * &B", &(&p * &q), &want)?;
    same_m("A * B", &(p.clone() * q.clone()), &want)?;
    for c in 0..N {
        let v: SVector<R, M> = SVector(from_fn(|k| b[k][c].clone()));
        let r = &p * &v;
        let e: [R; L] = from_fn(|r| want[r][c].clone());
        same_v("&A * &v", &r, &e)?;
        same_v("v afterwards", &v, &from_fn(|k| b[k][c].clone()))?;
    }
    same_m("A afterwards", &p, a)?;
    same_m("B afterwards", &q, b)?;
    Ok(2 + N as u64)
}
fn product_sq<R: FullEl, const M: usize, const N: usize>(a: &Arr<R, M, N>, b: &Arr<R, N, N>) -> Result<u64, String> {
    let (p, q) = (mx(a), mx(b));
    let want = r_mul(a, b);
    let mut t = p.clone();
    t *= q.clone();
    same_m("A *= B", &t, &want)?;
    let mut t = p.clone();
    t *= &q;
    same_m("A *= &B", &t, &want)?;
    t *= &q;
    same_m("A *= &B twice", &t, &r_mul(&want, b))?;
    let s: &SMatrix<R, M, N> = &p;
    same_m("mul", &(s * &SMatrix::<R, N, N>::one()), a)?;
    same_m("B afterwards", &q, b)?;
    Ok(4)
}
fn product_self<R: FullEl, const N: usize>(b: &Arr<R, N, N>) -> Result<u64, String> {
    let q = mx(b);
    let want = r_mul(b, b);
    same_m("&B * &B (one object)", &(&q * &q), &want)?;
    same_m("B.mul_refs(&B)", &q.mul_refs(&q), &want)?;
    let mut t = q.clone();
    t *= q.clone();
    same_m("B *= B", &t, &want)?;
    same_m("1 * B", &(SMatrix::<R, N, N>::one() * q.clone()), b)?;
    Ok(4)
}
fn s02_sym<const L: usize, const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{L}x{M} * {M}x{N}, all entries generic"), |w| {
        w.distinct(1);
        let n = product(&gens::<L, M>(0), &gens::<M, N>(10000))?;
        w.ops(n);
        w.outcome(&(L, M, N));
        Ok(())
    });
}
fn s02_symsq<const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{M}x{N} *= {N}x{N}, all entries generic"), |w| {
        w.distinct(1);
        let n = product_sq(&gens::<M, N>(0), &gens::<N, N>(10000))? + product_self(&gens::<N, N>(0))?;
        w.ops(n);
        w.outcome(&(M, N));
        Ok(())
    });
}
fn s02_gen<const L: usize, const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{L}x{M} * {M}x{N}, generic point"), |w| {
        w.distinct(1);
        let n = product(&gpts::<L, M>(0), &gpts::<M, N>(1 << 30))?;
        w.ops(n);
        Ok(())
    });
}
fn s02_gensq<const M: usize, const N: usize>(w: &mut Worker) {
    w.case(|| format!("{M}x{N} *= {N}x{N}, generic point"), |w| {
        w.distinct(1);
        let n = product_sq(&gpts::<M, N>(0), &gpts::<N, N>(1 << 30))? + product_self(&gpts::<N, N>(5))?;
        w.ops(n);
        Ok(())
    });
}
fn arr_of<const M: usize, const N: usize>(v: &[G]) -> Arr<G, M, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| v[i * N + j].clone()))
}
fn s02_str<const L: usize, const M: usize, const N: usize>(w: &mut Worker) {
    for ka in 0..MPATTERNS {
        let a = arr_of::<L, M>(&mpattern(ka, L, M, 0));
        for kb in 0..MPATTERNS {
            let b = arr_of::<M, N>(&mpattern(kb, M, N, 1 << 20));
            w.case(|| format!("{L}x{M} pattern {ka} * {M}x{N} pattern {kb}"), |w| {
                w.distinct(1);
                let n = product(&a, &b)?;
                w.ops(n);
                Ok(())
            });
        }
    }
}
fn s02_strsq<const M: usize, const N: usize>(w: &mut Worker) {
    for kb in 0..MPATTERNS {
        let b = arr_of::<N, N>(&mpattern(kb, N, N, 1 << 20));
        for ka in 0..MPATTERNS {
            let a = arr_of::<M, N>(&mpattern(ka, M, N, 0));
            w.case(|| format!("{M}x{N} pattern {ka} *= {N}x{N} pattern {kb}"), |w| {
                w.distinct(1);
                let n = product_sq(&a, &b)?;
                w.ops(n);
                Ok(())
            });
        }
        w.case(|| format!("{N}x{N} pattern {kb}, one object"), |w| {
            let n = product_self(&b)?;
            w.ops(n);
            Ok(())
        });
    }
}
fn s01_str<const M: usize, const N: usize>(w: &mut Worker) {
    for ka in 0..MPATTERNS {
        let a = arr_of::<M, N>(&mpattern(ka, M, N, 0));
        for kb in 0..=MPATTERNS {
            let b = if kb == MPATTERNS { a.clone() } else { arr_of::<M, N>(&mpattern(kb, M, N, 1 << 20)) };
            w.case(|| format!("{M}x{N} pattern {ka} and pattern {kb}"), |w| {
                w.distinct(1);
                let n = entrywise(&a, &b)?;
                w.ops(n);
                Ok(())
            });
        }
    }
}
fn s01_strv<const N: usize>(w: &mut Worker) {
    for ka in 0..PATTERNS {
        let a: [G; N] = pattern(ka, N, 0).try_into().unwrap();
        for kb in 0..=PATTERNS {
            let b: [G; N] = if kb == PATTERNS { a.clone() } else { pattern(kb, N, 1 << 20).try_into().unwrap() };
            w.case(|| format!("length {N} pattern {ka} and pattern {kb}"), |w| {
                w.distinct(1);
                let n = entrywise_v(&a, &b)?;
                w.ops(n);
                Ok(())
            });
        }
    }
}
fn s03_str<const N: usize>(w: &mut Worker) {
    for ka in 0..PATTERNS {
        let a: [G; N] = pattern(ka, N, 0).try_into().unwrap();
        for kb in 0..=PATTERNS {
            let b: [G; N] = if kb == PATTERNS { a.clone() } else { pattern(kb, N, 1 << 20).try_into().unwrap() };
            w.case(|| format!("length {N} pattern {ka} and pattern {kb}"), |w| {
                w.distinct(1);
                let mut n = 0;
                for s in [G::z(), G::o(), G::o().n(), gpt(424242)] {
                    n += dot_scale(&a, &b, &s)?;
                }
                w.ops(n);
                Ok(())
            });
        }
    }
}
fn s02_exh<R: Fin, const L: usize, const M: usize, const N: usize>(w: &mut Worker, part: usize, parts: usize) {
    let (na, nb) = (R::N.pow((L * M) as u32), R::N.pow((M * N) as u32));
    for i in (part..na).step_by(parts) {
        let a = fins::<R, L, M>(i);
        w.case(|| format!("A={a:?} against all {M}x{N} matrices"), |w| {
            for j in 0..nb {
                let b = fins::<R, M, N>(j);
                w.distinct(1);
                let k = product(&a, &b).map_err(|e| format!("B={b:?}: {e}"))?;
                w.ops(k);
            }
            Ok(())
        });
    }
}
fn s02_exhsq<R: Fin, const M: usize, const N: usize>(w: &mut Worker, part: usize, parts: usize) {
    let (na, nb) = (R::N.pow((M * N) as u32), R::N.pow((N * N) as u32));
    for i in (part..na).step_by(parts) {
        let a = fins::<R, M, N>(i);
        w.case(|| format!("A={a:?} *= all {N}x{N} matrices"), |w| {
            for j in 0..nb {
                let b = fins::<R, N, N>(j);
                w.distinct(1);
                let mut k = product_sq(&a, &b).map_err(|e| format!("B={b:?}: {e}"))?;
                if i == 0 {
                    k += product_self(&b).map_err(|e| format!("B={b:?}: {e}"))?;
                }
                w.ops(k);
            }
            Ok(())
        });
    }
}
/// Closure of two square matrix variables under products and sums, in place and pure.
fn hist_mul<R: Fin, const N: usize>(c: &mut Check, name: &str) {
    let n = R::N.pow((N * N) as u32);
    c.suite(name, "closure of two square matrix variables under all histories of products, sums, in-place and pure", 1, |w, _| {
        const NAMES: [&str; 7] = ["A*=B", "A*=&B", "A=A*B", "A=&B*&A", "A+=&B", "swap", "A-=B"];
        let mut queue = VecDeque::new();
        for i in 0..n {
            let (a, b) = (fins::<R, N, N>(i), fins::<R, N, N>(n - 1 - i));
            w.state(&(i, n - 1 - i));
            queue.push_back((mx(&a), mx(&b), a, b));
        }
        let idx = |a: &Arr<R, N, N>| (0..N * N).rev().fold(0, |s, k| s * R::N + (0..R::N).find(|x| R::nth(*x) == a[k / N][k % N]).unwrap());
        while let Some((p, q, a, b)) = queue.pop_front() {
            for op in 0..NAMES.len() {
                let r = w.step(|| format!("A={a:?} B={b:?}, {}", NAMES[op]), |w| {
                    w.ops(1);
                    let (mut p, mut q, mut a, mut b) = (p.clone(), q.clone(), a.clone(), b.clone());
                    match op {
                        0 => { p *= q.clone(); a = r_mul(&a, &b) }
                        1 => { p *= &q; a = r_mul(&a, &b) }
                        2 => { p = p * q.clone(); a = r_mul(&a, &b) }
                        3 => { p = &q * &p; a = r_mul(&b, &a) }
                        4 => { p += &q; a = zip2(&a, &b, |x, y| x.a(y)) }
                        5 => { std::mem::swap(&mut p, &mut q); std::mem::swap(&mut a, &mut b) }
                        _ => { p -= q.clone(); a = zip2(&a, &b, |x, y| x.s(y)) }
                    }
                    ensure!(p == mx(&a), "A is {p:?}, expected {a:?}");
                    ensure!(q == mx(&b), "B is {q:?}, expected {b:?}");
                    Ok((p, q, a, b))
                });
                if let Some((p, q, a, b)) = r {
                    if w.state(&(idx(&a), idx(&b))) {
                        queue.push_back((p, q, a, b));
                    }
                }
            }
        }
    });
}
macro_rules! cube { ($w:expr, $f:ident, $l:literal, [$($m:literal)*], $ns:tt) => {{ $( cube!(@row $w, $f, $l, $m, $ns); )* }};
    (@row $w:expr, $f:ident, $l:literal, $m:literal, [$($n:literal)*]) => {{ $( $f::<$l, $m, $n>($w); )* }} }

macro_rules! s02_tall { ($w:expr, [$($n:literal)*]) => {{ $( s02_gen::<$n, 2, 1>($w); )* }} }

fn s02(c: &mut Check) {
    c.suite("symbolic-shapes", "all compatible shapes with dimensions 0..=5, all entries generic in the free non-commutative ring", 6, |w, p| match p {
        0 => cube!(w, s02_sym, 0, [0 1 2 3 4 5], [0 1 2 3 4 5]),
        1 => cube!(w, s02_sym, 1, [0 1 2 3 4 5], [0 1 2 3 4 5]),
        2 => cube!(w, s02_sym, 2, [0 1 2 3 4 5], [0 1 2 3 4 5]),
        3 => cube!(w, s02_sym, 3, [0 1 2 3 4 5], [0 1 2 3 4 5]),
        4 => cube!(w, s02_sym, 4, [0 1 2 3 4 5], [0 1 2 3 4 5]),
        _ => cube!(w, s02_sym, 5, [0 1 2 3 4 5], [0 1 2 3 4 5]),
    });
    c.suite("symbolic-in-place", "all shapes M x N times N x N, M, N in 0..=6, all entries generic", 7, |w, p| match p {
        0 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [0]),
        1 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [1]),
        2 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [2]),
        3 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [3]),
        4 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [4]),
        5 => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [5]),
        _ => grid!(w, s02_symsq, [0 1 2 3 4 5 6], [6]),
    });
    c.suite("generic-shapes", "larger and elongated shapes (inner dimension: all up to 36, then up to 1025) at a generic point; in place: all square sizes up to 18; up to 128 in two or three dimensions", 16, |w, p| match p {
        13 => { s02_gen::<48, 50, 49>(w); s02_gen::<64, 64, 64>(w); s02_gen::<40, 41, 39>(w); s02_gen::<100, 3, 100>(w); s02_gen::<128, 2, 128>(w) }
        14 => { s02_gen::<3, 100, 100>(w); s02_gen::<100, 100, 3>(w); s02_gen::<65, 65, 65>(w); s02_gen::<129, 5, 66>(w); s02_gen::<257, 3, 2>(w); s02_gen::<3, 2, 300>(w); s02_gen::<513, 2, 3>(w); s02_gen::<2, 3, 1025>(w); s02_gen::<3, 600, 2>(w) }
        15 => { grid!(w, s02_gensq, [2 40 48], [40 48 50]); s02_gensq::<64, 64>(w); s02_gensq::<65, 65>(w); s02_gensq::<5, 100>(w); s02_gensq::<100, 9>(w) }
        0 => cube!(w, s02_gen, 1, [6 7 8 9 15 16 17 31 32 33 64 65 128 129], [1 2]),
        1 => cube!(w, s02_gen, 2, [6 7 8 9 15 16 17 31 32 33 64 65], [1 3]),
        2 => cube!(w, s02_gen, 3, [1 2], [6 7 8 9 15 16 17 31 32 33 64 65]),
        3 => cube!(w, s02_gen, 7, [6 8 9], [6 7 8 9]),
        4 => cube!(w, s02_gen, 8, [7 8 9 16], [7 8 9 16]),
        5 => cube!(w, s02_gen, 16, [15 16 17], [16 17]),
        6 => cube!(w, s02_gen, 33, [1 2 32 33], [1 33]),
        7 => { grid!(w, s02_gensq, [1 2 7 8 9], [7 8 9 16 17]) }
        8 => cube!(w, s02_gen, 1, [10 11 12 13 14 18 19 20 21 22 23 24 25 26 27 28 29 30 34 35 36 39 40 41 47 48 49 50 63  66 95 96 97 100 130 256 257 300 511 512 513 1000 1024 1025], [1]),
        9 => cube!(w, s02_gen, 2, [3], [10 11 12 13 14 18 19 20 21 22 23 24 25 26 27 28 29 30 34 35 36]),
        10 => { s02_tall!(w, [6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36]) }
        11 => grid!(w, s02_gensq, [1 3], [10 11 12 13 14 15 18 20 24 31 40]),
        _ => { grid!(w, s02_gensq, [16 17 32 33], [16 17 32 33]) }
    });
    c.suite("exhaustive-values", "all pairs of values: 2x2*2x2 over Z3, 2x3*3x2 over Z2, 3x2*2x3 over Z2, 1x4*4x1 over Z3, 2x1*1x2 over Z5, 2x2*2x1 over Z4, 1x1 over M2(Z2), in place likewise", 8 * 8, |w, p| {
        let (q, p) = (p / 8, p % 8);
        match p {
            0 => s02_exh::<Zn<3>, 2, 2, 2>(w, q, 8),
            1 => s02_exh::<Zn<2>, 2, 3, 2>(w, q, 8),
            2 => s02_exh::<Zn<2>, 3, 2, 3>(w, q, 8),
            3 => s02_exh::<Zn<3>, 1, 4, 1>(w, q, 8),
            4 => s02_exh::<Zn<5>, 2, 1, 2>(w, q, 8),
            5 => s02_exh::<Zn<4>, 2, 2, 1>(w, q, 8),
            6 => { s02_exh::<M2<Zn<2>>, 1, 1, 1>(w, q, 8); s02_exhsq::<M2<Zn<2>>, 1, 1>(w, q, 8); s02_exhsq::<Zn<3>, 2, 2>(w, q, 8) }
            _ => { s02_exhsq::<Zn<3>, 1, 2>(w, q, 8); s02_exhsq::<Zn<2>, 3, 2>(w, q, 8); s02_exhsq::<Zn<2>, 1, 3>(w, q, 8) }
        }
    });
    c.suite("structured", &format!("18 shapes: all pairs of {MPATTERNS} patterns of values (zeros, ones, identity, diagonal, triangular, symmetric, sparse, rank one, products vanishing, ...), in place and with one object as both operands for 8 of them"), 14, |w, p| match p {
        0 => { s02_str::<2, 2, 2>(w); s02_str::<3, 3, 3>(w); s02_str::<2, 3, 4>(w) }
        1 => { s02_str::<4, 4, 4>(w); s02_str::<1, 8, 1>(w); s02_str::<4, 3, 2>(w) }
        2 => { s02_str::<5, 5, 5>(w); s02_str::<1, 16, 2>(w) }
        3 => { s02_str::<8, 8, 8>(w); s02_str::<8, 1, 8>(w) }
        4 => { s02_str::<3, 9, 5>(w); s02_str::<1, 64, 1>(w) }
        5 => { s02_str::<16, 16, 16>(w) }
        6 => { s02_str::<2, 17, 3>(w); s02_str::<33, 2, 3>(w) }
        7 => { s02_str::<7, 7, 7>(w); s02_str::<6, 6, 6>(w); s02_str::<9, 4, 9>(w) }
        8 => { s02_strsq::<1, 1>(w); s02_strsq::<2, 2>(w); s02_strsq::<3, 3>(w) }
        9 => { s02_strsq::<4, 4>(w); s02_strsq::<2, 5>(w) }
        10 => { s02_strsq::<8, 8>(w) }
        11 => { s02_strsq::<1, 9>(w); s02_strsq::<6, 6>(w) }
        12 => { s02_strsq::<16, 16>(w) }
        _ => { s02_strsq::<9, 4>(w); s02_strsq::<7, 7>(w) }
    });
    hist_mul::<Zn<2>, 2>(c, "histories-2x2-Z2");
    hist_mul::<Zn<3>, 2>(c, "histories-2x2-Z3");
    zero_patterns(c);
    floats_product(c);
    if c.by(false, true, true) {
        c.suite("exhaustive-3x3", "all pairs of 3x3 matrices over Z2", 64, |w, q| { s02_exh::<Zn<2>, 3, 3, 3>(w, q, 64); s02_exhsq::<Zn<2>, 3, 3>(w, q, 64) });
        hist_mul::<Zn<4>, 2>(c, "histories-2x2-Z4");
    }
    if c.by(false, false, true) {
        hist_mul::<Zn<2>, 3>(c, "histories-3x3-Z2");
        hist_mul::<Zn<5>, 2>(c, "histories-2x2-Z5");
    }
    c.assume("Symbolic suites rely on data independence of code generic in the element type.");
}

// ---------------------------------------------------------------- S03
fn dot_scale<R: FullEl, const N: usize>(a: &[R; N], b: &[R; N], s: &R) -> Result<u64, String> {
    let (p, q) = (SVector(a.clone()), SVector(b.clone()));
    let dot = (0..N).fold(R::z(), |t, i| t.a(&a[i].m(&b[i])));
    let d1: R = p.clone() * q.clone();
    ensure!(d1 == dot, "v * w: {d1:?}, expected {dot:?}");
    let d2: R = p.clone() * &q;
    ensure!(d2 == dot, "v * &w: {d2:?}, expected {dot:?}");
    let sc: [R; N] = from_fn(|i| a[i].m(s));
    same_v("v * s", &(p.clone() * s.clone()), &sc)?;
    same_v("v * &s", &(p.clone() * s), &sc)?;
    let mut t = p.clone();
    t *= s.clone();
    same_v("v *= s", &t, &sc)?;
    let mut t = p.clone();
    t *= s;
    same_v("v *= &s", &t, &sc)?;
    same_v("v afterwards", &p, a)?;
    same_v("w afterwards", &q, b)?;
    Ok(6)
}
fn access<const N: usize>(w: &mut Worker) -> Result<(), String> {
    let a: [Free; N] = from_fn(|i| Free::gen(i as u32));
    let v = SVector(a.clone());
    for i in 0..N {
        ensure!(*at(&v, i) == a[i], "v[{i}] is {:?}", v.0[i]);
    }
    let it: Vec<Free> = v.clone().into_iter().collect();
    ensure!(it == a, "iteration by value: {it:?}");
    let it: Vec<&Free> = (&v).into_iter().collect();
    ensure!(it.len() == N && it.iter().zip(&a).all(|(x, y)| *x == y), "iteration by reference: {it:?}");
    let back: Vec<Free> = v.clone().into_iter().rev().collect();
    ensure!(back.iter().rev().eq(a.iter()), "backward iteration");
    let mut m = v.clone();
    let mut k = 0;
    for x in &mut m {
        ensure!(k < N && *x == a[k], "mutable iteration yields {x:?} at step {k}");
        *x = Free::gen(5000 + k as u32);
        k += 1;
    }
    ensure!(k == N, "mutable iteration visits {k} entries");
    for i in 0..N {
        ensure!(m.0[i] == Free::gen(5000 + i as u32), "after mutable iteration entry {i} is {:?}", m.0[i]);
    }
    // long vectors: every 37th and the last
    for i in (0..N).filter(|i| N <= 300 || i % 37 == 0 || i + 1 == N) {
        let mut m = v.clone();
        *at_mut(&mut m, i) = Free::gen(9000);
        for j in 0..N {
            let want = if i == j { Free::gen(9000) } else { a[j].clone() };
            ensure!(m.0[j] == want && *at(&m, j) == want, "after writing entry {i}, entry {j} is {:?}", m.0[j]);
        }
        w.ops(2);
    }
    for i in [N, N + 1, N + 2, 2 * N + 1, 1000, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX, usize::MAX - N, (1 << 32) + N / 2, 1 << 63].into_iter().filter(|i| *i >= N) {
        let r = lib(|| at(&v, i).clone());
        ensure!(r.is_err(), "reading v[{i}] of {N} entries yields {:?}", r.unwrap());
        let mut m = v.clone();
        let r = lib(|| *at_mut(&mut m, i) = Free::gen(1));
        ensure!(r.is_err(), "writing v[{i}] of {N} entries succeeds");
        ensure!(m.0 == a, "rejected write changed the vector");
        w.ops(2);
    }
    w.ops(4);
    Ok(())
}
fn s03_sym<const N: usize>(w: &mut Worker) {
    w.case(|| format!("length {N}, generic entries: products"), |w| {
        w.distinct(1);
        let a: [Free; N] = from_fn(|i| Free::gen(i as u32));
        let b: [Free; N] = from_fn(|i| Free::gen(1000 + i as u32));
        let mut n = 0;
        for s in [Free::gen(5000), Free::z(), Free::o(), Free::gen(0), Free::gen(1).n()] {
            n += dot_scale(&a, &b, &s)? + dot_scale(&a, &a, &s)?;
        }
        w.ops(n);
        w.outcome(&N);
        Ok(())
    });
    w.case(|| format!("length {N}: element access"), |w| {
        w.distinct(1);
        access::<N>(w)
    });
}
fn s03_exh<R: Fin, const N: usize>(w: &mut Worker) {
    let n = R::N.pow(N as u32);
    for i in 0..n {
        let a: [R; N] = fins::<R, 1, N>(i)[0].clone();
        w.case(|| format!("v={a:?} against all w, s"), |w| {
            for j in 0..n {
                let b: [R; N] = fins::<R, 1, N>(j)[0].clone();
                for s in 0..R::N {
                    if j != 0 && s != j % R::N {
                        continue;
                    }
                    w.distinct(1);
                    let k = dot_scale(&a, &b, &R::nth(s)).map_err(|e| format!("w={b:?} s={s}: {e}"))?;
                    w.ops(k);
                }
            }
            Ok(())
        });
    }
}
/// All histories of writes through every write path.
fn writes<const N: usize>(c: &mut Check, name: &str) {
    let k = 3usize;
    c.suite(name, &format!("closure of a vector of {N} entries over 3 values under all writes (index, mutable iterator, in-place scaling and addition)"), 1, |w, _| {
        let mut queue = VecDeque::new();
        let a: [Zn<3>; N] = from_fn(|_| Zn(0));
        w.state(&a.map(|x| x.0).to_vec());
        queue.push_back((SVector(a), a));
        while let Some((v, a)) = queue.pop_front() {
            for op in 0..2 * N * k + 2 * k + 1 {
                let r = w.step(|| format!("v={a:?}, operation {op}"), |w| {
                    w.ops(1);
                    let (mut v, mut a) = (v, a);
                    if op < 2 * N * k {
                        let (i, x, via_iter) = (op / 2 / k, Zn((op / 2 % k) as u16), op % 2 == 1);
                        if via_iter { *(&mut v).into_iter().nth(i).unwrap() = x } else { *at_mut(&mut v, i) = x }
                        a[i] = x;
                    } else if op < 2 * N * k + 2 * k {
                        let o = op - 2 * N * k;
                        let x = Zn((o / 2) as u16);
                        if o % 2 == 0 {
                            v *= x;
                            a = a.map(|y| y.m(&x));
                        } else {
                            v += &SVector([x; N]);
                            a = a.map(|y| y.a(&x));
                        }
                    } else {
                        v -= SVector(from_fn(|i| Zn((i % 3) as u16)));
                        a = from_fn(|i| a[i].s(&Zn((i % 3) as u16)));
                    }
                    for i in 0..N {
                        ensure!(*at(&v, i) == a[i] && v.0[i] == a[i], "entry {i} is {:?}, expected {:?}", v.0[i], a[i]);
                    }
                    ensure!(v.into_iter().eq(a), "iteration disagrees");
                    Ok((v, a))
                });
                if let Some((v, a)) = r {
                    if w.state(&a.map(|x| x.0).to_vec()) {
                        queue.push_back((v, a));
                    }
                }
            }
        }
    });
}

fn s03(c: &mut Check) {
    c.suite("symbolic-lengths", "lengths 0..=36 and around powers of two and some other numbers up to 1025: products at generic entries, all in-range accesses, out-of-range indices up to usize::MAX", 4, |w, p| match p {
        0 => row!(w, s03_sym, [0 1 2 3 4 5 6 7 8 9 10]),
        1 => row!(w, s03_sym, [11 12 13 14 15 16 17 18 19 20]),
        2 => row!(w, s03_sym, [21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36]),
        _ => row!(w, s03_sym, [39 40 41 47 48 49 50 63 64 65 66 95 96 97 100 127 128 129 130 255 256 257 300 511 512 513 1000 1024 1025]),
    });
    c.suite("structured", &format!("18 lengths up to 257: all pairs of {PATTERNS} patterns of values, equal operands, scalars 0, 1, -1 and generic"), 3, |w, p| match p {
        0 => row!(w, s03_str, [1 2 3 4 5 6 7 8 9 15]),
        1 => row!(w, s03_str, [16 17 31 32 33 64 65]),
        _ => row!(w, s03_str, [257]),
    });
    c.suite("exhaustive-values", "all pairs of vectors: lengths 0..=4 over Z3, 6 and 8 over Z2, 2 over M2(Z2), 2 over Z8", 9, |w, p| match p {
        0 => s03_exh::<Zn<3>, 0>(w),
        1 => s03_exh::<Zn<3>, 1>(w),
        2 => s03_exh::<Zn<3>, 2>(w),
        3 => s03_exh::<Zn<3>, 3>(w),
        4 => s03_exh::<Zn<3>, 4>(w),
        5 => s03_exh::<Zn<2>, 6>(w),
        6 => s03_exh::<Zn<2>, 8>(w),
        7 => s03_exh::<Zn<8>, 2>(w),
        _ => s03_exh::<M2<Zn<2>>, 2>(w),
    });
    writes::<1>(c, "write-histories-1");
    writes::<2>(c, "write-histories-2");
    writes::<3>(c, "write-histories-3");
    writes::<5>(c, "write-histories-5");
    if c.by(false, true, true) {
        writes::<8>(c, "write-histories-8");
    }
    floats_vector(c);
    c.assume("Symbolic suites rely on data independence of code generic in the element type.");
}

fn main() {
    main_for(&[("S01", s01), ("S02", s02), ("S03", s03)])
}
