//! D02-D05: dynamic vectors and matrices: dimension checks, element access, products, in-place updates.
use magnesia::algebra::{Complex, Conj};
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, VectorExpr};
use mc::engine::*;
use mc::ensure;
use mc::probe::{at, at_mut};
use mc::rings::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

type Res = Result<(), String>;

fn dm<T: Clone>(r: usize, c: usize, f: impl Fn(usize, usize) -> T) -> DMatrix<T> {
    make_matrix_expr(r, c, f).eval()
}
fn dv<T: Clone>(n: usize, f: impl Fn(usize) -> T) -> DVector<T> {
    make_vector_expr(n, f).eval()
}
fn mvec<T: Clone>(m: &DMatrix<T>) -> Vec<T> {
    (0..m.num_rows()).flat_map(|r| (0..m.num_cols()).map(move |c| (r, c))).map(|(r, c)| at(m, [r, c]).clone()).collect()
}
fn vvec<T: Clone>(v: &DVector<T>) -> Vec<T> {
    (0..v.len()).map(|i| at(v, i).clone()).collect()
}
fn is_m<T: Clone + PartialEq + Debug>(m: &DMatrix<T>, r: usize, c: usize, want: &[T], what: &str) -> Res {
    ensure!(m.num_rows() == r && m.num_cols() == c, "{what}: shape {}x{}, expected {r}x{c}", m.num_rows(), m.num_cols());
    let got = mvec(m);
    ensure!(got == want, "{what}: got {got:?}, expected {want:?}");
    Ok(())
}
fn is_v<T: Clone + PartialEq + Debug>(v: &DVector<T>, want: &[T], what: &str) -> Res {
    let got = vvec(v);
    ensure!(got == want, "{what}: got {got:?}, expected {want:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ D02
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// Must be rejected.
    Reject,
    /// Must be accepted and readable.
    Accept,
    /// Must be accepted; reading is judged elsewhere.
    Build,
}
/// `mk` builds the lazy result; rejected = building panics, or reading every entry and evaluating panics.
fn judge_m<X: MatrixExpr>(what: &str, want: Want, shape: (usize, usize), mk: impl Fn() -> X) -> Res
where
    X::Entry: Clone,
{
    let built = lib(|| mk());
    match (built, want) {
        (Err(_), Want::Reject) => Ok(()),
        (Err(e), _) => Err(format!("{what}: fitting operands rejected: {e}")),
        (Ok(_), Want::Build) => Ok(()),
        (Ok(x), Want::Reject) => {
            for r in 0..shape.0.max(1) + 1 {
                for c in 0..shape.1.max(1) + 1 {
                    ensure!(lib(|| drop(x.entry(r, c))).is_err(), "{what}: operands do not fit, but entry ({r},{c}) of the result can be read");
                }
            }
            ensure!(lib(|| drop(x.eval())).is_err(), "{what}: operands do not fit, but the result can be evaluated");
            Ok(())
        }
        (Ok(x), Want::Accept) => {
            for r in 0..shape.0 {
                for c in 0..shape.1 {
                    if let Err(e) = lib(|| drop(x.entry(r, c))) {
                        return Err(format!("{what}: fitting operands, but reading entry ({r},{c}) fails: {e}"));
                    }
                }
            }
            match lib(|| x.eval()) {
                Ok(m) => {
                    ensure!(m.num_rows() == shape.0 && m.num_cols() == shape.1, "{what}: result is {}x{}", m.num_rows(), m.num_cols());
                    Ok(())
                }
                Err(e) => Err(format!("{what}: fitting operands, but evaluation fails: {e}")),
            }
        }
    }
}
fn judge_v<X: VectorExpr>(what: &str, ok: bool, n: usize, mk: impl Fn() -> X) -> Res
where
    X::Entry: Clone,
{
    match (lib(|| mk()), ok) {
        (Err(_), false) => Ok(()),
        (Err(e), true) => Err(format!("{what}: fitting operands rejected: {e}")),
        (Ok(x), false) => {
            for i in 0..n.max(1) + 1 {
                ensure!(lib(|| drop(x.entry(i))).is_err(), "{what}: operands do not fit, but entry {i} of the result can be read");
            }
            ensure!(lib(|| drop(x.eval())).is_err(), "{what}: operands do not fit, but the result can be evaluated");
            Ok(())
        }
        (Ok(x), true) => {
            for i in 0..n {
                if let Err(e) = lib(|| drop(x.entry(i))) {
                    return Err(format!("{what}: fitting operands, but reading entry {i} fails: {e}"));
                }
            }
            match lib(|| x.eval()) {
                Ok(m) => {
                    ensure!(m.len() == n, "{what}: result has length {}", m.len());
                    Ok(())
                }
                Err(e) => Err(format!("{what}: fitting operands, but evaluation fails: {e}")),
            }
        }
    }
}
fn inplace_m<R: MatrixExpr<Entry = i64>>(what: &str, a: &DMatrix<i64>, ok: bool, mk: &impl Fn() -> R) -> Res {
    for sub in [false, true] {
        let mut t = a.clone();
        let r = lib(|| if sub { t -= mk() } else { t += mk() });
        let o = if sub { "-=" } else { "+=" };
        match (r, ok) {
            (Ok(()), false) => return Err(format!("A {o} {what}: operands do not fit, but the operation succeeds")),
            (Err(e), true) => return Err(format!("A {o} {what}: fitting operands rejected: {e}")),
            (Err(_), false) => is_m(&t, a.num_rows(), a.num_cols(), &mvec(a), &format!("target of the rejected A {o} {what}"))?,
            _ => {}
        }
    }
    Ok(())
}
fn inplace_v<R: VectorExpr<Entry = i64>>(what: &str, a: &DVector<i64>, ok: bool, mk: &impl Fn() -> R) -> Res {
    for sub in [false, true] {
        let mut t = a.clone();
        let r = lib(|| if sub { t -= mk() } else { t += mk() });
        let o = if sub { "-=" } else { "+=" };
        match (r, ok) {
            (Ok(()), false) => return Err(format!("a {o} {what}: operands do not fit, but the operation succeeds")),
            (Err(e), true) => return Err(format!("a {o} {what}: fitting operands rejected: {e}")),
            (Err(_), false) => is_v(&t, &vvec(a), &format!("target of the rejected a {o} {what}"))?,
            _ => {}
        }
    }
    Ok(())
}
fn all_m<R: MatrixExpr<Entry = i64>>(w: &mut Worker, what: &str, a: &DMatrix<i64>, ok: bool, mk: impl Fn() -> R) -> Res {
    let s = (a.num_rows(), a.num_cols());
    let want = if ok { Want::Accept } else { Want::Reject };
    let lazy = || make_matrix_expr(s.0, s.1, |r, c| (r * 10 + c + 1) as i64);
    judge_m(&format!("&A + {what}"), want, s, || a + mk())?;
    judge_m(&format!("&A - {what}"), want, s, || a - mk())?;
    judge_m(&format!("A.mul_elemwise({what})"), want, s, || a.mul_elemwise(mk()))?;
    judge_m(&format!("A.div_elemwise({what})"), want, s, || a.div_elemwise(mk()))?;
    judge_m(&format!("A.wrap() + {what}"), want, s, || a.clone().wrap() + mk())?;
    judge_m(&format!("A.wrap() - {what}"), want, s, || a.clone().wrap() - mk())?;
    judge_m(&format!("A.wrap().zip({what})"), want, s, || a.clone().wrap().zip(mk()))?;
    judge_m(&format!("A.wrap().mul_elemwise({what})"), want, s, || a.clone().wrap().mul_elemwise(mk()))?;
    judge_m(&format!("A.wrap().div_elemwise({what})"), want, s, || a.clone().wrap().div_elemwise(mk()))?;
    judge_m(&format!("lazy + {what}"), want, s, || lazy() + mk())?;
    judge_m(&format!("lazy - {what}"), want, s, || lazy() - mk())?;
    judge_m(&format!("lazy.zip({what})"), want, s, || lazy().zip(mk()))?;
    judge_m(&format!("lazy.mul_elemwise({what})"), want, s, || lazy().mul_elemwise(mk()))?;
    judge_m(&format!("lazy.div_elemwise({what})"), want, s, || lazy().div_elemwise(mk()))?;
    judge_m(&format!("(&A + &A) - {what}"), want, s, || (a + a) - mk())?;
    judge_m(&format!("A.t().t() + {what}"), want, s, || a.t().t() + mk())?;
    inplace_m(what, a, ok, &mk)?;
    w.ops(18);
    Ok(())
}
fn all_v<R: VectorExpr<Entry = i64>>(w: &mut Worker, what: &str, a: &DVector<i64>, ok: bool, mk: impl Fn() -> R) -> Res {
    let n = a.len();
    let lazy = || make_vector_expr(n, |i| i as i64 + 1);
    judge_v(&format!("&a + {what}"), ok, n, || a + mk())?;
    judge_v(&format!("&a - {what}"), ok, n, || a - mk())?;
    judge_v(&format!("a.mul_elemwise({what})"), ok, n, || a.mul_elemwise(mk()))?;
    judge_v(&format!("a.div_elemwise({what})"), ok, n, || a.div_elemwise(mk()))?;
    judge_v(&format!("a.wrap() + {what}"), ok, n, || a.clone().wrap() + mk())?;
    judge_v(&format!("a.wrap() - {what}"), ok, n, || a.clone().wrap() - mk())?;
    judge_v(&format!("a.wrap().zip({what})"), ok, n, || a.clone().wrap().zip(mk()))?;
    judge_v(&format!("a.wrap().mul_elemwise({what})"), ok, n, || a.clone().wrap().mul_elemwise(mk()))?;
    judge_v(&format!("a.wrap().div_elemwise({what})"), ok, n, || a.clone().wrap().div_elemwise(mk()))?;
    judge_v(&format!("lazy + {what}"), ok, n, || lazy() + mk())?;
    judge_v(&format!("lazy - {what}"), ok, n, || lazy() - mk())?;
    judge_v(&format!("lazy.zip({what})"), ok, n, || lazy().zip(mk()))?;
    judge_v(&format!("lazy.mul_elemwise({what})"), ok, n, || lazy().mul_elemwise(mk()))?;
    judge_v(&format!("lazy.div_elemwise({what})"), ok, n, || lazy().div_elemwise(mk()))?;
    judge_v(&format!("(&a + &a) - {what}"), ok, n, || (a + a) - mk())?;
    inplace_v(what, a, ok, &mk)?;
    w.ops(17);
    Ok(())
}
fn small<const R: usize, const C: usize>(f: &mut dyn FnMut(usize, usize, &dyn Fn(&mut Worker, &DMatrix<i64>, bool) -> Res) -> Res) -> Res {
    let arr: [[i64; C]; R] = std::array::from_fn(|r| std::array::from_fn(|c| (r * 7 + c + 1) as i64));
    f(R, C, &move |w, a, ok| {
        all_m(w, "array", a, ok, || arr)?;
        all_m(w, "array.wrap()", a, ok, || arr.wrap())
    })
}

fn d02(c: &mut Check) {
    let mx = c.by(3usize, 4, 6);
    let shapes: Vec<(usize, usize)> = (0..=mx).flat_map(|r| (0..=mx).map(move |q| (r, q))).chain([(1, 6), (6, 1), (2, 8), (8, 2), (4, 4), (16, 1), (1, 16)]).collect();
    c.suite("matrix-pairs", &format!("all pairs of shapes (0..={mx})^2 and 7 long ones x 16 lazy and 2 in-place operations x 7 kinds of right operand"), shapes.len(), |w, p| {
        let (r, q) = shapes[p];
        let a = dm(r, q, |i, j| (i * 11 + j + 1) as i64);
        for &(r2, q2) in &shapes {
            let b = dm(r2, q2, |i, j| (i * 13 + j + 1) as i64);
            let ok = (r, q) == (r2, q2);
            w.distinct(1);
            w.outcome(&ok);
            w.case(|| format!("A {r}x{q}, B {r2}x{q2}"), |w| {
                all_m(w, "B", &a, ok, || b.clone())?;
                all_m(w, "&B", &a, ok, || &b)?;
                all_m(w, "B.wrap()", &a, ok, || b.clone().wrap())?;
                all_m(w, "lazy B", &a, ok, || make_matrix_expr(r2, q2, |i, j| (i + j + 1) as i64))?;
                all_m(w, "(&B + &B)", &a, ok, || &b + &b)?;
                all_m(w, "B.t()", &a, (r, q) == (q2, r2), || b.t())?;
                all_m(w, "B.h().map", &a, (r, q) == (q2, r2), || b.h().map(|x| x + 1))?;
                is_m(&b, r2, q2, &mvec(&dm(r2, q2, |i, j| (i * 13 + j + 1) as i64)), "right operand")
            });
        }
    });
    c.suite("matrix-arrays", "all shapes (0..=3)^2 on the left x arrays [[_; C]; R], R, C in 0..=3, on the right; 18 operations each, bare and wrapped", 16, |w, p| {
        let (r, q) = (p / 4, p % 4);
        let a = dm(r, q, |i, j| (i * 11 + j + 1) as i64);
        macro_rules! each { ($($r:literal $c:literal),*) => { $(
            w.distinct(1);
            w.case(|| format!("A {r}x{q}, array {}x{}", $r, $c), |w| {
                small::<$r, $c>(&mut |r2, q2, f| f(w, &a, (r, q) == (r2, q2)))
            });
        )* } }
        each!(0 0, 0 1, 0 2, 0 3, 1 0, 1 1, 1 2, 1 3, 2 0, 2 1, 2 2, 2 3, 3 0, 3 1, 3 2, 3 3);
    });
    c.suite("matrix-product", "all pairs of shapes, A * B built, read entry by entry, evaluated, wrapped and used in further expressions", shapes.len(), |w, p| {
        let (r, q) = shapes[p];
        let a = dm(r, q, |i, j| (i * 11 + j + 1) as i64);
        for &(r2, q2) in &shapes {
            let b = dm(r2, q2, |i, j| (i * 13 + j + 1) as i64);
            w.distinct(1);
            w.case(|| format!("A {r}x{q} * B {r2}x{q2}"), |w| {
                let want = if q != r2 {
                    Want::Reject
                } else if q == 0 && r * q2 != 0 {
                    Want::Build // reading an empty inner product: see D04
                } else {
                    Want::Accept
                };
                w.outcome(&format!("{want:?}"));
                w.ops(4);
                judge_m("&A * &B", want, (r, q2), || &a * &b)?;
                judge_m("(&A * &B).wrap().map", want, (r, q2), || (&a * &b).wrap().map(|x| x + 1))?;
                judge_m("(&A * &B).wrap().t()", want, (q2, r), || (&a * &b).wrap().t())?;
                // a result used in a further operation must fit as well
                let s = dm(r, q2, |_, _| 1i64);
                let bad = dm(r + 1, q2, |_, _| 1i64);
                judge_m("S + &A * &B", want, (r, q2), || &s + &a * &b)?;
                judge_m("S(rows + 1) + &A * &B", Want::Reject, (r + 1, q2), || &bad + &a * &b)
            });
        }
    });
    let nmax = c.by(6usize, 10, 20);
    c.suite("vector-pairs", &format!("all pairs of lengths 0..={nmax} and 16, 17 x 15 lazy and 2 in-place operations and the inner product x 8 kinds of right operand"), nmax + 3, |w, p| {
        let lens: Vec<usize> = (0..=nmax).chain([16, 17]).collect();
        let n = lens[p];
        let a = dv(n, |i| i as i64 + 1);
        for &m in &lens {
            let b = dv(m, |i| 2 * i as i64 + 3);
            let ok = n == m;
            w.distinct(1);
            w.outcome(&ok);
            w.case(|| format!("a:{n}, b:{m}"), |w| {
                all_v(w, "b", &a, ok, || b.clone())?;
                all_v(w, "&b", &a, ok, || &b)?;
                all_v(w, "b.wrap()", &a, ok, || b.clone().wrap())?;
                all_v(w, "lazy b", &a, ok, || make_vector_expr(m, |i| i as i64 + 1))?;
                all_v(w, "(&b - &b).map", &a, ok, || (&b - &b).map(|x| x + 1))?;
                all_v(w, "b.conj()", &a, ok, || b.conj())?;
                all_v(w, "b.diag().diag()", &a, ok, || b.diag().diag().map(|x| x.abs() + 1))?;
                let sl: Vec<i64> = vvec(&b);
                all_v(w, "slice", &a, ok, || &sl[..])?;
                all_v(w, "slice.wrap()", &a, ok, || sl[..].wrap())?;
                for owned in [false, true] {
                    let r = lib(|| if owned { a.clone() * b.clone() } else { &a * &b });
                    w.ops(1);
                    match (r, ok) {
                        (Ok(x), false) => return Err(format!("inner product (by value: {owned}): operands do not fit, but the result is {x}")),
                        (Err(e), true) => return Err(format!("inner product (by value: {owned}): fitting operands rejected: {e}")),
                        _ => {}
                    }
                }
                is_v(&b, &sl, "right operand")
            });
        }
    });
    let long: Vec<usize> = vec![0, 1, 7, 8, 9, 15, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537];
    c.suite("long-vectors", &format!("all pairs of lengths from {long:?}: sums, differences, element-wise operations, zip, in-place operations, inner products, of stored, lazy and slice operands"), long.len(), |w, p| {
        let n = long[p];
        let a = dv(n, |i| i as i64 + 1);
        let lazy = || make_vector_expr(n, |i| i as i64 + 1);
        for &m in &long {
            let ok = n == m;
            if ok && n > 1025 {
                continue;
            }
            let b = dv(m, |i| 2 * i as i64 + 3);
            let sl: Vec<i64> = vvec(&b);
            w.distinct(1);
            w.outcome(&ok);
            w.case(|| format!("a:{n}, b:{m}"), |w| {
                // a rejection while building is what the library does; entries are probed where a build succeeds
                judge_v("&a + &b", ok, n, || &a + &b)?;
                judge_v("&a - slice", ok, n, || &a - &sl[..])?;
                judge_v("a.mul_elemwise(&b)", ok, n, || a.mul_elemwise(&b))?;
                judge_v("a.div_elemwise(lazy)", ok, n, || a.div_elemwise(make_vector_expr(m, |i| i as i64 + 1)))?;
                judge_v("lazy + lazy", ok, n, || lazy() + make_vector_expr(m, |i| i as i64))?;
                judge_v("lazy - &b", ok, n, || lazy() - &b)?;
                judge_v("lazy.zip(&b)", ok, n, || lazy().zip(&b))?;
                judge_v("lazy.mul_elemwise(slice)", ok, n, || lazy().mul_elemwise(&sl[..]))?;
                judge_v("lazy.div_elemwise(&b)", ok, n, || lazy().div_elemwise(&b))?;
                inplace_v("&b", &a, ok, &|| &b)?;
                inplace_v("lazy", &a, ok, &|| make_vector_expr(m, |i| i as i64 + 1))?;
                inplace_v("slice", &a, ok, &|| &sl[..])?;
                for owned in [false, true] {
                    let r = lib(|| if owned { dv(n, |i| (i % 5) as i64) * b.clone() } else { &a * &b });
                    ensure!(r.is_ok() == ok, "inner product (by value: {owned}): {r:?}");
                }
                w.ops(17);
                Ok(())
            });
        }
    });
    let big: Vec<(usize, usize)> = vec![(1, 1), (1, 31), (31, 1), (1, 32), (1, 33), (8, 8), (4, 16), (16, 4), (64, 1), (1, 64), (65, 1), (17, 15), (15, 17), (16, 16), (16, 17), (17, 16), (2, 128), (128, 2), (32, 32), (31, 33), (33, 31), (33, 32), (1, 1000), (1000, 1), (10, 100), (100, 10), (1, 1024), (256, 257), (257, 256), (256, 256), (0, 256), (256, 0), (65536, 1), (1, 65536), (0, 65536)];
    c.suite("large-matrices", &format!("all pairs of shapes from {big:?}: sums, differences, element-wise operations, zip, in-place operations, products of stored and lazy operands"), big.len(), |w, p| {
        let (r, q) = big[p];
        let a = dm(r, q, |i, j| (i * 11 + j + 1) as i64);
        let lazy = || make_matrix_expr(r, q, |i, j| (i + j + 1) as i64);
        for &(r2, q2) in &big {
            let ok = (r, q) == (r2, q2);
            if ok && r * q > 1200 {
                continue;
            }
            let b = dm(r2, q2, |i, j| (i * 13 + j + 1) as i64);
            let want = if ok { Want::Accept } else { Want::Reject };
            let s = (r, q);
            w.distinct(1);
            w.outcome(&ok);
            w.case(|| format!("A {r}x{q}, B {r2}x{q2}"), |w| {
                let lb = || make_matrix_expr(r2, q2, |i, j| (i + j + 1) as i64);
                judge_m("&A + &B", want, s, || &a + &b)?;
                judge_m("&A - lazy", want, s, || &a - lb())?;
                judge_m("A.mul_elemwise(&B)", want, s, || a.mul_elemwise(&b))?;
                judge_m("A.div_elemwise(lazy)", want, s, || a.div_elemwise(lb()))?;
                judge_m("lazy + &B", want, s, || lazy() + &b)?;
                judge_m("lazy - lazy", want, s, || lazy() - lb())?;
                judge_m("lazy.zip(&B)", want, s, || lazy().zip(&b))?;
                judge_m("lazy.mul_elemwise(lazy)", want, s, || lazy().mul_elemwise(lb()))?;
                judge_m("lazy.div_elemwise(&B)", want, s, || lazy().div_elemwise(&b))?;
                inplace_m("&B", &a, ok, &|| &b)?;
                inplace_m("lazy", &a, ok, &|| lb())?;
                if q != r2 {
                    judge_m("&A * &B", Want::Reject, (r.min(4), q2.min(4)), || &a * &b)?;
                } else {
                    judge_m("&A * &B", Want::Build, (r, q2), || &a * &b)?;
                }
                w.ops(14);
                Ok(())
            });
        }
    });
    let huge: Vec<usize> = vec![0, 1, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 256, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
    c.suite("huge-lazy", &format!("all pairs of lazy vectors with lengths from {huge:?}, and of lazy matrices with these numbers of rows or columns: every lazy operation accepts exactly the fitting ones"), huge.len(), |w, p| {
        let n = huge[p];
        fn probe_v<X: VectorExpr>(what: &str, ok: bool, n: usize, mk: impl Fn() -> X) -> Res {
            match lib(|| mk()) {
                Err(e) if ok => Err(format!("{what}: fitting operands rejected: {e}")),
                Err(_) => Ok(()),
                Ok(x) => {
                    for i in [0, 1, n / 2, n.wrapping_sub(1)] {
                        if i < n {
                            let r = lib(|| drop(x.entry(i)));
                            ensure!(r.is_ok() == ok, "{what}: operands fit: {ok}, but reading entry {i}: {r:?}");
                        }
                    }
                    if ok {
                        ensure!(x.len() == n, "{what}: length {}", x.len());
                    } else if n < 300 {
                        ensure!(lib(|| { for i in 0..n.max(1) { drop(x.entry(i)) } }).is_err(), "{what}: operands do not fit, but all entries can be read");
                    }
                    Ok(())
                }
            }
        }
        fn probe_m<X: MatrixExpr>(what: &str, ok: bool, s: (usize, usize), mk: impl Fn() -> X) -> Res {
            match lib(|| mk()) {
                Err(e) if ok => Err(format!("{what}: fitting operands rejected: {e}")),
                Err(_) => Ok(()),
                Ok(x) => {
                    for i in [0, 1, s.0 / 2, s.0.wrapping_sub(1)] {
                        for j in [0, 1, s.1 / 2, s.1.wrapping_sub(1)] {
                            if i < s.0 && j < s.1 {
                                let r = lib(|| drop(x.entry(i, j)));
                                ensure!(r.is_ok() == ok, "{what}: operands fit: {ok}, but reading entry ({i},{j}): {r:?}");
                            }
                        }
                    }
                    if ok {
                        ensure!((x.num_rows(), x.num_cols()) == s, "{what}: shape {}x{}", x.num_rows(), x.num_cols());
                    } else {
                        ensure!(lib(|| drop(x.entry(0, 0))).is_err(), "{what}: operands do not fit, but entry (0,0) can be read");
                    }
                    Ok(())
                }
            }
        }
        for &m in &huge {
            let ok = n == m;
            w.distinct(1);
            w.outcome(&ok);
            w.case(|| format!("lengths {n}, {m}"), |w| {
                let a = || make_vector_expr(n, |i| i as u64 | 1);
                let b = || make_vector_expr(m, |i| i as u64 & 1 | 1);
                probe_v("a + b", ok, n, || a().map(|x| x & 0xff) + b())?;
                probe_v("a - b", ok, n, || a() - b())?;
                probe_v("a.mul_elemwise(b)", ok, n, || a().mul_elemwise(b()))?;
                probe_v("a.div_elemwise(b)", ok, n, || a().div_elemwise(b()))?;
                probe_v("a.zip(b)", ok, n, || a().zip(b()))?;
                probe_v("a.map.zip(b.map)", ok, n, || a().map(|x| x).zip(b().map(|x| x)))?;
                w.ops(6);
                Ok(())
            });
            // the other dimension equal, or also different
            for (o1, o2) in [(1usize, 1usize), (3, 3), (n, m), (m, n), (n, n), (0, 0)] {
                for tr in [false, true] {
                    let (s1, s2) = if tr { ((o1, n), (o2, m)) } else { ((n, o1), (m, o2)) };
                    let ok = s1 == s2;
                    w.distinct(1);
                    w.case(|| format!("shapes {s1:?}, {s2:?}"), |w| {
                        let a = || make_matrix_expr(s1.0, s1.1, |i, j| (i ^ j) as u64 & 0xff | 1);
                        let b = || make_matrix_expr(s2.0, s2.1, |i, j| (i ^ j) as u64 & 1 | 1);
                        probe_m("A + B", ok, s1, || a() + b())?;
                        probe_m("A - B", ok, s1, || a() - b())?;
                        probe_m("A.mul_elemwise(B)", ok, s1, || a().mul_elemwise(b()))?;
                        probe_m("A.div_elemwise(B)", ok, s1, || a().div_elemwise(b()))?;
                        probe_m("A.zip(B)", ok, s1, || a().zip(b()))?;
                        probe_m("A.t().zip(B.t())", ok, (s1.1, s1.0), || a().t().zip(b().t()))?;
                        probe_m("A.t() + B", (s1.1, s1.0) == s2, s2, || a().t() + b())?;
                        w.ops(7);
                        Ok(())
                    });
                }
            }
        }
    });
    // non-square matrices: diag vectors, and element types that fit while the shape does not (same number of entries)
    c.suite("same-count", "all pairs of different shapes with the same number (<= 24) of entries: every operation of matrix-pairs is rejected", 24, |w, p| {
        let n = p + 1;
        let sh: Vec<(usize, usize)> = (1..=n).filter(|r| n % r == 0).map(|r| (r, n / r)).chain([(0, n), (n, 0)]).collect();
        for &(r, q) in &sh {
            for &(r2, q2) in &sh {
                if (r, q) == (r2, q2) {
                    continue;
                }
                let a = dm(r, q, |i, j| (i * 11 + j + 1) as i64);
                let b = dm(r2, q2, |i, j| (i * 13 + j + 1) as i64);
                w.distinct(1);
                w.case(|| format!("A {r}x{q}, B {r2}x{q2}"), |w| {
                    all_m(w, "&B", &a, false, || &b)?;
                    all_m(w, "B", &a, false, || b.clone())?;
                    ensure!(a != b, "matrices of different shapes compare equal");
                    Ok(())
                });
            }
        }
    });
    c.suite("rejected-in-history", "all histories of up to 4 in-place operations over three matrices of the two shapes 2x1 and 1x2 (fitting and not): rejections leave all matrices unchanged, accepted operations act as without the rejected ones", 12, |w, p| {
        // registers 0: 2x1, 1: 1x2, 2: 2x1
        let shape = [(2usize, 1usize), (1, 2), (2, 1)];
        let moves: Vec<(usize, usize, bool)> = (0..3).flat_map(|d| (0..3).filter(move |s| *s != d).flat_map(move |s| [(d, s, false), (d, s, true)])).collect();
        let depth = if w.tier == Tier::Quick { 3 } else { 4 };
        for h in 0..moves.len().pow(depth) {
            let mut hist = digits(h, moves.len(), depth as usize);
            hist.insert(0, p);
            w.distinct(1);
            w.case(|| format!("{:?}", hist.iter().map(|i| moves[*i]).collect::<Vec<_>>()), |w| {
                let mut real: Vec<DMatrix<i64>> = (0..3).map(|k| dm(shape[k].0, shape[k].1, |i, j| (k * 100 + i * 10 + j) as i64 + 1)).collect();
                let mut model: Vec<Vec<i64>> = real.iter().map(mvec).collect();
                for &m in &hist {
                    let (d, s, sub) = moves[m];
                    let src = real[s].clone();
                    let t = &mut real[d];
                    let r = lib(|| if sub { *t -= &src } else { *t += &src });
                    ensure!(r.is_ok() == (shape[d] == shape[s]), "operation {:?} on shapes {:?} and {:?}: {r:?}", moves[m], shape[d], shape[s]);
                    if r.is_ok() {
                        for i in 0..2 {
                            let x = model[s][i];
                            if sub { model[d][i] -= x } else { model[d][i] += x }
                        }
                    }
                    w.ops(1);
                    for k in 0..3 {
                        is_m(&real[k], shape[k].0, shape[k].1, &model[k], &format!("matrix {k} after {:?}", moves[m]))?;
                    }
                }
                w.outcome(&model);
                Ok(())
            });
        }
    });
    c.assume("Element type i64 for the dimension checks; dimensions are checked independently of the element type.");
}

// ------------------------------------------------------------------------------------------------ D03
/// Every way of reading element (r, c).
fn read_m<T: Clone + PartialEq + Debug>(m: &DMatrix<T>, r: usize, c: usize) -> Result<T, String> {
    let x = at(m, [r, c]).clone();
    ensure!(m.entry(r, c) == x, "entry({r},{c}) = {:?}, but [[{r},{c}]] = {x:?}", m.entry(r, c));
    ensure!((&m).entry(r, c) == x, "entry({r},{c}) of the reference differs from [[{r},{c}]] = {x:?}");
    Ok(x)
}
fn agree_m<T: Clone + PartialEq + Debug>(m: &DMatrix<T>, r: usize, c: usize, model: &[T]) -> Res {
    ensure!(m.num_rows() == r && m.num_cols() == c, "shape became {}x{}", m.num_rows(), m.num_cols());
    for i in 0..r {
        for j in 0..c {
            let x = read_m(m, i, j)?;
            ensure!(x == model[i * c + j], "element ({i},{j}) is {x:?}, last written was {:?}", model[i * c + j]);
        }
    }
    Ok(())
}
fn agree_v<T: Clone + PartialEq + Debug>(v: &DVector<T>, model: &[T]) -> Res {
    ensure!(v.len() == model.len(), "length became {}", v.len());
    for (i, x) in model.iter().enumerate() {
        let y = at(v, i).clone();
        ensure!(v.entry(i) == y && (&v).entry(i) == y, "entry({i}) and [{i}] disagree");
        ensure!(y == *x, "element {i} is {y:?}, last written was {x:?}");
    }
    Ok(())
}
/// All reachable contents of a matrix under element writes, from the zero matrix, with all writes in each state.
fn writes_m<R: Fin>(w: &mut Worker, r: usize, c: usize) {
    let n = r * c;
    let start = (dm(r, c, |_, _| R::nth(0)), vec![0usize; n]);
    let mut seen: HashMap<Vec<usize>, ()> = HashMap::new();
    seen.insert(start.1.clone(), ());
    w.state(&(r, c, &start.1));
    let mut queue = VecDeque::from([start]);
    while let Some((m, st)) = queue.pop_front() {
        for i in 0..r {
            for j in 0..c {
                for x in 0..R::N {
                    let mut t = m.clone();
                    let mut ns = st.clone();
                    ns[i * c + j] = x;
                    let ok = w.step(|| format!("{r}x{c} matrix {st:?}: [[{i},{j}]] = {x}"), |w| {
                        *at_mut(&mut t, [i, j]) = R::nth(x);
                        w.ops(1);
                        let model: Vec<R> = ns.iter().map(|k| R::nth(*k)).collect();
                        agree_m(&t, r, c, &model)?;
                        let old: Vec<R> = st.iter().map(|k| R::nth(*k)).collect();
                        agree_m(&m, r, c, &old)
                    });
                    if ok.is_some() && seen.insert(ns.clone(), ()).is_none() {
                        w.state(&(r, c, &ns));
                        queue.push_back((t, ns));
                    }
                }
            }
        }
    }
}
fn writes_v<R: Fin>(w: &mut Worker, n: usize) {
    let start = (dv(n, |_| R::nth(0)), vec![0usize; n]);
    let mut seen: HashMap<Vec<usize>, ()> = HashMap::new();
    seen.insert(start.1.clone(), ());
    w.state(&(n, &start.1));
    let mut queue = VecDeque::from([start]);
    while let Some((m, st)) = queue.pop_front() {
        for i in 0..n {
            for x in 0..R::N {
                let mut t = m.clone();
                let mut ns = st.clone();
                ns[i] = x;
                let ok = w.step(|| format!("vector {st:?}: [{i}] = {x}"), |w| {
                    *at_mut(&mut t, i) = R::nth(x);
                    w.ops(1);
                    agree_v(&t, &ns.iter().map(|k| R::nth(*k)).collect::<Vec<_>>())?;
                    agree_v(&m, &st.iter().map(|k| R::nth(*k)).collect::<Vec<_>>())
                });
                if ok.is_some() && seen.insert(ns.clone(), ()).is_none() {
                    w.state(&(n, &ns));
                    queue.push_back((t, ns));
                }
            }
        }
    }
}
/// Index values around the dimension `d`, powers of two, and values whose product with `o` wraps around.
fn index_values(d: usize, o: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..d + 3).collect();
    v.extend([2 * d, 2 * d + 1, 3 * d + 1, d * d, d * o, d * o + 1, o, o + 1, 2 * o]);
    for b in [8u32, 16, 31, 32, 33, 62, 63] {
        for s in [-1i64, 0, 1] {
            v.push((1usize << b).wrapping_add_signed(s as isize));
        }
    }
    for k in 0..=4usize {
        v.push(usize::MAX - k);
        v.push((usize::MAX - d).saturating_add(k));
        v.push((usize::MAX - o).saturating_add(k));
        v.push(usize::MAX / 2 + k);
        if o > 0 {
            // k * 2^64 / o: the product with o wraps to a small number
            let q = ((k as u128 + 1) << 64) / o as u128;
            for e in 0..3u128 {
                v.push((q + e) as usize);
                v.push((q + d as u128 + e) as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn d03(c: &mut Check) {
    let zm: Vec<(usize, usize)> = c.by_tier(vec![(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2), (3, 3)], vec![(0, 0), (0, 3), (3, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1), (2, 3), (3, 2), (1, 8), (8, 1), (2, 4), (4, 2), (3, 3), (2, 5), (5, 2), (3, 4), (4, 3)]);
    c.suite("matrix-writes-binary", &format!("closure of all element writes over Z/2, shapes {zm:?}: all reachable contents x all writes"), zm.len(), |w, p| writes_m::<Zn<2>>(w, zm[p].0, zm[p].1));
    let z3: Vec<(usize, usize)> = c.by_tier(vec![(1, 3), (3, 1), (2, 2), (2, 3), (3, 2)], vec![(1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 7), (7, 1), (2, 4), (4, 2)]);
    c.suite("matrix-writes-ternary", &format!("closure of all element writes over Z/3, shapes {z3:?}"), z3.len(), |w, p| writes_m::<Zn<3>>(w, z3[p].0, z3[p].1));
    let nv = c.by(10usize, 12, 16);
    c.suite("vector-writes-binary", &format!("closure of all element writes over Z/2, lengths 0..={nv}"), nv + 1, |w, p| writes_v::<Zn<2>>(w, p));
    let nv3 = c.by(6usize, 7, 9);
    c.suite("vector-writes-ternary", &format!("closure of all element writes over Z/3, lengths 0..={nv3}"), nv3 + 1, |w, p| writes_v::<Zn<3>>(w, p));

    // larger shapes: each single element, and all elements in several orders
    let mx = c.by(7usize, 12, 18);
    let mut shapes: Vec<(usize, usize)> = (0..=mx).flat_map(|r| (0..=mx).map(move |q| (r, q))).collect();
    shapes.extend([(1, 64), (64, 1), (2, 33), (33, 2), (16, 17), (17, 16), (31, 5), (1, 257), (257, 1), (32, 32), (33, 31), (1, 1025), (1025, 1), (3, 256), (256, 3)]);
    c.suite("matrix-single-writes", &format!("all shapes (0..={mx})^2 and 15 large ones: a write to each single element, then all elements in four orders, in place and over a clone"), shapes.len(), |w, p| {
        let (r, q) = shapes[p];
        let n = r * q;
        let a = dm(r, q, |i, j| (1 + i * q + j) as i64);
        let base: Vec<i64> = (1..=n as i64).collect();
        for k in 0..n {
            w.distinct(1);
            w.case(|| format!("{r}x{q}: write ({},{})", k / q, k % q), |w| {
                let mut t = a.clone();
                *at_mut(&mut t, [k / q, k % q]) += 100_000;
                let mut m = base.clone();
                m[k] += 100_000;
                w.ops(1);
                agree_m(&t, r, q, &m)?;
                agree_m(&a, r, q, &base)?;
                ensure!(t != a && !(t == a), "matrices with a different element ({},{}) compare equal", k / q, k % q);
                Ok(())
            });
        }
        for o in 0..4 {
            w.distinct(1);
            w.case(|| format!("{r}x{q}: write all, order {o}"), |w| {
                let mut t = dm(r, q, |_, _| 0i64);
                let mut m = vec![0i64; n];
                for s in 0..n {
                    let (i, j) = match o {
                        0 => (s / q, s % q),
                        1 => (s % r, s / r),
                        2 => ((n - 1 - s) / q, (n - 1 - s) % q),
                        _ => (r - 1 - s % r, s / r),
                    };
                    *at_mut(&mut t, [i, j]) = s as i64 + 1;
                    m[i * q + j] = s as i64 + 1;
                    w.ops(1);
                    if n <= 64 || s + 1 == n {
                        agree_m(&t, r, q, &m)?;
                    }
                }
                let e = t.clone().eval();
                agree_m(&e, r, q, &m)?;
                agree_m(&(&t).eval(), r, q, &m)?;
                ensure!(e == t, "a clone compares different");
                Ok(())
            });
        }
    });
    let lmax = c.by(40usize, 150, 400);
    c.suite("vector-single-writes", &format!("lengths 0..={lmax}: a write to each single element"), lmax + 1, |w, n| {
        let a = dv(n, |i| i as i64 + 1);
        let base: Vec<i64> = (1..=n as i64).collect();
        for k in 0..n {
            w.distinct(1);
            w.case(|| format!("length {n}: write {k}"), |w| {
                let mut t = a.clone();
                *at_mut(&mut t, k) -= 100_000;
                let mut m = base.clone();
                m[k] -= 100_000;
                w.ops(1);
                agree_v(&t, &m)?;
                agree_v(&a, &base)?;
                ensure!(t != a, "vectors with a different element {k} compare equal");
                agree_v(&(&t).eval(), &m)
            });
        }
    });
    let omx = c.by(4usize, 7, 12);
    let oshapes: Vec<(usize, usize)> = (0..=omx).flat_map(|r| (0..=omx).map(move |q| (r, q))).chain([(1, 64), (64, 1), (16, 17), (2, 256), (256, 2)]).collect();
    c.suite("matrix-out-of-range", &format!("all shapes (0..={omx})^2 and 5 large ones x all pairs of index values in and around the dimensions, powers of two, and wrapping multiples: read by index, by entry (owned, reference, wrapped), write"), oshapes.len(), |w, p| {
        let (r, q) = oshapes[p];
        let a = dm(r, q, |i, j| (1 + i * q + j) as i64);
        let base: Vec<i64> = (1..=(r * q) as i64).collect();
        for &i in &index_values(r, q) {
            for &j in &index_values(q, r) {
                if i < r && j < q {
                    continue;
                }
                w.distinct(1);
                w.case(|| format!("{r}x{q} matrix, element ({i},{j})"), |w| {
                    w.ops(6);
                    let bad = |how: &str| Err(format!("{how} of element ({i},{j}) of a {r}x{q} matrix does not panic"));
                    if lib(|| *at(&a, [i, j])).is_ok() { return bad("reading by index") }
                    if lib(|| a.entry(i, j)).is_ok() { return bad("reading by entry") }
                    if lib(|| (&&a).entry(i, j)).is_ok() { return bad("reading by entry (reference)") }
                    if lib(|| a.clone().wrap().entry(i, j)).is_ok() { return bad("reading by entry (wrapped)") }
                    let mut t = a.clone();
                    if lib(|| *at_mut(&mut t, [i, j]) = -1).is_ok() { return bad("writing") }
                    if lib(|| *at_mut(&mut t, [i, j]) += -1).is_ok() { return bad("updating") }
                    agree_m(&t, r, q, &base)
                });
            }
        }
    });
    c.suite("vector-out-of-range", "lengths 0..=16 and 64, 256 x all index values around the length, powers of two and the maximum", 19, |w, p| {
        let n = if p < 17 { p } else { [64, 256][p - 17] };
        let a = dv(n, |i| i as i64 + 1);
        let base: Vec<i64> = (1..=n as i64).collect();
        for &i in &index_values(n, 8) {
            if i < n {
                continue;
            }
            w.distinct(1);
            w.case(|| format!("vector of length {n}, element {i}"), |w| {
                w.ops(5);
                let bad = |how: &str| Err(format!("{how} of element {i} of a vector of length {n} does not panic"));
                if lib(|| *at(&a, i)).is_ok() { return bad("reading by index") }
                if lib(|| a.entry(i)).is_ok() { return bad("reading by entry") }
                if lib(|| (&&a).entry(i)).is_ok() { return bad("reading by entry (reference)") }
                if lib(|| a.clone().wrap().entry(i)).is_ok() { return bad("reading by entry (wrapped)") }
                let mut t = a.clone();
                if lib(|| *at_mut(&mut t, i) = -1).is_ok() { return bad("writing") }
                agree_v(&t, &base)
            });
        }
    });
    // however a container came about
    let pmax = 5;
    c.suite("provenance", "matrices of all shapes (0..=4)^2 and vectors of lengths 0..=8, made in 12 and 9 ways (arrays, slices, functions, constants, evaluated expressions of every kind, products, diagonals, clones): every single write, all accesses outside", pmax * pmax + 9, |w, p| {
        if p >= pmax * pmax {
            let n = p - pmax * pmax;
            let vals: Vec<i64> = (0..n as i64).map(|i| i * 3 - 4).collect();
            let zero = vec![0i64; n];
            let f = dv(n, |i| i as i64 * 3 - 4);
            let full: DMatrix<i64> = dm(n, n, |i, j| if i == j { i as i64 * 3 - 4 } else { -50 });
            let wide: DMatrix<i64> = dm(n, n + 2, |i, j| if i == j { i as i64 * 3 - 4 } else { -50 });
            let made: Vec<(&str, DVector<i64>, &[i64])> = vec![
                ("slice", (&vals[..]).eval(), &vals),
                ("wrapped slice", (&vals[..]).wrap().eval(), &vals),
                ("function", f.clone(), &vals),
                ("reference", (&f).eval(), &vals),
                ("map", (&f).wrap().map(|x| x + 1).map(|x| x - 1).eval(), &vals),
                ("sum", (&f + DVector::<i64>::zeros(n)).eval(), &vals),
                ("zeros", DVector::<i64>::zeros(n).eval(), &zero),
                ("diagonal", full.diag().eval(), &vals),
                ("diagonal of a wide matrix", wide.diag().eval(), &vals),
            ];
            for (how, v, model) in &made {
                w.distinct(1);
                w.case(|| format!("vector of length {n} made by {how}"), |w| {
                    agree_v(v, model)?;
                    for k in 0..n {
                        let mut t = v.clone();
                        *at_mut(&mut t, k) = 1000;
                        let mut m = model.to_vec();
                        m[k] = 1000;
                        w.ops(1);
                        agree_v(&t, &m)?;
                    }
                    for k in [n, n + 1, 2 * n + 1, usize::MAX] {
                        let mut t = v.clone();
                        w.ops(3);
                        ensure!(lib(|| *at(v, k)).is_err() && lib(|| v.entry(k)).is_err() && lib(|| (&v).entry(k)).is_err(), "reading element {k} does not panic");
                        ensure!(lib(|| *at_mut(&mut t, k) = 5).is_err(), "writing element {k} does not panic");
                        agree_v(&t, model)?;
                    }
                    Ok(())
                });
            }
            return;
        }
        fn matrices<const R: usize, const C: usize>(w: &mut Worker) {
            let val = |i: usize, j: usize| (i * 7 + j * 3) as i64 - 9;
            let arr: [[i64; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| val(i, j)));
            let model: Vec<i64> = (0..R * C).map(|k| val(k / C, k % C)).collect();
            let f = dm(R, C, val);
            let tr = dm(C, R, |i, j| val(j, i));
            let mut made: Vec<(&str, DMatrix<i64>)> = vec![
                ("array", arr.eval()),
                ("wrapped array", arr.wrap().eval()),
                ("function", f.clone()),
                ("reference", (&f).eval()),
                ("transpose of an array", <[[i64; R]; C]>::wrap(std::array::from_fn(|i| std::array::from_fn(|j| val(j, i)))).t().eval()),
                ("transpose", tr.t().eval()),
                ("Hermitian transpose", tr.h().eval()),
                ("map", (&f).wrap().map(|x| x + 1).map(|x| x - 1).eval()),
                ("sum", (&f + DMatrix::<i64>::zeros(R, C)).eval()),
                ("element-wise product", f.mul_elemwise(DMatrix::<i64>::ones(R, C)).eval()),
                ("difference", (&f - DMatrix::<i64>::same(R, C, 0)).eval()),
            ];
            if C > 0 {
                let e = DMatrix::<i64>::eye(C).eval();
                made.push(("product", (&f * &e).eval()));
            }
            for (how, m) in &made {
                w.distinct(1);
                w.case(|| format!("{R}x{C} matrix made by {how}"), |w| {
                    agree_m(m, R, C, &model)?;
                    for k in 0..R * C {
                        let mut t = m.clone();
                        *at_mut(&mut t, [k / C, k % C]) = 1000;
                        let mut x = model.clone();
                        x[k] = 1000;
                        w.ops(1);
                        agree_m(&t, R, C, &x)?;
                    }
                    let ind = |d: usize| (0..d + 2).chain([R * C, R + C, usize::MAX]);
                    for i in ind(R) {
                        for j in ind(C) {
                            if i < R && j < C {
                                continue;
                            }
                            let mut t = m.clone();
                            w.ops(3);
                            ensure!(lib(|| *at(m, [i, j])).is_err() && lib(|| m.entry(i, j)).is_err() && lib(|| (&m).entry(i, j)).is_err(), "reading element ({i},{j}) does not panic");
                            ensure!(lib(|| *at_mut(&mut t, [i, j]) = 5).is_err(), "writing element ({i},{j}) does not panic");
                            agree_m(&t, R, C, &model)?;
                        }
                    }
                    Ok(())
                });
            }
        }
        macro_rules! table { ($($r:literal $c:literal),*) => { [$(matrices::<$r, $c>),*] } }
        let all: [fn(&mut Worker); 25] = table!(0 0, 0 1, 0 2, 0 3, 0 4, 1 0, 1 1, 1 2, 1 3, 1 4, 2 0, 2 1, 2 2, 2 3, 2 4, 3 0, 3 1, 3 2, 3 3, 3 4, 4 0, 4 1, 4 2, 4 3, 4 4);
        all[p](w)
    });
    // histories mixing writes, out-of-range accesses and clones
    let depth = c.by(4u32, 4, 5);
    c.suite("access-histories", &format!("all histories of {depth} accesses (writes in range, out-of-range writes, clone, overwrite by an evaluated transpose of the transpose) on 2x2, 1x3 and 3x1 matrices"), 3 * 16, |w, p| {
        let (r, q) = [(2, 2), (1, 3), (3, 1)][p / 16];
        let idx: Vec<(usize, usize)> = (0..=r).flat_map(|i| (0..=q).map(move |j| (i, j))).collect();
        let nm = idx.len() + 2;
        for h in 0..nm.pow(depth - 1) {
            let mut hist = digits(h, nm, depth as usize - 1);
            if p % 16 >= nm {
                break;
            }
            hist.insert(0, p % 16);
            w.distinct(1);
            w.case(|| format!("{r}x{q} matrix: {:?} of {idx:?}, clone, t().t()", hist), |w| {
                let mut m = dm(r, q, |i, j| (1 + i * q + j) as i64);
                let mut model: Vec<i64> = (1..=(r * q) as i64).collect();
                let mut kept: Vec<(DMatrix<i64>, Vec<i64>)> = vec![];
                for (s, &k) in hist.iter().enumerate() {
                    w.ops(1);
                    if k < idx.len() {
                        let (i, j) = idx[k];
                        let x = 100 + s as i64;
                        let res = lib(|| *at_mut(&mut m, [i, j]) = x);
                        let inside = i < r && j < q;
                        ensure!(res.is_ok() == inside, "write to ({i},{j}) of {r}x{q}: {res:?}");
                        if inside {
                            model[i * q + j] = x;
                        }
                    } else if k == idx.len() {
                        kept.push((m.clone(), model.clone()));
                    } else {
                        let t = m.t().t().eval();
                        m = t;
                    }
                    agree_m(&m, r, q, &model)?;
                    for (a, b) in &kept {
                        agree_m(a, r, q, b)?;
                    }
                }
                w.outcome(&model);
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------ D04
fn mat_ref<T: FullEl>(m: usize, k: usize, n: usize, a: impl Fn(usize, usize) -> T, b: impl Fn(usize, usize) -> T) -> Vec<T> {
    (0..m * n).map(|x| (0..k).fold(T::z(), |s, i| s.a(&a(x / n, i).m(&b(i, x % n))))).collect()
}
fn product_case<T: FullEl>(w: &mut Worker, m: usize, k: usize, n: usize, fa: &dyn Fn(usize, usize) -> T, fb: &dyn Fn(usize, usize) -> T) -> Res {
    let a = dm(m, k, fa);
    let b = dm(k, n, fb);
    let want = mat_ref(m, k, n, fa, fb);
    let p = &a * &b;
    ensure!(p.num_rows() == m && p.num_cols() == n, "product expression is {}x{}", p.num_rows(), p.num_cols());
    for r in 0..m {
        for c in 0..n {
            let e = p.entry(r, c);
            ensure!(e == want[r * n + c], "entry ({r},{c}) of the product is {e:?}, expected {:?}", want[r * n + c]);
        }
    }
    w.ops(2);
    is_m(&p.eval(), m, n, &want, "evaluated product")?;
    is_m(&(&a * &b).wrap().eval(), m, n, &want, "evaluated wrapped product")?;
    is_m(&a, m, k, &(0..m * k).map(|x| fa(x / k, x % k)).collect::<Vec<_>>(), "left operand")?;
    is_m(&b, k, n, &(0..k * n).map(|x| fb(x / n, x % n)).collect::<Vec<_>>(), "right operand")
}
fn inner_case<T: FullEl>(w: &mut Worker, n: usize, fa: &dyn Fn(usize) -> T, fb: &dyn Fn(usize) -> T) -> Res {
    let (a, b) = (dv(n, fa), dv(n, fb));
    let want = (0..n).fold(T::z(), |s, i| s.a(&fa(i).cj().m(&fb(i))));
    w.ops(2);
    let x = &a * &b;
    ensure!(x == want, "&a * &b = {x:?}, expected {want:?}");
    is_v(&a, &(0..n).map(fa).collect::<Vec<_>>(), "left operand")?;
    is_v(&b, &(0..n).map(fb).collect::<Vec<_>>(), "right operand")?;
    let x = a * b;
    ensure!(x == want, "a * b = {x:?}, expected {want:?}");
    Ok(())
}
fn exh_prod<T: Fin>(w: &mut Worker, m: usize, k: usize, n: usize, part: usize, parts: usize) {
    let len = m * k + k * n;
    let total = T::N.pow(len as u32);
    let mut i = part;
    while i < total {
        let d = digits(i, T::N, len);
        w.distinct(1);
        w.case(|| format!("{m}x{k} * {k}x{n}, element codes {d:?}"), |w| product_case::<T>(w, m, k, n, &|r, c| T::nth(d[r * k + c]), &|r, c| T::nth(d[m * k + r * n + c])));
        i += parts;
    }
}
fn exh_inner<T: Fin>(w: &mut Worker, n: usize, part: usize, parts: usize) {
    let total = T::N.pow(2 * n as u32);
    let mut i = part;
    while i < total {
        let d = digits(i, T::N, 2 * n);
        w.distinct(1);
        w.case(|| format!("length {n}, element codes {d:?}"), |w| inner_case::<T>(w, n, &|k| T::nth(d[k]), &|k| T::nth(d[n + k])));
        i += parts;
    }
}
const SPECIAL: [f64; 7] = [0.0, 1.0, -1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
fn same_f(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn d04(c: &mut Check) {
    let mx = c.by(3usize, 5, 7);
    let dims: Vec<(usize, usize, usize)> = (0..=mx).flat_map(|m| (0..=mx).flat_map(move |k| (0..=mx).map(move |n| (m, k, n)))).filter(|&(m, k, n)| k > 0 || m * n == 0).collect();
    c.suite("product-free", &format!("all shapes m, k, n <= {mx} (except empty sums, see suite inner0) over the free non-commutative algebra"), dims.len(), |w, p| {
        let (m, k, n) = dims[p];
        w.distinct(1);
        w.case(|| format!("{m}x{k} * {k}x{n}"), |w| product_case(w, m, k, n, &|r, c| Free::gen((r * 100 + c) as u32), &|r, c| Free::gen((10000 + r * 100 + c) as u32)));
    });
    let gx = c.by(8usize, 11, 18);
    let gd: Vec<(usize, usize, usize)> = (1..=gx).flat_map(|m| (1..=gx).flat_map(move |k| (1..=gx).map(move |n| (m, k, n)))).chain([(1, 100, 1), (2, 65, 3), (33, 2, 33), (1, 1, 100), (100, 1, 1), (17, 16, 15)]).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096].into_iter().flat_map(|k| [(1, k, 1), (2, k, 2), (k.min(300), 2, 3), (3, 1, k.min(300))])).chain([(32, 32, 32), (33, 33, 33), (64, 64, 64), (65, 64, 63), (16, 128, 16), (40, 41, 39), (48, 50, 49), (100, 100, 100), (128, 127, 129), (200, 50, 3), (257, 16, 257), (300, 3, 300), (2, 600, 40), (1000, 2, 30)]).collect();
    c.suite("product-generic", &format!("all shapes m, k, n in 1..={gx} and {} large ones (inner and outer dimensions around powers of two up to 4096) at a generic point of 2x2 matrices over Z/2^64", gd.len() - gx * gx * gx), gd.len(), |w, p| {
        let (m, k, n) = gd[p];
        w.distinct(1);
        w.case(|| format!("{m}x{k} * {k}x{n}"), |w| product_case(w, m, k, n, &|r, c| gpt((r * 1000 + c) as u64), &|r, c| gpt((1_000_000 + r * 1000 + c) as u64)));
    });
    let sd: Vec<(usize, usize, usize)> = [(2, 2, 2), (3, 3, 3), (4, 4, 4), (1, 8, 1), (3, 8, 2), (5, 5, 5), (8, 8, 8), (2, 17, 3), (4, 16, 4), (9, 9, 9), (16, 16, 16), (3, 33, 1), (17, 17, 17), (1, 64, 2), (32, 32, 32), (33, 16, 5), (2, 129, 1), (33, 33, 33)].into_iter().take(c.by(8, 14, 18)).collect();
    c.suite("product-structured", &format!("shapes {sd:?}: all pairs of {MPATTERNS} patterns of values (zeros, ones, identity, diagonal, triangular, symmetric, sparse, rank one, products vanishing, ...)"), sd.len() * MPATTERNS, |w, p| {
        let ((m, k, n), ka) = (sd[p / MPATTERNS], p % MPATTERNS);
        let a = mpattern(ka, m, k, 0);
        for kb in 0..MPATTERNS {
            let b = mpattern(kb, k, n, 1 << 20);
            w.distinct(1);
            w.case(|| format!("{m}x{k} pattern {ka} * {k}x{n} pattern {kb}"), |w| product_case(w, m, k, n, &|r, c| a[r * k + c].clone(), &|r, c| b[r * n + c].clone()));
        }
    });
    let sl: Vec<usize> = c.by(vec![1, 2, 3, 4, 7, 8, 9, 16, 17], (1..=36).chain([63, 64, 65, 128, 129, 256, 257]).collect(), (1..=70).chain([96, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]).collect());
    c.suite("inner-structured", &format!("{} lengths up to {}: inner products of all pairs of {PATTERNS} patterns of values, and of a vector with itself", sl.len(), sl.last().unwrap()), sl.len(), |w, p| {
        let n = sl[p];
        for ka in 0..PATTERNS {
            let a = pattern(ka, n, 0);
            for kb in 0..=PATTERNS {
                let b = if kb == PATTERNS { a.clone() } else { pattern(kb, n, 5000) };
                w.distinct(1);
                w.case(|| format!("length {n} pattern {ka}, pattern {kb}"), |w| inner_case(w, n, &|i| a[i].clone(), &|i| b[i].clone()));
            }
            w.case(|| format!("length {n} pattern {ka}, one object"), |w| {
                w.ops(1);
                let v = dv(n, |i| a[i].clone());
                let want = (0..n).fold(G::z(), |s, i| s.a(&a[i].cj().m(&a[i])));
                let x = &v * &v;
                ensure!(x == want, "&v * &v = {x:?}, expected {want:?}");
                Ok(())
            });
        }
    });
    let tx = c.by(4usize, 9, 17);
    c.suite("product-of-another-type", &format!("all shapes m, k, n in 1..={tx} over an element type whose products have another type and whose sums record all products (in any order)"), tx * tx, |w, p| {
        use mc::mixed::{Prods, A};
        let (m, k) = (p / tx + 1, p % tx + 1);
        for n in 1..=tx {
            w.distinct(1);
            w.case(|| format!("{m}x{k} * {k}x{n}"), |w| {
                w.ops(2);
                let (fa, fb) = (|i: usize, j: usize| A((i * 100 + j) as u32), |i: usize, j: usize| A((10_000 + i * 100 + j) as u32));
                let (a, b) = (dm(m, k, fa), dm(k, n, fb));
                let sorted = |x: &Prods| { let mut v = x.0.clone(); v.sort(); v };
                let p = &a * &b;
                ensure!(p.num_rows() == m && p.num_cols() == n, "product expression is {}x{}", p.num_rows(), p.num_cols());
                let want = |r: usize, c: usize| (0..k).map(|i| (fa(r, i).0, fb(i, c).0)).collect::<Vec<_>>();
                for r in 0..m {
                    for c in 0..n {
                        let e = p.entry(r, c);
                        ensure!(sorted(&e) == want(r, c), "entry ({r},{c}) is the sum of {e:?}");
                    }
                }
                let d = p.eval();
                ensure!(d.num_rows() == m && d.num_cols() == n, "product is {}x{}", d.num_rows(), d.num_cols());
                for r in 0..m {
                    for c in 0..n {
                        ensure!(sorted(at(&d, [r, c])) == want(r, c), "evaluated entry ({r},{c}) is the sum of {:?}", at(&d, [r, c]));
                    }
                }
                Ok(())
            });
        }
    });
    c.suite("product-square-same", "A * A with both operands the same object, n <= 7, over the free algebra", 8, |w, n| {
        w.distinct(1);
        w.case(|| format!("A * A, {n}x{n}"), |w| {
            let f = |r: usize, c: usize| Free::gen((r * 100 + c) as u32);
            let a = dm(n, n, f);
            w.ops(1);
            is_m(&(&a * &a).eval(), n, n, &mat_ref(n, n, n, f, f), "A * A")
        });
    });
    let t = c.by(false, true, true);
    c.suite("product-exhaustive-z3", "all values over Z/3 of 1x1..2x2 by 2x2, 1x3 * 3x1, 1x2 * 2x2", 64, move |w, p| {
        for (m, k, n) in [(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 3, 1), (2, 2, 1), (1, 2, 2), (2, 2, 2), (1, 4, 1)] {
            exh_prod::<Zn<3>>(w, m, k, n, p, 64);
        }
        if t {
            for (m, k, n) in [(2, 2, 3), (3, 2, 2), (1, 5, 1), (1, 3, 3)] {
                exh_prod::<Zn<3>>(w, m, k, n, p, 64);
            }
        }
    });
    c.suite("product-exhaustive-z2", "all values over Z/2 of 2x3 * 3x2, 3x2 * 2x3, 3x1 * 1x3, 1x5 * 5x1 (thorough: 2x3 * 3x3, 3x3 * 3x2, 2x4 * 4x2)", 64, move |w, p| {
        for (m, k, n) in [(2, 3, 2), (3, 2, 3), (3, 1, 3), (1, 5, 1)] {
            exh_prod::<Zn<2>>(w, m, k, n, p, 64);
        }
        if t {
            for (m, k, n) in [(2, 3, 3), (3, 3, 2), (2, 4, 2), (1, 8, 1)] {
                exh_prod::<Zn<2>>(w, m, k, n, p, 64);
            }
        }
    });
    c.suite("product-exhaustive-noncommutative", "all values over 2x2 matrices over Z/2 (16 elements) of 1x2 * 2x1 and 2x1 * 1x2", 64, |w, p| {
        exh_prod::<M2<Zn<2>>>(w, 1, 1, 1, p, 64);
        exh_prod::<M2<Zn<2>>>(w, 1, 2, 1, p, 64);
        exh_prod::<M2<Zn<2>>>(w, 2, 1, 2, p, 64);
    });
    c.suite("product-special-floats", "all values in {0, 1, -1, 2, inf, -inf, NaN} of 1x2 * 2x1 and 1x1 * 1x1 over f64 (sums exact, order irrelevant)", 7, |w, p| {
        for i in 0..343usize {
            let d = digits(i, 7, 3);
            let v = [SPECIAL[p], SPECIAL[d[0]], SPECIAL[d[1]], SPECIAL[d[2]]];
            w.distinct(1);
            w.case(|| format!("[[{}, {}]] * [[{}], [{}]]", v[0], v[1], v[2], v[3]), |w| {
                let (a, b) = (dm(1, 2, |_, c| v[c]), dm(2, 1, |r, _| v[2 + r]));
                let want = v[0] * v[2] + v[1] * v[3];
                w.ops(3);
                w.outcome(&want.to_bits());
                let x = (&a * &b).entry(0, 0);
                ensure!(same_f(x, want), "product entry is {x}, expected {want}");
                let (a, b) = (dv(2, |c| v[c]), dv(2, |c| v[2 + c]));
                let x = &a * &b;
                ensure!(same_f(x, want), "inner product is {x}, expected {want}");
                let x = a * b;
                ensure!(same_f(x, want), "inner product by value is {x}, expected {want}");
                Ok(())
            });
        }
    });
    c.suite("inner0", "m x 0 times 0 x n for m, n in 1..=3 over i64 and Z/3: all entries are the empty sum, zero", 9, |w, p| {
        let (m, n) = (p / 3 + 1, p % 3 + 1);
        w.distinct(1);
        w.case(|| format!("{m}x0 * 0x{n} over i64"), |w| {
            let (a, b) = (dm(m, 0, |_, _| 1i64), dm(0, n, |_, _| 1i64));
            w.ops(1);
            match lib(|| (&a * &b).eval()) {
                Ok(x) => is_m(&x, m, n, &vec![0; m * n], "product with inner dimension 0"),
                Err(e) => Err(format!("no result for inner dimension 0: {e}")),
            }
        });
    });
    let lx = c.by(8usize, 40, 100);
    c.suite("inner-free", &format!("inner products of all lengths <= {lx} over the free algebra with free conjugation"), lx + 1, |w, n| {
        w.distinct(1);
        w.case(|| format!("length {n}"), |w| inner_case(w, n, &|i| Free::gen(i as u32), &|i| Free::gen(1000 + i as u32)));
        w.case(|| format!("length {n}, same operand"), |w| {
            let a = dv(n, |i| Free::gen(i as u32));
            w.ops(1);
            let x = &a * &a;
            let want = (0..n).fold(Free::z(), |s, i| s.a(&Free::gen(i as u32).cj().m(&Free::gen(i as u32))));
            ensure!(x == want, "a * a = {x:?}, expected {want:?}");
            Ok(())
        });
    });
    let lens: Vec<usize> = (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537]).collect();
    c.suite("inner-generic", "inner products of all lengths <= 300 and around powers of two up to 65537 at a generic point of 2x2 matrices over Z/2^64", lens.len(), |w, n| {
        let n = lens[n];
        w.distinct(1);
        w.case(|| format!("length {n}"), |w| inner_case(w, n, &|i| gpt(i as u64), &|i| gpt(1000 + i as u64)));
    });
    let huge = [300_000usize, 1_000_003, (1 << 20) + 1];
    c.suite("huge", &format!("inner products of lengths {huge:?}, products 1 x n x 1 (n = 1000003) and 1001 x 2 x 999, on the usual stack of a thread (2 MB)"), huge.len() + 2, |w, i| {
        w.case(|| format!("instance {i}, small stack"), |w| {
            w.distinct(1);
            w.ops(2);
            small_stack(|| {
                if let Some(&n) = huge.get(i) {
                    let f = |k: u64| move |i: usize| gpt(k + i as u64);
                    let (a, b) = (dv(n, f(0)), dv(n, f(5_000_000)));
                    let want = (0..n).fold(G::z(), |s, i| s.a(&f(0)(i).cj().m(&f(5_000_000)(i))));
                    ensure!(&a * &b == want, "&a * &b of length {n}");
                    ensure!(a * b == want, "a * b of length {n}");
                } else {
                    let (m, k, n) = [(1usize, 1_000_003usize, 1usize), (1001, 2, 999)][i - huge.len()];
                    let f = |s: u64| move |i: usize, j: usize| gpt(s + (i * 2_000_000 + j) as u64);
                    let (a, b) = (dm(m, k, f(0)), dm(k, n, f(7)));
                    let p = (&a * &b).eval();
                    ensure!((p.num_rows(), p.num_cols()) == (m, n), "dimensions");
                    for i in 0..m {
                        for j in 0..n {
                            let want = (0..k).fold(G::z(), |s, x| s.a(&f(0)(i, x).m(&f(7)(x, j))));
                            ensure!(p[[i, j]] == want, "entry ({i}, {j})");
                        }
                    }
                }
                Ok::<(), String>(())
            })?
        });
    });
    c.suite("inner-exhaustive", "all values: length <= 2 over Z/3[i], length <= 3 over Z/2[i], length 1 over 2x2 matrices over Z/2, length <= 3 over Z/3", 64, |w, p| {
        for n in 0..=2 {
            exh_inner::<Gi<Zn<3>>>(w, n, p, 64);
        }
        for n in 0..=3 {
            exh_inner::<Gi<Zn<2>>>(w, n, p, 64);
            exh_inner::<Zn<3>>(w, n, p, 64);
        }
        exh_inner::<M2<Zn<2>>>(w, 1, p, 64);
    });
    c.suite("library-complex", "matrix and inner products over Complex<i64> with components -1..=1, length <= 2, against Gaussian integers", 81, |w, p| {
        let val = |k: usize| Complex::new((k % 3) as i64 - 1, (k / 3) as i64 - 1);
        for i in 0..81usize {
            let d = [p % 9, p / 9, i % 9, i / 9];
            w.distinct(1);
            w.case(|| format!("components {d:?}"), |w| {
                let (x, y) = (dv(2, |k| val(d[k])), dv(2, |k| val(d[2 + k])));
                let g = |z: Complex<i64>| (z.re, z.im);
                let m = |a: (i64, i64), b: (i64, i64)| (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0);
                let (v, u): (Vec<_>, Vec<_>) = ((0..2).map(|k| g(val(d[k]))).collect(), (0..2).map(|k| g(val(d[2 + k]))).collect());
                let t: Vec<(i64, i64)> = (0..2).map(|k| m((v[k].0, -v[k].1), u[k])).collect();
                let want = (t[0].0 + t[1].0, t[0].1 + t[1].1);
                w.ops(4);
                ensure!(g(&x * &y) == want, "inner product {:?}, expected {want:?}", &x * &y);
                let t: Vec<(i64, i64)> = (0..2).map(|k| m(v[k], u[k])).collect();
                let want = (t[0].0 + t[1].0, t[0].1 + t[1].1);
                let (a, b) = (dm(1, 2, |_, k| val(d[k])), dm(2, 1, |k, _| val(d[2 + k])));
                let e = (&a * &b).eval();
                ensure!(g(*at(&e, [0, 0])) == want, "product {:?}, expected {want:?}", at(&e, [0, 0]));
                let want = (0..2).fold((0, 0), |s, k| {
                    let t = m((v[k].0, -v[k].1), v[k]);
                    (s.0 + t.0, s.1 + t.1)
                });
                let (h, aa) = (a.h().eval(), a.clone());
                let e = (&aa * &h).eval();
                ensure!(g(*at(&e, [0, 0])) == want, "A * A.h() = {:?}, expected {want:?}", at(&e, [0, 0]));
                ensure!(g(x.clone() * x) == want, "x * x, expected {want:?}");
                let _ = Complex::new(1i64, 1).conj();
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------ D05

/// Closure of in-place histories over registers A, B: r x c and C: c x r.
fn closure_m<R: Fin>(w: &mut Worker, r: usize, c: usize, part: usize, parts: usize) {
    type Reg<R> = [DMatrix<R>; 3];
    let sh = [(r, c), (r, c), (c, r)];
    let n = r * c;
    let lift = |v: &Vec<R>, k: usize| dm(sh[k].0, sh[k].1, |i, j| v[i * sh[k].1 + j].clone());
    // The state space is the full set of contents: every one is reachable by element writes.
    let total = R::N.pow(3 * n as u32);
    let konst = |i: usize, j: usize| R::nth((i * 2 + j + 1) % R::N);
    type Mv<R> = (String, usize, Box<dyn Fn(&mut Reg<R>)>, Box<dyn Fn(&[Vec<R>]) -> Vec<R>>);
    let mut moves: Vec<Mv<R>> = vec![];
    fn val<R: El>(a: &[R], b: &[R], sub: bool) -> Vec<R> {
        a.iter().zip(b).map(|(x, y)| if sub { x.s(y) } else { x.a(y) }).collect()
    }
    // the transpose, of shape rr x cc
    let tr = move |v: &Vec<R>, rr: usize, cc: usize| -> Vec<R> { (0..rr * cc).map(|x| v[(x % cc) * rr + x / cc].clone()).collect() };
    macro_rules! mv {
        ($name:expr, $d:expr, |$reg:ident| $rhs:expr, |$m:ident| $mod:expr) => {{
            moves.push((format!("{} += {}", ["A", "B", "C"][$d], $name), $d, Box::new(move |regs: &mut Reg<R>| { let $reg = regs.clone(); regs[$d] += $rhs; }), Box::new(move |$m: &[Vec<R>]| val(&$m[$d], &$mod, false))));
            moves.push((format!("{} -= {}", ["A", "B", "C"][$d], $name), $d, Box::new(move |regs: &mut Reg<R>| { let $reg = regs.clone(); regs[$d] -= $rhs; }), Box::new(move |$m: &[Vec<R>]| val(&$m[$d], &$mod, true))));
        }};
    }
    // borrowed operands straight from the register file (no copy in between)
    for sub in [false, true] {
        for (d, s) in [(0usize, 1usize), (1, 0)] {
            moves.push((format!("{} {} &{}", ["A", "B"][d], if sub { "-=" } else { "+=" }, ["A", "B"][s]), d, Box::new(move |regs: &mut Reg<R>| {
                let (x, y) = regs.split_at_mut(1);
                let (t, o) = if d == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                if sub { *t -= o } else { *t += o }
            }), Box::new(move |m: &[Vec<R>]| val(&m[d], &m[s], sub))));
        }
        moves.push((format!("A {} C.t()", if sub { "-=" } else { "+=" }), 0, Box::new(move |regs: &mut Reg<R>| {
            let (x, y) = regs.split_at_mut(1);
            if sub { x[0] -= y[1].t() } else { x[0] += y[1].t() }
        }), Box::new(move |m: &[Vec<R>]| val(&m[0], &tr(&m[2], r, c), sub))));
        moves.push((format!("C {} (&A + &B).t()", if sub { "-=" } else { "+=" }), 2, Box::new(move |regs: &mut Reg<R>| {
            let (x, y) = regs.split_at_mut(2);
            if sub { y[0] -= (&x[0] + &x[1]).t() } else { y[0] += (&x[0] + &x[1]).t() }
        }), Box::new(move |m: &[Vec<R>]| val(&m[2], &tr(&val(&m[0], &m[1], false), c, r), sub))));
    }
    mv!("A (owned copy)", 0, |g| g[0].clone(), |m| m[0].clone());
    mv!("B (owned)", 0, |g| g[1].clone(), |m| m[1].clone());
    mv!("(&B - &A)", 0, |g| &g[1] - &g[0], |m| val(&m[1], &m[0], true));
    mv!("(&A + &B).map(neg)", 0, |g| (&g[0] + &g[1]).map(|x| -x), |m| val(&m[0], &m[1], false).iter().map(|x| x.n()).collect::<Vec<_>>());
    mv!("C.h()", 1, |g| g[2].h(), |m| tr(&m[2], r, c).iter().map(|x| x.cj()).collect::<Vec<_>>());
    mv!("A.mul_elemwise(&B)", 1, |g| g[0].mul_elemwise(&g[1]), |m| m[0].iter().zip(&m[1]).map(|(x, y)| x.m(y)).collect::<Vec<_>>());
    mv!("const", 0, |_g| make_matrix_expr(r, c, konst), |_m| (0..n).map(|x| konst(x / c, x % c)).collect::<Vec<R>>());
    mv!("B.t()", 2, |g| g[1].clone().wrap().t(), |m| tr(&m[1], c, r));
    mv!("C", 2, |g| &g[2], |m| m[2].clone());
    if r == c {
        mv!("&A * &B", 0, |g| &g[0] * &g[1], |m| (0..n).map(|x| (0..c).fold(R::z(), |s, k| s.a(&m[0][x / c * c + k].m(&m[1][k * c + x % c])))).collect::<Vec<R>>());
        mv!("A.t()", 0, |g| g[0].t(), |m| tr(&m[0], r, c));
    }
    for i in 0..n {
        moves.push((format!("A[{i}] = 1"), 0, Box::new(move |g: &mut Reg<R>| *at_mut(&mut g[0], [i / c, i % c]) = R::o()), Box::new(move |m: &[Vec<R>]| {
            let mut x = m[0].clone();
            x[i] = R::o();
            x
        })));
    }
    let mut s = part;
    while s < total {
        let d = digits(s, R::N, 3 * n);
        let model: Vec<Vec<R>> = (0..3).map(|k| (0..n).map(|i| R::nth(d[k * n + i])).collect()).collect();
        w.distinct(1);
        for (name, dst, f, g) in &moves {
            w.case(|| format!("{r}x{c}: A={:?} B={:?} C={:?}: {name}", model[0], model[1], model[2]), |w| {
                let mut regs: Reg<R> = [lift(&model[0], 0), lift(&model[1], 1), lift(&model[2], 2)];
                f(&mut regs);
                w.ops(1);
                let mut want = model.clone();
                want[*dst] = g(&model);
                w.outcome(&want);
                for k in 0..3 {
                    is_m(&regs[k], sh[k].0, sh[k].1, &want[k], &format!("matrix {} after {name}", ["A", "B", "C"][k]))?;
                }
                Ok(())
            });
        }
        s += parts;
    }
}
fn closure_v<R: Fin>(w: &mut Worker, n: usize, part: usize, parts: usize) {
    let total = R::N.pow(3 * n as u32);
    let mut s = part;
    while s < total {
        let d = digits(s, R::N, 3 * n);
        let m: Vec<Vec<R>> = (0..3).map(|k| (0..n).map(|i| R::nth(d[k * n + i])).collect()).collect();
        w.distinct(1);
        let v: Vec<DVector<R>> = m.iter().map(|x| dv(n, |i| x[i].clone())).collect();
        let (b, c) = (&v[1], &v[2]);
        let arr = |k: usize| &m[k][..];
        for sub in [false, true] {
            macro_rules! t { ($($name:literal, $rhs:expr, $mod:expr);* $(;)?) => { $(
                w.case(|| format!("a={:?} b={:?} c={:?}: a {} {}", m[0], m[1], m[2], if sub { "-=" } else { "+=" }, $name), |w| {
                    let mut a = v[0].clone();
                    if sub { a -= $rhs } else { a += $rhs }
                    w.ops(1);
                    let f: &dyn Fn(usize) -> R = &$mod;
                    let want: Vec<R> = (0..n).map(|i| if sub { m[0][i].s(&f(i)) } else { m[0][i].a(&f(i)) }).collect();
                    w.outcome(&want);
                    is_v(&a, &want, "target")?;
                    for k in 0..3 { is_v(&v[k], &m[k], "other vector")?; }
                    Ok(())
                });
            )* } }
            t! {
                "&b", b, |i| m[1][i].clone();
                "b", b.clone(), |i| m[1][i].clone();
                "a (copy)", v[0].clone(), |i| m[0][i].clone();
                "slice b", arr(1), |i| m[1][i].clone();
                "(&b + &c)", b + c, |i| m[1][i].a(&m[2][i]);
                "(&b - &c)", b - c, |i| m[1][i].s(&m[2][i]);
                "(&b - &a)", b - &v[0], |i| m[1][i].s(&m[0][i]);
                "b.conj()", b.conj(), |i| m[1][i].cj();
                "b.mul_elemwise(&c)", b.mul_elemwise(c), |i| m[1][i].m(&m[2][i]);
                "c.map(neg)", c.clone().wrap().map(|x| -x), |i| m[2][i].n();
                "b.diag().diag()", b.diag().diag(), |i| m[1][i].clone();
                "const", make_vector_expr(n, |i| R::nth((i + 1) % R::N)), |i| R::nth((i + 1) % R::N);
            }
        }
        s += parts;
    }
}
/// All histories of in-place operations over the free algebra (no state merging).
fn hist_v(w: &mut Worker, n: usize, depth: usize, first: usize) {
    const M: usize = 12;
    for h in 0..M.pow(depth as u32 - 1) {
        let mut hist = digits(h, M, depth - 1);
        hist.insert(0, first);
        w.distinct(1);
        w.case(|| format!("length {n}, history {hist:?}"), |w| {
            let mut model: Vec<Vec<Free>> = (0..2).map(|k| (0..n).map(|i| Free::gen((k * 100 + i) as u32)).collect()).collect();
            let mut v: Vec<DVector<Free>> = model.iter().map(|m| dv(n, |i| m[i].clone())).collect();
            for (s, &k) in hist.iter().enumerate() {
                let d = k % 2;
                let (x, y) = v.split_at_mut(1);
                let (t, o) = if d == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                let old = model.clone();
                let (td, od) = (&old[d], &old[1 - d]);
                let cp = t.clone();
                let fresh = Free::gen(1000 + s as u32);
                match k / 2 {
                    0 => { *t += o; model[d] = (0..n).map(|i| td[i].a(&od[i])).collect() }
                    1 => { *t -= o; model[d] = (0..n).map(|i| td[i].s(&od[i])).collect() }
                    2 => { *t += &cp - o; model[d] = (0..n).map(|i| td[i].a(&td[i].s(&od[i]))).collect() }
                    3 => { *t -= o.conj(); model[d] = (0..n).map(|i| td[i].s(&od[i].cj())).collect() }
                    4 => { *t += make_vector_expr(n, |i| fresh.m(&at(o, i).clone())); model[d] = (0..n).map(|i| td[i].a(&fresh.m(&od[i]))).collect() }
                    _ => {
                        if n > 0 {
                            *at_mut(t, n - 1) = fresh.clone();
                            model[d][n - 1] = fresh
                        }
                    }
                }
                w.ops(1);
                for q in 0..2 {
                    is_v(&v[q], &model[q], &format!("vector {q} after step {s}"))?;
                }
            }
            Ok(())
        });
    }
}
fn d05(c: &mut Check) {
    let t = c.by(false, true, true);
    let sh: Vec<(usize, usize)> = if c.by(false, false, true) { vec![(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)] } else if t { vec![(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (2, 3)] } else { vec![(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] };
    c.suite("matrix-closure-z2", &format!("three matrices of shapes r x c, r x c, c x r over Z/2 for {sh:?}: all contents x all in-place operations"), sh.len() * 16, |w, p| closure_m::<Zn<2>>(w, sh[p / 16].0, sh[p / 16].1, p % 16, 16));
    let s3: Vec<(usize, usize)> = if c.by(false, false, true) { vec![(1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] } else if t { vec![(1, 2), (2, 1), (1, 3), (3, 1)] } else { vec![(1, 2), (2, 1)] };
    c.suite("matrix-closure-z3", &format!("the same over Z/3 for {s3:?}"), s3.len() * 16, |w, p| closure_m::<Zn<3>>(w, s3[p / 16].0, s3[p / 16].1, p % 16, 16));
    c.suite("matrix-closure-conj", "the same over Z/2[i] for 1x1 (thorough: 1x2, 2x1)", 48, |w, p| {
        let s = [(1, 1), (1, 2), (2, 1)][p / 16];
        if p / 16 == 0 || t {
            closure_m::<Gi<Zn<2>>>(w, s.0, s.1, p % 16, 16)
        }
    });
    c.suite("vector-closure", "three vectors over Z/3 of length 1..=2 (thorough: 3), Z/2 of length 1..=4 (5), Z/2[i] of length 1 (2): all contents x all in-place operations", 32, |w, p| {
        for n in 0..=if t { 3 } else { 2 } {
            closure_v::<Zn<3>>(w, n, p, 32);
        }
        for n in 1..=if t { 5 } else { 4 } {
            closure_v::<Zn<2>>(w, n, p, 32);
        }
        for n in 1..=if t { 2 } else { 1 } {
            closure_v::<Gi<Zn<2>>>(w, n, p, 32);
        }
    });
    let depth = c.by(4usize, 4, 5);
    c.suite("vector-histories", &format!("all histories of {depth} in-place operations and writes over two vectors of length 0..=2 over the free algebra"), 36, |w, p| hist_v(w, p / 12, depth, p % 12));
    c.suite("different-entry-types", "all words of up to 4 in-place operations, each + or - of a stored, borrowed, lazy or compound operand whose entries have another type than the target: shapes 0..=3 x 0..=3, vectors of r*c entries", 16, |w, p| {
        use mc::mixed::{Acc, B};
        let (r, q) = (p / 4, p % 4);
        for n in 0..5u32 {
            for word in 0..8u32.pow(n) {
                w.case(|| format!("{r}x{q}, {n} operations, word {word:#o}"), |w| {
                    w.distinct(1);
                    w.ops(2 * n as u64);
                    let mut a = dm(r, q, |i, j| Acc((i * 10 + j) as u32, vec![]));
                    let mut v = dv(r * q, |i| Acc(i as u32, vec![]));
                    let (mut ma, mut mv) = (mvec(&a), vvec(&v));
                    for k in 0..n {
                        let d = word >> (3 * k) & 7;
                        let fb = move |i: usize, j: usize| B(1000 * (k + 1) + (10 * i + j) as u32);
                        let b = dm(r, q, fb);
                        let bt = dm(q, r, |i, j| fb(j, i));
                        let fv = move |i: usize| B(1000 * (k + 1) + i as u32);
                        let u = dv(r * q, fv);
                        let s: Vec<B> = (0..r * q).map(fv).collect();
                        match d {
                            0 => { a += &b; v += &u }
                            1 => { a += b; v += u }
                            2 => { a += make_matrix_expr(r, q, fb); v += make_vector_expr(r * q, fv) }
                            3 => { a += bt.t(); v += &s[..] }
                            4 => { a -= &b; v -= &u }
                            5 => { a -= b; v -= u }
                            6 => { a -= make_matrix_expr(r, q, fb); v -= make_vector_expr(r * q, fv) }
                            _ => { a -= bt.t().map(|x| x); v -= (&s[..]).wrap() }
                        }
                        let o = if d < 4 { '+' } else { '-' };
                        for (x, e) in ma.iter_mut().enumerate() { e.1.push((o, fb(x / q, x % q).0)) }
                        for (x, e) in mv.iter_mut().enumerate() { e.1.push((o, fv(x).0)) }
                    }
                    is_m(&a, r, q, &ma, "matrix")?;
                    is_v(&v, &mv, "vector")?;
                    Ok(())
                });
            }
        }
    });
    let st: Vec<(usize, usize)> = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (2, 5), (4, 4), (1, 8), (7, 7), (8, 8), (9, 3), (16, 16), (33, 2), (1, 64), (65, 1), (17, 31)].into_iter().take(c.by(8, 16, 16)).collect();
    c.suite("structured", &format!("shapes {st:?}: all pairs of {MPATTERNS} patterns of values: += and -= of stored, lazy, transposed and negated operands, and of expressions of the target itself"), st.len() * MPATTERNS, |w, p| {
        let ((r, q), ka) = (st[p / MPATTERNS], p % MPATTERNS);
        let a = mpattern(ka, r, q, 0);
        for kb in 0..MPATTERNS {
            let b = mpattern(kb, r, q, 1 << 20);
            w.distinct(1);
            w.case(|| format!("{r}x{q} pattern {ka}, pattern {kb}"), |w| {
                let sum: Vec<G> = a.iter().zip(&b).map(|(x, y)| x.a(y)).collect();
                let dif: Vec<G> = a.iter().zip(&b).map(|(x, y)| x.s(y)).collect();
                let (ma, mb) = (dm(r, q, |i, j| a[i * q + j].clone()), dm(r, q, |i, j| b[i * q + j].clone()));
                let bt = mb.t().eval();
                let mut m = ma.clone();
                m += &mb;
                is_m(&m, r, q, &sum, "A += &B")?;
                m -= bt.t();
                is_m(&m, r, q, &a, "A += &B; A -= B.t().t()")?;
                m -= mb.clone();
                is_m(&m, r, q, &dif, "A -= B")?;
                m += make_matrix_expr(r, q, |i, j| b[i * q + j].clone());
                is_m(&m, r, q, &a, "A -= B; A += lazy B")?;
                m += mb.wrap().map(|x| x.n());
                is_m(&m, r, q, &dif, "A += -B")?;
                m -= ma.clone();
                m += m.clone();
                is_m(&m, r, q, &b.iter().map(|x| x.a(x).n()).collect::<Vec<_>>(), "A += A for A = -B")?;
                let mut v = dv(r * q, |i| a[i].clone());
                v += &b[..];
                is_v(&v, &sum, "v += slice")?;
                let u = dv(r * q, |i| b[i].clone());
                v -= &u;
                v -= u;
                is_v(&v, &dif, "v -= u")?;
                w.ops(9);
                Ok(())
            });
        }
    });
    // large shapes: one generic point each
    let mx = c.by(8usize, 14, 24);
    let big: Vec<(usize, usize)> = (0..=mx).flat_map(|r| (0..=mx).map(move |q| (r, q))).chain([(1, 100), (100, 1), (17, 16), (33, 2), (2, 33), (16, 16), (1, 128), (1, 129), (128, 1), (31, 33), (32, 32), (33, 33), (64, 65), (128, 3), (3, 128), (256, 257), (1, 1000), (1, 1023), (1, 1024), (1, 1025), (1024, 1), (4096, 1), (1, 4097), (1, 65537), (65537, 1)]).collect();
    c.suite("large-shapes", &format!("all shapes (0..={mx})^2 and 25 large ones (up to 65537 entries) at a generic point: += and -= of stored, lazy and transposed operands; vectors of r*c entries"), big.len(), |w, p| {
        let (r, q) = big[p];
        let f = |k: u64| move |i: usize, j: usize| gpt(k * 1_000_000 + (i * 1000 + j) as u64);
        w.distinct(1);
        w.case(|| format!("{r}x{q}"), |w| {
            let mut a = dm(r, q, f(1));
            let (b, ct) = (dm(r, q, f(2)), dm(q, r, |i, j| f(3)(j, i)));
            let mut m: Vec<G> = mvec(&a);
            let (mb, mcc) = (mvec(&b), (0..r * q).map(|x| f(3)(x / q, x % q)).collect::<Vec<_>>());
            a += &b;
            for i in 0..m.len() { m[i] = m[i].a(&mb[i]) }
            is_m(&a, r, q, &m, "A += &B")?;
            a -= ct.t();
            for i in 0..m.len() { m[i] = m[i].s(&mcc[i]) }
            is_m(&a, r, q, &m, "A -= C.t()")?;
            a += &b - ct.h();
            for i in 0..m.len() { m[i] = m[i].a(&mb[i].s(&mcc[i].cj())) }
            is_m(&a, r, q, &m, "A += &B - C.h()")?;
            let n = r * q;
            let mut v = dv(n, |i| gpt(i as u64));
            let u = dv(n, |i| gpt(5000 + i as u64));
            v += &u;
            v -= u.conj();
            is_v(&v, &(0..n as u64).map(|i| gpt(i).a(&gpt(5000 + i)).s(&gpt(5000 + i).cj())).collect::<Vec<_>>(), "v += &u; v -= u.conj()")?;
            w.ops(5);
            Ok(())
        });
    });
    let huge = [(1usize, 1_000_003usize), (1_000_003, 1), (1023, 1025)];
    c.suite("huge", &format!("matrices {huge:?} and vectors with as many entries: += and -= of stored, lazy and transposed operands, on the usual stack of a thread (2 MB)"), huge.len(), |w, p| {
        let (r, q) = huge[p];
        w.case(|| format!("{r}x{q}, small stack"), |w| {
            w.distinct(1);
            w.ops(5);
            small_stack(|| {
                let f = |k: u64| move |i: usize, j: usize| gpt(k * 10_000_000 + (i * q + j) as u64);
                let mut a = dm(r, q, f(1));
                let (b, ct) = (dm(r, q, f(2)), dm(q, r, |i, j| f(3)(j, i)));
                let (m, x) = (mvec(&a), mvec(&b));
                let y = (0..r * q).map(|x| f(3)(x / q, x % q)).collect::<Vec<_>>();
                a += &b;
                a -= ct.t();
                is_m(&a, r, q, &(0..r * q).map(|i| m[i].a(&x[i]).s(&y[i])).collect::<Vec<_>>(), "A += &B; A -= C.t()")?;
                a += make_matrix_expr(r, q, f(3));
                a -= &b;
                is_m(&a, r, q, &m, "A += &B; A -= C.t(); A += C; A -= &B")?;
                let n = r * q;
                let mut v = dv(n, |i| gpt(i as u64));
                let u = dv(n, |i| gpt(5_000_000 + i as u64));
                v += &u;
                v -= u.conj();
                is_v(&v, &(0..n as u64).map(|i| gpt(i).a(&gpt(5_000_000 + i)).s(&gpt(5_000_000 + i).cj())).collect::<Vec<_>>(), "v += &u; v -= u.conj()")
            })?
        });
    });
}

fn main() {
    main_for(&[("D02", d02), ("D03", d03), ("D04", d04), ("D05", d05)])
}
