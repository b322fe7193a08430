//! M01: ownership of elements and behaviour under panics. Every operation of the library is run on elements that
//! register their creation and destruction; then once more for every single element operation, user closure call or
//! random draw it performs, with a panic injected there.
use magnesia::algebra::{Complex, Conj, MulRefs, One, Polynomial, Ring, Zero};
use magnesia::linalg::*;
use magnesia::optimize::differential_evolution;
use mc::engine::*;
use mc::ensure;
use std::cell::RefCell;
use std::ops::*;

// ---------------------------------------------------------------- elements
#[derive(Default)]
struct Book {
    live: Vec<bool>,
    n_live: usize,
    calls: usize,
    fault: usize, // panic in this call (counted from 1); 0: never
    error: Option<String>,
}
thread_local! { static BOOK: RefCell<Book> = RefCell::default() }
fn book<R>(f: impl FnOnce(&mut Book) -> R) -> R {
    BOOK.with(|b| f(&mut b.borrow_mut()))
}
/// A point where the environment may panic.
fn tick() {
    if book(|b| {
        b.calls += 1;
        b.calls == b.fault
    }) {
        panic!("element: injected");
    }
}
struct Tok {
    id: usize,
    val: i128,
}
fn tok(val: i128) -> Tok {
    let id = book(|b| {
        b.live.push(true);
        b.n_live += 1;
        b.live.len() - 1
    });
    Tok { id, val }
}
impl Tok {
    fn get(&self) -> i128 {
        book(|b| {
            if b.live.get(self.id) != Some(&true) {
                b.error = Some("an element is used after it was dropped".into())
            }
        });
        self.val
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        book(|b| match b.live.get_mut(self.id) {
            Some(l) if *l => {
                *l = false;
                b.n_live -= 1
            }
            _ => b.error = Some("an element is dropped twice".into()),
        })
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick();
        tok(self.get())
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.val)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl From<i8> for Tok {
    fn from(x: i8) -> Self {
        tick();
        tok(x as i128)
    }
}
fn div(a: i128, b: i128) -> i128 {
    a.wrapping_mul(7).wrapping_add(b.wrapping_mul(13)) // uninterpreted
}
macro_rules! bin { ($($tr:ident $f:ident $atr:ident $af:ident $op:expr;)*) => { $(
    impl $tr for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { tick(); tok($op(self.get(), o.get())) } }
    impl $tr<&Tok> for Tok { type Output = Tok; fn $f(self, o: &Tok) -> Tok { tick(); tok($op(self.get(), o.get())) } }
    impl<'a> $tr<&'a Tok> for &'a Tok { type Output = Tok; fn $f(self, o: &Tok) -> Tok { tick(); tok($op(self.get(), o.get())) } }
    impl $atr for Tok { fn $af(&mut self, o: Tok) { tick(); self.val = $op(self.get(), o.get()) } }
    impl $atr<&Tok> for Tok { fn $af(&mut self, o: &Tok) { tick(); self.val = $op(self.get(), o.get()) } }
)* } }
bin! { Add add AddAssign add_assign i128::wrapping_add; Sub sub SubAssign sub_assign i128::wrapping_sub; Mul mul MulAssign mul_assign i128::wrapping_mul; }
impl Div for Tok { type Output = Tok; fn div(self, o: Tok) -> Tok { tick(); tok(div(self.get(), o.get())) } }
impl Div<&Tok> for Tok { type Output = Tok; fn div(self, o: &Tok) -> Tok { tick(); tok(div(self.get(), o.get())) } }
impl<'b> Div<&'b Tok> for &Tok { type Output = Tok; fn div(self, o: &Tok) -> Tok { tick(); tok(div(self.get(), o.get())) } }
impl Neg for Tok { type Output = Tok; fn neg(self) -> Tok { tick(); tok(self.get().wrapping_neg()) } }
impl Conj for Tok { fn conj(self) -> Tok { tick(); tok(self.get().wrapping_neg()) } }
impl Ring for Tok {}
impl magnesia::algebra::Field for Tok {}

// ---------------------------------------------------------------- reading containers
/// The values of all elements, read through the public interface (with injection off).
trait Leaves {
    fn leaves(&self) -> Vec<i128>;
}
impl Leaves for Tok {
    fn leaves(&self) -> Vec<i128> {
        vec![self.get()]
    }
}
impl Leaves for () {
    fn leaves(&self) -> Vec<i128> {
        vec![]
    }
}
impl Leaves for bool {
    fn leaves(&self) -> Vec<i128> {
        vec![*self as i128]
    }
}
impl<A: Leaves, B: Leaves> Leaves for (A, B) {
    fn leaves(&self) -> Vec<i128> {
        [self.0.leaves(), self.1.leaves()].concat()
    }
}
impl<A: Leaves> Leaves for Vec<A> {
    fn leaves(&self) -> Vec<i128> {
        self.iter().flat_map(|x| x.leaves()).collect()
    }
}
impl<A: Leaves, const N: usize> Leaves for [A; N] {
    fn leaves(&self) -> Vec<i128> {
        self.iter().flat_map(|x| x.leaves()).collect()
    }
}
impl<A: Leaves> Leaves for Complex<A> {
    fn leaves(&self) -> Vec<i128> {
        [self.re.leaves(), self.im.leaves()].concat()
    }
}
impl<A: Leaves, const N: usize> Leaves for SVector<A, N> {
    fn leaves(&self) -> Vec<i128> {
        self.0.leaves()
    }
}
impl<A: Leaves + Ring, const M: usize, const N: usize> Leaves for SMatrix<A, M, N> {
    fn leaves(&self) -> Vec<i128> {
        (0..N).flat_map(|j| (self * &SVector::<A, N>(std::array::from_fn(|i| if i == j { A::one() } else { A::zero() }))).leaves()).collect()
    }
}
impl<A: Leaves + Clone> Leaves for DVector<A> {
    fn leaves(&self) -> Vec<i128> {
        (0..(&self).len()).flat_map(|i| self[i].leaves()).collect()
    }
}
impl<A: Leaves + Clone> Leaves for DMatrix<A> {
    fn leaves(&self) -> Vec<i128> {
        let (m, n) = ((&self).num_rows(), (&self).num_cols());
        (0..m * n).flat_map(|i| self[[i / n, i % n]].leaves()).collect()
    }
}
const DIGITS: usize = 14;
const BASE: i128 = 1 << 9;
/// Coefficients are small, so that a value at a large argument shows all of them.
impl<A: Leaves + Ring + Base> Leaves for Polynomial<A> {
    fn leaves(&self) -> Vec<i128> {
        let v = self.eval_ref(&A::base()).leaves();
        v.iter()
            .flat_map(|&x| {
                let mut x = x;
                (0..DIGITS)
                    .map(|_| {
                        let d = (x + BASE / 2).rem_euclid(BASE) - BASE / 2;
                        x = (x - d) / BASE;
                        d
                    })
                    .collect::<Vec<_>>()
            })
            .collect()
    }
}
trait Base {
    fn base() -> Self;
}
impl Base for Tok {
    fn base() -> Self {
        tok(BASE)
    }
}
impl Base for Complex<Tok> {
    fn base() -> Self {
        Complex::new(tok(BASE), tok(0))
    }
}

// ---------------------------------------------------------------- runs
fn begin(fault: usize) {
    book(|b| {
        b.calls = 0;
        b.fault = fault
    })
}
fn calls() -> usize {
    let n = book(|b| b.calls);
    begin(0);
    n
}
fn reset() {
    book(|b| *b = Book::default())
}
/// To be called when every container is gone.
fn settled(what: &str) -> Result<(), String> {
    let (n, e) = book(|b| (b.n_live, b.error.clone()));
    if let Some(e) = e {
        return Err(format!("{what}: {e}"));
    }
    ensure!(n == 0, "{what}: {n} elements are never dropped");
    Ok(())
}
fn injected(r: &Result<impl Sized, String>, k: usize) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("the panic injected into call {k} does not reach the caller")),
        Err(m) if m.contains("element: injected") => Ok(()),
        Err(m) => Err(format!("a panic injected into call {k} turned into: {m}")),
    }
}
fn mixed(what: &str, got: &[i128], old: &[i128], new: &[i128]) -> Result<(), String> {
    ensure!(got.len() == old.len() && (0..got.len()).all(|i| got[i] == old[i] || got[i] == new[i]), "{what}: the target holds {got:?}; before {old:?}, after a complete operation {new:?}");
    Ok(())
}

/// `op` takes its first operand by value (or has none) and the second by reference.
fn consume<V, R: Leaves, O: Leaves>(w: &mut Worker, desc: impl Fn() -> String, mk: impl Fn() -> (V, R), op: impl Fn(V, &R) -> O) {
    w.case(&desc, |w| {
        reset();
        let n;
        {
            let (v, r) = mk();
            let old = r.leaves();
            begin(0);
            let o = op(v, &r);
            n = calls();
            let x = o.leaves();
            ensure!(r.leaves() == old, "an operand passed by reference changed from {old:?} to {:?}", r.leaves());
            ensure!(o.leaves() == x, "reading the result twice gives different values");
        }
        settled("without a panic")?;
        for k in 1..=n {
            {
                let (v, r) = mk();
                let old = r.leaves();
                begin(k);
                let res = lib(|| op(v, &r));
                calls();
                injected(&res, k)?;
                ensure!(r.leaves() == old, "panic in call {k}: an operand passed by reference changed from {old:?} to {:?}", r.leaves());
                // the operands can still be used
                let (v2, r2) = mk();
                let (want, got) = (op(v2, &r2).leaves(), { let (v3, _r3) = mk(); op(v3, &r).leaves() });
                ensure!(got == want, "panic in call {k}: repeating the operation gives {got:?} instead of {want:?}");
            }
            settled(&format!("panic in call {k} of {n}"))?;
        }
        w.distinct(n as u64 + 1);
        w.ops(n as u64 * 3 + 1);
        w.traces(n as u64);
        w.outcome(&n);
        Ok(())
    });
}
/// `op` changes its first operand in place; it may consume a by-value operand V and read R by reference.
fn in_place<T: Leaves + Clone, V, R: Leaves>(w: &mut Worker, desc: impl Fn() -> String, mk: impl Fn() -> (T, V, R), op: impl Fn(&mut T, V, &R)) {
    w.case(&desc, |w| {
        reset();
        let (n, old, new);
        {
            let (mut t, v, r) = mk();
            old = t.leaves();
            let ro = r.leaves();
            begin(0);
            op(&mut t, v, &r);
            n = calls();
            new = t.leaves();
            ensure!(r.leaves() == ro, "an operand passed by reference changed from {ro:?} to {:?}", r.leaves());
        }
        settled("without a panic")?;
        let mut runs = 0u64;
        for k in 1..=n {
            {
                let (mut t, v, r) = mk();
                let ro = r.leaves();
                begin(k);
                let res = lib(|| op(&mut t, v, &r));
                calls();
                injected(&res, k)?;
                mixed(&format!("panic in call {k}"), &t.leaves(), &old, &new)?;
                ensure!(r.leaves() == ro, "panic in call {k}: an operand passed by reference changed from {ro:?} to {:?}", r.leaves());
                // a second attempt, complete or with one more panic
                let o1 = t.leaves();
                let mut c = t.clone();
                let v = mk().1;
                begin(0);
                op(&mut c, v, &r);
                let n1 = calls();
                let new1 = c.leaves();
                drop(c);
                for k2 in 1..=n1 {
                    if w.tier == Tier::Quick && n > 14 && k2 % 7 != k % 7 && k2 != n1 {
                        continue;
                    }
                    runs += 1;
                    let mut c = t.clone();
                    let v = mk().1;
                    begin(k2);
                    let res = lib(|| op(&mut c, v, &r));
                    calls();
                    injected(&res, k2)?;
                    mixed(&format!("panic in call {k}, repeated with a panic in call {k2}"), &c.leaves(), &o1, &new1)?;
                    ensure!(r.leaves() == ro, "a second panic, in call {k2}, changes an operand passed by reference");
                }
            }
            settled(&format!("panic in call {k} of {n}"))?;
        }
        w.distinct(n as u64 + 1 + runs);
        w.ops(n as u64 * 2 + 1 + runs);
        w.traces(n as u64 + runs);
        w.outcome(&n);
        Ok(())
    });
}

// ---------------------------------------------------------------- values
fn vals(n: usize, s: i128) -> Vec<Tok> {
    (0..n as i128).map(|i| tok((i * 3 + s) % 7 - 3 + (((i * 3 + s) % 7 >= 3) as i128))).collect()
}
fn poly(n: usize, s: i128) -> Polynomial<Tok> {
    Polynomial::from_coefficients(vals(n, s))
}
fn roomy(n: usize, s: i128, spare: usize) -> Polynomial<Tok> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend(vals(n, s));
    Polynomial::from_coefficients(v)
}
fn cx(s: i128) -> Complex<Tok> {
    Complex::new(tok(s), tok(s + 2))
}
fn cpoly(n: usize, s: i128) -> Polynomial<Complex<Tok>> {
    Polynomial::from_coefficients((0..n).map(|i| cx(s + i as i128)).collect())
}
fn sv<const N: usize>(s: i128) -> SVector<Tok, N> {
    SVector(std::array::from_fn(|i| tok(s + 2 * i as i128)))
}
fn sm<const M: usize, const N: usize>(s: i128) -> SMatrix<Tok, M, N> {
    SMatrix::from(std::array::from_fn(|r| std::array::from_fn(|c| tok(s + (3 * r + 5 * c) as i128))))
}
fn csm(s: i128) -> SMatrix<Complex<Tok>, 2, 2> {
    SMatrix::from(std::array::from_fn(|r| std::array::from_fn(|c| cx(s + (2 * r + c) as i128))))
}
fn dv(n: usize, s: i128) -> DVector<Tok> {
    make_vector_expr(n, move |i| tok(s + 2 * i as i128)).eval()
}
fn dm(m: usize, n: usize, s: i128) -> DMatrix<Tok> {
    make_matrix_expr(m, n, move |r, c| tok(s + (3 * r + 5 * c) as i128)).eval()
}

macro_rules! ring_ops { ($w:expr, $name:expr, $a:expr, $b:expr) => {{
    let (w, name): (&mut Worker, String) = ($w, $name);
    let (a, b) = (|| $a, || $b);
    let d = |s: &'static str| { let name = name.clone(); move || format!("{s} of {name}") };
    in_place(w, d("a += &b"), || (a(), (), b()), |t, _, r| *t += r);
    in_place(w, d("a -= &b"), || (a(), (), b()), |t, _, r| *t -= r);
    consume(w, d("&a * &b"), || ((), (a(), b())), |_, r| r.0.mul_refs(&r.1));
    consume(w, d("&a * &a"), || ((), a()), |_, r| r.mul_refs(r));
    consume(w, d("-a"), || (a(), ()), |v, _| -v);
    consume(w, d("a.clone()"), || ((), a()), |_, r| r.clone());
    consume(w, d("a == b"), || ((), (a(), b())), |_, r| r.0 == r.1);
    consume(w, d("a == a"), || ((), (a(), a())), |_, r| r.0 == r.1);
    consume(w, d("dropping a"), || (a(), ()), |v, _| drop(v));
    in_place(w, d("a = one"), || (a(), (), ()), |t, _, _| *t = One::one());
    in_place(w, d("a = zero"), || (a(), (), ()), |t, _, _| *t = Zero::zero());
}} }
macro_rules! value_ops { ($w:expr, $name:expr, $a:expr, $b:expr) => {{
    let (w, name): (&mut Worker, String) = ($w, $name);
    let (a, b) = (|| $a, || $b);
    let d = |s: &'static str| { let name = name.clone(); move || format!("{s} of {name}") };
    consume(w, d("a + b"), || ((a(), b()), ()), |v, _| v.0 + v.1);
    consume(w, d("a - b"), || ((a(), b()), ()), |v, _| v.0 - v.1);
    consume(w, d("a * b"), || ((a(), b()), ()), |v, _| v.0 * v.1);
    in_place(w, d("a += b"), || (a(), b(), ()), |t, v, _| *t += v);
    in_place(w, d("a -= b"), || (a(), b(), ()), |t, v, _| *t -= v);
    in_place(w, d("a *= b"), || (a(), b(), ()), |t, v, _| *t *= v);
}} }

fn polys(w: &mut Worker, p: usize, q: usize) {
    let name = || format!("polynomials of {p} and {q} coefficients");
    ring_ops!(w, name(), poly(p, 1), poly(q, 2));
    value_ops!(w, name(), poly(p, 1), poly(q, 2));
    if p <= 3 && q <= 3 {
        for (a, b) in [(0, 20), (20, 0), (3, 3)] {
            let name = || format!("polynomials of {p} and {q} coefficients with room for {a} and {b} more");
            ring_ops!(w, name(), roomy(p, 1, a), roomy(q, 2, b));
            value_ops!(w, name(), roomy(p, 1, a), roomy(q, 2, b));
        }
    }
    consume(w, || format!("eval_ref, {p} coefficients"), || ((), (poly(p, 1), tok(3))), |_, r| r.0.eval_ref(&r.1));
    consume(w, || format!("eval, {p} coefficients"), || (tok(3), poly(p, 1)), |v, r| r.eval(v));
    consume(w, || format!("from_coefficients, {p} coefficients"), || (vals(p, 1), ()), |v, _| Polynomial::from_coefficients(v));
    ring_ops!(w, format!("complex polynomials of {p} and {q} coefficients"), cpoly(p, 1), cpoly(q, -2));
}
fn statics<const N: usize>(w: &mut Worker) {
    let name = || format!("vectors of length {N}");
    let d = |s: &'static str| move || format!("{s} of vectors of length {N}");
    consume(w, d("v + w"), || ((sv::<N>(1), sv::<N>(2)), ()), |v, _| v.0 + v.1);
    consume(w, d("v + &w"), || (sv::<N>(1), sv::<N>(2)), |v, r| v + r);
    consume(w, d("v - w"), || ((sv::<N>(1), sv::<N>(2)), ()), |v, _| v.0 - v.1);
    consume(w, d("v - &w"), || (sv::<N>(1), sv::<N>(2)), |v, r| v - r);
    consume(w, d("v * w"), || ((sv::<N>(1), sv::<N>(2)), ()), |v, _| -> Tok { v.0 * v.1 });
    consume(w, d("v * &w"), || (sv::<N>(1), sv::<N>(2)), |v, r| -> Tok { v * r });
    consume(w, d("v * s"), || ((sv::<N>(1), tok(5)), ()), |v, _| -> SVector<Tok, N> { v.0 * v.1 });
    consume(w, d("v * &s"), || (sv::<N>(1), tok(5)), |v, r| -> SVector<Tok, N> { v * r });
    consume(w, d("v == w"), || ((), (sv::<N>(1), sv::<N>(1))), |_, r| r.0 == r.1);
    consume(w, d("v.clone()"), || ((), sv::<N>(1)), |_, r| r.clone());
    consume(w, d("zero"), || ((), ()), |_, _| <SVector<Tok, N>>::zero());
    consume(w, d("from"), || (sv::<N>(1).0, ()), |v, _| SVector::from(v));
    in_place(w, d("v += w"), || (sv::<N>(1), sv::<N>(2), ()), |t, v, _| *t += v);
    in_place(w, d("v += &w"), || (sv::<N>(1), (), sv::<N>(2)), |t, _, r| *t += r);
    in_place(w, d("v -= w"), || (sv::<N>(1), sv::<N>(2), ()), |t, v, _| *t -= v);
    in_place(w, d("v -= &w"), || (sv::<N>(1), (), sv::<N>(2)), |t, _, r| *t -= r);
    in_place(w, d("v *= s"), || (sv::<N>(1), tok(5), ()), |t, v, _| *t *= v);
    in_place(w, d("v *= &s"), || (sv::<N>(1), (), tok(5)), |t, _, r| *t *= r);
    for k in 0..=N {
        consume(w, || format!("the first {k} items of the iterator over a vector of length {N}"), || (sv::<N>(1), ()), move |v, _| v.into_iter().take(k).collect::<Vec<Tok>>());
        consume(w, || format!("the last {k} items of the iterator over a vector of length {N}, which is kept"), || (sv::<N>(1), ()), move |v, _| {
            let mut it = v.into_iter();
            let got: Vec<Tok> = it.by_ref().rev().take(k).collect();
            tick();
            (got, it.collect::<Vec<Tok>>())
        });
        in_place(w, || format!("writing {k} items through the mutable iterator over a vector of length {N}"), || (sv::<N>(1), (), ()), move |t, _, _| {
            for x in t.into_iter().take(k) {
                let y = x.mul_refs(x);
                *x = y;
            }
        });
        if k < N {
            in_place(w, || format!("writing entry {k} of a vector of length {N}"), || (sv::<N>(1), tok(99), ()), move |t, v, _| {
                tick();
                t[k] = v
            });
        }
    }
    let square = || format!("{N}x{N} matrices");
    ring_ops!(w, square(), sm::<N, N>(1), sm::<N, N>(2));
    value_ops!(w, square(), sm::<N, N>(1), sm::<N, N>(2));
    in_place(w, || format!("a *= &b of {N}x{N} matrices"), || (sm::<N, N>(1), (), sm::<N, N>(2)), |t, _, r| *t *= r);
    consume(w, || format!("conj of a {N}x{N} matrix"), || (sm::<N, N>(1), ()), |v, _| v.conj());
    consume(w, || format!("A * v, {N}x{N} matrix"), || ((), (sm::<N, N>(1), sv::<N>(2))), |_, r| &r.0 * &r.1);
    let _ = name;
}
fn rect<const M: usize, const N: usize>(w: &mut Worker) {
    let d = |s: &'static str| move || format!("{s} of {M}x{N} matrices");
    consume(w, d("a + b"), || ((sm::<M, N>(1), sm::<M, N>(2)), ()), |v, _| v.0 + v.1);
    consume(w, d("a + &b"), || (sm::<M, N>(1), sm::<M, N>(2)), |v, r| v + r);
    consume(w, d("a - &b"), || (sm::<M, N>(1), sm::<M, N>(2)), |v, r| v - r);
    consume(w, d("-a"), || (sm::<M, N>(1), ()), |v, _| -v);
    consume(w, d("conj"), || (sm::<M, N>(1), ()), |v, _| v.conj());
    consume(w, d("zero"), || ((), ()), |_, _| <SMatrix<Tok, M, N>>::zero());
    consume(w, d("one"), || ((), ()), |_, _| <SMatrix<Tok, M, N>>::one());
    consume(w, d("a * b"), || ((sm::<M, N>(1), sm::<N, M>(2)), ()), |v, _| v.0 * v.1);
    consume(w, d("&a * &b"), || ((), (sm::<M, N>(1), sm::<N, M>(2))), |_, r| &r.0 * &r.1);
    consume(w, d("&a * &v"), || ((), (sm::<M, N>(1), sv::<N>(2))), |_, r| &r.0 * &r.1);
    in_place(w, d("a += &b"), || (sm::<M, N>(1), (), sm::<M, N>(2)), |t, _, r| *t += r);
    in_place(w, d("a -= b"), || (sm::<M, N>(1), sm::<M, N>(2), ()), |t, v, _| *t -= v);
    in_place(w, d("a *= b"), || (sm::<M, N>(1), sm::<N, N>(2), ()), |t, v, _| *t *= v);
    in_place(w, d("a *= &b"), || (sm::<M, N>(1), (), sm::<N, N>(2)), |t, _, r| *t *= r);
    consume(w, d("evaluated arrays"), || ([(); M].map(|_| [(); N].map(|_| tok(3))), ()), |v, _| v.eval());
    consume(w, d("transposed arrays"), || ([(); M].map(|_| [(); N].map(|_| tok(3))), ()), |v, _| v.wrap().t().eval());
}
fn complexes(w: &mut Worker) {
    ring_ops!(w, "complex numbers".to_string(), cx(1), cx(4));
    value_ops!(w, "complex numbers".to_string(), cx(1), cx(4));
    ring_ops!(w, "matrices of complex numbers".to_string(), csm(1), csm(4));
    value_ops!(w, "matrices of complex numbers".to_string(), csm(1), csm(4));
    ring_ops!(w, "complex matrices".to_string(), Complex::new(sm::<2, 2>(1), sm::<2, 2>(2)), Complex::new(sm::<2, 2>(3), sm::<2, 2>(5)));
    value_ops!(w, "complex matrices".to_string(), Complex::new(sm::<2, 2>(1), sm::<2, 2>(2)), Complex::new(sm::<2, 2>(3), sm::<2, 2>(5)));
    ring_ops!(w, "complex complex numbers".to_string(), Complex::new(cx(1), cx(2)), Complex::new(cx(3), cx(5)));
    ring_ops!(w, "complex polynomials".to_string(), Complex::new(poly(2, 1), poly(1, 2)), Complex::new(poly(3, 3), poly(0, 4)));
    value_ops!(w, "complex polynomials".to_string(), Complex::new(poly(2, 1), poly(1, 2)), Complex::new(poly(3, 3), poly(0, 4)));
    let pm = |s: i128| SMatrix::<Polynomial<Tok>, 2, 2>::from([[poly(1, s), poly(2, s + 1)], [poly(0, s), poly(2, s + 3)]]);
    ring_ops!(w, "matrices of polynomials".to_string(), pm(1), pm(4));
    consume(w, || "conj".into(), || (cx(1), ()), |v, _| v.conj());
    consume(w, || "sqr_norm".into(), || ((), cx(1)), |_, r| r.sqr_norm());
    consume(w, || "z * s".into(), || ((cx(1), tok(5)), ()), |v, _| -> Complex<Tok> { v.0 * v.1 });
    consume(w, || "z / s".into(), || ((cx(1), tok(5)), ()), |v, _| -> Complex<Tok> { v.0 / v.1 });
    consume(w, || "z / &s".into(), || (cx(1), tok(5)), |v, r| -> Complex<Tok> { v / r });
    consume(w, || "&z / &s".into(), || ((), (cx(1), tok(5))), |_, r| -> Complex<Tok> { &r.0 / &r.1 });
    consume(w, || "&z / &w".into(), || ((), (cx(1), cx(5))), |_, r| -> Complex<Tok> { &r.0 / &r.1 });
    consume(w, || "z / w".into(), || ((cx(1), cx(5)), ()), |v, _| -> Complex<Tok> { v.0 / v.1 });
}
fn sqr(x: Tok) -> Tok {
    tick();
    tok(x.get().wrapping_mul(x.get()))
}
fn vectors(w: &mut Worker, n: usize) {
    let d = |s: &'static str| move || format!("{s} of vectors of length {n}");
    let two = move || ((), (dv(n, 1), dv(n, 2)));
    consume(w, d("&v + &w"), two, |_, r| (&r.0 + &r.1).eval());
    consume(w, d("&v - &w"), two, |_, r| (&r.0 - &r.1).eval());
    consume(w, d("mul_elemwise"), two, |_, r| r.0.mul_elemwise(&r.1).eval());
    consume(w, d("div_elemwise"), two, |_, r| r.0.div_elemwise(&r.1).eval());
    consume(w, d("conj"), two, |_, r| r.0.conj().eval());
    consume(w, d("diag"), two, |_, r| r.0.diag().eval());
    consume(w, d("map"), two, |_, r| (&r.0).wrap().map(sqr).eval());
    consume(w, d("zip"), two, |_, r| (&r.0).wrap().zip(&r.1).map(|(x, y)| sqr(x) - y).eval());
    consume(w, d("a nested expression"), two, |_, r| ((&r.0 + &r.1) - r.0.mul_elemwise(&r.1)).map(sqr).conj().eval());
    consume(w, d("inner product"), || ((dv(n, 1), dv(n, 2)), ()), |v, _| v.0 * v.1);
    consume(w, d("inner product by reference"), two, |_, r| &r.0 * &r.1);
    consume(w, d("eval of an owned vector"), || (dv(n, 1), ()), |v, _| v.eval());
    consume(w, d("eval of a borrowed vector"), two, |_, r| (&r.0).eval());
    consume(w, d("eval of a slice"), || ((), vals(n, 1)), |_, r| r[..].eval());
    consume(w, d("sum with an owned vector"), || (dv(n, 1), dv(n, 2)), |v, r| (r + v).eval());
    consume(w, d("an expression that is dropped"), || (dv(n, 1), dv(n, 2)), |v, r| drop((r + v).map(sqr)));
    consume(w, d("an expression read at its last entry"), || (dv(n + 1, 1), dv(n + 1, 2)), |v, r| (r + v).map(sqr).entry(n));
    consume(w, d("constants"), || (tok(3), ()), |v, _| (DVector::same(n, v).eval(), (DVector::<Tok>::ones(n).eval(), DVector::<Tok>::zeros(n).eval())));
    consume(w, d("a function"), || ((), ()), |_, _| make_vector_expr(n, |i| { tick(); tok(i as i128) }).eval());
    consume(w, d("clone"), two, |_, r| r.0.clone());
    consume(w, d("equality"), || ((), (dv(n, 1), dv(n, 1))), |_, r| r.0 == r.1);
    in_place(w, d("v += &w"), || (dv(n, 1), (), dv(n, 2)), |t, _, r| *t += r);
    in_place(w, d("v -= &w"), || (dv(n, 1), (), dv(n, 2)), |t, _, r| *t -= r);
    in_place(w, d("v += w"), || (dv(n, 1), dv(n, 2), ()), |t, v, _| *t += v);
    in_place(w, d("v -= w"), || (dv(n, 1), dv(n, 2), ()), |t, v, _| *t -= v);
    in_place(w, d("v += an expression"), || (dv(n, 1), (), dv(n, 2)), |t, _, r| *t += (r + r).map(sqr));
    in_place(w, d("v -= an expression"), || (dv(n, 1), (), dv(n, 2)), |t, _, r| *t -= r.wrap().zip(r).map(|(x, y)| x * y));
    for i in 0..n {
        in_place(w, || format!("writing entry {i} of a vector of length {n}"), || (dv(n, 1), tok(99), ()), |t, v, _| {
            tick();
            t[i] = v
        });
    }
}
fn matrices(w: &mut Worker, m: usize, n: usize) {
    let d = |s: &'static str| move || format!("{s} of {m}x{n} matrices");
    let two = move || ((), (dm(m, n, 1), dm(m, n, 2)));
    consume(w, d("&a + &b"), two, |_, r| (&r.0 + &r.1).eval());
    consume(w, d("&a - &b"), two, |_, r| (&r.0 - &r.1).eval());
    consume(w, d("mul_elemwise"), two, |_, r| r.0.mul_elemwise(&r.1).eval());
    consume(w, d("div_elemwise"), two, |_, r| r.0.div_elemwise(&r.1).eval());
    consume(w, d("t"), two, |_, r| r.0.t().eval());
    consume(w, d("h"), two, |_, r| r.0.h().eval());
    consume(w, d("diag"), two, |_, r| r.0.diag().eval());
    consume(w, d("map"), two, |_, r| (&r.0).wrap().map(sqr).eval());
    consume(w, d("zip"), two, |_, r| (&r.0).wrap().zip(&r.1).map(|(x, y)| sqr(x) - y).eval());
    consume(w, d("a nested expression"), two, |_, r| ((&r.0 + &r.1) - r.0.mul_elemwise(&r.1)).map(sqr).h().eval());
    if n > 0 {
        consume(w, d("a * b^T"), || ((), (dm(m, n, 1), dm(n, m, 2))), |_, r| (&r.0 * &r.1).eval());
    }
    consume(w, d("eval of an owned matrix"), || (dm(m, n, 1), ()), |v, _| v.eval());
    consume(w, d("eval of a borrowed matrix"), two, |_, r| (&r.0).eval());
    consume(w, d("sum with an owned matrix"), || (dm(m, n, 1), dm(m, n, 2)), |v, r| (r + v).eval());
    consume(w, d("an expression that is dropped"), || (dm(m, n, 1), dm(m, n, 2)), |v, r| drop((r + v).map(sqr).t()));
    consume(w, d("constants"), || (tok(3), ()), |v, _| (DMatrix::same(m, n, v).eval(), (DMatrix::<Tok>::ones(m, n).eval(), (DMatrix::<Tok>::zeros(m, n).eval(), DMatrix::<Tok>::eye(n).eval()))));
    consume(w, d("a function"), || ((), ()), |_, _| make_matrix_expr(m, n, |r, c| { tick(); tok((r + c) as i128) }).eval());
    consume(w, d("clone"), two, |_, r| r.0.clone());
    consume(w, d("equality"), || ((), (dm(m, n, 1), dm(m, n, 1))), |_, r| r.0 == r.1);
    in_place(w, d("a += &b"), || (dm(m, n, 1), (), dm(m, n, 2)), |t, _, r| *t += r);
    in_place(w, d("a -= &b"), || (dm(m, n, 1), (), dm(m, n, 2)), |t, _, r| *t -= r);
    in_place(w, d("a += b"), || (dm(m, n, 1), dm(m, n, 2), ()), |t, v, _| *t += v);
    in_place(w, d("a -= b"), || (dm(m, n, 1), dm(m, n, 2), ()), |t, v, _| *t -= v);
    in_place(w, d("a += an expression"), || (dm(m, n, 1), (), dm(n, m, 2)), |t, _, r| *t += r.h().map(sqr));
    in_place(w, d("a -= an expression"), || (dm(m, n, 1), (), dm(n, m, 2)), |t, _, r| *t -= r.t().map(sqr));
    if m > 0 && n > 0 {
        in_place(w, d("a -= a product"), || (dm(m, n, 1), (), (dm(m, 2, 2), dm(2, n, 3))), |t, _, r| *t -= &r.0 * &r.1);
        in_place(w, || format!("writing the last entry of a {m}x{n} matrix"), || (dm(m, n, 1), tok(99), ()), |t, v, _| {
            tick();
            t[[m - 1, n - 1]] = v
        });
    }
}

/// The optimiser: a panic of the comparison or of the generator ends the run at once.
struct Rng {
    state: u64,
}
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        tick();
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn optimiser<const N: usize>(w: &mut Worker, pop: usize, iters: usize) {
    w.case(|| format!("optimiser, population {pop}, dimension {N}, {iters} iterations"), |w| {
        reset();
        let run = |log: &RefCell<Vec<usize>>| {
            differential_evolution(&[(-1f64, 1.0); N], pop, 0.5, 0.75, iters, &mut Rng { state: 1 }, |a, b| {
                tick();
                log.borrow_mut().push(book(|b| b.calls));
                a.iter().sum::<f64>() < b.iter().sum::<f64>()
            })
        };
        begin(0);
        let all = RefCell::new(vec![]);
        run(&all);
        let n = calls();
        for k in 1..=n {
            begin(k);
            let log = RefCell::new(vec![]);
            let res = lib(|| run(&log));
            let m = calls();
            injected(&res, k)?;
            ensure!(m == k, "after a panic in call {k} of the environment, it is called {} times more", m - k);
            let (all, log) = (all.borrow(), log.borrow());
            ensure!(all.starts_with(&log), "comparisons before the panic in call {k} differ from those of a complete run");
        }
        w.distinct(n as u64 + 1);
        w.ops(n as u64 + 1);
        w.traces(n as u64);
        w.outcome(&n);
        Ok(())
    });
}

fn m01(c: &mut Check) {
    let t = c.by(false, false, true);
    let pm = if t { 7 } else { 5 };
    c.suite("polynomials", &format!("all operations on all pairs of polynomials of up to {pm} coefficients, complex coefficients likewise: a panic in every single element operation, and for in-place operations a second one in every (quick: for long operations, some) operation of a second attempt"), (pm + 1) * (pm + 1), |w, p| polys(w, p / (pm + 1), p % (pm + 1)));
    c.suite("static-vectors-and-square-matrices", "all operations, lengths and sizes 0..=4; iterators used up to every position", 5, |w, p| match p {
        0 => statics::<0>(w),
        1 => statics::<1>(w),
        2 => statics::<2>(w),
        3 => statics::<3>(w),
        _ => statics::<4>(w),
    });
    c.suite("static-rectangular-matrices", "all operations, shapes 0x2, 2x0, 1x2, 2x1, 1x3, 3x1, 2x3, 3x2", 8, |w, p| match p {
        0 => rect::<0, 2>(w),
        1 => rect::<2, 0>(w),
        2 => rect::<1, 2>(w),
        3 => rect::<2, 1>(w),
        4 => rect::<1, 3>(w),
        5 => rect::<3, 1>(w),
        6 => rect::<2, 3>(w),
        _ => rect::<3, 2>(w),
    });
    c.suite("complex", "all operations on complex numbers, complex numbers of matrices, polynomials and complex numbers, and matrices of complex numbers and polynomials", 1, |w, _| complexes(w));
    let nv = if t { 24 } else { 9 };
    c.suite("dynamic-vectors", &format!("all operations, lengths 0..={nv}"), nv + 1, vectors);
    let nm = if t { 6 } else { 4 };
    c.suite("dynamic-matrices", &format!("all operations, shapes (0..={nm})^2"), (nm + 1) * (nm + 1), |w, p| matrices(w, p / (nm + 1), p % (nm + 1)));
    c.suite("long", "vectors of 33 (thorough: and 100) entries, matrices 9x9 and 17x3", if t { 4 } else { 3 }, |w, p| match p {
        0 => vectors(w, 33),
        1 => matrices(w, 9, 9),
        2 => matrices(w, 17, 3),
        _ => vectors(w, 100),
    });
    let mp = if t { 33 } else { 9 };
    c.suite("optimiser", &format!("population 4..={mp}, dimension 1 to 3, up to {} iterations: a panic in every call of the comparison and of the generator", 2 * mp), mp - 3, |w, p| {
        for iters in [0, 1, 5, 2 * mp] {
            optimiser::<1>(w, p + 4, iters);
            optimiser::<2>(w, p + 4, iters);
            optimiser::<3>(w, p + 4, iters);
        }
    });
    c.assume("Elements, closures and generators panic before they have an effect of their own; one or two panics per history.");
}

fn main() {
    main_for(&[("M01", m01)])
}
