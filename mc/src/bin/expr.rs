//! D01, D06: lazy vector and matrix expressions. All expression trees up to a depth, for all small shapes, are built
//! from the library's real operations and compared with an eager reference, entry by entry, over the free algebra.
use magnesia::linalg::{make_matrix_expr, make_vector_expr, DMatrix, DVector, MatrixExpr, VectorExpr};
use mc::engine::*;
use mc::ensure;
use mc::probe::at;
use mc::rings::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- expression trees
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Own,
    Ref,
    Fn,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Add,
    Sub,
    MulE,
    DivE,
    Zip,
}
const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::MulE, Op::DivE, Op::Zip];
type PM = Rc<M>;
type PV = Rc<V>;
enum M {
    Src(Kind, u32, usize, usize),
    Eye(usize),
    Zeros(usize, usize),
    Ones(usize, usize),
    Same(usize, usize),
    Map(PM),
    T(PM),
    H(PM),
    OfDiag(PV),
    Bin(Op, PM, PM),
    Prod(PM, PM),
    Ev(PM),
}
enum V {
    Src(Kind, u32, usize),
    Zeros(usize),
    Ones(usize),
    Same(usize),
    Map(PV),
    Conj(PV),
    Diag(PM),
    Bin(Op, PV, PV),
    Ev(PV),
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            M::Src(k, i, r, c) => write!(f, "{k:?}{i}:{r}x{c}"),
            M::Eye(n) => write!(f, "eye({n})"),
            M::Zeros(r, c) => write!(f, "zeros({r},{c})"),
            M::Ones(r, c) => write!(f, "ones({r},{c})"),
            M::Same(r, c) => write!(f, "same({r},{c})"),
            M::Map(x) => write!(f, "map({x:?})"),
            M::T(x) => write!(f, "{x:?}.t()"),
            M::H(x) => write!(f, "{x:?}.h()"),
            M::OfDiag(v) => write!(f, "{v:?}.diag()"),
            M::Bin(o, a, b) => write!(f, "{o:?}({a:?}, {b:?})"),
            M::Prod(a, b) => write!(f, "({a:?} * {b:?})"),
            M::Ev(a) => write!(f, "{a:?}.eval()"),
        }
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Src(k, i, n) => write!(f, "{k:?}{i}:{n}"),
            V::Zeros(n) => write!(f, "zeros({n})"),
            V::Ones(n) => write!(f, "ones({n})"),
            V::Same(n) => write!(f, "same({n})"),
            V::Map(x) => write!(f, "map({x:?})"),
            V::Conj(x) => write!(f, "{x:?}.conj()"),
            V::Diag(x) => write!(f, "{x:?}.diag()"),
            V::Bin(o, a, b) => write!(f, "{o:?}({a:?}, {b:?})"),
            V::Ev(a) => write!(f, "{a:?}.eval()"),
        }
    }
}

fn gm(id: u32, r: usize, c: usize) -> Free {
    Free::gen(id * 10000 + (r * 100 + c) as u32)
}
fn gv(id: u32, i: usize) -> Free {
    Free::gen(1_000_000 + id * 10000 + i as u32)
}
fn same() -> Free {
    Free::gen(5_000_000)
}
fn fmap(x: Free) -> Free {
    x.fun(1)
}
fn fzip(x: Free, y: Free) -> Free {
    x.fun(2).m(&y.fun(3))
}

// ---------------------------------------------------------------- type erasure around the real operations
trait ErM {
    fn e(&self, r: usize, c: usize) -> Free;
    fn nr(&self) -> usize;
    fn nc(&self) -> usize;
    fn ev(self: Box<Self>) -> DMatrix<Free>;
}
impl<X: MatrixExpr<Entry = Free>> ErM for X {
    fn e(&self, r: usize, c: usize) -> Free {
        self.entry(r, c)
    }
    fn nr(&self) -> usize {
        self.num_rows()
    }
    fn nc(&self) -> usize {
        self.num_cols()
    }
    fn ev(self: Box<Self>) -> DMatrix<Free> {
        (*self).eval()
    }
}
struct DynM(Box<dyn ErM>);
impl MatrixExpr for DynM {
    type Entry = Free;
    fn entry(&self, r: usize, c: usize) -> Free {
        self.0.e(r, c)
    }
    fn num_rows(&self) -> usize {
        self.0.nr()
    }
    fn num_cols(&self) -> usize {
        self.0.nc()
    }
    fn eval(self) -> DMatrix<Free> {
        self.0.ev()
    }
}
trait ErV {
    fn e(&self, i: usize) -> Free;
    fn n(&self) -> usize;
    fn emp(&self) -> bool;
    fn ev(self: Box<Self>) -> DVector<Free>;
}
impl<X: VectorExpr<Entry = Free>> ErV for X {
    fn e(&self, i: usize) -> Free {
        self.entry(i)
    }
    fn n(&self) -> usize {
        self.len()
    }
    fn emp(&self) -> bool {
        self.is_empty()
    }
    fn ev(self: Box<Self>) -> DVector<Free> {
        (*self).eval()
    }
}
struct DynV(Box<dyn ErV>);
impl VectorExpr for DynV {
    type Entry = Free;
    fn entry(&self, i: usize) -> Free {
        self.0.e(i)
    }
    fn len(&self) -> usize {
        self.0.n()
    }
    fn is_empty(&self) -> bool {
        self.0.emp()
    }
    fn eval(self) -> DVector<Free> {
        self.0.ev()
    }
}
fn dm(x: impl MatrixExpr<Entry = Free> + 'static) -> DynM {
    DynM(Box::new(x))
}
fn dv(x: impl VectorExpr<Entry = Free> + 'static) -> DynV {
    DynV(Box::new(x))
}
/// The product of two stored matrices, owning them.
struct OwnProd(DMatrix<Free>, DMatrix<Free>);
impl MatrixExpr for OwnProd {
    type Entry = Free;
    fn entry(&self, r: usize, c: usize) -> Free {
        (&self.0 * &self.1).entry(r, c)
    }
    fn num_rows(&self) -> usize {
        (&self.0 * &self.1).num_rows()
    }
    fn num_cols(&self) -> usize {
        (&self.0 * &self.1).num_cols()
    }
    fn eval(self) -> DMatrix<Free> {
        (&self.0 * &self.1).eval()
    }
}
thread_local! {
    static MATS: RefCell<HashMap<(u32, usize, usize), &'static DMatrix<Free>>> = RefCell::new(HashMap::new());
    static VECS: RefCell<HashMap<(u32, usize), &'static DVector<Free>>> = RefCell::new(HashMap::new());
    static LOG: RefCell<Vec<(u32, usize, usize)>> = const { RefCell::new(Vec::new()) };
}
fn log(id: u32, r: usize, c: usize) {
    LOG.with(|l| l.borrow_mut().push((id, r, c)))
}
fn take_log() -> Vec<(u32, usize, usize)> {
    let mut v = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    v.sort();
    v
}

fn build_m(t: &M) -> DynM {
    match t {
        M::Src(k, id, r, c) => {
            let (id, r, c) = (*id, *r, *c);
            let mk = move || make_matrix_expr(r, c, move |i, j| { log(id, i, j); gm(id, i, j) });
            match k {
                Kind::Fn => dm(mk()),
                Kind::Own => dm(mk().eval()),
                Kind::Ref => dm(MATS.with(|m| *m.borrow_mut().entry((id, r, c)).or_insert_with(|| Box::leak(Box::new(mk().eval()))))),
            }
        }
        M::Eye(n) => dm(DMatrix::<Free>::eye(*n)),
        M::Zeros(r, c) => dm(DMatrix::<Free>::zeros(*r, *c)),
        M::Ones(r, c) => dm(DMatrix::<Free>::ones(*r, *c)),
        M::Same(r, c) => dm(DMatrix::<Free>::same(*r, *c, same())),
        M::Map(x) => dm(build_m(x).wrap().map(fmap)),
        M::T(x) => dm(build_m(x).wrap().t()),
        M::H(x) => dm(build_m(x).wrap().h()),
        M::OfDiag(v) => dm(build_v(v).wrap().diag()),
        M::Bin(o, a, b) => {
            let (a, b) = (build_m(a).wrap(), build_m(b).wrap());
            match o {
                Op::Add => dm(a + b),
                Op::Sub => dm(a - b),
                Op::MulE => dm(a.mul_elemwise(b)),
                Op::DivE => dm(a.div_elemwise(b)),
                Op::Zip => dm(a.zip(b).map(|(x, y)| fzip(x, y))),
            }
        }
        M::Prod(a, b) => dm(OwnProd(build_m(a).eval(), build_m(b).eval())),
        M::Ev(a) => dm(build_m(a).eval()),
    }
}
fn build_v(t: &V) -> DynV {
    match t {
        V::Src(k, id, n) => {
            let (id, n) = (*id, *n);
            let mk = move || make_vector_expr(n, move |i| { log(1000 + id, i, 0); gv(id, i) });
            match k {
                Kind::Fn => dv(mk()),
                Kind::Own => dv(mk().eval()),
                Kind::Ref => dv(VECS.with(|m| *m.borrow_mut().entry((id, n)).or_insert_with(|| Box::leak(Box::new(mk().eval()))))),
            }
        }
        V::Zeros(n) => dv(DVector::<Free>::zeros(*n)),
        V::Ones(n) => dv(DVector::<Free>::ones(*n)),
        V::Same(n) => dv(DVector::<Free>::same(*n, same())),
        V::Map(x) => dv(build_v(x).wrap().map(fmap)),
        V::Conj(x) => dv(build_v(x).wrap().conj()),
        V::Diag(x) => dv(build_m(x).wrap().diag()),
        V::Bin(o, a, b) => {
            let (a, b) = (build_v(a).wrap(), build_v(b).wrap());
            match o {
                Op::Add => dv(a + b),
                Op::Sub => dv(a - b),
                Op::MulE => dv(a.mul_elemwise(b)),
                Op::DivE => dv(a.div_elemwise(b)),
                Op::Zip => dv(a.zip(b).map(|(x, y)| fzip(x, y))),
            }
        }
        V::Ev(a) => dv(build_v(a).eval()),
    }
}

// ---------------------------------------------------------------- eager reference
#[derive(Clone, PartialEq, Debug)]
struct RM {
    r: usize,
    c: usize,
    d: Vec<Free>,
}
impl RM {
    fn new(r: usize, c: usize, f: impl Fn(usize, usize) -> Free) -> RM {
        RM { r, c, d: (0..r * c).map(|i| f(i / c, i % c)).collect() }
    }
    fn at(&self, r: usize, c: usize) -> &Free {
        &self.d[r * self.c + c]
    }
}
fn apply(o: Op, x: &Free, y: &Free) -> Free {
    match o {
        Op::Add => x.a(y),
        Op::Sub => x.s(y),
        Op::MulE => x.m(y),
        Op::DivE => x.div(y),
        Op::Zip => fzip(x.clone(), y.clone()),
    }
}
fn model_m(t: &M) -> RM {
    match t {
        M::Src(_, id, r, c) => RM::new(*r, *c, |i, j| gm(*id, i, j)),
        M::Eye(n) => RM::new(*n, *n, |i, j| if i == j { Free::o() } else { Free::z() }),
        M::Zeros(r, c) => RM::new(*r, *c, |_, _| Free::z()),
        M::Ones(r, c) => RM::new(*r, *c, |_, _| Free::o()),
        M::Same(r, c) => RM::new(*r, *c, |_, _| same()),
        M::Map(x) => {
            let x = model_m(x);
            RM::new(x.r, x.c, |i, j| fmap(x.at(i, j).clone()))
        }
        M::T(x) => {
            let x = model_m(x);
            RM::new(x.c, x.r, |i, j| x.at(j, i).clone())
        }
        M::H(x) => {
            let x = model_m(x);
            RM::new(x.c, x.r, |i, j| x.at(j, i).cj())
        }
        M::OfDiag(v) => {
            let v = model_v(v);
            RM::new(v.len(), v.len(), |i, j| if i == j { v[i].clone() } else { Free::z() })
        }
        M::Bin(o, a, b) => {
            let (a, b) = (model_m(a), model_m(b));
            RM::new(a.r, a.c, |i, j| apply(*o, a.at(i, j), b.at(i, j)))
        }
        M::Prod(a, b) => {
            let (a, b) = (model_m(a), model_m(b));
            RM::new(a.r, b.c, |i, j| (0..a.c).fold(Free::z(), |s, k| s.a(&a.at(i, k).m(b.at(k, j)))))
        }
        M::Ev(a) => model_m(a),
    }
}
fn model_v(t: &V) -> Vec<Free> {
    match t {
        V::Src(_, id, n) => (0..*n).map(|i| gv(*id, i)).collect(),
        V::Zeros(n) => vec![Free::z(); *n],
        V::Ones(n) => vec![Free::o(); *n],
        V::Same(n) => vec![same(); *n],
        V::Map(x) => model_v(x).into_iter().map(fmap).collect(),
        V::Conj(x) => model_v(x).iter().map(|x| x.cj()).collect(),
        V::Diag(x) => {
            let x = model_m(x);
            (0..x.r.min(x.c)).map(|i| x.at(i, i).clone()).collect()
        }
        V::Bin(o, a, b) => model_v(a).iter().zip(&model_v(b)).map(|(x, y)| apply(*o, x, y)).collect(),
        V::Ev(a) => model_v(a),
    }
}
/// Source entries that entry (r, c) depends on, once per occurrence.
fn reads_m(t: &M, r: usize, c: usize, out: &mut Vec<(u32, usize, usize)>) {
    match t {
        M::Src(_, id, _, _) => out.push((*id, r, c)),
        M::Eye(_) | M::Zeros(..) | M::Ones(..) | M::Same(..) => {}
        M::Map(x) => reads_m(x, r, c, out),
        M::T(x) | M::H(x) => reads_m(x, c, r, out),
        M::OfDiag(v) => {
            if r == c {
                reads_v(v, r, out)
            }
        }
        M::Bin(_, a, b) => {
            reads_m(a, r, c, out);
            reads_m(b, r, c, out)
        }
        M::Prod(..) | M::Ev(_) => {}
    }
}
fn reads_v(t: &V, i: usize, out: &mut Vec<(u32, usize, usize)>) {
    match t {
        V::Src(_, id, _) => out.push((1000 + id, i, 0)),
        V::Zeros(_) | V::Ones(_) | V::Same(_) => {}
        V::Map(x) | V::Conj(x) => reads_v(x, i, out),
        V::Diag(x) => reads_m(x, i, i, out),
        V::Bin(_, a, b) => {
            reads_v(a, i, out);
            reads_v(b, i, out)
        }
        V::Ev(_) => {}
    }
}

// ---------------------------------------------------------------- checks on one tree
fn check_m(t: &M) -> Result<u64, String> {
    free_reset_mats();
    let want = model_m(t);
    let e = build_m(t);
    ensure!(e.num_rows() == want.r && e.num_cols() == want.c, "dimensions {}x{}, expected {}x{}", e.num_rows(), e.num_cols(), want.r, want.c);
    for round in 0..2 {
        for i in 0..want.r {
            for j in 0..want.c {
                let x = e.entry(i, j);
                ensure!(x == *want.at(i, j), "entry({i},{j}) is {x:?}, expected {:?} (reading {round})", want.at(i, j));
            }
        }
    }
    let d = e.eval();
    same_dm("eval()", &d, &want)?;
    same_dm("eval().eval()", &d.clone().eval(), &want)?;
    same_dm("(&eval()).eval()", &(&d).eval(), &want)?;
    let d2 = build_m(t).eval();
    ensure!(d == d2, "two evaluations of the same formula compare unequal");
    Ok(2 + 3 * want.d.len() as u64)
}
fn same_dm(what: &str, d: &DMatrix<Free>, want: &RM) -> Result<(), String> {
    ensure!(d.num_rows() == want.r && d.num_cols() == want.c, "{what} has dimensions {}x{}, expected {}x{}", d.num_rows(), d.num_cols(), want.r, want.c);
    for i in 0..want.r {
        for j in 0..want.c {
            ensure!(*at(d, [i, j]) == *want.at(i, j) && d.entry(i, j) == *want.at(i, j), "{what} has {:?} at ({i},{j}), expected {:?}", at(d, [i, j]), want.at(i, j));
        }
    }
    Ok(())
}
fn check_v(t: &V) -> Result<u64, String> {
    free_reset_mats();
    let want = model_v(t);
    let e = build_v(t);
    ensure!(e.len() == want.len() && e.is_empty() == want.is_empty(), "length {}, expected {}", e.len(), want.len());
    for round in 0..2 {
        for i in 0..want.len() {
            let x = e.entry(i);
            ensure!(x == want[i], "entry({i}) is {x:?}, expected {:?} (reading {round})", want[i]);
        }
    }
    let d = e.eval();
    same_dv("eval()", &d, &want)?;
    same_dv("eval().eval()", &d.clone().eval(), &want)?;
    same_dv("(&eval()).eval()", &(&d).eval(), &want)?;
    ensure!(d == build_v(t).eval(), "two evaluations of the same formula compare unequal");
    Ok(2 + 3 * want.len() as u64)
}
fn same_dv(what: &str, d: &DVector<Free>, want: &[Free]) -> Result<(), String> {
    ensure!(d.len() == want.len() && d.is_empty() == want.is_empty(), "{what} has length {}, expected {}", d.len(), want.len());
    for i in 0..want.len() {
        ensure!(*at(d, i) == want[i] && d.entry(i) == want[i], "{what} has {:?} at {i}, expected {:?}", at(d, i), want[i]);
    }
    Ok(())
}
/// Forgets interned nodes now and then (no stored matrix of this harness contains one).
fn free_reset_mats() {
    free_reset();
}

// ---------------------------------------------------------------- enumeration of trees by shape
struct Gen {
    kinds: Vec<Kind>,
    consts: bool,
    prod: bool,
    ev: bool,
}
impl Gen {
    fn m0(&self, r: usize, c: usize) -> Vec<PM> {
        let mut v: Vec<PM> = self.kinds.iter().enumerate().map(|(i, k)| Rc::new(M::Src(*k, i as u32, r, c))).collect();
        if self.consts {
            v.push(Rc::new(M::Zeros(r, c)));
            v.push(Rc::new(M::Ones(r, c)));
            v.push(Rc::new(M::Same(r, c)));
        }
        if r == c {
            v.push(Rc::new(M::Eye(r)));
        }
        v
    }
    fn v0(&self, n: usize) -> Vec<PV> {
        let mut v: Vec<PV> = self.kinds.iter().enumerate().map(|(i, k)| Rc::new(V::Src(*k, i as u32, n))).collect();
        if self.consts {
            v.push(Rc::new(V::Zeros(n)));
            v.push(Rc::new(V::Ones(n)));
            v.push(Rc::new(V::Same(n)));
        }
        v
    }
    fn inner(&self, r: usize, c: usize) -> Vec<usize> {
        // the inner dimension 0 with a non-empty result is the recorded finding of D04
        if !self.prod { vec![] } else if r * c == 0 { vec![0, 1, 2] } else { vec![1, 2] }
    }
    fn m1(&self, r: usize, c: usize) -> Vec<PM> {
        let mut v = vec![];
        for x in self.m0(r, c) {
            v.push(Rc::new(M::Map(x.clone())));
            if self.ev {
                v.push(Rc::new(M::Ev(x)));
            }
        }
        for x in self.m0(c, r) {
            v.push(Rc::new(M::T(x.clone())));
            v.push(Rc::new(M::H(x)));
        }
        if r == c {
            for x in self.v0(r) {
                v.push(Rc::new(M::OfDiag(x)));
            }
        }
        for x in self.m0(r, c) {
            for y in self.m0(r, c) {
                for o in OPS {
                    v.push(Rc::new(M::Bin(o, x.clone(), y.clone())));
                }
            }
        }
        for k in self.inner(r, c) {
            for x in self.m0(r, k) {
                for y in self.m0(k, c) {
                    v.push(Rc::new(M::Prod(x.clone(), y)));
                }
            }
        }
        v
    }
    fn diag_shapes(n: usize) -> [(usize, usize); 4] {
        [(n, n), (n, n + 1), (n + 1, n), (n, n + 2)]
    }
    fn v1(&self, n: usize) -> Vec<PV> {
        let mut v = vec![];
        for x in self.v0(n) {
            v.push(Rc::new(V::Map(x.clone())));
            v.push(Rc::new(V::Conj(x.clone())));
            if self.ev {
                v.push(Rc::new(V::Ev(x)));
            }
        }
        for (r, c) in Self::diag_shapes(n) {
            for x in self.m0(r, c) {
                v.push(Rc::new(V::Diag(x)));
            }
        }
        for x in self.v0(n) {
            for y in self.v0(n) {
                for o in OPS {
                    v.push(Rc::new(V::Bin(o, x.clone(), y.clone())));
                }
            }
        }
        v
    }
    /// Level-2 trees: unary over level 1, binary over (level 0 + level 1) pairs (part of `parts` of them).
    fn m2(&self, r: usize, c: usize, part: usize, parts: usize, f: &mut dyn FnMut(PM)) {
        let mut n = 0;
        let mut f = |t: M| {
            n += 1;
            if n % parts == part {
                f(Rc::new(t))
            }
        };
        let l1 = self.m1(r, c);
        let all: Vec<PM> = self.m0(r, c).into_iter().chain(l1.iter().cloned()).collect();
        for x in &l1 {
            f(M::Map(x.clone()));
            if self.ev {
                f(M::Ev(x.clone()));
            }
        }
        for x in self.m1(c, r) {
            f(M::T(x.clone()));
            f(M::H(x));
        }
        if r == c {
            for x in self.v1(r) {
                f(M::OfDiag(x));
            }
        }
        for x in &all {
            for y in &all {
                for o in OPS {
                    f(M::Bin(o, x.clone(), y.clone()));
                }
            }
        }
        for k in self.inner(r, c) {
            let xs: Vec<PM> = self.m0(r, k).into_iter().chain(self.m1(r, k)).collect();
            let ys: Vec<PM> = self.m0(k, c).into_iter().chain(self.m1(k, c)).collect();
            for x in &xs {
                for y in &ys {
                    f(M::Prod(x.clone(), y.clone()));
                }
            }
        }
    }
    fn v2(&self, n: usize, part: usize, parts: usize, f: &mut dyn FnMut(PV)) {
        let mut k = 0;
        let mut f = |t: V| {
            k += 1;
            if k % parts == part {
                f(Rc::new(t))
            }
        };
        let l1 = self.v1(n);
        let all: Vec<PV> = self.v0(n).into_iter().chain(l1.iter().cloned()).collect();
        for x in &l1 {
            f(V::Map(x.clone()));
            f(V::Conj(x.clone()));
            if self.ev {
                f(V::Ev(x.clone()));
            }
        }
        for (r, c) in Self::diag_shapes(n) {
            for x in self.m1(r, c) {
                f(V::Diag(x));
            }
        }
        for x in &all {
            for y in &all {
                for o in OPS {
                    f(V::Bin(o, x.clone(), y.clone()));
                }
            }
        }
    }
    /// Level 3: every unary and every binary operation with a level-0 operand on each side of every level-2 tree.
    fn m3(&self, r: usize, c: usize, part: usize, parts: usize, f: &mut dyn FnMut(PM)) {
        let l0 = self.m0(r, c);
        self.m2(r, c, part, parts, &mut |x| {
            f(Rc::new(M::Map(x.clone())));
            if self.ev {
                f(Rc::new(M::Ev(x.clone())));
            }
            for y in &l0 {
                for o in OPS {
                    f(Rc::new(M::Bin(o, x.clone(), y.clone())));
                    f(Rc::new(M::Bin(o, y.clone(), x.clone())));
                }
            }
        });
        self.m2(c, r, part, parts, &mut |x| {
            f(Rc::new(M::T(x.clone())));
            f(Rc::new(M::H(x)));
        });
        if r == c {
            self.v2(r, part, parts, &mut |x| f(Rc::new(M::OfDiag(x))));
        }
    }
    fn v3(&self, n: usize, part: usize, parts: usize, f: &mut dyn FnMut(PV)) {
        let l0 = self.v0(n);
        self.v2(n, part, parts, &mut |x| {
            f(Rc::new(V::Map(x.clone())));
            f(Rc::new(V::Conj(x.clone())));
            for y in &l0 {
                for o in OPS {
                    f(Rc::new(V::Bin(o, x.clone(), y.clone())));
                    f(Rc::new(V::Bin(o, y.clone(), x.clone())));
                }
            }
        });
        for (r, c) in Self::diag_shapes(n) {
            self.m2(r, c, part, parts, &mut |x| f(Rc::new(V::Diag(x))));
        }
    }
}

fn run_m(w: &mut Worker, t: PM, chk: fn(&M) -> Result<u64, String>) {
    w.case(|| format!("{t:?}"), |w| {
        w.distinct(1);
        let n = chk(&t)?;
        w.ops(n);
        Ok(())
    });
}
fn run_v(w: &mut Worker, t: PV, chk: fn(&V) -> Result<u64, String>) {
    w.case(|| format!("{t:?}"), |w| {
        w.distinct(1);
        let n = chk(&t)?;
        w.ops(n);
        Ok(())
    });
}

fn all_trees(c: &mut Check, tag: &str, g1: &(dyn Fn() -> Gen + Sync), g2: &(dyn Fn() -> Gen + Sync), chk_m: fn(&M) -> Result<u64, String>, chk_v: fn(&V) -> Result<u64, String>) {
    let q = c.quick();
    let d1 = c.by_tier(4usize, 6);
    c.suite(&format!("{tag}matrix-depth-1"), &format!("all matrix expression trees of depth <= 1 over every kind of source, shapes 0..={d1} x 0..={d1}"), (d1 + 1) * (d1 + 1), |w, p| {
        let (r, k) = (p / (d1 + 1), p % (d1 + 1));
        let g = g1();
        for t in g.m0(r, k).into_iter().chain(g.m1(r, k)) {
            run_m(w, t, chk_m);
        }
        w.outcome(&(r, k));
    });
    let n1 = c.by_tier(8usize, 16);
    c.suite(&format!("{tag}vector-depth-1"), &format!("all vector expression trees of depth <= 1 over every kind of source, lengths 0..={n1}"), n1 + 1, |w, n| {
        let g = g1();
        for t in g.v0(n).into_iter().chain(g.v1(n)) {
            run_v(w, t, chk_v);
        }
        w.outcome(&n);
    });
    let d2 = if q { 3usize } else { 4 };
    let parts = 16;
    c.suite(&format!("{tag}matrix-depth-2"), &format!("all matrix expression trees of depth 2, shapes 0..={d2} x 0..={d2}"), (d2 + 1) * (d2 + 1) * parts, |w, p| {
        let (r, k) = (p / parts / (d2 + 1), p / parts % (d2 + 1));
        g2().m2(r, k, p % parts, parts, &mut |t| run_m(w, t, chk_m));
    });
    c.suite(&format!("{tag}vector-depth-2"), &format!("all vector expression trees of depth 2, lengths 0..={}", d2 + 1), (d2 + 2) * parts, |w, p| {
        g2().v2(p / parts, p % parts, parts, &mut |t| run_v(w, t, chk_v));
    });
    if !c.second_run() {
        let parts = 64;
        let d3 = if q { 2usize } else { 3 };
        c.suite(&format!("{tag}matrix-depth-3"), &format!("matrix expression trees of depth 3 (every operation on every depth-2 tree, other operand a source), shapes 0..={d3} x 0..={d3}"), (d3 + 1) * (d3 + 1) * parts, |w, p| {
            g2().m3(p / parts / (d3 + 1), p / parts % (d3 + 1), p % parts, parts, &mut |t| run_m(w, t, chk_m));
        });
        c.suite(&format!("{tag}vector-depth-3"), "vector expression trees of depth 3, lengths 0..=3", 4 * parts, |w, p| {
            g2().v3(p / parts, p % parts, parts, &mut |t| run_v(w, t, chk_v));
        });
    }
}

// ---------------------------------------------------------------- D01
const HUGE: [usize; 8] = [1, 3, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 5, 1 << 63, usize::MAX];
fn far(n: usize, m: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 255, 65536, n / 2, m / 2, m.wrapping_sub(1), m, (1 << 32) - 1, 1 << 32, n.wrapping_sub(2), n - 1].into_iter().filter(|i| *i < n).collect();
    v.sort();
    v.dedup();
    v
}
fn hg(k: u64, i: usize, j: usize) -> G {
    gpt((i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23) ^ (j as u64).wrapping_mul(0xc2b2_ae3d_27d4_eb4f) ^ k << 17)
}
fn huge_m(r: usize, k: usize, full: bool) -> Result<u64, String> {
    let far = |n: usize, m: usize| if full { (0..n).collect() } else { far(n, m) };
    let (a, b) = (|| make_matrix_expr(r, k, |i, j| hg(1, i, j)), || make_matrix_expr(r, k, |i, j| hg(2, i, j)));
    let bt = || make_matrix_expr(k, r, |i, j| hg(2, j, i));
    let (x, y) = (|i: usize, j: usize| hg(1, i, j), |i: usize, j: usize| hg(2, i, j));
    let mut ops = 0;
    macro_rules! chk { ($($e:expr, $rr:expr, $cc:expr, $want:expr);* $(;)?) => { $( {
        let e = $e;
        let want = $want;
        ensure!(e.num_rows() == $rr && e.num_cols() == $cc, concat!(stringify!($e), " is {}x{}"), e.num_rows(), e.num_cols());
        for i in far($rr, $cc) {
            for j in far($cc, $rr) {
                let (g, h): (G, G) = (e.entry(i, j), want(i, j));
                ensure!(g == h, concat!(stringify!($e), ": entry({},{}) is {:?}, expected {:?}"), i, j, g, h);
                ops += 1;
            }
        }
        if full {
            let d = e.eval();
            ensure!(d.num_rows() == $rr && d.num_cols() == $cc, concat!(stringify!($e), " evaluates to {}x{}"), d.num_rows(), d.num_cols());
            for i in 0..$rr {
                for j in 0..$cc {
                    ensure!(d[[i, j]] == want(i, j), concat!(stringify!($e), ": eval() has {:?} at ({},{}) of {}x{}, expected {:?}"), d[[i, j]], i, j, $rr, $cc, want(i, j));
                }
            }
            ops += 1;
        }
    } )* } }
    chk! {
        a(), r, k, x;
        a() + b(), r, k, |i, j| x(i, j).a(&y(i, j));
        a() - b(), r, k, |i, j| x(i, j).s(&y(i, j));
        a().mul_elemwise(b()), r, k, |i, j| x(i, j).m(&y(i, j));
        a().zip(b()).map(|(p, q): (G, G)| p.m(&q)), r, k, |i, j| x(i, j).m(&y(i, j));
        a().map(|p| p.n()), r, k, |i, j| x(i, j).n();
        a().t(), k, r, |i, j| x(j, i);
        a().h(), k, r, |i, j| x(j, i).cj();
        a().t().t(), r, k, x;
        a().h().h(), r, k, x;
        a() - bt().t(), r, k, |i, j| x(i, j).s(&y(i, j));
        (a().t() + bt()).h().map(|p| p.n()), r, k, |i, j| x(i, j).a(&y(i, j)).cj().n();
        a().t().zip(bt()).map(|(p, q): (G, G)| p.s(&q)).t(), r, k, |i, j| x(i, j).s(&y(i, j));
        DMatrix::<G>::zeros(r, k) + a(), r, k, x;
        DMatrix::<G>::ones(r, k).mul_elemwise(a()), r, k, x;
        DMatrix::<G>::same(r, k, hg(7, 0, 0)) - a(), r, k, |i, j| hg(7, 0, 0).s(&x(i, j));
    }
    if full {
        let (p, q) = (a().eval(), b().eval());
        chk! {
            &p + &q, r, k, |i, j| x(i, j).a(&y(i, j));
            &p - &q, r, k, |i, j| x(i, j).s(&y(i, j));
            (&p).wrap().mul_elemwise(&q), r, k, |i, j| x(i, j).m(&y(i, j));
            p.t(), k, r, |i, j| x(j, i);
            q.h(), k, r, |i, j| y(j, i).cj();
            p.clone().wrap().map(|p| p.n()), r, k, |i, j| x(i, j).n();
        }
        let (d, e) = (p.diag().eval(), (&p + &q).t().diag().eval());
        ensure!(d.len() == r.min(k) && e.len() == r.min(k), "diagonals have lengths {}, {}", d.len(), e.len());
        for i in 0..r.min(k) {
            ensure!(d[i] == x(i, i) && e[i] == x(i, i).a(&y(i, i)), "evaluated diagonals at {i}: {:?}, {:?}", d[i], e[i]);
        }
        ops += 2;
    }
    let d = a().diag();
    let n = r.min(k);
    ensure!(d.len() == n, "diagonal has length {}", d.len());
    let e = (a() + b()).t().diag().conj();
    ensure!(e.len() == n, "diagonal of the transposed sum has length {}", e.len());
    for i in far(n, 7) {
        ensure!(d.entry(i) == x(i, i) && e.entry(i) == x(i, i).a(&y(i, i)).cj(), "diagonal entry {i}");
        ops += 2;
    }
    Ok(ops)
}
fn huge_v(n: usize, full: bool) -> Result<u64, String> {
    let far = |n: usize, m: usize| if full { (0..n).collect() } else { far(n, m) };
    let (a, b) = (|| make_vector_expr(n, |i| hg(1, i, 0)), || make_vector_expr(n, |i| hg(2, i, 0)));
    let (x, y) = (|i: usize| hg(1, i, 0), |i: usize| hg(2, i, 0));
    let mut ops = 0;
    macro_rules! chk { ($($e:expr, $want:expr);* $(;)?) => { $( {
        let e = $e;
        let want = $want;
        ensure!(e.len() == n, concat!(stringify!($e), " has length {}"), e.len());
        for i in far(n, 1000) {
            let (g, h): (G, G) = (e.entry(i), want(i));
            ensure!(g == h, concat!(stringify!($e), ": entry({}) is {:?}, expected {:?}"), i, g, h);
            ops += 1;
        }
        if full {
            let d = e.eval();
            ensure!(d.len() == n, concat!(stringify!($e), " evaluates to length {}"), d.len());
            for i in 0..n {
                ensure!(d[i] == want(i), concat!(stringify!($e), ": eval() has {:?} at {} of {}, expected {:?}"), d[i], i, n, want(i));
            }
            ops += 1;
        }
    } )* } }
    chk! {
        a() + b(), |i| x(i).a(&y(i));
        a() - b(), |i| x(i).s(&y(i));
        a().mul_elemwise(b()), |i| x(i).m(&y(i));
        a().zip(b()).map(|(p, q): (G, G)| p.m(&q)), |i| x(i).m(&y(i));
        a().conj(), |i| x(i).cj();
        a().map(|p| p.n()).conj() - b(), |i| x(i).n().cj().s(&y(i));
        a().diag().diag(), x;
        a().diag().h().diag(), |i| x(i).cj();
        DVector::<G>::zeros(n) + a(), x;
        DVector::<G>::ones(n).mul_elemwise(a()), x;
        DVector::<G>::same(n, hg(7, 0, 0)) - a(), |i| hg(7, 0, 0).s(&x(i));
        DMatrix::<G>::eye(n).diag().mul_elemwise(b()), y;
    }
    let (d, e) = (a().diag(), DMatrix::<G>::eye(n));
    ensure!(d.num_rows() == n && d.num_cols() == n && e.num_rows() == n && e.num_cols() == n, "diagonal matrices are {}x{} and {}x{}", d.num_rows(), d.num_cols(), e.num_rows(), e.num_cols());
    for i in far(n, 1000) {
        for j in far(n, 1000) {
            let (w1, w2) = if i == j { (x(i), G::o()) } else { (G::z(), G::z()) };
            ensure!(d.entry(i, j) == w1 && e.entry(i, j) == w2, "diagonal matrix and identity, entry({i},{j}): {:?}, {:?}", d.entry(i, j), e.entry(i, j));
            ops += 2;
        }
    }
    Ok(ops)
}
/// Shapes for the suites `large`; the second number is the side of the exhaustive part, the third the longest side.
fn large_shapes(c: &Check) -> (Vec<(usize, usize)>, usize, usize) {
    let (lens, all) = c.by_tier((vec![6usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1025], 14usize), ((6usize..=70).chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097]).collect(), 40usize));
    let mut large: Vec<(usize, usize)> = vec![];
    for &n in &lens {
        for m in 1..=5 {
            large.push((n, m));
            large.push((m, n));
        }
    }
    for r in 6..=all {
        for k in 6..=all {
            large.push((r, k));
        }
    }
    large.extend(c.by_tier(vec![(33, 31), (64, 65), (129, 17), (17, 129), (300, 20)], vec![(33, 31), (64, 65), (129, 17), (17, 129), (300, 20), (20, 300), (128, 128), (65, 257), (257, 65), (1025, 33)]));
    large.sort();
    large.dedup();
    let longest = lens[lens.len() - 1];
    (large, all, longest)
}
fn d01(c: &mut Check) {
    let all = || Gen { kinds: vec![Kind::Own, Kind::Ref, Kind::Fn], consts: true, prod: true, ev: true };
    let few = || Gen { kinds: vec![Kind::Own, Kind::Fn], consts: false, prod: true, ev: true };
    all_trees(c, "", &all, &few, check_m, check_v);
    // statically typed forms: operators on containers, arrays, slices and wrappers
    c.suite("operand-forms-matrix", "every operator form of every binary and unary matrix operation (owned, borrowed, lazy, array operands), shapes 0..=4 x 0..=4", 25, |w, p| {
        let (r, k) = (p / 5, p % 5);
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            free_reset();
            let a = make_matrix_expr(r, k, |i, j| gm(0, i, j)).eval();
            let b = make_matrix_expr(r, k, |i, j| gm(1, i, j)).eval();
            let lazy = || make_matrix_expr(r, k, |i, j| gm(1, i, j));
            let (ra, rb) = (RM::new(r, k, |i, j| gm(0, i, j)), RM::new(r, k, |i, j| gm(1, i, j)));
            let bin = |o: Op| RM::new(r, k, |i, j| apply(o, ra.at(i, j), rb.at(i, j)));
            macro_rules! forms { ($name:literal, $o:expr, |$x:ident, $y:ident| $e:expr) => {{
                let want = bin($o);
                macro_rules! one { ($l:expr, $r:expr) => {{ let ($x, $y) = ($l, $r); let e = $e; 
                    ensure!(e.num_rows() == r && e.num_cols() == k, concat!($name, " ", stringify!($l), " ", stringify!($r), ": wrong dimensions"));
                    for i in 0..r { for j in 0..k { ensure!(e.entry(i, j) == *want.at(i, j), concat!($name, " ", stringify!($l), " ", stringify!($r), ": entry({},{}) is {:?}"), i, j, e.entry(i, j)); } }
                    same_dm(concat!($name, " ", stringify!($l), " ", stringify!($r)), &e.eval(), &want)?; w.ops(2); }} }
                one!(a.clone().wrap(), b.clone());
                one!(a.clone().wrap(), &b);
                one!(a.clone().wrap(), lazy());
                one!(a.clone().wrap(), b.clone().wrap());
                one!((&a).wrap(), b.clone());
                one!((&a).wrap(), &b);
                one!((&a).wrap(), (&b).wrap());
                one!((&a).wrap(), lazy());
                one!(&a, b.clone());
                one!(&a, &b);
                one!(&a, lazy());
                one!(&a, (&b).wrap());
            }} }
            forms!("+", Op::Add, |x, y| x + y);
            forms!("-", Op::Sub, |x, y| x - y);
            forms!("mul_elemwise", Op::MulE, |x, y| x.mul_elemwise(y));
            forms!("div_elemwise", Op::DivE, |x, y| x.div_elemwise(y));
            let zw = bin(Op::Zip);
            same_dm("zip", &a.clone().wrap().zip(&b).map(|(x, y)| fzip(x, y)).eval(), &zw)?;
            same_dm("zip", &(&a).wrap().zip(lazy()).map(|(x, y)| fzip(x, y)).eval(), &zw)?;
            // one object as both operands
            let own = |o: Op| RM::new(r, k, |i, j| apply(o, ra.at(i, j), ra.at(i, j)));
            same_dm("&a + &a", &(&a + &a).eval(), &own(Op::Add))?;
            same_dm("&a - &a", &(&a - &a).eval(), &own(Op::Sub))?;
            same_dm("a.mul_elemwise(&a)", &a.mul_elemwise(&a).eval(), &own(Op::MulE))?;
            same_dm("a.div_elemwise(&a)", &a.div_elemwise(&a).eval(), &own(Op::DivE))?;
            same_dm("a.t().t() + &a", &(a.t().t() + &a).eval(), &own(Op::Add))?;
            same_dm("t", &a.t().eval(), &RM::new(k, r, |i, j| ra.at(j, i).clone()))?;
            same_dm("h", &a.h().eval(), &RM::new(k, r, |i, j| ra.at(j, i).cj()))?;
            same_dv("diag", &a.diag().eval(), &(0..r.min(k)).map(|i| ra.at(i, i).clone()).collect::<Vec<_>>())?;
            same_dm("t.t", &a.t().t().eval(), &ra)?;
            same_dm("a afterwards", &a, &ra)?;
            same_dm("b afterwards", &b, &rb)?;
            w.ops(7);
            Ok(())
        });
    });
    let n1 = c.by_tier(20usize, 70);
    c.suite("operand-forms-vector", &format!("every operator form of every vector operation (owned, borrowed, lazy, slice operands), lengths 0..={n1}"), n1 + 1, |w, n| {
        w.case(|| format!("length {n}"), |w| {
            w.distinct(1);
            free_reset();
            let (ra, rb): (Vec<Free>, Vec<Free>) = ((0..n).map(|i| gv(0, i)).collect(), (0..n).map(|i| gv(1, i)).collect());
            let a = make_vector_expr(n, |i| gv(0, i)).eval();
            let b = (&rb[..]).eval();
            let lazy = || make_vector_expr(n, |i| gv(1, i));
            macro_rules! forms { ($name:literal, $o:expr, |$x:ident, $y:ident| $e:expr) => {{
                let want: Vec<Free> = ra.iter().zip(&rb).map(|(x, y)| apply($o, x, y)).collect();
                macro_rules! one { ($l:expr, $r:expr) => {{ let ($x, $y) = ($l, $r); let e = $e;
                    ensure!(e.len() == n, concat!($name, " ", stringify!($l), " ", stringify!($r), ": wrong length"));
                    for i in 0..n { ensure!(e.entry(i) == want[i], concat!($name, " ", stringify!($l), " ", stringify!($r), ": entry({}) is {:?}"), i, e.entry(i)); }
                    same_dv(concat!($name, " ", stringify!($l), " ", stringify!($r)), &e.eval(), &want)?; w.ops(2); }} }
                one!(a.clone().wrap(), b.clone());
                one!(a.clone().wrap(), &b);
                one!(a.clone().wrap(), lazy());
                one!(a.clone().wrap(), &rb[..]);
                one!((&a).wrap(), b.clone());
                one!((&a).wrap(), &b);
                one!((&a).wrap(), (&b).wrap());
                one!((&ra[..]).wrap(), &rb[..]);
                one!((&ra[..]).wrap(), lazy());
                one!(&a, b.clone());
                one!(&a, &b);
                one!(&a, lazy());
                one!(&a, &rb[..]);
            }} }
            forms!("+", Op::Add, |x, y| x + y);
            forms!("-", Op::Sub, |x, y| x - y);
            forms!("zip", Op::Zip, |x, y| x.wrap().zip(y).map(|(p, q)| fzip(p, q)));
            {
                let want: Vec<Free> = ra.iter().zip(&rb).map(|(x, y)| x.m(y)).collect();
                let own = |o: Op| ra.iter().map(|x| apply(o, x, x)).collect::<Vec<_>>();
                same_dv("&a + &a", &(&a + &a).eval(), &own(Op::Add))?;
                same_dv("&a - &a", &(&a - &a).eval(), &own(Op::Sub))?;
                same_dv("a.mul_elemwise(&a)", &a.mul_elemwise(&a).eval(), &own(Op::MulE))?;
                same_dv("a.div_elemwise(&a)", &a.div_elemwise(&a).eval(), &own(Op::DivE))?;
                same_dv("a.mul_elemwise(b)", &a.mul_elemwise(b.clone()).eval(), &want)?;
                same_dv("a.mul_elemwise(&b)", &a.mul_elemwise(&b).eval(), &want)?;
                same_dv("a.mul_elemwise(lazy)", &a.mul_elemwise(lazy()).eval(), &want)?;
                same_dv("wrap.mul_elemwise(slice)", &a.clone().wrap().mul_elemwise(&rb[..]).eval(), &want)?;
                let want: Vec<Free> = ra.iter().zip(&rb).map(|(x, y)| x.div(y)).collect();
                same_dv("a.div_elemwise(b)", &a.div_elemwise(b.clone()).eval(), &want)?;
                same_dv("a.div_elemwise(&b)", &a.div_elemwise(&b).eval(), &want)?;
                same_dv("a.div_elemwise(lazy)", &a.div_elemwise(lazy()).eval(), &want)?;
                same_dv("wrap.div_elemwise(slice)", &a.clone().wrap().div_elemwise(&rb[..]).eval(), &want)?;
                same_dv("conj", &a.conj().eval(), &ra.iter().map(|x| x.cj()).collect::<Vec<_>>())?;
                same_dm("diag", &a.diag().eval(), &RM::new(n, n, |i, j| if i == j { ra[i].clone() } else { Free::z() }))?;
                same_dv("diag.diag", &a.diag().diag().eval(), &ra)?;
                same_dv("a afterwards", &a, &ra)?;
                same_dv("b afterwards", &b, &rb)?;
                w.ops(11);
            }
            Ok(())
        });
    });
    fn arr<const R: usize, const C: usize>(w: &mut Worker) {
        w.case(|| format!("[[T;{C}];{R}]"), |w| {
            w.distinct(1);
            free_reset();
            let x: [[Free; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| gm(0, i, j)));
            let y: [[Free; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| gm(1, i, j)));
            let (rx, ry) = (RM::new(R, C, |i, j| gm(0, i, j)), RM::new(R, C, |i, j| gm(1, i, j)));
            ensure!(MatrixExpr::num_rows(&x) == R && MatrixExpr::num_cols(&x) == C, "array dimensions");
            for i in 0..R {
                for j in 0..C {
                    ensure!(x.entry(i, j) == gm(0, i, j), "array entry({i},{j})");
                }
            }
            same_dm("array eval", &MatrixExpr::eval(x.clone()), &rx)?;
            same_dm("array wrap eval", &x.clone().wrap().eval(), &rx)?;
            same_dm("array + array", &(x.clone().wrap() + y.clone()).eval(), &RM::new(R, C, |i, j| rx.at(i, j).a(ry.at(i, j))))?;
            same_dm("array.t - array.t", &(x.clone().wrap().t() - y.clone().wrap().t()).eval(), &RM::new(C, R, |i, j| rx.at(j, i).s(ry.at(j, i))))?;
            let d = MatrixExpr::eval(x.clone());
            same_dm("&d - array", &(&d - y.clone()).eval(), &RM::new(R, C, |i, j| rx.at(i, j).s(ry.at(i, j))))?;
            let mut m = d.clone();
            m += y.clone();
            same_dm("d += array", &m, &RM::new(R, C, |i, j| rx.at(i, j).a(ry.at(i, j))))?;
            w.ops(8);
            Ok(())
        });
    }
    c.suite("arrays", "arrays of arrays as matrices, shapes 0..=4 x 0..=4", 1, |w, _| {
        macro_rules! all { ($($r:literal)*) => { $( arr::<$r, 0>(w); arr::<$r, 1>(w); arr::<$r, 2>(w); arr::<$r, 3>(w); arr::<$r, 4>(w); )* } }
        all!(0 1 2 3 4);
    });
    c.suite("different-entry-types", "sum, difference and element-wise operations of operands whose entry types differ and whose result has a third type, nested in a map, transpose and diagonal: shapes 0..=5 x 0..=5, lengths 0..=35; every kind of right operand", 36, |w, p| {
        use mc::mixed::{A, B, S};
        let (r, k) = (p / 6, p % 6);
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            let (fa, fb) = (|i: usize, j: usize| A((i * 10 + j) as u32), |i: usize, j: usize| B((1000 + i * 10 + j) as u32));
            let (a, b) = (make_matrix_expr(r, k, fa).eval(), make_matrix_expr(r, k, fb).eval());
            macro_rules! one { ($c:literal, $e:expr) => {{
                let want = |i: usize, j: usize| S($c, fa(i, j).0, fb(i, j).0);
                let e = $e;
                ensure!(e.num_rows() == r && e.num_cols() == k, concat!(stringify!($e), ": wrong dimensions"));
                for i in 0..r { for j in 0..k { ensure!(e.entry(i, j) == want(i, j), concat!(stringify!($e), ": entry({},{}) is {:?}"), i, j, e.entry(i, j)); } }
                let d = e.eval();
                ensure!(d == make_matrix_expr(r, k, want).eval(), concat!(stringify!($e), " is {:?}"), d);
                let t = $e.wrap().t().map(|s| (s.2, s.1, s.0)).eval();
                ensure!(t == make_matrix_expr(k, r, |i, j| { let s = want(j, i); (s.2, s.1, s.0) }).eval(), concat!(stringify!($e), ".t().map() is {:?}"), t);
                let t = $e.wrap().diag().eval();
                ensure!(t == make_vector_expr(r.min(k), |i| want(i, i)).eval(), concat!(stringify!($e), ".diag() is {:?}"), t);
                w.ops(4);
            }} }
            one!('+', &a + &b);
            one!('+', &a + b.clone());
            one!('+', &a + make_matrix_expr(r, k, fb));
            one!('+', make_matrix_expr(r, k, fa) + &b);
            one!('-', &a - &b);
            one!('-', &a - make_matrix_expr(r, k, fb));
            one!('-', a.clone().wrap() - b.clone());
            one!('-', make_matrix_expr(r, k, fa) - make_matrix_expr(r, k, fb));
            one!('*', a.mul_elemwise(&b));
            one!('*', a.mul_elemwise(make_matrix_expr(r, k, fb)));
            one!('*', make_matrix_expr(r, k, fa).mul_elemwise(b.clone()));
            one!('/', a.div_elemwise(&b));
            one!('/', a.div_elemwise(make_matrix_expr(r, k, fb)));
            one!('/', make_matrix_expr(r, k, fa).div_elemwise(b.clone()));
            let z = (&a).wrap().zip(&b).eval();
            ensure!(z == make_matrix_expr(r, k, |i, j| (fa(i, j), fb(i, j))).eval(), "zip is {z:?}");
            Ok(())
        });
        let n = p;
        w.case(|| format!("length {n}"), |w| {
            w.distinct(1);
            let (fa, fb) = (|i: usize| A(i as u32), |i: usize| B(1000 + i as u32));
            let (a, b) = (make_vector_expr(n, fa).eval(), make_vector_expr(n, fb).eval());
            let (sa, sb): (Vec<A>, Vec<B>) = ((0..n).map(fa).collect(), (0..n).map(fb).collect());
            macro_rules! one { ($c:literal, $e:expr) => {{
                let want = |i: usize| S($c, fa(i).0, fb(i).0);
                let e = $e;
                ensure!(e.len() == n, concat!(stringify!($e), ": wrong length"));
                for i in 0..n { ensure!(e.entry(i) == want(i), concat!(stringify!($e), ": entry({}) is {:?}"), i, e.entry(i)); }
                let d = e.eval();
                ensure!(d == make_vector_expr(n, want).eval(), concat!(stringify!($e), " is {:?}"), d);
                let t = $e.wrap().map(|s| (s.2, s.1, s.0)).eval();
                ensure!(t == make_vector_expr(n, |i| { let s = want(i); (s.2, s.1, s.0) }).eval(), concat!(stringify!($e), ".map() is {:?}"), t);
                w.ops(3);
            }} }
            one!('+', &a + &b);
            one!('+', &a + &sb[..]);
            one!('+', (&sa[..]).wrap() + b.clone());
            one!('+', &a + make_vector_expr(n, fb));
            one!('-', &a - &b);
            one!('-', &a - &sb[..]);
            one!('-', a.clone().wrap() - make_vector_expr(n, fb));
            one!('*', a.mul_elemwise(&b));
            one!('*', a.mul_elemwise(&sb[..]));
            one!('*', (&sa[..]).wrap().mul_elemwise(&b));
            one!('/', a.div_elemwise(&b));
            one!('/', a.div_elemwise(&sb[..]));
            one!('/', make_vector_expr(n, fa).div_elemwise(b.clone()));
            let z = (&a).wrap().zip(&b).eval();
            ensure!(z == make_vector_expr(n, |i| (fa(i), fb(i))).eval(), "zip is {z:?}");
            Ok(())
        });
    });
    // container equality: shape and entries
    let dmax = c.by_tier(3usize, 4);
    let shapes: Vec<(usize, usize)> = (0..=dmax).flat_map(|r| (0..=dmax).map(move |k| (r, k))).filter(|(r, k)| r * k <= 6).collect();
    let all: Vec<(usize, usize, usize)> = shapes.iter().flat_map(|&(r, k)| (0..1usize << (r * k)).map(move |d| (r, k, d))).collect();
    c.suite("container-equality", &format!("all pairs of {} matrices with entries in {{0,1}} of shapes up to {dmax} x {dmax}, and of the vectors with up to 8 such entries", all.len()), all.len(), |w, p| {
        let mk = |&(r, k, d): &(usize, usize, usize)| make_matrix_expr(r, k, |i, j| Zn::<2>((d >> (i * k + j) & 1) as u16)).eval();
        let x = mk(&all[p]);
        w.case(|| format!("{x:?} against all"), |w| {
            for q in &all {
                let y = mk(q);
                let want = all[p] == *q;
                w.distinct(1);
                w.ops(1);
                ensure!((x == y) == want && (x != y) != want, "{x:?} == {y:?} gives {}", x == y);
            }
            Ok(())
        });
    });
    c.suite("vector-equality", "all pairs of vectors with entries in {0,1} of length 0..=7", words_upto(2, 7), |w, p| {
        let mk = |q: usize| { let v: Vec<Zn<2>> = word(q, 2).into_iter().map(|x| Zn(x as u16)).collect(); (&v[..]).eval() };
        let x = mk(p);
        w.case(|| format!("{x:?} against all"), |w| {
            for q in 0..words_upto(2, 7) {
                let y = mk(q);
                w.distinct(1);
                w.ops(1);
                ensure!((x == y) == (p == q) && (x != y) == (p != q), "{x:?} == {y:?} gives {}", x == y);
            }
            Ok(())
        });
    });
    c.suite("huge", "lazy expressions with dimensions from {1, 3, 2^16 + 1, 2^31, 2^32, 2^32 + 5, 2^63, usize::MAX}: dimensions and the entries in and near the corners, the middle and the diagonal, of every operation and some nested ones", HUGE.len() * HUGE.len(), |w, p| {
        let (r, k) = (HUGE[p / HUGE.len()], HUGE[p % HUGE.len()]);
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            let n = huge_m(r, k, false)? + if r == k { huge_v(r, false)? } else { 0 };
            w.ops(n);
            Ok(())
        });
    });
    let (large, all, longest) = large_shapes(c);
    c.suite("large", &format!("every operation and some nested ones on lazy expressions and on containers, all entries read one by one and evaluated: {} shapes, long sides up to {} with short sides 1..=5, all of 6..={all} x 6..={all}, and larger ones; elements are points of a prime field", large.len(), longest), large.len(), |w, p| {
        let (r, k) = large[large.len() - 1 - p];
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            let n = huge_m(r, k, true)? + if k == 1 || r == k { huge_v(r, true)? } else { 0 };
            w.ops(n);
            Ok(())
        });
    });
    let giant = [(1usize, 1_000_003usize), (1_000_003, 1), (1023, 1025)];
    c.suite("giant", &format!("matrices {giant:?} and vectors with as many entries over a prime field: nested expressions of lazy and stored operands evaluated on the usual stack of a thread (2 MB), equality of the results"), giant.len(), |w, p| {
        let (r, k) = giant[p];
        w.case(|| format!("{r}x{k}, small stack"), |w| {
            w.distinct(1);
            w.ops(6);
            small_stack(|| {
                let f = |s: i64| move |i: usize, j: usize| ((i * 31 + j * 17) as i64 + s) % 10007;
                let a = make_matrix_expr(r, k, f(1)).eval();
                let b = make_matrix_expr(k, r, f(2)).eval();
                let x = (&a + b.t()).map(|v| v * 3).eval();
                let y = (b.t() - &a).mul_elemwise(make_matrix_expr(r, k, f(3))).eval();
                for i in 0..r {
                    for j in 0..k {
                        ensure!(x[[i, j]] == (f(1)(i, j) + f(2)(j, i)) * 3, "entry ({i}, {j}) of (A + B.t()).map(3 x)");
                        ensure!(y[[i, j]] == (f(2)(j, i) - f(1)(i, j)) * f(3)(i, j), "entry ({i}, {j}) of (B.t() - A) * C");
                    }
                }
                let mut z = x.clone();
                ensure!(z == x && !(z != x), "a clone is not equal");
                z[[r - 1, k - 1]] += 1;
                ensure!(z != x && !(z == x), "a difference in the last entry is ignored");
                let n = r * k;
                let v = make_vector_expr(n, |i| f(1)(i, i)).eval();
                let u = (&v + make_vector_expr(n, |i| f(2)(i, 0))).map(|v| v * 5).eval();
                for i in 0..n {
                    ensure!(u[i] == (f(1)(i, i) + f(2)(i, 0)) * 5, "entry {i} of (v + w).map(5 x)");
                }
                let mut t = u.clone();
                ensure!(t == u, "a clone is not equal");
                t[n - 1] += 1;
                ensure!(t != u, "a difference in the last entry is ignored");
                Ok::<(), String>(())
            })?
        });
    });
    c.suite("long", "vectors of 1000 and 4096, matrices 64x65, 1x500, 500x1, 33x31 through a nested expression", 6, |w, p| {
        w.case(|| format!("instance {p}"), |w| {
            w.distinct(1);
            free_reset();
            let dims = [(64, 65), (1, 500), (500, 1), (33, 31)];
            if p < 2 {
                let n = [1000, 4096][p];
                let e = (make_vector_expr(n, |i| gv(0, i)) + make_vector_expr(n, |i| gv(1, i)).conj()).map(fmap);
                let want: Vec<Free> = (0..n).map(|i| fmap(gv(0, i).a(&gv(1, i).cj()))).collect();
                same_dv("eval", &e.eval(), &want)?;
            } else {
                let (r, k) = dims[p - 2];
                let g = |i: usize, j: usize| Free::gen((i * 1000 + j) as u32);
                let e = (make_matrix_expr(r, k, g).h() - make_matrix_expr(k, r, g)).map(fmap);
                same_dm("eval", &e.eval(), &RM::new(k, r, |i, j| fmap(g(j, i).cj().s(&g(i, j)))))?;
            }
            w.ops(1);
            Ok(())
        });
    });
    c.assume("Expressions are generic in their operands; type-erased operands (which only forward to the real ones) stand for all nestings.");
    c.assume("Data independence: entries are reached only through Clone, the operators, Conj, Zero/One and user closures; elements are from a free algebra with uninterpreted conjugation, quotient and functions.");
}

// ---------------------------------------------------------------- D06
fn lazy_m(t: &M) -> Result<u64, String> {
    free_reset_mats();
    take_log();
    let want = model_m(t);
    let e = build_m(t);
    let l = take_log();
    ensure!(l.is_empty(), "building the expression reads {l:?}");
    ensure!((e.num_rows(), e.num_cols()) == (want.r, want.c), "wrong dimensions");
    ensure!(take_log().is_empty(), "asking for the dimensions reads entries");
    let mut all = vec![];
    for i in 0..want.r {
        for j in 0..want.c {
            let x = e.entry(i, j);
            let l = take_log();
            let mut exp = vec![];
            reads_m(t, i, j, &mut exp);
            exp.sort();
            ensure!(l == exp, "entry({i},{j}) reads {l:?} (source, row, col), expected {exp:?}");
            ensure!(x == *want.at(i, j), "entry({i},{j}) = {x:?}");
            all.extend(exp);
        }
    }
    let _ = e.eval();
    let l = take_log();
    all.sort();
    ensure!(l == all, "eval() reads {l:?} (source, row, col), expected {all:?}");
    Ok(2 + want.d.len() as u64)
}
fn lazy_v(t: &V) -> Result<u64, String> {
    free_reset_mats();
    take_log();
    let want = model_v(t);
    let e = build_v(t);
    let l = take_log();
    ensure!(l.is_empty(), "building the expression reads {l:?}");
    ensure!(e.len() == want.len() && take_log().is_empty(), "asking for the length reads entries or is wrong");
    let mut all = vec![];
    for i in 0..want.len() {
        let x = e.entry(i);
        let l = take_log();
        let mut exp = vec![];
        reads_v(t, i, &mut exp);
        exp.sort();
        ensure!(l == exp, "entry({i}) reads {l:?} (source, row, col), expected {exp:?}");
        ensure!(x == want[i], "entry({i}) = {x:?}");
        all.extend(exp);
    }
    let _ = e.eval();
    let l = take_log();
    all.sort();
    ensure!(l == all, "eval() reads {l:?} (source, row, col), expected {all:?}");
    Ok(2 + want.len() as u64)
}

thread_local! { static ARITH: RefCell<u64> = const { RefCell::new(0) }; }
fn tick() {
    ARITH.with(|a| *a.borrow_mut() += 1)
}
fn ticks() -> u64 {
    ARITH.with(|a| *a.borrow())
}
/// Element type that counts arithmetic.
#[derive(Clone, Debug, PartialEq)]
struct Cnt(u64);
impl std::ops::Mul for Cnt {
    type Output = Cnt;
    fn mul(self, r: Cnt) -> Cnt {
        tick();
        Cnt(self.0.wrapping_mul(r.0))
    }
}
impl std::ops::Add for Cnt {
    type Output = Cnt;
    fn add(self, r: Cnt) -> Cnt {
        tick();
        Cnt(self.0.wrapping_add(r.0))
    }
}
impl std::ops::Sub for Cnt {
    type Output = Cnt;
    fn sub(self, r: Cnt) -> Cnt {
        tick();
        Cnt(self.0.wrapping_sub(r.0))
    }
}
impl std::ops::AddAssign for Cnt {
    fn add_assign(&mut self, r: Cnt) {
        tick();
        self.0 = self.0.wrapping_add(r.0)
    }
}

/// Number of reads of every entry of a source.
struct Reads(usize, Vec<Cell<u32>>);
impl Reads {
    fn new(r: usize, k: usize) -> Self {
        Reads(k, vec![Cell::new(0); r * k])
    }
    fn hit(&self, i: usize, j: usize) -> u64 {
        let c = &self.1[i * self.0 + j];
        c.set(c.get() + 1);
        (i * 7 + j) as u64
    }
    fn total(&self) -> u64 {
        self.1.iter().map(|c| c.get() as u64).sum()
    }
    fn clear(&self) {
        self.1.iter().for_each(|c| c.set(0))
    }
}
fn lazy_large_m(r: usize, k: usize) -> Result<u64, String> {
    let (ra, rb, rf) = (Reads::new(r, k), Reads::new(r, k), Cell::new(0u64));
    let (a, b) = (|| make_matrix_expr(r, k, |i, j| Cnt(ra.hit(i, j))), || make_matrix_expr(r, k, |i, j| Cnt(rb.hit(i, j))));
    let f = |x: Cnt| {
        rf.set(rf.get() + 1);
        Cnt(x.0 + 1)
    };
    let mut ops = 0;
    // $s: reads of each source per entry, $t: transposed, $c: arithmetic per entry, $f: calls of the mapped function per entry
    macro_rules! chk { ($($e:expr, ($sa:expr, $sb:expr), $t:expr, $c:expr, $f:expr);* $(;)?) => { $( {
        ra.clear();
        rb.clear();
        rf.set(0);
        let t0 = ticks();
        let e = $e;
        let (er, ek) = (e.num_rows(), e.num_cols());
        ensure!((er, ek) == if $t { (k, r) } else { (r, k) }, concat!(stringify!($e), " is {}x{}"), er, ek);
        ensure!(ra.total() + rb.total() + rf.get() + ticks() - t0 == 0, concat!("building ", stringify!($e), " or asking for its dimensions reads entries or computes"));
        for (i, j) in [(0, 0), (er - 1, ek - 1), (er / 2, ek / 3), (er - 1, 0), (0, ek - 1)] {
            ra.clear();
            rb.clear();
            rf.set(0);
            let t0 = ticks();
            let _ = e.entry(i, j);
            let at = if $t { j * k + i } else { i * k + j };
            ensure!(ra.1[at].get() == $sa && ra.total() == $sa && rb.1[at].get() == $sb && rb.total() == $sb, concat!(stringify!($e), " ({}x{}): entry({},{}) reads {} and {} entries"), er, ek, i, j, ra.total(), rb.total());
            ensure!(ticks() - t0 == $c && rf.get() == $f, concat!(stringify!($e), " ({}x{}): entry({},{}) performs {} operations and {} calls"), er, ek, i, j, ticks() - t0, rf.get());
        }
        ra.clear();
        rb.clear();
        rf.set(0);
        let t0 = ticks();
        let _ = e.eval();
        ensure!(ra.1.iter().all(|c| c.get() == $sa) && rb.1.iter().all(|c| c.get() == $sb), concat!("evaluating ", stringify!($e), " ({}x{}) reads {} and {} entries, not all of them equally often"), er, ek, ra.total(), rb.total());
        let n = (r * k) as u64;
        ensure!(ticks() - t0 == $c * n && rf.get() == $f * n, concat!("evaluating ", stringify!($e), " ({}x{}) performs {} operations and {} calls"), er, ek, ticks() - t0, rf.get());
        ops += 7;
    } )* } }
    chk! {
        a(), (1, 0), false, 0, 0;
        a() + b(), (1, 1), false, 1, 0;
        a() - b(), (1, 1), false, 1, 0;
        a().mul_elemwise(b()), (1, 1), false, 1, 0;
        a().zip(b()).map(|(p, q): (Cnt, Cnt)| Cnt(p.0 + q.0)), (1, 1), false, 0, 0;
        a().map(f), (1, 0), false, 0, 1;
        a().t(), (1, 0), true, 0, 0;
        a().map(f).t().t(), (1, 0), false, 0, 1;
        (a() + b()).t().map(f), (1, 1), true, 1, 1;
        a().t().zip(b().t()).map(|(p, q): (Cnt, Cnt)| Cnt(p.0 ^ q.0)), (1, 1), true, 0, 0;
    }
    // the diagonal
    ra.clear();
    rb.clear();
    let d = (a() + b()).diag();
    ensure!(d.len() == r.min(k) && ra.total() + rb.total() == 0, "building the diagonal of a {r}x{k} sum reads entries");
    let _ = d.eval();
    for (n, (x, y)) in ra.1.iter().zip(&rb.1).enumerate() {
        let on = (n / k == n % k) as u32;
        ensure!(x.get() == on && y.get() == on, "evaluating the diagonal of a {r}x{k} sum reads entry ({},{}) {} times", n / k, n % k, x.get());
    }
    Ok(ops + 2)
}
fn lazy_large_v(n: usize) -> Result<u64, String> {
    let (ra, rb, rf) = (Reads::new(n, 1), Reads::new(n, 1), Cell::new(0u64));
    let (a, b) = (|| make_vector_expr(n, |i| Cnt(ra.hit(i, 0))), || make_vector_expr(n, |i| Cnt(rb.hit(i, 0))));
    let f = |x: Cnt| {
        rf.set(rf.get() + 1);
        Cnt(x.0 + 1)
    };
    let mut ops = 0;
    macro_rules! chk { ($($e:expr, ($sa:expr, $sb:expr), $c:expr, $f:expr);* $(;)?) => { $( {
        ra.clear();
        rb.clear();
        rf.set(0);
        let t0 = ticks();
        let e = $e;
        ensure!(e.len() == n, concat!(stringify!($e), " has length {}"), e.len());
        ensure!(ra.total() + rb.total() + rf.get() + ticks() - t0 == 0, concat!("building ", stringify!($e), " or asking for its length reads entries or computes"));
        for i in [0, n / 2, n - 1] {
            ra.clear();
            rb.clear();
            rf.set(0);
            let t0 = ticks();
            let _ = e.entry(i);
            ensure!(ra.1[i].get() == $sa && ra.total() == $sa && rb.1[i].get() == $sb && rb.total() == $sb && ticks() - t0 == $c && rf.get() == $f, concat!(stringify!($e), " (length {}): entry({}) reads {} and {} entries, {} operations, {} calls"), n, i, ra.total(), rb.total(), ticks() - t0, rf.get());
        }
        ra.clear();
        rb.clear();
        rf.set(0);
        let t0 = ticks();
        let _ = e.eval();
        let m = n as u64;
        ensure!(ra.1.iter().all(|c| c.get() == $sa) && rb.1.iter().all(|c| c.get() == $sb) && ticks() - t0 == $c * m && rf.get() == $f * m, concat!("evaluating ", stringify!($e), " (length {}) reads {} and {} entries, {} operations, {} calls"), n, ra.total(), rb.total(), ticks() - t0, rf.get());
        ops += 5;
    } )* } }
    chk! {
        a(), (1, 0), 0, 0;
        a() + b(), (1, 1), 1, 0;
        a() - b(), (1, 1), 1, 0;
        a().mul_elemwise(b()), (1, 1), 1, 0;
        a().zip(b()).map(|(p, q): (Cnt, Cnt)| Cnt(p.0 + q.0)), (1, 1), 0, 0;
        a().map(f), (1, 0), 0, 1;
        a().map(f).map(f) + b(), (1, 1), 1, 2;
    }
    Ok(ops)
}

thread_local! { static COPIES: RefCell<Vec<u32>> = const { RefCell::new(vec![]) }; }
/// Element type that records which elements of the sources (number + 1; 0 for results) are cloned.
#[derive(Debug, PartialEq)]
struct Seen(u32);
impl Clone for Seen {
    fn clone(&self) -> Seen {
        if self.0 > 0 {
            COPIES.with(|c| c.borrow_mut().push(self.0 - 1));
        }
        Seen(0)
    }
}
macro_rules! seen_op { ($($t:ident $f:ident),*) => { $( impl std::ops::$t for Seen {
    type Output = Seen;
    fn $f(self, _: Seen) -> Seen { Seen(0) }
} )* } }
seen_op!(Add add, Sub sub, Mul mul, Div div);
impl std::ops::AddAssign for Seen {
    fn add_assign(&mut self, _: Seen) {}
}
impl From<i8> for Seen {
    fn from(_: i8) -> Seen {
        Seen(0)
    }
}
impl magnesia::algebra::Conj for Seen {
    fn conj(self) -> Seen {
        Seen(0)
    }
}
fn copies() -> Vec<u32> {
    let mut v = COPIES.with(|c| std::mem::take(&mut *c.borrow_mut()));
    v.sort();
    v
}
/// Stored containers as sources: which elements are cloned when an expression is built, read and evaluated.
fn lazy_stored(r: usize, k: usize) -> Result<u64, String> {
    let n = r * k;
    // elements of the sources: p: 0.., q: n.., s (transposed shape): 2 n .., vectors u, v of length n: 3 n .., 4 n ..
    let stored = |r: usize, k: usize, base: usize| {
        let mut m = make_matrix_expr(r, k, |_, _| Seen(0)).eval();
        for i in 0..r {
            for j in 0..k {
                m[[i, j]] = Seen((base + i * k + j + 1) as u32);
            }
        }
        m
    };
    let (p, q, s) = (stored(r, k, 0), stored(r, k, n), stored(k, r, 2 * n));
    let list = |base: usize| (0..n).map(|i| Seen((base + i + 1) as u32)).collect::<Vec<_>>();
    let (us, vs) = (list(3 * n), list(4 * n));
    let mut u = make_vector_expr(n, |_| Seen(0)).eval();
    for i in 0..n {
        u[i] = Seen((3 * n + i + 1) as u32);
    }
    copies();
    let mut ops = 0;
    let at = |base: usize, k: usize| move |i: usize, j: usize| (base + i * k + j) as u32;
    let (pa, qa, sa) = (at(0, k), at(n, k), at(2 * n, r));
    macro_rules! chk { ($($e:expr, $rr:expr, $cc:expr, $want:expr);* $(;)?) => { $( {
        copies();
        let e = $e;
        let dims = (e.num_rows(), e.num_cols());
        ensure!(dims == ($rr, $cc), concat!(stringify!($e), " is {:?}"), dims);
        let c = copies();
        ensure!(c.is_empty(), concat!("building ", stringify!($e), " or asking for its dimensions ({:?}) clones {} elements of the sources"), dims, c.len());
        let want = $want;
        let mut all: Vec<u32> = vec![];
        for i in 0..$rr {
            for j in 0..$cc {
                let _ = e.entry(i, j);
                let (c, mut w): (Vec<u32>, Vec<u32>) = (copies(), want(i, j));
                w.sort();
                let mut d = c.clone();
                d.dedup();
                ensure!(d == w && c.len() <= 2 * w.len(), concat!(stringify!($e), " {:?}: entry({},{}) clones the elements {:?}, it depends on {:?}"), dims, i, j, c, w);
                all.extend(w);
                ops += 1;
            }
        }
        let _ = e.eval();
        let c = copies();
        all.sort();
        let count = |x: &[u32]| {
            let mut m: HashMap<u32, usize> = HashMap::new();
            x.iter().for_each(|v| *m.entry(*v).or_default() += 1);
            m
        };
        let (m, a) = (count(&c), count(&all));
        for (v, t) in &m {
            ensure!(*t <= 2 * a.get(v).copied().unwrap_or(0), concat!("evaluating ", stringify!($e), " {:?} clones element {} {} times"), dims, v, t);
        }
        ensure!(a.keys().all(|v| m.contains_key(v)), concat!("evaluating ", stringify!($e), " {:?} does not read all its entries"), dims);
        ops += 2;
    } )* } }
    chk! {
        &p + &q, r, k, |i, j| vec![pa(i, j), qa(i, j)];
        &p - &q, r, k, |i, j| vec![pa(i, j), qa(i, j)];
        (&p).wrap().mul_elemwise(&q), r, k, |i, j| vec![pa(i, j), qa(i, j)];
        (&p).wrap().div_elemwise(&q), r, k, |i, j| vec![pa(i, j), qa(i, j)];
        p.mul_elemwise(&q), r, k, |i, j| vec![pa(i, j), qa(i, j)];
        p.div_elemwise(&q), r, k, |i, j| vec![pa(i, j), qa(i, j)];
        (&p).wrap().zip(&q).map(|(a, b)| a + b), r, k, |i, j| vec![pa(i, j), qa(i, j)];
        (&p).wrap().map(|a| a), r, k, |i, j| vec![pa(i, j)];
        p.t(), k, r, |i, j| vec![pa(j, i)];
        p.h(), k, r, |i, j| vec![pa(j, i)];
        (&p).wrap().t(), k, r, |i, j| vec![pa(j, i)];
        (&p).wrap().h(), k, r, |i, j| vec![pa(j, i)];
        p.t() + &s, k, r, |i, j| vec![pa(j, i), sa(i, j)];
        (&s).wrap() - p.h(), k, r, |i, j| vec![pa(j, i), sa(i, j)];
        (&p + &q).t().map(|a| a), k, r, |i, j| vec![pa(j, i), qa(j, i)];
    }
    if n <= 40 {
        let on = |base: usize| move |i: usize, j: usize| if i == j { vec![(base + i) as u32] } else { vec![] };
        chk! {
            u.diag(), n, n, on(3 * n);
            (&vs[..]).wrap().diag(), n, n, on(4 * n);
            u.conj().diag().t(), n, n, on(3 * n);
        }
    }
    let want_product = |i: usize, j: usize| (0..k).flat_map(|x| [pa(i, x), sa(x, j)]).collect::<Vec<u32>>();
    if k > 0 {
        chk! {
            &p * &s, r, r, |i, j| want_product(i, j);
            (&p * &s).wrap().t(), r, r, |i, j| want_product(j, i);
        }
    }
    copies();
    // vectors and diagonals
    let (ua, va) = (|i: usize| (3 * n + i) as u32, |i: usize| (4 * n + i) as u32);
    macro_rules! chv { ($($e:expr, $len:expr, $want:expr);* $(;)?) => { $( {
        copies();
        let e = $e;
        ensure!(e.len() == $len, concat!(stringify!($e), " has length {}"), e.len());
        let c = copies();
        ensure!(c.is_empty(), concat!("building ", stringify!($e), " or asking for its length ({}) clones {} elements of the sources"), $len, c.len());
        let want = $want;
        let mut all: Vec<u32> = vec![];
        for i in 0..$len {
            let _ = e.entry(i);
            let (c, mut w): (Vec<u32>, Vec<u32>) = (copies(), want(i));
            w.sort();
            let mut d = c.clone();
            d.dedup();
            ensure!(d == w && c.len() <= 2 * w.len(), concat!(stringify!($e), " of length {}: entry({}) clones the elements {:?}, it depends on {:?}"), $len, i, c, w);
            all.extend(w);
            ops += 1;
        }
        let _ = e.eval();
        let c = copies();
        let mut d = c.clone();
        d.dedup();
        all.sort();
        ensure!(d == all && c.len() <= 2 * all.len(), concat!("evaluating ", stringify!($e), " of length {} clones {} elements, it has {}"), $len, c.len(), all.len());
        ops += 2;
    } )* } }
    let m = r.min(k);
    chv! {
        p.diag(), m, |i| vec![pa(i, i)];
        (&p).wrap().diag(), m, |i| vec![pa(i, i)];
        (&p + &q).diag(), m, |i| vec![pa(i, i), qa(i, i)];
        &u + &vs[..], n, |i| vec![ua(i), va(i)];
        &u - &vs[..], n, |i| vec![ua(i), va(i)];
        (&u).wrap().mul_elemwise(&vs[..]), n, |i| vec![ua(i), va(i)];
        (&us[..]).wrap().div_elemwise(&vs[..]), n, |i| vec![ua(i), va(i)];
        u.mul_elemwise(&vs[..]), n, |i| vec![ua(i), va(i)];
        u.div_elemwise(&vs[..]), n, |i| vec![ua(i), va(i)];
        (&u).wrap().zip(&vs[..]).map(|(a, b)| a + b), n, |i| vec![ua(i), va(i)];
        u.conj(), n, |i| vec![ua(i)];
        (&vs[..]).wrap().conj(), n, |i| vec![va(i)];
        (&vs[..]).wrap().map(|a| a), n, |i| vec![va(i)];
    }
    if n <= 130 {
        let d = || (&vs[..]).wrap().diag();
        copies();
        let (d, e) = (d(), u.conj());
        let e = e.diag();
        let c = copies();
        ensure!(c.is_empty() && d.num_rows() == n && e.num_cols() == n, "building a diagonal matrix clones {} elements", c.len());
    }
    Ok(ops)
}

fn d06(c: &mut Check) {
    let g = || Gen { kinds: vec![Kind::Fn, Kind::Fn], consts: true, prod: false, ev: false };
    let h = || Gen { kinds: vec![Kind::Fn, Kind::Fn], consts: false, prod: false, ev: false };
    all_trees(c, "", &g, &h, lazy_m, lazy_v);
    c.suite("product-and-container-expressions", "matrix products, sums, differences and element-wise products of stored matrices, shapes 0..=4: no arithmetic while building, at most the needed arithmetic per entry", 125, |w, p| {
        let (r, k, q) = (p / 25, p / 5 % 5, p % 5);
        w.case(|| format!("{r}x{k} * {k}x{q}"), |w| {
            w.distinct(1);
            w.ops(4);
            let a = make_matrix_expr(r, k, |i, j| Cnt((i * 7 + j) as u64)).eval();
            let b = make_matrix_expr(k, q, |i, j| Cnt((i * 5 + j) as u64)).eval();
            let t0 = ticks();
            let e = &a * &b;
            ensure!(ticks() == t0, "building the product performs {} operations", ticks() - t0);
            let _ = (e.num_rows(), e.num_cols());
            let e = e.wrap();
            ensure!(ticks() == t0, "wrapping the product performs arithmetic");
            if k > 0 {
                for i in 0..r {
                    for j in 0..q {
                        let t = ticks();
                        let _ = e.entry(i, j);
                        ensure!(ticks() - t <= 2 * k as u64, "reading one entry performs {} operations for inner dimension {k}", ticks() - t);
                    }
                }
                let e = e.t();
                let t = ticks();
                let m = e.map(|x| x);
                ensure!(ticks() == t, "transposing or mapping the product performs arithmetic");
                let _ = m.eval();
                ensure!(ticks() - t <= 2 * (r * k * q) as u64, "evaluation performs {} operations", ticks() - t);
            }
            let a2 = a.clone();
            let t = ticks();
            let s = &a + &a2;
            let d = s - &a2;
            let m = a2.mul_elemwise(d);
            ensure!(ticks() == t, "building sum, difference, element-wise product performs arithmetic");
            let _ = m.eval();
            ensure!(ticks() - t == 3 * (r * k) as u64, "evaluating a .* ((a + b) - b) performs {} operations for {} entries", ticks() - t, r * k);
            Ok(())
        });
    });
    let (large, all, longest) = large_shapes(c);
    c.suite("large", &format!("every operation on function-generated expressions: {} shapes, long sides up to {longest} with short sides 1..=5, all of 6..={all} x 6..={all}, and larger ones: nothing is read while building, one entry reads its sources once, evaluation reads every entry once", large.len()), large.len(), |w, p| {
        let (r, k) = large[large.len() - 1 - p];
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            let n = lazy_large_m(r, k)? + if k == 1 { lazy_large_v(r)? } else { 0 };
            w.ops(n);
            Ok(())
        });
    });
    let side = c.by_tier(6usize, 12);
    let mut stored: Vec<(usize, usize)> = (0..=side).flat_map(|r| (0..=side).map(move |k| (r, k))).collect();
    stored.extend([(1, 16), (16, 1), (1, 33), (33, 1), (2, 17), (17, 2), (9, 8), (3, 64), (64, 3), (1, 129), (129, 1), (20, 20), (257, 2), (2, 257), (33, 31)]);
    c.suite("stored-sources", &format!("{} shapes (all up to {side} x {side}): expressions over stored matrices, vectors and slices; which elements are cloned when they are built, read and evaluated", stored.len()), stored.len(), |w, p| {
        let (r, k) = stored[stored.len() - 1 - p];
        w.case(|| format!("{r}x{k}"), |w| {
            w.distinct(1);
            let n = lazy_stored(r, k)?;
            w.ops(n);
            Ok(())
        });
    });
    c.assume("Sources are function-generated expressions whose closures record every call; the closures are pure otherwise.");
}

fn main() {
    main_for(&[("D01", d01), ("D06", d06)])
}
