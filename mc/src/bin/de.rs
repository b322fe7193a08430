//! O01-O04: differential evolution. The real optimiser runs with symbolic numbers (linear forms over the initial
//! draws), a random generator whose every answer is a choice of the explorer, and a comparison closure whose every
//! answer is one too. The tree of choices is explored exhaustively; every execution is monitored.
use magnesia::optimize::differential_evolution;
use mc::engine::*;
use mc::ensure;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::{Error, Rng, RngCore};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::ops::{Add, Mul, Sub};
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------ symbolic numbers
const K: usize = 36;
/// k + sum c_i s_i over the initial draws s_i; constants also have a position on the number line.
#[derive(Clone, Copy)]
struct T {
    c: [i64; K],
    k: i64,
    ord: f64,
    /// the value of the form at a point of Z/2^64, for quick comparisons
    h: u64,
}
impl T {
    fn cst(k: i64, ord: f64) -> T {
        T { c: [0; K], k, ord, h: k as u64 }
    }
    fn is_const(&self) -> bool {
        self.c.iter().all(|x| *x == 0)
    }
    /// The index, if this is a single initial draw.
    fn symbol(&self) -> Option<usize> {
        let mut it = self.c.iter().enumerate().filter(|x| *x.1 != 0);
        match (it.next(), it.next(), self.k) {
            (Some((i, 1)), None, 0) => Some(i),
            _ => None,
        }
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.h == o.h && self.c == o.c && self.k == o.k
    }
}
impl PartialOrd for T {
    fn partial_cmp(&self, o: &T) -> Option<Ordering> {
        self.ord.partial_cmp(&o.ord)
    }
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut first = true;
        for (i, x) in self.c.iter().enumerate().filter(|x| *x.1 != 0) {
            write!(f, "{}{}s{i}", if *x < 0 { "-" } else if first { "" } else { "+" }, if x.abs() == 1 { String::new() } else { format!("{}*", x.abs()) })?;
            first = false;
        }
        if self.k != 0 || first {
            write!(f, "{}{}", if first || self.k < 0 { "" } else { "+" }, self.k)?;
        }
        Ok(())
    }
}
fn zip(a: T, b: T, f: impl Fn(i64, i64) -> Option<i64>, ord: f64, h: u64) -> T {
    let g = |x, y| f(x, y).expect("coefficient overflow");
    T { c: std::array::from_fn(|i| g(a.c[i], b.c[i])), k: g(a.k, b.k), ord, h }
}
impl Add for T {
    type Output = T;
    fn add(self, o: T) -> T {
        zip(self, o, i64::checked_add, self.ord + o.ord, self.h.wrapping_add(o.h))
    }
}
impl Sub for T {
    type Output = T;
    fn sub(self, o: T) -> T {
        zip(self, o, i64::checked_sub, self.ord - o.ord, self.h.wrapping_sub(o.h))
    }
}
impl Mul for T {
    type Output = T;
    fn mul(self, o: T) -> T {
        let (a, b) = if o.is_const() { (self, o) } else { (o, self) };
        if !b.is_const() {
            panic!("element: product of two candidate values")
        }
        zip(a, a, |x, _| x.checked_mul(b.k), a.ord * b.ord, a.h.wrapping_mul(b.h))
    }
}
impl From<i8> for T {
    fn from(x: i8) -> T {
        T::cst(x as i64, x as f64)
    }
}
impl From<f32> for T {
    fn from(x: f32) -> T {
        if x.fract() != 0.0 {
            panic!("element: fractional constant {x}")
        }
        T::cst(x as i64, x as f64)
    }
}
struct Sym {
    lo: T,
    hi: T,
}
impl UniformSampler for Sym {
    type X = T;
    fn new<A: SampleBorrow<T>, B: SampleBorrow<T>>(lo: A, hi: B) -> Sym {
        let (lo, hi) = (*lo.borrow(), *hi.borrow());
        if !(lo < hi) {
            panic!("element: empty sampling range {lo:?}..{hi:?}")
        }
        Sym { lo, hi }
    }
    fn new_inclusive<A: SampleBorrow<T>, B: SampleBorrow<T>>(lo: A, hi: B) -> Sym {
        Sym::new(lo, hi)
    }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T {
        let expect = with(|c| {
            c.token = Some(0x5eed_0000 + c.symbols.len() as u64);
            c.token.unwrap()
        });
        if rng.next_u64() != expect {
            panic!("element: an initial value was drawn from another random generator")
        }
        with(|c| {
            c.token = None;
            let i = c.symbols.len();
            if i >= K {
                panic!("element: more initial draws than population size times dimension")
            }
            c.symbols.push((self.lo.k, self.hi.k));
            let mut t = T::cst(0, f64::NAN);
            t.c[i] = 1;
            t.h = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * i as u64 + 1).rotate_left(29).wrapping_mul(0x94d0_49bb_1331_11eb);
            t
        })
    }
}
impl SampleUniform for T {
    type Sampler = Sym;
}

// ------------------------------------------------------------------------------------------------ oracles
#[derive(Clone, PartialEq, Debug)]
enum Answers {
    /// every answer is a choice
    Any,
    /// bit t of the number answers comparison t
    Bits(u64),
    /// a strict weak order of the candidates, chosen when a candidate shows up for the first time
    WeakOrder,
    Const(bool),
}
#[derive(Default)]
struct Ctx {
    /// (chosen, number of options)
    choices: Vec<(u32, u32)>,
    pos: usize,
    part: Vec<u32>,
    part_bad: bool,
    menu64: Vec<u64>,
    menu32: Vec<u32>,
    /// branching random draws before each comparison
    budget: Vec<u32>,
    used: u32,
    over: bool,
    fair: usize,
    /// draws since the last comparison
    since: u64,
    /// whether the draws of this trial have been used up
    tail: bool,
    /// 32-bit draws (crossover) of each trial that branch without using up the budget
    free32: u32,
    used32: u32,
    draws: Vec<(bool, u64)>,
    token: Option<u64>,
    symbols: Vec<(i64, i64)>,
    answers: Option<Answers>,
    log: Vec<(Vec<T>, Vec<T>, bool)>,
    known: Vec<Vec<T>>,
    order: Vec<Vec<usize>>,
}
thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
impl Ctx {
    fn choose(&mut self, n: u32) -> u32 {
        if n == 1 {
            return 0;
        }
        let p = self.pos;
        self.pos += 1;
        if p < self.choices.len() {
            debug_assert!(self.choices[p].0 < n);
            return self.choices[p].0.min(n - 1);
        }
        let mut d = 0;
        if p < self.part.len() {
            d = self.part[p];
            if d >= n {
                self.part_bad = true;
                d = 0;
            }
        }
        self.choices.push((d, n));
        d
    }
    fn draw(&mut self, wide: bool) -> u64 {
        if let Some(t) = self.token.take() {
            return t;
        }
        if self.draws.len() > 20_000 {
            panic!("element: no progress after 20000 random draws of all values in turn")
        }
        let n = if wide { self.menu64.len() } else { self.menu32.len() };
        let b = self.budget.get(self.log.len()).copied().unwrap_or(0);
        self.since += 1;
        if self.since > 3000 {
            // an implementation that needs other values than those of the menu
            self.over = true;
            let mut z = self.since.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^= z >> 31;
            self.draws.push((wide, z));
            return z;
        }
        let i = if !wide && b > 0 && !self.tail && self.used32 < self.free32 {
            self.used32 += 1;
            self.choose(n as u32) as usize
        } else if self.used < b {
            self.used += 1;
            self.choose(n as u32) as usize
        } else {
            self.over = true;
            self.tail = true;
            self.fair += 1;
            self.fair % n
        };
        let v = if wide { self.menu64[i] } else { self.menu32[i] as u64 };
        self.draws.push((wide, v));
        v
    }
    fn answer(&mut self, x: &[T], y: &[T]) -> bool {
        let t = self.log.len();
        let a = self.answers.clone().unwrap();
        let r = match a {
            Answers::Any => self.choose(2) == 1,
            Answers::Bits(b) => t < 64 && b >> t & 1 == 1,
            Answers::Const(b) => b,
            Answers::WeakOrder => {
                let (i, j) = (self.rank(x), self.rank(y));
                i < j
            }
        };
        self.log.push((x.to_vec(), y.to_vec(), r));
        self.used = 0;
        self.since = 0;
        self.tail = false;
        self.used32 = 0;
        if self.log.len() > 5000 {
            panic!("element: more than 5000 comparisons")
        }
        r
    }
    fn class(&self, id: usize) -> usize {
        self.order.iter().position(|c| c.contains(&id)).unwrap()
    }
    fn rank(&mut self, x: &[T]) -> usize {
        let id = match self.known.iter().position(|k| k == x) {
            Some(i) => i,
            None => {
                self.known.push(x.to_vec());
                let id = self.known.len() - 1;
                let c = self.choose(2 * self.order.len() as u32 + 1) as usize;
                if c % 2 == 0 {
                    self.order.insert(c / 2, vec![id])
                } else {
                    self.order[c / 2].push(id)
                }
                id
            }
        };
        // the rank may shift when the other one is inserted; compare by class afterwards
        self.class(id)
    }
}
struct Oracle;
impl RngCore for Oracle {
    fn next_u32(&mut self) -> u32 {
        with(|c| c.draw(false)) as u32
    }
    fn next_u64(&mut self) -> u64 {
        with(|c| c.draw(true))
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for ch in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()])
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

#[derive(Clone, Debug)]
struct Prm {
    pop: usize,
    n: usize,
    cr: f32,
    weight: (i64, f64),
    iters: usize,
    /// budget of branching random draws before each comparison
    budget: Vec<u32>,
    answers: Answers,
    /// start of the fair sequence of draws
    fair: usize,
    /// all multiples of 1/lcm(pop, n), for exact probabilities
    lcm: bool,
    /// bounds of the coordinates as indices of `VALUES`; if empty, different ones for all
    bounds: Vec<(usize, usize)>,
}
impl Prm {
    fn new(pop: usize, n: usize, iters: usize) -> Prm {
        Prm { pop, n, cr: 0.5, weight: GENERIC, iters, budget: vec![], answers: Answers::Any, fair: 0, lcm: false, bounds: vec![] }
    }
}
const GENERIC: (i64, f64) = (1009, 0.7);
const SMALL: (i64, f64) = (3, 1.3);

struct Exec {
    result: Result<Vec<T>, String>,
    log: Vec<(Vec<T>, Vec<T>, bool)>,
    symbols: Vec<(i64, i64)>,
    draws: Vec<(bool, u64)>,
    over: bool,
    order: Vec<Vec<usize>>,
    known: Vec<Vec<T>>,
}
/// Values for bounds.
const VALUES: [f64; 6] = [-3.0, -1.0, 0.0, 1.0, 2.0, 7.0];
fn bound(p: &Prm, n: usize) -> (T, T) {
    if !p.bounds.is_empty() {
        let at = |i: usize| T::cst(100 * i as i64 + 57, VALUES[i]);
        return (at(p.bounds[n].0), at(p.bounds[n].1));
    }
    (T::cst(10 * n as i64 + 5, 10.0 * n as f64), T::cst(10 * n as i64 + 8, 10.0 * n as f64 + 1.0))
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn menus(p: &Prm) -> (Vec<u64>, Vec<u32>) {
    let at = |k: usize, r: usize| ((k as u128 * (1u128 << 64) / r as u128) as u64).wrapping_add(1000);
    let mut m: Vec<u64> = vec![];
    if p.lcm {
        let l = p.pop * p.n / gcd(p.pop, p.n);
        m.extend((0..l).map(|k| at(k, l)));
    } else {
        m.extend((0..p.pop).map(|k| at(k, p.pop)));
        for r in 0..p.n {
            let v = at(r, p.n);
            if !m.contains(&v) {
                m.push(v)
            }
        }
        // keep only values that add an outcome: 2^64 r / n may select an index that is there already, and vice versa
    }
    let m32 = if p.lcm {
        // equally likely parts of the unit interval
        match p.cr {
            0.0 => vec![0],
            1.0 => vec![u32::MAX],
            0.5 => vec![0, 1 << 31],
            _ => (0..4u32).map(|k| k << 30).collect(),
        }
    } else {
        // zero, the crossover probability itself (where representable), the value below, the largest value
        let mut v = vec![0u32, u32::MAX];
        if p.cr > 0.0 && p.cr < 1.0 {
            let b = (p.cr as f64 * 16777216.0).ceil() as u32;
            v.push(b << 8);
            v.push((b - 1) << 8);
        }
        v.sort();
        v.dedup();
        v
    };
    (m, m32)
}
fn call<const N: usize>(p: &Prm) -> Vec<T> {
    let bounds: [(T, T); N] = std::array::from_fn(|n| bound(p, n));
    let w = T::cst(p.weight.0, p.weight.1);
    differential_evolution(&bounds, p.pop, p.cr, w, p.iters, &mut Oracle, |x: &[T; N], y: &[T; N]| with(|c| {
        // rank both before comparing: inserting one may shift the other
        if c.answers == Some(Answers::WeakOrder) {
            c.rank(x);
            c.rank(y);
        }
        c.answer(x, y)
    }))
    .to_vec()
}
/// One execution with the given choices (extended by default ones, which are returned).
fn exec(p: &Prm, choices: &mut Vec<(u32, u32)>, part: &[u32]) -> (Exec, bool, usize) {
    let (menu64, menu32) = menus(p);
    with(|c| {
        *c = Ctx { choices: std::mem::take(choices), part: part.to_vec(), menu64, menu32, budget: p.budget.clone(), fair: p.fair, free32: if p.lcm { p.n as u32 } else { 0 }, answers: Some(p.answers.clone()), ..Ctx::default() }
    });
    let result = lib(|| match p.n {
        1 => call::<1>(p),
        2 => call::<2>(p),
        3 => call::<3>(p),
        4 => call::<4>(p),
        5 => call::<5>(p),
        6 => call::<6>(p),
        7 => call::<7>(p),
        8 => call::<8>(p),
        _ => unreachable!(),
    });
    with(|c| {
        let c = std::mem::take(c);
        *choices = c.choices;
        (Exec { result, log: c.log, symbols: c.symbols, draws: c.draws, over: c.over, order: c.order, known: c.known }, c.part_bad, c.pos)
    })
}
/// Explores the whole tree of choices below the part's first choices.
fn explore(w: &mut Worker, p: &Prm, part: &[u32], mut check: impl FnMut(&mut Worker, &Exec, f64) -> Result<(), String>) {
    let mut choices = vec![];
    loop {
        if w.stopped() {
            return;
        }
        let (e, bad, used) = exec(p, &mut choices, part);
        choices.truncate(used);
        if bad || part.iter().skip(choices.len()).any(|d| *d != 0) {
            return; // not a branch of this tree
        }
        let weight: f64 = choices.iter().map(|c| 1.0 / c.1 as f64).product();
        let script: Vec<u32> = choices.iter().map(|c| c.0).collect();
        w.step(|| format!("{p:?}, choices {script:?}"), |w| {
            w.ops(e.log.len() as u64);
            w.state(&(p.pop, p.n, p.iters, p.cr.to_bits(), p.weight.0, p.fair, &script));
            check(w, &e, weight)
        });
        // next leaf in depth-first order
        loop {
            if choices.len() <= part.len() {
                return;
            }
            let (d, n) = choices.pop().unwrap();
            if d + 1 < n {
                choices.push((d + 1, n));
                break;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ monitors
/// The initial population, as shown by a run without iterations with the same draws.
fn initial(p: &Prm) -> Result<Vec<Vec<T>>, String> {
    let q = Prm { iters: 0, answers: Answers::Const(false), budget: vec![], lcm: false, ..p.clone() };
    let (e, _, _) = exec(&q, &mut vec![], &[]);
    let r = e.result?;
    let mut pop: Vec<Vec<T>> = vec![];
    for v in e.log.iter().flat_map(|l| [&l.0, &l.1]) {
        if !pop.contains(v) {
            pop.push(v.clone())
        }
    }
    ensure!(pop.contains(&r), "without iterations the result {r:?} is none of the initial candidates that were compared, {pop:?}");
    ensure!(pop.len() == p.pop, "{} different initial candidates take part in the final comparisons, not {}: {pop:?}", pop.len(), p.pop);
    Ok(pop)
}
fn check_initial(p: &Prm, pop: &[Vec<T>], symbols: &[(i64, i64)]) -> Result<(), String> {
    let mut used = vec![];
    for v in pop {
        for (n, x) in v.iter().enumerate() {
            let Some(s) = x.symbol() else { return Err(format!("coordinate {n} of the initial candidate {v:?} is not a draw")) };
            ensure!(!used.contains(&s), "the draw s{s} is used twice: {pop:?}");
            used.push(s);
            let b = bound(p, n);
            ensure!(symbols.get(s) == Some(&(b.0.k, b.1.k)), "coordinate {n} of the initial candidate {v:?} was not drawn from the bounds of coordinate {n} but from {:?}", symbols.get(s));
        }
    }
    ensure!(p.pop == pop.len(), "population size");
    Ok(())
}
/// The population model: replays the trials of the log.
struct Model {
    pop: Vec<Vec<T>>,
    turns: Vec<usize>,
}
impl Model {
    fn new(init: &[Vec<T>]) -> Model {
        Model { pop: init.to_vec(), turns: vec![0; init.len()] }
    }
    /// The slot whose turn this comparison may be.
    fn slot(&self, t: usize, l: &(Vec<T>, Vec<T>, bool)) -> Result<usize, String> {
        (0..self.pop.len()).filter(|i| self.pop[*i] == l.1).min_by_key(|i| self.turns[*i]).ok_or_else(|| format!("comparison {t} of {:?} against {:?}: the latter is no current member of the population {:?}", l.0, l.1, self.pop))
    }
    fn apply(&mut self, slot: usize, l: &(Vec<T>, Vec<T>, bool)) {
        self.turns[slot] += 1;
        if l.2 {
            self.pop[slot] = l.0.clone()
        }
    }
}
/// All ways to explain a trial vector: (a, b, c, mutated coordinates as bits).
fn explanations(p: &Prm, pop: &[Vec<T>], i: usize, x: &[T]) -> Vec<(usize, usize, usize, u32)> {
    let w = T::cst(p.weight.0, p.weight.1);
    let mut v = vec![];
    for a in 0..pop.len() {
        for b in 0..pop.len() {
            for c in 0..pop.len() {
                if [a, b, c].contains(&i) || a == b || a == c || b == c {
                    continue;
                }
                // coordinates that must / may come from the mutant
                let (mut must, mut may) = (0u32, 0u32);
                let mut ok = true;
                for n in 0..p.n {
                    // the full comparison only if the quick one succeeds
                    let h = pop[a][n].h.wrapping_add(pop[b][n].h.wrapping_sub(pop[c][n].h).wrapping_mul(w.h));
                    if h == x[n].h && pop[a][n] + (pop[b][n] - pop[c][n]) * w == x[n] {
                        may |= 1 << n;
                        if x[n] != pop[i][n] {
                            must |= 1 << n
                        }
                    } else if x[n] != pop[i][n] {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    for m in 1..1u32 << p.n {
                        if m & must == must && m & !may == 0 {
                            v.push((a, b, c, m))
                        }
                    }
                }
            }
        }
    }
    v
}
fn check_trials(p: &Prm, e: &Exec, init: &[Vec<T>], focus: usize) -> Result<Vec<(usize, usize, usize, usize, u32)>, String> {
    let mut m = Model::new(init);
    let mut out = vec![];
    ensure!(e.log.len() >= p.iters, "only {} comparisons", e.log.len());
    for t in 0..p.iters {
        let l = &e.log[t];
        let i = m.slot(t, l)?;
        if t >= focus {
            let full = (1u32 << p.n) - 1;
            let ex = explanations(p, &m.pop, i, &l.0);
            ensure!(!ex.is_empty(), "trial {t} is {:?}, which is not made of the incumbent {:?} and a + {:?} * (b - c) for three different other members of {:?}", l.0, l.1, p.weight, m.pop);
            let ex: Vec<_> = ex.into_iter().filter(|x| if p.cr == 1.0 { x.3 == full } else if p.cr == 0.0 { x.3.count_ones() == 1 } else { true }).collect();
            ensure!(!ex.is_empty(), "trial {t} is {:?} for incumbent {:?}: wrong number of coordinates from the mutant for crossover probability {}", l.0, l.1, p.cr);
            if t == focus {
                out = ex.into_iter().map(|x| (i, x.0, x.1, x.2, x.3)).collect();
            }
        }
        m.apply(i, l);
    }
    Ok(out)
}
/// Comparison counts, turns, replacement, final stage.
fn check_selection(p: &Prm, e: &Exec, init: &[Vec<T>]) -> Result<(), String> {
    let mut m = Model::new(init);
    ensure!(e.log.len() == p.iters + p.pop - 1, "{} comparisons, expected {} trials and {} final ones", e.log.len(), p.iters, p.pop - 1);
    for t in 0..p.iters {
        let i = m.slot(t, &e.log[t])?;
        m.apply(i, &e.log[t]);
    }
    let (lo, hi) = (m.turns.iter().min().unwrap(), m.turns.iter().max().unwrap());
    ensure!(hi - lo <= 1, "the members of the population had {:?} turns", m.turns);
    let fin = &e.log[p.iters..];
    for l in fin {
        for v in [&l.0, &l.1] {
            ensure!(m.pop.contains(v), "final comparison of {:?} with {:?}: {v:?} is no member of the final population {:?}", l.0, l.1, m.pop);
        }
    }
    for v in &m.pop {
        ensure!(fin.iter().any(|l| l.0 == *v || l.1 == *v), "{v:?} of the final population {:?} is in no final comparison", m.pop);
    }
    let r = e.result.as_ref().map_err(|m| m.clone())?;
    ensure!(m.pop.contains(r), "the result {r:?} is no member of the final population {:?}", m.pop);
    Ok(())
}
fn check_best(p: &Prm, e: &Exec, init: &[Vec<T>]) -> Result<(), String> {
    let r = e.result.as_ref().map_err(|m| m.clone())?;
    let trials = e.log.iter().take(p.iters).map(|l| &l.0);
    ensure!(init.contains(r) || trials.into_iter().any(|t| t == r), "the result {r:?} is neither an initial candidate nor a trial vector");
    let class = |v: &Vec<T>| e.known.iter().position(|k| k == v).map(|id| e.order.iter().position(|c| c.contains(&id)).unwrap());
    let Some(c) = class(r) else { return Err(format!("the result {r:?} has never been compared")) };
    ensure!(c == 0, "the result {r:?} is worse than {:?}", e.known[e.order[0][0]]);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ choices in large populations
mod picks {
    use super::*;
    use std::cell::Cell;
    use std::rc::Rc;
    /// Sum of at most four initial values with integer coefficients, or a constant.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct L {
        n: usize,
        t: [(u32, i32); 4],
        k: i32,
    }
    impl L {
        fn cst(k: i32) -> L {
            L { n: 0, t: [(0, 0); 4], k }
        }
        fn plus(mut self, o: L, sign: i32) -> L {
            for &(id, c) in &o.t[..o.n] {
                match self.t[..self.n].iter().position(|x| x.0 == id) {
                    Some(p) => {
                        self.t[p].1 += sign * c;
                        if self.t[p].1 == 0 {
                            self.n -= 1;
                            self.t[p] = self.t[self.n];
                            self.t[self.n] = (0, 0);
                        }
                    }
                    None => {
                        if self.n == 4 {
                            panic!("element: sum of more than four values")
                        }
                        self.t[self.n] = (id, sign * c);
                        self.n += 1;
                    }
                }
            }
            self.k += sign * o.k;
            self
        }
        /// The number of the initial draw, if this is one.
        fn id(&self) -> Option<u32> {
            (self.n == 1 && self.k == 0 && self.t[0].1 == 1).then_some(self.t[0].0)
        }
    }
    impl PartialOrd for L {
        fn partial_cmp(&self, o: &L) -> Option<Ordering> {
            (self.n == 0 && o.n == 0).then(|| self.k.cmp(&o.k))
        }
    }
    impl Add for L {
        type Output = L;
        fn add(self, o: L) -> L {
            self.plus(o, 1)
        }
    }
    impl Sub for L {
        type Output = L;
        fn sub(self, o: L) -> L {
            self.plus(o, -1)
        }
    }
    impl Mul for L {
        type Output = L;
        fn mul(self, o: L) -> L {
            let (mut a, k) = if o.n == 0 { (self, o.k) } else { (o, self.k) };
            if self.n > 0 && o.n > 0 {
                panic!("element: product of two candidate values")
            }
            a.k *= k;
            for x in &mut a.t[..a.n] {
                x.1 *= k
            }
            if k == 0 { L::cst(0) } else { a }
        }
    }
    impl From<i8> for L {
        fn from(x: i8) -> L {
            L::cst(x as i32)
        }
    }
    impl From<f32> for L {
        fn from(x: f32) -> L {
            if x.fract() != 0.0 {
                panic!("element: fractional constant {x}")
            }
            L::cst(x as i32)
        }
    }
    thread_local! {
        static NAMING: Cell<bool> = const { Cell::new(false) };
        /// bounds of the initial draws
        static RANGES: std::cell::RefCell<Vec<(i32, i32)>> = const { std::cell::RefCell::new(vec![]) };
    }
    pub struct Us(i32, i32);
    impl UniformSampler for Us {
        type X = L;
        fn new<A: SampleBorrow<L>, B: SampleBorrow<L>>(lo: A, hi: B) -> Us {
            Us(lo.borrow().k, hi.borrow().k)
        }
        fn new_inclusive<A: SampleBorrow<L>, B: SampleBorrow<L>>(lo: A, hi: B) -> Us {
            Us(lo.borrow().k, hi.borrow().k)
        }
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> L {
            NAMING.with(|n| n.set(true));
            let id = rng.next_u64();
            if NAMING.with(|n| n.replace(false)) {
                panic!("element: an initial value was drawn from another random generator")
            }
            RANGES.with_borrow_mut(|r| {
                r.resize(r.len().max(id as usize + 1), (0, 0));
                r[id as usize] = (self.0, self.1);
            });
            L { n: 1, t: [(id as u32, 1), (0, 0), (0, 0), (0, 0)], k: 0 }
        }
    }
    impl SampleUniform for L {
        type Sampler = Us;
    }
    /// The numbers 0, 1, ... for the initial values; apart from them, for every trial, the next point of a lattice whose
    /// coordinates are all equidistributed, or (`seed`) a pseudo-random sequence.
    struct Words {
        names: u64,
        i: u64,
        trial: Rc<Cell<u64>>,
        last: u64,
        d: u64,
        seed: Option<u64>,
        stuck: u32,
    }
    impl RngCore for Words {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            if NAMING.with(|n| n.replace(false)) {
                self.names += 1;
                return self.names - 1;
            }
            self.i += 1;
            let t = self.trial.get();
            if t != self.last {
                (self.last, self.d, self.stuck) = (t, 0, 0);
            }
            self.d += 1;
            self.stuck += 1;
            if self.stuck > 1_000_000 {
                panic!("element: no progress")
            }
            let mix = |x: u64| {
                let z = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                let z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                z ^ (z >> 31)
            };
            match self.seed {
                Some(s) => mix(self.i ^ s << 40),
                // multiples of independent irrational numbers
                None => (t.wrapping_add(1)).wrapping_mul(mix(self.d) | 1).wrapping_add(mix(self.d + 1000)),
            }
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for ch in b.chunks_mut(8) {
                let v = self.next_u64().to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()])
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(b);
            Ok(())
        }
    }
    /// A table of frequencies of values below n, in at most `b` blocks, leaving out the value 0 if `skip`.
    struct Freq {
        name: &'static str,
        n: u64,
        b: u64,
        skip: bool,
        hits: Vec<u64>,
    }
    impl Freq {
        fn new(name: &'static str, n: usize, b: usize, skip: bool) -> Freq {
            Freq { name, n: n as u64, b: b.min(n) as u64, skip, hits: vec![0; b.min(n)] }
        }
        fn block(&self, v: u64) -> usize {
            (v * self.b / self.n) as usize
        }
        fn hit(&mut self, v: u64) {
            let b = self.block(v);
            self.hits[b] += 1;
        }
        fn off(&self) -> Option<String> {
            let mut size = vec![0u64; self.b as usize];
            for v in self.skip as u64..self.n {
                size[self.block(v)] += 1;
            }
            let (all, total) = (self.hits.iter().sum::<u64>() as f64, (self.n - self.skip as u64) as f64);
            (0..self.hits.len()).find_map(|i| {
                let want = all * size[i] as f64 / total;
                ((self.hits[i] as f64 - want).abs() > 6.5 * want.sqrt() + 4.0).then(|| format!("{} falls into part {i} of {} parts {} times, not about {want:.1} times", self.name, self.b, self.hits[i]))
            })
        }
    }
    /// Frequencies of pairs.
    struct Freq2 {
        name: &'static str,
        nx: u64,
        ny: u64,
        bx: u64,
        by: u64,
        /// the values lie in 1.. and are different
        apart: bool,
        hits: Vec<u64>,
    }
    impl Freq2 {
        fn new(name: &'static str, nx: usize, ny: usize, apart: bool) -> Freq2 {
            let (bx, by) = (nx.min(12), ny.min(12));
            Freq2 { name, nx: nx as u64, ny: ny as u64, bx: bx as u64, by: by as u64, apart, hits: vec![0; bx * by] }
        }
        fn hit(&mut self, x: u64, y: u64) {
            self.hits[(x * self.bx / self.nx * self.by + y * self.by / self.ny) as usize] += 1;
        }
        fn off(&self) -> Option<String> {
            let size = |n: u64, b: u64| {
                let mut s = vec![0u64; b as usize];
                for v in self.apart as u64..n {
                    s[(v * b / n) as usize] += 1;
                }
                s
            };
            let (sx, sy) = (size(self.nx, self.bx), size(self.ny, self.by));
            let cell = |i: usize| {
                let (x, y) = (i / self.by as usize, i % self.by as usize);
                sx[x] * sy[y] - if self.apart && x == y { sx[x] } else { 0 }
            };
            let total: u64 = (0..self.hits.len()).map(cell).sum();
            let all = self.hits.iter().sum::<u64>() as f64;
            (0..self.hits.len()).find_map(|i| {
                let want = all * cell(i) as f64 / total as f64;
                ((self.hits[i] as f64 - want).abs() > 6.5 * want.sqrt() + 4.0).then(|| format!("{} fall into cell ({}, {}) of {} x {} {} times, not about {want:.1} times", self.name, i as u64 / self.by, i as u64 % self.by, self.bx, self.by, self.hits[i]))
            })
        }
    }
    /// All trials are rejected. Wrong trials are errors; suspicious frequencies are returned.
    fn trials<const N: usize>(pop: usize, cr: f32, iters: usize, seed: Option<u64>) -> Result<Option<String>, String> {
        let trial = Rc::new(Cell::new(0u64));
        let words = |seed| Words { names: 0, i: 0, trial: trial.clone(), last: u64::MAX, d: 0, seed, stuck: 0 };
        // neighbouring coordinates share one of their bounds
        let range = |n: usize| (-((n / 2) as i32) - 1, n.div_ceil(2) as i32 + 1);
        let bounds: [(L, L); N] = std::array::from_fn(|n| (L::cst(range(n).0), L::cst(range(n).1)));
        // the members, in the order in which they are made: all of them take part in the final stage
        let mut ids: Vec<[L; N]> = vec![];
        let mut first = words(seed);
        lib(|| {
            differential_evolution(&bounds, pop, cr, L::cst(1), 0, &mut first, |x: &[L; N], y: &[L; N]| {
                ids.extend([*x, *y]);
                false
            })
        })?;
        ensure!(ids.iter().all(|v| v.iter().all(|x| x.id().is_some())), "population {pop}, dimension {N}: a candidate of the final stage has another value than the drawn ones");
        ids.sort_by_key(|v| v.iter().map(|x| x.id().unwrap()).min());
        ids.dedup();
        ensure!(ids.len() == pop && first.names == (pop * N) as u64, "{} candidates in the final stage, population {pop}; {} initial draws, dimension {N}", ids.len(), first.names);
        // member and coordinate of every draw
        let mut home = vec![(usize::MAX, 0usize); pop * N];
        for (m, v) in ids.iter().enumerate() {
            for (n, x) in v.iter().enumerate() {
                let id = x.id().unwrap() as usize;
                home[id] = (m, n);
                let drawn = RANGES.with_borrow(|r| r[id]);
                ensure!(drawn == range(n), "population {pop}, dimension {N}: coordinate {n} of an initial candidate is drawn from {drawn:?}, not from {:?}", range(n));
            }
        }
        ensure!(home.iter().all(|h| h.0 < pop), "an initial draw of population {pop}, dimension {N} is in no candidate");
        let mut rng = words(seed);
        let mut err: Option<String> = None;
        let mut one = [Freq::new("the member a", pop, 64, false), Freq::new("the member b", pop, 64, false), Freq::new("the member c", pop, 64, false),
            Freq::new("a minus incumbent", pop, 64, true), Freq::new("b minus incumbent", pop, 64, true), Freq::new("c minus incumbent", pop, 64, true),
            Freq::new("b minus a", pop, 64, true), Freq::new("c minus b", pop, 64, true), Freq::new("a minus c", pop, 64, true)];
        let mut two = [Freq2::new("a and b", pop, pop, true), Freq2::new("b and c", pop, pop, true), Freq2::new("a and c", pop, pop, true)];
        let mut coord = Freq::new("the only mutated coordinate", N, N.max(1), false);
        let mut coords = [Freq2::new("a and the coordinate", pop, N, false), Freq2::new("c and the coordinate", pop, N, false)];
        let mut seen = vec![[0u32; 3]; pop];
        let mut extra = 0u64;
        let mut count = 0usize;
        let r = lib(|| {
            differential_evolution(&bounds, pop, cr, L::cst(1), iters, &mut rng, |x: &[L; N], y: &[L; N]| {
                count += 1;
                if count > iters || err.is_some() {
                    return false;
                }
                trial.set(count as u64);
                let mut bad = |m: String| err = Some(format!("trial {count} of population {pop}, dimension {N}: {m}"));
                let Some(inc) = y[0].id().and_then(|s| home.get(s as usize)).map(|h| h.0) else { bad(format!("the incumbent starts with {:?}, no initial value", y[0])); return false };
                let mut abc: Option<[usize; 3]> = None;
                let (mut mutated, mut at) = (0, 0);
                for n in 0..N {
                    if y[n] != ids[inc][n] {
                        bad(format!("coordinate {n} of the incumbent is {:?}, coordinate 0 belongs to member {inc}", y[n]));
                        return false;
                    }
                    if x[n] == y[n] {
                        continue;
                    }
                    mutated += 1;
                    at = n;
                    // a + b - c; every initial value is named by member and coordinate
                    let t = &x[n].t[..x[n].n];
                    let neg: Vec<u32> = t.iter().filter(|q| q.1 == -1).map(|q| q.0).collect();
                    let pos: Vec<u32> = t.iter().filter(|q| q.1 == 1).map(|q| q.0).collect();
                    if x[n].k != 0 || neg.len() != 1 || pos.len() != 2 || t.len() != 3 || t.iter().any(|q| home.get(q.0 as usize).is_none_or(|h| h.1 != n)) {
                        bad(format!("coordinate {n} of the trial is {:?}, not a + b - c of three members", x[n]));
                        return false;
                    }
                    let m = [pos[0], pos[1], neg[0]].map(|q| home[q as usize].0);
                    if m.contains(&inc) {
                        bad(format!("coordinate {n} of the trial of member {inc} is made of the members {m:?}"));
                        return false;
                    }
                    if abc.is_some_and(|o| o != m && o != [m[1], m[0], m[2]]) {
                        bad(format!("coordinate {n} of the trial uses the members {m:?}, another {abc:?}"));
                        return false;
                    }
                    abc.get_or_insert(m);
                }
                let Some([a, b, c]) = abc else { bad("no coordinate is mutated".into()); return false };
                if cr == 0.0 && mutated > 1 || cr == 1.0 && mutated < N {
                    bad(format!("{mutated} coordinates are mutated with crossover probability {cr}"));
                    return false;
                }
                extra += mutated as u64 - 1;
                for (k, v) in [a, b, c].into_iter().enumerate() {
                    one[k].hit(v as u64);
                    one[3 + k].hit(((v + pop - inc) % pop) as u64);
                    seen[v][k] += 1;
                }
                for (k, (p, q)) in [(b, a), (c, b), (a, c)].into_iter().enumerate() {
                    one[6 + k].hit(((p + pop - q) % pop) as u64);
                }
                let rel = |v: usize| ((v + pop - inc) % pop) as u64;
                two[0].hit(rel(a), rel(b));
                two[1].hit(rel(b), rel(c));
                two[2].hit(rel(a), rel(c));
                if mutated == 1 {
                    coord.hit(at as u64);
                    coords[0].hit(a as u64, at as u64);
                    coords[1].hit(c as u64, at as u64);
                }
                false
            })
        });
        r?;
        if let Some(m) = err {
            return Err(m);
        }
        for f in &one {
            if let Some(m) = f.off() {
                return Ok(Some(m));
            }
        }
        for f in &two {
            if let Some(m) = f.off() {
                return Ok(Some(m));
            }
        }
        if cr == 0.0 {
            if let Some(m) = coord.off() {
                return Ok(Some(m));
            }
            for f in &coords {
                if let Some(m) = f.off() {
                    return Ok(Some(m));
                }
            }
        }
        let want = iters as f64 * (N as f64 - 1.0) * cr as f64;
        // coordinates of one trial are independent of each other
        let sigma = (want * (1.0 - cr as f64)).sqrt();
        if (extra as f64 - want).abs() > 6.5 * sigma + 4.0 {
            return Ok(Some(format!("{extra} coordinates besides the forced ones are mutated, not about {want:.1}")));
        }
        for k in 0..3 {
            let none = seen.iter().filter(|s| s[k] == 0).count() as f64;
            let want = pop as f64 * (1.0 - 1.0 / pop as f64).powf(iters as f64);
            if none > want + 6.5 * want.sqrt() + 4.0 {
                let v = seen.iter().position(|s| s[k] == 0).unwrap();
                return Ok(Some(format!("{none} of {pop} members (the first is {v}) are never chosen as {} in {iters} trials", ["a", "b", "c"][k])));
            }
        }
        Ok(None)
    }
    pub fn one<const N: usize>(pop: usize, cr: f32, iters: usize) -> Result<Option<String>, String> {
        let Some(why) = trials::<N>(pop, cr, iters, None)? else { return Ok(None) };
        // another use of the draws may suffer from the lattice; longer pseudo-random runs decide
        match trials::<N>(pop, cr, 4 * iters, Some(1))? {
            Some(m) => Err(format!("{why} (confirmed by a longer pseudo-random run: {m})")),
            None => Ok(Some(why)),
        }
    }
}
// ------------------------------------------------------------------------------------------------ O02
fn parts(p: &Prm, depth: usize) -> Vec<Vec<u32>> {
    let base = menus(p).0.len().max(menus(p).1.len());
    (0..base.pow(depth as u32)).map(|i| digits(i, base, depth).into_iter().map(|d| d as u32).collect()).collect()
}
fn o02(c: &mut Check) {
    let t = !c.quick();
    // every configuration, the random draws of one trial (the focus) explored, later and earlier ones fair
    let mut cfgs: Vec<(Prm, usize)> = vec![];
    for (pop, n) in [(4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (6, 1), (5, 3), (6, 2), (4, 4)].into_iter().take(if t { 9 } else { 7 }) {
        for cr in [0.0f32, 1e-7, 0.3, 0.5, 1.0] {
            for weight in [GENERIC, (0, 0.0), (1, 1.0), (2, 2.0)] {
                for focus in [0, 1, pop - 1, pop, 2 * pop] {
                    if !t && (focus > pop || (weight != GENERIC && focus == 1) || (weight == GENERIC && focus > 0 && n == 3)) {
                        continue;
                    }
                    for ans in [Answers::Const(false), Answers::Const(true), Answers::Bits(0x5a5a_5a5a_5a5a_a5a5)] {
                        let weight = if weight == GENERIC && focus > 1 { SMALL } else { weight };
                        let mut p = Prm { cr, weight, answers: ans, ..Prm::new(pop, n, focus + 1) };
                        p.budget = vec![0; focus];
                        p.budget.push(if n <= 2 && pop == 4 || n == 1 && t { 6 } else { 5 });
                        cfgs.push((p, focus));
                    }
                }
            }
        }
    }
    c.suite("trial", &format!("{} configurations (population, dimension, crossover probability, weight, position of the trial, answers); all values of the first 5 or 6 draws of that trial, all values in turn afterwards", cfgs.len()), cfgs.len(), |w, i| {
        let (p, focus) = &cfgs[i];
        let init = match initial(p) { Ok(x) => x, Err(m) => { w.step(|| format!("{p:?}"), |_| Err::<(), _>(m)); return; } };
        explore(w, p, &[], |w, e, _| {
            if let Err(m) = &e.result {
                return Err(m.clone());
            }
            check_initial(p, &init, &e.symbols)?;
            let ex = check_trials(p, e, &init, *focus)?;
            w.outcome(&(i, ex));
            Ok(())
        });
    });
    // bounds that coincide, adjoin, overlap, include each other
    let pairs: Vec<(usize, usize)> = (0..VALUES.len()).flat_map(|i| (i + 1..VALUES.len()).map(move |j| (i, j))).collect();
    let mut with_bounds: Vec<Prm> = vec![];
    for n in 1..=c.by_tier(3, 4) {
        for i in 0..pairs.len().pow(n as u32) {
            with_bounds.push(Prm { bounds: digits(i, pairs.len(), n).into_iter().map(|d| pairs[d]).collect(), answers: Answers::Const(i % 2 == 0), ..Prm::new(4 + i % 2, n, 0) });
        }
    }
    for n in c.by_tier(4, 5)..=8 {
        // three values only
        for i in 0..3usize.pow(n as u32) {
            with_bounds.push(Prm { bounds: digits(i, 3, n).into_iter().map(|d| [(1, 3), (2, 3), (1, 2)][d]).collect(), answers: Answers::Const(i % 2 == 0), ..Prm::new(4, n, 0) });
        }
    }
    c.suite("bounds", &format!("all {} assignments of bounds to 1 to {} coordinates from six values (negative, zero, positive), and to up to 8 coordinates from three values; where the initial candidates are drawn from, and one turn of trials", with_bounds.len(), c.by_tier(3, 4)), with_bounds.len(), |w, i| {
        for iters in [0, 5] {
            let p = Prm { iters, ..with_bounds[i].clone() };
            w.step(|| format!("{p:?}"), |w| {
                w.distinct(1);
                let init = initial(&p)?;
                let (e, _, _) = exec(&p, &mut vec![], &[]);
                w.ops(e.log.len() as u64);
                e.result.clone()?;
                check_initial(&p, &init, &e.symbols)?;
                check_trials(&p, &e, &init, 0)?;
                Ok(())
            });
        }
    });
    // two and three trials in a row, all draws and answers
    let mut seq: Vec<(Prm, Vec<u32>)> = vec![];
    let mut add = |pop, n, cr: f32, budget: &[u32], weight| {
        let p = Prm { cr, weight, budget: budget.to_vec(), answers: Answers::Any, ..Prm::new(pop, n, budget.len()) };
        for d in parts(&p, 2) {
            seq.push((p.clone(), d));
        }
    };
    // answers to the final comparisons are choices too
    add(4, 1, 0.5, &[4, 4], GENERIC);
    add(4, 2, 0.0, &[4, 3], GENERIC);
    add(4, 2, 1.0, &[3, 4], GENERIC);
    add(5, 1, 1.0, &[3, 4], GENERIC);
    add(4, 1, 1.0, &[2, 3, 3], SMALL);
    if t {
        add(4, 1, 0.5, &[4, 5], GENERIC);
        add(4, 1, 0.5, &[3, 3, 3], SMALL);
        add(4, 2, 0.5, &[3, 5], GENERIC);
        add(5, 2, 0.5, &[4, 4], GENERIC);
        add(4, 1, 0.5, &[3, 2, 2, 2], SMALL);
        add(4, 1, 0.5, &[2, 2, 2, 2, 1], SMALL);
    }
    c.suite("history", "all draws (up to the budget of each trial) and all answers of 2 to 3 (thorough 5) consecutive trials", seq.len(), |w, i| {
        let (p, part) = &seq[i];
        let init = match initial(p) { Ok(x) => x, Err(m) => { w.step(|| format!("{p:?}"), |_| Err::<(), _>(m)); return; } };
        explore(w, p, part, |_, e, _| {
            if let Err(m) = &e.result {
                return Err(m.clone());
            }
            check_initial(p, &init, &e.symbols)?;
            check_trials(p, e, &init, 0)?;
            Ok(())
        });
    });
    // probabilities: every draw from equally likely values, streams that need more draws than the budget left out
    let mut d: Vec<(usize, usize, f32, usize, u32)> = vec![];
    // (population, dimension, crossover probability, position of the trial, budget of draws for indices)
    for (pop, n, budget) in [(4, 1, 8), (4, 2, 8), (5, 1, 7), (4, 4, 7), (8, 2, 5), (4, 3, 5), (4, 2, 9), (4, 4, 8), (5, 1, 8)].into_iter().take(if t { 9 } else { 6 }) {
        for cr in [0.0f32, 0.25, 0.75, 1.0] {
            for focus in [0, pop - 1] {
                if n == 1 && cr != 0.25 || !t && focus > 0 && cr != 0.25 || n == 3 && !t && focus > 0 {
                    continue;
                }
                d.push((pop, n, cr, focus, budget));
            }
        }
    }
    // further dimensions and population sizes
    for (pop, n, cr, budget) in [(6, 2, 0.5f32, 6), (6, 3, 0.5, 6), (4, 5, 0.0, 4), (4, 6, 0.0, 5), (4, 8, 0.0, 6), (4, 8, 0.5, 4), (4, 6, 0.5, 4), (7, 1, 0.25, 6), (9, 1, 0.25, 5), (12, 1, 0.25, 5), (5, 5, 0.0, 6), (6, 6, 0.5, 5), (4, 7, 0.0, 4), (16, 1, 0.25, 5), (4, 8, 0.25, 4), (20, 1, 0.25, 5), (6, 2, 0.5, 7)].into_iter().take(if t { 17 } else { 11 }) {
        d.push((pop, n, cr, 0, budget));
    }
    let d: Vec<(Prm, usize)> = d
        .into_iter()
        .map(|(pop, n, cr, focus, b)| {
            let mut p = Prm { cr, answers: Answers::Const(false), lcm: true, ..Prm::new(pop, n, focus + 1) };
            p.budget = vec![0; focus];
            p.budget.push(b);
            (p, focus)
        })
        .collect();
    c.suite("probabilities", "one trial with equally likely draws: probability of every (a, b, c), of every set of mutated coordinates, exact up to streams with many rejected draws", d.len(), |w, i| {
        let (p, focus) = &d[i];
        let init = match initial(p) { Ok(x) => x, Err(m) => { w.step(|| format!("{p:?}"), |_| Err::<(), _>(m)); return; } };
        let mut triples: BTreeMap<(usize, usize, usize), f64> = BTreeMap::new();
        let mut sets: BTreeMap<u32, f64> = BTreeMap::new();
        let mut both: BTreeMap<(usize, usize, usize, u32), f64> = BTreeMap::new();
        let mut total = 0.0;
        explore(w, p, &[], |_, e, weight| {
            if let Err(m) = &e.result {
                return Err(m.clone());
            }
            // the warm-up trials are fair by design; the focus trial must have stayed within its budget
            let ex = check_trials(p, e, &init, *focus)?;
            if *focus == 0 && e.over || *focus > 0 && over_focus(p, e, *focus) {
                return Ok(());
            }
            ensure!(ex.len() == 1, "ambiguous trial {ex:?}");
            let (_, a, b, c, m) = ex[0];
            *triples.entry((a, b, c)).or_default() += weight;
            *sets.entry(m).or_default() += weight;
            *both.entry((a, b, c, m)).or_default() += weight;
            total += weight;
            Ok(())
        });
        w.step(|| format!("probabilities for {p:?}"), |w| {
            let n3 = (p.pop - 1) * (p.pop - 2) * (p.pop - 3);
            if total < 0.01 {
                // an implementation that needs more draws
                w.cut();
                return Ok(());
            }
            let mut bad = vec![];
            if triples.len() != n3 {
                bad.push(format!("only {} of the {n3} ordered choices of three other members occur", triples.len()));
            }
            for (k, v) in &triples {
                let q = v / total * n3 as f64;
                w.max("deviation of triples", (q - 1.0).abs());
                if (q - 1.0).abs() >= 0.05 {
                    bad.push(format!("members {k:?} are chosen with {q} times the uniform probability"));
                }
            }
            for m in 1..1u32 << p.n {
                let want = set_probability(p, m);
                let got = sets.get(&m).copied().unwrap_or(0.0) / total;
                w.max("deviation of crossover", (got - want).abs());
                if (got - want).abs() >= 0.01 + 0.05 * want || (want == 0.0) != (got == 0.0) {
                    bad.push(format!("mutated coordinates {m:#b} have probability {got}, not {want}"));
                }
            }
            for (k, v) in &triples {
                for m in 1..1u32 << p.n {
                    let want = v * sets.get(&m).copied().unwrap_or(0.0) / total / total;
                    let got = both.get(&(k.0, k.1, k.2, m)).copied().unwrap_or(0.0) / total;
                    w.max("dependence within a trial", (got - want).abs());
                    if (got - want).abs() >= 0.01 / n3 as f64 + 0.05 * want {
                        bad.push(format!("members {k:?} together with mutated coordinates {m:#b} have probability {got}, not {want}"));
                    }
                }
            }
            if !bad.is_empty() {
                // the values drawn are equally likely for an implementation that draws from 0..population and
                // 0..dimension; others are judged by many short runs
                if let Some(m) = frequencies(p, &[*focus])? {
                    return Err(format!("{} (confirmed by many short runs: {m})", bad[0]));
                }
                w.cut();
            }
            Ok(())
        });
    });
    // two trials in a row: independent
    let two: Vec<Prm> = [(4, 2, 0.0f32, 5, 4), (4, 4, 0.0, 4, 4), (4, 1, 0.25, 4, 4), (4, 2, 1.0, 4, 5), (4, 4, 1.0, 4, 4), (4, 2, 0.0, 5, 5), (4, 2, 0.5, 4, 5), (5, 1, 0.25, 4, 5)]
        .into_iter()
        .take(if t { 8 } else { 4 })
        .map(|(pop, n, cr, b0, b1)| Prm { cr, answers: Answers::Const(false), lcm: true, budget: vec![b0, b1], ..Prm::new(pop, n, 2) })
        .collect();
    c.suite("two-trials", "two trials in a row with equally likely draws: the members and coordinates used by the second do not depend on those used by the first", two.len(), |w, i| {
        let p = &two[i];
        let init = match initial(p) { Ok(x) => x, Err(m) => { w.step(|| format!("{p:?}"), |_| Err::<(), _>(m)); return; } };
        type Sig = (usize, usize, usize, u32);
        let mut pairs: BTreeMap<(Sig, Sig), f64> = BTreeMap::new();
        explore(w, p, &[], |_, e, weight| {
            if let Err(m) = &e.result {
                return Err(m.clone());
            }
            if e.over {
                return Ok(());
            }
            let first = Exec { log: e.log[..1].to_vec(), result: e.result.clone(), symbols: vec![], draws: vec![], over: false, order: vec![], known: vec![] };
            let (x, y) = (check_trials(&Prm { iters: 1, ..p.clone() }, &first, &init, 0)?, check_trials(p, e, &init, 1)?);
            ensure!(x.len() == 1 && y.len() == 1, "ambiguous trial {x:?} {y:?}");
            let sig = |t: (usize, usize, usize, usize, u32)| (t.1, t.2, t.3, t.4);
            *pairs.entry((sig(x[0]), sig(y[0]))).or_default() += weight;
            Ok(())
        });
        w.step(|| format!("independence for {p:?}"), |w| {
            let (mut x, mut y, mut total): (BTreeMap<Sig, f64>, BTreeMap<Sig, f64>, f64) = Default::default();
            for ((i, j), v) in &pairs {
                *x.entry(*i).or_default() += v;
                *y.entry(*j).or_default() += v;
                total += v;
            }
            if total < 0.001 {
                w.cut();
                return Ok(());
            }
            let cells = (x.len() * y.len()) as f64;
            for (i, v) in &x {
                for (j, u) in &y {
                    let (got, want) = (pairs.get(&(*i, *j)).copied().unwrap_or(0.0) / total, v * u / total / total);
                    w.max("dependence of trials", (got - want).abs() * cells);
                    if (got - want).abs() > 0.05 * want + 0.01 / cells {
                        match frequencies(p, &[0, 1])? {
                            Some(m) => return Err(format!("trials {i:?} and {j:?} in a row have probability {got}, not {want} (confirmed by many short runs: {m})")),
                            None => {
                                w.cut();
                                return Ok(());
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    });
    // crossover: all values of every single draw of a trial
    let mut sweeps: Vec<(usize, f32, u64, usize)> = vec![];
    for (n, crs) in [(2usize, vec![0.0005f32, 0.1, 0.3, 0.77, 0.999]), (3, vec![0.0005, 0.3, 0.999]), (5, vec![0.0005, 0.3, 0.77]), (9, vec![0.0005, 0.3, 0.77]), (17, vec![0.0005, 0.77]), (33, vec![0.0005, 0.77]), (65, vec![0.0005, 0.77])] {
        for cr in crs {
            for stream in 0..c.by_tier(2, 4) {
                for d in 0..(n + 6).min(c.by_tier(12, 80)) {
                    sweeps.push((n, cr, stream, d));
                }
            }
        }
    }
    sweeps.reverse();
    let confirmed: Mutex<BTreeMap<(usize, u32), Option<String>>> = Mutex::new(BTreeMap::new());
    let bits = c.by_tier(14u32, 16);
    c.suite("crossover-draws", &format!("dimension 2 to 65, crossover probabilities between 0.0005 and 0.999, several streams: all 2^{bits} leading parts of each of the first {} draws of a trial; the share of them that mutates a coordinate", c.by_tier(12, 80)), sweeps.len(), |w, i| {
        let (n, cr, stream, d) = sweeps[i];
        w.case(|| format!("dimension {n}, crossover probability {cr}, stream {stream}, draw {d} of the trial"), |w| {
            let s = match n {
                2 => sweep::one::<2>(cr, stream, d, bits),
                3 => sweep::one::<3>(cr, stream, d, bits),
                5 => sweep::one::<5>(cr, stream, d, bits),
                9 => sweep::one::<9>(cr, stream, d, bits),
                17 => sweep::one::<17>(cr, stream, d, bits),
                33 => sweep::one::<33>(cr, stream, d, bits),
                _ => sweep::one::<65>(cr, stream, d, bits),
            }?;
            w.distinct(1 << bits);
            w.ops(1 << bits);
            let Some(why) = s else { return Ok(()) };
            // the draw may serve another purpose: many short runs decide
            let mut known = confirmed.lock().unwrap();
            let k = (n, cr.to_bits());
            if !known.contains_key(&k) {
                let r = match n {
                    2 => sweep::confirm::<2>(cr),
                    3 => sweep::confirm::<3>(cr),
                    5 => sweep::confirm::<5>(cr),
                    9 => sweep::confirm::<9>(cr),
                    17 => sweep::confirm::<17>(cr),
                    33 => sweep::confirm::<33>(cr),
                    _ => sweep::confirm::<65>(cr),
                }?;
                known.insert(k, r);
            }
            match &known[&k] {
                Some(m) => Err(format!("{why} (confirmed by many short runs: {m})")),
                None => {
                    w.outcome(&why.split(':').next());
                    Ok(())
                }
            }
        });
    });
    // many members, many coordinates
    let full = c.by_tier(300_000usize, 5_000_000);
    let mut many: Vec<(usize, usize, f32)> = vec![];
    for pop in [4usize, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537, 70_001, 200_000] {
        many.push((pop, 1, 0.5));
        if pop < 20_000 {
            many.push((pop, 2, 0.3));
        }
    }
    for n in [3usize, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300] {
        for pop in [4, 7, 40] {
            for cr in [0.0f32, 0.3, 1.0] {
                many.push((pop, n, cr));
            }
        }
    }
    many.sort_by_key(|x| x.0 * x.1 + if x.1 > 2 { 1 << 20 } else { 0 });
    many.reverse();
    c.suite("many-members-and-coordinates", &format!("population 4 to 200000, dimension 1 to 300: up to {full} rejected trials over an equidistributed lattice of draws (every leading part of every draw): every trial is a + b - c in the mutated coordinates, the same three other members; frequencies of members, differences, pairs, coordinates"), many.len(), |w, i| {
        let (pop, n, cr) = many[i];
        let long = full > 1_000_000;
        let iters = if pop > 2000 && !long { 30_000 } else { (full / n.max(3) * 3).max(if long { 100_000 } else { 12_000 }).max(4 * pop) };
        w.case(|| format!("population {pop}, dimension {n}, crossover probability {cr}"), |w| {
            macro_rules! by { ($($k:literal)*) => { match n { $($k => picks::one::<$k>(pop, cr, iters),)* _ => unreachable!() } } }
            let s = by!(1 2 3 7 8 9 16 17 31 32 33 64 65 100 128 129 255 256 257 300)?;
            w.distinct(iters as u64);
            w.ops(iters as u64);
            if let Some(why) = s {
                w.outcome(&why.split(" falls ").next());
            }
            Ok(())
        });
    });
    // concrete numbers, real samplers
    let ext: Vec<u64> = vec![0, u64::MAX, 1 << 63, u64::MAX / 3, u64::MAX / 7 * 5, 0x0123_4567_89ab_cdef];
    let seeds = c.by_tier(300usize, 20000);
    let ext = &ext;
    c.suite("floats", &format!("f32 and f64: initial candidates within the bounds and trials equal to a + weight (b - c) up to rounding, for {seeds} periodic streams built from extreme raw values"), seeds, |w, s| {
        w.case(|| format!("stream {s}"), |w| {
            for (pop, iters) in [(4, 9), (5, 12), (7, 16)] {
                floats::<f32, 3>(w, s, ext, pop, iters, 0.5, 0.8, |x| x as f64, |x| x as f32, f32::EPSILON as f64)?;
                floats::<f64, 2>(w, s, ext, pop, iters, 0.9, 1.7, |x| x, |x| x, f64::EPSILON)?;
            }
            w.distinct(6);
            Ok(())
        });
    });
    long_runs(c, generic::TRIALS);
    c.assume("Random streams: every raw draw takes a value from a menu that selects every index (or every side of the crossover probability) after rand's own mapping; after the branching budget all values follow in turn.");
}
/// The forced coordinate, then each other one with probability cr.
fn set_probability(p: &Prm, m: u32) -> f64 {
    let (k, cr) = (m.count_ones() as i32, p.cr as f64);
    k as f64 / p.n as f64 * cr.powi(k - 1) * (1.0 - cr).powi(p.n as i32 - k)
}
/// The given trials of many short runs that reject all trials; says what deviates from what is wanted, if anything
/// does. With two trials, also whether they depend on each other.
fn frequencies(p: &Prm, focus: &[usize]) -> Result<Option<String>, String> {
    let n3 = (p.pop - 1) * (p.pop - 2) * (p.pop - 3);
    let runs = (100 * n3).max(50_000);
    let iters = focus.iter().max().unwrap() + 1;
    // incumbent -> count; (incumbent, a, b, c) -> count; mutated coordinates -> count
    let mut joint: BTreeMap<Vec<generic::Trial>, u32> = BTreeMap::new();
    for k in 0..runs as u64 {
        let stream = 2 + 6 * k;
        let t = match p.n {
            1 => generic::trials::<1>(p, iters, stream, focus),
            2 => generic::trials::<2>(p, iters, stream, focus),
            3 => generic::trials::<3>(p, iters, stream, focus),
            4 => generic::trials::<4>(p, iters, stream, focus),
            5 => generic::trials::<5>(p, iters, stream, focus),
            6 => generic::trials::<6>(p, iters, stream, focus),
            7 => generic::trials::<7>(p, iters, stream, focus),
            8 => generic::trials::<8>(p, iters, stream, focus),
            _ => unreachable!(),
        }?;
        *joint.entry(t).or_default() += 1;
    }
    let off = |got: u32, want: f64| (got as f64 - want).abs() > 6.0 * want.sqrt() + 3.0 || want == 0.0 && got > 0;
    let one = |f: usize| {
        let mut m: BTreeMap<generic::Trial, u32> = BTreeMap::new();
        for (k, v) in &joint {
            *m.entry(k[f]).or_default() += v;
        }
        m
    };
    for f in 0..focus.len() {
        let mut incumbents: BTreeMap<usize, u32> = BTreeMap::new();
        let mut triples: BTreeMap<(usize, usize, usize, usize), u32> = BTreeMap::new();
        let mut sets: BTreeMap<u32, u32> = BTreeMap::new();
        let mut both: BTreeMap<(usize, usize, usize, usize, u32), u32> = BTreeMap::new();
        for ((i, abc, m), v) in one(f) {
            let Some((a, b, c)) = abc else { return Err(format!("trial {} mutates no coordinate or uses no three members", focus[f])) };
            *incumbents.entry(i).or_default() += v;
            *triples.entry((i, a, b, c)).or_default() += v;
            *sets.entry(m).or_default() += v;
            *both.entry((i, a, b, c, m)).or_default() += v;
        }
        for (&i, &total) in &incumbents {
            for a in 0..p.pop {
                for b in 0..p.pop {
                    for c in 0..p.pop {
                        if a == b || a == c || b == c || [a, b, c].contains(&i) {
                            continue;
                        }
                        let (got, want) = (triples.get(&(i, a, b, c)).copied().unwrap_or(0), total as f64 / n3 as f64);
                        if off(got, want) {
                            return Ok(Some(format!("trial {}: members {:?} {got} times, not about {want}", focus[f], (a, b, c))));
                        }
                        for m in 1..1u32 << p.n {
                            let (got, want) = (both.get(&(i, a, b, c, m)).copied().unwrap_or(0), want * set_probability(p, m));
                            if off(got, want) {
                                return Ok(Some(format!("trial {}: members {:?} together with mutated coordinates {m:#b} {got} times, not about {want}", focus[f], (a, b, c))));
                            }
                        }
                    }
                }
            }
        }
        for m in 1..1u32 << p.n {
            let (got, want) = (sets.get(&m).copied().unwrap_or(0), runs as f64 * set_probability(p, m));
            if off(got, want) {
                return Ok(Some(format!("trial {}: mutated coordinates {m:#b} {got} times, not about {want}", focus[f])));
            }
        }
    }
    if focus.len() == 2 {
        let (x, y) = (one(0), one(1));
        for (i, v) in &x {
            for (j, u) in &y {
                let (got, want) = (joint.get(&vec![*i, *j]).copied().unwrap_or(0), *v as f64 * *u as f64 / runs as f64);
                if off(got, want) {
                    return Ok(Some(format!("trials {i:?} and {j:?} in a row {got} times, not about {want}")));
                }
            }
        }
    }
    Ok(None)
}
/// One trial with one of its draws taking all values.
mod sweep {
    use super::*;
    struct Raw {
        x: u64,
        i: usize,
        at: usize,
        v: u64,
    }
    impl RngCore for Raw {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            if self.i > 10_000_000 {
                panic!("element: no progress")
            }
            self.x = self.x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let z = (self.x ^ (self.x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            self.i += 1;
            if self.i - 1 == self.at {
                return self.v;
            }
            z ^ (z >> 31)
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for ch in b.chunks_mut(8) {
                let v = self.next_u64().to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()])
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(b);
            Ok(())
        }
    }
    /// The trial and its incumbent.
    fn trial<const N: usize>(cr: f32, rng: &mut Raw) -> Result<([f64; N], [f64; N]), String> {
        let mut first = None;
        lib(|| {
            differential_evolution(&[(-1.0f64, 1.0); N], 4, cr, 0.7, 1, rng, |x: &[f64; N], y: &[f64; N]| {
                first.get_or_insert((*x, *y));
                false
            })
        })?;
        first.ok_or("no comparison".into())
    }
    pub fn one<const N: usize>(cr: f32, stream: u64, d: usize, bits: u32) -> Result<Option<String>, String> {
        let seed = stream.wrapping_mul(0x1234_5678_9abc_def1) + N as u64;
        // the draws of the initial population come first
        let mut r = Raw { x: seed, i: 0, at: usize::MAX, v: 0 };
        lib(|| differential_evolution(&[(-1.0f64, 1.0); N], 4, cr, 0.7, 0, &mut r, |_: &[f64; N], _: &[f64; N]| false))?;
        let base = r.i;
        let mut count = [0u32; N];
        let mut value = [0u64; N];
        let mut same = true;
        let mut incumbent: Option<[u64; N]> = None;
        let mut sets: BTreeMap<[bool; N], u32> = BTreeMap::new();
        for v in 0..1u64 << bits {
            // the middle of the part
            let v = (v << (64 - bits)) | 1 << (63 - bits);
            let (x, y) = trial::<N>(cr, &mut Raw { x: seed, i: 0, at: base + d, v })?;
            same &= *incumbent.get_or_insert(y.map(f64::to_bits)) == y.map(f64::to_bits);
            let set: [bool; N] = std::array::from_fn(|n| x[n] != y[n]);
            for n in 0..N {
                if set[n] {
                    let b = x[n].to_bits();
                    same &= count[n] == 0 || value[n] == b;
                    value[n] = b;
                    count[n] += 1;
                }
            }
            *sets.entry(set).or_default() += 1;
            if !same {
                // chooses members
                return Ok(None);
            }
        }
        let total = (1u64 << bits) as f64;
        let varies: Vec<usize> = (0..N).filter(|n| count[*n] > 0 && (count[*n] as f64) < total).collect();
        for &n in &varies {
            let f = count[n] as f64 / total;
            if (f - cr as f64).abs() > 1.5 / total + 1e-3 * (cr as f64).min(1.0 - cr as f64) {
                return Ok(Some(format!("a share of {f} of the values mutates coordinate {n}")));
            }
            for &m in varies.iter().filter(|m| **m < n) {
                let both: u32 = sets.iter().filter(|(s, _)| s[n] && s[m]).map(|x| *x.1).sum();
                let (got, want) = (both as f64 / total, f * count[m] as f64 / total);
                if (got - want).abs() > 4.0 / total + 0.02 * want {
                    return Ok(Some(format!("coordinates {m} and {n} depend on each other: a share of {got} of the values mutates both")));
                }
            }
        }
        Ok(None)
    }
    /// Mutated coordinates of the first trials of many short runs.
    pub fn confirm<const N: usize>(cr: f32) -> Result<Option<String>, String> {
        let runs = if N > 20 { 60_000u64 } else { 200_000 };
        let mut single = [0u32; N];
        let mut pairs = vec![[0u32; N]; N];
        let mut extra = 0u32;
        for k in 0..runs {
            let (x, y) = trial::<N>(cr, &mut Raw { x: k.wrapping_mul(0x517c_c1b7_2722_0a95), i: 0, at: usize::MAX, v: 0 })?;
            let m: Vec<usize> = (0..N).filter(|n| x[*n] != y[*n]).collect();
            extra += m.len() as u32 - 1;
            for &a in &m {
                single[a] += 1;
                for &b in m.iter().filter(|b| **b < a) {
                    pairs[a][b] += 1;
                }
            }
        }
        let (n, p, runs) = (N as f64, cr as f64, runs as f64);
        let off = |got: u32, want: f64, variance: f64| (got as f64 - want).abs() > 6.5 * variance.sqrt() + 4.0;
        let want = runs * (n - 1.0) * p;
        if off(extra, want, want * (1.0 - p)) {
            return Ok(Some(format!("{extra} coordinates besides the forced ones are mutated, not about {want}")));
        }
        let one = 1.0 / n + (1.0 - 1.0 / n) * p;
        let two = 2.0 / n * p + (1.0 - 2.0 / n) * p * p;
        for a in 0..N {
            if off(single[a], runs * one, runs * one * (1.0 - one)) {
                return Ok(Some(format!("coordinate {a} is mutated {} times, not about {}", single[a], runs * one)));
            }
            for b in 0..a {
                if off(pairs[a][b], runs * two, runs * two * (1.0 - two)) {
                    return Ok(Some(format!("coordinates {b} and {a} are mutated together {} times, not about {}", pairs[a][b], runs * two)));
                }
            }
        }
        Ok(None)
    }
}
/// Whether the focus trial consumed more draws than its budget (the warm-up trials all do).
fn over_focus(p: &Prm, e: &Exec, focus: usize) -> bool {
    // count the draws of the run without the focus trial
    let q = Prm { iters: focus, ..p.clone() };
    let (f, _, _) = exec(&q, &mut vec![], &[]);
    let wide = |e: &Exec| e.draws.iter().filter(|d| d.0).count();
    wide(e) - wide(&f) > p.budget[focus] as usize
}
struct Stream<'a> {
    s: usize,
    i: usize,
    ext: &'a [u64],
    g: u64,
}
impl RngCore for Stream<'_> {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        // a word over the extreme values, interleaved with an equidistributed sequence so that the run ends
        let n = self.ext.len();
        let d = self.s / n.pow((self.i % 4) as u32) % n;
        self.i += 1;
        if self.i % 2 == 0 || self.s % 7 == 0 && self.i < 40 && self.i > 4000 {
            self.g = self.g.wrapping_add(0x9e37_79b9_7f4a_7c15);
            return self.g;
        }
        self.ext[d]
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for ch in b.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()])
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
fn floats<F, const N: usize>(w: &mut Worker, s: usize, ext: &[u64], pop: usize, iters: usize, cr: f32, weight: f64, to: fn(F) -> f64, of: fn(f64) -> F, eps: f64) -> Result<(), String>
where
    F: PartialOrd + Copy + Add<Output = F> + Sub<Output = F> + Mul<Output = F> + SampleUniform,
    f32: Into<F>,
    i8: Into<F>,
{
    let base = [(-5.0, 5.0), (1.0, 1.0 + 2.0 * f32::EPSILON as f64), (-1e30, -1e-30)];
    let bounds: [(F, F); N] = std::array::from_fn(|n| (of(base[(n + s) % 3].0), of(base[(n + s) % 3].1)));
    let run = |iters: usize| {
        let mut log: Vec<([F; N], [F; N], bool)> = vec![];
        let r = differential_evolution(&bounds, pop, cr, of(weight), iters, &mut Stream { s, i: 0, ext, g: s as u64 }, |x: &[F; N], y: &[F; N]| {
            let a = (s + log.len() * 5) % 3 == 0;
            log.push((*x, *y, a));
            a
        });
        (r, log)
    };
    let (_, log0) = run(0);
    let eq = |a: &[F; N], b: &[F; N]| (0..N).all(|n| to(a[n]) == to(b[n]));
    let mut members: Vec<[F; N]> = vec![];
    for v in log0.iter().flat_map(|l| [l.0, l.1]) {
        for n in 0..N {
            ensure!(v[n] >= bounds[n].0 && v[n] < bounds[n].1, "initial coordinate {:e} outside of {:e}..{:e}", to(v[n]), to(bounds[n].0), to(bounds[n].1));
        }
        if !members.iter().any(|m| eq(m, &v)) {
            members.push(v)
        }
    }
    if members.len() != pop {
        return Ok(()); // equal draws: the slots cannot be told apart
    }
    let (r, log) = run(iters);
    w.ops(log.len() as u64);
    ensure!(log.len() == iters + pop - 1, "{} comparisons", log.len());
    for l in &log[..iters] {
        let Some(i) = members.iter().position(|m| eq(m, &l.1)) else { return Err("a trial is compared with a vector that is no member".into()) };
        let mut found = false;
        for a in 0..pop {
            for b in 0..pop {
                for c in 0..pop {
                    if a == b || a == c || b == c || [a, b, c].contains(&i) {
                        continue;
                    }
                    let mut mutants = 0;
                    let ok = (0..N).all(|n| {
                        let (x, y, z) = (to(members[a][n]), to(members[b][n]), to(members[c][n]));
                        let m = x + (y - z) * weight;
                        let tol = 8.0 * eps * (x.abs() + weight * (y.abs() + z.abs())) + 1e-300;
                        let is = (to(l.0[n]) - m).abs() <= tol;
                        mutants += is as u32;
                        is || to(l.0[n]) == to(l.1[n])
                    });
                    found |= ok && mutants > 0;
                }
            }
        }
        ensure!(found, "trial {:?} of incumbent {:?} is not of the form a + {weight} (b - c)", l.0.map(to), l.1.map(to));
        if l.2 {
            members[i] = l.0
        }
    }
    ensure!(members.iter().any(|m| eq(m, &r)), "the result is no member of the final population");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ generic points
/// Large populations and dimensions and long runs: the numbers are values of linear forms at one generic point of a
/// prime field, so that equal values mean equal forms (up to collisions with probability about 2^-40).
mod generic {
    use super::*;
    const P: u64 = (1 << 61) - 1;
    #[derive(Clone, Copy)]
    pub struct G {
        pub v: u64,
        ord: f64,
    }
    impl PartialEq for G {
        fn eq(&self, o: &G) -> bool {
            self.v == o.v
        }
    }
    impl PartialOrd for G {
        fn partial_cmp(&self, o: &G) -> Option<Ordering> {
            self.ord.partial_cmp(&o.ord)
        }
    }
    impl Add for G {
        type Output = G;
        fn add(self, o: G) -> G {
            G { v: (self.v + o.v) % P, ord: self.ord + o.ord }
        }
    }
    impl Sub for G {
        type Output = G;
        fn sub(self, o: G) -> G {
            G { v: (self.v + P - o.v) % P, ord: self.ord - o.ord }
        }
    }
    impl Mul for G {
        type Output = G;
        fn mul(self, o: G) -> G {
            G { v: (self.v as u128 * o.v as u128 % P as u128) as u64, ord: self.ord * o.ord }
        }
    }
    impl From<i8> for G {
        fn from(x: i8) -> G {
            G { v: (P as i64 + x as i64) as u64 % P, ord: x as f64 }
        }
    }
    impl From<f32> for G {
        fn from(x: f32) -> G {
            if x.fract() != 0.0 || x.abs() > 1e6 {
                panic!("element: fractional constant {x}")
            }
            G { v: (P as i64 + x as i64) as u64 % P, ord: x as f64 }
        }
    }
    fn scramble(i: u64) -> u64 {
        let mut z = i.wrapping_add(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) % P
    }
    #[derive(Default)]
    struct Gx {
        token: bool,
        /// coordinate of the bounds each initial value was drawn from
        symbols: Vec<(u64, usize)>,
    }
    thread_local! { static GX: RefCell<Gx> = RefCell::new(Gx::default()); }
    fn gx<R>(f: impl FnOnce(&mut Gx) -> R) -> R {
        GX.with(|c| f(&mut c.borrow_mut()))
    }
    pub struct GSampler(G, G);
    const TOKEN: u64 = 0x7e57_ab1e_0000_0001;
    impl UniformSampler for GSampler {
        type X = G;
        fn new<A: SampleBorrow<G>, B: SampleBorrow<G>>(lo: A, hi: B) -> GSampler {
            GSampler(*lo.borrow(), *hi.borrow())
        }
        fn new_inclusive<A: SampleBorrow<G>, B: SampleBorrow<G>>(lo: A, hi: B) -> GSampler {
            GSampler(*lo.borrow(), *hi.borrow())
        }
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> G {
            gx(|g| g.token = true);
            if rng.next_u64() != TOKEN {
                panic!("element: an initial value was drawn from another random generator")
            }
            gx(|g| {
                let n = self.0.ord as usize;
                let v = scramble(g.symbols.len() as u64 + 1000);
                let ok = self.1.ord == self.0.ord + 0.5;
                g.symbols.push((v, if ok { n } else { usize::MAX }));
                G { v, ord: f64::NAN }
            })
        }
    }
    impl SampleUniform for G {
        type Sampler = GSampler;
    }
    /// Streams: a Weyl sequence whose step depends on the number of the stream, every other one with extreme values
    /// at the places of a periodic word.
    struct Raw {
        s: u64,
        i: u64,
        x: u64,
        n: usize,
    }
    impl RngCore for Raw {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            if gx(|g| std::mem::take(&mut g.token)) {
                return TOKEN;
            }
            self.n += 1;
            if self.n > 500_000_000 {
                panic!("element: no progress")
            }
            self.i += 1;
            self.x = self.x.wrapping_add(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(2 * self.s + 1));
            if self.s % 2 == 1 && (self.s * 0x2f53 >> (self.i % 13)) & 3 == 3 {
                return if self.i % 3 == 0 { 0 } else { u64::MAX };
            }
            if self.s % 3 == 2 { scramble(self.x) << 3 } else { self.x }
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for ch in b.chunks_mut(8) {
                let v = self.next_u64().to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()])
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(b);
            Ok(())
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Cfg {
        pub pop: usize,
        #[allow(dead_code)]
        pub n: usize,
        pub cr: f32,
        pub weight: u8,
        pub iters: usize,
        pub stream: u64,
        pub answers: u64,
    }
    type Log<const N: usize> = Vec<([G; N], [G; N], bool)>;
    fn one<const N: usize>(c: &Cfg, iters: usize) -> Result<([G; N], Log<N>, Vec<(u64, usize)>), String> {
        gx(|g| *g = Gx::default());
        let bounds: [(G, G); N] = std::array::from_fn(|n| (G { v: 5 + n as u64, ord: n as f64 }, G { v: 1005 + n as u64, ord: n as f64 + 0.5 }));
        let w = weight(c);
        let mut log: Log<N> = vec![];
        let r = lib(|| {
            differential_evolution(&bounds, c.pop, c.cr, w, iters, &mut Raw { s: c.stream, i: 0, x: c.stream, n: 0 }, |x: &[G; N], y: &[G; N]| {
                let t = log.len() as u64;
                let a = match c.answers {
                    0 => false,
                    1 => true,
                    2 => x[0].v < y[0].v,
                    k => scramble(t * 31 + k) % 3 == 0,
                };
                if log.len() > iters + c.pop + 10 {
                    panic!("element: more than {} comparisons", iters + c.pop - 1)
                }
                log.push((*x, *y, a));
                a
            })
        })?;
        Ok((r, log, gx(|g| std::mem::take(&mut g.symbols))))
    }
    /// A run in two dimensions; `step` sees every comparison with its answer. Returns the number of comparisons.
    pub fn run_of(pop: usize, iters: usize, answers: u64, stream: u64, mut step: impl FnMut([u64; 2], [u64; 2], bool)) -> Result<usize, String> {
        let c = Cfg { pop, n: 2, cr: 0.5, weight: 3, iters, stream: 2 + 6 * stream, answers };
        let (_, log, _) = one::<2>(&c, iters)?;
        for l in &log {
            step(l.0.map(|g| g.v), l.1.map(|g| g.v), l.2)
        }
        Ok(log.len())
    }
    fn weight(c: &Cfg) -> G {
        match c.weight {
            0..=2 => G::from(c.weight as i8),
            _ => G { v: scramble(7), ord: 0.7 },
        }
    }
    /// The trials of a run that rejects all of them: incumbent, other members used, mutated coordinates.
    pub fn trials<const N: usize>(p: &Prm, iters: usize, stream: u64, wanted: &[usize]) -> Result<Vec<Trial>, String> {
        let c = Cfg { pop: p.pop, n: N, cr: p.cr, weight: 3, iters: 0, stream, answers: 0 };
        let (_, log0, _) = one::<N>(&c, 0)?;
        let mut pop: Vec<[G; N]> = vec![];
        for v in log0.iter().flat_map(|l| [l.0, l.1]) {
            if !pop.iter().any(|m| m[0].v == v[0].v) {
                pop.push(v)
            }
        }
        let (_, log, _) = one::<N>(&c, iters)?;
        let wt = weight(&c);
        let mut r = vec![];
        for t in wanted {
            let l = &log[*t];
            let m = (0..N).filter(|n| l.0[*n].v != l.1[*n].v).fold(0u32, |m, n| m | 1 << n);
            let n = m.trailing_zeros() as usize;
            let i = pop.iter().position(|x| x[0].v == l.1[0].v).unwrap_or(usize::MAX);
            let mut abc = None;
            if n < N {
                // a + w b - w d: two loops and a table would do; the populations are small
                'search: for a in 0..pop.len() {
                    let rest = l.0[n] - pop[a][n];
                    for b in 0..pop.len() {
                        for d in 0..pop.len() {
                            if a != b && a != d && b != d && ((pop[b][n] - pop[d][n]) * wt).v == rest.v {
                                abc = Some((a, b, d));
                                break 'search;
                            }
                        }
                    }
                }
            }
            r.push((i, abc, m));
        }
        Ok(r)
    }
    pub type Trial = (usize, Option<(usize, usize, usize)>, u32);
    pub struct Seen {
        pub abc: Vec<[u32; 3]>,
        pub count: Vec<u32>,
        pub mutated: Vec<u32>,
    }
    /// What to look at.
    pub const BEST: u32 = 1;
    pub const TRIALS: u32 = 2;
    pub const SELECTION: u32 = 4;
    pub fn check<const N: usize>(w: &mut Worker, c: &Cfg, what: u32, seen: &mut Seen) -> Result<(), String> {
        let eq = |a: &[G; N], b: &[G; N]| (0..N).all(|n| a[n].v == b[n].v);
        let (r0, log0, symbols) = one::<N>(c, 0)?;
        let mut pop: Vec<[G; N]> = vec![];
        for v in log0.iter().flat_map(|l| [l.0, l.1]) {
            if !pop.iter().any(|m| eq(m, &v)) {
                pop.push(v)
            }
        }
        ensure!(pop.len() == c.pop && pop.iter().any(|m| eq(m, &r0)), "{} initial candidates", pop.len());
        for v in pop.iter().filter(|_| what & TRIALS != 0) {
            for n in 0..N {
                ensure!(symbols.iter().any(|s| *s == (v[n].v, n)), "coordinate {n} of an initial candidate is not a draw from the bounds of that coordinate");
            }
        }
        let mut all: Vec<u64> = pop.iter().flat_map(|v| v.map(|x| x.v)).collect();
        all.sort();
        all.dedup();
        ensure!(what & TRIALS == 0 || all.len() == c.pop * N, "an initial draw is used twice");
        let (r, log, _) = one::<N>(c, c.iters)?;
        w.ops(log.len() as u64);
        ensure!(log.len() == c.iters + c.pop - 1, "{} comparisons", log.len());
        if what & BEST != 0 && c.answers == 2 {
            // a strict weak order: nothing presented may be better than the result
            let best = log.iter().flat_map(|l| [l.0[0].v, l.1[0].v]).min();
            ensure!(best == Some(r[0].v), "a better candidate than the result was presented");
            ensure!(pop.iter().chain(log[..c.iters].iter().map(|l| &l.0)).any(|m| eq(m, &r)), "the result is neither an initial candidate nor a trial vector");
        }
        if what == BEST {
            return Ok(());
        }
        let mut turns = vec![0usize; c.pop];
        let wt = weight(c);
        for (t, l) in log[..c.iters].iter().enumerate() {
            let Some(i) = (0..c.pop).filter(|i| eq(&pop[*i], &l.1)).min_by_key(|i| turns[*i]) else { return Err(format!("trial {t} is compared with a vector that is no current member")) };
            turns[i] += 1;
            if what & TRIALS == 0 {
                if l.2 {
                    pop[i] = l.0
                }
                continue;
            }
            // coordinates that differ from the incumbent must come from the mutant
            let must: Vec<usize> = (0..N).filter(|n| l.0[*n].v != l.1[*n].v).collect();
            let mut found = 0;
            'search: for a in (0..c.pop).filter(|a| *a != i) {
                for b in (0..c.pop).filter(|b| *b != i && *b != a) {
                    for d in (0..c.pop).filter(|d| *d != i && *d != a && *d != b) {
                        let is = |n: usize| (pop[a][n] + (pop[b][n] - pop[d][n]) * wt).v == l.0[n].v;
                        if !must.iter().all(|n| is(*n)) {
                            continue;
                        }
                        if must.is_empty() && !(0..N).any(is) {
                            continue;
                        }
                        if c.cr == 1.0 && !(0..N).all(is) {
                            continue;
                        }
                        if c.cr == 0.0 && must.len() > 1 {
                            continue;
                        }
                        found += 1;
                        if c.weight > 2 && !must.is_empty() {
                            for (k, m) in [a, b, d].into_iter().enumerate() {
                                seen.abc[m][k] += 1;
                            }
                            seen.count[must.len()] += 1;
                            for n in &must {
                                seen.mutated[*n] += 1;
                            }
                        }
                        break 'search;
                    }
                }
            }
            ensure!(found > 0, "trial {t} is not made of the incumbent {i} and a + weight * (b - c) of three different other members, with the number of mutated coordinates that the crossover probability demands ({} coordinates differ from the incumbent)", must.len());
            if l.2 {
                pop[i] = l.0
            }
        }
        if what & SELECTION == 0 {
            return Ok(());
        }
        let (lo, hi) = (turns.iter().min().unwrap(), turns.iter().max().unwrap());
        ensure!(hi - lo <= 1, "the members of the population had {turns:?} turns");
        for l in &log[c.iters..] {
            ensure!(pop.iter().any(|m| eq(m, &l.0)) && pop.iter().any(|m| eq(m, &l.1)), "a final comparison shows a vector that is no member of the final population");
        }
        for (i, m) in pop.iter().enumerate() {
            ensure!(log[c.iters..].iter().any(|l| eq(&l.0, m) || eq(&l.1, m)), "member {i} of the final population is in no final comparison");
        }
        ensure!(pop.iter().any(|m| eq(m, &r)), "the result is no member of the final population");
        Ok(())
    }
    pub fn group(w: &mut Worker, what: u32, pop: usize, n: usize, streams: u64, rounds: usize, max_iters: usize) {
        for cr in [0.0f32, 0.5, 0.9, 1.0] {
            let mut seen = Seen { abc: vec![[0; 3]; pop], count: vec![0; n + 1], mutated: vec![0; n] };
            for weight in [3u8, 0, 1, 2] {
                for answers in 0..4 {
                    for stream in 0..streams {
                        let iters = (rounds * pop + stream as usize % 3).min(max_iters);
                        let c = Cfg { pop, n, cr, weight, iters, stream, answers };
                        w.case(|| format!("{c:?}"), |w| {
                            w.distinct(1);
                            match n {
                                1 => check::<1>(w, &c, what, &mut seen),
                                2 => check::<2>(w, &c, what, &mut seen),
                                3 => check::<3>(w, &c, what, &mut seen),
                                4 => check::<4>(w, &c, what, &mut seen),
                                5 => check::<5>(w, &c, what, &mut seen),
                                7 => check::<7>(w, &c, what, &mut seen),
                                8 => check::<8>(w, &c, what, &mut seen),
                                9 => check::<9>(w, &c, what, &mut seen),
                                16 => check::<16>(w, &c, what, &mut seen),
                                17 => check::<17>(w, &c, what, &mut seen),
                                33 => check::<33>(w, &c, what, &mut seen),
                                65 => check::<65>(w, &c, what, &mut seen),
                                _ => unreachable!(),
                            }
                        });
                    }
                }
            }
            if what & TRIALS == 0 {
                continue;
            }
            w.case(|| format!("all runs with population {pop}, dimension {n}, crossover probability {cr}"), |_| {
                let trials: u32 = seen.count.iter().sum();
                for (m, s) in seen.abc.iter().enumerate() {
                    ensure!((trials as usize) < 60 * pop || s.iter().all(|k| *k > 0), "member {m} is never chosen in one of the roles of a + weight * (b - c) in {trials} trials: {s:?}");
                }
                for (m, k) in seen.mutated.iter().enumerate() {
                    ensure!((trials as usize) < 60 * n || *k > 0, "coordinate {m} never comes from the mutant in {trials} trials");
                }
                if cr == 0.5 && n > 1 && n < 6 && trials > 2000 {
                    for (m, k) in seen.count.iter().enumerate().skip(1) {
                        ensure!(*k > 0, "never exactly {m} coordinates come from the mutant");
                    }
                }
                Ok(())
            });
        }
    }
}

fn long_runs(c: &mut Check, what: u32) {
    // large populations and dimensions, long runs
    let mut gs: Vec<(usize, usize, u64, usize, usize)> = vec![];
    for pop in [4usize, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33] {
        for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65] {
            if pop * n > c.by_tier(300, 1200) {
                continue;
            }
            gs.push((pop, n, c.by_tier(6, 40), 10, 200));
        }
    }
    for pop in [4usize, 5, 7] {
        for n in [1usize, 2, 3, 8] {
            gs.push((pop, n, c.by_tier(3, 12), 500, c.by_tier(2100, 3500)));
        }
    }
    gs.sort_by_key(|g| std::cmp::Reverse(g.0.pow(3) * g.4 * g.2 as usize));
    c.suite("generic-runs", &format!("{} combinations of population (4..33) and dimension (1..65) with product up to {}, and runs of up to 2000 trials: 4 crossover probabilities x 4 weights x 4 kinds of answers x {} or more equidistributed or partly extreme streams; every trial, turn, replacement and final comparison", gs.len(), c.by_tier(300, 1200), c.by_tier(3, 12)), gs.len(), |w, i| {
        let g = gs[i];
        generic::group(w, what, g.0, g.1, g.2, g.3, g.4);
    });
}
// ------------------------------------------------------------------------------------------------ O03
fn o03(c: &mut Check) {
    let max = c.by_tier(15usize, 19);
    let mut cfgs: Vec<(Prm, Vec<u32>)> = vec![];
    for pop in 4..=c.by_tier(14usize, 18) {
        for iters in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
            if iters + pop - 1 > max {
                continue;
            }
            for fair in 0..if iters == 0 { 1 } else { c.by_tier(3, 6) } {
                let p = Prm { fair, weight: SMALL, ..Prm::new(pop, 1, iters) };
                for h in 0..16 {
                    cfgs.push((p.clone(), (0..4).map(|b| h >> b & 1).collect()));
                }
            }
        }
    }
    c.suite("all-answers", &format!("population 4..18, iterations 0..12, together at most {max} comparisons: all sequences of answers, consistent or not"), cfgs.len(), |w, i| {
        let (p, part) = &cfgs[i];
        let part = &part[..part.len().min(p.iters + p.pop - 1)];
        if let Some(init) = start(w, p) {
            explore(w, p, part, |_, e, _| check_selection(p, e, &init));
        }
    });
    // draws and answers together
    let mut cfgs: Vec<(Prm, Vec<u32>)> = vec![];
    for (pop, n, cr, budget) in [(4, 1, 0.5, vec![5u32]), (5, 1, 0.5, vec![4]), (4, 2, 0.5, vec![5]), (4, 1, 0.5, vec![3, 4]), (6, 1, 0.5, vec![4]), (4, 1, 0.5, vec![4, 4]), (5, 2, 0.5, vec![5]), (4, 1, 0.0, vec![2, 2, 2, 2, 2])].into_iter().take(c.by_tier(5, 8)) {
        let p = Prm { cr, budget: budget.clone(), weight: SMALL, ..Prm::new(pop, n, budget.len()) };
        for d in parts(&p, 2) {
            cfgs.push((p.clone(), d));
        }
    }
    c.suite("draws-and-answers", "all draws within the budget of each trial, all answers", cfgs.len(), |w, i| {
        let (p, part) = &cfgs[i];
        if let Some(init) = start(w, p) {
            explore(w, p, part, |_, e, _| check_selection(p, e, &init));
        }
    });
    // long runs: several rounds, weights 0, 1, 2 (duplicates appear), constant and periodic answers
    let mut cfgs: Vec<Prm> = vec![];
    for pop in 4..=8 {
        for n in 1..=2 {
            for iters in 0..=3 * pop + 1 {
                for pat in [0u64, u64::MAX, 0x5555_5555_5555_5555, 0x1111_1111_1111_1111, 0x9249_2492_4924_9249] {
                    for cr in [0.0, 1.0] {
                        // weight 0 keeps the coefficients small
                        cfgs.push(Prm { cr, weight: (0, 0.0), answers: Answers::Bits(pat), fair: iters, ..Prm::new(pop, n, iters) });
                        if iters <= 14 {
                            cfgs.push(Prm { cr, weight: (1, 1.0), answers: Answers::Bits(pat), fair: iters, ..Prm::new(pop, n, iters) });
                        }
                    }
                }
            }
        }
    }
    c.suite("rounds", "population 4..8, dimension 1..2, up to 3 rounds of iterations, periodic answers", cfgs.len(), |w, i| {
        let p = &cfgs[i];
        if let Some(init) = start(w, p) {
            explore(w, p, &[], |_, e, _| check_selection(p, e, &init));
        }
    });
    // large populations and many iterations: only the counts
    let sizes: Vec<usize> = (4..=c.by_tier(260usize, 1100)).collect();
    c.suite("sizes", &format!("every population size 4..{}: number of comparisons, and the result is the best of all under the order of the values and its reverse", sizes.len() + 3), sizes.len(), |w, i| {
        let pop = sizes[i];
        w.case(|| format!("population size {pop}"), |w| {
            for iters in [0, 1, pop - 1, pop, pop + 1, 2 * pop + 3] {
                for up in [true, false] {
                    let mut n = 0;
                    let mut best: Option<f64> = None;
                    let better = |a: f64, b: f64| if up { a < b } else { a > b };
                    let mut rng = Stream { s: i, i: 0, ext: &[0, u64::MAX / 3, 1 << 62, u64::MAX], g: i as u64 };
                    let r = differential_evolution(&[(0f64, 1.0)], pop, 0.5, 0.4, iters, &mut rng, |x, y| {
                        n += 1;
                        for v in [x[0], y[0]] {
                            if best.is_none_or(|b| better(v, b)) {
                                best = Some(v)
                            }
                        }
                        better(x[0], y[0])
                    });
                    ensure!(n == iters + pop - 1, "{iters} iterations: {n} comparisons");
                    ensure!(best == Some(r[0]), "{iters} iterations: result {}, best presented {best:?}", r[0]);
                    w.ops(n as u64);
                }
            }
            w.distinct(12);
            Ok(())
        });
    });
    // very many trials
    let mut many: Vec<(usize, u64, usize)> = vec![];
    for pop in [4usize, 5, 6, 7, 12, 33, 100, 300] {
        for answers in [0, 1, 3] {
            many.push((pop, answers, 140_000));
        }
    }
    if c.by_tier(false, true) {
        for pop in [5, 7, 100] {
            many.push((pop, 3, 1_000_000));
        }
        many.push((7, 0, 17_000_000));
    }
    many.sort_by_key(|m| std::cmp::Reverse(m.2));
    c.suite("many-trials", "populations of 4 to 300 members, 140000 (thorough also a million, and 17 million) trials, all rejected, all accepted or some: turns after every trial, replacements, number of comparisons", many.len(), |w, i| {
        let (pop, answers, iters) = many[i];
        w.case(|| format!("population {pop}, {iters} trials, answers {answers}"), |w| {
            let mut s = Turns::new(pop, iters);
            let comparisons = if iters < 2_000_000 {
                generic::run_of(pop, iters, answers, i as u64, |x, y, yes| s.step(x, y, yes))?
            } else {
                let mut rng = Stream { s: 2, i: 0, ext: &[1 << 40, u64::MAX / 3, 1 << 62, u64::MAX / 7 * 5], g: i as u64 };
                let mut n = 0;
                differential_evolution(&[(0f64, 1.0)], pop, 0.5, 0.37, iters, &mut rng, |x, y| {
                    n += 1;
                    s.step([x[0].to_bits(), 0], [y[0].to_bits(), 0], false);
                    false
                });
                n
            };
            if let Some(e) = s.error {
                return Err(e);
            }
            ensure!(comparisons == iters + pop - 1, "{comparisons} comparisons");
            w.ops(comparisons as u64);
            w.distinct(1);
            Ok(())
        });
    });
    long_runs(c, generic::SELECTION);
    c.assume("After the branching budget, random draws take all values in turn (a stream that repeats one value for ever makes rejection sampling run for ever, by design).");
}
/// Whose turn it is, trial by trial. All slots have had `high` or `high - 1` turns.
struct Turns {
    pop: usize,
    iters: usize,
    t: usize,
    // current value -> numbers of turns of the slots that hold it (the same three members give equal trials)
    turns: HashMap<[u64; 2], Vec<u32>>,
    seen: usize,
    high: u32,
    at_high: usize,
    error: Option<String>,
}
impl Turns {
    fn new(pop: usize, iters: usize) -> Turns {
        Turns { pop, iters, t: 0, turns: HashMap::new(), seen: 0, high: 1, at_high: 0, error: None }
    }
    fn step(&mut self, x: [u64; 2], y: [u64; 2], yes: bool) {
        self.t += 1;
        if self.t > self.iters || self.error.is_some() {
            return;
        }
        let t = self.t;
        let high = self.high;
        let slots = self.turns.entry(y).or_default();
        match slots.iter().position(|n| n + 1 == high) {
            Some(k) => {
                slots.swap_remove(k);
            }
            None if self.seen < self.pop && high == 1 => self.seen += 1,
            None => {
                self.error = Some(match slots.first() {
                    None => format!("trial {t}: the incumbent is no current member"),
                    Some(n) => format!("trial {t}: an incumbent has its turn number {} while others have had {}", n + 1, high - 1),
                });
                return;
            }
        }
        if slots.is_empty() {
            self.turns.remove(&y);
        }
        self.at_high += 1;
        if self.at_high == self.pop {
            self.high += 1;
            self.at_high = 0;
        }
        self.turns.entry(if yes { x } else { y }).or_default().push(high);
    }
}
fn start(w: &mut Worker, p: &Prm) -> Option<Vec<Vec<T>>> {
    match initial(p) {
        Ok(x) => Some(x),
        Err(m) => {
            w.step(|| format!("{p:?}"), |_| Err::<(), _>(m));
            None
        }
    }
}

// ------------------------------------------------------------------------------------------------ O01
fn o01(c: &mut Check) {
    let mut cfgs: Vec<(Prm, Vec<u32>)> = vec![];
    // candidates in total: population + iterations; Fubini(n) weak orders: 75, 541, 4683, 47293, 545835, 7087261
    let total = c.by_tier(7usize, 8);
    let mut add = |p: &Prm| {
        // the first two choices after one candidate: 3 and 5 options (draws come first if there are any)
        let base = if p.budget.is_empty() { 5 } else { 8 };
        for d in 0..base * base {
            cfgs.push((p.clone(), vec![d as u32 % base as u32, (d / base) as u32]));
        }
    };
    for pop in 4..=8 {
        for iters in 0..=total {
            if pop + iters > total && !(iters == 0 && pop <= 8) {
                continue;
            }
            for n in 1..=2 {
                for fair in 0..if iters == 0 { 1 } else { 3 } {
                    for cr in [0.0, 1.0] {
                        if (n == 1 || iters == 0) && cr == 1.0 || n == 2 && pop + iters > 7 {
                            continue;
                        }
                        add(&Prm { cr, fair, weight: SMALL, answers: Answers::WeakOrder, ..Prm::new(pop, n, iters) });
                    }
                }
            }
        }
    }
    if total > 7 {
        add(&Prm { weight: SMALL, answers: Answers::WeakOrder, ..Prm::new(9, 1, 0) });
    }
    // weights that produce duplicates of members
    for (pop, iters) in [(4, 4), (4, 3), (5, 3)] {
        add(&Prm { cr: 1.0, weight: (0, 0.0), answers: Answers::WeakOrder, ..Prm::new(pop, 1, iters) });
        add(&Prm { cr: 1.0, weight: (0, 0.0), fair: 1, answers: Answers::WeakOrder, ..Prm::new(pop, 2, iters) });
    }
    // draws and orders together
    add(&Prm { weight: SMALL, budget: vec![4], answers: Answers::WeakOrder, ..Prm::new(4, 1, 1) });
    add(&Prm { weight: SMALL, budget: vec![4], answers: Answers::WeakOrder, ..Prm::new(5, 1, 1) });
    add(&Prm { weight: SMALL, budget: vec![2, 2], answers: Answers::WeakOrder, ..Prm::new(4, 2, 2) });
    if total > 7 {
        add(&Prm { weight: SMALL, budget: vec![3, 3], answers: Answers::WeakOrder, ..Prm::new(4, 1, 2) });
        add(&Prm { weight: SMALL, budget: vec![2, 2, 2], answers: Answers::WeakOrder, ..Prm::new(4, 1, 3) });
    }
    c.suite("weak-orders", &format!("all strict weak orders of all candidates (population 4..8 and iterations, together at most {total}; population 8, thorough 9, without iterations), several streams of draws"), cfgs.len(), |w, i| {
        let (p, part) = &cfgs[i];
        if let Some(init) = start(w, p) {
            explore(w, p, part, |w, e, _| {
                check_best(p, e, &init)?;
                w.outcome(&(i, e.order.len(), e.log.len()));
                Ok(())
            });
        }
    });
    // larger populations: every position of the best among equals, and of a unique best candidate
    let max = c.by_tier(64usize, 200);
    c.suite("positions", &format!("population 4..{max} without iterations, two classes of candidates: a unique best at every position; two best at every pair of positions"), max - 3, |w, i| {
        let pop = i + 4;
        w.case(|| format!("population {pop}"), |w| {
            for a in 0..pop {
                for b in a..pop {
                    let mut k = 0u64;
                    struct Count<'a>(&'a mut u64);
                    impl RngCore for Count<'_> {
                        fn next_u32(&mut self) -> u32 {
                            self.next_u64() as u32
                        }
                        fn next_u64(&mut self) -> u64 {
                            *self.0 += 1;
                            (*self.0 - 1) << 40
                        }
                        fn fill_bytes(&mut self, _: &mut [u8]) {
                            panic!("element: fill_bytes")
                        }
                        fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> {
                            panic!("element: fill_bytes")
                        }
                    }
                    // draw i is i * 2^40 / 2^64 up to truncation to 52 bits
                    let pos = |x: f64| (x * 2f64.powi(24)).round() as usize;
                    let good = |x: f64| [a, b].contains(&pos(x));
                    let r = differential_evolution(&[(0f64, 1.0)], pop, 0.5, 1.0, 0, &mut Count(&mut k), |x, y| good(x[0]) && !good(y[0]));
                    ensure!(good(r[0]), "the best candidates are at {a} and {b}, the result is the one at {}", pos(r[0]));
                }
            }
            w.distinct((pop * (pop + 1) / 2) as u64);
            w.ops((pop * (pop + 1) / 2) as u64);
            Ok(())
        });
    });
    // large populations
    let mut large: Vec<usize> = (c.by_tier(65, 201)..=c.by_tier(520, 1100)).collect();
    large.extend([700, 767, 768, 769, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000].iter().filter(|n| **n > 520));
    if c.by_tier(false, true) {
        large.extend([10_000, 32_769, 65_535, 65_536, 65_537, 131_075]);
    }
    large.sort();
    large.dedup();
    large.reverse();
    c.suite("large-populations", &format!("{} population sizes up to {}, a unique best candidate at every position (from 10000 members on every 997th), and the orders of the values and their reverse with up to 2 rounds of trials", large.len(), large[0]), large.len(), |w, i| {
        let pop = large[i];
        w.case(|| format!("population {pop}"), |w| {
            struct Count(u64);
            impl RngCore for Count {
                fn next_u32(&mut self) -> u32 {
                    self.next_u64() as u32
                }
                fn next_u64(&mut self) -> u64 {
                    self.0 += 1;
                    (self.0 - 1) << 40
                }
                fn fill_bytes(&mut self, b: &mut [u8]) {
                    b.fill(0)
                }
                fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
                    self.fill_bytes(b);
                    Ok(())
                }
            }
            let pos = |x: f64| (x * 2f64.powi(24)).round() as usize;
            for a in (0..pop).step_by(if pop < 10_000 { 1 } else { 997 }).chain([pop - 1]) {
                let r = differential_evolution(&[(0f64, 1.0)], pop, 0.5, 1.0, 0, &mut Count(0), |x, y| pos(x[0]) == a && pos(y[0]) != a);
                ensure!(pos(r[0]) == a, "the best candidate is at {a}, the result is the one at {}", pos(r[0]));
                w.distinct(1);
                w.ops(pop as u64);
            }
            for iters in [0, 1, pop, 2 * pop + 3] {
                for order in 0..4 {
                    let key = |a: f64| match order { 0 => a, 1 => -a, 2 => (a * 1000.0).fract(), _ => (a * 7.0).floor() };
                    let mut best: Option<f64> = None;
                    let mut rng = Stream { s: i, i: 0, ext: &[0, u64::MAX / 3, 1 << 62, u64::MAX], g: i as u64 };
                    let r = differential_evolution(&[(0f64, 1.0)], pop, 0.5, 0.4, iters, &mut rng, |x, y| {
                        for v in [key(x[0]), key(y[0])] {
                            if best.is_none_or(|b| v < b) {
                                best = Some(v)
                            }
                        }
                        key(x[0]) < key(y[0])
                    });
                    ensure!(best == Some(key(r[0])), "{iters} iterations, order {order}: result {}, best presented {best:?}", r[0]);
                    w.distinct(1);
                }
            }
            Ok(())
        });
    });
    long_runs(c, generic::BEST);
}

// ------------------------------------------------------------------------------------------------ O04
struct Forbidden;
impl RngCore for Forbidden {
    fn next_u32(&mut self) -> u32 {
        std::panic::panic_any("element: random draw")
    }
    fn next_u64(&mut self) -> u64 {
        std::panic::panic_any("element: random draw")
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        std::panic::panic_any("element: random draw")
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), Error> {
        std::panic::panic_any("element: random draw")
    }
}
fn params<F, const N: usize>(w: &mut Worker, name: &str, weights: &[(F, bool, String)], b: (F, F), pop: usize) -> Result<(), String>
where
    F: PartialOrd + Copy + Add<Output = F> + Sub<Output = F> + Mul<Output = F> + SampleUniform,
    f32: Into<F>,
    i8: Into<F>,
{
    let tiny = f32::from_bits(1);
    let crs = [0.0f32, -0.0, tiny, 0.5, 1.0 - f32::EPSILON / 2.0, 1.0, 1.0 + f32::EPSILON, -tiny, -0.5, 2.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, -1.0];
    for cr in crs {
        let cr_ok = cr >= 0.0 && cr <= 1.0;
        for (wt, w_ok, ws) in weights {
            for iters in [0, 1, 5] {
                let ok = pop >= 4 && cr_ok && *w_ok;
                w.ops(1);
                let what = format!("{name}: population {pop}, crossover probability {cr:e}, weight {ws}, {iters} iterations");
                if ok {
                    let r = lib(|| {
                        let mut s = Stream { s: 3, i: 0, ext: &[1 << 40, u64::MAX - 5, 1 << 63], g: 1 };
                        differential_evolution(&[b; N], pop, cr, *wt, iters, &mut s, |_, _| true);
                    });
                    ensure!(r.is_ok(), "{what}: rejected: {}", r.unwrap_err());
                } else {
                    let mut cmp = false;
                    let r = lib(|| {
                        differential_evolution(&[b; N], pop, cr, *wt, iters, &mut Forbidden, |_, _| {
                            cmp = true;
                            true
                        });
                    });
                    match r {
                        Ok(()) => return Err(format!("{what}: accepted")),
                        Err(m) => ensure!(!m.contains("element: random draw") && !cmp, "{what}: random numbers drawn or candidates compared before rejection ({m})"),
                    }
                    w.outcome(&(pop < 4, cr_ok, *w_ok));
                }
            }
        }
    }
    Ok(())
}
fn o04(c: &mut Check) {
    let pops: Vec<usize> = c.by_tier(vec![0, 1, 2, 3, 4, 5, 8, 33, 128, 257], vec![0, 1, 2, 3, 4, 5, 8, 33, 128, 257, 1025, 4097]);
    c.suite("parameters", "population 0..5, 8, 33, 128, 257 (thorough 1025, 4097) x 15 crossover probabilities x 15 weights (boundaries, their neighbours, infinities, NaN) x 3 numbers of iterations x element types f32 and f64 x dimension 1..2", pops.len(), |w, i| {
        let pop = pops[i];
        w.case(|| format!("population {pop}"), |w| {
            let f = |x: f32| (x, (0.0..=2.0).contains(&x), format!("{x:e}"));
            let w32: Vec<_> = [0.0f32, -0.0, f32::from_bits(1), 0.8, 2.0, 2.0 - f32::EPSILON, 1.0, -f32::from_bits(1), 2.0 + 2.0 * f32::EPSILON, -1.0, 3.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX].into_iter().map(f).collect();
            let f = |x: f64| (x, (0.0..=2.0).contains(&x), format!("{x:e}"));
            let w64: Vec<_> = [0.0f64, -0.0, f64::from_bits(1), 0.8, 2.0, 2.0 - f64::EPSILON, 1.0, -f64::from_bits(1), 2.0 + 2.0 * f64::EPSILON, -1.0, 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX].into_iter().map(f).collect();
            params::<f32, 1>(w, "f32", &w32, (-1.0, 1.0), pop)?;
            params::<f64, 1>(w, "f64", &w64, (-1.0, 1.0), pop)?;
            params::<f32, 2>(w, "f32, dimension 2", &w32, (-1.0, 1.0), pop)?;
            params::<f64, 2>(w, "f64, dimension 2", &w64, (-1.0, 1.0), pop)?;
            w.distinct(15 * 15 * 3 * 4);
            Ok(())
        });
    });
    // accepted whatever the intervals, also with many dimensions, members or trials
    let boxes: Vec<(f64, f64)> = vec![(-1.0, 1.0), (0.0, 1.0), (1.0, 2.0), (-2.0, -1.0), (-1.0, 0.0), (0.0, f32::MAX as f64 / 4.0), (-f32::MAX as f64 / 4.0, f32::MAX as f64 / 4.0), (0.0, f32::MIN_POSITIVE as f64), (1.0, 1.0 + f32::EPSILON as f64), (1e30, 1.0001e30), (-1e-30, 1e-30)];
    let npops = c.by_tier(3, 4);
    c.suite("intervals", "11 intervals (signs, tiny, huge, adjacent numbers), alone and mixed, f32 and f64, dimension 1..3, 11 and 40, population 4, 5 and 64 (thorough 65537), up to 1000 trials", boxes.len(), |w, i| {
        fn go<const N: usize>(w: &mut Worker, boxes: &[(f64, f64)], i: usize, pops: &[usize]) {
            for pop in pops {
                for (iters, cr, wt) in [(0, 0.5f32, 0.5f64), (3, 0.0, 2.0), (90, 1.0, 0.0), (1000, 0.9, 0.8)] {
                    for mixed in [0, 1, 4] {
                        w.case(|| format!("dimension {N}, population {pop}, crossover probability {cr}, weight {wt}, {iters} trials, interval {i}, step {mixed}"), |w| {
                            let b: [(f64, f64); N] = std::array::from_fn(|n| boxes[(i + mixed * n) % boxes.len()]);
                            w.ops(2 * iters as u64);
                            lib(|| {
                                let mut s = Stream { s: 3, i: 0, ext: &[1 << 40, u64::MAX - (1 << 42), 1 << 63, 77 << 55, 5 << 50, 1 << 30], g: 1 };
                                differential_evolution(&b, *pop, cr, wt, iters, &mut s, |x, y| x[0] < y[0]);
                                let mut s = Stream { s: 4, i: 0, ext: &[1 << 40, u64::MAX - (1 << 42), 1 << 63, 77 << 55, 5 << 50, 1 << 30], g: 1 };
                                differential_evolution(&b.map(|b| (b.0 as f32, b.1 as f32)), *pop, cr, wt as f32, iters, &mut s, |x, y| x[0] < y[0]);
                            })
                        });
                    }
                }
            }
        }
        let pops: &[usize] = &[4, 5, 64, 65537][..npops];
        go::<1>(w, &boxes, i, pops);
        go::<2>(w, &boxes, i, pops);
        go::<3>(w, &boxes, i, pops);
        go::<11>(w, &boxes, i, pops);
        go::<40>(w, &boxes, i, &[4, 64]);
    });
    // the same stream, parameters and answers: the same run
    let mut cfgs: Vec<(Prm, Vec<u32>)> = vec![];
    for (pop, n, cr, budget) in [(4, 1, 0.5f32, vec![4u32]), (5, 1, 0.5, vec![4]), (4, 2, 0.5, vec![5]), (4, 3, 0.5, vec![5]), (4, 1, 0.5, vec![3, 3]), (6, 2, 0.3, vec![4]), (4, 1, 0.5, vec![4, 4]), (4, 2, 0.5, vec![4, 4])].into_iter().take(c.by_tier(6, 8)) {
        let p = Prm { cr, budget: budget.clone(), weight: SMALL, ..Prm::new(pop, n, budget.len()) };
        for d in parts(&p, 2) {
            cfgs.push((p.clone(), d));
        }
    }
    c.suite("replays", "all draws within the budget and all answers: every execution is run twice, with the same number of draws, comparisons and result", cfgs.len(), |w, i| {
        let (p, part) = &cfgs[i];
        let mut choices = vec![];
        loop {
            if w.stopped() {
                return;
            }
            let (e, bad, used) = exec(p, &mut choices, part);
            choices.truncate(used);
            if bad || part.iter().skip(choices.len()).any(|d| *d != 0) {
                return;
            }
            let script: Vec<u32> = choices.iter().map(|c| c.0).collect();
            w.step(|| format!("{p:?}, choices {script:?}"), |w| {
                w.state(&(i, &script));
                w.ops(2 * e.log.len() as u64);
                let (f, _, _) = exec(p, &mut choices.clone(), part);
                ensure!(e.log == f.log && e.draws == f.draws && e.symbols == f.symbols && e.result == f.result, "two runs with the same stream differ: {:?} against {:?} after comparisons {:?} and {:?}", e.result, f.result, e.log, f.log);
                Ok(())
            });
            loop {
                if choices.len() <= part.len() {
                    return;
                }
                let (d, n) = choices.pop().unwrap();
                if d + 1 < n {
                    choices.push((d + 1, n));
                    break;
                }
            }
        }
    });
    // concurrent and repeated runs with real generators
    let seeds = c.by_tier(400usize, 20000);
    c.suite("seeds", &format!("{seeds} ChaCha12 streams (StdRng), f32, two runs each from the same seed"), seeds, |w, i| {
        use rand::SeedableRng;
        w.case(|| format!("seed {i}"), |w| {
            let run = || {
                let mut log = vec![];
                let r = differential_evolution(&[(-5f32, 5.0), (0.0, 1.0)], 4 + i % 9, (i % 11) as f32 / 10.0, 0.1 * (i % 21) as f32, i % 40, &mut rand::rngs::StdRng::seed_from_u64(i as u64), |x: &[f32; 2], y: &[f32; 2]| {
                    log.push((x.map(f32::to_bits), y.map(f32::to_bits)));
                    x[0] * x[0] + x[1] < y[0] * y[0] + y[1]
                });
                (r.map(f32::to_bits), log)
            };
            let (a, b) = (run(), run());
            ensure!(a == b, "two runs from the same seed differ");
            w.distinct(1);
            w.ops(2 * a.1.len() as u64);
            Ok(())
        });
    });
    histories::o04(c);
}

/// Runs one after another, one inside another, and in other threads.
mod histories {
    use super::*;
    #[derive(Clone, Copy, Debug)]
    pub struct Cfg {
        pub pop: usize,
        pub n: usize,
        pub cr: f32,
        pub weight: f64,
        pub iters: usize,
        pub stream: u64,
    }
    struct Split(u64, usize);
    impl RngCore for Split {
        fn next_u32(&mut self) -> u32 {
            (self.next_u64() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.1 += 1;
            if self.1 > 100_000_000 {
                panic!("element: no progress")
            }
            self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let z = (self.0 ^ (self.0 >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
        fn fill_bytes(&mut self, b: &mut [u8]) {
            for ch in b.chunks_mut(8) {
                let v = self.next_u64().to_le_bytes();
                ch.copy_from_slice(&v[..ch.len()])
            }
        }
        fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(b);
            Ok(())
        }
    }
    pub type Log = (Vec<u64>, usize);
    fn one<const N: usize>(c: &Cfg, inside: &[Cfg]) -> Result<Log, String> {
        let mut log: Vec<u64> = vec![];
        let mut rng = Split(c.stream, 0);
        let bounds: [(f64, f64); N] = std::array::from_fn(|n| (-1.0 - n as f64, 2.0));
        let mut calls = 0;
        let r = lib(|| {
            differential_evolution(&bounds, c.pop, c.cr, c.weight, c.iters, &mut rng, |x: &[f64; N], y: &[f64; N]| {
                log.extend(x.iter().chain(y).map(|v| v.to_bits()));
                if !inside.is_empty() && calls % 7 == 0 {
                    if let Err(e) = run(&inside[calls / 7 % inside.len()], &[]) {
                        panic!("element: a run inside a comparison fails: {e}")
                    }
                }
                calls += 1;
                let s = |v: &[f64; N]| v.iter().map(|a| a * a).sum::<f64>();
                s(x) < s(y)
            })
        })?;
        log.extend(r.map(f64::to_bits));
        Ok((log, rng.1))
    }
    pub fn run(c: &Cfg, inside: &[Cfg]) -> Result<Log, String> {
        match c.n {
            1 => one::<1>(c, inside),
            2 => one::<2>(c, inside),
            3 => one::<3>(c, inside),
            5 => one::<5>(c, inside),
            8 => one::<8>(c, inside),
            _ => unreachable!(),
        }
    }
    #[inline(never)]
    pub fn deeper(c: &Cfg, depth: usize) -> Result<Log, String> {
        let pad = [depth as u8; 1000];
        if depth == 0 { run(c, &[]) } else { deeper(c, depth - 1).map(|r| std::hint::black_box((r, pad)).0) }
    }
    fn different(a: &Log, b: &Log) -> Option<String> {
        (a != b).then(|| match a.0.iter().zip(&b.0).position(|(x, y)| x != y) {
            Some(k) => format!("number {k} of the comparisons and the result is {} against {}", f64::from_bits(a.0[k]), f64::from_bits(b.0[k])),
            None => format!("{} numbers and {} draws against {} and {}", a.0.len(), a.1, b.0.len(), b.1),
        })
    }
    fn configurations(all: bool) -> Vec<Cfg> {
        let mut cfgs = vec![];
        for (pop, n) in [(4usize, 1usize), (4, 2), (5, 3), (7, 8), (8, 2), (13, 5), (33, 1), (40, 3), (100, 2)] {
            for (iters, stream) in [(0usize, 1u64), (1, 2), (pop, 3), (70, 4), (600, 5), (2100, 6)] {
                for (cr, weight) in [(0.0f32, 0.8), (0.5, 0.5), (1.0, 2.0), (0.9, 0.0)] {
                    if all || stream % 2 == 0 || cr == 0.5 {
                        cfgs.push(Cfg { pop, n, cr, weight, iters, stream });
                    }
                }
            }
        }
        cfgs
    }
    fn hash(r: &Result<Log, String>) -> String {
        let Ok(r) = r else { return "fails".into() };
        let mut h = 0u64;
        for v in &r.0 {
            h = (h ^ v).wrapping_mul(0x2545_f491_4f6c_dd1d).rotate_left(29)
        }
        format!("{h:016x} {}", r.1)
    }
    /// The runs of another process, started in another directory, without environment, after a pause.
    pub fn child() {
        for c in configurations(true).iter().rev() {
            println!("{} {c:?}", hash(&run(c, &[])));
        }
    }
    pub fn o04(c: &mut Check) {
        let cfgs = configurations(c.by_tier(false, true));
        c.suite("processes", "the same runs in a second process with an empty environment, in another directory, at another time and in the reverse order", 1, |w, _| {
            w.case(|| "the configurations of the suite \"histories\"".into(), |w| {
                std::thread::sleep(std::time::Duration::from_millis(1100));
                let out = std::env::current_exe().and_then(|e| std::process::Command::new(e).arg("histories-of-another-process").env_clear().current_dir("/").output()).map_err(|e| e.to_string());
                let out = match out {
                    Ok(o) => o,
                    Err(e) => panic!("the second process cannot be started: {e}"),
                };
                let text = String::from_utf8_lossy(&out.stdout).to_string();
                let mut lines: Vec<&str> = text.lines().collect();
                lines.reverse();
                let all = configurations(true);
                ensure!(lines.len() == all.len(), "the second process ends after {} of {} runs: {}", lines.len(), all.len(), out.status);
                for (c, l) in all.iter().zip(lines) {
                    let mine = format!("{} {c:?}", hash(&run(c, &[])));
                    w.distinct(1);
                    ensure!(mine == l, "another run in another process (digest, number of draws): {mine} against {l}");
                }
                Ok(())
            });
        });
        c.suite("histories", &format!("{} configurations with up to 100 members, 8 dimensions and 2100 trials: a run in a thread of its own, and the same again afterwards, after each of the shorter ones, with the others inside its comparisons, further down the stack with the heap in another state, and in a second thread", cfgs.len()), cfgs.len(), |w, i| {
            let a = cfgs[i];
            w.case(|| format!("{a:?}"), |w| {
                let first = std::thread::scope(|s| s.spawn(|| run(&a, &[])).join().unwrap())?;
                w.ops(first.1 as u64);
                let same = |what: String, b: Result<Log, String>| match different(&first, &b?) {
                    None => Ok(()),
                    Some(e) => Err(format!("a run {what} differs from the first one: {e}")),
                };
                same("right afterwards".into(), run(&a, &[]))?;
                same("in the same thread again".into(), run(&a, &[]))?;
                for b in cfgs.iter().filter(|b| a.iters + b.iters < 1000) {
                    run(b, &[])?;
                    same(format!("after one with {b:?}"), run(&a, &[]))?;
                    w.distinct(1);
                }
                for b in cfgs.iter().filter(|b| b.iters <= 70).skip(i % 5).step_by(5) {
                    same(format!("with others ({b:?} and the one after) inside its comparisons"), run(&a, &[*b, cfgs[(i + 1) % cfgs.len()]].map(|mut c| { c.iters = c.iters.min(20); c.pop = c.pop.min(8); c })))?;
                }
                let held: Vec<Vec<u8>> = (0..64).map(|k| vec![k as u8; 24 + 16 * k]).collect();
                same("further down the stack".into(), deeper(&a, 37))?;
                std::hint::black_box(&held);
                same("in another thread".into(), std::thread::scope(|s| s.spawn(|| deeper(&a, 5)).join().unwrap()))?;
                Ok(())
            });
        });
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("histories-of-another-process") {
        return histories::child();
    }
    main_for(&[("O01", o01), ("O02", o02), ("O03", o03), ("O04", o04)])
}
