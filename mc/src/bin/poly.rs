//! P01, P02, P03: polynomials.
use magnesia::algebra::{MulRefs, One, Polynomial, Ring, Zero};
use mc::engine::*;
use mc::ensure;
use mc::rings::*;
use std::collections::VecDeque;
use std::fmt::Debug;

// ---------------------------------------------------------------- reference model: coefficient vectors
fn r_add<R: El>(p: &[R], q: &[R]) -> Vec<R> {
    (0..p.len().max(q.len()))
        .map(|i| match (p.get(i), q.get(i)) {
            (Some(a), Some(b)) => a.a(b),
            (Some(a), None) => a.clone(),
            (None, Some(b)) => b.clone(),
            _ => unreachable!(),
        })
        .collect()
}
fn r_neg<R: El>(p: &[R]) -> Vec<R> {
    p.iter().map(|x| x.n()).collect()
}
fn r_mul<R: El>(p: &[R], q: &[R]) -> Vec<R> {
    if p.is_empty() || q.is_empty() {
        return vec![];
    }
    let mut v = vec![R::z(); p.len() + q.len() - 1];
    for (i, a) in p.iter().enumerate() {
        for (j, b) in q.iter().enumerate() {
            v[i + j] = v[i + j].a(&a.m(b));
        }
    }
    v
}
fn r_trim<R: El>(p: &[R]) -> Vec<R> {
    let mut v = p.to_vec();
    while v.last().is_some_and(|x| *x == R::z()) {
        v.pop();
    }
    v
}
/// sum of a_i * (x * ... * x), the power computed as a product of i factors
fn r_eval<R: El>(p: &[R], x: &R) -> R {
    let mut s = R::z();
    let mut pw = R::o();
    for a in p {
        s = s.a(&a.m(&pw));
        pw = pw.m(x);
    }
    s
}

fn poly<R: Ring>(c: &[R]) -> Polynomial<R> {
    Polynomial::from_coefficients(c.to_vec())
}

fn roomy<R: Ring>(c: &[R], capacity: usize) -> Polynomial<R> {
    let mut v = Vec::with_capacity(capacity);
    v.extend_from_slice(c);
    Polynomial::from_coefficients(v)
}

/// Is `got` the polynomial with the coefficients `want`? Observed through == and through evaluation at `pts`.
fn same<R: FullEl>(what: &str, got: &Polynomial<R>, want: &[R], pts: &[R]) -> Result<(), String> {
    let w = poly(want);
    ensure!(*got == w && w == *got, "{what}: got {got:?}, expected coefficients {want:?}");
    for x in pts {
        let (g, e) = (got.eval_ref(x), w.eval_ref(x));
        ensure!(g == e, "{what}: value at {x:?} is {g:?} but the polynomial {want:?} has {e:?}");
    }
    Ok(())
}

/// All operator forms on one pair of operands. Returns the number of library operations compared.
fn all_ops<R: FullEl>(a: &[R], b: &[R], pts: &[R]) -> Result<u64, String> {
    all_ops_sel(a, b, pts, true)
}
fn all_ops_sel<R: FullEl>(a: &[R], b: &[R], pts: &[R], with_mul: bool) -> Result<u64, String> {
    let (p, q) = (poly(a), poly(b));
    let mut n = 0;
    let mut ck = |what: &str, got: &Polynomial<R>, want: &[R]| {
        n += 1;
        same(what, got, want, pts)
    };
    let sum = r_add(a, b);
    let dif = r_add(a, &r_neg(b));
    ck("p + q", &(p.clone() + q.clone()), &sum)?;
    let mut t = p.clone();
    t += q.clone();
    ck("p += q", &t, &sum)?;
    let mut t = p.clone();
    t += &q;
    ck("p += &q", &t, &sum)?;
    ck("p - q", &(p.clone() - q.clone()), &dif)?;
    let mut t = p.clone();
    t -= q.clone();
    ck("p -= q", &t, &dif)?;
    let mut t = p.clone();
    t -= &q;
    ck("p -= &q", &t, &dif)?;
    ck("-p", &(-p.clone()), &r_neg(a))?;
    if with_mul {
        let prod = r_mul(a, b);
        ck("&p * &q", &(&p * &q), &prod)?;
        ck("p * q", &(p.clone() * q.clone()), &prod)?;
        ck("p.mul_refs(&q)", &p.mul_refs(&q), &prod)?;
        let mut t = p.clone();
        t *= q.clone();
        ck("p *= q", &t, &prod)?;
    }
    ck("operand p afterwards", &p, a)?;
    ck("operand q afterwards", &q, b)?;
    Ok(n)
}

fn free_poly(start: u32, len: usize, zeros: usize) -> Vec<Free> {
    (0..len).map(|i| if i < 64 && zeros >> i & 1 == 1 { Free::z() } else { Free::gen(start + i as u32) }).collect()
}

fn exhaustive<R: Fin + Send + Sync>(c: &mut Check, name: &str, len: usize) {
    let n = words_upto(R::N, len);
    let bound = format!("all pairs of polynomials with at most {len} coefficients over a ring of {} elements, evaluated at every element", R::N);
    c.suite(name, &bound, n, |w, part| {
        let a: Vec<R> = word(part, R::N).into_iter().map(R::nth).collect();
        let pts: Vec<R> = (0..R::N.min(5)).map(R::nth).collect();
        for j in 0..n {
            let b: Vec<R> = word(j, R::N).into_iter().map(R::nth).collect();
            w.case(|| format!("p={a:?} q={b:?}"), |w| {
                w.distinct(1);
                let k = all_ops(&a, &b, &pts)?;
                w.ops(k);
                w.outcome(&format!("{:?}", r_trim(&r_mul(&a, &b))));
                Ok(())
            });
        }
    });
}

/// Breadth-first closure of the histories of two polynomial variables under all in-place and pure updates.
fn history<R: Fin + Send + Sync>(c: &mut Check, name: &str, cap: usize, depth: usize) {
    let bound = format!("all histories up to depth {depth} of two polynomial variables over a ring of {} elements from all initial constants, operands of at most {cap} stored coefficients", R::N);
    c.suite(name, &bound, R::N, |w, part| {
        const NAMES: [&str; 13] = ["p+=q", "p+=&q", "p=p+q", "p-=q", "p-=&q", "p=p-q", "p*=q", "p=&p*&q", "p=-p", "swap", "q=p", "p=q+p", "p=one+p*x"];
        let pts: Vec<R> = (0..R::N).map(R::nth).collect();
        type St<R> = (Polynomial<R>, Polynomial<R>, Vec<R>, Vec<R>, Vec<usize>);
        let mut queue: VecDeque<St<R>> = VecDeque::new();
        let init = |c: usize| vec![R::nth(c)];
        for q0 in 0..R::N {
            let s: St<R> = (poly(&init(part)), poly(&init(q0)), init(part), init(q0), vec![]);
            if w.state(&(part, format!("{:?} {:?} {:?} {:?}", s.0, s.1, s.2, s.3))) {
                queue.push_back(s);
            }
        }
        while let Some((p, q, a, b, hist)) = queue.pop_front() {
            if hist.len() >= depth {
                w.cut();
                continue;
            }
            for op in 0..NAMES.len() {
                let d = || format!("p0={:?}, history {:?}", part, hist.iter().chain([&op]).map(|o| NAMES[*o]).collect::<Vec<_>>());
                let r = w.step(d, |w| {
                    w.ops(1);
                    let (mut p, mut q, mut a, mut b) = (p.clone(), q.clone(), a.clone(), b.clone());
                    match op {
                        0 => { p += q.clone(); a = r_add(&a, &b) }
                        1 => { p += &q; a = r_add(&a, &b) }
                        2 => { p = p + q.clone(); a = r_add(&a, &b) }
                        3 => { p -= q.clone(); a = r_add(&a, &r_neg(&b)) }
                        4 => { p -= &q; a = r_add(&a, &r_neg(&b)) }
                        5 => { p = p - q.clone(); a = r_add(&a, &r_neg(&b)) }
                        6 => { p *= q.clone(); a = r_mul(&a, &b) }
                        7 => { p = &p * &q; a = r_mul(&a, &b) }
                        8 => { p = -p; a = r_neg(&a) }
                        9 => { std::mem::swap(&mut p, &mut q); std::mem::swap(&mut a, &mut b) }
                        10 => { q = p.clone(); b = a.clone() }
                        11 => { p = q.clone() + p; a = r_add(&b, &a) }
                        _ => { p = Polynomial::one() + p * poly(&[R::z(), R::o()]); a = r_add(&[R::o()], &r_mul(&a, &[R::z(), R::o()])) }
                    }
                    same("p", &p, &a, &pts)?;
                    same("q", &q, &b, &pts)?;
                    ensure!((p == q) == (r_trim(&a) == r_trim(&b)), "p == q is {} for {a:?} and {b:?}", p == q);
                    Ok((p, q, a, b))
                });
                if let Some((p, q, a, b)) = r {
                    if a.len() <= cap && b.len() <= cap && w.state(&(part, format!("{p:?} {q:?} {a:?} {b:?}"))) {
                        let mut h = hist.clone();
                        h.push(op);
                        queue.push_back((p, q, a, b, h));
                    }
                }
            }
        }
    });
}

fn p01(c: &mut Check) {
    let nmax = c.by(16usize, 28, 52);
    c.suite("symbolic-shapes", &format!("all pairs of lengths 0..={nmax}, generic coefficients of the free non-commutative ring, evaluated at a generic point"), nmax + 1, |w, m| {
        for n in 0..=nmax {
            let (a, b) = (free_poly(0, m, 0), free_poly(1000, n, 0));
            let x = [Free::gen(9999)];
            w.case(|| format!("lengths {m} and {n}, generic coefficients"), |w| {
                w.distinct(1);
                let k = all_ops(&a, &b, &x)?;
                w.ops(k);
                w.outcome(&(m, n));
                Ok(())
            });
        }
    });
    let zmax = c.by(5usize, 6, 8);
    c.suite("symbolic-zero-patterns", &format!("all pairs of lengths 0..={zmax} with every pattern of zero coefficients, others generic"), words_upto(2, zmax), |w, i| {
        let za = word(i, 2);
        let a = free_poly(0, za.len(), za.iter().enumerate().map(|(k, z)| z << k).sum());
        let x = [Free::gen(9999)];
        for j in 0..words_upto(2, zmax) {
            let zb = word(j, 2);
            let b = free_poly(1000, zb.len(), zb.iter().enumerate().map(|(k, z)| z << k).sum());
            w.case(|| format!("p={a:?} q={b:?}"), |w| {
                w.distinct(1);
                let k = all_ops(&a, &b, &x)?;
                w.ops(k);
                Ok(())
            });
        }
    });
    // shared generators: the second operand overlaps with the first (aliasing by value), negated or shifted
    let smax = c.by(8usize, 12, 16);
    c.suite("symbolic-related", &format!("lengths 0..={smax}: q a copy, a negative, a prefix, a shift of p"), smax + 1, |w, m| {
        let a = free_poly(0, m, 0);
        let x = [Free::gen(9999)];
        for n in 0..=m + 2 {
            for v in 0..3 {
                let b: Vec<Free> = (0..n)
                    .map(|i| match v {
                        0 => a.get(i).cloned().unwrap_or(Free::z()),
                        1 => a.get(i).map(|x| x.n()).unwrap_or(Free::o()),
                        _ => if i == 0 { Free::z() } else { a.get(i - 1).cloned().unwrap_or(Free::z()) },
                    })
                    .collect();
                w.case(|| format!("p={a:?} q={b:?}"), |w| {
                    w.distinct(1);
                    let k = all_ops(&a, &b, &x)? + all_ops(&b, &a, &x)?;
                    w.ops(k);
                    if n == m && v == 0 {
                        let p = poly(&a);
                        same("&p * &p (one object)", &(&p * &p), &r_mul(&a, &a), &x)?;
                    }
                    Ok(())
                });
            }
        }
    });
    let gmax = c.by(48usize, 130, 260);
    c.suite("generic-lengths", &format!("all pairs of lengths 0..={gmax}, single generic point of 2x2 matrices over Z/2^64"), gmax + 1, |w, m| {
        let a: Vec<G> = (0..m as u64).map(gpt).collect();
        for n in 0..=gmax {
            let b: Vec<G> = (0..n as u64).map(|i| gpt(5000 + i)).collect();
            w.case(|| format!("lengths {m} and {n}, generic point"), |w| {
                w.distinct(1);
                let k = all_ops(&a, &b, &[gpt(99999)])?;
                w.ops(k);
                Ok(())
            });
        }
    });
    let plens: Vec<usize> = c.by(vec![1, 2, 4, 7, 16, 33], vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129]);
    let plens = &plens;
    c.suite("structured", &format!("all pairs of lengths from {plens:?} and {PATTERNS} patterns of values each (zeros, ones, sparse, halves, palindromes, equal, products vanishing), and related operands (equal, negated, reversed)"), plens.len() * PATTERNS, |w, i| {
        let (m, ka) = (plens[i / PATTERNS], i % PATTERNS);
        let a = pattern(ka, m, 0);
        let pts = [gpt(99999)];
        for &n in plens {
            for kb in 0..PATTERNS {
                let b = pattern(kb, n, 5000);
                w.case(|| format!("length {m} pattern {ka}, length {n} pattern {kb}"), |w| {
                    w.distinct(1);
                    let k = all_ops(&a, &b, &pts)?;
                    w.ops(k);
                    Ok(())
                });
            }
        }
        for v in 0..3 {
            let b: Vec<G> = match v {
                0 => a.clone(),
                1 => a.iter().map(|x| x.n()).collect(),
                _ => a.iter().rev().cloned().collect(),
            };
            w.case(|| format!("length {m} pattern {ka}, related operand {v}"), |w| {
                w.distinct(1);
                let k = all_ops(&a, &b, &pts)?;
                w.ops(k);
                let p = poly(&a);
                same("&p * &p (one object)", &(&p * &p), &r_mul(&a, &a), &pts)
            });
        }
    });
    // spare capacity of the coefficient vectors
    let mut ls: Vec<usize> = (0..=c.by(6usize, 9, 14)).collect();
    ls.extend([17, 33, 65]);
    let ls = &ls;
    c.suite("capacities", &format!("all pairs of lengths from {ls:?}, each operand built from a vector with one of 6 capacities; every operator form with operands of its own"), ls.len(), |w, i| {
        let m = ls[i];
        let a: Vec<G> = (0..m as u64).map(gpt).collect();
        let caps = |n: usize| [n, n + 1, 2 * n + 2, 3 * n + 5, 66, 1000];
        let x = [gpt(99999)];
        for &n in ls {
            let b: Vec<G> = (0..n as u64).map(|i| gpt(5000 + i)).collect();
            let (sum, dif, prod) = (r_add(&a, &b), r_add(&a, &r_neg(&b)), r_mul(&a, &b));
            for ca in caps(m) {
                for cb in caps(n) {
                    w.case(|| format!("lengths {m} and {n}, capacities {ca} and {cb}"), |w| {
                        let p = || roomy(&a, ca);
                        let q = || roomy(&b, cb);
                        w.distinct(1);
                        w.ops(12);
                        same("p + q", &(p() + q()), &sum, &x)?;
                        same("p - q", &(p() - q()), &dif, &x)?;
                        same("p * q", &(p() * q()), &prod, &x)?;
                        same("&p * &q", &(&p() * &q()), &prod, &x)?;
                        same("-p", &-p(), &r_neg(&a), &x)?;
                        let (mut t, u) = (p(), q());
                        t += &u;
                        same("p += &q", &t, &sum, &x)?;
                        same("q after p += &q", &u, &b, &x)?;
                        t -= &u;
                        same("p += &q; p -= &q", &t, &a, &x)?;
                        t += q();
                        same("p += &q; p -= &q; p += q", &t, &sum, &x)?;
                        t -= q();
                        same("p += &q; p -= &q; p += q; p -= q", &t, &a, &x)?;
                        let mut t = p();
                        t += q();
                        same("p += q", &t, &sum, &x)?;
                        let mut t = p();
                        t -= q();
                        same("p -= q", &t, &dif, &x)?;
                        let mut t = p();
                        t -= &u;
                        same("p -= &q", &t, &dif, &x)?;
                        let mut t = p();
                        t *= q();
                        same("p *= q", &t, &prod, &x)
                    });
                }
            }
        }
    });
    let mut spots = vec![0usize, 1, 2, 3, 7, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513];
    if !c.quick() {
        spots.extend([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000]);
    }
    c.suite("generic-long", &format!("all pairs of lengths from {spots:?}, single generic point"), spots.len(), |w, i| {
        let m = spots[i];
        let a: Vec<G> = (0..m as u64).map(gpt).collect();
        for &n in &spots {
            let b: Vec<G> = (0..n as u64).map(|i| gpt(50000 + i)).collect();
            w.case(|| format!("lengths {m} and {n}, generic point"), |w| {
                w.distinct(1);
                let k = all_ops_sel(&a, &b, &[gpt(99999)], m * n <= 1 << 21)?;
                w.ops(k);
                Ok(())
            });
        }
    });
    let big = c.by(vec![4096usize], vec![4095, 4096, 4097, 65535, 65536, 65537], vec![4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 262144, 1000000]);
    let little = c.by(4usize, 9, 34);
    c.suite("generic-lopsided", &format!("all pairs of one length from {big:?} and one from 0..={little}, both ways round, single generic point"), big.len() * (little + 1), |w, i| {
        let (m, n) = (big[i % big.len()], i / big.len());
        let a: Vec<G> = (0..m as u64).map(gpt).collect();
        let b: Vec<G> = (0..n as u64).map(|i| gpt(5000000 + i)).collect();
        w.case(|| format!("lengths {m} and {n}, generic point"), |w| {
            w.distinct(2);
            let k = all_ops(&a, &b, &[gpt(99999)])? + all_ops(&b, &a, &[gpt(99999)])?;
            w.ops(k);
            Ok(())
        });
    });
    let huge = [(0usize, 1_000_003usize), (1, 1_000_003), (2, 1_048_577), (1_000_003, 1_000_003), (1_000_003, 1_048_577), (70_000, 1_000_003)];
    c.suite("huge", &format!("pairs of lengths {huge:?}, both ways round, at a generic point, on the usual stack of a thread (2 MB): every operator form (products only with short operands)"), huge.len(), |w, i| {
        let (m, n) = huge[i];
        w.case(|| format!("lengths {m} and {n}, generic point, small stack"), |w| {
            w.distinct(2);
            let k = small_stack(|| {
                let a: Vec<G> = (0..m as u64).map(gpt).collect();
                let b: Vec<G> = (0..n as u64).map(|i| gpt(5000000 + i)).collect();
                Ok::<u64, String>(all_ops_sel(&a, &b, &[gpt(99999)], m < 3)? + all_ops_sel(&b, &a, &[gpt(99999)], m < 3)?)
            })??;
            w.ops(k);
            Ok(())
        });
    });
    c.suite("constants", "zero and one over several rings, all as operands", 1, |w, _| {
        w.case(|| "zero and one".into(), |w| {
            let x = [Free::gen(3), Free::z(), Free::o()];
            same("zero()", &Polynomial::<Free>::zero(), &[], &x)?;
            same("one()", &Polynomial::<Free>::one(), &[Free::o()], &x)?;
            same("zero()", &Polynomial::<Zn<2>>::zero(), &[], &[Zn(0), Zn(1)])?;
            same("one()", &Polynomial::<Zn<2>>::one(), &[Zn(1)], &[Zn(0), Zn(1)])?;
            w.ops(4);
            w.distinct(4);
            Ok(())
        });
    });
    exhaustive::<Zn<2>>(c, "exhaustive-Z2", c.by(6, 7, 9));
    exhaustive::<Zn<3>>(c, "exhaustive-Z3", c.by(4, 5, 6));
    exhaustive::<Zn<4>>(c, "exhaustive-Z4", c.by(3, 4, 5));
    exhaustive::<M2<Zn<2>>>(c, "exhaustive-M2(Z2)", c.by(2, 2, 3));
    history::<Zn<2>>(c, "histories-Z2", c.by(6, 7, 8), c.by(30, 40, 50));
    history::<Zn<3>>(c, "histories-Z3", c.by(4, 5, 6), c.by(24, 30, 36));
    c.assume("Symbolic suites rely on data independence: Polynomial<T> is generic in T: Ring, so its code reaches coefficients only through ring operations and ==.");
}

fn p02(c: &mut Check) {
    let nmax = c.by(60usize, 160, 300);
    c.suite("symbolic", &format!("all lengths 0..={nmax}, generic coefficients and point of the free ring"), nmax + 1, |w, n| {
        let a = free_poly(0, n, 0);
        for (k, x) in [Free::gen(9999), Free::z(), Free::o(), Free::o().n(), Free::gen(0)].into_iter().enumerate() {
            w.case(|| format!("length {n}, x={x:?}"), |w| {
                w.distinct(1);
                w.ops(2);
                w.outcome(&(n, k));
                let want = r_eval(&a, &x);
                let p = poly(&a);
                let (g, h) = (p.eval_ref(&x), p.eval(x.clone()));
                ensure!(g == want, "eval_ref: {g:?}, expected {want:?}");
                ensure!(h == want, "eval: {h:?}, expected {want:?}");
                ensure!(p.eval_ref(&x) == want, "second eval_ref differs");
                Ok(())
            });
        }
    });
    let zmax = c.by(10usize, 14, 18);
    c.suite("symbolic-zero-patterns", &format!("lengths 0..={zmax}, every pattern of zero and one coefficients (others generic)"), zmax + 1, |w, n| {
        for z in 0..1usize << n {
            for ones in [false, true] {
                let a: Vec<Free> = (0..n).map(|i| if z >> i & 1 == 0 { Free::gen(i as u32) } else if ones { Free::o() } else { Free::z() }).collect();
                let x = Free::gen(9999);
                w.case(|| format!("p={a:?}"), |w| {
                    w.distinct(1);
                    w.ops(2);
                    let want = r_eval(&a, &x);
                    let p = poly(&a);
                    ensure!(p.eval_ref(&x) == want, "eval_ref: {:?}, expected {want:?}", p.eval_ref(&x));
                    ensure!(p.eval(x.clone()) == want, "eval differs from {want:?}");
                    Ok(())
                });
            }
        }
    });
    let lens: Vec<usize> = (0..c.by(300, 1500, 5000)).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    c.suite("generic-long", &format!("lengths 0..{} and around powers of two up to 65537, single generic point", lens.len() - 13), lens.len(), |w, i| {
        let n = lens[i];
        let a: Vec<G> = (0..n as u64).map(gpt).collect();
        let x = gpt(1 << 40);
        w.case(|| format!("length {n}, generic point"), |w| {
            w.distinct(1);
            w.ops(2);
            let want = r_eval(&a, &x);
            let p = poly(&a);
            ensure!(p.eval_ref(&x) == want, "eval_ref differs");
            ensure!(p.eval(x) == want, "eval differs");
            Ok(())
        });
    });
    let huge = [300_000usize, 1_000_003, 1 << 20, (1 << 21) + 1];
    c.suite("huge", &format!("lengths {huge:?} at a generic point, on the usual stack of a thread (2 MB)"), huge.len(), |w, i| {
        let n = huge[i];
        w.case(|| format!("length {n}, generic point, small stack"), |w| {
            w.distinct(1);
            w.ops(2);
            small_stack(|| {
                let a: Vec<G> = (0..n as u64).map(gpt).collect();
                let x = gpt(1 << 40);
                let want = r_eval(&a, &x);
                let p = poly(&a);
                ensure!(p.eval_ref(&x) == want, "eval_ref differs");
                ensure!(p.eval(x) == want, "eval differs");
                Ok::<(), String>(())
            })?
        });
    });
    let slens: Vec<usize> = (1..c.by(70, 140, 300)).chain([255, 256, 257, 511, 512, 513, 1024, 1025]).collect();
    c.suite("structured", &format!("lengths 1..{} and around powers of two up to 1025, {PATTERNS} patterns of coefficients (zeros, ones, sparse, halves, equal), at a generic, a nilpotent, an idempotent point, 0, 1, -1, 2", slens.len() - 7), slens.len(), |w, i| {
        let n = slens[i];
        let M2(x) = gpt(7777);
        let (z, o) = (W::z(), W::o());
        let pts = [gpt(1 << 40), M2([z.clone(), x[0].clone(), z.clone(), z.clone()]), M2([o.clone(), x[1].clone(), z.clone(), z.clone()]), G::z(), G::o(), G::o().n(), G::o().a(&G::o())];
        for k in 0..PATTERNS {
            let a = pattern(k, n, 0);
            let p = poly(&a);
            for (j, x) in pts.iter().enumerate() {
                w.case(|| format!("length {n}, pattern {k}, point {j}"), |w| {
                    w.distinct(1);
                    w.ops(2);
                    let want = r_eval(&a, x);
                    let (g, h) = (p.eval_ref(x), p.clone().eval(x.clone()));
                    ensure!(g == want, "eval_ref: {g:?}, expected {want:?}");
                    ensure!(h == want, "eval: {h:?}, expected {want:?}");
                    Ok(())
                });
            }
        }
    });
    fn exh<R: Fin + Send + Sync>(c: &mut Check, name: &str, len: usize) {
        let n = words_upto(R::N, len);
        c.suite(name, &format!("all polynomials with at most {len} coefficients at all points of a ring of {} elements", R::N), n.min(64), |w, part| {
            for i in (part..n).step_by(64) {
                let a: Vec<R> = word(i, R::N).into_iter().map(R::nth).collect();
                w.case(|| format!("p={a:?}, all points"), |w| {
                    for x in (0..R::N).map(R::nth) {
                        w.distinct(1);
                        w.ops(2);
                        let want = r_eval(&a, &x);
                        let p = poly(&a);
                        ensure!(p.eval_ref(&x) == want, "eval_ref at {x:?}: {:?}, expected {want:?}", p.eval_ref(&x));
                        ensure!(p.eval(x.clone()) == want, "eval at {x:?} differs from {want:?}");
                    }
                    Ok(())
                });
            }
        });
    }
    exh::<Zn<2>>(c, "exhaustive-Z2", c.by(14, 17, 21));
    exh::<Zn<3>>(c, "exhaustive-Z3", c.by(8, 10, 13));
    exh::<Zn<4>>(c, "exhaustive-Z4", c.by(6, 8, 10));
    exh::<M2<Zn<2>>>(c, "exhaustive-M2(Z2)", c.by(3, 4, 5));
    fn hom<R: Fin + Send + Sync>(c: &mut Check, name: &str, len: usize) {
        let n = words_upto(R::N, len);
        c.suite(name, &format!("evaluation as a ring homomorphism: all pairs of polynomials of length <= {len} and all points of a commutative ring of {} elements", R::N), n, |w, part| {
            let a: Vec<R> = word(part, R::N).into_iter().map(R::nth).collect();
            let p = poly(&a);
            for j in 0..n {
                let b: Vec<R> = word(j, R::N).into_iter().map(R::nth).collect();
                let q = poly(&b);
                w.case(|| format!("p={a:?} q={b:?}, all points"), |w| {
                    let (s, d, m, g) = (p.clone() + q.clone(), p.clone() - q.clone(), &p * &q, -p.clone());
                    for x in (0..R::N).map(R::nth) {
                        w.distinct(1);
                        w.ops(4);
                        let (u, v) = (p.eval_ref(&x), q.eval_ref(&x));
                        ensure!(s.eval_ref(&x) == u.a(&v), "(p+q)({x:?}) = {:?}", s.eval_ref(&x));
                        ensure!(d.eval_ref(&x) == u.s(&v), "(p-q)({x:?}) = {:?}", d.eval_ref(&x));
                        ensure!(m.eval_ref(&x) == u.m(&v), "(p*q)({x:?}) = {:?}", m.eval_ref(&x));
                        ensure!(g.eval_ref(&x) == u.n(), "(-p)({x:?}) = {:?}", g.eval_ref(&x));
                    }
                    Ok(())
                });
            }
        });
    }
    hom::<Zn<2>>(c, "homomorphism-Z2", c.by(6, 8, 10));
    hom::<Zn<5>>(c, "homomorphism-Z5", c.by(3, 4, 5));
    hom::<Zn<4>>(c, "homomorphism-Z4", c.by(3, 4, 5));
    hom::<Gi<Zn<2>>>(c, "homomorphism-Z2[i]", c.by(3, 4, 5));
    c.assume("Symbolic suites rely on data independence of code generic in T: Ring.");
}

fn p03(c: &mut Check) {
    fn exh<R: Fin + Send + Sync>(c: &mut Check, name: &str, len: usize) {
        let n = words_upto(R::N, len);
        c.suite(name, &format!("all pairs of coefficient lists of length <= {len} over a ring of {} elements", R::N), n, |w, part| {
            let a: Vec<R> = word(part, R::N).into_iter().map(R::nth).collect();
            let (p, ta) = (poly(&a), r_trim(&a));
            w.case(|| format!("p={a:?} against all q"), |w| {
                for j in 0..n {
                    let b: Vec<R> = word(j, R::N).into_iter().map(R::nth).collect();
                    let q = poly(&b);
                    let want = ta == r_trim(&b);
                    w.distinct(1);
                    w.ops(2);
                    ensure!((p == q) == want, "p={a:?} q={b:?}: == gives {}", !want);
                    ensure!((p != q) != want, "p={a:?} q={b:?}: != gives {}", want);
                }
                w.outcome(&ta.len());
                Ok(())
            });
        });
    }
    exh::<Zn<2>>(c, "exhaustive-Z2", c.by(9, 11, 13));
    exh::<Zn<3>>(c, "exhaustive-Z3", c.by(6, 7, 8));
    exh::<Zn<5>>(c, "exhaustive-Z5", c.by(4, 5, 6));
    exh::<M2<Zn<2>>>(c, "exhaustive-M2(Z2)", c.by(2, 3, 3));
    // results of arithmetic
    fn arith<R: Fin + Send + Sync>(c: &mut Check, name: &str, len: usize) {
        let n = words_upto(R::N, len);
        c.suite(name, &format!("equalities between results of operations on all pairs of polynomials of length <= {len} over a ring of {} elements", R::N), n, |w, part| {
            let a: Vec<R> = word(part, R::N).into_iter().map(R::nth).collect();
            let p = poly(&a);
            for j in 0..n {
                let b: Vec<R> = word(j, R::N).into_iter().map(R::nth).collect();
                let q = poly(&b);
                w.case(|| format!("p={a:?} q={b:?}"), |w| {
                    w.distinct(1);
                    w.ops(9);
                    let zero = Polynomial::<R>::zero();
                    ensure!(p.clone() - p.clone() == zero && zero == p.clone() - p.clone(), "p - p != 0");
                    ensure!((p.clone() + q.clone()) - q.clone() == p, "(p + q) - q != p");
                    ensure!(p == (p.clone() - q.clone()) + q.clone(), "(p - q) + q != p");
                    ensure!(q.clone() + p.clone() == p.clone() + q.clone(), "p + q != q + p");
                    ensure!(-(p.clone() - q.clone()) == q.clone() - p.clone(), "-(p - q) != q - p");
                    ensure!(&p * &zero == zero && &zero * &p == zero, "p * 0 != 0");
                    ensure!(&p * &Polynomial::one() == p, "p * 1 != p");
                    ensure!((p.clone() - q.clone() == zero) == (p == q), "p - q == 0 does not agree with p == q");
                    let mut s = p.clone();
                    s -= &q;
                    s += q.clone();
                    ensure!(s == p, "p -= q; p += q does not restore p");
                    ensure!(r_trim(&a) != r_trim(&b) || (&p * &q == &q * &p), "equal operands, different products");
                    Ok(())
                });
            }
        });
    }
    arith::<Zn<2>>(c, "arithmetic-Z2", c.by(7, 8, 9));
    arith::<Zn<3>>(c, "arithmetic-Z3", c.by(4, 5, 6));
    arith::<Zn<4>>(c, "arithmetic-Z4", c.by(3, 4, 5));
    // floats: signed zeros are zeros, NaN never agrees
    c.suite("floats", "all pairs of coefficient lists of length <= 4 over {0, -0, 1, -1, NaN} (f64) and the same in f32", words_upto(5, 4), |w, part| {
        let al = [0.0f64, -0.0, 1.0, -1.0, f64::NAN];
        let a: Vec<f64> = word(part, 5).into_iter().map(|i| al[i]).collect();
        w.case(|| format!("p={a:?} against all q"), |w| {
            for j in 0..words_upto(5, 4) {
                let b: Vec<f64> = word(j, 5).into_iter().map(|i| al[i]).collect();
                let want = (0..4).all(|i| a.get(i).unwrap_or(&0.0) == b.get(i).unwrap_or(&0.0));
                w.distinct(1);
                w.ops(4);
                let (p, q) = (poly(&a), poly(&b));
                ensure!((p == q) == want && (p != q) != want, "f64 {a:?} == {b:?} gives {}", p == q);
                let f = |v: &[f64]| Polynomial::from_coefficients(v.iter().map(|x| *x as f32).collect::<Vec<f32>>());
                ensure!((f(&a) == f(&b)) == want && (f(&a) != f(&b)) != want, "f32 {a:?} == {b:?} gives {}", f(&a) == f(&b));
            }
            Ok(())
        });
    });
    // polynomials with polynomial, complex or matrix coefficients
    c.suite("nested", "Polynomial<Polynomial<Z2>>: all pairs of lists of length <= 3 of lists of length <= 2", words_upto(7, 3), |w, part| {
        let inner = |i: usize| -> Vec<Zn<2>> { word(i, 2).into_iter().map(|x| Zn(x as u16)).collect() };
        let mk = |k: usize| -> (Polynomial<Polynomial<Zn<2>>>, Vec<Vec<Zn<2>>>) {
            let v: Vec<Vec<Zn<2>>> = word(k, 7).into_iter().map(inner).collect();
            let mut m: Vec<Vec<Zn<2>>> = v.iter().map(|x| r_trim(x)).collect();
            while m.last().is_some_and(|x| x.is_empty()) {
                m.pop();
            }
            (Polynomial::from_coefficients(v.iter().map(|x| poly(x)).collect()), m)
        };
        let (p, m) = mk(part);
        w.case(|| format!("p={p:?} against all q"), |w| {
            for j in 0..words_upto(7, 3) {
                let (q, n) = mk(j);
                w.distinct(1);
                w.ops(2);
                ensure!((p == q) == (m == n) && (p != q) == (m != n), "p={p:?} q={q:?}: == gives {}", p == q);
            }
            Ok(())
        });
    });
    let huge = [300_000usize, 1_000_003, (1 << 20) + 1];
    c.suite("huge", &format!("lengths {huge:?} on the usual stack of a thread (2 MB): padding with zeros, a single differing coefficient at the ends and in the middle"), huge.len(), |w, i| {
        let n = huge[i];
        w.case(|| format!("length {n}, small stack"), |w| {
            w.distinct(8);
            w.ops(40);
            small_stack(|| {
                let base: Vec<Zn<3>> = (0..n).map(|i| Zn((splitmix(i as u64) % 3) as u16)).collect();
                let p = poly(&base);
                let z = poly(&vec![Zn::<3>(0); n]);
                ensure!(z == Polynomial::zero() && Polynomial::zero() == z && p != z && p.clone() - p.clone() == z, "zero polynomials of length {n}");
                for extra in [0, 1, n] {
                    let mut b = base.clone();
                    b.extend(vec![Zn(0); extra]);
                    let q = poly(&b);
                    ensure!(p == q && q == p && !(p != q), "padding with {extra} zeros changes the polynomial");
                    b.push(Zn(1));
                    let q = poly(&b);
                    ensure!(p != q && q != p && !(p == q), "a non-zero coefficient {extra} beyond the end is ignored");
                }
                for i in [0, 1, n / 2, n - 2, n - 1] {
                    let mut b = base.clone();
                    b[i] = b[i].a(&Zn(1));
                    let q = poly(&b);
                    ensure!(p != q && q != p, "difference in coefficient {i} of {n} is ignored");
                }
                Ok::<(), String>(())
            })?
        });
    });
    let lmax = c.by(300usize, 1000, 3000);
    c.suite("long", &format!("lengths 0..={lmax}: padding with zeros, single differing coefficient at every position"), 64, |w, part| {
        for n in (part..=lmax).step_by(64) {
            w.case(|| format!("length {n}"), |w| {
                let z = poly(&vec![Zn::<3>(0); n]);
                ensure!(z == Polynomial::zero() && Polynomial::zero() == z, "{n} zeros != zero()");
                let base: Vec<Zn<3>> = (0..n).map(|i| Zn((splitmix(i as u64) % 3) as u16)).collect();
                let p = poly(&base);
                for extra in [0, 1, 2, 3, n, 2 * n + 1] {
                    let mut b = base.clone();
                    b.extend(vec![Zn(0); extra]);
                    let q = poly(&b);
                    ensure!(p == q && q == p && !(p != q), "padding with {extra} zeros changes the polynomial");
                    w.ops(3);
                    w.distinct(1);
                    b.push(Zn(1));
                    let q = poly(&b);
                    ensure!(p != q && q != p && !(p == q), "a non-zero coefficient {extra} beyond the end is ignored");
                }
                for i in 0..n {
                    let mut b = base.clone();
                    b[i] = b[i].a(&Zn(1));
                    let q = poly(&b);
                    w.ops(2);
                    w.distinct(1);
                    ensure!(p != q && q != p, "difference in coefficient {i} of {n} is ignored");
                    b.push(Zn(0));
                    let q = poly(&b);
                    ensure!(p != q && q != p, "difference in coefficient {i} of {n} is ignored after padding");
                }
                Ok(())
            });
        }
    });
}

fn main() {
    fn _debug<T: Debug>() {}
    main_for(&[("P01", p01), ("P02", p02), ("P03", p03)])
}
