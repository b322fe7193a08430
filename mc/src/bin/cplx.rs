//! C01, C02: complex numbers over exact rings and fields.
use magnesia::algebra::{Complex, Conj, Field, MulRefs, DivRefs, One, Polynomial, Ring, Zero};
use magnesia::linalg::SMatrix;
use mc::engine::*;
use mc::ensure;
use mc::rings::*;
use std::collections::VecDeque;

fn cx<R: Clone>(g: &Gi<R>) -> Complex<R> {
    Complex { re: g.0.clone(), im: g.1.clone() }
}
fn eqc<R: FullEl>(what: &str, got: &Complex<R>, want: &Gi<R>) -> Result<(), String> {
    ensure!(got.re == want.0 && got.im == want.1, "{what}: got {:?} + i {:?}, expected {want:?}", got.re, got.im);
    Ok(())
}

/// All operators on one pair of operands and a scalar.
fn all_ops<R: FullEl>(a: &Gi<R>, b: &Gi<R>, s: &R) -> Result<u64, String> {
    let (p, q) = (cx(a), cx(b));
    let mut n = 0;
    let mut ck = |what: &str, got: &Complex<R>, want: &Gi<R>| {
        n += 1;
        eqc(what, got, want)
    };
    let (sum, dif, prod) = (a.a(b), a.s(b), a.m(b));
    ck("new", &Complex::new(a.0.clone(), a.1.clone()), a)?;
    ck("a + b", &(p.clone() + q.clone()), &sum)?;
    ck("a + (refs of b)", &(p.clone() + Complex { re: &q.re, im: &q.im }), &sum)?;
    let mut t = p.clone();
    t += q.clone();
    ck("a += b", &t, &sum)?;
    let mut t = p.clone();
    t += &q;
    ck("a += &b", &t, &sum)?;
    let mut t = p.clone();
    t += Complex { re: &q.re, im: &q.im };
    ck("a += (refs of b)", &t, &sum)?;
    ck("a - b", &(p.clone() - q.clone()), &dif)?;
    ck("a - (refs of b)", &(p.clone() - Complex { re: &q.re, im: &q.im }), &dif)?;
    let mut t = p.clone();
    t -= q.clone();
    ck("a -= b", &t, &dif)?;
    let mut t = p.clone();
    t -= &q;
    ck("a -= &b", &t, &dif)?;
    let mut t = p.clone();
    t -= Complex { re: &q.re, im: &q.im };
    ck("a -= (refs of b)", &t, &dif)?;
    ck("a * b", &(p.clone() * q.clone()), &prod)?;
    ck("&a * &b", &(&p * &q), &prod)?;
    ck("a.mul_refs(&b)", &p.mul_refs(&q), &prod)?;
    let mut t = p.clone();
    t *= q.clone();
    ck("a *= b", &t, &prod)?;
    ck("-a", &-p.clone(), &a.n())?;
    ck("conj a", &p.clone().conj(), &Gi(a.0.clone(), a.1.n()))?;
    ck("a * s", &(p.clone() * s.clone()), &Gi(a.0.m(s), a.1.m(s)))?;
    let nrm = a.0.m(&a.0).a(&a.1.m(&a.1));
    ensure!(p.sqr_norm() == nrm, "sqr_norm: got {:?}, expected {nrm:?}", p.sqr_norm());
    ensure!((p == q) == (a == b), "== gives {}", p == q);
    ck("zero", &Complex::<R>::zero(), &Gi(R::z(), R::z()))?;
    ck("one", &Complex::<R>::one(), &Gi(R::o(), R::z()))?;
    ck("operand a afterwards", &p, a)?;
    ck("operand b afterwards", &q, b)?;
    Ok(n + 2)
}

fn exhaustive<R: Fin + Send + Sync>(c: &mut Check, name: &str, scalars: usize) {
    let n = R::N * R::N;
    c.suite(name, &format!("all pairs of complex numbers over a ring of {} elements with {} scalars", R::N, R::N.min(scalars)), n, |w, part| {
        let a = Gi::<R>::nth(part);
        for j in 0..n {
            let b = Gi::<R>::nth(j);
            w.case(|| format!("a={a:?} b={b:?}"), |w| {
                for k in 0..R::N.min(scalars) {
                    w.distinct(1);
                    let m = all_ops(&a, &b, &R::nth(k))?;
                    w.ops(m);
                }
                w.outcome(&a.m(&b));
                Ok(())
            });
        }
    });
}

fn history<R: Fin + Send + Sync>(c: &mut Check, name: &str) {
    c.suite(name, &format!("closure under all histories of two complex variables over a ring of {} elements", R::N), 1, |w, _| {
        const NAMES: [&str; 14] = ["p+=q", "p+=&q", "p=p+q", "p-=q", "p-=&q", "p=p-q", "p*=q", "p=&p*&q", "p=p*q", "p=-p", "p=conj p", "swap", "p=one", "p=p*s"];
        let mut queue = VecDeque::new();
        for i in 0..R::N {
            let (a, b) = (Gi(R::nth(i), R::o()), Gi(R::z(), R::nth(i)));
            if w.state(&(a.clone(), b.clone())) {
                queue.push_back((cx(&a), cx(&b), a, b, vec![]));
            }
        }
        while let Some((p, q, a, b, hist)) = queue.pop_front() {
            for op in 0..NAMES.len() {
                let d = || format!("p={p:?}, q={q:?}, then {} (history {hist:?})", NAMES[op]);
                let r = w.step(d, |w| {
                    w.ops(1);
                    let (mut p, mut q, mut a, mut b) = (p.clone(), q.clone(), a.clone(), b.clone());
                    match op {
                        0 => { p += q.clone(); a = a.a(&b) }
                        1 => { p += &q; a = a.a(&b) }
                        2 => { p = p + q.clone(); a = a.a(&b) }
                        3 => { p -= q.clone(); a = a.s(&b) }
                        4 => { p -= &q; a = a.s(&b) }
                        5 => { p = p - q.clone(); a = a.s(&b) }
                        6 => { p *= q.clone(); a = a.m(&b) }
                        7 => { p = &p * &q; a = a.m(&b) }
                        8 => { p = p * q.clone(); a = a.m(&b) }
                        9 => { p = -p; a = a.n() }
                        10 => { p = p.conj(); a = Gi(a.0.clone(), a.1.n()) }
                        11 => { std::mem::swap(&mut p, &mut q); std::mem::swap(&mut a, &mut b) }
                        12 => { p = Complex::one(); a = Gi::o() }
                        _ => { p = p * q.re.clone(); a = Gi(a.0.m(&b.0), a.1.m(&b.0)) }
                    }
                    eqc("p", &p, &a)?;
                    eqc("q", &q, &b)?;
                    Ok((p, q, a, b))
                });
                if let Some((p, q, a, b)) = r {
                    if w.state(&(a.clone(), b.clone())) {
                        let mut h = hist.clone();
                        h.push(op);
                        if h.len() > 6 {
                            h.remove(0);
                        }
                        queue.push_back((p, q, a, b, h));
                    }
                }
            }
        }
    });
}

fn free_alphabet(slot: u32) -> Vec<Free> {
    let g = Free::gen(slot);
    vec![g.clone(), Free::z(), Free::o(), Free::o().n(), g.n(), Free::gen(77), Free::gen(77).n(), g.a(&Free::gen(78)).m(&Free::gen(79))]
}

fn c01(c: &mut Check) {
    c.suite("symbolic", "both operands and the scalar built from generators of the free non-commutative ring: 8 forms per component (generic, 0, 1, -1, negated, shared, compound)", 64, |w, part| {
        let (i, j) = (part / 8, part % 8);
        for k in 0..8 {
            for l in 0..8 {
                for m in 0..8 {
                    let a = Gi(free_alphabet(0)[i].clone(), free_alphabet(1)[j].clone());
                    let b = Gi(free_alphabet(2)[k].clone(), free_alphabet(3)[l].clone());
                    let s = free_alphabet(4)[m].clone();
                    w.case(|| format!("a={a:?} b={b:?} s={s:?}"), |w| {
                        w.distinct(1);
                        let n = all_ops(&a, &b, &s)?;
                        w.ops(n);
                        w.outcome(&a.m(&b));
                        Ok(())
                    });
                }
            }
        }
    });
    // one object as both operands
    c.suite("symbolic-self", "a op a with one object", 1, |w, _| {
        for i in 0..64 {
            let a = Gi(free_alphabet(0)[i / 8].clone(), free_alphabet(1)[i % 8].clone());
            w.case(|| format!("a={a:?}"), |w| {
                w.distinct(1);
                w.ops(4);
                let p = cx(&a);
                eqc("&a * &a", &(&p * &p), &a.m(&a))?;
                eqc("a conj conj", &p.clone().conj().conj(), &a)?;
                let z = &p * &p.clone().conj();
                // a * conj(a) has the squared norm as real part and a commutator as imaginary part
                ensure!(z.re == p.sqr_norm(), "re(a conj a) = {:?} but sqr_norm = {:?}", z.re, p.sqr_norm());
                ensure!(z.im == a.1.m(&a.0).s(&a.0.m(&a.1)), "im(a conj a) = {:?}", z.im);
                Ok(())
            });
        }
    });
    c.suite("different-component-types", "sum, difference and their in-place forms of complex numbers whose component types differ and whose sum has a third type: every sequence of up to 6 in-place operations", 1, |w, _| {
        use mc::mixed::{Acc, A, B, S};
        w.case(|| "a + b, a - b".into(), |w| {
            w.distinct(1);
            w.ops(2);
            let (a, b) = (Complex::new(A(1), A(2)), Complex::new(B(3), B(4)));
            ensure!(a.clone() + b.clone() == Complex::new(S('+', 1, 3), S('+', 2, 4)), "a + b = {:?}", a + b);
            ensure!(a.clone() - b.clone() == Complex::new(S('-', 1, 3), S('-', 2, 4)), "a - b = {:?}", a - b);
            Ok(())
        });
        for n in 0..7u32 {
            for word in 0..1u32 << n {
                w.case(|| format!("{n} in-place operations, word {word:#b}"), |w| {
                    w.distinct(1);
                    w.ops(n as u64);
                    let mut x = Complex::new(Acc(7, vec![]), Acc(8, vec![]));
                    let mut m = (Acc(7, vec![]), Acc(8, vec![]));
                    for k in 0..n {
                        let b = Complex::new(B(2 * k), B(2 * k + 1));
                        let o = if word >> k & 1 == 1 { '-' } else { '+' };
                        if o == '-' { x -= b } else { x += b }
                        m.0.1.push((o, 2 * k));
                        m.1.1.push((o, 2 * k + 1));
                    }
                    ensure!(x.re == m.0 && x.im == m.1, "{x:?}, expected {m:?}");
                    Ok(())
                });
            }
        }
    });
    // two levels: Complex<Complex<R>> in all operations, against the model over Gi<R>
    c.suite("nested", "Complex<Complex<Z3>>: all pairs, and generic points", 81, |w, part| {
        type N = Gi<Zn<3>>;
        let a: Gi<N> = Gi::nth(part);
        let up = |g: &Gi<N>| Complex::new(cx(&g.0), cx(&g.1));
        let eqn = |what: &str, got: &Complex<Complex<Zn<3>>>, want: &Gi<N>| -> Result<(), String> {
            eqc(what, &got.re, &want.0)?;
            eqc(what, &got.im, &want.1)
        };
        for j in 0..81 {
            let b: Gi<N> = Gi::nth(j);
            w.case(|| format!("a={a:?} b={b:?}"), |w| {
                w.distinct(1);
                w.ops(8);
                let (p, q) = (up(&a), up(&b));
                eqn("a + b", &(p + q), &a.a(&b))?;
                eqn("a - b", &(p - q), &a.s(&b))?;
                eqn("a * b", &(p * q), &a.m(&b))?;
                eqn("&a * &b", &(&p * &q), &a.m(&b))?;
                eqn("-a", &-p, &a.n())?;
                eqn("conj a", &p.conj(), &a.cj())?;
                eqn("a * s", &(p * q.re), &Gi(a.0.m(&b.0), a.1.m(&b.0)))?;
                let mut t = p;
                t += &q;
                t -= q;
                t *= q;
                eqn("a += &b; a -= b; a *= b", &t, &a.m(&b))?;
                eqc("sqr_norm", &p.sqr_norm(), &a.0.m(&a.0).a(&a.1.m(&a.1)))?;
                eqn("zero", &Complex::zero(), &Gi::z())?;
                eqn("one", &Complex::one(), &Gi::o())?;
                Ok(())
            });
        }
    });
    // matrices and polynomials as components (non-commutative, with zero divisors): model components compared with ==
    c.suite("matrix-and-polynomial-components", "Complex<SMatrix<Z3,2,2>> and Complex<Polynomial<Free>> with generic entries", 2, |w, part| {
        w.case(|| format!("instance {part}"), |w| {
            w.distinct(1);
            w.ops(6);
            if part == 0 {
                let mk = |i: u32| SMatrix::from([[Free::gen(i), Free::gen(i + 1)], [Free::gen(i + 2), Free::gen(i + 3)]]);
                law(Complex::new(mk(0), mk(10)), Complex::new(mk(20), mk(30)))
            } else {
                let mk = |i: u32| Polynomial::from_coefficients(vec![Free::gen(i), Free::gen(i + 1), Free::gen(i + 2)]);
                law(Complex::new(mk(0), mk(10)), Complex::new(mk(20), mk(30)))
            }
        });
        fn law<T: Ring + std::fmt::Debug>(a: Complex<T>, b: Complex<T>) -> Result<(), String> {
            let sub = |mut x: T, y: T| { x -= &y; x };
            let add = |mut x: T, y: T| { x += &y; x };
            let p = a.clone() * b.clone();
            ensure!(p.re == sub(a.re.mul_refs(&b.re), a.im.mul_refs(&b.im)), "re(a*b) = {:?}", p.re);
            ensure!(p.im == add(a.re.mul_refs(&b.im), a.im.mul_refs(&b.re)), "im(a*b) = {:?}", p.im);
            let s = a.clone() * b.re.clone();
            ensure!(s.re == a.re.mul_refs(&b.re) && s.im == a.im.mul_refs(&b.re), "a * s");
            let mut t = a.clone();
            t += &b;
            ensure!(t.re == add(a.re.clone(), b.re.clone()) && t.im == add(a.im.clone(), b.im.clone()), "a += &b");
            t -= &b;
            t -= &b;
            ensure!(t.re == sub(a.re.clone(), b.re.clone()) && t.im == sub(a.im.clone(), b.im.clone()), "a -= &b");
            let n = -a.clone();
            ensure!(n.re == -a.re.clone() && n.im == -a.im.clone(), "-a");
            ensure!(a.sqr_norm() == add(a.re.mul_refs(&a.re), a.im.mul_refs(&a.im)), "sqr_norm");
            Ok(())
        }
    });
    let (q, t) = (c.by(false, true, true), c.by(false, false, true));
    exhaustive::<Zn<2>>(c, "exhaustive-Z2", 2);
    exhaustive::<Zn<3>>(c, "exhaustive-Z3", 3);
    exhaustive::<Zn<4>>(c, "exhaustive-Z4", 4);
    exhaustive::<Zn<5>>(c, "exhaustive-Z5", 5);
    exhaustive::<Zn<8>>(c, "exhaustive-Z8", 8);
    if q {
        exhaustive::<Zn<11>>(c, "exhaustive-Z11", 11);
        exhaustive::<Zn<16>>(c, "exhaustive-Z16", 8);
    }
    if t {
        exhaustive::<Zn<25>>(c, "exhaustive-Z25", 25);
    }
    exhaustive::<M2<Zn<2>>>(c, "exhaustive-M2(Z2)", c.by(4, 8, 16));
    history::<Zn<3>>(c, "histories-Z3");
    history::<Zn<4>>(c, "histories-Z4");
    history::<Zn<5>>(c, "histories-Z5");
    if q {
        history::<Zn<8>>(c, "histories-Z8");
    }
    if t {
        history::<Zn<11>>(c, "histories-Z11");
    }
    history::<M2<Zn<2>>>(c, "histories-M2(Z2)");
    // machine integers, element by element over small ranges incl. negative ones
    c.suite("machine-integers", "all pairs with components in -6..=6 as i32 and i64, -3..=3 as isize, i128 and i16", 169, |w, part| {
        let (x, y) = ((part / 13) as i64 - 6, (part % 13) as i64 - 6);
        w.case(|| format!("a={x}+{y}i against all b"), |w| {
            for u in -6i64..=6 {
                for v in -6i64..=6 {
                    w.distinct(1);
                    macro_rules! go { ($($t:ty)*) => { $( {
                        let (a, b) = (Complex::new(x as $t, y as $t), Complex::new(u as $t, v as $t));
                        let e = |what: &str, z: Complex<$t>, r: i64, i: i64| -> Result<(), String> { ensure!(z.re as i64 == r && z.im as i64 == i, "{} {what} {b:?}: {z:?}", stringify!($t)); Ok(()) };
                        e("+", a + b, x + u, y + v)?;
                        e("-", a - b, x - u, y - v)?;
                        e("*", a * b, x * u - y * v, x * v + y * u)?;
                        e("* scalar", a * (u as $t), x * u, y * u)?;
                        e("neg", -a, -x, -y)?;
                        e("conj", a.conj(), x, -y)?;
                        let (mut c, mut d, mut f) = (a, a, a);
                        c += b; d -= b; f *= b;
                        e("+=", c, x + u, y + v)?;
                        e("-=", d, x - u, y - v)?;
                        e("*=", f, x * u - y * v, x * v + y * u)?;
                        ensure!(a.sqr_norm() as i64 == x * x + y * y, "sqr_norm");
                        w.ops(10);
                    } )* } }
                    go!(i16 i32 i64 i128 isize);
                }
            }
            Ok(())
        });
    });
    c.assume("Symbolic suites rely on data independence: the operators are generic in the component type and reach it only through its operators.");
}

fn div_ops<R: FullEl + Field>(a: &Gi<R>, b: &Gi<R>) -> Result<u64, String>
where
    R: std::ops::Div<R, Output = R> + for<'a> std::ops::Div<&'a R, Output = R>,
    for<'a, 'b> &'a R: std::ops::Div<&'b R, Output = R>,
{
    let (p, q) = (cx(a), cx(b));
    let prod = cx(&a.m(b));
    eqc("(a*b)/b", &(prod.clone() / q.clone()), a)?;
    eqc("&(a*b)/&b", &(&prod / &q), a)?;
    eqc("(a*b).div_refs(&b)", &prod.div_refs(&q), a)?;
    let d = p.clone() / q.clone();
    let d2 = &p / &q;
    ensure!(d == d2, "a / b and &a / &b differ: {d:?} {d2:?}");
    ensure!(d.clone() * q.clone() == p, "(a/b)*b = {:?}", d.clone() * q.clone());
    ensure!(&d2 * &q == p, "(&a/&b)*b = {:?}", &d2 * &q);
    let u = &q / &q;
    ensure!(u == &(q.clone()) / &q && &u * &q == q, "&b / &b (one object) is {u:?}");
    ensure!(q.div_refs(&q) == u, "b.div_refs(&b) (one object) is {:?}", q.div_refs(&q));
    ensure!(p == cx(a) && q == cx(b), "operands changed");
    Ok(9)
}

fn c02(c: &mut Check) {
    fn exh<const P: u16>(c: &mut Check, name: &str) {
        let n = P as usize * P as usize;
        c.suite(name, &format!("all a and all b with invertible squared norm, and all scalars, over Z/{P}"), n, |w, part| {
            let a = Gi::<Zn<P>>::nth(part);
            w.case(|| format!("a={a:?} against all b and s"), |w| {
                for j in 0..n {
                    let b = Gi::<Zn<P>>::nth(j);
                    if b.0.m(&b.0).a(&b.1.m(&b.1)).inv().is_none() {
                        continue;
                    }
                    w.distinct(1);
                    let m = div_ops(&a, &b).map_err(|e| format!("b={b:?}: {e}"))?;
                    w.ops(m);
                    w.outcome(&(a.clone(), j % 7));
                }
                let p = cx(&a);
                for s in (0..P).map(Zn::<P>) {
                    let Some(i) = s.inv() else { continue };
                    w.distinct(1);
                    w.ops(3);
                    let want = Gi(a.0.m(&i), a.1.m(&i));
                    eqc("a / s", &(p / s), &want)?;
                    eqc("a / &s", &(p / &s), &want)?;
                    eqc("&a / &s", &(&p / &s), &want)?;
                    let t = p * s;
                    eqc("(a * s) / s", &(t / s), &a)?;
                }
                Ok(())
            });
        });
    }
    exh::<2>(c, "exhaustive-F2");
    exh::<3>(c, "exhaustive-F3");
    exh::<5>(c, "exhaustive-F5");
    exh::<7>(c, "exhaustive-F7");
    exh::<11>(c, "exhaustive-F11");
    exh::<13>(c, "exhaustive-F13");
    exh::<19>(c, "exhaustive-F19");
    exh::<25>(c, "exhaustive-Z25");
    if c.by(false, true, true) {
        exh::<31>(c, "exhaustive-F31");
        exh::<43>(c, "exhaustive-F43");
    }
    if c.by(false, false, true) {
        exh::<61>(c, "exhaustive-F61");
        exh::<101>(c, "exhaustive-F101");
    }
    // nested: the field F3(i) = F9, complex numbers over it where the norm is invertible
    c.suite("nested-F9", "Complex<Complex<F3>>: all pairs whose squared norm is invertible", 81, |w, part| {
        type N = Gi<Zn<3>>;
        let a: Gi<N> = Gi::nth(part);
        let up = |g: &Gi<N>| Complex::new(cx(&g.0), cx(&g.1));
        w.case(|| format!("a={a:?} against all b"), |w| {
            for j in 0..81 {
                let b: Gi<N> = Gi::nth(j);
                if b.0.m(&b.0).a(&b.1.m(&b.1)) == Gi::z() {
                    continue;
                }
                w.distinct(1);
                w.ops(3);
                let (p, q) = (up(&a), up(&b));
                ensure!((p * q) / q == p, "b={b:?}: (a*b)/b = {:?}", (p * q) / q);
                ensure!((p / q) * q == p, "b={b:?}: (a/b)*b = {:?}", (p / q) * q);
                ensure!(&(&p * &q) / &q == p, "b={b:?}: &(a*b)/&b");
            }
            Ok(())
        });
    });
    // scalar quotients are one division per component: symbolic
    c.suite("scalar-symbolic", "scalar quotients over uninterpreted division", 64, |w, part| {
        free_reset();
        let a = Gi(free_alphabet(0)[part / 8].clone(), free_alphabet(1)[part % 8].clone());
        for s in free_alphabet(2) {
            w.case(|| format!("a={a:?} s={s:?}"), |w| {
                w.distinct(1);
                w.ops(3);
                let p = cx(&a);
                let want = Gi(a.0.div(&s), a.1.div(&s));
                eqc("a / s", &(p.clone() / s.clone()), &want)?;
                eqc("a / &s", &(p.clone() / &s), &want)?;
                eqc("&a / &s", &(&p / &s), &want)?;
                Ok(())
            });
        }
    });
    c.assume("Finite prime fields stand for all exact fields (generic code, field identities of bounded degree).");
}

fn main() {
    main_for(&[("C01", c01), ("C02", c02)])
}
