//! Element types of operands that differ: A op B is recorded as a term, and in-place operations on Acc are logged.
use std::ops::*;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct A(pub u32);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct B(pub u32);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct S(pub char, pub u32, pub u32);
macro_rules! op {
    ($($t:ident $f:ident $c:literal),*) => { $(
        impl $t<B> for A {
            type Output = S;
            fn $f(self, o: B) -> S {
                S($c, self.0, o.0)
            }
        }
    )* };
}
op!(Add add '+', Sub sub '-', Mul mul '*', Div div '/');
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc(pub u32, pub Vec<(char, u32)>);
impl AddAssign<B> for Acc {
    fn add_assign(&mut self, o: B) {
        self.1.push(('+', o.0))
    }
}
impl SubAssign<B> for Acc {
    fn sub_assign(&mut self, o: B) {
        self.1.push(('-', o.0))
    }
}
/// Sum of products, as a list of the factors.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prods(pub Vec<(u32, u32)>);
impl Mul<A> for A {
    type Output = Prods;
    fn mul(self, o: A) -> Prods {
        Prods(vec![(self.0, o.0)])
    }
}
impl AddAssign for Prods {
    fn add_assign(&mut self, o: Prods) {
        self.0.extend(o.0)
    }
}
