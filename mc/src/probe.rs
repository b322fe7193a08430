//! Indexing of library containers. `Index::index` reports panics at its caller, so these calls live in a file of
//! their own: a panic located here is a panic of the library, not of the harness.
use std::ops::{Index, IndexMut};
pub fn at<I, V: Index<I> + ?Sized>(v: &V, i: I) -> &V::Output {
    &v[i]
}
pub fn at_mut<I, V: IndexMut<I> + ?Sized>(v: &mut V, i: I) -> &mut V::Output {
    &mut v[i]
}
