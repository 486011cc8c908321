//! Helpers shared by the checks: build containers from generated cases and observe them through the
//! plainest paths there are.
#![allow(clippy::all)]
pub use kit::*;
pub use rowcol::matrix::Matrix;
pub use rowcol::vector::{ArrayLen, Vector};
pub use typenum::consts::*;

pub fn vgen<T: Elem, N: ArrayLen<T>>(c: &mut Case) -> Vector<T, N> {
    Vector::generate(|_| T::gen(c))
}
pub fn vkeys<T: Elem, N: ArrayLen<T>>(v: &Vector<T, N>) -> Vec<T::Key> {
    keys(v.as_slice())
}
pub fn mgen<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(c: &mut Case) -> Matrix<T, R, C> {
    Matrix::generate(|_| T::gen(c))
}
/// Entries by run-time index.
pub fn mkeys<T: Elem, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: &Matrix<T, R, C>) -> Vec<Vec<T::Key>> {
    grid(R::to_usize(), C::to_usize(), &mut |i, j| m[(i, j)].key())
}
/// The vector / matrix of given elements.
pub fn vof<T, N: ArrayLen<T>>(items: Vec<T>) -> Vector<T, N> {
    let mut it = items.into_iter();
    Vector::generate(|_| it.next().expect("generator called too often"))
}
pub fn mof<T, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(items: Vec<Vec<T>>) -> Matrix<T, R, C> {
    let mut it = items.into_iter().flatten();
    Matrix::generate(|_| it.next().expect("generator called too often"))
}

/// Shapes for the main sweep of a check.
#[cfg(feature = "all_shapes")]
#[macro_export]
macro_rules! dims_shapes { ($($a:tt)*) => { kit::dims_pairs!($($a)*) }; }
#[cfg(not(feature = "all_shapes"))]
#[macro_export]
macro_rules! dims_shapes { ($($a:tt)*) => { kit::dims_spread_pairs!($($a)*) }; }
#[cfg(feature = "all_shapes")]
#[macro_export]
macro_rules! cb_shapes { ($($a:tt)*) => { kit::cb_pairs!($($a)*) }; }
#[cfg(not(feature = "all_shapes"))]
#[macro_export]
macro_rules! cb_shapes { ($($a:tt)*) => { kit::cb_spread_pairs!($($a)*) }; }
#[cfg(feature = "all_shapes")]
#[macro_export]
macro_rules! dims_products { ($($a:tt)*) => { kit::dims_triples!($($a)*) }; }
#[cfg(not(feature = "all_shapes"))]
#[macro_export]
macro_rules! dims_products { ($($a:tt)*) => { kit::dims_spread_triples!($($a)*) }; }
