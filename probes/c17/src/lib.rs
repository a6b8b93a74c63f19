//! Square matrices: determinant, cofactors, adjugate, inverse, diagonal and identity.
#![allow(non_snake_case)]
mod spec;

pub mod ring_max6 {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::*;

    /// sum over permutations
    fn leibniz<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N], rows: &[usize], cols: &mut [usize], k: usize, neg: bool) -> T {
        if k == rows.len() {
            return if neg { -T::one() } else { T::one() };
        }
        let mut s = T::zero();
        for m in k..rows.len() {
            cols.swap(k, m);
            s = s + a[rows[k]][cols[k]] * leibniz(a, rows, cols, k + 1, neg != (m != k));
            cols.swap(k, m);
        }
        s
    }
    pub(crate) fn det_spec<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N]) -> T {
        let rows: [usize; N] = core::array::from_fn(|i| i);
        let mut cols = rows;
        leibniz(a, &rows, &mut cols, 0, false)
    }
    /// signed minor: row i and column j struck out
    pub(crate) fn cof_spec<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N], i: usize, j: usize) -> T {
        let rows: [usize; N] = core::array::from_fn(|k| if k >= i { (k + 1) % N } else { k });
        let mut cols: [usize; N] = core::array::from_fn(|k| if k >= j { (k + 1) % N } else { k });
        let m = leibniz(a, &rows[..N - 1], &mut cols[..N - 1], 0, false);
        if (i + j) % 2 == 0 {
            m
        } else {
            -m
        }
    }

    pub fn det__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &Matrix<T, N, N>) -> T {
        a.det()
    }
    pub fn det__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N]) -> T {
        det_spec(a)
    }
    // laws stated on the library alone
    pub fn dettr__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>) -> T {
        a.transpose().det()
    }
    pub fn dettr__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>) -> T {
        a.det()
    }
    pub fn detdiag_pos__l<T: Neg<Output = T> + Num + Copy, const N: usize>(d: Vector<T, N>) -> T {
        Matrix::diagonal(d).det()
    }
    pub fn detdiag_pos__r<T: Neg<Output = T> + Num + Copy, const N: usize>(d: [T; N]) -> T {
        let mut p = d[0];
        for k in 1..N {
            p = p * d[k];
        }
        p
    }
}
pub mod ring {
    use num_traits::{One, Zero};
    use vecmat::*;
    pub fn diag__l<T: Zero, const N: usize>(d: Vector<T, N>) -> Matrix<T, N, N> {
        Matrix::diagonal(d)
    }
    pub fn diag__r<T: Zero + Copy, const N: usize>(d: [T; N]) -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| if i == j { d[i] } else { T::zero() }))
    }
    pub fn one__l<T: Zero + One + Copy, const N: usize>() -> Matrix<T, N, N> {
        Matrix::one()
    }
    pub fn one__r<T: Zero + One + Copy, const N: usize>() -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| if i == j { T::one() } else { T::zero() }))
    }
}
pub mod ring_max5 {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::*;
    pub fn adj__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &Matrix<T, N, N>) -> Matrix<T, N, N> {
        a.adj()
    }
    pub fn adj__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N]) -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| super::ring_max6::cof_spec(a, j, i)))
    }
    pub fn cof__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &Matrix<T, N, N>) -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| a.cofactor(i, j)))
    }
    pub fn cof__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N]) -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| super::ring_max6::cof_spec(a, i, j)))
    }
    pub fn inv__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &Matrix<T, N, N>) -> Matrix<T, N, N> {
        a.inv()
    }
    pub fn inv__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: &[[T; N]; N]) -> [[T; N]; N] {
        let d = super::ring_max6::det_spec(a);
        core::array::from_fn(|i| core::array::from_fn(|j| super::ring_max6::cof_spec(a, j, i) / d))
    }
    pub fn invt__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> {
        num_traits::Inv::inv(a)
    }
    pub fn invt__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: [[T; N]; N]) -> [[T; N]; N] {
        let d = super::ring_max6::det_spec(&a);
        core::array::from_fn(|i| core::array::from_fn(|j| super::ring_max6::cof_spec(&a, j, i) / d))
    }
}
pub mod ring_max3 {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::prelude::*;
    use vecmat::*;
    /// the cofactor at a given position, or a panic when the position is outside the matrix
    pub fn cofij__l<T: Neg<Output = T> + Num + Copy, const N: usize, const I: usize, const J: usize>(a: &Matrix<T, N, N>) -> T {
        a.cofactor(I, J)
    }
    pub fn cofij__r<T: Neg<Output = T> + Num + Copy, const N: usize, const I: usize, const J: usize>(a: &[[T; N]; N]) -> T {
        if I >= N || J >= N {
            panic!()
        }
        super::ring_max6::cof_spec(a, I, J)
    }
    pub fn detmul__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) -> T {
        a.dot(b).det()
    }
    pub fn detmul__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) -> T {
        a.det() * b.det()
    }
    pub fn adjmul__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> {
        a.adj().dot(a)
    }
    pub fn adjmul__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> {
        Matrix::one() * a.det()
    }
}
pub mod field_max5 {
    use vecmat::prelude::*;
    use vecmat::*;
    use num_traits::Float;
    pub fn invmul__l<T: Float, const N: usize>(a: Matrix<T, N, N>) -> (Matrix<T, N, N>, Matrix<T, N, N>) {
        (a.inv().dot(a), a.dot(a.inv()))
    }
    pub fn invmul__r<T: Float, const N: usize>(a: Matrix<T, N, N>) -> (Matrix<T, N, N>, Matrix<T, N, N>) {
        let _ = a;
        (Matrix::one(), Matrix::one())
    }
}
