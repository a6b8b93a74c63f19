//! Products: dot, outer, cross, matrix-vector, vector-matrix and matrix-matrix products over a possibly non-commutative ring.
#![allow(non_snake_case)]
mod spec;

pub mod exact {
    use core::ops::{Add, Mul, Sub};
    use num_traits::Zero;
    use vecmat::traits::{Dot, Outer};
    use vecmat::*;

    fn sumprod<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: [T; N], b: [T; N]) -> T {
        let mut s = a[0] * b[0];
        for k in 1..N {
            s = s + a[k] * b[k];
        }
        s
    }
    fn colof<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M], j: usize) -> [T; M] {
        core::array::from_fn(|i| a[i][j])
    }

    pub fn vdot__l<T: Mul<Output = T> + Add<Output = T>, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> T {
        a.dot(b)
    }
    pub fn vdot__r<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: [T; N], b: [T; N]) -> T {
        sumprod(a, b)
    }
    pub fn outer__l<T: Mul<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Vector<T, N>) -> Matrix<T, M, N> {
        a.outer(b)
    }
    pub fn outer__r<T: Mul<Output = T> + Copy, const M: usize, const N: usize>(a: [T; M], b: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| a[i] * b[j]))
    }
    pub fn matvec__l<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Vector<T, N>) -> Vector<T, M> {
        a.dot(b)
    }
    pub fn matvec__r<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: [[T; N]; M], b: [T; N]) -> [T; M] {
        core::array::from_fn(|i| sumprod(a[i], b))
    }
    pub fn vecmat__l<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Matrix<T, M, N>) -> Vector<T, N> {
        a.dot(b)
    }
    pub fn vecmat__r<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: [T; M], b: [[T; N]; M]) -> [T; N] {
        core::array::from_fn(|j| sumprod(a, colof(&b, j)))
    }
    pub fn matmat__l<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: Matrix<T, K, M>, b: Matrix<T, M, N>) -> Matrix<T, K, N> {
        a.dot(b)
    }
    pub fn matmat__r<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: [[T; M]; K], b: [[T; N]; M]) -> [[T; N]; K] {
        core::array::from_fn(|i| core::array::from_fn(|j| sumprod(a[i], colof(&b, j))))
    }
    pub fn cross2__l<T: Mul<Output = T> + Sub<Output = T> + Copy>(a: Vector<T, 2>, b: Vector<T, 2>) -> T {
        a.cross(b)
    }
    pub fn cross2__r<T: Mul<Output = T> + Sub<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> T {
        a[0] * b[1] - a[1] * b[0]
    }
    pub fn cross3__l<T: Mul<Output = T> + Sub<Output = T> + Copy>(a: Vector<T, 3>, b: Vector<T, 3>) -> Vector<T, 3> {
        a.cross(b)
    }
    pub fn cross3__r<T: Mul<Output = T> + Sub<Output = T> + Copy>(a: [T; 3], b: [T; 3]) -> [T; 3] {
        core::array::from_fn(|i| {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            a[j] * b[k] - a[k] * b[j]
        })
    }
    pub fn cross4__l<T: Mul<Output = T> + Sub<Output = T> + Zero + Copy>(a: Vector<T, 4>, b: Vector<T, 4>) -> Vector<T, 4> {
        a.cross(b)
    }
    pub fn cross4__r<T: Mul<Output = T> + Sub<Output = T> + Zero + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        core::array::from_fn(|i| {
            if i == 3 {
                return T::zero();
            }
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            a[j] * b[k] - a[k] * b[j]
        })
    }
}

pub mod ring {
    use core::ops::{Add, Mul, Sub};
    use vecmat::traits::{Dot, Outer};
    use vecmat::*;

    // laws that follow, stated on the library alone
    pub fn dotcomm__l<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> T {
        a.dot(b)
    }
    pub fn dotcomm__r<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> T {
        b.dot(a)
    }
    pub fn assoc_pos__l<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: Matrix<T, K, M>, b: Matrix<T, M, N>, c: Vector<T, N>) -> Vector<T, K> {
        a.dot(b).dot(c)
    }
    pub fn assoc_pos__r<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: Matrix<T, K, M>, b: Matrix<T, M, N>, c: Vector<T, N>) -> Vector<T, K> {
        a.dot(b.dot(c))
    }
    pub fn trprod__l<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: Matrix<T, K, M>, b: Matrix<T, M, N>) -> Matrix<T, N, K> {
        a.dot(b).transpose()
    }
    pub fn trprod__r<T: Mul<Output = T> + Add<Output = T> + Copy, const K: usize, const M: usize, const N: usize>(a: Matrix<T, K, M>, b: Matrix<T, M, N>) -> Matrix<T, N, K> {
        b.transpose().dot(a.transpose())
    }
    pub fn vecmatt__l<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Matrix<T, M, N>) -> Vector<T, N> {
        a.dot(b)
    }
    pub fn vecmatt__r<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Matrix<T, M, N>) -> Vector<T, N> {
        b.transpose().dot(a)
    }
    pub fn outerdot_pos__l<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Vector<T, N>, c: Vector<T, N>) -> Vector<T, M> {
        a.outer(b).dot(c)
    }
    pub fn outerdot_pos__r<T: Mul<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: Vector<T, M>, b: Vector<T, N>, c: Vector<T, N>) -> Vector<T, M> {
        a * b.dot(c)
    }
    pub fn crossorth__l<T: Mul<Output = T> + Sub<Output = T> + Add<Output = T> + num_traits::Zero + Copy>(a: Vector<T, 3>, b: Vector<T, 3>) -> (T, T) {
        (a.dot(a.cross(b)), b.dot(a.cross(b)))
    }
    pub fn crossorth__r<T: Mul<Output = T> + Sub<Output = T> + Add<Output = T> + num_traits::Zero + Copy>(a: Vector<T, 3>, b: Vector<T, 3>) -> (T, T) {
        let _ = (a, b);
        (T::zero(), T::zero())
    }
    pub fn square__l<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: Vector<T, N>) -> T {
        a.square_length()
    }
    pub fn square__r<T: Mul<Output = T> + Add<Output = T> + Copy, const N: usize>(a: Vector<T, N>) -> T {
        a.dot(a)
    }
}

pub mod int {
    use vecmat::traits::Dot;
    macro_rules! prim {
        ($($t:ident $l:ident $r:ident),*) => {$(
            pub fn $l(a: $t, b: $t) -> $t { a.dot(b) }
            pub fn $r(a: $t, b: $t) -> $t { a * b }
        )*};
    }
    prim!(u8 du8__l du8__r, u16 du16__l du16__r, u32 du32__l du32__r, u64 du64__l du64__r, usize dus__l dus__r,
          i8 di8__l di8__r, i16 di16__l di16__r, i32 di32__l di32__r, i64 di64__l di64__r, isize dis__l dis__r, f32 df32__l df32__r, f64 df64__l df64__r);
}
