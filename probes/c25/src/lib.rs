//! Approximate equality.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use approx::AbsDiffEq;
    use vecmat::transform::{Linear, Shift};
    use vecmat::{Matrix, Vector};
    pub fn vec__l<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &Vector<T, N>, b: &Vector<T, N>, e: T) -> [bool; 4] {
        [a.abs_diff_eq(b, e), a.abs_diff_ne(b, e), a.abs_diff_eq(a, e), a.abs_diff_ne(a, e)]
    }
    pub fn vec__r<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &[T; N], b: &[T; N], e: T) -> [bool; 4] {
        let (mut r, mut s) = (true, true);
        for i in 0..N {
            r = r && a[i].abs_diff_eq(&b[i], e);
            s = s && a[i].abs_diff_eq(&a[i], e);
        }
        [r, !r, s, !s]
    }
    pub fn mat__l<T: AbsDiffEq<Epsilon = T> + Copy, const M: usize, const N: usize>(a: &Matrix<T, M, N>, b: &Matrix<T, M, N>, e: T) -> [bool; 4] {
        [a.abs_diff_eq(b, e), a.abs_diff_ne(b, e), a.abs_diff_eq(a, e), a.abs_diff_ne(a, e)]
    }
    pub fn mat__r<T: AbsDiffEq<Epsilon = T> + Copy, const M: usize, const N: usize>(a: &[[T; N]; M], b: &[[T; N]; M], e: T) -> [bool; 4] {
        let (mut r, mut s) = (true, true);
        for i in 0..M {
            for j in 0..N {
                r = r && a[i][j].abs_diff_eq(&b[i][j], e);
                s = s && a[i][j].abs_diff_eq(&a[i][j], e);
            }
        }
        [r, !r, s, !s]
    }
    pub fn shift__l<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &Shift<T, N>, b: &Shift<T, N>, e: T) -> [bool; 4] {
        [a.abs_diff_eq(b, e), a.abs_diff_ne(b, e), a.abs_diff_eq(a, e), a.abs_diff_ne(a, e)]
    }
    pub fn shift__r<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &[T; N], b: &[T; N], e: T) -> [bool; 4] {
        let (mut r, mut s) = (true, true);
        for i in 0..N {
            r = r && a[i].abs_diff_eq(&b[i], e);
            s = s && a[i].abs_diff_eq(&a[i], e);
        }
        [r, !r, s, !s]
    }
    pub fn linear__l<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &Linear<T, N>, b: &Linear<T, N>, e: T) -> [bool; 4] {
        [a.abs_diff_eq(b, e), a.abs_diff_ne(b, e), a.abs_diff_eq(a, e), a.abs_diff_ne(a, e)]
    }
    pub fn linear__r<T: AbsDiffEq<Epsilon = T> + Copy, const N: usize>(a: &[[T; N]; N], b: &[[T; N]; N], e: T) -> [bool; 4] {
        let (mut r, mut s) = (true, true);
        for i in 0..N {
            for j in 0..N {
                r = r && a[i][j].abs_diff_eq(&b[i][j], e);
                s = s && a[i][j].abs_diff_eq(&a[i][j], e);
            }
        }
        [r, !r, s, !s]
    }
    pub fn eps__l<T: AbsDiffEq<Epsilon = T> + Copy, const M: usize, const N: usize>() -> [T; 4] {
        [Vector::<T, N>::default_epsilon(), Matrix::<T, M, N>::default_epsilon(), Shift::<T, N>::default_epsilon(), Linear::<T, N>::default_epsilon()]
    }
    pub fn eps__r<T: AbsDiffEq<Epsilon = T> + Copy, const M: usize, const N: usize>() -> [T; 4] {
        [T::default_epsilon(); 4]
    }
}
pub mod free_fixed {
    use approx::AbsDiffEq;
    use vecmat::complex::{Complex, Moebius, Quaternion};
    use vecmat::transform::{Chain, Rotation2, Rotation3, Scale};
    pub fn eps__l<T: AbsDiffEq<Epsilon = T> + Copy>() -> [T; 6] {
        [
            Complex::<T>::default_epsilon(),
            Quaternion::<T>::default_epsilon(),
            Moebius::<T>::default_epsilon(),
            Rotation2::<T>::default_epsilon(),
            Rotation3::<T>::default_epsilon(),
            Scale::<T>::default_epsilon(),
        ]
    }
    pub fn eps__r<T: AbsDiffEq<Epsilon = T> + Copy>() -> [T; 6] {
        [T::default_epsilon(); 6]
    }
    pub fn two__l<T: AbsDiffEq<Epsilon = T> + Copy>(a: &Complex<T>, b: &Complex<T>, c: &Rotation2<T>, d: &Rotation2<T>, e: T) -> [bool; 8] {
        [a.abs_diff_eq(b, e), c.abs_diff_eq(d, e), a.abs_diff_ne(b, e), c.abs_diff_ne(d, e), a.abs_diff_eq(a, e), c.abs_diff_eq(c, e), a.abs_diff_ne(a, e), c.abs_diff_ne(c, e)]
    }
    pub fn two__r<T: AbsDiffEq<Epsilon = T> + Copy>(a: &[T; 2], b: &[T; 2], c: &[T; 2], d: &[T; 2], e: T) -> [bool; 8] {
        let f = |x: &[T; 2], y: &[T; 2]| x[0].abs_diff_eq(&y[0], e) && x[1].abs_diff_eq(&y[1], e);
        [f(a, b), f(c, d), !f(a, b), !f(c, d), f(a, a), f(c, c), !f(a, a), !f(c, c)]
    }
    pub fn four__l<T: AbsDiffEq<Epsilon = T> + Copy>(a: &Quaternion<T>, b: &Quaternion<T>, c: &Rotation3<T>, d: &Rotation3<T>, e: T) -> [bool; 8] {
        [a.abs_diff_eq(b, e), c.abs_diff_eq(d, e), a.abs_diff_ne(b, e), c.abs_diff_ne(d, e), a.abs_diff_eq(a, e), c.abs_diff_eq(c, e), a.abs_diff_ne(a, e), c.abs_diff_ne(c, e)]
    }
    pub fn four__r<T: AbsDiffEq<Epsilon = T> + Copy>(a: &[T; 4], b: &[T; 4], c: &[T; 4], d: &[T; 4], e: T) -> [bool; 8] {
        let f = |x: &[T; 4], y: &[T; 4]| x[0].abs_diff_eq(&y[0], e) && x[1].abs_diff_eq(&y[1], e) && x[2].abs_diff_eq(&y[2], e) && x[3].abs_diff_eq(&y[3], e);
        [f(a, b), f(c, d), !f(a, b), !f(c, d), f(a, a), f(c, c), !f(a, a), !f(c, c)]
    }
    pub fn moe__l<T: AbsDiffEq<Epsilon = T> + Copy>(a: &Moebius<T>, b: &Moebius<T>, c: &Scale<T>, d: &Scale<T>, e: T) -> [bool; 8] {
        [a.abs_diff_eq(b, e), c.abs_diff_eq(d, e), a.abs_diff_ne(b, e), c.abs_diff_ne(d, e), a.abs_diff_eq(a, e), c.abs_diff_eq(c, e), a.abs_diff_ne(a, e), c.abs_diff_ne(c, e)]
    }
    pub fn moe__r<T: AbsDiffEq<Epsilon = T> + Copy>(a: &[[T; 2]; 2], b: &[[T; 2]; 2], c: &T, d: &T, e: T) -> [bool; 8] {
        let f = |x: &[T; 2], y: &[T; 2]| x[0].abs_diff_eq(&y[0], e) && x[1].abs_diff_eq(&y[1], e);
        let g = |x: &[[T; 2]; 2], y: &[[T; 2]; 2]| f(&x[0], &y[0]) && f(&x[1], &y[1]);
        let h = |x: &T, y: &T| x.abs_diff_eq(y, e);
        [g(a, b), h(c, d), !g(a, b), !h(c, d), g(a, a), h(c, c), !g(a, a), !h(c, c)]
    }
    pub fn chain__l<A: AbsDiffEq<Epsilon = T>, B: AbsDiffEq<Epsilon = T>, T: AbsDiffEq<Epsilon = T> + Copy>(a: &Chain<A, B, T>, b: &Chain<A, B, T>, e: T) -> ([bool; 4], T) {
        ([a.abs_diff_eq(b, e), a.abs_diff_ne(b, e), a.abs_diff_eq(a, e), a.abs_diff_ne(a, e)], Chain::<A, B, T>::default_epsilon())
    }
    pub fn chain__r<A: AbsDiffEq<Epsilon = T>, B: AbsDiffEq<Epsilon = T>, T: AbsDiffEq<Epsilon = T> + Copy>(a: &(A, B, ()), b: &(A, B, ()), e: T) -> ([bool; 4], T) {
        let f = |x: &(A, B, ()), y: &(A, B, ())| x.0.abs_diff_eq(&y.0, e) && x.1.abs_diff_eq(&y.1, e);
        ([f(a, b), !f(a, b), f(a, a), !f(a, a)], T::default_epsilon())
    }
}
