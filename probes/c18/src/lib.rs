//! Reductions: sums, products, extrema, norms and normalisation.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use core::iter::{Product, Sum};
    use core::ops::{Add, Mul};
    use num_traits::{One, Zero};
    use vecmat::*;

    // extrema through comparisons only; the first of equal extremes for min, the order of comparisons as written for the type
    pub fn vmax__l<T: PartialOrd, const N: usize>(a: Vector<T, N>) -> T {
        a.max()
    }
    pub fn vmax__r<T: PartialOrd + Copy, const N: usize>(a: [T; N]) -> T {
        let mut m = a[0];
        for k in 1..N {
            if m < a[k] {
                m = a[k];
            }
        }
        m
    }
    pub fn vmin__l<T: PartialOrd, const N: usize>(a: Vector<T, N>) -> T {
        a.min()
    }
    pub fn vmin__r<T: PartialOrd + Copy, const N: usize>(a: [T; N]) -> T {
        let mut m = a[0];
        for k in 1..N {
            if !(m < a[k]) {
                m = a[k];
            }
        }
        m
    }
    pub fn mmax__l<T: PartialOrd, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> T {
        a.max()
    }
    pub fn mmax__r<T: PartialOrd + Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> T {
        let mut m = a[0][0];
        for k in 1..M * N {
            if m < a[k / N][k % N] {
                m = a[k / N][k % N];
            }
        }
        m
    }
    pub fn mmin__l<T: PartialOrd, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> T {
        a.min()
    }
    pub fn mmin__r<T: PartialOrd + Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> T {
        let mut m = a[0][0];
        for k in 1..M * N {
            if !(m < a[k / N][k % N]) {
                m = a[k / N][k % N];
            }
        }
        m
    }
}

pub mod exact {
    use core::iter::{Product, Sum};
    use core::ops::{Add, Mul};
    use num_traits::{One, Zero};
    use vecmat::*;

    pub fn vsum__l<T: Add<Output = T>, const N: usize>(a: Vector<T, N>) -> T {
        a.sum()
    }
    pub fn vsum__r<T: Add<Output = T> + Copy, const N: usize>(a: [T; N]) -> T {
        let mut s = a[0];
        for k in 1..N {
            s = s + a[k];
        }
        s
    }
    pub fn msum__l<T: Add<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> T {
        a.sum()
    }
    pub fn msum__r<T: Add<Output = T> + Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> T {
        let mut s = a[0][0];
        for k in 1..M * N {
            s = s + a[k / N][k % N];
        }
        s
    }
    // Sum / Product of a sequence of vectors or matrices
    pub fn visum__l<T: Zero + Add, const N: usize>(a: [Vector<T, N>; 3]) -> Vector<T, N> {
        a.into_iter().sum()
    }
    pub fn visum__r<T: Zero + Add + Copy, const N: usize>(a: [[T; N]; 3]) -> [T; N] {
        core::array::from_fn(|i| a[0][i] + a[1][i] + a[2][i])
    }
    pub fn visum0__l<T: Zero + Add, const N: usize>(a: [Vector<T, N>; 0]) -> Vector<T, N> {
        a.into_iter().sum()
    }
    pub fn visum0__r<T: Zero + Add + Copy, const N: usize>(a: [[T; N]; 0]) -> [T; N] {
        let _ = a;
        [T::zero(); N]
    }
    pub fn viprod__l<T: One + Mul, const N: usize>(a: [Vector<T, N>; 3]) -> Vector<T, N> {
        a.into_iter().product()
    }
    pub fn viprod__r<T: One + Mul + Copy, const N: usize>(a: [[T; N]; 3]) -> [T; N] {
        core::array::from_fn(|i| a[0][i] * a[1][i] * a[2][i])
    }
    pub fn viprod0__l<T: One + Mul, const N: usize>(a: [Vector<T, N>; 0]) -> Vector<T, N> {
        a.into_iter().product()
    }
    pub fn viprod0__r<T: One + Mul + Copy, const N: usize>(a: [[T; N]; 0]) -> [T; N] {
        let _ = a;
        [T::one(); N]
    }
    pub fn misum__l<T: Zero + Add, const M: usize, const N: usize>(a: [Matrix<T, M, N>; 3]) -> Matrix<T, M, N> {
        a.into_iter().sum()
    }
    pub fn misum__r<T: Zero + Add + Copy, const M: usize, const N: usize>(a: [[[T; N]; M]; 3]) -> [[T; N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| a[0][i][j] + a[1][i][j] + a[2][i][j]))
    }
    pub fn misum0__l<T: Zero + Add, const M: usize, const N: usize>(a: [Matrix<T, M, N>; 0]) -> Matrix<T, M, N> {
        a.into_iter().sum()
    }
    pub fn misum0__r<T: Zero + Add + Copy, const M: usize, const N: usize>(a: [[[T; N]; M]; 0]) -> [[T; N]; M] {
        let _ = a;
        [[T::zero(); N]; M]
    }
    pub fn miprod__l<T: One + Mul, const M: usize, const N: usize>(a: [Matrix<T, M, N>; 3]) -> Matrix<T, M, N> {
        a.into_iter().product()
    }
    pub fn miprod__r<T: One + Mul + Copy, const M: usize, const N: usize>(a: [[[T; N]; M]; 3]) -> [[T; N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| a[0][i][j] * a[1][i][j] * a[2][i][j]))
    }
    pub fn miprod0__l<T: One + Mul, const M: usize, const N: usize>(a: [Matrix<T, M, N>; 0]) -> Matrix<T, M, N> {
        a.into_iter().product()
    }
    pub fn miprod0__r<T: One + Mul + Copy, const M: usize, const N: usize>(a: [[[T; N]; M]; 0]) -> [[T; N]; M] {
        let _ = a;
        [[T::one(); N]; M]
    }
}

pub mod field {
    use num_traits::Float;
    use vecmat::traits::*;
    use vecmat::*;

    fn sq<T: Float, const N: usize>(a: &[T; N]) -> T {
        let mut s = a[0] * a[0];
        for k in 1..N {
            s = s + a[k] * a[k];
        }
        s
    }
    pub fn length__l<T: Float, const N: usize>(a: Vector<T, N>) -> (T, T) {
        (a.length(), a.square_length())
    }
    pub fn length__r<T: Float, const N: usize>(a: [T; N]) -> (T, T) {
        (sq(&a).sqrt(), sq(&a))
    }
    pub fn normalize_pos__l<T: Float, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
        a.normalize()
    }
    pub fn normalize_pos__r<T: Float, const N: usize>(a: [T; N]) -> [T; N] {
        a.map(|x| x / sq(&a).sqrt())
    }
    pub fn normalizet_pos__l<T: Float, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
        Normalize::normalize(a)
    }
    pub fn normalizet_pos__r<T: Float, const N: usize>(a: [T; N]) -> [T; N] {
        a.map(|x| x / sq(&a).sqrt())
    }
    pub fn l2__l<T: Float, const N: usize>(a: Vector<T, N>) -> (T, T) {
        (a.norm_l2(), a.norm_l2_sqr())
    }
    pub fn l2__r<T: Float, const N: usize>(a: [T; N]) -> (T, T) {
        (sq(&a).sqrt(), sq(&a))
    }
    pub fn ml2__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> (T, T) {
        (a.norm_l2(), a.norm_l2_sqr())
    }
    pub fn ml2__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M]) -> (T, T) {
        let mut s = sq(&a[0]);
        for k in 1..M {
            s = s + sq(&a[k]);
        }
        (s.sqrt(), s)
    }
    pub fn unit_pos__l<T: Float, const N: usize>(a: Vector<T, N>) -> T {
        a.normalize().square_length()
    }
    pub fn unit_pos__r<T: Float, const N: usize>(a: Vector<T, N>) -> T {
        let _ = a;
        T::one()
    }
}
pub mod exact_max3 {
    use core::ops::Add;
    use vecmat::traits::*;
    use vecmat::*;
    pub fn l1__l<T: NormL1<Output = T> + Add<Output = T>, const N: usize>(a: Vector<T, N>) -> T {
        a.norm_l1()
    }
    pub fn l1__r<T: NormL1<Output = T> + Add<Output = T> + Copy, const N: usize>(a: [T; N]) -> T {
        let mut s = a[0].norm_l1();
        for k in 1..N {
            s = s + a[k].norm_l1();
        }
        s
    }
    pub fn ml1__l<T: NormL1<Output = T> + Add<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> T {
        a.norm_l1()
    }
    pub fn ml1__r<T: NormL1<Output = T> + Add<Output = T> + Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> T {
        let mut s = a[0][0].norm_l1();
        for k in 1..M * N {
            s = s + a[k / N][k % N].norm_l1();
        }
        s
    }
}
pub mod free_max4 {
    use vecmat::traits::*;
    use vecmat::*;
    pub fn linf__l<T: NormLInf<Output = T> + PartialOrd, const N: usize>(a: Vector<T, N>) -> T {
        a.norm_l_inf()
    }
    pub fn linf__r<T: NormLInf<Output = T> + PartialOrd + Copy, const N: usize>(a: [T; N]) -> T {
        let mut s = a[0].norm_l_inf();
        for k in 1..N {
            if s < a[k].norm_l_inf() {
                s = a[k].norm_l_inf();
            }
        }
        s
    }
    pub fn mlinf__l<T: NormLInf<Output = T> + PartialOrd, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> T {
        a.norm_l_inf()
    }
    pub fn mlinf__r<T: NormLInf<Output = T> + PartialOrd + Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> T {
        let mut s = a[0][0].norm_l_inf();
        for k in 1..M * N {
            let x = a[k / N][k % N].norm_l_inf();
            if s < x {
                s = x;
            }
        }
        s
    }
}
pub mod int {
    use vecmat::traits::*;
    macro_rules! signed {
        ($($t:ident $l:ident $r:ident),*) => {$(
            pub fn $l(a: $t) -> ($t, $t, $t, $t) { (a.norm_l1(), a.norm_l2(), a.norm_l2_sqr(), a.norm_l_inf()) }
            pub fn $r(a: $t) -> ($t, $t, $t, $t) { (a.abs(), a.abs(), a * a, a.abs()) }
        )*};
    }
    macro_rules! unsigned {
        ($($t:ident $l:ident $r:ident),*) => {$(
            pub fn $l(a: $t) -> ($t, $t, $t, $t) { (a.norm_l1(), a.norm_l2(), a.norm_l2_sqr(), a.norm_l_inf()) }
            pub fn $r(a: $t) -> ($t, $t, $t, $t) { (a, a, a * a, a) }
        )*};
    }
    unsigned!(u8 nu8__l nu8__r, u16 nu16__l nu16__r, u32 nu32__l nu32__r, u64 nu64__l nu64__r, usize nus__l nus__r);
    signed!(i8 ni8__l ni8__r, i16 ni16__l ni16__r, i32 ni32__l ni32__r, i64 ni64__l ni64__r, isize nis__l nis__r);
}
pub mod field_nan {
    use vecmat::traits::*;
    pub fn nf32__l(a: f32) -> (f32, f32, f32, f32, f32) {
        (a.norm_l1(), a.norm_l2(), a.norm_l2_sqr(), a.norm_l_inf(), a.conj())
    }
    pub fn nf32__r(a: f32) -> (f32, f32, f32, f32, f32) {
        (a.abs(), a.abs(), a * a, a.abs(), a)
    }
    pub fn nf64__l(a: f64) -> (f64, f64, f64, f64, f64) {
        (a.norm_l1(), a.norm_l2(), a.norm_l2_sqr(), a.norm_l_inf(), a.conj())
    }
    pub fn nf64__r(a: f64) -> (f64, f64, f64, f64, f64) {
        (a.abs(), a.abs(), a * a, a.abs(), a)
    }
    pub fn eps32__l(a: f32) -> bool {
        a.is_epsilon()
    }
    pub fn eps32__r(a: f32) -> bool {
        a.abs() <= f32::EPSILON
    }
    pub fn eps64__l(a: f64) -> bool {
        a.is_epsilon()
    }
    pub fn eps64__r(a: f64) -> bool {
        a.abs() <= f64::EPSILON
    }
}
