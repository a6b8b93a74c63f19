//! Complex numbers.
#![allow(non_snake_case)]
mod spec;

/// layout: real part first
pub mod free {
    use core::ops::*;
    use num_complex::Complex as NC;
    use num_traits::{One, Zero};
    use vecmat::vector::*;
    use vecmat::traits::*;
    use vecmat::Complex;

    pub fn make__l<T: Copy>(a: T, b: T) -> [Complex<T>; 9] {
        [
            Complex::new(a, b),
            Complex::from_vector(Vector2::from([a, b])),
            Complex::from_array([a, b]),
            Complex::from_tuple((a, b)),
            Complex::from_num(NC { re: a, im: b }),
            Vector2::from([a, b]).into(),
            [a, b].into(),
            (a, b).into(),
            NC { re: a, im: b }.into(),
        ]
    }
    pub fn make__r<T: Copy>(a: T, b: T) -> [[T; 2]; 9] {
        [[a, b]; 9]
    }
    pub fn take__l<T: Copy>(a: Complex<T>) -> ([Vector2<T>; 2], [[T; 2]; 2], [(T, T); 2], [NC<T>; 2], [T; 2]) {
        ([a.into_vector(), a.into()], [a.into_array(), a.into()], [a.into_tuple(), a.into()], [a.into_num(), a.into()], [a.re(), a.im()])
    }
    pub fn take__r<T: Copy>(a: [T; 2]) -> ([[T; 2]; 2], [[T; 2]; 2], [(T, T); 2], [NC<T>; 2], [T; 2]) {
        ([a; 2], [a; 2], [(a[0], a[1]); 2], [NC { re: a[0], im: a[1] }; 2], a)
    }
    pub fn refs__l<T: Clone>(a: &Complex<T>) -> (T, T) {
        (a.re_ref().clone(), a.im_ref().clone())
    }
    pub fn refs__r<T: Clone>(a: &[T; 2]) -> (T, T) {
        (a[0].clone(), a[1].clone())
    }
    pub fn remut__l<T>(a: &mut Complex<T>, x: T) {
        *a.re_mut() = x;
    }
    pub fn remut__r<T>(a: &mut [T; 2], x: T) {
        a[0] = x;
    }
    pub fn immut__l<T>(a: &mut Complex<T>, x: T) {
        *a.im_mut() = x;
    }
    pub fn immut__r<T>(a: &mut [T; 2], x: T) {
        a[1] = x;
    }
    pub fn mat__l<T: Neg<Output = T> + Copy>(a: Complex<T>) -> vecmat::matrix::Matrix2x2<T> {
        a.into_matrix()
    }
    pub fn mat__r<T: Neg<Output = T> + Copy>(a: [T; 2]) -> [[T; 2]; 2] {
        [[a[0], -a[1]], [a[1], a[0]]]
    }
    pub fn eq__l<T: PartialEq>(a: &Complex<T>, b: &Complex<T>) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn eq__r<T: PartialEq>(a: &[T; 2], b: &[T; 2]) -> (bool, bool) {
        let e = a[0] == b[0] && a[1] == b[1];
        (e, !e)
    }
    pub fn clone__l<T: Clone>(a: &Complex<T>) -> Complex<T> {
        a.clone()
    }
    pub fn clone__r<T: Clone>(a: &[T; 2]) -> [T; 2] {
        a.clone()
    }
    pub fn eqself__l<T: PartialEq>(a: &Complex<T>) -> (bool, bool) {
        (a == a, a != a)
    }
    pub fn eqself__r<T: PartialEq>(a: &[T; 2]) -> (bool, bool) {
        let e = a[0] == a[0] && a[1] == a[1];
        (e, !e)
    }
    pub fn clonefrom__l<T: Clone>(a: &mut Complex<T>, b: &Complex<T>) {
        a.clone_from(b)
    }
    pub fn clonefrom__r<T: Clone>(a: &mut [T; 2], b: &[T; 2]) {
        *a = [b[0].clone(), b[1].clone()]
    }
    pub fn setzero__l<T: Zero>(a: &mut Complex<T>) {
        a.set_zero()
    }
    pub fn setzero__r<T: Zero>(a: &mut [T; 2]) {
        *a = [T::zero(), T::zero()]
    }
    pub fn setone__l<T: Zero + One + Sub<Output = T> + Copy>(a: &mut Complex<T>) {
        a.set_one()
    }
    pub fn setone__r<T: Zero + One + Sub<Output = T> + Copy>(a: &mut [T; 2]) {
        *a = [T::one(), T::zero()]
    }
    pub fn isone__l<T: Zero + One + Sub<Output = T> + PartialEq + Copy>(a: &Complex<T>) -> bool {
        a.is_one()
    }
    pub fn isone__r<T: Zero + One + Sub<Output = T> + PartialEq + Copy>(a: &[T; 2]) -> bool {
        a[0] == T::one() && a[1] == T::zero()
    }
    pub fn default__l<T: Default>() -> Complex<T> {
        Complex::default()
    }
    pub fn default__r<T: Default>() -> [T; 2] {
        [T::default(), T::default()]
    }
    pub fn zero__l<T: Zero>() -> Complex<T> {
        Complex::zero()
    }
    pub fn zero__r<T: Zero>() -> [T; 2] {
        [T::zero(), T::zero()]
    }
    pub fn iszero__l<T: Zero>(a: &Complex<T>) -> bool {
        a.is_zero()
    }
    pub fn iszero__r<T: Zero>(a: &[T; 2]) -> bool {
        a[0].is_zero() && a[1].is_zero()
    }
    pub fn one__l<T: Zero + One + Sub<Output = T> + Copy>() -> Complex<T> {
        Complex::one()
    }
    pub fn one__r<T: Zero + One + Sub<Output = T> + Copy>() -> [T; 2] {
        [T::one(), T::zero()]
    }
    pub fn i__l<T: Zero + One>() -> Complex<T> {
        Complex::i()
    }
    pub fn i__r<T: Zero + One>() -> [T; 2] {
        [T::zero(), T::one()]
    }
    pub fn neg__l<T: Neg<Output = T>>(a: Complex<T>) -> Complex<T> {
        -a
    }
    pub fn neg__r<T: Neg<Output = T> + Copy>(a: [T; 2]) -> [T; 2] {
        [-a[0], -a[1]]
    }
    pub fn conj__l<T: Neg<Output = T> + Copy>(a: Complex<T>) -> [Complex<T>; 2] {
        [a.conj(), Conj::conj(a)]
    }
    pub fn conj__r<T: Neg<Output = T> + Copy>(a: [T; 2]) -> [[T; 2]; 2] {
        [[a[0], -a[1]]; 2]
    }
    pub fn add__l<T: Add<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a + b
    }
    pub fn add__r<T: Add<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        [a[0] + b[0], a[1] + b[1]]
    }
    pub fn adds__l<T: Add<Output = T>>(a: Complex<T>, b: T) -> Complex<T> {
        a + b
    }
    pub fn adds__r<T: Add<Output = T> + Copy>(a: [T; 2], b: T) -> [T; 2] {
        [a[0] + b, a[1]]
    }
    pub fn adda__l<T: AddAssign>(a: &mut Complex<T>, b: Complex<T>) {
        *a += b;
    }
    pub fn adda__r<T: AddAssign + Copy>(a: &mut [T; 2], b: [T; 2]) {
        a[0] += b[0];
        a[1] += b[1];
    }
    pub fn addsa__l<T: AddAssign>(a: &mut Complex<T>, b: T) {
        *a += b;
    }
    pub fn addsa__r<T: AddAssign>(a: &mut [T; 2], b: T) {
        a[0] += b;
    }
    pub fn sub__l<T: Sub<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a - b
    }
    pub fn sub__r<T: Sub<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        [a[0] - b[0], a[1] - b[1]]
    }
    pub fn subs__l<T: Sub<Output = T>>(a: Complex<T>, b: T) -> Complex<T> {
        a - b
    }
    pub fn subs__r<T: Sub<Output = T> + Copy>(a: [T; 2], b: T) -> [T; 2] {
        [a[0] - b, a[1]]
    }
    pub fn suba__l<T: SubAssign>(a: &mut Complex<T>, b: Complex<T>) {
        *a -= b;
    }
    pub fn suba__r<T: SubAssign + Copy>(a: &mut [T; 2], b: [T; 2]) {
        a[0] -= b[0];
        a[1] -= b[1];
    }
    pub fn subsa__l<T: SubAssign>(a: &mut Complex<T>, b: T) {
        *a -= b;
    }
    pub fn subsa__r<T: SubAssign>(a: &mut [T; 2], b: T) {
        a[0] -= b;
    }
}

pub mod free_zero {
    use core::ops::*;
    use num_traits::Zero;
    use vecmat::Complex;
    pub fn isum__l<T: Zero + Add, const N: usize>(a: [Complex<T>; N]) -> Complex<T> {
        a.into_iter().sum()
    }
    pub fn isum__r<T: Zero + Add + Copy, const N: usize>(a: [[T; 2]; N]) -> [T; 2] {
        let mut s = [T::zero(), T::zero()];
        for x in a {
            s = [s[0] + x[0], s[1] + x[1]];
        }
        s
    }
}

pub mod ring {
    use core::ops::*;
    use num_traits::{One, Zero};
    use vecmat::traits::*;
    use vecmat::Complex;
    pub(crate) fn cmul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    }
    pub fn mul__l<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a * b
    }
    pub fn mul__r<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        cmul(a, b)
    }
    pub fn mula__l<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: &mut Complex<T>, b: Complex<T>) {
        *a *= b;
    }
    pub fn mula__r<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: &mut [T; 2], b: [T; 2]) {
        *a = cmul(*a, b);
    }
    pub fn muls__l<T: Mul<Output = T> + Copy>(a: Complex<T>, b: T) -> Complex<T> {
        a * b
    }
    pub fn muls__r<T: Mul<Output = T> + Copy>(a: [T; 2], b: T) -> [T; 2] {
        [a[0] * b, a[1] * b]
    }
    pub fn mulsa__l<T: Mul<Output = T> + Copy>(a: &mut Complex<T>, b: T) {
        *a *= b;
    }
    pub fn mulsa__r<T: Mul<Output = T> + Copy>(a: &mut [T; 2], b: T) {
        *a = [a[0] * b, a[1] * b];
    }
    pub fn nsqr__l<T: Add<Output = T> + Mul<Output = T> + Copy>(a: Complex<T>) -> T {
        a.norm_sqr()
    }
    pub fn nsqr__r<T: Add<Output = T> + Mul<Output = T> + Copy>(a: [T; 2]) -> T {
        a[0] * a[0] + a[1] * a[1]
    }
    pub fn dot__l<T: Add<Output = T> + Mul<Output = T>>(a: Complex<T>, b: Complex<T>) -> T {
        a.dot(b)
    }
    pub fn dot__r<T: Add<Output = T> + Mul<Output = T> + Copy>(a: [T; 2], b: [T; 2]) -> T {
        a[0] * b[0] + a[1] * b[1]
    }
    pub fn matmul__l<T: Neg<Output = T> + num_traits::Num + Copy>(a: Complex<T>, b: Complex<T>) -> (vecmat::matrix::Matrix2x2<T>, T) {
        ((a * b).into_matrix(), a.into_matrix().det())
    }
    pub fn matmul__r<T: Neg<Output = T> + num_traits::Num + Copy>(a: Complex<T>, b: Complex<T>) -> (vecmat::matrix::Matrix2x2<T>, T) {
        (a.into_matrix().dot(b.into_matrix()), a.norm_sqr())
    }
}
pub mod ring_zero_max6 {
    use core::ops::*;
    use num_traits::{One, Zero};
    use vecmat::Complex;
    pub fn iprod__l<T: Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy, const N: usize>(a: [Complex<T>; N]) -> Complex<T> {
        a.into_iter().product()
    }
    pub fn iprod__r<T: Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy, const N: usize>(a: [[T; 2]; N]) -> [T; 2] {
        let mut s = [T::one(), T::zero()];
        for x in a {
            s = super::ring::cmul(s, x);
        }
        s
    }
}

pub mod field {
    use core::ops::*;
    use num_traits::{Float, Inv, Num};
    use vecmat::traits::*;
    use vecmat::Complex;
    use super::ring::cmul;

    fn cinv<T: Neg<Output = T> + Num + Copy>(a: [T; 2]) -> [T; 2] {
        let n = a[0] * a[0] + a[1] * a[1];
        [a[0] / n, -a[1] / n]
    }
    pub fn divs__l<T: Div<Output = T> + Copy>(a: Complex<T>, b: T) -> Complex<T> {
        a / b
    }
    pub fn divs__r<T: Div<Output = T> + Copy>(a: [T; 2], b: T) -> [T; 2] {
        [a[0] / b, a[1] / b]
    }
    pub fn divsa__l<T: Div<Output = T> + Copy>(a: &mut Complex<T>, b: T) {
        *a /= b;
    }
    pub fn divsa__r<T: Div<Output = T> + Copy>(a: &mut [T; 2], b: T) {
        *a = [a[0] / b, a[1] / b];
    }
    pub fn inv__l<T: Neg<Output = T> + Num + Copy>(a: Complex<T>) -> Complex<T> {
        a.inv()
    }
    pub fn inv__r<T: Neg<Output = T> + Num + Copy>(a: [T; 2]) -> [T; 2] {
        cinv(a)
    }
    pub fn invt__l<T: Float>(a: Complex<T>) -> Complex<T> {
        Inv::inv(a)
    }
    pub fn invt__r<T: Float>(a: [T; 2]) -> [T; 2] {
        cinv(a)
    }
    pub fn div__l<T: Neg<Output = T> + Num + Copy>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a / b
    }
    pub fn div__r<T: Neg<Output = T> + Num + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        cmul(a, cinv(b))
    }
    pub fn diva__l<T: Neg<Output = T> + Num + Copy>(a: &mut Complex<T>, b: Complex<T>) {
        *a /= b;
    }
    pub fn diva__r<T: Neg<Output = T> + Num + Copy>(a: &mut [T; 2], b: [T; 2]) {
        *a = cmul(*a, cinv(b));
    }
    pub fn invlaw__l<T: Float>(a: Complex<T>) -> [Complex<T>; 2] {
        [a * a.inv(), a / a]
    }
    pub fn invlaw__r<T: Float>(a: [T; 2]) -> [[T; 2]; 2] {
        let _ = a;
        [[T::one(), T::zero()]; 2]
    }
    pub fn norms__l<T: Float>(a: Complex<T>) -> [T; 5] {
        [a.norm(), a.norm_l2(), a.norm_l2_sqr(), a.norm_sqr(), a.to_polar().0]
    }
    pub fn norms__r<T: Float>(a: [T; 2]) -> [T; 5] {
        let q = a[0] * a[0] + a[1] * a[1];
        let n = q.sqrt();
        [n, n, q, q, n]
    }
    pub fn l1__l(a: Complex<f64>, b: Complex<f32>) -> (f64, f32) {
        (a.norm_l1(), b.norm_l1())
    }
    pub fn l1__r(a: [f64; 2], b: [f32; 2]) -> (f64, f32) {
        (a[0].abs() + a[1].abs(), b[0].abs() + b[1].abs())
    }
    pub fn arg__l<T: Float>(a: Complex<T>) -> [T; 2] {
        [a.arg(), a.to_polar().1]
    }
    pub fn arg__r<T: Float>(a: [T; 2]) -> [T; 2] {
        [a[1].atan2(a[0]); 2]
    }
    pub fn fpolar__l<T: Float>(r: T, t: T) -> Complex<T> {
        Complex::from_polar(r, t)
    }
    pub fn fpolar__r<T: Float>(r: T, t: T) -> [T; 2] {
        [r * t.cos(), r * t.sin()]
    }
    pub fn normz__l<T: Float>(a: Complex<T>) -> [Complex<T>; 2] {
        [a.normalize(), Normalize::normalize(a)]
    }
    pub fn normz__r<T: Float>(a: [T; 2]) -> [[T; 2]; 2] {
        let n = (a[0] * a[0] + a[1] * a[1]).sqrt();
        [[a[0] / n, a[1] / n]; 2]
    }
    pub fn revf32__l(s: f32, a: Complex<f32>) -> [Complex<f32>; 4] {
        [s + a, s - a, s * a, s / a]
    }
    pub fn revf32__r(s: f32, a: [f32; 2]) -> [[f32; 2]; 4] {
        let i = cinv(a);
        [[s + a[0], a[1]], [s - a[0], -a[1]], [s * a[0], s * a[1]], [s * i[0], s * i[1]]]
    }
    pub fn revf64__l(s: f64, a: Complex<f64>) -> [Complex<f64>; 4] {
        [s + a, s - a, s * a, s / a]
    }
    pub fn revf64__r(s: f64, a: [f64; 2]) -> [[f64; 2]; 4] {
        let i = cinv(a);
        [[s + a[0], a[1]], [s - a[0], -a[1]], [s * a[0], s * a[1]], [s * i[0], s * i[1]]]
    }
}

/// the elementary functions are those of num_complex
pub mod free_num {
    use num_complex::Complex as NC;
    use num_traits::Float;
    use vecmat::Complex;
    pub fn exp__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.exp()
    }
    pub fn exp__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).exp()
    }
    pub fn ln__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.ln()
    }
    pub fn ln__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).ln()
    }
    pub fn sqrt__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.sqrt()
    }
    pub fn sqrt__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).sqrt()
    }
    pub fn cbrt__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.cbrt()
    }
    pub fn cbrt__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).cbrt()
    }
    pub fn sin__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.sin()
    }
    pub fn sin__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).sin()
    }
    pub fn cos__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.cos()
    }
    pub fn cos__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).cos()
    }
    pub fn tan__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.tan()
    }
    pub fn tan__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).tan()
    }
    pub fn asin__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.asin()
    }
    pub fn asin__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).asin()
    }
    pub fn acos__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.acos()
    }
    pub fn acos__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).acos()
    }
    pub fn atan__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.atan()
    }
    pub fn atan__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).atan()
    }
    pub fn sinh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.sinh()
    }
    pub fn sinh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).sinh()
    }
    pub fn cosh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.cosh()
    }
    pub fn cosh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).cosh()
    }
    pub fn tanh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.tanh()
    }
    pub fn tanh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).tanh()
    }
    pub fn asinh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.asinh()
    }
    pub fn asinh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).asinh()
    }
    pub fn acosh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.acosh()
    }
    pub fn acosh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).acosh()
    }
    pub fn atanh__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.atanh()
    }
    pub fn atanh__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).atanh()
    }
    pub fn finv__l<T: Float>(a: Complex<T>) -> Complex<T> {
        a.finv()
    }
    pub fn finv__r<T: Float>(a: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).finv()
    }
    pub fn powf__l<T: Float>(a: Complex<T>, b: T) -> Complex<T> {
        a.powf(b)
    }
    pub fn powf__r<T: Float>(a: [T; 2], b: T) -> NC<T> {
        NC::new(a[0], a[1]).powf(b)
    }
    pub fn log__l<T: Float>(a: Complex<T>, b: T) -> Complex<T> {
        a.log(b)
    }
    pub fn log__r<T: Float>(a: [T; 2], b: T) -> NC<T> {
        NC::new(a[0], a[1]).log(b)
    }
    pub fn expf__l<T: Float>(a: Complex<T>, b: T) -> Complex<T> {
        a.expf(b)
    }
    pub fn expf__r<T: Float>(a: [T; 2], b: T) -> NC<T> {
        NC::new(a[0], a[1]).expf(b)
    }
    pub fn powc__l<T: Float>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a.powc(b)
    }
    pub fn powc__r<T: Float>(a: [T; 2], b: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).powc(NC::new(b[0], b[1]))
    }
    pub fn fdiv__l<T: Float>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a.fdiv(b)
    }
    pub fn fdiv__r<T: Float>(a: [T; 2], b: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]).fdiv(NC::new(b[0], b[1]))
    }
    pub fn rem__l<T: core::ops::Neg<Output = T> + num_traits::Num + Copy>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
        a % b
    }
    pub fn rem__r<T: core::ops::Neg<Output = T> + num_traits::Num + Copy>(a: [T; 2], b: [T; 2]) -> NC<T> {
        NC::new(a[0], a[1]) % NC::new(b[0], b[1])
    }
}

pub mod ring_zero_max9 {
    use core::ops::*;
    use num_traits::Num;
    use vecmat::Complex;
    use super::ring::cmul;
    fn cpow<T: Num + Copy>(a: [T; 2], n: usize) -> [T; 2] {
        let mut r = [T::one(), T::zero()];
        for _ in 0..n {
            r = cmul(r, a);
        }
        r
    }
    pub fn powu__l<T: Num + Copy, const N: usize>(a: Complex<T>) -> Complex<T> {
        a.powu(N as u32)
    }
    pub fn powu__r<T: Num + Copy, const N: usize>(a: [T; 2]) -> [T; 2] {
        cpow(a, N)
    }
    pub fn powi__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Complex<T>) -> Complex<T> {
        a.powi(N as i32)
    }
    pub fn powi__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: [T; 2]) -> [T; 2] {
        cpow(a, N)
    }
}
pub mod field_max6 {
    use core::ops::*;
    use num_traits::Num;
    use vecmat::Complex;
    use super::ring::cmul;
    pub fn powin_pos__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Complex<T>) -> Complex<T> {
        a.powi(-(N as i32))
    }
    pub fn powin_pos__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: [T; 2]) -> [T; 2] {
        let n = a[0] * a[0] + a[1] * a[1];
        let i = [a[0] / n, -a[1] / n];
        let mut r = i;
        for _ in 1..N {
            r = cmul(r, i);
        }
        r
    }
}
