//! Quaternions.
#![allow(non_snake_case)]
mod spec;

/// layout: scalar part first
pub mod free {
    use core::ops::*;
    use num_traits::{One, Zero};
    use vecmat::vector::*;
    use vecmat::traits::*;
    use vecmat::{Complex, Quaternion};

    pub fn make__l<T: Copy>(a: T, b: T, c: T, d: T) -> [Quaternion<T>; 9] {
        [
            Quaternion::new(a, b, c, d),
            Quaternion::from_vector(Vector4::from([a, b, c, d])),
            Quaternion::from_array([a, b, c, d]),
            Quaternion::from_tuple((a, b, c, d)),
            Quaternion::from_scalar_and_vector3(a, Vector3::from([b, c, d])),
            Vector4::from([a, b, c, d]).into(),
            [a, b, c, d].into(),
            (a, b, c, d).into(),
            (a, Vector3::from([b, c, d])).into(),
        ]
    }
    pub fn make__r<T: Copy>(a: T, b: T, c: T, d: T) -> [[T; 4]; 9] {
        [[a, b, c, d]; 9]
    }
    pub fn take__l<T: Copy>(a: Quaternion<T>) -> ([Vector4<T>; 2], [[T; 4]; 2], [(T, T, T, T); 2], [(T, Vector3<T>); 2], [T; 4], Vector3<T>) {
        (
            [a.into_vector(), a.into()],
            [a.into_array(), a.into()],
            [a.into_tuple(), a.into()],
            [a.into_scalar_and_vector3(), a.into()],
            [a.w(), a.x(), a.y(), a.z()],
            a.xyz(),
        )
    }
    pub fn take__r<T: Copy>(a: [T; 4]) -> ([[T; 4]; 2], [[T; 4]; 2], [(T, T, T, T); 2], [(T, [T; 3]); 2], [T; 4], [T; 3]) {
        ([a; 2], [a; 2], [(a[0], a[1], a[2], a[3]); 2], [(a[0], [a[1], a[2], a[3]]); 2], a, [a[1], a[2], a[3]])
    }
    pub fn refs__l<T: Clone>(a: &Quaternion<T>) -> [T; 4] {
        [a.w_ref().clone(), a.x_ref().clone(), a.y_ref().clone(), a.z_ref().clone()]
    }
    pub fn refs__r<T: Clone>(a: &[T; 4]) -> [T; 4] {
        [a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone()]
    }
    pub fn wmut__l<T>(a: &mut Quaternion<T>, x: T) {
        *a.w_mut() = x;
    }
    pub fn wmut__r<T>(a: &mut [T; 4], x: T) {
        a[0] = x;
    }
    pub fn xmut__l<T>(a: &mut Quaternion<T>, x: T) {
        *a.x_mut() = x;
    }
    pub fn xmut__r<T>(a: &mut [T; 4], x: T) {
        a[1] = x;
    }
    pub fn ymut__l<T>(a: &mut Quaternion<T>, x: T) {
        *a.y_mut() = x;
    }
    pub fn ymut__r<T>(a: &mut [T; 4], x: T) {
        a[2] = x;
    }
    pub fn zmut__l<T>(a: &mut Quaternion<T>, x: T) {
        *a.z_mut() = x;
    }
    pub fn zmut__r<T>(a: &mut [T; 4], x: T) {
        a[3] = x;
    }
    pub fn eq__l<T: PartialEq>(a: &Quaternion<T>, b: &Quaternion<T>) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn eq__r<T: PartialEq>(a: &[T; 4], b: &[T; 4]) -> (bool, bool) {
        let e = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3];
        (e, !e)
    }
    pub fn clone__l<T: Clone>(a: &Quaternion<T>) -> Quaternion<T> {
        a.clone()
    }
    pub fn clone__r<T: Clone>(a: &[T; 4]) -> [T; 4] {
        a.clone()
    }
    pub fn eqself__l<T: PartialEq>(a: &Quaternion<T>) -> (bool, bool) {
        (a == a, a != a)
    }
    pub fn eqself__r<T: PartialEq>(a: &[T; 4]) -> (bool, bool) {
        let e = a[0] == a[0] && a[1] == a[1] && a[2] == a[2] && a[3] == a[3];
        (e, !e)
    }
    pub fn clonefrom__l<T: Clone>(a: &mut Quaternion<T>, b: &Quaternion<T>) {
        a.clone_from(b)
    }
    pub fn clonefrom__r<T: Clone>(a: &mut [T; 4], b: &[T; 4]) {
        *a = [b[0].clone(), b[1].clone(), b[2].clone(), b[3].clone()]
    }
    pub fn setzero__l<T: Zero>(a: &mut Quaternion<T>) {
        a.set_zero()
    }
    pub fn setzero__r<T: Zero>(a: &mut [T; 4]) {
        *a = [T::zero(), T::zero(), T::zero(), T::zero()]
    }
    pub fn setone__l<T: Zero + One + Sub<Output = T> + Copy>(a: &mut Quaternion<T>) {
        a.set_one()
    }
    pub fn setone__r<T: Zero + One + Sub<Output = T> + Copy>(a: &mut [T; 4]) {
        *a = [T::one(), T::zero(), T::zero(), T::zero()]
    }
    pub fn isone__l<T: Zero + One + Sub<Output = T> + PartialEq + Copy>(a: &Quaternion<T>) -> bool {
        a.is_one()
    }
    pub fn isone__r<T: Zero + One + Sub<Output = T> + PartialEq + Copy>(a: &[T; 4]) -> bool {
        a[0] == T::one() && a[1] == T::zero() && a[2] == T::zero() && a[3] == T::zero()
    }
    pub fn default__l<T: Default>() -> Quaternion<T> {
        Quaternion::default()
    }
    pub fn default__r<T: Default>() -> [T; 4] {
        [T::default(), T::default(), T::default(), T::default()]
    }
    pub fn zero__l<T: Zero>() -> Quaternion<T> {
        Quaternion::zero()
    }
    pub fn zero__r<T: Zero>() -> [T; 4] {
        [T::zero(), T::zero(), T::zero(), T::zero()]
    }
    pub fn iszero__l<T: Zero>(a: &Quaternion<T>) -> bool {
        a.is_zero()
    }
    pub fn iszero__r<T: Zero>(a: &[T; 4]) -> bool {
        a[0].is_zero() && a[1].is_zero() && a[2].is_zero() && a[3].is_zero()
    }
    pub fn units__l<T: Zero + One + Sub<Output = T> + Copy>() -> [Quaternion<T>; 4] {
        [Quaternion::one(), Quaternion::i(), Quaternion::j(), Quaternion::k()]
    }
    pub fn units__r<T: Zero + One + Sub<Output = T> + Copy>() -> [[T; 4]; 4] {
        let (z, u) = (T::zero(), T::one());
        [[u, z, z, z], [z, u, z, z], [z, z, u, z], [z, z, z, u]]
    }
    pub fn neg__l<T: Neg<Output = T>>(a: Quaternion<T>) -> Quaternion<T> {
        -a
    }
    pub fn neg__r<T: Neg<Output = T> + Copy>(a: [T; 4]) -> [T; 4] {
        [-a[0], -a[1], -a[2], -a[3]]
    }
    pub fn conj__l<T: Neg<Output = T> + Copy>(a: Quaternion<T>) -> [Quaternion<T>; 2] {
        [a.conj(), Conj::conj(a)]
    }
    pub fn conj__r<T: Neg<Output = T> + Copy>(a: [T; 4]) -> [[T; 4]; 2] {
        [[a[0], -a[1], -a[2], -a[3]]; 2]
    }
    pub fn add__l<T: Add<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> {
        a + b
    }
    pub fn add__r<T: Add<Output = T> + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
    }
    pub fn addc__l<T: Add<Output = T>>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> {
        a + b
    }
    pub fn addc__r<T: Add<Output = T> + Copy>(a: [T; 4], b: [T; 2]) -> [T; 4] {
        [a[0] + b[0], a[1] + b[1], a[2], a[3]]
    }
    pub fn adds__l<T: Add<Output = T>>(a: Quaternion<T>, b: T) -> Quaternion<T> {
        a + b
    }
    pub fn adds__r<T: Add<Output = T> + Copy>(a: [T; 4], b: T) -> [T; 4] {
        [a[0] + b, a[1], a[2], a[3]]
    }
    pub fn adda__l<T: AddAssign>(a: &mut Quaternion<T>, b: Quaternion<T>) {
        *a += b;
    }
    pub fn adda__r<T: AddAssign + Copy>(a: &mut [T; 4], b: [T; 4]) {
        a[0] += b[0];
        a[1] += b[1];
        a[2] += b[2];
        a[3] += b[3];
    }
    pub fn addca__l<T: AddAssign>(a: &mut Quaternion<T>, b: Complex<T>) {
        *a += b;
    }
    pub fn addca__r<T: AddAssign + Copy>(a: &mut [T; 4], b: [T; 2]) {
        a[0] += b[0];
        a[1] += b[1];
    }
    pub fn addsa__l<T: AddAssign>(a: &mut Quaternion<T>, b: T) {
        *a += b;
    }
    pub fn addsa__r<T: AddAssign>(a: &mut [T; 4], b: T) {
        a[0] += b;
    }
    pub fn sub__l<T: Sub<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> {
        a - b
    }
    pub fn sub__r<T: Sub<Output = T> + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]]
    }
    pub fn subc__l<T: Sub<Output = T>>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> {
        a - b
    }
    pub fn subc__r<T: Sub<Output = T> + Copy>(a: [T; 4], b: [T; 2]) -> [T; 4] {
        [a[0] - b[0], a[1] - b[1], a[2], a[3]]
    }
    pub fn subs__l<T: Sub<Output = T>>(a: Quaternion<T>, b: T) -> Quaternion<T> {
        a - b
    }
    pub fn subs__r<T: Sub<Output = T> + Copy>(a: [T; 4], b: T) -> [T; 4] {
        [a[0] - b, a[1], a[2], a[3]]
    }
    pub fn suba__l<T: SubAssign>(a: &mut Quaternion<T>, b: Quaternion<T>) {
        *a -= b;
    }
    pub fn suba__r<T: SubAssign + Copy>(a: &mut [T; 4], b: [T; 4]) {
        a[0] -= b[0];
        a[1] -= b[1];
        a[2] -= b[2];
        a[3] -= b[3];
    }
    pub fn subca__l<T: SubAssign>(a: &mut Quaternion<T>, b: Complex<T>) {
        *a -= b;
    }
    pub fn subca__r<T: SubAssign + Copy>(a: &mut [T; 4], b: [T; 2]) {
        a[0] -= b[0];
        a[1] -= b[1];
    }
    pub fn subsa__l<T: SubAssign>(a: &mut Quaternion<T>, b: T) {
        *a -= b;
    }
    pub fn subsa__r<T: SubAssign>(a: &mut [T; 4], b: T) {
        a[0] -= b;
    }
}

pub mod free_zero {
    use core::ops::*;
    use num_traits::Zero;
    use vecmat::Quaternion;
    pub fn isum__l<T: Zero + Add, const N: usize>(a: [Quaternion<T>; N]) -> Quaternion<T> {
        a.into_iter().sum()
    }
    pub fn isum__r<T: Zero + Add + Copy, const N: usize>(a: [[T; 4]; N]) -> [T; 4] {
        let mut s = [T::zero(), T::zero(), T::zero(), T::zero()];
        for x in a {
            s = [s[0] + x[0], s[1] + x[1], s[2] + x[2], s[3] + x[3]];
        }
        s
    }
}

pub mod ring {
    use core::ops::*;
    use num_traits::{Num, One, Zero};
    use vecmat::traits::*;
    use vecmat::matrix::*;
    use vecmat::vector::*;
    use vecmat::{Complex, Quaternion};
    // products of the units: i*j = k, j*k = i, k*i = j, squares are -1
    const UNIT: [[(bool, usize); 4]; 4] = [
        [(false, 0), (false, 1), (false, 2), (false, 3)],
        [(false, 1), (true, 0), (false, 3), (true, 2)],
        [(false, 2), (true, 3), (true, 0), (false, 1)],
        [(false, 3), (false, 2), (true, 1), (true, 0)],
    ];
    pub(crate) fn qmul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        // w = w w' - (x x' + y y' + z z'), everything else from the table of units
        core::array::from_fn(|c| {
            let mut s = a[0] * b[c];
            for i in 1..4 {
                for j in 0..4 {
                    let (neg, k) = UNIT[i][j];
                    if k == c {
                        s = if neg { s - a[i] * b[j] } else { s + a[i] * b[j] };
                    }
                }
            }
            s
        })
    }
    pub fn mul__l<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> {
        a * b
    }
    pub fn mul__r<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        qmul(a, b)
    }
    pub fn mula__l<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: &mut Quaternion<T>, b: Quaternion<T>) {
        *a *= b;
    }
    pub fn mula__r<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy>(a: &mut [T; 4], b: [T; 4]) {
        *a = qmul(*a, b);
    }
    // a complex number is the quaternion with its real and imaginary part as first two components
    pub fn mulc__l<T: Num + Copy>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> {
        a * b
    }
    pub fn mulc__r<T: Num + Copy>(a: [T; 4], b: [T; 2]) -> [T; 4] {
        qmul(a, [b[0], b[1], T::zero(), T::zero()])
    }
    pub fn mulca__l<T: Num + Copy>(a: &mut Quaternion<T>, b: Complex<T>) {
        *a *= b;
    }
    pub fn mulca__r<T: Num + Copy>(a: &mut [T; 4], b: [T; 2]) {
        *a = qmul(*a, [b[0], b[1], T::zero(), T::zero()]);
    }
    pub fn cmulq__l<T: Num + Copy>(a: Complex<T>, b: Quaternion<T>) -> Quaternion<T> {
        a * b
    }
    pub fn cmulq__r<T: Num + Copy>(a: [T; 2], b: [T; 4]) -> [T; 4] {
        qmul([a[0], a[1], T::zero(), T::zero()], b)
    }
    pub fn muls__l<T: Mul<Output = T> + Copy>(a: Quaternion<T>, b: T) -> Quaternion<T> {
        a * b
    }
    pub fn muls__r<T: Mul<Output = T> + Copy>(a: [T; 4], b: T) -> [T; 4] {
        [a[0] * b, a[1] * b, a[2] * b, a[3] * b]
    }
    pub fn mulsa__l<T: Mul<Output = T> + Copy>(a: &mut Quaternion<T>, b: T) {
        *a *= b;
    }
    pub fn mulsa__r<T: Mul<Output = T> + Copy>(a: &mut [T; 4], b: T) {
        *a = [a[0] * b, a[1] * b, a[2] * b, a[3] * b];
    }
    pub fn nsqr__l<T: Add<Output = T> + Mul<Output = T> + Copy>(a: Quaternion<T>) -> T {
        a.norm_sqr()
    }
    pub fn nsqr__r<T: Add<Output = T> + Mul<Output = T> + Copy>(a: [T; 4]) -> T {
        a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
    }
    pub fn dot__l<T: Add<Output = T> + Mul<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> T {
        a.dot(b)
    }
    pub fn dot__r<T: Add<Output = T> + Mul<Output = T> + Copy>(a: [T; 4], b: [T; 4]) -> T {
        a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
    }
    /// column k of the matrix is the product with the k-th unit
    pub fn mat__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>) -> Matrix4x4<T> {
        a.into_matrix()
    }
    pub fn mat__r<T: Neg<Output = T> + Num + Copy>(a: [T; 4]) -> [[T; 4]; 4] {
        let c: [[T; 4]; 4] = core::array::from_fn(|k| {
            let mut u = [T::zero(), T::zero(), T::zero(), T::zero()];
            u[k] = T::one();
            qmul(a, u)
        });
        core::array::from_fn(|i| core::array::from_fn(|k| c[k][i]))
    }
    pub fn matmul__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> (Matrix4x4<T>, Vector4<T>) {
        ((a * b).into_matrix(), (a * b).into_vector())
    }
    pub fn matmul__r<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> (Matrix4x4<T>, Vector4<T>) {
        (a.into_matrix().dot(b.into_matrix()), a.into_matrix().dot(b.into_vector()))
    }
    // laws
    pub fn assoc__l<T: Num + Copy>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) -> Quaternion<T> {
        (a * b) * c
    }
    pub fn assoc__r<T: Num + Copy>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) -> Quaternion<T> {
        a * (b * c)
    }
    pub fn conjmul__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> (Quaternion<T>, T) {
        ((a * b).conj(), (a * b).norm_sqr())
    }
    pub fn conjmul__r<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> (Quaternion<T>, T) {
        (b.conj() * a.conj(), a.norm_sqr() * b.norm_sqr())
    }
}
pub mod ring_zero_max3 {
    use core::ops::*;
    use num_traits::{One, Zero};
    use vecmat::Quaternion;
    pub fn iprod__l<T: Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy, const N: usize>(a: [Quaternion<T>; N]) -> Quaternion<T> {
        a.into_iter().product()
    }
    pub fn iprod__r<T: Zero + One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy, const N: usize>(a: [[T; 4]; N]) -> [T; 4] {
        let mut s = [T::one(), T::zero(), T::zero(), T::zero()];
        for x in a {
            s = super::ring::qmul(s, x);
        }
        s
    }
}

pub mod field {
    use core::ops::*;
    use num_traits::{Float, Inv, Num};
    use vecmat::traits::*;
    use vecmat::{Complex, Quaternion};
    use super::ring::qmul;

    fn qinv<T: Neg<Output = T> + Num + Copy>(a: [T; 4]) -> [T; 4] {
        let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        [a[0] / n, -a[1] / n, -a[2] / n, -a[3] / n]
    }
    fn up<T: Num + Copy>(a: [T; 2]) -> [T; 4] {
        [a[0], a[1], T::zero(), T::zero()]
    }
    pub fn divs__l<T: Div<Output = T> + Copy>(a: Quaternion<T>, b: T) -> Quaternion<T> {
        a / b
    }
    pub fn divs__r<T: Div<Output = T> + Copy>(a: [T; 4], b: T) -> [T; 4] {
        [a[0] / b, a[1] / b, a[2] / b, a[3] / b]
    }
    pub fn divsa__l<T: Div<Output = T> + Copy>(a: &mut Quaternion<T>, b: T) {
        *a /= b;
    }
    pub fn divsa__r<T: Div<Output = T> + Copy>(a: &mut [T; 4], b: T) {
        *a = [a[0] / b, a[1] / b, a[2] / b, a[3] / b];
    }
    pub fn inv__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>) -> Quaternion<T> {
        a.inv()
    }
    pub fn inv__r<T: Neg<Output = T> + Num + Copy>(a: [T; 4]) -> [T; 4] {
        qinv(a)
    }
    pub fn invt__l<T: Float>(a: Quaternion<T>) -> Quaternion<T> {
        Inv::inv(a)
    }
    pub fn invt__r<T: Float>(a: [T; 4]) -> [T; 4] {
        qinv(a)
    }
    pub fn div__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> {
        a / b
    }
    pub fn div__r<T: Neg<Output = T> + Num + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        qmul(a, qinv(b))
    }
    pub fn diva__l<T: Neg<Output = T> + Num + Copy>(a: &mut Quaternion<T>, b: Quaternion<T>) {
        *a /= b;
    }
    pub fn diva__r<T: Neg<Output = T> + Num + Copy>(a: &mut [T; 4], b: [T; 4]) {
        *a = qmul(*a, qinv(b));
    }
    pub fn divc__l<T: Neg<Output = T> + Num + Copy>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> {
        a / b
    }
    pub fn divc__r<T: Neg<Output = T> + Num + Copy>(a: [T; 4], b: [T; 2]) -> [T; 4] {
        qmul(a, qinv(up(b)))
    }
    pub fn divca__l<T: Neg<Output = T> + Num + Copy>(a: &mut Quaternion<T>, b: Complex<T>) {
        *a /= b;
    }
    pub fn divca__r<T: Neg<Output = T> + Num + Copy>(a: &mut [T; 4], b: [T; 2]) {
        *a = qmul(*a, qinv(up(b)));
    }
    pub fn cdivq__l<T: Neg<Output = T> + Num + Copy>(a: Complex<T>, b: Quaternion<T>) -> Quaternion<T> {
        a / b
    }
    pub fn cdivq__r<T: Neg<Output = T> + Num + Copy>(a: [T; 2], b: [T; 4]) -> [T; 4] {
        qmul(up(a), qinv(b))
    }
    pub fn invlaw__l<T: Float>(a: Quaternion<T>) -> [Quaternion<T>; 3] {
        [a * a.inv(), a.inv() * a, a / a]
    }
    pub fn invlaw__r<T: Float>(a: [T; 4]) -> [[T; 4]; 3] {
        let _ = a;
        [[T::one(), T::zero(), T::zero(), T::zero()]; 3]
    }
    pub fn norms__l<T: Float>(a: Quaternion<T>) -> [T; 4] {
        [a.norm(), a.norm_l2(), a.norm_l2_sqr(), a.norm_sqr()]
    }
    pub fn norms__r<T: Float>(a: [T; 4]) -> [T; 4] {
        let q = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        let n = q.sqrt();
        [n, n, q, q]
    }
    pub fn l1__l(a: Quaternion<f64>, b: Quaternion<f32>) -> (f64, f32) {
        (a.norm_l1(), b.norm_l1())
    }
    pub fn l1__r(a: [f64; 4], b: [f32; 4]) -> (f64, f32) {
        (a[0].abs() + a[1].abs() + a[2].abs() + a[3].abs(), b[0].abs() + b[1].abs() + b[2].abs() + b[3].abs())
    }
    pub fn normz__l<T: Float>(a: Quaternion<T>) -> [Quaternion<T>; 2] {
        [a.normalize(), Normalize::normalize(a)]
    }
    pub fn normz__r<T: Float>(a: [T; 4]) -> [[T; 4]; 2] {
        let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
        [[a[0] / n, a[1] / n, a[2] / n, a[3] / n]; 2]
    }
    pub fn revf32__l(s: f32, c: Complex<f32>, a: Quaternion<f32>) -> ([Quaternion<f32>; 4], [Quaternion<f32>; 2]) {
        ([s + a, s - a, s * a, s / a], [c + a, c - a])
    }
    pub fn revf32__r(s: f32, c: [f32; 2], a: [f32; 4]) -> ([[f32; 4]; 4], [[f32; 4]; 2]) {
        let i = qinv(a);
        (
            [
                [s + a[0], a[1], a[2], a[3]],
                [s - a[0], -a[1], -a[2], -a[3]],
                [s * a[0], s * a[1], s * a[2], s * a[3]],
                [s * i[0], s * i[1], s * i[2], s * i[3]],
            ],
            [[c[0] + a[0], c[1] + a[1], a[2], a[3]], [c[0] - a[0], c[1] - a[1], -a[2], -a[3]]],
        )
    }
    pub fn revf64__l(s: f64, c: Complex<f64>, a: Quaternion<f64>) -> ([Quaternion<f64>; 4], [Quaternion<f64>; 2]) {
        ([s + a, s - a, s * a, s / a], [c + a, c - a])
    }
    pub fn revf64__r(s: f64, c: [f64; 2], a: [f64; 4]) -> ([[f64; 4]; 4], [[f64; 4]; 2]) {
        let i = qinv(a);
        (
            [
                [s + a[0], a[1], a[2], a[3]],
                [s - a[0], -a[1], -a[2], -a[3]],
                [s * a[0], s * a[1], s * a[2], s * a[3]],
                [s * i[0], s * i[1], s * i[2], s * i[3]],
            ],
            [[c[0] + a[0], c[1] + a[1], a[2], a[3]], [c[0] - a[0], c[1] - a[1], -a[2], -a[3]]],
        )
    }
}
