//! Random sampling: which draws make up a sample.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use core::marker::PhantomData;
    use rand::{distributions::Distribution, Rng};
    use vecmat::complex::{Complex, Quaternion};
    use vecmat::distr::Normal;
    use vecmat::matrix::MatrixDistribution;
    use vecmat::transform::{Affine, Linear, Scale, Shift};
    use vecmat::vector::VectorDistribution;
    use vecmat::{Matrix, Vector};

    fn row<T, D: Distribution<T> + ?Sized, R: Rng + ?Sized, const N: usize>(d: &D, rng: &mut R) -> [T; N] {
        core::array::from_fn(|_| d.sample(rng))
    }
    fn grid<T, D: Distribution<T> + ?Sized, R: Rng + ?Sized, const M: usize, const N: usize>(d: &D, rng: &mut R) -> [[T; N]; M] {
        core::array::from_fn(|_| core::array::from_fn(|_| d.sample(rng)))
    }

    pub fn vdist__l<T, D: Distribution<T>, R: Rng, const N: usize>(d: D, rng: &mut R) -> Vector<T, N> {
        VectorDistribution::new(d).sample(rng)
    }
    pub fn vdist__r<T, D: Distribution<T>, R: Rng, const N: usize>(d: D, rng: &mut R) -> [T; N] {
        row(&d, rng)
    }
    pub fn mdist__l<T, D: Distribution<T>, R: Rng, const M: usize, const N: usize>(d: D, rng: &mut R) -> Matrix<T, M, N> {
        MatrixDistribution::new(d).sample(rng)
    }
    pub fn mdist__r<T, D: Distribution<T>, R: Rng, const M: usize, const N: usize>(d: D, rng: &mut R) -> [[T; N]; M] {
        grid(&d, rng)
    }
    pub fn vnormal__l<T, R: Rng, const N: usize>(rng: &mut R) -> Vector<T, N>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Vector<T, N>>>::sample(&Normal, rng)
    }
    pub fn vnormal__r<T, R: Rng, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        row(&Normal, rng)
    }
    pub fn mnormal__l<T, R: Rng, const M: usize, const N: usize>(rng: &mut R) -> Matrix<T, M, N>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Matrix<T, M, N>>>::sample(&Normal, rng)
    }
    pub fn mnormal__r<T, R: Rng, const M: usize, const N: usize>(rng: &mut R) -> [[T; N]; M]
    where
        Normal: Distribution<T>,
    {
        grid(&Normal, rng)
    }
    pub fn cnormal__l<T, R: Rng>(rng: &mut R) -> Complex<T>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Complex<T>>>::sample(&Normal, rng)
    }
    pub fn cnormal__r<T, R: Rng>(rng: &mut R) -> [T; 2]
    where
        Normal: Distribution<T>,
    {
        row(&Normal, rng)
    }
    pub fn qnormal__l<T, R: Rng>(rng: &mut R) -> Quaternion<T>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Quaternion<T>>>::sample(&Normal, rng)
    }
    pub fn qnormal__r<T, R: Rng>(rng: &mut R) -> [T; 4]
    where
        Normal: Distribution<T>,
    {
        row(&Normal, rng)
    }
    pub fn scale__l<T, R: Rng>(rng: &mut R) -> Scale<T>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Scale<T>>>::sample(&Normal, rng)
    }
    pub fn scale__r<T, R: Rng>(rng: &mut R) -> T
    where
        Normal: Distribution<T>,
    {
        Normal.sample(rng)
    }
    pub fn shift__l<T, R: Rng, const N: usize>(rng: &mut R) -> Shift<T, N>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Shift<T, N>>>::sample(&Normal, rng)
    }
    pub fn shift__r<T, R: Rng, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        row(&Normal, rng)
    }
    pub fn linear__l<T, R: Rng, const N: usize>(rng: &mut R) -> Linear<T, N>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Linear<T, N>>>::sample(&Normal, rng)
    }
    pub fn linear__r<T, R: Rng, const N: usize>(rng: &mut R) -> [[T; N]; N]
    where
        Normal: Distribution<T>,
    {
        grid(&Normal, rng)
    }
    // the shift is drawn first
    pub fn affine__l<T, R: Rng, const N: usize>(rng: &mut R) -> Affine<T, N>
    where
        Normal: Distribution<T>,
    {
        <Normal as Distribution<Affine<T, N>>>::sample(&Normal, rng)
    }
    pub fn affine__r<T, R: Rng, const N: usize>(rng: &mut R) -> ([T; N], [[T; N]; N], PhantomData<Vector<T, N>>)
    where
        Normal: Distribution<T>,
    {
        let s = row(&Normal, rng);
        (s, grid(&Normal, rng), PhantomData)
    }
}

pub mod field {
    use core::marker::PhantomData;
    use rand::{
        distributions::{Distribution, Uniform as Range},
        Rng,
    };
    use num_traits::{Float, Num};
    use core::ops::Neg;
    use vecmat::complex::{Complex, Moebius, Quaternion};
    use vecmat::traits::{Epsilon, NormL1};
    use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
    use vecmat::transform::{Affine, Linear, Rotation2, Rotation3};
    use vecmat::{Matrix, Vector};

    macro_rules! gaussian {
        ($T:ident, $l:ident, $r:ident) => {
            pub fn $l<R: Rng>(rng: &mut R) -> $T {
                Normal.sample(rng)
            }
            pub fn $r<R: Rng>(rng: &mut R) -> $T {
                let u = Range::<$T>::new(0.0, 1.0).sample(rng);
                let a = Range::<$T>::new(0.0, core::$T::consts::PI).sample(rng);
                (-2.0 * (1.0 - u).ln()).sqrt() * a.cos()
            }
        };
    }
    gaussian!(f32, normal_f32__l, normal_f32__r);
    gaussian!(f64, normal_f64__l, normal_f64__r);

    fn row<T: Float, R: Rng + ?Sized, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        core::array::from_fn(|_| <Normal as Distribution<T>>::sample(&Normal, rng))
    }
    fn length<T: Float, const N: usize>(a: &[T; N]) -> T {
        let mut s = a[0] * a[0];
        for k in 1..N {
            s = s + a[k] * a[k];
        }
        s.sqrt()
    }
    fn nonzero<T: Float, R: Rng + ?Sized, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        loop {
            let x: [T; N] = row(rng);
            if length(&x) > T::epsilon() {
                return x;
            }
        }
    }
    fn unit<T: Float, R: Rng + ?Sized, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        let x: [T; N] = nonzero(rng);
        let l = length(&x);
        core::array::from_fn(|k| x[k] / l)
    }
    pub fn vnonzero__l<T: Float, R: Rng, const N: usize>(rng: &mut R) -> Vector<T, N>
    where
        Normal: Distribution<T>,
    {
        <NonZero as Distribution<Vector<T, N>>>::sample(&NonZero, rng)
    }
    pub fn vnonzero__r<T: Float, R: Rng, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        nonzero(rng)
    }
    pub fn cnonzero__l<T: Float, R: Rng>(rng: &mut R) -> Complex<T>
    where
        Normal: Distribution<T>,
    {
        <NonZero as Distribution<Complex<T>>>::sample(&NonZero, rng)
    }
    pub fn cnonzero__r<T: Float, R: Rng>(rng: &mut R) -> [T; 2]
    where
        Normal: Distribution<T>,
    {
        nonzero(rng)
    }
    pub fn qnonzero__l<T: Float, R: Rng>(rng: &mut R) -> Quaternion<T>
    where
        Normal: Distribution<T>,
    {
        <NonZero as Distribution<Quaternion<T>>>::sample(&NonZero, rng)
    }
    pub fn qnonzero__r<T: Float, R: Rng>(rng: &mut R) -> [T; 4]
    where
        Normal: Distribution<T>,
    {
        nonzero(rng)
    }
    pub fn vunit__l<T: Float, R: Rng, const N: usize>(rng: &mut R) -> Vector<T, N>
    where
        Normal: Distribution<T>,
    {
        <Unit as Distribution<Vector<T, N>>>::sample(&Unit, rng)
    }
    pub fn vunit__r<T: Float, R: Rng, const N: usize>(rng: &mut R) -> [T; N]
    where
        Normal: Distribution<T>,
    {
        unit(rng)
    }
    pub fn cunit__l<T: Float, R: Rng>(rng: &mut R) -> Complex<T>
    where
        Normal: Distribution<T>,
    {
        <Unit as Distribution<Complex<T>>>::sample(&Unit, rng)
    }
    pub fn cunit__r<T: Float, R: Rng>(rng: &mut R) -> [T; 2]
    where
        Normal: Distribution<T>,
    {
        unit(rng)
    }
    pub fn qunit__l<T: Float, R: Rng>(rng: &mut R) -> Quaternion<T>
    where
        Normal: Distribution<T>,
    {
        <Unit as Distribution<Quaternion<T>>>::sample(&Unit, rng)
    }
    pub fn qunit__r<T: Float, R: Rng>(rng: &mut R) -> [T; 4]
    where
        Normal: Distribution<T>,
    {
        unit(rng)
    }

    fn row64<R: Rng + ?Sized, const N: usize>(rng: &mut R) -> [f64; N] {
        core::array::from_fn(|_| Normal.sample(rng))
    }
    fn det2(a: &[[f64; 2]; 2]) -> f64 {
        a[0][0] * a[1][1] - a[0][1] * a[1][0]
    }
    fn det3(a: &[[f64; 3]; 3]) -> f64 {
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    }
    fn inv2<R: Rng>(rng: &mut R) -> [[f64; 2]; 2] {
        loop {
            let x = [row64(rng), row64(rng)];
            if !(det2(&x).abs() <= f64::EPSILON) {
                return x;
            }
        }
    }
    fn inv3<R: Rng>(rng: &mut R) -> [[f64; 3]; 3] {
        loop {
            let x = [row64(rng), row64(rng), row64(rng)];
            if !(det3(&x).abs() <= f64::EPSILON) {
                return x;
            }
        }
    }
    pub fn minv1__l<R: Rng>(rng: &mut R) -> Matrix<f64, 1, 1> {
        Invertible.sample(rng)
    }
    pub fn minv1__r<R: Rng>(rng: &mut R) -> [[f64; 1]; 1] {
        loop {
            let x: f64 = Normal.sample(rng);
            if !(x.abs() <= f64::EPSILON) {
                return [[x]];
            }
        }
    }
    pub fn minv2__l<R: Rng>(rng: &mut R) -> Matrix<f64, 2, 2> {
        Invertible.sample(rng)
    }
    pub fn minv2__r<R: Rng>(rng: &mut R) -> [[f64; 2]; 2] {
        inv2(rng)
    }
    pub fn minv3__l<R: Rng>(rng: &mut R) -> Matrix<f64, 3, 3> {
        Invertible.sample(rng)
    }
    pub fn minv3__r<R: Rng>(rng: &mut R) -> [[f64; 3]; 3] {
        inv3(rng)
    }
    pub fn moebius__l<R: Rng>(rng: &mut R) -> Moebius<f64> {
        Invertible.sample(rng)
    }
    pub fn moebius__r<R: Rng>(rng: &mut R) -> [[f64; 2]; 2] {
        inv2(rng)
    }
    pub fn linear_inv__l<R: Rng>(rng: &mut R) -> Linear<f64, 2> {
        Invertible.sample(rng)
    }
    pub fn linear_inv__r<R: Rng>(rng: &mut R) -> [[f64; 2]; 2] {
        inv2(rng)
    }
    pub fn affine_inv__l<R: Rng>(rng: &mut R) -> Affine<f64, 2> {
        Invertible.sample(rng)
    }
    pub fn affine_inv__r<R: Rng>(rng: &mut R) -> ([f64; 2], [[f64; 2]; 2], PhantomData<Vector<f64, 2>>) {
        let s = row64(rng);
        (s, inv2(rng), PhantomData)
    }
    pub fn rotation2__l<R: Rng>(rng: &mut R) -> Rotation2<f64> {
        Uniform.sample(rng)
    }
    pub fn rotation2__r<R: Rng>(rng: &mut R) -> [f64; 2] {
        let a = Range::new(0.0, 2.0 * core::f64::consts::PI).sample(rng);
        [a.cos(), a.sin()]
    }
    pub fn rotation3__l<R: Rng>(rng: &mut R) -> Rotation3<f64> {
        Uniform.sample(rng)
    }
    pub fn rotation3__r<R: Rng>(rng: &mut R) -> [f64; 4] {
        let x: [f64; 3] = unit(rng);
        let a = Range::new(0.0, 2.0 * core::f64::consts::PI).sample(rng) / 2.0;
        [a.cos(), x[0] * a.sin(), x[1] * a.sin(), x[2] * a.sin()]
    }
    pub fn ginv2__l<T: Neg<Output = T> + Num + NormL1 + Copy, R: Rng>(rng: &mut R) -> Matrix<T, 2, 2>
    where
        Normal: Distribution<T>,
        <T as NormL1>::Output: Epsilon,
    {
        <Invertible as Distribution<Matrix<T, 2, 2>>>::sample(&Invertible, rng)
    }
    pub fn ginv2__r<T: Neg<Output = T> + Num + NormL1 + Copy, R: Rng>(rng: &mut R) -> [[T; 2]; 2]
    where
        Normal: Distribution<T>,
        <T as NormL1>::Output: Epsilon,
    {
        loop {
            let x: [[T; 2]; 2] =
                core::array::from_fn(|_| core::array::from_fn(|_| <Normal as Distribution<T>>::sample(&Normal, rng)));
            let d = x[0][0] * x[1][1] - x[0][1] * x[1][0];
            if !d.norm_l1().is_epsilon() {
                return x;
            }
        }
    }
}
