//! Transformations: shift, scale, linear maps and their compositions.
#![allow(non_snake_case)]
mod spec;

/// any two reorderable transformations
pub mod free {
    use vecmat::traits::Normalize;
    use vecmat::transform::{Chain, Directional, Reorder};
    use vecmat::{Transform};

    pub fn parts__l<A: Copy, B: Copy>(a: A, b: B) -> ([Chain<A, B, u8>; 2], (A, B), (A, B), A, B)
    {
        let c: Chain<A, B, u8> = Chain::new(a, b);
        let d: (A, B) = c.into();
        ([c, (a, b).into()], c.split(), d, *c.outer(), *c.inner())
    }
    pub fn parts__r<A: Copy, B: Copy>(a: A, b: B) -> ([(A, B, ()); 2], (A, B), (A, B), A, B) {
        ([(a, b, ()), (a, b, ())], (a, b), (a, b), a, b)
    }
    pub fn partsm__l<A: Copy, B: Copy>(c: &mut Chain<A, B, u8>, a: A, b: B) -> (A, B) {
        let r = (*c.outer_mut(), *c.inner_mut());
        *c.outer_mut() = a;
        *c.inner_mut() = b;
        r
    }
    pub fn partsm__r<A: Copy, B: Copy>(c: &mut (A, B, ()), a: A, b: B) -> (A, B) {
        let r = (c.0, c.1);
        c.0 = a;
        c.1 = b;
        r
    }
    pub fn eq__l<A: PartialEq, B: PartialEq>(c: &Chain<A, B, u8>, d: &Chain<A, B, u8>) -> [bool; 4] {
        [c == d, c != d, c == c, c != c]
    }
    pub fn eq__r<A: PartialEq, B: PartialEq>(c: &(A, B, ()), d: &(A, B, ())) -> [bool; 4] {
        let (e, f) = (c.0 == d.0 && c.1 == d.1, c.0 == c.0 && c.1 == c.1);
        [e, !e, f, !f]
    }
    pub fn chclone__l<A: Clone, B: Clone>(c: &Chain<A, B, u8>) -> Chain<A, B, u8> {
        c.clone()
    }
    pub fn chclone__r<A: Clone, B: Clone>(c: &(A, B, ())) -> (A, B, ()) {
        (c.0.clone(), c.1.clone(), ())
    }
    pub fn chclonefrom__l<A: Clone, B: Clone>(c: &mut Chain<A, B, u8>, d: &Chain<A, B, u8>) {
        c.clone_from(d)
    }
    pub fn chclonefrom__r<A: Clone, B: Clone>(c: &mut (A, B, ()), d: &(A, B, ())) {
        *c = (d.0.clone(), d.1.clone(), ())
    }
    pub fn chapply__l<A, B, T: Copy>(c: &Chain<A, B, T>, x: T) -> T
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.apply(x)
    }
    pub fn chapply__r<A, B, T: Copy>(c: &(A, B, ()), x: T) -> T
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.0.apply(c.1.apply(x))
    }
    pub fn chderiv__l<A, B, T: Copy>(c: &Chain<A, B, T>, x: T, v: T) -> T
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.deriv(x, v)
    }
    pub fn chderiv__r<A, B, T: Copy>(c: &(A, B, ()), x: T, v: T) -> T
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.0.deriv(c.1.apply(x), c.1.deriv(x, v))
    }
    pub fn chdir__l<A, B, T: Copy + Normalize>(c: &Chain<A, B, T>, x: T, v: T) -> (T, T)
    where
        A: Directional<T> + Reorder<B, T>,
        B: Directional<T> + Reorder<A, T>,
    {
        (c.apply_dir(x, v), c.apply_normal(x, v))
    }
    pub fn chdir__r<A, B, T: Copy + Normalize>(c: &(A, B, ()), x: T, v: T) -> (T, T)
    where
        A: Directional<T> + Reorder<B, T>,
        B: Directional<T> + Reorder<A, T>,
    {
        (c.0.apply_dir(c.1.apply(x), c.1.apply_dir(x, v)), c.0.apply_normal(c.1.apply(x), c.1.apply_normal(x, v)))
    }
    pub fn chid__l<A, B, T: Copy>() -> Chain<A, B, T>
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        Chain::identity()
    }
    pub fn chid__r<A, B, T: Copy>() -> (A, B, ())
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        (A::identity(), B::identity(), ())
    }
    // (a b)^-1 = b^-1 a^-1 brought into the order of the chain
    pub fn chinv__l<A, B, T: Copy>(c: Chain<A, B, T>) -> Chain<A, B, T>
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.inv()
    }
    pub fn chinv__r<A, B, T: Copy>(c: (A, B, ())) -> (A, B, ())
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        let (ai, bi) = c.1.inv().reorder(c.0.inv());
        (ai, bi, ())
    }
    // (a b)(a' b') = a a'' b'' b' where b a' = a'' b''
    pub fn chchain__l<A, B, T: Copy>(c: Chain<A, B, T>, d: Chain<A, B, T>) -> Chain<A, B, T>
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        c.chain(d)
    }
    pub fn chchain__r<A, B, T: Copy>(c: (A, B, ()), d: (A, B, ())) -> (A, B, ())
    where
        A: Transform<T> + Reorder<B, T>,
        B: Transform<T> + Reorder<A, T>,
    {
        let (a2, b2) = c.1.reorder(d.0);
        (c.0.chain(a2), b2.chain(d.1), ())
    }
}

pub mod free_sz {
    use vecmat::transform::{Affine, Linear, Scale, Shift};
    use vecmat::{Matrix, Vector};
    pub fn conv__l<T: Copy, const N: usize>(v: Vector<T, N>, m: Matrix<T, N, N>, s: T) -> ([Shift<T, N>; 2], [Linear<T, N>; 2], [Scale<T>; 2]) {
        ([Shift::from_vector(v), v.into()], [Linear::from_matrix(m), m.into()], [Scale::from_mag(s), s.into()])
    }
    pub fn conv__r<T: Copy, const N: usize>(v: [T; N], m: [[T; N]; N], s: T) -> ([[T; N]; 2], [[[T; N]; N]; 2], [T; 2]) {
        ([v; 2], [m; 2], [s; 2])
    }
    pub fn conv2__l<T: Copy, const N: usize>(v: Shift<T, N>, m: Linear<T, N>, s: Scale<T>) -> ([Vector<T, N>; 2], [Matrix<T, N, N>; 2], T) {
        ([v.into_vector(), v.into()], [m.into_matrix(), m.into()], s.into_mag())
    }
    pub fn conv2__r<T: Copy, const N: usize>(v: [T; N], m: [[T; N]; N], s: T) -> ([[T; N]; 2], [[[T; N]; N]; 2], T) {
        ([v; 2], [m; 2], s)
    }
    pub fn affparts__l<T: Copy, const N: usize>(a: Affine<T, N>) -> (Linear<T, N>, Shift<T, N>) {
        (a.linear(), a.shift())
    }
    pub fn affparts__r<T: Copy, const N: usize>(a: ([T; N], [[T; N]; N], ())) -> ([[T; N]; N], [T; N]) {
        (a.1, a.0)
    }
    pub fn eqs__l<T: PartialEq, const N: usize>(a: &Shift<T, N>, b: &Shift<T, N>, c: &Linear<T, N>, d: &Linear<T, N>, e: &Scale<T>, f: &Scale<T>) -> [bool; 6] {
        [a == b, c == d, e == f, a != b, c != d, e != f]
    }
    pub fn eqs__r<T: PartialEq, const N: usize>(a: &[T; N], b: &[T; N], c: &[[T; N]; N], d: &[[T; N]; N], e: &T, f: &T) -> [bool; 6] {
        let (mut x, mut y, z) = (true, true, e == f);
        for i in 0..N {
            x = x && a[i] == b[i];
            for j in 0..N {
                y = y && c[i][j] == d[i][j];
            }
        }
        [x, y, z, !x, !y, !z]
    }
    pub fn clones__l<T: Clone, const N: usize>(a: &Shift<T, N>, c: &Linear<T, N>, e: &Scale<T>) -> (Shift<T, N>, Linear<T, N>, Scale<T>) {
        (a.clone(), c.clone(), e.clone())
    }
    pub fn clones__r<T: Clone, const N: usize>(a: &[T; N], c: &[[T; N]; N], e: &T) -> ([T; N], [[T; N]; N], T) {
        (a.clone(), c.clone(), e.clone())
    }
    pub fn clonefroms__l<T: Clone, const N: usize>(a: &mut Shift<T, N>, c: &mut Linear<T, N>, e: &mut Scale<T>, b: &Shift<T, N>, d: &Linear<T, N>, f: &Scale<T>) {
        a.clone_from(b);
        c.clone_from(d);
        e.clone_from(f)
    }
    pub fn clonefroms__r<T: Clone, const N: usize>(a: &mut [T; N], c: &mut [[T; N]; N], e: &mut T, b: &[T; N], d: &[[T; N]; N], f: &T) {
        *a = b.clone();
        *c = d.clone();
        *e = f.clone()
    }
    pub fn eqself__l<T: PartialEq, const N: usize>(a: &Shift<T, N>, c: &Linear<T, N>, e: &Scale<T>) -> [bool; 6] {
        [a == a, c == c, e == e, a != a, c != c, e != e]
    }
    pub fn eqself__r<T: PartialEq, const N: usize>(a: &[T; N], c: &[[T; N]; N], e: &T) -> [bool; 6] {
        let (mut x, mut y, z) = (true, true, e == e);
        for i in 0..N {
            x = x && a[i] == a[i];
            for j in 0..N {
                y = y && c[i][j] == c[i][j];
            }
        }
        [x, y, z, !x, !y, !z]
    }
    pub fn dirs__l<T: core::ops::Neg<Output = T> + num_traits::Num + Copy, const N: usize>(s: &Shift<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        use vecmat::transform::Directional;
        [s.apply_dir(p, v), s.apply_normal(p, v)]
    }
    pub fn dirs__r<T: core::ops::Neg<Output = T> + num_traits::Num + Copy, const N: usize>(s: &[T; N], p: [T; N], v: [T; N]) -> [[T; N]; 2] {
        let _ = (s, p);
        [v, v]
    }
}

pub mod ring {
    use core::ops::Neg;
    use num_traits::{Inv, Num};
    use vecmat::transform::{Linear, Scale, Shift};
    use vecmat::{Transform, Vector, Matrix};
    pub fn shift__l<T: Neg<Output = T> + Num + Copy, const N: usize>(s: Shift<T, N>, t: Shift<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 5] {
        [Shift::identity().into_vector(), s.inv().into_vector(), s.apply(p), s.deriv(p, v), s.chain(t).into_vector()]
    }
    pub fn shift__r<T: Neg<Output = T> + Num + Copy, const N: usize>(s: [T; N], t: [T; N], p: [T; N], v: [T; N]) -> [[T; N]; 5] {
        let f = |g: &dyn Fn(usize) -> T| -> [T; N] { core::array::from_fn(|i| g(i)) };
        [[T::zero(); N], f(&|i| -s[i]), f(&|i| p[i] + s[i]), v, f(&|i| s[i] + t[i])]
    }
    pub fn scale__l<T: Num + Inv<Output = T> + Copy, const N: usize>(s: Scale<T>, t: Scale<T>, p: Vector<T, N>, v: Vector<T, N>) -> ([T; 2], [Vector<T, N>; 2]) {
        type V<T, const N: usize> = Vector<T, N>;
        (
            [<Scale<T> as Transform<V<T, N>>>::identity().into_mag(), Transform::<V<T, N>>::chain(s, t).into_mag()],
            [s.apply(p), s.deriv(p, v)],
        )
    }
    pub fn scale__r<T: Num + Inv<Output = T> + Copy, const N: usize>(s: T, t: T, p: [T; N], v: [T; N]) -> ([T; 2], [[T; N]; 2]) {
        ([T::one(), s * t], [core::array::from_fn(|i| p[i] * s), core::array::from_fn(|i| v[i] * s)])
    }
    pub fn scaleinv__l<T: Num + Inv<Output = T> + Copy, const N: usize>(s: Scale<T>, p: Vector<T, N>) -> T {
        let _ = p;
        Transform::<Vector<T, N>>::inv(s).into_mag()
    }
    pub fn scaleinv__r<T: Num + Inv<Output = T> + Copy, const N: usize>(s: T, p: [T; N]) -> T {
        let _ = p;
        s.inv()
    }
    pub fn reord__l<T: Neg<Output = T> + Num + Inv<Output = T> + Copy, const N: usize>(l: Linear<T, N>, c: Scale<T>, s: Shift<T, N>, x: Vector<T, N>) -> [Vector<T, N>; 2] {
        use vecmat::transform::Reorder;
        // outer(inner(x)) before and after
        let (s1, l1) = Reorder::<Shift<T, N>, Vector<T, N>>::reorder(l, s);
        let (s2, c1) = Reorder::<Shift<T, N>, Vector<T, N>>::reorder(c, s);
        [s1.apply(l1.apply(x)), s2.apply(c1.apply(x))]
    }
    pub fn reord__r<T: Neg<Output = T> + Num + Inv<Output = T> + Copy, const N: usize>(l: Linear<T, N>, c: Scale<T>, s: Shift<T, N>, x: Vector<T, N>) -> [Vector<T, N>; 2] {
        [l.apply(s.apply(x)), c.apply(s.apply(x))]
    }
    pub fn linear0__l<T: Neg<Output = T> + Num + Copy, const N: usize>(l: Linear<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> (Matrix<T, N, N>, [Vector<T, N>; 2]) {
        (Linear::identity().into_matrix(), [l.apply(p), l.deriv(p, v)])
    }
    pub fn linear0__r<T: Neg<Output = T> + Num + Copy, const N: usize>(l: [[T; N]; N], p: [T; N], v: [T; N]) -> ([[T; N]; N], [[T; N]; 2]) {
        let mv = |x: [T; N]| -> [T; N] {
            core::array::from_fn(|i| {
                let mut s = T::zero();
                for k in 0..N {
                    s = s + l[i][k] * x[k];
                }
                s
            })
        };
        (core::array::from_fn(|i| core::array::from_fn(|j| if i == j { T::one() } else { T::zero() })), [mv(p), mv(v)])
    }
}
pub mod ring_max5 {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::transform::{Affine, Linear};
    use vecmat::{Transform, Vector};
    pub fn linear__l<T: Neg<Output = T> + Num + Copy, const N: usize>(l: Linear<T, N>, m: Linear<T, N>) -> Linear<T, N> {
        l.chain(m)
    }
    pub fn linear__r<T: Neg<Output = T> + Num + Copy, const N: usize>(l: [[T; N]; N], m: [[T; N]; N]) -> [[T; N]; N] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let mut s = T::zero();
                for k in 0..N {
                    s = s + l[i][k] * m[k][j];
                }
                s
            })
        })
    }
    pub fn affine__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Affine<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> (Affine<T, N>, [Vector<T, N>; 2]) {
        (Affine::identity(), [a.apply(p), a.deriv(p, v)])
    }
    pub fn affine__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: ([T; N], [[T; N]; N], ()), p: [T; N], v: [T; N]) -> (([T; N], [[T; N]; N], ()), [[T; N]; 2]) {
        let mv = |x: [T; N]| -> [T; N] {
            core::array::from_fn(|i| {
                let mut s = T::zero();
                for k in 0..N {
                    s = s + a.1[i][k] * x[k];
                }
                s
            })
        };
        let q = mv(p);
        (
            ([T::zero(); N], core::array::from_fn(|i| core::array::from_fn(|j| if i == j { T::one() } else { T::zero() })), ()),
            [core::array::from_fn(|i| q[i] + a.0[i]), mv(v)],
        )
    }
    pub fn affchain__l<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Affine<T, N>, b: Affine<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        let c = a.chain(b);
        [c.apply(p), c.deriv(p, v)]
    }
    pub fn affchain__r<T: Neg<Output = T> + Num + Copy, const N: usize>(a: Affine<T, N>, b: Affine<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        [a.apply(b.apply(p)), a.deriv(b.apply(p), b.deriv(p, v))]
    }
}

pub mod field {
    use num_traits::{Float, Inv};
    use vecmat::transform::{Chain, Directional, Linear, Reorder, Scale, Shift};
    use vecmat::{Transform, Vector};
    // shifts and scales
    pub fn sslaw__l<T: Float + Inv<Output = T>, const N: usize>(a: Chain<Shift<T, N>, Scale<T>, Vector<T, N>>, b: Chain<Shift<T, N>, Scale<T>, Vector<T, N>>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.chain(b).apply(p), a.inv().apply(a.apply(p)), a.apply(a.inv().apply(p)), Chain::<Shift<T, N>, Scale<T>, Vector<T, N>>::identity().apply(p)]
    }
    pub fn sslaw__r<T: Float + Inv<Output = T>, const N: usize>(a: Chain<Shift<T, N>, Scale<T>, Vector<T, N>>, b: Chain<Shift<T, N>, Scale<T>, Vector<T, N>>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.apply(b.apply(p)), p, p, p]
    }
    pub fn cslaw__l<T: Float + Inv<Output = T>, const N: usize>(a: Chain<Scale<T>, Shift<T, N>, Vector<T, N>>, b: Chain<Scale<T>, Shift<T, N>, Vector<T, N>>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.chain(b).apply(p), a.inv().apply(a.apply(p)), a.apply(a.inv().apply(p)), Chain::<Scale<T>, Shift<T, N>, Vector<T, N>>::identity().apply(p)]
    }
    pub fn cslaw__r<T: Float + Inv<Output = T>, const N: usize>(a: Chain<Scale<T>, Shift<T, N>, Vector<T, N>>, b: Chain<Scale<T>, Shift<T, N>, Vector<T, N>>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.apply(b.apply(p)), p, p, p]
    }
    pub fn sreord__l<T: Float + Inv<Output = T>, const N: usize>(c: Scale<T>, s: Shift<T, N>, x: Vector<T, N>) -> Vector<T, N> {
        let (c1, s1) = Reorder::<Scale<T>, Vector<T, N>>::reorder(s, c);
        c1.apply(s1.apply(x))
    }
    pub fn sreord__r<T: Float + Inv<Output = T>, const N: usize>(c: Scale<T>, s: Shift<T, N>, x: Vector<T, N>) -> Vector<T, N> {
        s.apply(c.apply(x))
    }
    /// positive magnitudes
    pub fn dirscale__l<T: Float + Inv<Output = T>, const N: usize>(m: T, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        let u = v.normalize();
        let s = Scale::from_mag(m * m);
        [s.apply_dir(p, u), s.apply_normal(p, u)]
    }
    pub fn dirscale__r<T: Float + Inv<Output = T>, const N: usize>(m: T, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        let _ = (m, p);
        [v.normalize(), v.normalize()]
    }
}
pub mod field_max3_cap {
    use num_traits::Float;
    use vecmat::transform::{Chain, Directional, Linear, Reorder, Shift};
    use vecmat::transform::Affine;
    use vecmat::{Transform, Vector};
    type LS<T, const N: usize> = Chain<Linear<T, N>, Shift<T, N>, Vector<T, N>>;
    pub fn linlaw__l<T: Float, const N: usize>(a: Linear<T, N>, b: Linear<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.chain(b).apply(p), a.inv().apply(a.apply(p)), a.apply(a.inv().apply(p)), Linear::identity().apply(p)]
    }
    pub fn linlaw__r<T: Float, const N: usize>(a: Linear<T, N>, b: Linear<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 4] {
        [a.apply(b.apply(p)), p, p, p]
    }
    pub fn afflaw__l<T: Float, const N: usize>(a: Affine<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 3] {
        [a.inv().apply(a.apply(p)), a.apply(a.inv().apply(p)), Affine::identity().apply(p)]
    }
    pub fn afflaw__r<T: Float, const N: usize>(a: Affine<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 3] {
        let _ = a;
        [p, p, p]
    }
    pub fn lslaw__l<T: Float, const N: usize>(a: LS<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 3] {
        [a.inv().apply(a.apply(p)), a.apply(a.inv().apply(p)), LS::<T, N>::identity().apply(p)]
    }
    pub fn lslaw__r<T: Float, const N: usize>(a: LS<T, N>, p: Vector<T, N>) -> [Vector<T, N>; 3] {
        let _ = a;
        [p, p, p]
    }
    pub fn lschain__l<T: Float, const N: usize>(a: LS<T, N>, b: LS<T, N>, p: Vector<T, N>) -> Vector<T, N> {
        a.chain(b).apply(p)
    }
    pub fn lschain__r<T: Float, const N: usize>(a: LS<T, N>, b: LS<T, N>, p: Vector<T, N>) -> Vector<T, N> {
        a.apply(b.apply(p))
    }
    pub fn lreord__l<T: Float, const N: usize>(l: Linear<T, N>, s: Shift<T, N>, x: Vector<T, N>) -> Vector<T, N> {
        let (l1, s1) = Reorder::<Linear<T, N>, Vector<T, N>>::reorder(s, l);
        l1.apply(s1.apply(x))
    }
    pub fn lreord__r<T: Float, const N: usize>(l: Linear<T, N>, s: Shift<T, N>, x: Vector<T, N>) -> Vector<T, N> {
        s.apply(l.apply(x))
    }
    /// normals transform with the inverse transpose
    pub fn normtr__l<T: Float, const N: usize>(l: Linear<T, N>) -> Linear<T, N> {
        l.normal_transform()
    }
    pub fn normtr__r<T: Float, const N: usize>(l: Linear<T, N>) -> Linear<T, N> {
        l.inv().into_matrix().transpose().into()
    }
    pub fn lindir__l<T: Float, const N: usize>(l: Linear<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        [l.apply_dir(p, v), l.apply_normal(p, v)]
    }
    pub fn lindir__r<T: Float, const N: usize>(l: Linear<T, N>, p: Vector<T, N>, v: Vector<T, N>) -> [Vector<T, N>; 2] {
        let _ = p;
        [l.apply(v).normalize(), l.normal_transform().apply(v).normalize()]
    }
    /// a normal stays perpendicular to a tangent
    pub fn perp__l<T: Float, const N: usize>(l: Linear<T, N>, n: Vector<T, N>, t: Vector<T, N>) -> T {
        use vecmat::traits::Dot;
        l.normal_transform().apply(n).dot(l.apply(t))
    }
    pub fn perp__r<T: Float, const N: usize>(l: Linear<T, N>, n: Vector<T, N>, t: Vector<T, N>) -> T {
        use vecmat::traits::Dot;
        let _ = l;
        n.dot(t)
    }
}
