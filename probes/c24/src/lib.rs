//! Rotations of the plane and of space.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use vecmat::transform::{Rotation2, Rotation3};
    use vecmat::{Complex, Quaternion};
    pub fn conv2__l<T: Copy>(c: Complex<T>, r: Rotation2<T>) -> ([Rotation2<T>; 2], [Complex<T>; 2]) {
        ([Rotation2::from_complex(c), c.into()], [r.into_complex(), r.into()])
    }
    pub fn conv2__r<T: Copy>(c: [T; 2], r: [T; 2]) -> ([[T; 2]; 2], [[T; 2]; 2]) {
        ([c; 2], [r; 2])
    }
    pub fn conv3__l<T: Copy>(c: Quaternion<T>, r: Rotation3<T>) -> ([Rotation3<T>; 2], [Quaternion<T>; 2]) {
        ([Rotation3::from_quaternion(c), c.into()], [r.into_quaternion(), r.into()])
    }
    pub fn conv3__r<T: Copy>(c: [T; 4], r: [T; 4]) -> ([[T; 4]; 2], [[T; 4]; 2]) {
        ([c; 2], [r; 2])
    }
    pub fn clone__l<T: Clone>(a: &Rotation2<T>, c: &Rotation3<T>) -> (Rotation2<T>, Rotation3<T>) {
        (a.clone(), c.clone())
    }
    pub fn clone__r<T: Clone>(a: &[T; 2], c: &[T; 4]) -> ([T; 2], [T; 4]) {
        (a.clone(), c.clone())
    }
    pub fn clonefrom__l<T: Clone>(a: &mut Rotation2<T>, c: &mut Rotation3<T>, b: &Rotation2<T>, d: &Rotation3<T>) {
        a.clone_from(b);
        c.clone_from(d)
    }
    pub fn clonefrom__r<T: Clone>(a: &mut [T; 2], c: &mut [T; 4], b: &[T; 2], d: &[T; 4]) {
        *a = b.clone();
        *c = d.clone()
    }
    pub fn eq__l<T: PartialEq>(a: &Rotation2<T>, b: &Rotation2<T>, c: &Rotation3<T>, d: &Rotation3<T>) -> [bool; 8] {
        [a == b, c == d, a != b, c != d, a == a, c == c, a != a, c != c]
    }
    pub fn eq__r<T: PartialEq>(a: &[T; 2], b: &[T; 2], c: &[T; 4], d: &[T; 4]) -> [bool; 8] {
        let (e, f) = (a[0] == b[0] && a[1] == b[1], c[0] == d[0] && c[1] == d[1] && c[2] == d[2] && c[3] == d[3]);
        let (g, h) = (a[0] == a[0] && a[1] == a[1], c[0] == c[0] && c[1] == c[1] && c[2] == c[2] && c[3] == c[3]);
        [e, f, !e, !f, g, h, !g, !h]
    }
}

pub mod ring {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::transform::{Chain, Directional, Linear, Rotation2, Rotation3, Shift, Reorder};
    use vecmat::{Transform, Vector};

    fn cmul<T: Num + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    }
    fn qmul<T: Num + Copy>(a: [T; 4], b: [T; 4]) -> [T; 4] {
        [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ]
    }
    fn qrot<T: Neg<Output = T> + Num + Copy>(q: [T; 4], v: [T; 3]) -> [T; 3] {
        let r = qmul(qmul(q, [T::zero(), v[0], v[1], v[2]]), [q[0], -q[1], -q[2], -q[3]]);
        [r[1], r[2], r[3]]
    }
    pub fn two__l<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, s: Rotation2<T>, p: Vector<T, 2>, v: Vector<T, 2>) -> ([Rotation2<T>; 3], [Vector<T, 2>; 4]) {
        ([Rotation2::identity(), r.inv(), r.chain(s)], [r.apply(p), r.deriv(p, v), r.apply_dir(p, v), r.apply_normal(p, v)])
    }
    pub fn two__r<T: Neg<Output = T> + Num + Copy>(r: [T; 2], s: [T; 2], p: [T; 2], v: [T; 2]) -> ([[T; 2]; 3], [[T; 2]; 4]) {
        let w = cmul(r, v);
        ([[T::one(), T::zero()], [r[0], -r[1]], cmul(r, s)], [cmul(r, p), w, w, w])
    }
    pub fn lin2__l<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, p: Vector<T, 2>) -> (Linear<T, 2>, Vector<T, 2>) {
        (r.to_linear(), r.to_linear().apply(p))
    }
    pub fn lin2__r<T: Neg<Output = T> + Num + Copy>(r: [T; 2], p: [T; 2]) -> ([[T; 2]; 2], [T; 2]) {
        ([[r[0], -r[1]], [r[1], r[0]]], cmul(r, p))
    }
    pub fn three__l<T: Neg<Output = T> + Num + Copy>(r: Rotation3<T>, s: Rotation3<T>, p: Vector<T, 3>, v: Vector<T, 3>) -> ([Rotation3<T>; 3], [Vector<T, 3>; 4]) {
        ([Rotation3::identity(), r.inv(), r.chain(s)], [r.apply(p), r.deriv(p, v), r.apply_dir(p, v), r.apply_normal(p, v)])
    }
    pub fn three__r<T: Neg<Output = T> + Num + Copy>(r: [T; 4], s: [T; 4], p: [T; 3], v: [T; 3]) -> ([[T; 4]; 3], [[T; 3]; 4]) {
        let w = qrot(r, v);
        ([[T::one(), T::zero(), T::zero(), T::zero()], [r[0], -r[1], -r[2], -r[3]], qmul(r, s)], [qrot(r, p), w, w, w])
    }
    // laws of composition
    pub fn law2__l<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, s: Rotation2<T>, p: Vector<T, 2>) -> [Vector<T, 2>; 2] {
        [r.chain(s).apply(p), Rotation2::identity().apply(p)]
    }
    pub fn law2__r<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, s: Rotation2<T>, p: Vector<T, 2>) -> [Vector<T, 2>; 2] {
        [r.apply(s.apply(p)), p]
    }
    pub fn law3__l<T: Neg<Output = T> + Num + Copy>(r: Rotation3<T>, s: Rotation3<T>, p: Vector<T, 3>) -> [Vector<T, 3>; 2] {
        [r.chain(s).apply(p), Rotation3::identity().apply(p)]
    }
    pub fn law3__r<T: Neg<Output = T> + Num + Copy>(r: Rotation3<T>, s: Rotation3<T>, p: Vector<T, 3>) -> [Vector<T, 3>; 2] {
        [r.apply(s.apply(p)), p]
    }
    pub fn reord__l<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, s: Shift<T, 2>, q: Rotation3<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> (Vector<T, 2>, Vector<T, 3>) {
        let (s1, r1) = Reorder::<Shift<T, 2>, Vector<T, 2>>::reorder(r, s);
        let (t1, q1) = Reorder::<Shift<T, 3>, Vector<T, 3>>::reorder(q, t);
        (s1.apply(r1.apply(x)), t1.apply(q1.apply(y)))
    }
    pub fn reord__r<T: Neg<Output = T> + Num + Copy>(r: Rotation2<T>, s: Shift<T, 2>, q: Rotation3<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> (Vector<T, 2>, Vector<T, 3>) {
        (r.apply(s.apply(x)), q.apply(t.apply(y)))
    }
    pub fn chain2__l<T: Neg<Output = T> + Num + Copy>(
        a: Chain<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>,
        b: Chain<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>,
        c: Chain<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>,
        d: Chain<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>,
        x: Vector<T, 2>,
        y: Vector<T, 3>,
    ) -> (Vector<T, 2>, Vector<T, 3>) {
        (a.chain(b).apply(x), c.chain(d).apply(y))
    }
    pub fn chain2__r<T: Neg<Output = T> + Num + Copy>(
        a: Chain<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>,
        b: Chain<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>,
        c: Chain<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>,
        d: Chain<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>,
        x: Vector<T, 2>,
        y: Vector<T, 3>,
    ) -> (Vector<T, 2>, Vector<T, 3>) {
        (a.apply(b.apply(x)), c.apply(d.apply(y)))
    }
}

pub mod field {
    use num_traits::{Float, FloatConst};
    use vecmat::transform::{Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Shift};
    use vecmat::{Complex, Quaternion, Transform, Vector};

    pub fn new2__l<T: Float>(a: T) -> Rotation2<T> {
        Rotation2::new(a)
    }
    pub fn new2__r<T: Float>(a: T) -> [T; 2] {
        [a.cos(), a.sin()]
    }
    pub fn angle2__l<T: Float>(r: &Rotation2<T>) -> T {
        r.angle()
    }
    pub fn angle2__r<T: Float>(r: &[T; 2]) -> T {
        r[1].atan2(r[0])
    }
    pub fn new3__l<T: Float>(u: Vector<T, 3>, a: T) -> Rotation3<T> {
        Rotation3::new(u, a)
    }
    pub fn new3__r<T: Float>(u: [T; 3], a: T) -> [T; 4] {
        let h = a / (T::one() + T::one());
        [h.cos(), u[0] * h.sin(), u[1] * h.sin(), u[2] * h.sin()]
    }
    pub fn axis3__l<T: Float>(r: &Rotation3<T>) -> (Vector<T, 3>, T) {
        (r.axis(), r.angle())
    }
    pub fn axis3__r<T: Float>(r: &[T; 4]) -> ([T; 3], T) {
        let n = (r[1] * r[1] + r[2] * r[2] + r[3] * r[3]).sqrt();
        ([r[1] / n, r[2] / n, r[3] / n], (T::one() + T::one()) * n.atan2(r[0]))
    }
    fn u2<T: Float>(c: Complex<T>) -> Rotation2<T> {
        c.normalize().into()
    }
    fn u3<T: Float>(c: Quaternion<T>) -> Rotation3<T> {
        c.normalize().into()
    }
    /// rotating the plane by an angle
    pub fn rot2__l<T: Float>(a: T, p: Vector<T, 2>) -> Vector<T, 2> {
        Rotation2::new(a).apply(p)
    }
    pub fn rot2__r<T: Float>(a: T, p: [T; 2]) -> [T; 2] {
        [p[0] * a.cos() - p[1] * a.sin(), p[0] * a.sin() + p[1] * a.cos()]
    }
    // unit numbers: the inverse undoes the rotation, lengths are kept
    pub fn inv2__l<T: Float>(c: Complex<T>, p: Vector<T, 2>) -> ([Vector<T, 2>; 2], T) {
        let r = u2(c);
        ([r.inv().apply(r.apply(p)), r.apply(r.inv().apply(p))], r.apply(p).square_length())
    }
    pub fn inv2__r<T: Float>(c: Complex<T>, p: Vector<T, 2>) -> ([Vector<T, 2>; 2], T) {
        let _ = c;
        ([p, p], p.square_length())
    }
    pub fn inv3__l<T: Float>(c: Quaternion<T>, p: Vector<T, 3>) -> ([Vector<T, 3>; 2], T) {
        let r = u3(c);
        ([r.inv().apply(r.apply(p)), r.apply(r.inv().apply(p))], r.apply(p).square_length())
    }
    pub fn inv3__r<T: Float>(c: Quaternion<T>, p: Vector<T, 3>) -> ([Vector<T, 3>; 2], T) {
        let _ = c;
        ([p, p], p.square_length())
    }
    pub fn lin3__l<T: Float>(c: Quaternion<T>, p: Vector<T, 3>) -> Vector<T, 3> {
        u3(c).to_linear().apply(p)
    }
    pub fn lin3__r<T: Float>(c: Quaternion<T>, p: Vector<T, 3>) -> Vector<T, 3> {
        u3(c).apply(p)
    }
    /// Rodrigues: rotation of p by the angle a about the unit axis u
    pub fn rodr__l<T: Float>(w: Vector<T, 3>, h: T, p: Vector<T, 3>) -> Vector<T, 3> {
        Rotation3::new(w.normalize(), h + h).apply(p)
    }
    pub fn rodr__r<T: Float>(w: Vector<T, 3>, h: T, p: Vector<T, 3>) -> [T; 3] {
        let u = w.normalize();
        let (s, c) = (h.sin(), h.cos());
        let (sa, ca) = (s * c + s * c, c * c - s * s);
        let d = (u.x() * p.x() + u.y() * p.y() + u.z() * p.z()) * (T::one() - ca);
        [
            p.x() * ca + (u.y() * p.z() - u.z() * p.y()) * sa + u.x() * d,
            p.y() * ca + (u.z() * p.x() - u.x() * p.z()) * sa + u.y() * d,
            p.z() * ca + (u.x() * p.y() - u.y() * p.x()) * sa + u.z() * d,
        ]
    }
    pub fn chinv__l<T: Float>(c: Complex<T>, s: Shift<T, 2>, q: Quaternion<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> ([Vector<T, 2>; 2], [Vector<T, 3>; 2]) {
        let a: Chain<Shift<T, 2>, Rotation2<T>, Vector<T, 2>> = Chain::new(s, u2(c));
        let b: Chain<Shift<T, 3>, Rotation3<T>, Vector<T, 3>> = Chain::new(t, u3(q));
        ([a.inv().apply(a.apply(x)), a.apply(a.inv().apply(x))], [b.inv().apply(b.apply(y)), b.apply(b.inv().apply(y))])
    }
    pub fn chinv__r<T: Float>(c: Complex<T>, s: Shift<T, 2>, q: Quaternion<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> ([Vector<T, 2>; 2], [Vector<T, 3>; 2]) {
        let _ = (c, s, q, t);
        ([x, x], [y, y])
    }
    pub fn reord__l<T: Float>(c: Complex<T>, s: Shift<T, 2>, q: Quaternion<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> (Vector<T, 2>, Vector<T, 3>) {
        let (r1, s1) = Reorder::<Rotation2<T>, Vector<T, 2>>::reorder(s, u2(c));
        let (q1, t1) = Reorder::<Rotation3<T>, Vector<T, 3>>::reorder(t, u3(q));
        (r1.apply(s1.apply(x)), q1.apply(t1.apply(y)))
    }
    pub fn reord__r<T: Float>(c: Complex<T>, s: Shift<T, 2>, q: Quaternion<T>, t: Shift<T, 3>, x: Vector<T, 2>, y: Vector<T, 3>) -> (Vector<T, 2>, Vector<T, 3>) {
        (s.apply(u2(c).apply(x)), t.apply(u3(q).apply(y)))
    }
}
pub mod field_look {
    use num_traits::{Float, FloatConst};
    use vecmat::transform::{Linear, Rotation3};
    use vecmat::{Transform, Vector};
    /// the -z axis goes to the given unit direction
    pub fn any3__l<T: Float + FloatConst>(v: Vector<T, 3>) -> Vector<T, 3> {
        Rotation3::look_at_any(v.normalize()).apply(Vector::from([T::zero(), T::zero(), -T::one()]))
    }
    pub fn any3__r<T: Float + FloatConst>(v: Vector<T, 3>) -> Vector<T, 3> {
        v.normalize()
    }
    pub fn anyl__l<T: Float>(v: Vector<T, 3>) -> Vector<T, 3> {
        Linear::look_at_any(v.normalize()).apply(Vector::from([T::zero(), T::zero(), -T::one()]))
    }
    pub fn anyl__r<T: Float>(v: Vector<T, 3>) -> Vector<T, 3> {
        v.normalize()
    }
    /// the axes themselves: no degenerate case
    pub fn axesl__l<T: Float>() -> [Vector<T, 3>; 6] {
        let (z, o) = (T::zero(), T::one());
        let a = |d: [T; 3]| Linear::look_at_any(Vector::from(d)).apply(Vector::from([z, z, -o]));
        [a([o, z, z]), a([z, o, z]), a([z, z, o]), a([-o, z, z]), a([z, -o, z]), a([z, z, -o])]
    }
    pub fn axesl__r<T: Float>() -> [[T; 3]; 6] {
        let (z, o) = (T::zero(), T::one());
        [[o, z, z], [z, o, z], [z, z, o], [-o, z, z], [z, -o, z], [z, z, -o]]
    }
    pub fn axes3__l<T: Float + FloatConst>() -> [Vector<T, 3>; 6] {
        let (z, o) = (T::zero(), T::one());
        let a = |d: [T; 3]| Rotation3::look_at_any(Vector::from(d)).apply(Vector::from([z, z, -o]));
        [a([o, z, z]), a([z, o, z]), a([z, z, o]), a([-o, z, z]), a([z, -o, z]), a([z, z, -o])]
    }
    pub fn axes3__r<T: Float + FloatConst>() -> [[T; 3]; 6] {
        let (z, o) = (T::zero(), T::one());
        [[o, z, z], [z, o, z], [z, z, o], [-o, z, z], [z, -o, z], [z, z, -o]]
    }
    /// ... where the map is still orthogonal
    pub fn axesg__l<T: Float>() -> [[T; 9]; 6] {
        use vecmat::traits::Dot;
        let (z, o) = (T::zero(), T::one());
        let a = |d: [T; 3]| {
            let m = Linear::look_at_any(Vector::from(d)).into_matrix();
            let g = m.dot(m.transpose());
            [g[(0, 0)], g[(0, 1)], g[(0, 2)], g[(1, 0)], g[(1, 1)], g[(1, 2)], g[(2, 0)], g[(2, 1)], g[(2, 2)]]
        };
        [a([o, z, z]), a([z, o, z]), a([z, z, o]), a([-o, z, z]), a([z, -o, z]), a([z, z, -o])]
    }
    pub fn axesg__r<T: Float>() -> [[T; 9]; 6] {
        let (z, o) = (T::zero(), T::one());
        [[o, z, z, z, o, z, z, z, o]; 6]
    }
    pub fn axesq__l<T: Float + FloatConst>() -> [T; 6] {
        let (z, o) = (T::zero(), T::one());
        let a = |d: [T; 3]| Rotation3::look_at_any(Vector::from(d)).into_quaternion().norm_sqr();
        [a([o, z, z]), a([z, o, z]), a([z, z, o]), a([-o, z, z]), a([z, -o, z]), a([z, z, -o])]
    }
    pub fn axesq__r<T: Float + FloatConst>() -> [T; 6] {
        [T::one(); 6]
    }
    /// columns: right, strict up, backwards
    pub fn lookat__l<T: Float>(d: Vector<T, 3>, up: Vector<T, 3>) -> Linear<T, 3> {
        Linear::look_at(d, up)
    }
    pub fn lookat__r<T: Float>(d: Vector<T, 3>, up: Vector<T, 3>) -> [[T; 3]; 3] {
        let (d, u) = (d.into_array(), up.into_array());
        let c = [d[1] * u[2] - d[2] * u[1], d[2] * u[0] - d[0] * u[2], d[0] * u[1] - d[1] * u[0]];
        let n = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
        let r = [c[0] / n, c[1] / n, c[2] / n];
        let s = [r[1] * d[2] - r[2] * d[1], r[2] * d[0] - r[0] * d[2], r[0] * d[1] - r[1] * d[0]];
        [[r[0], s[0], -d[0]], [r[1], s[1], -d[1]], [r[2], s[2], -d[2]]]
    }
    /// the matrix built from a unit direction is orthogonal
    pub fn orth__l<T: Float>(v: Vector<T, 3>, up: Vector<T, 3>) -> Vector<T, 3> {
        use vecmat::traits::Dot;
        let m = Linear::look_at(v.normalize(), up).into_matrix();
        let g = m.dot(m.transpose());
        Vector::from([g[(0, 0)], g[(1, 1)], g[(2, 2)]])
    }
    pub fn orth__r<T: Float>(v: Vector<T, 3>, up: Vector<T, 3>) -> [T; 3] {
        let _ = (v, up);
        [T::one(); 3]
    }
}
