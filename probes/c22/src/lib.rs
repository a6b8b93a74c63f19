//! Moebius transformations.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use num_traits::{One, Zero};
    use vecmat::complex::Moebius;
    use vecmat::matrix::Matrix2x2;

    pub fn make__l<T: Copy>(a: T, b: T, c: T, d: T) -> [Moebius<T>; 6] {
        [
            Moebius::new(a, b, c, d),
            Moebius::from_matrix(Matrix2x2::from([[a, b], [c, d]])),
            Moebius::from_array([[a, b], [c, d]]),
            Moebius::from_tuple((a, b, c, d)),
            Matrix2x2::from([[a, b], [c, d]]).into(),
            [[a, b], [c, d]].into(),
        ]
    }
    pub fn make__r<T: Copy>(a: T, b: T, c: T, d: T) -> [[[T; 2]; 2]; 6] {
        [[[a, b], [c, d]]; 6]
    }
    pub fn take__l<T: Copy>(m: Moebius<T>) -> ([Matrix2x2<T>; 2], [[[T; 2]; 2]; 2], (T, T, T, T), [T; 4]) {
        ([m.into_matrix(), m.into()], [m.into_array(), m.into()], m.into_tuple(), [m.a(), m.b(), m.c(), m.d()])
    }
    pub fn take__r<T: Copy>(m: [[T; 2]; 2]) -> ([[[T; 2]; 2]; 2], [[[T; 2]; 2]; 2], (T, T, T, T), [T; 4]) {
        let [[a, b], [c, d]] = m;
        ([m; 2], [m; 2], (a, b, c, d), [a, b, c, d])
    }
    pub fn refs__l<T: Clone>(m: &Moebius<T>) -> ([T; 4], Matrix2x2<T>, Matrix2x2<T>, [[T; 2]; 2], [[T; 2]; 2])
    where
        Matrix2x2<T>: Clone,
    {
        let v: &Matrix2x2<T> = m.into();
        let w: &[[T; 2]; 2] = m.into();
        (
            [m.a_ref().clone(), m.b_ref().clone(), m.c_ref().clone(), m.d_ref().clone()],
            m.as_matrix().clone(),
            v.clone(),
            m.as_array_of_arrays().clone(),
            w.clone(),
        )
    }
    pub fn refs__r<T: Clone>(m: &[[T; 2]; 2]) -> ([T; 4], [[T; 2]; 2], [[T; 2]; 2], [[T; 2]; 2], [[T; 2]; 2]) {
        ([m[0][0].clone(), m[0][1].clone(), m[1][0].clone(), m[1][1].clone()], m.clone(), m.clone(), m.clone(), m.clone())
    }
    pub fn amut__l<T>(m: &mut Moebius<T>, x: T) {
        *m.a_mut() = x;
    }
    pub fn amut__r<T>(m: &mut [[T; 2]; 2], x: T) {
        m[0][0] = x;
    }
    pub fn bmut__l<T>(m: &mut Moebius<T>, x: T) {
        *m.b_mut() = x;
    }
    pub fn bmut__r<T>(m: &mut [[T; 2]; 2], x: T) {
        m[0][1] = x;
    }
    pub fn cmut__l<T>(m: &mut Moebius<T>, x: T) {
        *m.c_mut() = x;
    }
    pub fn cmut__r<T>(m: &mut [[T; 2]; 2], x: T) {
        m[1][0] = x;
    }
    pub fn dmut__l<T>(m: &mut Moebius<T>, x: T) {
        *m.d_mut() = x;
    }
    pub fn dmut__r<T>(m: &mut [[T; 2]; 2], x: T) {
        m[1][1] = x;
    }
    pub fn mmut__l<T>(m: &mut Moebius<T>, x: T) {
        *m.as_mut_matrix().row_mut(1).x_mut() = x;
    }
    pub fn mmut__r<T>(m: &mut [[T; 2]; 2], x: T) {
        m[1][0] = x;
    }
    pub fn armut__l<T: Copy>(m: &mut Moebius<T>, x: T, y: T) {
        m.as_mut_array_of_arrays()[0][1] = x;
        let w: &mut [[T; 2]; 2] = m.into();
        w[1][1] = y;
        let v: &mut Matrix2x2<T> = m.into();
        v[(1, 0)] = y;
    }
    pub fn armut__r<T: Copy>(m: &mut [[T; 2]; 2], x: T, y: T) {
        m[0][1] = x;
        m[1][1] = y;
        m[1][0] = y;
    }
    pub fn ident__l<T: Zero + One>() -> Moebius<T> {
        Moebius::identity()
    }
    pub fn ident__r<T: Zero + One>() -> [[T; 2]; 2] {
        [[T::one(), T::zero()], [T::zero(), T::one()]]
    }
    pub fn clone__l<T: Clone>(a: &Moebius<T>) -> Moebius<T>
    where
        Moebius<T>: Clone,
    {
        a.clone()
    }
    pub fn clone__r<T: Clone>(a: &[[T; 2]; 2]) -> [[T; 2]; 2] {
        a.clone()
    }
    pub fn clonefrom__l<T: Clone>(a: &mut Moebius<T>, b: &Moebius<T>)
    where
        Moebius<T>: Clone,
    {
        a.clone_from(b)
    }
    pub fn clonefrom__r<T: Clone>(a: &mut [[T; 2]; 2], b: &[[T; 2]; 2]) {
        *a = [[b[0][0].clone(), b[0][1].clone()], [b[1][0].clone(), b[1][1].clone()]]
    }
    pub fn eqself__l<T: PartialEq + Copy>(a: &Moebius<T>) -> (bool, bool) {
        (a == a, a != a)
    }
    pub fn eqself__r<T: PartialEq + Copy>(a: &[[T; 2]; 2]) -> (bool, bool) {
        let e = a[0][0] == a[0][0] && a[0][1] == a[0][1] && a[1][0] == a[1][0] && a[1][1] == a[1][1];
        (e, !e)
    }
    pub fn eq__l<T: PartialEq + Copy>(a: &Moebius<T>, b: &Moebius<T>) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn eq__r<T: PartialEq + Copy>(a: &[[T; 2]; 2], b: &[[T; 2]; 2]) -> (bool, bool) {
        let e = a[0][0] == b[0][0] && a[0][1] == b[0][1] && a[1][0] == b[1][0] && a[1][1] == b[1][1];
        (e, !e)
    }
}

pub mod ring {
    use core::ops::Neg;
    use num_traits::Num;
    use vecmat::complex::{Complex, Moebius};
    pub fn chain__l<T: Num + Copy>(m: Moebius<T>, n: Moebius<T>) -> Moebius<T> {
        m.chain(n)
    }
    pub fn chain__r<T: Num + Copy>(m: [[T; 2]; 2], n: [[T; 2]; 2]) -> [[T; 2]; 2] {
        core::array::from_fn(|i| core::array::from_fn(|j| m[i][0] * n[0][j] + m[i][1] * n[1][j]))
    }
    pub fn det__l<T: Neg<Output = T> + Num + Copy>(m: &Moebius<T>) -> T {
        m.det()
    }
    pub fn det__r<T: Neg<Output = T> + Num + Copy>(m: &[[T; 2]; 2]) -> T {
        m[0][0] * m[1][1] - m[0][1] * m[1][0]
    }
    fn cmul<T: Num + Copy>(a: [T; 2], b: [T; 2]) -> [T; 2] {
        [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    }
    pub fn cchain__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<Complex<T>>, n: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Complex<T>) {
        (m.chain(n), m.det())
    }
    pub fn cchain__r<T: Neg<Output = T> + Num + Copy>(m: [[[T; 2]; 2]; 2], n: [[[T; 2]; 2]; 2]) -> ([[[T; 2]; 2]; 2], [T; 2]) {
        let p = core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, y) = (cmul(m[i][0], n[0][j]), cmul(m[i][1], n[1][j]));
                [x[0] + y[0], x[1] + y[1]]
            })
        });
        let (x, y) = (cmul(m[0][0], m[1][1]), cmul(m[0][1], m[1][0]));
        (p, [x[0] - y[0], x[1] - y[1]])
    }
}

pub mod field {
    use core::ops::Neg;
    use num_traits::{Float, Num, NumCast};
    use vecmat::complex::{Complex, Moebius, Quaternion};
    use vecmat::traits::Normalize;
    use vecmat::transform::Directional;
    use vecmat::Transform;

    type C<T> = [T; 2];
    type Q<T> = [T; 4];
    fn add<T: Num + Copy, const K: usize>(a: [T; K], b: [T; K]) -> [T; K] {
        core::array::from_fn(|i| a[i] + b[i])
    }
    fn sub<T: Num + Copy, const K: usize>(a: [T; K], b: [T; K]) -> [T; K] {
        core::array::from_fn(|i| a[i] - b[i])
    }
    fn cmul<T: Num + Copy>(a: C<T>, b: C<T>) -> C<T> {
        [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    }
    fn cinv<T: Neg<Output = T> + Num + Copy>(a: C<T>) -> C<T> {
        let n = a[0] * a[0] + a[1] * a[1];
        [a[0] / n, -a[1] / n]
    }
    fn up<T: Num + Copy>(a: C<T>) -> Q<T> {
        [a[0], a[1], T::zero(), T::zero()]
    }
    fn qmul<T: Num + Copy>(a: Q<T>, b: Q<T>) -> Q<T> {
        [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ]
    }
    fn qinv<T: Neg<Output = T> + Num + Copy>(a: Q<T>) -> Q<T> {
        let n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        [a[0] / n, -a[1] / n, -a[2] / n, -a[3] / n]
    }
    fn mo_c<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: C<T>) -> C<T> {
        cmul(add(cmul(m[0][0], x), m[0][1]), cinv(add(cmul(m[1][0], x), m[1][1])))
    }
    fn mo_q<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: Q<T>) -> Q<T> {
        qmul(add(qmul(up(m[0][0]), x), up(m[0][1])), qinv(add(qmul(up(m[1][0]), x), up(m[1][1]))))
    }
    fn deriv_c<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: C<T>) -> C<T> {
        let det = sub(cmul(m[0][0], m[1][1]), cmul(m[0][1], m[1][0]));
        let q = cinv(add(cmul(m[1][0], x), m[1][1]));
        cmul(det, cmul(q, q))
    }
    /// the derivative of u * d^-1 along v: (a v) d^-1 - u d^-1 (c v) d^-1
    fn deriv_q<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: Q<T>, v: Q<T>) -> Q<T> {
        let u = add(qmul(up(m[0][0]), x), up(m[0][1]));
        let i = qinv(add(qmul(up(m[1][0]), x), up(m[1][1])));
        sub(qmul(qmul(up(m[0][0]), v), i), qmul(u, qmul(i, qmul(qmul(up(m[1][0]), v), i))))
    }
    pub fn apply__l<T: Num + Copy>(m: &Moebius<T>, x: T) -> T {
        m.apply(x)
    }
    pub fn apply__r<T: Num + Copy>(m: &[[T; 2]; 2], x: T) -> T {
        (m[0][0] * x + m[0][1]) / (m[1][0] * x + m[1][1])
    }
    pub fn applyc__l<T: Neg<Output = T> + Num + Copy>(m: &Moebius<Complex<T>>, x: Complex<T>) -> [Complex<T>; 2] {
        [m.apply(x), Transform::apply(m, x)]
    }
    pub fn applyc__r<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: C<T>) -> [C<T>; 2] {
        [mo_c(m, x); 2]
    }
    pub fn applyq__l<T: Neg<Output = T> + Num + NumCast + Copy>(m: &Moebius<Complex<T>>, x: Quaternion<T>) -> [Quaternion<T>; 2] {
        [m.apply(x), Transform::apply(m, x)]
    }
    pub fn applyq__r<T: Neg<Output = T> + Num + NumCast + Copy>(m: &[[C<T>; 2]; 2], x: Q<T>) -> [Q<T>; 2] {
        [mo_q(m, x); 2]
    }
    pub fn norm__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>) -> Moebius<T> {
        m.normalize()
    }
    pub fn norm__r<T: Neg<Output = T> + Num + Copy>(m: [[T; 2]; 2]) -> [[T; 2]; 2] {
        let d = m[0][0] * m[1][1] - m[0][1] * m[1][0];
        core::array::from_fn(|i| core::array::from_fn(|j| m[i][j] / d))
    }
    pub fn inv__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>) -> Moebius<T> {
        m.inv()
    }
    pub fn inv__r<T: Neg<Output = T> + Num + Copy>(m: [[T; 2]; 2]) -> [[T; 2]; 2] {
        let d = m[0][0] * m[1][1] - m[0][1] * m[1][0];
        [[m[1][1] / d, -m[0][1] / d], [-m[1][0] / d, m[0][0] / d]]
    }
    pub fn deriv__l<T: Neg<Output = T> + Num + Copy>(m: &Moebius<Complex<T>>, x: Complex<T>) -> Complex<T> {
        m.deriv(x)
    }
    pub fn deriv__r<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: C<T>) -> C<T> {
        deriv_c(m, x)
    }
    pub fn derivt__l<T: Neg<Output = T> + Num + Copy>(m: &Moebius<Complex<T>>, x: Complex<T>, v: Complex<T>) -> Complex<T> {
        Transform::deriv(m, x, v)
    }
    pub fn derivt__r<T: Neg<Output = T> + Num + Copy>(m: &[[C<T>; 2]; 2], x: C<T>, v: C<T>) -> C<T> {
        cmul(deriv_c(m, x), v)
    }
    pub fn derivq__l<T: Float>(m: &Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>) -> Quaternion<T> {
        m.deriv_dir(x, v)
    }
    pub fn derivq__r<T: Float>(m: &[[C<T>; 2]; 2], x: Q<T>, v: Q<T>) -> Q<T> {
        deriv_q(m, x, v)
    }
    pub fn derivqt__l<T: Float>(m: &Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>) -> Quaternion<T> {
        Transform::deriv(m, x, v)
    }
    pub fn derivqt__r<T: Float>(m: &[[C<T>; 2]; 2], x: Q<T>, v: Q<T>) -> Q<T> {
        deriv_q(m, x, v)
    }
    fn unit<T: Float, const K: usize>(a: [T; K]) -> [T; K] {
        let mut s = a[0] * a[0];
        for k in 1..K {
            s = s + a[k] * a[k];
        }
        let n = s.sqrt();
        core::array::from_fn(|i| a[i] / n)
    }
    pub fn dirc__l<T: Float>(m: &Moebius<Complex<T>>, x: Complex<T>, v: Complex<T>) -> [Complex<T>; 2] {
        [m.apply_dir(x, v), m.apply_normal(x, v)]
    }
    pub fn dirc__r<T: Float>(m: &[[C<T>; 2]; 2], x: C<T>, v: C<T>) -> [C<T>; 2] {
        [unit(cmul(deriv_c(m, x), v)); 2]
    }
    pub fn dirq__l<T: Float>(m: &Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>) -> [Quaternion<T>; 2] {
        [m.apply_dir(x, v), m.apply_normal(x, v)]
    }
    pub fn dirq__r<T: Float>(m: &Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>) -> [Q<T>; 2] {
        [unit(Transform::deriv(m, x, v).into_array()); 2]
    }
    // group laws of the Transform implementations
    pub fn groupc__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<Complex<T>>, n: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Moebius<Complex<T>>, Moebius<Complex<T>>) {
        type C1<T> = Complex<T>;
        (<Moebius<Complex<T>> as Transform<C1<T>>>::identity(), Transform::<C1<T>>::chain(m, n), Transform::<C1<T>>::inv(m))
    }
    pub fn groupc__r<T: Neg<Output = T> + Num + Copy>(m: Moebius<Complex<T>>, n: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Moebius<Complex<T>>, Moebius<Complex<T>>) {
        (Moebius::identity(), m.chain(n), m.inv())
    }
    pub fn groupq__l<T: Float>(m: Moebius<Complex<T>>, n: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Moebius<Complex<T>>, Moebius<Complex<T>>) {
        type Q1<T> = Quaternion<T>;
        (<Moebius<Complex<T>> as Transform<Q1<T>>>::identity(), Transform::<Q1<T>>::chain(m, n), Transform::<Q1<T>>::inv(m))
    }
    pub fn groupq__r<T: Float>(m: Moebius<Complex<T>>, n: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Moebius<Complex<T>>, Moebius<Complex<T>>) {
        (Moebius::identity(), m.chain(n), m.inv())
    }
    // composition laws stated on the library alone
    pub fn lawchain__l<T: Num + Copy>(m: Moebius<T>, n: Moebius<T>, x: T) -> T {
        m.chain(n).apply(x)
    }
    pub fn lawchain__r<T: Num + Copy>(m: Moebius<T>, n: Moebius<T>, x: T) -> T {
        m.apply(n.apply(x))
    }
    pub fn lawinv__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>, x: T) -> [T; 3] {
        [m.inv().apply(m.apply(x)), m.apply(m.inv().apply(x)), Moebius::identity().apply(x)]
    }
    pub fn lawinv__r<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>, x: T) -> [T; 3] {
        let _ = m;
        [x, x, x]
    }
    pub fn lawnorm__l<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>, x: T) -> T {
        m.normalize().apply(x)
    }
    pub fn lawnorm__r<T: Neg<Output = T> + Num + Copy>(m: Moebius<T>, x: T) -> T {
        m.apply(x)
    }
}
