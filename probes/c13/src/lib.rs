//! Construction and combinators: every element visited once, in order, with the right partner.
#![allow(non_snake_case)]
mod spec;

pub mod free_zero {
    use crate::spec::*;
    use vecmat::*;

    pub fn vinit__l<T, F: FnMut() -> T, const N: usize>(f: F) -> Vector<T, N> {
        Vector::init(f)
    }
    pub fn vinit__r<T, F: FnMut() -> T, const N: usize>(mut f: F) -> [T; N] {
        core::array::from_fn(|_| f())
    }
    pub fn vinitm__l<T, F: FnMut() -> T, const N: usize>(f: &mut F) -> Vector<T, N> {
        Vector::init(f)
    }
    pub fn vinitm__r<T, F: FnMut() -> T, const N: usize>(f: &mut F) -> [T; N] {
        core::array::from_fn(|_| f())
    }
    pub fn vdefault__l<T: Default, const N: usize>() -> (Vector<T, N>, Vector<T, N>) {
        (Vector::new(), Vector::default())
    }
    pub fn vdefault__r<T: Default, const N: usize>() -> ([T; N], [T; N]) {
        (core::array::from_fn(|_| T::default()), core::array::from_fn(|_| T::default()))
    }
    pub fn vfill__l<T: Copy, const N: usize>(v: T) -> Vector<T, N> {
        Vector::fill(v)
    }
    pub fn vfill__r<T: Copy, const N: usize>(v: T) -> [T; N] {
        [v; N]
    }
    pub fn vforeach__l<T, F: FnMut(T), const N: usize>(a: Vector<T, N>, f: &mut F) {
        a.for_each(f)
    }
    pub fn vforeach__r<T, F: FnMut(T), const N: usize>(a: [T; N], f: &mut F) {
        for x in a {
            f(x)
        }
    }
    pub fn vmap__l<T, U, F: FnMut(T) -> U, const N: usize>(a: Vector<T, N>, f: &mut F) -> Vector<U, N> {
        a.map(f)
    }
    pub fn vmap__r<T, U, F: FnMut(T) -> U, const N: usize>(a: [T; N], f: &mut F) -> [U; N] {
        map1(a, |x| f(x))
    }
    pub fn vzip__l<T, U, const N: usize>(a: Vector<T, N>, b: Vector<U, N>) -> Vector<(T, U), N> {
        a.zip(b)
    }
    pub fn vzip__r<T, U, const N: usize>(a: [T; N], b: [U; N]) -> [(T, U); N] {
        map2(a, b, |x, y| (x, y))
    }
    pub fn venum__l<T, const N: usize>(a: Vector<T, N>) -> Vector<(usize, T), N> {
        a.enumerate()
    }
    pub fn venum__r<T, const N: usize>(a: [T; N]) -> [(usize, T); N] {
        let mut a = a.into_iter();
        core::array::from_fn(|i| (i, a.next().unwrap()))
    }
    pub fn vunzip__l<T, U, const N: usize>(a: Vector<(T, U), N>) -> (Vector<T, N>, Vector<U, N>) {
        a.unzip()
    }
    pub fn vunzip__r<T, U, const N: usize>(a: [(T, U); N]) -> ([T; N], [U; N]) {
        let mut p = a.map(|(x, y)| (Some(x), Some(y)));
        (core::array::from_fn(|i| p[i].0.take().unwrap()), core::array::from_fn(|i| p[i].1.take().unwrap()))
    }
    pub fn vfold__l<T, S, F: FnMut(S, T) -> S, const N: usize>(a: Vector<T, N>, s: S, f: &mut F) -> S {
        a.fold(s, f)
    }
    pub fn vfold__r<T, S, F: FnMut(S, T) -> S, const N: usize>(a: [T; N], mut s: S, f: &mut F) -> S {
        for x in a {
            s = f(s, x);
        }
        s
    }
    pub fn vindices__l<const N: usize>() -> Vector<usize, N> {
        Vector::indices()
    }
    pub fn vindices__r<const N: usize>() -> [usize; N] {
        core::array::from_fn(|i| i)
    }
}
pub mod free {
    use crate::spec::*;
    use vecmat::*;

    pub fn vfold1__l<T, F: FnMut(T, T) -> T, const N: usize>(a: Vector<T, N>, f: &mut F) -> T {
        a.fold_first(f)
    }
    pub fn vfold1__r<T, F: FnMut(T, T) -> T, const N: usize>(a: [T; N], f: &mut F) -> T {
        let mut a = a.into_iter();
        let mut s = a.next().unwrap();
        for x in a {
            s = f(s, x);
        }
        s
    }
    pub fn vscan__l<T, S, U, F: FnMut(&mut S, T) -> U, const N: usize>(a: Vector<T, N>, s: S, f: &mut F) -> Vector<U, N> {
        a.scan(s, f)
    }
    pub fn vscan__r<T, S, U, F: FnMut(&mut S, T) -> U, const N: usize>(a: [T; N], mut s: S, f: &mut F) -> [U; N] {
        map1(a, |x| f(&mut s, x))
    }
    // a concrete stateful closure: running totals, the final state visible to the caller
    pub fn vscan2__l<T: core::ops::Add<Output = T> + Copy, const N: usize>(a: Vector<T, N>, s: T) -> Vector<T, N> {
        a.scan(s, |s, x| {
            *s = *s + x;
            *s
        })
    }
    pub fn vscan2__r<T: core::ops::Add<Output = T> + Copy, const N: usize>(a: [T; N], mut s: T) -> [T; N] {
        map1(a, |x| {
            s = s + x;
            s
        })
    }

    pub fn minit__l<T, F: FnMut() -> T, const M: usize, const N: usize>(f: &mut F) -> Matrix<T, M, N> {
        Matrix::init(f)
    }
    pub fn minit__r<T, F: FnMut() -> T, const M: usize, const N: usize>(f: &mut F) -> [[T; N]; M] {
        core::array::from_fn(|_| core::array::from_fn(|_| f()))
    }
    pub fn mdefault__l<T: Default, const M: usize, const N: usize>() -> (Matrix<T, M, N>, Matrix<T, M, N>) {
        (Matrix::new(), Matrix::default())
    }
    pub fn mdefault__r<T: Default, const M: usize, const N: usize>() -> ([[T; N]; M], [[T; N]; M]) {
        (core::array::from_fn(|_| core::array::from_fn(|_| T::default())), core::array::from_fn(|_| core::array::from_fn(|_| T::default())))
    }
    pub fn mfill__l<T: Copy, const M: usize, const N: usize>(v: T) -> (Matrix<T, M, N>, Matrix<T, M, N>) {
        (Matrix::fill(v), Matrix::fill_ref(&v))
    }
    pub fn mfill__r<T: Copy, const M: usize, const N: usize>(v: T) -> ([[T; N]; M], [[T; N]; M]) {
        ([[v; N]; M], [[v; N]; M])
    }
    pub fn mforeach__l<T, F: FnMut(T), const M: usize, const N: usize>(a: Matrix<T, M, N>, f: &mut F) {
        a.for_each(f)
    }
    pub fn mforeach__r<T, F: FnMut(T), const M: usize, const N: usize>(a: [[T; N]; M], f: &mut F) {
        for r in a {
            for x in r {
                f(x)
            }
        }
    }
    pub fn mmap__l<T, U, F: FnMut(T) -> U, const M: usize, const N: usize>(a: Matrix<T, M, N>, f: &mut F) -> Matrix<U, M, N> {
        a.map(f)
    }
    pub fn mmap__r<T, U, F: FnMut(T) -> U, const M: usize, const N: usize>(a: [[T; N]; M], f: &mut F) -> [[U; N]; M] {
        mmap1(a, |x| f(x))
    }
    pub fn mzip__l<T, U, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<U, M, N>) -> Matrix<(T, U), M, N> {
        a.zip(b)
    }
    pub fn mzip__r<T, U, const M: usize, const N: usize>(a: [[T; N]; M], b: [[U; N]; M]) -> [[(T, U); N]; M] {
        mmap2(a, b, |x, y| (x, y))
    }
    pub fn munzip__l<T, U, const M: usize, const N: usize>(a: Matrix<(T, U), M, N>) -> (Matrix<T, M, N>, Matrix<U, M, N>) {
        a.unzip()
    }
    pub fn munzip__r<T, U, const M: usize, const N: usize>(a: [[(T, U); N]; M]) -> ([[T; N]; M], [[U; N]; M]) {
        let mut p = a.map(|r| r.map(|(x, y)| (Some(x), Some(y))));
        (
            core::array::from_fn(|i| core::array::from_fn(|j| p[i][j].0.take().unwrap())),
            core::array::from_fn(|i| core::array::from_fn(|j| p[i][j].1.take().unwrap())),
        )
    }
    pub fn mfold__l<T, S, F: Fn(S, T) -> S, const M: usize, const N: usize>(a: Matrix<T, M, N>, s: S, f: F) -> S {
        a.fold(s, f)
    }
    pub fn mfold__r<T, S, F: Fn(S, T) -> S, const M: usize, const N: usize>(a: [[T; N]; M], mut s: S, f: F) -> S {
        for r in a {
            for x in r {
                s = f(s, x);
            }
        }
        s
    }
    pub fn mfold1__l<T, F: FnMut(T, T) -> T, const M: usize, const N: usize>(a: Matrix<T, M, N>, f: &mut F) -> T {
        a.fold_first(f)
    }
    pub fn mfold1__r<T, F: FnMut(T, T) -> T, const M: usize, const N: usize>(a: [[T; N]; M], f: &mut F) -> T {
        let mut s = None;
        for r in a {
            for x in r {
                s = Some(match s {
                    None => x,
                    Some(y) => f(y, x),
                });
            }
        }
        s.unwrap()
    }
    pub fn mscan__l<T, S, U, F: FnMut(&mut S, T) -> U, const M: usize, const N: usize>(a: Matrix<T, M, N>, s: S, f: &mut F) -> Matrix<U, M, N> {
        a.scan(s, f)
    }
    pub fn mscan__r<T, S, U, F: FnMut(&mut S, T) -> U, const M: usize, const N: usize>(a: [[T; N]; M], mut s: S, f: &mut F) -> [[U; N]; M] {
        mmap1(a, |x| f(&mut s, x))
    }
    pub fn mindices__l<const M: usize, const N: usize>() -> Matrix<(usize, usize), M, N> {
        Matrix::indices()
    }
    pub fn mindices__r<const M: usize, const N: usize>() -> [[(usize, usize); N]; M] {
        core::array::from_fn(|i| core::array::from_fn(|j| (i, j)))
    }
}
