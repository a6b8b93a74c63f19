//! Iteration: every element exactly once, in (row-major) order; construction from iterators consumes exactly what it needs.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use vecmat::matrix::FlatIter;
    use vecmat::vector::GroupIter;
    use vecmat::*;

    fn drain<T, I: Iterator<Item = T>, const K: usize>(mut i: I) -> ([Option<T>; K], bool) {
        let r = core::array::from_fn(|_| i.next());
        (r, i.next().is_none())
    }

    // ---- vectors
    pub fn viter__l<T, const N: usize>(a: &Vector<T, N>) -> ([Option<&T>; N], bool) {
        drain(a.iter())
    }
    pub fn viter__r<T, const N: usize>(a: &[T; N]) -> ([Option<&T>; N], bool) {
        (core::array::from_fn(|i| Some(&a[i])), true)
    }
    pub fn vriter__l<T, const N: usize>(a: &Vector<T, N>) -> ([Option<&T>; N], bool) {
        drain(a.into_iter())
    }
    pub fn vriter__r<T, const N: usize>(a: &[T; N]) -> ([Option<&T>; N], bool) {
        (core::array::from_fn(|i| Some(&a[i])), true)
    }
    pub fn vinto__l<T, const N: usize>(a: Vector<T, N>) -> ([Option<T>; N], bool) {
        drain(a.into_iter())
    }
    pub fn vinto__r<T, const N: usize>(a: [T; N]) -> ([Option<T>; N], bool) {
        (a.map(|x| Some(x)), true)
    }
    pub fn vrev__l<T, const N: usize>(a: Vector<T, N>) -> ([Option<T>; N], bool) {
        drain(a.into_iter().rev())
    }
    pub fn vrev__r<T: Copy, const N: usize>(a: [T; N]) -> ([Option<T>; N], bool) {
        (core::array::from_fn(|i| Some(a[N - 1 - i])), true)
    }
    pub fn vlen__l<T, const N: usize>(a: &Vector<T, N>) -> (usize, usize) {
        (a.iter().len(), a.into_iter().count())
    }
    pub fn vlen__r<T, const N: usize>(a: &[T; N]) -> (usize, usize) {
        (N, N)
    }
    pub fn viterm__l<T, F: FnMut(&mut T), const N: usize>(a: &mut Vector<T, N>, f: &mut F) {
        for x in a.iter_mut() {
            f(x)
        }
    }
    pub fn viterm__r<T, F: FnMut(&mut T), const N: usize>(a: &mut [T; N], f: &mut F) {
        for i in 0..N {
            f(&mut a[i])
        }
    }
    pub fn vintom__l<T, F: FnMut(&mut T), const N: usize>(a: &mut Vector<T, N>, f: &mut F) {
        for x in a {
            f(x)
        }
    }
    pub fn vintom__r<T, F: FnMut(&mut T), const N: usize>(a: &mut [T; N], f: &mut F) {
        for i in 0..N {
            f(&mut a[i])
        }
    }
    // ---- matrices
    pub fn miter__l<'a, T, I: Default, const M: usize, const N: usize>(a: &'a Matrix<T, M, N>) -> ([[Option<&'a T>; N]; M], bool) {
        let mut i = a.iter();
        let r = core::array::from_fn(|_| core::array::from_fn(|_| i.next()));
        (r, i.next().is_none())
    }
    pub fn miter__r<'a, T, I: Default, const M: usize, const N: usize>(a: &'a [[T; N]; M]) -> ([[Option<&'a T>; N]; M], bool) {
        (core::array::from_fn(|i| core::array::from_fn(|j| Some(&a[i][j]))), true)
    }
    pub fn mriter__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> ([[Option<&T>; N]; M], bool) {
        let mut i = a.into_iter();
        let r = core::array::from_fn(|_| core::array::from_fn(|_| i.next()));
        (r, i.next().is_none())
    }
    pub fn mriter__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> ([[Option<&T>; N]; M], bool) {
        (core::array::from_fn(|i| core::array::from_fn(|j| Some(&a[i][j]))), true)
    }
    pub fn minto__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> ([[Option<T>; N]; M], bool) {
        let mut i = a.into_iter();
        let r = core::array::from_fn(|_| core::array::from_fn(|_| i.next()));
        (r, i.next().is_none())
    }
    pub fn minto__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> ([[Option<T>; N]; M], bool) {
        (a.map(|r| r.map(|x| Some(x))), true)
    }
    pub fn mcount__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> (usize, usize) {
        (a.iter().count(), a.into_iter().count())
    }
    pub fn mcount__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> (usize, usize) {
        (M * N, M * N)
    }
    pub fn miterm__l<T, F: FnMut(&mut T), const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, f: &mut F) {
        for x in a.iter_mut() {
            f(x)
        }
    }
    pub fn miterm__r<T, F: FnMut(&mut T), const M: usize, const N: usize>(a: &mut [[T; N]; M], f: &mut F) {
        for i in 0..M {
            for j in 0..N {
                f(&mut a[i][j])
            }
        }
    }
    pub fn mintom__l<T, F: FnMut(&mut T), const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, f: &mut F) {
        for x in a {
            f(x)
        }
    }
    pub fn mintom__r<T, F: FnMut(&mut T), const M: usize, const N: usize>(a: &mut [[T; N]; M], f: &mut F) {
        for i in 0..M {
            for j in 0..N {
                f(&mut a[i][j])
            }
        }
    }
    // ---- flattening of sequences whose parts may be empty
    pub fn flat__l<T>(a: [Option<T>; 4]) -> Option<([Option<T>; 4], bool)> {
        FlatIter::new(a.into_iter()).map(drain)
    }
    pub fn flat__r<T>(a: [Option<T>; 4]) -> Option<([Option<T>; 4], bool)> {
        let mut i = a.into_iter().flatten();
        let r = core::array::from_fn(|_| i.next());
        Some((r, true))
    }
    pub fn flatn__l<T>(a: [Option<T>; 0]) -> bool {
        FlatIter::new(a.into_iter()).is_none()
    }
    pub fn flatn__r<T>(a: [Option<T>; 0]) -> bool {
        let _ = a;
        true
    }
    pub fn flata_pos__l<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> ([[Option<T>; N]; M], bool) {
        let mut i = FlatIter::new(a.into_iter()).unwrap();
        let r = core::array::from_fn(|_| core::array::from_fn(|_| i.next()));
        (r, i.next().is_none())
    }
    pub fn flata_pos__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> ([[Option<T>; N]; M], bool) {
        (a.map(|r| r.map(|x| Some(x))), true)
    }
    // ---- the provided methods of iterators, which an implementation may replace
    fn lower(h: (usize, Option<usize>), n: usize) -> bool {
        h.0 <= n && match h.1 {
            Some(u) => n <= u,
            None => true,
        }
    }
    pub fn vnth__l<T, const N: usize, const I: usize>(a: Vector<T, N>) -> (Option<T>, Option<T>) {
        let mut i = a.into_iter();
        (i.nth(I), i.next())
    }
    pub fn vnth__r<T, const N: usize, const I: usize>(a: [T; N]) -> (Option<T>, Option<T>) {
        let mut i = a.into_iter();
        for _ in 0..I {
            i.next();
        }
        let x = i.next();
        (x, i.next())
    }
    pub fn mnth__l<T, const M: usize, const N: usize, const L: usize>(a: Matrix<T, M, N>) -> (Option<T>, Option<T>) {
        let mut i = a.into_iter();
        let x = i.nth(L);
        (x, i.next())
    }
    pub fn mnth__r<T, const M: usize, const N: usize, const L: usize>(a: [[T; N]; M]) -> (Option<T>, Option<T>) {
        let mut i = a.into_iter().flatten();
        for _ in 0..L {
            i.next();
        }
        let x = i.next();
        (x, i.next())
    }
    pub fn mrnth__l<T, const M: usize, const N: usize, const L: usize>(a: &Matrix<T, M, N>) -> (Option<&T>, Option<&T>) {
        let mut i = a.iter();
        i.next();
        let x = i.nth(L);
        (x, i.next())
    }
    pub fn mrnth__r<T, const M: usize, const N: usize, const L: usize>(a: &[[T; N]; M]) -> (Option<&T>, Option<&T>) {
        let g = |k: usize| if k < M * N { Some(&a[k / N][k % N]) } else { None };
        let k = if M * N > 0 { 1 } else { 0 };
        (g(k + L), g(k + L + 1))
    }
    pub fn mlast__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> (Option<&T>, Option<&T>) {
        (a.iter().last(), a.into_iter().last())
    }
    pub fn mlast__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> (Option<&T>, Option<&T>) {
        if M * N == 0 {
            (None, None)
        } else {
            (Some(&a[M - 1][N - 1]), Some(&a[M - 1][N - 1]))
        }
    }
    pub fn mfold__l<T, S, F: FnMut(S, T) -> S, const M: usize, const N: usize>(a: Matrix<T, M, N>, s: S, mut f: F) -> S {
        a.into_iter().fold(s, &mut f)
    }
    pub fn mfold__r<T, S, F: FnMut(S, T) -> S, const M: usize, const N: usize>(a: [[T; N]; M], s: S, mut f: F) -> S {
        let mut s = s;
        for r in a {
            for x in r {
                s = f(s, x);
            }
        }
        s
    }
    pub fn meach__l<T, F: FnMut(&T), const M: usize, const N: usize>(a: &Matrix<T, M, N>, mut f: F) {
        let mut i = a.iter();
        i.next();
        i.for_each(&mut f)
    }
    pub fn meach__r<T, F: FnMut(&T), const M: usize, const N: usize>(a: &[[T; N]; M], mut f: F) {
        for i in 0..M {
            for j in 0..N {
                if i + j > 0 {
                    f(&a[i][j])
                }
            }
        }
    }
    pub fn mcount1__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> (usize, usize) {
        let mut i = a.iter();
        let mut j = a.into_iter();
        i.next();
        j.next();
        j.next();
        (i.count(), j.count())
    }
    pub fn mcount1__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> (usize, usize) {
        (if M * N < 1 { 0 } else { M * N - 1 }, if M * N < 2 { 0 } else { M * N - 2 })
    }
    pub fn mhint__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> (bool, bool, bool, bool) {
        let mut i = a.iter();
        let mut j = a.into_iter();
        let x = lower(i.size_hint(), M * N);
        let y = lower(j.size_hint(), M * N);
        i.next();
        j.next();
        j.next();
        (x, y, lower(i.size_hint(), if M * N < 1 { 0 } else { M * N - 1 }), lower(j.size_hint(), if M * N < 2 { 0 } else { M * N - 2 }))
    }
    pub fn mhint__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> (bool, bool, bool, bool) {
        let _ = a;
        (true, true, true, true)
    }
    pub fn mhintv__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> (bool, bool) {
        let mut i = a.into_iter();
        let x = lower(i.size_hint(), M * N);
        i.next();
        (x, lower(i.size_hint(), if M * N < 1 { 0 } else { M * N - 1 }))
    }
    pub fn mhintv__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> (bool, bool) {
        let _ = a;
        (true, true)
    }
    pub fn flathint_pos__l<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> (bool, bool) {
        let mut i = FlatIter::new(a.into_iter()).unwrap();
        let x = lower(i.size_hint(), M * N);
        i.next();
        (x, lower(i.size_hint(), M * N - 1))
    }
    pub fn flathint_pos__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> (bool, bool) {
        let _ = a;
        (true, true)
    }
    pub fn flatohint__l<T>(a: [Option<T>; 4]) -> (bool, bool) {
        let mut n = 0;
        for x in a.iter() {
            if x.is_some() {
                n += 1
            }
        }
        let mut i = FlatIter::new(a.into_iter()).unwrap();
        let x = lower(i.size_hint(), n);
        i.next();
        (x, lower(i.size_hint(), if n == 0 { 0 } else { n - 1 }))
    }
    pub fn flatohint__r<T>(a: [Option<T>; 4]) -> (bool, bool) {
        let _ = a;
        (true, true)
    }
    pub fn flatnth__l<T>(a: [Option<T>; 4]) -> (Option<T>, Option<T>) {
        let mut i = FlatIter::new(a.into_iter()).unwrap();
        let x = i.nth(1);
        (x, i.next())
    }
    pub fn flatnth__r<T>(a: [Option<T>; 4]) -> (Option<T>, Option<T>) {
        let mut i = a.into_iter().flatten();
        i.next();
        let x = i.next();
        (x, i.next())
    }
    pub fn flatfold__l<T, F: FnMut(T)>(a: [Option<T>; 4], mut f: F) {
        let mut i = FlatIter::new(a.into_iter()).unwrap();
        i.next();
        i.for_each(&mut f)
    }
    pub fn flatfold__r<T, F: FnMut(T)>(a: [Option<T>; 4], mut f: F) {
        let mut i = a.into_iter().flatten();
        i.next();
        while let Some(x) = i.next() {
            f(x)
        }
    }
    pub fn ghint__l<T, const N: usize, const L: usize>(s: [T; L]) -> (bool, bool) {
        let mut g = GroupIter::<_, N>::new(s.into_iter());
        if N == 0 {
            return (true, true);
        }
        let x = lower(g.size_hint(), L / N);
        g.next();
        (x, lower(g.size_hint(), if L < N { 0 } else { L / N - 1 }))
    }
    pub fn ghint__r<T, const N: usize, const L: usize>(s: [T; L]) -> (bool, bool) {
        let _ = s;
        (true, true)
    }
    pub fn gnth__l<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<Vector<T, N>>, Option<Vector<T, N>>) {
        let mut g = GroupIter::<_, N>::new(s.into_iter());
        let a = g.nth(1);
        (a, g.next())
    }
    pub fn gnth__r<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<[T; N]>, Option<[T; N]>) {
        let mut i = s.into_iter();
        let mut t = || {
            if i.len() >= N {
                Some(core::array::from_fn(|_| i.next().unwrap()))
            } else {
                while i.len() > 0 {
                    i.next();
                }
                None
            }
        };
        // nothing is asked of the source after the first incomplete group
        match t() {
            None => (None, None),
            Some(_) => match t() {
                None => (None, None),
                Some(b) => (Some(b), t()),
            },
        }
    }
    // ---- construction from iterators
    pub(crate) fn take_n<T, I: Iterator<Item = T>, const N: usize>(i: &mut I) -> Option<[T; N]> {
        let mut r: [Option<T>; N] = core::array::from_fn(|_| None);
        for k in 0..N {
            r[k] = Some(i.next()?);
        }
        Some(r.map(|x| x.unwrap()))
    }
    // the same from a source of known length (larger sizes)
    pub fn vtrya__l<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<Vector<T, N>>, Option<T>, Option<T>) {
        let mut i = s.into_iter();
        let r = Vector::try_from_iter(&mut i);
        (r, i.next(), i.next())
    }
    pub fn vtrya__r<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<[T; N]>, Option<T>, Option<T>) {
        let mut i = s.into_iter();
        let r = if L < N {
            for _ in 0..L {
                i.next();
            }
            None
        } else {
            Some(core::array::from_fn(|_| i.next().unwrap()))
        };
        (r, i.next(), i.next())
    }
    pub fn mtrya__l<T, const M: usize, const N: usize, const L: usize>(s: [T; L]) -> (Option<Matrix<T, M, N>>, Option<T>, Option<T>) {
        let mut i = s.into_iter();
        let r = Matrix::try_from_iter(&mut i);
        (r, i.next(), i.next())
    }
    pub fn mtrya__r<T, const M: usize, const N: usize, const L: usize>(s: [T; L]) -> (Option<[[T; N]; M]>, Option<T>, Option<T>) {
        let mut i = s.into_iter();
        let r = if L < M * N {
            for _ in 0..L {
                i.next();
            }
            None
        } else {
            Some(core::array::from_fn(|_| core::array::from_fn(|_| i.next().unwrap())))
        };
        (r, i.next(), i.next())
    }
    pub fn groupa__l<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<Vector<T, N>>, Option<Vector<T, N>>, Option<Vector<T, N>>) {
        let mut g = GroupIter::<_, N>::new(s.into_iter());
        let a = g.next();
        let b = g.next();
        (a, b, g.next())
    }
    pub fn groupa__r<T, const N: usize, const L: usize>(s: [T; L]) -> (Option<[T; N]>, Option<[T; N]>, Option<[T; N]>) {
        let mut i = s.into_iter();
        let mut t = || {
            if i.len() >= N {
                Some(core::array::from_fn(|_| i.next().unwrap()))
            } else {
                while i.len() > 0 {
                    i.next();
                }
                None
            }
        };
        let a = t();
        let b = t();
        (a, b, t())
    }
    pub fn vslice__l<T: Copy, const N: usize, const L: usize>(s: &[T; L]) -> Result<Vector<T, N>, ()> {
        Vector::try_from(&s[..])
    }
    pub fn vslice__r<T: Copy, const N: usize, const L: usize>(s: &[T; L]) -> Result<[T; N], ()> {
        if s.len() == N {
            Ok(core::array::from_fn(|i| s[i]))
        } else {
            Err(())
        }
    }
    pub fn mslice__l<T: Copy, const M: usize, const N: usize, const L: usize>(s: &[T; L]) -> Result<Matrix<T, M, N>, ()> {
        Matrix::try_from(&s[..])
    }
    pub fn mslice__r<T: Copy, const M: usize, const N: usize, const L: usize>(s: &[T; L]) -> Result<[[T; N]; M], ()> {
        if s.len() == M * N {
            Ok(core::array::from_fn(|i| core::array::from_fn(|j| s[i * N + j])))
        } else {
            Err(())
        }
    }
    pub fn mvslice__l<T: Copy, const M: usize, const N: usize, const L: usize>(s: &[Vector<T, N>; L]) -> Result<Matrix<T, M, N>, ()> {
        Matrix::try_from(&s[..])
    }
    pub fn mvslice__r<T: Copy, const M: usize, const N: usize, const L: usize>(s: &[Vector<T, N>; L]) -> Result<[Vector<T, N>; M], ()> {
        if s.len() == M {
            Ok(core::array::from_fn(|i| s[i]))
        } else {
            Err(())
        }
    }
}

// arbitrary iterators
#[allow(unused_imports)]
pub mod free_max9 {
    use crate::free::take_n;
    use vecmat::vector::GroupIter;
    use vecmat::*;
    pub fn vtry__l<I: Iterator, const N: usize>(i: &mut I) -> Option<Vector<I::Item, N>> {
        Vector::try_from_iter(i)
    }
    pub fn vtry__r<I: Iterator, const N: usize>(i: &mut I) -> Option<[I::Item; N]> {
        take_n(i)
    }
    pub fn group__l<I: Iterator, const N: usize>(i: &mut I) -> (Option<Vector<I::Item, N>>, Option<Vector<I::Item, N>>) {
        let mut g = GroupIter::<_, N>::new(i);
        let a = g.next();
        (a, g.next())
    }
    pub fn group__r<I: Iterator, const N: usize>(i: &mut I) -> (Option<[I::Item; N]>, Option<[I::Item; N]>) {
        let a = take_n(i);
        (a, take_n(i))
    }
}
#[allow(unused_imports)]
pub mod free_max4 {
    use crate::free::take_n;
    use vecmat::vector::GroupIter;
    use vecmat::*;
    pub fn mtry__l<I: Iterator, const M: usize, const N: usize>(i: &mut I) -> Option<Matrix<I::Item, M, N>> {
        Matrix::try_from_iter(i)
    }
    pub fn mtry__r<I: Iterator, const M: usize, const N: usize>(i: &mut I) -> Option<[[I::Item; N]; M]> {
        let mut r: [Option<[I::Item; N]>; M] = core::array::from_fn(|_| None);
        for k in 0..M {
            r[k] = Some(take_n(i)?);
        }
        Some(r.map(|x| x.unwrap()))
    }
    pub fn mtryv__l<T, I: Iterator<Item = Vector<T, N>>, const M: usize, const N: usize>(i: &mut I) -> Option<Matrix<T, M, N>> {
        Matrix::try_from_iter_of_vectors(i)
    }
    pub fn mtryv__r<T, I: Iterator<Item = Vector<T, N>>, const M: usize, const N: usize>(i: &mut I) -> Option<[Vector<T, N>; M]> {
        take_n(i)
    }
}
