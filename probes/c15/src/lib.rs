//! Access: indexing, rows, columns, named components, views as arrays, conversions and transposition.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use vecmat::*;

    pub fn vfroma__l<T, const N: usize>(a: [T; N]) -> Vector<T, N> {
        Vector::from_array(a)
    }
    pub fn vfroma__r<T, const N: usize>(a: [T; N]) -> [T; N] {
        a
    }
    pub fn vintoa__l<T, const N: usize>(a: Vector<T, N>) -> [T; N] {
        a.into_array()
    }
    pub fn vintoa__r<T, const N: usize>(a: [T; N]) -> [T; N] {
        a
    }
    pub fn vfrom__l<T, const N: usize>(a: [T; N]) -> Vector<T, N> {
        Vector::from(a)
    }
    pub fn vfrom__r<T, const N: usize>(a: [T; N]) -> [T; N] {
        a
    }
    pub fn vfromr__l<T: Copy, const N: usize>(a: &[T; N]) -> Vector<T, N> {
        Vector::from(a)
    }
    pub fn vfromr__r<T: Copy, const N: usize>(a: &[T; N]) -> [T; N] {
        *a
    }
    pub fn vinto__l<T, const N: usize>(a: Vector<T, N>) -> [T; N] {
        a.into()
    }
    pub fn vinto__r<T, const N: usize>(a: [T; N]) -> [T; N] {
        a
    }
    pub fn vrefa__l<T, const N: usize>(a: &Vector<T, N>) -> &[T; N] {
        a.as_array()
    }
    pub fn vrefa__r<T, const N: usize>(a: &[T; N]) -> &[T; N] {
        a
    }
    pub fn vrefi__l<T, const N: usize>(a: &Vector<T, N>) -> &[T; N] {
        a.into()
    }
    pub fn vrefi__r<T, const N: usize>(a: &[T; N]) -> &[T; N] {
        a
    }
    pub fn vasref__l<T, const N: usize>(a: &Vector<T, N>) -> &[T; N] {
        a.as_ref()
    }
    pub fn vasref__r<T, const N: usize>(a: &[T; N]) -> &[T; N] {
        a
    }
    pub fn vmuta__l<T, const N: usize>(a: &mut Vector<T, N>, b: [T; N]) -> [T; N] {
        core::mem::replace(a.as_mut_array(), b)
    }
    pub fn vmuta__r<T, const N: usize>(a: &mut [T; N], b: [T; N]) -> [T; N] {
        core::mem::replace(a, b)
    }
    pub fn vmuti__l<T, const N: usize>(a: &mut Vector<T, N>, b: [T; N]) -> [T; N] {
        core::mem::replace(<&mut [T; N]>::from(a), b)
    }
    pub fn vmuti__r<T, const N: usize>(a: &mut [T; N], b: [T; N]) -> [T; N] {
        core::mem::replace(a, b)
    }
    pub fn vasmut__l<T, const N: usize>(a: &mut Vector<T, N>, b: [T; N]) -> [T; N] {
        core::mem::replace(AsMut::<[T; N]>::as_mut(a), b)
    }
    pub fn vasmut__r<T, const N: usize>(a: &mut [T; N], b: [T; N]) -> [T; N] {
        core::mem::replace(a, b)
    }
    pub fn mfromvv__l<T, const M: usize, const N: usize>(a: Vector<Vector<T, N>, M>) -> Matrix<T, M, N> {
        Matrix::from_vector_of_vectors(a)
    }
    pub fn mfromvv__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromvvi__l<T, const M: usize, const N: usize>(a: Vector<Vector<T, N>, M>) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromvvi__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromvvr__l<T: Copy, const M: usize, const N: usize>(a: &Vector<Vector<T, N>, M>) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromvvr__r<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M]) -> [[T; N]; M] {
        *a
    }
    pub fn mfromav__l<T, const M: usize, const N: usize>(a: [Vector<T, N>; M]) -> Matrix<T, M, N> {
        Matrix::from_array_of_vectors(a)
    }
    pub fn mfromav__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromavi__l<T, const M: usize, const N: usize>(a: [Vector<T, N>; M]) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromavi__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromavr__l<T: Copy, const M: usize, const N: usize>(a: &[Vector<T, N>; M]) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromavr__r<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M]) -> [[T; N]; M] {
        *a
    }
    pub fn mfromaa__l<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> Matrix<T, M, N> {
        Matrix::from_array_of_arrays(a)
    }
    pub fn mfromaa__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromaai__l<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromaai__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mfromaar__l<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M]) -> Matrix<T, M, N> {
        Matrix::from(a)
    }
    pub fn mfromaar__r<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M]) -> [[T; N]; M] {
        *a
    }
    pub fn mintovv__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Vector<Vector<T, N>, M> {
        a.into_vector_of_vectors()
    }
    pub fn mintovv__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mintovvi__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Vector<Vector<T, N>, M> {
        a.into()
    }
    pub fn mintovvi__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mintoav__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> [Vector<T, N>; M] {
        a.into_array_of_vectors()
    }
    pub fn mintoav__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mintoavi__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> [Vector<T, N>; M] {
        a.into()
    }
    pub fn mintoavi__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mintoaa__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> [[T; N]; M] {
        a.into_array_of_arrays()
    }
    pub fn mintoaa__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mintoaai__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> [[T; N]; M] {
        a.into()
    }
    pub fn mintoaai__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn mrefvv__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &Vector<Vector<T, N>, M> {
        a.as_vector_of_vectors()
    }
    pub fn mrefvv__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mrefvvi__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &Vector<Vector<T, N>, M> {
        a.into()
    }
    pub fn mrefvvi__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mrefvvr__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &Vector<Vector<T, N>, M> {
        a.as_ref()
    }
    pub fn mrefvvr__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mrefav__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &[Vector<T, N>; M] {
        a.as_array_of_vectors()
    }
    pub fn mrefav__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mrefaa__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &[[T; N]; M] {
        a.as_array_of_arrays()
    }
    pub fn mrefaa__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mrefaai__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &[[T; N]; M] {
        a.into()
    }
    pub fn mrefaai__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &[[T; N]; M] {
        a
    }
    pub fn mmutvv__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: Vector<Vector<T, N>, M>) -> Vector<Vector<T, N>, M> {
        core::mem::replace(a.as_mut_vector_of_vectors(), b)
    }
    pub fn mmutvv__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn mmutvvi__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: Vector<Vector<T, N>, M>) -> Vector<Vector<T, N>, M> {
        core::mem::replace(<&mut Vector<Vector<T, N>, M>>::from(a), b)
    }
    pub fn mmutvvi__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn mmutvvr__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: Vector<Vector<T, N>, M>) -> Vector<Vector<T, N>, M> {
        core::mem::replace(AsMut::<Vector<Vector<T, N>, M>>::as_mut(a), b)
    }
    pub fn mmutvvr__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn mmutav__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: [Vector<T, N>; M]) -> [Vector<T, N>; M] {
        core::mem::replace(a.as_mut_array_of_vectors(), b)
    }
    pub fn mmutav__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn mmutaa__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a.as_mut_array_of_arrays(), b)
    }
    pub fn mmutaa__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn mmutaai__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(<&mut [[T; N]; M]>::from(a), b)
    }
    pub fn mmutaai__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
        core::mem::replace(a, b)
    }
    pub fn vindex__l<T, const N: usize>(a: &Vector<T, N>, i: usize) -> &T {
        &a[i]
    }
    pub fn vindex__r<T, const N: usize>(a: &[T; N], i: usize) -> &T {
        &a[i]
    }
    pub fn vindexm__l<T, const N: usize>(a: &mut Vector<T, N>, i: usize, x: T) -> T {
        core::mem::replace(&mut a[i], x)
    }
    pub fn vindexm__r<T, const N: usize>(a: &mut [T; N], i: usize, x: T) -> T {
        core::mem::replace(&mut a[i], x)
    }
    pub fn vgetu__l<T, const N: usize>(a: &Vector<T, N>, i: usize) -> Option<&T> {
        if i < N { Some(unsafe { a.get_unchecked(i) }) } else { None }
    }
    pub fn vgetu__r<T, const N: usize>(a: &[T; N], i: usize) -> Option<&T> {
        a.get(i)
    }
    pub fn vgetum__l<T, const N: usize>(a: &mut Vector<T, N>, i: usize, x: T) -> Option<T> {
        if i < N { Some(core::mem::replace(unsafe { a.get_unchecked_mut(i) }, x)) } else { None }
    }
    pub fn vgetum__r<T, const N: usize>(a: &mut [T; N], i: usize, x: T) -> Option<T> {
        if i < N { Some(core::mem::replace(&mut a[i], x)) } else { None }
    }
    pub fn vptr__l<T, const N: usize>(a: &Vector<T, N>) -> (&T, &T) {
        let p = a.as_ptr();
        unsafe { (&*p, &*p.add(N - 1)) }
    }
    pub fn vptr__r<T, const N: usize>(a: &[T; N]) -> (&T, &T) {
        (&a[0], &a[N - 1])
    }
    pub fn vptrm_pos__l<T, const N: usize>(a: &mut Vector<T, N>, x: T, y: T) {
        let p = a.as_mut_ptr();
        unsafe {
            *p = x;
            *p.add(N - 1) = y;
        }
    }
    pub fn vptrm_pos__r<T, const N: usize>(a: &mut [T; N], x: T, y: T) {
        a[0] = x;
        a[N - 1] = y;
    }
    pub fn mindex__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>, i: usize, j: usize) -> &T {
        &a[(i, j)]
    }
    pub fn mindex__r<T, const M: usize, const N: usize>(a: &[[T; N]; M], i: usize, j: usize) -> &T {
        &a[i][j]
    }
    pub fn mindexm__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, i: usize, j: usize, x: T) -> T {
        core::mem::replace(&mut a[(i, j)], x)
    }
    pub fn mindexm__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], i: usize, j: usize, x: T) -> T {
        core::mem::replace(&mut a[i][j], x)
    }
    pub fn mgetu__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>, i: usize, j: usize) -> Option<&T> {
        if i < M && j < N { Some(unsafe { a.get_unchecked(i, j) }) } else { None }
    }
    pub fn mgetu__r<T, const M: usize, const N: usize>(a: &[[T; N]; M], i: usize, j: usize) -> Option<&T> {
        if i < M && j < N { Some(&a[i][j]) } else { None }
    }
    pub fn mgetum__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, i: usize, j: usize, x: T) {
        if i < M && j < N {
            unsafe { *a.get_unchecked_mut(i, j) = x }
        }
    }
    pub fn mgetum__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], i: usize, j: usize, x: T) {
        if i < M && j < N {
            a[i][j] = x
        }
    }
    pub fn mptr_pos__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> &T {
        unsafe { &*a.as_ptr() }
    }
    pub fn mptr_pos__r<T, const M: usize, const N: usize>(a: &[[T; N]; M]) -> &T {
        &a[0][0]
    }
    pub fn mptrm_pos__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, x: T) {
        unsafe { *a.as_mut_ptr() = x }
    }
    pub fn mptrm_pos__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], x: T) {
        a[0][0] = x
    }
    pub fn mrow__l<T: Copy, const M: usize, const N: usize>(a: &Matrix<T, M, N>, i: usize) -> Vector<T, N> {
        a.row(i)
    }
    pub fn mrow__r<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M], i: usize) -> [T; N] {
        a[i]
    }
    pub fn mrowr__l<T, const M: usize, const N: usize>(a: &Matrix<T, M, N>, i: usize) -> &Vector<T, N> {
        a.row_ref(i)
    }
    pub fn mrowr__r<T, const M: usize, const N: usize>(a: &[[T; N]; M], i: usize) -> &[T; N] {
        &a[i]
    }
    pub fn mrowm__l<T, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, i: usize, b: Vector<T, N>) -> Vector<T, N> {
        core::mem::replace(a.row_mut(i), b)
    }
    pub fn mrowm__r<T, const M: usize, const N: usize>(a: &mut [[T; N]; M], i: usize, b: [T; N]) -> [T; N] {
        core::mem::replace(&mut a[i], b)
    }
    pub fn mcol__l<T: Copy, const M: usize, const N: usize>(a: &Matrix<T, M, N>, j: usize) -> Vector<T, M> {
        a.col(j)
    }
    pub fn mcol__r<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M], j: usize) -> [T; M] {
        core::array::from_fn(|i| a[i][j])
    }
    pub fn mtr__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, N, M> {
        a.transpose()
    }
    pub fn mtr__r<T: Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; M]; N] {
        core::array::from_fn(|j| core::array::from_fn(|i| a[i][j]))
    }
    pub fn mtrtr__l<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.transpose().transpose()
    }
    pub fn mtrtr__r<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn get2x__l<T: Copy>(a: Vector<T, 2>) -> T {
        a.x()
    }
    pub fn get2x__r<T: Copy>(a: [T; 2]) -> T {
        a[0]
    }
    pub fn ref2x__l<T>(a: &Vector<T, 2>) -> &T {
        a.x_ref()
    }
    pub fn ref2x__r<T>(a: &[T; 2]) -> &T {
        &a[0]
    }
    pub fn mut2x__l<T>(a: &mut Vector<T, 2>, v: T) -> T {
        core::mem::replace(a.x_mut(), v)
    }
    pub fn mut2x__r<T>(a: &mut [T; 2], v: T) -> T {
        core::mem::replace(&mut a[0], v)
    }
    pub fn get2y__l<T: Copy>(a: Vector<T, 2>) -> T {
        a.y()
    }
    pub fn get2y__r<T: Copy>(a: [T; 2]) -> T {
        a[1]
    }
    pub fn ref2y__l<T>(a: &Vector<T, 2>) -> &T {
        a.y_ref()
    }
    pub fn ref2y__r<T>(a: &[T; 2]) -> &T {
        &a[1]
    }
    pub fn mut2y__l<T>(a: &mut Vector<T, 2>, v: T) -> T {
        core::mem::replace(a.y_mut(), v)
    }
    pub fn mut2y__r<T>(a: &mut [T; 2], v: T) -> T {
        core::mem::replace(&mut a[1], v)
    }
    pub fn ftup2__l<T>(t: (T, T)) -> Vector<T, 2> {
        Vector::<T, 2>::from_tuple(t)
    }
    pub fn ftup2__r<T>(t: (T, T)) -> [T; 2] {
        let (x, y) = t;
        [x, y]
    }
    pub fn ftupi2__l<T>(t: (T, T)) -> Vector<T, 2> {
        Vector::from(t)
    }
    pub fn ftupi2__r<T>(t: (T, T)) -> [T; 2] {
        let (x, y) = t;
        [x, y]
    }
    pub fn itup2__l<T>(a: Vector<T, 2>) -> (T, T) {
        a.into_tuple()
    }
    pub fn itup2__r<T>(a: [T; 2]) -> (T, T) {
        let [x, y] = a;
        (x, y)
    }
    pub fn itupi2__l<T>(a: Vector<T, 2>) -> (T, T) {
        a.into()
    }
    pub fn itupi2__r<T>(a: [T; 2]) -> (T, T) {
        let [x, y] = a;
        (x, y)
    }
    pub fn get3x__l<T: Copy>(a: Vector<T, 3>) -> T {
        a.x()
    }
    pub fn get3x__r<T: Copy>(a: [T; 3]) -> T {
        a[0]
    }
    pub fn ref3x__l<T>(a: &Vector<T, 3>) -> &T {
        a.x_ref()
    }
    pub fn ref3x__r<T>(a: &[T; 3]) -> &T {
        &a[0]
    }
    pub fn mut3x__l<T>(a: &mut Vector<T, 3>, v: T) -> T {
        core::mem::replace(a.x_mut(), v)
    }
    pub fn mut3x__r<T>(a: &mut [T; 3], v: T) -> T {
        core::mem::replace(&mut a[0], v)
    }
    pub fn get3y__l<T: Copy>(a: Vector<T, 3>) -> T {
        a.y()
    }
    pub fn get3y__r<T: Copy>(a: [T; 3]) -> T {
        a[1]
    }
    pub fn ref3y__l<T>(a: &Vector<T, 3>) -> &T {
        a.y_ref()
    }
    pub fn ref3y__r<T>(a: &[T; 3]) -> &T {
        &a[1]
    }
    pub fn mut3y__l<T>(a: &mut Vector<T, 3>, v: T) -> T {
        core::mem::replace(a.y_mut(), v)
    }
    pub fn mut3y__r<T>(a: &mut [T; 3], v: T) -> T {
        core::mem::replace(&mut a[1], v)
    }
    pub fn get3z__l<T: Copy>(a: Vector<T, 3>) -> T {
        a.z()
    }
    pub fn get3z__r<T: Copy>(a: [T; 3]) -> T {
        a[2]
    }
    pub fn ref3z__l<T>(a: &Vector<T, 3>) -> &T {
        a.z_ref()
    }
    pub fn ref3z__r<T>(a: &[T; 3]) -> &T {
        &a[2]
    }
    pub fn mut3z__l<T>(a: &mut Vector<T, 3>, v: T) -> T {
        core::mem::replace(a.z_mut(), v)
    }
    pub fn mut3z__r<T>(a: &mut [T; 3], v: T) -> T {
        core::mem::replace(&mut a[2], v)
    }
    pub fn ftup3__l<T>(t: (T, T, T)) -> Vector<T, 3> {
        Vector::<T, 3>::from_tuple(t)
    }
    pub fn ftup3__r<T>(t: (T, T, T)) -> [T; 3] {
        let (x, y, z) = t;
        [x, y, z]
    }
    pub fn ftupi3__l<T>(t: (T, T, T)) -> Vector<T, 3> {
        Vector::from(t)
    }
    pub fn ftupi3__r<T>(t: (T, T, T)) -> [T; 3] {
        let (x, y, z) = t;
        [x, y, z]
    }
    pub fn itup3__l<T>(a: Vector<T, 3>) -> (T, T, T) {
        a.into_tuple()
    }
    pub fn itup3__r<T>(a: [T; 3]) -> (T, T, T) {
        let [x, y, z] = a;
        (x, y, z)
    }
    pub fn itupi3__l<T>(a: Vector<T, 3>) -> (T, T, T) {
        a.into()
    }
    pub fn itupi3__r<T>(a: [T; 3]) -> (T, T, T) {
        let [x, y, z] = a;
        (x, y, z)
    }
    pub fn get4x__l<T: Copy>(a: Vector<T, 4>) -> T {
        a.x()
    }
    pub fn get4x__r<T: Copy>(a: [T; 4]) -> T {
        a[0]
    }
    pub fn ref4x__l<T>(a: &Vector<T, 4>) -> &T {
        a.x_ref()
    }
    pub fn ref4x__r<T>(a: &[T; 4]) -> &T {
        &a[0]
    }
    pub fn mut4x__l<T>(a: &mut Vector<T, 4>, v: T) -> T {
        core::mem::replace(a.x_mut(), v)
    }
    pub fn mut4x__r<T>(a: &mut [T; 4], v: T) -> T {
        core::mem::replace(&mut a[0], v)
    }
    pub fn get4y__l<T: Copy>(a: Vector<T, 4>) -> T {
        a.y()
    }
    pub fn get4y__r<T: Copy>(a: [T; 4]) -> T {
        a[1]
    }
    pub fn ref4y__l<T>(a: &Vector<T, 4>) -> &T {
        a.y_ref()
    }
    pub fn ref4y__r<T>(a: &[T; 4]) -> &T {
        &a[1]
    }
    pub fn mut4y__l<T>(a: &mut Vector<T, 4>, v: T) -> T {
        core::mem::replace(a.y_mut(), v)
    }
    pub fn mut4y__r<T>(a: &mut [T; 4], v: T) -> T {
        core::mem::replace(&mut a[1], v)
    }
    pub fn get4z__l<T: Copy>(a: Vector<T, 4>) -> T {
        a.z()
    }
    pub fn get4z__r<T: Copy>(a: [T; 4]) -> T {
        a[2]
    }
    pub fn ref4z__l<T>(a: &Vector<T, 4>) -> &T {
        a.z_ref()
    }
    pub fn ref4z__r<T>(a: &[T; 4]) -> &T {
        &a[2]
    }
    pub fn mut4z__l<T>(a: &mut Vector<T, 4>, v: T) -> T {
        core::mem::replace(a.z_mut(), v)
    }
    pub fn mut4z__r<T>(a: &mut [T; 4], v: T) -> T {
        core::mem::replace(&mut a[2], v)
    }
    pub fn get4w__l<T: Copy>(a: Vector<T, 4>) -> T {
        a.w()
    }
    pub fn get4w__r<T: Copy>(a: [T; 4]) -> T {
        a[3]
    }
    pub fn ref4w__l<T>(a: &Vector<T, 4>) -> &T {
        a.w_ref()
    }
    pub fn ref4w__r<T>(a: &[T; 4]) -> &T {
        &a[3]
    }
    pub fn mut4w__l<T>(a: &mut Vector<T, 4>, v: T) -> T {
        core::mem::replace(a.w_mut(), v)
    }
    pub fn mut4w__r<T>(a: &mut [T; 4], v: T) -> T {
        core::mem::replace(&mut a[3], v)
    }
    pub fn ftup4__l<T>(t: (T, T, T, T)) -> Vector<T, 4> {
        Vector::<T, 4>::from_tuple(t)
    }
    pub fn ftup4__r<T>(t: (T, T, T, T)) -> [T; 4] {
        let (x, y, z, w) = t;
        [x, y, z, w]
    }
    pub fn ftupi4__l<T>(t: (T, T, T, T)) -> Vector<T, 4> {
        Vector::from(t)
    }
    pub fn ftupi4__r<T>(t: (T, T, T, T)) -> [T; 4] {
        let (x, y, z, w) = t;
        [x, y, z, w]
    }
    pub fn itup4__l<T>(a: Vector<T, 4>) -> (T, T, T, T) {
        a.into_tuple()
    }
    pub fn itup4__r<T>(a: [T; 4]) -> (T, T, T, T) {
        let [x, y, z, w] = a;
        (x, y, z, w)
    }
    pub fn itupi4__l<T>(a: Vector<T, 4>) -> (T, T, T, T) {
        a.into()
    }
    pub fn itupi4__r<T>(a: [T; 4]) -> (T, T, T, T) {
        let [x, y, z, w] = a;
        (x, y, z, w)
    }
}
