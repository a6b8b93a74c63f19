//! Component-wise arithmetic of vectors and matrices.
#![allow(non_snake_case)]
mod spec;

macro_rules! unop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr<Output = T>, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
            a.$f()
        }
        pub fn $r<T: $Tr<Output = T>, const N: usize>(a: [T; N]) -> [T; N] {
            map1(a, |x| x.$f())
        }
        pub fn $ml<T: $Tr<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f()
        }
        pub fn $mr<T: $Tr<Output = T>, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
            mmap1(a, |x| x.$f())
        }
    };
}
macro_rules! binop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr<Output = T>, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> {
            a.$f(b)
        }
        pub fn $r<T: $Tr<Output = T>, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
            map2(a, b, |x, y| x.$f(y))
        }
        pub fn $ml<T: $Tr<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $mr<T: $Tr<Output = T>, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
            mmap2(a, b, |x, y| x.$f(y))
        }
    };
}
macro_rules! scalop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr<Output = T> + Copy, const N: usize>(a: Vector<T, N>, s: T) -> Vector<T, N> {
            <Vector<T, N> as $Tr<T>>::$f(a, s)
        }
        pub fn $r<T: $Tr<Output = T> + Copy, const N: usize>(a: [T; N], s: T) -> [T; N] {
            map1(a, |x| x.$f(s))
        }
        pub fn $ml<T: $Tr<Output = T> + Copy, const M: usize, const N: usize>(a: Matrix<T, M, N>, s: T) -> Matrix<T, M, N> {
            <Matrix<T, M, N> as $Tr<T>>::$f(a, s)
        }
        pub fn $mr<T: $Tr<Output = T> + Copy, const M: usize, const N: usize>(a: [[T; N]; M], s: T) -> [[T; N]; M] {
            mmap1(a, |x| x.$f(s))
        }
    };
}
macro_rules! asgop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr, const N: usize>(a: &mut Vector<T, N>, b: Vector<T, N>) {
            a.$f(b)
        }
        pub fn $r<T: $Tr, const N: usize>(a: &mut [T; N], b: [T; N]) {
            each2(a, b, |x, y| x.$f(y))
        }
        pub fn $ml<T: $Tr, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: Matrix<T, M, N>) {
            a.$f(b)
        }
        pub fn $mr<T: $Tr, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) {
            meach2(a, b, |x, y| x.$f(y))
        }
    };
}
macro_rules! sasgop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr + Copy, const N: usize>(a: &mut Vector<T, N>, s: T) {
            <Vector<T, N> as $Tr<T>>::$f(a, s)
        }
        pub fn $r<T: $Tr + Copy, const N: usize>(a: &mut [T; N], s: T) {
            for x in a.iter_mut() {
                x.$f(s)
            }
        }
        pub fn $ml<T: $Tr + Copy, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, s: T) {
            <Matrix<T, M, N> as $Tr<T>>::$f(a, s)
        }
        pub fn $mr<T: $Tr + Copy, const M: usize, const N: usize>(a: &mut [[T; N]; M], s: T) {
            for r in a.iter_mut() {
                for x in r.iter_mut() {
                    x.$f(s)
                }
            }
        }
    };
}

pub mod free {
    use crate::spec::*;
    use core::ops::*;
    use num_traits::{Zero, One};
    use vecmat::*;

    unop!(Neg neg vneg__l vneg__r mneg__l mneg__r);
    binop!(Add add vadd__l vadd__r madd__l madd__r);
    binop!(Sub sub vsub__l vsub__r msub__l msub__r);
    binop!(Mul mul vmul__l vmul__r mmul__l mmul__r);
    binop!(Div div vdiv__l vdiv__r mdiv__l mdiv__r);
    binop!(Rem rem vrem__l vrem__r mrem__l mrem__r);
    scalop!(Mul mul vsmul__l vsmul__r msmul__l msmul__r);
    scalop!(Div div vsdiv__l vsdiv__r msdiv__l msdiv__r);
    scalop!(Rem rem vsrem__l vsrem__r msrem__l msrem__r);
    asgop!(AddAssign add_assign vadda__l vadda__r madda__l madda__r);
    asgop!(SubAssign sub_assign vsuba__l vsuba__r msuba__l msuba__r);
    asgop!(MulAssign mul_assign vmula__l vmula__r mmula__l mmula__r);
    asgop!(DivAssign div_assign vdiva__l vdiva__r mdiva__l mdiva__r);
    asgop!(RemAssign rem_assign vrema__l vrema__r mrema__l mrema__r);
    sasgop!(MulAssign mul_assign vsmula__l vsmula__r msmula__l msmula__r);
    sasgop!(DivAssign div_assign vsdiva__l vsdiva__r msdiva__l msdiva__r);
    sasgop!(RemAssign rem_assign vsrema__l vsrema__r msrema__l msrema__r);

    pub fn vzero__l<T: Zero, const N: usize>() -> Vector<T, N> {
        Vector::zero()
    }
    pub fn vzero__r<T: Zero, const N: usize>() -> [T; N] {
        core::array::from_fn(|_| T::zero())
    }
    pub fn mzero__l<T: Zero, const M: usize, const N: usize>() -> Matrix<T, M, N> {
        Matrix::zero()
    }
    pub fn mzero__r<T: Zero, const M: usize, const N: usize>() -> [[T; N]; M] {
        core::array::from_fn(|_| core::array::from_fn(|_| T::zero()))
    }
    pub fn viszero__l<T: Zero, const N: usize>(a: Vector<T, N>) -> bool {
        a.is_zero()
    }
    pub fn viszero__r<T: Zero, const N: usize>(a: [T; N]) -> bool {
        let mut r = true;
        for x in a.iter() {
            r = r & x.is_zero();
        }
        r
    }
    pub fn miszero__l<T: Zero, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> bool {
        a.is_zero()
    }
    pub fn miszero__r<T: Zero, const M: usize, const N: usize>(a: [[T; N]; M]) -> bool {
        let mut r = true;
        for x in a.iter() {
            for y in x.iter() {
                r = r & y.is_zero();
            }
        }
        r
    }
    // the provided methods of the same traits, which an implementation may replace
    pub fn vsetz__l<T: Zero, const N: usize>(a: &mut Vector<T, N>) {
        a.set_zero()
    }
    pub fn vsetz__r<T: Zero, const N: usize>(a: &mut [T; N]) {
        *a = core::array::from_fn(|_| T::zero())
    }
    pub fn msetz__l<T: Zero, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>) {
        a.set_zero()
    }
    pub fn msetz__r<T: Zero, const M: usize, const N: usize>(a: &mut [[T; N]; M]) {
        *a = core::array::from_fn(|_| core::array::from_fn(|_| T::zero()))
    }
    pub fn mseto__l<T: Zero + One, const N: usize>(a: &mut Matrix<T, N, N>)
    where
        Matrix<T, N, N>: One,
    {
        a.set_one()
    }
    pub fn mseto__r<T: Zero + One, const N: usize>(a: &mut [[T; N]; N]) {
        *a = core::array::from_fn(|i| core::array::from_fn(|j| if i == j { T::one() } else { T::zero() }))
    }
    pub fn misone__l<T: Zero + One + PartialEq, const N: usize>(a: &Matrix<T, N, N>) -> bool
    where
        Matrix<T, N, N>: One,
    {
        a.is_one()
    }
    pub fn misone__r<T: Zero + One + PartialEq, const N: usize>(a: &[[T; N]; N]) -> bool {
        let mut r = true;
        for i in 0..N {
            for j in 0..N {
                r = r & (a[i][j] == if i == j { T::one() } else { T::zero() });
            }
        }
        r
    }
    pub fn mone__l<T: Zero + One, const N: usize>() -> Matrix<T, N, N> {
        Matrix::one()
    }
    pub fn mone__r<T: Zero + One, const N: usize>() -> [[T; N]; N] {
        core::array::from_fn(|i| core::array::from_fn(|j| if i == j { T::one() } else { T::zero() }))
    }
}

// `scalar * vector` for the primitive types
macro_rules! rev {
    ($($T:ident $l:ident $r:ident)*) => {
        $(pub fn $l<const N: usize>(s: $T, a: Vector<$T, N>) -> Vector<$T, N> {
            s * a
        }
        pub fn $r<const N: usize>(s: $T, a: [$T; N]) -> [$T; N] {
            map1(a, |x| s * x)
        })*
    };
}
pub mod ring {
    use crate::spec::*;
    use vecmat::*;
    rev!(u8 ru8__l ru8__r u16 ru16__l ru16__r u32 ru32__l ru32__r u64 ru64__l ru64__r i8 ri8__l ri8__r i16 ri16__l ri16__r
         i32 ri32__l ri32__r i64 ri64__l ri64__r f32 rf32__l rf32__r f64 rf64__l rf64__r);
}
