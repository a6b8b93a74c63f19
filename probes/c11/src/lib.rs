//! Component-wise comparisons, bit operations, integer division, boolean reductions, equality.
#![allow(non_snake_case)]
mod spec;

macro_rules! cmpop {
    ($B:ident $f:ident $op:tt $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $B, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<bool, N> {
            a.$f(b)
        }
        pub fn $r<T: $B, const N: usize>(a: [T; N], b: [T; N]) -> [bool; N] {
            map2(a, b, |x, y| x $op y)
        }
        pub fn $ml<T: $B, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> Matrix<bool, M, N> {
            a.$f(b)
        }
        pub fn $mr<T: $B, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> [[bool; N]; M] {
            mmap2(a, b, |x, y| x $op y)
        }
    };
}
macro_rules! bitop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr<Output = T>, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> {
            a.$f(b)
        }
        pub fn $r<T: $Tr<Output = T>, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
            map2(a, b, |x, y| x.$f(y))
        }
        pub fn $ml<T: $Tr<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $mr<T: $Tr<Output = T>, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
            mmap2(a, b, |x, y| x.$f(y))
        }
    };
}
macro_rules! asgop {
    ($Tr:ident $f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: $Tr, const N: usize>(a: &mut Vector<T, N>, b: Vector<T, N>) {
            a.$f(b)
        }
        pub fn $r<T: $Tr, const N: usize>(a: &mut [T; N], b: [T; N]) {
            each2(a, b, |x, y| x.$f(y))
        }
        pub fn $ml<T: $Tr, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: Matrix<T, M, N>) {
            a.$f(b)
        }
        pub fn $mr<T: $Tr, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: [[T; N]; M]) {
            meach2(a, b, |x, y| x.$f(y))
        }
    };
}
macro_rules! intop {
    ($f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: Integer, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> {
            a.$f(b)
        }
        pub fn $r<T: Integer, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
            map2(a, b, |x, y| x.$f(&y))
        }
        pub fn $ml<T: Integer, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $mr<T: Integer, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
            mmap2(a, b, |x, y| x.$f(&y))
        }
    };
}

pub mod free {
    use crate::spec::*;
    use core::ops::*;
    use num_integer::Integer;
    use vecmat::*;

    cmpop!(PartialEq veq == veq__l veq__r meq__l meq__r);
    cmpop!(PartialEq vne != vne__l vne__r mne__l mne__r);
    cmpop!(PartialOrd vlt < vlt__l vlt__r mlt__l mlt__r);
    cmpop!(PartialOrd vle <= vle__l vle__r mle__l mle__r);
    cmpop!(PartialOrd vgt > vgt__l vgt__r mgt__l mgt__r);
    cmpop!(PartialOrd vge >= vge__l vge__r mge__l mge__r);
    bitop!(BitAnd bitand vand__l vand__r mand__l mand__r);
    bitop!(BitOr bitor vor__l vor__r mor__l mor__r);
    bitop!(BitXor bitxor vxor__l vxor__r mxor__l mxor__r);
    asgop!(BitAndAssign bitand_assign vanda__l vanda__r manda__l manda__r);
    asgop!(BitOrAssign bitor_assign vora__l vora__r mora__l mora__r);
    asgop!(BitXorAssign bitxor_assign vxora__l vxora__r mxora__l mxora__r);
    intop!(div_floor vdivf__l vdivf__r mdivf__l mdivf__r);
    intop!(mod_floor vmodf__l vmodf__r mmodf__l mmodf__r);

    pub fn vnot__l<T: Not<Output = T>, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
        !a
    }
    pub fn vnot__r<T: Not<Output = T>, const N: usize>(a: [T; N]) -> [T; N] {
        map1(a, |x| !x)
    }
    pub fn mnot__l<T: Not<Output = T>, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, M, N> {
        !a
    }
    pub fn mnot__r<T: Not<Output = T>, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        mmap1(a, |x| !x)
    }
    pub fn vdm__l<T: Integer, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> (Vector<T, N>, Vector<T, N>) {
        a.div_mod_floor(b)
    }
    pub fn vdm__r<T: Integer, const N: usize>(a: [T; N], b: [T; N]) -> ([T; N], [T; N]) {
        let p = map2(a, b, |x, y| x.div_mod_floor(&y)).map(|(x, y)| (Some(x), Some(y)));
        split(p)
    }
    fn split<A, B, const N: usize>(mut p: [(Option<A>, Option<B>); N]) -> ([A; N], [B; N]) {
        let x = core::array::from_fn(|i| p[i].0.take().unwrap());
        let y = core::array::from_fn(|i| p[i].1.take().unwrap());
        (x, y)
    }
    pub fn mdm__l<T: Integer, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> (Matrix<T, M, N>, Matrix<T, M, N>) {
        a.div_mod_floor(b)
    }
    pub fn mdm__r<T: Integer, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> ([[T; N]; M], [[T; N]; M]) {
        let mut p = mmap2(a, b, |x, y| x.div_mod_floor(&y)).map(|r| r.map(|(x, y)| (Some(x), Some(y))));
        let x = core::array::from_fn(|i| core::array::from_fn(|j| p[i][j].0.take().unwrap()));
        let y = core::array::from_fn(|i| core::array::from_fn(|j| p[i][j].1.take().unwrap()));
        (x, y)
    }
    // equality of whole values
    pub fn eq__l<T: PartialEq, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn eq__r<T: PartialEq, const N: usize>(a: [T; N], b: [T; N]) -> (bool, bool) {
        let mut r = true;
        for i in 0..N {
            r = r & (a[i] == b[i]);
        }
        (r, !r)
    }
    pub fn mteq__l<T: PartialEq, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> (bool, bool) {
        (a == b, a != b)
    }
    pub fn mteq__r<T: PartialEq, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> (bool, bool) {
        let mut r = true;
        for i in 0..M {
            for j in 0..N {
                r = r & (a[i][j] == b[i][j]);
            }
        }
        (r, !r)
    }
    pub fn clone__l<T: Clone, const M: usize, const N: usize>(a: &Matrix<T, M, N>, b: &Vector<T, N>) -> (Matrix<T, M, N>, Vector<T, N>) {
        (a.clone(), b.clone())
    }
    pub fn clone__r<T: Clone, const M: usize, const N: usize>(a: &[[T; N]; M], b: &[T; N]) -> ([[T; N]; M], [T; N]) {
        (a.clone(), b.clone())
    }
    // cloning into an existing value
    pub fn vclonefrom__l<T: Clone, const N: usize>(a: &mut Vector<T, N>, b: &Vector<T, N>) {
        a.clone_from(b)
    }
    pub fn vclonefrom__r<T: Clone, const N: usize>(a: &mut [T; N], b: &[T; N]) {
        *a = core::array::from_fn(|i| b[i].clone())
    }
    pub fn mclonefrom__l<T: Clone, const M: usize, const N: usize>(a: &mut Matrix<T, M, N>, b: &Matrix<T, M, N>) {
        a.clone_from(b)
    }
    pub fn mclonefrom__r<T: Clone, const M: usize, const N: usize>(a: &mut [[T; N]; M], b: &[[T; N]; M]) {
        *a = core::array::from_fn(|i| core::array::from_fn(|j| b[i][j].clone()))
    }
    // the same object on both sides: an element need not equal itself
    pub fn eqself__l<T: PartialEq, const N: usize>(a: &Vector<T, N>) -> (bool, bool) {
        (a == a, a != a)
    }
    pub fn eqself__r<T: PartialEq, const N: usize>(a: &[T; N]) -> (bool, bool) {
        let mut r = true;
        for i in 0..N {
            r = r & (a[i] == a[i]);
        }
        (r, !r)
    }
    pub fn mteqself__l<T: PartialEq, const M: usize, const N: usize>(a: &Matrix<T, M, N>) -> (bool, bool) {
        (a == a, a != a)
    }
    pub fn mteqself__r<T: PartialEq, const M: usize, const N: usize>(a: &[[T; N]; M]) -> (bool, bool) {
        let mut r = true;
        for i in 0..M {
            for j in 0..N {
                r = r & (a[i][j] == a[i][j]);
            }
        }
        (r, !r)
    }
}
pub mod int {
    use vecmat::*;
    pub fn any__l<const N: usize>(a: Vector<bool, N>) -> bool {
        a.any()
    }
    pub fn any__r<const N: usize>(a: [bool; N]) -> bool {
        let mut r = false;
        for x in a {
            r = r | x;
        }
        r
    }
    pub fn all__l<const N: usize>(a: Vector<bool, N>) -> bool {
        a.all()
    }
    pub fn all__r<const N: usize>(a: [bool; N]) -> bool {
        let mut r = true;
        for x in a {
            r = r & x;
        }
        r
    }
    pub fn many__l<const M: usize, const N: usize>(a: Matrix<bool, M, N>) -> bool {
        a.any()
    }
    pub fn many__r<const M: usize, const N: usize>(a: [[bool; N]; M]) -> bool {
        let mut r = false;
        for x in a {
            for y in x {
                r = r | y;
            }
        }
        r
    }
    pub fn mall__l<const M: usize, const N: usize>(a: Matrix<bool, M, N>) -> bool {
        a.all()
    }
    pub fn mall__r<const M: usize, const N: usize>(a: [[bool; N]; M]) -> bool {
        let mut r = true;
        for x in a {
            for y in x {
                r = r & y;
            }
        }
        r
    }
    // integer vectors of a primitive type
    pub fn i32div__l<const N: usize>(a: Vector<i32, N>, b: Vector<i32, N>) -> (Vector<i32, N>, Vector<i32, N>) {
        (a / b, a % b)
    }
    pub fn i32div__r<const N: usize>(a: [i32; N], b: [i32; N]) -> ([i32; N], [i32; N]) {
        (core::array::from_fn(|i| a[i] / b[i]), core::array::from_fn(|i| a[i] % b[i]))
    }
}
