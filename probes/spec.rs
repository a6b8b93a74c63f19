//! Helpers of the specification side: plain array code.
#![allow(dead_code)]

pub fn map1<A, C, const N: usize>(a: [A; N], mut f: impl FnMut(A) -> C) -> [C; N] {
    let mut a = a.into_iter();
    core::array::from_fn(|_| f(a.next().unwrap()))
}
pub fn map2<A, B, C, const N: usize>(a: [A; N], b: [B; N], mut f: impl FnMut(A, B) -> C) -> [C; N] {
    let mut a = a.into_iter();
    let mut b = b.into_iter();
    core::array::from_fn(|_| {
        let x = a.next().unwrap();
        f(x, b.next().unwrap())
    })
}
pub fn map3<A, B, D, C, const N: usize>(a: [A; N], b: [B; N], d: [D; N], mut f: impl FnMut(A, B, D) -> C) -> [C; N] {
    let mut a = a.into_iter();
    let mut b = b.into_iter();
    let mut d = d.into_iter();
    core::array::from_fn(|_| {
        let x = a.next().unwrap();
        let y = b.next().unwrap();
        f(x, y, d.next().unwrap())
    })
}
pub fn mmap1<A, C, const M: usize, const N: usize>(a: [[A; N]; M], mut f: impl FnMut(A) -> C) -> [[C; N]; M] {
    map1(a, |r| map1(r, |x| f(x)))
}
pub fn mmap2<A, B, C, const M: usize, const N: usize>(a: [[A; N]; M], b: [[B; N]; M], mut f: impl FnMut(A, B) -> C) -> [[C; N]; M] {
    map2(a, b, |r, s| map2(r, s, |x, y| f(x, y)))
}
pub fn mmap3<A, B, D, C, const M: usize, const N: usize>(a: [[A; N]; M], b: [[B; N]; M], d: [[D; N]; M], mut f: impl FnMut(A, B, D) -> C) -> [[C; N]; M] {
    map3(a, b, d, |r, s, t| map3(r, s, t, |x, y, z| f(x, y, z)))
}
pub fn each2<A, B, const N: usize>(a: &mut [A; N], b: [B; N], mut f: impl FnMut(&mut A, B)) {
    let mut b = b.into_iter();
    for x in a.iter_mut() {
        f(x, b.next().unwrap());
    }
}
pub fn meach2<A, B, const M: usize, const N: usize>(a: &mut [[A; N]; M], b: [[B; N]; M], mut f: impl FnMut(&mut A, B)) {
    let mut b = b.into_iter();
    for r in a.iter_mut() {
        each2(r, b.next().unwrap(), |x, y| f(x, y));
    }
}
