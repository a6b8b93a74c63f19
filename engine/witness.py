"""C03: type-level witnesses. Each witness is a pair of programs over the public interface: one that the interface has to accept
and one - the smallest change away - that it has to reject. Only the compiler's front end runs; no witness is executed.
  accepted program rejected, or rejected program accepted -> violated;
  rejected for another reason than the one the witness is about -> undecided."""
import glob
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from . import build

PRE = """#![no_std]
#![allow(unused, dead_code)]
extern crate std;
use core::ops::*;
use core::mem::MaybeUninit;
use vecmat::{prelude::*, Vector, Matrix, Complex, Quaternion};
use vecmat::complex::Moebius;
use vecmat::transform::*;
use vecmat::vector::GroupIter;
use vecmat::matrix::FlatIter;
fn send<X: Send>() {} fn sync<X: Sync>() {} fn copy<X: Copy>() {} fn clone<X: Clone>() {} fn unpin<X: Unpin>() {} fn stat<X: 'static>() {}
fn eq<X: PartialEq>() {} fn dft<X: Default>() {} fn unwind<X: core::panic::UnwindSafe>() {} fn use_<X>(x: X) {}
fn fty<A: Default, B: Default>() {}
struct Plain; struct NoCopy(u8);
"""

TYPES = [  # name, type in T, extra generics
    ("Vector", "Vector<T, 3>", ""), ("VectorN", "Vector<T, N>", ", const N: usize"), ("Matrix", "Matrix<T, 2, 3>", ""), ("MatrixMN", "Matrix<T, M, N>", ", const M: usize, const N: usize"),
    ("Complex", "Complex<T>", ""), ("Quaternion", "Quaternion<T>", ""), ("Moebius", "Moebius<T>", ""), ("Shift", "Shift<T, 3>", ""), ("Scale", "Scale<T>", ""),
    ("Linear", "Linear<T, 3>", ""), ("Rotation2", "Rotation2<T>", ""), ("Rotation3", "Rotation3<T>", ""), ("Affine", "Affine<T, 3>", ""),
    ("ChainOuter", "Chain<T, u8, u8>", ""), ("ChainInner", "Chain<u8, T, u8>", ""),
]
MARK = [("send", "Send"), ("sync", "Sync"), ("copy", "Copy"), ("clone", "Clone"), ("unpin", "Unpin"), ("stat", "'static"), ("eq", "PartialEq")]


def W():
    ws = []

    def w(name, ok, bad, codes):
        ws.append((name, ok, bad, set(codes.split())))

    # --- 1. markers follow the element
    for n, t, g in TYPES:
        for f, b in MARK:
            if b == "Copy":
                ok = "fn f<T: Copy%s>() { copy::<%s>() }" % (g, t)
                bad = "fn f<T: Clone%s>() { copy::<%s>() }" % (g, t)
            else:
                ok = "fn f<T: %s%s>() { %s::<%s>() }" % (b, g, f, t)
                bad = "fn f<T%s>() { %s::<%s>() }" % (g, f, t)
            w("marker %s %s" % (f, n), ok, bad, "E0277 E0310")
        w("interior %s" % n, "fn f() { sync::<%s>() }" % re.sub(r"\bT\b", "u8", t).replace("N>", "4>").replace("M,", "2,"),
          "fn f() { sync::<%s>() }" % re.sub(r"\bT\b", "core::cell::Cell<u8>", t).replace("N>", "4>").replace("M,", "2,"), "E0277")
        w("covariant %s" % n, "fn f<'a, 'b: 'a%s>(x: %s) -> %s { x }" % (g, re.sub(r"\bT\b", "&'b u8", t), re.sub(r"\bT\b", "&'a u8", t)),
          "fn f<'a, 'b: 'a%s>(x: %s) -> %s { x }" % (g, re.sub(r"\bT\b", "&'a u8", t), re.sub(r"\bT\b", "&'b u8", t)), "lifetime E0308 E0623 E0621")
    for n, t in (("GroupIter", "GroupIter<I, 2>"), ("FlatIter", "FlatIter<I, [u8; 2], core::array::IntoIter<u8, 2>>")):
        it = "I: Iterator<Item = [u8; 2]>" if n == "FlatIter" else "I: Iterator"
        w("marker send %s" % n, "fn f<%s + Send>() { send::<%s>() }" % (it, t), "fn f<%s>() { send::<%s>() }" % (it, t), "E0277")
        w("marker sync %s" % n, "fn f<%s + Sync>() { sync::<%s>() }" % (it, t), "fn f<%s>() { sync::<%s>() }" % (it, t), "E0277")
    for n, t in (("Vector", "Vector<T, 3>"), ("Matrix", "Matrix<T, 2, 3>"), ("Complex", "Complex<T>"), ("Quaternion", "Quaternion<T>")):
        w("marker default %s" % n, "fn f<T: Default>() { dft::<%s>() }" % t, "fn f<T>() { dft::<%s>() }" % t, "E0277")
    # the storage types have no drop of their own: parts move out, values may be constants
    for n, t in (("Vector", "Vector<T, 3>"), ("Matrix", "Matrix<T, 2, 3>"), ("Complex", "Complex<T>"), ("Quaternion", "Quaternion<T>"), ("Moebius", "Moebius<T>"),
                 ("Shift", "Shift<T, 3>"), ("Linear", "Linear<T, 3>"), ("Rotation2", "Rotation2<T>"), ("Rotation3", "Rotation3<T>")):
        tc = re.sub(r"\bT\b", "u8", t)
        td = re.sub(r"\bT\b", "std::string::String", t)
        w("needs-drop %s" % n, "const _: () = assert!(!core::mem::needs_drop::<%s>() && core::mem::needs_drop::<%s>());" % (tc, td),
          "const _: () = assert!(core::mem::needs_drop::<%s>());" % tc, "E0080")
    # --- 2. size: no hidden fields
    for n, t, k in (("Vector", "Vector<u16, 5>", 10), ("Matrix", "Matrix<u16, 2, 3>", 12), ("Complex", "Complex<u32>", 8), ("Quaternion", "Quaternion<u32>", 16),
                    ("Shift", "Shift<u16, 3>", 6), ("Scale", "Scale<u64>", 8), ("Linear", "Linear<u8, 3>", 9),
                    ("VectorZero", "Vector<u64, 0>", 0), ("MatrixZero", "Matrix<u64, 0, 3>", 0)):
        w("size %s" % n, "const _: () = assert!(core::mem::size_of::<%s>() == %d);" % (t, k), "const _: () = assert!(core::mem::size_of::<%s>() == %d);" % (t, k + 1), "E0080")
    # --- 3. borrows: what an accessor returns stays tied to its source
    acc = []  # owner type, shared expression, mutable expression (or None)
    V, M = "Vector<T, 3>", "Matrix<T, 2, 3>"
    acc += [(V, "v.iter()", "v.iter_mut()"), (V, "v.as_array()", "v.as_mut_array()"), (V, "&v[0]", "&mut v[0]"), (V, "<&Vector<T, 3>>::into_iter(&v)", "<&mut Vector<T, 3>>::into_iter(&mut v)"),
            (V, "AsRef::<[T; 3]>::as_ref(&v)", "AsMut::<[T; 3]>::as_mut(&mut v)"), (V, "<&[T; 3]>::from(&v)", "<&mut [T; 3]>::from(&mut v)")]
    for n, cs in ((2, "xy"), (3, "xyz"), (4, "xyzw")):
        acc += [("Vector<T, %d>" % n, "v.%s_ref()" % c, "v.%s_mut()" % c) for c in cs]
    acc += [(M, "v.iter()", "v.iter_mut()"), (M, "&v[(0, 1)]", "&mut v[(0, 1)]"), (M, "v.row_ref(1)", "v.row_mut(1)"),
            (M, "<&Matrix<T, 2, 3>>::into_iter(&v)", "<&mut Matrix<T, 2, 3>>::into_iter(&mut v)"),
            (M, "AsRef::<Vector<Vector<T, 3>, 2>>::as_ref(&v)", "AsMut::<Vector<Vector<T, 3>, 2>>::as_mut(&mut v)"),
            (M, "v.as_vector_of_vectors()", "v.as_mut_vector_of_vectors()"), (M, "v.as_array_of_vectors()", "v.as_mut_array_of_vectors()"), (M, "v.as_array_of_arrays()", "v.as_mut_array_of_arrays()"),
            (M, "<&Vector<Vector<T, 3>, 2>>::from(&v)", "<&mut Vector<Vector<T, 3>, 2>>::from(&mut v)"), (M, "<&[[T; 3]; 2]>::from(&v)", "<&mut [[T; 3]; 2]>::from(&mut v)")]
    acc += [("Complex<T>", "v.%s_ref()" % c, "v.%s_mut()" % c) for c in ("re", "im")]
    acc += [("Quaternion<T>", "v.%s_ref()" % c, "v.%s_mut()" % c) for c in "wxyz"]
    acc += [("Moebius<T>", "v.%s_ref()" % c, "v.%s_mut()" % c) for c in "abcd"]
    acc += [("Moebius<T>", "<&Matrix<T, 2, 2>>::from(&v)", "<&mut Matrix<T, 2, 2>>::from(&mut v)"), ("Moebius<T>", "<&[[T; 2]; 2]>::from(&v)", "<&mut [[T; 2]; 2]>::from(&mut v)"),
            ("Moebius<T>", "v.as_matrix()", "v.as_mut_matrix()"), ("Moebius<T>", "v.as_array_of_arrays()", "v.as_mut_array_of_arrays()")]
    acc += [("Chain<T, u8, u8>", "v.outer()", "v.outer_mut()"), ("Chain<u8, T, u8>", "v.inner()", "v.inner_mut()")]
    for t, s, m in acc:
        k = "%s %s" % (t.split("<")[0], s)
        w("borrow-outlives " + k, "fn f<T>(v: %s) { let r = %s; use_(r); drop(v); }" % (t, s), "fn f<T>(v: %s) { let r = %s; drop(v); use_(r); }" % (t, s), "E0505")
        w("borrow-frozen " + k, "fn f<T>(mut v: %s, w: %s) { let r = %s; use_(r); v = w; }" % (t, t, s), "fn f<T>(mut v: %s, w: %s) { let r = %s; v = w; use_(r); }" % (t, t, s), "E0506")
        w("borrow-escape " + k, "fn f<T: 'static>(v: %s) { let r = %s; use_(r); }" % (t, s), "fn st<X: 'static>(x: X) {} fn f<T: 'static>(v: %s) { let r = %s; st(r); }" % (t, s), "E0597")
        w("borrow-exclusive " + k, "fn f<T>(mut v: %s) { let r = %s; use_(r); let q = %s; use_(q); }" % (t, m, s), "fn f<T>(mut v: %s) { let r = %s; let q = %s; use_(q); use_(r); }" % (t, m, s), "E0502")
        w("borrow-single " + k, "fn f<T>(mut v: %s) { let r = %s; use_(r); let q = %s; use_(q); }" % (t, m, m), "fn f<T>(mut v: %s) { let r = %s; let q = %s; use_(q); use_(r); }" % (t, m, m), "E0499")
        w("borrow-needs-mut " + k, "fn f<T>(mut v: %s) { use_(%s); }" % (t, m), "fn f<T>(v: %s) { use_(%s); }" % (t, m), "E0596")
        w("borrow-shared-twice " + k, "fn f<T>(v: %s) { let r = %s; let q = %s; use_(q); use_(r); }" % (t, s, s), None, "")
    w("read-only index", "fn f<T>(v: &mut Vector<T, 3>, x: T) { v[0] = x; }", "fn f<T>(v: &Vector<T, 3>, x: T) { v[0] = x; }", "E0594 E0596")
    w("read-only matrix index", "fn f<T>(v: &mut Matrix<T, 2, 3>, x: T) { v[(0, 1)] = x; }", "fn f<T>(v: &Matrix<T, 2, 3>, x: T) { v[(0, 1)] = x; }", "E0594 E0596")
    # --- 4. by-value operations take what they use (no element type is copied behind the caller's back)
    for t, e in ((V, "v.map(|x| x)"), (V, "v.into_array()"), (V, "v.zip(v2)"), (V, "v.for_each(|x| {})"), (V, "v.into_iter()"), (V, "v.fold((), |s, x| {})"), (V, "v.enumerate()"),
                 (V, "v.scan((), |s, x| x)"), (V, "v.into_tuple()"), (M, "v.map(|x| x)"), (M, "v.zip(v2)"), (M, "v.into_iter()"), (M, "v.transpose()"), (M, "v.for_each(|x| {})"),
                 (M, "v.fold((), |s, x| {})"), ("Complex<T>", "v.into_array()"), ("Quaternion<T>", "v.into_array()"), ("Chain<T, u8, u8>", "v.split()"), ("Moebius<T>", "v.into_array()"),
                 ("Linear<T, 2>", "v.into_matrix()"), ("Shift<T, 2>", "v.into_vector()"), ("Scale<T>", "v.into_mag()"), ("Rotation2<T>", "v.into_complex()"), ("Rotation3<T>", "v.into_quaternion()")):
        w("moves %s %s" % (t.split("<")[0], e), "fn f<T>(v: %s, v2: %s) { %s; }" % (t, t, e), "fn f<T>(v: %s, v2: %s) { %s; drop(v); }" % (t, t, e), "E0382")
    # --- 5. shapes
    sh = [
        ("vector dimensions", "fn f(a: Vector<f64, 2>, b: Vector<f64, 2>) { use_(a %s b); }", "fn f(a: Vector<f64, 2>, b: Vector<f64, 3>) { use_(a %s b); }", "+ - * / %", "E0308 E0277"),
        ("matrix dimensions", "fn f(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 3>) { use_(a %s b); }", "fn f(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 2>) { use_(a %s b); }", "+ - * / %", "E0308 E0277"),
        ("vector assign", "fn f(mut a: Vector<f64, 2>, b: Vector<f64, 2>) { a %s b; }", "fn f(mut a: Vector<f64, 2>, b: Vector<f64, 3>) { a %s b; }", "+= -= *= /= %=", "E0308 E0277"),
        ("matrix assign", "fn f(mut a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 3>) { a %s b; }", "fn f(mut a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 2>) { a %s b; }", "+= -= *= /= %=", "E0308 E0277"),
        ("bit dimensions", "fn f(a: Vector<u8, 2>, b: Vector<u8, 2>) { use_(a %s b); }", "fn f(a: Vector<u8, 2>, b: Vector<u8, 3>) { use_(a %s b); }", "& | ^", "E0308 E0277"),
    ]
    for n, ok, bad, ops, codes in sh:
        for o in ops.split():
            w("%s %s" % (n, o), ok.replace("%s", o), bad.replace("%s", o), codes)
    F = "fn f(v2: Vector<f64, 2>, v3: Vector<f64, 3>, v4: Vector<f64, 4>, m22: Matrix<f64, 2, 2>, m23: Matrix<f64, 2, 3>, m32: Matrix<f64, 3, 2>, m33: Matrix<f64, 3, 3>, " \
        "c: Complex<f64>, q: Quaternion<f64>) { %s }"

    def s(name, ok, bad, codes):
        w(name, F % ok, F % bad, codes)
    s("dot vectors", "let r: f64 = v3.dot(v3);", "let r = v3.dot(v2);", "E0308 E0277")
    s("dot matrix vector", "let r: Vector<f64, 2> = m23.dot(v3);", "let r = m23.dot(v2);", "E0308 E0277")
    s("dot matrix vector result", "let r: Vector<f64, 2> = m23.dot(v3);", "let r: Vector<f64, 3> = m23.dot(v3);", "E0308 E0277 E0271")
    s("dot vector matrix", "let r: Vector<f64, 3> = v2.dot(m23);", "let r = v3.dot(m23);", "E0308 E0277")
    s("dot vector matrix result", "let r: Vector<f64, 3> = v2.dot(m23);", "let r: Vector<f64, 2> = v2.dot(m23);", "E0308 E0277 E0271")
    s("dot matrices", "let r: Matrix<f64, 2, 2> = m23.dot(m32);", "let r = m23.dot(m23);", "E0308 E0277")
    s("dot matrices result", "let r: Matrix<f64, 3, 3> = m32.dot(m23);", "let r: Matrix<f64, 2, 2> = m32.dot(m23);", "E0308 E0277 E0271")
    s("outer result", "let r: Matrix<f64, 2, 3> = v2.outer(v3);", "let r: Matrix<f64, 3, 2> = v2.outer(v3);", "E0308 E0277 E0271")
    s("cross dimensions", "let r = v3.cross(v3);", "let r = v3.cross(v2);", "E0308")
    s("cross in the plane is a number", "let r: f64 = v2.cross(v2);", "let r: Vector<f64, 2> = v2.cross(v2);", "E0308")
    s("transpose result", "let r: Matrix<f64, 3, 2> = m23.transpose();", "let r: Matrix<f64, 2, 3> = m23.transpose();", "E0308")
    s("determinant is for square matrices", "let r: f64 = m33.det();", "let r: f64 = m23.det();", "E0599")
    s("inverse is for square matrices", "let r = m33.inv();", "let r = m23.inv();", "E0599 E0277")
    s("adjugate is for square matrices", "let r = m33.adj();", "let r = m23.adj();", "E0599")
    s("cofactor is for square matrices", "let r = m33.cofactor(0, 0);", "let r = m23.cofactor(0, 0);", "E0599")
    s("unit is for square matrices", "let r = <Matrix<f64, 2, 2> as One>::one();", "let r = <Matrix<f64, 2, 3> as One>::one();", "E0277 E0308")
    s("z needs three", "let r = v3.z();", "let r = v2.z();", "E0599")
    s("w needs four", "let r = v4.w();", "let r = v3.w();", "E0599")
    s("z_mut needs three", "let mut a = v3; let r = a.z_mut();", "let mut a = v2; let r = a.z_mut();", "E0599")
    s("row length", "let r: Vector<f64, 3> = m23.row(0);", "let r: Vector<f64, 2> = m23.row(0);", "E0308")
    s("column length", "let r: Vector<f64, 2> = m23.col(0);", "let r: Vector<f64, 3> = m23.col(0);", "E0308")
    s("array length", "let r = Vector::<f64, 3>::from([1.0, 2.0, 3.0]);", "let r = Vector::<f64, 3>::from([1.0, 2.0]);", "E0277 E0308")
    s("nested array shape", "let r = Matrix::<f64, 2, 3>::from([[1.0; 3]; 2]);", "let r = Matrix::<f64, 2, 3>::from([[1.0; 2]; 3]);", "E0277 E0308")
    s("tuple arity", "let r = Vector::<f64, 3>::from((1.0, 2.0, 3.0));", "let r = Vector::<f64, 3>::from((1.0, 2.0));", "E0277 E0308")
    s("tuple arity out", "let r: (f64, f64) = v2.into();", "let r: (f64, f64) = v3.into();", "E0277")
    s("zip dimensions", "let r = v3.zip(v3);", "let r = v3.zip(v2);", "E0308")
    s("matrix zip dimensions", "let r = m23.zip(m23);", "let r = m23.zip(m32);", "E0308")
    s("map keeps dimensions", "let r: Vector<u8, 3> = v3.map(|x| 0u8);", "let r: Vector<u8, 2> = v3.map(|x| 0u8);", "E0308")
    s("comparison dimensions", "let r: Vector<bool, 3> = v3.veq(v3);", "let r = v3.veq(v2);", "E0308")
    s("equality dimensions", "let r = v3 == v3;", "let r = v3 == v2;", "E0308 E0277")
    s("shift dimensions", "let r = Shift::from(v3).apply(v3);", "let r = Shift::from(v3).apply(v2);", "E0308 E0277")
    s("linear dimensions", "let r = Linear::from(m33).apply(v3);", "let r = Linear::from(m33).apply(v2);", "E0308 E0277")
    s("linear is square", "let r = Linear::from(m33);", "let r = Linear::from(m23);", "E0277 E0308")
    s("rotation of the plane", "let r = Rotation2::new(1.0).apply(v2);", "let r = Rotation2::new(1.0).apply(v3);", "E0308 E0277")
    s("rotation of space", "let r = Rotation3::new(v3, 1.0).apply(v3);", "let r = Rotation3::new(v3, 1.0).apply(v2);", "E0308 E0277")
    s("chain dimensions", "let r = Shift::from(v3).chain(Shift::from(v3));", "let r = Shift::from(v3).chain(Shift::from(v2));", "E0308")
    s("chain kinds", "let r = Shift::from(v3).chain(Shift::from(v3));", "let r = Shift::from(v3).chain(Linear::from(m33));", "E0308")
    s("affine dimensions", "let r = Affine::<f64, 3>::new(Shift::from(v3), Linear::from(m33)).apply(v3);", "let r = Affine::<f64, 3>::new(Shift::from(v2), Linear::from(m33));", "E0308")
    s("affine order", "let r = Affine::<f64, 3>::new(Shift::from(v3), Linear::from(m33));", "let r = Affine::<f64, 3>::new(Linear::from(m33), Shift::from(v3));", "E0308")
    s("complex is not a vector", "let r = c + c;", "let r = c + v2;", "E0277 E0308")
    s("quaternion is not a vector", "let r = q + q;", "let r = q + v4;", "E0277 E0308")
    # --- 6. unsafe stays unsafe, invariants stay private
    s("unchecked access is unsafe", "let r = unsafe { *v3.get_unchecked(1) };", "let r = *v3.get_unchecked(1);", "E0133")
    s("unchecked access is unsafe (mut)", "let mut v = v3; let r = unsafe { *v.get_unchecked_mut(1) };", "let mut v = v3; let r = *v.get_unchecked_mut(1);", "E0133")
    s("unchecked matrix access is unsafe", "let r = unsafe { *m23.get_unchecked(1, 1) };", "let r = *m23.get_unchecked(1, 1);", "E0133")
    s("unchecked matrix access is unsafe (mut)", "let mut m = m23; let r = unsafe { *m.get_unchecked_mut(1, 1) };", "let mut m = m23; let r = *m.get_unchecked_mut(1, 1);", "E0133")
    s("assuming initialised is unsafe", "let r: Vector<u8, 3> = unsafe { Vector::<u8, 3>::uninit().assume_init() };", "let r: Vector<u8, 3> = Vector::<u8, 3>::uninit().assume_init();", "E0133")
    s("assuming initialised is unsafe (matrix)", "let r: Matrix<u8, 2, 3> = unsafe { Matrix::<u8, 2, 3>::uninit().assume_init() };",
      "let r: Matrix<u8, 2, 3> = Matrix::<u8, 2, 3>::uninit().assume_init();", "E0133")
    s("uninitialised storage is typed", "let r: Vector<MaybeUninit<u8>, 3> = Vector::<u8, 3>::uninit();", "let r: Vector<u8, 3> = Vector::<u8, 3>::uninit();", "E0308")
    s("uninitialised storage is typed (matrix)", "let r: Matrix<MaybeUninit<u8>, 2, 3> = Matrix::<u8, 2, 3>::uninit();", "let r: Matrix<u8, 2, 3> = Matrix::<u8, 2, 3>::uninit();", "E0308")
    # --- 7. a failed conversion has to be looked at
    s("collecting may fail", "let r: Option<Vector<u8, 3>> = Vector::<u8, 3>::try_from_iter([1u8].into_iter());", "let r: Vector<u8, 3> = Vector::<u8, 3>::try_from_iter([1u8].into_iter());", "E0308")
    s("slices may not fit", "let r: Result<Vector<u8, 3>, ()> = Vector::<u8, 3>::try_from(&[1u8][..]);", "let r: Vector<u8, 3> = Vector::<u8, 3>::from(&[1u8][..]);", "E0277 E0308")
    s("matrix collecting may fail", "let r: Option<Matrix<u8, 2, 3>> = Matrix::<u8, 2, 3>::try_from_iter([1u8].into_iter());",
      "let r: Matrix<u8, 2, 3> = Matrix::<u8, 2, 3>::try_from_iter([1u8].into_iter());", "E0308")
    # --- 8. no more is demanded of the element than the operation needs
    for n, src in (
        ("vector of anything", "fn f<T, const N: usize>(a: [T; N]) -> [T; N] { let v = Vector::from(a); let mut v: Vector<T, N> = v.into_iter().collect_(); for x in v.iter() {} for x in v.iter_mut() {} "
         "for x in &v {} for x in &mut v {} let (a, b) = v.map(|x| (x, ())).unzip(); let v: Vector<(T, ()), N> = a.zip(b); let v = v.map(|x| x.0).enumerate().map(|(i, x)| x); v.into_array() } "
         "trait C<T, const N: usize> { fn collect_(self) -> Vector<T, N>; } impl<I: Iterator, const N: usize> C<I::Item, N> for I { fn collect_(self) -> Vector<I::Item, N> { Vector::try_from_iter(self).unwrap() } }"),
        ("matrix of anything", "fn f<T, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; M]; N] { let mut v = Matrix::from(a); for x in v.iter() {} for x in v.iter_mut() {} for x in &v {} for x in &mut v {} "
         "let (a, b) = v.map(|x| (x, ())).unzip(); let v = a.zip(b).map(|x: (T, ())| x.0); v.transpose().into() }"),
        ("components of anything", "fn f<T>(mut v: Vector<T, 4>, mut c: Complex<T>, mut q: Quaternion<T>, mut m: Moebius<T>) { use_(v.w_ref()); use_(v.w_mut()); use_(c.re_mut()); use_(q.z_mut()); use_(m.d_mut()); }"),
        ("sums of distinct types", "struct A; struct B; struct R; impl Add<B> for A { type Output = R; fn add(self, o: B) -> R { R } } fn f(a: A, b: B) { use_(a + b); }"),
        ("additive elements", "fn f<T: Add<Output = T>, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> { a + b }"),
        ("elements that assign", "fn f<T: AddAssign, const N: usize>(mut a: Vector<T, N>, b: Vector<T, N>) { a += b; }"),
        ("scalar scaling", "fn f<T: Mul<Output = T> + Copy, const N: usize>(a: Vector<T, N>, b: T) -> Vector<T, N> { a * b }"),
        ("comparison by reference", "fn f<T: PartialEq, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> bool { a == b }"),
        ("negation", "fn f<T: Neg<Output = T>, const N: usize>(a: Vector<T, N>) -> Vector<T, N> { -a }"),
        ("not", "fn f<T: Not<Output = T>, const N: usize>(a: Vector<T, N>) -> Vector<T, N> { !a }"),
        ("chain of anything", "fn f<A, B, T>(a: A, b: B) -> (A, B) { Chain::<A, B, T>::new(a, b).split() }"),
        ("group of anything", "fn f<I: Iterator>(i: I) -> Option<Vector<I::Item, 2>> { GroupIter::<I, 2>::new(i).next() }"),
        ("callbacks may mutate their environment", "fn f<T>(v: Vector<T, 3>, m: Matrix<T, 2, 2>) { let mut k = 0; let v = v.map(|x| { k += 1; x }); v.for_each(|x| { k += 1; }); m.for_each(|x| { k += 1; }); }"),
        ("callbacks may borrow", "fn f<'a, T>(v: &'a Vector<T, 3>) -> Vector<&'a T, 3> { Vector::try_from_iter(v.iter()).unwrap() }"),
        ("collecting from a borrowed iterator", "fn f<T>(mut i: impl Iterator<Item = T>) { let v = Vector::<T, 2>::try_from_iter(&mut i); let w = Vector::<T, 2>::try_from_iter(&mut i); }"),
    ):
        w("accepts " + n, src, None, "")
    return ws


def vecmat_rlib():
    """type-checks vecmat and its dependencies; returns (directory of the metadata, metadata of vecmat, directory to remove)"""
    pd = build.probe_dir("witness", empty=True)
    tdir = os.path.join(build.BUILD, "witness-%d" % os.getpid())
    shutil.rmtree(tdir, ignore_errors=True)
    try:
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", tdir], cwd=pd, env=build.env0(), capture_output=True, text=True)
    finally:
        shutil.rmtree(pd, ignore_errors=True)
    if r.returncode:
        shutil.rmtree(tdir, ignore_errors=True)
        raise build.BuildError(r.stderr[-3000:])
    # the layout of the target directory is cargo's business: gather the metadata in one place
    deps = os.path.join(tdir, "meta")
    os.makedirs(deps)
    for p in glob.glob(tdir + "/**/*.rmeta", recursive=True) + glob.glob(tdir + "/**/*.so", recursive=True):
        if not p.startswith(deps):
            shutil.copy(p, deps)
    m = glob.glob(deps + "/libvecmat-*.rmeta")
    return deps, m[0], tdir


def rustc(src, name, deps, meta, out):
    p = os.path.join(out, name + ".rs")
    with open(p, "w") as f:
        f.write(src)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "-o", os.path.join(out, name + ".rmeta"), "-L", "dependency=" + deps,
                        "--extern", "vecmat=" + meta, "--error-format=short", "-A", "warnings", p], env=build.env0(), capture_output=True, text=True)
    os.unlink(p)
    errs = re.findall(r"error(?:\[(E\d+)\])?: (.*)", r.stderr)
    codes = {c if c else ("lifetime" if "lifetime" in m else "other") for c, m in errs if not m.startswith("aborting")}
    return r.returncode == 0, codes, "; ".join(m for c, m in errs)[:400]


def witnesses(tier, seed, only):
    from .features import result
    ws = W()
    if only:
        ws = [x for x in ws if only in x[0]]
    res = []
    try:
        deps, meta, tdir = vecmat_rlib()
    except build.BuildError as e:
        raise RuntimeError("vecmat does not build: %s" % e)
    out = os.path.join(tdir, "w")
    os.makedirs(out)

    def one(k):
        name, ok, bad, codes = ws[k]
        r = []
        t0 = time.time()
        a, c, m = rustc(PRE + ok, "a%d" % k, deps, meta, out)
        if a:
            r.append(result("accepts[%s]" % name, "proved", "", t=time.time() - t0))
        else:
            r.append(result("accepts[%s]" % name, "violated", "the interface rejects a program it has to accept: `%s`: %s" % (ok, m)))
        if bad is not None:
            b, c, m = rustc(PRE + bad, "b%d" % k, deps, meta, out)
            if b:
                r.append(result("rejects[%s]" % name, "violated", "the interface accepts a program it has to reject: `%s` (expected %s)" % (bad, ", ".join(sorted(codes)))))
            elif c & codes:
                r.append(result("rejects[%s]" % name, "proved", ""))
            else:
                r.append(result("rejects[%s]" % name, "undecided", "rejected for another reason (%s): %s" % (sorted(c), m)))
        for x in r:
            x["name"] = name
        return r
    try:
        with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
            for r in ex.map(one, range(len(ws))):
                res += r
    finally:
        shutil.rmtree(tdir, ignore_errors=True)
    return res
