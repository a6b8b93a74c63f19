//! Textual form.
#![allow(non_snake_case)]
mod spec;

pub mod free {
    use core::fmt::{Debug, Display, Formatter, Result};
    use vecmat::complex::{Complex, Moebius, Quaternion};
    use vecmat::{Matrix, Vector};
    pub fn vdisp__l<T: Display, const N: usize>(a: &Vector<T, N>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn vdisp__r<T: Display, const N: usize>(a: &[T; N], f: &mut Formatter<'_>) -> Result {
        f.write_str("Vector")?;
        write!(f, "{}", N)?;
        f.write_str("(")?;
        for k in 0..N {
            if k > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{}", a[k])?;
        }
        f.write_str(")")
    }
    pub fn vdbg__l<T: Debug, const N: usize>(a: &Vector<T, N>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn vdbg__r<T: Debug, const N: usize>(a: &[T; N], f: &mut Formatter<'_>) -> Result {
        f.write_str("Vector")?;
        write!(f, "{}", N)?;
        f.write_str("(")?;
        for k in 0..N {
            if k > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{:?}", a[k])?;
        }
        f.write_str(")")
    }
    pub fn mdisp__l<T: Display, const M: usize, const N: usize>(a: &Matrix<T, M, N>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn mdisp__r<T: Display, const M: usize, const N: usize>(a: &[[T; N]; M], f: &mut Formatter<'_>) -> Result {
        write!(f, "\nMatrix{}x{}(\n", M, N)?;
        for i in 0..M {
            f.write_str("  ")?;
            for j in 0..N {
                write!(f, "{}", a[i][j])?;
                f.write_str(", ")?;
            }
            f.write_str("\n")?;
        }
        f.write_str(")\n")
    }
    pub fn mdbg__l<T: Debug, const M: usize, const N: usize>(a: &Matrix<T, M, N>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn mdbg__r<T: Debug, const M: usize, const N: usize>(a: &[[T; N]; M], f: &mut Formatter<'_>) -> Result {
        write!(f, "\nMatrix{}x{}(\n", M, N)?;
        for i in 0..M {
            f.write_str("  ")?;
            for j in 0..N {
                write!(f, "{:?}", a[i][j])?;
                f.write_str(", ")?;
            }
            f.write_str("\n")?;
        }
        f.write_str(")\n")
    }
    pub fn cdisp__l<T: Display>(a: &Complex<T>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn cdisp__r<T: Display>(a: &[T; 2], f: &mut Formatter<'_>) -> Result {
        f.write_str("Complex(")?;
        write!(f, "{}", a[0])?;
        f.write_str(", ")?;
        write!(f, "{}", a[1])?;
        f.write_str(")")
    }
    pub fn cdbg__l<T: Debug>(a: &Complex<T>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn cdbg__r<T: Debug>(a: &[T; 2], f: &mut Formatter<'_>) -> Result {
        f.write_str("Complex(")?;
        write!(f, "{:?}", a[0])?;
        f.write_str(", ")?;
        write!(f, "{:?}", a[1])?;
        f.write_str(")")
    }
    pub fn qdisp__l<T: Display>(a: &Quaternion<T>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn qdisp__r<T: Display>(a: &[T; 4], f: &mut Formatter<'_>) -> Result {
        f.write_str("Quaternion(")?;
        write!(f, "{}", a[0])?;
        for k in 1..4 {
            f.write_str(", ")?;
            write!(f, "{}", a[k])?;
        }
        f.write_str(")")
    }
    pub fn qdbg__l<T: Debug>(a: &Quaternion<T>, f: &mut Formatter<'_>) -> Result {
        a.fmt(f)
    }
    pub fn qdbg__r<T: Debug>(a: &[T; 4], f: &mut Formatter<'_>) -> Result {
        f.write_str("Quaternion(")?;
        write!(f, "{:?}", a[0])?;
        for k in 1..4 {
            f.write_str(", ")?;
            write!(f, "{:?}", a[k])?;
        }
        f.write_str(")")
    }
}
