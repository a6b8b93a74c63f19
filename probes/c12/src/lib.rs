//! Float functions lifted to vectors and matrices, with broadcasting of the other operands.
#![allow(non_snake_case, deprecated)]
mod spec;

macro_rules! un {
    ($f:ident $l:ident $r:ident $ml:ident $mr:ident) => {
        pub fn $l<T: Float, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
            a.$f()
        }
        pub fn $r<T: Float, const N: usize>(a: [T; N]) -> [T; N] {
            map1(a, |x| x.$f())
        }
        pub fn $ml<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f()
        }
        pub fn $mr<T: Float, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
            mmap1(a, |x| x.$f())
        }
    };
}
macro_rules! bi {
    ($f:ident $g:ident $vvl:ident $vvr:ident $vsl:ident $vsr:ident $mml:ident $mmr:ident $mvl:ident $mvr:ident $msl:ident $msr:ident) => {
        pub fn $vvl<T: Float, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> {
            a.$f(b)
        }
        pub fn $vvr<T: Float, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
            map2(a, b, |x, y| x.$g(y))
        }
        pub fn $vsl<T: Float, const N: usize>(a: Vector<T, N>, b: T) -> Vector<T, N> {
            a.$f(b)
        }
        pub fn $vsr<T: Float, const N: usize>(a: [T; N], b: T) -> [T; N] {
            map1(a, |x| x.$g(b))
        }
        pub fn $mml<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $mmr<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: [[T; N]; M]) -> [[T; N]; M] {
            mmap2(a, b, |x, y| x.$g(y))
        }
        pub fn $mvl<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Vector<T, N>) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $mvr<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: [T; N]) -> [[T; N]; M] {
            map1(a, |r| map2(r, b, |x, y| x.$g(y)))
        }
        pub fn $msl<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: T) -> Matrix<T, M, N> {
            a.$f(b)
        }
        pub fn $msr<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: T) -> [[T; N]; M] {
            mmap1(a, |x| x.$g(b))
        }
    };
}
pub mod free {
    use crate::spec::*;
    use num_traits::Float;
    use vecmat::*;

    un!(abs vabs__l vabs__r mabs__l mabs__r);
    un!(signum vsignum__l vsignum__r msignum__l msignum__r);
    un!(cbrt vcbrt__l vcbrt__r mcbrt__l mcbrt__r);
    un!(sqrt vsqrt__l vsqrt__r msqrt__l msqrt__r);
    un!(acos vacos__l vacos__r macos__l macos__r);
    un!(asin vasin__l vasin__r masin__l masin__r);
    un!(atan vatan__l vatan__r matan__l matan__r);
    un!(cosh vcosh__l vcosh__r mcosh__l mcosh__r);
    un!(sinh vsinh__l vsinh__r msinh__l msinh__r);
    un!(tan vtan__l vtan__r mtan__l mtan__r);
    un!(tanh vtanh__l vtanh__r mtanh__l mtanh__r);
    un!(log2 vlog2__l vlog2__r mlog2__l mlog2__r);
    un!(exp vexp__l vexp__r mexp__l mexp__r);
    un!(ln vln__l vln__r mln__l mln__r);
    un!(sin vsin__l vsin__r msin__l msin__r);
    un!(cos vcos__l vcos__r mcos__l mcos__r);
    un!(asinh vasinh__l vasinh__r masinh__l masinh__r);
    un!(acosh vacosh__l vacosh__r macosh__l macosh__r);
    un!(atanh vatanh__l vatanh__r matanh__l matanh__r);
    un!(floor vfloor__l vfloor__r mfloor__l mfloor__r);
    un!(ceil vceil__l vceil__r mceil__l mceil__r);
    un!(round vround__l vround__r mround__l mround__r);
    un!(trunc vtrunc__l vtrunc__r mtrunc__l mtrunc__r);
    un!(fract vfract__l vfract__r mfract__l mfract__r);
    un!(recip vrecip__l vrecip__r mrecip__l mrecip__r);
    un!(exp2 vexp2__l vexp2__r mexp2__l mexp2__r);
    un!(log10 vlog10__l vlog10__r mlog10__l mlog10__r);
    un!(exp_m1 vexp_m1__l vexp_m1__r mexp_m1__l mexp_m1__r);
    un!(ln_1p vln_1p__l vln_1p__r mln_1p__l mln_1p__r);
    bi!(abs_sub abs_sub vv_abs_sub__l vv_abs_sub__r vs_abs_sub__l vs_abs_sub__r mm_abs_sub__l mm_abs_sub__r mv_abs_sub__l mv_abs_sub__r ms_abs_sub__l ms_abs_sub__r);
    bi!(vmin min vv_min__l vv_min__r vs_min__l vs_min__r mm_min__l mm_min__r mv_min__l mv_min__r ms_min__l ms_min__r);
    bi!(vmax max vv_max__l vv_max__r vs_max__l vs_max__r mm_max__l mm_max__r mv_max__l mv_max__r ms_max__l ms_max__r);
    bi!(atan2 atan2 vv_atan2__l vv_atan2__r vs_atan2__l vs_atan2__r mm_atan2__l mm_atan2__r mv_atan2__l mv_atan2__r ms_atan2__l ms_atan2__r);
    bi!(hypot hypot vv_hypot__l vv_hypot__r vs_hypot__l vs_hypot__r mm_hypot__l mm_hypot__r mv_hypot__l mv_hypot__r ms_hypot__l ms_hypot__r);
    bi!(powf powf vv_powf__l vv_powf__r vs_powf__l vs_powf__r mm_powf__l mm_powf__r mv_powf__l mv_powf__r ms_powf__l ms_powf__r);
    bi!(log log vv_log__l vv_log__r vs_log__l vs_log__r mm_log__l mm_log__r mv_log__l mv_log__r ms_log__l ms_log__r);

    pub fn vsincos__l<T: Float, const N: usize>(a: Vector<T, N>) -> (Vector<T, N>, Vector<T, N>) {
        a.sin_cos()
    }
    pub fn vsincos__r<T: Float, const N: usize>(a: [T; N]) -> ([T; N], [T; N]) {
        (map1(a, |x| x.sin_cos().0), map1(a, |x| x.sin_cos().1))
    }
    pub fn msincos__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> (Matrix<T, M, N>, Matrix<T, M, N>) {
        a.sin_cos()
    }
    pub fn msincos__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M]) -> ([[T; N]; M], [[T; N]; M]) {
        (mmap1(a, |x| x.sin_cos().0), mmap1(a, |x| x.sin_cos().1))
    }
    // integer powers, exponent per component, per row, scalar
    pub fn vv_powi__l<T: Float, const N: usize>(a: Vector<T, N>, b: Vector<i32, N>) -> Vector<T, N> {
        a.powi(b)
    }
    pub fn vv_powi__r<T: Float, const N: usize>(a: [T; N], b: [i32; N]) -> [T; N] {
        map2(a, b, |x, y| x.powi(y))
    }
    pub fn vs_powi__l<T: Float, const N: usize>(a: Vector<T, N>, b: i32) -> Vector<T, N> {
        a.powi(b)
    }
    pub fn vs_powi__r<T: Float, const N: usize>(a: [T; N], b: i32) -> [T; N] {
        map1(a, |x| x.powi(b))
    }
    pub fn mm_powi__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<i32, M, N>) -> Matrix<T, M, N> {
        a.powi(b)
    }
    pub fn mm_powi__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: [[i32; N]; M]) -> [[T; N]; M] {
        mmap2(a, b, |x, y| x.powi(y))
    }
    pub fn mv_powi__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Vector<i32, N>) -> Matrix<T, M, N> {
        a.powi(b)
    }
    pub fn mv_powi__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: [i32; N]) -> [[T; N]; M] {
        map1(a, |r| map2(r, b, |x, y| x.powi(y)))
    }
    pub fn ms_powi__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: i32) -> Matrix<T, M, N> {
        a.powi(b)
    }
    pub fn ms_powi__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], b: i32) -> [[T; N]; M] {
        mmap1(a, |x| x.powi(b))
    }
    pub fn v_mul_add_vv__l<T: Float, const N: usize>(a: Vector<T, N>, p: Vector<T, N>, q: Vector<T, N>) -> Vector<T, N> {
        a.mul_add(p, q)
    }
    pub fn v_mul_add_vv__r<T: Float, const N: usize>(a: [T; N], p: [T; N], q: [T; N]) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p[i], q[i]);
            x.mul_add(p, q)
        })
    }
    pub fn v_mul_add_vs__l<T: Float, const N: usize>(a: Vector<T, N>, p: Vector<T, N>, q: T) -> Vector<T, N> {
        a.mul_add(p, q)
    }
    pub fn v_mul_add_vs__r<T: Float, const N: usize>(a: [T; N], p: [T; N], q: T) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p[i], q);
            x.mul_add(p, q)
        })
    }
    pub fn v_mul_add_sv__l<T: Float, const N: usize>(a: Vector<T, N>, p: T, q: Vector<T, N>) -> Vector<T, N> {
        a.mul_add(p, q)
    }
    pub fn v_mul_add_sv__r<T: Float, const N: usize>(a: [T; N], p: T, q: [T; N]) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p, q[i]);
            x.mul_add(p, q)
        })
    }
    pub fn v_mul_add_ss__l<T: Float, const N: usize>(a: Vector<T, N>, p: T, q: T) -> Vector<T, N> {
        a.mul_add(p, q)
    }
    pub fn v_mul_add_ss__r<T: Float, const N: usize>(a: [T; N], p: T, q: T) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p, q);
            x.mul_add(p, q)
        })
    }
    pub fn m_mul_add_mm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_mm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q[i][j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_mv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_mv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q[j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_ms__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: T) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_ms__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_vm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_vm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q[i][j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_vv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_vv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q[j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_vs__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: T) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_vs__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_sm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_sm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q[i][j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_sv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_sv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q[j]);
                x.mul_add(p, q)
            })
        })
    }
    pub fn m_mul_add_ss__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: T) -> Matrix<T, M, N> {
        a.mul_add(p, q)
    }
    pub fn m_mul_add_ss__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q);
                x.mul_add(p, q)
            })
        })
    }
    pub fn v_clamp_vv__l<T: Float, const N: usize>(a: Vector<T, N>, p: Vector<T, N>, q: Vector<T, N>) -> Vector<T, N> {
        a.clamp(p, q)
    }
    pub fn v_clamp_vv__r<T: Float, const N: usize>(a: [T; N], p: [T; N], q: [T; N]) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p[i], q[i]);
            x.max(p).min(q)
        })
    }
    pub fn v_clamp_vs__l<T: Float, const N: usize>(a: Vector<T, N>, p: Vector<T, N>, q: T) -> Vector<T, N> {
        a.clamp(p, q)
    }
    pub fn v_clamp_vs__r<T: Float, const N: usize>(a: [T; N], p: [T; N], q: T) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p[i], q);
            x.max(p).min(q)
        })
    }
    pub fn v_clamp_sv__l<T: Float, const N: usize>(a: Vector<T, N>, p: T, q: Vector<T, N>) -> Vector<T, N> {
        a.clamp(p, q)
    }
    pub fn v_clamp_sv__r<T: Float, const N: usize>(a: [T; N], p: T, q: [T; N]) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p, q[i]);
            x.max(p).min(q)
        })
    }
    pub fn v_clamp_ss__l<T: Float, const N: usize>(a: Vector<T, N>, p: T, q: T) -> Vector<T, N> {
        a.clamp(p, q)
    }
    pub fn v_clamp_ss__r<T: Float, const N: usize>(a: [T; N], p: T, q: T) -> [T; N] {
        core::array::from_fn(|i| {
            let (x, p, q) = (a[i], p, q);
            x.max(p).min(q)
        })
    }
    pub fn m_clamp_mm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_mm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q[i][j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_mv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_mv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q[j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_ms__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Matrix<T, M, N>, q: T) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_ms__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [[T; N]; M], q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[i][j], q);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_vm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_vm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q[i][j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_vv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_vv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q[j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_vs__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: Vector<T, N>, q: T) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_vs__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: [T; N], q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p[j], q);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_sm__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: Matrix<T, M, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_sm__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: [[T; N]; M]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q[i][j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_sv__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: Vector<T, N>) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_sv__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q[j]);
                x.max(p).min(q)
            })
        })
    }
    pub fn m_clamp_ss__l<T: Float, const M: usize, const N: usize>(a: Matrix<T, M, N>, p: T, q: T) -> Matrix<T, M, N> {
        a.clamp(p, q)
    }
    pub fn m_clamp_ss__r<T: Float, const M: usize, const N: usize>(a: [[T; N]; M], p: T, q: T) -> [[T; N]; M] {
        core::array::from_fn(|i| {
            core::array::from_fn(|j| {
                let (x, p, q) = (a[i][j], p, q);
                x.max(p).min(q)
            })
        })
    }
    // broadcasting itself
    pub fn bc_vv__l<T: Copy, const N: usize>(a: Vector<T, N>) -> Vector<T, N> {
        traits::Broadcast::<Vector<T, N>>::broadcast(a)
    }
    pub fn bc_vv__r<T: Copy, const N: usize>(a: [T; N]) -> [T; N] {
        a
    }
    pub fn bc_vs__l<T: Copy, const N: usize>(a: T) -> Vector<T, N> {
        traits::Broadcast::<Vector<T, N>>::broadcast(a)
    }
    pub fn bc_vs__r<T: Copy, const N: usize>(a: T) -> [T; N] {
        [a; N]
    }
    pub fn bc_mm__l<T: Copy, const M: usize, const N: usize>(a: Matrix<T, M, N>) -> Matrix<T, M, N> {
        traits::Broadcast::<Matrix<T, M, N>>::broadcast(a)
    }
    pub fn bc_mm__r<T: Copy, const M: usize, const N: usize>(a: [[T; N]; M]) -> [[T; N]; M] {
        a
    }
    pub fn bc_mv__l<T: Copy, const M: usize, const N: usize>(a: Vector<T, N>) -> Matrix<T, M, N> {
        traits::Broadcast::<Matrix<T, M, N>>::broadcast(a)
    }
    pub fn bc_mv__r<T: Copy, const M: usize, const N: usize>(a: [T; N]) -> [[T; N]; M] {
        core::array::from_fn(|_| core::array::from_fn(|j| a[j]))
    }
    pub fn bc_ms__l<T: Copy, const M: usize, const N: usize>(a: T) -> Matrix<T, M, N> {
        traits::Broadcast::<Matrix<T, M, N>>::broadcast(a)
    }
    pub fn bc_ms__r<T: Copy, const M: usize, const N: usize>(a: T) -> [[T; N]; M] {
        [[a; N]; M]
    }
}
