//! What functions of `core` do, in terms of the operations that the interpreter knows: `vmodels::a::b` stands for `core::a::b`
//! (the generic parameters of the implementation come first). Never compiled into anything: only its type-checked form is read.
#![allow(clippy::all, dead_code, unused_unsafe)]
#![no_std]

pub mod slice {
    use core::mem;
    pub fn fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
        for x in s.iter_mut() {
            *x = f();
        }
    }
    pub fn swap_with_slice<T>(a: &mut [T], b: &mut [T]) {
        if a.len() != b.len() {
            panic!("destination and source slices have different lengths");
        }
        for (x, y) in a.iter_mut().zip(b.iter_mut()) {
            mem::swap(x, y);
        }
    }
    pub fn rotate_left<T>(s: &mut [T], k: usize) {
        if k > s.len() {
            panic!("mid <= self.len()");
        }
        let n = s.len();
        let mut r = 0;
        while r < k {
            let mut i = 1;
            while i < n {
                s.swap(i - 1, i);
                i += 1;
            }
            r += 1;
        }
    }
    pub fn rotate_right<T>(s: &mut [T], k: usize) {
        if k > s.len() {
            panic!("k <= self.len()");
        }
        let n = s.len();
        rotate_left(s, n - k)
    }
    pub fn starts_with<T: PartialEq>(s: &[T], p: &[T]) -> bool {
        if p.len() > s.len() {
            return false;
        }
        let mut i = 0;
        while i < p.len() {
            if p[i] != s[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn ends_with<T: PartialEq>(s: &[T], p: &[T]) -> bool {
        if p.len() > s.len() {
            return false;
        }
        let d = s.len() - p.len();
        let mut i = 0;
        while i < p.len() {
            if p[i] != s[d + i] {
                return false;
            }
            i += 1;
        }
        true
    }
    pub fn split_at_checked<T>(s: &[T], k: usize) -> Option<(&[T], &[T])> {
        if k <= s.len() {
            Some(s.split_at(k))
        } else {
            None
        }
    }
    pub fn split_at_mut_checked<T>(s: &mut [T], k: usize) -> Option<(&mut [T], &mut [T])> {
        if k <= s.len() {
            Some(s.split_at_mut(k))
        } else {
            None
        }
    }
    pub unsafe fn split_at_unchecked<T>(s: &[T], k: usize) -> (&[T], &[T]) {
        if k > s.len() {
            unsafe { core::hint::unreachable_unchecked() }
        }
        s.split_at(k)
    }
    pub unsafe fn split_at_mut_unchecked<T>(s: &mut [T], k: usize) -> (&mut [T], &mut [T]) {
        if k > s.len() {
            unsafe { core::hint::unreachable_unchecked() }
        }
        s.split_at_mut(k)
    }
    pub unsafe fn swap_unchecked<T>(s: &mut [T], i: usize, j: usize) {
        if i >= s.len() || j >= s.len() {
            unsafe { core::hint::unreachable_unchecked() }
        }
        s.swap(i, j)
    }
    pub fn is_sorted<T: PartialOrd>(s: &[T]) -> bool {
        let mut i = 1;
        while i < s.len() {
            if !(s[i - 1] <= s[i]) {
                return false;
            }
            i += 1;
        }
        true
    }
}

pub mod iter {
    pub mod traits {
        pub mod iterator {
            pub mod Iterator {
                use core::cmp::Ordering;
                pub fn is_sorted<I: Iterator>(mut it: I) -> bool
                where
                    I::Item: PartialOrd,
                {
                    let mut last = match it.next() {
                        Some(x) => x,
                        None => return true,
                    };
                    while let Some(x) = it.next() {
                        if !(last <= x) {
                            return false;
                        }
                        last = x;
                    }
                    true
                }
                pub fn cmp<I: Iterator, J: IntoIterator<Item = I::Item>>(mut a: I, b: J) -> Ordering
                where
                    I::Item: Ord,
                {
                    let mut b = b.into_iter();
                    loop {
                        match a.next() {
                            None => return if b.next().is_none() { Ordering::Equal } else { Ordering::Less },
                            Some(x) => match b.next() {
                                None => return Ordering::Greater,
                                Some(y) => match x.cmp(&y) {
                                    Ordering::Equal => (),
                                    o => return o,
                                },
                            },
                        }
                    }
                }
                pub fn partial_cmp<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> Option<Ordering>
                where
                    I::Item: PartialOrd<J::Item>,
                {
                    let mut b = b.into_iter();
                    loop {
                        match a.next() {
                            None => return if b.next().is_none() { Some(Ordering::Equal) } else { Some(Ordering::Less) },
                            Some(x) => match b.next() {
                                None => return Some(Ordering::Greater),
                                Some(y) => match x.partial_cmp(&y) {
                                    Some(Ordering::Equal) => (),
                                    o => return o,
                                },
                            },
                        }
                    }
                }
                pub fn rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
                    let mut n = it.len();
                    while let Some(x) = it.next_back() {
                        n -= 1;
                        if p(x) {
                            return Some(n);
                        }
                    }
                    None
                }
                pub fn is_partitioned<I: Iterator, P: FnMut(I::Item) -> bool>(mut it: I, mut p: P) -> bool {
                    while let Some(x) = it.next() {
                        if !p(x) {
                            while let Some(y) = it.next() {
                                if p(y) {
                                    return false;
                                }
                            }
                            return true;
                        }
                    }
                    true
                }
            }
        }
        pub mod double_ended {
            pub mod DoubleEndedIterator {
                pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
                    let mut acc = init;
                    while let Some(x) = it.next_back() {
                        acc = f(acc, x);
                    }
                    acc
                }
                pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
                    while let Some(x) = it.next_back() {
                        if p(&x) {
                            return Some(x);
                        }
                    }
                    None
                }
            }
        }
    }
}

pub mod option {
    pub fn is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o {
            None => true,
            Some(x) => f(x),
        }
    }
    pub fn inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
        if let Some(x) = &o {
            f(x);
        }
        o
    }
    pub fn unzip<T, U>(o: Option<(T, U)>) -> (Option<T>, Option<U>) {
        match o {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, None),
        }
    }
    pub fn transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
        match o {
            Some(Ok(x)) => Ok(Some(x)),
            Some(Err(e)) => Err(e),
            None => Ok(None),
        }
    }
    pub fn get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
        o.get_or_insert_with(|| v)
    }
    pub fn take_if<T, P: FnOnce(&mut T) -> bool>(o: &mut Option<T>, p: P) -> Option<T> {
        let t = match o.as_mut() {
            Some(x) => p(x),
            None => false,
        };
        if t {
            o.take()
        } else {
            None
        }
    }
}

pub mod result {
    pub fn or_else<T, E, F, O: FnOnce(E) -> Result<T, F>>(r: Result<T, E>, op: O) -> Result<T, F> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => op(e),
        }
    }
    pub fn and<T, E, U>(r: Result<T, E>, o: Result<U, E>) -> Result<U, E> {
        match r {
            Ok(_) => o,
            Err(e) => Err(e),
        }
    }
    pub fn or<T, E, F>(r: Result<T, E>, o: Result<T, F>) -> Result<T, F> {
        match r {
            Ok(x) => Ok(x),
            Err(_) => o,
        }
    }
    pub fn map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(_) => d,
        }
    }
    pub fn map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(e) => d(e),
        }
    }
    pub fn is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool {
        match r {
            Ok(x) => f(x),
            Err(_) => false,
        }
    }
    pub fn is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool {
        match r {
            Ok(_) => false,
            Err(e) => f(e),
        }
    }
    pub fn unwrap_err<T, E>(r: Result<T, E>) -> E {
        match r {
            Ok(_) => panic!("called `Result::unwrap_err()` on an `Ok` value"),
            Err(e) => e,
        }
    }
    pub fn unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T {
        match r {
            Ok(x) => x,
            Err(_) => T::default(),
        }
    }
    pub unsafe fn unwrap_unchecked<T, E>(r: Result<T, E>) -> T {
        match r {
            Ok(x) => x,
            Err(_) => unsafe { core::hint::unreachable_unchecked() },
        }
    }
    pub fn as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        }
    }
    pub fn as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        }
    }
    pub fn transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> {
        match r {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(e) => Some(Err(e)),
        }
    }
}

pub mod cmp {
    use core::cmp::Ordering;
    pub fn reverse(o: Ordering) -> Ordering {
        match o {
            Ordering::Less => Ordering::Greater,
            Ordering::Equal => Ordering::Equal,
            Ordering::Greater => Ordering::Less,
        }
    }
    pub fn then(o: Ordering, p: Ordering) -> Ordering {
        match o {
            Ordering::Equal => p,
            _ => o,
        }
    }
    pub fn then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering {
        match o {
            Ordering::Equal => f(),
            _ => o,
        }
    }
    pub fn max_by<T, F: FnOnce(&T, &T) -> Ordering>(a: T, b: T, f: F) -> T {
        match f(&a, &b) {
            Ordering::Greater => a,
            _ => b,
        }
    }
    pub fn min_by<T, F: FnOnce(&T, &T) -> Ordering>(a: T, b: T, f: F) -> T {
        match f(&a, &b) {
            Ordering::Greater => b,
            _ => a,
        }
    }
    pub mod Ord {
        pub fn clamp<T: Ord>(x: T, lo: T, hi: T) -> T {
            if lo > hi {
                panic!("assertion failed: min <= max");
            }
            if x < lo {
                lo
            } else if x > hi {
                hi
            } else {
                x
            }
        }
    }
}

pub mod ptr {
    pub unsafe fn copy_nonoverlapping<T>(src: *const T, dst: *mut T, n: usize) {
        let mut i = 0;
        while i < n {
            unsafe { core::ptr::write(dst.add(i), core::ptr::read(src.add(i))) };
            i += 1;
        }
    }
    pub unsafe fn swap<T>(a: *mut T, b: *mut T) {
        unsafe {
            let t = core::ptr::read(a);
            core::ptr::write(a, core::ptr::read(b));
            core::ptr::write(b, t);
        }
    }
    pub fn from_ref<T>(r: &T) -> *const T {
        r
    }
    pub fn from_mut<T>(r: &mut T) -> *mut T {
        r
    }
    pub mod const_ptr {
        pub unsafe fn copy_to_nonoverlapping<T>(src: *const T, dst: *mut T, n: usize) {
            unsafe { super::copy_nonoverlapping(src, dst, n) }
        }
    }
    pub mod mut_ptr {
        pub unsafe fn copy_from_nonoverlapping<T>(dst: *mut T, src: *const T, n: usize) {
            unsafe { super::copy_nonoverlapping(src, dst, n) }
        }
        pub unsafe fn copy_to_nonoverlapping<T>(src: *mut T, dst: *mut T, n: usize) {
            unsafe { super::copy_nonoverlapping(src, dst, n) }
        }
        pub unsafe fn replace<T>(p: *mut T, v: T) -> T {
            unsafe {
                let old = core::ptr::read(p);
                core::ptr::write(p, v);
                old
            }
        }
        pub unsafe fn swap<T>(a: *mut T, b: *mut T) {
            unsafe { super::swap(a, b) }
        }
    }
}

pub mod ops {
    pub mod range {
        pub fn is_empty<T: PartialOrd>(r: &core::ops::Range<T>) -> bool {
            !(r.start < r.end)
        }
    }
}
