use rayon_core::control::point;
use std::fmt;
use std::sync::atomic::Ordering;

macro_rules! common {
    ($name:ident, $t:ty, [$($g:tt)*]) => {
        impl $($g)* $name $($g)* {
            pub const fn new(x: $t) -> Self {
                Self(std::sync::atomic::$name::new(x))
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn load(&self, o: Ordering) -> $t {
                point();
                self.0.load(o)
            }
            pub fn store(&self, x: $t, o: Ordering) {
                point();
                self.0.store(x, o)
            }
            pub fn swap(&self, x: $t, o: Ordering) -> $t {
                point();
                self.0.swap(x, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                point();
                self.0.compare_and_swap(a, b, o)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut old = self.load(f);
                while let Some(new) = g(old) {
                    match self.compare_exchange(old, new, s, f) {
                        Ok(x) => return Ok(x),
                        Err(x) => old = x,
                    }
                }
                Err(old)
            }
        }
        impl $($g)* fmt::Debug for $name $($g)* {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl $($g)* From<$t> for $name $($g)* {
            fn from(x: $t) -> Self {
                Self::new(x)
            }
        }
    };
}

macro_rules! ops {
    ($name:ident, $t:ty, $($op:ident)*) => {
        impl $name {
            $(
                pub fn $op(&self, x: $t, o: Ordering) -> $t {
                    point();
                    self.0.$op(x, o)
                }
            )*
        }
    };
}

macro_rules! int {
    ($($name:ident $t:ty;)*) => {
        $(
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $name(std::sync::atomic::$name);
            common!($name, $t, []);
            ops!($name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
        )*
    };
}

int! {
    AtomicUsize usize;
    AtomicIsize isize;
    AtomicU8 u8;
    AtomicU16 u16;
    AtomicU32 u32;
    AtomicU64 u64;
    AtomicI8 i8;
    AtomicI16 i16;
    AtomicI32 i32;
    AtomicI64 i64;
}

#[derive(Default)]
#[repr(transparent)]
pub struct AtomicBool(std::sync::atomic::AtomicBool);
common!(AtomicBool, bool, []);
ops!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
common!(AtomicPtr, *mut T, [<T>]);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
