//! Atomics with a scheduling point before every access (sequentially consistent).
pub use ::std::sync::atomic::Ordering;
use ::std::sync::atomic as real;

pub fn fence(_: Ordering) {
    simk::point("atomic.fence");
}
pub use ::std::sync::atomic::compiler_fence;

macro_rules! base {
    ($n:ident, $t:ty $(, $g:ident)?) => {
        impl $(<$g>)? $n $(<$g>)? {
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn load(&self, o: Ordering) -> $t {
                simk::point("atomic.load");
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                simk::point("atomic.store");
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                simk::point("atomic.swap");
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                simk::point("atomic.cas");
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                simk::point("atomic.cas");
                if simk::fault("spurious_cas", 2) > 0 {
                    return Err(self.0.load(Ordering::SeqCst));
                }
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                self.fetch_update(s, f, g)
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
        }
        impl $(<$g>)? ::std::fmt::Debug for $n $(<$g>)? {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                ::std::fmt::Debug::fmt(&self.0, f)
            }
        }
        impl $(<$g>)? From<$t> for $n $(<$g>)? {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! int {
    ($($n:ident $t:ty),*) => {$(
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $n(real::$n);
        impl $n {
            pub const fn new(v: $t) -> Self { Self(real::$n::new(v)) }
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_sub(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_min(v, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { simk::point("atomic.rmw"); self.0.fetch_xor(v, o) }
        }
        base!($n, $t);
    )*};
}
int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

#[derive(Default)]
#[repr(transparent)]
pub struct AtomicBool(real::AtomicBool);
impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        Self(real::AtomicBool::new(v))
    }
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        simk::point("atomic.rmw");
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        simk::point("atomic.rmw");
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        simk::point("atomic.rmw");
        self.0.fetch_xor(v, o)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
base!(AtomicBool, bool);

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
        Self(real::AtomicPtr::new(v))
    }
}
base!(AtomicPtr, *mut T, T);
