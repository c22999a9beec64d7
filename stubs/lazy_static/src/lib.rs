//! Stand-in for `lazy_static`, each thread of the explorer being a page of its own, and each
//! history a new one.
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
thread_local!(static VALUES: RefCell<HashMap<TypeId, Box<dyn Any>>> = Default::default());

/// Forgets what has been made. Nothing made from it may be left.
pub fn reset() {
    let old = VALUES.with(|v| std::mem::take(&mut *v.borrow_mut()));
    drop(old);
}
#[doc(hidden)]
pub fn get<K: 'static, T: 'static>(make: impl FnOnce() -> T) -> &'static T {
    let found = |v: &RefCell<HashMap<TypeId, Box<dyn Any>>>| {
        // the value stays in its box until `reset`
        v.borrow().get(&TypeId::of::<K>()).map(|b| unsafe { &*(b.downcast_ref::<T>().expect("value") as *const T) })
    };
    VALUES.with(|v| {
        found(v).unwrap_or_else(|| {
            let t = Box::new(make());
            v.borrow_mut().insert(TypeId::of::<K>(), t);
            found(v).expect("value")
        })
    })
}

#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($more:tt)*) => {
        #[allow(non_camel_case_types, missing_docs, dead_code)]
        $v struct $n { made: () }
        #[allow(missing_docs, dead_code)]
        $v static $n: $n = $n { made: () };
        impl ::std::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                let _ = self.made;
                $crate::get::<$n, $t>(|| $e)
            }
        }
        $crate::lazy_static!($($more)*);
    };
    () => {};
}
