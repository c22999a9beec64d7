//! Stand-in for `once_cell` on top of the standard library.
pub mod sync {
    #[derive(Debug)]
    pub struct OnceCell<T>(std::sync::OnceLock<T>);
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            Self(std::sync::OnceLock::new())
        }
        pub fn get(&self) -> Option<&T> {
            self.0.get()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            self.0.set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.0.get_or_init(f)
        }
    }
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    pub struct Lazy<T, F = fn() -> T> {
        cell: OnceCell<T>,
        init: F,
    }
    impl<T, F> Lazy<T, F> {
        pub const fn new(init: F) -> Self {
            Self { cell: OnceCell::new(), init }
        }
    }
    impl<T, F: Fn() -> T> std::ops::Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            self.cell.get_or_init(|| (self.init)())
        }
    }
}
