//! Stand-in for the names of `ark-ec` 0.3 the repository uses.
pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Copy + Default + std::fmt::Debug + PartialEq + Eq;
    type ScalarField;
}
pub trait SWModelParameters: ModelParameters {}
pub mod models {
    pub use super::{ModelParameters, SWModelParameters};
}
pub mod short_weierstrass_jacobian {
    use super::SWModelParameters;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GroupAffine<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            Self { x, y, infinity }
        }
    }
}
