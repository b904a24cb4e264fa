//! Stand-ins for what the pallet names of Substrate's frame-support.
pub use frame_support_macro::pallet;

pub mod dispatch {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum DispatchError {
        Other(&'static str),
        CannotLookup,
        BadOrigin,
        Module { index: u8, error: u8, message: Option<&'static str> },
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub enum Pays {
        #[default]
        Yes,
        No,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct PostDispatchInfo {
        pub actual_weight: Option<u64>,
        pub pays_fee: Pays,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct DispatchErrorWithPostInfo {
        pub post_info: PostDispatchInfo,
        pub error: DispatchError,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct BadOrigin;
    pub type DispatchResult = Result<(), DispatchError>;
    pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
    impl From<()> for PostDispatchInfo {
        fn from(_: ()) -> Self {
            Self::default()
        }
    }
    impl From<Option<u64>> for PostDispatchInfo {
        fn from(actual_weight: Option<u64>) -> Self {
            Self { actual_weight, ..Self::default() }
        }
    }
    impl From<Pays> for PostDispatchInfo {
        fn from(pays_fee: Pays) -> Self {
            Self { pays_fee, ..Self::default() }
        }
    }
    impl From<BadOrigin> for DispatchError {
        fn from(_: BadOrigin) -> Self {
            Self::BadOrigin
        }
    }
    impl From<&'static str> for DispatchError {
        fn from(s: &'static str) -> Self {
            Self::Other(s)
        }
    }
    impl<E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo {
        fn from(e: E) -> Self {
            Self { post_info: PostDispatchInfo::default(), error: e.into() }
        }
    }
}
pub mod traits {
    pub trait Hooks<BlockNumber> {
        fn on_initialize(_n: BlockNumber) -> u64 {
            0
        }
        fn on_finalize(_n: BlockNumber) {}
    }
    pub trait Get<T> {
        fn get() -> T;
    }
}
pub mod pallet_prelude {
    pub use crate::dispatch::{BadOrigin, DispatchError, DispatchErrorWithPostInfo, DispatchResult, DispatchResultWithPostInfo, Pays, PostDispatchInfo};
    pub use crate::traits::{Get, Hooks};
    pub use crate::{ensure, fail};
    pub use core::marker::PhantomData;
}
#[macro_export]
macro_rules! fail {
    ($y:expr) => {{
        return Err($y.into());
    }};
}
#[macro_export]
macro_rules! ensure {
    ($x:expr, $y:expr $(,)?) => {{
        if !$x {
            $crate::fail!($y);
        }
    }};
}
