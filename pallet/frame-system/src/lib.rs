//! Stand-ins for what the pallet names of Substrate's frame-system.
use frame_support::dispatch::BadOrigin;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
pub trait Config: 'static {
    type Origin: Into<Result<RawOrigin<Self::AccountId>, Self::Origin>>;
    type AccountId;
    type BlockNumber;
}
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed};
    pub type OriginFor<T> = <T as crate::Config>::Origin;
    pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
}
