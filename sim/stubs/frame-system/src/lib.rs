//! Stands in for FRAME's frame-system: origins of calls, events of a block.
use core::cell::RefCell;
use core::marker::PhantomData;
use frame_support::dispatch::BadOrigin;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}

pub trait Config: 'static + Clone + Eq {
    type AccountId: Clone + PartialEq + core::fmt::Debug;
    type BlockNumber: Clone;
    type Event: Clone + PartialEq + core::fmt::Debug + 'static;
    type Origin: Into<Result<RawOrigin<Self::AccountId>, Self::Origin>> + From<RawOrigin<Self::AccountId>> + Clone;
}

pub struct Pallet<T>(PhantomData<T>);
thread_local!(static EVENTS: RefCell<Vec<String>> = RefCell::new(vec![]));
impl<T: Config> Pallet<T> {
    pub fn deposit_event(event: impl Into<T::Event>) {
        let e: T::Event = event.into();
        EVENTS.with(|l| l.borrow_mut().push(format!("{e:?}")))
    }
}
/// The events deposited on this thread since they were last taken.
pub fn take_events() -> Vec<String> {
    EVENTS.with(|l| core::mem::take(&mut *l.borrow_mut()))
}

/// Signed with the account, or root.
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(None),
        Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}

pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::Origin;
    pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
}
