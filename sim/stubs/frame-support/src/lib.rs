//! Stands in for FRAME's frame-support: the types in which a pallet's calls
//! report their outcome, with the meaning they have there.
pub use frame_macros::pallet;

pub mod weights {
    pub type Weight = u64;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub enum Pays {
        #[default]
        Yes,
        No,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct PostDispatchInfo {
        pub actual_weight: Option<Weight>,
        pub pays_fee: Pays,
    }
    impl From<()> for PostDispatchInfo {
        fn from(_: ()) -> Self {
            Self::default()
        }
    }
    impl From<Option<Weight>> for PostDispatchInfo {
        fn from(actual_weight: Option<Weight>) -> Self {
            Self { actual_weight, pays_fee: Pays::Yes }
        }
    }
    impl From<Pays> for PostDispatchInfo {
        fn from(pays_fee: Pays) -> Self {
            Self { actual_weight: None, pays_fee }
        }
    }
    impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
        fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
            Self { actual_weight, pays_fee }
        }
    }
}

pub mod traits {
    use crate::weights::Weight;
    pub trait Hooks<BlockNumber> {
        fn on_finalize(_n: BlockNumber) {}
        fn on_initialize(_n: BlockNumber) -> Weight {
            0
        }
        fn on_runtime_upgrade() -> Weight {
            0
        }
        fn offchain_worker(_n: BlockNumber) {}
        fn integrity_test() {}
    }
    pub trait Get<T> {
        fn get() -> T;
    }
    /// Two names of one type.
    pub trait IsType<T>: Into<T> + From<T> {
        fn from_ref(t: &T) -> &Self;
        fn into_ref(&self) -> &T;
    }
    impl<T> IsType<T> for T {
        fn from_ref(t: &T) -> &Self {
            t
        }
        fn into_ref(&self) -> &T {
            self
        }
    }
}

pub mod dispatch {
    pub use crate::weights::PostDispatchInfo;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum DispatchError {
        Other(&'static str),
        CannotLookup,
        BadOrigin,
        Module { index: u8, error: u8, message: Option<&'static str> },
    }
    impl From<&'static str> for DispatchError {
        fn from(s: &'static str) -> Self {
            Self::Other(s)
        }
    }
    /// What `ensure_signed` and its kin return.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct BadOrigin;
    impl From<BadOrigin> for DispatchError {
        fn from(_: BadOrigin) -> Self {
            Self::BadOrigin
        }
    }
    impl From<BadOrigin> for &'static str {
        fn from(_: BadOrigin) -> Self {
            "Bad origin"
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct DispatchErrorWithPostInfo {
        pub post_info: PostDispatchInfo,
        pub error: DispatchError,
    }
    impl<E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo {
        fn from(e: E) -> Self {
            Self { post_info: Default::default(), error: e.into() }
        }
    }
    pub type DispatchResult = Result<(), DispatchError>;
    pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
}

/// Values in the storage of the node that executes on this thread.
pub mod storage {
    use core::marker::PhantomData;
    use parity_scale_codec::{Decode, Encode};
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
    thread_local!(static STATE: RefCell<Map> = RefCell::new(Map::new()));
    /// Runs `f` on a node's storage.
    pub fn execute_with<R>(m: &mut Map, f: impl FnOnce() -> R) -> R {
        STATE.with(|s| core::mem::swap(&mut *s.borrow_mut(), m));
        struct Back<'a>(&'a mut Map);
        impl Drop for Back<'_> {
            fn drop(&mut self) {
                STATE.with(|s| core::mem::swap(&mut *s.borrow_mut(), self.0));
            }
        }
        let _back = Back(m);
        f()
    }
    pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
        STATE.with(|s| s.borrow().get(k).cloned())
    }
    pub fn put_raw(k: &[u8], v: Vec<u8>) {
        STATE.with(|s| s.borrow_mut().insert(k.to_vec(), v));
    }
    pub fn kill_raw(k: &[u8]) {
        STATE.with(|s| s.borrow_mut().remove(k));
    }

    pub trait StorageInstance {
        const NAME: &'static str;
    }
    pub struct ValueQuery;
    pub struct OptionQuery;
    pub trait QueryKind<V> {
        type Query;
        fn of(v: Option<V>) -> Self::Query;
        fn back(q: Self::Query) -> Option<V>;
    }
    impl<V: Default> QueryKind<V> for ValueQuery {
        type Query = V;
        fn of(v: Option<V>) -> V {
            v.unwrap_or_default()
        }
        fn back(q: V) -> Option<V> {
            Some(q)
        }
    }
    impl<V> QueryKind<V> for OptionQuery {
        type Query = Option<V>;
        fn of(v: Option<V>) -> Option<V> {
            v
        }
        fn back(q: Option<V>) -> Option<V> {
            q
        }
    }
    pub struct StorageValue<P, V, Q = OptionQuery>(PhantomData<(P, V, Q)>);
    impl<P: StorageInstance, V: Encode + Decode, Q: QueryKind<V>> StorageValue<P, V, Q> {
        fn read() -> Option<V> {
            get_raw(P::NAME.as_bytes()).and_then(|b| V::decode(&mut &b[..]).ok())
        }
        pub fn get() -> Q::Query {
            Q::of(Self::read())
        }
        pub fn try_get() -> Result<V, ()> {
            Self::read().ok_or(())
        }
        pub fn exists() -> bool {
            get_raw(P::NAME.as_bytes()).is_some()
        }
        pub fn put<A: Encode>(v: A) {
            put_raw(P::NAME.as_bytes(), v.encode())
        }
        pub fn set(v: Q::Query) {
            match Q::back(v) {
                Some(v) => Self::put(v),
                None => Self::kill(),
            }
        }
        pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
            let mut v = Self::get();
            let r = f(&mut v);
            Self::set(v);
            r
        }
        pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
            let mut v = Self::get();
            let r = f(&mut v);
            if r.is_ok() {
                Self::set(v);
            }
            r
        }
        pub fn kill() {
            kill_raw(P::NAME.as_bytes())
        }
        pub fn take() -> Q::Query {
            let v = Self::get();
            Self::kill();
            v
        }
    }
    /// What a storage item's getter returns.
    pub trait Getter {
        type Query;
        fn query() -> Self::Query;
    }
    impl<P: StorageInstance, V: Encode + Decode, Q: QueryKind<V>> Getter for StorageValue<P, V, Q> {
        type Query = Q::Query;
        fn query() -> Q::Query {
            Self::get()
        }
    }
}

pub mod sp_runtime {
    pub use crate::dispatch::*;
}

#[macro_export]
macro_rules! fail {
    ( $y:expr ) => {{
        return Err($y.into());
    }};
}
#[macro_export]
macro_rules! ensure {
    ( $x:expr, $y:expr $(,)? ) => {{
        if !$x {
            $crate::fail!($y);
        }
    }};
}

pub mod pallet_prelude {
    pub use crate::dispatch::{DispatchError, DispatchResult, DispatchResultWithPostInfo};
    pub use crate::storage::{OptionQuery, StorageValue, ValueQuery};
    pub use crate::traits::{Get, Hooks, IsType};
    pub use crate::weights::Weight;
    pub use crate::{ensure, fail};
    pub use core::marker::PhantomData;
    pub use parity_scale_codec::{Decode, Encode};
}
