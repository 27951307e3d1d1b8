//! Operations of a second crate. All of them look alike from the outside, such
//! that executing the wrong one shows in nothing but the result.
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

use paladin::operation::Operation;
#[doc(hidden)]
pub use serde;

paladin::registry!();

/// The operations executed, by the key of the case.
static LOG: Mutex<Option<HashMap<u64, Vec<String>>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(1);

/// Keys are far apart, such that a damaged one is that of no other case.
pub fn new_key() -> u64 {
    let mut z = NEXT.fetch_add(1, Ordering::SeqCst).wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn log(key: u64, tag: &str) {
    let mut log = LOG.lock().unwrap();
    let log = log.get_or_insert_with(Default::default);
    log.entry(key).or_default().push(tag.to_string());
}

/// Takes what has been executed with the key.
pub fn executed(key: u64) -> Vec<String> {
    let mut log = LOG.lock().unwrap();
    log.as_mut().and_then(|l| l.remove(&key)).unwrap_or_default()
}

pub type Input = (u64, i64);
pub type Output = (String, i64, String, i64);

pub trait Twin: Operation<Input = Input, Output = Output> + Clone {
    const TAG: &'static str;

    fn make(p: i64, q: &str) -> Self;

    fn parameters(&self) -> (i64, String);
}

#[macro_export]
macro_rules! twin {
    ($name:ident, $tag:expr) => {
        #[allow(unused_imports)]
        use paladin::operation::Operation as _;

        #[derive(
            $crate::serde::Serialize,
            $crate::serde::Deserialize,
            paladin::RemoteExecute,
            Clone,
            Debug,
        )]
        #[serde(crate = "ops2::serde")]
        pub struct $name {
            p: i64,
            q: String,
        }

        impl paladin::operation::Operation for $name {
            type Input = $crate::Input;
            type Output = $crate::Output;

            fn execute(
                &self,
                (key, x): $crate::Input,
                _: paladin::AbortSignal,
            ) -> paladin::operation::Result<$crate::Output> {
                $crate::log(key, $tag);
                Ok(($tag.to_string(), self.p, self.q.clone(), x))
            }
        }

        impl $crate::Twin for $name {
            const TAG: &'static str = $tag;

            fn make(p: i64, q: &str) -> Self {
                Self {
                    p,
                    q: q.to_string(),
                }
            }

            fn parameters(&self) -> (i64, String) {
                (self.p, self.q.clone())
            }
        }
    };
}

extern crate self as ops2;

twin!(Twin0, "ops2::Twin0");
twin!(Twin1, "ops2::Twin1");
twin!(Other, "ops2::Other");

pub mod a {
    twin!(Twin0, "ops2::a::Twin0");
    twin!(Twin1, "ops2::a::Twin1");

    pub mod b {
        twin!(Twin0, "ops2::a::b::Twin0");
        twin!(Other, "ops2::a::b::Other");
    }
}

pub mod b {
    twin!(Twin0, "ops2::b::Twin0");

    pub mod a {
        twin!(Twin0, "ops2::b::a::Twin0");
        twin!(Twin1, "ops2::b::a::Twin1");
    }
}

pub mod twins {
    twin!(Twin0, "ops2::twins::Twin0");
    twin!(Twin1, "ops2::twins::Twin1");
    twin!(Other, "ops2::twins::Other");
}

#[allow(non_camel_case_types)]
pub mod case {
    // Names differing in nothing but case or a character.
    twin!(twin, "ops2::case::twin");
    twin!(Twin, "ops2::case::Twin");
    twin!(TWIN, "ops2::case::TWIN");
    twin!(Twin_, "ops2::case::Twin_");
    twin!(Twin10, "ops2::case::Twin10");
    twin!(Twin1, "ops2::case::Twin1");
}
