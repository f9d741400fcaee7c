//! Shared machinery of the property checks: a deterministic, sharded
//! property-test driver around proptest's strategies, exact integer geometry
//! used by the oracles, and the generators.
pub mod aabb;
pub mod alloc_guard;
pub mod driver;
pub mod exact;
pub mod gen;
pub mod hulls;
pub mod known;
pub mod simplify;
pub mod sweep;

pub use driver::{Ctx, Rec, Tier};
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};

/// A float which survives JSON (NaN and infinities included).
#[derive(Clone, Copy, PartialEq)]
pub struct Fl(pub f64);
impl std::fmt::Debug for Fl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for Fl {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for Fl {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse::<f64>()
            .map(Fl)
            .map_err(|e| serde::de::Error::custom(format!("{e}: {s}")))
    }
}

/// `ensure!(cond, "message {}", x)` -> return Err(String)
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c { return Err(format!($($arg)+)); }
    };
}
