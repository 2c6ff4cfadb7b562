#![allow(non_snake_case)]
pub mod env;
pub mod explore;
pub mod oracle;
pub mod real;
pub mod spaces;
pub mod prelude {
    pub use crate::explore::{by_tier, main, real, real_catch, thorough, Ch, Failure, Res, Spec};
    pub use crate::oracle::*;
    pub use crate::real::*;
    pub use crate::spaces::*;
    pub use crate::{bad, ensure};
}
