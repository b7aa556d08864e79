mod consts;
mod native;

pub(crate) use self::consts::*;
pub use self::native::*;
