// the connection, where only its text matters
pub mod vxst { use vstd::prelude::*;
pub struct Stream { pub p: () }
 }
pub use vxst::*;
