pub use ::std::os::*;
pub mod unix {
    pub use ::std::os::unix::*;
    pub mod process {
        pub use ::std::os::unix::process::{ExitStatusExt, parent_id};
        pub use crate::process::CommandExt;
    }
    pub mod prelude {
        pub use ::std::os::unix::prelude::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, OsStrExt, OsStringExt, OwnedFd, RawFd, ExitStatusExt};
        pub use crate::process::CommandExt;
    }
}
