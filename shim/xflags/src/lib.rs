//! Stand-in of xflags: the command line is not under test, only the struct that the repository declares for it.

#[derive(Debug)]
pub struct Error;

pub type Result<T> = std::result::Result<T, Error>;

#[macro_export]
macro_rules! xflags {
	(src "./src/cli/flags.rs" $($t:tt)*) => { $crate::xflags!(@ P4Analyzer); };
	(@ $n:ident) => {
		impl $n {
			fn from_env_or_exit_() -> Self {
				unimplemented!()
			}
			fn from_env_() -> $crate::Result<Self> {
				Err($crate::Error)
			}
			fn from_vec_(_: Vec<std::ffi::OsString>) -> $crate::Result<Self> {
				Err($crate::Error)
			}
		}
	};
	($($t:tt)*) => { $crate::xflags!(@ LsifP4Cmd); };
}
