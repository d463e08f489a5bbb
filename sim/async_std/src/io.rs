pub use futures::io::{
	copy, AsyncRead as Read, AsyncReadExt as ReadExt, AsyncWrite as Write, AsyncWriteExt as WriteExt, BufReader, BufWriter,
};
pub use std::io::{Error, ErrorKind, Result};
pub mod prelude {
	pub use super::{Read, ReadExt, Write, WriteExt};
}
