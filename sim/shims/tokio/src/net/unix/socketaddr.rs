use std::fmt;
use std::io;
use std::path::Path;

/// An address associated with a Tokio Unix socket.
pub struct SocketAddr(pub(super) ());

impl SocketAddr {
    pub(crate) fn unnamed() -> io::Result<SocketAddr> {
        Ok(SocketAddr(()))
    }

    /// Returns `true` if the address is unnamed.
    pub fn is_unnamed(&self) -> bool {
        true
    }

    /// Returns the contents of this address if it is a `pathname` address.
    pub fn as_pathname(&self) -> Option<&Path> {
        None
    }
}

impl fmt::Debug for SocketAddr {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt.write_str("(unnamed)")
    }
}
