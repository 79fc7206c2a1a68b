//! Nothing of its own: makes the extension module of /repo (feature `python`) a shared library that the
//! sandbox can build without network (system OpenBLAS).
pub use s2gpp::*;
