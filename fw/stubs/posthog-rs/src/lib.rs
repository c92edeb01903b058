//! Signatures only: the part of posthog-rs that tailcall uses.
#[derive(Debug)]
pub enum Error { Connection(String) }
impl std::fmt::Display for Error {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::error::Error for Error {}
