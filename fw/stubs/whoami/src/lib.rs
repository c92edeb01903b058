//! Signatures only: the part of whoami that tailcall uses.
pub fn username() -> String { unimplemented!() }
