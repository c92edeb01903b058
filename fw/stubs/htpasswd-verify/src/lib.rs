//! Signatures only: the part of htpasswd-verify that tailcall uses.
use std::marker::PhantomData;
pub struct Htpasswd<'a>(PhantomData<&'a str>);
impl Htpasswd<'static> {
    pub fn new_owned(_bytes: &str) -> Htpasswd<'static> { unimplemented!() }
}
impl<'a> Htpasswd<'a> {
    pub fn check<S: AsRef<str>>(&self, _username: S, _password: S) -> bool { unimplemented!() }
}
