//! Signatures only: the part of machineid-rs that tailcall uses.
pub enum Encryption { MD5, SHA256, SHA1 }
pub enum HWIDComponent { SystemID, CPUCores, OSName, Username, MachineName, CPUID }
#[derive(Debug)]
pub struct HWIDError;
pub struct IdBuilder;
impl IdBuilder {
    pub fn new(_e: Encryption) -> IdBuilder { unimplemented!() }
    pub fn add_component(&mut self, _c: HWIDComponent) -> &mut Self { unimplemented!() }
    pub fn build(&mut self, _key: &str) -> Result<String, HWIDError> { unimplemented!() }
}
