//! Signatures only: the part of sysinfo that tailcall uses.
pub struct Cpu;
pub struct System;
impl System {
    pub fn new_all() -> System { unimplemented!() }
    pub fn physical_core_count(&self) -> Option<usize> { unimplemented!() }
    pub fn name() -> Option<String> { unimplemented!() }
    pub fn long_os_version() -> Option<String> { unimplemented!() }
}
