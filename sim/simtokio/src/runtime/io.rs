//! The bottom of the driver stack: instead of an I/O reactor, the simulator's
//! event queue.
pub(crate) use std::io::Result;

pub(crate) type Driver = crate::sim::SimPark;
pub(crate) type Handle = ();

pub(crate) fn create_driver(_enable: bool) -> Result<(Driver, Handle)> {
    Ok((crate::sim::SimPark::new(), ()))
}
