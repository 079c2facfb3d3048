#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const fn code(self) -> core::num::NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("getrandom failed")
    }
}
impl std::error::Error for Error {}
impl From<core::num::NonZeroU32> for Error {
    fn from(c: core::num::NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(_: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, "getrandom failed")
    }
}
extern "C" {
    #[link_name = "getrandom"]
    fn c_getrandom(buf: *mut u8, len: usize, flags: u32) -> isize;
}
pub fn getrandom(mut dest: &mut [u8]) -> Result<(), Error> {
    while !dest.is_empty() {
        let n = unsafe { c_getrandom(dest.as_mut_ptr(), dest.len(), 0) };
        if n <= 0 {
            return Err(Error(core::num::NonZeroU32::new(1).unwrap()));
        }
        dest = &mut dest[n as usize..];
    }
    Ok(())
}
