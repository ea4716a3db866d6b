//! Stand-in for the `wcs` crate (a git dependency that cannot be fetched offline).
//! It carries no behaviour: only the names fitsrs refers to.
pub mod error {
    #[derive(Debug, Clone, PartialEq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("no WCS")
        }
    }
    impl std::error::Error for Error {}
}
#[derive(Debug, Clone, PartialEq, serde::Deserialize)]
pub struct WCSParams {}
#[derive(Debug, Clone, PartialEq)]
pub struct WCS;
#[derive(Debug, Clone, PartialEq)]
pub struct ImgXY;
#[derive(Debug, Clone, PartialEq)]
pub struct LonLat;
impl WCS {
    pub fn new(_: &WCSParams) -> Result<WCS, error::Error> {
        Ok(WCS)
    }
}
