//! Stand-in for `ipnetwork::Ipv4Network`.
use std::net::Ipv4Addr;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Ipv4Network { addr: Ipv4Addr, prefix: u8 }
#[derive(Debug)]
pub struct IpNetworkError;
impl std::fmt::Display for IpNetworkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid") } }
impl std::error::Error for IpNetworkError {}
impl std::str::FromStr for Ipv4Network { type Err = IpNetworkError;
    fn from_str(s: &str) -> Result<Self, IpNetworkError> {
        let (a, p) = s.split_once('/').unwrap_or((s, "32"));
        let addr = a.parse().map_err(|_| IpNetworkError)?; let prefix: u8 = p.parse().map_err(|_| IpNetworkError)?;
        if prefix > 32 { return Err(IpNetworkError) }
        Ok(Self { addr, prefix })
    }
}
impl Ipv4Network {
    pub fn new(addr: Ipv4Addr, prefix: u8) -> Result<Self, IpNetworkError> { if prefix > 32 { Err(IpNetworkError) } else { Ok(Self { addr, prefix }) } }
    pub fn contains(&self, ip: Ipv4Addr) -> bool { let m = if self.prefix == 0 { 0 } else { !0u32 << (32 - self.prefix) }; u32::from(ip) & m == u32::from(self.addr) & m }
    pub fn prefix(&self) -> u8 { self.prefix }
}
