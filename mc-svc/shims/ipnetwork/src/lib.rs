//! Stand-in for `ipnetwork`.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::str::FromStr;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IpNetworkError(pub String);
impl std::fmt::Display for IpNetworkError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for IpNetworkError {}
macro_rules! net {
    ($n:ident, $a:ty, $i:ty, $bits:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n {
            addr: $a,
            prefix: u8,
        }
        impl $n {
            pub fn new(addr: $a, prefix: u8) -> Result<Self, IpNetworkError> {
                if prefix > $bits {
                    return Err(IpNetworkError("invalid prefix".into()));
                }
                Ok(Self { addr, prefix })
            }
            pub fn ip(&self) -> $a {
                self.addr
            }
            pub fn prefix(&self) -> u8 {
                self.prefix
            }
            fn m(&self) -> $i {
                if self.prefix == 0 { 0 } else { <$i>::MAX << ($bits - self.prefix) }
            }
            pub fn contains(&self, ip: $a) -> bool {
                <$i>::from(ip) & self.m() == <$i>::from(self.addr) & self.m()
            }
            pub fn network(&self) -> $a {
                (<$i>::from(self.addr) & self.m()).into()
            }
        }
        impl FromStr for $n {
            type Err = IpNetworkError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                let (a, p) = match s.split_once('/') {
                    Some((a, p)) => (a, p.parse().map_err(|_| IpNetworkError(format!("invalid prefix {s}")))?),
                    None => (s, $bits),
                };
                Self::new(a.parse().map_err(|_| IpNetworkError(format!("invalid address {s}")))?, p)
            }
        }
    };
}
net!(Ipv4Network, Ipv4Addr, u32, 32);
net!(Ipv6Network, Ipv6Addr, u128, 128);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum IpNetwork {
    V4(Ipv4Network),
    V6(Ipv6Network),
}
impl IpNetwork {
    pub fn contains(&self, ip: IpAddr) -> bool {
        match (self, ip) {
            (IpNetwork::V4(n), IpAddr::V4(i)) => n.contains(i),
            (IpNetwork::V6(n), IpAddr::V6(i)) => n.contains(i),
            _ => false,
        }
    }
}
impl FromStr for IpNetwork {
    type Err = IpNetworkError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse().map(IpNetwork::V4).or_else(|_| s.parse().map(IpNetwork::V6))
    }
}
