//! Stand-in for semver: `major.minor.patch[-pre][+build]`.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Version {
    pub major: u64,
    pub minor: u64,
    pub patch: u64,
    pub pre: String,
    pub build: String,
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not a version")
    }
}
impl std::error::Error for Error {}
impl Version {
    pub fn parse(s: &str) -> Result<Self, Error> {
        let (s, build) = s.split_once('+').unwrap_or((s, ""));
        let (s, pre) = s.split_once('-').unwrap_or((s, ""));
        let mut n = s.split('.').map(|p| p.parse::<u64>().map_err(|_| Error));
        let mut next = || n.next().ok_or(Error)?;
        let v = Version { major: next()?, minor: next()?, patch: next()?, pre: pre.into(), build: build.into() };
        if n.next().is_some() {
            return Err(Error);
        }
        Ok(v)
    }
}
impl std::str::FromStr for Version {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        Self::parse(s)
    }
}
impl std::fmt::Display for Version {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
        if !self.pre.is_empty() {
            write!(f, "-{}", self.pre)?;
        }
        if !self.build.is_empty() {
            write!(f, "+{}", self.build)?;
        }
        Ok(())
    }
}
impl serde::Serialize for Version {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for Version {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}
