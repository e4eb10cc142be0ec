//! Stand-in for `symbolic-sourcemapcache`. Source maps are JSON with `sources`, `sourcesContent` and
//! `tokens` (`[line, column, source, source line, source column, name]`, zero-based). The scope of a token is named
//! after its name and the minified source the cache was made from.
use serde_json::Value;
use std::io::Write;
fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3) } h }
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub type SourceMapCacheErrorKind = ();
pub struct SourceMapCacheWriter(Vec<u8>);
impl SourceMapCacheWriter {
    pub fn new(source: &str, sourcemap: &str) -> Result<Self, Error> {
        let v: Value = serde_json::from_str(sourcemap).map_err(|_| Error("bad source map".into()))?;
        if !v["tokens"].is_array() || !v["sources"].is_array() { return Err(Error("bad source map".into())) }
        let body = serde_json::to_vec(&serde_json::json!({"map": v, "src": format!("{:016x}", fnv(source.as_bytes()))})).unwrap();
        let mut out = format!("SMC1 {} {:016x}\n", body.len(), fnv(&body)).into_bytes();
        out.extend(body);
        Ok(Self(out))
    }
    pub fn serialize<W: Write>(self, w: &mut W) -> std::io::Result<()> { w.write_all(&self.0) }
}
#[derive(Debug, Clone)]
pub struct SourceMapCache<'a> { map: Value, src: String, _p: std::marker::PhantomData<&'a [u8]> }
impl<'s, 'a: 's> crate::common::AsSelf<'s> for SourceMapCache<'a> { type Ref = SourceMapCache<'s>; fn as_self(&'s self) -> &'s Self::Ref { self } }
impl<'a> SourceMapCache<'a> {
    pub fn parse(b: &'a [u8]) -> Result<Self, Error> {
        let bad = || Error("bad cache".into());
        let p = b.iter().position(|c| *c == b'\n').ok_or_else(bad)?;
        let head = format!("SMC1 {} {:016x}", b.len() - p - 1, fnv(&b[p + 1..]));
        if b[..p] != *head.as_bytes() { return Err(bad()) }
        let mut v: Value = serde_json::from_slice(&b[p + 1..]).map_err(|_| bad())?;
        Ok(Self { map: v["map"].take(), src: v["src"].as_str().unwrap().to_string(), _p: Default::default() })
    }
    pub fn lookup(&self, sp: SourcePosition) -> Option<SourceLocation<'_>> {
        let at = (sp.line as u64, sp.column as u64);
        let n = |t: &Value, i: usize| t[i].as_u64().unwrap_or(0);
        let t = self.map["tokens"].as_array()?.iter().filter(|t| (n(t, 0), n(t, 1)) <= at && n(t, 0) == at.0).max_by_key(|t| n(t, 1))?;
        let name = t[5].as_str();
        Some(SourceLocation { cache: self, line: n(t, 3) as u32, col: n(t, 4) as u32, file: t[2].as_u64(), name, scope: format!("{}@{}", name.unwrap_or("?"), self.src) })
    }
}
pub struct SourcePosition { pub line: u32, pub column: u32 }
impl SourcePosition { pub fn new(line: u32, column: u32) -> Self { Self { line, column } } }
pub enum ScopeLookupResult<'a> { NamedScope(&'a str), AnonymousScope, Unknown }
pub struct SourceLocation<'a> { cache: &'a SourceMapCache<'a>, line: u32, col: u32, file: Option<u64>, name: Option<&'a str>, scope: String }
pub struct File<'a> { name: Option<&'a str>, source: Option<&'a str> }
impl<'a> File<'a> { pub fn name(&self) -> Option<&'a str> { self.name } pub fn source(&self) -> Option<&'a str> { self.source } }
impl<'a> SourceLocation<'a> {
    pub fn name(&self) -> Option<&'a str> { self.name }
    pub fn scope(&self) -> ScopeLookupResult<'_> { match self.name { None => ScopeLookupResult::AnonymousScope, Some("") => ScopeLookupResult::Unknown, Some(_) => ScopeLookupResult::NamedScope(&self.scope) } }
    pub fn line(&self) -> u32 { self.line }
    pub fn column(&self) -> u32 { self.col }
    pub fn file(&self) -> Option<File<'a>> {
        let i = self.file? as usize;
        Some(File { name: Some(self.cache.map["sources"][i].as_str()?), source: self.cache.map["sourcesContent"][i].as_str() })
    }
    pub fn file_name(&self) -> Option<&'a str> { self.file()?.name }
}
