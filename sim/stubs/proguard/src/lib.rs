//! Stand-in for `rust-proguard`. Mappings are JSON:
//! `{"lines": bool, "classes": {obfuscated: {"name": .., "methods": {obfuscated: [{"params": "int,a.B", "range": [s, e]|null, "frames": [[class, method, file|null, line]..]}..]}}}}`.
use serde_json::Value;
use std::io::Write;
fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3) } h }

#[derive(Clone, Debug)]
pub struct ProguardMapping<'s> { v: Option<Value>, _p: std::marker::PhantomData<&'s [u8]> }
impl<'s> ProguardMapping<'s> {
    pub fn new(b: &'s [u8]) -> Self { Self { v: serde_json::from_slice::<Value>(b).ok().filter(|v| v["classes"].is_object()), _p: Default::default() } }
    pub fn is_valid(&self) -> bool { self.v.is_some() }
    pub fn has_line_info(&self) -> bool { self.v.as_ref().is_some_and(|v| v["lines"] == true) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StackFrame<'s> { class: &'s str, method: &'s str, line: usize, file: Option<&'s str>, parameters: Option<&'s str> }
impl<'s> StackFrame<'s> {
    pub fn new(class: &'s str, method: &'s str, line: usize) -> Self { Self { class, method, line, file: None, parameters: None } }
    pub fn with_file(class: &'s str, method: &'s str, line: usize, file: &'s str) -> Self { Self { class, method, line, file: Some(file), parameters: None } }
    pub fn with_parameters(class: &'s str, method: &'s str, parameters: &'s str) -> Self { Self { class, method, line: 0, file: None, parameters: Some(parameters) } }
    pub fn class(&self) -> &str { self.class }
    pub fn method(&self) -> &str { self.method }
    pub fn file(&self) -> Option<&str> { self.file }
    pub fn line(&self) -> usize { self.line }
    pub fn parameters(&self) -> Option<&str> { self.parameters }
}

#[derive(Debug)]
pub struct CacheError(&'static str);
impl std::fmt::Display for CacheError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for CacheError {}

pub struct DeobfuscatedSignature { params: Vec<String>, ret: String }
impl DeobfuscatedSignature {
    pub fn parameters_types(&self) -> impl Iterator<Item = &str> { self.params.iter().map(|s| s.as_str()) }
    pub fn return_type(&self) -> &str { &self.ret }
    pub fn format_signature(&self) -> String {
        let mut s = format!("({})", self.params.join(", "));
        if self.ret != "void" { s += ": "; s += &self.ret }
        s
    }
}

#[derive(Clone, Debug)]
pub struct ProguardCache<'a> { v: Value, _p: std::marker::PhantomData<&'a [u8]> }
impl<'a> ProguardCache<'a> {
    pub fn write<W: Write>(m: &ProguardMapping, w: &mut W) -> std::io::Result<()> {
        let body = serde_json::to_vec(m.v.as_ref().unwrap()).unwrap();
        w.write_all(format!("PGC1 {} {:016x}\n", body.len(), fnv(&body)).as_bytes())?;
        w.write_all(&body)
    }
    pub fn parse(b: &'a [u8]) -> Result<Self, CacheError> {
        let p = b.iter().position(|c| *c == b'\n').ok_or(CacheError("bad header"))?;
        if b[..p] != *format!("PGC1 {} {:016x}", b.len() - p - 1, fnv(&b[p + 1..])).as_bytes() { return Err(CacheError("bad cache")) }
        Ok(Self { v: serde_json::from_slice(&b[p + 1..]).map_err(|_| CacheError("bad body"))?, _p: Default::default() })
    }
    pub fn test(&self) {}
    fn class(&self, c: &str) -> Option<&Value> { self.v["classes"].get(c) }
    pub fn remap_class(&'a self, class: &str) -> Option<&'a str> { self.class(class)?["name"].as_str() }
    pub fn remap_method(&'a self, class: &str, method: &str) -> Option<(&'a str, &'a str)> {
        let c = self.class(class)?;
        let mut names = c["methods"].get(method)?.as_array()?.iter().map(|e| { let f = e["frames"].as_array().unwrap().last().unwrap(); f[1].as_str().unwrap() });
        let first = names.next()?;
        names.all(|n| n == first).then_some((c["name"].as_str()?, first))
    }
    pub fn remap_frame<'r>(&'r self, f: &StackFrame<'r>) -> std::vec::IntoIter<StackFrame<'r>> {
        let mut out = vec![];
        if let Some(es) = self.class(f.class).and_then(|c| c["methods"].get(f.method)).and_then(|e| e.as_array()) {
            for e in es {
                let hit = match f.parameters { Some(p) => e["params"].as_str() == Some(p), None => match e["range"].as_array() { None => true, Some(r) => f.line as u64 >= r[0].as_u64().unwrap() && f.line as u64 <= r[1].as_u64().unwrap() } };
                if !hit { continue }
                for x in e["frames"].as_array().unwrap() {
                    let line = x[3].as_u64().unwrap() as usize + e["range"].get(0).and_then(|s| s.as_u64()).map_or(0, |s| f.line.saturating_sub(s as usize));
                    out.push(StackFrame { class: x[0].as_str().unwrap(), method: x[1].as_str().unwrap(), file: x[2].as_str(), line, parameters: f.parameters });
                }
            }
        }
        out.into_iter()
    }
    fn java_type(&self, t: &str, hit: &mut bool) -> Option<String> {
        Some(match t.chars().next()? {
            'I' => "int".into(), 'Z' => "boolean".into(), 'V' => "void".into(),
            'L' => { let c = t[1..].strip_suffix(';')?.replace('/', "."); match self.remap_class(&c) { Some(n) => { *hit = true; n.to_string() } None => c } }
            _ => return None,
        })
    }
    /// Signatures of which no class is known are not translated.
    pub fn deobfuscate_signature(&self, s: &str) -> Option<DeobfuscatedSignature> {
        let (p, r) = s.strip_prefix('(')?.split_once(')')?;
        let (mut params, mut hit, mut rest) = (vec![], false, p);
        while !rest.is_empty() {
            let n = if rest.starts_with('L') { rest.find(';')? + 1 } else { 1 };
            params.push(self.java_type(rest.get(..n)?, &mut hit)?);
            rest = &rest[n..];
        }
        let ret = self.java_type(r, &mut hit)?;
        hit.then_some(DeobfuscatedSignature { params, ret })
    }
}
