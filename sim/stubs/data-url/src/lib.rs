//! Stand-in for `data-url`: `data:[<type>][;base64],<data>` with percent encoding.
pub struct DataUrl<'a> { base64: bool, body: &'a str }
#[derive(Debug)] pub struct DataUrlError;
#[derive(Debug)] pub struct InvalidBase64;
impl<'a> DataUrl<'a> {
    pub fn process(s: &'a str) -> Result<Self, DataUrlError> {
        let rest = s.trim().strip_prefix("data:").ok_or(DataUrlError)?;
        let (head, body) = rest.split_once(',').ok_or(DataUrlError)?;
        let body = body.split('#').next().unwrap_or(body);
        Ok(Self { base64: head.trim_end().to_ascii_lowercase().ends_with(";base64"), body })
    }
    pub fn decode_to_vec(&self) -> Result<(Vec<u8>, Option<()>), InvalidBase64> {
        let b = self.body.as_bytes();
        let mut raw = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() { if let Ok(v) = u8::from_str_radix(&self.body[i + 1..i + 3], 16) { raw.push(v); i += 3; continue } }
            raw.push(b[i]);
            i += 1;
        }
        if !self.base64 { return Ok((raw, None)) }
        let mut out = vec![];
        let (mut acc, mut bits) = (0u32, 0);
        let mut pad = false;
        for c in raw {
            let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63, b'=' => { pad = true; continue } b' ' | b'\t' | b'\n' | b'\r' => continue, _ => return Err(InvalidBase64) };
            if pad { return Err(InvalidBase64) }
            acc = acc << 6 | v as u32; bits += 6;
            if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1 }
        }
        if bits >= 6 { return Err(InvalidBase64) }
        Ok((out, None))
    }
}
