//! Stand-in for `data-url`: `data:[type][;base64],body`, percent-decoded.
#[derive(Debug)]
pub enum DataUrlError {
    NotADataUrl,
    NoComma,
}
pub mod forgiving_base64 {
    #[derive(Debug)]
    pub struct InvalidBase64;
}
pub struct DataUrl<'a> {
    base64: bool,
    body: &'a str,
}
pub struct FragmentIdentifier;
impl<'a> DataUrl<'a> {
    pub fn process(input: &'a str) -> Result<Self, DataUrlError> {
        let rest = input.trim().get(..5).filter(|p| p.eq_ignore_ascii_case("data:")).map(|_| &input.trim()[5..]).ok_or(DataUrlError::NotADataUrl)?;
        let (head, body) = rest.split_once(',').ok_or(DataUrlError::NoComma)?;
        let base64 = head.rsplit_once(';').is_some_and(|(_, e)| e.trim().eq_ignore_ascii_case("base64"));
        Ok(DataUrl { base64, body: body.split('#').next().unwrap() })
    }
    pub fn decode_to_vec(&self) -> Result<(Vec<u8>, Option<FragmentIdentifier>), forgiving_base64::InvalidBase64> {
        let b = self.body.as_bytes();
        let mut v = vec![];
        let mut i = 0;
        let hex = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16)).map(|d| d as u8);
        while i < b.len() {
            match (b[i], hex(b.get(i + 1)), hex(b.get(i + 2))) {
                (b'%', Some(x), Some(y)) => {
                    v.push(x * 16 + y);
                    i += 3;
                }
                (b'\t' | b'\n' | b'\r', ..) => i += 1,
                (c, ..) => {
                    v.push(c);
                    i += 1;
                }
            }
        }
        if !self.base64 {
            return Ok((v, None));
        }
        let mut s: Vec<u8> = v.into_iter().filter(|c| !c.is_ascii_whitespace()).collect();
        if s.len() % 4 == 0 {
            for _ in 0..2 {
                if s.last() == Some(&b'=') {
                    s.pop();
                }
            }
        }
        if s.len() % 4 == 1 {
            return Err(forgiving_base64::InvalidBase64);
        }
        let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
        for c in s {
            let d = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return Err(forgiving_base64::InvalidBase64),
            };
            acc = (acc << 6 | d as u32) & 0xff_ffff;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                out.push((acc >> bits) as u8);
            }
        }
        Ok((out, None))
    }
}
