//! A small JSON reader, enough for program files.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            J::Num(n) => *n as i64,
            J::Str(s) => s.parse().unwrap_or(0),
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn b(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Num(n) => *n != 0.0,
            _ => false,
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn dump(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => {
                if n.fract() == 0.0 { format!("{}", *n as i64) } else { n.to_string() }
            }
            J::Str(s) => format!("\"{}\"", s),
            J::Arr(v) => format!("[{}]", v.iter().map(|x| x.dump()).collect::<Vec<_>>().join(",")),
            J::Obj(m) => format!(
                "{{{}}}",
                m.iter().map(|(k, v)| format!("\"{}\":{}", k, v.dump())).collect::<Vec<_>>().join(",")
            ),
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing data at {}", i));
    }
    Ok(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("end".into()),
        Some(b'{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(m));
                    }
                    Some(b',') => *i += 1,
                    _ => {
                        let k = match val(b, i)? {
                            J::Str(s) => s,
                            _ => return Err("key".into()),
                        };
                        ws(b, i);
                        if b.get(*i) != Some(&b':') {
                            return Err(format!("colon at {}", i));
                        }
                        *i += 1;
                        let v = val(b, i)?;
                        m.insert(k, v);
                    }
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    Some(b',') => *i += 1,
                    _ => v.push(val(b, i)?),
                }
            }
        }
        Some(b'"') => {
            *i += 1;
            let mut s = Vec::new();
            while *i < b.len() && b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    s.push(match b.get(*i) {
                        Some(b'n') => b'\n',
                        Some(b't') => b'\t',
                        Some(c) => *c,
                        None => return Err("esc".into()),
                    });
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            String::from_utf8(s).map(J::Str).map_err(|e| e.to_string())
        }
        Some(b't') => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *i += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_digit() || b"+-.eE".contains(&b[*i])) {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i])
                .unwrap()
                .parse()
                .map(J::Num)
                .map_err(|e| format!("{} at {}", e, st))
        }
    }
}
