//! A minimal JSON writer (no dependencies are available to a rustc driver offline).
#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}
pub fn i<T: TryInto<i128>>(t: T) -> J {
    match t.try_into() {
        Ok(v) => J::I(v),
        Err(_) => J::Null,
    }
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(n) => out.push_str(&n.to_string()),
            J::S(t) => esc(t, out),
            J::A(v) => {
                out.push('[');
                for (k, e) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    e.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    esc(n, out);
                    out.push(':');
                    e.write(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push_str(",\n");
                    }
                    esc(n, out);
                    out.push(':');
                    e.write(out);
                }
                out.push('}');
            }
        }
    }
}

fn esc(t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
