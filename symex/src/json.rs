//! Minimal JSON output.
#[derive(Clone, Debug)]
pub enum J {
    N(f64),
    I(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    pub fn txt(&self) -> String {
        match self {
            J::N(x) => format!("{:.3}", x),
            J::I(x) => x.to_string(),
            J::B(x) => x.to_string(),
            J::S(x) => {
                let mut r = String::from("\"");
                for ch in x.chars() {
                    match ch {
                        '"' => r.push_str("\\\""),
                        '\\' => r.push_str("\\\\"),
                        '\n' => r.push_str("\\n"),
                        c if (c as u32) < 32 => r.push(' '),
                        c => r.push(c),
                    }
                }
                r.push('"');
                r
            }
            J::A(v) => format!("[{}]", v.iter().map(|x| x.txt()).collect::<Vec<_>>().join(", ")),
            J::O(v) => format!(
                "{{{}}}",
                v.iter().map(|(k, x)| format!("{}: {}", s(k.clone()).txt(), x.txt())).collect::<Vec<_>>().join(", ")
            ),
        }
    }
}
