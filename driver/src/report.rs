//! JSON-lines output.
use std::io::Write;

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub struct Rec(Vec<(String, String)>);
impl Rec {
    pub fn new(kind: &str) -> Rec {
        Rec(vec![("kind".into(), esc(kind))])
    }
    pub fn s(mut self, k: &str, v: impl AsRef<str>) -> Rec {
        self.0.push((k.into(), esc(v.as_ref())));
        self
    }
    pub fn n(mut self, k: &str, v: i64) -> Rec {
        self.0.push((k.into(), v.to_string()));
        self
    }
    pub fn l<S: AsRef<str>>(mut self, k: &str, v: impl IntoIterator<Item = S>) -> Rec {
        let v: Vec<String> = v.into_iter().map(|x| esc(x.as_ref())).collect();
        self.0.push((k.into(), format!("[{}]", v.join(","))));
        self
    }
    pub fn emit(self) {
        let s = self.0.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let line = format!("{{{s}}}\n");
        match std::env::var("FMV_OUT") {
            Ok(p) => {
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).expect("FMV_OUT");
                f.write_all(line.as_bytes()).expect("write");
            }
            Err(_) => print!("{line}"),
        }
    }
}
