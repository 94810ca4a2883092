//! A minimal JSON writer.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Object of string values.
pub fn obj(kv: &[(&str, String)]) -> String {
    let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}: {}", s(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}
