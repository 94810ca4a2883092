//! Tokens of generated Rust text.
/// Whitespace-insensitive tokens of Rust text.
pub fn rust_tokens(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '"' {
            let j = i;
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i += 1;
            out.push(c[j..i.min(c.len())].iter().collect());
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let j = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(c[j..i].iter().collect());
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}

