//! Words over the characters that mean something to the shell, and the ways of writing them.
#![allow(dead_code)]
pub const SIGMA: &[char] = &[
    'a', ' ', '\'', '"', '\\', '$', ';', '|', '&', '<', '>', '(', ')', '{', '}', '*', '?', '[', ']', '~', '#', '!', '`', '=', '\n', 'é', '-', '%',
    ',', '\t', '@', ':', '1', '2', '漢', '/', '.', '^', '+',
];

pub fn esc(w: &str) -> String {
    w.chars().map(|c| if c.is_alphanumeric() || "-/.,%+=@:".contains(c) { c.to_string() } else { format!("\\{c}") }).collect()
}
pub fn squote(w: &str) -> String {
    format!("'{}'", w.replace('\\', "\\\\").replace('\'', "\\'"))
}
pub fn dquote(w: &str) -> String {
    let mut s = String::from("\"");
    for c in w.chars() {
        if "\"\\$`".contains(c) {
            s.push('\\');
        }
        s.push(c);
    }
    s + "\""
}

pub fn words(sigma: &[char], n: usize, f: &mut dyn FnMut(&str)) {
    let k = sigma.len();
    for code in 0..k.pow(n as u32) {
        let mut x = code;
        let w: String = (0..n)
            .map(|_| {
                let ch = sigma[x % k];
                x /= k;
                ch
            })
            .collect();
        f(&w);
    }
}

