//! Reference lexer, written from the lexical rules of the Modelica specification
//! (relaxations: a backslash escapes whichever character follows it; `''` is tolerated).
//! A line ends with LF, CRLF or a lone CR.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Class {
    Punct,
    Keyword,
    Bool,
    Ident,
    Str,
    UInt,
    UReal,
    Line,
    Block,
}

#[derive(Debug, Clone)]
pub struct Item {
    pub class: Class,
    pub from: usize,
    pub to: usize,
    pub line: usize,
    pub col: usize,
    pub eline: usize,
    pub ecol: usize,
}
impl Item {
    pub fn is_comment(&self) -> bool {
        matches!(self.class, Class::Line | Class::Block)
    }
    pub fn text<'a>(&self, s: &'a str) -> &'a str {
        &s[self.from..self.to]
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LexErr {
    pub line: usize,
    pub col: usize,
    /// byte range of the erroneous lexeme
    pub from: usize,
    pub to: usize,
}

pub const KEYWORDS: &[&str] = &[
    "algorithm", "and", "annotation", "block", "break", "class", "connect", "connector", "constant", "constrainedby",
    "der", "discrete", "each", "else", "elseif", "elsewhen", "encapsulated", "end", "enumeration", "equation",
    "expandable", "extends", "external", "final", "flow", "for", "function", "if", "import", "impure", "in",
    "initial", "inner", "input", "loop", "model", "not", "operator", "or", "outer", "output", "package", "parameter",
    "partial", "protected", "public", "pure", "record", "redeclare", "replaceable", "return", "stream", "then",
    "type", "when", "while", "within",
];
pub const PUNCT: &[&str] = &[
    ":=", "==", "<>", "<=", ">=", ".+", ".-", ".*", "./", ".^", ";", ",", "+", "-", "*", "/", "^", "(", ")", "{", "}",
    "[", "]", ":", "=", "<", ">", ".",
];
const QCHARS: &str = "!#$%&()*+,-./:;<>=?@[]^{}|~ \"";

pub fn lex(s: &str) -> (Vec<Item>, Vec<LexErr>) {
    let b = s.as_bytes();
    let n = b.len();
    let mut items = Vec::new();
    let mut errs = Vec::new();
    let (mut i, mut line, mut col) = (0usize, 1usize, 1usize);
    let clen = |i: usize| s[i..].chars().next().unwrap().len_utf8();
    while i < n {
        let c = b[i];
        if matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c) {
            i += 1;
            if c == b'\n' || c == b'\r' && b.get(i) != Some(&b'\n') {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
            continue;
        }
        // find the extent of the lexeme
        let mut class = None;
        let mut j;
        if c.is_ascii_alphabetic() || c == b'_' {
            j = i;
            while j < n && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let w = &s[i..j];
            class = Some(if w == "true" || w == "false" {
                Class::Bool
            } else if KEYWORDS.contains(&w) {
                Class::Keyword
            } else {
                Class::Ident
            });
        } else if c.is_ascii_digit() {
            let digits = |mut k: usize| {
                while k < n && b[k].is_ascii_digit() {
                    k += 1;
                }
                k
            };
            j = digits(i);
            let mut real = false;
            if j < n && b[j] == b'.' {
                real = true;
                j = digits(j + 1);
            }
            if j < n && (b[j] == b'e' || b[j] == b'E') {
                let mut k = j + 1;
                if k < n && (b[k] == b'+' || b[k] == b'-') {
                    k += 1;
                }
                if digits(k) > k {
                    real = true;
                    j = digits(k);
                }
            }
            class = Some(if real { Class::UReal } else { Class::UInt });
        } else if c == b'"' {
            j = i + 1;
            loop {
                if j >= n {
                    break;
                }
                if b[j] == b'\\' {
                    j += 1;
                    if j < n {
                        j += clen(j);
                    }
                } else if b[j] == b'"' {
                    j += 1;
                    class = Some(Class::Str);
                    break;
                } else {
                    j += clen(j);
                }
            }
        } else if c == b'\'' {
            j = i + 1;
            loop {
                if j >= n {
                    break;
                }
                let d = s[j..].chars().next().unwrap();
                j += d.len_utf8();
                if d == '\\' {
                    if j < n {
                        j += clen(j);
                    }
                } else if d == '\'' {
                    class = Some(Class::Ident);
                    break;
                } else if !(d.is_ascii_alphanumeric() || d == '_' || QCHARS.contains(d)) {
                    break;
                }
            }
        } else if s[i..].starts_with("//") {
            j = i;
            while j < n && b[j] != b'\n' && b[j] != b'\r' {
                j += 1;
            }
            class = Some(Class::Line);
        } else if s[i..].starts_with("/*") {
            match s[i + 2..].find("*/") {
                Some(k) => {
                    j = i + 2 + k + 2;
                    class = Some(Class::Block);
                }
                None => j = n,
            }
        } else if let Some(p) = PUNCT.iter().find(|p| s[i..].starts_with(**p)) {
            j = i + p.len();
            class = Some(Class::Punct);
        } else {
            j = i + clen(i);
        }
        let (l0, c0) = (line, col);
        for (k, ch) in s[i..j].char_indices() {
            if ch == '\n' || ch == '\r' && b.get(i + k + 1) != Some(&b'\n') {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
        match class {
            Some(class) => items.push(Item { class, from: i, to: j, line: l0, col: c0, eline: line, ecol: col }),
            None => errs.push(LexErr { line: l0, col: c0, from: i, to: j }),
        }
        i = j;
    }
    (items, errs)
}
