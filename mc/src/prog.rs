//! Programs (instantiated derivations) and layouts (what stands in the gaps between their tokens).
use crate::gram::*;
use crate::model::{self, Syms, Tree, TK};
use std::sync::Arc;

pub struct Prog {
    pub tree: Tree,
    pub terms: Vec<Term>,
    pub texts: Vec<String>,
    pub seps: Vec<bool>,
    /// token range of the construct under study
    pub focus: (usize, usize),
    pub what: String,
}

const IDENTS: &[&str] = &["a", "b", "c", "d", "u", "v", "x", "y", "z", "p", "q", "r", "n", "m", "k", "w"];

pub fn make(g: &Grammar, s: &Syms, root: &Arc<Node>, focus: *const Node, what: String) -> Prog {
    let mut terms = vec![];
    root.leaves(&mut terms);
    let mut range = None;
    let tree = model::index(root, &mut 0, focus, &mut range);
    let mut seen = [0usize; 5];
    let texts = terms
        .iter()
        .map(|t| {
            let w = g.terms[*t as usize].as_str();
            match w {
                "IDENT" => {
                    let i = seen[0];
                    seen[0] += 1;
                    if i < IDENTS.len() {
                        IDENTS[i].to_string()
                    } else {
                        format!("{}{}", IDENTS[i % IDENTS.len()], i / IDENTS.len())
                    }
                }
                "STRING" => {
                    seen[1] += 1;
                    format!("\"s{}\"", seen[1])
                }
                "UINT" => {
                    seen[2] += 1;
                    format!("{}", seen[2])
                }
                "UREAL" => {
                    seen[3] += 1;
                    format!("{}.5e-3", seen[3])
                }
                "BOOL" => {
                    seen[4] += 1;
                    if seen[4] % 2 == 1 { "true".into() } else { "false".into() }
                }
                _ => w.to_string(),
            }
        })
        .collect();
    let seps = model::separators(s, &tree);
    let n = terms.len();
    Prog { tree, terms, texts, seps, focus: range.unwrap_or((0, n)), what }
}

impl Prog {
    pub fn len(&self) -> usize {
        self.texts.len()
    }
    pub fn render(&self, gaps: &[&str], out: &mut String) {
        out.clear();
        for i in 0..self.texts.len() {
            out.push_str(gaps[i]);
            out.push_str(&self.texts[i]);
        }
        out.push_str(gaps[self.texts.len()]);
    }
    pub fn clone_with(&self, s: &Syms, at: usize, text: &str) -> Prog {
        let mut q = self.with_tree(s, copy(&self.tree), self.terms.clone());
        q.texts[at] = text.to_string();
        q
    }
    fn with_tree(&self, s: &Syms, tree: Tree, terms: Vec<Term>) -> Prog {
        let seps = model::separators(s, &tree);
        Prog { tree, terms, texts: self.texts.clone(), seps, focus: self.focus, what: self.what.clone() }
    }
    /// The tokens that are operands of their own.
    pub fn operands(&self, s: &Syms) -> Vec<usize> {
        fn go(s: &Syms, t: &Tree, out: &mut Vec<usize>) {
            if s.name(t.nt) == "Primary" && t.hi == t.lo + 1 {
                out.push(t.lo);
                return;
            }
            for k in &t.kids {
                if let TK::N(c) = k {
                    go(s, c, out);
                }
            }
        }
        let mut v = vec![];
        go(s, &self.tree, &mut v);
        v
    }
    /// With a string in place of each of some operands.
    pub fn with_strings(&self, s: &Syms, string: Term, at: &[usize], text: &str) -> Prog {
        fn go(s: &Syms, t: &mut Tree, string: Term, at: &[usize]) {
            if s.name(t.nt) == "Primary" && t.hi == t.lo + 1 && at.contains(&t.lo) {
                t.kids = vec![TK::T(string, t.lo)];
                return;
            }
            for k in &mut t.kids {
                if let TK::N(c) = k {
                    go(s, c, string, at);
                }
            }
        }
        let mut tree = copy(&self.tree);
        go(s, &mut tree, string, at);
        let mut terms = self.terms.clone();
        at.iter().for_each(|i| terms[*i] = string);
        let mut q = self.with_tree(s, tree, terms);
        at.iter().for_each(|i| q.texts[*i] = text.to_string());
        q
    }
}
fn copy(t: &Tree) -> Tree {
    let kids = t
        .kids
        .iter()
        .map(|k| match k {
            TK::T(a, b) => TK::T(*a, *b),
            TK::N(c) => TK::N(copy(c)),
        })
        .collect();
    Tree { nt: t.nt, lo: t.lo, hi: t.hi, kids }
}

pub const PLAIN: &[&str] = &[" ", "\n", "\n\n", "\n\n\n"];
pub const COMMENTED: &[&str] = &[
    " // c1\n",
    "\n// c1\n",
    " /* c1 */ ",
    "\n/* c1 */\n",
    " /* c1\n  c2 */ ",
    "\n\n// c1\n\n",
    " // c1\n// c2\n",
    "\n// c1\n\n// c2\n",
    " /* c1\n */ // c2\n",
    " /* c1 */ /* c2 */ ",
    "\n/* c1 */ ",
    " /* c1 */\n",
    "\n/* c1 */ // c2\n",
    " /* c1 */ // c2\n",
    " // c1\n\n\n// c2\n\n\n",
    " /* c1\n\n*/\n\n",
    "\n\n/* c1\n*/\n",
    " // c1\r",
    "\n/* c1 */ /* c2\n*/ ",
    " // c1\n// c1\n",
    "\n/* c1 */ /* c1 */\n/* c1 */ ",
];
/// alphabet for two gaps at once
pub const PAIRS: &[&str] = &[" ", "\n", "\n\n\n", " // c1\n", "\n// c1\n", " /* c1 */ ", " /* c1\n c2 */ ", "\n\n/* c1 */ // c2\n\n"];
pub const FIRST: &[&str] = &[
    "\n", "\n\n\n", "// c1\n", "// c1\n\n", "\n// c1\n", "/* c1 */ ", "/* c1\n */\n", "\n\n// c1\n// c2\n\n",
    "/* c1 */ // c2\n", "/* c1\n*/ /* c2 */ ", "/* c1 */\n\n// c2\n", " ", "// c1\n// c1\n",
];
pub const LAST: &[&str] = &[
    "", "\n\n\n", " // c1", " // c1\n", "\n// c1\n", "\n\n// c1\n", " /* c1 */", "\n/* c1\n */\n\n", " // c1\n// c2\n\n\n// c3",
    " /* c1\n*/ // c2\n", "\n\n\n/* c1 */ /* c2 */\n", "\n// c1\n// c1\n",
];
pub const PLAIN_FIRST: &[&str] = &["\n", "\n\n\n", " "];
pub const PLAIN_LAST: &[&str] = &["", "\n\n\n", " \n"];

/// Many comments or lines in one gap.
pub fn heaps() -> Vec<String> {
    let mut v: Vec<String> = vec!["\n".repeat(300), "\n".repeat(65540)];
    // counters of lines that come round
    for n in [255, 256, 257, 65535, 65536, 65537] {
        v.push("\n".repeat(n));
    }
    for n in [130, 1030, 66_000] {
        v.push(format!(" // {}\n", "c \u{e9}".repeat(n / 4)));
        v.push(format!(" /* {} */ ", "c \u{e9}".repeat(n / 4)));
        v.push(format!("\n/* {}*/\n", "c\n".repeat(n / 2)));
    }
    for n in [3, 4, 5, 8, 9, 16, 17, 33, 65, 300] {
        let number = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        v.push(format!(" {}", number(&|i| format!("// c{i}\n"))));
        v.push(format!("\n{}", number(&|i| format!("// c{i}\n"))));
        v.push(format!(" {}", number(&|i| format!("/* c{i} */ "))));
        if n < 30 {
            v.push(format!("\n\n{}", number(&|i| format!("// c{i}\n\n"))));
            v.push(format!(" {}", number(&|i| format!("/* c{i} */{}", if i % 2 == 0 { " " } else { "\n" }))));
            v.push(format!(" {}", number(&|i| if i % 3 == 0 { format!("/* c{i}\n */") } else { format!("// c{i}\n") })));
        }
    }
    v
}
/// What may stand before a program that is far from the beginning of its file.
pub fn far() -> Vec<String> {
    vec!["\n".repeat(65540), " ".repeat(65540), format!("/* {}*/ ", "\n".repeat(65540))]
}

const LINE: &[&str] = &[
    "//", "//c", "// c  ", "//\tc\t", "// \"c", "// /* c", "// c */", "// \u{e9}\u{4e16}\u{1f600}", "//// c", "///", "// 'c", "// c;", "//*", "// c\\",
    "//  c\u{a0}", "// end A;",
];
const BLOCK: &[&str] = &[
    "/**/", "/*c*/", "/***/", "/** c **/", "/* // c */", "/* \" */", "/* ' */", "/* /* */", "/*\tc\t*/", "/* c\n\n   d\n*/", "/*\n*/", "/*\n\n\n*/",
    "/* c\r\n d */", "/* c\rd */", "/* * / */", "/*/*/", "/* \u{e9}\n\u{1f600} */", "/* c  \n  d  \n  */", "/* ; */", "/* c\n// d\n*/", "/** c\n */",
];
/// Comments that mean something to one tool or another, and ones that look like rulers or code.
const MEANT: &[&str] = &[
    "// mofmt: off", "// mofmt: on", "// mofmt: skip", "// mofmt:off", "// fmt: off", "// fmt: skip", "//@formatter:off", "// clang-format off",
    "// format off", "// nofmt", "// noqa", "// NOLINT", "// TODO: c", "// FIXME c", "//! c", "//# c", "//region c", "//----------",
    "// ----- c -----", "//=====", "// *** c ***", "//TODO", "// http://a.b/c", "// vim: set ts=4:", "// <html>", "// generated, do not edit",
    "// @generated", "//", "// model A", "// x = y;", "// annotation(x = 1)", "// within P;",
    "/* mofmt: off */", "/* fmt: off */", "/*! c */", "/*-----*/", "/* ----- c ----- */", "/******/", "/*=====*/", "/* @formatter:off */",
    "/* TODO */", "/* x = y; */", "/* annotation(x = 1) */", "/* end A; */", "/* Copyright c */", "/*   */", "/* -*- mode: modelica -*- */",
    "/* \n * c\n * d\n */", "/*\tc\n\td */", "/*c\n\n*/",
];
/// Comments of every spelling, after something, before something, and on their own.
pub fn comment_gaps() -> Vec<String> {
    let mut v = vec![];
    for c in MEANT {
        if c.starts_with("//") {
            v.push(format!(" {c}\n"));
            v.push(format!("\n{c}\n"));
        } else {
            v.push(format!(" {c} "));
            v.push(format!("\n{c}\n"));
        }
    }
    for c in LINE {
        v.push(format!(" {c}\n"));
        v.push(format!("\n\n{c}\n"));
        v.push(format!(" {c}\n\n{c}\n"));
        v.push(format!(" {c}\r\n"));
    }
    for c in BLOCK {
        v.push(format!(" {c} "));
        v.push(format!("\n{c} "));
        v.push(format!(" {c}\n"));
        v.push(format!("\n{c}\n\n"));
        v.push(format!(" {c}{c} "));
        v.push(format!(" {c}//\n"));
    }
    v
}
/// Two comments of every spelling, one after the other.
pub fn comment_pairs() -> Vec<String> {
    let spellings = || LINE.iter().chain(BLOCK);
    let mut v = vec![];
    for a in spellings() {
        for b in spellings() {
            let end = if LINE.contains(b) { "\n" } else { " " };
            for s in if LINE.contains(a) { &["\n", "\n\n"][..] } else { &["", " ", "\n", "\n\n"] } {
                v.push(format!(" {a}{s}{b}{end}"));
                v.push(format!("\n{a}{s}{b}{}", if end == " " && s.len() == 1 { "\n" } else { end }));
            }
        }
    }
    v
}

/// Comments of every spelling as the first and the last thing of a file.
pub fn comment_ends() -> (Vec<String>, Vec<String>) {
    let (mut first, mut last) = (vec![], vec![]);
    for c in LINE.iter().chain(BLOCK).chain(MEANT) {
        let line = c.starts_with("//");
        first.extend([format!("{c}\n"), format!("{c}\n\n\n"), format!("\n{c}\n{c}\n"), format!("{c}\r\n")]);
        last.extend([format!(" {c}"), format!("\n{c}"), format!("\n\n\n{c}"), format!(" {c}\n"), format!("\n{c}\n\n"), format!("{c}\n{c}")]);
        if !line {
            first.extend([format!("{c} "), c.to_string(), format!("{c}{c} {c}")]);
            last.extend([format!("{c}{c}"), format!("{c}//"), format!("\n{c} // c")]);
        }
    }
    (first, last)
}

/// Other spellings of a terminal.
pub fn alternatives(term: &str) -> &'static [&'static str] {
    match term {
        "IDENT" => &[
            "'quoted'", "'a b'", "'end'", "'/* no */'", "'// no'", "'\\''", "'a;b'", "'\"'", "_u_1", "endx", "ifa", "x_e1", "E",
            "aVeryLongIdentifierThatGoesOnAndOnForMoreThanSixtyFourCharactersInOneLine_0123456789",
        ],
        "STRING" => &[
            "\"\"", "\"a\nb\"", "\"\n\"", "\"a\n\n\n  b \n\"", "\"q\\\"q\"", "\"\\\\\"", "\"// no\"", "\"/* no\"", "\"*/\"", "\"\u{105}\u{4e16}\u{1f600}\"", "\"'\"",
            "\"tab\tend \"", "\"a\r\nb\"", "\"end M;\"", "\"\\n\"",
        ],
        "UINT" => &["0", "00", "007", "10", "100", "1000000", "2147483648", "9223372036854775808", "12345678901234567890123"],
        "UREAL" => &[
            "1.", "0.", "0.0", "0.10", "1.00", "00.5", "1e3", "1.e3", "1E-3", "1e-3", "2.5e+10", "1.5E00", "1e05", "1E+05", "0e0", "1.0e0", "1000000.0", "0.000001",
            "3.14159265358979323846264338327950288", "1e400", "1e-400",
        ],
        "BOOL" => &["true", "false"],
        _ => &[],
    }
}
