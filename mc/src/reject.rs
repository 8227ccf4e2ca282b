//! C04, C05, C06, C08 on texts around the language: token sequences judged by the reference recogniser.
use crate::earley::*;
use crate::engine::*;
use crate::gram::*;
use crate::imp;
use crate::lexcheck::position;
use crate::model::Syms;
use crate::oracle::{bit, Viol};
use crate::reflex;
use mofmt::SyntaxKind;
use std::sync::atomic::Ordering::Relaxed;

/// What the recogniser says about a token sequence.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Verdict {
    Sentence,
    /// the first token that no valid program has there
    Bad(usize),
    /// a beginning of a valid program
    Short,
    /// a sentence but for erroneous lexemes
    Dirty,
}

pub struct Judge<'a> {
    pub g: &'a Grammar,
    pub s: &'a Syms,
    pub stats: &'a Stats,
    pub mask: u32,
    pub full: &'a Automata,
    /// without `end` as an operand
    pub strict: &'a Automata,
    pub layouts: &'a [Layout],
}
#[derive(Clone, Copy, PartialEq)]
pub enum Layout {
    Spaces,
    Lines,
    Crooked,
    /// long tokens: every position below 200 bytes is inside a multi-byte character of a string in one of `Wide(0)`, `Wide(1)`
    Wide(u8),
    /// far from the beginning: beyond line or column 65536, and some hundred lines or columns between the tokens
    Far(u8),
    /// erroneous lexemes before, between or after the tokens
    Dirty(u8),
}

/// Tokens of 100 characters and more.
fn wide_text_of(w: &str, i: usize, odd: u8, out: &mut String) {
    let pad = if odd > 0 { "x" } else { "" };
    match w {
        "IDENT" if i % 2 == 0 => out.push_str(&format!("a{}{pad}", "_b".repeat(60))),
        "IDENT" => out.push_str(&format!("'{pad}{}'", "\\\u{e9}".repeat(70))),
        "STRING" => out.push_str(&format!("\"{pad}{}\"", "\u{e9}".repeat(120))),
        "UINT" => out.push_str(&"12".repeat(60)),
        "UREAL" => out.push_str(&format!("{}.{}e+{}", "12".repeat(30), "3".repeat(40), "4".repeat(40))),
        _ => text_of(w, i, out),
    }
}

pub fn text_of(w: &str, i: usize, out: &mut String) {
    const NAMES: &[&str] = &["a", "b", "c", "d", "u", "v", "x", "y", "z"];
    match w {
        "IDENT" => out.push_str(NAMES[i % NAMES.len()]),
        "STRING" => out.push_str("\"s\""),
        "UINT" => out.push('1'),
        "UREAL" => out.push_str("2.5"),
        "BOOL" => out.push_str("true"),
        _ => out.push_str(w),
    }
}

impl Judge<'_> {
    pub fn render(&self, terms: &[Term], l: Layout, out: &mut String) {
        out.clear();
        for (i, t) in terms.iter().enumerate() {
            match l {
                Layout::Dirty(0) if i == 0 => out.push_str("# \n"),
                Layout::Dirty(1) => out.push_str(if i % 2 == 0 { " \u{e9} " } else { "\n! // c\n" }),
                Layout::Dirty(_) => out.push(' '),
                Layout::Spaces if i > 0 => out.push(' '),
                Layout::Lines if i > 0 => out.push('\n'),
                // every token at a place of its own, after multi-byte characters, tabs, comments and all kinds of line ends
                Layout::Crooked => out.push_str(match i % 6 {
                    0 => " /* \u{e9}\u{4e16} */ ",
                    1 => "\r\n\t\u{c}",
                    2 => " // \u{1f600}\n  ",
                    3 => " \u{c}",
                    4 => "\r\r   ",
                    _ => " /* \n\r\n */ ",
                }),
                Layout::Far(how) => {
                    let n = if i == 0 { 65700 } else { 300 };
                    out.extend(std::iter::repeat_n(if (i + how as usize) % 2 == 0 { '\n' } else { ' ' }, n));
                }
                Layout::Wide(_) => out.push_str(match i % 3 {
                    0 => " ",
                    1 => "\t/* \u{4e16}\u{4e16}\u{4e16} */",
                    _ => "          ",
                }),
                _ => {}
            }
            match l {
                Layout::Wide(odd) => wide_text_of(self.s.term(*t), i, odd, out),
                _ => text_of(self.s.term(*t), i, out),
            }
        }
        if l == Layout::Dirty(2) {
            out.push_str(if terms.len() % 2 == 0 { " $" } else { " \"a\n" });
        }
    }

    /// Judge one sequence in all layouts; `sentence` by the strict grammar.
    pub fn case(&self, terms: &[Term], v: Verdict, strict: bool, buf: &mut String, slot: &mut Slot) {
        for l in self.layouts {
            self.render(terms, *l, buf);
            if !self.stats.fresh(buf.as_bytes()) {
                continue;
            }
            slot.set(buf);
            self.text(buf, v, strict);
            self.stats.sample(|| buf.clone());
        }
    }

    pub fn bad(&self, p: u32, input: &str, detail: String) {
        if self.mask & bit(p) != 0 {
            self.stats.report(vec![Viol { prop: p, detail, input: input.to_string() }]);
        }
    }

    /// C08 for a file of that name, and the verdict of the recogniser.
    pub fn named(&self, name: &str, src: &str) {
        self.stats.accepted.fetch_add(1, Relaxed);
        let d = match imp::errors(name, src, SyntaxKind::StoredDefinition) {
            Err(e) => Some(format!("panic: {e}")),
            Ok(errors) => {
                let v = self.of_text(src);
                if errors.is_empty() && v == Verdict::Dirty {
                    return;
                }
                positions(name, src, &errors, v).map(|d| format!("{d}\nerrors: {}", errors.join(" | ")))
            }
        };
        if let Some(d) = d {
            self.bad(8, src, format!("file name {name:?}: {d}"));
        }
    }

    pub fn text(&self, src: &str, v: Verdict, strict: bool) {
        self.stats.accepted.fetch_add(1, Relaxed);
        if self.mask & bit(4) != 0 {
            if let imp::Fmt::Panic(e) = imp::format(src) {
                self.bad(4, src, format!("panic: {e}"));
            }
            return;
        }
        let name = if self.mask & bit(8) != 0 { NAMES[hash(src.as_bytes()) as usize % NAMES.len()] } else { "none" };
        let errors = match imp::errors(name, src, SyntaxKind::StoredDefinition) {
            Err(e) => {
                for p in [5, 6, 8] {
                    self.bad(p, src, format!("panic: {e}"));
                }
                return;
            }
            Ok(e) => e,
        };
        if v == Verdict::Sentence {
            if strict && !errors.is_empty() {
                self.bad(5, src, format!("valid program rejected: {}", errors.join(" | ")));
            }
            if self.mask & bit(8) == 0 || errors.is_empty() {
                return;
            }
        } else if errors.is_empty() {
            self.bad(6, src, format!("invalid program accepted ({v:?})"));
            return;
        }
        if self.mask & bit(8) != 0 {
            if let Some(d) = positions(name, src, &errors, v) {
                self.bad(8, src, format!("{d}\nerrors: {}", errors.join(" | ")));
            }
        }
    }
}

pub const NAMES: &[&str] = &[
    "none", "a.mo", "/x y/b.mo", "c:1:2: d.mo", "\u{105}\u{4e16}.mo", "", "..", "a\nb", "./a.mo", "../a.mo", "d//a.mo", "d/./a.mo", "d/../a.mo", "a.mo/", "~/a.mo",
    "C:\\d\\a.mo", "file:///a.mo", "-", "<stdin>", " a.mo ", "a.mo\n", "\ta.mo", "A.MO", ".mo", "package.mo", "{}", "{0}", "%s%n", "$HOME", "\"a\"", "'a'", "a.mo:", ":", "::",
    "1:1", "a\\b", "\u{1b}[1m", "\u{0}", "\u{feff}a.mo", "e\u{301}.mo", "\u{fffd}", "//", "/* a */", "model", "//?/C:/a.mo", "/a.mo", "/", ".", "a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o p q r s t u v w x y z a b c d e f g h i j k l m n o p q r s t u v w x y z.mo",
];

/// C08: where the errors are.
pub fn positions(name: &str, src: &str, errors: &[String], v: Verdict) -> Option<String> {
    let (items, lexical) = reflex::lex(src);
    let toks: Vec<(usize, usize)> = items.iter().filter(|i| !i.is_comment()).map(|i| (i.line, i.col)).collect();
    let mut lex: Vec<(usize, usize)> = lexical.iter().map(|e| (e.line, e.col)).collect();
    let mut first = None;
    for e in errors {
        let Some(p) = position(name, e) else {
            return Some(format!("error {e:?} is not of the form name:line:column: message"));
        };
        if let Some(k) = lex.iter().position(|x| *x == p) {
            lex.remove(k);
        } else if let Some(k) = toks.iter().position(|x| *x == p) {
            first = first.or(Some((k, e)));
        } else if toks.is_empty() && p == (1, 1) {
            first = first.or(Some((0, e)));
        } else {
            return Some(format!("error {e:?} is not located at a token"));
        }
    }
    if let Some(p) = lex.first() {
        return Some(format!("the lexical error at {p:?} is not reported"));
    }
    let latest = match v {
        Verdict::Sentence | Verdict::Dirty => return None,
        Verdict::Bad(k) => k,
        Verdict::Short => toks.len().saturating_sub(1),
    };
    match first {
        None => Some("no syntax error".into()),
        Some((k, e)) if k > latest => Some(format!("first syntax error {e:?} at token {k} although token {latest} is already wrong")),
        _ => None,
    }
}

/// Verdict of the rest of a sequence after the beginning that is in the chart (which is left unchanged).
pub fn judge(c: &mut Chart, rest: &[Term]) -> Verdict {
    let n = c.len();
    let mut v = None;
    for (i, t) in rest.iter().enumerate() {
        if !c.push(*t) {
            v = Some(Verdict::Bad(n + i));
            break;
        }
    }
    let v = v.unwrap_or(if c.accepts() { Verdict::Sentence } else { Verdict::Short });
    c.truncate(n);
    v
}

impl Judge<'_> {
    fn charts(&self) -> (Chart<'_>, Chart<'_>) {
        let root = self.g.nt("StoredDefinition");
        (Chart::new(self.full, root), Chart::new(self.strict, root))
    }
    /// A sequence of which the first `n` tokens are in the chart `c`.
    fn from(&self, c: &mut Chart, seq: &[Term], buf: &mut String, slot: &mut Slot) {
        let n = c.len();
        let v = judge(c, &seq[n..]);
        let strict = v == Verdict::Sentence && {
            let (_, mut s) = self.charts();
            judge(&mut s, seq) == Verdict::Sentence
        };
        self.case(seq, v, strict, buf, slot);
    }

    /// All single edits of a token sequence at positions `lo..hi`.
    pub fn edits(&self, terms: &[Term], lo: usize, hi: usize, buf: &mut String, slot: &mut Slot) {
        let nt = self.g.terms.len() as Term;
        let (mut c, _) = self.charts();
        for t in &terms[..lo] {
            if !c.push(*t) {
                return;
            }
        }
        let mut seq = terms.to_vec();
        for i in lo..=hi.min(terms.len()) {
            if self.stats.stopped() {
                return;
            }
            // truncated
            self.from(&mut c, &terms[..i], buf, slot);
            // inserted
            seq.clear();
            seq.extend_from_slice(terms);
            seq.insert(i, 0);
            for t in 0..nt {
                seq[i] = t;
                self.from(&mut c, &seq, buf, slot);
            }
            if i < terms.len() {
                // substituted
                seq.clear();
                seq.extend_from_slice(terms);
                for t in 0..nt {
                    seq[i] = t;
                    self.from(&mut c, &seq, buf, slot);
                }
                // ranges deleted, duplicated, moved
                for n in 1..=4.min(terms.len() - i) {
                    seq.clear();
                    seq.extend_from_slice(&terms[..i]);
                    seq.extend_from_slice(&terms[i + n..]);
                    self.from(&mut c, &seq, buf, slot);
                    seq.clear();
                    seq.extend_from_slice(&terms[..i + n]);
                    seq.extend_from_slice(&terms[i..]);
                    self.from(&mut c, &seq, buf, slot);
                    for m in 1..=2 {
                        if i + n + m <= terms.len() {
                            seq.clear();
                            seq.extend_from_slice(&terms[..i]);
                            seq.extend_from_slice(&terms[i + n..i + n + m]);
                            seq.extend_from_slice(&terms[i..i + n]);
                            seq.extend_from_slice(&terms[i + n + m..]);
                            self.from(&mut c, &seq, buf, slot);
                        }
                    }
                }
                if !c.push(terms[i]) {
                    return;
                }
            }
        }
    }

    /// Whole constructs inserted, or put in place of a token.
    pub fn inserts(&self, terms: &[Term], lo: usize, hi: usize, constructs: &[Vec<Term>], buf: &mut String, slot: &mut Slot) {
        let (mut c, _) = self.charts();
        for t in &terms[..lo] {
            if !c.push(*t) {
                return;
            }
        }
        let mut seq = vec![];
        for i in lo..=hi.min(terms.len()) {
            for q in constructs {
                for drop in 0..=1.min(terms.len() - i) {
                    seq.clear();
                    seq.extend_from_slice(&terms[..i]);
                    seq.extend_from_slice(q);
                    seq.extend_from_slice(&terms[i + drop..]);
                    self.from(&mut c, &seq, buf, slot);
                }
                if self.stats.stopped() {
                    return;
                }
            }
            if i < terms.len() && !c.push(terms[i]) {
                return;
            }
        }
    }

    /// Two tokens inserted, or one inserted and one substituted, or two substituted, side by side.
    pub fn double_edits(&self, terms: &[Term], lo: usize, hi: usize, buf: &mut String, slot: &mut Slot) {
        let nt = self.g.terms.len() as Term;
        let (mut c, _) = self.charts();
        for t in &terms[..lo] {
            c.push(*t);
        }
        for i in lo..=hi.min(terms.len()) {
            for drop in 0..=2.min(terms.len() - i) {
                let mut seq = terms[..i].to_vec();
                seq.extend([0, 0]);
                seq.extend_from_slice(&terms[i + drop..]);
                for t in 0..nt {
                    seq[i] = t;
                    let deeper = c.push(t);
                    for u in 0..nt {
                        seq[i + 1] = u;
                        if deeper {
                            self.from(&mut c, &seq, buf, slot);
                        } else {
                            self.case(&seq, Verdict::Bad(i), false, buf, slot);
                        }
                    }
                    if deeper {
                        let n = c.len();
                        c.truncate(n - 1);
                    }
                    if self.stats.stopped() {
                        return;
                    }
                }
            }
            if i < terms.len() && !c.push(terms[i]) {
                return;
            }
        }
    }

    /// All sequences of up to `n` terminals between a given beginning and end; the first one is `first`.
    pub fn sequences(&self, before: &[Term], after: &[Term], first: Option<Term>, n: usize, buf: &mut String, slot: &mut Slot) {
        let (mut c, _) = self.charts();
        let mut bad = None;
        let mut mid = before.to_vec();
        for (i, t) in before.iter().enumerate() {
            if bad.is_none() && !c.push(*t) {
                bad = Some(i);
            }
        }
        if let Some(t) = first {
            if bad.is_none() && !c.push(t) {
                bad = Some(mid.len());
            }
            mid.push(t);
        }
        self.extend(&mut c, &mut mid, after, n - first.is_some() as usize, bad, buf, slot);
    }
    #[allow(clippy::too_many_arguments)]
    fn extend(&self, c: &mut Chart, mid: &mut Vec<Term>, after: &[Term], n: usize, bad: Option<usize>, buf: &mut String, slot: &mut Slot) {
        let len = mid.len();
        mid.extend_from_slice(after);
        match bad {
            Some(k) => self.case(mid, Verdict::Bad(k), false, buf, slot),
            None => self.from(c, mid, buf, slot),
        }
        mid.truncate(len);
        if n == 0 || self.stats.stopped() {
            return;
        }
        for t in 0..self.g.terms.len() as Term {
            let ok = bad.is_none() && c.push(t);
            mid.push(t);
            self.extend(c, mid, after, n - 1, bad.or(if ok { None } else { Some(len) }), buf, slot);
            mid.pop();
            if ok {
                let k = c.len();
                c.truncate(k - 1);
            }
        }
    }

    /// The verdict on the tokens of a text with erroneous lexemes.
    fn of_text(&self, src: &str) -> Verdict {
        let terms: Vec<Term> = reflex::lex(src).0.iter().filter(|i| !i.is_comment()).map(|i| self.term_of(i, src)).collect();
        match judge(&mut self.charts().0, &terms) {
            Verdict::Sentence => Verdict::Dirty,
            v => v,
        }
    }
    fn term_of(&self, i: &reflex::Item, src: &str) -> Term {
        let w = match i.class {
            reflex::Class::Ident => "IDENT",
            reflex::Class::Str => "STRING",
            reflex::Class::UInt => "UINT",
            reflex::Class::UReal => "UREAL",
            reflex::Class::Bool => "BOOL",
            _ => i.text(src),
        };
        self.g.term(w).unwrap_or_else(|| panic!("no terminal {w:?}"))
    }

    /// The tokens of a text with erroneous lexemes in every gap.
    pub fn lexical(&self, terms: &[Term], lo: usize, hi: usize, _buf: &mut String, slot: &mut Slot) {
        const JUNK: &[&str] = &["#", "\u{e9}", "$x", "!", "\\", "'a\u{e9}", "@ ~", "\u{feff}", "\u{a0}", "\0", "'a\nb'"];
        const OPEN: &[&str] = &[
            "\"a", "\"", "\"\\", "\"a\\\"", "\"\u{e9}\n", "'a", "'", "'a\\'", "'\\", "/* a", "/*", "/*/", "/**", "/* *", "/* a\n*\n", "/* a /", "/* // a\n",
        ];
        let long: Vec<String> = ["\"", "\"x", "/*", "/*x", "\'x", "\'\\"]
            .iter()
            .flat_map(|x| [format!("{x}{}", "\u{e9}".repeat(100)), format!("{x}{}", "a\\\u{4e16}".repeat(40))])
            .collect();
        for l in self.layouts {
            for i in lo..=hi.min(terms.len()) {
                for j in JUNK.iter().chain(OPEN).copied().chain(long.iter().map(|x| x.as_str())) {
                    let mut a = String::new();
                    self.render(&terms[..i], *l, &mut a);
                    let mut b = String::new();
                    self.render(&terms[i..], *l, &mut b);
                    // also as the last thing in the file
                    for t in [format!("{a} {j} {b}\n"), format!("{a} {j}"), format!("{a} {b} {j}")] {
                        // (an open comment may find its end in a later one)
                        if self.stats.fresh(t.as_bytes()) && !reflex::lex(&t).1.is_empty() {
                            slot.set(&t);
                            self.text(&t, self.of_text(&t), false);
                        }
                    }
                }
            }
        }
    }
}
