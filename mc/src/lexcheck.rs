//! C07: the lexer against the reference lexer, on every text over given alphabets up to given lengths.
use crate::engine::*;
use crate::imp;
use crate::oracle::Viol;
use crate::reflex::{self, Class};
use mofmt::SyntaxKind;
use std::collections::HashMap;
use std::sync::atomic::Ordering::Relaxed;

/// Characters of every lexical kind, including some that Modelica does not know.
pub const ALPHABET: &[&str] = &[
    "a", "e", "E", "_", "0", "1", ".", "+", "-", "*", "/", "^", "=", "<", ">", ":", ";", ",", "(", ")", "{", "}", "[", "]",
    "\"", "'", "\\", " ", "\t", "\n", "\r", "\x0c", "\x0b", "#", "!", "@", "\u{e9}", "\u{4e16}", "\u{1f600}", "\0", "\u{a0}",
    "\u{feff}", "\u{2028}", "\u{0662}",
];
pub const SMALL: &[(&str, &[&str], usize, usize)] = &[
    ("numbers", &["1", "0", ".", "e", "E", "+", "-", " ", "a"], 7, 8),
    ("strings", &["\"", "\\", "a", "\n", "\r", "\u{e9}", "/"], 8, 9),
    ("comments", &["/", "*", "\n", "\r", "a", " ", "\"", "\u{e9}"], 7, 8),
    ("quoted identifiers", &["'", "\\", "a", "\"", "\n", "\u{e9}", " ", "@"], 7, 8),
    ("operators", &["+", "-", "*", "/", "^", ".", ":", "=", "<", ">", "(", ")", "1", "a", " ", "\n"], 5, 6),
    ("line ends", &["\n", "\r", " ", "\t", "\x0c", "a", "\"", "/", "*"], 7, 8),
    ("words", &["t", "r", "u", "e", "i", "f", "n", "_", "1", " "], 6, 7),
];

fn id<T>(k: &T) -> u32 {
    let p = k as *const T as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| (unsafe { *p.add(i) } as u32) << (8 * i.min(3))).sum()
}

#[derive(Debug, PartialEq, Eq)]
struct Tok {
    order: usize,
    text: String,
    kind: u32,
    start: (usize, usize),
    eline: usize,
    comment: bool,
}

pub struct Lex {
    kinds: HashMap<(Class, &'static str), u32>,
    by_text: Vec<(&'static str, u32)>,
    class_kind: Vec<(Class, u32)>,
}

/// Lex through the public interface: an entry that consumes nothing and reports nothing by itself.
fn lexed(src: &str) -> Result<(Vec<Tok>, Vec<String>), String> {
    imp::guard(|| {
        let p = mofmt::parse("none", src, SyntaxKind::BasePrefix);
        let mut v = vec![];
        for (list, c) in [(p.tokens, false), (p.comments, true)] {
            for t in list {
                v.push(Tok {
                    order: t.idx,
                    kind: id(&t.kind),
                    text: t.text,
                    start: (t.start.line, t.start.col),
                    eline: t.end.line,
                    comment: c,
                });
            }
        }
        (v, p.errors)
    })
}

impl Lex {
    pub fn new() -> Result<Lex, Viol> {
        let mut l = Lex { kinds: HashMap::new(), by_text: vec![], class_kind: vec![] };
        let mut kind = |s: &'static str| match lexed(s) {
            Ok((v, e)) if v.len() == 1 && e.is_empty() && v[0].text == s => Ok(v[0].kind),
            other => Err(Viol { prop: 7, input: s.into(), detail: format!("{s:?} is not one token: {other:?}") }),
        };
        for s in reflex::KEYWORDS.iter().chain(reflex::PUNCT) {
            let k = kind(s)?;
            l.by_text.push((s, k));
        }
        for (c, s) in [
            (Class::Bool, "true"),
            (Class::Ident, "x"),
            (Class::Str, "\"s\""),
            (Class::UInt, "1"),
            (Class::UReal, "1.5"),
            (Class::Line, "// c"),
            (Class::Block, "/* c */"),
        ] {
            l.class_kind.push((c, kind(s)?));
        }
        let mut all: Vec<u32> = l.by_text.iter().map(|x| x.1).chain(l.class_kind.iter().map(|x| x.1)).collect();
        all.sort();
        let n = all.len();
        all.dedup();
        if all.len() != n {
            return Err(Viol { prop: 7, input: String::new(), detail: "two different kinds of tokens have one type".into() });
        }
        for (s, k) in &l.by_text {
            let c = if s.as_bytes()[0].is_ascii_alphabetic() { Class::Keyword } else { Class::Punct };
            l.kinds.insert((c, s), *k);
        }
        Ok(l)
    }
    fn kind(&self, c: Class, text: &str) -> u32 {
        match c {
            Class::Keyword | Class::Punct => self.by_text.iter().find(|x| x.0 == text).map_or(u32::MAX, |x| x.1),
            _ => self.class_kind.iter().find(|x| x.0 == c).unwrap().1,
        }
    }

    /// Compare implementation and reference on one text.
    pub fn compare(&self, src: &str) -> Option<String> {
        let (mut got, errors) = match lexed(src) {
            Err(e) => return Some(format!("panic: {e}")),
            Ok(x) => x,
        };
        let (want, werr) = reflex::lex(src);
        got.sort_by_key(|t| t.order);
        if got.windows(2).any(|w| w[0].order == w[1].order) {
            return Some("two tokens with the same index".into());
        }
        for (i, w) in want.iter().enumerate() {
            let Some(g) = got.get(i) else {
                return Some(format!("missing token {i}: {:?}", w.text(src)));
            };
            if g.text != w.text(src) {
                return Some(format!("token {i} is {:?} instead of {:?}", g.text, w.text(src)));
            }
            if g.kind != self.kind(w.class, w.text(src)) || g.comment != w.is_comment() {
                return Some(format!("token {i} {:?} has the wrong kind (should be {:?})", g.text, w.class));
            }
            if g.start != (w.line, w.col) {
                return Some(format!("token {i} {:?} located at {:?} instead of {:?}", g.text, g.start, (w.line, w.col)));
            }
            if g.eline != w.eline {
                return Some(format!("token {i} {:?} ends in line {} instead of {}", g.text, g.eline, w.eline));
            }
        }
        if got.len() > want.len() {
            return Some(format!("additional token {:?}", got[want.len()].text));
        }
        let mut a: Vec<Option<(usize, usize)>> = errors.iter().map(|e| position("none", e)).collect();
        let mut b: Vec<Option<(usize, usize)>> = werr.iter().map(|e| Some((e.line, e.col))).collect();
        a.sort();
        b.sort();
        if a != b {
            return Some(format!("errors {errors:?}, should be at {b:?}"));
        }
        None
    }
}

/// `<name>:<line>:<col>: <message>`
pub fn position(name: &str, e: &str) -> Option<(usize, usize)> {
    let r = e.strip_prefix(name)?.strip_prefix(':')?;
    let (l, r) = r.split_once(':')?;
    let (c, r) = r.split_once(':')?;
    let m = r.strip_prefix(' ')?;
    let num = |s: &str| if s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None };
    if m.is_empty() {
        return None;
    }
    Some((num(l)?, num(c)?))
}

/// Call `f` with every string over `alpha` of length `from..=to`; work is split by the first two characters.
pub fn strings(stats: &Stats, name: &str, alpha: &[&str], from: usize, to: usize, f: &(dyn Fn(&str, &mut Slot) + Sync)) {
    if stats.stopped() {
        return;
    }
    let before = (stats.states.load(Relaxed), std::time::Instant::now());
    let n = alpha.len();
    let split = to.min(2);
    let short = if from < split { 1 } else { 0 };
    parallel(stats, n.pow(split as u32) + short, |i, slot| {
        let mut count = 0u64;
        let mut one = |s: &str, slot: &mut Slot| {
            count += 1;
            f(s, slot);
        };
        if short == 1 && i == n.pow(split as u32) {
            for len in from..split {
                for k in 0..n.pow(len as u32) {
                    let mut s = String::new();
                    let mut k = k;
                    for _ in 0..len {
                        s.push_str(alpha[k % n]);
                        k /= n;
                    }
                    one(&s, slot);
                }
            }
        } else {
            let mut prefix = String::new();
            let mut k = i;
            for _ in 0..split {
                prefix.push_str(alpha[k % n]);
                k /= n;
            }
            for len in from.max(split)..=to {
                let rest = len - split;
                let mut digits = vec![0usize; rest];
                let mut s = String::new();
                'all: loop {
                    s.clear();
                    s.push_str(&prefix);
                    for d in &digits {
                        s.push_str(alpha[*d]);
                    }
                    one(&s, slot);
                    let mut p = rest;
                    loop {
                        if p == 0 {
                            break 'all;
                        }
                        p -= 1;
                        digits[p] += 1;
                        if digits[p] < n {
                            break;
                        }
                        digits[p] = 0;
                    }
                    if digits.last() == Some(&0) && stats.stopped() {
                        break;
                    }
                }
            }
        }
        stats.states.fetch_add(count, Relaxed);
        stats.transitions.fetch_add(count, Relaxed);
        stats.accepted.fetch_add(count, Relaxed);
    });
    stats.pass(&format!("all strings of {from}..{to} characters over {name}"), before);
}

/// Spellings of every lexical kind and near misses.
pub fn spellings() -> Vec<String> {
    let mut v: Vec<String> = reflex::PUNCT.iter().map(|s| s.to_string()).collect();
    for s in [
        "a", "_", "a1", "e5", "E", "true", "false", "if", "end", "within", "1", "007", "1.", "1.5", "1e3", "1.e-3", "1E+5", "1e", "1e+",
        "\"\"", "\"a\"", "\"\\\"\"", "\"a\nb\"", "\"\u{e9}\"", "'q'", "'\\''", "''", "'a b'", "// c", "//", "/* c */", "/**/", "/***/",
        "/* \n */", "/*/", "\"", "'", "/*", "\\", "#", "\u{e9}", "\u{4e16}x",
    ] {
        v.push(s.to_string());
    }
    v
}

/// Words predefined in Modelica, reserved in dialects of it and in other languages.
const KNOWN: &str = "Real Integer Boolean String Clock StateSelect AssertionLevel ExternalObject time true false True False TRUE FALSE \
        abs sign sqrt div mod rem ceil floor integer sin cos tan asin acos atan atan2 sinh cosh tanh exp log log10 semiLinear delay cardinality \
        homotopy inStream actualStream spatialDistribution getInstanceName initial terminal noEvent smooth sample pre edge change reinit assert \
        terminate print promote ndims size scalar vector matrix identity diagonal zeros ones fill linspace min max sum product transpose \
        outerProduct symmetric cross skew cat array rooted isRoot root branch potentialRoot Connections interval previous hold subSample \
        superSample shiftSample backSample noClock firstTick ticksInState timeInState transition initialState activeState activeDer String \
        equality parfor parallel parlocal parglobal kernel optimization overload uniontype match matchcontinue case guard local list tuple \
        option Option some SOME none NONE failure fail any constrainedby extendedby constrained constrainedBy extend extendsby extending \
        do done begin begins repeat until unless elif elsif elseIf elseWhen elsewhile otherwise endif endfor endwhile endwhen end_if fi od \
        switch default goto continue yield yields try catch finally throw throws raise rescue with without using use where let var val def \
        define fun fn func proc procedure method sub subroutine program module namespace interface implements trait impl struct union enum \
        typedef typename template class_ object new delete this self super static virtual override abstract sealed private internal public_ \
        const constexpr mut mutable volatile register restrict extern inline unsafe async await import_ export include require from as is of to \
        downto step by div xor nor nand eq ne lt gt le ge then_ void null nil undefined unknown int float double char bool boolean byte short \
        long real complex unsigned signed string str number der_ pder partialder integral equations algorithms annotations connections \
        parameters variables inputs outputs initially encapsulate encapsulating replace redeclared redeclaration replaceables finalize \
        eachs flows streams discretes inners outers operators pures impures records packages functions models blocks types connectors \
        classes protect publics within_ loops loop_ while_ when_ whenever enumerations expand expandables externally exports extended \
        inf nan Inf NaN infinity e E e1 E1 pi PI _ __ ___ a1 a_1 _1 x0 l1 I O0";
/// Identifiers with a meaning somewhere, and in annotations.
pub fn known() -> Vec<&'static str> {
    const ANNOTATED: &str = "Documentation info revisions Icon Diagram Dialog Placement Line Text Rectangle Ellipse Polygon Bitmap choices choice \
        choicesAllMatching experiment StartTime StopTime Interval Tolerance uses version conversion preferredView Evaluate HideResult Inline \
        LateInline derivative inverse smoothOrder Library Include IncludeDirectory LibraryDirectory unassignable defaultComponentName \
        defaultComponentPrefixes missingInnerMessage obsolete TestCase Protection access DocumentationClass DynamicSelect dynamicTicks \
        __Dymola_Commands __OpenModelica_simulationFlags __mofmt_off start fixed min max nominal unit displayUnit quantity stateSelect \
        Modelica Blocks SI SIunits Units Constants Math Icons Interfaces x y u i j k n m p v r der1 off on skip nofmt mofmt format formatter";
    let mut v: Vec<&str> = KNOWN.split_ascii_whitespace().chain(ANNOTATED.split_ascii_whitespace()).collect();
    v.retain(|w| !reflex::KEYWORDS.contains(w) && !["true", "false"].contains(w));
    v.sort();
    v.dedup();
    v
}
/// Words around every keyword.
pub fn words() -> Vec<String> {
    let mut v = vec![];
    for w in KNOWN.split_ascii_whitespace() {
        for t in [w.to_string(), w.to_lowercase(), w.to_uppercase()] {
            v.push(format!("{t}.{t}({t}1) '{t}' \"{t}\" {t}"));
            v.push(format!("1 {t}\nend {t};"));
            v.push(t);
        }
    }
    let chars: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_', '\'', '"', '.', '\u{e9}', '-']).collect();
    for k in reflex::KEYWORDS.iter().copied().chain(["true", "false"]) {
        v.push(k.to_string());
        v.push(k.to_uppercase());
        let mut c = k.chars();
        v.push(c.next().unwrap().to_uppercase().collect::<String>() + c.as_str());
        for i in 0..k.len() {
            v.push(k[..i].to_string());
            v.push(k[i..].to_string());
            v.push(format!("{}{}", &k[..i], &k[i + 1..]));
            v.push(format!("{} {}", &k[..i], &k[i..]));
            v.push(format!("{}_{}", &k[..i], &k[i..]));
            v.push(format!("{}{}{}", &k[..i], k[i..=i].to_uppercase(), &k[i + 1..]));
        }
        for c in &chars {
            v.push(format!("{k}{c}"));
            v.push(format!("{c}{k}"));
            v.push(format!("{c}{k}{c}"));
        }
        for l in reflex::KEYWORDS.iter().copied().chain(["true", "false"]) {
            for sep in ["", " ", "_", "\n", ".", "/**/", "//\n", "1", "'"] {
                v.push(format!("{k}{sep}{l}"));
            }
        }
    }
    v
}

/// Long lexemes and far positions.
pub fn long() -> Vec<String> {
    let mut v = vec![];
    for n in [63, 64, 127, 128, 255, 256, 257, 300, 1023, 1024, 4096, 65535, 65536, 65537, 70000] {
        let r = |s: &str| s.repeat(n);
        for s in [
            r("a"), r("1"), format!("1.{}", r("0")), format!("1e{}", r("9")), format!("\"{}\"", r("x")), format!("\"{}\"", r("\n")),
            format!("\"{}\"", r("\u{1f600}")), format!("\"{}\"", r("\\\"")), format!("'{}'", r("x y")), format!("//{}", r("c")),
            format!("/*{}*/", r("*")), format!("/*{}*/", r("\n")), r(" "), r("\n"), r("\r\n"), r("\r"), r("\t"), r("a "), r("+ "),
            r("/**/"), r("// c\n"), r("\u{e9}"), format!("\"{}", r("x")), format!("/*{}", r("*\n")), format!("'{}", r("x")),
        ] {
            v.push(format!("{s} a"));
            v.push(s);
        }
    }
    v
}
