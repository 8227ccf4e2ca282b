//! Oracles: everything the properties say about one (program, layout) pair.
use crate::imp::{self, Fmt};
use crate::model::{Blank, Cat, Gap, Model, Syms, Tree, TK};
use crate::prog::Prog;
use crate::reflex::{self, Class, Item};

pub type Mask = u32;
pub const fn bit(c: u32) -> Mask {
    1 << c
}
#[derive(Debug, Clone)]
pub struct Viol {
    pub prop: u32,
    pub detail: String,
    pub input: String,
}

pub struct Ctx<'a> {
    pub s: &'a Syms,
    pub mask: Mask,
    pub out: Vec<Viol>,
    pub accepted: u64,
    pub compared: u64,
}

fn kept(src: &str, items: &[Item]) -> Vec<(bool, String)> {
    items.iter().map(|i| (i.is_comment(), i.text(src).to_string())).collect()
}

/// Gap between consecutive tokens: the comments in it.
struct GapView<'a> {
    prev: Option<&'a Item>,
    next: Option<&'a Item>,
    comments: &'a [Item],
}
fn gaps<'a>(items: &'a [Item]) -> Vec<GapView<'a>> {
    let mut v = vec![];
    let mut start = 0;
    let mut prev = None;
    for (i, it) in items.iter().enumerate() {
        if !it.is_comment() {
            v.push(GapView { prev, next: Some(it), comments: &items[start..i] });
            prev = Some(it);
            start = i + 1;
        }
    }
    v.push(GapView { prev, next: None, comments: &items[start..] });
    v
}

/// Is gap `i` inside brackets?
fn in_brackets(p: &Prog, i: usize) -> bool {
    let mut depth = 0;
    for t in &p.texts[..i] {
        match t.as_str() {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => depth -= 1,
            _ => {}
        }
    }
    depth > 0
}
/// Is gap `i` inside an expression?
fn in_expression(s: &Syms, t: &Tree, i: usize) -> bool {
    t.lo < i
        && i < t.hi
        && (matches!(s.name(t.nt), "Expression" | "SimpleExpression" | "LogicalExpression" | "Term" | "ArithmeticExpression" | "Relation")
            || t.kids.iter().any(|k| match k {
                TK::N(c) => in_expression(s, c, i),
                _ => false,
            }))
}

impl<'a> Ctx<'a> {
    pub fn new(s: &'a Syms, mask: Mask) -> Self {
        Ctx { s, mask, out: vec![], accepted: 0, compared: 0 }
    }
    pub fn on(&self, p: u32) -> bool {
        self.mask & bit(p) != 0
    }
    pub fn bad(&mut self, p: u32, input: &str, detail: impl FnOnce() -> String) {
        if self.on(p) {
            let detail = detail();
            self.out.push(Viol { prop: p, detail, input: input.to_string() });
        }
    }
    fn all(&mut self, input: &str, detail: &str) {
        for p in 1..=24 {
            if p != 5 {
                self.bad(p, input, || detail.to_string());
            }
        }
    }

    /// Check one layout of a whole-file program.
    pub fn file(&mut self, p: &Prog, src: &str) {
        if self.mask == bit(5) {
            match imp::errors("none", src, mofmt::SyntaxKind::StoredDefinition) {
                Err(e) => self.bad(5, src, || format!("valid program ({}) not accepted: panic: {e}", p.what)),
                Ok(e) if !e.is_empty() => {
                    self.bad(5, src, || format!("valid program ({}) rejected: {}", p.what, e.join(" | ")))
                }
                _ => self.accepted += 1,
            }
            return;
        }
        if self.mask == bit(22) {
            return self.tree(p, src);
        }
        let out = match imp::format(src) {
            Fmt::Panic(e) => {
                let d = format!("panic: {e}");
                return self.all(src, &d);
            }
            Fmt::Rejected(e) => {
                self.bad(5, src, || format!("valid program ({}) rejected: {}", p.what, e.join(" | ")));
                return;
            }
            Fmt::Ok(s) => s,
        };
        self.accepted += 1;
        if self.on(22) {
            self.tree(p, src);
        }
        if self.on(3) {
            let file = out.clone() + "\n";
            match imp::format(&file) {
                Fmt::Ok(again) => {
                    if again != out {
                        self.bad(3, src, || format!("not idempotent\n--- first\n{out}\n--- second\n{again}"));
                    }
                }
                Fmt::Rejected(e) => self.bad(3, src, || format!("output rejected: {}\n---\n{out}", e.join(" | "))),
                Fmt::Panic(e) => self.bad(3, src, || format!("panic on own output: {e}\n---\n{out}")),
            }
        }
        const LAYOUT: Mask =
            bit(1) | bit(2) | bit(10) | bit(11) | bit(12) | bit(13) | bit(14) | bit(15) | bit(16) | bit(24);
        if self.mask & LAYOUT == 0 {
            return;
        }
        let (ii, _) = reflex::lex(src);
        let (oi, oe) = reflex::lex(&out);
        let it: Vec<&Item> = ii.iter().filter(|i| !i.is_comment()).collect();
        let ot: Vec<&Item> = oi.iter().filter(|i| !i.is_comment()).collect();
        let same_tokens = oe.is_empty()
            && it.len() == ot.len()
            && it.iter().zip(&ot).all(|(a, b)| a.class == b.class && a.text(src) == b.text(&out));
        if !same_tokens {
            self.bad(1, src, || format!("token sequence changed\n---\n{out}"));
        }
        let same_items = oe.is_empty() && kept(src, &ii) == kept(&out, &oi);
        if !same_items {
            self.bad(2, src, || format!("comments changed\n---\n{out}"));
        }
        if self.on(16) {
            if let Some(d) = unclean(&out, &oi) {
                self.bad(16, src, || format!("{d}\n---\n{out}"));
            }
        }
        if self.on(10) {
            if let Some(d) = double_blank(&out, &oi) {
                self.bad(10, src, || format!("{d}\n---\n{out}"));
            }
        }
        if !same_tokens || it.len() != p.len() {
            return;
        }
        let lines: Vec<(usize, usize)> = it.iter().map(|t| (t.line, t.eline)).collect();
        let spec = if p.len() > 0 { Model::run(self.s, &p.tree, &lines) } else { vec![] };
        let (gi, go) = (gaps(&ii), gaps(&oi));
        if !same_items && self.on(24) {
            self.moved(src, &out, &gi, &go);
        }
        for i in 0..go.len() {
            self.gap(p, src, &out, i, spec.get(i), &gi[i], &go[i]);
        }
    }

    /// C23: one layout of a sentence of any production.
    pub fn entry(&mut self, p: &Prog, src: &str, name: &str, kind: mofmt::SyntaxKind) {
        let text = format!("\u{1}{name}\u{1}{src}");
        match imp::format_as(src, kind) {
            Fmt::Panic(e) => self.bad(23, &text, || format!("panic: {e}")),
            Fmt::Rejected(_) if p.len() == 0 => (),
            Fmt::Rejected(e) => {
                self.bad(23, &text, || format!("valid sentence of {} rejected: {}", p.what, e.join(" | ")))
            }
            Fmt::Ok(out) => {
                self.accepted += 1;
                let (ii, _) = reflex::lex(src);
                let (oi, oe) = reflex::lex(&out);
                if !oe.is_empty() || kept(src, &ii) != kept(&out, &oi) {
                    self.bad(23, &text, || format!("tokens or comments changed\n---\n{out}"));
                }
            }
        }
    }

    /// C24 for comments that got to the other side of a token.
    fn moved(&mut self, src: &str, out: &str, gi: &[GapView], go: &[GapView]) {
        let list = |g: &[GapView]| -> Vec<(usize, usize)> {
            g.iter().enumerate().flat_map(|(i, v)| (0..v.comments.len()).map(move |k| (i, k))).collect()
        };
        let (li, lo) = (list(gi), list(go));
        let same = li.len() == lo.len()
            && li.iter().zip(&lo).all(|(a, b)| gi[a.0].comments[a.1].text(src) == go[b.0].comments[b.1].text(out));
        if !same {
            return;
        }
        for (a, b) in li.iter().zip(&lo).filter(|(a, b)| a.0 != b.0) {
            let (ci, co) = (&gi[a.0].comments[a.1], &go[b.0].comments[b.1]);
            // the tokens around it in the input, as they stand in the output
            let (pi, po) = (gi[a.0].prev, go[a.0].prev);
            let (ni, no) = (gi[a.0].next, go[a.0].next);
            let i = a.0;
            if pi.is_some_and(|t| t.eline == ci.line) && !po.is_some_and(|t| t.eline == co.line) {
                self.bad(24, src, || format!("trailing comment moved off its line at gap {i}\n---\n{out}"));
            }
            if pi.is_none_or(|t| t.eline != ci.line) && po.is_some_and(|t| t.eline == co.line) {
                self.bad(24, src, || format!("comment moved to the line of a token at gap {i}\n---\n{out}"));
            }
            if ni.is_some_and(|t| t.line != ci.eline) && no.is_some_and(|t| t.line <= co.eline) {
                self.bad(24, src, || format!("token after a comment moved up to it at gap {i}\n---\n{out}"));
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn gap(&mut self, p: &Prog, src: &str, out: &str, i: usize, spec: Option<&Gap>, gi: &GapView, go: &GapView) {
        self.compared += 1;
        let around = |k: usize| {
            let l = k.saturating_sub(1);
            p.texts[l..(k + 1).min(p.texts.len())].join(" ~ ")
        };
        if gi.comments.is_empty() {
            if !go.comments.is_empty() {
                return;
            }
            let (Some(next), Some(spec)) = (go.next, spec) else { return };
            let Some(prev) = go.prev else {
                if next.from != 0 {
                    self.bad(16, src, || format!("text starts with white space\n---\n{out}"));
                }
                return;
            };
            let ws = &out[prev.to..next.from];
            let nl = ws.matches('\n').count();
            let brk = nl > 0;
            if brk != spec.brk {
                // every property that says something about this gap
                let mut props = vec![];
                match spec.cat {
                    Cat::List if spec.forced => props.extend([13, 14]),
                    Cat::List => props.push(14),
                    Cat::Expr => props.push(15),
                    Cat::Mand => props.push(13),
                    Cat::Never => {
                        props.push(13);
                        if in_brackets(p, i) {
                            props.push(14);
                        }
                        if in_expression(self.s, &p.tree, i) {
                            props.push(15);
                        }
                    }
                }
                if nl > 1 || spec.brk && spec.blank == Blank::Required {
                    props.push(10);
                }
                for prop in props {
                    self.bad(prop, src, || {
                        format!(
                            "{} line break at gap {i} ({})\n---\n{out}",
                            if spec.brk { "missing" } else { "unexpected" },
                            around(i)
                        )
                    });
                }
            }
            if !brk {
                let want = if p.seps[i] { " " } else { "" };
                if ws != want {
                    self.bad(11, src, || format!("separator {ws:?} instead of {want:?} at gap {i} ({})\n---\n{out}", around(i)));
                }
            }
            if !brk || !spec.brk {
                return;
            }
            let input_blank = gi.next.unwrap().line - gi.prev.unwrap().eline > 1;
            let want = match spec.blank {
                Blank::Required => true,
                Blank::Legal => input_blank,
                Blank::Illegal => false,
            };
            if (nl == 2) != want || nl > 2 {
                self.bad(10, src, || {
                    format!("{} blank line(s) instead of {} at gap {i} ({})\n---\n{out}", nl - 1, want as usize, around(i))
                });
            }
            self.level(src, out, next, spec.lvl, &|| around(i));
            return;
        }
        // a gap with comments
        if gi.comments.len() != go.comments.len()
            || gi.comments.iter().zip(go.comments).any(|(a, b)| a.text(src) != b.text(out))
        {
            return;
        }
        if let (Some(next), Some(spec), Some(_)) = (go.next, spec, go.prev) {
            let line_start = out[..next.from].rfind('\n').map_or(0, |k| k + 1);
            let first = out[line_start..next.from].trim_start_matches(' ').is_empty();
            if spec.brk && !first {
                let props: &[u32] = match spec.cat {
                    Cat::List if spec.forced => &[13, 14],
                    Cat::List => &[14],
                    Cat::Expr => &[15],
                    _ => &[13],
                };
                for prop in props {
                    self.bad(*prop, src, || format!("missing line break after comment at gap {i} ({})\n---\n{out}", around(i)));
                }
            }
            if spec.brk && first {
                self.level(src, out, next, spec.lvl, &|| around(i));
                for c in go.comments {
                    let ls = out[..c.from].rfind('\n').map_or(0, |k| k + 1);
                    if out[ls..c.from].trim_matches(' ').is_empty() && c.from - ls != 2 * spec.lvl {
                        self.bad(12, src, || {
                            format!("comment indented {} instead of {} at gap {i}\n---\n{out}", c.from - ls, 2 * spec.lvl)
                        });
                    }
                }
            }
        } else if go.next.is_some() && go.prev.is_none() || go.next.is_none() {
            // before the first and after the last token: no indentation
            for c in go.comments.iter().chain(go.next) {
                let ls = out[..c.from].rfind('\n').map_or(0, |k| k + 1);
                let lead = &out[ls..c.from];
                if lead.trim_matches(' ').is_empty() && !lead.is_empty() {
                    self.bad(12, src, || format!("comment outside classes is indented\n---\n{out}"));
                }
            }
        }
        if !self.on(24) && !self.on(10) {
            return;
        }
        // own-line comments, inline comments, blank lines
        let required = spec.is_some_and(|s| s.brk && s.blank == Blank::Required) && gi.prev.is_some();
        let mut blank_due = required;
        let (mut pi, mut po) = (gi.prev, go.prev);
        for (ci, co) in gi.comments.iter().zip(go.comments) {
            let with_prev_token = gi.prev.is_some_and(|t| t.eline == ci.line);
            let own_line = pi.is_none_or(|t| t.eline != ci.line);
            let obrk = po.is_none_or(|t| t.eline != co.line);
            if with_prev_token && !go.prev.is_some_and(|t| t.eline == co.line) {
                self.bad(24, src, || format!("trailing comment moved off its line at gap {i} ({})\n---\n{out}", around(i)));
            }
            if own_line && !obrk {
                self.bad(24, src, || format!("comment moved up to the line before at gap {i} ({})\n---\n{out}", around(i)));
            }
            let before = &out[po.map_or(0, |t| t.to)..co.from];
            if !obrk && before != " " {
                self.bad(24, src, || format!("comment separated by {before:?} at gap {i}\n---\n{out}"));
            }
            if obrk {
                let oblank = po.is_some_and(|t| co.line - t.eline > 1);
                let iblank = pi.is_some_and(|t| ci.line - t.eline > 1);
                if po.is_some() && oblank != (iblank || blank_due) {
                    let due = blank_due;
                    self.bad(if due { 10 } else { 24 }, src, || {
                        format!("blank line {} comment at gap {i} ({})\n---\n{out}", if oblank { "added before" } else { "lost before" }, around(i))
                    });
                    if due {
                        self.bad(24, src, || format!("blank line lost before comment\n---\n{out}"));
                    }
                }
                blank_due = false;
            }
            pi = Some(ci);
            po = Some(co);
        }
        if let (Some(ni), Some(no)) = (gi.next, go.next) {
            let (pi, po) = (pi.unwrap(), po.unwrap());
            let obrk = po.eline != no.line;
            if po.class == Class::Line && !obrk {
                self.bad(24, src, || format!("token follows a line comment\n---\n{out}"));
            }
            if !obrk {
                let ws = &out[po.to..no.from];
                if ws != " " {
                    self.bad(24, src, || format!("comment followed by {ws:?}\n---\n{out}"));
                }
                if ni.line != pi.eline {
                    self.bad(24, src, || format!("token moved up to the line of a comment\n---\n{out}"));
                }
            } else {
                let oblank = no.line - po.eline > 1;
                let iblank = ni.line - pi.eline > 1;
                let want = match spec {
                    _ if gi.prev.is_none() => oblank && iblank,
                    Some(s) if s.brk => match s.blank {
                        Blank::Required => iblank || blank_due,
                        Blank::Legal => iblank,
                        Blank::Illegal => false,
                    },
                    _ => false,
                };
                if oblank != want {
                    self.bad(10, src, || {
                        format!("blank line {} after comment at gap {i} ({})\n---\n{out}", if oblank { "added" } else { "lost" }, around(i))
                    });
                }
            }
        }
    }

    fn level(&mut self, src: &str, out: &str, tok: &Item, lvl: usize, around: &dyn Fn() -> String) {
        let ls = out[..tok.from].rfind('\n').map_or(0, |k| k + 1);
        let lead = &out[ls..tok.from];
        if lead.trim_matches(' ').is_empty() && lead.len() != 2 * lvl {
            self.bad(12, src, || format!("indented {} instead of {} at {}\n---\n{out}", lead.len(), 2 * lvl, around()));
        }
    }

    pub fn tree(&mut self, p: &Prog, src: &str) {
        self.tree_as(p, src, mofmt::SyntaxKind::StoredDefinition);
    }
    pub fn tree_as(&mut self, p: &Prog, src: &str, kind: mofmt::SyntaxKind) {
        match imp::tree(src, kind) {
            Err(e) => self.bad(22, src, || format!("panic: {e}")),
            Ok(Err(_)) => {}
            Ok(Ok(got)) => {
                self.accepted += (self.mask == bit(22)) as u64;
                let mut want = vec![];
                expected_tree(self.s, p, &p.tree, &mut want);
                if got != want {
                    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    self.bad(22, src, || {
                        format!("parse tree differs at event {k}: {:?} instead of {:?}", got.get(k), want.get(k))
                    });
                }
            }
        }
    }
}

pub fn expected_tree(s: &Syms, p: &Prog, t: &crate::model::Tree, out: &mut Vec<imp::Ev>) {
    out.push(imp::Ev::Enter(s.name(t.nt).to_string()));
    for k in &t.kids {
        match k {
            crate::model::TK::T(_, i) => out.push(imp::Ev::Tok(p.texts[*i].clone())),
            crate::model::TK::N(c) => expected_tree(s, p, c, out),
        }
    }
    out.push(imp::Ev::Exit);
}

/// White space outside tokens and comments is clean.
pub fn unclean(out: &str, items: &[Item]) -> Option<String> {
    let mut at = 0;
    for (i, it) in items.iter().map(Some).chain([None]).enumerate() {
        let to = it.map_or(out.len(), |t| t.from);
        let ws = &out[at..to];
        if ws.chars().any(|c| c != ' ' && c != '\n') {
            return Some(format!("white space other than space and line feed: {ws:?}"));
        }
        if ws.contains(" \n") || it.is_none() && ws.ends_with(' ') {
            return Some(format!("trailing space before item {i}"));
        }
        if i == 0 && !ws.is_empty() {
            return Some("text starts with white space".into());
        }
        if it.is_none() && !ws.is_empty() {
            return Some(format!("text ends with {ws:?} before the final newline"));
        }
        at = it.map_or(at, |t| t.to);
    }
    None
}
pub fn double_blank(out: &str, items: &[Item]) -> Option<String> {
    let mut at = 0;
    for it in items {
        if out[at..it.from].matches('\n').count() > 2 {
            return Some("two consecutive blank lines".into());
        }
        at = it.to;
    }
    None
}
