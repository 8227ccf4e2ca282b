//! Parallel exhaustive exploration with crash containment.
use crate::families::Family;
use crate::gram::*;
use crate::imp::{self, Fmt};
use crate::model::Syms;
use crate::oracle::{Ctx, Viol};
use crate::prog::*;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
pub const HANG: u64 = 20;

pub fn hash(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in s.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(b)).wrapping_mul(0x517cc1b727220a95);
    }
    h ^= s.len() as u64;
    h ^ (h >> 29)
}

pub struct Stats {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub accepted: AtomicU64,
    pub compared: AtomicU64,
    pub programs: AtomicU64,
    pub skipped: AtomicU64,
    pub seen: Vec<Mutex<HashSet<u64>>>,
    pub viols: Mutex<Vec<Viol>>,
    pub samples: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub notes: Mutex<Vec<(String, u64)>>,
    pub passes: Mutex<Vec<(String, u64, f64)>>,
    pub next_sample: AtomicU64,
    pub cut: AtomicBool,
    pub max_viols: usize,
    pub deadline: Option<Instant>,
    pub known: Vec<(u32, String)>,
    pub known_hit: Mutex<HashSet<usize>>,
}
impl Stats {
    pub fn new() -> Stats {
        Stats {
            states: 0.into(),
            transitions: 0.into(),
            accepted: 0.into(),
            compared: 0.into(),
            programs: 0.into(),
            skipped: 0.into(),
            seen: (0..256).map(|_| Mutex::new(HashSet::new())).collect(),
            viols: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            stop: false.into(),
            notes: Mutex::new(vec![]),
            passes: Mutex::new(vec![]),
            next_sample: 1.into(),
            cut: false.into(),
            max_viols: 1,
            deadline: None,
            known: vec![],
            known_hit: Default::default(),
        }
    }
    pub fn fresh(&self, key: &[u8]) -> bool {
        self.transitions.fetch_add(1, Relaxed);
        let h = hash(key);
        let f = self.seen[(h >> 56) as usize].lock().unwrap().insert(h);
        if f {
            self.states.fetch_add(1, Relaxed);
        }
        f
    }
    pub fn note(&self, what: &str, n: u64) {
        let mut v = self.notes.lock().unwrap();
        if let Some(e) = v.iter_mut().find(|e| e.0 == what) {
            e.1 += n;
        } else {
            v.push((what.to_string(), n));
        }
    }
    /// Keep a few cases, at exponentially growing distances.
    pub fn sample(&self, s: impl Fn() -> String) {
        let n = self.states.load(Relaxed);
        if n >= self.next_sample.load(Relaxed) {
            let mut v = self.samples.lock().unwrap();
            if n >= self.next_sample.load(Relaxed) && v.len() < 12 {
                self.next_sample.store(n * 3 + 7, Relaxed);
                v.push(s());
            }
        }
    }
    pub fn pass(&self, what: &str, before: (u64, Instant)) {
        let n = self.states.load(Relaxed) - before.0;
        self.passes.lock().unwrap().push((what.to_string(), n, before.1.elapsed().as_secs_f64()));
    }
    pub fn report(&self, vs: Vec<Viol>) {
        for v in vs {
            if let Some(k) = self.known.iter().position(|(p, i)| *p == v.prop && *i == v.input) {
                self.known_hit.lock().unwrap().insert(k);
                continue;
            }
            let mut all = self.viols.lock().unwrap();
            if all.len() < self.max_viols {
                all.push(v);
            }
            if all.len() >= self.max_viols {
                self.stop.store(true, Relaxed);
            }
        }
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.deadline.is_some_and(|d| Instant::now() > d) {
            self.cut.store(true, Relaxed);
            return true;
        }
        false
    }
}

/// What a worker is doing right now, kept in a file so that it survives a crash of the process.
pub struct Slot {
    file: Option<std::fs::File>,
    pub ticks: Arc<AtomicU64>,
    buf: Vec<u8>,
}
impl Slot {
    pub fn set(&mut self, what: &str) {
        self.set_as("StoredDefinition", what);
    }
    pub fn set_as(&mut self, entry: &str, what: &str) {
        self.ticks.fetch_add(1, Relaxed);
        if let Some(f) = &self.file {
            self.buf.clear();
            self.buf.extend_from_slice(&((entry.len() + 1 + what.len()) as u64).to_le_bytes());
            self.buf.extend_from_slice(entry.as_bytes());
            self.buf.push(b'\n');
            self.buf.extend_from_slice(what.as_bytes());
            let _ = f.write_at(&self.buf, 0);
        }
    }
}
pub fn slot_text(path: &str) -> Option<(String, String)> {
    let b = std::fs::read(path).ok()?;
    let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
    let s = String::from_utf8(b.get(8..8 + n)?.to_vec()).ok()?;
    let (e, t) = s.split_once('\n')?;
    Some((e.to_string(), t.to_string()))
}

/// Run `work(item, slot)` for every item index on all workers; stops early on violations.
pub fn parallel(stats: &Stats, n: usize, work: impl Fn(usize, &mut Slot) + Sync) {
    let next = AtomicUsize::new(0);
    let dir = std::env::var("MC_SLOTS").ok();
    let busy: Vec<AtomicBool> = (0..WORKERS).map(|_| AtomicBool::new(true)).collect();
    let ticks: Vec<Arc<AtomicU64>> = (0..WORKERS).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let mut handles = vec![];
        for w in 0..WORKERS {
            let (next, work, busy, ticks, dir) = (&next, &work, &busy, &ticks, &dir);
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let file = dir.as_ref().and_then(|d| {
                        std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(format!("{d}/{w}")).ok()
                    });
                    let mut slot = Slot { file, ticks: ticks[w].clone(), buf: vec![] };
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || stats.stopped() {
                            break;
                        }
                        work(i, &mut slot);
                    }
                    busy[w].store(false, Relaxed);
                })
                .unwrap();
            handles.push(h);
        }
        let done = &done;
        let (busy, ticks, dir) = (&busy, &ticks, &dir);
        sc.spawn(move || {
            let mut last = vec![(0u64, Instant::now()); WORKERS];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for w in 0..WORKERS {
                    let t = ticks[w].load(Relaxed);
                    if t != last[w].0 || !busy[w].load(Relaxed) || t == 0 {
                        last[w] = (t, Instant::now());
                    } else if last[w].1.elapsed() > Duration::from_secs(HANG) {
                        // a case that does not end: leave the process, the supervisor reads the slot
                        if let Some(d) = dir {
                            let _ = std::fs::write(format!("{d}/hang"), format!("{w}"));
                        }
                        unsafe { _exit(77) };
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(true, Relaxed);
    });
}
extern "C" {
    fn _exit(code: i32) -> !;
}

/// A plan for laying programs out.
#[derive(Clone)]
pub struct Plan {
    /// gap alphabet for single deviations (interior gaps)
    pub singles: Vec<&'static str>,
    /// alphabet for deviations of two gaps at once
    pub pairs: Vec<&'static str>,
    /// also use the formatter's own output as baseline
    pub own: bool,
    pub lines: bool,
    /// deviate gaps before the first and after the last token
    pub first: &'static [&'static str],
    pub last: &'static [&'static str],
    /// how far around the focus gaps deviate
    pub margin: usize,
    /// largest window (in gaps) in which pairs are enumerated
    pub pair_window: usize,
    /// largest window in which all combinations of line breaks are enumerated
    pub subset_window: usize,
    /// oracle for horizontal independence (C09)
    pub horizontal: bool,
    pub hsingles: bool,
    /// layouts in which all gaps repeat a word over this alphabet, of up to `period` letters
    pub periodic: Vec<&'static str>,
    pub period: usize,
}

/// One-character renaming of the comment texts of a gap string, so that comments stay distinguishable.
fn second(s: &str) -> String {
    s.replace("c1", "c3").replace("c2", "c4")
}

pub fn own_gaps(p: &Prog, src: &str) -> Option<Vec<String>> {
    let Fmt::Ok(out) = imp::format(src) else { return None };
    let (items, _) = crate::reflex::lex(&out);
    if items.len() != p.len() {
        return None;
    }
    let mut v = vec![];
    let mut at = 0;
    for it in &items {
        v.push(out[at..it.from].to_string());
        at = it.to;
    }
    v.push("\n".to_string());
    Some(v)
}

/// Enumerate the layouts of a program.
pub fn layouts(p: &Prog, plan: &Plan, f: &mut dyn FnMut(&[&str]) -> bool) {
    let n = p.len();
    if plan.period > 0 {
        return periodic(p, plan, f);
    }
    let spaces: Vec<String> = (0..=n).map(|i| if i == 0 { "" } else if i == n { "\n" } else { " " }.to_string()).collect();
    let breaks: Vec<String> = (0..=n).map(|i| if i == 0 { "" } else { "\n" }.to_string()).collect();
    let mut bases = vec![spaces];
    if plan.lines {
        bases.push(breaks);
    }
    if plan.own {
        let mut text = String::new();
        for b in bases.clone() {
            let g: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
            p.render(&g, &mut text);
            if let Some(o) = own_gaps(p, &text) {
                if !bases.contains(&o) {
                    bases.push(o);
                }
            }
        }
    }
    let lo = p.focus.0.saturating_sub(plan.margin);
    let hi = (p.focus.1 + plan.margin).min(n);
    let alphabet = |i: usize| -> &[&'static str] {
        if i == 0 {
            plan.first
        } else if i == n {
            plan.last
        } else {
            &plan.singles
        }
    };
    for b in &bases {
        let mut g: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
        if !f(&g) {
            return;
        }
        for i in lo..=hi {
            let old = g[i];
            for a in alphabet(i) {
                if *a != old {
                    g[i] = a;
                    if !f(&g) {
                        return;
                    }
                }
            }
            g[i] = old;
        }
        if hi - lo < plan.subset_window && b[1..n.max(1)].iter().all(|x| x != "\n" && x.len() < 2) {
            let w: Vec<usize> = (lo.max(1)..=hi.min(n - 1)).collect();
            for set in 0u32..1 << w.len() {
                let save: Vec<&str> = w.iter().map(|i| g[*i]).collect();
                for (k, i) in w.iter().enumerate() {
                    if set >> k & 1 == 1 {
                        g[*i] = "\n";
                    }
                }
                let go = f(&g);
                for (k, i) in w.iter().enumerate() {
                    g[*i] = save[k];
                }
                if !go {
                    return;
                }
            }
        }
        if !plan.pairs.is_empty() && hi - lo <= plan.pair_window {
            let mut renamed: Vec<String> = plan.pairs.iter().map(|s| second(s)).collect();
            // the same comment twice
            renamed.extend(plan.pairs.iter().filter(|s| s.contains("c1") && !s.contains("c2")).map(|s| s.to_string()));
            for i in lo.max(1)..=hi.min(n - 1) {
                for j in i + 1..=hi.min(n - 1) {
                    let (oi, oj) = (g[i], g[j]);
                    for a in &plan.pairs {
                        for c in &renamed {
                            if *a != oi && c != oj {
                                g[i] = a;
                                g[j] = c;
                                if !f(&g) {
                                    return;
                                }
                            }
                        }
                    }
                    g[i] = oi;
                    g[j] = oj;
                }
            }
        }
    }
}

/// All gaps of a program filled by repeating a word, for all words; every comment with a number of its own.
fn periodic(p: &Prog, plan: &Plan, f: &mut dyn FnMut(&[&str]) -> bool) {
    let (n, k) = (p.len(), plan.periodic.len());
    for len in 1..=plan.period {
        for w in 0..k.pow(len as u32) {
            let word: Vec<usize> = (0..len).map(|i| w / k.pow(i as u32) % k).collect();
            if len > 1 && word.iter().all(|x| *x == word[0]) {
                continue;
            }
            let gaps: Vec<String> = (0..=n)
                .map(|i| match i {
                    0 => String::new(),
                    _ if i == n => plan.periodic[word[i % len]].trim_end_matches(' ').replace("c1", &format!("c{i}")) + "\n",
                    _ => plan.periodic[word[i % len]].replace("c1", &format!("c{i}")),
                })
                .collect();
            let g: Vec<&str> = gaps.iter().map(|s| s.as_str()).collect();
            if !f(&g) {
                return;
            }
        }
    }
}

/// Explore all layouts of all programs of a family with the oracles in `mask`.
pub fn explore(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        explore_prog(stats, s, &p, plan, mask, slot);
    });
    stats.pass(&fam.name, before);
}

pub fn explore_prog(stats: &Stats, s: &Syms, p: &Prog, plan: &Plan, mask: u32, slot: &mut Slot) {
    let mut ctx = Ctx::new(s, mask);
    let mut text = String::new();
    layouts(p, plan, &mut |gaps| {
        p.render(gaps, &mut text);
        let fresh = if mask == 1 << 23 {
            stats.fresh(format!("{}\0{text}", p.what).as_bytes())
        } else {
            stats.fresh(text.as_bytes())
        };
        if fresh {
            slot.set(&text);
            if mask == 1 << 23 {
                slot.set_as(&p.what, &text);
                ctx.entry(p, &text, &p.what, imp::kind_by_name(&p.what).expect("production"));
            } else if mask != 1 << 9 {
                ctx.file(p, &text);
            }
            if plan.horizontal {
                horizontal(&mut ctx, p, gaps, &text, plan.hsingles);
            }
            stats.sample(|| text.clone());
            if !ctx.out.is_empty() {
                stats.report(std::mem::take(&mut ctx.out));
            }
        }
        !stats.stopped()
    });
    stats.accepted.fetch_add(ctx.accepted, Relaxed);
    stats.compared.fetch_add(ctx.compared, Relaxed);
}

/// Explore the programs of a family with other spellings of single tokens.
pub fn spellings(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        for at in p.focus.0..p.focus.1 {
            for alt in alternatives(s.term(p.terms[at])) {
                let q = p.clone_with(s, at, alt);
                explore_prog(stats, s, &q, plan, mask, slot);
                if stats.stopped() {
                    return;
                }
            }
        }
    });
    stats.pass(&format!("{}, spellings of single tokens", fam.name), before);
}

/// All tokens of a kind spelled another way at once.
pub fn spellings_of_all(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        for kind in ["IDENT", "STRING", "UINT", "UREAL"] {
            for alt in alternatives(kind) {
                let mut q = p.clone_with(s, 0, &p.texts[0]);
                for at in 0..p.len() {
                    if s.term(p.terms[at]) == kind {
                        q.texts[at] = alt.to_string();
                    }
                }
                explore_prog(stats, s, &q, plan, mask, slot);
                if stats.stopped() {
                    return;
                }
            }
        }
    });
    stats.pass(&format!("{}, spellings of all tokens of a kind", fam.name), before);
}

/// All identifiers are the same word, or one of them, and strings of known shape.
pub fn known_words(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32, singles: bool) {
    let before = (stats.states.load(Relaxed), Instant::now());
    let words = crate::lexcheck::known();
    const STRINGS: &[&str] = &[
        "\"<html>\\n<p>c</p>\\n</html>\"", "\"<html>\n<pre>\n  a\t\n</pre>\n</html>\"", "\"modelica://A/b.png\"", "\"C\"", "\"FORTRAN 77\"", "\"builtin\"", "\" a \"",
        "\"a  b\"", "\"1.0\"", "\"m/s\"", "\"%name\"", "\"a\" ", "\"#include <a.h>\"", "\"a, b\"", "\"(a)\"", "\"a = 1\"", "\"a;b;\"", "\"\n\n\"", "\"\\t\"", "\"\\x\"",
    ];
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        for (kind, words) in [("IDENT", &words[..]), ("STRING", STRINGS)] {
            let all: Vec<usize> = (0..p.len()).filter(|i| s.term(p.terms[*i]) == kind).collect();
            for w in words.iter().map(|w| w.trim()) {
                if all.is_empty() || stats.stopped() {
                    break;
                }
                let mut q = p.clone_with(s, all[0], w);
                all.iter().for_each(|i| q.texts[*i] = w.into());
                explore_prog(stats, s, &q, plan, mask, slot);
                if singles {
                    for at in all.iter().filter(|i| (p.focus.0..p.focus.1).contains(i)) {
                        explore_prog(stats, s, &p.clone_with(s, *at, w), plan, mask, slot);
                    }
                }
            }
        }
    });
    stats.pass(&format!("{}, identifiers and strings out of {} known ones", fam.name, words.len() + STRINGS.len()), before);
}

/// Tokens of several lines, with everything in the gaps around them.
pub fn spellings_near(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        for at in p.focus.0..p.focus.1 {
            if s.term(p.terms[at]) != "STRING" {
                continue;
            }
            for alt in ["\"a\nb\"", "\"\n\"", "\"a\n\n\n  b \n\"", "\"a\r\nb\""] {
                let mut q = p.clone_with(s, at, alt);
                q.focus = (at, at + 1);
                explore_prog(stats, s, &q, plan, mask, slot);
                if stats.stopped() {
                    return;
                }
            }
        }
    });
    stats.pass(&format!("{}, strings of several lines and the gaps around them", fam.name), before);
}

/// Tokens of hundreds and thousands of characters: each one, and all of a kind.
pub fn long_tokens(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    let long: Vec<(&str, String)> = [130, 260, 1030, 66_000]
        .iter()
        .flat_map(|n| {
            [
                ("IDENT", format!("a{}", "_b".repeat(n / 2))),
                ("IDENT", format!("'{}'", "a b".repeat(n / 3))),
                ("STRING", format!("\"{}\"", "a \u{e9}".repeat(n / 3))),
                ("STRING", format!("\"{}\"", "a\n".repeat(n / 2))),
                ("UINT", "12".repeat(n / 2)),
                ("UREAL", format!("1.{}", "5".repeat(*n))),
            ]
        })
        .collect();
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        for (kind, alt) in &long {
            let all: Vec<usize> = (0..p.len()).filter(|i| s.term(p.terms[*i]) == *kind).collect();
            for at in all.iter().filter(|i| (p.focus.0..p.focus.1).contains(i)) {
                explore_prog(stats, s, &p.clone_with(s, *at, alt), plan, mask, slot);
            }
            if alt.len() < 2000 && all.len() > 1 {
                let mut q = p.clone_with(s, all[0], alt);
                all.iter().for_each(|i| q.texts[*i] = alt.clone());
                explore_prog(stats, s, &q, plan, mask, slot);
            }
            if stats.stopped() {
                return;
            }
        }
    });
    stats.pass(&format!("{}, tokens of up to 66000 characters", fam.name), before);
}

/// Strings of several lines as operands: each one, and all.
pub fn long_operands(stats: &Stats, g: &Grammar, s: &Syms, fam: &Family, plan: &Plan, mask: u32) {
    let before = (stats.states.load(Relaxed), Instant::now());
    let string = g.term("STRING").expect("STRING");
    parallel(stats, fam.len(), |i, slot| {
        let Some(p) = fam.prog(g, s, i) else { return };
        stats.programs.fetch_add(1, Relaxed);
        let all: Vec<usize> = p.operands(s).into_iter().filter(|i| (p.focus.0..p.focus.1).contains(i)).collect();
        for at in all.iter().map(std::slice::from_ref).chain(if all.len() > 1 { Some(&all[..]) } else { None }) {
            explore_prog(stats, s, &p.with_strings(s, string, at, "\"a\nb\""), plan, mask, slot);
            if stats.stopped() {
                return;
            }
        }
    });
    stats.pass(&format!("{}, a string of two lines as each operand, and as all", fam.name), before);
}

/// C09: rewrite the horizontal white space and line ends of a layout; the output must not change.
pub fn horizontal(ctx: &mut Ctx, p: &Prog, g: &[&str], text: &str, singles: bool) {
    let Fmt::Ok(want) = imp::format(text) else { return };
    let shape = |t: &str| -> Vec<(crate::reflex::Class, String, usize, usize)> {
        crate::reflex::lex(t).0.iter().map(|i| (i.class, i.text(t).replace("\r\n", "\n"), i.line, i.eline)).collect()
    };
    let before = shape(text);
    let mut check = |alt: String, what: &str| match imp::format(&alt) {
        // the rewriting must keep tokens, comments and lines
        _ if shape(&alt) != before => (),
        Fmt::Ok(got) if got == want => ctx.accepted += 1,
        Fmt::Ok(got) => {
            // line comments may carry the blanks before a line end; nothing else may differ
            if got != want {
                ctx.bad(9, &alt, || format!("{what}: output differs from that of {text:?}\n--- got\n{got}\n--- want\n{want}"));
            }
        }
        Fmt::Rejected(e) => ctx.bad(9, &alt, || format!("{what}: rejected: {}", e.join(" | "))),
        Fmt::Panic(e) => ctx.bad(9, &alt, || format!("{what}: panic: {e}")),
    };
    let n = p.len();
    // `f` rewrites each piece of white space between tokens and comments; its last argument tells whether the piece
    // ends a line comment
    let rewrite = |f: &dyn Fn(usize, &str, bool) -> String| -> String {
        let mut out = String::new();
        for i in 0..=n {
            let s = g[i];
            let (items, _) = crate::reflex::lex(s);
            let mut at = 0;
            let mut line = false;
            for it in &items {
                out.push_str(&f(i, &s[at..it.from], line));
                out.push_str(&s[it.from..it.to]);
                at = it.to;
                line = it.class == crate::reflex::Class::Line;
            }
            out.push_str(&f(i, &s[at..], line));
            if i < n {
                out.push_str(&p.texts[i]);
            }
        }
        out
    };
    let wide = |w: &str| w.replace(' ', "\t \x0c  ").replace('\n', "\n  \t");
    let trail = |w: &str, line: bool| {
        if line {
            format!("\n{}", w[1..].replace('\n', "\t\n"))
        } else {
            w.replace('\n', " \t\n")
        }
    };
    let tight = |i: usize, w: &str| -> String {
        if w.trim_matches(' ').is_empty() && i > 0 && i < n && g[i] == w {
            let (a, b) = (&p.texts[i - 1], &p.texts[i]);
            let glued = format!("{a}{b}");
            let (items, errs) = crate::reflex::lex(&glued);
            if errs.is_empty() && items.len() == 2 && items[0].to == a.len() {
                return String::new();
            }
        }
        if g[i] == w {
            w.to_string()
        } else {
            w.replace(' ', "")
        }
    };
    check(rewrite(&|_, w, _| wide(w)), "wide blanks");
    for n in [if singles { 3000 } else { 300 }] {
        let blanks = " ".repeat(n);
        check(rewrite(&|_, w, _| w.replace(' ', &blanks)), "very wide blanks");
        check(rewrite(&|_, w, _| w.replace('\n', &format!("\n{blanks}"))), "very wide indentation");
    }
    check(rewrite(&|_, w, _| w.replace('\n', "\r\n")), "CRLF");
    check(rewrite(&|_, w, _| w.replace('\n', "\r")), "CR");
    // one line end after the other (in this order none of them joins the next one)
    let turn = std::cell::Cell::new(0);
    let mixed = |_: usize, w: &str, _: bool| -> String {
        let mut out = String::new();
        for c in w.chars() {
            if c == '\n' {
                out.push_str(["\r\n", "\n", "\r"][turn.get() % 3]);
                turn.set(turn.get() + 1);
            } else {
                out.push_str(if c == ' ' { "\t" } else { "\x0c" });
            }
        }
        out
    };
    check(rewrite(&mixed), "all line ends in turn, tabs for blanks");
    if singles {
        turn.set(1);
        check(rewrite(&mixed), "all line ends in turn, beginning with LF, tabs for blanks");
        turn.set(2);
        check(rewrite(&mixed), "all line ends in turn, beginning with CR, tabs for blanks");
    }
    check(rewrite(&|_, w, l| if w.is_empty() { String::new() } else { trail(w, l) }), "trailing blanks");
    check(rewrite(&|i, w, _| tight(i, w)), "no blanks");
    if singles {
        for k in p.focus.0.saturating_sub(2)..=(p.focus.1 + 2).min(n) {
            check(rewrite(&|i, w, _| if i == k { wide(w) } else { w.to_string() }), "wide blanks at one gap");
            check(rewrite(&|i, w, _| if i == k { tight(i, w) } else { w.to_string() }), "no blanks at one gap");
            check(rewrite(&|i, w, _| if i == k { w.replace('\n', "\r\n") } else { w.to_string() }), "CRLF at one gap");
            check(rewrite(&|i, w, _| if i == k { w.replace('\n', "\r") } else { w.to_string() }), "CR at one gap");
            check(rewrite(&|i, w, _| if i == k { w.replace('\n', "\n\x0c") } else { w.to_string() }), "a form feed at the beginning of a line of one gap");
        }
    }
}
