//! C25: histories of library calls. What a call yields must be what it yields alone in a process of its own.
use crate::check::{quote, unquote};
use crate::checks::World;
use crate::engine::*;
use crate::families as fam;
use crate::imp;
use crate::oracle::Viol;
use mofmt::{parse, pretty_print};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

/// A call of `parse`, and of `pretty_print` if there are no errors.
#[derive(Clone)]
pub struct Call {
    name: String,
    entry: String,
    text: String,
}
fn call(name: &str, entry: &str, text: &str) -> Call {
    Call { name: name.into(), entry: entry.into(), text: text.into() }
}

/// What has been done with a file so far.
enum Phase {
    Open(Box<dyn FnOnce() -> String>),
    Done,
}
fn begin(c: &Call) -> Result<(Option<String>, Phase), String> {
    let kind = imp::kind_by_name(&c.entry).expect("entry");
    imp::guard(|| {
        let p = parse(&c.name, &c.text, kind);
        if p.errors.is_empty() {
            (None, Phase::Open(Box::new(move || pretty_print(p.tokens, p.comments, p.events))))
        } else {
            (Some(format!("errors\n{}", p.errors.join("\n"))), Phase::Done)
        }
    })
}
fn finish(p: Phase) -> Result<Option<String>, String> {
    match p {
        Phase::Done => Ok(None),
        Phase::Open(p) => imp::guard(|| Some(format!("text\n{}", p()))),
    }
}
fn result(c: &Call) -> String {
    match begin(c) {
        Err(e) => format!("panic\n{e}"),
        Ok((Some(e), _)) => e,
        Ok((None, p)) => match finish(p) {
            Err(e) => format!("panic\n{e}"),
            Ok(s) => s.unwrap(),
        },
    }
}

/// `mc alone`: calls, read from standard input, one after another.
pub fn alone() {
    imp::quiet_panics();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let mut out = vec![];
        for line in std::io::stdin().lines() {
            let line = line.unwrap();
            let (name, rest) = unquote(line.trim_end()).unwrap();
            let (entry, rest) = unquote(rest.trim_start()).unwrap();
            let (text, _) = unquote(rest.trim_start()).unwrap();
            out.push(quote(&result(&Call { name, entry, text })));
        }
        println!("{}", out.join("\n"));
    });
    let _ = h.unwrap().join();
}
fn fresh_process(c: &Call) -> Option<String> {
    fresh_series(&[c]).and_then(|v| v.into_iter().next())
}
/// Several calls, one after another, in a process of their own.
fn fresh_series(calls: &[&Call]) -> Option<Vec<String>> {
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .arg("alone")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    // the process reads everything before it writes anything
    let lines: String = calls.iter().map(|c| format!("{} {} {}\n", quote(&c.name), quote(&c.entry), quote(&c.text))).collect();
    ch.stdin.take()?.write_all(lines.as_bytes()).ok()?;
    let o = ch.wait_with_output().ok()?;
    let v: Option<Vec<String>> = String::from_utf8(o.stdout).ok()?.lines().map(|l| unquote(l).map(|x| x.0)).collect();
    v.filter(|v| v.len() == calls.len())
}

/// Files and fragments of every kind: valid, invalid in every phase, with things left over at the end.
fn small() -> Vec<Call> {
    let f = |t: &str| call("a.mo", "StoredDefinition", t);
    let mut v = vec![
        f(crate::clichecks::UNFORMATTED),
        f("within P;\n\n\n// c\npackage B // d\nconstant Integer n=2 \"n\";\n\n\n\nprotected type T=enumeration(a,\nb) annotation(x=1);end B;\n/* e */\n// f"),
        f("// only\n\n/* comments\n */"),
        f(""),
        f("model A end;"),
        f("model A\n equation\n if a then b = 1; else\n"),
        f("model A \"x"),
        f("/* x"),
        f("model A # end A; 'x"),
        f("model A\n\n  B b(c(d(e(f(\n    g(h = {1,\n 2, [3; 4]})))))) // x\n  ;\n\nequation\n\n  when a then\n    for i in 1:2 loop\n /* y\n */     x[i] = y; // z\n    end for;\n  end when;\nend A;"),
        f("function f\n  input Real x;\nalgorithm\n  (a,\n b) := g(x,\n y) + 1\n + 2;\n while a loop\n  break;\nend while; // c\n\n\n /* d */ end f;"),
        f("model A equation x = if a then b\nelseif c then d else e; /* c1 */ /* c2\n*/\n// c3\n end A; // tail"),
        f("model A = B(x = 1,\n  y(z)\n = 2) \"d\" annotation(Icon(a = {{1,2},\n{3,4}}));model B end A;\r\n\r\n// c"),
        call("b.mo", "Expression", "if a then (b +\n c) else\n // c\n d"),
        call("b.mo", "Expression", "f(a, b,"),
        call("c.mo", "Name", "a.b /* c */"),
        call("c.mo", "Name", "a.end"),
    ];
    v.push(f(&format!("model A equation x = {}y{}; end A;", "(".repeat(60), ")".repeat(60))));
    v.push(f(&format!("model A equation x = {}y{}; end A;", "(".repeat(60), ")".repeat(59))));
    v.push(f(&format!("package P {} {} end P;", "package Q ".repeat(12), "end Q;".repeat(12))));
    v.push(f(&format!("model A equation {} end A;", "x = y; ".repeat(150))));
    v.push(f(&format!("model A {}", "# ".repeat(150))));
    v
}
/// Every combination of what a call may leave behind: comments before and after, wrong characters, errors, open ends.
fn segments() -> Vec<Call> {
    let mut v = vec![];
    for i in 0..64 {
        let on = |k: usize, s: &'static str| if i >> k & 1 == 1 { s } else { "" };
        let t = format!(
            "{}{}model A\n  Real x{};{}\nend A{}{}",
            on(0, "// first\n\n"),
            on(1, "# "),
            on(2, " /* in\n the */ \"middle\""),
            on(3, " equation x = ;"),
            if i >> 4 & 1 == 1 { "" } else { ";" },
            on(5, " // last")
        );
        v.push(call("a.mo", "StoredDefinition", &t));
    }
    v
}
/// Calls that may use something up: deep, long, and with the end of the file in the midst of things.
fn hungry() -> Vec<Call> {
    let f = |t: String| call("a.mo", "StoredDefinition", &t);
    let mut v = vec![];
    for (open, close) in [
        ("(", ")"), ("{", "}"), ("a[", "]"), ("f(", ")"), ("f(a = ", ")"), ("[", "]"), ("if a then b else ", ""), ("- ", ""), ("not ", ""), ("{a for i in ", "}"),
        ("function f(a = ", ")"),
    ] {
        for n in [60, 200] {
            v.push(f(format!("model A equation x = {}", open.repeat(n))));
            v.push(f(format!("model A equation x = {}y{}; end A;", open.repeat(n), close.repeat(n))));
            v.push(f(format!("model A equation x = {}y", open.repeat(n))));
        }
    }
    for (open, close) in [
        ("model M ", "end M; "), ("equation if a then ", "end if; "), ("equation for i in 1:2 loop ", "end for; "), ("algorithm while a loop ", "end while; "),
        ("B b(", ") "), ("annotation(", ") "), ("B b(redeclare ", ") "), ("extends B(", "); "), ("equation when a then ", "end when; "), ("type T = enumeration(", "); "),
        ("// c\n", ""), ("/* c */", ""), ("# ", ""), ("\"", ""), ("'", ""), ("within ", ""), (";", ""), ("model A end A; ", ""), ("x = y; ", ""),
    ] {
        v.push(f(format!("model A {}", open.repeat(60))));
        v.push(f(format!("model A {}{}end A;", open.repeat(20), close.repeat(20))));
        v.push(f(open.repeat(150)));
    }
    v
}

impl World<'_> {
    pub fn histories(&self) {
        let (g, s, stats) = (self.g, self.s, self.stats);
        let small = small();
        let n = small.len();
        // the large alphabet: everything the grammar has, on one line and on many, and cut off
        let mut all = small.clone();
        let segments = (n, segments().len());
        all.extend(self::segments());
        let hungry = (all.len(), hungry().len());
        all.extend(self::hungry());
        let ready = all.len();
        let f = fam::dense(g, s, &[1]);
        let mut text = String::new();
        for i in 0..f.len() {
            let Some(p) = f.prog(g, s, i) else { continue };
            for (k, gap) in [" ", "\n", " // c\n", " /* c\n */ "].iter().enumerate() {
                // on one line and with line comments only in the thorough tier
                if k % 2 == 0 && !self.thorough {
                    continue;
                }
                let gs: Vec<&str> = (0..=p.len()).map(|i| if i == 0 { "" } else { *gap }).collect();
                p.render(&gs, &mut text);
                all.push(call("m.mo", "StoredDefinition", &text));
                if k == 1 {
                    let to: usize = p.texts[..(p.focus.1).min(p.len() - 1)].iter().map(|t| t.len() + 1).sum();
                    all.push(call("m.mo", "StoredDefinition", &text[..to]));
                }
            }
        }
        let m = all.len();
        // each production alone, on one line and on many: formatting a part of a program need not end where it began
        let e = fam::entries(g, 0, 1);
        for i in 0..e.len() {
            let Some(p) = e.prog(g, s, i) else { continue };
            for gap in [" ", "\n"] {
                let gs: Vec<&str> = (0..=p.len()).map(|i| if i == 0 { "" } else { gap }).collect();
                p.render(&gs, &mut text);
                all.push(call("p.mo", &p.what, &text));
            }
        }
        let fragments = (m, all.len() - m);
        let total = all.len();
        let before = (stats.states.load(Relaxed), Instant::now());
        let want: Vec<std::sync::Mutex<Option<String>>> = (0..total).map(|_| Default::default()).collect();
        parallel(stats, total, |i, slot| {
            slot.set_as(&all[i].entry, &all[i].text);
            let a = fresh_process(&all[i]);
            // and once again, in another process and in this one
            for b in [fresh_process(&all[i]), Some(result(&all[i]))] {
                stats.fresh(format!("{i}").as_bytes());
                if a != b {
                    self.differs(&all, &[i], i, b.as_deref().unwrap_or("no answer"), a.as_deref().unwrap_or("no answer"));
                }
            }
            *want[i].lock().unwrap() = a;
        });
        if stats.stopped() {
            return;
        }
        let want: Vec<String> = want.into_iter().map(|w| w.into_inner().unwrap().unwrap_or_default()).collect();
        stats.pass(&format!("each of {total} calls in two processes of its own, and in this one"), before);

        // what comes first in a process: each of many programs, then calls that show what it may have left behind, and the
        // program itself once more
        if !stats.stopped() {
            let before = (stats.states.load(Relaxed), Instant::now());
            let mut probes: Vec<Call> = all[..n].to_vec();
            probes.extend(all[hungry.0..ready].iter().step_by(3).cloned());
            let lines = |p: &crate::prog::Prog, gap: &str, text: &mut String| {
                let gs: Vec<&str> = (0..=p.len()).map(|i| if i == 0 { "" } else { gap }).collect();
                p.render(&gs, text);
            };
            let deep = fam::nests(g, s, &[7]);
            for i in (0..deep.len()).step_by(3) {
                let Some(p) = deep.prog(g, s, i) else { continue };
                lines(&p, "\n", &mut text);
                probes.push(call("n.mo", "StoredDefinition", &text));
            }
            let alone: Vec<Option<String>> = probes.iter().map(fresh_process).collect();
            let firsts = [
                fam::nests(g, s, &[1, 2, 3, 4]),
                fam::odd_nests(g, s, if self.thorough { &[1, 2, 3, 4] } else { &[2, 3] }),
                fam::edges(g, s, 0, 1, if self.thorough { &[false, true] } else { &[true] }),
                fam::dense(g, s, &[1, 2]),
                fam::shapes(g, s, 1, false),
            ];
            let total: usize = firsts.iter().map(|f| f.len()).sum();
            // as they are and within some packages
            let depths = if self.thorough { 6 } else { 3 };
            parallel(stats, total * depths, |i, slot| {
                let (depth, mut i) = (i % depths, i / depths);
                let mut f = firsts.iter();
                let f = loop {
                    let f = f.next().unwrap();
                    if i < f.len() {
                        break f;
                    }
                    i -= f.len();
                };
                let Some(p) = f.prog(g, s, i) else { return };
                let mut text = String::new();
                for gap in if self.thorough { &["\n", " ", " // c\n"][..] } else { &["\n"][..] } {
                    lines(&p, gap, &mut text);
                    if depth > 0 {
                        text = format!("{}{text} {}", "package Q\n".repeat(depth), "end Q;\n".repeat(depth));
                    }
                    slot.set_as("StoredDefinition", &text);
                    let x = call("x.mo", "StoredDefinition", &text);
                    let series: Vec<&Call> = [&x].into_iter().chain(&probes).chain([&x]).collect();
                    if !stats.fresh(text.as_bytes()) {
                        continue;
                    }
                    stats.transitions.fetch_add(series.len() as u64, Relaxed);
                    stats.accepted.fetch_add(1, Relaxed);
                    let Some(got) = fresh_series(&series) else {
                        self.differs(&[x], &[0], 0, "no answer when other calls follow", "an answer");
                        continue;
                    };
                    for k in 1..got.len() {
                        let want = if k <= probes.len() { alone[k - 1].as_ref() } else { Some(&got[0]) };
                        if want != Some(&got[k]) {
                            let calls: Vec<Call> = series[..=k].iter().map(|c| (*c).clone()).collect();
                            let h: Vec<usize> = (0..=k).collect();
                            self.differs(&calls, &h, k, &got[k], want.map_or("no answer", |x| x));
                            break;
                        }
                    }
                }
            });
            stats.pass(&format!("each of {total} programs, alone or within 1-{} packages, first in a process of its own, then {} calls, then the program again", depths - 1, probes.len()), before);
        }

        // sequences of calls, each sequence in a new thread
        let sequence = |h: &[usize], half: usize, slot: &mut Slot| {
            let key: Vec<u8> = h.iter().flat_map(|i| (*i as u16).to_le_bytes()).chain([half as u8]).collect();
            if !stats.fresh(&key) {
                return;
            }
            stats.accepted.fetch_add(1, Relaxed);
            stats.sample(|| self.show(&all, h));
            slot.set_as(&all[h[0]].entry, &all[h[0]].text);
            let got: Vec<Option<String>> = std::thread::scope(|sc| {
                let r = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || {
                    h.iter()
                        .enumerate()
                        .map(|(k, i)| {
                            // parsed only, and forgotten
                            if half >> k & 1 == 1 {
                                let _ = begin(&all[*i]);
                                return None;
                            }
                            Some(result(&all[*i]))
                        })
                        .collect()
                });
                r.unwrap().join().unwrap()
            });
            for (i, r) in h.iter().zip(got) {
                if let Some(r) = r {
                    if r != want[*i] {
                        self.differs(&all, h, *i, &r, &want[*i]);
                    }
                }
            }
        };
        // tuples of the calls from..from + n
        let tuples_of = |(from, n): (usize, usize), len: u32, halves: bool, name: &str| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), Instant::now());
            parallel(stats, n * n, |x, slot| {
                let rest = n.pow(len - 2);
                for y in 0..rest {
                    let mut h = vec![x % n, x / n];
                    let mut y = y;
                    for _ in 2..len {
                        h.push(y % n);
                        y /= n;
                    }
                    h.iter_mut().for_each(|i| *i += from);
                    for half in if halves { 0..1 << (len - 1) } else { 0..1 } {
                        sequence(&h, half, slot);
                    }
                    if stats.stopped() {
                        return;
                    }
                }
            });
            stats.pass(name, before);
        };
        let tuples = |n, len, halves, name: &str| tuples_of((0, n), len, halves, name);
        let repeated = |times: usize, each_time: usize, name: &str| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), Instant::now());
            parallel(stats, ready * 2, |x, slot| {
                let (i, half) = (x / 2, x % 2);
                slot.set_as(&all[i].entry, &all[i].text);
                // again and again, and every now and then all the others once
                let bad = std::thread::scope(|sc| {
                    let r = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                        for round in 1..=times {
                            stats.transitions.fetch_add(1, Relaxed);
                            if half == 1 {
                                let _ = begin(&all[i]);
                            } else if result(&all[i]) != want[i] {
                                return Some((i, result(&all[i])));
                            }
                            if round % each_time == 0 {
                                slot.ticks.fetch_add(1, Relaxed);
                                for k in 0..ready {
                                    let r = result(&all[k]);
                                    if r != want[k] {
                                        return Some((k, r));
                                    }
                                }
                            }
                        }
                        stats.states.fetch_add(times as u64, Relaxed);
                        stats.accepted.fetch_add(times as u64, Relaxed);
                        None
                    });
                    r.unwrap().join().unwrap()
                });
                if let Some((k, r)) = bad {
                    self.differs(&all, &[i, k], k, &format!("after up to {times} repetitions of the first:\n{r}"), &want[k]);
                }
            });
            stats.pass(name, before);
        };
        repeated(600, 300, &format!("each of {ready} calls 600 times, all the others after 300 and 600 of them"));
        tuples_of(segments, 2, true, &format!("every sequence of 2 out of {} combinations of segments, the first with or without formatting", segments.1));
        tuples_of(segments, 3, false, &format!("every sequence of 3 out of {} combinations of segments", segments.1));
        tuples_of(hungry, 2, true, &format!("every sequence of 2 out of {} deep, long and open calls, the first with or without formatting", hungry.1));
        // a production, one of the small calls, and the other way round
        if !stats.stopped() {
            let before = (stats.states.load(Relaxed), Instant::now());
            parallel(stats, fragments.1, |x, slot| {
                let f = fragments.0 + x;
                for k in 0..n {
                    for half in 0..2 {
                        sequence(&[f, k], half, slot);
                        sequence(&[k, f], half, slot);
                        sequence(&[f, f, k], half, slot);
                    }
                }
            });
            stats.pass(&format!("each of {} productions alone before and after each of {n} calls", fragments.1), before);
        }
        tuples(n, 2, true, &format!("every sequence of 2 calls out of {n}, all but the last with or without formatting"));
        tuples(n, 3, true, &format!("every sequence of 3 calls out of {n}, all but the last with or without formatting"));
        // the steps of several files in every order
        let interleaved = |len: usize, name: &str| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), Instant::now());
            let orders = orders(len);
            parallel(stats, n.pow(len as u32), |x, slot| {
                let mut x = x;
                let h: Vec<usize> = (0..len)
                    .map(|_| {
                        let d = x % n;
                        x /= n;
                        d
                    })
                    .collect();
                slot.set_as(&all[h[0]].entry, &all[h[0]].text);
                let bad = std::thread::scope(|sc| {
                    let r = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || {
                        for o in &orders {
                            stats.transitions.fetch_add(o.len() as u64, Relaxed);
                            stats.states.fetch_add(1, Relaxed);
                            stats.accepted.fetch_add(1, Relaxed);
                            let mut open: Vec<Option<Phase>> = (0..len).map(|_| None).collect();
                            for k in o {
                                let i = h[*k];
                                let r = match open[*k].take() {
                                    None => match begin(&all[i]) {
                                        Err(e) => Some(format!("panic\n{e}")),
                                        Ok((e, p)) => {
                                            open[*k] = Some(p);
                                            e
                                        }
                                    },
                                    Some(p) => finish(p).unwrap_or_else(|e| Some(format!("panic\n{e}"))),
                                };
                                if let Some(r) = r {
                                    if r != want[i] {
                                        return Some((i, r));
                                    }
                                }
                            }
                        }
                        None
                    });
                    r.unwrap().join().unwrap()
                });
                if let Some((i, r)) = bad {
                    self.differs(&all, &h, i, &r, &want[i]);
                }
            });
            stats.pass(name, before);
        };
        interleaved(2, &format!("parsing and formatting of every 2 out of {n} calls in every order"));
        interleaved(3, &format!("parsing and formatting of every 3 out of {n} calls in every order"));
        // under every name
        if !stats.stopped() {
            let before = (stats.states.load(Relaxed), Instant::now());
            parallel(stats, m, |i, slot| {
                slot.set_as(&all[i].entry, &all[i].text);
                for name in FILES {
                    let c = Call { name: name.to_string(), ..all[i].clone() };
                    stats.states.fetch_add(1, Relaxed);
                    stats.accepted.fetch_add(1, Relaxed);
                    let got = result(&c);
                    let same = match (got.strip_prefix("errors\n"), want[i].strip_prefix("errors\n")) {
                        (Some(_), Some(w)) => {
                            // only the name is another one
                            let w: Vec<String> = w.split('\n').map(|l| match l.strip_prefix(&all[i].name) {
                                Some(r) if r.starts_with(':') => format!("{name}{r}"),
                                _ => l.to_string(),
                            }).collect();
                            got == format!("errors\n{}", w.join("\n"))
                        }
                        _ => got == want[i],
                    };
                    if !same {
                        let mut v = all.clone();
                        v[i] = c;
                        return self.differs(&v, &[i], i, &got, &want[i]);
                    }
                }
            });
            stats.pass(&format!("each of {m} calls under each of {} names", FILES.len()), before);
        }
        // the steps of two files in every order, by every assignment to threads
        let threads = |from: (usize, usize), name: &str| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), Instant::now());
            let orders = orders(2);
            let parts = partitions(4);
            parallel(stats, from.1 * from.1, |x, slot| {
                let h = [from.0 + x % from.1, from.0 + x / from.1];
                slot.set_as(&all[h[0]].entry, &all[h[0]].text);
                let bad = std::thread::scope(|sc| {
                    let workers: Vec<_> = (0..4)
                        .map(|_| {
                            let (send, todo) = std::sync::mpsc::channel::<Carry<Step>>();
                            let (done, receive) = std::sync::mpsc::channel();
                            std::thread::Builder::new()
                                .stack_size(16 << 20)
                                .spawn_scoped(sc, move || {
                                    for step in todo {
                                        // (the whole of it, not only what is inside)
                                        let step = step;
                                        let r = match step.0 {
                                            Step::Begin(c) => begin(&c),
                                            Step::Finish(p) => finish(p).map(|r| (r, Phase::Done)),
                                        };
                                        if done.send(Carry(r)).is_err() {
                                            return;
                                        }
                                    }
                                })
                                .unwrap();
                            (send, receive)
                        })
                        .collect();
                    for o in &orders {
                        for part in &parts {
                            stats.transitions.fetch_add(4, Relaxed);
                            stats.states.fetch_add(1, Relaxed);
                            stats.accepted.fetch_add(1, Relaxed);
                            let mut open: [Option<Phase>; 2] = [None, None];
                            for (k, t) in o.iter().zip(part) {
                                let step = match open[*k].take() {
                                    None => Step::Begin(all[h[*k]].clone()),
                                    Some(p) => Step::Finish(p),
                                };
                                let opens = matches!(step, Step::Begin(_));
                                workers[*t].0.send(Carry(step)).unwrap();
                                let r = match workers[*t].1.recv().unwrap().0 {
                                    Err(e) => Some(format!("panic\n{e}")),
                                    Ok((r, p)) => {
                                        if opens {
                                            open[*k] = Some(p);
                                        }
                                        r
                                    }
                                };
                                if let Some(r) = r {
                                    if r != want[h[*k]] {
                                        return Some((h[*k], r));
                                    }
                                }
                            }
                        }
                    }
                    None
                });
                if let Some((i, r)) = bad {
                    self.differs(&all, &h, i, &r, &want[i]);
                }
            });
            stats.pass(name, before);
        };
        threads((0, n), &format!("parsing and formatting of every 2 out of {n} calls in every order and by every assignment to threads"));
        tuples(m, 2, false, &format!("every sequence of 2 calls out of {m}"));
        if !self.thorough {
            return;
        }
        tuples(n, 4, true, &format!("every sequence of 4 calls out of {n}, all but the last with or without formatting"));
        threads(segments, &format!("parsing and formatting of every 2 out of {} combinations of segments in every order and by every assignment to threads", segments.1));
        interleaved(4, &format!("parsing and formatting of every 4 out of {n} calls in every order"));
        repeated(20_000, 10_000, &format!("each of {ready} calls 20000 times, all the others after 10000 and 20000 of them"));
        tuples_of(segments, 3, true, &format!("every sequence of 3 out of {} combinations of segments, with or without formatting", segments.1));
        tuples_of(hungry, 3, false, &format!("every sequence of 3 out of {} deep, long and open calls", hungry.1));
        tuples(m, 2, true, &format!("every sequence of 2 calls out of {m}, the first with or without formatting"));
        tuples(n, 5, false, &format!("every sequence of 5 calls out of {n}"));
    }
    fn show(&self, all: &[Call], h: &[usize]) -> String {
        let v: Vec<String> = h.iter().map(|i| format!("{} as {}: {}", quote(&all[*i].name), all[*i].entry, quote(&all[*i].text))).collect();
        v.join("\n")
    }
    fn differs(&self, all: &[Call], h: &[usize], i: usize, got: &str, want: &str) {
        self.stats.report(vec![Viol {
            prop: 25,
            detail: format!("the call on {} yields\n{got}\n--- but alone\n{want}", quote(&all[i].text)),
            input: format!("\u{1}calls\u{1}{}", self.show(all, h)),
        }]);
    }
}

/// Names that someone might give a meaning to.
const FILES: &[&str] = &[
    "", "-", "package.mo", "d/package.mo", "/package.mo", "package.order", "x.mos", "x.MO", "x.mof", "x.mot", "x.txt", "x", "test.mo", "Tests/x.mo", "Examples/x.mo",
    "Resources/x.mo", "Icons.mo", "Modelica/package.mo", "ModelicaServices/package.mo", "/usr/lib/x.mo", "./x.mo", "../x.mo", "~/x.mo", ".x.mo", "x.bak.mo", "x.generated.mo",
    "stdin", "<stdin>", "none", "C:\\x.mo", "x y.mo", "\u{105}.mo", "x:1:2", "x.mo:1", "encapsulated.mo", "Functions.mo", "Types.mo", "Units.mo", "SI.mo", "UsersGuide.mo",
];

/// What another thread is to do. One step is done at a time, so whatever it holds may be carried.
enum Step {
    Begin(Call),
    Finish(Phase),
}
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}

/// All ways to give `n` steps to threads.
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|p| (0..=p.iter().max().map_or(0, |m| m + 1)).map(move |k| [&p[..], &[k]].concat())).collect();
    }
    v
}

/// All orders of the steps of `n` files: each number twice.
fn orders(n: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<u8>, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(at.clone());
        }
        for k in 0..left.len() {
            if left[k] > 0 {
                left[k] -= 1;
                at.push(k);
                go(left, at, out);
                at.pop();
                left[k] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![2; n], &mut vec![], &mut out);
    out
}
