//! Command `mc check <property> <tier>`: runs the exploration in a child process (so that crashes, hangs and memory
//! exhaustion of the code under check are observed and attributed), writes evidence and replays.
use crate::checks::World;
use crate::engine::*;
use crate::gram::Grammar;
use crate::imp;
use crate::model::Syms;
use std::fmt::Write as _;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn unquote(s: &str) -> Option<(String, &str)> {
    let mut o = String::new();
    let mut it = s.char_indices();
    if it.next()?.1 != '"' {
        return None;
    }
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'),
                't' => o.push('\t'),
                'r' => o.push('\r'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next().map(|x| x.1)).collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
    None
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, r: *const RLimit) -> i32;
    fn prctl(op: i32, a: u64) -> i32;
}
fn limited(c: &mut Command, gb: u64) -> &mut Command {
    let lim = move || {
        let r = RLimit { cur: gb << 30, max: gb << 30 };
        // address space, core size; end with the parent
        unsafe {
            prctl(1, 9);
            setrlimit(9, &r);
            setrlimit(4, &RLimit { cur: 0, max: 0 });
        }
        Ok(())
    };
    unsafe { c.pre_exec(lim) }
}
pub fn wait_for(child: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            return Some(s);
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Open findings: lines `known: property=<id> input=<json string> <what fails>` of known_findings.txt.
fn known() -> Vec<(u32, String, String)> {
    let Ok(text) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=C")?;
            let (n, rest) = l.split_once(" input=")?;
            let (input, what) = unquote(rest)?;
            Some((n.parse().ok()?, input, what.trim().to_string()))
        })
        .collect()
}

pub fn parse_prop(s: &str) -> u32 {
    s.trim_start_matches('C').parse().expect("property")
}

/// The exploring process.
pub fn child(prop: &str, tier: &str, out: &str) {
    let g = Grammar::load();
    let s = Syms::new(&g);
    let thorough = tier == "thorough";
    let mut stats = Stats::new();
    let n = parse_prop(prop);
    let k = known();
    stats.known = k.iter().map(|(p, i, _)| (*p, i.clone())).collect();
    let limit = std::env::var("MC_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 760 } else { 240 });
    stats.deadline = Some(Instant::now() + Duration::from_secs(limit));
    let w = World { g: &g, s: &s, stats: &stats, thorough };
    w.run(n);
    let mut o = String::new();
    let st = &stats;
    let viols = st.viols.lock().unwrap();
    for v in viols.iter() {
        writeln!(o, "V {} {} {}", v.prop, quote(&v.input), quote(&v.detail)).unwrap();
    }
    for h in st.known_hit.lock().unwrap().iter() {
        writeln!(o, "K {}", quote(&k[*h].2)).unwrap();
    }
    writeln!(o, "states {}", st.states.load(Relaxed)).unwrap();
    writeln!(o, "transitions {}", st.transitions.load(Relaxed)).unwrap();
    writeln!(o, "traces_validated_against_impl {}", st.accepted.load(Relaxed)).unwrap();
    writeln!(o, "programs {}", st.programs.load(Relaxed)).unwrap();
    writeln!(o, "gaps_compared {}", st.compared.load(Relaxed)).unwrap();
    for (k, n) in st.notes.lock().unwrap().iter() {
        writeln!(o, "N {n} {}", quote(k)).unwrap();
    }
    for (k, n, t) in st.passes.lock().unwrap().iter() {
        writeln!(o, "P {n} {t:.2} {}", quote(k)).unwrap();
    }
    for k in st.samples.lock().unwrap().iter() {
        writeln!(o, "S {}", quote(k)).unwrap();
    }
    writeln!(o, "cut {}", st.cut.load(Relaxed) as u8).unwrap();
    std::fs::write(out, o).unwrap();
}

/// All properties of the library one after another until the first violation: for experiments with planted bugs.
pub fn sweep(secs: &str, props: &str) {
    let g = Grammar::load();
    let s = Syms::new(&g);
    let secs: u64 = secs.parse().unwrap();
    let layout: u32 = [1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 24].iter().map(|p| crate::oracle::bit(*p)).sum();
    for prop in props.split(',').map(|p| p.parse::<u32>().unwrap()) {
        if prop == 22 && !cfg!(feature = "tree") {
            continue;
        }
        let t = Instant::now();
        let mut stats = Stats::new();
        stats.deadline = Some(t + Duration::from_secs(if prop == 0 { 3 * secs } else { secs }));
        let w = World { g: &g, s: &s, stats: &stats, thorough: false };
        if prop == 0 { w.layout(layout) } else { w.run(prop) }
        if let Some(v) = stats.viols.lock().unwrap().first() {
            println!("KILLED C{:02} {} {}", v.prop, quote(&v.detail.chars().take(200).collect::<String>()), quote(&v.input));
            std::process::exit(1);
        }
        println!("C{prop:02} {} states, {:.1} s", stats.states.load(Relaxed), t.elapsed().as_secs_f64());
    }
    println!("SURVIVED");
}

/// Run one text alone (in a process of its own): parse it, format it if valid, and format the result.
pub fn one(entry: &str, file: &str) {
    let src = std::fs::read_to_string(file).unwrap();
    let kind = imp::kind_by_name(entry).expect("entry");
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || match imp::format_as(&src, kind) {
        imp::Fmt::Ok(s) => {
            println!("accepted\n{s}");
            if let imp::Fmt::Ok(t) = imp::format_as(&(s.clone() + "\n"), kind) {
                if t != s {
                    println!("-- formatted again:\n{t}");
                }
            }
        }
        imp::Fmt::Rejected(e) => println!("rejected\n{}", e.join("\n")),
        imp::Fmt::Panic(e) => println!("panic: {e}"),
    });
    h.unwrap().join().unwrap();
}

fn write_replay(prop: &str, entry: &str, input: &str, detail: &str) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.json", hash(format!("{entry}{input}{detail}").as_bytes()));
    let body = format!(
        "{{\n \"property\": {},\n \"entry\": {},\n \"input\": {},\n \"detail\": {}\n}}\n",
        quote(prop), quote(entry), quote(input), quote(detail)
    );
    let _ = std::fs::write(&path, body);
    path
}

/// A new scratch directory: in memory, if programs can be run from there.
fn scratch() -> String {
    let name = format!("mc.{}", std::process::id());
    let mem = format!("/dev/shm/{name}");
    if std::env::var("TMPDIR").is_err() && std::fs::create_dir(&mem).is_ok() {
        let probe = format!("{mem}/true");
        if std::fs::copy("/bin/true", &probe).is_ok() && Command::new(&probe).status().is_ok_and(|s| s.success()) {
            let _ = std::fs::remove_file(probe);
            return mem;
        }
        let _ = std::fs::remove_dir_all(&mem);
    }
    let dir = format!("{}/{name}", std::env::var("TMPDIR").unwrap_or("/tmp".into()));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let code = supervise(prop, tier, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise(prop: &str, tier: &str, dir: &str, t0: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let out = format!("{dir}/out");
    let mut cmd = Command::new(&exe);
    cmd.args(["child", prop, tier, &out]).env("MC_SLOTS", dir).env("MC_DIR", dir);
    // (the executable under check inherits the limit)
    let mut ch = limited(&mut cmd, if (17..=21).contains(&parse_prop(prop)) { 5 } else { 20 }).spawn().unwrap();
    let status = wait_for(&mut ch, 860);
    let ok = status.is_some_and(|s| s.success());
    let mut viols: Vec<(String, String, String)> = vec![]; // entry, input, detail
    let mut stats = String::new();
    if ok {
        stats = std::fs::read_to_string(&out).unwrap();
    } else {
        // crash, hang or memory exhaustion: find the case by running the open ones alone
        let why = match status {
            None => "no end".to_string(),
            Some(s) => match (s.code(), s.signal()) {
                (Some(77), _) => "a case did not end".into(),
                (Some(c), _) => format!("exit {c}"),
                (_, Some(n)) => format!("signal {n}"),
                _ => "?".into(),
            },
        };
        let first = std::fs::read_to_string(format!("{dir}/hang")).ok();
        let mut order: Vec<String> = first.into_iter().collect();
        order.extend((0..WORKERS).map(|w| w.to_string()));
        for w in order {
            let Some((entry, text)) = slot_text(&format!("{dir}/{w}")) else { continue };
            let f = format!("{dir}/one");
            std::fs::write(&f, &text).unwrap();
            let mut c = Command::new(&exe);
            c.args(["one", &entry, &f]).stdout(Stdio::null()).stderr(Stdio::null());
            let mut c = limited(&mut c, 4).spawn().unwrap();
            let what = match wait_for(&mut c, HANG + 10) {
                None => "does not terminate".to_string(),
                Some(s) if s.success() => continue,
                Some(s) => format!("process dies ({s})"),
            };
            viols.push((entry, text, format!("{what} (first seen as: {why})")));
            break;
        }
        if viols.is_empty() {
            eprintln!("mc: exploration of {prop} failed ({why}) and no single case reproduces it");
            return 2;
        }
    }
    let mut known_hit = vec![];
    let (mut nums, mut passes, mut samples, mut notes, mut cut) = (vec![], vec![], vec![], vec![], false);
    for l in stats.lines() {
        let (k, v) = l.split_once(' ').unwrap();
        match k {
            "V" => {
                let (_, rest) = v.split_once(' ').unwrap();
                let (input, rest) = unquote(rest).unwrap();
                let (detail, _) = unquote(rest.trim()).unwrap();
                let (e, i) = match input.strip_prefix("\u{1}").and_then(|s| s.split_once('\u{1}')) {
                    Some((e, i)) => (e.to_string(), i.to_string()),
                    None => ("StoredDefinition".to_string(), input),
                };
                viols.push((e, i, detail));
            }
            "K" => known_hit.push(unquote(v).unwrap().0),
            "N" => {
                let (n, s) = v.split_once(' ').unwrap();
                notes.push(format!("{s}: {n}"));
            }
            "P" => {
                let f: Vec<&str> = v.splitn(3, ' ').collect();
                passes.push(format!("{{\"pass\": {}, \"new_states\": {}, \"seconds\": {}}}", f[2], f[0], f[1]));
            }
            "S" => samples.push(v.to_string()),
            "cut" => cut = v == "1",
            _ => nums.push((k.to_string(), v.to_string())),
        }
    }
    for (e, i, d) in &viols {
        println!("property {prop}: {d}\n--- entry {e}, input:\n{i}");
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    // evidence
    let level = crate::meta::level(parse_prop(prop));
    let rule = crate::meta::rule(parse_prop(prop));
    let get = |k: &str| nums.iter().find(|(n, _)| n == k).map_or("0".to_string(), |(_, v)| v.clone());
    let mut cov = String::new();
    if level == "model_checking" {
        for k in ["states", "transitions", "traces_validated_against_impl", "programs", "gaps_compared"] {
            write!(cov, "\"{k}\": {}, ", get(k)).unwrap();
        }
    } else {
        write!(cov, "\"evaluations\": {}, \"distinct_nontrivial\": {}, ", get("transitions"), get("states")).unwrap();
    }
    write!(
        cov,
        "\"rule\": {}, \"exhaustive\": {}, \"passes\": [{}], \"counts\": {{{}}}, \"samples\": [{}]",
        quote(rule),
        ok && !cut && viols.is_empty(),
        passes.join(", "),
        notes.join(", "),
        samples.join(", ")
    )
    .unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        quote(prop), quote(tier), quote(level),
        crate::meta::assumptions(parse_prop(prop)).iter().map(|a| quote(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), viols.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{prop}.json", root()), ev).unwrap();
    println!(
        "{prop} {tier}: states={} transitions={} executions={} wall={:.1}s{}",
        get("states"), get("transitions"), get("traces_validated_against_impl"),
        t0.elapsed().as_secs_f64(), if cut { " (cut by the time limit)" } else { "" }
    );
    if viols.is_empty() {
        return 0;
    }
    for (e, i, d) in &viols {
        println!("VIOLATION property={prop} replay={}", write_replay(prop, e, i, d));
    }
    1
}

pub fn replay(path: &str) {
    let t = std::fs::read_to_string(path).unwrap();
    let field = |k: &str| {
        let at = t.find(&format!("\"{k}\": ")).unwrap() + k.len() + 4;
        unquote(&t[at..]).unwrap().0
    };
    println!("property {}\n{}\n--- entry {}, input:\n{}\n--- now:", field("property"), field("detail"), field("entry"), field("input"));
    if imp::kind_by_name(&field("entry")).is_some() {
        let f = format!("/tmp/mc-replay.{}", std::process::id());
        std::fs::write(&f, field("input")).unwrap();
        one(&field("entry"), &f);
        let _ = std::fs::remove_file(&f);
    }
}
