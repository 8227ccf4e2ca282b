//! C17-C21: the executable against a reference model of its command line, on scratch directories.
//! It runs as an unprivileged user, so that permissions count and nothing outside the scratch directory can be written.
use crate::engine::*;
use crate::imp;
use crate::oracle::Viol;
use mofmt::SyntaxKind;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const NOBODY: u32 = 65534;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>, u32),
    Dir(u32),
}
/// Contents of the scratch directory, by path relative to it.
pub type Fs = BTreeMap<Vec<u8>, Node>;

pub fn file(fs: &mut Fs, path: &[u8], contents: &[u8]) {
    let mut at = 0;
    while let Some(k) = path[at..].iter().position(|c| *c == b'/') {
        at += k;
        fs.entry(path[..at].to_vec()).or_insert(Node::Dir(0o755));
        at += 1;
    }
    fs.insert(path.to_vec(), Node::File(contents.to_vec(), 0o644));
}
pub fn dir(fs: &mut Fs, path: &[u8]) {
    file(fs, path, b"");
    fs.insert(path.to_vec(), Node::Dir(0o755));
}
fn has_mo(name: &[u8]) -> bool {
    // the extension: what follows the last dot, which is not the first character
    match name.iter().rposition(|c| *c == b'.') {
        Some(k) if k > 0 && name != b".." => &name[k + 1..] == b"mo",
        _ => false,
    }
}

/// What is expected of one run.
#[derive(Debug, Default, Clone)]
pub struct Expect {
    pub code: i32,
    pub fs: Fs,
    /// lines "<name>: check passed" / "check failed"
    pub verdicts: Vec<Vec<u8>>,
    /// names that must occur in the diagnostics
    pub named: Vec<Vec<u8>>,
    pub stdout_has: Vec<String>,
    pub stderr_nonempty: bool,
    pub stdout_exact: Option<String>,
    /// nothing may even be touched
    pub readonly: bool,
}

thread_local! {
    static MEMO: std::cell::RefCell<HashMap<Vec<u8>, Option<Vec<u8>>>> = Default::default();
}
/// The formatted contents, if the text is a valid Modelica file.
pub fn formatted(src: &[u8]) -> Option<Vec<u8>> {
    if let Some(r) = MEMO.with(|m| m.borrow().get(src).cloned()) {
        return r;
    }
    let r = std::str::from_utf8(src).ok().and_then(|s| match imp::format_as(s, SyntaxKind::StoredDefinition) {
        imp::Fmt::Ok(o) => Some((o + "\n").into_bytes()),
        _ => None,
    });
    MEMO.with(|m| {
        if src.len() < 10_000 && m.borrow().len() < 10_000 {
            m.borrow_mut().insert(src.to_vec(), r.clone());
        }
    });
    r
}

/// Reference model of the executable.
pub fn simulate(fs: &Fs, root: &[u8], args: &[OsString], version: &str) -> Expect {
    let mut e = Expect { fs: fs.clone(), ..Expect::default() };
    let Some(first) = args.first() else {
        return Expect { code: 1, stderr_nonempty: true, readonly: true, ..e };
    };
    let (check, paths) = match first.as_bytes() {
        b"-h" | b"--help" => {
            e.stdout_has = ["Usage: mofmt", "--help", "--version", "--check"].iter().map(|s| s.to_string()).collect();
            e.readonly = true;
            return e;
        }
        b"-v" | b"--version" => {
            e.stdout_exact = Some(format!("mofmt, {version}\n"));
            e.readonly = true;
            return e;
        }
        b"--check" if args.len() == 1 => return Expect { code: 1, stderr_nonempty: true, readonly: true, ..e },
        b"--check" => (true, &args[1..]),
        b if b.starts_with(b"-") => return Expect { code: 1, stderr_nonempty: true, readonly: true, ..e },
        _ => (false, args),
    };
    e.readonly = check;
    // what each path stands for: (key in the model, name as displayed)
    let mut work: Vec<(Option<Vec<u8>>, Vec<u8>)> = vec![];
    for p in paths {
        let p = p.as_bytes();
        let key = resolve(fs, root, p);
        match key.as_ref().map(|k| if k.is_empty() { Some(&Node::Dir(0o755)) } else { fs.get(k) }) {
            Some(Some(Node::Dir(_))) if reachable(fs, key.as_ref().unwrap()) => walk(fs, &key.unwrap(), p, &mut work, &mut e),
            _ => work.push((key, p.to_vec())),
        }
    }
    for (key, name) in work {
        let node = key.as_ref().and_then(|k| fs.get(k));
        let base = name.rsplit(|c| *c == b'/').next().unwrap_or(b"");
        let src = match node {
            Some(Node::File(b, mode)) if has_mo(base) && mode & 0o400 != 0 && reachable(fs, key.as_ref().unwrap()) => b.clone(),
            _ => {
                e.code = 1;
                e.named.push(name);
                continue;
            }
        };
        // an earlier path may already have formatted the same file
        let now = match e.fs.get(key.as_ref().unwrap()) {
            Some(Node::File(b, _)) if !check => b.clone(),
            _ => src,
        };
        match formatted(&now) {
            None => {
                e.code = 1;
                e.named.push(name);
            }
            Some(out) if check => {
                let ok = out == now;
                e.code |= !ok as i32;
                let mut l = name.clone();
                l.extend_from_slice(if ok { b": check passed" } else { b": check failed" });
                e.verdicts.push(l);
            }
            Some(out) => match e.fs.get_mut(key.as_ref().unwrap()) {
                Some(Node::File(b, mode)) if *mode & 0o200 != 0 => *b = out,
                _ => {
                    e.code = 1;
                    e.named.push(name);
                }
            },
        }
    }
    e
}
fn walk(fs: &Fs, key: &[u8], shown: &[u8], work: &mut Vec<(Option<Vec<u8>>, Vec<u8>)>, e: &mut Expect) {
    // its names can be read, and it can be got at
    if fs.get(key).is_some_and(|n| matches!(n, Node::Dir(m) if m & 0o400 == 0)) || !reachable(fs, key) {
        e.code = 1;
        e.named.push(shown.to_vec());
        return;
    }
    for (p, n) in fs {
        let parent = p.iter().rposition(|c| *c == b'/').map_or(&b""[..], |k| &p[..k]);
        if parent != key || p.is_empty() {
            continue;
        }
        let base = &p[if parent.is_empty() { 0 } else { parent.len() + 1 }..];
        let mut s = shown.to_vec();
        if s.last() != Some(&b'/') {
            s.push(b'/');
        }
        s.extend_from_slice(base);
        match n {
            Node::Dir(_) => walk(fs, p, &s, work, e),
            Node::File(..) if has_mo(base) => work.push((Some(p.clone()), s)),
            _ => {}
        }
    }
}
/// All directories above may be entered.
fn reachable(fs: &Fs, key: &[u8]) -> bool {
    (0..key.len()).filter(|i| key[*i] == b'/').all(|i| matches!(fs.get(&key[..i]), Some(Node::Dir(m)) if m & 0o100 != 0))
}
/// Path relative to the scratch directory -> key; `None` if it leads nowhere.
fn resolve(fs: &Fs, root: &[u8], p: &[u8]) -> Option<Vec<u8>> {
    if p.is_empty() {
        return None;
    }
    let p = if p[0] == b'/' { p.strip_prefix(root)? } else { p };
    let mut key: Vec<u8> = vec![];
    let parts: Vec<&[u8]> = p.split(|c| *c == b'/').collect();
    for (i, c) in parts.iter().enumerate() {
        if !key.is_empty() {
            match fs.get(&key) {
                Some(Node::Dir(m)) if m & 0o100 != 0 => {}
                _ => return None,
            }
        }
        match *c {
            b"" if i + 1 == parts.len() || i == 0 => {}
            b"" | b"." => {}
            b".." => {
                let k = key.iter().rposition(|c| *c == b'/').unwrap_or(0);
                key.truncate(k);
            }
            c => {
                if !key.is_empty() {
                    key.push(b'/');
                }
                key.extend_from_slice(c);
            }
        }
    }
    Some(key)
}

pub struct Out {
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

pub struct Lab {
    pub exe: PathBuf,
    pub base: PathBuf,
    /// Runs as an unprivileged user, so that permissions count.
    pub drop: bool,
    pub version: String,
    pub shim: PathBuf,
}
extern "C" {
    fn setuid(id: u32) -> i32;
    fn setgid(id: u32) -> i32;
    fn setgroups(n: usize, l: *const u32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
/// Runs of the executable under way: process and deadline.
static RUNNING: std::sync::Mutex<Vec<(u32, Instant)>> = std::sync::Mutex::new(vec![]);
const PATIENCE: Duration = Duration::from_secs(30);

impl Lab {
    pub fn new() -> Lab {
        let base = PathBuf::from(std::env::var("MC_DIR").unwrap_or_else(|_| format!("/tmp/mc.{}", std::process::id())));
        let root = crate::check::root();
        std::fs::create_dir_all(&base).unwrap();
        std::fs::set_permissions(&base, std::fs::Permissions::from_mode(0o755)).unwrap();
        let exe = base.join("mofmt");
        std::fs::copy(format!("{root}/mc/target/cli/release/mofmt"), &exe).unwrap();
        std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
        let shim = base.join("fault.so");
        std::fs::copy(format!("{root}/mc/target/cli/fault.so"), &shim).unwrap();
        std::fs::set_permissions(&shim, std::fs::Permissions::from_mode(0o755)).unwrap();
        let toml = std::fs::read_to_string("/repo/Cargo.toml").unwrap();
        let version = toml
            .lines()
            .find_map(|l| l.strip_prefix("version = \"").and_then(|v| v.strip_suffix('"')))
            .unwrap()
            .to_string();
        // become an unprivileged user, if possible
        let mut ok = false;
        if std::fs::metadata(&base).unwrap().uid() == 0 {
            ok = chown(&base, Some(NOBODY), Some(NOBODY)).is_ok();
            for e in std::fs::read_dir(&base).unwrap().flatten() {
                ok &= chown(e.path(), Some(NOBODY), Some(NOBODY)).is_ok();
            }
            if ok {
                unsafe { ok = setgroups(0, std::ptr::null()) == 0 && setgid(NOBODY) == 0 && setuid(NOBODY) == 0 };
            }
        }
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(100));
            for (pid, end) in RUNNING.lock().unwrap().iter() {
                if *end < Instant::now() {
                    unsafe { kill(*pid as i32, 9) };
                }
            }
        });
        Lab { exe, base, drop: ok, version, shim }
    }
    /// A scratch directory for one worker.
    pub fn place(&self, ticks: Option<Arc<AtomicU64>>) -> Place<'_> {
        use std::sync::atomic::AtomicUsize;
        static N: AtomicUsize = AtomicUsize::new(0);
        let id = N.fetch_add(1, Relaxed);
        let dir = self.base.join(format!("p{id}"));
        Place { lab: self, dir, fresh: false, ticks, links: vec![], soft: vec![] }
    }
}
pub struct Place<'a> {
    lab: &'a Lab,
    pub dir: PathBuf,
    fresh: bool,
    ticks: Option<Arc<AtomicU64>>,
    /// Files that are further names of others (which have the same contents).
    pub links: Vec<(Vec<u8>, Vec<u8>)>,
    /// Symbolic links, created after everything else: (name, key of what it leads to, text of the link).
    pub soft: Vec<Soft>,
}
pub type Soft = (Vec<u8>, Vec<u8>, OsString);
/// What a symbolic link itself looks like to `observe`.
fn link_itself(fs: &Fs, to: &[u8]) -> Node {
    Node::File(if let Some(Node::File(b, _)) = fs.get(to) { b.clone() } else { vec![] }, 0o777)
}
fn below(p: &[u8], dir: &[u8]) -> bool {
    p.len() > dir.len() && p.starts_with(dir) && p[dir.len()] == b'/'
}
/// The model in which what a link leads to exists under the name of the link, too.
fn expand(fs: &Fs, soft: &[Soft]) -> Fs {
    let mut m = fs.clone();
    for (l, to, _) in soft {
        m.remove(l);
        let part: Vec<_> = m.iter().filter(|(p, _)| *p == to || below(p, to)).map(|(p, n)| ([&l[..], &p[to.len()..]].concat(), n.clone())).collect();
        m.extend(part);
    }
    m
}
/// Back again: what happened under the name of the link happened to what it leads to.
fn collapse(mut after: Fs, before: &Fs, soft: &[Soft]) -> Fs {
    for (l, to, _) in soft.iter().rev() {
        let part: Vec<_> = after.iter().filter(|(p, _)| *p == l || below(p, l)).map(|(p, n)| (p.clone(), n.clone())).collect();
        for (p, n) in part {
            if before.get(&p) != Some(&n) {
                after.insert([&to[..], &p[l.len()..]].concat(), n);
            }
            after.remove(&p);
        }
    }
    for (l, to, _) in soft {
        after.insert(l.clone(), link_itself(&after, to));
    }
    after
}
impl Drop for Place<'_> {
    fn drop(&mut self) {
        self.clear();
    }
}
impl Place<'_> {
    fn clear(&mut self) {
        if self.fresh {
            open_up(&self.dir);
            let _ = std::fs::remove_dir_all(&self.dir);
            self.fresh = false;
        }
    }
    /// Create the contents; returns modification stamps.
    pub fn fill(&mut self, fs: &Fs) {
        self.clear();
        self.fresh = true;
        std::fs::create_dir_all(&self.dir).unwrap();
        for (p, n) in fs {
            let path = self.dir.join(OsStr::from_bytes(p));
            match n {
                Node::Dir(_) => std::fs::create_dir(&path).unwrap(),
                Node::File(b, _) => match self.links.iter().find(|l| l.1 == *p) {
                    Some((old, _)) => std::fs::hard_link(self.dir.join(OsStr::from_bytes(old)), &path).unwrap(),
                    None => std::fs::write(&path, b).unwrap(),
                },
            }
        }
        for (l, _, text) in &self.soft {
            std::os::unix::fs::symlink(text, self.dir.join(OsStr::from_bytes(l))).unwrap();
        }
        for (p, n) in fs.iter().rev() {
            let (Node::Dir(m) | Node::File(_, m)) = n;
            if *m != 0o644 && *m != 0o755 {
                std::fs::set_permissions(self.dir.join(OsStr::from_bytes(p)), std::fs::Permissions::from_mode(*m)).unwrap();
            }
        }
    }
    /// Contents now, and stamps (inode, modification time, permissions) of everything.
    pub fn observe(&self) -> (Fs, Vec<(Vec<u8>, u64, i64, i64, u32)>) {
        let mut fs = Fs::new();
        let mut st = vec![];
        look(&self.dir, b"", &mut fs, &mut st);
        (fs, st)
    }
    pub fn run(&self, args: &[OsString], fault: Option<(&str, &Path)>) -> Out {
        let mut c = Command::new(&self.lab.exe);
        c.args(args).current_dir(&self.dir).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if let Some((plan, log)) = fault {
            c.env("LD_PRELOAD", &self.lab.shim).env("FAULT_PLAN", plan).env("FAULT_LOG", log).env("FAULT_ROOT", &self.dir);
        }
        if let Some(t) = &self.ticks {
            t.fetch_add(1, Relaxed);
        }
        let ch = {
            // (registered before it can have ended and been waited for)
            let mut running = RUNNING.lock().unwrap();
            let ch = c.spawn().unwrap();
            running.push((ch.id(), Instant::now() + PATIENCE));
            ch
        };
        let pid = ch.id();
        let o = ch.wait_with_output().unwrap();
        RUNNING.lock().unwrap().retain(|r| r.0 != pid);
        Out { code: o.status.code(), stdout: o.stdout, stderr: o.stderr }
    }
}
fn open_up(p: &Path) {
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            if m.permissions().mode() & 0o700 != 0o700 {
                let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
            }
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                open_up(&e.path());
            }
        }
    }
}
fn look(p: &Path, key: &[u8], fs: &mut Fs, st: &mut Vec<(Vec<u8>, u64, i64, i64, u32)>) {
    let m = std::fs::symlink_metadata(p).unwrap();
    let mode = m.permissions().mode() & 0o7777;
    st.push((key.to_vec(), m.ino(), m.mtime(), m.mtime_nsec(), mode));
    let need = if m.is_dir() { 0o700 } else { 0o400 };
    let shut = mode & need != need && !m.is_symlink();
    if shut {
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode | need));
    }
    if m.is_dir() {
        if !key.is_empty() {
            fs.insert(key.to_vec(), Node::Dir(mode));
        }
        let mut v: Vec<OsString> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().file_name()).collect();
        v.sort();
        for n in v {
            let mut k = key.to_vec();
            if !k.is_empty() {
                k.push(b'/');
            }
            k.extend_from_slice(n.as_bytes());
            look(&p.join(&n), &k, fs, st);
        }
    } else {
        fs.insert(key.to_vec(), Node::File(std::fs::read(p).unwrap_or_default(), mode));
    }
    if shut {
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
    }
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}
/// As the executable displays names.
fn lossy(b: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(b).into_owned().into_bytes()
}
pub fn show(fs: &Fs) -> String {
    let mut s = String::new();
    for (p, n) in fs {
        s += &match n {
            Node::Dir(m) => format!("  {:?}/ mode {m:o}\n", String::from_utf8_lossy(p)),
            Node::File(b, m) if b.len() < 400 => {
                format!("  {:?} mode {m:o}: {:?}\n", String::from_utf8_lossy(p), String::from_utf8_lossy(b))
            }
            Node::File(b, m) => format!("  {:?} mode {m:o}: {} bytes\n", String::from_utf8_lossy(p), b.len()),
        };
    }
    s
}
pub fn show_args(args: &[OsString]) -> String {
    let v: Vec<String> = args.iter().map(|a| format!("{a:?}")).collect();
    format!("mofmt {}", v.join(" "))
}

/// Difference between two directory states.
pub fn differ(got: &Fs, want: &Fs) -> Option<String> {
    for (p, n) in want {
        match got.get(p) {
            None => return Some(format!("{:?} is gone", String::from_utf8_lossy(p))),
            Some(m) if m != n => {
                let f = |n: &Node| match n {
                    Node::Dir(m) => format!("directory {m:o}"),
                    Node::File(b, m) => format!("{:?} (mode {m:o})", String::from_utf8_lossy(&b[..b.len().min(400)])),
                };
                return Some(format!("{:?} is {} instead of {}", String::from_utf8_lossy(p), f(m), f(n)));
            }
            _ => {}
        }
    }
    got.keys().find(|k| !want.contains_key(*k)).map(|k| format!("{:?} was created", String::from_utf8_lossy(k)))
}

/// Compare an observed run with the expectation.
pub fn compare(e: &Expect, o: &Out, fs: &Fs, touched: bool) -> Option<String> {
    if o.code != Some(e.code) {
        return Some(format!("exit status {:?} instead of {}", o.code, e.code));
    }
    if let Some(d) = differ(fs, &e.fs) {
        return Some(d);
    }
    if e.readonly && touched {
        return Some("something was modified (time stamps, inodes or permissions)".into());
    }
    let mut want: Vec<Vec<u8>> = e.verdicts.iter().map(|v| lossy(v)).collect();
    // a name may contain line feeds: compare the text as a whole, verdict by verdict
    let mut rest = o.stdout.clone();
    want.sort_by_key(|w| std::cmp::Reverse(w.len()));
    for w in &want {
        let mut line = w.clone();
        line.push(b'\n');
        let at = (0..rest.len()).find(|i| rest[*i..].starts_with(&line) && (*i == 0 || rest[*i - 1] == b'\n'));
        match at {
            Some(i) => drop(rest.drain(i..i + line.len())),
            None => return Some(format!("missing on standard output: {:?}", String::from_utf8_lossy(w))),
        }
    }
    if contains(&rest, b": check passed") || contains(&rest, b": check failed") {
        return Some("a verdict too many".into());
    }
    let mut diag = rest;
    diag.extend_from_slice(&o.stderr);
    for n in &e.named {
        if !contains(&diag, &lossy(n)) {
            return Some(format!("no diagnostic names {:?}", String::from_utf8_lossy(n)));
        }
    }
    if let Some(s) = &e.stdout_exact {
        if o.stdout != s.as_bytes() {
            return Some(format!("standard output is not {s:?}"));
        }
    }
    for s in &e.stdout_has {
        if !contains(&o.stdout, s.as_bytes()) {
            return Some(format!("standard output lacks {s:?}"));
        }
    }
    if e.stderr_nonempty && o.stderr.is_empty() {
        return Some("nothing on standard error".into());
    }
    None
}

/// A history: a directory and a sequence of runs.
pub fn history(stats: &Stats, lab: &Lab, prop: u32, place: &mut Place, fs: &Fs, runs: &[Vec<OsString>]) {
    stats.transitions.fetch_add(runs.len() as u64, Relaxed);
    place.fill(fs);
    let mut now = fs.clone();
    for (l, to, _) in &place.soft {
        now.insert(l.clone(), link_itself(&now, to));
    }
    for (i, args) in runs.iter().enumerate() {
        let (_, before) = place.observe();
        let model = expand(&now, &place.soft);
        let mut e = simulate(&model, place.dir.as_os_str().as_bytes(), args, &lab.version);
        e.fs = collapse(e.fs, &model, &place.soft);
        let o = place.run(args, None);
        stats.accepted.fetch_add(1, Relaxed);
        let (got, after) = place.observe();
        let touched = before != after;
        if let Some(d) = compare(&e, &o, &got, touched) {
            let mut cmds: Vec<String> = runs[..=i].iter().map(|a| show_args(a)).collect();
            cmds.extend(place.soft.iter().map(|l| format!("with a symbolic link {:?} -> {:?}", String::from_utf8_lossy(&l.0), l.2)));
            cmds.extend(place.links.iter().map(|l| format!("with a hard link {:?} = {:?}", String::from_utf8_lossy(&l.1), String::from_utf8_lossy(&l.0))));
            report(stats, prop, format!(
                "run {}: {d}\nstdout: {:?}\nstderr: {:?}", i + 1,
                String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(1500)]),
                String::from_utf8_lossy(&o.stderr[..o.stderr.len().min(1500)])
            ), &cmds.join("\n"), fs);
            return;
        }
        now = got;
    }
}
pub fn report(stats: &Stats, prop: u32, detail: String, cmds: &str, fs: &Fs) {
    stats.report(vec![Viol { prop, detail, input: format!("\u{1}command line\u{1}{cmds}\nin a directory with\n{}", show(fs)) }]);
}

pub fn os(s: &str) -> OsString {
    OsString::from(s)
}
pub fn osb(s: &[u8]) -> OsString {
    OsString::from_vec(s.to_vec())
}
