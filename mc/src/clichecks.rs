//! The spaces of histories, file lists, directory trees, faults and argument lists (C17-C21), and the texts of the
//! other properties through the executable.
use crate::checks::World;
use crate::cli::*;
use crate::engine::*;
use crate::families::{self as fam, Family};
use crate::oracle::{double_blank, unclean, Viol};
use crate::reflex;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

pub const UNFORMATTED: &str = "model  A \"d\"\nReal x=1;equation\n\n\n x=f(1,2,\n3);  // c\nend A;";
pub const OTHER: &str = "within P;package B constant Integer n=2;end B;";
/// Contents of every kind.
fn contents() -> Vec<(&'static str, Vec<u8>)> {
    let f = String::from_utf8(formatted(UNFORMATTED.as_bytes()).unwrap()).unwrap();
    let body = f.trim_end_matches('\n').to_string();
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("formatted", f.clone().into_bytes()),
        ("unformatted", UNFORMATTED.into()),
        ("syntax error", "model A end;".into()),
        ("lexical error", f.replace('=', "#").into_bytes()),
        ("not UTF-8", b"model A // \xff\nend A;\n".to_vec()),
        ("empty", vec![]),
        ("no final newline", body.clone().into_bytes()),
        ("two final newlines", (f.clone() + "\n").into_bytes()),
        ("CRLF", f.replace('\n', "\r\n").into_bytes()),
        ("CRLF at the end", (body.clone() + "\r\n").into_bytes()),
        ("blank at the end", (body.clone() + " \n").into_bytes()),
        ("blank in the beginning", (" ".to_string() + &f).into_bytes()),
        ("newline in the beginning", ("\n".to_string() + &f).into_bytes()),
        ("tabs", f.replace("  ", "\t").into_bytes()),
        ("byte order mark", ("\u{feff}".to_string() + &f).into_bytes()),
        ("only a newline", b"\n".to_vec()),
        ("only a comment", b"// c".to_vec()),
        ("formatted comment", b"// c\n".to_vec()),
        ("truncated", body[..body.len() - 3].into()),
        ("NUL", (f.clone() + "\0").into_bytes()),
        ("late error", (f.clone() + "model").into_bytes()),
        ("other", OTHER.into()),
        ("CR", f.replace('\n', "\r").into_bytes()),
    ];
    let mut long = f.clone();
    for i in 0..400 {
        long += &f.replace("A", &format!("A{i}")).replace('=', " =");
    }
    v.push(("long", long.into_bytes()));
    v
}

/// A list of parts that is split over the workers.
fn each(stats: &Stats, lab: &Lab, name: &str, n: usize, f: impl Fn(usize, &mut Place) + Sync) {
    if stats.stopped() {
        return;
    }
    let before = (stats.states.load(Relaxed), Instant::now());
    parallel(stats, n, |i, slot| {
        slot.ticks.fetch_add(1, Relaxed);
        thread_local! { static P: std::cell::RefCell<Option<usize>> = const { std::cell::RefCell::new(None) }; }
        stats.states.fetch_add(1, Relaxed);
        let mut place = lab.place(Some(slot.ticks.clone()));
        f(i, &mut place);
    });
    stats.pass(name, before);
}
fn check(args: &[OsString]) -> Vec<OsString> {
    let mut v = vec![os("--check")];
    v.extend_from_slice(args);
    v
}
/// the i-th tuple of `k` digits below `n`
fn digits(mut i: usize, n: usize, k: usize) -> Vec<usize> {
    (0..k)
        .map(|_| {
            let d = i % n;
            i /= n;
            d
        })
        .collect()
}

/// Names that something else gives a meaning to, and all the short ones.
fn odd_names() -> Vec<Vec<u8>> {
    let mut names: Vec<Vec<u8>> = [
        ".git", ".svn", ".hg", ".bzr", "CVS", ".cache", ".idea", ".vscode", ".venv", "venv", "node_modules", "target", "build", "dist", "out",
        "bin", "obj", "lib", "vendor", "third_party", "__pycache__", "__MACOSX", ".DS_Store", ".Trash", "lost+found", "tmp", "temp", "test",
        "tests", "Test", "Tests", "Examples", "Resources", "Images", "Documentation", "Library", "Include", "Scripts", "Obsolete", "Modelica",
        "ModelicaTest", "package", "package.mo", "package.order", "libraryinfo.mos", "CMakeFiles", ".mofmt", ".mofmtignore", ".gitignore",
        ".editorconfig", "src", "include", "ignore", "ignored", "generated", "backup", "old", "orig", "CON", "NUL", "aux", "con.mo", "x.bak",
        "x.orig", "x.mo.orig", "x.swp", "#x.mo#", ".#x.mo", "~x.mo", "x.mo,v", "x.mos", "x.moc", "x.mof", "x.mo.txt", "x.mo.gz", "x.MOS", "m.o",
        "Modelica 4.0.0", "Modelica 4.0.0.mo", "1.0", "1.0.mo", "...", "....mo", ". .", "*", "*.mo", "?.mo", "[a].mo", "{a,b}.mo", "$HOME", "~", "!a",
        "a\\b.mo", "a:b.mo", "a|b", "<a>", "\"a\".mo", "'a'.mo", "%41.mo", "a\tb.mo", "\r.mo", "\u{301}.mo", "\u{202e}.mo", "\u{feff}.mo", "\u{7f}.mo",
        "\u{1}.mo", "a&b;c.mo", "(a).mo", "@a.mo", "=a.mo", "+a.mo", ",.mo", "mo.", "mo.mo", "om.", "a.mo.", "a.mo. ", "a. mo", "a.m o", "a.m", "a.o",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    for c in (1..=255u8).filter(|c| *c != b'/') {
        for v in [vec![c], vec![c, b'.', b'm', b'o'], vec![b'a', b'.', b'm', c], vec![b'a', b'.', c, b'o'], vec![b'a', c, b'm', b'o'], vec![b'.', c], vec![b'a', b'.', b'm', b'o', c]] {
            if v != b".." && v != b"." {
                names.push(v);
            }
        }
    }
    for n in [63, 64, 127, 128, 250, 252] {
        names.push("x".repeat(n).into_bytes());
        names.push(format!("{}.mo", "x".repeat(n)).into_bytes());
        names.push(format!("x.{}", "mo".repeat(n / 2)).into_bytes());
    }
    names.sort();
    names.dedup();
    names
}

impl World<'_> {
    pub fn cli(&self, prop: u32) {
        let lab = Lab::new();
        self.stats.note(if lab.drop { "runs as an unprivileged user" } else { "runs as the same user" }, 1);
        match prop {
            17 => self.check_mode(&lab),
            18 => self.lists_of_files(&lab),
            19 => self.trees(&lab),
            20 => self.faults(&lab),
            21 => self.arguments(&lab),
            _ => unreachable!(),
        }
    }

    /// C17: histories of check and format runs over all states of files.
    fn check_mode(&self, lab: &Lab) {
        let stats = self.stats;
        let c = contents();
        let n = c.len();
        // one file, all histories of four commands
        each(stats, lab, "one file in every state, every history of 4 commands", n * 16, |i, p| {
            let (h, i) = (i % 16, i / 16);
            let mut fs = Fs::new();
            file(&mut fs, b"a.mo", &c[i].1);
            let a = vec![os("a.mo")];
            let runs: Vec<_> = (0..4).map(|b| if h >> b & 1 == 1 { a.clone() } else { check(&a) }).collect();
            history(stats, lab, 17, p, &fs, &runs);
            stats.sample(|| format!("{}: {}", c[i].0, runs.iter().map(|r| show_args(r)).collect::<Vec<_>>().join("; ")));
        });
        // two files in all pairs of states, all ways to name them
        each(stats, lab, "two files in all pairs of states, histories of 3 commands", n * n * 4, |i, p| {
            let d = digits(i, n, 2);
            let h = i / (n * n);
            let mut fs = Fs::new();
            file(&mut fs, b"a.mo", &c[d[0]].1);
            file(&mut fs, b"d/b.mo", &c[d[1]].1);
            file(&mut fs, b"d/c.txt", UNFORMATTED.as_bytes());
            let both = vec![os("a.mo"), os("d/b.mo")];
            let (x, y) = match h {
                0 => (both.clone(), both.clone()),
                1 => (vec![os("d")], both.clone()),
                2 => (vec![os(".")], vec![os("d"), os("a.mo")]),
                _ => (vec![os("a.mo")], both.clone()),
            };
            history(stats, lab, 17, p, &fs, &[check(&y), x, check(&y)]);
        });
        self.sizes(lab, 17);
        self.links(lab, 17);
        self.soft_links(lab, 17);
        self.white_edits(lab);
        // read-only and unreadable files
        if lab.drop {
            each(stats, lab, "files and directories without permissions", n * 4 * 3, |i, p| {
                let mode = [0o444, 0o000, 0o644, 0o222][i / n % 4];
                let mut fs = Fs::new();
                file(&mut fs, b"d/a.mo", &c[i % n].1);
                file(&mut fs, b"d/b.mo", UNFORMATTED.as_bytes());
                if let Some(Node::File(_, m)) = fs.get_mut(&b"d/a.mo"[..]) {
                    *m = mode;
                }
                let a = match i / n / 4 {
                    0 => vec![os("d")],
                    1 => vec![os("d/a.mo")],
                    _ => vec![os("d/b.mo"), os("d/a.mo"), os("d/b.mo")],
                };
                history(stats, lab, 17, p, &fs, &[check(&a), a.clone(), check(&a)]);
            });
        }
        self.masses(lab, &self.edges_(0, 1, &[false, true]), 17);
        if self.thorough {
            each(stats, lab, "three files in all triples of states", n * n * n, |i, p| {
                let d = digits(i, n, 3);
                let mut fs = Fs::new();
                let names = ["a.mo", "b.mo", "c.mo"];
                for k in 0..3 {
                    file(&mut fs, names[k].as_bytes(), &c[d[k]].1);
                }
                let a: Vec<OsString> = names.iter().map(|s| os(s)).collect();
                history(stats, lab, 17, p, &fs, &[check(&a), a.clone(), check(&a)]);
            });
            self.masses(lab, &self.edges_(2, 2, &[false]), 17);
        }
    }
    /// Formatted files with one white-space character put in, left out or replaced, in all places.
    fn white_edits(&self, lab: &Lab) {
        let stats = self.stats;
        const WHITE: &[&str] = &[" ", "\t", "\n", "\r", "\r\n", "\u{c}", "\u{b}", "\u{a0}", "\u{feff}", "\0", ""];
        const TEXT: &str = "/* a\n b */\nmodel  A \"d e\"\n\nReal x[3]={1,2, -3} \"s\";// c\n\nequation if x>1 then y=1;else y=f(a=1);end if;annotation(Icon(x={1,2}));end A;\n//z";
        let f = String::from_utf8(formatted(TEXT.as_bytes()).unwrap()).unwrap();
        let n = f.len() + 1;
        each(stats, lab, "a formatted file with each white-space character put in before, or in the place of, each character", WHITE.len() * 2, |i, p| {
            let (w, instead) = (WHITE[i % WHITE.len()], i / WHITE.len());
            let mut fs = Fs::new();
            for at in 0..n {
                let mut t = f.clone();
                t.replace_range(at..(at + instead).min(f.len()), w);
                file(&mut fs, format!("d/{at}.mo").as_bytes(), t.as_bytes());
            }
            let a = vec![os("d")];
            history(stats, lab, 17, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
    }
    fn edges_(&self, from: usize, to: usize, sib: &[bool]) -> Family {
        fam::edges(self.g, self.s, from, to, sib)
    }

    /// Directories with some hundred programs each, in several layouts and with dirty ends.
    fn masses(&self, lab: &Lab, f: &Family, prop: u32) {
        let (g, s, stats) = (self.g, self.s, self.stats);
        let size = 60;
        each(stats, lab, &format!("{}: directories of {size} programs in 5 layouts", f.name), f.len().div_ceil(size), |i, p| {
            let mut fs = Fs::new();
            let mut text = String::new();
            for k in i * size..((i + 1) * size).min(f.len()) {
                let Some(q) = f.prog(g, s, k) else { continue };
                for (v, gap) in [" ", "\n", "\r\n", " /* c */ ", ""].iter().enumerate() {
                    let gs: Vec<&str> = (0..=q.len()).map(|i| if i == 0 { "" } else { *gap }).collect();
                    q.render(&gs, &mut text);
                    if *gap == "" {
                        q.render(&(0..=q.len()).map(|i| if i == 0 { "" } else { " " }).collect::<Vec<_>>(), &mut text);
                        let Some(o) = formatted(text.as_bytes()) else { continue };
                        text = String::from_utf8(o).unwrap();
                        match k % 4 {
                            0 => text.push('\n'),
                            1 => drop(text.pop()),
                            _ => (),
                        }
                    }
                    file(&mut fs, format!("d{v}/p{k}.mo").as_bytes(), text.as_bytes());
                }
            }
            stats.states.fetch_add(fs.len() as u64, Relaxed);
            let a = vec![os(".")];
            match prop {
                17 => history(stats, lab, 17, p, &fs, &[check(&a), a.clone(), check(&a), a.clone()]),
                18 => history(stats, lab, 18, p, &fs, &[a.clone()]),
                _ => self.bytes(lab, p, &fs, prop),
            }
        });
    }

    /// Files with two names (or three), all of which are given.
    fn links(&self, lab: &Lab, prop: u32) {
        let stats = self.stats;
        let c = contents();
        let n = c.len();
        const NAMES: &[[&str; 3]] = &[["a.mo", "b.mo", "c.mo"], ["d/a.mo", "d/b.mo", "e/a.mo"], ["d/x/a.mo", "a.mo", "d/a.mo"]];
        each(stats, lab, "files with several names (hard links), next to another", n * NAMES.len() * 3 * 2, |i, p| {
            let (k, names, how, three) = (i % n, &NAMES[i / n % NAMES.len()], i / n / NAMES.len() % 3, i / n / NAMES.len() / 3 == 1);
            let mut fs = Fs::new();
            p.links.clear();
            let mut a = vec![];
            for (j, name) in names[..2 + three as usize].iter().enumerate() {
                file(&mut fs, name.as_bytes(), &c[k].1);
                a.push(os(name));
                if j > 0 {
                    p.links.push((names[0].as_bytes().to_vec(), name.as_bytes().to_vec()));
                }
            }
            // the names in order, so that the first one exists first
            let first = fs.keys().find(|f| a.iter().any(|a| a.as_bytes() == &f[..])).unwrap().clone();
            p.links = a.iter().map(|a| (first.clone(), a.as_bytes().to_vec())).filter(|l| l.0 != l.1).collect();
            file(&mut fs, b"other.mo", UNFORMATTED.as_bytes());
            match how {
                0 => a.push(os("other.mo")),
                1 => a.reverse(),
                _ => a = vec![os(".")],
            }
            history(stats, lab, prop, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
    }

    /// Paths that are symbolic links (to files, directories, links, nothing).
    fn soft_links(&self, lab: &Lab, prop: u32) {
        let stats = self.stats;
        let c = contents();
        let n = c.len();
        // links (name, where it leads to, text), then the paths given
        const FORMS: &[(&[(&str, &str, &str)], &[&str])] = &[
            (&[("s.mo", "a.mo", "a.mo")], &["s.mo"]),
            (&[("s.mo", "a.mo", "./a.mo")], &["s.mo", "a.mo"]),
            (&[("s.mo", "a.mo", "a.mo")], &["a.mo", "s.mo"]),
            (&[("s.mo", "a.mo", "a.mo"), ("t.mo", "s.mo", "s.mo")], &["t.mo"]),
            (&[("s.mo", "a.mo", "a.mo"), ("t.mo", "a.mo", "a.mo")], &["t.mo", "s.mo"]),
            (&[("s.mo", "d/a.mo", "d/a.mo")], &["s.mo"]),
            (&[("d/s.mo", "a.mo", "../a.mo")], &["d/s.mo"]),
            (&[("d/s.mo", "d/e/a.mo", "e/a.mo")], &["d/s.mo", "d/e/a.mo"]),
            (&[("s", "d", "d")], &["s"]),
            (&[("s", "d", "d")], &["s/a.mo"]),
            (&[("s", "d", "d")], &["s/", "d"]),
            (&[("s", "d", "d"), ("t", "s", "s")], &["t"]),
            (&[("s.mo", "d", "d/")], &["s.mo"]),
            (&[("s", "d/e", "d/e")], &["s", "d"]),
            (&[("s", "d", "./d/../d"), ("t.mo", "d/a.mo", "s/a.mo")], &["t.mo", "s/e"]),
            (&[("s.mo", "gone.mo", "gone.mo")], &["s.mo"]),
            (&[("s.mo", "gone.mo", "gone.mo")], &["a.mo", "s.mo", "d"]),
            (&[("s", "gone", "gone")], &["s/a.mo", "s"]),
            (&[("s.mo", "s.mo", "s.mo")], &["s.mo", "d"]),
        ];
        each(stats, lab, "paths that are symbolic links, next to another", n * FORMS.len() * 2, |i, p| {
            let (k, (soft, args), last) = (i % n, FORMS[i / n % FORMS.len()], i / n / FORMS.len() == 1);
            let mut fs = Fs::new();
            for f in ["a.mo", "d/a.mo", "d/e/a.mo"] {
                file(&mut fs, f.as_bytes(), &c[k].1);
            }
            file(&mut fs, b"other.mo", UNFORMATTED.as_bytes());
            let mut a: Vec<OsString> = args.iter().map(|a| os(a)).collect();
            a.insert(if last { a.len() } else { 0 }, os("other.mo"));
            p.soft = soft.iter().map(|l| (l.0.as_bytes().to_vec(), l.1.as_bytes().to_vec(), os(l.2))).collect();
            history(stats, lab, prop, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
    }

    /// Files whose size, or that of the formatted text, is at or next to that of a buffer.
    fn sizes(&self, lab: &Lab, prop: u32) {
        let mut sizes = vec![1 << 20, 3 << 20];
        for k in [512, 1024, 4096, 8192, 16384, 65536, 131072, 262144] {
            sizes.extend([k - 1, k, k + 1]);
        }
        const FILL: &[&str] = &["x", "\u{e9}", "\u{4e16}", "\u{1f600}", "x\n// "];
        let stats = self.stats;
        each(stats, lab, "files of up to 3 MB, of sizes next to those of buffers", sizes.len() * FILL.len() * 4, |i, p| {
            let (size, fill, how) = (sizes[i % sizes.len()], FILL[i / sizes.len() % FILL.len()], i / sizes.len() / FILL.len());
            let code = String::from_utf8(formatted(UNFORMATTED.as_bytes()).unwrap()).unwrap();
            let mut text = String::from("// ");
            let room = size - code.len() - 4;
            if how == 3 {
                // all characters of the filling get to another place
                text.push('y');
            }
            while text.len() + fill.len() <= 3 + room {
                text.push_str(fill);
            }
            while text.len() < 3 + room {
                text.push('z');
            }
            text.push('\n');
            text.push_str(&code);
            assert_eq!(text.len(), size);
            match how {
                1 => text.push('\n'),
                2 => text.insert_str(0, "  \n"),
                _ => {}
            }
            let mut fs = Fs::new();
            file(&mut fs, b"a.mo", text.as_bytes());
            file(&mut fs, b"b.mo", OTHER.as_bytes());
            let a = vec![os("a.mo"), os("b.mo")];
            history(stats, lab, prop, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
    }

    /// C01, C02, C03, C16 on the bytes that the executable writes.
    fn bytes(&self, _lab: &Lab, p: &mut Place, fs: &Fs, prop: u32) {
        let stats = self.stats;
        p.fill(fs);
        let a = vec![os(".")];
        let o = p.run(&a, None);
        stats.accepted.fetch_add(1, Relaxed);
        let (got, _) = p.observe();
        let again = if prop == 3 {
            p.run(&a, None);
            Some(p.observe().0)
        } else {
            None
        };
        for (k, n) in fs {
            let (Node::File(src, _), Some(Node::File(out, _))) = (n, got.get(k)) else { continue };
            // only programs that are accepted
            if formatted(src).is_none() {
                continue;
            }
            let (src, Ok(out)) = (String::from_utf8_lossy(src), std::str::from_utf8(out)) else { continue };
            let d = match prop {
                1 | 2 => {
                    let (i, _) = reflex::lex(&src);
                    let (o, _) = reflex::lex(out);
                    let f = |v: &[reflex::Item], t: &str| -> Vec<String> {
                        v.iter().filter(|x| prop == 2 || !x.is_comment()).map(|x| x.text(t).to_string()).collect()
                    };
                    (f(&i, &src) != f(&o, out)).then(|| "tokens or comments changed".to_string())
                }
                3 => match again.as_ref().and_then(|a| a.get(k)) {
                    Some(Node::File(b, _)) if b == out.as_bytes() => None,
                    _ => Some("a second run changes the file".to_string()),
                },
                _ => {
                    let body = out.strip_suffix('\n');
                    match body {
                        None => Some("the file does not end with a newline".to_string()),
                        Some(b) => {
                            let (items, _) = reflex::lex(b);
                            unclean(b, &items).or(if prop == 10 { double_blank(b, &items) } else { None })
                        }
                    }
                }
            };
            if let Some(d) = d {
                stats.report(vec![Viol {
                    prop,
                    detail: format!("executable: {d} (exit {:?})\n---\n{out}", o.code),
                    input: src.to_string(),
                }]);
                return;
            }
        }
    }
    pub fn through_executable(&self, prop: u32) {
        if self.stats.stopped() {
            return;
        }
        let lab = Lab::new();
        self.masses(&lab, &self.edges_(0, 1, &[false]), prop);
    }

    /// Files with very many of the same thing in a row, by the executable (whose stack is that of a main thread).
    pub fn long_files(&self, lab: &Lab, prop: u32) {
        // (before, again and again, behind); `#` is a number
        const PARTS: &[(&str, &str, &str)] = &[
            ("", " ", "model A end A;"), ("", "\n", "model A end A;"), ("", "\t", "model A end A;"), ("", "\r\n", "model A end A;"),
            ("", "// c#\n", "model A end A;"), ("", "/* c# */ ", "model A end A;"), ("", "// c#\n\n", "model A end A;"),
            ("model A end A;", "// c#\n", ""), ("model A end A;", "\n", ""), ("model A end A; //", " ", ""), ("model A end A; /*", "\n", "*/"),
            ("", "model A end A;", ""), ("model A ", "Real x#;", "end A;"), ("model A equation ", "x=1;", "end A;"),
            ("model A algorithm ", "x:=1;", "end A;"), ("model A ", "equation ", "end A;"), ("model A ", "public ", "end A;"),
            ("model A Real x", ",x#", ";end A;"), ("model A Real x=1", "+1", ";end A;"), ("model A Real x=1", "*x", ";end A;"),
            ("model A Real x=true", " and true", ";end A;"), ("model A Real x=true", " or true", ";end A;"), ("model A Real x={1", ",1", "};end A;"),
            ("model A Real x=[1", ";1", "];end A;"), ("model A Real x=[1", ",1", "];end A;"), ("model A Real x=f(1", ",1", ");end A;"),
            ("model A Real x=f(a=1", ",a=1", ");end A;"), ("model A Real x=a", ".b", ";end A;"), ("model A Real x(a=1", ",a=1", ");end A;"),
            ("model A Real x=if a then 1", " elseif a then 1", " else 2;end A;"), ("model A equation if a then ", "elseif a then x=1;", "end if;end A;"),
            ("model A equation when a then x=1;", "elsewhen a then x=1;", "end when;end A;"), ("model A \"a\"", "+\"a\"", " end A;"),
            ("model A Real x[1", ",1", "];end A;"), ("type A=enumeration(a", ",a#", ");"), ("model A annotation(a=1", ",a=1", ");end A;"),
            ("model A extends B", ".C", ";end A;"), ("model A import B.{c", ",c", "};end A;"), ("model A \"", "x", "\" end A;"), ("model A \"", "\n", "\" end A;"),
            ("model A", "x", " end A;"), ("model A Real x=1", "0", ";end A;"), ("model A Real x=0.", "0", ";end A;"), ("model A \"", "\\n", "\" end A;"),
            ("model '", "x", "' end A;"), ("model A algorithm for i in 1", ",j in 1", " loop x:=1;end for;end A;"), ("function A=der(B,x", ",x", ");"),
            // not valid
            ("", ";", ""), ("", "# ", ""), ("", "#", ""), ("", "$", ""), ("", "x ", ""), ("", "end A;", ""), ("", "1 ", ""), ("", "\"a\" ", ""), ("", "=", ""),
            ("model A ", ";", "end A;"), ("model A ", "# ", "end A;"), ("model A equation ", ";", "end A;"), ("", "\"", ""), ("", "'", ""), ("", "\\", ""), ("", "/* ", ""),
            ("", "model A ", ""), ("", "\u{e9}", ""), ("", ". ", ""), ("", ", ", ""), ("", ") ", ""), ("", "} ", ""), ("", "] ", ""), ("model A end A;", "x", ""),
        ];
        let stats = self.stats;
        each(stats, lab, "up to 100000 of the same thing in a row", PARTS.len(), |i, p| {
            let (a, b, c) = PARTS[i];
            let mut t = a.to_string();
            // (what the grammar nests may exhaust the stack)
            let nested = matches!(b, ",1" | ",a=1" | "model A ");
            let n = if nested { 5_000 } else if b.len() < 3 || b.contains('/') || c.is_empty() { 100_000 } else { 20_000 };
            for k in 0..n {
                match b.split_once("c#").or(b.split_once("x#")) {
                    Some((l, r)) => t += &format!("{l}x{k}{r}"),
                    None => t.push_str(b),
                }
            }
            t.push_str(c);
            let mut fs = Fs::new();
            file(&mut fs, b"a.mo", t.as_bytes());
            let a = vec![os("a.mo")];
            if prop == 18 {
                return history(stats, lab, 18, p, &fs, &[check(&a), a.clone(), check(&a)]);
            }
            p.fill(&fs);
            let o = p.run(&a, None);
            stats.accepted.fetch_add(1, Relaxed);
            if !matches!(o.code, Some(0 | 1)) {
                report(stats, prop, format!("the executable ends with {:?}\n{}", o.code, String::from_utf8_lossy(&o.stderr[..o.stderr.len().min(1500)])), &show_args(&a), &fs);
            }
        });
    }

    /// C18: lists of files of all kinds.
    fn lists_of_files(&self, lab: &Lab) {
        let stats = self.stats;
        let c = contents();
        let get = |k: &str| c.iter().find(|x| x.0 == k).unwrap().1.clone();
        let mut fs = Fs::new();
        file(&mut fs, b"unformatted.mo", &get("unformatted"));
        file(&mut fs, b"formatted.mo", &get("formatted"));
        file(&mut fs, b"other.mo", &get("other"));
        file(&mut fs, b"syntax.mo", &get("syntax error"));
        file(&mut fs, b"lexical.mo", &get("lexical error"));
        file(&mut fs, b"binary.mo", &get("not UTF-8"));
        file(&mut fs, b"empty.mo", b"");
        file(&mut fs, b"late.mo", &get("late error"));
        file(&mut fs, b"text.txt", &get("unformatted"));
        file(&mut fs, b"mo", &get("unformatted"));
        file(&mut fs, b"d/in.mo", &get("unformatted"));
        file(&mut fs, b"d/broken.mo", &get("syntax error"));
        file(&mut fs, b"e/in.mo", &get("other"));
        file(&mut fs, b"sp ace/\xc4\x85 b.mo", &get("other"));
        file(&mut fs, b"odd\xff.mo", &get("unformatted"));
        file(&mut fs, b"long.mo", &get("long"));
        if lab.drop {
            file(&mut fs, b"locked.mo", &get("unformatted"));
            fs.insert(b"locked.mo".to_vec(), Node::File(get("unformatted"), 0o000));
            fs.insert(b"readonly.mo".to_vec(), Node::File(get("unformatted"), 0o444));
        }
        let mut menu: Vec<OsString> = [
            "unformatted.mo", "formatted.mo", "other.mo", "syntax.mo", "lexical.mo", "binary.mo", "empty.mo", "late.mo", "text.txt", "mo",
            "missing.mo", "missing.txt", "d", "e", "./unformatted.mo", "sp ace/\u{105} b.mo", "nowhere/x.mo", "d/in.mo", "e/../other.mo", "d/",
            "", "unformatted.mo/", "other.mo/.",
        ]
        .iter()
        .map(|s| os(s))
        .collect();
        menu.push(osb(b"odd\xff.mo"));
        menu.push(os("long.mo"));
        if lab.drop {
            menu.push(os("locked.mo"));
            menu.push(os("readonly.mo"));
        }
        let n = menu.len();
        for len in 1..=if self.thorough { 4 } else { 3 } {
            each(stats, lab, &format!("every list of {len} out of {n} paths, formatted, and checked"), n.pow(len as u32), |i, p| {
                let args: Vec<OsString> = digits(i, n, len).iter().map(|d| menu[*d].clone()).collect();
                // only the files that are named exist (all that matters), except in short lists
                let fs2: Fs = if len < 3 {
                    fs.clone()
                } else {
                    fs.iter()
                        .filter(|(k, _)| {
                            args.iter().any(|a| {
                                let a = a.as_bytes().strip_prefix(b"./").unwrap_or(a.as_bytes());
                                let top = |x: &[u8]| x.split(|c| *c == b'/').next().unwrap().to_vec();
                                top(a) == top(k) || a.ends_with(b"other.mo") && k.as_slice() == b"other.mo"
                            })
                        })
                        .map(|(k, v)| (k.clone(), v.clone()))
                        .collect()
                };
                if i % 2 == 0 || len < 3 || self.thorough {
                    history(stats, lab, 18, p, &fs2, &[args.clone()]);
                }
                if i % 2 == 1 || len < 3 || self.thorough {
                    history(stats, lab, 18, p, &fs2, &[check(&args)]);
                }
                stats.sample(|| show_args(&args));
            });
        }
        // long lists with one bad file in every place
        let mut bad = vec!["syntax.mo", "binary.mo", "missing.mo", "text.txt", "late.mo", "empty.mo"];
        if lab.drop {
            bad.extend(["locked.mo", "readonly.mo"]);
        }
        each(stats, lab, "12 files with one bad one in every place", 12 * bad.len() * 2, |i, p| {
            let (at, b, ch) = (i % 12, bad[i / 12 % bad.len()], i / 12 / bad.len());
            let mut fs3 = fs.clone();
            let mut args = vec![];
            for k in 0..12 {
                if k == at {
                    args.push(os(b));
                } else {
                    let name = format!("f{k}.mo");
                    file(&mut fs3, name.as_bytes(), &get(if k % 2 == 0 { "unformatted" } else { "other" }));
                    args.push(os(&name));
                }
            }
            let args = if ch == 1 { check(&args) } else { args };
            history(stats, lab, 18, p, &fs3, &[args]);
        });
        // many bad files of one kind, by which no counter may overflow
        let bad: [Option<&[u8]>; 5] = [None, Some(b"model A end;"), Some(b"\xff"), Some(b"model A \"\nend A;"), Some(UNFORMATTED.as_bytes())];
        let mut counts: Vec<usize> = (0..=33).collect();
        for k in [64, 128, 256, 512, 1024] {
            counts.extend([k - 1, k, k + 1]);
        }
        each(stats, lab, "up to 1025 files with the same problem, with a valid one after them, or in a directory", counts.len() * bad.len() * 3, |i, p| {
            let (n, b, h) = (counts[i % counts.len()], bad[i / counts.len() % bad.len()], i / counts.len() / bad.len());
            let mut fs = Fs::new();
            let mut args = vec![];
            for k in 0..n {
                let name = format!("d/f{k}.mo");
                if let Some(b) = b {
                    file(&mut fs, name.as_bytes(), b);
                }
                args.push(os(&name));
            }
            file(&mut fs, b"d/g.mo", OTHER.as_bytes());
            match h {
                0 => args.push(os("d/g.mo")),
                1 => args = vec![os("d")],
                _ => args = check(&args),
            }
            history(stats, lab, 18, p, &fs, &[args]);
        });
        self.sizes(lab, 18);
        self.links(lab, 18);
        self.soft_links(lab, 18);
        self.long_files(lab, 18);
        // one character in a comment, a string or a quoted identifier, and by itself in the beginning and at the end
        let mut odd: Vec<char> = (0..=0x2ffu32).filter_map(char::from_u32).collect();
        odd.extend("\u{2000}\u{200b}\u{200e}\u{2028}\u{2029}\u{202e}\u{2060}\u{3000}\u{301}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars());
        const PLACES: &[&str] = &["// ~ c\nmodel A end A;", "/*~*/model A end A;", "model A \"~\" end A;", "model A \"x\\~x\" end A;", "model '~' end '~';", "~model A end A;", "model A end A;~", "model A Real~x; end A; // ~"];
        each(stats, lab, "files with each odd character in every place", PLACES.len() * odd.len().div_ceil(40), |i, p| {
            let (t, b) = (PLACES[i % PLACES.len()], i / PLACES.len());
            let mut fs = Fs::new();
            for c in &odd[b * 40..odd.len().min(b * 40 + 40)] {
                file(&mut fs, format!("d/{:x}.mo", *c as u32).as_bytes(), t.replace('~', &c.to_string()).as_bytes());
            }
            let a = vec![os("d")];
            history(stats, lab, 18, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
        // paths that something else gives a meaning to, missing or not, between the others
        let mut odd = odd_names();
        for x in [
            "-", "--", "---", "-.mo", "~/other.mo", "~root/other.mo", "$PWD/other.mo", "%TEMP%/other.mo", "*/in.mo", "@other.mo", "file:other.mo", "file:///other.mo",
            "other.mo:1", "other.mo:1:1", "other.mo,unformatted.mo", "other.mo unformatted.mo", "other.mo\n", " other.mo", "'other.mo'", "\"other.mo\"", "other",
            "OTHER.MO", "other.Mo", "other.mo?", "other.mo#x", "other.m\\o", "c:other.mo", "c:\\other.mo", "d\\in.mo", "/dev/fd/9/x.mo", "+other.mo", "!other.mo",
            "<other.mo", "|cat", "&other.mo", ";", "{other,unformatted}.mo", "[o]ther.mo", "other.mo\r", "./-", "././other.mo", "d/../other.mo", "d//in.mo",
        ] {
            odd.push(x.as_bytes().to_vec());
        }
        each(stats, lab, "odd paths, of files and of nothing, before and after another", odd.len() * 4, |i, p| {
            let (x, how) = (&odd[i / 4], i % 4);
            let mut fs = Fs::new();
            file(&mut fs, b"other.mo", OTHER.as_bytes());
            file(&mut fs, b"unformatted.mo", UNFORMATTED.as_bytes());
            file(&mut fs, b"d/in.mo", UNFORMATTED.as_bytes());
            if how / 2 == 1 && !x.contains(&b'/') {
                file(&mut fs, x, UNFORMATTED.as_bytes());
            }
            let mut a = vec![osb(x), os("unformatted.mo")];
            if how % 2 == 0 {
                a.reverse();
            }
            history(stats, lab, 18, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
        // what someone might take for a name of his own
        const NEIGHBOURS: &[&str] = &[
            "a.tmp", "a.mo.tmp", ".a.mo.tmp", ".a.tmp", "tmp", "temp", ".tmp", "a.mo~", "~a.mo", "a~", "#a.mo#", ".#a.mo", "a.bak", "a.mo.bak", "a.orig", "a.mo.orig", "a.old",
            "a.mo.old", "a.new", "a.mo.new", ".a.mo.swp", "a.swp", "a.out", "a.mo.out", "a.formatted", "a.formatted.mo", "a.mo.formatted", "a_formatted.mo", "a.mofmt", ".mofmt",
            "a.mo.mofmt", ".mofmt.tmp", "mofmt.tmp", "mofmt.log", "a.log", "a.lock", "a.mo.lock", ".mofmt.lock", "a.part", "a.mo.part", "a.txt", "a", "a.mo.mo", "b.a.mo", "tmp.mo",
            ".mofmt-cache", "a.cache", "a.mo.cache", "a.mo1", "a.mo.1", "a1.mo", "a.rej", "a.diff", "a.mo.diff", "a.copy", "a.mo.copy", "a.backup", "a.mo.backup", "core", "nohup.out",
        ];
        each(stats, lab, "a file next to others of every name that a temporary, backup or log file may have", NEIGHBOURS.len() * 2 + 2, |i, p| {
            let (k, how) = (i / 2, i % 2);
            let mut fs = Fs::new();
            file(&mut fs, b"d/a.mo", UNFORMATTED.as_bytes());
            for (j, name) in NEIGHBOURS.iter().enumerate() {
                if k == j || k == NEIGHBOURS.len() {
                    file(&mut fs, format!("d/{name}").as_bytes(), b"precious");
                    file(&mut fs, name.as_bytes(), b"precious");
                }
            }
            let a = vec![os(if how == 0 { "d/a.mo" } else { "./d/../d/a.mo" })];
            history(stats, lab, 18, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
        // absolute paths
        each(stats, lab, "absolute paths", n, |i, p| {
            let abs = p.dir.join(&menu[i]).into_os_string();
            history(stats, lab, 18, p, &fs, &[check(&[abs.clone()]), vec![abs.clone(), os("other.mo")]]);
        });
        self.masses(lab, &self.edges_(0, 1, &[false]), 18);
    }

    /// C19: directory trees.
    fn trees(&self, lab: &Lab) {
        let stats = self.stats;
        const FILES: &[&[u8]] = &[
            b"a.mo", b"b.txt", b".mo", b"x.mo.bak", b"X.MO", b"mo", b"x.mo~", b".h.mo", b"x.y.mo", b"x..mo", b"amo", b"x.mop", b"x.Mo",
            b"n\nl.mo", b"\xc4\x85.mo", b"\xff.mo", b"-x.mo", b"--check.mo", b"x. mo", b"x.mo.mo", b"..mo", b"package.mo", b"package.order",
            b"s p.mo", b"x.mo ",
        ];
        const DIRS: &[&[u8]] = &[b"d", b"d.mo", b".d", b".mo", b"e f", b"\xc4\x99\xff"];
        // a tree: entries (name, subtree)
        #[derive(Clone)]
        struct T(Vec<(&'static [u8], Option<T>)>);
        fn put(t: &T, at: &[u8], fs: &mut Fs, n: &mut usize) {
            for (name, sub) in &t.0 {
                let mut p = at.to_vec();
                p.push(b'/');
                p.extend_from_slice(name);
                match sub {
                    None => {
                        *n += 1;
                        let text = if *n % 3 == 0 { OTHER } else { UNFORMATTED };
                        file(fs, &p, text.as_bytes());
                    }
                    Some(t) => {
                        dir(fs, &p);
                        put(t, &p, fs, n);
                    }
                }
            }
        }
        let leaf = |n: &'static [u8]| (n, None);
        let mut small: Vec<T> = vec![T(vec![])];
        for f in FILES {
            small.push(T(vec![leaf(f)]));
        }
        let mut flat = small.clone();
        for (i, a) in FILES.iter().enumerate() {
            for b in &FILES[..i] {
                flat.push(T(vec![leaf(a), leaf(b)]));
            }
        }
        // depth two: a directory with any flat tree, next to a file or not
        let mut trees = flat.clone();
        for d in DIRS {
            for t in &flat {
                trees.push(T(vec![(d, Some(t.clone()))]));
            }
            for t in &small {
                for f in FILES {
                    if f != d {
                        trees.push(T(vec![leaf(f), (d, Some(t.clone()))]));
                    }
                }
                for e in DIRS {
                    if d != e {
                        for u in [&flat[0], &small[1], &small[2], &small[3]] {
                            trees.push(T(vec![(d, Some(t.clone())), (e, Some(u.clone()))]));
                        }
                    }
                    // depth three, and four
                    trees.push(T(vec![leaf(b"a.mo"), (d, Some(T(vec![leaf(b"b.txt"), (e, Some(t.clone()))])))]));
                    if self.thorough {
                        for d3 in DIRS {
                            trees.push(T(vec![(d, Some(T(vec![leaf(b"a.mo"), (e, Some(T(vec![(d3, Some(t.clone()))])))])))]));
                        }
                    }
                }
            }
            if self.thorough {
                for t in &flat {
                    for f in FILES {
                        if f != d {
                            trees.push(T(vec![leaf(f), (d, Some(t.clone()))]));
                        }
                    }
                }
            }
        }
        let run = |t: &T, how: usize, p: &mut Place| {
            let mut fs = Fs::new();
            dir(&mut fs, b"r");
            put(t, b"r", &mut fs, &mut 0);
            file(&mut fs, b"outside.mo", UNFORMATTED.as_bytes());
            let a = match how {
                0 => vec![os("r")],
                1 => vec![os("r/")],
                2 => vec![os("outside.mo"), os("./r")],
                3 => vec![p.dir.join("r").into_os_string()],
                4 => vec![os("r/.")],
                _ => vec![os("r"), os("r")],
            };
            history(stats, lab, 19, p, &fs, &[check(&a), a.clone()]);
            stats.sample(|| format!("{}\n{}", show_args(&a), show(&fs)));
        };
        each(stats, lab, "directory trees", trees.len(), |i, p| run(&trees[i], i % 6, p));
        each(stats, lab, "flat directories, named in every way", small.len() * 6, |i, p| run(&small[i % small.len()], i / small.len(), p));
        let names = odd_names();
        each(stats, lab, "every such name, as that of a file, a directory, and a directory in a directory", names.len() * 4, |i, p| {
            let (n, how) = (&names[i / 4], i % 4);
            let mut fs = Fs::new();
            dir(&mut fs, b"r");
            let mut at = b"r/".to_vec();
            if how == 2 {
                at.extend_from_slice(b"d/");
            }
            at.extend_from_slice(n);
            let mut a = at.clone();
            if how > 0 {
                file(&mut fs, &[&at[..], b"/x.mo"].concat(), UNFORMATTED.as_bytes());
                file(&mut fs, &[&at[..], b"/d/y.mo"].concat(), OTHER.as_bytes());
                file(&mut fs, &[&at[..], b"/t.txt"].concat(), OTHER.as_bytes());
            } else {
                file(&mut fs, &at, UNFORMATTED.as_bytes());
            }
            file(&mut fs, b"r/z.mo", OTHER.as_bytes());
            if how < 3 {
                a = b"r".to_vec();
            }
            let a = vec![osb(&a)];
            history(stats, lab, 19, p, &fs, &[check(&a), a.clone()]);
        });
        // two special characters before, behind and instead of the name
        let special: Vec<char> = (' '..='~').filter(|c| !c.is_ascii_alphanumeric() && *c != '/').collect();
        let n = special.len();
        each(stats, lab, "names with any two special characters before, behind and instead of the stem, and behind the extension", n * 5, |i, p| {
            let mut fs = Fs::new();
            for c in &special {
                let c = format!("{}{c}", special[i % n]);
                match i / n {
                    0 => file(&mut fs, format!("r/{c}x.mo").as_bytes(), OTHER.as_bytes()),
                    1 => file(&mut fs, format!("r/x{c}.mo").as_bytes(), OTHER.as_bytes()),
                    2 => file(&mut fs, format!("r/{c}.mo").as_bytes(), OTHER.as_bytes()),
                    3 => file(&mut fs, format!("r/x.mo{c}").as_bytes(), OTHER.as_bytes()),
                    _ if c == ".." => {}
                    _ => file(&mut fs, format!("r/{c}/x.mo").as_bytes(), OTHER.as_bytes()),
                }
            }
            let a = vec![os("r")];
            history(stats, lab, 19, p, &fs, &[check(&a), a.clone()]);
        });
        // names that look the same
        let mut same: Vec<Vec<u8>> = vec![];
        for c in 0x80..=255u8 {
            same.push(vec![c]);
            same.push(vec![b'a', c, b'b']);
        }
        same.extend([&b"\xe2\x82"[..], b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xef\xbf\xbd", b"a\xef\xbf\xbdb", b"\xef\xbf\xbe", b"\xfe\xff", b"\xff\xfe"].map(|x| x.to_vec()));
        same.extend(["\u{e5}", "a\u{30a}", "\u{212b}", "A\u{30a}", "\u{430}", "a", "A", "\u{fb01}", "fi", "\u{df}", "ss", "\u{131}", "i", "I", "\u{130}", "a ", " a", "a\u{a0}", "a\u{200b}"].map(|x| x.as_bytes().to_vec()));
        let n = same.len();
        each(stats, lab, "pairs of names that look the same, of files and of directories, and all of them", (n + 1) * 3, |i, p| {
            let (k, how) = (i % (n + 1), i / (n + 1));
            let mut fs = Fs::new();
            let mut a = vec![os("r")];
            let few: Vec<&Vec<u8>> = if k == n { same.iter().collect() } else { vec![&same[k], &same[(k + 1) % n], &same[(k + 2) % n]] };
            for (j, name) in few.iter().enumerate() {
                let text = if j % 2 == 0 { UNFORMATTED } else { OTHER };
                match how {
                    0 => file(&mut fs, &[&b"r/"[..], name, b".mo"].concat(), text.as_bytes()),
                    1 => file(&mut fs, &[&b"r/"[..], name, b"/x.mo"].concat(), text.as_bytes()),
                    _ => {
                        let path = [&b"r"[..], name, b".mo"].concat();
                        file(&mut fs, &path, text.as_bytes());
                        a.push(osb(&path));
                    }
                }
            }
            if how == 2 {
                a.remove(0);
            }
            history(stats, lab, 19, p, &fs, &[check(&a), a.clone(), check(&a)]);
        });
        // the current directory, deep, wide, and mixed
        let mut special: Vec<(Fs, Vec<OsString>)> = vec![];
        for depth in [1, 2, 5, 20, 60, 130, 300, 600] {
            let mut fs = Fs::new();
            let mut path = b"r".to_vec();
            for k in 0..depth {
                path.extend_from_slice(format!("/d{k}").as_bytes());
                let mut f = path.clone();
                f.extend_from_slice(b"/x.mo");
                file(&mut fs, &f, UNFORMATTED.as_bytes());
            }
            special.push((fs.clone(), vec![os("r")]));
            special.push((fs, vec![os(".")]));
        }
        for width in [2, 3, 10, 100, 1000] {
            let mut fs = Fs::new();
            for k in 0..width {
                file(&mut fs, format!("r/x{k}.mo").as_bytes(), UNFORMATTED.as_bytes());
                file(&mut fs, format!("r/d{k}/y.mo").as_bytes(), OTHER.as_bytes());
                file(&mut fs, format!("r/x{k}.txt").as_bytes(), OTHER.as_bytes());
            }
            special.push((fs.clone(), vec![os("r")]));
            special.push((fs.clone(), vec![os("r/d1"), os("r/x0.mo"), os("r/d0/y.mo")]));
        }
        for width in [3000, 10000] {
            let mut fs = Fs::new();
            for k in 0..width {
                file(&mut fs, format!("r/x{k}.mo").as_bytes(), OTHER.as_bytes());
            }
            file(&mut fs, b"r/y/z.mo", UNFORMATTED.as_bytes());
            special.push((fs, vec![os("r")]));
        }
        if lab.drop {
            let mut fs = Fs::new();
            for f in [&b"r/a/x.mo"[..], b"r/a/t.txt", b"r/a/s/y.mo", b"r/a/s/u/z.mo", b"r/b/s/x.mo", b"r/c/x.mo"] {
                file(&mut fs, f, UNFORMATTED.as_bytes());
            }
            dir(&mut fs, b"r/a/e");
            let paths: [&[&str]; 6] = [&["r"], &["r/a"], &["r/a/s", "r/c"], &["r/a/x.mo", "r/b"], &["r/a/s/y.mo", "r/a/e", "r/c/x.mo"], &["."]];
            for d in [&b"r"[..], b"r/a", b"r/a/s", b"r/b", b"r/b/s"] {
                for m in 0..8 {
                    for d2 in [&b"r/a/s"[..], b"r/b/s", b"r/c"] {
                        for m2 in [0o000, 0o400, 0o700] {
                            for a in paths {
                                let mut fs = fs.clone();
                                fs.insert(d2.to_vec(), Node::Dir(m2));
                                fs.insert(d.to_vec(), Node::Dir(m << 6));
                                special.push((fs, a.iter().map(|a| os(a)).collect()));
                            }
                        }
                    }
                }
            }
        }
        each(stats, lab, "deep, wide and mixed trees, directories with all permissions", special.len(), |i, p| {
            let (fs, a) = &special[i];
            history(stats, lab, 19, p, fs, &[check(a), a.clone(), check(a)]);
        });
    }

    /// C20: every single fault (and pairs) at every file-system call.
    fn faults(&self, lab: &Lab) {
        let stats = self.stats;
        let c = contents();
        let get = |k: &str| c.iter().find(|x| x.0 == k).unwrap().1.clone();
        let mut cases: Vec<(Fs, Vec<OsString>)> = vec![];
        let mut add = |files: &[(&str, &str)], args: &[&str]| {
            let mut fs = Fs::new();
            for (n, k) in files {
                file(&mut fs, n.as_bytes(), &get(k));
            }
            let a: Vec<OsString> = args.iter().map(|s| os(s)).collect();
            cases.push((fs.clone(), check(&a)));
            cases.push((fs, a));
        };
        add(&[("a.mo", "unformatted")], &["a.mo"]);
        add(&[("a.mo", "formatted")], &["a.mo"]);
        add(&[("a.mo", "long")], &["a.mo"]);
        add(&[("a.mo", "unformatted"), ("b.mo", "other"), ("c.mo", "formatted")], &["a.mo", "b.mo", "c.mo"]);
        add(&[("a.mo", "formatted"), ("b.mo", "long"), ("c.mo", "unformatted")], &["a.mo", "b.mo", "c.mo"]);
        add(&[("a.mo", "syntax error"), ("b.mo", "other")], &["a.mo", "b.mo"]);
        add(&[("a.mo", "other"), ("b.mo", "not UTF-8"), ("c.mo", "unformatted")], &["a.mo", "b.mo", "c.mo"]);
        add(&[("d/a.mo", "unformatted"), ("d/e/b.mo", "other"), ("d/t.txt", "other"), ("x.mo", "formatted")], &["d", "x.mo"]);
        add(&[("d/a.mo", "unformatted"), ("d/e/b.mo", "other"), ("f/e/b.mo", "other"), ("f/c.mo", "formatted")], &["."]);
        add(&[("a.mo", "unformatted"), ("b.mo", "empty")], &["a.mo", "b.mo", "a.mo"]);
        // EIO EACCES ENOSPC ENOENT EMFILE ENOMEM EINTR, then EPERM ENXIO EBADF EAGAIN EBUSY EEXIST ENODEV ENOTDIR EISDIR EINVAL ENFILE
        // ETXTBSY EFBIG EROFS EPIPE EDEADLK ENAMETOOLONG ENOLCK ENOSYS ELOOP EOVERFLOW EOPNOTSUPP ECONNRESET ETIMEDOUT ESTALE EDQUOT
        const ERRORS: &[i32] = &[
            5, 13, 28, 2, 24, 12, 4, 1, 6, 9, 11, 16, 17, 19, 20, 21, 22, 23, 26, 27, 30, 32, 35, 36, 37, 38, 40, 75, 95, 104, 110, 116, 122,
        ];
        // the calls of a run without faults
        let mut plan: Vec<(usize, String)> = vec![];
        for (k, (fs, args)) in cases.iter().enumerate() {
            let mut p = lab.place(None);
            p.fill(fs);
            let log = lab.base.join(format!("log-{k}"));
            std::fs::write(&log, "").unwrap();
            std::fs::set_permissions(&log, std::os::unix::fs::PermissionsExt::from_mode(0o666)).unwrap();
            let o = p.run(args, Some(("", &log)));
            let n = std::fs::read_to_string(&log).unwrap_or_default().lines().count();
            if n == 0 {
                stats.note("runs in which the injector saw no call", 1);
            }
            let e = simulate(fs, p.dir.as_os_str().as_bytes(), args, &lab.version);
            let (got, _) = p.observe();
            if let Some(d) = compare(&e, &o, &got, false) {
                return report(stats, 20, format!("without any fault: {d}"), &show_args(args), fs);
            }
            stats.note("file-system calls of the runs without faults", n as u64);
            // a fault may cause further calls; short transfers do
            for i in 0..n + 3 {
                for e in ERRORS {
                    plan.push((k, format!("{i}:{e}")));
                }
                for s in ["s", "h"] {
                    plan.push((k, format!("{i}:{s}")));
                }
                if i < n {
                    // short, then an error
                    for e in [5, 28, 4] {
                        plan.push((k, format!("{i}:h,{}:{e}", i + 1)));
                    }
                    // pairs of errors
                    let far = if self.thorough { n } else { 3 };
                    for j in i + 1..n.min(i + 1 + far) {
                        plan.push((k, format!("{i}:5,{j}:13")));
                        if self.thorough {
                            plan.push((k, format!("{i}:4,{j}:28")));
                            plan.push((k, format!("{i}:h,{j}:h")));
                            plan.push((k, format!("{i}:h,{j}:5")));
                        }
                    }
                }
            }
        }
        each(stats, lab, "every fault at every call", plan.len(), |i, p| {
            let (k, faults) = &plan[i];
            let (fs, args) = &cases[*k];
            p.fill(fs);
            let log = lab.base.join(format!("log{i}"));
            std::fs::write(&log, "").unwrap();
            std::fs::set_permissions(&log, std::os::unix::fs::PermissionsExt::from_mode(0o666)).unwrap();
            let o = p.run(args, Some((faults, &log)));
            stats.transitions.fetch_add(1, Relaxed);
            stats.accepted.fetch_add(1, Relaxed);
            let ops = std::fs::read_to_string(&log).unwrap_or_default();
            let _ = std::fs::remove_file(&log);
            let (got, _) = p.observe();
            let e = simulate(fs, p.dir.as_os_str().as_bytes(), args, &lab.version);
            let mut failed = vec![]; // (operation, errno, path)
            for l in ops.lines() {
                let f: Vec<&str> = l.splitn(4, ' ').collect();
                if f.len() == 4 && f[2] != "0" {
                    failed.push((f[1].to_string(), f[2].parse::<i32>().unwrap_or(0), f[3].to_string()));
                }
            }
            stats.sample(|| format!("{} with {failed:?}", show_args(args)));
            let bad = |d: String| {
                report(
                    stats, 20,
                    format!("faults {faults} {failed:?}: {d}\nexit {:?}\nstdout: {:?}\nstderr: {:?}", o.code,
                        String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
                    &show_args(args), fs,
                )
            };
            // what could not be looked at may be treated as if it had been looked at
            if failed.iter().all(|f| f.0 == "stat" || f.1 <= 0) && compare(&e, &o, &got, false).is_none() {
                return;
            }
            let hard = failed.iter().any(|f| f.1 > 0 && f.1 != 4);
            let interrupted = failed.iter().any(|f| f.1 == 4);
            if !hard {
                // short transfers only: as if nothing had happened
                let d = compare(&e, &o, &got, false);
                if d.is_none() || interrupted && o.code.is_some_and(|c| c != 0) {
                    if d.is_none() {
                        return;
                    }
                } else {
                    return bad(d.unwrap());
                }
            }
            if o.code.is_none() || o.code == Some(0) {
                return bad("the run does not end with a non-zero exit status".into());
            }
            for (path, n) in fs {
                let Node::File(old, _) = n else { continue };
                let new = match e.fs.get(path) {
                    Some(Node::File(b, _)) => b,
                    _ => old,
                };
                // the contents of a file whose own write failed are not judged
                let own = |q: &str| q.trim_start_matches("./").as_bytes() == path.as_slice();
                if !e.readonly && failed.iter().any(|f| f.0 != "open" && f.0 != "read" && f.0 != "create" && f.0 != "stat" && own(&f.2)) {
                    continue;
                }
                match got.get(path) {
                    Some(Node::File(b, _)) if b == old || !e.readonly && b == new => {}
                    Some(Node::File(b, _)) => {
                        return bad(format!(
                            "{:?} holds neither its old nor its formatted contents but {:?}",
                            String::from_utf8_lossy(path), String::from_utf8_lossy(&b[..b.len().min(300)])
                        ))
                    }
                    _ => return bad(format!("{:?} is gone", String::from_utf8_lossy(path))),
                }
            }
        });
    }

    /// C21: argument lists.
    fn arguments(&self, lab: &Lab) {
        let stats = self.stats;
        let c = contents();
        let get = |k: &str| c.iter().find(|x| x.0 == k).unwrap().1.clone();
        let mut fs = Fs::new();
        file(&mut fs, b"u.mo", &get("unformatted"));
        file(&mut fs, b"f.mo", &get("formatted"));
        file(&mut fs, b"bad.mo", &get("syntax error"));
        file(&mut fs, b"d/x.mo", &get("unformatted"));
        file(&mut fs, b"-x.mo", &get("unformatted"));
        file(&mut fs, b"--check.mo", &get("unformatted"));
        file(&mut fs, b"help", &get("unformatted"));
        file(&mut fs, b"o\xff.mo", &get("other"));
        let mut menu: Vec<OsString> = [
            "-h", "--help", "-v", "--version", "--check", "-", "--", "-c", "-x.mo", "--Check", "--check=true", "-hv", "--helpx", "-V", "", "help",
            "check", "u.mo", "f.mo", "bad.mo", "d", "missing.mo", "./-x.mo", "--check.mo", "--chec", " --check", "-\u{105}", "--verbose",
        ]
        .iter()
        .map(|s| os(s))
        .collect();
        menu.push(osb(b"-\xff"));
        menu.push(osb(b"o\xff.mo"));
        menu.push(osb(b"--check\xff"));
        let n = menu.len();
        for len in 0..=if self.thorough { 4 } else { 3 } {
            each(stats, lab, &format!("every list of {len} out of {n} arguments"), n.pow(len as u32), |i, p| {
                let args: Vec<OsString> = digits(i, n, len).iter().map(|d| menu[*d].clone()).collect();
                history(stats, lab, 21, p, &fs, &[args.clone()]);
                stats.sample(|| show_args(&args));
            });
        }
    }
}
