//! Reference grammar as data (../grammar.ebnf), and the exhaustive enumerator of its derivations.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

/// Terminal symbol (index into `Grammar::terms`).
pub type Term = u16;
pub type Nt = u16;

#[derive(Debug, Clone)]
pub enum Ex {
    T(Term),
    N(Nt),
    Seq(Vec<ExId>),
    Opt(ExId),
    Rep(ExId),
    Alt(Vec<ExId>),
}
pub type ExId = usize;

pub struct Grammar {
    pub terms: Vec<String>,
    pub names: Vec<String>,
    pub rules: Vec<ExId>,
    pub exs: Vec<Ex>,
    tindex: HashMap<String, Term>,
    nindex: HashMap<String, Nt>,
}

/// A derivation: an inner node and its children in order.
#[derive(Debug, PartialEq, Eq)]
pub struct Node {
    pub nt: Nt,
    pub kids: Vec<Kid>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Kid {
    T(Term),
    N(Arc<Node>),
}

impl Node {
    pub fn len(&self) -> usize {
        self.kids
            .iter()
            .map(|k| match k {
                Kid::T(_) => 1,
                Kid::N(n) => n.len(),
            })
            .sum()
    }
    pub fn leaves(&self, out: &mut Vec<Term>) {
        for k in &self.kids {
            match k {
                Kid::T(t) => out.push(*t),
                Kid::N(n) => n.leaves(out),
            }
        }
    }
}

const SRC: &str = include_str!("../grammar.ebnf");

impl Grammar {
    pub fn load() -> Grammar {
        let mut g = Grammar {
            terms: vec![],
            names: vec![],
            rules: vec![],
            exs: vec![],
            tindex: HashMap::new(),
            nindex: HashMap::new(),
        };
        // tokenise the EBNF
        let mut toks: Vec<String> = vec![];
        for line in SRC.lines() {
            if line.starts_with('#') {
                continue;
            }
            let cs: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                let c = cs[i];
                if c.is_whitespace() {
                    i += 1;
                } else if c == '"' {
                    let mut j = i + 1;
                    while cs[j] != '"' {
                        j += 1;
                    }
                    toks.push(cs[i..j].iter().collect());
                    i = j + 1;
                } else if c.is_alphanumeric() {
                    let mut j = i;
                    while j < cs.len() && cs[j].is_alphanumeric() {
                        j += 1;
                    }
                    toks.push(cs[i..j].iter().collect());
                    i = j;
                } else {
                    toks.push(c.to_string());
                    i += 1;
                }
            }
        }
        // rule names
        let mut i = 0;
        while i < toks.len() {
            if toks[i] == "=" {
                let n = toks[i - 1].clone();
                g.nindex.insert(n.clone(), g.names.len() as Nt);
                g.names.push(n);
            }
            i += 1;
        }
        let mut p = 0;
        while p < toks.len() {
            p += 2;
            let e = g.alt(&toks, &mut p);
            assert_eq!(toks[p], ";");
            p += 1;
            g.rules.push(e);
        }
        g
    }
    fn mk(&mut self, e: Ex) -> ExId {
        self.exs.push(e);
        self.exs.len() - 1
    }
    fn alt(&mut self, t: &[String], p: &mut usize) -> ExId {
        let mut alts = vec![self.seq(t, p)];
        while t[*p] == "|" {
            *p += 1;
            alts.push(self.seq(t, p));
        }
        if alts.len() == 1 {
            alts[0]
        } else {
            self.mk(Ex::Alt(alts))
        }
    }
    fn seq(&mut self, t: &[String], p: &mut usize) -> ExId {
        let mut items = vec![];
        loop {
            let s = t[*p].clone();
            match s.as_str() {
                "|" | ")" | "]" | "}" | ";" => break,
                "[" => {
                    *p += 1;
                    let e = self.alt(t, p);
                    *p += 1;
                    items.push(self.mk(Ex::Opt(e)));
                }
                "{" => {
                    *p += 1;
                    let e = self.alt(t, p);
                    *p += 1;
                    items.push(self.mk(Ex::Rep(e)));
                }
                "(" => {
                    *p += 1;
                    let e = self.alt(t, p);
                    *p += 1;
                    items.push(e);
                }
                _ => {
                    *p += 1;
                    let e = if let Some(l) = s.strip_prefix('"') {
                        Ex::T(self.add_term(l))
                    } else if let Some(n) = self.nindex.get(&s) {
                        Ex::N(*n)
                    } else {
                        assert!(s.chars().all(|c| c.is_uppercase()), "unknown {s}");
                        Ex::T(self.add_term(&s))
                    };
                    items.push(self.mk(e));
                }
            }
        }
        if items.len() == 1 {
            items[0]
        } else {
            self.mk(Ex::Seq(items))
        }
    }
    fn add_term(&mut self, s: &str) -> Term {
        if let Some(t) = self.tindex.get(s) {
            return *t;
        }
        let id = self.terms.len() as Term;
        self.terms.push(s.to_string());
        self.tindex.insert(s.to_string(), id);
        id
    }
    pub fn nt(&self, name: &str) -> Nt {
        *self.nindex.get(name).unwrap_or_else(|| panic!("no production {name}"))
    }
    pub fn term(&self, s: &str) -> Option<Term> {
        self.tindex.get(s).copied()
    }
}

/// Exhaustive enumeration of derivations by number of deviations from the default derivation.
pub struct Gen<'g> {
    pub g: &'g Grammar,
    memo_nt: RefCell<HashMap<(Nt, usize), Rc<Vec<Arc<Node>>>>>,
    memo_ex: RefCell<HashMap<(ExId, usize), Rc<Vec<Vec<Kid>>>>>,
}

#[derive(Clone, Copy)]
pub enum Fill {
    Default,
    /// the first derivation with one deviation
    Other,
    Dense(usize),
}

impl<'g> Gen<'g> {
    pub fn new(g: &'g Grammar) -> Self {
        Gen { g, memo_nt: Default::default(), memo_ex: Default::default() }
    }
    /// All derivations of `nt` with exactly `k` deviations.
    pub fn nt(&self, nt: Nt, k: usize) -> Rc<Vec<Arc<Node>>> {
        if let Some(v) = self.memo_nt.borrow().get(&(nt, k)) {
            return v.clone();
        }
        let v: Vec<Arc<Node>> =
            self.ex(self.g.rules[nt as usize], k).iter().map(|kids| Arc::new(Node { nt, kids: kids.clone() })).collect();
        let v = Rc::new(v);
        self.memo_nt.borrow_mut().insert((nt, k), v.clone());
        v
    }
    pub fn upto(&self, nt: Nt, k: usize) -> Vec<Arc<Node>> {
        (0..=k).flat_map(|i| self.nt(nt, i).iter().cloned().collect::<Vec<_>>()).collect()
    }
    fn ex(&self, e: ExId, k: usize) -> Rc<Vec<Vec<Kid>>> {
        if let Some(v) = self.memo_ex.borrow().get(&(e, k)) {
            return v.clone();
        }
        let v: Vec<Vec<Kid>> = match &self.g.exs[e] {
            Ex::T(t) => {
                if k == 0 {
                    vec![vec![Kid::T(*t)]]
                } else {
                    vec![]
                }
            }
            Ex::N(n) => self.nt(*n, k).iter().map(|d| vec![Kid::N(d.clone())]).collect(),
            Ex::Opt(x) => {
                if k == 0 {
                    vec![vec![]]
                } else {
                    self.ex(*x, k - 1).iter().cloned().collect()
                }
            }
            Ex::Rep(x) => {
                // one more repetition costs one, on top of the deviations inside it
                if k == 0 {
                    vec![vec![]]
                } else {
                    let mut out = vec![];
                    for first in 0..k {
                        for a in self.ex(*x, first).iter() {
                            for rest in self.ex(e, k - 1 - first).iter() {
                                let mut v = a.clone();
                                v.extend(rest.iter().cloned());
                                out.push(v);
                            }
                        }
                    }
                    out
                }
            }
            Ex::Alt(xs) => {
                let mut out: Vec<Vec<Kid>> = self.ex(xs[0], k).iter().cloned().collect();
                if k > 0 {
                    for x in &xs[1..] {
                        out.extend(self.ex(*x, k - 1).iter().cloned());
                    }
                }
                out
            }
            Ex::Seq(xs) => {
                let mut acc: Vec<(usize, Vec<Kid>)> = vec![(0, vec![])];
                for x in xs {
                    let mut next = vec![];
                    for (c, v) in &acc {
                        for d in 0..=(k - c) {
                            for a in self.ex(*x, d).iter() {
                                let mut w = v.clone();
                                w.extend(a.iter().cloned());
                                next.push((c + d, w));
                            }
                        }
                    }
                    acc = next;
                }
                acc.into_iter().filter(|(c, _)| *c == k).map(|(_, v)| v).collect()
            }
        };
        let v = Rc::new(v);
        self.memo_ex.borrow_mut().insert((e, k), v.clone());
        v
    }

    /// The default derivation of an expression, in which the nonterminal occurrence `hole` (an `Ex::N` node id)
    /// is forced to occur. Returns sequences with `None` for the hole.
    fn force(&self, e: ExId, hole: ExId, sib: bool) -> Option<Vec<Option<Kid>>> {
        if e == hole {
            return Some(vec![None]);
        }
        let wrap = |v: &Vec<Kid>| v.iter().cloned().map(Some).collect::<Vec<_>>();
        match &self.g.exs[e] {
            Ex::T(_) | Ex::N(_) => None,
            Ex::Opt(x) => self.force(*x, hole, sib),
            Ex::Rep(x) => {
                let mid = self.force(*x, hole, sib)?;
                if !sib {
                    return Some(mid);
                }
                let s = wrap(&self.ex(*x, 0)[0]);
                let mut out = s.clone();
                out.extend(mid);
                out.extend(s);
                Some(out)
            }
            Ex::Alt(xs) => xs.iter().find_map(|x| self.force(*x, hole, sib)),
            Ex::Seq(xs) => {
                let i = xs.iter().position(|x| self.contains(*x, hole))?;
                let mut out = vec![];
                for (j, x) in xs.iter().enumerate() {
                    if j == i {
                        out.extend(self.force(*x, hole, sib)?);
                    } else {
                        out.extend(wrap(&self.ex(*x, 0)[0]));
                    }
                }
                Some(out)
            }
        }
    }
    /// The sequences of an expression in which both occurrences (`None`) are forced to occur, the first before the second.
    fn force_two(&self, e: ExId, a: ExId, b: ExId) -> Option<Vec<Option<Kid>>> {
        match &self.g.exs[e] {
            Ex::T(_) | Ex::N(_) => None,
            Ex::Opt(x) => self.force_two(*x, a, b),
            Ex::Rep(x) => self.force_two(*x, a, b).or_else(|| {
                // in two neighbouring items
                let mut v = self.force(*x, a, false)?;
                v.extend(self.force(*x, b, false)?);
                Some(v)
            }),
            Ex::Alt(xs) => xs.iter().find_map(|x| self.force_two(*x, a, b)),
            Ex::Seq(xs) => {
                let i = xs.iter().position(|x| self.contains(*x, a))?;
                let j = xs.iter().position(|x| self.contains(*x, b))?;
                let mut out = vec![];
                for (k, x) in xs.iter().enumerate() {
                    if k == i && k == j {
                        out.extend(self.force_two(*x, a, b)?);
                    } else if k == i {
                        out.extend(self.force(*x, a, false)?);
                    } else if k == j {
                        out.extend(self.force(*x, b, false)?);
                    } else {
                        out.extend(self.ex(*x, 0)[0].iter().cloned().map(Some));
                    }
                }
                // in this order
                (i < j || i == j).then_some(out)
            }
        }
    }
    /// Derivations of a production with two given parts, each derived in all of the given ways.
    pub fn with_two(&self, p: Nt, a: ExId, b: ExId, va: &[Arc<Node>], vb: &[Arc<Node>]) -> Vec<Arc<Node>> {
        let Some(body) = self.force_two(self.g.rules[p as usize], a, b) else { return vec![] };
        let holes: Vec<usize> = (0..body.len()).filter(|i| body[*i].is_none()).collect();
        let mut out = vec![];
        for x in va {
            for y in vb {
                let kids = body
                    .iter()
                    .enumerate()
                    .map(|(i, k)| match k {
                        Some(k) => k.clone(),
                        None => Kid::N(if i == holes[0] { x.clone() } else { y.clone() }),
                    })
                    .collect();
                out.push(Arc::new(Node { nt: p, kids }));
            }
        }
        out
    }
    /// One derivation of a production (of up to `k` deviations) for each chain of productions that ends in its last
    /// (or first) token, and for each length up to 3.
    pub fn ends(&self, nt: Nt, k: usize, last: bool) -> Vec<Arc<Node>> {
        fn chain(n: &Node, last: bool, out: &mut Vec<u16>) {
            out.push(n.nt);
            let k = if last { n.kids.last() } else { n.kids.first() };
            match k {
                Some(Kid::T(t)) => out.push(*t),
                Some(Kid::N(m)) => chain(m, last, out),
                None => {}
            }
        }
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![];
        for d in self.upto(nt, k) {
            let mut key = vec![d.len().min(3) as u16];
            chain(&d, last, &mut key);
            if seen.insert(key) {
                v.push(d);
            }
        }
        v
    }
    /// Surroundings of a part of a production with one further deviation in them.
    pub fn contexts(&self, p: Nt, hole: ExId) -> Vec<Shell> {
        // the hole's own place, by default and with one deviation elsewhere
        fn go(gen: &Gen, e: ExId, hole: ExId) -> Option<(Vec<Option<Kid>>, Vec<Vec<Option<Kid>>>)> {
            if e == hole {
                return Some((vec![None], vec![]));
            }
            let some = |v: &Vec<Kid>| v.iter().cloned().map(Some).collect::<Vec<_>>();
            match &gen.g.exs[e] {
                Ex::T(_) | Ex::N(_) => None,
                Ex::Opt(x) => go(gen, *x, hole),
                Ex::Rep(x) => {
                    let (plain, mut odd) = go(gen, *x, hole)?;
                    let s = some(&gen.ex(*x, 0)[0]);
                    odd.push(plain.iter().cloned().chain(s.clone()).collect());
                    odd.push(s.into_iter().chain(plain.clone()).collect());
                    Some((plain, odd))
                }
                Ex::Alt(xs) => xs.iter().find_map(|x| go(gen, *x, hole)),
                Ex::Seq(xs) => {
                    let i = xs.iter().position(|x| gen.contains(*x, hole))?;
                    let (plain, odd) = go(gen, xs[i], hole)?;
                    let part = |r: std::ops::Range<usize>| -> Vec<Option<Kid>> { r.flat_map(|j| some(&gen.ex(xs[j], 0)[0])).collect() };
                    let join = |a: &[Option<Kid>], b: &[Option<Kid>], c: &[Option<Kid>]| [a, b, c].concat();
                    let (before, after) = (part(0..i), part(i + 1..xs.len()));
                    let mut all: Vec<_> = odd.iter().map(|o| join(&before, o, &after)).collect();
                    for j in (0..xs.len()).filter(|j| *j != i) {
                        for d in gen.ex(xs[j], 1).iter() {
                            let mut v = vec![];
                            for k in 0..xs.len() {
                                if k == i {
                                    v.extend(plain.iter().cloned());
                                } else if k == j {
                                    v.extend(some(d));
                                } else {
                                    v.extend(part(k..k + 1));
                                }
                            }
                            all.push(v);
                        }
                    }
                    Some((join(&before, &plain, &after), all))
                }
            }
        }
        let Some((_, odd)) = go(self, self.g.rules[p as usize], hole) else { return vec![] };
        odd.into_iter()
            .map(|body| {
                let at = body.iter().position(|k| k.is_none()).unwrap();
                let part = |r: std::ops::Range<usize>| body[r].iter().map(|k| k.clone().unwrap()).collect::<Vec<_>>();
                Shell { levels: vec![(p, part(0..at), part(at + 1..body.len()))] }
            })
            .collect()
    }
    /// All derivations of a production in which every choice of its own right-hand side is taken every way (repetitions
    /// up to `reps` times), while all of its parts are derived as `fill` tells.
    pub fn shapes(&self, nt: Nt, reps: usize, fill: Fill) -> Vec<Arc<Node>> {
        let v = self.shape(self.g.rules[nt as usize], reps, fill);
        v.into_iter().map(|kids| Arc::new(Node { nt, kids })).collect()
    }
    /// The derivation with every optional part (two of those that can be repeated), `depth` levels deep.
    pub fn dense(&self, nt: Nt, depth: usize) -> Arc<Node> {
        fn go(gen: &Gen, e: ExId, depth: usize) -> Vec<Kid> {
            match &gen.g.exs[e] {
                Ex::T(t) => vec![Kid::T(*t)],
                Ex::N(n) => vec![Kid::N(gen.dense(*n, depth - 1))],
                Ex::Opt(x) => go(gen, *x, depth),
                Ex::Rep(x) => {
                    // one of each choice
                    let mut v = vec![];
                    match &gen.g.exs[*x] {
                        Ex::Alt(xs) => xs.iter().for_each(|x| v.extend(go(gen, *x, depth))),
                        _ => (0..2).for_each(|_| v.extend(go(gen, *x, depth))),
                    }
                    v
                }
                Ex::Alt(xs) => go(gen, xs[0], depth),
                Ex::Seq(xs) => xs.iter().flat_map(|x| go(gen, *x, depth)).collect(),
            }
        }
        if depth == 0 {
            return self.nt(nt, 0)[0].clone();
        }
        Arc::new(Node { nt, kids: go(self, self.g.rules[nt as usize], depth) })
    }
    fn shape(&self, e: ExId, reps: usize, fill: Fill) -> Vec<Vec<Kid>> {
        let join = |acc: &Vec<Vec<Kid>>, more: &Vec<Vec<Kid>>| -> Vec<Vec<Kid>> {
            acc.iter().flat_map(|a| more.iter().map(move |b| a.iter().chain(b).cloned().collect())).collect()
        };
        match &self.g.exs[e] {
            Ex::T(t) => vec![vec![Kid::T(*t)]],
            Ex::N(n) => {
                let d = match fill {
                    Fill::Default => None,
                    Fill::Other => self.nt(*n, 1).first().cloned(),
                    Fill::Dense(k) => Some(self.dense(*n, k)),
                };
                vec![vec![Kid::N(d.unwrap_or_else(|| self.nt(*n, 0)[0].clone()))]]
            }
            Ex::Opt(x) => {
                let mut v = vec![vec![]];
                v.extend(self.shape(*x, reps, fill));
                v
            }
            Ex::Rep(x) => {
                let one = self.shape(*x, reps, fill);
                let mut v = vec![vec![]];
                let mut last = v.clone();
                for _ in 0..reps {
                    last = join(&last, &one);
                    v.extend(last.iter().cloned());
                }
                v
            }
            Ex::Alt(xs) => xs.iter().flat_map(|x| self.shape(*x, reps, fill)).collect(),
            Ex::Seq(xs) => xs.iter().fold(vec![vec![]], |acc, x| join(&acc, &self.shape(*x, reps, fill))),
        }
    }
    fn contains(&self, e: ExId, hole: ExId) -> bool {
        if e == hole {
            return true;
        }
        match &self.g.exs[e] {
            Ex::T(_) | Ex::N(_) => false,
            Ex::Opt(x) | Ex::Rep(x) => self.contains(*x, hole),
            Ex::Alt(xs) | Ex::Seq(xs) => xs.iter().any(|x| self.contains(*x, hole)),
        }
    }
    fn occurrences(&self, e: ExId, out: &mut Vec<(ExId, Nt)>) {
        match &self.g.exs[e] {
            Ex::T(_) => {}
            Ex::N(n) => out.push((e, *n)),
            Ex::Opt(x) | Ex::Rep(x) => self.occurrences(*x, out),
            Ex::Alt(xs) | Ex::Seq(xs) => xs.iter().for_each(|x| self.occurrences(*x, out)),
        }
    }
    /// All occurrences of nonterminals in right-hand sides: (parent production, occurrence, child).
    pub fn edges(&self) -> Vec<(Nt, ExId, Nt)> {
        let mut v = vec![];
        for p in 0..self.g.rules.len() {
            let mut o = vec![];
            self.occurrences(self.g.rules[p], &mut o);
            v.extend(o.into_iter().map(|(e, n)| (p as Nt, e, n)));
        }
        v
    }
    /// Shortest chain of edges from `root` to every nonterminal.
    pub fn chains(&self, root: Nt) -> HashMap<Nt, Vec<(Nt, ExId)>> {
        let edges = self.edges();
        let mut dist: HashMap<Nt, Vec<(Nt, ExId)>> = HashMap::new();
        dist.insert(root, vec![]);
        let mut frontier = vec![root];
        while !frontier.is_empty() {
            let mut next = vec![];
            for p in frontier {
                for (q, e, c) in &edges {
                    if *q == p && !dist.contains_key(c) {
                        let mut ch = dist[&p].clone();
                        ch.push((p, *e));
                        dist.insert(*c, ch);
                        next.push(*c);
                    }
                }
            }
            frontier = next;
        }
        dist
    }
    /// The surroundings of a derivation that hangs on a chain of edges.
    pub fn shell(&self, chain: &[(Nt, ExId)], sib: bool) -> Shell {
        let mut levels = vec![];
        for (p, hole) in chain.iter().rev() {
            let body = self.force(self.g.rules[*p as usize], *hole, sib).expect("hole");
            let at = body.iter().position(|k| k.is_none()).unwrap();
            let part = |r: std::ops::Range<usize>| body[r].iter().map(|k| k.clone().unwrap()).collect::<Vec<_>>();
            levels.push((*p, part(0..at), part(at + 1..body.len())));
        }
        Shell { levels }
    }
    /// Shortest chain of edges from `from` to `to`, at least one edge long.
    pub fn path(&self, from: Nt, to: Nt) -> Option<Vec<(Nt, ExId)>> {
        let edges = self.edges();
        let mut prev: HashMap<Nt, Vec<(Nt, ExId)>> = HashMap::new();
        let mut frontier = vec![(from, vec![])];
        while !frontier.is_empty() {
            let mut next = vec![];
            for (p, ch) in frontier {
                for (q, e, c) in &edges {
                    if *q == p && !prev.contains_key(c) {
                        let mut ch: Vec<(Nt, ExId)> = ch.clone();
                        ch.push((p, *e));
                        if *c == to {
                            return Some(ch);
                        }
                        prev.insert(*c, ch.clone());
                        next.push((*c, ch));
                    }
                }
            }
            frontier = next;
        }
        None
    }
    /// All repetitions: (production, repetition).
    pub fn repetitions(&self) -> Vec<(Nt, ExId)> {
        fn go(g: &Grammar, e: ExId, out: &mut Vec<ExId>) {
            match &g.exs[e] {
                Ex::T(_) | Ex::N(_) => {}
                Ex::Rep(x) => {
                    out.push(e);
                    go(g, *x, out);
                }
                Ex::Opt(x) => go(g, *x, out),
                Ex::Alt(xs) | Ex::Seq(xs) => xs.iter().for_each(|x| go(g, *x, out)),
            }
        }
        let mut v = vec![];
        for p in 0..self.g.rules.len() {
            let mut o = vec![];
            go(self.g, self.g.rules[p], &mut o);
            v.extend(o.into_iter().map(|e| (p as Nt, e)));
        }
        v
    }
    /// Derivation of `p` with the repetition `rep` expanded to the given items, everything else default.
    pub fn with_items(&self, p: Nt, rep: ExId, items: &[Vec<Kid>]) -> Arc<Node> {
        let body = self.force(self.g.rules[p as usize], rep, false).expect("repetition");
        let mut kids = vec![];
        for k in body {
            match k {
                Some(k) => kids.push(k),
                None => items.iter().for_each(|i| kids.extend(i.iter().cloned())),
            }
        }
        Arc::new(Node { nt: p, kids })
    }
    /// Items of a repetition with all combinations of their choices.
    pub fn shaped_items(&self, rep: ExId, reps: usize, fill: Fill) -> Vec<Vec<Kid>> {
        match &self.g.exs[rep] {
            Ex::Rep(x) => self.shape(*x, reps, fill),
            _ => unreachable!(),
        }
    }
    /// Items of a repetition with exactly `k` deviations.
    pub fn items(&self, rep: ExId, k: usize) -> Vec<Vec<Kid>> {
        match &self.g.exs[rep] {
            Ex::Rep(x) => self.ex(*x, k).iter().cloned().collect(),
            _ => unreachable!(),
        }
    }
}

/// Productions around a hole, innermost first.
#[derive(Clone)]
pub struct Shell {
    levels: Vec<(Nt, Vec<Kid>, Vec<Kid>)>,
}
impl Shell {
    pub fn empty() -> Shell {
        Shell { levels: vec![] }
    }
    /// This shell, inside of which the other one is.
    pub fn around(&self, inner: &Shell) -> Shell {
        Shell { levels: inner.levels.iter().chain(&self.levels).cloned().collect() }
    }
    pub fn fill(&self, inner: Arc<Node>) -> Arc<Node> {
        let mut cur = inner;
        for (p, before, after) in &self.levels {
            let mut kids = before.clone();
            kids.push(Kid::N(cur));
            kids.extend(after.iter().cloned());
            cur = Arc::new(Node { nt: *p, kids });
        }
        cur
    }
}
