//! Recogniser for the reference grammar: which terminals can follow a given beginning, and whether it is a sentence.
//! (Earley's algorithm over the automata of the productions; the chart grows and shrinks with the text.)
use crate::gram::*;

#[derive(Default, Clone)]
struct Fa {
    terms: Vec<(Term, u32)>,
    nts: Vec<(Nt, u32)>,
    is_final: bool,
    owner: Nt,
}
pub struct Automata {
    st: Vec<Fa>,
    start: Vec<u32>,
    nullable: Vec<bool>,
    nts: usize,
}

struct Raw {
    eps: Vec<Vec<u32>>,
    edges: Vec<Vec<(Sym, u32)>>,
    owner: Vec<Nt>,
}
#[derive(Clone, Copy)]
enum Sym {
    T(Term),
    N(Nt),
}

impl Automata {
    /// `without`: terminals left out of the grammar (as alternatives of a choice).
    pub fn new(g: &Grammar, without: &[(Nt, Term)]) -> Automata {
        let mut raw = Raw { eps: vec![], edges: vec![], owner: vec![] };
        let mut start = vec![];
        let mut fin = vec![];
        for n in 0..g.rules.len() {
            let a = raw.state(n as Nt);
            let b = raw.state(n as Nt);
            raw.build(g, g.rules[n], n as Nt, a, b, without);
            start.push(a);
            fin.push(b);
        }
        // nullable productions
        let mut nullable = vec![false; g.rules.len()];
        loop {
            let mut changed = false;
            for n in 0..nullable.len() {
                if !nullable[n] && raw.closure(start[n], &nullable).contains(&fin[n]) {
                    nullable[n] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let st = (0..raw.eps.len())
            .map(|s| {
                let mut f = Fa { owner: raw.owner[s], ..Fa::default() };
                for c in raw.closure(s as u32, &nullable) {
                    f.is_final |= fin[raw.owner[s] as usize] == c;
                    for (sym, to) in &raw.edges[c as usize] {
                        match sym {
                            Sym::T(t) => f.terms.push((*t, *to)),
                            Sym::N(n) => f.nts.push((*n, *to)),
                        }
                    }
                }
                f
            })
            .collect();
        Automata { st, start, nullable, nts: g.rules.len() }
    }
}
impl Raw {
    fn state(&mut self, n: Nt) -> u32 {
        self.eps.push(vec![]);
        self.edges.push(vec![]);
        self.owner.push(n);
        self.eps.len() as u32 - 1
    }
    fn build(&mut self, g: &Grammar, e: ExId, n: Nt, a: u32, b: u32, without: &[(Nt, Term)]) {
        match &g.exs[e] {
            Ex::T(t) => {
                if !without.contains(&(n, *t)) {
                    self.edges[a as usize].push((Sym::T(*t), b))
                }
            }
            Ex::N(m) => self.edges[a as usize].push((Sym::N(*m), b)),
            Ex::Opt(x) => {
                self.eps[a as usize].push(b);
                self.build(g, *x, n, a, b, without);
            }
            Ex::Rep(x) => {
                let m = self.state(n);
                self.eps[a as usize].push(m);
                self.eps[m as usize].push(b);
                let k = self.state(n);
                self.eps[k as usize].push(m);
                self.build(g, *x, n, m, k, without);
            }
            Ex::Alt(xs) => {
                for x in xs {
                    let (c, d) = (self.state(n), self.state(n));
                    self.eps[a as usize].push(c);
                    self.eps[d as usize].push(b);
                    self.build(g, *x, n, c, d, without);
                }
            }
            Ex::Seq(xs) => {
                let mut at = a;
                for x in xs {
                    let c = self.state(n);
                    let d = self.state(n);
                    self.eps[at as usize].push(c);
                    self.build(g, *x, n, c, d, without);
                    at = d;
                }
                self.eps[at as usize].push(b);
            }
        }
    }
    fn closure(&self, s: u32, nullable: &[bool]) -> Vec<u32> {
        let mut seen = vec![s];
        let mut i = 0;
        while i < seen.len() {
            let c = seen[i] as usize;
            let more = self.eps[c].iter().copied().chain(
                self.edges[c].iter().filter_map(|(y, t)| matches!(y, Sym::N(n) if nullable[*n as usize]).then_some(*t)),
            );
            for t in more {
                if !seen.contains(&t) {
                    seen.push(t);
                }
            }
            i += 1;
        }
        seen
    }
}

struct Set {
    /// (terminal, next state, origin)
    scans: Vec<(Term, u32, u32)>,
    waiting: Vec<Vec<(u32, u32)>>,
    pub viable: u128,
    accepts: bool,
}

pub struct Chart<'a> {
    a: &'a Automata,
    root: Nt,
    sets: Vec<Set>,
}
impl<'a> Chart<'a> {
    pub fn new(a: &'a Automata, root: Nt) -> Chart<'a> {
        let mut c = Chart { a, root, sets: vec![] };
        let s = c.close(vec![(a.start[root as usize], 0)]);
        c.sets.push(s);
        c
    }
    fn close(&self, kernel: Vec<(u32, u32)>) -> Set {
        let now = self.sets.len() as u32;
        let n = self.a.st.len();
        let mut set = Set { scans: vec![], waiting: vec![vec![]; self.a.nts], viable: 0, accepts: false };
        let mut seen = vec![0u64; (n * (now as usize + 1)).div_ceil(64)];
        let mut done = vec![0u64; (self.a.nts * (now as usize + 1)).div_ceil(64)];
        let mut predicted = vec![false; self.a.nts];
        let mut work = vec![];
        let mut add = |work: &mut Vec<(u32, u32)>, s: u32, o: u32| {
            let k = s as usize + n * o as usize;
            if seen[k / 64] >> (k % 64) & 1 == 0 {
                seen[k / 64] |= 1 << (k % 64);
                work.push((s, o));
            }
        };
        for (s, o) in kernel {
            add(&mut work, s, o);
        }
        while let Some((s, o)) = work.pop() {
            let f = &self.a.st[s as usize];
            for (t, to) in &f.terms {
                set.viable |= 1 << t;
                set.scans.push((*t, *to, o));
            }
            for (m, to) in &f.nts {
                set.waiting[*m as usize].push((*to, o));
                if !predicted[*m as usize] {
                    predicted[*m as usize] = true;
                    add(&mut work, self.a.start[*m as usize], now);
                }
            }
            if f.is_final && o != now {
                let k = f.owner as usize + self.a.nts * o as usize;
                if done[k / 64] >> (k % 64) & 1 == 0 {
                    done[k / 64] |= 1 << (k % 64);
                    for (to, o2) in &self.sets[o as usize].waiting[f.owner as usize] {
                        add(&mut work, *to, *o2);
                    }
                }
            }
            if f.is_final && f.owner == self.root && o == 0 {
                set.accepts = true;
            }
        }
        set.accepts |= now == 0 && self.a.nullable[self.root as usize];
        set
    }
    pub fn len(&self) -> usize {
        self.sets.len() - 1
    }
    pub fn truncate(&mut self, n: usize) {
        self.sets.truncate(n + 1);
    }
    pub fn viable(&self) -> u128 {
        self.sets.last().unwrap().viable
    }
    pub fn accepts(&self) -> bool {
        self.sets.last().unwrap().accepts
    }
    pub fn push(&mut self, t: Term) -> bool {
        let last = self.sets.last().unwrap();
        if last.viable >> t & 1 == 0 {
            return false;
        }
        let kernel = last.scans.iter().filter(|x| x.0 == t).map(|x| (x.1, x.2)).collect();
        let s = self.close(kernel);
        self.sets.push(s);
        true
    }
}
