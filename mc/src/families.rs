//! Families of programs: every production in every place of the grammar, in combinations.
use crate::gram::*;
use crate::model::Syms;
use crate::prog::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Family {
    pub name: String,
    shells: Vec<Shell>,
    whats: Vec<String>,
    /// (shell, derivation in its hole)
    items: Vec<(u32, Arc<Node>)>,
}
impl Family {
    fn new(name: String) -> Family {
        Family { name, shells: vec![], whats: vec![], items: vec![] }
    }
    fn shell(&mut self, sh: Shell, what: String) -> u32 {
        self.shells.push(sh);
        self.whats.push(what);
        self.shells.len() as u32 - 1
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn prog(&self, g: &Grammar, s: &Syms, i: usize) -> Option<Prog> {
        let (sh, d) = &self.items[i];
        // a fresh node, so that the construct under study can be told from shared copies
        let focus = Arc::new(Node { nt: d.nt, kids: d.kids.clone() });
        let file = self.shells[*sh as usize].fill(focus.clone());
        if end_equation(s, &file) {
            return None;
        }
        Some(make(g, s, &file, Arc::as_ptr(&focus), self.whats[*sh as usize].clone()))
    }
    /// Spread the work evenly over the workers.
    pub fn interleave(mut self) -> Family {
        let n = self.items.len();
        let mut v = Vec::with_capacity(n);
        let step = 1009;
        for r in 0..step {
            v.extend(self.items.iter().skip(r).step_by(step).cloned());
        }
        self.items = v;
        self
    }
}

/// For each edge of the grammar (occurrence of production N in production P) the derivations of N with `from..=to`
/// deviations, placed there in the smallest surrounding file (with and without siblings in repetitions).
pub fn edges(g: &Grammar, s: &Syms, from: usize, to: usize, sib: &[bool]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("edges, {from}..{to} deviations, siblings {sib:?}"));
    for k in from..=to {
        for (p, hole, n) in gen.edges() {
            let Some(chain) = chains.get(&p) else { continue };
            let mut chain = chain.clone();
            chain.push((p, hole));
            for sb in sib {
                let sh = f.shell(gen.shell(&chain, *sb), format!("{} in {}", s.name(n), s.name(p)));
                for d in gen.nt(n, k).iter() {
                    f.items.push((sh, d.clone()));
                }
            }
        }
    }
    f.interleave()
}

/// Every production with all combinations of its own choices (repetitions up to `reps` times), in the smallest
/// surrounding file or, with `everywhere`, at every place of the grammar.
pub fn shapes(g: &Grammar, s: &Syms, reps: usize, everywhere: bool) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!(
        "every combination of the choices of each production, repetitions up to {reps}, {}",
        if everywhere { "everywhere" } else { "once" }
    ));
    let variants = |n| {
        let mut v = gen.shapes(n, reps, Fill::Default);
        v.extend(gen.shapes(n, reps, Fill::Other));
        v.extend(gen.shapes(n, reps, Fill::Dense(1)));
        v
    };
    if everywhere {
        for (p, hole, n) in gen.edges() {
            let Some(chain) = chains.get(&p) else { continue };
            let mut chain = chain.clone();
            chain.push((p, hole));
            let sh = f.shell(gen.shell(&chain, true), format!("{} in {}", s.name(n), s.name(p)));
            f.items.extend(variants(n).into_iter().map(|d| (sh, d)));
        }
    } else {
        for n in 0..g.rules.len() as Nt {
            let Some(chain) = chains.get(&n) else { continue };
            let sh = f.shell(gen.shell(chain, false), s.name(n).to_string());
            f.items.extend(variants(n).into_iter().map(|d| (sh, d)));
        }
    }
    f.interleave()
}

/// Every production with all of its parts, `depths` levels deep, at every place of the grammar.
pub fn dense(g: &Grammar, s: &Syms, depths: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("every production with all its parts, {} levels deep, everywhere", ranges(depths)));
    for (p, hole, n) in gen.edges() {
        let Some(chain) = chains.get(&p) else { continue };
        let mut chain = chain.clone();
        chain.push((p, hole));
        let sh = f.shell(gen.shell(&chain, true), format!("{} in {}", s.name(n), s.name(p)));
        for d in depths {
            f.items.push((sh, gen.dense(n, *d)));
        }
    }
    f.interleave()
}

/// The derivations of whole files with `from..=to` deviations.
pub fn files(g: &Grammar, from: usize, to: usize) -> Family {
    let gen = Gen::new(g);
    let mut f = Family::new(format!("whole files, {from}..{to} deviations"));
    let sh = f.shell(Shell::empty(), "StoredDefinition".into());
    for k in from..=to {
        for d in gen.nt(g.nt("StoredDefinition"), k).iter() {
            f.items.push((sh, d.clone()));
        }
    }
    f
}

/// Every repetition of the grammar with `counts` default items.
pub fn lists(g: &Grammar, s: &Syms, counts: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("repetitions with {} items", ranges(counts)));
    for (p, rep) in gen.repetitions() {
        let Some(chain) = chains.get(&p) else { continue };
        let sh = f.shell(gen.shell(chain, false), format!("repetition in {}", s.name(p)));
        let item = gen.items(rep, 0).remove(0);
        for n in counts {
            f.items.push((sh, gen.with_items(p, rep, &vec![item.clone(); *n])));
        }
    }
    f
}

/// More than 65536 tokens: the repetitions in `rules` with so many default items.
pub fn big_lists(g: &Grammar, s: &Syms, rules: &[&str], count: usize) -> Family {
    let mut f = lists(g, s, &[count]);
    let shells: Vec<String> = rules.iter().map(|r| format!("repetition in {r}")).collect();
    f.name = format!("repetitions in {} with {count} items", rules.join(", "));
    let whats = f.whats.clone();
    f.items.retain(|(sh, _)| shells.contains(&whats[*sh as usize]));
    assert!(f.items.len() >= rules.len());
    f
}

/// Every repetition of the grammar with `counts` items of each kind: those with one deviation and with all of their parts.
pub fn rich_lists(g: &Grammar, s: &Syms, counts: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("repetitions with {} items of the same kind", ranges(counts)));
    for (p, rep) in gen.repetitions() {
        let Some(chain) = chains.get(&p) else { continue };
        let sh = f.shell(gen.shell(chain, false), format!("repetition in {}", s.name(p)));
        let mut items = gen.items(rep, 1);
        items.extend(gen.shaped_items(rep, 2, Fill::Default));
        items.extend(gen.shaped_items(rep, 1, Fill::Dense(1)));
        for item in items {
            for n in counts {
                f.items.push((sh, gen.with_items(p, rep, &vec![item.clone(); *n])));
            }
        }
    }
    f.interleave()
}

/// Every repetition of the grammar with `counts` items, one of which (the first, the middle or the last one) has a deviation.
pub fn odd_lists(g: &Grammar, s: &Syms, counts: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("repetitions with {} items, one of which has a deviation", ranges(counts)));
    for (p, rep) in gen.repetitions() {
        let Some(chain) = chains.get(&p) else { continue };
        let sh = f.shell(gen.shell(chain, false), format!("repetition in {}", s.name(p)));
        let plain = gen.items(rep, 0).remove(0);
        for item in gen.items(rep, 1) {
            for n in counts {
                let mut at = vec![0, n / 2, n - 1];
                at.dedup();
                for k in at {
                    let mut v = vec![plain.clone(); *n];
                    v[k] = item.clone();
                    f.items.push((sh, gen.with_items(p, rep, &v)));
                }
            }
        }
    }
    f.interleave()
}

/// Every repetition of the grammar with all pairs of items of <= k deviations, one after the other.
pub fn pairs(g: &Grammar, s: &Syms, k: usize) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("all pairs of neighbours with <= {k} deviations each"));
    for (p, rep) in gen.repetitions() {
        let Some(chain) = chains.get(&p) else { continue };
        let sh = f.shell(gen.shell(chain, false), format!("neighbours in {}", s.name(p)));
        let items: Vec<Vec<Kid>> = (0..=k).flat_map(|i| gen.items(rep, i)).collect();
        for a in &items {
            for b in &items {
                f.items.push((sh, gen.with_items(p, rep, &[a.clone(), b.clone()])));
            }
        }
    }
    f.interleave()
}

/// Every cycle of the grammar, `depths` times around.
pub fn nests(g: &Grammar, s: &Syms, depths: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("every cycle of productions nested {} times", ranges(depths)));
    for (p, hole, n) in gen.edges() {
        let Some(chain) = chains.get(&p) else { continue };
        let mut cycle = vec![(p, hole)];
        if n != p {
            let Some(back) = gen.path(n, p) else { continue };
            cycle.extend(back);
        }
        for d in depths {
            let mut inside = vec![];
            for _ in 0..*d {
                inside.extend(cycle.iter().copied());
            }
            inside.push((p, hole));
            // the outermost occurrence of P is the construct under study
            let node = gen.shell(&inside, false).fill(gen.nt(n, 0)[0].clone());
            let sh = f.shell(gen.shell(chain, false), format!("{} in {} nested {d} times", s.name(n), s.name(p)));
            f.items.push((sh, node));
        }
    }
    f.interleave()
}

/// Every cycle of the grammar, `depths` times around, each time with one further part next to the inner one.
pub fn odd_nests(g: &Grammar, s: &Syms, depths: &[usize]) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!("every cycle of productions with one further part nested {} times", ranges(depths)));
    for (p, hole, n) in gen.edges() {
        let Some(chain) = chains.get(&p) else { continue };
        let back = if n != p {
            let Some(back) = gen.path(n, p) else { continue };
            gen.shell(&back, false)
        } else {
            Shell::empty()
        };
        let sh = f.shell(gen.shell(chain, false), format!("{} in {} nested", s.name(n), s.name(p)));
        for c in gen.contexts(p, hole) {
            let round = c.around(&back);
            for d in depths {
                let mut node = c.fill(gen.nt(n, 0)[0].clone());
                for _ in 0..*d {
                    node = round.fill(node);
                }
                f.items.push((sh, node));
            }
        }
    }
    f.interleave()
}

/// All pairs of parts of each production: every end of the first one with every beginning of the second one.
pub fn joints(g: &Grammar, s: &Syms, k: usize) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let mut f = Family::new(format!(
        "all pairs of parts of each production, every end of the first and every beginning of the second within {k} deviations each"
    ));
    let edges = gen.edges();
    for (p, a, n) in &edges {
        let Some(chain) = chains.get(p) else { continue };
        for (q, b, m) in &edges {
            if p != q || a == b {
                continue;
            }
            let sh = f.shell(gen.shell(chain, false), format!("{} and {} in {}", s.name(*n), s.name(*m), s.name(*p)));
            for d in gen.with_two(*p, *a, *b, &gen.ends(*n, k, true), &gen.ends(*m, k, false)) {
                f.items.push((sh, d));
            }
        }
    }
    f.interleave()
}

/// Every edge of the grammar inside every edge (as near as the grammar allows).
pub fn crossings(g: &Grammar, s: &Syms, sib: bool) -> Family {
    let gen = Gen::new(g);
    let chains = gen.chains(g.nt("StoredDefinition"));
    let edges = gen.edges();
    let mut paths = std::collections::HashMap::new();
    let mut f = Family::new(format!("every edge inside every edge, siblings {sib}"));
    for (p, hole, n) in &edges {
        let Some(chain) = chains.get(p) else { continue };
        for (q, hole2, m) in &edges {
            let mut inside = vec![(*p, *hole)];
            if n != q {
                let Some(path) = paths.entry((*n, *q)).or_insert_with(|| gen.path(*n, *q)) else { continue };
                inside.extend(path.iter().copied());
            }
            inside.push((*q, *hole2));
            let node = gen.shell(&inside, sib).fill(gen.nt(*m, 0)[0].clone());
            let sh = f.shell(
                gen.shell(chain, false),
                format!("{} in {} inside {} in {}", s.name(*m), s.name(*q), s.name(*n), s.name(*p)),
            );
            f.items.push((sh, node));
        }
    }
    f.interleave()
}

/// Derivations of every production on its own.
pub fn entries(g: &Grammar, from: usize, to: usize) -> Family {
    let gen = Gen::new(g);
    let mut f = Family::new(format!("every production on its own, {from}..{to} deviations"));
    for (nt, name) in g.names.iter().enumerate() {
        let sh = f.shell(Shell::empty(), name.clone());
        for k in from..=to {
            for d in gen.nt(nt as u16, k).iter() {
                f.items.push((sh, d.clone()));
            }
        }
    }
    f.interleave()
}

/// The shortest sentences of all productions, and those with up to `k` deviations, of more than one token.
pub fn constructs(g: &Grammar, k: usize) -> Vec<Vec<Term>> {
    let gen = Gen::new(g);
    let mut v = std::collections::BTreeSet::new();
    for nt in 0..g.rules.len() as Nt {
        for k in 0..=k {
            for d in gen.nt(nt, k).iter() {
                let mut t = vec![];
                d.leaves(&mut t);
                if t.len() > 1 {
                    v.insert(t);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// Every production on its own, with all combinations of its own choices.
pub fn entry_shapes(g: &Grammar, reps: usize) -> Family {
    let gen = Gen::new(g);
    let mut f = Family::new(format!("every combination of the choices of each production, repetitions up to {reps}, on its own"));
    for (nt, name) in g.names.iter().enumerate() {
        let sh = f.shell(Shell::empty(), name.clone());
        for fill in [Fill::Default, Fill::Other, Fill::Dense(1)] {
            f.items.extend(gen.shapes(nt as Nt, reps, fill).into_iter().map(|d| (sh, d)));
        }
    }
    f.interleave()
}

/// The cycles of `nests`, each production of the cycle on its own.
pub fn entry_edges(g: &Grammar, k: usize) -> Family {
    let gen = Gen::new(g);
    let mut f = Family::new(format!("every production on its own, one of its parts with {k} deviations"));
    for (p, hole, n) in gen.edges() {
        let sh = f.shell(Shell::empty(), g.names[p as usize].clone());
        for sib in [false, true] {
            let around = gen.shell(&[(p, hole)], sib);
            for d in gen.nt(n, k).iter() {
                f.items.push((sh, around.fill(d.clone())));
            }
        }
    }
    f.interleave()
}

/// `end` as an operand is only meaningful inside subscripts; an equation cannot begin with it.
pub fn end_equation(s: &Syms, n: &Node) -> bool {
    fn first(s: &Syms, n: &Node) -> Option<bool> {
        n.kids.iter().find_map(|k| match k {
            Kid::T(t) => Some(s.term(*t) == "end"),
            Kid::N(m) => first(s, m),
        })
    }
    s.name(n.nt) == "Equation" && first(s, n) == Some(true)
        || n.kids.iter().any(|k| matches!(k, Kid::N(m) if end_equation(s, m)))
}

/// `1-3, 5` for 1, 2, 3, 5
fn ranges(v: &[usize]) -> String {
    let mut parts: Vec<(usize, usize)> = vec![];
    for n in v {
        match parts.last_mut() {
            Some(p) if p.1 + 1 == *n => p.1 = *n,
            _ => parts.push((*n, *n)),
        }
    }
    let s: Vec<String> = parts.iter().map(|(a, b)| if a == b { a.to_string() } else { format!("{a}-{b}") }).collect();
    s.join(", ")
}
