//! What each property's check explores, per tier. Passes run in order until all are done or the time is up.
use crate::engine::*;
use crate::families::{self as fam, Family};
use crate::gram::Grammar;
use crate::imp;
use crate::model::Syms;
use crate::oracle::bit;
use crate::oracle::Viol;
use crate::prog::*;
use std::sync::atomic::Ordering::Relaxed;

pub struct World<'a> {
    pub g: &'a Grammar,
    pub s: &'a Syms,
    pub stats: &'a Stats,
    pub thorough: bool,
}

pub fn plan(singles: &[&[&'static str]]) -> Plan {
    let all: Vec<&'static str> = singles.iter().flat_map(|s| s.iter().copied()).collect();
    let commented = singles.iter().any(|s| s.iter().any(|g| g.contains("c1")));
    Plan {
        first: if all.is_empty() { &[] } else if commented { FIRST } else { PLAIN_FIRST },
        last: if all.is_empty() { &[] } else if commented { LAST } else { PLAIN_LAST },
        singles: all,
        pairs: vec![],
        own: true,
        lines: true,
        margin: 1,
        pair_window: 0,
        subset_window: 0,
        horizontal: false,
        hsingles: false,
        periodic: vec![],
        period: 0,
    }
}
pub fn bases() -> Plan {
    plan(&[])
}
fn one_line() -> Plan {
    Plan { own: false, lines: false, ..bases() }
}
const BREAK: &[&str] = &["\n"];
/// a small alphabet of gaps with one comment in each of the principal places
const BRIEF: &[&str] = &["\n", " // c1\n", "\n// c1\n", " /* c1 */ ", "\n\n/* c1\n */ "];

const PERIODIC: &[&str] = &[" ", "\n", "\n\n\n", " // c1\n", "\n// c1\n", " /* c1 */ ", "\n/* c1 */ ", " /* c1 */\n", " /* c1\n */ ", "\n\n// c1\n\n"];
const FEW: &[&str] = &[" ", "\n", " // c1\n", " /* c1 */ ", "\n\n/* c1 */\n"];

/// Depths of nests that a program does not reach, but a counter may
const DEEP: &[usize] = &[20, 40, 64, 100, 130, 260];

/// Repetitions that are not parsed recursively.
const BIG: &[&str] = &["StoredDefinition", "ElementList", "EquationSection", "AlgorithmSection", "EnumList", "ComponentList", "ArithmeticExpression"];

impl World<'_> {
    fn explore(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            explore(self.stats, self.g, self.s, f, p, mask);
        }
    }
    fn spell(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            spellings(self.stats, self.g, self.s, f, p, mask);
        }
    }
    fn spell_all(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            spellings_of_all(self.stats, self.g, self.s, f, p, mask);
        }
    }
    /// Words with a meaning somewhere as identifiers.
    fn known(&self, f: &Family, p: &Plan, mask: u32, singles: bool) {
        if !self.stats.stopped() {
            known_words(self.stats, self.g, self.s, f, p, mask, singles);
        }
    }
    /// Tokens of several lines, with everything in the gaps next to them.
    fn multi_line(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            spellings_near(self.stats, self.g, self.s, f, p, mask);
        }
    }
    /// Comments of every spelling in every gap.
    fn comments(&self, f: &Family, mask: u32) {
        let mut p = plan(&[]);
        let gaps = comment_gaps();
        p.singles = gaps.into_iter().map(|x| &*x.leak()).collect();
        let mut f = f.clone();
        f.name.push_str(", comments of every spelling");
        self.explore(&f, &p, mask);
    }
    /// Comments of every spelling at the beginning and the end.
    fn comment_ends(&self, f: &Family, mask: u32) {
        let leak = |v: Vec<String>| -> &'static [&'static str] { v.into_iter().map(|x| &*x.leak()).collect::<Vec<_>>().leak() };
        let (first, last) = comment_ends();
        let p = Plan { first: leak(first), last: leak(last), margin: 100_000, own: false, ..plan(&[]) };
        let mut f = f.clone();
        f.name.push_str(", comments of every spelling at the beginning and the end of the file");
        self.explore(&f, &p, mask);
    }
    /// More than 65536 comments at the beginning and the end.
    fn very_many(&self, f: &Family, mask: u32) {
        let v: Vec<&'static str> = ["// c%\n", "/* c% */ ", "// c%\n\n", "/* c% */\n"]
            .iter()
            .map(|c| &*(0..66_000).map(|i| c.replace('%', &i.to_string())).collect::<String>().leak())
            .collect();
        let last: Vec<&'static str> = v.iter().flat_map(|t| [&*format!(" {t}").leak(), &*format!("\n{t}").leak()]).collect();
        let p = Plan { first: v.leak(), last: last.leak(), margin: 100_000, own: false, ..plan(&[]) };
        let mut f = f.clone();
        f.name.push_str(", 66000 comments at the beginning and the end");
        self.explore(&f, &p, mask);
    }
    /// Strings of several lines as operands.
    fn long_operands(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            long_operands(self.stats, self.g, self.s, f, p, mask);
        }
    }
    /// Tokens of many characters.
    fn long_tokens(&self, f: &Family, p: &Plan, mask: u32) {
        if !self.stats.stopped() {
            long_tokens(self.stats, self.g, self.s, f, p, mask);
        }
    }
    /// Two comments of every spelling in one gap.
    fn comment_pairs(&self, f: &Family, mask: u32) {
        let gaps = comment_pairs();
        let p = Plan { singles: gaps.into_iter().map(|x| &*x.leak()).collect(), own: false, lines: false, first: &[], last: &[], ..plan(&[]) };
        let mut f = f.clone();
        f.name.push_str(", two comments of every spelling");
        self.explore(&f, &p, mask);
    }
    /// Many comments or lines in every gap.
    fn heaps(&self, f: &Family, mask: u32) {
        let mut p = plan(&[]);
        p.singles = heaps().into_iter().map(|x| &*x.leak()).collect();
        let mut f = f.clone();
        f.name.push_str(", many comments or lines in a gap");
        self.explore(&f, &p, mask);
    }
    /// Programs far from the beginning of the file.
    fn far(&self, f: &Family, p: Plan, mask: u32) {
        let v: Vec<&'static str> = far().into_iter().map(|x| &*x.leak()).collect();
        let mut f = f.clone();
        f.name.push_str(", beyond line or column 65536");
        self.explore(&f, &Plan { first: v.leak(), margin: 100_000, ..p }, mask);
    }
    /// The same few gaps again and again.
    fn periodic(&self, f: &Family, alphabet: &[&'static str], period: usize, p: Plan, mask: u32) {
        let mut f = f.clone();
        f.name.push_str(&format!(", all gaps by words of up to {period} out of {}", alphabet.len()));
        self.explore(&f, &Plan { periodic: alphabet.to_vec(), period, ..p }, mask);
    }
    fn edges(&self, from: usize, to: usize, sib: &[bool]) -> Family {
        fam::edges(self.g, self.s, from, to, sib)
    }

    pub fn run(&self, prop: u32) {
        match prop {
            1 | 2 | 3 | 10..=16 | 24 => {
                self.layout(bit(prop));
                if matches!(prop, 1 | 2 | 3 | 16) {
                    self.through_executable(prop);
                }
                if self.thorough {
                    self.layout_deep(bit(prop));
                }
            }
            5 => {
                self.accept();
                self.around(5);
            }
            4 => self.any_text(),
            6 | 8 => self.around(prop),
            17..=21 => self.cli(prop),
            23 => self.entries(),
            7 => self.lexer(),
            9 => self.horizontal(),
            22 => self.tree(),
            25 => self.histories(),
            _ => panic!("no check for C{prop:02}"),
        }
    }

    /// Properties of the formatted text of valid programs.
    pub fn layout(&self, m: u32) {
        let both = &[false, true][..];
        let (g, s) = (self.g, self.s);
        // every production everywhere, every gap with every alternative
        self.explore(&self.edges(0, 0, both), &plan(&[PLAIN, COMMENTED]), m);
        self.explore(&self.edges(1, 1, both), &bases(), m);
        self.explore(&fam::shapes(g, s, 1, false), &plan(&[BREAK]), m);
        self.multi_line(&self.edges(0, 1, &[false]), &plan(&[PLAIN, BRIEF]), m);
        self.spell(&self.edges(0, 1, &[false]), &bases(), m);
        self.spell_all(&fam::dense(g, s, &[1, 2]), &plan(&[BREAK]), m);
        self.known(&self.edges(0, 0, &[true]), &Plan { lines: true, margin: 0, ..one_line() }, m, true);
        self.explore(&fam::nests(g, s, &[1, 2, 3]), &plan(&[PLAIN, BRIEF]), m);
        self.explore(&fam::nests(g, s, &[5, 8, 17, 40]), &bases(), m);
        self.explore(&fam::nests(g, s, &[130, 260]), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.explore(&fam::lists(g, s, &[0, 1, 2, 3, 4, 5, 8, 13, 21]), &plan(&[BREAK]), m);
        self.explore(&fam::lists(g, s, &(22..=300).chain([1000]).collect::<Vec<_>>()), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.explore(&fam::nests(g, s, &(4..=100).chain(126..=130).collect::<Vec<_>>()), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.explore(&fam::lists(g, s, &[3000]), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.explore(&fam::big_lists(g, s, BIG, 23_000), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.periodic(&fam::big_lists(g, s, BIG, 23_000), &[" // c1\n", " /* c1 */ "], 1, one_line(), m);
        self.periodic(&fam::lists(g, s, &[40, 130, 300]), &[" ", "\n", " // c1\n", " /* c1 */ "], 1, one_line(), m);
        self.long_tokens(&self.edges(0, 0, &[false]), &one_line(), m);
        self.explore(&fam::rich_lists(g, s, &[3, 7, 12]), &plan(&[BREAK]), m);
        self.explore(&fam::odd_lists(g, s, &[2, 4, 9, 17]), &bases(), m);
        self.explore(&fam::lists(g, s, &[40, 65, 130, 300]), &Plan { singles: vec!["\n", " // c1\n", "\n\n/* c1 */ "], ..one_line() }, m);
        self.explore(&fam::odd_lists(g, s, &[33, 65, 129, 257, 300]), &Plan { lines: true, margin: 0, ..one_line() }, m);
        self.explore(&self.edges(0, 1, both), &Plan { subset_window: 10, ..bases() }, m);
        self.explore(&fam::files(g, 0, 3), &plan(&[PLAIN, COMMENTED]), m);
        self.explore(&fam::crossings(g, s, true), &bases(), m);
        self.explore(&fam::dense(g, s, &[1, 2, 3]), &plan(&[PLAIN, BRIEF]), m);
        self.explore(&fam::pairs(g, s, 1), &bases(), m);
        self.comments(&self.edges(0, 0, both), m);
        self.comment_pairs(&fam::files(g, 0, 2), m);
        self.comment_ends(&self.edges(0, 0, &[false]), m);
        self.comment_ends(&fam::files(g, 0, 2), m);
        self.very_many(&fam::files(g, 0, 0), m);
        self.long_operands(&self.edges(0, 1, both), &plan(&[BREAK]), m);
        self.long_operands(&self.edges(2, 2, both), &bases(), m);
        self.long_operands(&fam::dense(g, s, &[1, 2, 3]), &bases(), m);
        self.long_operands(&fam::lists(g, s, &[1, 2, 3, 4, 5]), &bases(), m);
        self.explore(&fam::joints(g, s, 2), &bases(), m);
        self.explore(&fam::odd_nests(g, s, &[1, 2]), &bases(), m);
        self.periodic(&self.edges(0, 0, both), PERIODIC, 2, bases(), m);
        self.periodic(&self.edges(0, 0, &[false]), FEW, 4, bases(), m);
        self.periodic(&self.edges(1, 1, &[false]), FEW, 2, bases(), m);
        self.periodic(&fam::dense(g, s, &[1, 2]), FEW, 3, bases(), m);
        self.periodic(&fam::files(g, 0, 2), FEW, 4, bases(), m);
        self.heaps(&self.edges(0, 0, &[false]), m);
        self.far(&self.edges(0, 1, &[true]), bases(), m);
        self.explore(&self.edges(0, 0, &[false]), &Plan { pairs: PAIRS.to_vec(), pair_window: 30, ..bases() }, m);
        self.explore(&fam::crossings(g, s, false), &plan(&[BREAK]), m);
        // combinations of two deviations on one line, one token per line, and as formatted
        self.explore(&self.edges(2, 2, both), &bases(), m);
        self.explore(&fam::shapes(g, s, 1, false), &plan(&[PLAIN, COMMENTED]), m);
        self.explore(&fam::shapes(g, s, 2, true), &plan(&[PLAIN]), m);
        self.explore(&self.edges(1, 1, both), &plan(&[PLAIN, COMMENTED]), m);
    }
    fn layout_deep(&self, m: u32) {
        let both = &[false, true][..];
        let (g, s) = (self.g, self.s);
        self.explore(&fam::shapes(g, s, 2, true), &plan(&[COMMENTED]), m);
        self.known(&self.edges(0, 1, &[false]), &bases(), m, true);
        self.comments(&self.edges(1, 1, both), m);
        self.long_operands(&self.edges(0, 1, both), &plan(&[PLAIN, COMMENTED]), m);
        self.long_operands(&fam::shapes(g, s, 2, true), &bases(), m);
        self.long_operands(&fam::crossings(g, s, true), &bases(), m);
        self.comments(&fam::shapes(g, s, 1, false), m);
        self.comment_pairs(&self.edges(0, 0, &[false]), m);
        self.explore(&fam::joints(g, s, 1), &plan(&[PLAIN, BRIEF]), m);
        self.explore(&fam::odd_nests(g, s, &[1, 2, 9]), &plan(&[BREAK]), m);
        self.explore(&fam::joints(g, s, 2), &bases(), m);
        self.multi_line(&self.edges(0, 1, both), &plan(&[PLAIN, COMMENTED]), m);
        self.multi_line(&fam::shapes(g, s, 1, true), &plan(&[PLAIN, BRIEF]), m);
        self.explore(&self.edges(2, 2, both), &Plan { subset_window: 9, ..bases() }, m);
        self.explore(&self.edges(2, 2, both), &plan(&[PLAIN]), m);
        self.explore(&fam::pairs(g, s, 1), &plan(&[BRIEF]), m);
        self.explore(&fam::crossings(g, s, true), &plan(&[BRIEF]), m);
        self.explore(&self.edges(1, 1, both), &Plan { pairs: PAIRS.to_vec(), pair_window: 30, ..bases() }, m);
        self.explore(&fam::nests(g, s, &[4, 6, 10]), &plan(&[BRIEF]), m);
        self.explore(&fam::nests(g, s, &[64, 130]), &bases(), m);
        self.explore(&fam::lists(g, s, &[34, 55]), &plan(&[BREAK]), m);
        self.explore(&fam::rich_lists(g, s, &[4, 5, 6]), &plan(&[PLAIN, BRIEF]), m);
        self.explore(&self.edges(3, 3, &[false]), &bases(), m);
        self.explore(&self.edges(2, 2, both), &plan(&[COMMENTED]), m);
        self.explore(&fam::joints(g, s, 3), &bases(), m);
        self.spell(&self.edges(2, 2, &[false]), &bases(), m);
        self.periodic(&self.edges(0, 0, &[false]), PERIODIC, 3, bases(), m);
        self.periodic(&self.edges(1, 1, both), PERIODIC, 2, bases(), m);
        self.periodic(&fam::dense(g, s, &[1, 2, 3]), FEW, 4, bases(), m);
        self.periodic(&fam::shapes(g, s, 2, true), FEW, 2, bases(), m);
        self.heaps(&self.edges(0, 1, &[true]), m);
        self.far(&fam::shapes(g, s, 1, false), bases(), m);
    }

    /// C05: every sentence of the grammar is accepted.
    fn accept(&self) {
        let m = bit(5);
        let both = &[false, true][..];
        let (g, s) = (self.g, self.s);
        self.explore(&self.edges(0, 2, both), &Plan { own: false, ..bases() }, m);
        self.explore(&self.edges(0, 1, both), &Plan { own: false, ..plan(&[PLAIN, COMMENTED]) }, m);
        self.explore(&fam::nests(g, s, &[1, 2, 3, 4, 5, 6, 8, 10]), &Plan { own: false, ..plan(&[BREAK]) }, m);
        self.explore(&fam::nests(g, s, DEEP), &Plan { lines: true, ..one_line() }, m);
        self.explore(&fam::lists(g, s, &(0..40).collect::<Vec<_>>()), &one_line(), m);
        self.explore(&fam::lists(g, s, &[100, 101, 150, 300, 1000]), &Plan { lines: true, ..one_line() }, m);
        self.explore(&fam::rich_lists(g, s, &[2, 3, 7, 30]), &one_line(), m);
        self.explore(&fam::odd_lists(g, s, &[2, 3, 4, 9, 17, 33, 65, 129, 257]), &one_line(), m);
        self.explore(&fam::pairs(g, s, 1), &one_line(), m);
        self.explore(&fam::crossings(g, s, true), &one_line(), m);
        self.explore(&fam::files(g, 0, 4), &one_line(), m);
        self.explore(&fam::shapes(g, s, 2, true), &Plan { own: false, ..plan(&[BREAK]) }, m);
        self.explore(&fam::dense(g, s, &[1, 2, 3, 4, 5]), &Plan { own: false, ..plan(&[BREAK]) }, m);
        self.spell(&self.edges(0, 1, &[false]), &one_line(), m);
        self.spell_all(&fam::dense(g, s, &[1, 2]), &one_line(), m);
        self.known(&self.edges(0, 1, &[true]), &one_line(), m, false);
        self.far(&fam::dense(g, s, &[1]), one_line(), m);
        self.periodic(&self.edges(0, 0, both), FEW, 3, bases(), m);
        self.explore(&fam::joints(g, s, 1), &Plan { own: false, ..bases() }, m);
        self.explore(&fam::odd_nests(g, s, &[1, 2, 30]), &Plan { own: false, ..bases() }, m);
        if !self.thorough {
            return;
        }
        self.explore(&fam::joints(g, s, 2), &Plan { own: false, ..bases() }, m);
        self.explore(&fam::shapes(g, s, 2, true), &Plan { own: false, ..plan(&[PLAIN, COMMENTED]) }, m);
        self.explore(&fam::shapes(g, s, 3, false), &Plan { own: false, ..bases() }, m);
        self.explore(&self.edges(3, 3, &[false]), &Plan { own: false, ..bases() }, m);
        self.explore(&self.edges(2, 2, both), &Plan { own: false, ..plan(&[PLAIN]) }, m);
        self.explore(&self.edges(2, 2, &[false]), &Plan { own: false, ..plan(&[BRIEF]) }, m);
        self.explore(&fam::lists(g, s, &(40..400).collect::<Vec<_>>()), &one_line(), m);
        self.spell(&self.edges(2, 2, &[false]), &one_line(), m);
        self.explore(&self.edges(4, 4, &[false]), &one_line(), m);
    }

    /// C22: the tree is the derivation.
    fn tree(&self) {
        let m = bit(22);
        let both = &[false, true][..];
        let (g, s) = (self.g, self.s);
        self.explore(&self.edges(0, 2, both), &one_line(), m);
        self.explore(&self.edges(0, 1, both), &Plan { own: false, ..plan(&[BRIEF]) }, m);
        self.explore(&fam::nests(g, s, &[1, 2, 3, 4, 5, 6, 8, 10]), &one_line(), m);
        self.explore(&fam::nests(g, s, DEEP), &one_line(), m);
        self.explore(&fam::lists(g, s, &(0..40).collect::<Vec<_>>()), &one_line(), m);
        self.explore(&fam::lists(g, s, &[100, 101, 150, 300]), &one_line(), m);
        self.explore(&fam::rich_lists(g, s, &[2, 3, 7, 30]), &one_line(), m);
        self.explore(&fam::odd_lists(g, s, &[2, 3, 4, 9, 17, 33, 65, 129, 257]), &one_line(), m);
        self.explore(&fam::pairs(g, s, 1), &one_line(), m);
        self.explore(&fam::crossings(g, s, true), &one_line(), m);
        self.explore(&fam::files(g, 0, 4), &one_line(), m);
        self.explore(&fam::shapes(g, s, 2, true), &one_line(), m);
        self.explore(&fam::shapes(g, s, 1, true), &Plan { own: false, ..plan(&[BRIEF]) }, m);
        self.explore(&fam::dense(g, s, &[1, 2, 3, 4, 5]), &one_line(), m);
        self.spell(&self.edges(0, 1, &[false]), &one_line(), m);
        self.spell_all(&fam::dense(g, s, &[1, 2]), &one_line(), m);
        self.known(&self.edges(0, 1, &[true]), &one_line(), m, false);
        self.far(&fam::dense(g, s, &[1]), one_line(), m);
        self.periodic(&self.edges(0, 0, both), FEW, 3, bases(), m);
        self.explore(&fam::joints(g, s, 1), &one_line(), m);
        self.explore(&fam::odd_nests(g, s, &[1, 2, 30]), &one_line(), m);
        if !self.thorough {
            return;
        }
        self.explore(&fam::joints(g, s, 2), &one_line(), m);
        self.explore(&fam::shapes(g, s, 3, false), &one_line(), m);
        self.explore(&self.edges(3, 3, &[false]), &one_line(), m);
        self.explore(&self.edges(2, 2, both), &Plan { own: false, lines: false, ..plan(&[BRIEF]) }, m);
        self.explore(&fam::lists(g, s, &(40..400).collect::<Vec<_>>()), &one_line(), m);
        self.spell(&self.edges(2, 2, &[false]), &one_line(), m);
    }

    /// C09: the amount and kind of blanks and the kind of line ends do not matter.
    fn horizontal(&self) {
        let m = bit(9);
        let both = &[false, true][..];
        let (g, s) = (self.g, self.s);
        let h = |p: Plan| Plan { horizontal: true, ..p };
        self.explore(&self.edges(0, 1, both), &h(plan(&[PLAIN, BRIEF])), m);
        self.explore(&self.edges(0, 0, both), &Plan { hsingles: true, ..h(plan(&[PLAIN, COMMENTED])) }, m);
        self.explore(&self.edges(0, 1, &[false]), &Plan { hsingles: true, ..h(bases()) }, m);
        self.explore(&self.edges(2, 2, both), &h(bases()), m);
        self.explore(&fam::nests(g, s, &[1, 2, 3]), &h(plan(&[BREAK])), m);
        self.explore(&fam::lists(g, s, &[0, 1, 2, 3, 5, 8, 13]), &h(bases()), m);
        self.explore(&fam::rich_lists(g, s, &[3, 7]), &h(bases()), m);
        self.explore(&fam::crossings(g, s, true), &h(bases()), m);
        self.explore(&fam::files(g, 0, 2), &h(plan(&[PLAIN, COMMENTED])), m);
        self.explore(&fam::shapes(g, s, 2, false), &h(plan(&[BREAK])), m);
        self.explore(&fam::dense(g, s, &[1, 2, 3]), &h(plan(&[BREAK])), m);
        self.spell(&self.edges(0, 0, both), &h(bases()), m);
        self.periodic(&self.edges(0, 0, &[false]), FEW, 2, h(bases()), m);
        self.far(&fam::dense(g, s, &[1]), h(bases()), m);
        self.explore(&fam::joints(g, s, 1), &h(one_line()), m);
        if !self.thorough {
            return;
        }
        self.spell(&self.edges(1, 1, both), &h(bases()), m);
        self.explore(&self.edges(1, 1, both), &h(plan(&[COMMENTED])), m);
        self.explore(&fam::pairs(g, s, 1), &h(bases()), m);
        self.explore(&self.edges(1, 1, both), &Plan { hsingles: true, ..h(plan(&[PLAIN, COMMENTED])) }, m);
        self.explore(&self.edges(2, 2, &[false]), &h(plan(&[BREAK])), m);
    }

    /// Run `f` on every text of a list.
    fn texts(&self, name: &str, list: &[String], f: &(dyn Fn(&str, &mut Slot) + Sync)) {
        if self.stats.stopped() {
            return;
        }
        let before = (self.stats.states.load(Relaxed), std::time::Instant::now());
        parallel(self.stats, list.len(), |i, slot| {
            if self.stats.fresh(format!("{name}\0{}", list[i]).as_bytes()) {
                self.stats.accepted.fetch_add(1, Relaxed);
                f(&list[i], slot);
            }
        });
        self.stats.pass(name, before);
    }

    /// C07: the lexer agrees with the reference lexer on every text.
    fn lexer(&self) {
        use crate::lexcheck::*;
        let lex = match Lex::new() {
            Ok(l) => l,
            Err(v) => return self.stats.report(vec![v]),
        };
        let f = |src: &str, slot: &mut Slot| {
            slot.set_as("BasePrefix", src);
            if let Some(d) = lex.compare(src) {
                self.stats.report(vec![Viol { prop: 7, detail: d, input: format!("\u{1}BasePrefix\u{1}{src}") }]);
            }
            self.stats.sample(|| src.to_string());
        };
        self.texts("keywords, near-keywords and pairs of keywords", &words(), &f);
        self.texts("long lexemes and far positions", &long(), &f);
        let sp = spellings();
        let mut pairs = vec![];
        for a in &sp {
            for b in &sp {
                for s in ["", " ", "\n", "\r\n", "\r", "//\n", "/**/"] {
                    pairs.push(format!("{a}{s}{b}"));
                }
            }
        }
        self.texts("all pairs of spellings with all separators", &pairs, &f);
        let refs: Vec<&str> = sp.iter().map(|s| s.as_str()).collect();
        self.scalars(&f);
        strings(self.stats, "all spellings (glued)", &refs, 3, 3, &f);
        strings(self.stats, "all kinds of characters", ALPHABET, 0, 4, &f);
        for (name, alpha, quick, _) in SMALL {
            strings(self.stats, name, alpha, 0, *quick, &f);
        }
        if !self.thorough {
            return;
        }
        for (name, alpha, quick, thorough) in SMALL {
            strings(self.stats, name, alpha, *quick + 1, *thorough, &f);
        }
        strings(self.stats, "all kinds of characters", ALPHABET, 5, 5, &f);
        strings(self.stats, "all spellings (glued)", &refs, 4, 4, &f);
    }

    /// Every Unicode character in every lexical context.
    fn scalars(&self, f: &(dyn Fn(&str, &mut Slot) + Sync)) {
        const AROUND: &[(&str, &str)] = &[
            ("", "a"), ("a", " a"), ("1", " a"), ("1.", " a"), ("1e", "1 a"), ("\"", "\" a"), ("\"\\", "\" a"), ("'", "' a"), ("'\\", "' a"), ("'a", "a' a"),
            ("//", "\na"), ("/*", "*/ a"), ("/**", "*/ a"), ("a ", " a"), ("/", "a"), ("\n", "\na"), ("<", "="), ("\"a\n", "\" a"), ("//a", ""),
        ];
        if self.stats.stopped() {
            return;
        }
        let before = (self.stats.states.load(Relaxed), std::time::Instant::now());
        parallel(self.stats, 0x1100, |i, slot| {
            let mut src = String::new();
            let mut n = 0;
            for c in (i as u32 * 0x100..(i as u32 + 1) * 0x100).filter_map(char::from_u32) {
                for (a, b) in AROUND {
                    src.clear();
                    src.push_str(a);
                    src.push(c);
                    src.push_str(b);
                    f(&src, slot);
                    n += 1;
                }
            }
            self.stats.states.fetch_add(n, Relaxed);
            self.stats.transitions.fetch_add(n, Relaxed);
            self.stats.accepted.fetch_add(n, Relaxed);
        });
        self.stats.pass("every Unicode character in every lexical context", before);
    }

    /// C05, C06, C08: token sequences in and around the language, judged by the reference recogniser.
    fn around(&self, prop: u32) {
        use crate::earley::Automata;
        use crate::reject::*;
        let (g, s, stats) = (self.g, self.s, self.stats);
        let full = Automata::new(g, &[]);
        let strict = Automata::new(g, &[(g.nt("Primary"), g.term("end").unwrap())]);
        let all = if prop == 8 { [Layout::Crooked, Layout::Lines, Layout::Spaces] } else { [Layout::Spaces, Layout::Crooked, Layout::Lines] };
        let judge = |n: usize| Judge { g, s, stats, mask: bit(prop), full: &full, strict: &strict, layouts: &all[..n] };
        let judges = [judge(1), judge(2), judge(3)];
        let wide = Judge { layouts: &[Layout::Wide(0), Layout::Wide(1)], ..judge(0) };
        // n layouts; 0: the long tokens
        let edits = |f: &Family, n: usize, what: &str, work: &(dyn Fn(&Judge, &Prog, &mut String, &mut Slot) + Sync)| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, f.len(), |i, slot| {
                let Some(p) = f.prog(g, s, i) else { return };
                stats.programs.fetch_add(1, Relaxed);
                work(if n > 0 { &judges[n - 1] } else { &wide }, &p, &mut String::new(), slot);
            });
            stats.pass(&format!("{}: {what}{}", f.name, if n > 0 { "" } else { ", long tokens" }), before);
        };
        let n = if prop != 8 { 1 } else if self.thorough { 2 } else { 1 };
        let single = |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| j.edits(&p.terms, p.focus.0.saturating_sub(1), p.focus.1 + 1, b, sl);
        let constructs = [fam::constructs(g, 0), fam::constructs(g, 1)];
        let insert = |k: usize| {
            let v = &constructs[k];
            move |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| j.inserts(&p.terms, p.focus.0.saturating_sub(1), p.focus.1 + 1, v, b, sl)
        };
        let inserted = |k: usize| format!("each of {} constructs inserted everywhere or in place of each token", constructs[k].len());
        let everywhere = |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| j.edits(&p.terms, 0, p.terms.len(), b, sl);
        let lexical = |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| j.lexical(&p.terms, p.focus.0, p.focus.1, b, sl);
        let double = |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| j.double_edits(&p.terms, p.focus.0, p.focus.1, b, sl);
        let hole = |k: usize| move |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| {
            j.sequences(&p.terms[..p.focus.0], &p.terms[p.focus.1..], None, k, b, sl)
        };
        // every sequence of terminals as a file
        let files = |k: usize| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, g.terms.len() + 1, |i, slot| {
                let first = if i < g.terms.len() { Some(i as u16) } else { None };
                judge(n).sequences(&[], &[], first, if first.is_none() { 0 } else { k }, &mut String::new(), slot);
            });
            stats.pass(&format!("every sequence of up to {k} terminals as a file"), before);
        };
        if prop != 5 {
            edits(&self.edges(0, 1, &[false]), n, "erroneous lexemes in every gap", &lexical);
        }
        if prop == 8 {
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, NAMES.len(), |i, slot| {
                let judge = judge(1);
                let mut text = String::new();
                for t in 0..g.terms.len() as u16 {
                    for l in ["", "\n  ", "# "] {
                        text.clear();
                        text.push_str(l);
                        text_of(s.term(t), 0, &mut text);
                        if stats.fresh(format!("{i} {text}").as_bytes()) {
                            slot.set(&text);
                            judge.named(NAMES[i], &text);
                        }
                    }
                }
                for text in ["", "#", "model A end A; $ !", "model A \"", "/*", "model A\n  'x\n'\nend A", "model A end A; ;", "within within;"] {
                    if stats.fresh(format!("{i} {text}").as_bytes()) {
                        judge.named(NAMES[i], text);
                    }
                }
            });
            stats.pass(&format!("every terminal and some more with each of {} file names", NAMES.len()), before);
            let f = self.edges(0, 0, &[false]);
            edits(&f, 0, "erroneous lexemes in every gap", &lexical);
            let far = Judge { layouts: &[Layout::Far(0), Layout::Far(1)], ..judge(0) };
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, g.terms.len(), |i, slot| far.lexical(&[i as u16], 0, 1, &mut String::new(), slot));
            stats.pass("erroneous lexemes before and after every terminal, beyond line and column 65536", before);
            let dirty = Judge { layouts: &[Layout::Dirty(0), Layout::Dirty(1), Layout::Dirty(2)], ..judge(0) };
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, f.len(), |i, slot| {
                let Some(p) = f.prog(g, s, i) else { return };
                stats.programs.fetch_add(1, Relaxed);
                single(&dirty, &p, &mut String::new(), slot);
            });
            stats.pass(&format!("{}: every single edit, with erroneous lexemes before, between and after the tokens", f.name), before);
        }
        edits(&self.edges(0, 0, &[true]), 0, "every single edit everywhere", &everywhere);
        if prop == 4 || prop == 8 {
            edits(&self.edges(1, 1, &[false]), 0, "every single edit", &single);
        }
        if prop == 4 || prop == 8 {
            let far = Judge { layouts: &[Layout::Far(0), Layout::Far(1)], ..judge(0) };
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, g.terms.len(), |i, slot| far.sequences(&[], &[], Some(i as u16), 1, &mut String::new(), slot));
            let f = self.edges(0, 0, &[false]);
            parallel(stats, f.len(), |i, slot| {
                let Some(p) = f.prog(g, s, i) else { return };
                far.sequences(&p.terms[..p.focus.0], &p.terms[p.focus.1..], None, 1, &mut String::new(), slot);
            });
            stats.pass(&format!("every terminal as a file, or in place of each production ({}), beyond line and column 65536", f.name), before);
        }
        files(3);
        edits(&self.edges(0, 0, &[true]), n, "every single edit everywhere", &everywhere);
        edits(&self.edges(0, 1, &[false]), n, &inserted(0), &insert(0));
        edits(&self.edges(0, (prop == 6) as usize, &[false]), n, &inserted(1), &insert(1));
        edits(&self.edges(0, 1, &[false, true]), n, "every single edit", &single);
        edits(&fam::shapes(g, s, 1, false), n, "every single edit", &single);
        edits(&self.edges(0, 0, &[false, true]), n, "every sequence of up to 2 terminals in its place", &hole(2));
        let ends = |j: &Judge, p: &Prog, b: &mut String, sl: &mut Slot| {
            let (from, to) = p.focus;
            j.edits(&p.terms, from, from + 4, b, sl);
            j.edits(&p.terms, (from + to) / 2 - 2, (from + to) / 2 + 2, b, sl);
            j.edits(&p.terms, to.saturating_sub(5), to + 1, b, sl);
        };
        edits(&fam::lists(g, s, &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257]), n, "every single edit near both ends and in the middle", &ends);
        edits(&fam::nests(g, s, &[2, 3]), n, "every single edit", &single);
        edits(&fam::nests(g, s, &[4, 5, 6, 7, 8, 9, 10, 17, 33]), n, "every single edit near both ends and in the middle", &ends);
        if !self.thorough {
            return;
        }
        edits(&self.edges(0, 0, &[false]), n, "every double edit", &double);
        edits(&self.edges(2, 2, &[false]), n, "every single edit", &single);
        edits(&fam::shapes(g, s, 1, false), n, &inserted(0), &insert(0));
        edits(&self.edges(0, 1, &[false]), n, &inserted(1), &insert(1));
        files(4);
        edits(&self.edges(0, 0, &[false]), n, "every sequence of up to 3 terminals in its place", &hole(3));
    }

    /// C23: every production as entry.
    fn entries(&self) {
        let m = bit(23);
        let g = self.g;
        let e = |p: Plan| Plan { own: false, ..p };
        self.explore(&fam::entries(g, 0, 1), &e(plan(&[PLAIN, COMMENTED])), m);
        self.explore(&fam::entries(g, 2, 2), &e(plan(&[BREAK])), m);
        self.explore(&fam::entry_edges(g, 1), &e(plan(&[PLAIN, BRIEF])), m);
        self.explore(&fam::entry_edges(g, 2), &e(bases()), m);
        self.explore(&fam::entries(g, 0, 1), &Plan { subset_window: 10, ..e(bases()) }, m);
        self.periodic(&fam::entries(g, 0, 1), FEW, 3, bases(), m);
        self.explore(&fam::entry_shapes(g, 2), &e(plan(&[PLAIN, COMMENTED])), m);
        if !self.thorough {
            return;
        }
        self.explore(&fam::entries(g, 2, 2), &e(plan(&[PLAIN, COMMENTED])), m);
        self.explore(&fam::entries(g, 3, 3), &e(bases()), m);
        self.explore(&fam::entries(g, 0, 1), &Plan { pairs: PAIRS.to_vec(), pair_window: 30, ..e(bases()) }, m);
        self.explore(&fam::entries(g, 3, 3), &e(plan(&[BRIEF])), m);
    }

    /// C04: any text at all.
    fn any_text(&self) {
        use crate::lexcheck::{long, spellings, strings, ALPHABET, SMALL};
        let (g, s, stats) = (self.g, self.s, self.stats);
        let report = |entry: &str, src: &str, e: String| {
            stats.report(vec![Viol { prop: 4, detail: format!("panic: {e}"), input: format!("\u{1}{entry}\u{1}{src}") }])
        };
        let file = |src: &str, slot: &mut Slot| {
            slot.set(src);
            if let imp::Fmt::Panic(e) = imp::format(src) {
                report("StoredDefinition", src, e);
            }
            stats.sample(|| src.to_string());
        };
        let every_entry = |src: &str, slot: &mut Slot| {
            for name in &g.names {
                slot.set_as(name, src);
                if let Err(e) = imp::errors("none", src, imp::kind_by_name(name).unwrap()) {
                    report(name, src, e);
                }
            }
        };
        let sp = spellings();
        let refs: Vec<&str> = sp.iter().map(|s| s.as_str()).collect();
        self.texts("long lexemes", &long(), &file);
        strings(stats, "all kinds of characters, as files", ALPHABET, 0, 4, &file);
        strings(stats, "all kinds of characters, as every production", ALPHABET, 0, 2, &every_entry);
        strings(stats, "all spellings (glued)", &refs, 0, 3, &file);
        let terms: Vec<String> = g
            .terms
            .iter()
            .map(|t| {
                let mut s = String::new();
                crate::reject::text_of(t, 0, &mut s);
                format!("{s} ")
            })
            .collect();
        let refs2: Vec<&str> = terms.iter().map(|s| s.as_str()).collect();
        strings(stats, "all terminals, as every production", &refs2, 0, 2, &every_entry);
        // terminals, and pairs of them, many times
        let mut many = vec![];
        for a in &terms {
            for n in [10, 49, 50, 51, 99, 100, 101, 102, 200, 500] {
                many.push(a.repeat(n));
            }
            for b in &terms {
                for n in [5, 50, 101] {
                    many.push(format!("{a}{b}").repeat(n));
                    many.push(format!("{a}{}", b.repeat(n)));
                    many.push(format!("{}{b}", a.repeat(n)));
                }
            }
        }
        self.texts("terminals and pairs of terminals repeated up to 500 times", &many, &file);
        self.texts("terminals and pairs of terminals repeated, as every production", &many, &every_entry);
        self.around(4);
        // deep and long, whole and cut off
        let whole = |f: &Family| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, f.len(), |i, slot| {
                let Some(p) = f.prog(g, s, i) else { return };
                stats.programs.fetch_add(1, Relaxed);
                let mut text = String::new();
                for gap in [" ", "\n"] {
                    let gs: Vec<&str> = (0..=p.len()).map(|i| if i == 0 { "" } else { gap }).collect();
                    p.render(&gs, &mut text);
                    let at: Vec<usize> = text.match_indices(gap).map(|m| m.0).collect();
                    let n = at.len();
                    for cut in [n - 1, n / 2, n / 2 + 1, n * 3 / 4, n / 4, n - n.min(2), n - n.min(4)] {
                        let t = &text[..at[cut]];
                        if stats.fresh(t.as_bytes()) {
                            stats.accepted.fetch_add(1, Relaxed);
                            file(t, slot);
                        }
                    }
                }
            });
            stats.pass(&format!("{}: whole and cut off in 6 places", f.name), before);
        };
        whole(&fam::nests(g, s, DEEP));
        whole(&fam::odd_nests(g, s, &[12, 36]));
        whole(&fam::lists(g, s, &[100, 101, 150, 300, 1000]));
        whole(&fam::rich_lists(g, s, &[30]));
        whole(&fam::dense(g, s, &[1, 2, 3, 4]));
        let corrupt = |f: &Family, alpha: &[&str], gaps: [&str; 2]| {
            if stats.stopped() {
                return;
            }
            let before = (stats.states.load(Relaxed), std::time::Instant::now());
            parallel(stats, f.len(), |i, slot| {
                let Some(p) = f.prog(g, s, i) else { return };
                stats.programs.fetch_add(1, Relaxed);
                let mut text = String::new();
                let gs: Vec<&str> = (0..=p.len()).map(|i| gaps[i % 2]).collect();
                p.render(&gs, &mut text);
                let at: Vec<usize> = text.char_indices().map(|c| c.0).collect();
                let mut go = |t: String, slot: &mut Slot| {
                    if stats.fresh(t.as_bytes()) {
                        stats.accepted.fetch_add(1, Relaxed);
                        file(&t, slot);
                    }
                };
                for (k, i) in at.iter().copied().enumerate() {
                    let j = at.get(k + 1).copied().unwrap_or(text.len());
                    go(text[..i].to_string(), slot);
                    go(text[i..].to_string(), slot);
                    go(format!("{}{}", &text[..i], &text[j..]), slot);
                    for c in alpha {
                        go(format!("{}{c}{}", &text[..i], &text[i..]), slot);
                        go(format!("{}{c}{}", &text[..i], &text[j..]), slot);
                    }
                }
            });
            stats.pass(&format!("{}: every corruption of one character, gaps {gaps:?}", f.name), before);
        };
        const DIRT: &[&str] = &["\"", "'", "/*", "*/", "//", "\\", "\n", "(", ")", "}", ";", "end ", "\u{1f600}", "\0", ".", "="];
        corrupt(&self.edges(0, 0, &[true]), DIRT, [" ", "\n"]);
        corrupt(&self.edges(0, 0, &[false]), DIRT, [" /* \u{e9}\n */ ", " // \u{4e16}\r\n"]);
        if !stats.stopped() {
            self.long_files(&crate::cli::Lab::new(), 4);
        }
        if !self.thorough {
            return;
        }
        whole(&fam::odd_nests(g, s, &[70, 140]));
        whole(&fam::rich_lists(g, s, &[130]));
        corrupt(&self.edges(1, 1, &[false]), DIRT, [" ", "\n"]);
        corrupt(&self.edges(0, 0, &[true]), ALPHABET, ["\n", " "]);
        strings(stats, "all kinds of characters, as every production", ALPHABET, 3, 3, &every_entry);
        for (name, alpha, _, n) in SMALL {
            strings(stats, name, alpha, 5, n - 1, &file);
        }
        strings(stats, "all kinds of characters, as files", ALPHABET, 5, 5, &file);
        strings(stats, "all terminals, as every production", &refs2, 3, 3, &every_entry);
    }
}
