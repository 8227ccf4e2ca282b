//! Reference layout model: for a derivation and the lines on which its tokens stand in the input it tells, for the
//! gap before each token, whether the formatted text has a line break there, of which kind, with which blank-line
//! policy and on which level of indentation; and for gaps without a break, whether a space stands there.
use crate::gram::*;

/// Derivation with token indices; empty nodes are left out.
#[derive(Debug, PartialEq, Eq)]
pub struct Tree {
    pub nt: Nt,
    pub lo: usize,
    pub hi: usize,
    pub kids: Vec<TK>,
}
#[derive(Debug, PartialEq, Eq)]
pub enum TK {
    T(Term, usize),
    N(Tree),
}

pub fn index(n: &Node, next: &mut usize, focus: *const Node, range: &mut Option<(usize, usize)>) -> Tree {
    let lo = *next;
    let mut kids = vec![];
    for k in &n.kids {
        match k {
            Kid::T(t) => {
                kids.push(TK::T(*t, *next));
                *next += 1;
            }
            Kid::N(m) => {
                let t = index(m, next, focus, range);
                if t.hi > t.lo {
                    kids.push(TK::N(t));
                }
            }
        }
    }
    if std::ptr::eq(n, focus) {
        *range = Some((lo, *next));
    }
    Tree { nt: n.nt, lo, hi: *next, kids }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Blank {
    Required,
    Legal,
    Illegal,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cat {
    /// no break can stand here
    Never,
    /// a construct that starts its own line
    Mand,
    /// item of a list
    List,
    /// operator or branch of an expression
    Expr,
}
#[derive(Debug, Clone, Copy)]
pub struct Gap {
    pub cat: Cat,
    pub brk: bool,
    pub blank: Blank,
    pub lvl: usize,
    /// a break that does not depend on the line structure of the input (a list that holds a description)
    pub forced: bool,
}

pub struct Syms {
    names: Vec<String>,
    terms: Vec<String>,
}
impl Syms {
    pub fn new(g: &Grammar) -> Syms {
        Syms { names: g.names.clone(), terms: g.terms.clone() }
    }
    pub fn name(&self, nt: Nt) -> &str {
        &self.names[nt as usize]
    }
    pub fn term(&self, t: Term) -> &str {
        &self.terms[t as usize]
    }
}

/// Horizontal separators: `true` = one space before token i when it is on the line of token i-1.
pub fn separators(s: &Syms, t: &Tree) -> Vec<bool> {
    #[derive(Clone, Copy, Default)]
    struct Ctx {
        tight_before: bool,
        tight_after: bool,
        oel: bool,
    }
    let mut ctx: Vec<(Ctx, Term)> = vec![(Ctx::default(), 0); t.hi];
    fn go(s: &Syms, t: &Tree, parent: &str, pos: usize, parent_first_tok: bool, out: &mut Vec<(Ctx, Term)>) {
        let name = s.name(t.nt);
        for (i, k) in t.kids.iter().enumerate() {
            match k {
                TK::N(c) => go(s, c, name, i, matches!(t.kids[0], TK::T(..)), out),
                TK::T(term, idx) => {
                    let mut c = Ctx::default();
                    match s.term(*term) {
                        "(" | "[" | "{" => {
                            // opening brackets hug what they apply to, except an operand, the parenthesised left-hand
                            // side of a statement, and the modification of an annotation
                            c.tight_before = !(name == "Primary" && i == 0
                                || name == "Statement"
                                || name == "ClassModification" && parent == "AnnotationClause");
                            c.tight_after = true;
                        }
                        ")" | "]" | "}" | ";" | "," => c.tight_before = true,
                        "." => {
                            let leading = matches!(name, "TypeSpecifier" | "ComponentReference") && i == 0;
                            c.tight_before = !leading;
                            c.tight_after = true;
                        }
                        ".*" if name == "ImportClause" => c.tight_before = true,
                        "+" | "-" | ".+" | ".-" if name == "AddOperator" && parent == "ArithmeticExpression" && pos == 0 => {
                            c.tight_after = true
                        }
                        _ => {}
                    }
                    if name == "OutputExpressionList" {
                        c.oel = true;
                    }
                    out[*idx] = (c, *term);
                }
            }
        }
        let _ = parent_first_tok;
    }
    go(s, t, "", 0, false, &mut ctx);
    let mut sep = vec![false; t.hi];
    for i in 1..t.hi {
        let (p, n) = (&ctx[i - 1], &ctx[i]);
        let (pt, nt) = (s.term(p.1), s.term(n.1));
        sep[i] = if pt == "," || pt == ";" {
            true
        } else if nt == "," && n.0.oel && pt == "(" {
            true
        } else if nt == ";" && pt == "within" {
            true
        } else {
            !(p.0.tight_after || n.0.tight_before)
        };
    }
    sep
}

pub struct Model<'a> {
    s: &'a Syms,
    lines: &'a [(usize, usize)],
    pub gaps: Vec<Gap>,
    lvl: usize,
    wrapped: bool,
}

impl<'a> Model<'a> {
    pub fn run(s: &'a Syms, t: &Tree, lines: &'a [(usize, usize)]) -> Vec<Gap> {
        let none = Gap { cat: Cat::Never, brk: false, blank: Blank::Illegal, lvl: 0, forced: false };
        let mut m = Model { s, lines, gaps: vec![none; t.hi], lvl: 0, wrapped: false };
        m.walk(t);
        m.gaps
    }
    fn ml(&self, t: &Tree) -> bool {
        self.lines[t.lo].0 < self.lines[t.hi - 1].1
    }
    fn mlr(&self, lo: usize, hi: usize) -> bool {
        self.lines[hi].0 > self.lines[lo].0
    }
    fn set(&mut self, i: usize, cat: Cat, brk: bool, blank: Blank) {
        self.gaps[i] = Gap { cat, brk, blank, lvl: self.lvl, forced: false };
    }
    fn mand(&mut self, i: usize, blank: Blank) {
        self.set(i, Cat::Mand, true, blank);
    }
    /// constructs that always contain a line break in the output
    fn holds_mand(&self, t: &Tree) -> bool {
        t.kids.iter().any(|k| match k {
            TK::N(c) => {
                matches!(self.s.name(c.nt), "DescriptionString" | "Description" | "ConstrainingClause")
                    || self.holds_mand(c)
            }
            _ => false,
        })
    }
    fn inner(&mut self, d: usize, f: impl FnOnce(&mut Self)) {
        self.lvl += d;
        f(self);
        self.lvl -= d;
    }
    fn walk_all(&mut self, t: &Tree) {
        for k in &t.kids {
            if let TK::N(c) = k {
                self.walk(c);
            }
        }
    }
    /// a part on its own line, one level deeper
    fn below(&mut self, c: &Tree) {
        self.inner(1, |m| {
            m.mand(c.lo, Blank::Illegal);
            m.walk(c);
        });
    }
    fn parens(&self, t: &Tree, open: &str, close: &str) -> Option<(usize, usize)> {
        let mut o = None;
        for k in &t.kids {
            if let TK::T(term, i) = k {
                if self.s.term(*term) == open {
                    o = Some(*i);
                } else if self.s.term(*term) == close {
                    return o.map(|o| (o, *i));
                }
            }
        }
        None
    }
    /// items of a list: each child node is an item
    fn items(&mut self, t: &Tree, multi: bool, skip_first: bool) {
        let mut first = true;
        let forced = multi && self.holds_mand(t);
        for k in &t.kids {
            if let TK::N(c) = k {
                if !(first && skip_first) {
                    self.set(c.lo, Cat::List, multi, Blank::Illegal);
                    self.gaps[c.lo].forced = forced;
                }
                first = false;
                self.walk(c);
            }
        }
    }
    /// arguments of calls and array constructors
    fn args(&mut self, t: &Tree, multi: bool) {
        let mut after_comma = false;
        for k in &t.kids {
            match k {
                TK::T(term, i) => match self.s.term(*term) {
                    "for" => self.set(*i, Cat::List, multi, Blank::Illegal),
                    "," => after_comma = true,
                    _ => {}
                },
                TK::N(c) => {
                    if after_comma {
                        self.set(c.lo, Cat::List, multi, Blank::Illegal);
                    }
                    after_comma = false;
                    match self.s.name(c.nt) {
                        "FunctionArguments" | "FunctionArgumentsNonFirst" | "NamedArguments" | "ArrayArguments"
                        | "ArrayArgumentsNonFirst" => self.args(c, multi),
                        _ => self.walk(c),
                    }
                }
            }
        }
    }
    /// value after `=` or `:=`
    fn value(&mut self, c: &Tree) {
        let is_if = self.first_is_if(c);
        if is_if {
            let ml = self.ml(c);
            self.inner(ml as usize, |m| {
                m.set(c.lo, Cat::Expr, ml, Blank::Illegal);
                m.walk(c);
            });
        } else {
            self.walk(c);
        }
    }
    fn first_is_if(&self, t: &Tree) -> bool {
        match &t.kids[0] {
            TK::T(term, _) => self.s.term(*term) == "if",
            TK::N(c) => self.first_is_if(c),
        }
    }
    fn scope(&mut self, f: impl FnOnce(&mut Self)) {
        let (l, w) = (self.lvl, self.wrapped);
        self.wrapped = false;
        f(self);
        self.lvl = l;
        self.wrapped = w;
    }
    fn operator(&mut self, op: usize, operand: usize) {
        let brk = self.lines[operand].0 > self.lines[op - 1].1;
        if brk && !self.wrapped {
            self.wrapped = true;
            self.lvl += 1;
        }
        self.set(op, Cat::Expr, brk, Blank::Illegal);
    }
    fn if_expression(&mut self, t: &Tree) {
        let ml = self.ml(t);
        let mut branch = false;
        for k in &t.kids {
            match k {
                TK::T(term, i) => {
                    let w = self.s.term(*term);
                    if w == "elseif" || w == "else" {
                        self.set(*i, Cat::Expr, ml, Blank::Illegal);
                    }
                    branch = w == "then" || w == "else";
                }
                TK::N(c) => {
                    if branch {
                        self.inner(1, |m| {
                            m.set(c.lo, Cat::Expr, ml, Blank::Illegal);
                            m.walk(c);
                        });
                    } else {
                        self.walk(c);
                    }
                }
            }
        }
    }

    fn walk(&mut self, t: &Tree) {
        let s = self.s;
        match s.name(t.nt) {
            // expressions
            "Expression" => self.scope(|m| m.expression_body(t)),
            "LogicalExpression" | "LogicalTerm" | "Relation" | "ArithmeticExpression" | "Term" | "Factor" => {
                for (i, k) in t.kids.iter().enumerate() {
                    let next = t.kids.get(i + 1).map(|n| match n {
                        TK::T(_, j) => *j,
                        TK::N(c) => c.lo,
                    });
                    match k {
                        TK::T(_, op) => self.operator(*op, next.unwrap()),
                        TK::N(c) => {
                            if i > 0 && matches!(s.name(c.nt), "RelationalOperator" | "AddOperator" | "MulOperator") {
                                self.operator(c.lo, next.unwrap());
                            } else {
                                self.walk(c);
                            }
                        }
                    }
                }
            }
            "Primary" => {
                let first = match &t.kids[0] {
                    TK::T(term, _) => s.term(*term),
                    _ => "",
                };
                match first {
                    "(" => {
                        for k in &t.kids {
                            if let TK::N(c) = k {
                                if s.name(c.nt) == "OutputExpressionList" {
                                    self.output_list(c);
                                } else {
                                    self.walk(c);
                                }
                            }
                        }
                    }
                    "[" => {
                        let ml = self.ml(t);
                        let rows = t.kids.iter().filter(|k| matches!(k, TK::N(_))).count();
                        self.inner(1, |m| {
                            for k in &t.kids {
                                if let TK::N(c) = k {
                                    m.set(c.lo, Cat::List, ml, Blank::Illegal);
                                    let row = rows == 1 && ml || m.ml(c);
                                    m.items(c, row, true);
                                }
                            }
                        });
                    }
                    "{" => {
                        let ml = self.ml(t);
                        self.inner(1, |m| {
                            if let TK::N(c) = &t.kids[1] {
                                m.set(c.lo, Cat::List, ml, Blank::Illegal);
                                m.args(c, ml);
                            }
                        });
                    }
                    _ => self.walk_all(t),
                }
            }
            "FunctionCallArgs" => {
                let ml = self.ml(t);
                if let TK::N(c) = &t.kids[1] {
                    self.inner(1, |m| {
                        m.set(c.lo, Cat::List, ml, Blank::Illegal);
                        m.args(c, ml);
                    });
                }
            }
            "FunctionPartialApplication" => {
                let (o, c) = self.parens(t, "(", ")").unwrap();
                let ml = self.mlr(o, c);
                for k in &t.kids {
                    if let TK::N(c) = k {
                        if s.name(c.nt) == "NamedArguments" {
                            self.inner(1, |m| {
                                m.set(c.lo, Cat::List, ml, Blank::Illegal);
                                m.args(c, ml);
                            });
                        } else {
                            self.walk(c);
                        }
                    }
                }
            }
            "NamedArgument" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        self.value(c);
                    }
                }
            }
            "ArraySubscripts" => {
                let ml = self.ml(t);
                self.inner(1, |m| m.items(t, ml, false));
            }
            "OutputExpressionList" => self.output_list(t),
            "ExpressionList" => {
                let ml = self.ml(t);
                self.items(t, ml, true);
            }
            // classes
            "StoredDefinition" => {
                let mut after_final = false;
                for k in &t.kids {
                    match k {
                        TK::T(term, i) => {
                            after_final = s.term(*term) == "final";
                            if after_final && *i > 0 {
                                self.mand(*i, Blank::Legal);
                            }
                        }
                        TK::N(c) => {
                            if s.name(c.nt) == "ClassDefinition" {
                                if !after_final && c.lo > 0 {
                                    self.mand(c.lo, Blank::Legal);
                                }
                                after_final = false;
                            }
                            self.walk(c);
                        }
                    }
                }
            }
            "LongClassSpecifier" => {
                for k in &t.kids {
                    match k {
                        TK::T(term, i) => {
                            if s.term(*term) == "end" {
                                self.mand(*i, Blank::Required);
                            }
                        }
                        TK::N(c) => {
                            if s.name(c.nt) == "DescriptionString" {
                                self.below(c);
                            } else {
                                self.walk(c);
                            }
                        }
                    }
                }
            }
            "ShortClassSpecifier" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        match s.name(c.nt) {
                            "EnumList" => {
                                let (o, e) = self.parens(t, "(", ")").unwrap();
                                let multi = self.mlr(o, e) || self.holds_mand(c) || self.ml(c);
                                self.inner(1, |m| m.items(c, multi, false));
                            }
                            "Description" => self.below(c),
                            _ => self.walk(c),
                        }
                    }
                }
            }
            "EnumList" => {
                let multi = self.ml(t) || self.holds_mand(t);
                self.items(t, multi, true);
            }
            "DerClassSpecifier" => {
                let (o, e) = self.parens(t, "(", ")").unwrap();
                let multi = self.mlr(o, e);
                for k in &t.kids {
                    match k {
                        TK::T(term, i) => {
                            if s.term(*term) == "IDENT" && *i > o {
                                self.inner(1, |m| m.set(*i, Cat::List, multi, Blank::Illegal));
                            }
                        }
                        TK::N(c) => match s.name(c.nt) {
                            "TypeSpecifier" => self.inner(1, |m| {
                                m.set(c.lo, Cat::List, multi, Blank::Illegal);
                                m.walk(c);
                            }),
                            _ => self.below(c),
                        },
                    }
                }
            }
            "EnumerationLiteral" | "ComponentDeclaration" | "ComponentDeclaration1" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        if s.name(c.nt) == "Description" {
                            self.below(c);
                        } else {
                            self.walk(c);
                        }
                    }
                }
            }
            "ElementModification" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        if s.name(c.nt) == "DescriptionString" {
                            self.below(c);
                        } else {
                            self.walk(c);
                        }
                    }
                }
            }
            "Description" => {
                for (i, k) in t.kids.iter().enumerate() {
                    if let TK::N(c) = k {
                        if i > 0 {
                            self.mand(c.lo, Blank::Illegal);
                        }
                        self.walk(c);
                    }
                }
            }
            "DescriptionString" => {
                let ml = self.ml(t);
                self.inner(1, |m| {
                    for k in &t.kids {
                        if let TK::T(term, i) = k {
                            if s.term(*term) == "+" {
                                m.set(*i, Cat::List, ml, Blank::Illegal);
                            }
                        }
                    }
                });
            }
            "Composition" => self.composition(t),
            "ElementList" => {
                let mut first = true;
                for k in &t.kids {
                    if let TK::N(c) = k {
                        if !first {
                            self.mand(c.lo, Blank::Legal);
                        }
                        first = false;
                        self.walk(c);
                    }
                }
            }
            "Element" | "ElementReplaceable" | "ExtendsClause" | "ImportClause" => {
                let import = s.name(t.nt) == "ImportClause";
                for k in &t.kids {
                    if let TK::N(c) = k {
                        match s.name(c.nt) {
                            "ConstrainingClause" | "Description" | "AnnotationClause" => self.below(c),
                            "ImportList" if import => {
                                let (o, e) = self.parens(t, "{", "}").unwrap();
                                let multi = self.mlr(o, e);
                                self.inner(1, |m| {
                                    for k in &c.kids {
                                        if let TK::T(term, i) = k {
                                            if s.term(*term) == "IDENT" {
                                                m.set(*i, Cat::List, multi, Blank::Illegal);
                                            }
                                        }
                                    }
                                });
                            }
                            _ => self.walk(c),
                        }
                    }
                }
            }
            "ClassModification" | "ClassOrInheritanceModification" => {
                let multi = self.ml(t) || self.holds_mand(t);
                if let TK::N(c) = &t.kids[1] {
                    self.inner(1, |m| m.items(c, multi, false));
                }
            }
            "ComponentList" => {
                let n = t.kids.iter().filter(|k| matches!(k, TK::N(_))).count();
                if n > 1 {
                    let multi = self.ml(t) || self.holds_mand(t);
                    self.inner(multi as usize, |m| m.items(t, multi, false));
                } else {
                    self.walk_all(t);
                }
            }
            "Modification" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        if s.name(c.nt) == "ModificationExpression" {
                            self.value(c);
                        } else {
                            self.walk(c);
                        }
                    }
                }
            }
            // equations and statements
            "EquationSection" | "AlgorithmSection" => {
                let mut first = true;
                self.inner(1, |m| {
                    for k in &t.kids {
                        if let TK::N(c) = k {
                            m.mand(c.lo, if first { Blank::Required } else { Blank::Legal });
                            first = false;
                            m.walk(c);
                        }
                    }
                });
            }
            "Equation" | "Statement" => {
                for k in &t.kids {
                    if let TK::N(c) = k {
                        match s.name(c.nt) {
                            "SimpleExpression" => self.scope(|m| m.walk_all(c)),
                            "OutputExpressionList" => self.scope(|m| m.output_list(c)),
                            "Expression" => self.value(c),
                            "Description" => self.below(c),
                            _ => self.walk(c),
                        }
                    }
                }
            }
            "IfEquation" | "IfStatement" | "ForEquation" | "ForStatement" | "WhileStatement" | "WhenEquation"
            | "WhenStatement" => {
                for (i, k) in t.kids.iter().enumerate() {
                    match k {
                        TK::T(term, j) => {
                            if i > 0 && matches!(s.term(*term), "elseif" | "else" | "elsewhen" | "end") {
                                self.mand(*j, Blank::Legal);
                            }
                        }
                        TK::N(c) => {
                            if matches!(s.name(c.nt), "Equation" | "Statement") {
                                self.inner(1, |m| {
                                    m.mand(c.lo, Blank::Legal);
                                    m.walk(c);
                                });
                            } else {
                                self.walk(c);
                            }
                        }
                    }
                }
            }
            "ConnectEquation" => {
                let ml = self.ml(t);
                self.inner(1, |m| m.items(t, ml, false));
            }
            _ => self.walk_all(t),
        }
    }
    fn expression_body(&mut self, t: &Tree) {
        if matches!(t.kids[0], TK::T(..)) {
            self.if_expression(t);
        } else {
            self.walk_all(t);
        }
    }
    /// expressions in parentheses share the wrapping scope of the expression around them
    fn output_list(&mut self, t: &Tree) {
        for k in &t.kids {
            if let TK::N(c) = k {
                self.expression_body(c);
            }
        }
    }
    fn composition(&mut self, t: &Tree) {
        let s = self.s;
        let mut external = false;
        for k in &t.kids {
            match k {
                TK::T(term, i) => match s.term(*term) {
                    "public" | "protected" => self.mand(*i, Blank::Required),
                    "external" => {
                        external = true;
                        self.mand(*i, Blank::Required);
                    }
                    ";" => external = false,
                    _ => {}
                },
                TK::N(c) => match s.name(c.nt) {
                    "ElementList" => self.inner(1, |m| {
                        m.mand(c.lo, Blank::Required);
                        m.walk(c);
                    }),
                    "EquationSection" | "AlgorithmSection" => {
                        self.mand(c.lo, Blank::Required);
                        self.walk(c);
                    }
                    "ExternalFunctionCall" => self.inner(1, |m| {
                        m.mand(c.lo, Blank::Required);
                        let (o, e) = m.parens(c, "(", ")").unwrap();
                        let multi = m.mlr(o, e);
                        m.inner(1, |m| {
                            for k in &c.kids {
                                if let TK::N(d) = k {
                                    if s.name(d.nt) == "ExpressionList" {
                                        m.set(d.lo, Cat::List, multi, Blank::Illegal);
                                        let row = multi || m.ml(d);
                                        m.items(d, row, true);
                                    } else {
                                        m.walk(d);
                                    }
                                }
                            }
                        });
                    }),
                    "AnnotationClause" => self.inner(if external { 2 } else { 1 }, |m| {
                        m.mand(c.lo, if external { Blank::Illegal } else { Blank::Required });
                        m.walk(c);
                    }),
                    _ => self.walk(c),
                },
            }
        }
    }
}
