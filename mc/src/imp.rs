//! The implementation under check, through its public interface, with panics turned into values.
#[cfg(feature = "tree")]
use mofmt::build_tree;
use mofmt::{parse, pretty_print, SyntaxKind};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST.with(|l| *l.borrow_mut() = s);
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub enum Fmt {
    Ok(String),
    Rejected(Vec<String>),
    Panic(String),
}

pub fn format_as(src: &str, entry: SyntaxKind) -> Fmt {
    let r = guard(|| {
        let p = parse("none", src, entry);
        if p.errors.is_empty() {
            Ok(pretty_print(p.tokens, p.comments, p.events))
        } else {
            Err(p.errors)
        }
    });
    match r {
        Ok(Ok(s)) => Fmt::Ok(s),
        Ok(Err(e)) => Fmt::Rejected(e),
        Err(p) => Fmt::Panic(p),
    }
}
pub fn format(src: &str) -> Fmt {
    format_as(src, SyntaxKind::StoredDefinition)
}
/// Errors only.
pub fn errors(name: &str, src: &str, entry: SyntaxKind) -> Result<Vec<String>, String> {
    guard(|| parse(name, src, entry).errors)
}

/// The parse tree as a preorder listing: `Some(name)` enter, `None` exit; tokens by text.
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Ev {
    Enter(String),
    Exit,
    Tok(String),
}
#[cfg(feature = "tree")]
pub fn tree(src: &str, entry: SyntaxKind) -> Result<Result<Vec<Ev>, Vec<String>>, String> {
    fn go(t: &mofmt::Tree, out: &mut Vec<Ev>) {
        out.push(Ev::Enter(format!("{:?}", t.kind)));
        for c in &t.children {
            match c {
                mofmt::Child::Tree(t) => go(t, out),
                mofmt::Child::Token(k) => out.push(Ev::Tok(k.text.clone())),
            }
        }
        out.push(Ev::Exit);
    }
    guard(|| {
        let p = parse("none", src, entry);
        if !p.errors.is_empty() {
            return Err(p.errors);
        }
        let t = build_tree(p.tokens, p.events);
        let mut v = vec![];
        go(&t, &mut v);
        Ok(v)
    })
}
/// (Only the check of the tree needs the hook.)
#[cfg(not(feature = "tree"))]
pub fn tree(_: &str, _: SyntaxKind) -> Result<Result<Vec<Ev>, Vec<String>>, String> {
    panic!("built without the feature `tree`")
}

pub fn kind_by_name(n: &str) -> Option<SyntaxKind> {
    macro_rules! k { ($($x:ident)*) => { match n { $(stringify!($x) => Some(SyntaxKind::$x),)* _ => None } } }
    k!(StoredDefinition ClassDefinition ClassPrefixes ClassSpecifier LongClassSpecifier ShortClassSpecifier
       DerClassSpecifier BasePrefix EnumList EnumerationLiteral Composition LanguageSpecification ExternalFunctionCall
       ElementList Element ImportClause ImportList ExtendsClause ConstrainingClause ClassOrInheritanceModification
       ArgumentOrInheritanceModificationList InheritanceModification ComponentClause TypePrefix ComponentList
       ComponentDeclaration ConditionAttribute Declaration Modification ModificationExpression ClassModification
       ArgumentList Argument ElementModificationOrReplaceable ElementModification ElementRedeclaration
       ElementReplaceable ComponentClause1 ComponentDeclaration1 ShortClassDefinition EquationSection AlgorithmSection
       Equation Statement IfEquation IfStatement ForEquation ForStatement ForIndices ForIndex WhileStatement
       WhenEquation WhenStatement ConnectEquation Expression SimpleExpression LogicalExpression LogicalTerm
       LogicalFactor Relation RelationalOperator ArithmeticExpression AddOperator Term MulOperator Factor Primary
       TypeSpecifier Name ComponentReference ResultReference FunctionCallArgs FunctionArguments
       FunctionArgumentsNonFirst ArrayArguments ArrayArgumentsNonFirst NamedArguments NamedArgument FunctionArgument
       FunctionPartialApplication OutputExpressionList ExpressionList ArraySubscripts Subscript Description
       DescriptionString AnnotationClause)
}
