//! Oracle AST (independent of the crate under test).
#[derive(Debug, Clone, PartialEq)]
pub struct Query {
    pub root: bool,
    pub segs: Vec<Seg>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Seg {
    pub desc: bool,
    /// written in shorthand notation
    pub short: bool,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sel {
    Name(String),
    Wild,
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Filter(Expr),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Paren(Box<Expr>),
    Cmp(Cmp, Operand, Operand),
    Exist(Query),
    Func(Func),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Operand {
    Lit(Lit),
    Sq(Query),
    Func(Func),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Lit {
    Num(String),
    Str(String),
    Bool(bool),
    Null,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Func {
    pub name: String,
    pub args: Vec<Arg>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Arg {
    Lit(Lit),
    Query(Query),
    Func(Func),
    Expr(Expr),
}
impl Query {
    pub fn is_singular(&self) -> bool {
        self.segs.iter().all(|s| {
            !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
        })
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    V,
    L,
    N,
}
/// signatures of all functions known in the replay binary
pub const FUNCS: &[(&str, &[Ty], Ty)] = &[
    ("length", &[Ty::V], Ty::V),
    ("count", &[Ty::N], Ty::V),
    ("value", &[Ty::N], Ty::V),
    ("match", &[Ty::V, Ty::V], Ty::L),
    ("search", &[Ty::V, Ty::V], Ty::L),
    ("vv", &[Ty::V], Ty::V),
    ("nn", &[Ty::N], Ty::N),
    ("ll", &[Ty::L], Ty::L),
    ("vl", &[Ty::V], Ty::L),
    ("nl", &[Ty::N], Ty::L),
    ("lv", &[Ty::L], Ty::V),
    ("vn_3", &[Ty::N, Ty::V, Ty::L], Ty::L),
    ("wide", &[Ty::V, Ty::N, Ty::L, Ty::V, Ty::N, Ty::L, Ty::V, Ty::N, Ty::L, Ty::V, Ty::L, Ty::V], Ty::V),
    ("vv2", &[Ty::V, Ty::V], Ty::V),
    ("zero", &[], Ty::V),
    ("f", &[Ty::V], Ty::L),
    ("nullify", &[Ty::V], Ty::V),
    ("true_1", &[], Ty::L),
    ("false", &[Ty::N], Ty::N),
];
pub fn sig(name: &str) -> Option<(&'static [Ty], Ty)> {
    FUNCS.iter().find(|f| f.0 == name).map(|f| (f.1, f.2))
}
/// RFC 9535 section 2.4.3 for one argument
pub fn arg_ok(a: &Arg, t: Ty) -> bool {
    match (a, t) {
        (Arg::Lit(_), Ty::V) => true,
        (Arg::Lit(_), _) => false,
        (Arg::Query(q), Ty::V) => q.is_singular(),
        (Arg::Query(_), _) => true,
        (Arg::Func(f), t) => match sig(&f.name) {
            None => false,
            Some((_, r)) => r == t || (r == Ty::N && t == Ty::L),
        },
        (Arg::Expr(_), Ty::L) => true,
        (Arg::Expr(_), _) => false,
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum UseAs {
    Test,
    Value,
}
pub fn func_ok(f: &Func) -> bool {
    let Some((ps, _)) = sig(&f.name) else { return false };
    ps.len() == f.args.len()
        && f.args.iter().zip(ps.iter()).all(|(a, t)| arg_ok(a, *t) && arg_inner_ok(a))
}
fn arg_inner_ok(a: &Arg) -> bool {
    match a {
        Arg::Lit(_) => true,
        Arg::Query(q) => query_ok(q),
        Arg::Func(f) => func_ok(f),
        Arg::Expr(e) => expr_ok(e),
    }
}
pub fn query_ok(q: &Query) -> bool {
    q.segs.iter().all(|s| {
        s.sels.iter().all(|s| match s {
            Sel::Filter(e) => expr_ok(e),
            _ => true,
        })
    })
}
pub fn expr_ok(e: &Expr) -> bool {
    match e {
        Expr::Or(v) | Expr::And(v) => v.iter().all(expr_ok),
        Expr::Not(e) | Expr::Paren(e) => expr_ok(e),
        Expr::Cmp(_, a, b) => [a, b].into_iter().all(|o| match o {
            Operand::Lit(_) => true,
            Operand::Sq(q) => q.is_singular(),
            Operand::Func(f) => func_ok(f) && sig(&f.name).unwrap().1 == Ty::V,
        }),
        Expr::Exist(q) => query_ok(q),
        Expr::Func(f) => func_ok(f) && sig(&f.name).unwrap().1 != Ty::V,
    }
}
