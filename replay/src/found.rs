//! The display text this tree is known to produce for the queries it displays wrongly
//! (known-findings.txt, C19).
use crate::ast::*;
use crate::eval;

/// d is the wrong text that is known for q
pub fn known_display(q: &Query, d: &str) -> bool {
    let mut bad = false;
    let t = query(q, &mut bad);
    bad && t == d
}
fn quoted(s: &str, bad: &mut bool) -> String {
    if s.chars().any(|c| c < ' ' || c == '\'' || c == '\\') {
        *bad = true;
    }
    format!("'{s}'")
}
fn lit(l: &Lit, bad: &mut bool) -> String {
    match l {
        Lit::Str(s) => quoted(s, bad),
        Lit::Num(_) => {
            // serde_json does not read back every float that it writes
            let v = eval::lit(l).to_string();
            if serde_json::from_str::<serde_json::Value>(&v).ok() != Some(eval::lit(l)) {
                *bad = true;
            }
            v
        }
        l => eval::lit(l).to_string(),
    }
}
fn query(q: &Query, bad: &mut bool) -> String {
    let mut o = String::from(if q.root { "$" } else { "@" });
    for s in &q.segs {
        if s.desc {
            o.push_str("..");
            if s.short {
                *bad = true;
            }
        }
        if s.short {
            match &s.sels[0] {
                Sel::Name(n) => {
                    o.push('.');
                    o.push_str(n);
                }
                _ => o.push_str(".*"),
            }
        } else {
            let v: Vec<String> = s.sels.iter().map(|x| sel(x, bad)).collect();
            o.push_str(&format!("[{}]", v.join(",")));
        }
    }
    o
}
fn sel(s: &Sel, bad: &mut bool) -> String {
    let n = |x: &Option<i64>| x.map_or(String::new(), |x| x.to_string());
    match s {
        Sel::Name(k) => quoted(k, bad),
        Sel::Wild => "*".into(),
        Sel::Index(i) => i.to_string(),
        Sel::Slice(a, b, c) => format!("{}:{}:{}", n(a), n(b), n(c)),
        Sel::Filter(e) => format!("?{}", expr(e, bad)),
    }
}
fn singular(q: &Query, bad: &mut bool) -> String {
    let mut o = String::from(if q.root { "$" } else { "@" });
    for s in &q.segs {
        o.push_str(&format!("[{}]", sel(&s.sels[0], bad)));
    }
    o
}
fn operand(x: &Operand, bad: &mut bool) -> String {
    match x {
        Operand::Lit(l) => lit(l, bad),
        Operand::Sq(q) => singular(q, bad),
        Operand::Func(f) => func(f, bad),
    }
}
fn func(f: &Func, bad: &mut bool) -> String {
    let v: Vec<String> = f
        .args
        .iter()
        .map(|a| match a {
            Arg::Lit(l) => lit(l, bad),
            Arg::Query(q) if q.is_singular() => singular(q, bad),
            Arg::Query(q) => query(q, bad),
            Arg::Func(f) => func(f, bad),
            Arg::Expr(e) => expr(e, bad),
        })
        .collect();
    format!("{}({})", f.name, v.join(","))
}
fn expr(e: &Expr, bad: &mut bool) -> String {
    let join = |v: &[Expr], s: &str, bad: &mut bool| v.iter().map(|x| expr(x, bad)).collect::<Vec<_>>().join(s);
    match e {
        Expr::Or(v) => join(v, " || ", bad),
        Expr::And(v) => join(v, " && ", bad),
        Expr::Paren(x) => format!("({})", expr(x, bad)),
        Expr::Not(x) => match &**x {
            Expr::Func(f) => {
                *bad = true;
                func(f, bad)
            }
            x => format!("!{}", expr(x, bad)),
        },
        Expr::Cmp(op, a, b) => {
            let o = match op {
                Cmp::Eq => "==",
                Cmp::Ne => "!=",
                Cmp::Lt => "<",
                Cmp::Gt => ">",
                Cmp::Le => "<=",
                Cmp::Ge => ">=",
            };
            format!("{}{o}{}", operand(a, bad), operand(b, bad))
        }
        Expr::Exist(q) => query(q, bad),
        Expr::Func(f) => func(f, bad),
    }
}
