//! Reference semantics of RFC 9535 over serde_json values, independent of the crate under test.
use crate::ast::*;
use serde_json::{Map, Number, Value};
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum PE {
    N(String),
    I(usize),
}
#[derive(Debug, Clone)]
pub struct Node<'a> {
    pub path: Vec<PE>,
    pub v: &'a Value,
}
pub fn children<'a>(n: &Node<'a>) -> Vec<Node<'a>> {
    let mk = |pe: PE, v: &'a Value| {
        let mut path = n.path.clone();
        path.push(pe);
        Node { path, v }
    };
    match n.v {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| mk(PE::I(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| mk(PE::N(k.clone()), v)).collect(),
        _ => vec![],
    }
}
pub fn slice_indices(len: i128, s: Option<i64>, e: Option<i64>, st: Option<i64>) -> Vec<i128> {
    let step = st.unwrap_or(1) as i128;
    if step == 0 {
        return vec![];
    }
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ds, de) = if step > 0 { (0, len) } else { (len - 1, -len - 1) };
    let ns = norm(s.map_or(ds, |x| x as i128));
    let ne = norm(e.map_or(de, |x| x as i128));
    let mut out = vec![];
    if step > 0 {
        let lower = ns.max(0).min(len);
        let upper = ne.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i);
            i += step;
        }
    } else {
        let upper = ns.max(-1).min(len - 1);
        let lower = ne.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i);
            i += step;
        }
    }
    out
}
pub fn sel<'a>(s: &Sel, n: &Node<'a>, root: &'a Value, out: &mut Vec<Node<'a>>) {
    match s {
        Sel::Name(k) => {
            if n.v.is_object() {
                out.extend(children(n).into_iter().filter(|c| c.path.last() == Some(&PE::N(k.clone()))));
            }
        }
        Sel::Wild => out.extend(children(n)),
        Sel::Index(i) => {
            if n.v.is_array() {
                let cs = children(n);
                let l = cs.len() as i128;
                let k = if *i < 0 { l + *i as i128 } else { *i as i128 };
                if k >= 0 && k < l {
                    out.push(cs[k as usize].clone());
                }
            }
        }
        Sel::Slice(a, b, c) => {
            if n.v.is_array() {
                let cs = children(n);
                for i in slice_indices(cs.len() as i128, *a, *b, *c) {
                    out.push(cs[i as usize].clone());
                }
            }
        }
        Sel::Filter(e) => {
            for c in children(n) {
                if truth(e, c.v, root) {
                    out.push(c);
                }
            }
        }
    }
}
fn seg_at<'a>(s: &Seg, n: &Node<'a>, root: &'a Value, out: &mut Vec<Node<'a>>) {
    for x in &s.sels {
        sel(x, n, root, out);
    }
    if s.desc {
        for c in children(n) {
            seg_at(s, &c, root, out);
        }
    }
}
pub fn query<'a>(q: &Query, cur: &'a Value, root: &'a Value) -> Vec<Node<'a>> {
    let mut ns = vec![Node { path: vec![], v: if q.root { root } else { cur } }];
    for s in &q.segs {
        let mut out = vec![];
        for n in &ns {
            seg_at(s, n, root, &mut out);
        }
        ns = out;
    }
    ns
}
/// Which known findings (known-findings.txt) the reference reproduces: 1 order, 2 nested equality,
/// 4 negative indices of singular queries. 0 is RFC 9535.
pub static FOUND: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
fn found(bit: u8) -> bool {
    FOUND.load(std::sync::atomic::Ordering::Relaxed) & bit != 0
}
/// the value of a singular query
fn singular<'a>(q: &Query, cur: &'a Value, root: &'a Value) -> Vec<Node<'a>> {
    if found(4) && q.segs.iter().any(|s| matches!(s.sels[0], Sel::Index(i) if i < 0)) {
        return vec![];
    }
    query(q, cur, root)
}
fn same_type(a: &Value, b: &Value) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}
pub fn num_eq(a: &Number, b: &Number) -> bool {
    a.as_f64() == b.as_f64()
}
pub fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => num_eq(x, y),
        (Value::String(x), Value::String(y)) => x.chars().eq(y.chars()),
        (Value::Array(_) | Value::Object(_), _) if found(2) => a == b,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| get(y, k).map_or(false, |q| eq(p, q)))
        }
        _ => false,
    }
}
fn get<'a>(m: &'a Map<String, Value>, k: &str) -> Option<&'a Value> {
    m.iter().find(|(x, _)| x.as_str() == k).map(|(_, v)| v)
}
pub fn lt(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64().unwrap() < y.as_f64().unwrap(),
        (Value::String(x), Value::String(y)) => x.chars().lt(y.chars()),
        _ => false,
    }
}
pub fn cmp(op: Cmp, a: Option<&Value>, b: Option<&Value>) -> bool {
    let e = match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    };
    let l = |a: Option<&Value>, b: Option<&Value>| match (a, b) {
        (Some(a), Some(b)) => lt(a, b),
        _ => false,
    };
    if found(1) {
        let same = matches!((a, b), (Some(a), Some(b)) if same_type(a, b));
        match op {
            Cmp::Gt => return same && !l(a, b) && !e,
            Cmp::Le => return same && (l(a, b) || e),
            Cmp::Ge => return same && !l(a, b),
            _ => {}
        }
    }
    match op {
        Cmp::Eq => e,
        Cmp::Ne => !e,
        Cmp::Lt => l(a, b),
        Cmp::Gt => l(b, a),
        Cmp::Le => l(a, b) || e,
        Cmp::Ge => l(b, a) || e,
    }
}
pub fn lit(l: &Lit) -> Value {
    match l {
        Lit::Num(t) => serde_json::from_str(&if let Some(r) = t.strip_prefix("-0") {
            if r.is_empty() { "-0.0".to_string() } else { t.clone() }
        } else {
            t.clone()
        })
        .unwrap(),
        Lit::Str(s) => Value::String(s.clone()),
        Lit::Bool(b) => Value::Bool(*b),
        Lit::Null => Value::Null,
    }
}
#[derive(Debug, Clone)]
pub enum JV<'a> {
    Val(Option<Value>),
    Nodes(Vec<&'a Value>),
    Log(bool),
}
pub fn arg<'a>(a: &Arg, want: Ty, cur: &'a Value, root: &'a Value) -> JV<'a> {
    match a {
        Arg::Lit(l) => JV::Val(Some(lit(l))),
        Arg::Query(q) => {
            let ns = if q.is_singular() { singular(q, cur, root) } else { query(q, cur, root) };
            match want {
                Ty::V => JV::Val(ns.first().map(|n| n.v.clone())),
                Ty::L => JV::Log(!ns.is_empty()),
                Ty::N => JV::Nodes(ns.iter().map(|n| n.v).collect()),
            }
        }
        Arg::Func(f) => match (func(f, cur, root), want) {
            (JV::Nodes(n), Ty::L) => JV::Log(!n.is_empty()),
            (x, _) => x,
        },
        Arg::Expr(e) => JV::Log(truth(e, cur, root)),
    }
}
pub fn func<'a>(f: &Func, cur: &'a Value, root: &'a Value) -> JV<'a> {
    let (ps, _) = sig(&f.name).unwrap();
    let mut a: Vec<JV<'a>> = f.args.iter().zip(ps).map(|(a, t)| arg(a, *t, cur, root)).collect();
    let nodes = |j: &JV<'a>| match j {
        JV::Nodes(n) => n.clone(),
        x => panic!("oracle: {x:?}"),
    };
    let val = |j: &JV<'a>| match j {
        JV::Val(v) => v.clone(),
        x => panic!("oracle: {x:?}"),
    };
    let log = |j: &JV<'a>| match j {
        JV::Log(v) => *v,
        x => panic!("oracle: {x:?}"),
    };
    match f.name.as_str() {
        "length" => JV::Val(match val(&a[0]) {
            Some(Value::String(s)) => Some(s.chars().count().into()),
            Some(Value::Array(x)) => Some(x.len().into()),
            Some(Value::Object(x)) => Some(x.len().into()),
            _ => None,
        }),
        "count" => JV::Val(Some(nodes(&a[0]).len().into())),
        "value" => {
            let n = nodes(&a[0]);
            JV::Val(if n.len() == 1 { Some(n[0].clone()) } else { None })
        }
        "match" | "search" => match (val(&a[0]), val(&a[1])) {
            (Some(Value::String(s)), Some(Value::String(r))) => JV::Log(re(&s, &r, f.name == "match")),
            _ => JV::Log(false),
        },
        "vv" | "nn" | "nullify" | "false" => a.remove(0),
        "ll" => JV::Log(!log(&a[0])),
        "vl" | "f" => JV::Log(val(&a[0]).is_some()),
        "nl" => JV::Log(nodes(&a[0]).len() == 2),
        "lv" => JV::Val(Some(Value::Bool(log(&a[0])))),
        "vn_3" => JV::Log((nodes(&a[0]).len() == 1) == (val(&a[1]).is_some() && log(&a[2]))),
        "wide" => {
            // each argument counts once, in a place of its own
            let mut t = 0u64;
            for (i, x) in a.iter().enumerate() {
                let d = match x {
                    JV::Val(v) => match v {
                        None => 0,
                        Some(Value::Number(n)) => 1 + n.as_u64().unwrap_or(0) % 5,
                        Some(_) => 6,
                    },
                    JV::Nodes(n) => n.len().min(7) as u64,
                    JV::Log(b) => *b as u64,
                };
                t += d * 8u64.pow(i as u32);
            }
            JV::Val(Some(t.into()))
        }
        "vv2" => {
            let (x, y) = (val(&a[0]), val(&a[1]));
            JV::Val(x.or(y))
        }
        "true_1" => JV::Log(true),
        "zero" => JV::Val(Some(0.into())),
        _ => unreachable!(),
    }
}
/// the pattern must be valid on its own; `.` does not match CR or LF (RFC 9485)
pub fn re(s: &str, r: &str, whole: bool) -> bool {
    if regex::Regex::new(r).is_err() {
        return false;
    }
    let p = if whole { format!("(?R)\\A(?:{r})\\z") } else { format!("(?R)(?:{r})") };
    regex::Regex::new(&p).map_or(false, |x| x.is_match(s))
}
pub fn operand(o: &Operand, cur: &Value, root: &Value) -> Option<Value> {
    match o {
        Operand::Lit(l) => Some(lit(l)),
        Operand::Sq(q) => {
            let r = singular(q, cur, root);
            assert!(r.len() <= 1);
            r.first().map(|n| n.v.clone())
        }
        Operand::Func(f) => match func(f, cur, root) {
            JV::Val(v) => v,
            x => panic!("oracle: {x:?}"),
        },
    }
}
pub fn truth(e: &Expr, cur: &Value, root: &Value) -> bool {
    match e {
        Expr::Or(v) => v.iter().any(|x| truth(x, cur, root)),
        Expr::And(v) => v.iter().all(|x| truth(x, cur, root)),
        Expr::Not(x) => !truth(x, cur, root),
        Expr::Paren(x) => truth(x, cur, root),
        Expr::Cmp(op, a, b) => cmp(*op, operand(a, cur, root).as_ref(), operand(b, cur, root).as_ref()),
        Expr::Exist(q) => !query(q, cur, root).is_empty(),
        Expr::Func(f) => match func(f, cur, root) {
            JV::Log(b) => b,
            JV::Nodes(n) => !n.is_empty(),
            x => panic!("oracle: {x:?}"),
        },
    }
}
pub fn resolve<'a>(root: &'a Value, p: &[PE]) -> Option<&'a Value> {
    let mut v = root;
    for e in p {
        v = match (e, v) {
            (PE::N(k), Value::Object(o)) => get(o, k)?,
            (PE::I(i), Value::Array(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}
/// RFC 9535 section 2.7 normalized path
pub fn normal(p: &[PE]) -> String {
    let mut s = String::from("$");
    for e in p {
        match e {
            PE::I(i) => s.push_str(&format!("[{i}]")),
            PE::N(n) => {
                s.push_str("['");
                for c in n.chars() {
                    match c {
                        '\u{8}' => s.push_str("\\b"),
                        '\t' => s.push_str("\\t"),
                        '\n' => s.push_str("\\n"),
                        '\u{c}' => s.push_str("\\f"),
                        '\r' => s.push_str("\\r"),
                        '\'' => s.push_str("\\'"),
                        '\\' => s.push_str("\\\\"),
                        c if (c as u32) < 0x20 => s.push_str(&format!("\\u{:04x}", c as u32)),
                        c => s.push(c),
                    }
                }
                s.push_str("']");
            }
        }
    }
    s
}
/// RFC 6901 resolution
pub fn pointer<'a>(root: &'a Value, p: &str) -> Option<&'a Value> {
    if p.is_empty() {
        return Some(root);
    }
    let mut it = p.split('/');
    if it.next() != Some("") {
        return None;
    }
    let mut v = root;
    for t in it {
        // RFC 6901: "~" stands only before "0" and "1"
        if t.split('~').skip(1).any(|p| !p.starts_with(['0', '1'])) {
            return None;
        }
        let t = t.replace("~1", "/").replace("~0", "~");
        v = match v {
            Value::Object(o) => get(o, &t)?,
            Value::Array(a) => {
                if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) || (t.len() > 1 && t.starts_with('0')) {
                    return None;
                }
                a.get(t.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(v)
}
