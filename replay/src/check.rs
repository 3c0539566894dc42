//! Executing one case of one property against the real crate.
use crate::ast::*;
use crate::eval::{self, Node, PE};
use crate::parse::{self, Fail};
use serde_json::Value;
use serde_json_path::{JsonPath, LocatedNodeList, NodeList, PathElement};
use serde_json_path_core::spec::integer::Integer;

pub type Out = Result<bool, String>;

fn s<'a>(c: &'a Value, k: &str) -> &'a str {
    c[k].as_str().unwrap_or("")
}
fn pe(l: &serde_json_path::NormalizedPath) -> Vec<PE> {
    l.iter()
        .map(|e| match e {
            PathElement::Name(n) => PE::N(n.to_string()),
            PathElement::Index(i) => PE::I(*i),
        })
        .collect()
}
fn same_nodes(exp: &[Node], got: &[&Value], what: &str) -> Result<(), String> {
    let e: Vec<&Value> = exp.iter().map(|n| n.v).collect();
    if e.len() != got.len() || e.iter().zip(got).any(|(a, b)| !std::ptr::eq(*a, *b)) {
        return Err(format!("{what}: expected {} got {}", show(&e), show(got)));
    }
    Ok(())
}
fn show(v: &[&Value]) -> String {
    serde_json::to_string(v).unwrap()
}
pub fn docs() -> Vec<Value> {
    use serde_json::json;
    vec![
        json!({"a": [1, 2, {"a": 1, "b": "x", "c": [1.0, null]}, [1, [2], {"b": 2}], "a"], "b": {"a": 1, "b": {"a": "b", "c": true}, "": 0}, "c": "a", "": 5, "0": [0], "it's": 1, "\"": 2, "\\": 3, "é": 4, "☺": 1}),
        json!([0, 1, "a", "b", true, false, null, 1.5, -1, [], {}, [1], {"a": 1}, {"a": 1, "b": 2}, {"a": {"b": 1}}, ["a", "b", "c"], {"b": [1, 2, 3]}, {"a": "b", "b": "a"}, {"a": null}, 10, 100]),
        json!(null),
        json!({"a": {"a": {"a": {"a": 1}}}, "b": [[[[1]]]]}),
    ]
}
/// documents made of the names and literals of a query
fn docs_for(q: &Query) -> Vec<Value> {
    #[derive(Default)]
    struct C {
        names: Vec<String>,
        lits: Vec<Value>,
        maxi: usize,
    }
    impl C {
        fn q(&mut self, q: &Query) {
            for x in q.segs.iter().flat_map(|s| &s.sels) {
                match x {
                    Sel::Name(n) => {
                        if !self.names.contains(n) {
                            self.names.push(n.clone())
                        }
                    }
                    Sel::Index(i) => self.maxi = self.maxi.max(i.unsigned_abs().min(70) as usize + 1),
                    Sel::Filter(e) => self.e(e),
                    _ => {}
                }
            }
        }
        fn lit(&mut self, l: &Lit) {
            let v = eval::lit(l);
            if !self.lits.contains(&v) {
                self.lits.push(v)
            }
        }
        fn o(&mut self, o: &Operand) {
            match o {
                Operand::Lit(l) => self.lit(l),
                Operand::Sq(q) => self.q(q),
                Operand::Func(f) => self.f(f),
            }
        }
        fn f(&mut self, f: &Func) {
            for a in &f.args {
                match a {
                    Arg::Lit(l) => self.lit(l),
                    Arg::Query(q) => self.q(q),
                    Arg::Func(f) => self.f(f),
                    Arg::Expr(e) => self.e(e),
                }
            }
        }
        fn e(&mut self, e: &Expr) {
            match e {
                Expr::Or(v) | Expr::And(v) => v.iter().for_each(|e| self.e(e)),
                Expr::Not(e) | Expr::Paren(e) => self.e(e),
                Expr::Cmp(_, a, b) => {
                    self.o(a);
                    self.o(b)
                }
                Expr::Exist(q) => self.q(q),
                Expr::Func(f) => self.f(f),
            }
        }
        fn doc(&self, obj: bool, depth: usize, k: &mut usize) -> Value {
            *k += 1;
            if depth == 0 {
                return self.lits[*k % self.lits.len()].clone();
            }
            if obj {
                self.names.iter().take(4).enumerate().map(|(i, n)| (n.clone(), self.doc(i % 3 != 2, depth - 1, k))).collect::<serde_json::Map<_, _>>().into()
            } else {
                (0..3).map(|i| self.doc(i % 3 != 2, depth - 1, k)).collect::<Vec<_>>().into()
            }
        }
    }
    let mut c = C::default();
    c.q(q);
    let chain = q.segs.iter().rev().try_fold(Value::from(7), |v, s| match s.sels.first() {
        // a chain that follows the first selectors
        Some(Sel::Name(n)) => Some(serde_json::json!({ n.as_str(): v, "z": 0 })),
        Some(Sel::Index(i)) => {
            let mut a = vec![Value::Null; i.unsigned_abs().min(70) as usize + 1];
            let n = a.len();
            a[if *i < 0 { n - (i.unsigned_abs() as usize).min(n) } else { n - 1 }] = v;
            Some(a.into())
        }
        _ => Some(serde_json::json!([v])),
    });
    c.lits.push(Value::from(c.names.len()));
    c.lits.push("a".into());
    let many = c.names.len().max(c.maxi);
    if c.names.is_empty() {
        c.names.push("a".into());
    }
    let mut out = docs();
    let mut k = 0;
    out.push(c.doc(true, 3, &mut k));
    out.push(c.doc(false, 3, &mut k));
    if many > 3 {
        out.push(c.names.iter().enumerate().map(|(i, n)| (n.clone(), Value::from(i))).collect::<serde_json::Map<_, _>>().into());
        out.push((0..many + 2).map(Value::from).collect::<Vec<_>>().into());
    }
    out.extend(chain);
    out
}
pub fn parse_real(t: &str) -> Result<JsonPath, serde_json_path::ParseError> {
    JsonPath::parse(t)
}
/// nodes and locations of the real evaluators against the oracle
fn diff(prop: &str, t: &str, doc: &Value) -> Out {
    let q = match parse::parse(t) {
        Ok(q) => q,
        Err(_) => return Ok(false),
    };
    let p = match parse_real(t) {
        Ok(p) => p,
        // acceptance is C17's and C11's business
        Err(e) if matches!(prop, "C11" | "C17") => return Err(format!("rejected: {e}")),
        Err(_) => return Ok(false),
    };
    let exp = eval::query(&q, doc, doc);
    let got = p.query(doc).all();
    same_nodes(&exp, &got, "query")?;
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C07") {
        let loc = p.query_located(doc);
        let nodes: Vec<&Value> = loc.iter().map(|n| n.node()).collect();
        same_nodes(&exp, &nodes, "query_located")?;
    }
    Ok(!exp.is_empty())
}
fn located_case(prop: &str, t: &str, doc: &Value) -> Out {
    let Ok(p) = parse_real(t) else { return Ok(false) };
    let loc = p.query_located(doc);
    match prop {
        "C05" => {
            let a = p.query(doc).all();
            let b: Vec<&Value> = loc.iter().map(|n| n.node()).collect();
            if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !std::ptr::eq(*x, *y)) {
                return Err(format!("query gives {}, query_located gives {}", show(&a), show(&b)));
            }
            use serde_json_path::JsonPathExt;
            let c = doc.json_path(&p).all();
            if a.len() != c.len() || a.iter().zip(&c).any(|(x, y)| !std::ptr::eq(*x, *y)) {
                return Err(format!("query gives {}, json_path gives {}", show(&a), show(&c)));
            }
            let again = p.query_located(doc).iter().map(|n| n.node()).collect::<Vec<_>>();
            let other = p.clone().query(doc).all();
            if again.len() != a.len() || other.len() != a.len() || (0..a.len()).any(|i| !std::ptr::eq(again[i], a[i]) || !std::ptr::eq(other[i], a[i])) {
                return Err(format!("query gives {}, a second time located {}, of a copy {}", show(&a), show(&again), show(&other)));
            }
        }
        "C06" => {
            for n in loc.iter() {
                let path = pe(n.location());
                match eval::resolve(doc, &path) {
                    Some(v) if std::ptr::eq(v, n.node()) => {}
                    r => return Err(format!("location {} leads to {r:?}, node is {}", eval::normal(&path), n.node())),
                }
                if std::ptr::eq(n.node(), doc) != path.is_empty() {
                    return Err("root path".into());
                }
                let l = n.location();
                if l.len() != path.len() || l.is_empty() != path.is_empty() {
                    return Err(format!("length {} of {}", l.len(), eval::normal(&path)));
                }
                let all: Vec<_> = l.iter().collect();
                let owned: Vec<_> = l.clone().into_iter().collect();
                if l.first() != all.first().copied() || l.last() != all.last().copied() || owned.iter().collect::<Vec<_>>() != all || l.get(path.len()).is_some() {
                    return Err(format!("first, last or iteration of {}", eval::normal(&path)));
                }
                for (i, (e, x)) in all.iter().zip(&path).enumerate() {
                    let ok = l.get(i) == Some(e)
                        && match x {
                            PE::N(m) => {
                                e.as_name() == Some(m.as_str()) && e.as_index().is_none() && e.is_name() && !e.is_index()
                                    && **e == **m && **e == m.as_str() && **e != 0usize && **e != m.len()
                                    && unlike(m).iter().all(|u| **e != **u && **e != u.as_str())
                            }
                            PE::I(j) => {
                                e.as_index() == Some(*j) && e.as_name().is_none() && e.is_index() && !e.is_name()
                                    && **e == *j && **e != j + 1 && **e != *j.to_string() && **e != j.to_string().as_str()
                            }
                        };
                    if !ok {
                        return Err(format!("element {i} of {}", eval::normal(&path)));
                    }
                }
            }
        }
        "C13" => return dedup(loc),
        "C15" => {
            for n in loc.iter() {
                let ptr = n.location().to_json_pointer();
                match eval::pointer(doc, &ptr) {
                    Some(v) if std::ptr::eq(v, n.node()) => {}
                    r => return Err(format!("pointer {ptr:?} leads to {r:?}, node is {}", n.node())),
                }
                if doc.pointer(&ptr).map_or(true, |v| !std::ptr::eq(v, n.node())) {
                    return Err(format!("serde_json pointer {ptr:?}"));
                }
            }
        }
        "C16" => {
            for n in loc.iter() {
                let path = pe(n.location());
                let got = n.location().to_string();
                let exp = eval::normal(&path);
                if got != exp {
                    return Err(format!("normalized path is {exp:?}, rendered {got:?}"));
                }
                let back = parse_real(&got).map_err(|e| format!("{got:?} does not parse: {e}"))?;
                let r = back.query(doc).all();
                if r.len() != 1 || !std::ptr::eq(r[0], n.node()) {
                    return Err(format!("{got:?} selects {}", show(&r)));
                }
                let ser = serde_json::to_value(n.location()).unwrap();
                if ser.as_str() != Some(exp.as_str()) {
                    return Err(format!("serialized {ser}"));
                }
                for (e, x) in n.location().iter().zip(&path) {
                    let v = serde_json::to_value(e).unwrap();
                    let w = match x {
                        PE::N(m) => Value::from(m.as_str()),
                        PE::I(j) => Value::from(*j as u64),
                    };
                    if v != w {
                        return Err(format!("element {w} serialized {v}"));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(loc.len() > 0)
}
/// texts that differ from `m`, near it
fn unlike(m: &str) -> Vec<String> {
    let mut v = vec![format!("{m}x"), format!(" {m}"), m.to_uppercase(), m.to_lowercase(), m.trim().to_string(), format!("'{m}'"), m.replace('\'', "\\'"), m.replace('~', "~0").replace('/', "~1"), m.chars().skip(1).collect(), m.chars().rev().collect(), format!("0{m}"), format!("{m}\0"), m.chars().filter(|c| c.is_ascii()).collect()];
    let mut k = m.to_string();
    k.pop();
    v.push(k);
    v.retain(|u| u != m);
    v
}
fn cmp_path(a: &[PE], b: &[PE]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = match (x, y) {
            (PE::N(p), PE::N(q)) => p.chars().cmp(q.chars()),
            (PE::I(p), PE::I(q)) => p.cmp(q),
            _ => panic!("oracle: mixed elements"),
        };
        if o != std::cmp::Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}
fn dedup(loc: LocatedNodeList) -> Out {
    let before: Vec<(Vec<PE>, *const Value)> = loc.iter().map(|n| (pe(n.location()), n.node() as *const Value)).collect();
    let mut exp = before.clone();
    exp.sort_by(|a, b| cmp_path(&a.0, &b.0));
    exp.dedup();
    let mut l2 = loc.clone();
    l2.dedup_in_place();
    let d = loc.dedup();
    for (w, l) in [("dedup", &d), ("dedup_in_place", &l2)] {
        let got: Vec<(Vec<PE>, *const Value)> = l.iter().map(|n| (pe(n.location()), n.node() as *const Value)).collect();
        if got != exp {
            return Err(format!(
                "{w}: expected {:?} got {:?}",
                exp.iter().map(|e| eval::normal(&e.0)).collect::<Vec<_>>(),
                got.iter().map(|e| eval::normal(&e.0)).collect::<Vec<_>>()
            ));
        }
    }
    Ok(exp.len() < before.len())
}
macro_rules! ck {
    ($c:expr, $w:expr) => {
        if !$c {
            return Err(format!("accessor {} on length {}", $w, $crate::check::LEN.with(|l| l.get())));
        }
    };
}
thread_local! { pub static LEN: std::cell::Cell<usize> = std::cell::Cell::new(0); }
fn walk<'a, T: PartialEq + Clone>(m: usize, fw: &dyn Fn() -> Box<dyn Iterator<Item = T> + 'a>, bw: &dyn Fn() -> Box<dyn Iterator<Item = T> + 'a>, exp: &[T], w: &str) -> Result<(), String> {
    let rexp: Vec<T> = exp.iter().rev().cloned().collect();
    ck!(fw().collect::<Vec<_>>() == exp, format!("{w} collected"));
    ck!(bw().collect::<Vec<_>>() == rexp, format!("{w} collected from the back"));
    ck!(fw().count() == m, format!("{w} counted"));
    ck!(fw().fold(Vec::new(), |mut a, x| { a.push(x); a }) == exp, format!("{w} folded"));
    ck!(bw().fold(Vec::new(), |mut a, x| { a.push(x); a }) == rexp, format!("{w} folded from the back"));
    let mut it = fw();
    for i in 0..m + 1 {
        ck!(it.next() == exp.get(i).cloned(), format!("{w} stepped"));
    }
    ck!(it.next().is_none(), format!("{w} ended"));
    Ok(())
}
fn accessors(n: usize, variant: usize) -> Out {
    use serde_json::json;
    let mixed = [json!(null), json!({"a": null}), json!(false), json!([]), json!("x"), json!(0), json!({}), json!([null, 1])];
    let items: Value = match variant {
        0 => (0..n).map(|i| Value::from(i % 3)).collect::<Vec<_>>().into(),
        1 => (0..n).map(|i| mixed[i % 8].clone()).collect::<Vec<_>>().into(),
        2 => (0..n).map(|_| Value::Null).collect::<Vec<_>>().into(),
        _ => json!([[1], null]),
    };
    // how deep the items are, and which item is the i-th node
    let prefix: Vec<PE> = match variant {
        1 => vec![PE::N("a".into())],
        2 => (0..20).map(|i| if i % 2 == 0 { PE::I(0) } else { PE::N("it's ~/".into()) }).collect(),
        _ => vec![],
    };
    let own = |i: usize| prefix.iter().cloned().chain([PE::I(if variant == 3 { i % 2 } else { i })]).collect::<Vec<PE>>();
    let doc = prefix.iter().rev().fold(items, |v, e| match e {
        PE::N(m) => json!({ m.as_str(): v }),
        PE::I(_) => json!([v]),
    });
    let arr = prefix
        .iter()
        .fold(&doc, |v, e| match e {
            PE::N(m) => &v[m.as_str()],
            PE::I(i) => &v[*i],
        })
        .as_array()
        .unwrap();
    let text = if variant == 3 {
        if n == 0 { "$[7]".to_string() } else { format!("$[{}]", (0..n).map(|i| (i % 2).to_string()).collect::<Vec<_>>().join(",")) }
    } else {
        format!("${}.*", ".*".repeat(prefix.len()))
    };
    LEN.with(|l| l.set(n));
    let p = |a: &Value, b: &Value| std::ptr::eq(a, b);
    let refs: Vec<&Value> = if variant == 3 { (0..n).map(|i| &arr[i % 2]).collect() } else { arr.iter().collect() };
    let mk = || NodeList::from(refs.clone());
    let l = mk();
    ck!(l.len() == n, "len");
    ck!(l.is_empty() == (n == 0), "is_empty");
    for i in 0..n + 2 {
        ck!(match (l.get(i), refs.get(i)) { (Some(a), Some(b)) => p(a, b), (None, None) => true, _ => false }, "get");
    }
    ck!(match (l.first(), refs.first()) { (Some(a), Some(b)) => p(a, b), (None, None) => true, _ => false }, "first");
    ck!(match (l.last(), refs.last()) { (Some(a), Some(b)) => p(a, b), (None, None) => true, _ => false }, "last");
    ck!(l.iter().len() == n && l.iter().zip(&refs).all(|(a, b)| p(a, b)), "iter");
    ck!(l.iter().rev().zip(refs.iter().rev()).all(|(a, b)| p(a, b)), "iter.rev");
    ck!(mk().into_iter().count() == n && mk().into_iter().zip(&refs).all(|(a, b)| p(a, b)), "into_iter");
    ck!({ let a = mk().all(); a.len() == n && a.iter().zip(&refs).all(|(a, b)| p(a, b)) }, "all");
    ck!(match l.at_most_one() { Ok(None) => n == 0, Ok(Some(v)) => n == 1 && p(v, refs[0]), Err(e) => n > 1 && e.0 == n }, "at_most_one");
    use serde_json_path::ExactlyOneError as E;
    ck!(match l.exactly_one() { Ok(v) => n == 1 && p(v, refs[0]), Err(E::Empty) => n == 0, Err(E::MoreThanOne(k)) => n > 1 && k == n }, "exactly_one");
    if let Err(e) = l.exactly_one() {
        ck!(e.is_empty() == (n == 0), "ExactlyOneError::is_empty");
        ck!(e.is_more_than_one() == (n > 1), "ExactlyOneError::is_more_than_one");
        ck!(e.as_more_than_one() == (if n > 1 { Some(n) } else { None }), "ExactlyOneError::as_more_than_one");
    }
    #[allow(deprecated)]
    {
        ck!(match mk().one() { None => n != 1, Some(v) => n == 1 && p(v, refs[0]) }, "one");
    }
    // located
    let q = JsonPath::parse(&text).unwrap();
    let mk = || q.query_located(&doc);
    let l = mk();
    let base = mk().all();
    ck!(base.len() == n && base.iter().zip(&refs).all(|(a, b)| p(a.node(), b)), "all (located)");
    let same = |a: &serde_json_path::LocatedNode, i: usize| p(a.node(), refs[i]) && pe(a.location()) == own(i);
    ck!(l.len() == n, "len (located)");
    ck!(l.is_empty() == (n == 0), "is_empty (located)");
    for i in 0..n + 2 {
        ck!(match l.get(i) { Some(a) => i < n && same(a, i), None => i >= n }, "get (located)");
    }
    ck!(match l.first() { Some(a) => n > 0 && same(a, 0), None => n == 0 }, "first (located)");
    ck!(match l.last() { Some(a) => n > 0 && same(a, n - 1), None => n == 0 }, "last (located)");
    ck!(l.iter().len() == n && l.iter().enumerate().all(|(i, a)| same(a, i)), "iter (located)");
    ck!(mk().into_iter().count() == n && mk().into_iter().enumerate().all(|(i, a)| same(&a, i)), "into_iter (located)");
    ck!(l.nodes().len() == n && l.nodes().count() == n && l.nodes().enumerate().all(|(i, a)| p(a, refs[i])), "nodes");
    ck!(l.nodes().rev().count() == n && l.nodes().rev().enumerate().all(|(i, a)| p(a, refs[n - 1 - i])), "nodes.rev");
    ck!(l.locations().len() == n && l.locations().count() == n && l.locations().enumerate().all(|(i, a)| pe(a) == own(i)), "locations");
    ck!(l.locations().rev().count() == n && l.locations().rev().enumerate().all(|(i, a)| pe(a) == own(n - 1 - i)), "locations.rev");
    let mut it = l.nodes();
    let mut il = l.locations();
    for i in 0..n {
        ck!(it.len() == n - i && il.len() == n - i, "remaining length");
        ck!(it.size_hint().0 <= n - i, "size_hint");
        if i % 2 == 0 { it.next(); il.next(); } else { it.next_back(); il.next_back(); }
    }
    ck!(it.next().is_none() && it.next_back().is_none() && il.next().is_none() && il.next_back().is_none(), "iterator end");
    ck!(it.next().is_none(), "iterator fused");
    ck!(match mk().at_most_one() { Ok(None) => n == 0, Ok(Some(v)) => n == 1 && same(&v, 0), Err(e) => n > 1 && e.0 == n }, "at_most_one (located)");
    ck!(match mk().exactly_one() { Ok(v) => n == 1 && same(&v, 0), Err(E::Empty) => n == 0, Err(E::MoreThanOne(k)) => n > 1 && k == n }, "exactly_one (located)");
    if n > 0 {
        let x = mk().all().remove(0);
        ck!(pe(x.location()) == own(0) && pe(&x.clone().to_location()) == own(0), "to_location");
        let loc = x.to_location();
        ck!(loc.len() == own(0).len() && !loc.is_empty() && loc.get(0) == loc.first() && loc.get(loc.len() - 1) == loc.last() && loc.get(loc.len()).is_none(), "path accessors");
    }
    // every way of walking the two iterators, from every state
    let exp_n: Vec<*const Value> = refs.iter().map(|v| *v as *const Value).collect();
    let pairs: Vec<(usize, usize)> = if n > 5000 { vec![] } else if n <= 6 { (0..=n).flat_map(|a| (0..=n - a).map(move |b| (a, b))).collect() } else { vec![(0, 0), (1, 0), (0, 1), (2, 3), (n / 2, n / 3), (n, 0), (0, n)] };
    for (f, b) in pairs {
        let rest: Vec<usize> = (f..n - b).collect();
        let m = rest.len();
        let ni = || { let mut i = l.nodes(); for _ in 0..f { i.next(); } for _ in 0..b { i.next_back(); } i };
        let li = || { let mut i = l.locations(); for _ in 0..f { i.next(); } for _ in 0..b { i.next_back(); } i };
        walk(m, &|| Box::new(ni().map(|v| v as *const Value)), &|| Box::new(ni().rev().map(|v| v as *const Value)), &rest.iter().map(|i| exp_n[*i]).collect::<Vec<_>>(), "nodes")?;
        walk(m, &|| Box::new(li().map(pe)), &|| Box::new(li().rev().map(pe)), &rest.iter().map(|i| own(*i)).collect::<Vec<_>>(), "locations")?;
        for j in 0..m + 2 {
            ck!(ni().nth(j).map(|v| v as *const Value) == rest.get(j).map(|i| exp_n[*i]), "nodes.nth");
            ck!(li().nth(j).map(pe) == rest.get(j).map(|i| own(*i)), "locations.nth");
            ck!(ni().nth_back(j).map(|v| v as *const Value) == rest.iter().rev().nth(j).map(|i| exp_n[*i]), "nodes.nth_back");
            ck!(li().nth_back(j).map(pe) == rest.iter().rev().nth(j).map(|i| own(*i)), "locations.nth_back");
            let (mut a, mut c) = (ni(), li());
            a.nth(j);
            c.nth(j);
            ck!(a.len() == m.saturating_sub(j + 1) && c.len() == m.saturating_sub(j + 1), "length after nth");
            let (mut a, mut c) = (ni(), li());
            a.nth_back(j);
            c.nth_back(j);
            ck!(a.len() == m.saturating_sub(j + 1) && c.len() == m.saturating_sub(j + 1), "length after nth_back");
        }
        ck!(ni().size_hint() == (m, Some(m)) && li().size_hint() == (m, Some(m)), "size_hint");
        ck!(ni().last().map(|v| v as *const Value) == rest.last().map(|i| exp_n[*i]), "nodes.last");
        ck!(li().last().map(pe) == rest.last().map(|i| own(*i)), "locations.last");
        ck!(l.iter().skip(f).zip(l.nodes().skip(f)).zip(l.locations().skip(f)).count() == n - f, "zip");
    }
    // NodesType view of a list
    use serde_json_path::functions::NodesType;
    let nt: NodesType = refs.clone().into();
    ck!(nt.len() == n && nt.is_empty() == (n == 0), "NodesType len");
    ck!(nt.clone().all().iter().zip(&refs).all(|(a, b)| p(a, b)), "NodesType all");
    ck!(nt.into_iter().count() == n, "NodesType into_iter");
    Ok(true)
}

fn text_case(prop: &str, t: &str) -> Out {
    match prop {
        "C17" | "C20" | "C11" => {
            let o = parse::parse(t);
            let r = parse_real(t);
            match (&o, &r) {
                (Err(Fail::DontCare), _) => return Ok(false),
                (Err(Fail::No), Ok(_)) => return Err("accepted, but not a well-formed query".into()),
                (Ok(_), Err(e)) => return Err(format!("rejected ({e}), but well-formed")),
                (Err(_), Err(_)) => return Ok(false),
                (Ok(q), Ok(p)) => {
                    for d in if t.len() > 5000 { docs() } else { docs_for(q) } {
                        same_nodes(&eval::query(q, &d, &d), &p.query(&d).all(), &format!("structure differs; on {d}"))?;
                    }
                    if t.parse::<JsonPath>().as_ref().ok() != Some(p) {
                        return Err("FromStr differs from parse".into());
                    }
                }
            }
            Ok(true)
        }
        "C18" => {
            match parse_real(t) {
                Ok(_) => Ok(true),
                Err(e) => {
                    let pos = e.position();
                    if pos > t.len() || !t.is_char_boundary(pos) {
                        return Err(format!("error position {pos} of {} bytes", t.len()));
                    }
                    if !e.to_string().starts_with(&format!("at position {pos}, ")) {
                        return Err(format!("error position {pos}, displayed as {e}"));
                    }
                    if e.to_string() != format!("at position {pos}, {}", e.message()) {
                        return Err(format!("error message {:?}, displayed as {e}", e.message()));
                    }
                    Ok(true)
                }
            }
        }
        "C19" => {
            let Ok(p) = parse_real(t) else { return Ok(false) };
            let d = p.to_string();
            if let Ok(q) = parse::parse(t) {
                if crate::found::known_display(&q, &d) {
                    return Err(format!("KNOWN displayed as {d:?}"));
                }
            }
            let p2 = parse_real(&d).map_err(|e| format!("displayed as {d:?}, which is rejected: {e}"))?;
            for x in parse::parse(t).map_or_else(|_| docs(), |q| if t.len() > 5000 { docs() } else { docs_for(&q) }) {
                let a = p.query(&x).all();
                let b = p2.query(&x).all();
                if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !std::ptr::eq(*x, *y)) {
                    return Err(format!("displayed as {d:?}: selects {} instead of {} from {x}", show(&b), show(&a)));
                }
            }
            if let (Ok(o1), o2) = (parse::parse(t), parse::parse(&d)) {
                match o2 {
                    Ok(o2) if norm_q(&o1) == norm_q(&o2) => {}
                    Err(Fail::DontCare) => {}
                    o2 => return Err(format!("displayed as {d:?}: {o2:?} instead of {o1:?}")),
                }
            }
            let v = serde_json::to_value(&p).map_err(|e| e.to_string())?;
            let p3: JsonPath = serde_json::from_value(v.clone()).map_err(|e| format!("serialized {v}: {e}"))?;
            if p3 != p2 {
                return Err(format!("serialized {v} deserializes to {p3}"));
            }
            let st = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            let p4: JsonPath = serde_json::from_str(&st).map_err(|e| format!("serialized {st}: {e}"))?;
            if p4 != p2 {
                return Err(format!("serialized {st} deserializes to {p4}"));
            }
            Ok(true)
        }
        _ => unreachable!(),
    }
}
/// numeric literals by value
fn norm_q(q: &Query) -> String {
    let mut q = q.clone();
    nq(&mut q);
    format!("{q:?}")
}
fn nq(q: &mut Query) {
    for s in &mut q.segs {
        s.short = false;
        for x in &mut s.sels {
            if let Sel::Slice(_, _, c) = x {
                if *c == None {
                    *c = Some(1);
                }
            }
            if let Sel::Filter(e) = x {
                ne(e)
            }
        }
    }
}
fn nlit(l: &mut Lit) {
    if let Lit::Num(t) = l {
        let f = eval::lit(&Lit::Num(t.clone())).as_f64().unwrap();
        *t = format!("{:?}", if f == 0.0 { 0.0 } else { f });
    }
}
fn no(o: &mut Operand) {
    match o {
        Operand::Lit(l) => nlit(l),
        Operand::Sq(q) => nq(q),
        Operand::Func(f) => nf(f),
    }
}
fn nf(f: &mut Func) {
    for a in &mut f.args {
        match a {
            Arg::Lit(l) => nlit(l),
            Arg::Query(q) => nq(q),
            Arg::Func(f) => nf(f),
            Arg::Expr(e) => ne(e),
        }
    }
}
fn ne(e: &mut Expr) {
    match e {
        Expr::Or(v) | Expr::And(v) => v.iter_mut().for_each(ne),
        Expr::Not(e) => ne(e),
        Expr::Paren(x) => {
            ne(x);
            *e = (**x).clone();
        }
        Expr::Cmp(_, a, b) => {
            no(a);
            no(b);
        }
        Expr::Exist(q) => nq(q),
        Expr::Func(f) => nf(f),
    }
}

const MAX: i128 = 9007199254740991;
fn iv(i: &Integer) -> i128 {
    i.to_string().parse().unwrap()
}
fn int_case(c: &Value) -> Out {
    let a: i128 = s(c, "a").parse().unwrap();
    let b: i128 = s(c, "b").parse().unwrap();
    let inr = |x: i128| (-MAX..=MAX).contains(&x);
    macro_rules! from {
        ($t:ty) => {
            if let Ok(x) = <$t>::try_from(a) {
                match Integer::try_from(x) {
                    Ok(i) if inr(a) && iv(&i) == a => {}
                    Err(_) if !inr(a) => {}
                    r => return Err(format!("try_from({a} as {}) = {r:?}", stringify!($t))),
                }
            }
        };
    }
    macro_rules! into {
        ($t:ty) => {
            if let Ok(x) = <$t>::try_from(a) {
                let i = Integer::from(x);
                if iv(&i) != a {
                    return Err(format!("from({a} as {}) = {i:?}", stringify!($t)));
                }
            }
        };
    }
    from!(i64);
    from!(i128);
    from!(u64);
    from!(usize);
    from!(isize);
    if a >= 0 {
        let u = a as u128;
        match Integer::try_from(u) {
            Ok(i) if inr(a) && iv(&i) == a => {}
            Err(_) if !inr(a) => {}
            r => return Err(format!("try_from({a} as u128) = {r:?}")),
        }
        if Integer::try_from(u + (1u128 << 127)).is_ok() {
            return Err(format!("try_from({} as u128)", u + (1u128 << 127)));
        }
    }
    into!(i8);
    into!(i16);
    into!(i32);
    into!(u8);
    into!(u16);
    into!(u32);
    match a.to_string().parse::<Integer>() {
        Ok(i) if inr(a) && iv(&i) == a => {}
        Err(_) if !inr(a) => {}
        r => return Err(format!("parse({a}) = {r:?}")),
    }
    if !inr(a) || !inr(b) {
        return Ok(true);
    }
    let (x, y) = (Integer::try_from(a as i64).unwrap(), Integer::try_from(b as i64).unwrap());
    if iv(&Integer::from_i64_unchecked(a as i64)) != a {
        return Err("from_i64_unchecked".into());
    }
    for (w, got, exp) in [("add", x.checked_add(y), a + b), ("sub", x.checked_sub(y), a - b), ("mul", x.checked_mul(y), a * b)] {
        match got {
            Some(i) if inr(exp) && iv(&i) == exp => {}
            None if !inr(exp) => {}
            r => return Err(format!("{a} checked_{w} {b} = {r:?}, exact {exp}")),
        }
    }
    if iv(&x.abs()) != a.abs() {
        return Err(format!("abs({a}) = {}", x.abs()));
    }
    if x.cmp(&y) != a.cmp(&b) || (x == y) != (a == b) || x.partial_cmp(&y) != Some(a.cmp(&b)) {
        return Err(format!("cmp({a}, {b})"));
    }
    if x.partial_cmp(&(b as i64)) != Some(a.cmp(&b)) || (x == b as i64) != (a == b) || (x < b as i64) != (a < b) || (x > b as i64) != (a > b) {
        return Err(format!("cmp({a}, {b} as i64)"));
    }
    match usize::try_from(x) {
        Ok(u) if a >= 0 && u as i128 == a => {}
        Err(_) if a < 0 => {}
        r => return Err(format!("usize::try_from({a}) = {r:?}")),
    }
    Ok(true)
}
fn int_text(t: &str) -> Out {
    let exp = {
        let d = t.strip_prefix(['-', '+']).unwrap_or(t);
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            None
        } else {
            let d2 = d.trim_start_matches('0');
            if d2.len() > 20 {
                None
            } else {
                let v: i128 = if d2.is_empty() { 0 } else { d2.parse().unwrap() };
                let v = if t.starts_with('-') { -v } else { v };
                (v.abs() <= MAX).then_some(v)
            }
        }
    };
    match (t.parse::<Integer>(), exp) {
        (Ok(i), Some(e)) if iv(&i) == e => Ok(true),
        (Err(_), None) => Ok(true),
        (r, e) => Err(format!("parse({t:?}) = {r:?}, expected {e:?}")),
    }
}

/// a large document, given by what it is made of: an array of n numbers, n members, a text n times, n levels;
/// inside an array of an object if "in" is given
fn generated(g: &Value) -> Value {
    use serde_json::json;
    let n = g["n"].as_u64().unwrap_or(0) as usize;
    let v: Value = match s(g, "of") {
        "items" => (0..n).map(Value::from).collect::<Vec<_>>().into(),
        "lists" => (0..n).map(|i| json!([i, {"a": i}])).collect::<Vec<_>>().into(),
        "members" => (0..n).map(|i| (format!("k{i}"), Value::from(i))).collect::<serde_json::Map<_, _>>().into(),
        "text" => s(g, "text").repeat(n).into(),
        "name" => json!({ s(g, "text").repeat(n): 1 }),
        "levels" => (0..n).fold(json!(1), |v, i| if i % 2 == 0 { json!([v]) } else { json!({"a": v}) }),
        k => panic!("unknown document {k}"),
    };
    match g.get("in").and_then(Value::as_str) {
        Some(k) => json!([{ k: v }, {}]),
        None => v,
    }
}
pub fn run(prop: &str, c: &Value) -> Out {
    match s(c, "kind") {
        "query" => {
            let big;
            let doc = match c.get("big") {
                Some(g) => {
                    big = generated(g);
                    &big
                }
                None => &c["doc"],
            };
            match prop {
                "C05" | "C06" | "C13" | "C15" | "C16" => located_case(prop, s(c, "query"), doc),
                _ => diff(prop, s(c, "query"), doc),
            }
        }
        "text" => text_case(prop, s(c, "text")),
        "longtext" => text_case(prop, &format!("{}{}{}", s(c, "pre"), s(c, "unit").repeat(c["n"].as_u64().unwrap() as usize), s(c, "post"))),
        "literal" => {
            // C20: the literal names a member / equals a string
            let (l, exp) = (s(c, "literal"), c["denotes"].as_str());
            let p = parse_real(&format!("$[{l}]"));
            let f = parse_real(&format!("$[?@=={l}]"));
            match (exp, p, f) {
                (None, Err(_), Err(_)) => Ok(true),
                (Some(e), Ok(p), Ok(f)) => {
                    let mut m = serde_json::Map::new();
                    m.insert(e.to_string(), Value::Null);
                    m.insert(format!("{e}x"), Value::Null);
                    let d = Value::Object(m);
                    let r = p.query_located(&d);
                    if r.len() != 1 || pe(r.first().unwrap().location()) != vec![PE::N(e.to_string())] {
                        return Err(format!("name selector [{l}] does not select member {e:?}"));
                    }
                    let d = serde_json::json!([e, format!("{e}x")]);
                    let r = f.query_located(&d);
                    if r.len() != 1 || pe(r.first().unwrap().location()) != vec![PE::I(0)] {
                        return Err(format!("literal {l} does not equal {e:?}"));
                    }
                    Ok(true)
                }
                (e, p, f) => Err(format!("literal {l} should denote {e:?}; name selector {:?}, comparison {:?}", p.is_ok(), f.is_ok())),
            }
        }
        "int" => int_case(c),
        "inttext" => int_text(s(c, "text")),
        "accessors" => accessors(c["len"].as_u64().unwrap() as usize, c["variant"].as_u64().unwrap_or(0) as usize),
        "forms" => {
            // accepted either way only if all forms are
            unreachable!()
        }
        k => Err(format!("unknown case kind {k}")),
    }
}
