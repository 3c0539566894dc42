//! Case streams per property.
use crate::ast::*;
use crate::gen::*;
use serde_json::{json, Value};

pub type Sink<'s> = dyn FnMut(Value) -> bool + 's;
fn qc(q: String, doc: Value) -> Value {
    json!({"kind": "query", "query": q, "doc": doc})
}
fn tc(t: String) -> Value {
    json!({"kind": "text", "text": t})
}
fn big(q: &str, of: &str, n: usize, text: &str) -> Value {
    json!({"kind": "query", "query": q, "big": {"of": of, "n": n, "text": text}})
}
fn big_in(q: &str, of: &str, n: usize, text: &str) -> Value {
    json!({"kind": "query", "query": q, "big": {"of": of, "n": n, "text": text, "in": "v"}})
}
/// numbers of items around the widths of the integer types
const WIDTHS: &[usize] = &[255, 256, 257, 300, 511, 512, 513, 1000, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001];
/// texts around the widths of the integer types
fn long_texts() -> Vec<Value> {
    let mut v = vec![];
    for &n in WIDTHS {
        for (pre, unit, post, per) in [
            ("$.", "a", "", 1usize), ("$", ".a", "", 20), ("$", "[0]", "", 20), ("$", " ", ".a", 1), ("$[", "\n", "0]", 1), ("$[0", ",0", "]", 20), ("$['", "b", "']", 1), ("$['", "\u{e9}", "']", 1),
            ("$['", "\\t", "']", 1), ("$[\"", "\\u0041", "\"]", 2), ("$[?@==", " ", "1]", 1), ("$[?@.a", "||@.a", "]", 20), ("$[?@==1", "&&@==1", "]", 20), ("$[?@=='", "x", "']", 1),
            ("$[?f(", " ", "@)]", 1), ("$[1:", "\t", "2]", 1), ("$[", " ", "?@.a]", 1), ("$.a", "\u{263a}", ".b", 1), ("$..", "k", "[0]", 1),
        ] {
            if per > 1 && n > 1000 || per > 2 && n > 300 {
                continue;
            }
            for p in [post.to_string(), format!("{post}]"), format!("{post}\u{e9}["), format!("{post}[9007199254740992]"), format!("{post}[?nope(@)]")] {
                if n > 5000 && (p.len() == post.len() + 1 || p.ends_with("]]") || n % 2 == 0 && n != 65536) {
                    continue;
                }
                v.push(json!({"kind": "longtext", "pre": pre, "unit": unit, "n": n, "post": p}));
            }
        }
    }
    v
}
/// a few queries over large documents
fn big_cases(prop: &str) -> Vec<Value> {
    let mut v = vec![];
    for &n in WIDTHS {
        let last = n - 1;
        let half = n / 2;
        for q in [
            format!("$[{last}]"), format!("$[{n}]"), "$[-1]".into(), format!("$[-{n}]"), format!("$[-{}]", n + 1), format!("$[{last},0,{half},{last},{}]", half + 1), format!("$[{}:]", n - 3),
            format!("$[::{half}]"), format!("$[::-{half}]"), format!("$[{}::-{half}]", n + 5), format!("$[{half}:{}]", half + 3), "$[-2:]".into(), format!("$..[{last}]"), format!("$..[{last},{half}]"), "$[?@<3]".into(),
            format!("$[?@>={}]", n - 2), format!("$[?@=={last}]"), "$[254:258]".into(), "$[65534:65538]".into(),
        ] {
            v.push(big(&q, "items", n, ""));
        }
        for q in [format!("$.k{last}"), format!("$..k{half}"), format!("$['k{last}','k0','k{last}']"), format!("$[?@=={last}]")] {
            v.push(big(&q, "members", n, ""));
        }
        if n <= 5000 || prop != "C16" {
            v.push(big("$.*", "items", n, ""));
        }
        if n <= 5000 {
            v.push(big("$..*", "lists", n, ""));
            v.push(big("$..a", "lists", n, ""));
            v.push(big(&format!("$[{last},{half}].*"), "lists", n, ""));
        } else {
            v.push(big(&format!("$[{last},{half}]..*"), "lists", n, ""));
        }
        for t in ["a", "\u{e9}", "~", "/", "'", "\n", "\u{1f600}", "a/b~c'd"] {
            v.push(big("$.*", "name", n, t));
        }
        if n < 120 {
            v.push(big("$..*", "levels", n, ""));
        }
    }
    if prop == "C10" {
        v.clear();
        for &n in WIDTHS {
            for m in [n, n - 1, n % 256, n % 65536, 255, 0] {
                for f in [format!("count(@.v.*)=={m}"), format!("length(@.v)=={m}"), format!("count(@.v[0:{m}])=={m}")] {
                    v.push(big_in(&format!("$[?{f}]"), "items", n, ""));
                }
                v.push(big_in(&format!("$[?length(@.v)=={m}]"), "members", n, ""));
                v.push(big_in(&format!("$[?count(@.v.*)=={m}]"), "members", n, ""));
                for t in ["a", "\u{e9}", "\u{1f600}", "e\u{301}"] {
                    v.push(big_in(&format!("$[?length(@.v)=={m}]"), "text", n, t));
                }
            }
            for t in ["a", "ab", "\u{e9}", "a\n"] {
                for p in ["a*", "(ab)*", ".*", "a", "b", "[^b]*", "(a\n)*", "\u{e9}+", "aaa", "ba", "c"] {
                    v.push(big_in(&format!("$[?match(@.v,'{}')]", p.replace('\n', "\\n")), "text", n, t));
                    v.push(big_in(&format!("$[?search(@.v,'{}')]", p.replace('\n', "\\n")), "text", n, t));
                }
            }
            v.push(big_in("$[?value(@.v.*)==0]", "items", n, ""));
        }
    }
    v
}
macro_rules! put {
    ($k:expr, $c:expr) => {
        if !$k($c) {
            return;
        }
    };
}
fn one(sels: Vec<Sel>, desc: bool) -> Query {
    Query { root: true, segs: vec![Seg { desc, short: false, sels }] }
}
fn allkeys_doc() -> Value {
    let mut m = serde_json::Map::new();
    for (i, k) in KEYS.iter().enumerate() {
        m.insert(k.to_string(), json!(i));
    }
    Value::Object(m)
}
/// finite part first, then random until the sink says stop
pub fn stream(prop: &str, seed: u64, thorough: bool, k: &mut Sink) {
    let mut r = Rng(seed.wrapping_mul(0x51_7c_c1_b7_27_22_0a_95) ^ prop.bytes().fold(7u64, |a, b| a * 31 + b as u64));
    let r = &mut r;
    match prop {
        "C01" => {
            for c in big_cases(prop) {
                put!(k, c);
            }
            for n in 0..6usize {
                let arr: Value = (0..n).map(Value::from).collect::<Vec<_>>().into();
                let mut obj = serde_json::Map::new();
                for key in KEYS.iter().take(n) {
                    obj.insert(key.to_string(), json!(1));
                }
                let objn: serde_json::Map<String, Value> = (0..n).map(|i| (i.to_string(), json!(i))).collect();
                for d in [arr, Value::Object(obj), Value::Object(objn), json!("abc"), json!(3), json!(null), json!([[1, 2], {"a": 1}])] {
                    for i in (-8..=8).chain(BIG.iter().copied()) {
                        put!(k, qc(render(&one(vec![Sel::Index(i)], false), r, 0, true), d.clone()));
                    }
                    for w in ["$.*", "$[*]", "$..*", "$['a']", "$.a", "$['0']", "$['']"] {
                        put!(k, qc(w.into(), d.clone()));
                    }
                }
            }
            let d = allkeys_doc();
            for key in KEYS {
                for _ in 0..3 {
                    put!(k, qc(render(&one(vec![Sel::Name(key.to_string())], false), r, 0, false), d.clone()));
                }
                put!(k, qc(render(&one(vec![Sel::Name(format!("{key}!"))], false), r, 0, true), d.clone()));
            }
            loop {
                let n = 1 + r.below(3);
                let q = Query {
                    root: true,
                    segs: (0..n)
                        .map(|_| Seg { desc: r.p(1, 8), short: false, sels: vec![match r.below(3) { 0 => Sel::Wild, 1 => Sel::Name(key(r)), _ => Sel::Index(int(r)) }] })
                        .collect(),
                };
                let d = doc(r, 4);
                put!(k, qc(render(&q, r, 0, false), d));
            }
        }
        "C02" => {
            let b: Vec<Option<i64>> = [None].into_iter().chain((-5..=5).map(Some)).chain([Some(BIG[0]), Some(BIG[1])]).collect();
            for n in 0..5usize {
                let arr: Value = (0..n).map(Value::from).collect::<Vec<_>>().into();
                for s in &b {
                    for e in &b {
                        for st in [None, Some(1), Some(2), Some(3), Some(0), Some(-1), Some(-2), Some(-3), Some(BIG[0]), Some(BIG[1])] {
                            put!(k, qc(render(&one(vec![Sel::Slice(*s, *e, st)], false), r, 0, true), arr.clone()));
                        }
                    }
                }
            }
            for c in big_cases(prop) {
                put!(k, c);
            }
            for d in [json!({"a": 1}), json!("abc"), json!(null), json!(7)] {
                put!(k, qc("$[:]".into(), d.clone()));
                put!(k, qc("$[::-1]".into(), d));
            }
            loop {
                let n = r.below(24);
                let arr: Value = (0..n).map(Value::from).collect::<Vec<_>>().into();
                let mut f = || -> Option<i64> {
                    match r.below(8) {
                        0 => None,
                        1 => Some(*r.pick(BIG)),
                        _ => Some(r.below(2 * n + 8) as i64 - (n as i64 + 4)),
                    }
                };
                let sl = Sel::Slice(f(), f(), f());
                let d = if r.p(1, 4) { json!({"a": arr, "b": [arr]}) } else { arr };
                let q = if d.is_object() { Query { root: true, segs: vec![Seg { desc: true, short: false, sels: vec![sl] }] } } else { one(vec![sl], false) };
                put!(k, qc(render(&q, r, 1, false), d));
            }
        }
        "C03" => {
            for c in big_cases(prop) {
                put!(k, c);
            }
            for d in stress() {
                for q in ["$..*", "$..a", "$..[0]", "$..[1,'a']", "$..[-1]", "$..*..*"] {
                    if q != "$..*..*" || d.as_array().map_or(false, |a| a.len() == 1) {
                        put!(k, qc(q.into(), d.clone()));
                    }
                }
            }
            loop {
            let n = 1 + r.below(2);
            let q = Query {
                root: true,
                segs: (0..n)
                    .map(|i| Seg { desc: i == 0 || r.p(1, 2), short: false, sels: (0..1 + r.below(2)).map(|_| match r.below(6) { 0 => Sel::Name(key(r)), 1 => Sel::Index(int(r)), 2 => sel(r, 1), _ => Sel::Wild }).collect() })
                    .collect(),
            };
            let dep = 2 + r.below(4);
            let d = container(r, dep);
            put!(k, qc(render(&q, r, 0, false), d));
            }
        }
        "C04" => {
            for c in big_cases(prop) {
                put!(k, c);
            }
            for q in ["$", "$[0,0]", "$['a','a']", "$[*,*]", "$[0,*,0]", "$[*,'a',0]", "$[1:,0]", "$[0:2,0:2]", "$.x.y.z", "$..[0,0]", "$[?@==$[0]]", "$.*.*", "$[*][*]"] {
                for d in [json!([1, 2, 3]), json!({"a": [1, 2], "b": [3]}), json!(1), json!([]), json!([[1, 2], [3, 4]])] {
                    put!(k, qc(q.into(), d));
                }
            }
            loop {
                let q = query(r, 1, true, 4);
                let d = container(r, 4);
                put!(k, qc(render(&q, r, 0, false), d));
            }
        }
        "C05" | "C06" | "C13" | "C15" | "C16" => {
            let d = allkeys_doc();
            let d2 = json!({"o": d.clone(), "l": [d.clone(), [d.clone(), 1]]});
            for q in ["$", "$.*", "$..*", "$[*,*]", "$..['a','a',*]", "$..[0,-1,::2,::-1]", "$..[?@]", "$..[-1]", "$..[-2:]", "$..[?@==1,'a',*]"] {
                for x in [json!(1), json!([1, [2, {"a": 3}], 4]), d.clone(), d2.clone(), json!([]), json!({}), json!(null), json!(true), json!("a"), json!(""), json!(1.5), json!({"a": {"b": [1, 2, {"c": 1}]}, "b": 1}), (0..30).map(|i| json!([i])).collect::<Vec<_>>().into()] {
                    put!(k, qc(q.into(), x));
                }
            }
            for d in stress() {
                put!(k, qc("$..*".into(), d));
            }
            for c in big_cases(prop) {
                put!(k, c);
            }
            // names of several characters that need care
            for t in words(&["~", "0", "1", "/", "a"], 4).into_iter().chain(words(&["'", "\\", "\"", "\n", "u", "0", " ", "é", "b", "/", "~", "\u{1}"], 3)) {
                put!(k, qc("$..*".into(), json!({t.clone(): 1, format!("{t}~"): [{t: 2}]})));
            }
            // every scalar value class as a member name
            for c in some_chars() {
                for t in [format!("{c}"), format!("a{c}b"), format!("{c}{c}"), format!("~{c}"), format!("{c}1"), format!("a{c}")] {
                    put!(k, qc("$..*".into(), json!({t.clone(): {t: 1}})));
                }
            }
            // and every character there is, 64 to a document
            let all: Vec<char> = every_char().collect();
            for cs in all.chunks(64) {
                let m: serde_json::Map<String, Value> = cs.iter().map(|c| (format!("b{c}"), json!({c.to_string(): 1}))).collect();
                put!(k, qc("$..*".into(), m.into()));
            }
            loop {
                let q = if r.p(1, 3) { one(vec![Sel::Wild], true) } else { query(r, 2, true, 3) };
                let d = if r.p(1, 20) { scalar(r) } else { container(r, 4) };
                put!(k, qc(render(&q, r, 0, false), d));
            }
        }
        "C07" => {
            let d = json!([1, 2, {"a": null}, {"a": false}, {"a": 1, "b": 2}, {"b": 0}, [], {}, [0], "a", null, true, false, 0, ""]);
            let o = json!({"x": 1, "y": {"a": null}, "z": {"b": 1}, "w": [1], "v": null, "t": {"a": 0, "b": false}});
            for e in [
                "@.a", "!@.a", "@", "!@", "@.*", "@[0]", "$", "$.zz", "!$.zz", "@.a||@.b", "@.a&&@.b", "!@.a&&@.b", "!(@.a||@.b)", "@.a||@.b&&@.c", "(@.a||@.b)&&@.b", "@.a&&@.b||@==1", "@..a",
                "@[?@.a]", "@.a==null", "!(@.a==null)", "@==$[0]", "@==$.x", "nl(@.*)", "!nl(@.*)", "nn(@.*)", "!nn(@.*)", "ll(@.a)", "f(@.a)", "!f(@.a)", "ll(@.a&&@.b)", "ll(!@.a)", "@.a==1&&@.b==2||@==1&&@==2",
                "@.a && @.b && @.b", "@.a || @.b || @.c", "((@.a))", "!((@.a))", "!(!(@.a))",
            ] {
                for x in [&d, &o, &json!(1), &json!("s"), &json!([]), &json!({})] {
                    put!(k, qc(format!("$[?{e}]"), x.clone()));
                }
                put!(k, qc(format!("$..[?{e}]"), json!({"p": d, "q": [o]})));
            }
            loop {
                let dep = 1 + r.below(3);
                let e = expr(r, dep);
                let mut q = one(vec![Sel::Filter(e)], r.p(1, 4));
                if r.p(1, 4) {
                    q.segs.insert(0, seg(r, 0));
                }
                let d = container(r, 4);
                put!(k, qc(render(&q, r, 1, false), d));
            }
        }
        "C08" => {
            let pool: Vec<Value> = scalars().into_iter().chain(nested()).collect();
            for a in &pool {
                for b in &pool {
                    for op in ["==", "!=", "<", ">", "<=", ">="] {
                        put!(k, qc(format!("$[?@.l{op}@.r]"), json!([{"l": a, "r": b}])));
                    }
                }
                for op in ["==", "!=", "<", ">", "<=", ">="] {
                    put!(k, qc(format!("$[?@.l{op}@.r]"), json!([{"l": a}, {"r": a}, {}])));
                    for l in ["1", "1.0", "'a'", "null", "true", "false", "0", "-0", "1e0", "'é'", "\"𝄞\"", "''", "2"] {
                        put!(k, qc(format!("$[?@{op}{l}]"), json!([a])));
                        put!(k, qc(format!("$[?{l}{op}@]"), json!([a])));
                    }
                }
            }
            loop {
                let (a, b) = (doc(r, 3), doc(r, 3));
                let b = if r.p(1, 2) { jiggle(r, &a) } else { b };
                let mut o = String::new();
                let e = match r.below(3) {
                    0 => format!("@.l{}@.r", r.pick(&["==", "!=", "<", ">", "<=", ">="])),
                    1 => format!("vv(@.l){}@.r", r.pick(&["==", "!=", "<", ">", "<=", ">="])),
                    _ => {
                        let op = cmp(r);
                        let (x, y) = (operand(r, 0), operand(r, 0));
                        Ren { r, sp: 0, canon: false }.expr(&Expr::Cmp(op, x, y), &mut o, 2);
                        o
                    }
                };
                put!(k, qc(format!("$[?{e}]"), json!([{"l": a, "r": b}, b])));
            }
        }
        "C09" => {
            let base = json!({"a": [1, 2, [3, 4]], "b": {"a": 5, "": 6, "it's": 7}, "0": 8});
            for q in [
                "@", "$", "@.a", "@['a']", "@[0]", "@[-1]", "@[-2]", "@[-3]", "@[-4]", "@[3]", "@.a[0]", "@.a[-1]", "@.a[-1][-1]", "@.a[2][0]", "@.b.a", "@.b['']", "@[\"b\"]['it\\'s']", "@['0']", "@[9007199254740991]",
                "@[-9007199254740991]", "$.a", "$[0]", "$.a[-2]", "@.a.a", "@.b[0]", "$['b'].a",
            ] {
                for v in ["1", "2", "3", "4", "5", "6", "7", "8", "$.absent"] {
                    for d in [json!([base, base["a"], 1]), base.clone(), json!([[1], [2, 1], []])] {
                        put!(k, qc(format!("$[?{q}=={v}]"), d.clone()));
                        put!(k, qc(format!("$[?vv({q})=={v}]"), d.clone()));
                        put!(k, qc(format!("$[?count({q})==1]"), d.clone()));
                        put!(k, qc(format!("$[?vl({q})]"), d.clone()));
                    }
                }
            }
            loop {
                let q = singular(r);
                let mut t = String::new();
                Ren { r, sp: 0, canon: false }.query(&q, &mut t);
                let d = container(r, 4);
                let e = match r.below(5) {
                    0 => format!("{t}==$.absent"),
                    1 => format!("{t}=={}", r.pick(NUMS)),
                    2 => {
                        let q2 = singular(r);
                        let mut u = String::new();
                        Ren { r, sp: 0, canon: false }.query(&q2, &mut u);
                        format!("{t}=={u}")
                    }
                    3 => format!("vv({t})==@"),
                    _ => format!("length({t})!=$.absent"),
                };
                put!(k, qc(format!("$[?{e}]"), d));
            }
        }
        "C10" => {
            let strs = ["", "a", "ab", "é", "e\u{301}", "☺", "𝄞𝄞", "a\nb", "\r", "\n", "abc", "xabcx", "b", "ax", "xb", "a|b", "aa"];
            let pats = ["", "a", "a|b", "ab|b", ".", "..", ".*", "a.b", "(", "a)|(b", ")(", "[", "^a", "a$", "^a$", "a|", "|b", "[a-b]+", "é", "☺", "\\\\w+", "a{2}", "\\\\p{L}", "b|xabcx", "x|ax", "*", "a**"];
            for st in strs {
                for (f, p) in [("match", 0), ("search", 0)].iter().flat_map(|(f, _)| pats.iter().map(move |p| (f, p))) {
                    put!(k, qc(format!("$[?{f}(@,'{p}')]"), json!([st])));
                    put!(k, qc(format!("$[?{f}(@.s,@.p)]"), json!([{"s": st, "p": p.replace("\\\\", "\\")}])));
                }
                for n in 0..5 {
                    put!(k, qc(format!("$[?length(@)=={n}]"), json!([st, {"a": st}])));
                }
                put!(k, qc(format!("$[?length(\"{}\")==1]", st.replace('\n', "\\n").replace('\r', "\\r")), json!([1])));
            }
            // characters that something might drop at an end, or take for a line end
            for c in ["\0", " ", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "\u{1f}", "\u{7f}", "^", "$", "\\", "/", "\"", "'", "I", "\u{130}", "\u{df}"] {
                for st in [c.to_string(), format!("a{c}"), format!("{c}a"), format!("a{c}a"), format!("{c}{c}")] {
                    for p in ["", ".", "..", ".*", "a", "a.", ".a", "a.a", "a.*", "[^a]", "a+"] {
                        for f in ["match", "search"] {
                            put!(k, qc(format!("$[?{f}(@,'{p}')]"), json!([st])));
                        }
                    }
                    for n in 0..4 {
                        put!(k, qc(format!("$[?length(@)=={n}]"), json!([st])));
                    }
                }
            }
            for c in big_cases(prop) {
                put!(k, c);
            }
            for v in scalars().into_iter().chain(nested()) {
                for n in 0..4 {
                    put!(k, qc(format!("$[?length(@.v)=={n}]"), json!([{"v": v}, {}])));
                    put!(k, qc(format!("$[?count(@.v.*)=={n}]"), json!([{"v": v}, {}])));
                    put!(k, qc(format!("$[?count(@..*)=={n}]"), json!([{"v": v}, {}])));
                }
                for e in ["length(@.v)==$.absent", "value(@.v.*)==1", "value(@.v.*)==$.absent", "value(@.*)==@.v", "value(@.v)==@.v", "value(@..a)==1", "match(@.v,'a')", "search(@.v,'a')", "match('a',@.v)", "search('a',@.v)", "match(@.x,'a')", "!match(@.v,'a.*')", "length(value(@.v.*))==1", "count(@['v','v'])==2"] {
                    put!(k, qc(format!("$[?{e}]"), json!([{"v": v}, {}])));
                }
            }
            loop {
                let name = *r.pick(&["length", "count", "value", "match", "search"]);
                let (ps, ret) = sig(name).unwrap();
                let f = Func { name: name.into(), args: ps.iter().map(|t| arg(r, 1, *t)).collect() };
                let e = if ret == Ty::L { Expr::Func(f) } else { Expr::Cmp(cmp(r), Operand::Func(f), if r.p(1, 2) { Operand::Lit(Lit::Num(r.below(4).to_string())) } else { operand(r, 0) }) };
                let mut o = String::new();
                Ren { r, sp: 0, canon: false }.expr(&e, &mut o, 2);
                let d = container(r, 3);
                put!(k, qc(format!("$[?{o}]"), d));
            }
        }
        "C11" => {
            let args = ["1", "'a'", "null", "true", "@", "@.a", "$[0]", "@.*", "@..a", "@['a','b']", "@[0:1]", "@.a==1", "@.a&&@.b", "!@.a", "(@.a)", "(@.a==1)", "length(@)", "value(@.*)", "vv(@)", "nn(@.*)", "nn(@)", "vl(@)", "nl(@.*)", "match(@,'a')", "ll(@.a)", "nope(@)", "count(@)", "zero()", "!vl(@)", "vl(@)&&vl(@)", "nl(1)", "lv(1)", "@[?@.a]", "f(@)"];
            let d = json!([{"a": 1, "b": [1, 2]}, [0, 1], "a", 1, null, {}, {"a": {"a": "b"}}]);
            let ctxs: [&dyn Fn(&str) -> String; 4] = [&|c| format!("$[?{c}]"), &|c| format!("$[?{c}==1]"), &|c| format!("$[?!{c}]"), &|c| format!("$[?@.a<{c}]")];
            // names that no function has: those other systems know, and those next to a name that exists
            let mut names: Vec<String> = ["size", "len", "keys", "values", "min", "max", "sum", "avg", "concat", "index", "first", "last", "append", "type", "is_null", "exists", "not", "contains", "starts_with", "ends_with", "matches", "regex", "lower", "upper", "abs", "int", "string", "number", "bool", "empty", "distinct", "sort", "reverse", "test", "find", "cnt", "val", "path", "key", "null", "true", "shout", "Shout", "kebab-case", "_under", "dotted.name", "1st", "caf\u{e9}", "camelCase"].iter().map(|s| s.to_string()).collect();
            for (name, ..) in FUNCS {
                names.extend([format!("{name}s"), format!("{name}_"), format!("{name}1"), format!("{name}{name}"), format!("a{name}"), format!("{name}_func")]);
                for i in 0..name.len() {
                    names.extend([name[..i].to_string(), name[i..].to_string(), format!("{}{}", &name[..i], &name[i + 1..])]);
                    for j in 0..2 {
                        let (x, y, z) = (&name[..i], &name[i..i + 1], &name[i + 1..]);
                        names.push(if j == 0 { format!("{x}{y}{y}{z}") } else { format!("{x}{}{z}", y.to_uppercase()) });
                    }
                }
            }
            for n in names {
                for a in ["@", "@.*", "@.a==1", "@,'a'", ""] {
                    for x in &ctxs[..2] {
                        put!(k, tc(x(&format!("{n}({a})"))));
                    }
                }
            }
            for (name, ps, _) in FUNCS.iter().chain([&("nope", &[Ty::V] as &[Ty], Ty::V)]) {
                let mut calls = vec![format!("{name}()")];
                for a in args {
                    calls.push(format!("{name}({a})"));
                    if ps.len() != 1 {
                        for b in if ps.len() > 1 { &args[..] } else { &args[..2] } {
                            calls.push(format!("{name}({a},{b})"));
                            if ps.len() == 3 && a.len() < 4 {
                                for c in args {
                                    calls.push(format!("{name}({b}, {a} ,{c})"));
                                }
                            }
                        }
                    } else {
                        calls.push(format!("{name}({a},1)"));
                    }
                }
                for c in calls {
                    for x in ctxs {
                        put!(k, tc(x(&c)));
                        put!(k, qc_if(x(&c), &d));
                    }
                }
            }
            // far too many arguments
            for (name, ps, _) in FUNCS {
                for n in [3usize, 4, 5, 7, 8, 9, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025] {
                    for a in ["1", "@.*", "@.a==1"] {
                        let t = (0..n).map(|_| a).collect::<Vec<_>>().join(",");
                        put!(k, tc(format!("$[?{name}({t})]")));
                        put!(k, tc(format!("$[?{name}({t})==1]")));
                    }
                    let t = (0..ps.len() + n).map(|i| match ps.get(i) { Some(Ty::N) => "@.*", Some(Ty::L) => "@.a==1", _ => "1" }).collect::<Vec<_>>().join(",");
                    put!(k, tc(format!("$[?{name}({t})]")));
                    put!(k, tc(format!("$[?{name}({t})==1]")));
                }
            }
            // a call with many arguments: all right, one of another kind, one more, one less, two swapped
            let right = |t: Ty, i: usize| match t {
                Ty::V => ["1", "@.a", "'x'", "length(@)"][i % 4],
                Ty::N => ["@.*", "@..a", "@['a','b']"][i % 3],
                Ty::L => ["@.a==1", "!@.a", "ll(@.a)", "@.a&&@.b"][i % 4],
            };
            for (name, ps, ret) in FUNCS {
                let good: Vec<String> = ps.iter().enumerate().map(|(i, t)| right(*t, i).to_string()).collect();
                let mut alls = vec![good.clone()];
                for i in 0..good.len() {
                    for a in args {
                        let mut g = good.clone();
                        g[i] = a.to_string();
                        alls.push(g);
                    }
                    let mut g = good.clone();
                    g.remove(i);
                    alls.push(g);
                    for j in 0..i {
                        let mut g = good.clone();
                        g.swap(i, j);
                        alls.push(g);
                    }
                }
                for a in ["1", "@.*", "@.a==1"] {
                    for i in 0..=good.len() {
                        let mut g = good.clone();
                        g.insert(i, a.to_string());
                        alls.push(g);
                    }
                }
                for g in alls {
                    let c = format!("{name}({})", g.join(","));
                    if *ret == Ty::V {
                        put!(k, tc(format!("$[?{c}==1]")));
                        put!(k, qc_if(format!("$[?{c}!=@.a]"), &d));
                        // what it gives, exactly
                        if let Ok(q) = crate::parse::parse(&format!("$[?{c}==0]")) {
                            if let [Sel::Filter(Expr::Cmp(_, o, _))] = &q.segs[0].sels[..] {
                                for cur in d.as_array().unwrap() {
                                    if let Some(v @ Value::Number(_)) = crate::eval::operand(o, cur, &d) {
                                        put!(k, qc_if(format!("$[?{c}=={v}]"), &d));
                                    }
                                }
                            }
                        }
                    } else {
                        put!(k, tc(format!("$[?{c}]")));
                        put!(k, qc_if(format!("$[?{c}]"), &d));
                    }
                }
            }
            loop {
                // random call with arguments of random kinds
                let f = r.pick(FUNCS);
                let n = if r.p(1, 8) { r.below(4) } else { f.1.len() };
                let mut t = format!("{}(", f.0);
                for i in 0..n {
                    if i > 0 {
                        t.push(',');
                    }
                    let want = if r.p(1, 4) { *r.pick(&[Ty::V, Ty::L, Ty::N]) } else { f.1.get(i).copied().unwrap_or(Ty::V) };
                    let a = arg(r, 2, want);
                    let ff = Func { name: "x".into(), args: vec![a] };
                    let mut o = String::new();
                    Ren { r, sp: 0, canon: false }.func(&ff, &mut o);
                    t.push_str(&o[2..o.len() - 1]);
                }
                t.push(')');
                let t = match r.below(3) {
                    0 => format!("$[?{t}]"),
                    1 => format!("$[?{t}==@.a]"),
                    _ => format!("$[?!{t}||@.a]"),
                };
                put!(k, tc(t.clone()));
                let d = container(r, 3);
                put!(k, qc_if(t, &d));
            }
        }
        "C12" => {
            let mut pool: Vec<i128> = (-40..=40).collect();
            for b in [1i128 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 26, 1 << 27, 94906265, 94906266, 1 << 31, 1 << 32, 1 << 52, 1 << 53, 1 << 54, 1 << 62, 1 << 63, 1 << 64, 1 << 100, i128::MAX - 3] {
                for dlt in -2..=2 {
                    pool.push(b + dlt);
                    pool.push(-(b + dlt));
                }
            }
            for a in &pool {
                for b in &pool {
                    put!(k, json!({"kind": "int", "a": a.to_string(), "b": b.to_string()}));
                }
            }
            for t in ["", "-", "+", "+1", "-0", "00", "01", "1.0", "1e1", " 1", "1 ", "0x1", "١", "9007199254740992", "-9007199254740992", "99999999999999999999", "9223372036854775808", "--1", "1-", "-00012", "1_0"] {
                put!(k, json!({"kind": "inttext", "text": t}));
            }
            loop {
                let sh = r.below(100);
                let mut x = || -> i128 { ((r.next() as i128) << 64 | r.next() as i128) >> (28 + sh) };
                let (a, b) = (x(), x());
                put!(k, json!({"kind": "int", "a": a.to_string(), "b": b.to_string()}));
                let t: String = (0..r.below(20)).map(|_| *r.pick(&['0', '1', '9', '5', '-', '+', '7', ' '])).collect();
                put!(k, json!({"kind": "inttext", "text": t}));
            }
        }
        "C14" => {
            for n in (0..(if thorough { 300 } else { 40 })).chain([64, 127, 128, 129, 255, 256, 257, 511, 513, 1024, 1025, 2049, 65535, 65536, 65537]) {
                for v in 0..4 {
                    put!(k, json!({"kind": "accessors", "len": n, "variant": v}));
                }
            }
        }
        "C17" => {
            for c in long_texts() {
                put!(k, c);
            }
            for t in TEXTS {
                put!(k, tc(t.to_string()));
            }
            for t in stress_texts() {
                put!(k, tc(t));
            }
            // every kind of character at the ends and in the middle of a name, and between tokens
            for c in some_chars() {
                for t in [
                    format!("$.{c}"), format!("$.a{c}"), format!("$.{c}a"), format!("$.a{c}b"), format!("$..{c}"), format!("$..a{c}"), format!("$..{c}a"), format!("$.a{c}{c}"), format!("$['a{c}']"),
                    format!("$[\"{c}a\"]"), format!("$[?@.a{c}==1]"), format!("$[?@.{c}a]"), format!("$[?@=='{c}']"), format!("$[?@=='a{c}']"), format!("$[?f{c}(@)]"), format!("$[0{c}]"),
                    format!("$[{c}0]"), format!("$[?{c}@.a]"), format!("$[?@.a{c}&&@.b]"), format!("$[?@.a=={c}1]"), format!("$[?length(@.a{c})==1]"), format!("$[?length({c}@.a)==1]"), format!("${c}.a"),
                    format!("{c}$.a"), format!("$.a{c}.b"), format!("$.{c}*"), format!("$[*{c}]"), format!("$[1{c}:2]"), format!("$['a'{c},0]"), format!("$[?@.a{c}<1]"), format!("$.a{c}1"), format!("$.a{c}[0]"),
                ] {
                    put!(k, tc(t));
                }
            }
            for c in every_char() {
                put!(k, tc(format!("$.a{c}")));
                put!(k, tc(format!("$.{c}")));
                put!(k, tc(format!("$['{c}']")));
            }
            short_texts(k, thorough);
            loop {
                let q = query(r, 3, true, 4);
                let t = render(&q, r, 1, false);
                if r.p(1, 2) {
                    put!(k, tc(t.clone()));
                }
                let n = 1 + r.below(3);
                let m = mutate(r, &t, n);
                put!(k, tc(m));
            }
        }
        "C18" => {
            for c in long_texts() {
                put!(k, c);
            }
            for t in stress_texts() {
                put!(k, tc(format!("{t}]")));
                {
                    let mut u = t.clone();
                    u.pop();
                    put!(k, tc(u));
                }
                put!(k, tc(t.replace("==1", "==\u{e9}1")));
                put!(k, tc(t));
            }
            for c in some_chars() {
                for t in [
                    format!("$[?'{c}'=1]"), format!("$.a{c}["), format!("$['{c}'x"), format!("$['a{c}"), format!("{c}$"), format!("${c}"), format!("$.{c}"), format!("$[?@.{c}=="), format!("$[?f{c}(@)]"),
                    format!("$[0{c}]"), format!("$..{c}"), format!("$['{c}{c}']]"), format!("$[?@=='{c}'{c}]"), format!("$['\\{c}']"), format!("$['\\u{c}']"), format!("$['\\ud83d\\{c}']"), format!("$['\\ud83d{c}']"),
                    format!("$[?length('{c}')]"), format!("$[?nope('{c}')]"), format!("$['{c}', 9007199254740992]"), format!("$['{c}'][?@=={c}]"),
                ] {
                    put!(k, tc(t));
                }
            }
            for t in TEXTS {
                let cs: Vec<char> = t.chars().collect();
                for i in 0..=cs.len() {
                    put!(k, tc(cs[..i].iter().collect()));
                    put!(k, tc(cs[..i].iter().collect::<String>() + "é"));
                    put!(k, tc(cs[..i].iter().collect::<String>() + "\u{0}"));
                }
            }
            for c in every_char() {
                put!(k, tc(format!("$['{c}'")));
            }
            short_texts(k, thorough);
            loop {
                let q = query(r, 3, true, 4);
                let t = render(&q, r, 1, false);
                let cs: Vec<char> = t.chars().collect();
                let cut = r.below(cs.len() + 1);
                put!(k, tc(cs[..cut].iter().collect()));
                let n = 1 + r.below(6);
                let m = mutate(r, &t, n);
                put!(k, tc(m));
            }
        }
        "C19" => {
            for c in long_texts() {
                put!(k, c);
            }
            for t in TEXTS {
                put!(k, tc(t.to_string()));
            }
            for t in stress_texts() {
                put!(k, tc(t));
            }
            for key in KEYS {
                let mut o = String::new();
                Ren { r, sp: 0, canon: true }.str(key, &mut o);
                for t in [format!("$[{o}]"), format!("$..[{o},{o}]"), format!("$[?@[{o}]==1]"), format!("$[?@=={o}]"), format!("$[?match(@,{o})]"), format!("$[?@[{o}]]")] {
                    put!(k, tc(t));
                }
            }
            for c in some_chars() {
                let mut o = String::new();
                Ren { r, sp: 0, canon: true }.str(&format!("x{c}y"), &mut o);
                put!(k, tc(format!("$[{o}][?@=={o}]")));
                if shorthand_ok(&format!("x{c}y")) {
                    put!(k, tc(format!("$.x{c}y..x{c}y")));
                }
            }
            for i in 0..2000 {
                let d = 1 + r.below(17);
                let m = (r.below(1 << 30) as u64 * r.below(1 << 30) as u64) % 10u64.pow(d as u32);
                let e = r.below(640) as i64 - 320;
                let n = if i % 2 == 0 { format!("{m}e{e}") } else { format!("-{}.{m}", r.below(1000)) };
                put!(k, tc(format!("$[?@=={n}]")));
            }
            loop {
                let q = query(r, 3, true, 4);
                let t = render(&q, r, 1, false);
                put!(k, tc(t));
            }
        }
        "C20" => {
            let lc = |l: String, d: Option<String>| json!({"kind": "literal", "literal": l, "denotes": d});
            for c in (0..=0x10ffffu32).step_by(1) {
                let Some(ch) = char::from_u32(c) else { continue };
                if c > 0x300 && c % (if thorough { 7 } else { 997 }) != 0 && !(0xd700..0xe100).contains(&c) {
                    continue;
                }
                for q in ['\'', '"'] {
                    let raw_ok = c >= 0x20 && ch != q && ch != '\\';
                    put!(k, lc(format!("{q}{ch}{q}"), raw_ok.then(|| ch.to_string())));
                    put!(k, lc(format!("{q}a{ch}c{q}"), raw_ok.then(|| format!("a{ch}c"))));
                    let esc = match ch {
                        'b' => Some('\u{8}'),
                        'f' => Some('\u{c}'),
                        'n' => Some('\n'),
                        'r' => Some('\r'),
                        't' => Some('\t'),
                        '/' => Some('/'),
                        '\\' => Some('\\'),
                        c if c == q => Some(q),
                        _ => None,
                    };
                    put!(k, lc(format!("{q}\\{ch}{q}"), esc.map(String::from)));
                    put!(k, lc(format!("{q}x\\{ch}y{q}"), esc.map(|e| format!("x{e}y"))));
                }
            }
            for u in 0..=0xffffu32 {
                if !thorough && u > 0x300 && u % 37 != 0 && !(0xd7f0..=0xe010).contains(&u) {
                    continue;
                }
                let t = match u % 3 {
                    0 => format!("{u:04x}"),
                    1 => format!("{u:04X}"),
                    _ => format!("{u:04x}").char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                };
                let d = char::from_u32(u).map(String::from);
                put!(k, lc(format!("'\\u{t}'"), d.clone()));
                put!(k, lc(format!("\"q\\u{t}0\""), d.map(|d| format!("q{d}0"))));
            }
            // long literals, of one fragment and of many
            for n in [8usize, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 2049, 4097, 8193, 65535, 65536, 65537] {
                for (t, d) in [("a", "a"), ("\\t", "\t"), ("b\\n", "b\n"), ("\\u0041", "A"), ("\\ud83d\\ude00c", "\u{1f600}c"), ("\u{e9}\\/", "\u{e9}/"), (" ", " "), ("\\\\", "\\"), ("a\\'", "a'")] {
                    put!(k, lc(format!("'{}'", t.repeat(n)), Some(d.repeat(n))));
                    put!(k, lc(format!("'{}\\fz'", t.repeat(n)), Some(format!("{}\u{c}z", d.repeat(n)))));
                    if !t.contains('\'') {
                        put!(k, lc(format!("\"x\\r{}\"", t.repeat(n)), Some(format!("x\r{}", d.repeat(n)))));
                        put!(k, lc(format!("\"{}\\x\"", t.repeat(n)), None));
                    }
                }
            }
            // surrogates
            let hs = [0xd800u32, 0xd801, 0xd83d, 0xd9ab, 0xdabc, 0xdbff, 0xdb00, 0xda00, 0xd900];
            let ls = [0xdc00u32, 0xdc01, 0xde00, 0xddef, 0xdfff, 0xdd00, 0xdf00];
            let all: Vec<u32> = hs.iter().chain(&ls).copied().chain([0x41, 0xd7ff, 0xe000]).collect();
            for &h in &all {
                for &l in &all {
                    for up in 0..4 {
                        let f = |x: u32, u: bool| if u { format!("{x:04X}") } else { format!("{x:04x}") };
                        let t = format!("\\u{}\\u{}", f(h, up & 1 == 1), f(l, up & 2 == 2));
                        let d = String::from_utf16(&[h as u16, l as u16]).ok();
                        put!(k, lc(format!("'{t}'"), d.clone()));
                        put!(k, lc(format!("\"{t}\""), d));
                    }
                }
                for tail in ["", "\\", "\\u", "\\ud", "\\udc0", "x", "\\n", "\\\\udc00", "udc00"] {
                    let t = format!("'\\u{h:04x}{tail}'");
                    let exp = crate::parse::parse(&format!("$[{t}]")).ok().map(|q| match &q.segs[0].sels[0] {
                        Sel::Name(n) => n.clone(),
                        _ => unreachable!(),
                    });
                    put!(k, lc(t, exp));
                }
            }
            // every half of a pair, in every mixture of cases
            for (u, high) in (0xd800..0xdc00u32).map(|u| (u, true)).chain((0xdc00..0xe000).map(|u| (u, false))) {
                let mut seen = std::collections::HashSet::new();
                for mask in 0..16u32 {
                    let t: String = format!("{u:04x}").chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                    if !seen.insert(t.clone()) {
                        continue;
                    }
                    if high {
                        put!(k, lc(format!("'\\u{t}\\uDc5a'"), String::from_utf16(&[u as u16, 0xdc5a]).ok()));
                    } else {
                        put!(k, lc(format!("'\\uD8a5\\u{t}'"), String::from_utf16(&[0xd8a5, u as u16]).ok()));
                    }
                }
            }
            for c in every_char() {
                let u = c as u32;
                if u >= 0x80 {
                    put!(k, lc(format!("'{c}'"), Some(c.to_string())));
                    put!(k, lc(format!("\"{c}\""), Some(c.to_string())));
                    put!(k, lc(format!("\"\\{c}\""), None));
                    if u < 0x10000 {
                        put!(k, lc(format!("'\\u{u:04x}'"), Some(c.to_string())));
                    } else {
                        let mut b = [0u16; 2];
                        c.encode_utf16(&mut b);
                        put!(k, lc(format!("'\\u{:04X}\\u{:04x}'", b[0], b[1]), Some(c.to_string())));
                    }
                }
            }
            loop {
                let q = *r.pick(&['\'', '"']);
                let n = r.below(6);
                let mut body = String::new();
                for _ in 0..n {
                    let pick = r.below(12);
                    match pick {
                        0 => body.push_str(r.pick(&["\\n", "\\t", "\\r", "\\b", "\\f", "\\/", "\\\\", "\\'", "\\\"", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\uD83D\\uDE00", "\\ud83d", "\\udc00", "\\x", "\\u00", "\\u+041", "\\U0041", "\\0", "\\a"])),
                        1 => body.push(*r.pick(&['\'', '"'])),
                        2 => body.push_str(&format!("\\u{:04x}", r.below(0x10000))),
                        3 => body.push_str(&format!("\\u{:04x}\\u{:04X}", 0xd800 + r.below(0x400), 0xdc00 + r.below(0x400))),
                        4 => body.push(char::from_u32(r.below(0xd800) as u32).unwrap()),
                        5 => body.push(char::from_u32(r.below(0x30) as u32).unwrap()),
                        _ => body.push_str(r.pick(&["a", "b", " ", "é", "☺", "𝄞", "u", "0"])),
                    }
                }
                let l = format!("{q}{body}{q}");
                let exp = match crate::parse::parse(&format!("$[{l}]")) {
                    Ok(qq) if qq.segs.len() == 1 && qq.segs[0].sels.len() == 1 => match &qq.segs[0].sels[0] {
                        Sel::Name(n) => Some(n.clone()),
                        _ => continue,
                    },
                    Ok(_) => continue,
                    Err(_) => None,
                };
                put!(k, lc(l, exp));
            }
        }
        _ => {}
    }
}
/// the first characters, and those next to a boundary or of an unusual class
fn some_chars() -> Vec<char> {
    (0..0x180u32)
        .chain([0x2c0, 0x300, 0x301, 0x34f, 0x37e, 0x5d0, 0x61c, 0x660, 0x661, 0x7ff, 0x800, 0x966, 0xe01, 0x115f, 0x1680, 0x180e])
        .chain(0x2000..0x2010)
        .chain(0x2028..0x2030)
        .chain(0x205f..0x2065)
        .chain([0x20ac, 0x2160, 0x2212, 0x2215, 0x3000, 0x3001, 0x30a2, 0x4e2d, 0xac00, 0xd7ff, 0xe000, 0xf8ff, 0xfe0f, 0xfeff])
        .chain([0xff04, 0xff0e, 0xff10, 0xff20, 0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7d8, 0x1f3fb, 0x1f600, 0xe0001, 0xe0100, 0xffffd, 0x10fffd, 0x10ffff])
        .filter_map(char::from_u32)
        .collect()
}
/// every character there is
fn every_char() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(char::from_u32)
}
fn words(al: &[&str], n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = out.len();
        for i in from..to {
            for a in al {
                out.push(format!("{}{a}", out[i]));
            }
        }
        from = to;
    }
    out
}
/// long and deep queries
fn stress_texts() -> Vec<String> {
    let mut v = vec![];
    for n in [2usize, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] {
        let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        v.push(format!("${}", list(&|i| format!(".k{i}"), "")));
        v.push(format!("${}", list(&|i| format!("[{i}]"), "")));
        v.push(format!("${}", list(&|i| format!("['k{i}']"), " ")));
        v.push(format!("$[{}]", list(&|i| format!("{i}"), ",")));
        v.push(format!("$[{}]", list(&|i| format!("'k{i}'"), " , ")));
        v.push(format!("$[{}]", list(&|i| format!("{}:{}", i, i + 2), ",")));
        v.push(format!("$[?{}]", list(&|i| format!("@.k{i}"), "||")));
        v.push(format!("$[?{}]", list(&|i| format!("@.k{i}!=1"), " && ")));
        v.push(format!("$[?{}]", list(&|i| format!("@=={i}"), "||")));
        v.push(format!("$[{}]", list(&|i| format!("?@.k{i}==1"), ",")));
        v.push(format!("$.{}", "a".repeat(n)));
        v.push(format!("$.a{}", "1".repeat(n)));
        v.push(format!("$.é{}", "é☺".repeat(n)));
        v.push(format!("$['{}']", "ab".repeat(n)));
        v.push(format!("$[\"{}\"]", "é".repeat(n)));
        v.push(format!("$['{}']", "\\u0041".repeat(n)));
        v.push(format!("$['{}']", "a\\t\\ud83d\\ude00".repeat(n)));
        v.push(format!("$[?@=='{}']", "x y".repeat(n)));
        v.push(format!("$[{}0{}]", " ".repeat(n), "\t".repeat(n)));
        v.push(format!("${}.a", " \n".repeat(n)));
        v.push(format!("$[?@{}=={}1]", " ".repeat(n), "\n".repeat(n)));
        v.push(format!("$[{}]", "1".repeat(n)));
        v.push(format!("$[1:-{}]", "2".repeat(n)));
        v.push(format!("$[?@=={}]", "1".repeat(n)));
        v.push(format!("$[?@==-{}]", "12".repeat(n)));
        v.push(format!("$[?@==0.{}]", "0".repeat(n)));
        v.push(format!("$[?@==0.{}1]", "0".repeat(n)));
        v.push(format!("$[?@==1.{}]", "25".repeat(n)));
        v.push(format!("$[?@==1e{}1]", "0".repeat(n)));
        v.push(format!("$[?@==1E-{n}]"));
        v.push(format!("$[?@==1e+{n}]"));
        v.push(format!("$[?@=={n}e{n}]"));
        if n <= 130 {
            v.push(format!("$[?{}@.a{}]", "(".repeat(n), ")".repeat(n)));
            v.push(format!("$[?{}@.a==1{}]", "!(".repeat(n), ")".repeat(n)));
            v.push(format!("$[?{}@{}==1]", "vv(".repeat(n), ")".repeat(n)));
        }
        if n <= 6 {
            v.push(format!("$..{}", list(&|_| "a".into(), "..")));
            v.push(format!("${}@.a{}", "[?@".repeat(n), "]".repeat(n)));
        }
    }
    v
}
/// long, wide and deep documents
pub fn stress() -> Vec<Value> {
    let mut chain = json!(1);
    for i in 0..70 {
        chain = match i % 3 {
            0 => json!([chain]),
            1 => json!({"a": chain}),
            _ => json!([0, chain, 1]),
        };
    }
    let wide: serde_json::Map<String, Value> = (0..300).map(|i| (format!("k{i}"), json!(i))).collect();
    let long: serde_json::Map<String, Value> = (1..300).step_by(7).map(|i| ("x/~'y".repeat(i), json!(i))).collect();
    vec![chain, (0..1100).map(|i| json!(i % 7)).collect::<Vec<_>>().into(), (0..40).map(|i| (0..i).map(Value::from).collect::<Vec<_>>().into()).collect::<Vec<Value>>().into(), Value::Object(wide), Value::Object(long)]
}
fn qc_if(q: String, d: &Value) -> Value {
    qc(q, d.clone())
}
fn jiggle(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Number(n) => match (n.as_i64(), n.as_f64()) {
            (Some(i), _) if i.abs() < 1 << 53 && r.p(2, 3) => json!(i as f64),
            (None, Some(f)) if f.fract() == 0.0 && f.abs() < 1e15 => json!(f as i64),
            _ => v.clone(),
        },
        Value::Array(a) => {
            let mut x: Vec<Value> = a.iter().map(|e| jiggle(r, e)).collect();
            if r.p(1, 8) {
                x.push(json!(null));
            }
            if r.p(1, 8) {
                x.reverse();
            }
            x.into()
        }
        Value::Object(o) => {
            let mut m: serde_json::Map<String, Value> = o.iter().map(|(k, e)| (k.clone(), jiggle(r, e))).collect();
            if r.p(1, 8) {
                m.insert("b".into(), json!(null));
            }
            Value::Object(m)
        }
        _ => {
            if r.p(1, 12) {
                scalar(r)
            } else {
                v.clone()
            }
        }
    }
}
const ALPHA: &[&str] = &[
    "$", "@", ".", "..", "*", "[", "]", "'", "\"", ",", ":", "?", "!", "(", ")", "&&", "||", "&", "|", "==", "=", "!=", "<", ">", "<=", ">=", " ", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{a0}", "0", "1", "-", "-0", "01", "+", "e", "E", "1e", "1.", ".5", "9007199254740991", "9007199254740992",
    "-9007199254740992", "a", "b", "_", "é", "☺", "\\", "\\u", "\\ud83d", "\\u0041", "true", "false", "null", "True", "length(", "count(@.*)", "f(@)", "vl(", "match(", "nope(", "x", "\u{0}", "\u{7f}", "\u{80}", "/", "~", "#", ";", "{", "}", "1.5", "1e2", "1E+2", "length", "()", "['a']", "[0]", "[1:2]", "[?@.a]", ".a", "..a", ".*", "@.a", "==1",
];
pub fn mutate(r: &mut Rng, t: &str, n: usize) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..n {
        let i = r.below(c.len() + 1);
        match r.below(5) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => {
                let ins: Vec<char> = r.pick(ALPHA).chars().collect();
                c.splice(i..i + 1, ins);
            }
            2 if i < c.len() => {
                let x = c[i];
                c.insert(i, x);
            }
            3 if i + 1 < c.len() => c.swap(i, i + 1),
            _ => {
                let ins: Vec<char> = r.pick(ALPHA).chars().collect();
                c.splice(i..i, ins);
            }
        }
    }
    c.into_iter().collect()
}
fn short_texts(k: &mut Sink, thorough: bool) {
    // every sequence of up to N tokens after "$" (and up to M inside a filter / a bracket)
    let seg: &[&str] = &["$", "@", ".", "*", "[", "]", "'", "a", "0", ",", ":", "?", " ", "-", "1", "\"", "..", "e"];
    let fil: &[&str] = &["@", "$", ".a", "[0]", "==", "<", "!", "(", ")", "&&", "||", "1", "'a'", "null", " ", "f(", "true", "length(", ",", "@.*", "-"];
    let num: &[&str] = &["0", "1", "9", "-", "+", ".", "e", "E", " ", ":"];
    fn rec(k: &mut Sink, pre: &str, al: &[&str], post: &str, n: usize) -> bool {
        if !k(tc(format!("{pre}{post}"))) {
            return false;
        }
        if n == 0 {
            return true;
        }
        for a in al {
            if !rec(k, &format!("{pre}{a}"), al, post, n - 1) {
                return false;
            }
        }
        true
    }
    let x = thorough as usize;
    let _ = rec(k, "", seg, "", 2)
        && rec(k, "$", seg, "", 3 + x)
        && rec(k, "$[", num, "]", 4 + x)
        && rec(k, "$[?@==", num, "]", 4 + x)
        && rec(k, "$[?", fil, "]", 3 + x);
}
pub const TEXTS: &[&str] = &[
    "$", "$[?kebab-case(@)]", "$[?_under(@)]", "$[?dotted.name(@)]", "$[?1st(@)]", "$[?caf\u{e9}(@)]", "$[?camelCase(@)]", "$[?Shout(@)]", "$[?shout(@)]", "$ ", " $", "", "@", "$.a", "$ .a", "$. a", "$..a", "$ ..a", "$\n..a", "$.. a", "$..[0]", "$ ..[0]", "$.. [0]", "$..*", "$...a", "$..", "$.", "$.a.", "$.*", "$[*]", "$[ * ]", "$ [ 'a' ]", "$[]", "$[,]", "$[0,]", "$[,0]", "$[0 , 1]", "$[0 1]", "$['a']", "$[\"a\"]", "$['a\"]", "$['it\\'s']",
    "$[\"it\\'s\"]", "$['\\\"']", "$[\"\\\"\"]", "$['']", "$[-0]", "$[0]", "$[00]", "$[01]", "$[-1]", "$[--1]", "$[+1]", "$[1.0]", "$[1e0]", "$[9007199254740991]", "$[9007199254740992]", "$[-9007199254740991]", "$[-9007199254740992]", "$[99999999999999999999999]", "$[:]", "$[::]", "$[:::]", "$[1:]", "$[:1]",
    "$[::1]", "$[1:2:3]", "$[ 1 : 2 : 3 ]", "$[1 :2]", "$[1: 2]", "$[1:2 :3]", "$[1::-1]", "$[-0:]", "$[:-0]", "$[::-0]", "$[:01]", "$[1:2:9007199254740992]", "$[1:2:]", "$[ :: ]", "$[0,1:2,'a',*,?@.a]", "$[?@]", "$[?@.a]", "$[? @.a ]", "$[?(@.a)]", "$[?( @.a )]", "$[?!@.a]", "$[?! @.a]", "$[?!!@.a]",
    "$[?!(@.a)]", "$[?! (@.a)]", "$[?!(!@.a)]", "$[?@.a==1]", "$[?@.a == 1]", "$[?@.a=1]", "$[?@.a===1]", "$[?1==@.a]", "$[?1==1]", "$[?1]", "$[?'a']", "$[?true]", "$[?null]", "$[?@.a==true]", "$[?@.a==True]", "$[?@.a==TRUE]", "$[?@.a==nul]", "$[?@.a==null]", "$[?@.a=='a']", "$[?@.a==\"a\"]", "$[?@.a==@.b]",
    "$[?@.a==$.b]", "$[?@.*==1]", "$[?@..a==1]", "$[?@[0,1]==1]", "$[?@[0:1]==1]", "$[?@[?@.a]==1]", "$[?1==@.*]", "$[?@[0]==1]", "$[?@[-1]==1]", "$[?@['a']==1]", "$[?@.a['b'][0].c==1]", "$[?@.a [0]==1]", "$[?@ .a==1]", "$[?@[ 'a' ]==1]", "$[?@.a&&@.b]", "$[?@.a && @.b]", "$[?@.a&@.b]", "$[?@.a||@.b]", "$[?@.a|@.b]",
    "$[?@.a&&@.b||@.c]", "$[?@.a||@.b&&@.c]", "$[?(@.a||@.b)&&@.c]", "$[?@.a&&]", "$[?&&@.a]", "$[?@.a==1&&@.b==2]", "$[?(@.a==1)==2]", "$[?(@.a)==1]", "$[?!@.a==1]", "$[?!(@.a==1)]", "$[?@.a!=1]", "$[?@.a<1]", "$[?@.a>1]", "$[?@.a<=1]", "$[?@.a>=1]", "$[?@.a< =1]", "$[?@.a<>1]", "$[?@.a=>1]", "$[?@.a==-1]", "$[?@.a==-0]",
    "$[?@.a==+1]", "$[?@.a==1.5]", "$[?@.a==1.]", "$[?@.a==.5]", "$[?@.a==1e5]", "$[?@.a==1E5]", "$[?@.a==1e+5]", "$[?@.a==1e-5]", "$[?@.a==1e]", "$[?@.a==1e+]", "$[?@.a==1.5e3]", "$[?@.a==01]", "$[?@.a==-01]", "$[?@.a==0.0]", "$[?@.a==-0.0]", "$[?@.a==00.1]", "$[?@.a==0e1]", "$[?@.a==1e400]", "$[?@.a==123456789012345678901234567890]",
    "$[?length(@)==1]", "$[?length(@.a)>1]", "$[?length( @.a )>1]", "$[?length (@.a)>1]", "$[?length(@.a,1)>1]", "$[?length()>1]", "$[?length(@.*)>1]", "$[?length(@.a)]", "$[?!length(@.a)]", "$[?count(@.*)==1]", "$[?count(@)==1]", "$[?count(1)==1]", "$[?count(@.a==1)==1]", "$[?value(@.*)==1]", "$[?match(@,'a')]", "$[?match(@,'a')==true]",
    "$[?!match(@,'a')]", "$[?search(@.a,@.b)]", "$[?match(@.*,'a')]", "$[?Length(@)==1]", "$[?length1(@)==1]", "$[?f(@)]", "$[?f(1)]", "$[?f( 1 )]", "$[?f(true)]", "$[?f(@.a==1)]", "$[?ll(@.a==1)]", "$[?ll(@.a)]", "$[?ll(@.*)]", "$[?ll(@.a&&@.b)]", "$[?ll(!@.a)]", "$[?ll((@.a))]", "$[?ll(1)]", "$[?ll(vl(@)&&vl(@))]", "$[?ll(vl(@))]",
    "$[?ll(nn(@.*))]", "$[?nn(@.*)]", "$[?nn(@.*)==1]", "$[?nl(nn(@.*))]", "$[?nl(1)]", "$[?zero()==0]", "$[?zero( )==0]", "$[?zero(1)==0]", "$[?vn_3(@.*,1,@.a)]", "$[?vn_3(@.* , 1 , @.a)]", "$[?vn_3(@.*,1,@.a==1)]", "$[?vn_3(@.*,1)]", "$[?vv2(@,@)==1]", "$[?length(length(@))==1]", "$[?length(vv(@))==1]", "$[?ll(length(@)==1)]", "$[?ll(1==1)]",
    "$[?ll(true==@.a)]", "$[?ll('a'=='a')]", "$[?vv('a')==1]", "$[?vv(@.a)==vv(@.b)]", "$.é", "$.☺", "$.a☺1", "$._a", "$.1a", "$.-a", "$.a-b", "$.a b", "$.a\u{80}", "$.a\u{7f}", "$.\u{0}", "$['\u{0}']", "$['\u{1f}']", "$['\u{7f}']", "$['\u{80}']", "$['\\u0041']", "$['\\u004']", "$['\\u", "$[\"\\u", "$['\\ud83d\\ude00']", "$['\\uD83D\\uDE00']",
    "$['\\ud83d']", "$['\\ude00']", "$['\\ud83dx']", "$['\\ud83d\\u0041']", "$['\\x']", "$['\\", "$['", "$[\"", "$[", "$[?", "$[?@", "$[?@.", "$[?(", "$[?(@", "$[?f(", "$[?f(@", "$[?f(@,", "$[?!", "$[?@.a==", "$[?@.a==1e", "$[?@.a=='", "$[0", "$[0:", "$[0:1", "$[0:1:", "$[*", "$[-", "$[:", "$a", "$$", "$.a$", "$.a@", "$[@.a]", "$[a]", "$[?a]", "$[?a==1]",
    "$.a[?@.b==\"x\"].c[1:2]..d[*]", "$[?@.a[?@.b]]", "$[?@[?@[?@]]]", "$[?@.a == 'it\\'s']", "$[?@.a == \"\\\"\"]", "$.a.b.c", "$['a']['b']", "$..a..b", "$..[*]", "$..[?@.a]", "$..['a','b']", "$[?$]", "$[?$.a]", "$[?@.a,?@.b]", "$[?@.a ,?@.b]", "$[?(@.a),0]", "\u{feff}$", "$\u{feff}", "$\u{a0}.a", "$\u{b}.a", "$\u{c}.a", "$\t.a", "$\r.a", "$.a\n", "$.a ", "$\n\n[0]\n[1]",
    "$[?@.a==1 ]", "$[?@.a==1\n&&\t@.b\r||@.c]", "$[?((@.a))]", "$[?((@.a)&&(@.b))]", "$[?!(!(@.a))]", "$[?truex==1]", "$[?true(@)]", "$[?true==true]", "$[?nullx]", "$[?@==null&&@==true||@==false]", "$[?-1==@]", "$[?-@]", "$[?@.a in @.b]", "$[?@.a=~'b']", "$.length", "$.length()", "$[length(@)]", "$['a','b',\"c\"]", "$[\"a\" , 'b']", "$.a[ ?@.b ]", "$..[ 'a' , 'b' ]",
];
