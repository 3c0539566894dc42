//! Random and exhaustive-small generation, and rendering of oracle ASTs to query text.
use crate::ast::*;
use serde_json::{json, Map, Value};
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn p(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub const KEYS: &[&str] = &[
    "a", "b", "c", "ab", "", "0", "1", "-1", "a b", "it's", "\"", "\\", "/", "~", "~1", "~0", "a/b", "\u{1}", "\u{1f}", "\u{10}", "\n", "\r", "\t",
    "\u{8}", "\u{c}", "\u{b}", "\u{7f}", "é", "☺", "𝄞", "\u{ffff}", "length", "@", "$", "*", "_x", "A", "\u{2028}", "\u{80}", "e\u{301}", "\\n", "'\\",
];
pub const PLAIN: &[&str] = &["a", "b", "c"];
pub fn key(r: &mut Rng) -> String {
    if r.p(2, 3) {
        r.pick(PLAIN).to_string()
    } else if r.p(1, 4) {
        odd(r)
    } else {
        r.pick(KEYS).to_string()
    }
}
/// a name made of several characters that need care somewhere
pub fn odd(r: &mut Rng) -> String {
    let n = 2 + r.below(5);
    if r.p(1, 2) {
        // nothing that is escaped anywhere
        return (0..n)
            .map(|_| {
                *r.pick(&[
                    "a", "B", "0", "9", " ", "  ", ", ", ",", " , ", " && ", "&&", " || ", "||", ":", "::", " == ", "==", "!", "!=", "<", ">=", "?", "(", ")", "[", "]", "][", ".", "..", "...",
                    "$", "@", "*", "-", "+", "_", "#", "//", "%20", "{", "}", "null", "true", "false", "length(", "é", "É", "ß", "☺", "𝄞", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{3000}",
                    "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}", "`", "^", ";", "=", "~", "/",
                ])
            })
            .collect();
    }
    (0..n).map(|_| *r.pick(&["~", "/", "0", "1", "~0", "~1", "a", "'", "\"", "\\", "\\u", "n", " ", "\n", "\t", "\u{1}", "é", "☺", "𝄞", ".", "[", "]", "*", "$", "@"])).collect()
}
pub fn scalars() -> Vec<Value> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(-0.0), json!(1), json!(1.0), json!(-1), json!(2), json!(1.5), json!(10), json!(9),
        json!(9007199254740991i64), json!(-9007199254740991i64), json!(9007199254740992f64), json!(1e300), json!(-1e300), json!(0.1),
        json!(""), json!("a"), json!("b"), json!("ab"), json!("A"), json!("1"), json!("é"), json!("\u{ffff}"), json!("𝄞"), json!("true"), json!("a\nb"),
    ]
}
pub fn nested() -> Vec<Value> {
    vec![
        json!([]), json!({}), json!([1]), json!([1.0]), json!([2]), json!([0]), json!([-0.0]), json!([null]), json!([1, 2]), json!([2, 1]), json!([[1]]), json!([[1.0]]), json!([1, [2, {"a": 3}]]),
        json!([1, [2.0, {"a": 3.0}]]), json!({"a": 1}), json!({"a": 1.0}), json!({"a": null}), json!({"b": 1}), json!({"a": 1, "b": 2}), json!({"b": 2.0, "a": 1.0}),
        json!({"a": [1]}), json!({"a": [1.0]}), json!({"a": {"b": 1}}), json!({"a": {"b": 1.0}}), json!({"": 1}), json!([true]), json!(["a"]), json!([["a"], {"k": [1.0]}]), json!([["a"], {"k": [1]}]), json!([1, 1]),
        json!({"a": 1, "b": 3}), json!({"a": 1, "c": 2}),
    ]
}
pub fn scalar(r: &mut Rng) -> Value {
    if r.p(1, 2) {
        r.pick(&[json!(null), json!(true), json!(false), json!(0), json!(1), json!(1.0), json!(2), json!("a"), json!("b"), json!("")]).clone()
    } else {
        let s = scalars();
        r.pick(&s).clone()
    }
}
pub fn doc(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.p(1, 5) {
        return scalar(r);
    }
    let n = r.below(5);
    if r.p(1, 2) {
        Value::Array((0..n).map(|_| doc(r, depth - 1)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            m.insert(key(r), doc(r, depth - 1));
        }
        Value::Object(m)
    }
}
pub fn container(r: &mut Rng, depth: usize) -> Value {
    for _ in 0..20 {
        let d = doc(r, depth);
        if d.as_array().map_or(false, |a| !a.is_empty()) || d.as_object().map_or(false, |a| !a.is_empty()) {
            return d;
        }
    }
    json!([1, {"a": 2}])
}
pub const BIG: &[i64] = &[9007199254740991, -9007199254740991, 9007199254740990, -9007199254740990, 4503599627370496, 2147483648, -2147483649, 4294967296, -4294967296];
pub fn int(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => *r.pick(BIG),
        _ => r.below(13) as i64 - 6,
    }
}
pub fn sel(r: &mut Rng, d: usize) -> Sel {
    match r.below(if d > 0 { 6 } else { 5 }) {
        0 => Sel::Wild,
        1 => Sel::Name(key(r)),
        2 => Sel::Index(int(r)),
        3 => Sel::Slice(opt_int(r), opt_int(r), opt_int(r)),
        4 => Sel::Name(r.pick(PLAIN).to_string()),
        _ => Sel::Filter(expr(r, d - 1)),
    }
}
pub fn opt_int(r: &mut Rng) -> Option<i64> {
    if r.p(1, 2) {
        Some(int(r))
    } else {
        None
    }
}
pub fn seg(r: &mut Rng, d: usize) -> Seg {
    let n = if r.p(2, 3) { 1 } else { 1 + r.below(3) };
    Seg { desc: r.p(1, 5), short: false, sels: (0..n).map(|_| sel(r, d)).collect() }
}
pub fn query(r: &mut Rng, d: usize, root: bool, maxseg: usize) -> Query {
    let n = r.below(maxseg + 1);
    Query { root, segs: (0..n).map(|_| seg(r, d)).collect() }
}
pub fn rel(r: &mut Rng, d: usize) -> Query {
    let root = r.p(1, 6);
    query(r, d, root, 2)
}
pub fn singular(r: &mut Rng) -> Query {
    let n = r.below(3);
    let root = r.p(1, 5);
    Query {
        root,
        segs: (0..n)
            .map(|_| Seg { desc: false, short: false, sels: vec![if r.p(1, 2) { Sel::Name(key(r)) } else { Sel::Index(if r.p(1, 8) { *r.pick(BIG) } else { r.below(9) as i64 - 4 }) }] })
            .collect(),
    }
}
pub const NUMS: &[&str] = &["0", "-0", "1", "-1", "2", "1.0", "10", "1e0", "1E2", "1.5", "0.1", "1e-1", "9007199254740991", "-9007199254740991", "100e-2", "0.0", "-0.0", "1e+1", "12.50", "2e300"];
pub fn lit(r: &mut Rng) -> Lit {
    match r.below(6) {
        0 => Lit::Null,
        1 => Lit::Bool(r.p(1, 2)),
        2 | 3 => Lit::Num(r.pick(NUMS).to_string()),
        4 => Lit::Str(key(r)),
        _ => Lit::Str(r.pick(&["a", "b", "", "ab", "é", "𝄞", "it's", "\"", "\\"]).to_string()),
    }
}
pub fn operand(r: &mut Rng, d: usize) -> Operand {
    match r.below(if d > 0 { 5 } else { 4 }) {
        0 | 1 => Operand::Lit(lit(r)),
        4 => Operand::Func(func_ret(r, d - 1, Some(Ty::V))),
        _ => Operand::Sq(singular(r)),
    }
}
pub fn func_ret(r: &mut Rng, d: usize, want: Option<Ty>) -> Func {
    loop {
        let f = r.pick(FUNCS);
        if let Some(w) = want {
            if !(f.2 == w) {
                continue;
            }
        }
        return Func { name: f.0.to_string(), args: f.1.iter().map(|t| arg(r, d, *t)).collect() };
    }
}
pub fn arg(r: &mut Rng, d: usize, t: Ty) -> Arg {
    match t {
        Ty::V => match r.below(if d > 0 { 4 } else { 3 }) {
            0 => Arg::Lit(lit(r)),
            3 => Arg::Func(func_ret(r, d - 1, Some(Ty::V))),
            _ => Arg::Query(singular(r)),
        },
        Ty::N => match r.below(if d > 0 { 4 } else { 3 }) {
            0 => Arg::Query(singular(r)),
            3 => Arg::Func(func_ret(r, d - 1, Some(Ty::N))),
            _ => Arg::Query(rel(r, d.saturating_sub(1))),
        },
        Ty::L => match r.below(if d > 0 { 5 } else { 2 }) {
            0 => Arg::Query(rel(r, 0)),
            1 => Arg::Query(singular(r)),
            2 => Arg::Func(func_ret(r, d - 1, Some(if r.0 & 1 == 0 { Ty::L } else { Ty::N }))),
            _ => {
                let e = expr(r, d - 1);
                match e {
                    Expr::Exist(q) => Arg::Query(q),
                    Expr::Func(f) => Arg::Func(f),
                    e => Arg::Expr(e),
                }
            }
        },
    }
}
pub fn cmp(r: &mut Rng) -> Cmp {
    *r.pick(&[Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Gt, Cmp::Le, Cmp::Ge])
}
pub fn expr(r: &mut Rng, d: usize) -> Expr {
    match r.below(if d > 0 { 9 } else { 4 }) {
        0 | 1 => Expr::Cmp(cmp(r), operand(r, d), operand(r, d)),
        2 => Expr::Exist(rel(r, d.saturating_sub(1))),
        3 => Expr::Exist(singular(r)),
        4 => {
            let n = 2 + r.below(2);
            Expr::Or((0..n).map(|_| expr(r, d - 1)).collect())
        }
        5 => {
            let n = 2 + r.below(2);
            Expr::And((0..n).map(|_| expr(r, d - 1)).collect())
        }
        6 => Expr::Not(Box::new(expr(r, d - 1))),
        7 => Expr::Exist(rel(r, d - 1)),
        _ => {
            let want = if r.p(2, 3) { Ty::L } else { Ty::N };
            Expr::Func(func_ret(r, d - 1, Some(want)))
        }
    }
}

// ---------------------------------------------------------------- rendering
/// `sp`: probability (in 1/8) of inserting optional blanks; rng drives notation choices
pub struct Ren<'r> {
    pub r: &'r mut Rng,
    pub sp: usize,
    pub canon: bool,
}
impl<'r> Ren<'r> {
    fn s(&mut self, o: &mut String) {
        while self.sp > 0 && self.r.p(self.sp, 8) {
            o.push(*self.r.pick(&[' ', ' ', '\t', '\n', '\r']));
        }
    }
    pub fn query(&mut self, q: &Query, o: &mut String) {
        self.query_(q, o, false)
    }
    fn query_(&mut self, q: &Query, o: &mut String, sing: bool) {
        o.push(if q.root { '$' } else { '@' });
        for s in &q.segs {
            self.s(o);
            self.seg(s, o, sing);
        }
    }
    fn seg(&mut self, s: &Seg, o: &mut String, sing: bool) {
        if s.desc {
            o.push_str("..");
        }
        if s.sels.len() == 1 && !self.canon && self.r.p(1, 2) {
            match &s.sels[0] {
                Sel::Wild => {
                    if !s.desc {
                        o.push('.');
                    }
                    o.push('*');
                    return;
                }
                Sel::Name(n) if shorthand_ok(n) => {
                    if !s.desc {
                        o.push('.');
                    }
                    o.push_str(n);
                    return;
                }
                _ => {}
            }
        }
        o.push('[');
        for (i, x) in s.sels.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            if !sing {
                self.s(o);
            }
            self.sel(x, o);
            if !sing {
                self.s(o);
            }
        }
        o.push(']');
    }
    fn sel(&mut self, s: &Sel, o: &mut String) {
        match s {
            Sel::Name(n) => self.str(n, o),
            Sel::Wild => o.push('*'),
            Sel::Index(i) => o.push_str(&i.to_string()),
            Sel::Slice(a, b, c) => {
                if let Some(a) = a {
                    o.push_str(&a.to_string());
                    self.s(o);
                }
                o.push(':');
                self.s(o);
                if let Some(b) = b {
                    o.push_str(&b.to_string());
                    self.s(o);
                }
                if let Some(c) = c {
                    o.push(':');
                    self.s(o);
                    o.push_str(&c.to_string());
                } else if !self.canon && self.r.p(1, 3) {
                    o.push(':');
                }
            }
            Sel::Filter(e) => {
                o.push('?');
                self.s(o);
                self.expr(e, o, 0);
            }
        }
    }
    pub fn str(&mut self, n: &str, o: &mut String) {
        let q = if self.canon || self.r.p(1, 2) { '\'' } else { '"' };
        o.push(q);
        for c in n.chars() {
            let must = c == q || c == '\\' || (c as u32) < 0x20;
            if must || (!self.canon && self.r.p(1, 6)) {
                let simple = match c {
                    '\u{8}' => Some('b'),
                    '\t' => Some('t'),
                    '\n' => Some('n'),
                    '\u{c}' => Some('f'),
                    '\r' => Some('r'),
                    '/' => Some('/'),
                    '\\' => Some('\\'),
                    c if c == q => Some(c),
                    _ => None,
                };
                if simple.is_some() && (self.canon || self.r.p(1, 2)) {
                    o.push('\\');
                    o.push(simple.unwrap());
                } else {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str("\\u");
                        for k in (0..4).rev() {
                            let d = char::from_digit(((*u >> (4 * k)) & 15) as u32, 16).unwrap();
                            o.push(if self.r.p(1, 2) { d.to_ascii_uppercase() } else { d });
                        }
                    }
                }
            } else {
                o.push(c);
            }
        }
        o.push(q);
    }
    fn lit(&mut self, l: &Lit, o: &mut String) {
        match l {
            Lit::Num(t) => o.push_str(t),
            Lit::Str(s) => self.str(s, o),
            Lit::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Lit::Null => o.push_str("null"),
        }
    }
    fn operand(&mut self, x: &Operand, o: &mut String) {
        match x {
            Operand::Lit(l) => self.lit(l, o),
            Operand::Sq(q) => self.query_(q, o, true),
            Operand::Func(f) => self.func(f, o),
        }
    }
    pub fn func(&mut self, f: &Func, o: &mut String) {
        o.push_str(&f.name);
        o.push('(');
        self.s(o);
        for (i, a) in f.args.iter().enumerate() {
            if i > 0 {
                o.push(',');
                self.s(o);
            }
            match a {
                Arg::Lit(l) => self.lit(l, o),
                Arg::Query(q) => {
                    let s = q.is_singular();
                    self.query_(q, o, s)
                }
                Arg::Func(f) => self.func(f, o),
                // a bare query or call in argument position would be another kind of argument
                Arg::Expr(e) => self.expr(e, o, if matches!(e, Expr::Exist(_) | Expr::Func(_)) { 3 } else { 0 }),
            }
            self.s(o);
        }
        o.push(')');
    }
    /// prec 0: or, 1: and, 2: basic, 3: force parentheses
    pub fn expr(&mut self, e: &Expr, o: &mut String, prec: usize) {
        let own = match e {
            Expr::Or(_) => 0,
            Expr::And(_) => 1,
            _ => 2,
        };
        let nested_same = prec > 0 && own == prec && own < 2;
        if own < prec || nested_same || (!self.canon && self.r.p(1, 8)) {
            o.push('(');
            self.s(o);
            self.expr(e, o, 0);
            self.s(o);
            o.push(')');
            return;
        }
        match e {
            Expr::Or(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.s(o);
                        o.push_str("||");
                        self.s(o);
                    }
                    self.expr(x, o, 1);
                }
            }
            Expr::And(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.s(o);
                        o.push_str("&&");
                        self.s(o);
                    }
                    self.expr(x, o, 2);
                }
            }
            Expr::Paren(x) => self.expr(x, o, 3),
            Expr::Not(x) => {
                o.push('!');
                self.s(o);
                match &**x {
                    Expr::Exist(q) => self.query(q, o),
                    Expr::Func(f) => self.func(f, o),
                    x => self.expr(x, o, 3),
                }
            }
            Expr::Cmp(op, a, b) => {
                self.operand(a, o);
                self.s(o);
                o.push_str(match op {
                    Cmp::Eq => "==",
                    Cmp::Ne => "!=",
                    Cmp::Lt => "<",
                    Cmp::Gt => ">",
                    Cmp::Le => "<=",
                    Cmp::Ge => ">=",
                });
                self.s(o);
                self.operand(b, o);
            }
            Expr::Exist(q) => self.query(q, o),
            Expr::Func(f) => self.func(f, o),
        }
    }
}
pub fn shorthand_ok(n: &str) -> bool {
    let f = |c: char| c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80;
    let mut it = n.chars();
    it.next().map_or(false, f) && it.all(|c| f(c) || c.is_ascii_digit())
}
pub fn render(q: &Query, r: &mut Rng, sp: usize, canon: bool) -> String {
    let mut o = String::new();
    Ren { r, sp, canon }.query(q, &mut o);
    o
}
