//! RFC 9535 grammar, hand-written from the ABNF.  `Err(DontCare)` marks texts on which the
//! property statement makes no claim (blanks inside singular-query brackets; numbers that
//! overflow a double).
use crate::ast::*;
#[derive(Debug, PartialEq)]
pub enum Fail {
    No,
    DontCare,
}
struct P<'a> {
    c: &'a [char],
    i: usize,
    soft: bool,
}
type R<T> = Result<T, Fail>;
const NO: Fail = Fail::No;

pub fn parse(s: &str) -> Result<Query, Fail> {
    let c: Vec<char> = s.chars().collect();
    let mut p = P { c: &c, i: 0, soft: false };
    let q = (|| {
        p.ch('$')?;
        let q = p.segs(true)?;
        if p.i != p.c.len() {
            return Err(NO);
        }
        Ok(q)
    })()?;
    if !query_ok(&q) {
        return Err(NO);
    }
    if p.soft {
        return Err(Fail::DontCare);
    }
    Ok(q)
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn ch(&mut self, c: char) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(NO)
        }
    }
    fn lit(&mut self, s: &str) -> bool {
        let st = self.i;
        for c in s.chars() {
            if self.ch(c).is_err() {
                self.i = st;
                return false;
            }
        }
        true
    }
    /// S; returns whether anything was skipped
    fn s(&mut self) -> bool {
        let st = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i != st
    }
    fn segs(&mut self, root: bool) -> R<Query> {
        let mut segs = vec![];
        loop {
            let st = self.i;
            self.s();
            match self.peek() {
                Some('.') | Some('[') => segs.push(self.seg()?),
                _ => {
                    self.i = st;
                    break;
                }
            }
        }
        Ok(Query { root, segs })
    }
    fn shorthand(&mut self) -> R<String> {
        let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80;
        let mut out = String::new();
        match self.peek() {
            Some(c) if first(c) => {
                out.push(c);
                self.i += 1;
            }
            _ => return Err(NO),
        }
        while let Some(c) = self.peek() {
            if first(c) || c.is_ascii_digit() {
                out.push(c);
                self.i += 1;
            } else {
                break;
            }
        }
        Ok(out)
    }
    fn seg(&mut self) -> R<Seg> {
        if self.lit("..") {
            let short = self.peek() != Some('[');
            let sels = match self.peek() {
                Some('[') => self.bracket()?,
                Some('*') => {
                    self.i += 1;
                    vec![Sel::Wild]
                }
                _ => vec![Sel::Name(self.shorthand()?)],
            };
            return Ok(Seg { desc: true, short, sels });
        }
        if self.lit(".") {
            let sels = match self.peek() {
                Some('*') => {
                    self.i += 1;
                    vec![Sel::Wild]
                }
                _ => vec![Sel::Name(self.shorthand()?)],
            };
            return Ok(Seg { desc: false, short: true, sels });
        }
        Ok(Seg { desc: false, short: false, sels: self.bracket()? })
    }
    fn bracket(&mut self) -> R<Vec<Sel>> {
        self.ch('[')?;
        let mut out = vec![];
        loop {
            self.s();
            out.push(self.sel()?);
            self.s();
            if self.lit(",") {
                continue;
            }
            self.ch(']')?;
            return Ok(out);
        }
    }
    fn int(&mut self) -> R<i64> {
        let st = self.i;
        let t = self.int_text()?;
        if t == "-0" {
            self.i = st;
            return Err(NO);
        }
        let v: i128 = if t.len() > 25 { i128::MAX } else { t.parse().map_err(|_| NO)? };
        if v.abs() > 9007199254740991 {
            self.i = st;
            return Err(NO);
        }
        Ok(v as i64)
    }
    /// "0" / "-0" / ["-"] DIGIT1 *DIGIT
    fn int_text(&mut self) -> R<String> {
        let st = self.i;
        let mut t = String::new();
        if self.lit("-") {
            t.push('-');
        }
        match self.peek() {
            Some('0') => {
                t.push('0');
                self.i += 1;
            }
            Some(c) if c.is_ascii_digit() => {
                while let Some(c) = self.peek() {
                    if !c.is_ascii_digit() {
                        break;
                    }
                    t.push(c);
                    self.i += 1;
                }
            }
            _ => {
                self.i = st;
                return Err(NO);
            }
        }
        Ok(t)
    }
    fn opt_int(&mut self) -> R<Option<i64>> {
        match self.peek() {
            Some(c) if c == '-' || c.is_ascii_digit() => Ok(Some(self.int()?)),
            _ => Ok(None),
        }
    }
    fn sel(&mut self) -> R<Sel> {
        match self.peek() {
            Some('\'' | '"') => Ok(Sel::Name(self.string()?)),
            Some('*') => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            Some('?') => {
                self.i += 1;
                self.s();
                Ok(Sel::Filter(self.or()?))
            }
            _ => {
                let a = self.opt_int()?;
                let st = self.i;
                self.s();
                if self.lit(":") {
                    self.s();
                    let b = self.opt_int()?;
                    let st2 = self.i;
                    self.s();
                    let mut c = None;
                    if self.lit(":") {
                        let st3 = self.i;
                        self.s();
                        c = self.opt_int()?;
                        if c.is_none() {
                            self.i = st3;
                        }
                    } else {
                        self.i = st2;
                    }
                    return Ok(Sel::Slice(a, b, c));
                }
                self.i = st;
                a.map(Sel::Index).ok_or(NO)
            }
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or(NO)?;
            self.i += 1;
            v = v * 16 + d;
        }
        Ok(v)
    }
    fn string(&mut self) -> R<String> {
        let q = self.peek().ok_or(NO)?;
        if q != '\'' && q != '"' {
            return Err(NO);
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or(NO)?;
            self.i += 1;
            if c == q {
                return Ok(out);
            }
            if c == '\\' {
                let e = self.peek().ok_or(NO)?;
                self.i += 1;
                match e {
                    'b' => out.push('\u{8}'),
                    'f' => out.push('\u{c}'),
                    'n' => out.push('\n'),
                    'r' => out.push('\r'),
                    't' => out.push('\t'),
                    '/' => out.push('/'),
                    '\\' => out.push('\\'),
                    'u' => {
                        let h = self.hex4()?;
                        if (0xD800..0xDC00).contains(&h) {
                            if !self.lit("\\u") {
                                return Err(NO);
                            }
                            let l = self.hex4()?;
                            if !(0xDC00..0xE000).contains(&l) {
                                return Err(NO);
                            }
                            let v = 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00);
                            out.push(char::from_u32(v).ok_or(NO)?);
                        } else {
                            out.push(char::from_u32(h).ok_or(NO)?);
                        }
                    }
                    e if e == q => out.push(q),
                    _ => return Err(NO),
                }
            } else if (c as u32) < 0x20 {
                return Err(NO);
            } else {
                out.push(c);
            }
        }
    }
    fn or(&mut self) -> R<Expr> {
        let mut v = vec![self.and()?];
        loop {
            let st = self.i;
            self.s();
            if self.lit("||") {
                self.s();
                v.push(self.and()?);
            } else {
                self.i = st;
                break;
            }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::Or(v) })
    }
    fn and(&mut self) -> R<Expr> {
        let mut v = vec![self.basic()?];
        loop {
            let st = self.i;
            self.s();
            if self.lit("&&") {
                self.s();
                v.push(self.basic()?);
            } else {
                self.i = st;
                break;
            }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::And(v) })
    }
    fn cmp_op(&mut self) -> Option<Cmp> {
        for (t, o) in [("==", Cmp::Eq), ("!=", Cmp::Ne), ("<=", Cmp::Le), (">=", Cmp::Ge), ("<", Cmp::Lt), (">", Cmp::Gt)] {
            if self.lit(t) {
                return Some(o);
            }
        }
        None
    }
    fn basic(&mut self) -> R<Expr> {
        if self.peek() == Some('!') {
            self.i += 1;
            self.s();
            return Ok(Expr::Not(Box::new(match self.peek() {
                Some('(') => self.paren()?,
                Some('@' | '$') => Expr::Exist(self.query()?),
                _ => Expr::Func(self.func()?),
            })));
        }
        if self.peek() == Some('(') {
            return self.paren();
        }
        // comparison or test: decided after the first operand
        let st = self.i;
        match self.peek() {
            Some('@' | '$') => {
                let (q, strict) = self.query_strict()?;
                let st2 = self.i;
                self.s();
                if let Some(op) = self.cmp_op() {
                    if !q.is_singular() {
                        return Err(NO);
                    }
                    if !strict {
                        self.soft = true;
                    }
                    self.s();
                    let b = self.operand()?;
                    return Ok(Expr::Cmp(op, Operand::Sq(q), b));
                }
                self.i = st2;
                Ok(Expr::Exist(q))
            }
            Some(c) if c.is_ascii_lowercase() => {
                // true/false/null followed by comparison, else function
                if let Ok(l) = self.literal() {
                    let st2 = self.i;
                    self.s();
                    if let Some(op) = self.cmp_op() {
                        self.s();
                        let b = self.operand()?;
                        return Ok(Expr::Cmp(op, Operand::Lit(l), b));
                    }
                    self.i = st2;
                }
                self.i = st;
                let f = self.func()?;
                let st2 = self.i;
                self.s();
                if let Some(op) = self.cmp_op() {
                    self.s();
                    let b = self.operand()?;
                    return Ok(Expr::Cmp(op, Operand::Func(f), b));
                }
                self.i = st2;
                Ok(Expr::Func(f))
            }
            _ => {
                let l = self.literal()?;
                self.s();
                let op = self.cmp_op().ok_or(NO)?;
                self.s();
                let b = self.operand()?;
                Ok(Expr::Cmp(op, Operand::Lit(l), b))
            }
        }
    }
    fn paren(&mut self) -> R<Expr> {
        self.ch('(')?;
        self.s();
        let e = self.or()?;
        self.s();
        self.ch(')')?;
        Ok(Expr::Paren(Box::new(e)))
    }
    fn query(&mut self) -> R<Query> {
        let root = match self.peek() {
            Some('$') => true,
            Some('@') => false,
            _ => return Err(NO),
        };
        self.i += 1;
        self.segs(root)
    }
    /// also: does the text match the strict singular-query-segments ABNF (no blanks in brackets)
    fn query_strict(&mut self) -> R<(Query, bool)> {
        let st = self.i;
        let q = self.query()?;
        let mut strict = true;
        if q.is_singular() {
            let t = &self.c[st..self.i];
            let mut k = 0;
            let mut instr: Option<char> = None;
            while k < t.len() {
                let c = t[k];
                if let Some(qc) = instr {
                    if c == '\\' {
                        k += 1;
                    } else if c == qc {
                        instr = None;
                    }
                } else {
                    if c == '\'' || c == '"' {
                        instr = Some(c);
                    }
                    let b = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
                    if c == '[' && b(t[k + 1]) {
                        strict = false;
                    }
                    if c == ']' && b(t[k - 1]) {
                        strict = false;
                    }
                }
                k += 1;
            }
        }
        Ok((q, strict))
    }
    fn operand(&mut self) -> R<Operand> {
        match self.peek() {
            Some('@' | '$') => {
                let (q, strict) = self.query_strict()?;
                if !q.is_singular() {
                    return Err(NO);
                }
                if !strict {
                    self.soft = true;
                }
                Ok(Operand::Sq(q))
            }
            _ => {
                let st = self.i;
                if let Ok(l) = self.literal() {
                    // `true(`/`nullx` are not literals followed by anything valid anyway
                    return Ok(Operand::Lit(l));
                }
                self.i = st;
                Ok(Operand::Func(self.func()?))
            }
        }
    }
    fn literal(&mut self) -> R<Lit> {
        if self.lit("true") {
            return self.kw(Lit::Bool(true));
        }
        if self.lit("false") {
            return self.kw(Lit::Bool(false));
        }
        if self.lit("null") {
            return self.kw(Lit::Null);
        }
        match self.peek() {
            Some('\'' | '"') => Ok(Lit::Str(self.string()?)),
            _ => {
                let mut t = self.int_text()?;
                let st = self.i;
                if self.lit(".") {
                    t.push('.');
                    let mut n = 0;
                    while let Some(c) = self.peek().filter(|c| c.is_ascii_digit()) {
                        t.push(c);
                        self.i += 1;
                        n += 1;
                    }
                    if n == 0 {
                        self.i = st;
                        return Err(NO);
                    }
                }
                if matches!(self.peek(), Some('e' | 'E')) {
                    t.push('e');
                    self.i += 1;
                    if let Some(c) = self.peek().filter(|c| *c == '+' || *c == '-') {
                        t.push(c);
                        self.i += 1;
                    }
                    let mut n = 0;
                    while let Some(c) = self.peek().filter(|c| c.is_ascii_digit()) {
                        t.push(c);
                        self.i += 1;
                        n += 1;
                    }
                    if n == 0 {
                        return Err(NO);
                    }
                }
                if !t.parse::<f64>().map_or(false, |f| f.is_finite()) {
                    self.soft = true;
                }
                Ok(Lit::Num(t))
            }
        }
    }
    fn kw(&mut self, l: Lit) -> R<Lit> {
        // "true(" style function names
        match self.peek() {
            Some(c) if c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_' || c == '(' => Err(NO),
            _ => Ok(l),
        }
    }
    fn func(&mut self) -> R<Func> {
        let mut name = String::new();
        match self.peek() {
            Some(c) if c.is_ascii_lowercase() => {
                name.push(c);
                self.i += 1;
            }
            _ => return Err(NO),
        }
        while let Some(c) = self.peek().filter(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == '_') {
            name.push(c);
            self.i += 1;
        }
        self.ch('(')?;
        self.s();
        let mut args = vec![];
        if self.lit(")") {
            return Ok(Func { name, args });
        }
        loop {
            args.push(self.arg()?);
            self.s();
            if self.lit(",") {
                self.s();
                continue;
            }
            self.ch(')')?;
            return Ok(Func { name, args });
        }
    }
    fn end_arg(&mut self) -> bool {
        let st = self.i;
        self.s();
        let r = matches!(self.peek(), Some(',' | ')'));
        self.i = st;
        r
    }
    fn arg(&mut self) -> R<Arg> {
        let st = self.i;
        let soft = self.soft;
        if let Ok(l) = self.literal() {
            if self.end_arg() {
                return Ok(Arg::Lit(l));
            }
        }
        self.i = st;
        self.soft = soft;
        if let Ok((q, strict)) = self.query_strict() {
            if self.end_arg() {
                if q.is_singular() && !strict {
                    self.soft = true;
                }
                return Ok(Arg::Query(q));
            }
        }
        self.i = st;
        self.soft = soft;
        if let Ok(f) = self.func() {
            if self.end_arg() {
                return Ok(Arg::Func(f));
            }
        }
        self.i = st;
        self.soft = soft;
        Ok(Arg::Expr(self.or()?))
    }
}
