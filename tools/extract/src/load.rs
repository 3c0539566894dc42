//! Reads the crates' sources and indexes their items.
use quote::ToTokens;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Block,
    /// `Self` type of the surrounding impl
    pub self_ty: Option<Type>,
    pub trait_: Option<syn::Path>,
    pub generics: Generics,
    /// associated types of the surrounding impl
    pub assoc: Vec<(String, Type)>,
}

#[derive(Default)]
pub struct Db {
    pub fns: HashMap<String, FnItem>,
    pub dups: Vec<String>,
    pub structs: HashMap<String, (ItemStruct, String)>,
    pub enums: HashMap<String, (ItemEnum, String)>,
    pub consts: HashMap<String, (ItemConst, String)>,
    pub aliases: HashMap<String, ItemType>,
    pub impls: Vec<(String, String)>, // (type, trait)
    macros: HashMap<String, ItemMacro>,
    /// names imported from nom: (file, name) -> nom item
    pub nom: HashMap<(String, String), String>,
}

fn features_on(f: &str) -> bool {
    matches!(f, "functions" | "regex" | "default")
}

/// Evaluates a cfg predicate for the default build (features functions and regex, no test).
fn cfg_on(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => !p.is_ident("test") && !p.is_ident("kani"),
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return features_on(&s.value());
                }
            }
            true
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(cfg_on)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_on)
            } else {
                inner.iter().all(cfg_on)
            }
        }
    }
}

pub fn enabled(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<Meta>().map(|m| cfg_on(&m)).unwrap_or(true)
        } else {
            true
        }
    })
}

/// A body without the statements and match arms that the default build leaves out.
fn live(b: &Block) -> Block {
    struct V(usize);
    fn expr_attrs(e: &Expr) -> &[Attribute] {
        match e {
            Expr::ForLoop(x) => &x.attrs,
            Expr::If(x) => &x.attrs,
            Expr::Match(x) => &x.attrs,
            Expr::Block(x) => &x.attrs,
            Expr::Call(x) => &x.attrs,
            Expr::MethodCall(x) => &x.attrs,
            Expr::Macro(x) => &x.attrs,
            Expr::While(x) => &x.attrs,
            Expr::Loop(x) => &x.attrs,
            Expr::Assign(x) => &x.attrs,
            Expr::Return(x) => &x.attrs,
            _ => &[],
        }
    }
    impl visit_mut::VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| {
                enabled(match s {
                    Stmt::Local(l) => &l.attrs,
                    Stmt::Expr(e, _) => expr_attrs(e),
                    Stmt::Macro(m) => &m.attrs,
                    Stmt::Item(_) => &[],
                })
            });
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            m.arms.retain(|a| enabled(&a.attrs));
            visit_mut::visit_expr_match_mut(self, m);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Some(n) = slice_match(e, self.0) {
                self.0 += 1;
                *e = n;
            }
        }
    }
    let mut b = b.clone();
    visit_mut::VisitMut::visit_block_mut(&mut V(0), &mut b);
    unalias(&mut b);
    loops(&mut b, true);
    b
}

/// does a piece of syntax mention the name
fn mentions<T: ToTokens>(t: &T, x: &Ident) -> bool {
    fn go(t: proc_macro2::TokenStream, x: &Ident) -> bool {
        t.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == *x,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), x),
            // a name within a format string
            proc_macro2::TokenTree::Literal(l) => {
                let l = l.to_string();
                l.starts_with(['"', 'r']) && l.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| x == w)
            }
            _ => false,
        })
    }
    go(t.to_token_stream(), x)
}

/// Loops written with an explicit iterator or an index, and `for_each`, as the `for` loops they stand for:
/// - `let mut it = e; while let Some(p) = it.next() { .. }`, also as a `loop` with a `match` or `let .. else`
/// - `let mut i = 0; while i < v.len() { ..; i += 1; }` where the body assigns to neither
/// - `for i in 0..v.len() { .. v[i] .. }` where the index is used for nothing else
/// - `e.for_each(|p| ..)`, and `e.try_for_each(|p| ..)` whose result is handed on
fn loops(b: &mut Block, tail: bool) {
    fn name_of(p: &Pat) -> Option<Ident> {
        match p {
            Pat::Ident(PatIdent { by_ref: None, ident, subpat: None, .. }) => Some(ident.clone()),
            Pat::Type(t) => name_of(&t.pat),
            _ => None,
        }
    }
    fn is_next(e: &Expr, it: &Ident) -> bool {
        matches!(e, Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(it)))
    }
    fn some_of(p: &Pat) -> Option<Pat> {
        match p {
            Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Some(t.elems[0].clone()),
            _ => None,
        }
    }
    fn is_break(e: &Expr) -> bool {
        match e {
            Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
            Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, _) if is_break(e)),
            _ => false,
        }
    }
    /// the pattern and the body of a loop that takes one item after the other
    fn taking(e: &Expr, it: &Ident) -> Option<(Pat, Block)> {
        match e {
            Expr::While(w) if w.label.is_none() => {
                let Expr::Let(l) = &*w.cond else { return None };
                (is_next(&l.expr, it)).then(|| Some((some_of(&l.pat)?, w.body.clone())))?
            }
            Expr::Loop(l) if l.label.is_none() => match l.body.stmts.first()? {
                Stmt::Expr(Expr::Match(m), _) if l.body.stmts.len() == 1 && m.arms.len() == 2 && is_next(&m.expr, it) => {
                    let k = m.arms.iter().position(|a| some_of(&a.pat).is_some())?;
                    let (a, z) = (&m.arms[k], &m.arms[1 - k]);
                    if a.guard.is_some() || z.guard.is_some() || !is_break(&z.body) {
                        return None;
                    }
                    let x = &a.body;
                    let body = match &**x {
                        Expr::Block(b) => b.block.clone(),
                        x => parse_quote!({ #x; }),
                    };
                    Some((some_of(&a.pat)?, body))
                }
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if is_next(expr, it) && is_break(d) => {
                    let mut body = l.body.clone();
                    body.stmts.remove(0);
                    Some((some_of(pat)?, body))
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn as_block(e: &Expr) -> Block {
        match e {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e; }),
        }
    }
    fn returns(b: &impl ToTokens) -> bool {
        mentions(b, &Ident::new("return", proc_macro2::Span::call_site()))
    }
    // the statements of inner blocks first
    struct B;
    impl visit_mut::VisitMut for B {
        fn visit_block_mut(&mut self, b: &mut Block) {
            loops(b, false);
        }
        fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            by_item(f);
        }
    }
    for s in &mut b.stmts {
        visit_mut::VisitMut::visit_stmt_mut(&mut B, s);
    }
    let mut i = 0;
    while i < b.stmts.len() {
        // an explicit iterator or an index
        let found = match &b.stmts[i] {
            Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => name_of(pat).map(|x| (x, (**expr).clone())),
            _ => None,
        };
        if let Some((x, e)) = found {
            if let Some(j) = (i + 1..b.stmts.len()).find(|j| mentions(&b.stmts[*j], &x)) {
                let last = !b.stmts[j + 1..].iter().any(|s| mentions(s, &x));
                let new: Option<Expr> = match &b.stmts[j] {
                    Stmt::Expr(l, _) if last => {
                        if let Some((p, body)) = taking(l, &x).filter(|(_, body)| !mentions(body, &x)) {
                            Some(parse_quote!(for #p in #e #body))
                        } else {
                            counting(l, &x, &e)
                        }
                    }
                    _ => None,
                };
                if let Some(mut n) = new {
                    if let Expr::ForLoop(f) = &mut n {
                        by_item(f);
                    }
                    b.stmts[j] = Stmt::Expr(n, None);
                    b.stmts.remove(i);
                    continue;
                }
            }
        }
        // for_each
        let n = b.stmts.len();
        let new: Option<Vec<Stmt>> = match &b.stmts[i] {
            Stmt::Expr(Expr::MethodCall(m), semi) if m.args.len() == 1 && (m.method == "for_each" || m.method == "try_for_each") => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 && !returns(&c.body) => {
                    let (p, e, body) = (&c.inputs[0], &m.receiver, &c.body);
                    if m.method == "for_each" && !mentions(body, &Ident::new("continue", proc_macro2::Span::call_site())) {
                        let body = as_block(body);
                        let f: Expr = parse_quote!(for #p in #e #body);
                        Some(vec![Stmt::Expr(f, None)])
                    } else if tail && i + 1 == n && semi.is_none() {
                        let f: Expr = parse_quote!(for #p in #e { (#body)?; });
                        Some(vec![Stmt::Expr(f, None), parse_quote!(return Ok(());)])
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Stmt::Expr(Expr::Try(t), Some(_)) => match &*t.expr {
                Expr::MethodCall(m) if m.args.len() == 1 && m.method == "try_for_each" => match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 && !returns(&c.body) => {
                        let (p, e, body) = (&c.inputs[0], &m.receiver, &c.body);
                        let f: Expr = parse_quote!(for #p in #e { (#body)?; });
                        Some(vec![Stmt::Expr(f, None)])
                    }
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(new) = new {
            let k = new.len();
            b.stmts.splice(i..i + 1, new);
            if k == 2 {
                b.stmts[i + 1] = Stmt::Expr(parse_quote!(Ok(())), None);
            }
        }
        i += 1;
    }
}

/// may the block change what the name stands for, or a part of it
fn touched(b: &mut Block, x: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool);
    fn is_place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) => true,
            Expr::Field(f) => is_place(&f.base),
            Expr::Paren(p) => is_place(&p.expr),
            Expr::Unary(u) => is_place(&u.expr),
            _ => false,
        }
    }
    impl visit_mut::VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Assign(a) => self.1 |= mentions(&a.left, self.0),
                Expr::Binary(b)
                    if matches!(
                        b.op,
                        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                    ) =>
                {
                    self.1 |= mentions(&b.left, self.0)
                }
                Expr::Reference(r) => self.1 |= r.mutability.is_some() && mentions(&r.expr, self.0),
                Expr::MethodCall(m) => {
                    let reads = ["len", "get", "iter", "first", "last", "is_empty", "chars", "as_str", "to_string", "clone", "contains", "starts_with", "ends_with", "to_owned", "eq", "ne", "cmp", "partial_cmp"];
                    self.1 |= is_place(&m.receiver) && mentions(&m.receiver, self.0) && !reads.contains(&m.method.to_string().as_str())
                }
                Expr::Let(l) => self.1 |= mentions(&l.pat, self.0),
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.1 |= p.ident == *self.0 || (p.by_ref.is_some() && p.mutability.is_some());
        }
    }
    let mut v = V(x, false);
    visit_mut::VisitMut::visit_block_mut(&mut v, b);
    v.1
}

/// `while i < v.len() { ..; i += 1; }` as a loop over a range
fn counting(l: &Expr, x: &Ident, from: &Expr) -> Option<Expr> {
    let Expr::While(w) = l else { return None };
    let Expr::Lit(ExprLit { lit: Lit::Int(z), .. }) = from else { return None };
    if z.base10_digits() != "0" || w.label.is_some() {
        return None;
    }
    let Expr::Binary(ExprBinary { left, op: BinOp::Lt(_) | BinOp::Ne(_), right, .. }) = &*w.cond else { return None };
    if !matches!(&**left, Expr::Path(p) if p.path.is_ident(x)) || mentions(right, x) {
        return None;
    }
    // the limit: the length of a place that the body does not change
    let Expr::MethodCall(m) = &**right else { return None };
    if m.method != "len" || !m.args.is_empty() {
        return None;
    }
    let root = {
        let mut e = &*m.receiver;
        loop {
            match e {
                Expr::Field(f) => e = &f.base,
                Expr::Paren(p) => e = &p.expr,
                Expr::Path(p) => break p.path.get_ident()?.clone(),
                _ => return None,
            }
        }
    };
    let mut body = w.body.clone();
    match body.stmts.pop()? {
        Stmt::Expr(Expr::Binary(ExprBinary { left, op: BinOp::AddAssign(_), right, .. }), _)
            if matches!(&*left, Expr::Path(p) if p.path.is_ident(x)) && matches!(&*right, Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) if k.base10_digits() == "1") => {}
        _ => return None,
    }
    if mentions(&body, &Ident::new("continue", proc_macro2::Span::call_site())) {
        return None;
    }
    if touched(&mut body, x) || touched(&mut body, &root) {
        return None;
    }
    Some(parse_quote!(for #x in 0..#right #body))
}

/// `for i in 0..v.len() { .. v[i] .. }` as a loop over the items
fn by_item(f: &mut ExprForLoop) {
    let Pat::Ident(PatIdent { by_ref: None, mutability: None, ident, subpat: None, .. }) = &*f.pat else { return };
    let Expr::Range(ExprRange { start: Some(a), limits: RangeLimits::HalfOpen(_), end: Some(z), .. }) = &*f.expr else { return };
    if !matches!(&**a, Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) if k.base10_digits() == "0") {
        return;
    }
    let Expr::MethodCall(m) = &**z else { return };
    if m.method != "len" || !m.args.is_empty() {
        return;
    }
    let v = m.receiver.to_token_stream().to_string();
    let item = quote::format_ident!("vx_item_{}", ident);
    struct Sub(String, Ident, Ident);
    impl Sub {
        fn at(&self, e: &Expr) -> bool {
            match e {
                Expr::Index(i) => i.expr.to_token_stream().to_string() == self.0 && matches!(&*i.index, Expr::Path(p) if p.path.is_ident(&self.1)),
                Expr::Paren(p) => self.at(&p.expr),
                _ => false,
            }
        }
    }
    impl visit_mut::VisitMut for Sub {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let n = self.2.clone();
            match e {
                Expr::Reference(r) if r.mutability.is_none() && self.at(&r.expr) => {
                    *e = parse_quote!(#n);
                    return;
                }
                Expr::MethodCall(m) if self.at(&m.receiver) => *m.receiver = parse_quote!(#n),
                Expr::Field(f) if self.at(&f.base) => *f.base = parse_quote!(#n),
                e if self.at(e) => {
                    *e = parse_quote!((*#n));
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut body = f.body.clone();
    visit_mut::VisitMut::visit_block_mut(&mut Sub(v, ident.clone(), item.clone()), &mut body);
    if mentions(&body, ident) || !mentions(&body, &item) {
        return;
    }
    let r = &m.receiver;
    let e: Expr = parse_quote!(#r.iter());
    f.body = body;
    f.pat = Box::new(parse_quote!(#item));
    f.expr = Box::new(e);
}

/// `let x = &mut place;` names a place: every use of the name becomes the place itself.
/// Left alone where the name is bound again, is assigned to, or occurs within a macro.
fn unalias(b: &mut Block) {
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some(),
            Expr::Field(f) => place(&f.base),
            Expr::Paren(p) => place(&p.expr),
            _ => false,
        }
    }
    fn is(e: &Expr, x: &Ident) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(x),
            Expr::Paren(p) => is(&p.expr, x),
            _ => false,
        }
    }
    struct Find(Ident, bool);
    impl visit_mut::VisitMut for Find {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.1 |= p.ident == self.0;
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
            self.1 |= is(&a.left, &self.0);
            visit_mut::visit_expr_assign_mut(self, a);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            let t = m.tokens.to_string();
            self.1 |= t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.0 == w);
        }
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
            // a closure that moves the name is another thing
            self.1 |= c.capture.is_some();
            visit_mut::visit_expr_closure_mut(self, c);
        }
    }
    struct Sub(Ident, Expr);
    impl visit_mut::VisitMut for Sub {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let x = self.0.clone();
            match e {
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if is(expr, &x) => {
                    *e = self.1.clone();
                    return;
                }
                Expr::MethodCall(m) if is(&m.receiver, &x) => {
                    *m.receiver = self.1.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Field(f) if is(&f.base, &x) => {
                    *f.base = self.1.clone();
                    return;
                }
                Expr::Index(i) if is(&i.expr, &x) => {
                    *i.expr = self.1.clone();
                    self.visit_expr_mut(&mut i.index);
                    return;
                }
                e if is(e, &x) => {
                    let p = &self.1;
                    *e = parse_quote!((&mut #p));
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    struct B;
    impl visit_mut::VisitMut for B {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut i = 0;
            while i < b.stmts.len() {
                let found = match &b.stmts[i] {
                    Stmt::Local(Local { pat: Pat::Ident(PatIdent { by_ref: None, mutability: None, ident, subpat: None, .. }), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                        Expr::Reference(ExprReference { mutability: Some(_), expr, .. }) if place(expr) => Some((ident.clone(), (**expr).clone())),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((x, p)) = found {
                    let mut f = Find(x.clone(), false);
                    for s in &mut b.stmts[i + 1..] {
                        visit_mut::VisitMut::visit_stmt_mut(&mut f, s);
                    }
                    if !f.1 {
                        b.stmts.remove(i);
                        let mut v = Sub(x, p);
                        for s in &mut b.stmts[i..] {
                            visit_mut::VisitMut::visit_stmt_mut(&mut v, s);
                        }
                        continue;
                    }
                }
                i += 1;
            }
        }
    }
    visit_mut::VisitMut::visit_block_mut(&mut B, b);
}

/// A `match` or `if let` on slice patterns, as tests of the length of the slice.
fn slice_match(e: &Expr, k: usize) -> Option<Expr> {
    fn strip(p: &Pat) -> &Pat {
        match p {
            Pat::Paren(p) => strip(&p.pat),
            Pat::Reference(p) => strip(&p.pat),
            p => p,
        }
    }
    let wild: Pat = parse_quote!(_);
    let (on, arms): (&Expr, Vec<(&Pat, Option<&Expr>, Expr)>) = match e {
        Expr::Match(m) => (&m.expr, m.arms.iter().map(|a| (&a.pat, a.guard.as_ref().map(|g| &*g.1), (*a.body).clone())).collect()),
        Expr::If(i) => {
            let Expr::Let(l) = &*i.cond else { return None };
            let b = &i.then_branch;
            let no: Expr = match &i.else_branch {
                Some((_, e)) => (**e).clone(),
                None => parse_quote!({}),
            };
            (&l.expr, vec![(&*l.pat, None, parse_quote!(#b)), (&wild, None, no)])
        }
        _ => return None,
    };
    let cases = |p: &Pat| -> Vec<Pat> {
        match strip(p) {
            Pat::Or(o) => o.cases.iter().cloned().collect(),
            p => vec![p.clone()],
        }
    };
    if !arms.iter().any(|a| cases(a.0).iter().any(|p| matches!(strip(p), Pat::Slice(_)))) {
        return None;
    }
    let s = quote::format_ident!("vx_sl{}", k);
    let mut rest: Option<Expr> = None;
    for (p, g, body) in arms.iter().rev() {
        for p in cases(p).iter().rev() {
            let (cond, lets): (Option<Expr>, Vec<Stmt>) = match strip(p) {
                Pat::Wild(_) => (None, vec![]),
                Pat::Ident(i) if i.subpat.is_none() => (None, vec![parse_quote!(let #i = #s;)]),
                Pat::Slice(sp) => {
                    let n = sp.elems.len();
                    let dots = |p: &Pat| match p {
                        Pat::Rest(_) => true,
                        Pat::Ident(i) => i.subpat.as_ref().is_some_and(|s| matches!(&*s.1, Pat::Rest(_))),
                        _ => false,
                    };
                    let at = sp.elems.iter().position(dots);
                    let mut lets = vec![];
                    for (j, x) in sp.elems.iter().enumerate() {
                        let back = n - j;
                        let ix: Expr = match at {
                            Some(d) if j > d => parse_quote!(#s.len() - #back),
                            _ => parse_quote!(#j),
                        };
                        match x {
                            Pat::Wild(_) | Pat::Rest(_) => {}
                            Pat::Ident(i) if dots(x) => {
                                let (i, back) = (&i.ident, n - j - 1);
                                lets.push(parse_quote!(let #i = &#s[#j..#s.len() - #back];));
                            }
                            Pat::Ident(i) if i.subpat.is_none() => {
                                let i = &i.ident;
                                lets.push(parse_quote!(let #i = &#s[#ix];));
                            }
                            Pat::Reference(r) => {
                                let q = &r.pat;
                                lets.push(parse_quote!(let #q = #s[#ix];));
                            }
                            _ => return None,
                        }
                    }
                    let least = n - at.map_or(0, |_| 1);
                    let cond: Expr = match at {
                        None => parse_quote!(#s.len() == #n),
                        Some(_) => parse_quote!(#s.len() >= #least),
                    };
                    (Some(cond), lets)
                }
                _ => return None,
            };
            let inner: Expr = match g {
                Some(g) => {
                    let r = rest.clone()?;
                    parse_quote!(if #g { #body } else { #r })
                }
                None => body.clone(),
            };
            rest = Some(match (cond, &rest) {
                (Some(c), Some(r)) => parse_quote!(if #c { #(#lets)* #inner } else { #r }),
                // the patterns are exhaustive: the last one matches
                (Some(_), None) | (None, _) => parse_quote!({ #(#lets)* #inner }),
            });
        }
    }
    let r = rest?;
    Some(parse_quote!({ let #s = #on; #r }))
}

/// Derived traits of an item.
pub fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(ps) = a.parse_args_with(punctuated::Punctuated::<syn::Path, Token![,]>::parse_terminated) {
                for p in ps {
                    if let Some(s) = p.segments.last() {
                        out.push(s.ident.to_string());
                    }
                }
            }
        }
    }
    out
}

/// A type without lifetimes, as text: `NodeList`, `Vec<&Value>`.
pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => path_name(&p.path),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Group(p) => ty_name(&p.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn path_name(p: &syn::Path) -> String {
    let s = p.segments.last().unwrap();
    let mut n = s.ident.to_string();
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter_map(|g| match g {
                GenericArgument::Type(t) => Some(ty_name(t)),
                _ => None,
            })
            .collect();
        if !args.is_empty() {
            n.push_str(&format!("<{}>", args.join(",")));
        }
    }
    n
}

impl Db {
    pub fn load(root: &Path, expanded: &[String]) -> std::result::Result<Db, String> {
        let mut db = Db::default();
        for d in ["serde_json_path_core/src", "serde_json_path/src"] {
            let mut files = vec![];
            walk(&root.join(d), &mut files)?;
            files.sort();
            for f in files {
                let text = std::fs::read_to_string(&f).map_err(|e| format!("{}: {e}", f.display()))?;
                let file = syn::parse_file(&text).map_err(|e| format!("{}: {e}", f.display()))?;
                let name = f.strip_prefix(root).unwrap_or(&f).display().to_string();
                db.items(&file.items, &name);
            }
        }
        for f in expanded {
            let text = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
            db.expanded(&text, &format!("{} (expanded)", Path::new(f).file_stem().map(|s| s.to_string_lossy().to_string()).unwrap_or_default()))?;
        }
        // `DoubleEndedIterator` and `ExactSizeIterator` take their item type from `Iterator`
        let its: HashMap<String, FnItem> = db
            .fns
            .values()
            .filter(|f| f.key.ends_with(" as Iterator>::next"))
            .map(|f| (f.key.split(" as ").next().unwrap().to_string(), f.clone()))
            .collect();
        for f in db.fns.values_mut() {
            if f.key.ends_with(" as DoubleEndedIterator>::next_back") {
                if let Some(g) = its.get(f.key.split(" as ").next().unwrap()) {
                    f.generics = g.generics.clone();
                    f.self_ty = g.self_ty.clone();
                    f.assoc = g.assoc.clone();
                }
            }
        }
        for f in db.fns.values_mut() {
            crate::nom::rename_err(f, false);
        }
        crate::nom::rewrite_all(&mut db);
        Ok(db)
    }

    fn add_fn(&mut self, f: FnItem) {
        if self.fns.contains_key(&f.key) {
            self.dups.push(f.key.clone());
        }
        self.fns.insert(f.key.clone(), f);
    }

    fn items(&mut self, items: &[Item], file: &str) {
        for it in items {
            match it {
                Item::Fn(f) if enabled(&f.attrs) => self.add_fn(FnItem {
                    key: f.sig.ident.to_string(),
                    file: file.into(),
                    line: f.sig.ident.span().start().line,
                    attrs: f.attrs.clone(),
                    sig: f.sig.clone(),
                    block: live(&f.block),
                    self_ty: None,
                    trait_: None,
                    generics: Generics::default(),
                    assoc: vec![],
                }),
                Item::Struct(s) if enabled(&s.attrs) => {
                    self.structs.insert(s.ident.to_string(), (s.clone(), file.into()));
                }
                Item::Enum(s) if enabled(&s.attrs) => {
                    self.enums.insert(s.ident.to_string(), (s.clone(), file.into()));
                }
                Item::Const(c) if enabled(&c.attrs) => {
                    self.consts.insert(c.ident.to_string(), (c.clone(), file.into()));
                }
                Item::Type(t) if enabled(&t.attrs) => {
                    self.aliases.insert(t.ident.to_string(), t.clone());
                }
                Item::Mod(m) if enabled(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        if m.ident != "sealed" {
                            self.items(items, file);
                        }
                    }
                }
                Item::Use(u) if enabled(&u.attrs) => {
                    fn go(t: &UseTree, inside: bool, first: bool, out: &mut Vec<(String, String)>) {
                        match t {
                            UseTree::Path(p) => go(&p.tree, inside || (first && p.ident == "nom"), false, out),
                            UseTree::Name(n) if inside => out.push((n.ident.to_string(), n.ident.to_string())),
                            UseTree::Rename(n) if inside => out.push((n.rename.to_string(), n.ident.to_string())),
                            UseTree::Group(g) => g.items.iter().for_each(|t| go(t, inside, first, out)),
                            _ => {}
                        }
                    }
                    let mut v = vec![];
                    go(&u.tree, false, true, &mut v);
                    for (a, b) in v {
                        self.nom.insert((file.to_string(), a), b);
                    }
                }
                Item::Impl(i) if enabled(&i.attrs) => self.impl_(i, file),
                Item::Macro(m) if enabled(&m.attrs) => {
                    if let Some(id) = &m.ident {
                        self.macros.insert(id.to_string(), m.clone());
                    } else if let Some(id) = m.mac.path.get_ident() {
                        if let Some(def) = self.macros.get(&id.to_string()).cloned() {
                            if let Some(items) = expand(&def, &m.mac) {
                                self.items(&items, file);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn impl_(&mut self, i: &ItemImpl, file: &str) {
        let tn = ty_name(&i.self_ty);
        if let Some((_, tr, _)) = &i.trait_ {
            self.impls.push((tn.clone(), path_name(tr)));
        }
        let mut assoc = vec![];
        for it in &i.items {
            if let ImplItem::Type(t) = it {
                assoc.push((t.ident.to_string(), t.ty.clone()));
            }
        }
        for it in &i.items {
            match it {
                ImplItem::Fn(f) if enabled(&f.attrs) => {
                    // items declared in the body
                    let inner: Vec<Item> = f
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| match s {
                            Stmt::Item(x @ (Item::Struct(_) | Item::Impl(_))) => Some(x.clone()),
                            _ => None,
                        })
                        .collect();
                    self.items(&inner, file);
                    let name = f.sig.ident.to_string();
                    let key = match &i.trait_ {
                        Some((_, tr, _)) => format!("<{tn} as {}>::{name}", path_name(tr)),
                        None => format!("{tn}::{name}"),
                    };
                    self.add_fn(FnItem {
                        key,
                        file: file.into(),
                        line: f.sig.ident.span().start().line,
                        attrs: f.attrs.clone(),
                        sig: f.sig.clone(),
                        block: live(&f.block),
                        self_ty: Some((*i.self_ty).clone()),
                        trait_: i.trait_.as_ref().map(|t| t.1.clone()),
                        generics: i.generics.clone(),
                        assoc: assoc.clone(),
                    });
                }
                ImplItem::Const(c) if enabled(&c.attrs) => {
                    let ty = c.ty.clone();
                    let e = c.expr.clone();
                    let id = quote::format_ident!("vx_const_{}", c.ident);
                    self.add_fn(FnItem {
                        key: format!("{tn}::{}", c.ident),
                        file: file.into(),
                        line: c.ident.span().start().line,
                        attrs: vec![],
                        sig: parse_quote!(fn #id() -> #ty),
                        block: parse_quote!({ #e }),
                        self_ty: Some((*i.self_ty).clone()),
                        trait_: None,
                        generics: i.generics.clone(),
                        assoc: assoc.clone(),
                    });
                }
                _ => {}
            }
        }
    }
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) -> std::result::Result<(), String> {
    for e in std::fs::read_dir(d).map_err(|e| format!("{}: {e}", d.display()))? {
        let p = e.map_err(|e| e.to_string())?.path();
        if p.is_dir() {
            walk(&p, out)?;
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
    Ok(())
}

/// Expands an item macro with a single arm `($x:ty) => { .. }` / `($x:ident) => ..`.
fn expand(def: &ItemMacro, call: &Macro) -> Option<Vec<Item>> {
    use proc_macro2::TokenTree as T;
    let toks: Vec<T> = def.mac.tokens.clone().into_iter().collect();
    let (T::Group(pat), T::Group(body)) = (toks.first()?, toks.get(3)?) else { return None };
    if toks.len() > 5 {
        return None;
    }
    let p: Vec<T> = pat.stream().into_iter().collect();
    // $ name : kind
    let (T::Punct(d), T::Ident(name)) = (p.first()?, p.get(1)?) else { return None };
    if d.as_char() != '$' || p.len() != 4 {
        return None;
    }
    let out = subst(body.stream(), &name.to_string(), &call.tokens);
    syn::parse2::<File>(out).ok().map(|f| f.items)
}

fn subst(s: proc_macro2::TokenStream, name: &str, by: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree as T};
    let mut out = proc_macro2::TokenStream::new();
    let mut it = s.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            T::Punct(ref p) if p.as_char() == '$' => {
                if let Some(T::Ident(i)) = it.peek() {
                    if i == name {
                        it.next();
                        out.extend(by.clone());
                        continue;
                    }
                }
                out.extend([t]);
            }
            T::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), name, by));
                n.set_span(g.span());
                out.extend([T::Group(n)]);
            }
            t => out.extend([t]),
        }
    }
    out
}

/// `std::result::Result::Ok` -> `Result::Ok`: the path from the first segment that is a type (or its last)
struct Shorten;
impl visit_mut::VisitMut for Shorten {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        let k = p
            .segments
            .iter()
            .position(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()))
            .unwrap_or(n - 1);
        if k > 0 || p.leading_colon.is_some() {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(k).cloned().collect();
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `must_use({ fmt::format(format_args!(..)) })` is what `format!(..)` expands to
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().ends_with("must_use") {
                if let Some(Expr::Block(b)) = c.args.first() {
                    if let [Stmt::Expr(Expr::Call(f), None)] = b.block.stmts.as_slice() {
                        if f.func.to_token_stream().to_string().ends_with("fmt :: format") {
                            if let Some(Expr::Macro(m)) = f.args.first() {
                                if m.mac.path.is_ident("format_args") {
                                    let t = &m.mac.tokens;
                                    *e = parse_quote!(format!(#t));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// The calls of `Function::new` with a literal name.
struct News(Vec<(String, ExprCall)>);
impl<'a> visit::Visit<'a> for News {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Function::new") {
            if let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = c.args.first() {
                self.0.push((s.value(), c.clone()));
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_item_mod(&mut self, _: &'a ItemMod) {}
}

/// `&NAME` of a static
fn static_ref(e: &Expr) -> Option<String> {
    match e {
        Expr::Reference(r) => match &*r.expr {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        },
        _ => None,
    }
}

/// `LazyLock::new(|| BODY)`: the body
fn lazy_body(e: &Expr) -> Option<Expr> {
    let Expr::Call(c) = e else { return None };
    if !c.func.to_token_stream().to_string().replace(' ', "").ends_with("LazyLock::new") {
        return None;
    }
    match c.args.first() {
        Some(Expr::Closure(k)) if k.inputs.is_empty() => Some((*k.body).clone()),
        _ => None,
    }
}

/// `Box::new(|x: T| BODY)`, perhaps within a block of its own
fn boxed(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Block(b) => match b.block.stmts.as_slice() {
            [Stmt::Expr(e, None)] => boxed(e),
            _ => None,
        },
        Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Box::new") => match c.args.first() {
            Some(Expr::Closure(k)) => Some(k.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// `&NAME` -> a call that stands for the static
struct Refs<'a>(&'a HashMap<String, Expr>);
impl visit_mut::VisitMut for Refs<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = static_ref(e) {
            if let Some(t) = self.0.get(&n) {
                *e = t.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Db {
    /// Takes from macro-expanded source what `#[register]` and `#[function]` generate: the validator and the
    /// evaluator closure of each function, its entry, the function itself, and the table of the registry.
    /// Keys: `validator(NAME)`, `evaluator(NAME)`, `function(NAME)`, `impl(NAME)`, `REGISTRY`.
    pub fn expanded(&mut self, text: &str, name: &str) -> std::result::Result<(), String> {
        let file = syn::parse_file(text).map_err(|e| format!("{name}: {e}"))?;
        self.exp_items(&file.items, name);
        Ok(())
    }

    fn exp_items(&mut self, items: &[Item], file: &str) {
        let mut statics: HashMap<String, (Expr, usize)> = HashMap::new();
        let mut tabs: Vec<(ItemStatic, Expr)> = vec![];
        for it in items {
            if let Item::Static(s) = it {
                statics.insert(s.ident.to_string(), ((*s.expr).clone(), s.ident.span().start().line));
                if let Some(b) = lazy_body(&s.expr) {
                    if s.ty.to_token_stream().to_string().contains("HashMap") {
                        tabs.push((s.clone(), b));
                    }
                }
            }
        }
        let mut by: HashMap<String, Expr> = HashMap::new();
        let mut news = News(vec![]);
        for it in items {
            if let Item::Mod(m) = it {
                if let Some((_, items)) = &m.content {
                    self.exp_items(items, file);
                }
                continue;
            }
            let k = news.0.len();
            visit::Visit::visit_item(&mut news, it);
            if let (Item::Static(s), Some((n, _))) = (it, news.0.get(k)) {
                by.insert(s.ident.to_string(), parse_quote!(vx_function(#n)));
            }
        }
        let fns: HashMap<String, &ItemFn> = items.iter().filter_map(|i| if let Item::Fn(f) = i { Some((f.sig.ident.to_string(), f)) } else { None }).collect();
        for (name, call) in news.0 {
            let mut call = call;
            let line = call.args.first().map(|a| spanned::Spanned::span(a).start().line).unwrap_or(0);
            for (i, what) in [(2, "evaluator"), (3, "validator")] {
                let Some(sn) = call.args.get(i).and_then(static_ref) else { continue };
                let Some((e, l)) = statics.get(&sn) else { continue };
                let Some(k) = lazy_body(e).and_then(|b| boxed(&b)) else { continue };
                let g = quote::format_ident!("vx_{what}");
                *call.args.get_mut(i).unwrap() = parse_quote!(#g(#name));
                let Some(Pat::Type(p)) = k.inputs.first() else { continue };
                let pat = &p.pat;
                let mut ty = (*p.ty).clone();
                visit_mut::VisitMut::visit_type_mut(&mut Shorten, &mut ty);
                let id = quote::format_ident!("vx_{what}_{}", name.replace(|c: char| !c.is_alphanumeric(), "_"));
                let sig: Signature = if what == "evaluator" {
                    parse_quote!(fn #id<'a>(#pat: VecDeque<JsonPathValue<'a>>) -> JsonPathValue<'a>)
                } else {
                    parse_quote!(fn #id(#pat: #ty) -> Result<(), FunctionValidationError>)
                };
                let mut block: Block = match &*k.body {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                visit_mut::VisitMut::visit_block_mut(&mut Shorten, &mut block);
                self.exp_fn(format!("{what}({name})"), file, *l, sig, block);
                // the function that is called
                struct Calls<'x>(&'x HashMap<String, &'x ItemFn>, Option<String>);
                impl<'a> visit::Visit<'a> for Calls<'_> {
                    fn visit_expr_path(&mut self, p: &'a ExprPath) {
                        if let Some(i) = p.path.get_ident() {
                            if self.0.contains_key(&i.to_string()) {
                                self.1 = Some(i.to_string());
                            }
                        }
                    }
                }
                if what == "evaluator" {
                    let mut c = Calls(&fns, None);
                    visit::Visit::visit_expr(&mut c, &k.body);
                    if let Some(f) = c.1.and_then(|n| fns.get(&n)) {
                        let mut block = (*f.block).clone();
                        visit_mut::VisitMut::visit_block_mut(&mut Shorten, &mut block);
                        let mut sig = f.sig.clone();
                        visit_mut::VisitMut::visit_signature_mut(&mut Shorten, &mut sig);
                        let key = sig.ident.to_string();
                        self.fns.remove(&key);
                        self.dups.retain(|d| *d != key);
                        self.exp_fn(key, file, f.sig.ident.span().start().line, sig, block);
                    }
                }
            }
            let id = quote::format_ident!("vx_function_{}", name.replace(|c: char| !c.is_alphanumeric(), "_"));
            let mut e = Expr::Call(call);
            visit_mut::VisitMut::visit_expr_mut(&mut Shorten, &mut e);
            self.exp_fn(format!("function({name})"), file, line, parse_quote!(fn #id() -> Function), parse_quote!({ #e }));
        }
        for (s, b) in tabs {
            let mut block: Block = match b {
                Expr::Block(b) => b.block,
                e => parse_quote!({ #e }),
            };
            visit_mut::VisitMut::visit_block_mut(&mut Refs(&by), &mut block);
            visit_mut::VisitMut::visit_block_mut(&mut Shorten, &mut block);
            let id = quote::format_ident!("vx_table_{}", s.ident);
            self.exp_fn(
                s.ident.to_string(),
                file,
                s.ident.span().start().line,
                parse_quote!(fn #id() -> HashMap<&'static str, &'static Function>),
                block,
            );
        }
    }

    fn exp_fn(&mut self, key: String, file: &str, line: usize, sig: Signature, block: Block) {
        self.add_fn(FnItem {
            key,
            file: file.into(),
            line,
            attrs: vec![],
            sig,
            block: live(&block),
            self_ty: None,
            trait_: None,
            generics: Generics::default(),
            assoc: vec![],
        });
    }
}
