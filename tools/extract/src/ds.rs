//! Desugaring of function bodies into the subset Verus accepts.  Every rule is a local rewriting that
//! keeps the meaning of the program: combinators become matches, iterator chains become loops over the
//! list of the items, closures are inlined where they are called, helpers without a contract are
//! inlined at their call sites.
use crate::load::{Db, FnItem};
use crate::ty::*;
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone, Default, Debug)]
pub struct LoopSpec {
    /// element type or `while`, or `*`
    pub label: String,
    pub shape: Option<String>,
    pub inv: Vec<String>,
    pub ens: Vec<String>,
    pub dec: Vec<String>,
    pub before: Vec<String>,
    pub body: Vec<String>,
    pub bodyend: Vec<String>,
    pub after: Vec<String>,
}

pub struct Known {
    /// functions under contract, or with a stated contract in the template
    pub fns: HashSet<String>,
    /// newtypes modelled as opaque values (`Integer`)
    pub opaque: HashSet<String>,
    /// names of types that have trait-based conversions in the template
    pub statics: HashMap<String, String>,
}

pub struct Ds<'d> {
    pub db: &'d Db,
    pub known: &'d Known,
    pub env: Vec<(String, Ty)>,
    pub self_ty: Option<Ty>,
    pub self_tokens: Option<Type>,
    pub assoc: Vec<(String, Type)>,
    pub generics: Vec<String>,
    pub ret: Ty,
    pub fresh: usize,
    pub loops: Vec<LoopSpec>,
    pub used_loops: Vec<bool>,
    /// inside an inlined body: return and ? are eliminated
    pub inlined: usize,
    pub stack: Vec<String>,
    /// inlined helper functions
    pub inlined_fns: Vec<String>,
    pub loop_depth: usize,
    /// in a loop kept running by a slot: the number of variables from outside it
    pub slot_outer: usize,
    pub self_name: Option<Ident>,
    /// enclosing loops: (items, index)
    pub encl: Vec<(String, String)>,
    /// functions under contract that are called
    pub calls: HashSet<String>,
    /// loops without a loop contract
    pub bare_loops: usize,
    /// string literals of the body
    pub lits: std::collections::BTreeSet<String>,
}

struct Chain {
    /// expression that evaluates to the list of items (an exec `Vec`)
    list: TokenStream,
    item: Ty,
    zip: Option<(TokenStream, Ty)>,
    ad: Vec<(String, Vec<Expr>)>,
}

fn par(t: TokenStream) -> TokenStream {
    let v: Vec<proc_macro2::TokenTree> = t.clone().into_iter().collect();
    if v.len() <= 1 {
        return t;
    }
    quote!((#t))
}

fn inv(s: &str) -> TokenStream {
    quote!(vx_inv!(#s);)
}
fn raw(s: &str) -> TokenStream {
    quote!(vx_raw!(#s);)
}

fn is_name(p: &Path, a: &str) -> bool {
    p.segments.last().is_some_and(|s| s.ident == a)
}

fn segs(p: &Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

/// Does the expression contain `?` or `return` of the current body?
pub fn has_exit(e: &dyn ToTokens) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    if let Ok(e) = syn::parse2::<Expr>({
        let t = e.to_token_stream();
        quote!({ #t })
    }) {
        visit::Visit::visit_expr(&mut v, &e);
    }
    v.0
}

fn diverges(b: &Block) -> bool {
    b.stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => match unparen(e) {
            Expr::Return(_) => true,
            Expr::If(i) => {
                diverges(&i.then_branch)
                    && i.else_branch.as_ref().is_some_and(|(_, e)| match unparen(e) {
                        Expr::Block(b) => diverges(&b.block),
                        Expr::If(_) => diverges(&parse_quote!({ #e })),
                        _ => false,
                    })
            }
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| { let e = &a.body; diverges(&parse_quote!({ #e })) }),
            _ => false,
        },
        _ => false,
    })
}

impl<'d> Ds<'d> {
    fn cx(&self) -> TyCx<'d> {
        TyCx {
            db: self.db,
            self_ty: self.self_ty.clone(),
            assoc: self.assoc.clone(),
            generics: self.generics.clone(),
        }
    }
    fn id(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", s, self.fresh)
    }
    fn lookup(&self, s: &str) -> Option<Ty> {
        self.env.iter().rev().find(|e| e.0 == s).map(|e| e.1.clone())
    }
    fn from_outside_slot(&self, e: &Expr) -> bool {
        let Expr::Path(p) = e else { return false };
        let Some(i) = p.path.get_ident() else { return false };
        let i = i.to_string();
        self.env.iter().rposition(|v| v.0 == i).is_some_and(|k| k < self.slot_outer)
    }
    pub fn bind_name(&mut self, s: &str, t: Ty) {
        self.env.push((s.to_string(), t));
    }

    pub fn bind_pat(&mut self, p: &Pat, t: &Ty) -> R<()> {
        self.bind(p, t)
    }

    fn variant(&self, p: &Path) -> Option<(String, Variant)> {
        let s = segs(p);
        if s.len() < 2 {
            return None;
        }
        let en = &s[s.len() - 2];
        let en = if en == "Self" { self.self_ty.as_ref()?.head().to_string() } else { en.clone() };
        let (e, _) = self.db.enums.get(&en)?;
        let v = e.variants.iter().find(|v| v.ident == s[s.len() - 1])?;
        Some((en, v.clone()))
    }

    /// A constructor applied to names: evaluation has no effect and cannot fail.
    fn plain(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => self.plain(&f.base),
            Expr::Reference(r) => r.mutability.is_none() && self.plain(&r.expr),
            Expr::Call(c) => {
                let Expr::Path(p) = unparen(&c.func) else { return false };
                let s = segs(&p.path);
                let l = &s[s.len() - 1];
                (self.variant(&p.path).is_some() || l == "Self" || matches!(l.as_str(), "Some" | "Ok" | "Err") || self.db.structs.contains_key(l))
                    && c.args.iter().all(|a| self.plain(a))
            }
            _ => false,
        }
    }

    fn builtin_variant(&self, p: &Path, t: &Ty) -> Option<Vec<Ty>> {
        let l = p.segments.last()?.ident.to_string();
        Some(match l.as_str() {
            "Some" => vec![t.arg(0)],
            "Ok" => vec![t.arg(0)],
            "Err" => vec![t.arg(1)],
            "Error" | "Failure" if segs(p).contains(&"Nerr".to_string()) => vec![t.arg(0)],
            "Incomplete" if segs(p).contains(&"Nerr".to_string()) => vec![Ty::Unk],
            "Array" if segs(p).contains(&"Value".to_string()) => vec![n1("Vec", n("Value"))],
            "Object" if segs(p).contains(&"Value".to_string()) => vec![n("Map")],
            "String" if segs(p).contains(&"Value".to_string()) => vec![n("String")],
            "Bool" if segs(p).contains(&"Value".to_string()) => vec![n("bool")],
            "Number" if segs(p).contains(&"Value".to_string()) => vec![n("Number")],
            _ => return None,
        })
    }

    /// Binds the names of a pattern.
    fn bind(&mut self, p: &Pat, t: &Ty) -> R<()> {
        match p {
            Pat::Ident(i) => {
                if i.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
                    self.bind_name(&i.ident.to_string(), t.clone());
                }
                if let Some((_, s)) = &i.subpat {
                    self.bind(s, t)?;
                }
            }
            Pat::Reference(r) => self.bind(&r.pat, t)?,
            Pat::Paren(r) => self.bind(&r.pat, t)?,
            Pat::Type(r) => {
                let t2 = self.cx().ty(&r.ty);
                self.bind(&r.pat, &t2.or(t))?
            }
            Pat::Tuple(tp) => {
                for (i, p) in tp.elems.iter().enumerate() {
                    self.bind(p, &t.arg(i))?;
                }
            }
            Pat::Or(o) => {
                if let Some(p) = o.cases.first() {
                    self.bind(p, t)?;
                }
            }
            Pat::TupleStruct(ts) => {
                let tys: Vec<Ty> = if let Some((_, v)) = self.variant(&ts.path) {
                    v.fields.iter().map(|f| self.cx().ty(&f.ty)).collect()
                } else if let Some(v) = self.builtin_variant(&ts.path, t) {
                    v
                } else if let Some((s, _)) = self.db.structs.get(&ts.path.segments.last().unwrap().ident.to_string()) {
                    s.fields.iter().map(|f| self.cx().ty(&f.ty)).collect()
                } else {
                    vec![]
                };
                for (i, p) in ts.elems.iter().enumerate() {
                    let t = tys.get(i).cloned().unwrap_or(Ty::Unk);
                    self.bind(p, &t)?;
                }
            }
            Pat::Struct(ps) => {
                let fields: Vec<(String, Ty)> = if let Some((_, v)) = self.variant(&ps.path) {
                    v.fields.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), self.cx().ty(&f.ty))).collect()
                } else {
                    let name = ps.path.segments.last().unwrap().ident.to_string();
                    let name = if name == "Self" { self.self_ty.as_ref().map(|t| t.head().to_string()).unwrap_or(name) } else { name };
                    match self.db.structs.get(&name) {
                        Some((s, _)) => s
                            .fields
                            .iter()
                            .filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), self.cx().ty(&f.ty))))
                            .collect(),
                        None => vec![],
                    }
                };
                for f in &ps.fields {
                    if let Member::Named(m) = &f.member {
                        let t = fields.iter().find(|x| m == &x.0).map(|x| x.1.clone()).unwrap_or(Ty::Unk);
                        self.bind(&f.pat, &t)?;
                    }
                }
            }
            Pat::Slice(_) => return Err("slice pattern".into()),
            _ => {}
        }
        Ok(())
    }

    /// The pattern as printed (constants and `Self` stay as they are).
    fn pat(&self, p: &Pat) -> R<TokenStream> {
        Ok(self.fix_self(p.to_token_stream()))
    }

    /// Replaces `Self` by the surrounding type when the body is inlined elsewhere.
    fn fix_self(&self, t: TokenStream) -> TokenStream {
        if self.inlined == 0 {
            return t;
        }
        let Some(Ty::N(name, _)) = &self.self_ty else { return t };
        let id = format_ident!("{}", name);
        fn go(t: TokenStream, id: &Ident) -> TokenStream {
            use proc_macro2::TokenTree as T;
            t.into_iter()
                .map(|x| match x {
                    T::Ident(i) if i == "Self" => T::Ident(id.clone()),
                    T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), id))),
                    x => x,
                })
                .collect()
        }
        go(t, &id)
    }

    fn member_ty(&self, base: &Ty, m: &Member) -> Ty {
        if let Ty::Tup(_) = base {
            if let Member::Unnamed(i) = m {
                return base.arg(i.index as usize);
            }
        }
        if let Some((s, _)) = self.db.structs.get(base.head()) {
            for (i, f) in s.fields.iter().enumerate() {
                let hit = match (m, &f.ident) {
                    (Member::Named(m), Some(id)) => m == id,
                    (Member::Unnamed(x), None) => x.index as usize == i,
                    _ => false,
                };
                if hit {
                    let gs: Vec<String> = s.generics.type_params().map(|p| p.ident.to_string()).collect();
                    if let Type::Path(p) = &f.ty {
                        if let Some(k) = gs.iter().position(|g| p.path.is_ident(g)) {
                            return base.arg(k);
                        }
                    }
                    return self.cx().ty(&f.ty);
                }
            }
        }
        Ty::Unk
    }

    // ---------------------------------------------------------------- blocks

    pub fn block(&mut self, b: &Block, hint: &Ty) -> R<(TokenStream, Ty)> {
        let n = self.env.len();
        let r = if self.inlined > 0 && b.stmts.iter().any(|s| has_exit(s)) {
            self.elim(&b.stmts, hint)
        } else {
            self.stmts(&b.stmts, hint)
        };
        self.env.truncate(n);
        r
    }

    fn stmts(&mut self, ss: &[Stmt], hint: &Ty) -> R<(TokenStream, Ty)> {
        let mut out = TokenStream::new();
        let mut ty = Ty::Tup(vec![]);
        for (k, s) in ss.iter().enumerate() {
            let last = k + 1 == ss.len();
            let (t, tt) = self.stmt(s, if last { hint } else { &Ty::Unk }, last)?;
            out.extend(t);
            if last {
                ty = tt;
            }
        }
        Ok((out, ty))
    }

    fn stmt(&mut self, s: &Stmt, hint: &Ty, _last: bool) -> R<(TokenStream, Ty)> {
        let unit = Ty::Tup(vec![]);
        match s {
            Stmt::Local(l) => {
                let (pat, ann) = match &l.pat {
                    Pat::Type(p) => ((*p.pat).clone(), Some((*p.ty).clone())),
                    p => (p.clone(), None),
                };
                let pt = self.pat(&pat)?;
                let h = ann.as_ref().map(|t| self.cx().ty(t)).unwrap_or(Ty::Unk);
                let annt = match &ann {
                    Some(t) if !has_infer(t) => {
                        let t = fix_ty(t, &self.assoc);
                        let t = self.fix_self(t);
                        quote!(: #t)
                    }
                    _ => quote!(),
                };
                match &l.init {
                    None => {
                        self.bind(&pat, &h)?;
                        Ok((quote!(let #pt #annt;), unit))
                    }
                    Some(i) => {
                        let (e, t) = self.ex(&i.expr, &h)?;
                        let t = h.or(&t);
                        let els = match &i.diverge {
                            Some((_, d)) => {
                                let (d, _) = self.ex(d, &Ty::Unk)?;
                                quote!(else #d)
                            }
                            None => quote!(),
                        };
                        self.bind(&pat, &t)?;
                        Ok((quote!(let #pt #annt = #e #els;), unit))
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                let (t, ty) = self.ex(e, hint)?;
                if semi.is_some() {
                    Ok((quote!(#t;), unit))
                } else if matches!(e, Expr::ForLoop(_)) {
                    Ok((t, ty))
                } else {
                    Ok((t, ty))
                }
            }
            Stmt::Macro(m) => {
                let (t, ty) = self.mac(&m.mac, hint)?;
                if m.semi_token.is_some() {
                    Ok((quote!(#t;), unit))
                } else {
                    Ok((t, ty))
                }
            }
            // structs and impls are taken out by the loader
            Stmt::Item(Item::Use(_) | Item::Struct(_) | Item::Impl(_)) => Ok((quote!(), unit)),
            Stmt::Item(_) => Err("item in a body".into()),
        }
    }

    /// Statement list of an inlined body whose value may be given by `return` or `?`:
    /// rewritten so that every path ends with the value.
    fn elim(&mut self, ss: &[Stmt], hint: &Ty) -> R<(TokenStream, Ty)> {
        let Some(k) = ss.iter().position(|s| has_exit(s)) else {
            return self.stmts(ss, hint);
        };
        let mut out = TokenStream::new();
        let n = self.env.len();
        for s in &ss[..k] {
            out.extend(self.stmt(s, &Ty::Unk, false)?.0);
        }
        let rest = &ss[k + 1..];
        let (t, ty) = match &ss[k] {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("let without value")?;
                if has_exit(&init.expr) {
                    let e = &init.expr;
                    let pat = &l.pat;
                    let div = init.diverge.as_ref().map(|(_, d)| quote!(else #d));
                    self.elim_expr(e, hint, &|v: &Expr| {
                        let s: Stmt = parse_quote!(let #pat = #v #div;);
                        let mut out = vec![s];
                        out.extend(rest.iter().cloned());
                        out
                    })?
                } else {
                    let (_, d) = init.diverge.as_ref().ok_or("let")?;
                    let (pat, ann) = match &l.pat {
                        Pat::Type(p) => ((*p.pat).clone(), self.cx().ty(&p.ty)),
                        p => (p.clone(), Ty::Unk),
                    };
                    let (e, t) = self.ex(&init.expr, &ann)?;
                    let pt = self.pat(&pat)?;
                    let (db, dt) = self.elim(&[Stmt::Expr((**d).clone(), None)], hint)?;
                    let m = self.env.len();
                    self.bind(&pat, &ann.or(&t))?;
                    let (b, bt) = self.elim(rest, hint)?;
                    self.env.truncate(m);
                    (quote!(match #e { #pt => { #b } _ => { #db } }), bt.or(&dt))
                }
            }
            Stmt::Expr(e, semi) => {
                let tail = semi.is_none() && rest.is_empty();
                self.elim_expr(e, hint, &|v: &Expr| {
                    if tail {
                        vec![Stmt::Expr(v.clone(), None)]
                    } else {
                        let mut out: Vec<Stmt> = vec![parse_quote!(#v;)];
                        out.extend(rest.iter().cloned());
                        out
                    }
                })?
            }
            _ => return Err("early exit in a macro or item".into()),
        };
        out.extend(t);
        self.env.truncate(n);
        Ok((out, ty))
    }

    /// `k(v)` is the statement list that continues once the expression has the value `v`.
    fn elim_expr(&mut self, e: &Expr, hint: &Ty, k: &dyn Fn(&Expr) -> Vec<Stmt>) -> R<(TokenStream, Ty)> {
        let cont = |b: &Block| -> Vec<Stmt> {
            // statements of the branch, then the continuation with the branch's value
            let mut ss = b.stmts.clone();
            if diverges(b) {
                return ss;
            }
            let unit: Expr = parse_quote!(());
            match ss.last().cloned() {
                Some(Stmt::Expr(v, None)) => {
                    ss.pop();
                    ss.extend(k(&v));
                }
                _ => ss.extend(k(&unit)),
            }
            ss
        };
        match unparen(e) {
            Expr::Return(r) => match &r.expr {
                Some(v) => {
                    let s = Stmt::Expr((**v).clone(), None);
                    self.elim(&[s], hint)
                }
                None => Ok((quote!(()), Ty::Tup(vec![]))),
            },
            Expr::Block(b) => {
                let ss = cont(&b.block);
                let n = self.env.len();
                let (t, ty) = self.elim(&ss, hint)?;
                self.env.truncate(n);
                Ok((quote!({ #t }), ty))
            }
            Expr::If(i) if !has_exit(&i.cond) => {
                let n = self.env.len();
                let c = self.cond(&i.cond)?;
                let (a, at) = {
                    let ss = cont(&i.then_branch);
                    self.elim(&ss, hint)?
                };
                self.env.truncate(n);
                let (b, bt) = match &i.else_branch {
                    Some((_, e)) => {
                        let b: Block = match unparen(e) {
                            Expr::Block(b) => b.block.clone(),
                            e => parse_quote!({ #e }),
                        };
                        let ss = cont(&b);
                        self.elim(&ss, hint)?
                    }
                    None => {
                        let unit: Expr = parse_quote!(());
                        let ss = k(&unit);
                        self.elim(&ss, hint)?
                    }
                };
                self.env.truncate(n);
                Ok((quote!(if #c { #a } else { #b }), at.or(&bt)))
            }
            Expr::Match(m) if !has_exit(&m.expr) => {
                let (s, st) = self.ex(&m.expr, &Ty::Unk)?;
                let mut arms = TokenStream::new();
                let mut ty = Ty::Unk;
                for a in &m.arms {
                    let n = self.env.len();
                    self.bind(&a.pat, &st)?;
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => {
                            let (g, _) = self.ex(g, &n_bool())?;
                            quote!(if #g)
                        }
                        None => quote!(),
                    };
                    let body = &a.body;
                    let b: Block = match unparen(body) {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    let ss = cont(&b);
                    let (t, tt) = self.elim(&ss, hint)?;
                    ty = ty.or(&tt);
                    self.env.truncate(n);
                    arms.extend(quote!(#p #g => { #t }));
                }
                Ok((quote!(match #s { #arms }), ty))
            }
            Expr::ForLoop(f) if f.label.is_none() => {
                // the value given by the exit is kept, and the loop stops
                let mut body = f.body.clone();
                exits_to_slot(&mut body)?;
                body.stmts.push(Stmt::Expr(parse_quote!(None), None));
                let slot = self.id("slot");
                let c = self.chain(&f.expr, true)?.ok_or("for loop")?;
                let pat = f.pat.clone();
                let h = n1("Option", hint.clone());
                let s2 = slot.clone();
                let n = self.env.len();
                let mut st = Ty::Unk;
                let outer = std::mem::replace(&mut self.slot_outer, n);
                let t = self.emit(c, "for-return", &[("$SLOT", slot.to_string())], quote!(#slot.is_none()), &mut |s, x, ty| {
                    s.bind(&pat, &ty)?;
                    let p = s.pat(&pat)?;
                    let (t, tt) = s.elim(&body.stmts, &h)?;
                    st = st.or(&tt);
                    Ok(quote!(let #p = #x; #s2 = { #t };))
                })?;
                self.slot_outer = outer;
                self.env.truncate(n);
                let unit: Expr = parse_quote!(());
                let ss = k(&unit);
                let (b, bt) = self.elim(&ss, hint)?;
                let v = self.id("v");
                Ok((quote!({ let mut #slot = None; #t match #slot { Some(#v) => { #v } None => { #b } } }), hint.or(&bt).or(&st.arg(0))))
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => Err("early exit from a loop of an inlined body".into()),
            e => {
                // hoist the first `?` in evaluation order
                let mut e2 = e.clone();
                let tmp = self.id("q");
                let inner = hoist(&mut e2, &tmp)?.ok_or("early exit in an unsupported position")?;
                let (s, st) = self.ex(&inner, &Ty::Unk)?;
                let n = self.env.len();
                let st = if st == Ty::Unk { hint.clone() } else { st };
                let r = match st.head() {
                    "Option" => {
                        self.bind_name(&tmp.to_string(), st.arg(0));
                        let ss = k(&e2);
                        let (b, bt) = self.elim(&ss, hint)?;
                        (quote!(match #s { Some(#tmp) => { #b } None => None }), n1("Option", Ty::Unk).or(&bt))
                    }
                    "Result" => {
                        self.bind_name(&tmp.to_string(), st.arg(0));
                        let ss = k(&e2);
                        let (b, bt) = self.elim(&ss, hint)?;
                        let er = self.id("e");
                        (quote!(match #s { Ok(#tmp) => { #b } Err(#er) => Err(#er.vx_into()) }), n2("Result", Ty::Unk, Ty::Unk).or(&bt))
                    }
                    o => return Err(format!("`?` on a value of unknown kind ({o})")),
                };
                self.env.truncate(n);
                Ok(r)
            }
        }
    }

    fn cond(&mut self, c: &Expr) -> R<TokenStream> {
        match c {
            Expr::Let(l) => {
                let (e, t) = self.ex(&l.expr, &Ty::Unk)?;
                self.bind(&l.pat, &t)?;
                let p = self.pat(&l.pat)?;
                Ok(quote!(let #p = #e))
            }
            Expr::Paren(p) => self.cond(&p.expr),
            e => Ok(self.ex(e, &n_bool())?.0),
        }
    }

    // ----------------------------------------------------------- expressions

    pub fn ex(&mut self, e: &Expr, hint: &Ty) -> R<(TokenStream, Ty)> {
        match e {
            Expr::Paren(p) => {
                let (t, ty) = self.ex(&p.expr, hint)?;
                Ok((par(t), ty))
            }
            Expr::Group(p) => self.ex(&p.expr, hint),
            Expr::Lit(l) => {
                let ty = match &l.lit {
                    Lit::Str(s) => {
                        self.lits.insert(s.value());
                        n("String")
                    }
                    Lit::Bool(_) => n_bool(),
                    Lit::Char(_) => n("char"),
                    Lit::Int(i) => match i.suffix() {
                        "" if hint.is_int() => hint.clone(),
                        "" => Ty::Unk,
                        s => n(s),
                    },
                    _ => Ty::Unk,
                };
                Ok((l.to_token_stream(), ty))
            }
            Expr::Path(p) => self.path(p, hint),
            Expr::Reference(r) => {
                let (t, ty) = self.ex(&r.expr, hint)?;
                let m = &r.mutability;
                if m.is_some() && !is_place(&r.expr) {
                    let id = self.id("m");
                    // only as an argument: handled by `args`
                    return Ok((quote!(vx_hoist!(#id, #t)), ty));
                }
                let t = par(t);
                Ok((quote!(& #m #t), ty))
            }
            Expr::Unary(u) => {
                let (t, ty) = self.ex(&u.expr, hint)?;
                let op = u.op;
                let t = par(t);
                Ok((quote!(#op #t), ty))
            }
            Expr::Binary(b) => {
                let (l, lt) = self.ex(&b.left, &Ty::Unk)?;
                let (r, rt) = self.ex(&b.right, &lt)?;
                let op = b.op;
                let ty = match op {
                    BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => n_bool(),
                    _ => lt.or(&rt),
                };
                let (l, r) = (par(l), par(r));
                let bit = match op {
                    BinOp::BitOr(_) => Some("vx_bit_or"),
                    BinOp::BitAnd(_) => Some("vx_bit_and"),
                    BinOp::BitXor(_) => Some("vx_bit_xor"),
                    _ => None,
                };
                if let Some(f) = bit {
                    if !matches!(lt.or(&rt).head(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64") {
                        let f = format_ident!("{}", f);
                        return Ok((quote!(#f(#l, #r)), n_bool()));
                    }
                }
                // comparisons of strings and other modelled values go through the template's traits
                let cmp = match op {
                    BinOp::Eq(_) => Some(("vx_eq", false)),
                    BinOp::Ne(_) => Some(("vx_eq", true)),
                    _ => None,
                };
                if let Some((f, neg)) = cmp {
                    let h = lt.or(&rt);
                    if self.eq_modelled(&h) || (h.is("Option") && (self.eq_modelled(&h.arg(0)) || h.arg(0).is_int())) {
                        let f = format_ident!("{}", f);
                        let t = quote!(#f(&#l, &#r));
                        return Ok((if neg { quote!((!#t)) } else { t }, n_bool()));
                    }
                }
                if lt.is("String") && matches!(op, BinOp::AddAssign(_)) {
                    let l = match &*b.left {
                        Expr::Unary(ExprUnary { op: UnOp::Deref(_), .. }) | Expr::Path(_) | Expr::Field(_) => l,
                        _ => return Err("+= on an expression".into()),
                    };
                    return Ok((quote!(vx_push_str(&mut #l, &#r)), Ty::Tup(vec![])));
                }
                if lt.is("String") && matches!(op, BinOp::Add(_)) {
                    let z = self.id("cat");
                    return Ok((quote!({ let mut #z = #l; vx_push_str(&mut #z, &#r); #z }), n("String")));
                }
                if lt.is("String") || rt.is("String") {
                    let (f, a, b) = match op {
                        BinOp::Lt(_) => ("vx_str_lt", &l, &r),
                        BinOp::Gt(_) => ("vx_str_lt", &r, &l),
                        BinOp::Le(_) => ("vx_str_le", &l, &r),
                        BinOp::Ge(_) => ("vx_str_le", &r, &l),
                        _ => return Err("operator on strings".into()),
                    };
                    let f = format_ident!("{}", f);
                    return Ok((quote!(#f(&#a, &#b)), n_bool()));
                }
                if lt.is("f64") || rt.is("f64") {
                    let (f, a, b) = match op {
                        BinOp::Lt(_) => ("vx_f64_lt", &l, &r),
                        BinOp::Gt(_) => ("vx_f64_lt", &r, &l),
                        BinOp::Le(_) => ("vx_f64_le", &l, &r),
                        BinOp::Ge(_) => ("vx_f64_le", &r, &l),
                        BinOp::Eq(_) => ("vx_f64_eq", &l, &r),
                        BinOp::Ne(_) => return Ok((quote!((!vx_f64_eq(#l, #r))), n_bool())),
                        _ => return Err("operator on floats".into()),
                    };
                    let f = format_ident!("{}", f);
                    return Ok((quote!(#f(#a, #b)), n_bool()));
                }
                Ok((quote!(#l #op #r), ty))
            }
            Expr::Assign(a) => {
                let (l, lt) = self.ex(&a.left, &Ty::Unk)?;
                let (r, _) = self.ex(&a.right, &lt)?;
                Ok((quote!(#l = #r), Ty::Tup(vec![])))
            }
            Expr::Field(f) => {
                let (b, bt) = self.ex(&f.base, &Ty::Unk)?;
                let b = par(b);
                if self.known.opaque.contains(bt.head()) {
                    let t = self.member_ty(&bt, &f.member);
                    return Ok((quote!(#b.vx_get()), t));
                }
                let m = &f.member;
                let t = self.member_ty(&bt, m);
                Ok((quote!(#b.#m), t))
            }
            Expr::Index(i) => {
                let (b, bt) = self.ex(&i.expr, &Ty::Unk)?;
                let (x, xt) = self.ex(&i.index, &n("usize"))?;
                let b = par(b);
                let ty = if bt.is("Vec") && !xt.head().starts_with("Range") { bt.arg(0) } else { bt };
                Ok((quote!(#b[#x]), ty))
            }
            Expr::Cast(c) => {
                let (b, bt) = self.ex(&c.expr, &Ty::Unk)?;
                let t = self.cx().ty(&c.ty);
                let b = par(b);
                let ct = &c.ty;
                if bt.is("char") {
                    return Ok((quote!((vx_char_code(#b) as #ct)), t));
                }
                Ok((quote!((#b as #ct)), t))
            }
            Expr::Array(a) => {
                let es = &a.elems;
                let m: Expr = parse_quote!(vec![#es]);
                self.ex(&m, hint)
            }
            Expr::Tuple(t) => {
                let mut ts = vec![];
                let mut tys = vec![];
                for (i, e) in t.elems.iter().enumerate() {
                    let (x, y) = self.ex(e, &hint.arg(i))?;
                    ts.push(x);
                    tys.push(y);
                }
                if ts.len() == 1 {
                    return Err("one-element tuple".into());
                }
                Ok((quote!((#(#ts),*)), Ty::Tup(tys)))
            }
            Expr::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let var = self.variant(&s.path);
                let ty = match &var {
                    Some((e, _)) => n(e),
                    None if name == "Self" => self.self_ty.clone().unwrap_or(Ty::Unk),
                    None => n(&name),
                };
                let mut fs = TokenStream::new();
                for f in &s.fields {
                    let ft = match &var {
                        Some((_, v)) => v
                            .fields
                            .iter()
                            .find(|x| Some(x.ident.clone().map(Member::Named)) == Some(Some(f.member.clone())))
                            .map(|x| self.cx().ty(&x.ty))
                            .unwrap_or(Ty::Unk),
                        None => self.member_ty(&ty, &f.member),
                    };
                    let (x, _) = self.ex(&f.expr, &ft)?;
                    // moved at most once: the loop stops with the value
                    let x = if self.from_outside_slot(&f.expr) { quote!(vx_dup(&#x)) } else { x };
                    let m = &f.member;
                    fs.extend(quote!(#m: #x,));
                }
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let p = self.fix_self(s.path.to_token_stream());
                Ok((quote!(#p { #fs }), ty))
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                let (t, ty) = self.block(&b.block, hint)?;
                Ok((quote!({ #t }), ty))
            }
            Expr::If(i) => {
                let n = self.env.len();
                if let Some((l, r)) = split_let_chain(&i.cond) {
                    // if a && b {..} else {..}  with a `let`: nested ifs
                    let b = &i.then_branch;
                    let els = match &i.else_branch {
                        Some((_, e)) => quote!(else #e),
                        None => quote!(),
                    };
                    let nested: Expr = syn::parse2(quote!(if #l { if #r #b #els } #els)).map_err(|e| e.to_string())?;
                    return self.ex(&nested, hint);
                }
                if let Some((x, recv)) = first_mut(&i.cond) {
                    // the first item is taken out while the block runs
                    if i.else_branch.is_none() && !has_exit(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() })) {
                        let (r, rt) = self.ex(&recv, &Ty::Unk)?;
                        let name = recv.to_token_stream().to_string();
                        if rt.head() == "Vec" && !i.then_branch.to_token_stream().to_string().contains(&name) {
                            self.bind_name(&x.to_string(), rt.arg(0));
                            let (a, _) = self.block(&i.then_branch, &Ty::Unk)?;
                            self.env.truncate(n);
                            return Ok((
                                quote!(if #r.len() > 0 { let mut #x = vx_pop_first(&mut #r); { #a }; vx_put_first(&mut #r, #x); }),
                                Ty::Tup(vec![]),
                            ));
                        }
                    }
                }
                let c = self.cond(&i.cond)?;
                let (a, at) = self.block(&i.then_branch, hint)?;
                self.env.truncate(n);
                match &i.else_branch {
                    Some((_, e)) => {
                        let (b, bt) = self.ex(e, &hint.or(&at))?;
                        let b = if matches!(unparen(e), Expr::Block(_)) { b } else { quote!({ #b }) };
                        Ok((quote!(if #c { #a } else #b), at.or(&bt)))
                    }
                    None => Ok((quote!(if #c { #a }), Ty::Tup(vec![]))),
                }
            }
            Expr::Match(m) => {
                let (s, st) = self.ex(&m.expr, &Ty::Unk)?;
                let mut arms = TokenStream::new();
                let mut ty = Ty::Unk;
                for a in &m.arms {
                    if !crate::load::enabled(&a.attrs) {
                        continue;
                    }
                    let n = self.env.len();
                    self.bind(&a.pat, &st)?;
                    let p = self.pat(&a.pat)?;
                    let g = match &a.guard {
                        Some((_, g)) => {
                            let (g, _) = self.ex(g, &n_bool())?;
                            quote!(if #g)
                        }
                        None => quote!(),
                    };
                    let (b, bt) = self.ex(&a.body, &hint.or(&ty))?;
                    if !matches!(unparen(&a.body), Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
                        ty = ty.or(&bt);
                    }
                    self.env.truncate(n);
                    arms.extend(quote!(#p #g => { #b }));
                }
                Ok((quote!(match #s { #arms }), ty))
            }
            Expr::Return(r) => {
                if self.inlined > 0 {
                    return Err("return in an unsupported position of an inlined body".into());
                }
                let h = self.ret.clone();
                match &r.expr {
                    Some(e) => {
                        let (t, _) = self.ex(e, &h)?;
                        Ok((quote!(return #t), Ty::Unk))
                    }
                    None => Ok((quote!(return), Ty::Unk)),
                }
            }
            Expr::Break(b) => {
                if b.expr.is_some() || b.label.is_some() {
                    return Err("break with a value or label".into());
                }
                Ok((quote!(break), Ty::Unk))
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("continue with a label".into());
                }
                Ok((quote!(continue), Ty::Unk))
            }
            Expr::Try(t) => {
                if self.inlined > 0 {
                    return Err("`?` in an unsupported position of an inlined body".into());
                }
                let (e, et) = self.ex(&t.expr, &Ty::Unk)?;
                let et = if et == Ty::Unk { self.ret.clone() } else { et };
                let v = self.id("v");
                match et.head() {
                    "Option" => Ok((quote!(match #e { Some(#v) => #v, None => { return None } }), et.arg(0))),
                    "Result" => {
                        let er = self.id("e");
                        Ok((quote!(match #e { Ok(#v) => #v, Err(#er) => { return Err(#er.vx_into()) } }), et.arg(0)))
                    }
                    o => Err(format!("`?` on a value of unknown kind ({o})")),
                }
            }
            Expr::Macro(m) => self.mac(&m.mac, hint),
            Expr::Let(_) => Err("let in an unsupported position".into()),
            Expr::While(w) => self.while_(w),
            Expr::Loop(_) => Err("loop".into()),
            Expr::ForLoop(f) => self.for_(f),
            Expr::Call(c) => self.call(c, hint),
            Expr::MethodCall(m) => self.method(m, hint),
            Expr::Closure(_) => Err("closure that is not called here".into()),
            Expr::Range(_) => Err("range".into()),
            _ => Err(format!("expression {}", short(e))),
        }
    }

    fn path(&mut self, p: &ExprPath, hint: &Ty) -> R<(TokenStream, Ty)> {
        let s = segs(&p.path);
        if s.len() == 1 {
            if s[0] == "self" {
                let t = self.self_ty.clone().unwrap_or(Ty::Unk);
                return Ok(match &self.self_name {
                    Some(i) => (i.to_token_stream(), t),
                    None => (quote!(self), t),
                });
            }
            if let Some(t) = self.lookup(&s[0]) {
                return Ok((p.to_token_stream(), t));
            }
            if s[0] == "None" {
                return Ok((quote!(None), n1("Option", hint.arg(0))));
            }
            if s[0] == "REGISTRY" {
                return Ok((quote!(()), n("Registry")));
            }
            if let Some((c, _)) = self.db.consts.get(&s[0]) {
                return Ok((p.to_token_stream(), self.cx().ty(&c.ty)));
            }
            return Ok((p.to_token_stream(), Ty::Unk));
        }
        if let Some((e, _)) = self.variant(&p.path) {
            return Ok((self.fix_self(p.to_token_stream()), n(&e)));
        }
        let head = if s[0] == "Self" { self.self_ty.as_ref().map(|t| t.head().to_string()).unwrap_or_default() } else { s[s.len() - 2].clone() };
        let key = format!("{head}::{}", s[s.len() - 1]);
        if let Some(f) = self.db.fns.get(&key) {
            if f.sig.ident.to_string().starts_with("vx_const_") {
                let h = format_ident!("{}", head);
                let id = &f.sig.ident;
                return Ok((quote!(#h::#id()), self.ret_ty(&f.clone())));
            }
        }
        if head == "Value" && s[s.len() - 1] == "Null" {
            return Ok((quote!(Value::Null), n("Value")));
        }
        Ok((self.fix_self(p.to_token_stream()), Ty::Unk))
    }

    fn fn_cx(&self, f: &FnItem) -> TyCx<'d> {
        let mut generics: Vec<String> = f.generics.type_params().map(|p| p.ident.to_string()).collect();
        generics.extend(f.sig.generics.type_params().map(|p| p.ident.to_string()));
        let mut cx = TyCx { db: self.db, self_ty: None, assoc: f.assoc.clone(), generics };
        cx.self_ty = f.self_ty.as_ref().map(|t| cx.ty(t));
        cx
    }
    fn ret_ty(&self, f: &FnItem) -> Ty {
        match &f.sig.output {
            ReturnType::Default => Ty::Tup(vec![]),
            ReturnType::Type(_, t) => self.fn_cx(f).ty(t),
        }
    }

    /// Key of the method `name` on a receiver of type `t`.
    fn method_key(&self, t: &Ty, name: &str) -> Option<String> {
        let mut names = vec![t.name(), t.head().to_string()];
        names.dedup();
        let mut found = vec![];
        for nm in &names {
            let k = format!("{nm}::{name}");
            if self.db.fns.contains_key(&k) {
                return Some(k);
            }
            for k in self.db.fns.keys() {
                if k.starts_with(&format!("<{nm} as ")) && k.ends_with(&format!(">::{name}")) {
                    found.push(k.clone());
                }
            }
            if !found.is_empty() {
                break;
            }
        }
        if found.is_empty() {
            // impl blocks that are generic in a parameter: `FunctionExpr<V>`
            for k in self.db.fns.keys() {
                if let Some((a, b)) = k.rsplit_once("::") {
                    let a = a.strip_prefix('<').unwrap_or(a);
                    if b == name && a.contains('<') && a.split('<').next() == Some(t.head()) && !a.starts_with(&format!("{} as", t.head())) {
                        found.push(k.clone());
                    }
                }
            }
        }
        if found.len() == 1 {
            found.pop()
        } else {
            None
        }
    }

    fn args(&mut self, args: &[&Expr], tys: &[Ty]) -> R<(TokenStream, Vec<TokenStream>, Vec<Ty>)> {
        let mut pre = TokenStream::new();
        let mut out = vec![];
        let mut ats = vec![];
        for (i, a) in args.iter().enumerate() {
            let h = tys.get(i).cloned().unwrap_or(Ty::Unk);
            if let Expr::Reference(r) = unparen(a) {
                if r.mutability.is_some() && !is_place(&r.expr) {
                    let (t, ty) = self.ex(&r.expr, &h)?;
                    let id = self.id("m");
                    pre.extend(quote!(let mut #id = #t;));
                    out.push(quote!(&mut #id));
                    ats.push(ty);
                    continue;
                }
            }
            let (t, ty) = self.ex(a, &h)?;
            out.push(t);
            ats.push(ty);
        }
        Ok((pre, out, ats))
    }

    fn wrap(pre: TokenStream, e: TokenStream) -> TokenStream {
        if pre.is_empty() {
            e
        } else {
            quote!({ #pre #e })
        }
    }

    /// Inlines a function without a contract.
    fn inline(&mut self, key: &str, recv: Option<(TokenStream, Ty)>, args: &[&Expr]) -> R<(TokenStream, Ty)> {
        let f = self.db.fns.get(key).cloned().ok_or(format!("unknown function {key}"))?;
        if self.db.dups.contains(&key.to_string()) {
            return Err(format!("more than one function {key}"));
        }
        if self.stack.iter().any(|s| s == key) {
            return Err(format!("recursive function {key} without a contract"));
        }
        if self.stack.len() > 6 {
            return Err("too many levels of helper functions".into());
        }
        let cx = self.fn_cx(&f);
        let ptys: Vec<Ty> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(cx.ty(&t.ty)),
                _ => None,
            })
            .collect();
        let (pre, ts, ats) = self.args(args, &ptys)?;
        if !self.inlined_fns.contains(&key.to_string()) {
            self.inlined_fns.push(key.to_string());
        }
        let mut out = pre;
        let mut binds = TokenStream::new();
        let mut env: Vec<(String, Ty)> = vec![];
        let mut self_name = None;
        if let Some((r, _)) = &recv {
            let id = self.id("self");
            let by_ref = match f.sig.inputs.first() {
                Some(FnArg::Receiver(rc)) => rc.reference.is_some(),
                _ => false,
            };
            if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(rc)) if rc.reference.is_some() && rc.mutability.is_some()) {
                return Err("inlining of a method with &mut self".into());
            }
            if by_ref {
                out.extend(quote!(let #id = &#r;));
            } else {
                out.extend(quote!(let #id = #r;));
            }
            self_name = Some(id);
        }
        let typed: Vec<&PatType> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(t),
                _ => None,
            })
            .collect();
        if typed.len() != ts.len() {
            return Err(format!("argument count of {key}"));
        }
        let slot_outer = std::mem::take(&mut self.slot_outer);
        let saved_env = std::mem::take(&mut self.env);
        for ((p, t), at) in typed.iter().zip(&ts).zip(&ats) {
            let pt = &p.pat;
            let by_mut = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
            let bare = syn::parse2::<Ident>(t.clone()).is_ok();
            if by_mut && bare && pt.to_token_stream().to_string() == t.to_string() {
                // the same name, reborrowed
            } else {
                let tmp = self.id("a");
                if by_mut && bare {
                    out.extend(quote!(let #tmp = &mut *#t;));
                } else {
                    out.extend(quote!(let #tmp = #t;));
                }
                binds.extend(quote!(let #pt = #tmp;));
            }
            let ty = cx.ty(&p.ty).or(at);
            self.env = std::mem::take(&mut env);
            self.bind(&p.pat, &ty)?;
            env = std::mem::take(&mut self.env);
        }
        let rt = self.ret_ty(&f);
        let saved = (
            std::mem::replace(&mut self.self_ty, cx.self_ty.clone()),
            std::mem::replace(&mut self.assoc, f.assoc.clone()),
            std::mem::replace(&mut self.generics, cx.generics.clone()),
            std::mem::replace(&mut self.ret, rt.clone()),
            std::mem::replace(&mut self.self_name, self_name),
        );
        self.env = env;
        self.inlined += 1;
        self.stack.push(key.to_string());
        let r = self.block(&f.block, &rt);
        self.stack.pop();
        self.inlined -= 1;
        self.slot_outer = slot_outer;
        self.env = saved_env;
        (self.self_ty, self.assoc, self.generics, self.ret, self.self_name) = saved;
        let (b, bt) = r?;
        Ok((quote!({ #out #binds #b }), rt.or(&bt)))
    }

    /// Applies a closure or function value to already translated arguments.
    fn apply(&mut self, f: &Expr, args: &[(TokenStream, Ty)], hint: &Ty) -> R<(TokenStream, Ty)> {
        match unparen(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                let n = self.env.len();
                let mut out = TokenStream::new();
                for (p, (a, t)) in c.inputs.iter().zip(args) {
                    let (p, _) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some(&t.ty)),
                        p => (p.clone(), None),
                    };
                    if let Pat::Wild(_) = p {
                        continue;
                    }
                    self.bind(&p, t)?;
                    let pt = self.pat(&p)?;
                    if let Pat::Ident(i) = &p {
                        if i.mutability.is_none() && i.by_ref.is_none() && i.subpat.is_none() && a.to_string() == i.ident.to_string() {
                            continue;
                        }
                    }
                    out.extend(quote!(let #pt = #a;));
                }
                let h = match &c.output {
                    ReturnType::Type(_, t) => self.cx().ty(t).or(hint),
                    _ => hint.clone(),
                };
                let exits = has_exit(&c.body);
                let (b, bt) = if exits {
                    self.inlined += 1;
                    let s = match unparen(&c.body) {
                        Expr::Block(b) => b.block.stmts.clone(),
                        e => vec![Stmt::Expr(e.clone(), None)],
                    };
                    let keep_self = self.self_name.is_some();
                    let _ = keep_self;
                    let r = self.elim(&s, &h);
                    self.inlined -= 1;
                    r?
                } else {
                    match unparen(&c.body) {
                        Expr::Block(b) => self.block(&b.block, &h)?,
                        e => self.ex(e, &h)?,
                    }
                };
                self.env.truncate(n);
                Ok((quote!({ #out #b }), h.or(&bt)))
            }
            Expr::Path(p) => {
                let mut names = vec![];
                let mut pre = TokenStream::new();
                let n = self.env.len();
                for (a, t) in args {
                    let id = self.id("f");
                    pre.extend(quote!(let #id = #a;));
                    self.bind_name(&id.to_string(), t.clone());
                    names.push(id);
                }
                let call: Expr = parse_quote!(#p(#(#names),*));
                let r = self.ex(&call, hint);
                self.env.truncate(n);
                let (t, ty) = r?;
                Ok((quote!({ #pre #t }), ty))
            }
            _ => Err("function value".into()),
        }
    }

    fn call(&mut self, c: &ExprCall, hint: &Ty) -> R<(TokenStream, Ty)> {
        let args: Vec<&Expr> = c.args.iter().collect();
        let f = unparen(&c.func);
        let Expr::Path(p) = f else {
            // a boxed function stored in a field
            if let Expr::Field(_) = f {
                let (t, ty) = self.ex(f, &Ty::Unk)?;
                let (pre, ts, _) = self.args(&args, &[])?;
                let rt = match ty.head() {
                    "Evaluator" => n("JsonPathValue"),
                    "Validator" => n2("Result", Ty::Tup(vec![]), n("FunctionValidationError")),
                    _ => return Err("call of a stored function".into()),
                };
                return Ok((Self::wrap(pre, quote!(#t.vx_call(#(#ts),*))), rt));
            }
            if let Expr::Closure(_) = f {
                let (pre, ts, tys) = self.args(&args, &[])?;
                let a: Vec<(TokenStream, Ty)> = ts.into_iter().zip(tys).collect();
                let (t, ty) = self.apply(f, &a, hint)?;
                return Ok((Self::wrap(pre, t), ty));
            }
            return Err("call of an expression".into());
        };
        let s = segs(&p.path);
        let last = s[s.len() - 1].clone();
        // the displayed text of a value, to a formatter
        if last == "fmt" && args.len() == 2 && s.len() > 1 && s[s.len() - 2] == "Display" {
            let (t, ty) = self.ex(args[0], &Ty::Unk)?;
            let (d, dt) = self.ex(args[1], &Ty::Unk)?;
            if !dt.is("Formatter") {
                return Err("Display::fmt to something other than a formatter".into());
            }
            let w = self.write_arg(&quote!(&mut *#d), &FmtSpec::Plain, t, &ty)?;
            return Ok((quote!({ #w vx_w_ok() }), n2("Result", Ty::Tup(vec![]), n("VxFmtError"))));
        }
        // the error of a deserializer
        if last == "custom" && args.len() == 1 && s.len() > 1 && (s[s.len() - 2] == "Error" || s[s.len() - 2] == "E") {
            let (pre, ts, _) = self.args(&args, &[])?;
            return Ok((Self::wrap(pre, quote!(vx_de_custom(#(#ts),*))), n("VxDeError")));
        }
        // constructors
        if s.len() == 1 || (s.len() == 2 && (s[0] == "Option" || s[0] == "Result")) {
            let inner = match last.as_str() {
                "Some" => Some(n1("Option", hint.arg(0))),
                "Ok" => Some(n2("Result", hint.arg(0), hint.arg(1))),
                "Err" => Some(n2("Result", hint.arg(0), hint.arg(1))),
                _ => None,
            };
            if let Some(t) = inner {
                let k = if last == "Err" { 1 } else { 0 };
                let (pre, ts, tys) = self.args(&args, &[hint.arg(k)])?;
                let id = format_ident!("{}", last);
                let mut t = t;
                if let Ty::N(_, a) = &mut t {
                    a[k] = a[k].or(&tys[0]);
                }
                return Ok((Self::wrap(pre, quote!(#id(#(#ts),*))), t));
            }
        }
        if let Some((e, v)) = self.variant(&p.path) {
            let tys: Vec<Ty> = v.fields.iter().map(|f| self.cx().ty(&f.ty)).collect();
            let (pre, ts, _) = self.args(&args, &tys)?;
            let p = self.fix_self(p.to_token_stream());
            return Ok((Self::wrap(pre, quote!(#p(#(#ts),*))), n(&e)));
        }
        if s.len() == 2 && s[0] == "Nerr" {
            let (pre, ts, tys) = self.args(&args, &[])?;
            return Ok((Self::wrap(pre, quote!(#p(#(#ts),*))), n1("Nerr", tys[0].clone())));
        }
        if s.len() == 2 && s[0] == "Value" {
            if let Some(t) = self.builtin_variant(&p.path, &Ty::Unk) {
                let (pre, ts, _) = self.args(&args, &t)?;
                return Ok((Self::wrap(pre, quote!(#p(#(#ts),*))), n("Value")));
            }
        }
        let self_head = self.self_ty.as_ref().map(|t| t.head().to_string()).unwrap_or_default();
        // tuple structs
        if s.len() == 1 {
            let nm = if last == "Self" { self_head.clone() } else { last.clone() };
            if let Some((st, _)) = self.db.structs.get(&nm) {
                let tys: Vec<Ty> = st.fields.iter().map(|f| self.cx().ty(&f.ty)).collect();
                let (pre, ts, _) = self.args(&args, &tys)?;
                let id = format_ident!("{}", nm);
                let ty = if last == "Self" { self.self_ty.clone().unwrap() } else { n(&nm) };
                if self.known.opaque.contains(&nm) {
                    return Ok((Self::wrap(pre, quote!(#id::vx_make(#(#ts),*))), ty));
                }
                let id = if last == "Self" && self.inlined == 0 { quote!(Self) } else { quote!(#id) };
                return Ok((Self::wrap(pre, quote!(#id(#(#ts),*))), ty));
            }
        }
        // conversions
        let head = if s.len() >= 2 { s[s.len() - 2].clone() } else { String::new() };
        let head_ty = if head == "Self" { self.self_ty.clone().unwrap_or(Ty::Unk) } else { n(&head) };
        match (head.as_str(), last.as_str()) {
            ("TryFrom", "try_from") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                let rt = if hint.is("Result") { hint.clone() } else { n2("Result", Ty::Unk, Ty::Unk) };
                return Ok((Self::wrap(pre, quote!(VxTryFrom::vx_try_from(#(#ts),*))), rt));
            }
            ("TryInto", "try_into") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                let rt = if hint.is("Result") { hint.clone() } else { n2("Result", Ty::Unk, Ty::Unk) };
                return Ok((Self::wrap(pre, quote!(VxTryFrom::vx_try_from(#(#ts),*))), rt));
            }
            ("Into", "into") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                let a = &ts[0];
                return Ok((Self::wrap(pre, quote!((#a).vx_into())), hint.clone()));
            }
            ("From", "from") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                return Ok((Self::wrap(pre, quote!(VxFrom::vx_from(#(#ts),*))), hint.clone()));
            }
            ("Default", "default") => return Ok((quote!(VxDefault::vx_default()), hint.clone())),
            ("String", "with_capacity") => return Ok((quote!(vx_string_new()), n("String"))),
            ("String", "from") | ("String", "new") => {
                let (pre, ts, tys) = self.args(&args, &[])?;
                let t = if last == "new" {
                    quote!(vx_string_new())
                } else {
                    let a = &ts[0];
                    if tys[0].is("char") { quote!(vx_string_from_char(#a)) } else { quote!(vx_string_from(&#a)) }
                };
                return Ok((Self::wrap(pre, t), n("String")));
            }
            ("Box", "new") => {
                let (pre, ts, tys) = self.args(&args, &[hint.clone()])?;
                return Ok((Self::wrap(pre, quote!(Box::new(#(#ts),*))), tys[0].clone()));
            }
            ("Vec", "new") | ("Vec", "with_capacity") => {
                let t = if hint.is("Vec") { hint.clone() } else { n1("Vec", Ty::Unk) };
                return Ok((quote!(Vec::new()), t));
            }
            ("HashMap", "new") => return Ok((quote!(HashMap::new()), n("HashMap"))),
            ("Regex", "new") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                return Ok((Self::wrap(pre, quote!(VxRegex::vx_new(#(#ts),*))), n2("Result", n("VxRegex"), n("VxRegexError"))));
            }
            ("u32" | "u16", "from_str_radix") => {
                let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = unparen(args[1]) else { return Err("radix".into()) };
                let (pre, ts, _) = self.args(&args[..1], &[])?;
                let f = format_ident!("vx_{}_radix{}", head, i.base10_digits());
                return Ok((Self::wrap(pre, quote!(#f(#(#ts),*))), n2("Result", n(&head), n("ParseIntError"))));
            }
            ("char", "from_u32") => {
                let (pre, ts, _) = self.args(&args, &[n("u32")])?;
                return Ok((Self::wrap(pre, quote!(vx_char_from_u32(#(#ts),*))), n1("Option", n("char"))));
            }
            ("String", "from_utf16") => {
                let (pre, ts, _) = self.args(&args, &[n1("Vec", n("u16"))])?;
                return Ok((Self::wrap(pre, quote!(vx_from_utf16(#(#ts),*))), n2("Result", n("String"), n("FromUtf16Error"))));
            }
            ("Number", "from_str") => {
                let (pre, ts, _) = self.args(&args, &[])?;
                return Ok((Self::wrap(pre, quote!(vx_number_from_str(#(#ts),*))), n2("Result", n("Number"), n("SerdeError"))));
            }
            ("Number", "from") => {
                let (pre, ts, _) = self.args(&args, &[n("i32")])?;
                return Ok((Self::wrap(pre, quote!(Number::vx_from_int(#(#ts),*))), n("Number")));
            }
            _ => {}
        }
        if !head.is_empty() && head_ty != Ty::Unk {
            if last == "try_from" {
                let (pre, ts, tys) = self.args(&args, &[])?;
                let _ = tys;
                let h = format_ident!("{}", head_ty.head());
                return Ok((Self::wrap(pre, quote!(<#h as VxTryFrom<_>>::vx_try_from(#(#ts),*))), n2("Result", head_ty, Ty::Unk)));
            }
            if last == "from" {
                let (pre, ts, _) = self.args(&args, &[])?;
                let h = format_ident!("{}", head_ty.head());
                return Ok((Self::wrap(pre, quote!(<#h as VxFrom<_>>::vx_from(#(#ts),*))), head_ty));
            }
            if last == "default" {
                return Ok((quote!(VxDefault::vx_default()), head_ty));
            }
        }
        // functions of the crates
        let key = if head.is_empty() || head.chars().next().is_some_and(|c| c.is_lowercase()) {
            last.clone()
        } else {
            match self.method_key(&head_ty, &last) {
                Some(k) => k,
                None => format!("{}::{last}", head_ty.head()),
            }
        };
        if let Some(f) = self.db.fns.get(&key).cloned() {
            let has_recv = f.sig.receiver().is_some();
            if has_recv {
                // UFCS: Type::method(recv, ..)
                let recv = args[0];
                let rest: Vec<&Expr> = args[1..].to_vec();
                let m = format_ident!("{}", last);
                let call: Expr = parse_quote!((#recv).#m(#(#rest),*));
                return self.ex(&call, hint);
            }
            if self.known.fns.contains(&key) {
                self.calls.insert(key.clone());
                let cx = self.fn_cx(&f);
                let tys: Vec<Ty> = f
                    .sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        FnArg::Typed(t) => Some(cx.ty(&t.ty)),
                        _ => None,
                    })
                    .collect();
                let (pre, ts, _) = self.args(&args, &tys)?;
                let id = format_ident!("{}", last);
                let callee = if head.is_empty() || head.chars().next().is_some_and(|c| c.is_lowercase()) {
                    quote!(#id)
                } else {
                    let h = format_ident!("{}", head_ty.head());
                    quote!(#h::#id)
                };
                return Ok((Self::wrap(pre, quote!(#callee(#(#ts),*))), self.ret_ty(&f)));
            }
            return self.inline(&key, None, &args);
        }
        if let Some(rt) = self.known.statics.get(&key).cloned() {
            let (pre, ts, _) = self.args(&args, &[])?;
            let p = self.fix_self(p.to_token_stream());
            let t: Type = syn::parse_str(&rt).map_err(|e| e.to_string())?;
            return Ok((Self::wrap(pre, quote!(#p(#(#ts),*))), self.cx().ty(&t)));
        }
        if s.len() == 2 && head_ty != Ty::Unk && !args.is_empty() {
            // a built-in method in path form: `Value::is_null(v)`, `Option::is_some(&x)`
            let recv = args[0];
            let rest: Vec<&Expr> = args[1..].to_vec();
            let m = format_ident!("{}", last);
            let call: Expr = parse_quote!((#recv).#m(#(#rest),*));
            return self.ex(&call, hint);
        }
        if key == "panic" {
            // what `panic!`, `unreachable!` expand to
            return Ok((quote!(vx_panic()), hint.clone()));
        }
        Err(format!("call of {key}"))
    }

    fn mac(&mut self, m: &Macro, hint: &Ty) -> R<(TokenStream, Ty)> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        match name.as_str() {
            "vec" => {
                let a = m.parse_body_with(Args::parse_terminated).map_err(|e| format!("vec!: {e}"))?;
                let v = self.id("vec");
                let mut out = TokenStream::new();
                let mut ty = if hint.is("Vec") { hint.arg(0) } else { Ty::Unk };
                for e in a.iter() {
                    let (t, tt) = self.ex(e, &ty.clone())?;
                    ty = ty.or(&tt);
                    out.extend(quote!(#v.push(#t);));
                }
                if a.is_empty() {
                    return Ok((quote!(Vec::new()), n1("Vec", ty)));
                }
                Ok((quote!({ let mut #v = Vec::new(); #out #v }), n1("Vec", ty)))
            }
            "matches" => {
                let s = m.tokens.to_string();
                let _ = s;
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().map_err(|e| format!("matches!: {e}"))?;
                let g = g.map(|g| quote!(if #g));
                let call: Expr = parse_quote!(match #e { #p #g => true, _ => false });
                self.ex(&call, &n_bool())
            }
            "assert" | "debug_assert" => {
                let a = m.parse_body_with(Args::parse_terminated).map_err(|e| format!("assert!: {e}"))?;
                let (t, _) = self.ex(&a[0], &n_bool())?;
                Ok((quote!(if !(#t) { vx_panic(); }), Ty::Tup(vec![])))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Ok((quote!(vx_panic()), hint.clone())),
            "vx_unsupported" => {
                let l: LitStr = m.parse_body().map_err(|e| e.to_string())?;
                Err(l.value())
            }
            "vx_as_ok" => {
                struct M(Type, Expr);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                        let t = i.parse()?;
                        i.parse::<Token![,]>()?;
                        Ok(M(t, i.parse()?))
                    }
                }
                let M(t, e) = m.parse_body().map_err(|e| e.to_string())?;
                let h = n2("Result", self.cx().ty(&t), Ty::Unk);
                let (x, ty) = self.ex(&e, &h)?;
                Ok((x, h.or(&ty)))
            }
            "vx_take_while" => self.take_while(m),
            "vx_nom_loop" => self.nom_loop(m),
            "format" => self.format_(m),
            "write" | "writeln" => self.write_(m, name == "writeln"),
            _ => Err(format!("macro {name}!")),
        }
    }

    /// The characters of the input as long as they satisfy the predicate.
    fn take_while(&mut self, m: &Macro) -> R<(TokenStream, Ty)> {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let a: Vec<Expr> = m.parse_body_with(Args::parse_terminated).map_err(|e| e.to_string())?.into_iter().collect();
        let [i, lo, hi, ascii, c, pred] = &a[..] else { return Err("take_while".into()) };
        let (i, _) = self.ex(i, &n("String"))?;
        let (lo, _) = self.ex(lo, &n("usize"))?;
        let (hi, _) = self.ex(hi, &n("usize"))?;
        let (ch, l, h, ix, go, ok) = (self.id("ch"), self.id("lo"), self.id("hi"), self.id("i"), self.id("go"), self.id("ok"));
        let ascii = matches!(ascii, Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) if b.value);
        let spec = self.find_loop("take_while", "while");
        let sub: Vec<(String, String)> = vec![
            ("$S".into(), format!("{ch}@")),
            ("$I".into(), ix.to_string()),
            ("$GO".into(), go.to_string()),
            ("$LIM".into(), h.to_string()),
        ];
        let mut iv = format!("invariant {ix} <= {ch}@.len(), {ix} <= {h} || {ix} == 0,\n");
        for l in &spec.inv {
            if let Some(t) = substitute(l, &sub) {
                iv.push_str(&format!("  {t}\n"));
            }
        }
        iv.push_str(&format!("decreases {ch}@.len() - {ix} + (if {go} {{ 1int }} else {{ 0int }}),\n"));
        let iv = inv(&iv);
        let texts = |v: &Vec<String>| -> TokenStream { v.iter().filter_map(|l| substitute(l, &sub)).map(|l| raw(&l)).collect() };
        let (bf, tb, te, af) = (texts(&spec.before), texts(&spec.body), texts(&spec.bodyend), texts(&spec.after));
        let n0 = self.env.len();
        let c = unparen(c).to_token_stream();
        self.bind_name(&c.to_string(), n("char"));
        let (p, _) = self.ex(pred, &n_bool())?;
        self.env.truncate(n0);
        let chk = if ascii { quote!(vx_need_ascii(#c);) } else { quote!() };
        Ok((
            quote!({
                let #ch = vx_p_chars(#i);
                let #l: usize = #lo;
                let #h: usize = #hi;
                let mut #ix: usize = 0;
                let mut #go = true;
                #bf
                while #go && #ix < #h && #ix < #ch.len() {
                    #iv
                    let #c = vx_nth(&#ch, #ix);
                    #tb
                    let #ok: bool = #p;
                    if #ok { #chk #ix = #ix + 1; } else { #go = false; }
                    #te
                }
                #af
                if #ix < #l { None } else { Some(vx_p_split(#i, #ix)) }
            }),
            n1("Option", Ty::Tup(vec![n("String"), n("String")])),
        ))
    }

    /// The loop of a repeating parser.
    fn nom_loop(&mut self, m: &Macro) -> R<(TokenStream, Ty)> {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let a: Vec<Expr> = m.parse_body_with(Args::parse_terminated).map_err(|e| e.to_string())?.into_iter().collect();
        let [kind, i, acc, rest, go, err, body] = &a[..] else { return Err("repeating parser".into()) };
        let Expr::Lit(ExprLit { lit: Lit::Str(kind), .. }) = kind else { return Err("repeating parser".into()) };
        let name = |e: &Expr| e.to_token_stream().to_string();
        let (i, acc, rest, go, err) = (name(i), name(acc), name(rest), name(go), name(err));
        let (g1, g2) = (self.id("g0"), self.id("g0"));
        let spec = self.find_loop(&kind.value(), "while");
        let sub: Vec<(String, String)> = vec![
            ("$REST0".into(), g1.to_string()),
            ("$ACC0".into(), g2.to_string()),
            ("$REST".into(), rest.clone()),
            ("$ACC".into(), acc.clone()),
            ("$GO".into(), go.clone()),
            ("$ERR".into(), err.clone()),
            ("$IN".into(), i.clone()),
        ];
        let mut iv = format!("invariant sfx({rest}@, {i}@), {rest}@.len() <= {g1}.len(),\n");
        for l in &spec.inv {
            if let Some(t) = substitute(l, &sub) {
                iv.push_str(&format!("  {t}\n"));
            }
        }
        iv.push_str(&format!("decreases {rest}@.len(), (if {go} {{ 1int }} else {{ 0int }}),\n"));
        let iv = inv(&iv);
        let texts = |v: &Vec<String>| -> TokenStream { v.iter().filter_map(|l| substitute(l, &sub)).map(|l| raw(&l)).collect() };
        let (bf, tb, te, af) = (texts(&spec.before), texts(&spec.body), texts(&spec.bodyend), texts(&spec.after));
        let s1 = raw(&format!("let ghost {g1} = {rest}@; let ghost {g2} = {acc};"));
        let Expr::Block(b) = body else { return Err("repeating parser".into()) };
        let (b, _) = self.block(&b.block, &Ty::Unk)?;
        let go = format_ident!("{}", go);
        Ok((quote!(#s1 #bf while #go { #iv #tb #b #te } #af), Ty::Tup(vec![])))
    }

    /// The parts of a format string with their arguments.
    fn fmt_args(&mut self, a: &[Expr]) -> R<Vec<(FmtPart, Option<Expr>)>> {
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = a.first() else {
            return Err("format string".into());
        };
        let mut out = vec![];
        let mut pos = 1;
        for p in fmt_parts(&s.value()).ok_or("format string")? {
            let e = match &p {
                FmtPart::Lit(_) => None,
                FmtPart::Arg(name, _) => Some(if name.is_empty() {
                    let e = a.get(pos).cloned().ok_or("format argument")?;
                    pos += 1;
                    e
                } else if let Ok(i) = name.parse::<usize>() {
                    a.get(i + 1).cloned().ok_or("format argument")?
                } else {
                    let named = a.iter().skip(1).find_map(|x| match x {
                        Expr::Assign(x) if x.left.to_token_stream().to_string() == *name => Some((*x.right).clone()),
                        _ => None,
                    });
                    match named {
                        Some(e) => e,
                        None => syn::parse_str(name).map_err(|e| e.to_string())?,
                    }
                }),
            };
            out.push((p, e));
        }
        Ok(out)
    }

    /// The implementation of Display for a type (of which there is one for all its arguments).
    fn disp_key(&self, ty: &Ty) -> String {
        let key = format!("<{} as Display>::fmt", ty.head());
        let gen = format!("<{}<", ty.head());
        match self.db.fns.keys().find(|k| k.starts_with(&gen) && k.ends_with("> as Display>::fmt")) {
            Some(k) if !self.db.fns.contains_key(&key) && self.known.fns.contains(k) => k.clone(),
            _ => key,
        }
    }

    /// Writes one displayed argument to the formatter `f`.
    fn write_arg(&mut self, f: &TokenStream, spec: &FmtSpec, t: TokenStream, ty: &Ty) -> R<TokenStream> {
        let t = par(t);
        Ok(match spec {
            FmtSpec::Plain => {
                let key = self.disp_key(ty);
                if *ty == Ty::Unk {
                    return Err("display of a value of unknown type".into());
                }
                if self.known.fns.contains(&key) {
                    self.calls.insert(key);
                    quote!(vx_w_did(#t.fmt(#f));)
                } else if self.db.fns.contains_key(&key) {
                    return Err(format!("{key} has no contract"));
                } else {
                    quote!(vx_w_disp(#f, &#t);)
                }
            }
            FmtSpec::Hex(w) => {
                if !ty.is_int() {
                    return Err("hexadecimal of a value of unknown type".into());
                }
                quote!(vx_w_hex(#f, #t as u64, #w);)
            }
        })
    }

    /// `format!("..{a}..", ..)` as a concatenation of the displayed parts.
    fn format_(&mut self, m: &Macro) -> R<(TokenStream, Ty)> {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let a = m.parse_body_with(Args::parse_terminated).map_err(|e| format!("format!: {e}"))?;
        let a: Vec<Expr> = a.into_iter().collect();
        let parts = self.fmt_args(&a)?;
        let id = self.id("s");
        let mut out = quote!(let mut #id = VxFmt::vx_new(););
        let f = quote!(&mut #id);
        for (p, e) in parts {
            match (p, e) {
                (FmtPart::Lit(l), _) => {
                    self.lits.insert(l.clone());
                    out.extend(quote!(vx_w_str(#f, #l);))
                }
                (FmtPart::Arg(_, sp), Some(e)) => {
                    let (t, ty) = self.ex(&e, &Ty::Unk)?;
                    out.extend(self.write_arg(&f, &sp, t, &ty)?);
                }
                _ => return Err("format argument".into()),
            }
        }
        Ok((quote!({ #out #id.vx_into_string() }), n("String")))
    }

    /// `|a, b| a == b`, or `PartialEq::eq` by name.
    fn is_eq_closure(&self, e: &Expr) -> bool {
        let Expr::Closure(c) = e else { return false };
        let ps: Vec<String> = c
            .inputs
            .iter()
            .filter_map(|p| match p {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => Some(p.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut b = &*c.body;
        while let Expr::Block(x) = b {
            match x.block.stmts.as_slice() {
                [Stmt::Expr(e, None)] => b = e,
                _ => return false,
            }
        }
        let Expr::Binary(b) = b else { return false };
        let name = |e: &Expr| {
            let mut e = e;
            loop {
                match e {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => e = &u.expr,
                    Expr::Paren(p) => e = &p.expr,
                    Expr::Path(p) => return p.path.get_ident().map(|i| i.to_string()),
                    _ => return None,
                }
            }
        };
        let (Some(l), Some(r)) = (name(&b.left), name(&b.right)) else { return false };
        matches!(b.op, BinOp::Eq(_)) && ps.len() == 2 && ((l == ps[0] && r == ps[1]) || (l == ps[1] && r == ps[0]))
    }

    /// `write!(f, "..{a}..", ..)`: each part in turn to the formatter.
    fn write_(&mut self, m: &Macro, nl: bool) -> R<(TokenStream, Ty)> {
        type Args = punctuated::Punctuated<Expr, Token![,]>;
        let a = m.parse_body_with(Args::parse_terminated).map_err(|e| format!("write!: {e}"))?;
        let a: Vec<Expr> = a.into_iter().collect();
        let Some((dst, rest)) = a.split_first() else { return Err("write!".into()) };
        let (d, dt) = self.ex(dst, &Ty::Unk)?;
        let into_string = dt.is("String");
        if !dt.is("Formatter") && !into_string {
            return Err("write! to something other than a formatter".into());
        }
        let id = self.id("s");
        let f = if into_string { quote!(&mut #id) } else { quote!(&mut *#d) };
        let mut out = TokenStream::new();
        if into_string {
            // writing to a `String` appends, and cannot fail
            out.extend(quote!(let mut #id = VxFmt::vx_new();));
        }
        let parts = if rest.is_empty() { vec![] } else { self.fmt_args(rest)? };
        for (p, e) in parts {
            match (p, e) {
                (FmtPart::Lit(l), _) => {
                    self.lits.insert(l.clone());
                    out.extend(quote!(vx_w_str(#f, #l);))
                }
                (FmtPart::Arg(_, sp), Some(e)) => {
                    let (t, ty) = self.ex(&e, &Ty::Unk)?;
                    out.extend(self.write_arg(&f, &sp, t, &ty)?);
                }
                _ => return Err("format argument".into()),
            }
        }
        if nl {
            out.extend(quote!(vx_w_str(#f, "\n");));
        }
        if into_string {
            out.extend(quote!(vx_push_str(&mut #d, &#id.vx_into_string());));
        }
        Ok((quote!({ #out vx_w_ok() }), n2("Result", Ty::Tup(vec![]), n("VxFmtError"))))
    }

    // ----------------------------------------------------------------- loops

    fn find_loop(&mut self, label: &str, shape: &str) -> LoopSpec {
        let mut best: Option<(usize, usize)> = None;
        for (i, l) in self.loops.iter().enumerate() {
            let s1 = if l.label == label {
                2
            } else if l.label == "*" {
                1
            } else {
                continue;
            };
            let s2 = match &l.shape {
                Some(s) if s == shape => 1,
                Some(_) => continue,
                None => 0,
            };
            let score = s1 * 4 + s2 * 2 + if self.used_loops[i] { 0 } else { 1 };
            if best.is_none_or(|b| score > b.1) {
                best = Some((i, score));
            }
        }
        match best {
            Some((i, _)) => {
                self.used_loops[i] = true;
                self.loops[i].clone()
            }
            None => {
                self.bare_loops += 1;
                LoopSpec::default()
            }
        }
    }

    /// Builds `while` over a list of items.
    /// `cond`: further condition; `body` gets the item.
    fn emit(
        &mut self,
        c: Chain,
        shape: &str,
        subs: &[(&str, String)],
        cond: TokenStream,
        body: &mut dyn FnMut(&mut Self, TokenStream, Ty) -> R<TokenStream>,
    ) -> R<TokenStream> {
        let it = self.id("it");
        let ix = self.id("i");
        let list = &c.list;
        let mut pre = quote!(let #it = #list; let mut #ix: usize = 0;);
        let mut item_ty = c.item.clone();
        let x = self.id("x");
        let mut head = quote!(let #x = vx_nth(&#it, #ix););
        let mut bound = quote!(#ix < #it.len());
        let mut itz = None;
        if let Some((z, zt)) = &c.zip {
            let jt = self.id("it");
            pre.extend(quote!(let #jt = #z;));
            head = quote!(let #x = (vx_nth(&#it, #ix), vx_nth(&#jt, #ix)););
            bound = quote!(#ix < #it.len() && #ix < #jt.len());
            item_ty = Ty::Tup(vec![c.item.clone(), zt.clone()]);
            itz = Some(jt);
        }
        let label = label_of(&c.item);
        let spec = self.find_loop(&label, shape);
        // one counter for `enumerate` after a filter
        let mut sub: Vec<(String, String)> = subs.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        sub.push(("$S".into(), format!("{it}@")));
        if let Some(j) = &itz {
            sub.push(("$Z".into(), format!("{j}@")));
        }
        sub.push(("$I".into(), format!("{ix}")));
        sub.push(("$X".into(), format!("{it}@[{ix} - 1]")));
        if let Some((a, b)) = self.encl.last() {
            sub.push(("$PS".into(), format!("{a}@")));
            sub.push(("$PI".into(), b.clone()));
        }
        let has = |s: &String| -> Option<String> { substitute(s, &sub) };
        let mut iv = format!("invariant {ix} <= {it}@.len(),\n");
        if let Some(j) = &itz {
            iv = format!("invariant {ix} <= {it}@.len(), {ix} <= {j}@.len(),\n");
        }
        for l in &spec.inv {
            if let Some(t) = has(l) {
                iv.push_str(&format!("  {t}\n"));
            }
        }
        if !spec.ens.is_empty() {
            iv.push_str("ensures\n");
            for l in &spec.ens {
                if let Some(t) = has(l) {
                    iv.push_str(&format!("  {t}\n"));
                }
            }
        }
        iv.push_str(&format!("decreases {it}@.len() - {ix},\n"));
        let iv = inv(&iv);
        let texts = |v: &Vec<String>| -> TokenStream { v.iter().filter_map(|l| substitute(l, &sub)).map(|l| raw(&l)).collect() };
        let before = texts(&spec.before);
        let tb = texts(&spec.body);
        let te = texts(&spec.bodyend);
        let after = texts(&spec.after);
        // adaptors
        self.loop_depth += 1;
        self.encl.push((it.to_string(), ix.to_string()));
        let n = self.env.len();
        let r = self.adapt(&c.ad, 0, quote!(#x), item_ty, &ix, true, body);
        self.env.truncate(n);
        self.loop_depth -= 1;
        self.encl.pop();
        let b = r?;
        let cond = if cond.is_empty() { bound } else { quote!(#cond && #bound) };
        Ok(quote!(#pre #before while #cond { #iv #head #ix = #ix + 1; #tb #b #te } #after))
    }

    #[allow(clippy::too_many_arguments)]
    fn adapt(
        &mut self,
        ad: &[(String, Vec<Expr>)],
        k: usize,
        x: TokenStream,
        ty: Ty,
        ix: &Ident,
        aligned: bool,
        body: &mut dyn FnMut(&mut Self, TokenStream, Ty) -> R<TokenStream>,
    ) -> R<TokenStream> {
        if k == ad.len() {
            return body(self, x, ty);
        }
        let (name, args) = &ad[k];
        let y = self.id("x");
        match name.as_str() {
            "enumerate" => {
                if !aligned {
                    return Err("enumerate after a filter".into());
                }
                let b = self.adapt(ad, k + 1, quote!(#y), Ty::Tup(vec![n("usize"), ty]), ix, aligned, body)?;
                Ok(quote!(let #y = (#ix - 1, #x); #b))
            }
            "map" => {
                let (t, tt) = self.apply(&args[0], &[(x, ty)], &Ty::Unk)?;
                let b = self.adapt(ad, k + 1, quote!(#y), tt, ix, aligned, body)?;
                Ok(quote!(let #y = #t; #b))
            }
            "inspect" => Err("inspect".into()),
            "copied" => {
                let b = self.adapt(ad, k + 1, quote!(#y), ty, ix, aligned, body)?;
                Ok(quote!(let #y = *#x; #b))
            }
            "cloned" => {
                let b = self.adapt(ad, k + 1, quote!(#y), ty, ix, aligned, body)?;
                Ok(quote!(let #y = #x.clone(); #b))
            }
            "filter" => {
                let (t, _) = self.apply(&args[0], &[(quote!(&#x), ty.clone())], &n_bool())?;
                let b = self.adapt(ad, k + 1, x, ty, ix, false, body)?;
                Ok(quote!(let #y: bool = #t; if #y { #b }))
            }
            "filter_map" => {
                let (t, tt) = self.apply(&args[0], &[(x, ty)], &n1("Option", Ty::Unk))?;
                let b = self.adapt(ad, k + 1, quote!(#y), tt.arg(0), ix, false, body)?;
                Ok(quote!(match #t { Some(#y) => { #b } None => {} }))
            }
            o => Err(format!("iterator adaptor {o}")),
        }
    }

    /// Recognises an iterator chain.
    fn chain(&mut self, e: &Expr, for_loop: bool) -> R<Option<Chain>> {
        let mut e = unparen(e);
        if let Expr::MethodCall(m) = e {
            // `inventory::iter::<Function>.into_iter()`
            if m.method == "into_iter" && matches!(unparen(&m.receiver), Expr::Path(p) if segs(&p.path) == ["inventory", "iter"]) {
                e = unparen(&m.receiver);
            }
        }
        if let Expr::Path(p) = e {
            if segs(&p.path) == ["inventory", "iter"] {
                return Ok(Some(Chain { list: quote!(vx_inventory()), item: n("Function"), zip: None, ad: vec![] }));
            }
        }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let (a, at) = self.ex(a, &n("usize"))?;
                let (b, bt) = self.ex(b, &at)?;
                return Ok(Some(Chain { list: quote!(vx_range(#a, #b)), item: at.or(&bt), zip: None, ad: vec![] }));
            }
            return Err("range".into());
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match name.as_str() {
                "map" | "filter" | "enumerate" | "filter_map" | "copied" | "cloned" | "inspect" | "rev" | "skip" | "take" | "zip" | "chain"
                | "flat_map" | "flatten" | "skip_while" | "take_while" | "step_by" | "peekable" => {
                    if let Some(mut c) = self.chain(&m.receiver, false)? {
                        match name.as_str() {
                            "zip" => {
                                if !c.ad.is_empty() || c.zip.is_some() {
                                    return Err("zip after an adaptor".into());
                                }
                                let o = match self.chain(&m.args[0], true)? {
                                    Some(o) if o.ad.is_empty() && o.zip.is_none() => o,
                                    _ => return Err("zip".into()),
                                };
                                c.zip = Some((o.list, o.item));
                            }
                            "rev" => {
                                if !c.ad.is_empty() || c.zip.is_some() {
                                    return Err("rev after an adaptor".into());
                                }
                                let l = c.list;
                                c.list = quote!(vx_rev(#l));
                            }
                            "skip" | "take" => {
                                if c.ad.iter().any(|a| a.0 != "map" && a.0 != "copied" && a.0 != "cloned") || c.zip.is_some() {
                                    return Err("skip or take after an adaptor".into());
                                }
                                let (a, _) = self.ex(&m.args[0], &n("usize"))?;
                                let l = c.list;
                                let f = format_ident!("vx_{}", name);
                                c.list = quote!(#f(#l, #a));
                            }
                            "chain" => {
                                if !c.ad.is_empty() || c.zip.is_some() {
                                    return Err("chain after an adaptor".into());
                                }
                                let o = match self.chain(&m.args[0], true)? {
                                    Some(o) if o.ad.is_empty() && o.zip.is_none() => o,
                                    _ => return Err("chain".into()),
                                };
                                let l = c.list;
                                let r = o.list;
                                c.list = quote!(vx_chain(#l, #r));
                            }
                            "flat_map" | "flatten" | "skip_while" | "take_while" | "step_by" | "peekable" => {
                                return Err(format!("iterator adaptor {name}"))
                            }
                            _ => c.ad.push((name.clone(), m.args.iter().cloned().collect())),
                        }
                        return Ok(Some(c));
                    }
                    return Ok(None);
                }
                "iter" | "into_iter" | "chars" | "values" | "keys" | "bytes" | "drain" if m.args.is_empty() => {
                    let saved = self.fresh;
                    let (t, ty) = self.ex(&m.receiver, &Ty::Unk)?;
                    let t = par(t);
                    if name == "chars" && ty.is("String") {
                        return Ok(Some(Chain { list: quote!(vx_chars(#t)), item: n("char"), zip: None, ad: vec![] }));
                    }
                    if name == "values" && ty.is("Map") {
                        return Ok(Some(Chain { list: quote!(vx_values(&#t)), item: n("Value"), zip: None, ad: vec![] }));
                    }
                    if let Some(k) = self.method_key(&ty, &name) {
                        // an iterator of one of the crates' own types
                        let f = self.db.fns.get(&k).cloned().unwrap();
                        let rt = self.ret_ty(&f);
                        if let Some(item) = item_of(&rt) {
                            let (t, _) = self.ex(e, &Ty::Unk)?;
                            return Ok(Some(Chain { list: quote!(VxIter::vx_iter(#t)), item, zip: None, ad: vec![] }));
                        }
                        let list = if name == "iter" { quote!(VxIter::vx_iter(&#t)) } else { quote!(VxIter::vx_iter(#t)) };
                        return Ok(Some(Chain { list, item: self.crate_item(&ty), zip: None, ad: vec![] }));
                    }
                    let Some(item) = item_of(&ty) else {
                        self.fresh = saved;
                        return Ok(None);
                    };
                    let owned = name == "into_iter" && !is_ref_expr(&m.receiver);
                    let list = if owned { quote!(VxIter::vx_iter(#t)) } else { quote!(VxIter::vx_iter(&#t)) };
                    return Ok(Some(Chain { list, item, zip: None, ad: vec![] }));
                }
                _ => {}
            }
        }
        if for_loop {
            if let Expr::Path(p) = e {
                // inventory::iter::<Function>
                let s = segs(&p.path);
                if s.len() == 2 && s[0] == "inventory" && s[1] == "iter" {
                    return Ok(Some(Chain { list: quote!(vx_inventory()), item: n("Function"), zip: None, ad: vec![] }));
                }
            }
            let (t, ty) = self.ex(e, &Ty::Unk)?;
            let Some(item) = item_of(&ty).or_else(|| Some(self.crate_item(&ty)).filter(|t| *t != Ty::Unk)) else {
                return Err(format!("loop over a value of unknown type: {}", short(e)));
            };
            return Ok(Some(Chain { list: quote!(VxIter::vx_iter(#t)), item, zip: None, ad: vec![] }));
        }
        Ok(None)
    }

    /// a type whose equality goes through the template's trait
    fn eq_modelled(&self, t: &Ty) -> bool {
        matches!(t.head(), "String" | "Value" | "Number" | "PathElement" | "NormalizedPath" | "LocatedNode") || self.db.enums.contains_key(t.head())
    }
    fn crate_item(&self, t: &Ty) -> Ty {
        match t.head() {
            "NodeList" | "NodesType" => n("Value"),
            "LocatedNodeList" => n("LocatedNode"),
            "NormalizedPath" => n("PathElement"),
            _ => Ty::Unk,
        }
    }

    fn ghost_acc(&mut self, acc: &str) -> (String, TokenStream) {
        let g = self.id("g0");
        let t = raw(&format!("let ghost {g} = {acc}@;"));
        (g.to_string(), t)
    }

    fn for_(&mut self, f: &ExprForLoop) -> R<(TokenStream, Ty)> {
        if f.label.is_some() {
            return Err("loop label".into());
        }
        let c = self.chain(&f.expr, true)?.ok_or("for loop")?;
        // the accumulator: a variable of the enclosing scope that the body extends
        let mut subs: Vec<(&str, String)> = vec![];
        let mut pre = TokenStream::new();
        let muts = mutated(&f.body);
        let acc = muts.iter().find(|m| self.lookup(m).is_some_and(|t| t.is("Vec") || t.is("VecDeque") || t.is("String")));
        if let Some(a) = acc {
            let (g, t) = self.ghost_acc(a);
            pre.extend(t);
            subs.push(("$ACC0", g));
            subs.push(("$ACC", a.clone()));
        }
        if let Some(v) = muts.iter().find(|m| Some(*m) != acc && self.lookup(m).is_some()) {
            let g = self.id("g0");
            pre.extend(raw(&format!("let ghost {g} = {v};")));
            subs.push(("$VAR0", g.to_string()));
            subs.push(("$VAR", v.clone()));
        }
        let pat = f.pat.clone();
        let b = f.body.clone();
        let t = self.emit(c, "for", &subs, quote!(), &mut |s, x, ty| {
            s.bind(&pat, &ty)?;
            let p = s.pat(&pat)?;
            let (t, _) = s.block(&b, &Ty::Unk)?;
            Ok(quote!(let #p = #x; #t))
        })?;
        Ok((quote!({ #pre #t }), Ty::Tup(vec![])))
    }

    fn while_(&mut self, w: &ExprWhile) -> R<(TokenStream, Ty)> {
        if w.label.is_some() {
            return Err("loop label".into());
        }
        if let Expr::Let(_) = &*w.cond {
            return Err("while let".into());
        }
        let (c, _) = self.ex(&w.cond, &n_bool())?;
        let mut sub: Vec<(String, String)> = vec![];
        let mut pre = TokenStream::new();
        let muts = mutated(&w.body);
        let acc = muts.iter().find(|m| self.lookup(m).is_some_and(|t| t.is("Vec") || t.is("VecDeque") || t.is("String")));
        if let Some(a) = acc {
            let (g, t) = self.ghost_acc(a);
            pre.extend(t);
            sub.push(("$ACC0".into(), g));
            sub.push(("$ACC".into(), a.clone()));
        }
        if let Some(v) = muts.iter().find(|m| Some(*m) != acc && self.lookup(m).is_some()) {
            let g = self.id("g0");
            pre.extend(raw(&format!("let ghost {g} = {v};")));
            sub.push(("$VAR0".into(), g.to_string()));
            sub.push(("$VAR".into(), v.clone()));
        }
        // the variables of the condition
        let mut names = vec![];
        idents(w.cond.to_token_stream(), &mut names);
        let others: Vec<String> = names.into_iter().filter(|x| self.lookup(x).is_some() && !muts.contains(x)).collect();
        if let Some(o) = others.first() {
            sub.push(("$LIM".into(), o.clone()));
        }
        let spec = self.find_loop("while", "while");
        let mut iv = String::new();
        for (kw, v) in [("invariant", &spec.inv), ("ensures", &spec.ens), ("decreases", &spec.dec)] {
            let ls: Vec<String> = v.iter().filter_map(|l| substitute(l, &sub)).collect();
            if !ls.is_empty() {
                iv.push_str(&format!("{kw}\n  {}\n", ls.join("\n  ")));
            }
        }
        let iv = inv(&iv);
        let texts = |v: &Vec<String>| -> TokenStream { v.iter().filter_map(|l| substitute(l, &sub)).map(|l| raw(&l)).collect() };
        let (bf, tb, te, af) = (texts(&spec.before), texts(&spec.body), texts(&spec.bodyend), texts(&spec.after));
        let (b, _) = self.block(&w.body, &Ty::Unk)?;
        Ok((quote!({ #pre #bf while #c { #iv #tb #b #te } #af }), Ty::Tup(vec![])))
    }

    fn terminal(&mut self, c: Chain, name: &str, m: &ExprMethodCall, hint: &Ty) -> R<Option<(TokenStream, Ty)>> {
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        match name {
            "any" | "all" => {
                let res = self.id("res");
                let init = name == "all";
                let cond = if init { quote!(#res) } else { quote!(!#res) };
                let f = args[0].clone();
                let subs = [("$RES", res.to_string())];
                let l = self.emit(c, name, &subs, cond, &mut |s, x, ty| {
                    let (t, _) = s.apply(&f, &[(x, ty)], &n_bool())?;
                    Ok(if init { quote!(#res = #t;) } else { quote!(#res = #t;) })
                })?;
                Ok(Some((quote!({ let mut #res: bool = #init; #l #res }), n_bool())))
            }
            "count" => {
                if c.ad.is_empty() && c.zip.is_none() {
                    let l = &c.list;
                    return Ok(Some((quote!(#l.len()), n("usize"))));
                }
                let res = self.id("res");
                let subs = [("$RES", res.to_string())];
                let l = self.emit(c, name, &subs, quote!(), &mut |_, _, _| Ok(quote!(#res = #res + 1;)))?;
                Ok(Some((quote!({ let mut #res: usize = 0; #l #res }), n("usize"))))
            }
            "fold" => {
                let acc = self.id("acc");
                let (i, it) = self.ex(&args[0], hint)?;
                let f = args[1].clone();
                let (g, gt) = self.ghost_acc(&acc.to_string());
                let subs = [("$ACC0", g), ("$ACC", acc.to_string())];
                let it2 = it.clone();
                let l = self.emit(c, name, &subs, quote!(), &mut |s, x, ty| {
                    let (t, _) = s.apply(&f, &[(quote!(#acc), it2.clone()), (x, ty)], &it2)?;
                    Ok(quote!(#acc = #t;))
                })?;
                Ok(Some((quote!({ let mut #acc = #i; #gt #l #acc }), it)))
            }
            "for_each" => {
                let f = args[0].clone();
                let l = self.emit(c, "for", &[], quote!(), &mut |s, x, ty| {
                    let (t, _) = s.apply(&f, &[(x, ty)], &Ty::Unk)?;
                    Ok(quote!(#t;))
                })?;
                Ok(Some((quote!({ #l }), Ty::Tup(vec![]))))
            }
            "find" | "position" | "find_map" => {
                let res = self.id("res");
                let f = args[0].clone();
                let subs = [("$RES", res.to_string())];
                let fnd = self.id("go");
                let mut ety = Ty::Unk;
                let nm = name.to_string();
                let l = self.emit(c, name, &subs, quote!(#fnd), &mut |s, x, ty| {
                    if nm == "find" {
                        ety = ty.clone();
                        let (t, _) = s.apply(&f, &[(quote!(&#x), ty)], &n_bool())?;
                        Ok(quote!(if #t { #res = Some(#x); #fnd = false; }))
                    } else if nm == "find_map" {
                        let (t, tt) = s.apply(&f, &[(x, ty)], &n1("Option", Ty::Unk))?;
                        ety = tt.arg(0);
                        Ok(quote!(#res = #t; if #res.is_some() { #fnd = false; }))
                    } else {
                        Err("position".into())
                    }
                })?;
                Ok(Some((quote!({ let mut #res = None; let mut #fnd: bool = true; #l #res }), n1("Option", ety))))
            }
            "collect" => {
                let mut h = hint.clone();
                if let Some(t) = &m.turbofish {
                    if let Some(GenericArgument::Type(t)) = t.args.first() {
                        h = self.cx().ty(t);
                    }
                }
                if h == Ty::Unk {
                    h = n1("Vec", Ty::Unk);
                }
                if h.is("Vec") && c.ad.is_empty() && c.zip.is_none() {
                    let l = &c.list;
                    return Ok(Some((quote!(#l), n1("Vec", h.arg(0).or(&c.item)))));
                }
                let acc = self.id("acc");
                let (g, gt) = self.ghost_acc(&acc.to_string());
                let mut ety = Ty::Unk;
                match h.head() {
                    "Vec" | "VecDeque" => {
                        let subs = [("$ACC0", g), ("$ACC", acc.to_string())];
                        let (new, push) = if h.is("Vec") { (quote!(Vec::new()), quote!(push)) } else { (quote!(VecDeque::new()), quote!(push_back)) };
                        let l = self.emit(c, "collect", &subs, quote!(), &mut |_, x, ty| {
                            ety = ty;
                            Ok(quote!(#acc.#push(#x);))
                        })?;
                        let t = Ty::N(h.head().into(), vec![h.arg(0).or(&ety)]);
                        Ok(Some((quote!({ let mut #acc = #new; #gt #l #acc }), t)))
                    }
                    "String" => {
                        let subs = [("$ACC0", g), ("$ACC", acc.to_string())];
                        let l = self.emit(c, "collect", &subs, quote!(), &mut |_, x, ty| match ty.head() {
                            "char" => Ok(quote!(vx_push_char(&mut #acc, #x);)),
                            "String" | "str" => Ok(quote!(vx_push_str(&mut #acc, &#x);)),
                            o => Err(format!("collect of {o} into String")),
                        })?;
                        Ok(Some((quote!({ let mut #acc = vx_string_new(); #gt #l #acc }), n("String"))))
                    }
                    "Result" if h.arg(0).is("Vec") || h.arg(0) == Ty::Unk => {
                        let go = self.id("go");
                        let err = self.id("err");
                        let y = self.id("y");
                        let subs = [("$ACC0", g), ("$ACC", acc.to_string()), ("$RES", go.to_string()), ("$ERR", err.to_string())];
                        let ann = m
                            .turbofish
                            .as_ref()
                            .and_then(|t| match t.args.first() {
                                Some(GenericArgument::Type(Type::Path(p))) => match &p.path.segments.last()?.arguments {
                                    PathArguments::AngleBracketed(a) => match a.args.first() {
                                        Some(GenericArgument::Type(t)) if !t.to_token_stream().to_string().contains('_') => Some(t.clone()),
                                        _ => None,
                                    },
                                    _ => None,
                                },
                                _ => None,
                            })
                            .map(|t| {
                                let t = self.fix_self(t.to_token_stream());
                                quote!(: #t)
                            });
                        let l = self.emit(c, "try", &subs, quote!(#go), &mut |_, x, ty| {
                            ety = ty.arg(0);
                            Ok(quote!(match #x { Ok(#y) => { #acc.push(#y); } Err(#y) => { #err = Some(#y); #go = false; } }))
                        })?;
                        Ok(Some((
                            quote!({ let mut #acc #ann = Vec::new(); let mut #err = None; let mut #go: bool = true; #gt #l match #err { None => Ok(#acc), Some(#y) => Err(#y) } }),
                            n2("Result", n1("Vec", ety), h.arg(1)),
                        )))
                    }
                    o => Err(format!("collect into {o}")),
                }
            }
            _ => Ok(None),
        }
    }

    fn method(&mut self, m: &ExprMethodCall, hint: &Ty) -> R<(TokenStream, Ty)> {
        let name = m.method.to_string();
        // chains that end here
        if matches!(
            name.as_str(),
            "any" | "all" | "count" | "fold" | "for_each" | "find" | "position" | "find_map" | "collect" | "sum" | "product" | "last" | "max" | "min" | "max_by" | "min_by" | "nth" | "next"
        ) {
            let direct = matches!(name.as_str(), "last" | "max" | "min" | "find");
            let looks = !direct || chain_like(&m.receiver);
            if looks {
                // Option as an iterator: x.into_iter().collect()
                if let Some(c) = self.chain(&m.receiver, false)? {
                    if let Some(r) = self.terminal(c, &name, m, hint)? {
                        return Ok(r);
                    }
                    return Err(format!("iterator method {name}"));
                }
            }
        }
        let args: Vec<&Expr> = m.args.iter().collect();
        if matches!(name.as_str(), "concat" | "join") {
            // `.collect::<Vec<_>>().concat()`: the items one after the other
            let nothing = match args.as_slice() {
                [] => name == "concat",
                [Expr::Lit(l)] => name == "join" && matches!(&l.lit, Lit::Str(l) if l.value().is_empty()),
                _ => false,
            };
            if let (true, Expr::MethodCall(c)) = (nothing, unparen(&m.receiver)) {
                if c.method == "collect" {
                    let r = &c.receiver;
                    let e: Expr = parse_quote!(#r.collect::<String>());
                    return self.ex(&e, &n("String"));
                }
            }
        }
        if name == "dedup_by" && self.is_eq_closure(args[0]) {
            let r = &m.receiver;
            let e: Expr = parse_quote!(#r.dedup());
            return self.ex(&e, hint);
        }
        if name == "contains" {
            if let Expr::Range(rg) = unparen(&m.receiver) {
                let (v, vt) = self.ex(args[0], &Ty::Unk)?;
                let id = self.id("v");
                let mut conds = vec![];
                if let Some(a) = &rg.start {
                    let (a, _) = self.ex(a, &vt)?;
                    let a = par(a);
                    conds.push(quote!(#a <= *#id));
                }
                if let Some(b) = &rg.end {
                    let (b, _) = self.ex(b, &vt)?;
                    let b = par(b);
                    conds.push(match rg.limits {
                        RangeLimits::Closed(_) => quote!(*#id <= #b),
                        RangeLimits::HalfOpen(_) => quote!(*#id < #b),
                    });
                }
                return Ok((quote!({ let #id = #v; #(#conds)&&* }), n_bool()));
            }
        }
        let (r, rt) = self.ex(&m.receiver, &Ty::Unk)?;
        let rp = par(r.clone());
        let x = self.id("o");
        // methods of the crates
        if let Some(key) = self.method_key(&rt, &name) {
            let f = self.db.fns.get(&key).cloned().unwrap();
            if self.known.fns.contains(&key) {
                self.calls.insert(key.clone());
                let cx = self.fn_cx(&f);
                let tys: Vec<Ty> = f
                    .sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        FnArg::Typed(t) => Some(cx.ty(&t.ty)),
                        _ => None,
                    })
                    .collect();
                let (pre, ts, _) = self.args(&args, &tys)?;
                let id = &m.method;
                return Ok((Self::wrap(pre, quote!(#rp.#id(#(#ts),*))), self.ret_ty(&f)));
            }
            if f.trait_.is_none() || !self.known.fns.contains(&key) {
                return self.inline(&key, Some((r, rt)), &args);
            }
        }
        match (rt.head(), name.as_str()) {
            ("String", "to_owned") if args.is_empty() => return Ok((quote!(vx_to_string(&#rp)), n("String"))),
            (_, "clone" | "to_owned" | "by_ref") if args.is_empty() => return Ok((quote!(#rp.clone()), rt)),
            ("String", "into_boxed_str") if args.is_empty() => return Ok((quote!(#rp.vx_into()), hint.clone())),
            (_, "into") if args.is_empty() => return Ok((quote!(#rp.vx_into()), hint.clone())),
            (_, "try_into") if args.is_empty() => {
                let t = if hint.is("Result") { hint.clone() } else { n2("Result", Ty::Unk, Ty::Unk) };
                return Ok((quote!(VxTryFrom::vx_try_from(#r)), t));
            }
            (_, "to_string") if args.is_empty() => {
                let key = self.disp_key(&rt);
                if self.known.fns.contains(&key) {
                    self.calls.insert(key);
                    let (id, v) = (self.id("s"), self.id("v"));
                    return Ok((quote!({ let #v = &#rp; let mut #id = VxFmt::vx_new(); vx_w_did(#v.fmt(&mut #id)); #id.vx_into_string() }), n("String")));
                }
                if self.db.fns.contains_key(&key) {
                    return Err(format!("{key} has no contract"));
                }
                if rt == Ty::Unk {
                    return Ok((quote!(vx_disp_any(&#rp)), n("String")));
                }
                return Ok((quote!(vx_to_string(&#rp)), n("String")));
            }
            ("bool", "then_some") => {
                let (a, at) = self.ex(args[0], &hint.arg(0))?;
                if self.plain(args[0]) {
                    // no effect, so the order of evaluation does not matter
                    return Ok((quote!(if #r { Some(#a) } else { None }), n1("Option", at)));
                }
                let c = self.id("c");
                let v = self.id("v");
                return Ok((quote!({ let #c: bool = #r; let #v = #a; if #c { Some(#v) } else { None } }), n1("Option", at)));
            }
            ("bool", "then") => {
                let (a, at) = self.apply(args[0], &[], &hint.arg(0))?;
                return Ok((quote!(if #r { Some(#a) } else { None }), n1("Option", at)));
            }
            ("Vec", "sort_unstable_by" | "sort_by") => {
                // the comparator is checked on any two items against the order the list is sorted by
                let item = rt.arg(0);
                let (v, a, b) = (self.id("v"), self.id("a"), self.id("b"));
                let (i, j) = (self.id("i"), self.id("j"));
                let cmp = [(a.to_token_stream(), item.clone()), (b.to_token_stream(), item)];
                let (c, _) = self.apply(args[0], &cmp, &n("Ordering"))?;
                let o = self.id("o");
                return Ok((
                    quote!({
                        if vx_any_bool() && #rp.len() > 0 {
                            let #v = vx_slice_of(&#rp);
                            let #i = vx_any_index(#v);
                            let #j = vx_any_index(#v);
                            let #a = &#v[#i];
                            let #b = &#v[#j];
                            let #o: Ordering = #c;
                            vx_check_order(#a, #b, #o);
                        }
                        vx_sort(&mut #rp)
                    }),
                    Ty::Tup(vec![]),
                ));
            }
            (_, "eq") if args.len() == 1 => {
                let (a, _) = self.ex(args[0], &rt)?;
                return Ok((quote!(vx_eq(&#rp, #a)), n_bool()));
            }
            (_, "ne") if args.len() == 1 => {
                let (a, _) = self.ex(args[0], &rt)?;
                return Ok((quote!((!vx_eq(&#rp, #a))), n_bool()));
            }
            _ => {}
        }
        match rt.head() {
            "Option" => {
                let a0 = rt.arg(0);
                match name.as_str() {
                    "map" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a0)], &hint.arg(0))?;
                        return Ok((quote!((match #r { Some(#x) => { Some(#b) } None => None })), n1("Option", bt)));
                    }
                    "and_then" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a0)], &n1("Option", hint.arg(0)))?;
                        return Ok((quote!((match #r { Some(#x) => { #b } None => None })), n1("Option", Ty::Unk).or(&bt)));
                    }
                    "filter" => {
                        let (b, _) = self.apply(args[0], &[(quote!(&#x), a0)], &n_bool())?;
                        return Ok((quote!((match #r { Some(#x) => { if #b { Some(#x) } else { None } } None => None })), rt));
                    }
                    "is_some_and" => {
                        let (b, _) = self.apply(args[0], &[(quote!(#x), a0)], &n_bool())?;
                        return Ok((quote!((match #r { Some(#x) => { #b } None => false })), n_bool()));
                    }
                    "is_none_or" => {
                        let (b, _) = self.apply(args[0], &[(quote!(#x), a0)], &n_bool())?;
                        return Ok((quote!((match #r { Some(#x) => { #b } None => true })), n_bool()));
                    }
                    "or_else" => {
                        let (b, bt) = self.apply(args[0], &[], &rt)?;
                        return Ok((quote!((match #r { Some(#x) => { Some(#x) } None => { #b } })), rt.or(&bt)));
                    }
                    "or" => {
                        let (b, bt) = self.ex(args[0], &rt)?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #b; match #p { Some(#x) => { Some(#x) } None => { #q } } }), rt.or(&bt)));
                    }
                    "and" => {
                        let (b, bt) = self.ex(args[0], &rt)?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #b; match #p { Some(_) => { #q } None => { None } } }), bt));
                    }
                    "unwrap_or" => {
                        let (b, bt) = self.ex(args[0], &a0)?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #b; match #p { Some(#x) => #x, None => #q } }), a0.or(&bt)));
                    }
                    "unwrap_or_else" => {
                        let (b, bt) = self.apply(args[0], &[], &a0)?;
                        return Ok((quote!((match #r { Some(#x) => { #x } None => { #b } })), a0.or(&bt)));
                    }
                    "unwrap_or_default" => {
                        return Ok((quote!((match #r { Some(#x) => { #x } None => VxDefault::vx_default() })), a0.or(hint)))
                    }
                    "map_or" => {
                        let (d, dt) = self.ex(args[0], hint)?;
                        let (b, bt) = self.apply(args[1], &[(quote!(#x), a0)], &hint.or(&dt))?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #d; match #p { Some(#x) => { #b } None => { #q } } }), dt.or(&bt)));
                    }
                    "map_or_else" => {
                        let (d, dt) = self.apply(args[0], &[], hint)?;
                        let (b, bt) = self.apply(args[1], &[(quote!(#x), a0)], &hint.or(&dt))?;
                        return Ok((quote!((match #r { Some(#x) => { #b } None => { #d } })), dt.or(&bt)));
                    }
                    "ok_or" => {
                        let (b, bt) = self.ex(args[0], &hint.arg(1))?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #b; match #p { Some(#x) => { Ok(#x) } None => { Err(#q) } } }), n2("Result", a0, bt)));
                    }
                    "ok_or_else" => {
                        let (b, bt) = self.apply(args[0], &[], &hint.arg(1))?;
                        return Ok((quote!((match #r { Some(#x) => { Ok(#x) } None => { Err(#b) } })), n2("Result", a0, bt)));
                    }
                    "flatten" => return Ok((quote!((match #r { Some(#x) => { #x } None => None })), a0.clone())),
                    "copied" => return Ok((quote!((match #r { Some(#x) => { Some(*#x) } None => None })), rt)),
                    "cloned" => return Ok((quote!((match #r { Some(#x) => { Some(#x.clone()) } None => None })), rt)),
                    "is_some" | "is_none" => {
                        let id = &m.method;
                        return Ok((quote!(#rp.#id()), n_bool()));
                    }
                    "unwrap" => return Ok((quote!(#rp.unwrap()), a0)),
                    "expect" => return Ok((quote!(#rp.unwrap()), a0)),
                    "as_ref" | "as_mut" | "as_deref" => {
                        if name != "as_ref" {
                            return Err(format!("Option::{name}"));
                        }
                        return Ok((quote!(#rp.as_ref()), rt));
                    }
                    "take" => return Ok((quote!(#rp.take()), rt)),
                    o => return Err(format!("Option::{o}")),
                }
            }
            "Result" => {
                let (a0, a1) = (rt.arg(0), rt.arg(1));
                match name.as_str() {
                    "ok" => return Ok((quote!((match #r { Ok(#x) => { Some(#x) } Err(_) => None })), n1("Option", a0))),
                    "err" => return Ok((quote!((match #r { Ok(_) => { None } Err(#x) => Some(#x) })), n1("Option", a1))),
                    "map" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a0)], &hint.arg(0))?;
                        return Ok((quote!((match #r { Ok(#x) => { Ok(#b) } Err(#x) => Err(#x) })), n2("Result", bt, a1)));
                    }
                    "map_err" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a1)], &hint.arg(1))?;
                        return Ok((quote!((match #r { Ok(#x) => { Ok(#x) } Err(#x) => Err(#b) })), n2("Result", a0, bt)));
                    }
                    "and_then" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a0)], hint)?;
                        return Ok((quote!((match #r { Ok(#x) => { #b } Err(#x) => Err(#x) })), n2("Result", Ty::Unk, a1).or(&bt)));
                    }
                    "or_else" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a1)], hint)?;
                        return Ok((quote!((match #r { Ok(#x) => { Ok(#x) } Err(#x) => { #b } })), rt.or(&bt)));
                    }
                    "is_ok_and" => {
                        let (b, _) = self.apply(args[0], &[(quote!(#x), a0)], &n_bool())?;
                        return Ok((quote!((match #r { Ok(#x) => { #b } Err(_) => false })), n_bool()));
                    }
                    "map_or" => {
                        let (d, dt) = self.ex(args[0], hint)?;
                        let (b, bt) = self.apply(args[1], &[(quote!(#x), a0)], &hint.or(&dt))?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #d; match #p { Ok(#x) => { #b } Err(_) => { #q } } }), dt.or(&bt)));
                    }
                    "unwrap_or" => {
                        let (b, bt) = self.ex(args[0], &a0)?;
                        let (p, q) = (self.id("p"), self.id("q"));
                        return Ok((quote!({ let #p = #r; let #q = #b; match #p { Ok(#x) => #x, Err(_) => #q } }), a0.or(&bt)));
                    }
                    "unwrap_or_else" => {
                        let (b, bt) = self.apply(args[0], &[(quote!(#x), a1)], &a0)?;
                        return Ok((quote!((match #r { Ok(#x) => { #x } Err(#x) => { #b } })), a0.or(&bt)));
                    }
                    "unwrap_or_default" => {
                        return Ok((quote!((match #r { Ok(#x) => { #x } Err(_) => VxDefault::vx_default() })), a0.or(hint)))
                    }
                    "is_ok" | "is_err" => {
                        let id = &m.method;
                        return Ok((quote!(#rp.#id()), n_bool()));
                    }
                    "unwrap" | "expect" => return Ok((quote!((match #r { Ok(#x) => { #x } Err(_) => { vx_panic() } })), a0)),
                    o => return Err(format!("Result::{o}")),
                }
            }
            _ => {}
        }
        // built-in methods
        let (pre, ts, tys) = self.args(&args, &[self.builtin_arg(&rt, &name)])?;
        let id = &m.method;
        let ok = |t: TokenStream, ty: Ty| -> R<(TokenStream, Ty)> { Ok((Self::wrap(pre.clone(), t), ty)) };
        match (rt.head(), name.as_str()) {
            ("Value", "as_array") => ok(quote!(#rp.as_array()), n1("Option", n1("Vec", n("Value")))),
            ("Value", "as_object") => ok(quote!(#rp.as_object()), n1("Option", n("Map"))),
            ("Value", "as_str") => ok(quote!(#rp.as_str()), n1("Option", n("String"))),
            ("Value", "as_bool") => ok(quote!(#rp.as_bool()), n1("Option", n("bool"))),
            ("Value", "is_null" | "is_array" | "is_object" | "is_string" | "is_number" | "is_boolean") => ok(quote!(#rp.#id()), n_bool()),
            ("Number", "as_f64") => ok(quote!(#rp.as_f64()), n1("Option", n("f64"))),
            ("Number", "as_i64") => ok(quote!(#rp.as_i64()), n1("Option", n("i64"))),
            ("Number", "as_u64") => ok(quote!(#rp.as_u64()), n1("Option", n("u64"))),
            ("Map", "get") => ok(quote!(#rp.get(#(#ts),*)), n1("Option", n("Value"))),
            ("Map", "get_key_value") => ok(quote!(#rp.get_key_value(#(#ts),*)), n1("Option", Ty::Tup(vec![n("String"), n("Value")]))),
            ("Map", "contains_key") => ok(quote!(#rp.contains_key(#(#ts),*)), n_bool()),
            ("Map", "len") => ok(quote!(#rp.len()), n("usize")),
            ("Map", "is_empty") => ok(quote!(#rp.is_empty()), n_bool()),
            ("Vec" | "VecDeque", "len") => ok(quote!(#rp.len()), n("usize")),
            ("Vec", "get") => {
                if !tys[0].is("usize") && tys[0] != Ty::Unk {
                    return Err("get with a range".into());
                }
                ok(quote!(#rp.get(#(#ts),*)), n1("Option", rt.arg(0)))
            }
            ("Vec", "first" | "last") => ok(quote!(vx_slice_of(&#rp).#id()), n1("Option", rt.arg(0))),
            ("Vec", "remove" | "swap_remove") => ok(quote!(#rp.#id(#(#ts),*)), rt.arg(0)),
            ("Vec", "truncate" | "clear" | "insert") => ok(quote!(#rp.#id(#(#ts),*)), Ty::Tup(vec![])),
            ("Vec", "pop") => ok(quote!(#rp.pop()), n1("Option", rt.arg(0))),
            // an iterator over a queue that is used up is what is left of it
            ("VecDeque", "into_iter") => ok(quote!(#rp), rt),
            ("VecDeque", "next") => ok(quote!(#rp.pop_front()), n1("Option", rt.arg(0))),
            ("VecDeque", "next_back") => ok(quote!(#rp.pop_back()), n1("Option", rt.arg(0))),
            ("HashMap", "extend") if matches!(unparen(args[0]), Expr::Array(_)) => {
                let Expr::Array(a) = unparen(args[0]) else { unreachable!() };
                let recv = &m.receiver;
                let mut st: Vec<Stmt> = vec![];
                for e in &a.elems {
                    let Expr::Tuple(t) = unparen(e) else { return Err("HashMap::extend".into()) };
                    let (k, v) = (&t.elems[0], &t.elems[1]);
                    st.push(parse_quote!(#recv.insert(#k, #v);));
                }
                let e: Expr = parse_quote!({ #(#st)* });
                self.ex(&e, &Ty::Unk)
            }
            ("VecDeque", "pop_front" | "pop_back") => ok(quote!(#rp.#id()), n1("Option", rt.arg(0))),
            ("HashMap", "insert") => ok(quote!(#rp.insert(#(#ts),*)), Ty::Unk),
            ("VecDeque", "push_back") => ok(quote!(#rp.push_back(#(#ts),*)), Ty::Tup(vec![])),
            ("Vec", "is_empty") => ok(quote!((#rp.len() == 0)), n_bool()),
            ("Vec", "push") => {
                self.learn(&m.receiver, "Vec", tys.first());
                ok(quote!(#rp.push(#(#ts),*)), Ty::Tup(vec![]))
            }
            ("Vec", "append") => {
                self.learn(&m.receiver, "Vec", Some(&tys[0].arg(0)));
                ok(quote!(#rp.append(#(#ts),*)), Ty::Tup(vec![]))
            }
            ("Vec", "extend") => {
                // push each item
                let recv = &m.receiver;
                let a = args[0];
                let it = self.id("ext");
                let f: Expr = parse_quote!(for #it in #a { #recv.push(#it); });
                self.ex(&f, &Ty::Unk)
            }
            ("Vec", "as_slice") => ok(quote!(#rp.as_slice()), rt),
            ("Vec", "as_ref" | "as_mut" | "to_vec") => Err(format!("Vec::{name}")),
            ("Vec", "sort" | "sort_unstable") if args.is_empty() => Err("sort by Ord".into()),
            ("Vec", "dedup") => ok(quote!(vx_dedup(&mut #rp)), Ty::Tup(vec![])),
            ("Vec", "iter") => ok(quote!(VxSliceIter::vx_new(&#rp)), Ty::N("VxSliceIter".into(), vec![rt.arg(0)])),
            ("Vec", "into_iter") => ok(quote!(VxIntoIter::vx_new(#rp)), Ty::N("VxIntoIter".into(), vec![rt.arg(0)])),
            ("Iter" | "VxSliceIter", "next" | "next_back") => ok(quote!(#rp.#id()), n1("Option", rt.arg(0))),
            ("Iter" | "VxSliceIter", "len") => ok(quote!(#rp.len()), n("usize")),
            ("Iter" | "VxSliceIter", "size_hint") => ok(quote!(#rp.size_hint()), Ty::Tup(vec![n("usize"), n1("Option", n("usize"))])),
            ("Formatter", "write_str") => ok(quote!({ vx_w_str(&mut *#rp, #(#ts),*); vx_w_ok() }), n2("Result", Ty::Tup(vec![]), n("VxFmtError"))),
            ("Formatter", "write_char") => ok(quote!({ vx_w_disp(&mut *#rp, &#(#ts),*); vx_w_ok() }), n2("Result", Ty::Tup(vec![]), n("VxFmtError"))),
            ("String", "as_str" | "as_ref") => ok(quote!(#rp.vx_as_str()), n("String")),
            ("String", "len") => ok(quote!(vx_str_len(&#rp)), n("usize")),
            ("String", "is_empty") => ok(quote!(vx_str_is_empty(&#rp)), n_bool()),
            ("String", "push") => ok(quote!(vx_push_char(&mut #rp, #(#ts),*)), Ty::Tup(vec![])),
            ("String", "push_str") => ok(quote!(vx_push_str(&mut #rp, #(#ts),*)), Ty::Tup(vec![])),
            ("String", "replace") => {
                let one = match &args[0] {
                    Expr::Lit(l) => match &l.lit {
                        Lit::Str(l) if l.value().chars().count() == 1 => l.value().chars().next(),
                        _ => None,
                    },
                    _ => None,
                };
                if tys[0].is("char") {
                    ok(quote!(vx_replace_char(&#rp, #(#ts),*)), n("String"))
                } else if let Some(c) = one {
                    // a string of one character as the pattern
                    let by = &ts[1];
                    ok(quote!(vx_replace_char(&#rp, #c, #by)), n("String"))
                } else {
                    Err("replace of a string".into())
                }
            }
            ("String", "parse") => {
                let t = m
                    .turbofish
                    .as_ref()
                    .and_then(|t| t.args.first().cloned())
                    .map(|a| match a {
                        GenericArgument::Type(t) => self.cx().ty(&t),
                        _ => Ty::Unk,
                    })
                    .unwrap_or(hint.arg(0));
                if t.is("i64") {
                    ok(quote!(vx_parse_i64(&#rp)), n2("Result", t, n("ParseIntError")))
                } else if t.is("Number") {
                    ok(quote!(vx_number_from_str(#rp)), n2("Result", t, n("SerdeError")))
                } else if self.known.fns.contains(&format!("<{} as FromStr>::from_str", t.head())) {
                    let key = format!("<{} as FromStr>::from_str", t.head());
                    self.calls.insert(key);
                    let h = format_ident!("{}", t.head());
                    ok(quote!(#h::from_str(#rp)), n2("Result", t, Ty::Unk))
                } else {
                    Err("parse".into())
                }
            }
            ("String", "starts_with" | "ends_with" | "contains" | "eq_ignore_ascii_case" | "is_char_boundary") => {
                let f = format_ident!("vx_str_{}", name);
                if name == "is_char_boundary" {
                    ok(quote!(#f(&#rp, #(#ts),*)), n_bool())
                } else {
                    ok(quote!(#f(&#rp, &#(#ts),*)), n_bool())
                }
            }
            ("String", "trim" | "trim_start" | "trim_end" | "trim_ascii" | "trim_ascii_start" | "trim_ascii_end") => {
                let f = format_ident!("vx_str_{}", name);
                ok(quote!(#f(&#rp)), n("String"))
            }
            ("String", "trim_matches" | "trim_start_matches" | "trim_end_matches") if tys[0].is("char") => {
                let f = format_ident!("vx_str_{}", name);
                ok(quote!(#f(&#rp, #(#ts),*)), n("String"))
            }
            ("String", "strip_prefix" | "strip_suffix") => {
                let f = format_ident!("vx_str_{}", name);
                ok(quote!(#f(&#rp, &#(#ts),*)), n1("Option", n("String")))
            }
            ("String", "to_ascii_lowercase" | "to_ascii_uppercase" | "to_lowercase" | "to_uppercase" | "repeat") => {
                let f = format_ident!("vx_str_{}", name);
                ok(quote!(#f(&#rp, #(#ts),*)), n("String"))
            }
            ("String", "clear") => ok(quote!(vx_str_clear(&mut #rp)), Ty::Tup(vec![])),
            ("String", "pop") => ok(quote!(vx_str_pop(&mut #rp)), n1("Option", n("char"))),
            ("String", "offset") => ok(quote!(vx_str_offset(&#rp, #(#ts),*)), n("usize")),
            ("char", "is_ascii_digit" | "is_ascii_lowercase" | "is_ascii_uppercase" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_hexdigit" | "is_ascii" | "is_ascii_punctuation" | "is_ascii_control") => {
                let f = format_ident!("vx_{}", name);
                ok(quote!(#f(#rp.vx_char())), n_bool())
            }
            ("VxSer", "collect_str" | "serialize_str" | "serialize_u64") => ok(quote!(#rp.#id(#(#ts),*)), n2("Result", n("VxSerOk"), n("VxSerError"))),
            ("VxDe", "deserialize_str" | "deserialize_string") => {
                let f = format_ident!("vx_deserialize_str");
                ok(quote!(#rp.#f(#(#ts),*)), n2("Result", hint.arg(0), n("VxDeError")))
            }
            ("Registry", "get") => ok(quote!(vx_registry_get(#(#ts),*)), n1("Option", n("Function"))),
            ("String", "cmp") => ok(quote!(vx_str_cmp(&#rp, #(#ts),*)), n("Ordering")),
            ("String", "partial_cmp") => ok(quote!(vx_str_partial_cmp(&#rp, #(#ts),*)), n1("Option", n("Ordering"))),
            ("VxRegex", "is_match") => ok(quote!(#rp.vx_is_match(#(#ts),*)), n_bool()),
            (h, "checked_add" | "checked_sub" | "checked_mul" | "checked_neg" | "checked_abs" | "checked_rem" | "checked_div") if rt.is_int() || h == "Integer" => {
                ok(quote!(#rp.#id(#(#ts),*)), n1("Option", rt.clone()))
            }
            (_, "abs" | "saturating_sub" | "saturating_add" | "min" | "max") if rt.is_int() => {
                let f = format_ident!("vx_{}", name);
                ok(quote!(#rp.#f(#(#ts),*)), rt.clone())
            }
            (h, "partial_cmp") if self.db.structs.get(h).is_some_and(|s| crate::load::derives(&s.0.attrs).iter().any(|d| d == "PartialOrd")) => {
                ok(quote!(#rp.partial_cmp(#(#ts),*)), n1("Option", n("Ordering")))
            }
            (_, "partial_cmp" | "cmp") if rt.is_int() => ok(
                quote!(#rp.#id(#(#ts),*)),
                if name == "cmp" { n("Ordering") } else { n1("Option", n("Ordering")) },
            ),
            (_, "min" | "max") if self.known.opaque.contains(rt.head()) => ok(quote!(#rp.#id(#(#ts),*)), rt),
            (h, "deref") if self.db.impls.iter().any(|i| i.0 == h && i.1 == "Deref") => Err("deref".into()),
            (h, _) => {
                // through Deref
                let h = h.to_string();
                let dk = format!("<{h} as Deref>::deref");
                if self.known.fns.contains(&dk) {
                    self.calls.insert(dk.clone());
                    let f = self.db.fns.get(&dk).cloned().ok_or("deref")?;
                    let recv = &m.receiver;
                    let args = &m.args;
                    let tmp = self.id("d");
                    let (r, _) = self.ex(recv, &Ty::Unk)?;
                    let t = self.ret_ty(&f);
                    let t = if let Some((_, ty)) = f.assoc.iter().find(|a| a.0 == "Target") { self.cx().ty(ty) } else { t };
                    self.bind_name(&tmp.to_string(), t);
                    let call: Expr = parse_quote!(#tmp.#id(#args));
                    let (c, ct) = self.ex(&call, hint)?;
                    let r = par(r);
                    return Ok((quote!({ let #tmp = #r.deref(); #c }), ct));
                }
                Err(format!("method {name} on {h}"))
            }
        }
    }

    fn builtin_arg(&self, t: &Ty, name: &str) -> Ty {
        match (t.head(), name) {
            ("Vec", "push") => t.arg(0),
            ("Vec", "append") => t.clone(),
            ("Vec", "get") => n("usize"),
            _ if t.is_int() => t.clone(),
            _ => Ty::Unk,
        }
    }

    /// Records the element type of a vector once something is pushed to it.
    fn learn(&mut self, recv: &Expr, head: &str, t: Option<&Ty>) {
        if let (Expr::Path(p), Some(t)) = (unparen(recv), t) {
            if let Some(id) = p.path.get_ident() {
                if let Some(e) = self.env.iter_mut().rev().find(|e| id == &e.0) {
                    if e.1.is(head) && e.1.arg(0) == Ty::Unk {
                        e.1 = n1(head, t.clone());
                    }
                }
            }
        }
    }
}

/// `return e` and `e?` of a loop body give `Some(..)`
fn exits_to_slot(b: &mut Block) -> R<()> {
    struct V(Option<String>);
    impl visit_mut::VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Closure(_) = e {
                return;
            }
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Return(r) => match &r.expr {
                    Some(x) => {
                        let x = x.clone();
                        *e = parse_quote!(return Some(#x));
                    }
                    None => *e = parse_quote!(return Some(())),
                },
                Expr::Try(t) => {
                    let x = t.expr.clone();
                    *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => { return Some(Err(vx_e.into())) } });
                }
                Expr::Break(_) | Expr::Continue(_) => self.0 = Some("break or continue with a value".into()),
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.0 = Some("nested loop with an early exit".into()),
                _ => {}
            }
        }
    }
    let mut v = V(None);
    visit_mut::VisitMut::visit_block_mut(&mut v, b);
    match v.0 {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn n_bool() -> Ty {
    n("bool")
}

fn short(e: &Expr) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().take(60).collect()
}

fn has_infer(t: &Type) -> bool {
    t.to_token_stream().into_iter().any(|x| tok_has_infer(&x))
}
fn tok_has_infer(t: &proc_macro2::TokenTree) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == "_",
        proc_macro2::TokenTree::Punct(_) => false,
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|x| tok_has_infer(&x)),
        _ => false,
    }
}

fn is_ref_expr(e: &Expr) -> bool {
    matches!(unparen(e), Expr::Reference(_))
}

fn is_place(e: &Expr) -> bool {
    matches!(unparen(e), Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) || matches!(unparen(e), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)))
}

fn chain_like(e: &Expr) -> bool {
    match unparen(e) {
        Expr::MethodCall(m) => {
            matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "chars" | "values" | "keys" | "enumerate")
                || (matches!(m.method.to_string().as_str(), "map" | "filter" | "rev" | "copied" | "cloned" | "filter_map" | "skip" | "take" | "zip") && chain_like(&m.receiver))
        }
        _ => false,
    }
}

fn item_of(t: &Ty) -> Option<Ty> {
    match t.head() {
        "Vec" | "VecDeque" | "Option" | "VxSliceIter" | "VxIntoIter" | "Iter" | "IntoIter" => Some(t.arg(0)),
        "Map" => Some(Ty::Tup(vec![n("String"), n("Value")])),
        _ => None,
    }
}

fn label_of(t: &Ty) -> String {
    match t {
        Ty::Tup(v) if v.len() == 2 && v[0].is("String") && v[1].is("Value") => "Member".into(),
        t => t.head().to_string(),
    }
}

fn split_let_chain(c: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::Binary(b) = c {
        if let BinOp::And(_) = b.op {
            let has = |e: &Expr| {
                let mut e = e;
                loop {
                    match e {
                        Expr::Let(_) => return true,
                        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                            if matches!(&*b.right, Expr::Let(_)) {
                                return true;
                            }
                            e = &b.left;
                        }
                        _ => return false,
                    }
                }
            };
            if has(c) {
                return Some(((*b.left).clone(), (*b.right).clone()));
            }
        }
    }
    None
}

/// Variables assigned or extended in a block, in order of appearance.
pub fn mutated(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl V {
        fn add(&mut self, e: &Expr) {
            if let Expr::Path(p) = unparen(e) {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if !self.0.contains(&s) {
                        self.0.push(s);
                    }
                }
            }
        }
    }
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            self.add(&a.left);
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
            if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) {
                self.add(&a.left);
            }
            visit::visit_expr_binary(self, a);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if matches!(m.method.to_string().as_str(), "push" | "append" | "extend" | "push_str" | "push_back" | "insert" | "push_front") {
                self.add(&m.receiver);
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if r.mutability.is_some() {
                self.add(&r.expr);
            }
            visit::visit_expr_reference(self, r);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            type Args = punctuated::Punctuated<Expr, Token![,]>;
            if m.path.is_ident("write") || m.path.is_ident("writeln") {
                if let Ok(a) = m.parse_body_with(Args::parse_terminated) {
                    if let Some(d) = a.first() {
                        self.add(d);
                    }
                }
            }
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn idents(t: TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

/// Replaces placeholders; None when one has no meaning here.
pub fn substitute(s: &str, subs: &[(String, String)]) -> Option<String> {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '$' {
            let mut j = i + 1;
            while j < cs.len() && (cs[j].is_ascii_uppercase() || (j > i + 1 && cs[j].is_ascii_digit())) {
                j += 1;
            }
            if j > i + 1 {
                let key: String = cs[i..j].iter().collect();
                let v = subs.iter().find(|x| x.0 == key)?;
                out.push_str(&v.1);
                i = j;
                continue;
            }
        }
        out.push(cs[i]);
        i += 1;
    }
    Some(out)
}

/// Finds the first `?` in evaluation order, replaces it by `tmp` and returns its operand.
fn hoist(e: &mut Expr, tmp: &Ident) -> R<Option<Expr>> {
    if !has_exit(e) {
        return Ok(None);
    }
    match e {
        Expr::Try(t) => {
            if has_exit(&t.expr) {
                return hoist(&mut t.expr, tmp);
            }
            let inner = (*t.expr).clone();
            *e = parse_quote!(#tmp);
            Ok(Some(inner))
        }
        Expr::Paren(p) => hoist(&mut p.expr, tmp),
        Expr::Group(p) => hoist(&mut p.expr, tmp),
        Expr::Reference(p) => hoist(&mut p.expr, tmp),
        Expr::Unary(p) => hoist(&mut p.expr, tmp),
        Expr::Field(p) => hoist(&mut p.base, tmp),
        Expr::Cast(p) => hoist(&mut p.expr, tmp),
        Expr::Assign(p) => hoist(&mut p.right, tmp),
        Expr::Index(p) => first(tmp, [&mut *p.expr, &mut *p.index].into_iter()),
        Expr::Binary(b) => {
            if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && !has_exit(&b.left) {
                return Err("`?` in a conditional operand".into());
            }
            first(tmp, [&mut *b.left, &mut *b.right].into_iter())
        }
        Expr::MethodCall(m) => first(tmp, std::iter::once(&mut *m.receiver).chain(m.args.iter_mut())),
        Expr::Call(c) => first(tmp, c.args.iter_mut()),
        Expr::Tuple(c) => first(tmp, c.elems.iter_mut()),
        Expr::Struct(s) => first(tmp, s.fields.iter_mut().map(|f| &mut f.expr)),
        Expr::If(i) => hoist(&mut i.cond, tmp),
        Expr::Match(m) => hoist(&mut m.expr, tmp),
        Expr::Let(l) => hoist(&mut l.expr, tmp),
        Expr::Return(r) => match &mut r.expr {
            Some(e) => hoist(e, tmp),
            None => Ok(None),
        },
        _ => Err(format!("`?` in an unsupported position: {}", short(e))),
    }
}

fn first<'a>(tmp: &Ident, es: impl Iterator<Item = &'a mut Expr>) -> R<Option<Expr>> {
    for e in es {
        if has_exit(e) {
            return hoist(e, tmp);
        }
    }
    Ok(None)
}

pub enum FmtPart {
    Lit(String),
    Arg(String, FmtSpec),
}
pub enum FmtSpec {
    Plain,
    /// lower case, at least so many digits
    Hex(usize),
}

pub fn fmt_parts(s: &str) -> Option<Vec<FmtPart>> {
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let j = cs[i..].iter().position(|c| *c == '}')? + i;
                let all: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match all.split_once(':') {
                    None => (all.clone(), FmtSpec::Plain),
                    Some((n, "")) => (n.to_string(), FmtSpec::Plain),
                    Some((n, "x")) => (n.to_string(), FmtSpec::Hex(1)),
                    Some((n, f)) => {
                        let w = f.strip_prefix('0')?.strip_suffix('x')?;
                        (n.to_string(), FmtSpec::Hex(w.parse().ok()?))
                    }
                };
                if !lit.is_empty() {
                    out.push(FmtPart::Lit(std::mem::take(&mut lit)));
                }
                out.push(FmtPart::Arg(name.trim().to_string(), spec));
                i = j + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(FmtPart::Lit(lit));
    }
    Some(out)
}

/// Types of signatures: associated types replaced, modelled std types renamed.
pub fn fix_ty(t: &Type, assoc: &[(String, Type)]) -> TokenStream {
    let mut t = t.clone();
    struct F<'a>(&'a [(String, Type)]);
    impl visit_mut::VisitMut for F<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                    let nm = p.path.segments[1].ident.to_string();
                    if let Some((_, a)) = self.0.iter().find(|a| a.0 == nm) {
                        *t = a.clone();
                        return self.visit_type_mut(t);
                    }
                }
            }
            visit_mut::visit_type_mut(self, t);
            if let Type::Path(p) = t {
                let l = p.path.segments.last().unwrap().clone();
                let id = l.ident.to_string();
                let args = &l.arguments;
                match id.as_str() {
                    "Iter" => *t = parse_quote!(VxSliceIter #args),
                    "IntoIter" => *t = parse_quote!(VxIntoIter #args),
                    "Map" => *t = parse_quote!(Map),
                    "Formatter" => *t = parse_quote!(VxFmt),
                    "Result" if l.arguments.is_empty() => *t = parse_quote!(Result<(), VxFmtError>),
                    // an associated type of a type that stands for a parameter
                    _ if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident.to_string().starts_with("Vx") => {
                        let id = format_ident!("{}{}", p.path.segments[0].ident, l.ident);
                        *t = parse_quote!(#id)
                    }
                    _ if p.qself.is_none() && p.path.segments.len() > 1 => *t = parse_quote!(#l),
                    _ => {}
                }
            }
        }
    }
    visit_mut::VisitMut::visit_type_mut(&mut F(assoc), &mut t);
    t.to_token_stream()
}

/// `let Some(x) = recv.first_mut()`
fn first_mut(c: &Expr) -> Option<(Ident, Expr)> {
    let Expr::Let(l) = unparen(c) else { return None };
    let Expr::MethodCall(m) = unparen(&l.expr) else { return None };
    let Pat::TupleStruct(t) = &*l.pat else { return None };
    let (Some(Pat::Ident(x)), 1) = (t.elems.first(), t.elems.len()) else { return None };
    if m.method != "first_mut" || !m.args.is_empty() || !t.path.is_ident("Some") || x.subpat.is_some() || x.by_ref.is_some() {
        return None;
    }
    Some((x.ident.clone(), (*m.receiver).clone()))
}
