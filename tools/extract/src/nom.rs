//! Parser combinators in direct style.  A parser expression applied to an input is replaced by the
//! definition that nom 7.1 gives the combinator (a match on the result of the inner parser), so that the
//! body contains only calls of the crate's own parsers, of its error constructors and of the
//! primitives of the template.  Combinators that the crate defines itself (`cut_with`) are replaced by
//! their bodies.
use crate::load::{Db, FnItem};
use proc_macro2::Ident;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

pub struct Nom<'d> {
    db: &'d Db,
    file: String,
    env: Vec<(String, Expr)>,
    fresh: usize,
    depth: usize,
}

fn unp(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unp(&p.expr),
        Expr::Group(p) => unp(&p.expr),
        e => e,
    }
}

/// `PResult<T>` or `IResult<&str, T, ..>`: the output type
pub fn presult(t: &Type) -> Option<Type> {
    let Type::Path(p) = t else { return None };
    let l = p.path.segments.last()?;
    let PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    let tys: Vec<Type> = a
        .args
        .iter()
        .filter_map(|g| match g {
            GenericArgument::Type(t) => Some(t.clone()),
            _ => None,
        })
        .collect();
    match l.ident.to_string().as_str() {
        "PResult" => tys.first().cloned(),
        "IResult" => tys.get(1).cloned(),
        _ => None,
    }
}

/// `impl Fn(&str) -> PResult<T>`: the type of the result
pub fn impl_fn(t: &Type) -> Option<(Type, Type)> {
    let Type::ImplTrait(i) = t else { return None };
    for b in &i.bounds {
        if let TypeParamBound::Trait(t) = b {
            let l = t.path.segments.last()?;
            if matches!(l.ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce") {
                if let PathArguments::Parenthesized(a) = &l.arguments {
                    if let (Some(x), ReturnType::Type(_, r)) = (a.inputs.first(), &a.output) {
                        return Some((x.clone(), (**r).clone()));
                    }
                }
            }
        }
    }
    None
}

fn fn_params(f: &FnItem) -> Vec<(Ident, Type)> {
    f.sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => Some((p.ident.clone(), (*t.ty).clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

/// Rewrites the parser functions of the crate.
pub fn rewrite_all(db: &mut Db) {
    let keys: Vec<String> = db.fns.keys().cloned().collect();
    let mut out = vec![];
    for k in keys {
        let f = &db.fns[&k];
        let rt = match &f.sig.output {
            ReturnType::Type(_, t) => (**t).clone(),
            _ => continue,
        };
        let has_types = f.sig.generics.type_params().next().is_some() || f.generics.type_params().next().is_some();
        let (sig, block, hint) = if let Some(t) = presult(&rt) {
            (f.sig.clone(), f.block.clone(), Some(t))
        } else if let (Some((it, r)), false) = (impl_fn(&rt), has_types) {
            // a parser with parameters: the input becomes the last parameter
            let Some(t) = presult(&r) else { continue };
            let mut sig = f.sig.clone();
            sig.output = parse_quote!(-> #r);
            let Some(Stmt::Expr(e, None)) = f.block.stmts.last() else { continue };
            let Expr::Closure(c) = unp(e) else {
                // the value of the function is itself a parser expression
                sig.inputs.push(parse_quote!(input: #it));
                let mut b = f.block.clone();
                let n = b.stmts.len();
                b.stmts[n - 1] = Stmt::Expr(parse_quote!((#e)(input)), None);
                out.push((k.clone(), sig, b, Some(t)));
                continue;
            };
            if c.inputs.len() != 1 {
                continue;
            }
            let nm = match &c.inputs[0] {
                Pat::Type(p) => (*p.pat).clone(),
                p => p.clone(),
            };
            let Pat::Ident(nm) = nm else { continue };
            let nm = nm.ident;
            sig.inputs.push(parse_quote!(#nm: #it));
            let body = &c.body;
            let mut b = f.block.clone();
            let n = b.stmts.len();
            b.stmts[n - 1] = Stmt::Expr((**body).clone(), None);
            (sig, b, Some(t))
        } else {
            continue;
        };
        out.push((k.clone(), sig, block, hint));
    }
    let mut new = vec![];
    for (k, sig, block, hint) in out {
        let file = db.fns[&k].file.clone();
        let mut nm = Nom { db, file, env: vec![], fresh: 0, depth: 0 };
        let r = nm.block(&block, hint.as_ref());
        new.push((k, sig, r));
    }
    for (k, sig, r) in new {
        let f = db.fns.get_mut(&k).unwrap();
        f.sig = sig;
        match r {
            Ok(b) => f.block = b,
            Err(e) => {
                let m = format!("parser expression: {e}");
                f.block = parse_quote!({ vx_unsupported!(#m) });
            }
        }
    }
}

impl Nom<'_> {
    fn id(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vn_{}{}", s, self.fresh)
    }

    /// the nom item that a name of this file denotes
    fn nom_name(&self, p: &Path) -> Option<String> {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 1 {
            return self.db.nom.get(&(self.file.clone(), s[0].clone())).cloned();
        }
        if s[0] == "nom" {
            return s.last().cloned();
        }
        // `combinator::map`
        if self.db.nom.contains_key(&(self.file.clone(), s[0].clone())) {
            return s.last().cloned();
        }
        None
    }

    fn repo_fn(&self, p: &Path) -> Option<&FnItem> {
        let l = p.segments.last()?.ident.to_string();
        let f = self.db.fns.get(&l)?;
        Some(f)
    }

    fn lookup(&self, s: &str) -> Option<Expr> {
        self.env.iter().rev().find(|e| e.0 == s).map(|e| e.1.clone())
    }

    /// an expression whose value is a parser
    fn is_parser(&self, e: &Expr) -> bool {
        match unp(e) {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.lookup(&i.to_string()).is_some() {
                        return true;
                    }
                }
                match self.nom_name(&p.path) {
                    Some(n) => PRIMS.contains(&n.as_str()),
                    None => false,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = unp(&c.func) else { return false };
                if self.nom_name(&p.path).is_some_and(|n| COMBS.contains(&n.as_str())) {
                    return true;
                }
                match self.repo_fn(&p.path) {
                    Some(f) => matches!(&f.sig.output, ReturnType::Type(_, t) if impl_fn(t).is_some()),
                    None => false,
                }
            }
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "map" | "and" | "or" | "flat_map" | "and_then" | "into") && (self.is_parser(&m.receiver) || self.is_fn_path(&m.receiver)),
            _ => false,
        }
    }
    fn is_fn_path(&self, e: &Expr) -> bool {
        match unp(e) {
            Expr::Path(p) => self.repo_fn(&p.path).is_some_and(|f| matches!(&f.sig.output, ReturnType::Type(_, t) if presult(t).is_some())),
            _ => false,
        }
    }

    fn block(&mut self, b: &Block, hint: Option<&Type>) -> R<Block> {
        let n = self.env.len();
        let mut out = vec![];
        let len = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let pat = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                        if self.is_parser(&init.expr) {
                            // names of the surrounding parsers are resolved now
                            let e = self.close(&init.expr);
                            self.env.push((i.ident.to_string(), e));
                            continue;
                        }
                    }
                    let mut l = l.clone();
                    if let Some(i) = &mut l.init {
                        i.expr = Box::new(self.ex(&i.expr, None)?);
                        if let Some((_, d)) = &mut i.diverge {
                            **d = self.ex(d, hint)?;
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(e, semi) => {
                    let h = if k + 1 == len && semi.is_none() { hint } else { None };
                    out.push(Stmt::Expr(self.ex(e, h)?, *semi));
                }
                s => out.push(s.clone()),
            }
        }
        self.env.truncate(n);
        Ok(Block { brace_token: Default::default(), stmts: out })
    }

    /// replaces the names bound to parsers by the parsers
    fn close(&self, e: &Expr) -> Expr {
        struct V<'a>(&'a [(String, Expr)]);
        impl visit_mut::VisitMut for V<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(i) = p.path.get_ident() {
                        if let Some((_, x)) = self.0.iter().rev().find(|x| i == &x.0) {
                            *e = x.clone();
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut e = e.clone();
        visit_mut::VisitMut::visit_expr_mut(&mut V(&self.env), &mut e);
        e
    }

    /// an ordinary expression that may apply parsers
    fn ex(&mut self, e: &Expr, hint: Option<&Type>) -> R<Expr> {
        Ok(match e {
            Expr::Paren(p) => self.ex(&p.expr, hint)?,
            Expr::Group(p) => self.ex(&p.expr, hint)?,
            Expr::Call(c) if c.args.len() == 1 && self.is_parser(&c.func) => {
                let i = self.ex(&c.args[0], None)?;
                self.with_input(&c.func, &i, hint)?
            }
            Expr::MethodCall(m) if m.method == "parse" && m.args.len() == 1 && (self.is_parser(&m.receiver) || self.is_fn_path(&m.receiver)) => {
                let i = self.ex(&m.args[0], None)?;
                self.with_input(&m.receiver, &i, hint)?
            }
            Expr::Closure(_) => e.clone(),
            Expr::Block(b) => {
                let b = self.block(&b.block, hint)?;
                parse_quote!(#b)
            }
            Expr::If(i) => {
                let mut i = i.clone();
                i.cond = Box::new(self.ex(&i.cond, None)?);
                i.then_branch = self.block(&i.then_branch, hint)?;
                if let Some((_, e)) = &mut i.else_branch {
                    **e = self.ex(e, hint)?;
                }
                Expr::If(i)
            }
            Expr::Match(m) => {
                let mut m = m.clone();
                m.expr = Box::new(self.ex(&m.expr, None)?);
                for a in &mut m.arms {
                    a.body = Box::new(self.ex(&a.body, hint)?);
                    if a.comma.is_none() {
                        a.comma = Some(Default::default());
                    }
                }
                Expr::Match(m)
            }
            Expr::Return(r) => {
                let mut r = r.clone();
                if let Some(e) = &mut r.expr {
                    **e = self.ex(e, hint)?;
                }
                Expr::Return(r)
            }
            _ => {
                // every subexpression
                struct V<'a, 'd>(&'a mut Nom<'d>, Option<String>);
                impl visit_mut::VisitMut for V<'_, '_> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        match self.0.ex(e, None) {
                            Ok(n) => *e = n,
                            Err(m) => self.1 = Some(m),
                        }
                    }
                    fn visit_block_mut(&mut self, b: &mut Block) {
                        match self.0.block(b, None) {
                            Ok(n) => *b = n,
                            Err(m) => self.1 = Some(m),
                        }
                    }
                }
                let mut e = e.clone();
                let mut v = V(self, None);
                visit_mut::visit_expr_mut(&mut v, &mut e);
                if let Some(m) = v.1 {
                    return Err(m);
                }
                e
            }
        })
    }

    /// P(p, input) with the input bound to a name
    fn with_input(&mut self, p: &Expr, i: &Expr, hint: Option<&Type>) -> R<Expr> {
        if let Expr::Path(q) = unp(i) {
            if let Some(id) = q.path.get_ident() {
                let id = id.clone();
                return self.p(p, &id, hint);
            }
        }
        let id = self.id("in");
        let b = self.p(p, &id, hint)?;
        Ok(parse_quote!({ let #id = #i; #b }))
    }

    fn f(&self, f: &Expr, args: &[Expr]) -> Expr {
        match unp(f) {
            Expr::Closure(c) => parse_quote!((#c)(#(#args),*)),
            f => parse_quote!(#f(#(#args),*)),
        }
    }

    fn err(&self, at: &Ident, kind: &str) -> Expr {
        let k = format_ident!("{}", kind);
        parse_quote!(Err(Nerr::Error(Error::from_error_kind(#at, ErrorKind::#k))))
    }

    /// sequence: all parsers one after the other; `k` builds the value from the names
    fn seq(&mut self, ps: &[Expr], i: &Ident, k: &dyn Fn(&Ident, &[Ident]) -> Expr) -> R<Expr> {
        fn go(s: &mut Nom, ps: &[Expr], i: &Ident, names: &mut Vec<Ident>, k: &dyn Fn(&Ident, &[Ident]) -> Expr) -> R<Expr> {
            let Some((p, rest)) = ps.split_first() else { return Ok(k(i, names)) };
            let (r, o, e) = (s.id("r"), s.id("o"), s.id("e"));
            let m = s.p(p, i, None)?;
            names.push(o.clone());
            let inner = go(s, rest, &r, names, k)?;
            Ok(parse_quote!(match #m { Err(#e) => Err(#e), Ok((#r, #o)) => { #inner } }))
        }
        go(self, ps, i, &mut vec![], k)
    }

    fn args(&self, c: &ExprCall) -> Vec<Expr> {
        c.args.iter().cloned().collect()
    }

    /// the parser expression `e` applied to `i`
    fn p(&mut self, e: &Expr, i: &Ident, hint: Option<&Type>) -> R<Expr> {
        self.depth += 1;
        if self.depth > 60 {
            return Err("nesting of parser expressions".into());
        }
        let r = self.p0(e, i, hint);
        self.depth -= 1;
        r
    }
    fn p0(&mut self, e: &Expr, i: &Ident, hint: Option<&Type>) -> R<Expr> {
        match unp(e) {
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    if let Some(x) = self.lookup(&id.to_string()) {
                        return self.p(&x, i, hint);
                    }
                }
                if let Some(n) = self.nom_name(&p.path) {
                    if self.lookup(&n).is_none() {
                        let kind = match n.as_str() {
                            "digit0" | "alpha0" | "alphanumeric0" | "multispace0" | "space0" | "hex_digit0" | "rest" => {
                                let f = format_ident!("vx_p_{}", n);
                                return Ok(parse_quote!(Ok(#f(#i))));
                            }
                            "digit1" => "Digit",
                            "alpha1" => "Alpha",
                            "alphanumeric1" => "AlphaNumeric",
                            "multispace1" => "MultiSpace",
                            "space1" => "Space",
                            "hex_digit1" => "HexDigit",
                            "anychar" | "eof" => "Eof",
                            o => return Err(format!("nom::{o}")),
                        };
                        let f = format_ident!("vx_p_{}", n);
                        let x = self.id("x");
                        let er = self.err(i, kind);
                        return Ok(parse_quote!(match #f(#i) { Some(#x) => Ok(#x), None => #er }));
                    }
                }
                Ok(parse_quote!(#p(#i)))
            }
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return Err("closure arity".into());
                }
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = self.ex(&c.body, hint)?;
                Ok(parse_quote!({ let #pat = #i; #b }))
            }
            Expr::MethodCall(m) => {
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                let r = &m.receiver;
                let q: Expr = match m.method.to_string().as_str() {
                    "map" => return self.map(r, &a[0], i),
                    "and" => {
                        let b = &a[0];
                        return self.seq(&[(**r).clone(), b.clone()], i, &|r, n| {
                            let (x, y) = (&n[0], &n[1]);
                            parse_quote!(Ok((#r, (#x, #y))))
                        });
                    }
                    "or" => {
                        let b = &a[0];
                        parse_quote!(alt((#r, #b)))
                    }
                    o => return Err(format!("parser method {o}")),
                };
                let Expr::Call(c) = &q else { unreachable!() };
                let Expr::Tuple(t) = unp(&c.args[0]) else { unreachable!() };
                let ps: Vec<Expr> = t.elems.iter().cloned().collect();
                self.alt(&ps, i, hint, true)
            }
            Expr::Call(c) => {
                let Expr::Path(p) = unp(&c.func) else { return Err("call of an expression".into()) };
                if let Some(n) = self.nom_name(&p.path) {
                    return self.comb(&n, &self.args(c), i, hint);
                }
                let name = p.path.segments.last().unwrap().ident.to_string();
                let Some(f) = self.repo_fn(&p.path).cloned() else { return Err(format!("parser {name}(..)")) };
                let ReturnType::Type(_, rt) = &f.sig.output else { return Err(format!("parser {name}(..)")) };
                let Some((_, _)) = impl_fn(rt) else { return Err(format!("parser {name}(..)")) };
                let args = self.args(c);
                let generic = f.sig.generics.type_params().next().is_some();
                if !generic {
                    return Ok(parse_quote!(#p(#(#args,)* #i)));
                }
                // a combinator of the crate: its body with the arguments in place of the parameters
                let ps = fn_params(&f);
                if ps.len() != args.len() {
                    return Err(format!("arguments of {name}"));
                }
                let mut locals = vec![];
                names_of(&f.block.to_token_stream(), &mut locals);
                let keep = |s: &String| !ps.iter().any(|p| p.0 == s);
                let bound = binders(&f.block);
                for a in &args {
                    let mut v = vec![];
                    names_of(&self.close(a).to_token_stream(), &mut v);
                    if v.iter().any(|x| bound.contains(x) && keep(x)) {
                        return Err(format!("names in {name}"));
                    }
                }
                let map: HashMap<String, Expr> = ps.iter().zip(&args).map(|(p, a)| (p.0.to_string(), self.close(a))).collect();
                let Some(Stmt::Expr(last, None)) = f.block.stmts.last() else { return Err(format!("body of {name}")) };
                if f.block.stmts.len() != 1 {
                    return Err(format!("body of {name}"));
                }
                let Expr::Closure(cl) = unp(last) else {
                    let mut e = last.clone();
                    subst(&mut e, &map);
                    let file = std::mem::replace(&mut self.file, f.file.clone());
                    let r = self.p(&e, i, hint);
                    self.file = file;
                    return r;
                };
                let mut cl = cl.clone();
                subst(&mut cl.body, &map);
                let pat = match &cl.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let saved_env = std::mem::take(&mut self.env);
                // `parser.parse(i)` where `parser` has been replaced
                struct V<'a, 'd>(&'a mut Nom<'d>, Option<String>);
                impl visit_mut::VisitMut for V<'_, '_> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::MethodCall(m) = e {
                            if m.method == "parse" && m.args.len() == 1 {
                                let i = m.args[0].clone();
                                match self.0.with_input(&m.receiver, &i, None) {
                                    Ok(n) => *e = n,
                                    Err(m) => self.1 = Some(m),
                                }
                            } else if m.method == "clone" && m.args.is_empty() && matches!(unp(&m.receiver), Expr::Path(p) if p.path.is_ident("input")) {
                                *e = (*m.receiver).clone();
                            }
                        } else if let Expr::Call(c) = e {
                            if let Expr::Closure(_) = unp(&c.func) {
                                let f = unp(&c.func).clone();
                                let a = &c.args;
                                *e = parse_quote!((#f)(#a));
                            }
                        }
                    }
                }
                let mut body = (*cl.body).clone();
                let mut v = V(self, None);
                visit_mut::VisitMut::visit_expr_mut(&mut v, &mut body);
                let m = v.1;
                self.env = saved_env;
                if let Some(m) = m {
                    return Err(m);
                }
                generalize(&mut body);
                Ok(parse_quote!({ let #pat = #i; #body }))
            }
            o => Err(format!("parser expression {}", o.to_token_stream())),
        }
    }

    fn map(&mut self, p: &Expr, f: &Expr, i: &Ident) -> R<Expr> {
        let (r, o, e) = (self.id("r"), self.id("o"), self.id("e"));
        let m = self.p(p, i, None)?;
        let a = self.f(f, &[parse_quote!(#o)]);
        Ok(parse_quote!(match #m { Err(#e) => Err(#e), Ok((#r, #o)) => { Ok((#r, #a)) } }))
    }

    fn alt(&mut self, ps: &[Expr], i: &Ident, hint: Option<&Type>, method: bool) -> R<Expr> {
        // the error of the alternatives so far is `prev`
        fn go(s: &mut Nom, ps: &[Expr], i: &Ident, hint: Option<&Type>, prev: Option<Ident>, method: bool) -> R<Expr> {
            let Some((p, rest)) = ps.split_first() else {
                let e = prev.unwrap();
                if method {
                    return Ok(parse_quote!(Err(Nerr::Error(#e))));
                }
                return Ok(parse_quote!(Err(Nerr::Error(Error::append(#i, ErrorKind::Alt, #e)))));
            };
            let m = s.p(p, i, hint)?;
            let (e, x) = (s.id("e"), s.id("x"));
            let inner = go(s, rest, i, hint, Some(e.clone()), method)?;
            let join: proc_macro2::TokenStream = match &prev {
                // `ParseError::or` keeps the later error unless the crate says otherwise
                Some(q) if s.db.fns.contains_key("<Error<I> as ParseError<I>>::or") => quote!(let #e = Error::or(#q, #e);),
                _ => quote!(),
            };
            Ok(parse_quote!(match #m { Err(Nerr::Error(#e)) => { #join #inner } #x => #x }))
        }
        if ps.is_empty() {
            return Err("alt of nothing".into());
        }
        go(self, ps, i, hint, None, method)
    }

    fn comb(&mut self, n: &str, a: &[Expr], i: &Ident, hint: Option<&Type>) -> R<Expr> {
        let want = match n {
            "recognize" | "opt" | "cut" | "peek" | "all_consuming" | "many0" | "many1" | "tag" | "char" | "one_of" | "none_of" | "satisfy" | "take_while" | "take_while1" | "alt" | "tuple" | "take" | "not" | "success" | "consumed" | "into" | "complete" | "is_a" | "is_not" => 1,
            "separated_pair" | "delimited" | "take_while_m_n" | "fold_many0" | "fold_many1" => 3,
            _ => 2,
        };
        if a.len() != want {
            return Err(format!("arguments of {n}"));
        }
        let (r, o, e, x) = (self.id("r"), self.id("o"), self.id("e"), self.id("x"));
        Ok(match n {
            "alt" => {
                let Expr::Tuple(t) = unp(&a[0]) else { return Err("alt".into()) };
                let ps: Vec<Expr> = t.elems.iter().cloned().collect();
                self.alt(&ps, i, hint, false)?
            }
            "tuple" => {
                let Expr::Tuple(t) = unp(&a[0]) else { return Err("tuple".into()) };
                let ps: Vec<Expr> = t.elems.iter().cloned().collect();
                self.seq(&ps, i, &|r, n| parse_quote!(Ok((#r, (#(#n),*)))))?
            }
            "pair" => self.seq(a, i, &|r, n| parse_quote!(Ok((#r, (#(#n),*)))))?,
            "preceded" => self.seq(a, i, &|r, n| {
                let x = &n[1];
                parse_quote!(Ok((#r, #x)))
            })?,
            "terminated" => self.seq(a, i, &|r, n| {
                let x = &n[0];
                parse_quote!(Ok((#r, #x)))
            })?,
            "delimited" => self.seq(a, i, &|r, n| {
                let x = &n[1];
                parse_quote!(Ok((#r, #x)))
            })?,
            "separated_pair" => self.seq(a, i, &|r, n| {
                let (x, y) = (&n[0], &n[2]);
                parse_quote!(Ok((#r, (#x, #y))))
            })?,
            "map" => self.map(&a[0], &a[1], i)?,
            "value" => {
                let m = self.p(&a[1], i, None)?;
                let v = &a[0];
                parse_quote!(match #m { Err(#e) => Err(#e), Ok((#r, #o)) => { Ok((#r, #v)) } })
            }
            "map_res" => {
                let m = self.p(&a[0], i, None)?;
                let f = self.f(&a[1], &[parse_quote!(#o)]);
                let f: Expr = match hint {
                    Some(t) => parse_quote!(vx_as_ok!(#t, #f)),
                    None => f,
                };
                parse_quote!(match #m {
                    Err(#e) => Err(#e),
                    Ok((#r, #o)) => { match #f {
                        Ok(#x) => Ok((#r, #x)),
                        Err(#e) => Err(Nerr::Error(Error::from_external_error(#i, ErrorKind::MapRes, #e))),
                    } }
                })
            }
            "map_opt" => {
                let m = self.p(&a[0], i, None)?;
                let f = self.f(&a[1], &[parse_quote!(#o)]);
                let er = self.err(i, "MapOpt");
                parse_quote!(match #m {
                    Err(#e) => Err(#e),
                    Ok((#r, #o)) => { match #f { Some(#x) => Ok((#r, #x)), None => #er } }
                })
            }
            "verify" => {
                let m = self.p(&a[0], i, None)?;
                let f = self.f(&a[1], &[parse_quote!(&#o)]);
                let er = self.err(i, "Verify");
                let c = self.id("c");
                parse_quote!(match #m {
                    Err(#e) => Err(#e),
                    Ok((#r, #o)) => { let #c: bool = #f; if #c { Ok((#r, #o)) } else { #er } }
                })
            }
            "opt" => {
                let m = self.p(&a[0], i, None)?;
                parse_quote!(match #m { Ok((#r, #o)) => Ok((#r, Some(#o))), Err(Nerr::Error(#e)) => Ok((#i, None)), Err(#e) => Err(#e) })
            }
            "peek" => {
                let m = self.p(&a[0], i, hint)?;
                parse_quote!(match #m { Ok((#r, #o)) => Ok((#i, #o)), Err(#e) => Err(#e) })
            }
            "not" => {
                let m = self.p(&a[0], i, None)?;
                let er = self.err(i, "Not");
                parse_quote!(match #m { Ok((#r, #o)) => #er, Err(Nerr::Error(#e)) => Ok((#i, ())), Err(#e) => Err(#e) })
            }
            "cut" => {
                let m = self.p(&a[0], i, hint)?;
                parse_quote!(match #m { Err(Nerr::Error(#e)) => Err(Nerr::Failure(#e)), #x => #x })
            }
            "complete" => {
                let m = self.p(&a[0], i, hint)?;
                let er = self.err(i, "Complete");
                parse_quote!(match #m { Err(Nerr::Incomplete(_)) => #er, #x => #x })
            }
            "recognize" => {
                let m = self.p(&a[0], i, None)?;
                parse_quote!(match #m { Err(#e) => Err(#e), Ok((#r, #o)) => { Ok((#r, vx_p_consumed(#i, #r))) } })
            }
            "context" => {
                let m = self.p(&a[1], i, hint)?;
                let c = &a[0];
                parse_quote!(match #m {
                    Ok(#o) => Ok(#o),
                    Err(Nerr::Incomplete(#x)) => Err(Nerr::Incomplete(#x)),
                    Err(Nerr::Error(#e)) => Err(Nerr::Error(Error::add_context(#i, #c, #e))),
                    Err(Nerr::Failure(#e)) => Err(Nerr::Failure(Error::add_context(#i, #c, #e))),
                })
            }
            "all_consuming" => {
                let m = self.p(&a[0], i, hint)?;
                let er = self.err(&r, "Eof");
                parse_quote!(match #m { Err(#e) => Err(#e), Ok((#r, #o)) => { if vx_p_at_end(#r) { Ok((#r, #o)) } else { #er } } })
            }
            "tag" | "one_of" | "none_of" | "char" => {
                let (f, k) = match n {
                    "tag" => ("vx_p_tag", "Tag"),
                    "one_of" => ("vx_p_one_of", "OneOf"),
                    "none_of" => ("vx_p_none_of", "NoneOf"),
                    _ => ("vx_p_char", "Char"),
                };
                let f = format_ident!("{}", f);
                let er = self.err(i, k);
                let v = &a[0];
                if let (Expr::Lit(ExprLit { lit: Lit::Str(l), .. }), true) = (unp(v), n != "tag") {
                    // a known list of characters: the next character compared to each
                    let c = self.id("c");
                    let cs: Vec<char> = l.value().chars().collect();
                    let one: Expr = if cs.is_empty() { parse_quote!(false) } else { parse_quote!(#(#o == #cs)||*) };
                    let test: Expr = if n == "one_of" { one } else { parse_quote!(!(#one)) };
                    return Ok(parse_quote!(match vx_p_anychar(#i) { Some((#r, #o)) => { let #c: bool = #test; if #c { Ok((#r, #o)) } else { #er } } None => #er }));
                }
                parse_quote!(match #f(#v, #i) { Some(#x) => Ok(#x), None => #er })
            }
            "satisfy" => {
                // the next character, if the predicate holds of it
                let er = self.err(i, "Satisfy");
                let f = self.f(&a[0], &[parse_quote!(#o)]);
                let c = self.id("c");
                parse_quote!(match vx_p_anychar(#i) { Some((#r, #o)) => { let #c: bool = #f; if #c { Ok((#r, #o)) } else { #er } } None => #er })
            }
            "take_while" | "take_while1" | "take_while_m_n" => {
                let (lo, hi, f): (Expr, Expr, &Expr) = match n {
                    "take_while" => (parse_quote!(0), parse_quote!(usize::MAX), &a[0]),
                    "take_while1" => (parse_quote!(1), parse_quote!(usize::MAX), &a[0]),
                    _ => (a[0].clone(), a[1].clone(), &a[2]),
                };
                let kind = match n {
                    "take_while1" => "TakeWhile1",
                    _ => "TakeWhileMN",
                };
                let c = self.id("c");
                let f = self.f(f, &[parse_quote!(#c)]);
                let er = self.err(i, kind);
                let ascii: Expr = if n == "take_while_m_n" { parse_quote!(true) } else { parse_quote!(false) };
                parse_quote!(match vx_take_while!(#i, #lo, #hi, #ascii, #c, #f) { Some(#x) => Ok(#x), None => #er })
            }
            "many0" | "many1" | "fold_many0" => {
                if n == "many1" {
                    return Err("many1".into());
                }
                let (acc, rest, go, er, ir) = (self.id("acc"), self.id("rest"), self.id("go"), self.id("err"), self.id("in"));
                let m = self.p(&a[0], &ir, None)?;
                let (init, add): (Expr, Stmt) = if n == "many0" {
                    (parse_quote!(Vec::new()), parse_quote!(#acc.push(#o);))
                } else {
                    let init = self.f(&a[1], &[]);
                    let f = self.f(&a[2], &[parse_quote!(#acc), parse_quote!(#o)]);
                    (init, parse_quote!(#acc = #f;))
                };
                parse_quote!({
                    let mut #acc = #init;
                    let mut #rest = #i;
                    let mut #go = true;
                    let mut #er = None;
                    vx_nom_loop!(#n, #i, #acc, #rest, #go, #er, {
                        let #ir = #rest;
                        match #m {
                            Ok((#r, #o)) => {
                                if vx_p_same_len(#r, #ir) {
                                    #er = Some(Nerr::Error(Error::from_error_kind(#ir, ErrorKind::Many0)));
                                    #go = false;
                                } else {
                                    #rest = #r;
                                    #add
                                }
                            }
                            Err(Nerr::Error(_)) => { #go = false; }
                            Err(#e) => { #er = Some(#e); #go = false; }
                        }
                    });
                    match #er { Some(#e) => Err(#e), None => Ok((#rest, #acc)) }
                })
            }
            "separated_list0" | "separated_list1" => {
                let (acc, rest, go, er, ir, i2) = (self.id("acc"), self.id("rest"), self.id("go"), self.id("err"), self.id("in"), self.id("in"));
                let (o2, r2) = (self.id("o"), self.id("r"));
                let first = self.p(&a[1], i, None)?;
                let sep = self.p(&a[0], &ir, None)?;
                let item = self.p(&a[1], &i2, None)?;
                let none: Expr = if n == "separated_list0" { parse_quote!(Ok((#i, Vec::new()))) } else { parse_quote!(Err(Nerr::Error(#e))) };
                parse_quote!(match #first {
                    Err(Nerr::Error(#e)) => #none,
                    Err(#e) => Err(#e),
                    Ok((#r, #o)) => {
                        let mut #acc = Vec::new();
                        #acc.push(#o);
                        let mut #rest = #r;
                        let mut #go = true;
                        let mut #er = None;
                        vx_nom_loop!(#n, #i, #acc, #rest, #go, #er, {
                            let #ir = #rest;
                            match #sep {
                                Err(Nerr::Error(_)) => { #go = false; }
                                Err(#e) => { #er = Some(#e); #go = false; }
                                Ok((#i2, _)) => {
                                    if vx_p_same_len(#i2, #ir) {
                                        #er = Some(Nerr::Error(Error::from_error_kind(#i2, ErrorKind::SeparatedList)));
                                        #go = false;
                                    } else {
                                        match #item {
                                            Err(Nerr::Error(_)) => { #go = false; }
                                            Err(#e) => { #er = Some(#e); #go = false; }
                                            Ok((#r2, #o2)) => { #acc.push(#o2); #rest = #r2; }
                                        }
                                    }
                                }
                            }
                        });
                        match #er { Some(#e) => Err(#e), None => Ok((#rest, #acc)) }
                    }
                })
            }
            o => return Err(format!("nom::{o}")),
        })
    }
}

const PRIMS: &[&str] = &["digit0", "digit1", "alpha0", "alpha1", "alphanumeric0", "alphanumeric1", "multispace0", "multispace1", "space0", "space1", "hex_digit0", "hex_digit1", "anychar", "rest", "eof"];
const COMBS: &[&str] = &[
    "alt", "tuple", "pair", "preceded", "terminated", "delimited", "separated_pair", "map", "value", "map_res", "map_opt", "verify", "opt", "peek", "not", "cut", "complete", "recognize", "context", "all_consuming", "tag", "one_of", "none_of",
    "char", "satisfy", "take_while", "take_while1", "take_while_m_n", "many0", "many1", "fold_many0", "separated_list0", "separated_list1", "take", "success", "consumed", "into", "is_a", "is_not", "fold_many1", "many_till", "count", "flat_map", "cond", "fail", "rest",
];

fn names_of(t: &proc_macro2::TokenStream, out: &mut Vec<String>) {
    for x in t.clone() {
        match x {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => names_of(&g.stream(), out),
            _ => {}
        }
    }
}

/// names bound by patterns in a block
fn binders(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

fn subst(e: &mut Expr, map: &HashMap<String, Expr>) {
    struct V<'a>(&'a HashMap<String, Expr>);
    impl visit_mut::VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = self.0.get(&i.to_string()) {
                        *e = x.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    visit_mut::VisitMut::visit_expr_mut(&mut V(map), e);
}

/// `E1::from_internal_error` of a generic combinator is that of the crate's error type
fn generalize(e: &mut Expr) {
    struct V;
    impl visit_mut::VisitMut for V {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            let n = p.path.segments.len();
            if n == 2 {
                let a = p.path.segments[0].ident.to_string();
                if matches!(a.as_str(), "E" | "E1" | "E2") {
                    p.path.segments[0].ident = format_ident!("Error");
                }
            }
        }
    }
    visit_mut::VisitMut::visit_expr_mut(&mut V, e);
}

/// `nom::Err::Error(e)` becomes `Nerr::Error(e)` everywhere.
pub fn rename_err(f: &mut FnItem, alias: bool) {
    struct V(bool);
    impl visit_mut::VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) {
            let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            let k = s.len();
            if k >= 2 && s[k - 2] == "Err" && (self.0 || s[0] == "nom") {
                let last = p.segments.last().unwrap().clone();
                *p = parse_quote!(Nerr::#last);
            } else if k >= 2 && s[k - 2] == "ParseError" && s[k - 1] == "from_error_kind" || s[k - 1] == "make_error" {
                // nom's trait and function: the error type of every parser is the crate's own
                *p = parse_quote!(Error::from_error_kind);
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    visit_mut::VisitMut::visit_block_mut(&mut V(alias), &mut f.block);
}
