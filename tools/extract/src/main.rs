//! Mechanical extraction of the crates' functions into a Verus file with contracts.
//!
//! extract REPO OUT.rs OUT.json TEMPLATE.. [--assume KEY]..
mod ds;
mod load;
mod nom;
mod pp;
mod ty;

use ds::*;
use load::*;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::*;

#[derive(Default, Clone)]
struct Contract {
    key: String,
    props: Vec<String>,
    mode: String,
    requires: Vec<String>,
    ensures: Vec<String>,
    decreases: Vec<String>,
    entry: Vec<String>,
    exit: Vec<String>,
    attr: Vec<String>,
    spec: Vec<String>,
    loops: Vec<LoopSpec>,
    /// type parameters that are given a type: `I &'vx str`
    inst: Vec<String>,
    external: bool,
}

struct Info {
    key: String,
    props: Vec<String>,
    status: String,
    reason: String,
    file: String,
    line: usize,
    start: usize,
    end: usize,
    inlined: Vec<String>,
    calls: Vec<String>,
    bare: usize,
    clauses: usize,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    let mut assume = HashSet::new();
    let mut expanded = vec![];
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--expanded" {
            expanded.push(args[i + 1].clone());
            i += 2;
        } else if args[i] == "--assume" {
            assume.insert(args[i + 1].clone());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let db = match Db::load(std::path::Path::new(&pos[0]), &expanded) {
        Ok(d) => d,
        Err(e) => {
            eprintln!("extract: {e}");
            std::process::exit(3);
        }
    };
    let mut lines = vec![];
    for t in &pos[3..] {
        let s = std::fs::read_to_string(t).unwrap_or_else(|e| panic!("{t}: {e}"));
        lines.extend(s.lines().map(|l| l.to_string()));
    }
    // first pass: what is under contract
    let mut known = Known { fns: HashSet::new(), opaque: HashSet::new(), statics: HashMap::new() };
    for l in &lines {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "//@fn" | "//@extern" => {
                known.fns.insert(key_of(l));
            }
            "//@opaque" => {
                known.opaque.insert(w[1].into());
            }
            "//@static" => {
                known.statics.insert(w[1].into(), w[2..].join(" "));
            }
            _ => {}
        }
    }
    // a contract for a function that is not there (renamed or removed) is no help
    let gone: Vec<String> = known.fns.iter().filter(|k| !db.fns.contains_key(*k)).cloned().collect();
    for g in &gone {
        known.fns.remove(g);
    }
    let mut out = String::new();
    let mut infos: Vec<Info> = vec![];
    let mut ignored: Vec<String> = vec![];
    let mut problems: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let w: Vec<&str> = l.split_whitespace().collect();
        if !w.first().is_some_and(|x| x.starts_with("//@")) {
            out.push_str(&l);
            out.push('\n');
            i += 1;
            continue;
        }
        i += 1;
        match w[0] {
            "//@type" => match emit_type(&db, w[1]) {
                Ok(t) => out.push_str(&t),
                Err(e) => problems.push(e),
            },
            "//@derive" => match emit_derive(&db, w[1], w[2]) {
                Ok(t) => out.push_str(&t),
                Err(e) => problems.push(e),
            },
            "//@const" => match db.consts.get(w[1]) {
                Some((c, _)) => {
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    out.push_str(&format!("pub const {id}: {} = {};\n", ty.to_token_stream(), e.to_token_stream()));
                }
                None => problems.push(format!("constant {} not found", w[1])),
            },
            "//@opaque" => {
                // a newtype over one field, nothing else
                match db.structs.get(w[1]) {
                    Some((s, _)) if matches!(&s.fields, Fields::Unnamed(f) if f.unnamed.len() == 1) => {}
                    _ => problems.push(format!("{} is not a newtype", w[1])),
                }
            }
            "//@impls" => {
                // //@impls TYPE TRAIT: such an impl is needed by the model
                if !db.impls.iter().any(|x| x.0 == w[1] && x.1 == w[2]) {
                    problems.push(format!("no impl of {} for {}", w[2], w[1]));
                }
            }
            "//@ignore" => ignored.push(key_of(&l)),
            "//@derives" => {
                let attrs = db.structs.get(w[1]).map(|s| s.0.attrs.clone()).or_else(|| db.enums.get(w[1]).map(|s| s.0.attrs.clone()));
                let ds = attrs.map(|a| derives(&a)).unwrap_or_default();
                for t in &w[2..] {
                    if !ds.iter().any(|d| d == t) {
                        problems.push(format!("{} does not derive {t}", w[1]));
                    }
                }
            }
            "//@lemma" => {
                // a lemma of the template, up to the next //@endlemma
                let props = w.iter().find_map(|x| x.strip_prefix("props=")).unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                let start = out.matches('\n').count() + 1;
                while i < lines.len() && lines[i].trim() != "//@endlemma" {
                    out.push_str(&lines[i]);
                    out.push('\n');
                    i += 1;
                }
                i += 1;
                infos.push(Info {
                    key: w[1].into(),
                    props,
                    status: "lemma".into(),
                    reason: String::new(),
                    file: String::new(),
                    line: 0,
                    start,
                    end: out.matches('\n').count(),
                    inlined: vec![],
                    calls: vec![],
                    bare: 0,
                    clauses: 0,
                });
            }
            // a region of mutually recursive opaque spec functions: a lemma `u_x` is written for each function
            // `g_x`, which says that it equals its definition (the text that stands there, a second time)
            "//@grammar" => {
                let mut reg = vec![];
                while i < lines.len() && lines[i].trim() != "//@endgrammar" {
                    reg.push(lines[i].clone());
                    i += 1;
                }
                i += 1;
                let name = |l: &str| l.strip_prefix("pub open spec fn ").and_then(|t| t.split('(').next()).map(str::to_string);
                let opaque: Vec<String> = reg.windows(2).filter(|p| p[0] == "#[verifier::opaque]").filter_map(|p| name(&p[1])).collect();
                let mut k = 0;
                while k < reg.len() {
                    out.push_str(&reg[k]);
                    out.push('\n');
                    let f = name(&reg[k]).filter(|f| opaque.contains(f));
                    k += 1;
                    let Some(f) = f else { continue };
                    let sig = reg[k - 1].clone();
                    let mut body = String::new();
                    while k < reg.len() {
                        out.push_str(&reg[k]);
                        out.push('\n');
                        let l = reg[k].clone();
                        k += 1;
                        if !body.is_empty() || l.starts_with('{') {
                            body.push_str(&l);
                            body.push('\n');
                            if l.ends_with('}') && (l.starts_with('{') || l == "}") {
                                break;
                            }
                        }
                    }
                    let Some((head, _)) = sig.split_once(") ->") else { problems.push(format!("grammar: {f}")); continue };
                    let (_, ps) = head.split_once('(').unwrap();
                    let args: Vec<&str> = ps.split(", ").filter_map(|p| p.split(':').next()).map(str::trim).collect();
                    let mut rv = format!("reveal({f});");
                    for c in &opaque {
                        if *c != f && body.contains(&format!("{c}(")) {
                            rv.push_str(&format!(" reveal({c});"));
                        }
                    }
                    let u = f.trim_start_matches("g_");
                    out.push_str(&format!("pub proof fn u_{u}({ps})\n  ensures {f}({}) == ({})\n{{ {rv} }}\n", args.join(", "), body.trim_end()));
                }
            }
            "//@static" => {}
            "//@extern" => {}
            "//@fn" => {
                let mut c = Contract { key: key_of(&l), ..Default::default() };
                for x in &w {
                    if let Some(p) = x.strip_prefix("props=") {
                        c.props = p.split(',').map(|s| s.to_string()).collect();
                    }
                    if let Some(p) = x.strip_prefix("mode=") {
                        c.mode = p.into();
                    }
                }
                let mut sec = String::new();
                let mut sub = String::new();
                while i < lines.len() && lines[i].trim() != "//@end" {
                    let t = lines[i].trim().to_string();
                    i += 1;
                    if let Some(h) = t.strip_prefix('@') {
                        let hw: Vec<&str> = h.split_whitespace().collect();
                        match hw[0] {
                            "loop" => {
                                c.loops.push(LoopSpec {
                                    label: hw[1].into(),
                                    shape: hw.get(2).map(|s| s.to_string()),
                                    ..Default::default()
                                });
                                sec = "loop".into();
                                sub = "inv".into();
                            }
                            "inv" | "ens" | "dec" | "before" | "body" | "bodyend" | "after" if sec == "loop" => sub = hw[0].into(),
                            "external" => c.external = true,
                            s => sec = s.into(),
                        }
                        continue;
                    }
                    if t.is_empty() || t.starts_with("//") {
                        continue;
                    }
                    match sec.as_str() {
                        "requires" => c.requires.push(t),
                        "ensures" => c.ensures.push(t),
                        "decreases" => c.decreases.push(t),
                        "entry" => c.entry.push(t),
                        "exit" => c.exit.push(t),
                        "attr" => c.attr.push(t),
                        "spec" => c.spec.push(t),
                        "inst" => c.inst.push(t),
                        "loop" => {
                            let l = c.loops.last_mut().unwrap();
                            match sub.as_str() {
                                "inv" => l.inv.push(t),
                                "ens" => l.ens.push(t),
                                "dec" => l.dec.push(t),
                                "before" => l.before.push(t),
                                "body" => l.body.push(t),
                                "bodyend" => l.bodyend.push(t),
                                _ => l.after.push(t),
                            }
                        }
                        s => panic!("{}: text in section {s:?}", c.key),
                    }
                }
                i += 1;
                let start = out.matches('\n').count() + 1;
                let mut info = Info {
                    key: c.key.clone(),
                    props: c.props.clone(),
                    status: "verified".into(),
                    reason: String::new(),
                    file: String::new(),
                    line: 0,
                    start,
                    end: start,
                    inlined: vec![],
                    calls: vec![],
                    bare: 0,
                    clauses: c.requires.len() + c.ensures.len() + c.spec.len(),
                };
                match db.fns.get(&c.key) {
                    None => {
                        info.status = "absent".into();
                        let n = c.key.rsplit("::").next().unwrap_or("");
                        let near: Vec<&str> = db.fns.keys().filter(|k| k.rsplit("::").next() == Some(n)).take(3).map(|k| k.as_str()).collect();
                        info.reason = format!("no such function in the source (of that name: {})", near.join(", "));
                    }
                    Some(f) => {
                        info.file = f.file.clone();
                        info.line = f.line;
                        let dup = db.dups.contains(&c.key);
                        let mut forced = if assume.contains(&c.key) {
                            Some("the verifier does not accept the body".to_string())
                        } else if c.external {
                            Some("external".to_string())
                        } else {
                            None
                        };
                        if dup {
                            forced = Some("more than one function of this name".into());
                        }
                        match emit_fn(&db, &known, f, &c, forced.is_some()) {
                            Ok((t, ds)) => {
                                out.push_str(&t);
                                info.inlined = ds.0;
                                info.calls = ds.1;
                                info.bare = ds.2;
                                if let Some(r) = forced {
                                    info.status = if c.external { "external" } else { "assumed" }.into();
                                    info.reason = r;
                                }
                            }
                            Err(e) => match emit_fn(&db, &known, f, &c, true) {
                                Ok((t, _)) => {
                                    out.push_str(&t);
                                    info.status = "assumed".into();
                                    info.reason = e;
                                }
                                Err(e2) => {
                                    info.status = "absent".into();
                                    info.reason = e2;
                                }
                            },
                        }
                    }
                }
                info.end = out.matches('\n').count();
                infos.push(info);
            }
            o => panic!("directive {o}"),
        }
    }
    // methods of a trait implementation under contract that have no contract themselves (overridden defaults)
    let mut more: Vec<Info> = vec![];
    for (key, f) in &db.fns {
        let Some((head, _)) = key.split_once(">::") else { continue };
        if !key.starts_with('<') || ignored.contains(key) || infos.iter().any(|i| &i.key == key) {
            continue;
        }
        let mut props: Vec<String> = vec![];
        for i in infos.iter().filter(|i| i.key.split_once(">::").map(|x| x.0) == Some(head)) {
            for p in &i.props {
                if !props.contains(p) {
                    props.push(p.clone());
                }
            }
        }
        if !props.is_empty() {
            more.push(Info {
                key: key.clone(),
                props,
                status: "assumed".into(),
                reason: "a method without a contract in a trait implementation under contract".into(),
                file: f.file.clone(),
                line: f.line,
                start: 0,
                end: 0,
                inlined: vec![],
                calls: vec![],
                bare: 0,
                clauses: 0,
            });
        }
    }
    infos.extend(more);
    if std::env::var("VX_LIST").is_ok() {
        for (key, f) in &db.fns {
            if !infos.iter().any(|i| &i.key == key || i.inlined.contains(key)) {
                println!("{key} {}:{}", f.file, f.line);
            }
        }
    }
    std::fs::write(&pos[1], &out).unwrap();
    let mut j = String::from("{\"fns\":[\n");
    for (k, f) in infos.iter().enumerate() {
        j.push_str(&format!(
            "{{\"key\":{},\"props\":[{}],\"status\":{},\"reason\":{},\"file\":{},\"line\":{},\"start\":{},\"end\":{},\"inlined\":[{}],\"calls\":[{}],\"bare\":{},\"clauses\":{}}}{}\n",
            js(&f.key),
            f.props.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
            js(&f.status),
            js(&f.reason),
            js(&f.file),
            f.line,
            f.start,
            f.end,
            f.inlined.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
            f.calls.iter().map(|p| js(p)).collect::<Vec<_>>().join(","),
            f.bare,
            f.clauses,
            if k + 1 == infos.len() { "" } else { "," }
        ));
    }
    j.push_str(&format!("],\"problems\":[{}]}}\n", problems.iter().map(|p| js(p)).collect::<Vec<_>>().join(",")));
    std::fs::write(&pos[2], j).unwrap();
}

fn key_of(l: &str) -> String {
    // the key may contain spaces: `<A as B>::c props=..`
    let rest = l.split_once(char::is_whitespace).unwrap().1;
    let mut words = vec![];
    for w in rest.split_whitespace() {
        if w.contains('=') {
            break;
        }
        words.push(w);
    }
    words.join(" ")
}

fn pub_fields(f: &Fields) -> String {
    match f {
        Fields::Unit => String::new(),
        Fields::Unnamed(u) => format!(
            "({})",
            u.unnamed.iter().map(|f| format!("pub {}", fix_ty(&f.ty, &[]))).collect::<Vec<_>>().join(", ")
        ),
        Fields::Named(n) => format!(
            "{{ {} }}",
            n.named
                .iter()
                .map(|f| format!("pub {}: {}", f.ident.as_ref().unwrap(), fix_ty(&f.ty, &[])))
                .collect::<Vec<_>>()
                .join(", ")
        ),
    }
}

fn emit_type(db: &Db, name: &str) -> std::result::Result<String, String> {
    if let Some((s, _)) = db.structs.get(name) {
        let g = &s.generics;
        let g = g.to_token_stream();
        let semi = if matches!(s.fields, Fields::Named(_)) { "" } else { ";" };
        return Ok(format!("pub struct {name}{g} {}{semi}\n", pub_fields(&s.fields)));
    }
    if let Some((e, _)) = db.enums.get(name) {
        let g = e.generics.to_token_stream();
        let vs: Vec<String> = e
            .variants
            .iter()
            .map(|v| {
                let f = match &v.fields {
                    Fields::Unit => String::new(),
                    Fields::Unnamed(u) => format!("({})", u.unnamed.iter().map(|f| fix_ty(&f.ty, &[]).to_string()).collect::<Vec<_>>().join(", ")),
                    Fields::Named(n) => format!(
                        "{{ {} }}",
                        n.named
                            .iter()
                            .map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), fix_ty(&f.ty, &[])))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                };
                format!("{}{f}", v.ident)
            })
            .collect();
        return Ok(format!("pub enum {name}{g} {{ {} }}\n", vs.join(", ")));
    }
    Err(format!("type {name} not found"))
}

/// Stand-ins for derived impls, with the meaning `derive` gives them.
fn emit_derive(db: &Db, name: &str, spec: &str) -> std::result::Result<String, String> {
    // `Trait=spec_fn` gives the meaning of the derived function
    let (tr, by) = match spec.split_once('=') {
        Some((t, b)) => (t, Some(b)),
        None => (spec, None),
    };
    let (attrs, generics, default_variant, fields) = if let Some((s, _)) = db.structs.get(name) {
        (s.attrs.clone(), s.generics.clone(), None, Some(s.fields.clone()))
    } else if let Some((e, _)) = db.enums.get(name) {
        let d = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.to_string());
        (e.attrs.clone(), e.generics.clone(), d, None)
    } else {
        return Err(format!("type {name} not found"));
    };
    if !derives(&attrs).iter().any(|d| d == tr) {
        return Err(format!("{name} does not derive {tr}"));
    }
    let (ig, tg, _) = generics.split_for_impl();
    let (ig, tg) = (ig.to_token_stream(), tg.to_token_stream());
    Ok(match tr {
        "Clone" => format!(
            "impl {ig} Clone for {name} {tg} {{\n  #[verifier::external_body]\n  fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n"
        ),
        "Copy" => format!("impl {ig} Copy for {name} {tg} {{}}\n"),
        "Default" => {
            let v = match (&default_variant, &fields) {
                (Some(v), _) => format!("{name}::{v}"),
                (None, Some(Fields::Unnamed(u))) => format!("{name}({})", u.unnamed.iter().map(|_| "VxDefault::vx_default()").collect::<Vec<_>>().join(", ")),
                (None, Some(Fields::Named(u))) => format!(
                    "{name} {{ {} }}",
                    u.named.iter().map(|f| format!("{}: VxDefault::vx_default()", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")
                ),
                _ => return Err(format!("Default of {name}")),
            };
            format!("impl {ig} VxDefault for {name} {tg} {{\n  open spec fn default_post(r: Self) -> bool {{ {name}_default(r) }}\n  fn vx_default() -> (r: Self) {{ {v} }}\n}}\n")
        }
        "PartialOrd" => format!(
            "impl {ig} {name} {tg} {{\n  #[verifier::external_body]\n  pub fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == {}(*self, *o) {{ unimplemented!() }}\n}}\n",
            by.ok_or("derived PartialOrd without a meaning")?
        ),
        "PartialEq" if by.is_some() => format!(
            "impl {ig} VxEqTo<{name} {tg}> for {name} {tg} {{\n  open spec fn eqv(&self, o: &Self) -> bool {{ {}(*self, *o) }}\n  #[verifier::external_body]\n  fn vx_eq_to(&self, o: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\n",
            by.unwrap()
        ),
        "PartialEq" => format!(
            "impl {ig} VxEqTo<{name} {tg}> for {name} {tg} {{\n  open spec fn eqv(&self, o: &Self) -> bool {{ *self == *o }}\n  #[verifier::external_body]\n  fn vx_eq_to(&self, o: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\n"
        ),
        o => return Err(format!("derive {o}")),
    })
}

fn subst_ty(t: &dyn ToTokens, name: &str, by: &Type) -> proc_macro2::TokenStream {
    fn go(t: proc_macro2::TokenStream, name: &str, by: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::TokenTree as T;
        t.into_iter()
            .flat_map(|x| match x {
                T::Ident(i) if i == name => by.clone(),
                T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), name, by))).into(),
                x => x.into(),
            })
            .collect()
    }
    go(t.to_token_stream(), name, &by.to_token_stream())
}

/// Gives type parameters of an impl or function a type.
fn instantiate(f: &FnItem, inst: &[String]) -> std::result::Result<FnItem, String> {
    let mut f = f.clone();
    for l in inst {
        let (name, ty) = l.split_once(' ').ok_or("inst")?;
        let by: Type = syn::parse_str(ty).map_err(|e| e.to_string())?;
        let e = |x: syn::Error| x.to_string();
        if let Some((t, assoc)) = name.split_once("::") {
            // an associated type of a type parameter (given before the parameter itself)
            struct V<'a>(&'a str, &'a str, &'a Type);
            impl syn::visit_mut::VisitMut for V<'_> {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::Path(p) = t {
                        let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if s.len() == 2 && s[0] == self.0 && s[1] == self.1 {
                            *t = self.2.clone();
                            return;
                        }
                    }
                    syn::visit_mut::visit_type_mut(self, t);
                }
            }
            syn::visit_mut::VisitMut::visit_return_type_mut(&mut V(t, assoc, &by), &mut f.sig.output);
            continue;
        }
        let drop = |g: &Generics| -> (Generics, bool) {
            let mut g = g.clone();
            let k = g.params.len();
            g.params = g.params.into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == name)).collect();
            let hit = g.params.len() < k;
            if hit {
                g.where_clause = None;
                if ty.contains("'vx") && !g.lifetimes().any(|l| l.lifetime.ident == "vx") {
                    g.params.insert(0, syn::parse_str("'vx").unwrap());
                }
            }
            (g, hit)
        };
        let (g, h1) = drop(&f.generics);
        f.generics = g;
        let (g, h2) = drop(&f.sig.generics);
        f.sig.generics = g;
        if !h1 && !h2 {
            return Err(format!("no type parameter {name}"));
        }
        if let Some(t) = &f.self_ty {
            f.self_ty = Some(syn::parse2(subst_ty(t, name, &by)).map_err(e)?);
        }
        if let Some(t) = &f.trait_ {
            f.trait_ = Some(syn::parse2(subst_ty(t, name, &by)).map_err(e)?);
        }
        let ins = f.sig.inputs.iter().map(|a| syn::parse2::<FnArg>(subst_ty(a, name, &by))).collect::<syn::Result<syn::punctuated::Punctuated<FnArg, Token![,]>>>().map_err(e)?;
        f.sig.inputs = ins;
        if let ReturnType::Type(_, t) = &mut f.sig.output {
            **t = syn::parse2(subst_ty(t, name, &by)).map_err(e)?;
        }
    }
    // parameters of the impl that its type does not mention belong to the function
    if let Some(st) = &f.self_ty {
        let tr = f.trait_.as_ref().map(|t| t.segments.last().unwrap().ident.to_string());
        if !matches!(tr.as_deref(), Some("From" | "TryFrom")) {
            let st = st.to_token_stream().to_string();
            let words: Vec<&str> = st.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
            let (keep, mv): (Vec<GenericParam>, Vec<GenericParam>) =
                f.generics.params.clone().into_iter().partition(|p| !matches!(p, GenericParam::Type(t) if !words.contains(&t.ident.to_string().as_str())));
            if !mv.is_empty() {
                f.generics.params = keep.into_iter().collect();
                f.generics.where_clause = None;
                for p in mv {
                    if let GenericParam::Type(mut t) = p {
                        t.bounds = Default::default();
                        f.sig.generics.params.push(GenericParam::Type(t));
                    }
                }
            }
        }
    }
    Ok(f)
}

fn emit_fn(db: &Db, known: &Known, f: &FnItem, c: &Contract, external: bool) -> std::result::Result<(String, (Vec<String>, Vec<String>, usize)), String> {
    let inst = instantiate(f, &c.inst)?;
    let f = &inst;
    let gens: Vec<String> = f
        .generics
        .type_params()
        .chain(f.sig.generics.type_params())
        .map(|p| p.ident.to_string())
        .collect();
    let mut cx = ty::TyCx { db, self_ty: None, assoc: f.assoc.clone(), generics: gens.clone() };
    cx.self_ty = f.self_ty.as_ref().map(|t| cx.ty(t));
    let ret = match &f.sig.output {
        ReturnType::Default => ty::Ty::Tup(vec![]),
        ReturnType::Type(_, t) => cx.ty(t),
    };
    let self_ty = cx.self_ty.clone();
    let mut ds = Ds {
        db,
        known,
        env: vec![],
        self_ty: self_ty.clone(),
        self_tokens: f.self_ty.clone(),
        assoc: f.assoc.clone(),
        generics: gens,
        ret: ret.clone(),
        fresh: 0,
        loops: c.loops.clone(),
        used_loops: vec![false; c.loops.len()],
        inlined: 0,
        stack: vec![c.key.clone()],
        inlined_fns: vec![],
        loop_depth: 0,
        slot_outer: 0,
        self_name: None,
        encl: vec![],
        calls: HashSet::new(),
        bare_loops: 0,
        lits: Default::default(),
    };
    // parameters
    let mut params = vec![];
    let mut shadows = String::new();
    let mut by_mut: Vec<String> = vec![];
    let mut names = vec![];
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    params.push("self".to_string());
                    shadows.push_str("  let mut vx_self = self;\n");
                    ds.self_name = Some(quote::format_ident!("vx_self"));
                    continue;
                }
                params.push(r.to_token_stream().to_string());
            }
            FnArg::Typed(t) => {
                let Pat::Ident(p) = &*t.pat else {
                    // a destructured parameter
                    let nm = format!("vx_arg{}", names.len() + 1);
                    let pt = cx.ty(&t.ty);
                    ds.bind_pat(&t.pat, &pt)?;
                    params.push(format!("{nm}: {}", fix_ty(&t.ty, &f.assoc)));
                    shadows.push_str(&format!("  let {} = {nm};\n", t.pat.to_token_stream()));
                    names.push(nm);
                    continue;
                };
                let nm = p.ident.to_string();
                ds.bind_name(&nm, cx.ty(&t.ty));
                if p.mutability.is_some() {
                    shadows.push_str(&format!("  let mut {nm} = {nm};\n"));
                }
                if let Type::Reference(r) = &*t.ty {
                    if r.mutability.is_some() {
                        by_mut.push(nm.clone());
                    }
                }
                params.push(format!("{nm}: {}", fix_ty(&t.ty, &f.assoc)));
                names.push(nm);
            }
        }
    }
    let fnsub = |s: &str, ghost: bool| -> std::result::Result<String, String> {
        let mut s = s.replace("$self", "self").replace("$r", "vx_r");
        for (k, nm) in names.iter().enumerate().rev() {
            let by = if ghost && !by_mut.contains(nm) { format!("vx_p{}", k + 1) } else { nm.clone() };
            s = s.replace(&format!("${}", k + 1), &by);
        }
        let cs: Vec<char> = s.chars().collect();
        for w in cs.windows(2) {
            if w[0] == '$' && w[1].is_ascii_digit() {
                return Err(format!("signature of {} changed", c.key));
            }
        }
        Ok(s)
    };
    for l in &mut ds.loops {
        for v in [&mut l.inv, &mut l.ens, &mut l.dec, &mut l.before, &mut l.body, &mut l.bodyend, &mut l.after] {
            for t in v.iter_mut() {
                *t = fnsub(t, true)?;
            }
        }
    }
    let body = if external {
        String::new()
    } else {
        let (t, _) = ds.block(&f.block, &ret)?;
        pp::print(&t)
    };
    let mut o = String::new();
    // header
    let name = f.sig.ident.to_string();
    let tr = f.trait_.as_ref().map(|t| t.segments.last().unwrap().ident.to_string());
    let mut fname = name.clone();
    let mut impl_head = None;
    let mut vis = "pub ";
    if let Some(st) = &f.self_ty {
        let st = fix_ty(st, &[]).to_string();
        let mut g = f.generics.clone();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                let b = fix_bounds(&t.bounds);
                t.bounds = b;
            }
        }
        let wc = g.where_clause.take();
        let g = g.to_token_stream().to_string();
        let wc = match wc {
            Some(w) => fix_where(&w),
            None => String::new(),
        };
        let head = match tr.as_deref() {
            Some("From") | Some("TryFrom") => {
                let PathArguments::AngleBracketed(a) = &f.trait_.as_ref().unwrap().segments.last().unwrap().arguments else {
                    return Err("trait arguments".into());
                };
                let GenericArgument::Type(arg) = a.args.last().unwrap() else { return Err("trait arguments".into()) };
                let arg = fix_ty(arg, &[]).to_string();
                let t = tr.as_deref().unwrap();
                fname = format!("vx_{name}");
                vis = "";
                let err = f.assoc.iter().find(|a| a.0 == "Error").map(|a| format!("  type Error = {};\n", fix_ty(&a.1, &[]))).unwrap_or_default();
                format!("impl {g} Vx{t}<{arg}> for {st} {wc} {{\n{err}")
            }
            Some("PartialEq") | Some("PartialOrd") if c.mode == "trait" => {
                vis = "";
                let t = f.trait_.as_ref().unwrap().segments.last().unwrap();
                format!("impl {g} {} for {st} {wc} {{\n", quote!(#t))
            }
            _ => {
                // several implementations of a generic trait for one type
                if let Some(n) = c.mode.strip_prefix("as:") {
                    fname = n.to_string();
                }
                format!("impl {g} {st} {wc} {{\n")
            }
        };
        impl_head = Some(head);
    }
    if let Some(h) = &impl_head {
        o.push_str(h);
    }
    for s in &c.spec {
        o.push_str(&format!("  {s}\n"));
    }
    for a in &c.attr {
        o.push_str(&format!("  {a}\n"));
    }
    if external {
        o.push_str("  #[verifier::external_body]\n");
    } else if body.contains("while ") {
        o.push_str("  #[verifier::loop_isolation(false)]\n");
    }
    let mut g = f.sig.generics.clone();
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let b = fix_bounds(&t.bounds);
            t.bounds = b;
        }
    }
    let wc = g.where_clause.take().map(|w| fix_where(&w)).unwrap_or_default();
    let g = g.to_token_stream().to_string();
    let rt = match &f.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!("-> (vx_r: {})", fix_ty(t, &f.assoc)),
    };
    o.push_str(&format!("  {vis}fn {fname} {g} ({}) {rt} {wc}\n", params.join(", ")));
    for (kw, v) in [("requires", &c.requires), ("ensures", &c.ensures), ("decreases", &c.decreases)] {
        if !v.is_empty() {
            o.push_str(&format!("    {kw}\n"));
            for l in v {
                o.push_str(&format!("      {}\n", fnsub(l, false)?));
            }
        }
    }
    o.push_str("  {\n");
    if external {
        o.push_str("    unimplemented!()\n");
    } else {
        let all: String = c
            .loops
            .iter()
            .flat_map(|l| [&l.inv, &l.ens, &l.dec, &l.before, &l.body, &l.bodyend, &l.after])
            .flatten()
            .chain(&c.exit)
            .chain(&c.entry)
            .cloned()
            .collect::<Vec<_>>()
            .join("\n");
        for (k, nm) in names.iter().enumerate() {
            if all.contains(&format!("${}", k + 1)) && !by_mut.contains(nm) {
                o.push_str(&format!("  let ghost vx_p{} = {nm};\n", k + 1));
            }
        }
        for l in &ds.lits {
            let cs: Vec<String> = l.chars().map(|c| format!("{c:?}")).collect();
            let q = proc_macro2::Literal::string(l).to_string();
            let sq = if cs.is_empty() { "Seq::<char>::empty()".to_string() } else { format!("seq![{}]", cs.join(", ")) };
            o.push_str(&format!("  proof {{ reveal_strlit({q}); assert({q}@ =~= {sq}); }}\n"));
        }
        o.push_str(&shadows);
        for e in &c.entry {
            o.push_str(&format!("  {}\n", fnsub(e, true)?));
        }
        if c.exit.is_empty() {
            o.push_str(&format!("  {body}\n"));
        } else {
            o.push_str(&format!("  let vx_r = {{\n  {body}\n  }};\n"));
            for e in &c.exit {
                o.push_str(&format!("  {}\n", fnsub(e, true)?));
            }
            o.push_str("  vx_r\n");
        }
    }
    o.push_str("  }\n");
    if impl_head.is_some() {
        o.push_str("}\n");
    }
    let mut calls: Vec<String> = ds.calls.into_iter().collect();
    calls.sort();
    Ok((o, (ds.inlined_fns, calls, ds.bare_loops)))
}

fn fix_bounds(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    b.iter()
        .map(|x| match x {
            TypeParamBound::Trait(t) => {
                let mut t = t.clone();
                let l = t.path.segments.last_mut().unwrap();
                if l.ident == "Into" {
                    l.ident = quote::format_ident!("VxInto");
                }
                TypeParamBound::Trait(t)
            }
            x => x.clone(),
        })
        .collect()
}

fn fix_where(w: &WhereClause) -> String {
    let mut w = w.clone();
    for p in w.predicates.iter_mut() {
        if let WherePredicate::Type(t) = p {
            t.bounds = fix_bounds(&t.bounds);
        }
    }
    w.to_token_stream().to_string()
}
