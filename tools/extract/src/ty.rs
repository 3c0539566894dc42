//! Simplified types: references, lifetimes and boxes are dropped.
use crate::load::Db;
use syn::*;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Unk,
    N(String, Vec<Ty>),
    Tup(Vec<Ty>),
}

pub fn n(s: &str) -> Ty {
    Ty::N(s.into(), vec![])
}
pub fn n1(s: &str, t: Ty) -> Ty {
    Ty::N(s.into(), vec![t])
}
pub fn n2(s: &str, t: Ty, u: Ty) -> Ty {
    Ty::N(s.into(), vec![t, u])
}

impl Ty {
    pub fn head(&self) -> &str {
        match self {
            Ty::N(s, _) => s,
            Ty::Tup(_) => "()",
            Ty::Unk => "?",
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::N(_, a) => a.get(i).cloned().unwrap_or(Ty::Unk),
            Ty::Tup(a) => a.get(i).cloned().unwrap_or(Ty::Unk),
            Ty::Unk => Ty::Unk,
        }
    }
    pub fn is(&self, s: &str) -> bool {
        self.head() == s
    }
    pub fn name(&self) -> String {
        match self {
            Ty::N(s, a) if a.iter().any(|t| *t != Ty::Unk) => {
                format!("{s}<{}>", a.iter().map(|t| t.name()).collect::<Vec<_>>().join(","))
            }
            Ty::N(s, _) => s.clone(),
            Ty::Tup(a) => format!("({})", a.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")),
            Ty::Unk => "?".into(),
        }
    }
    /// The more informative of two types.
    pub fn or(&self, o: &Ty) -> Ty {
        match (self, o) {
            (Ty::Unk, t) => t.clone(),
            (Ty::N(a, x), Ty::N(b, y)) if a == b => {
                let mut out = vec![];
                for i in 0..x.len().max(y.len()) {
                    out.push(match (x.get(i), y.get(i)) {
                        (Some(p), Some(q)) => p.or(q),
                        (Some(p), None) => p.clone(),
                        (None, Some(q)) => q.clone(),
                        _ => Ty::Unk,
                    });
                }
                Ty::N(a.clone(), out)
            }
            (t, _) => t.clone(),
        }
    }
    pub fn is_int(&self) -> bool {
        matches!(
            self.head(),
            "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize"
        )
    }
}

pub struct TyCx<'a> {
    pub db: &'a Db,
    pub self_ty: Option<Ty>,
    pub assoc: Vec<(String, Type)>,
    pub generics: Vec<String>,
}

impl TyCx<'_> {
    pub fn ty(&self, t: &Type) -> Ty {
        match t {
            Type::Reference(r) => self.ty(&r.elem),
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::Slice(s) => n1("Vec", self.ty(&s.elem)),
            Type::Array(s) => n1("Vec", self.ty(&s.elem)),
            Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|t| self.ty(t)).collect()),
            Type::Path(p) => {
                if p.qself.is_some() {
                    return Ty::Unk;
                }
                self.path(&p.path)
            }
            _ => Ty::Unk,
        }
    }
    pub fn path(&self, p: &Path) -> Ty {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "Self" {
            if segs.len() == 1 {
                return self.self_ty.clone().unwrap_or(Ty::Unk);
            }
            if let Some((_, t)) = self.assoc.iter().find(|a| a.0 == segs[1]) {
                return self.ty(t);
            }
            return Ty::Unk;
        }
        let last = p.segments.last().unwrap();
        let name = last.ident.to_string();
        if segs.len() == 1 && self.generics.contains(&name) {
            return Ty::Unk;
        }
        if segs.len() == 2 && segs[0].starts_with("Vx") {
            return n(&segs.concat());
        }
        let mut args = vec![];
        if let PathArguments::AngleBracketed(a) = &last.arguments {
            for g in &a.args {
                if let GenericArgument::Type(t) = g {
                    args.push(self.ty(t));
                }
            }
        }
        if name == "Box" && args.len() == 1 {
            return args.remove(0);
        }
        if let Some(al) = self.db.aliases.get(&name) {
            if name != "Evaluator" && name != "Validator" {
                let ps: Vec<String> = al
                    .generics
                    .type_params()
                    .map(|p| p.ident.to_string())
                    .collect();
                let mut t = TyCx { db: self.db, self_ty: None, assoc: vec![], generics: ps.clone() }.ty(&al.ty);
                if ps.len() == 1 && args.len() == 1 {
                    t = fill(&t, &args[0]);
                }
                return t;
            }
        }
        if name == "IResult" && args.len() >= 2 {
            // nom: `Result<(I, O), nom::Err<E>>`
            let e = args.get(2).cloned().unwrap_or(Ty::Unk);
            return n2("Result", Ty::Tup(vec![args[0].clone(), args[1].clone()]), n1("Nerr", e));
        }
        if name == "Result" && args.is_empty() {
            return n2("Result", Ty::Tup(vec![]), n("VxFmtError"));
        }
        let name = match name.as_str() {
            "str" => "String".to_string(),
            _ => name,
        };
        Ty::N(name, args)
    }
}

fn fill(t: &Ty, by: &Ty) -> Ty {
    match t {
        Ty::Unk => by.clone(),
        Ty::N(s, a) => Ty::N(s.clone(), a.iter().map(|x| fill(x, by)).collect()),
        Ty::Tup(a) => Ty::Tup(a.iter().map(|x| fill(x, by)).collect()),
    }
}
