//! Prints tokens; `vx_inv!("..")` and `vx_raw!("..")` become their text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree as T};

fn lit_text(t: &T) -> Option<String> {
    let T::Group(g) = t else { return None };
    let l: syn::LitStr = syn::parse2(g.stream()).ok()?;
    Some(l.value())
}

pub fn print(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 1);
    s
}

fn ind(out: &mut String, d: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..d {
        out.push_str("  ");
    }
}

fn go(ts: &TokenStream, out: &mut String, d: usize) {
    let v: Vec<T> = ts.clone().into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let T::Ident(id) = &v[i] {
            if id == "vx_raw" && matches!(v.get(i + 1), Some(T::Punct(p)) if p.as_char() == '!') {
                if let Some(t) = v.get(i + 2).and_then(lit_text) {
                    ind(out, d);
                    out.push_str(&t);
                    ind(out, d);
                    i += 3;
                    if matches!(v.get(i), Some(T::Punct(p)) if p.as_char() == ';') {
                        i += 1;
                    }
                    continue;
                }
            }
        }
        match &v[i] {
            T::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let mut inner: Vec<T> = g.stream().into_iter().collect();
                    if inner.len() >= 3 && matches!(&inner[0], T::Ident(i) if i == "vx_inv") {
                        if let Some(t) = lit_text(&inner[2]) {
                            ind(out, d + 1);
                            out.push_str(&t);
                            ind(out, d);
                            let skip = if matches!(inner.get(3), Some(T::Punct(p)) if p.as_char() == ';') { 4 } else { 3 };
                            inner.drain(..skip);
                        }
                    }
                    out.push_str("{");
                    ind(out, d + 1);
                    go(&inner.into_iter().collect(), out, d + 1);
                    ind(out, d);
                    out.push('}');
                    // a newline, unless the expression goes on
                    match v.get(i + 1) {
                        Some(T::Punct(_)) => {}
                        Some(T::Ident(x)) if x == "else" => out.push(' '),
                        None => {}
                        _ => ind(out, d),
                    }
                } else {
                    out.push_str(a);
                    go(&g.stream(), out, d);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(b);
                    if !matches!(v.get(i + 1), Some(T::Punct(p)) if p.as_char() == '.' || p.as_char() == ';' || p.as_char() == ',' || p.as_char() == '?') {
                        out.push(' ');
                    }
                }
            }
            T::Ident(x) => {
                out.push_str(&x.to_string());
                if !matches!(v.get(i + 1), Some(T::Group(g)) if g.delimiter() != Delimiter::Brace)
                    && !matches!(v.get(i + 1), Some(T::Punct(p)) if p.as_char() == '.' || p.as_char() == ';' || p.as_char() == ',')
                    || matches!(x.to_string().as_str(), "match" | "if" | "while" | "return" | "in" | "let")
                {
                    out.push(' ');
                }
            }
            T::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
            T::Punct(p) => {
                let c = p.as_char();
                out.push(c);
                if c == ';' {
                    ind(out, d);
                } else if p.spacing() == Spacing::Alone && !matches!(c, '.' | '&' | '!' | '#') {
                    out.push(' ');
                } else if c == '&' && p.spacing() == Spacing::Alone && matches!(v.get(i + 1), Some(T::Punct(_))) {
                    out.push(' ');
                }
            }
        }
        i += 1;
    }
}
