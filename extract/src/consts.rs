//! Constants. A name in a pattern may be a constant, not a new variable: those are replaced by their values, as are the string
//! constants and the associated constants wherever they are used (the verifier takes neither).
use crate::*;
use quote::quote;
use std::collections::HashMap;

/// value of a constant, as an expression that means the same everywhere: literals, joined by operators
fn value(e: &Expr, ty: &Type) -> Option<Expr> {
    let prim = match ty {
        Type::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|n| {
            matches!(n.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize")
        }),
        _ => None,
    };
    fn go(e: &Expr, prim: &Option<String>) -> Option<Expr> {
        Some(match e {
            Expr::Lit(l) => match (&l.lit, prim) {
                (Lit::Int(i), Some(t)) if i.suffix().is_empty() => {
                    let i = LitInt::new(&format!("{}{t}", i.base10_digits()), i.span());
                    parse_quote!(#i)
                }
                _ => e.clone(),
            },
            Expr::Paren(p) => go(&p.expr, prim)?,
            Expr::Unary(u) => {
                let (o, x) = (&u.op, go(&u.expr, prim)?);
                parse_quote!((#o #x))
            }
            Expr::Binary(b) => {
                let (o, x, y) = (&b.op, go(&b.left, prim)?, go(&b.right, prim)?);
                parse_quote!((#x #o #y))
            }
            _ => return None,
        })
    }
    go(e, &prim)
}

/// a constant that may stand in a pattern
fn pattern(e: &Expr) -> Option<Pat> {
    let e = match e {
        Expr::Paren(p) => &p.expr,
        e => e,
    };
    let ok = match e {
        Expr::Lit(_) => true,
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && matches!(&*u.expr, Expr::Lit(_)),
        _ => false,
    };
    if !ok {
        return None;
    }
    syn::parse::Parser::parse2(Pat::parse_single, e.to_token_stream()).ok()
}

fn is_str(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)))
}

#[derive(Default, Clone)]
struct Consts {
    /// in scope by their names
    names: HashMap<String, Option<Expr>>,
    /// associated ones: (type, name)
    assoc: HashMap<(String, String), Expr>,
    /// by path: last two segments (module, name)
    paths: HashMap<(String, String), Expr>,
    self_name: String,
}
impl Consts {
    fn of(&self, p: &syn::Path) -> Option<(&Expr, bool)> {
        let n = p.segments.len();
        let last = p.segments[n - 1].ident.to_string();
        if n == 1 {
            return self.names.get(&last).and_then(|v| v.as_ref()).map(|e| (e, is_str(e)));
        }
        let mut pre = p.segments[n - 2].ident.to_string();
        if n == 2 && pre == "Self" {
            pre = self.self_name.clone();
        }
        let k = (pre, last);
        if let Some(e) = self.assoc.get(&k) {
            return Some((e, true));
        }
        self.paths.get(&k).map(|e| (e, is_str(e)))
    }
}
impl VisitMut for Consts {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = self.names.clone();
        for st in &b.stmts {
            if let Stmt::Item(Item::Const(k)) = st {
                self.names.insert(k.ident.to_string(), value(&k.expr, &k.ty));
            }
        }
        visit_mut::visit_block_mut(self, b);
        b.stmts.retain(|st| !matches!(st, Stmt::Item(Item::Const(k)) if is_str(&k.expr)));
        self.names = outer;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some((v, true)) = self.of(&p.path) {
                    *e = v.clone();
                }
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let new = match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {
                let n = i.ident.to_string();
                match self.names.get(&n) {
                    Some(v) => v.as_ref().and_then(pattern).or_else(|| {
                        // a path of one segment, spelled so that it cannot be taken for a variable
                        let id = &i.ident;
                        syn::parse::Parser::parse2(Pat::parse_single, quote!(self::#id)).ok()
                    }),
                    None => None,
                }
            }
            Pat::Path(x) if x.qself.is_none() => self.of(&x.path).and_then(|(v, _)| pattern(v)),
            _ => None,
        };
        if let Some(n) = new {
            *p = n;
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

pub fn substitute(c: &mut Crate) {
    let mut assoc = HashMap::new();
    for (ty, name, e, t) in &c.assoc_consts {
        if let Some(v) = value(e, t) {
            assoc.insert((ty.clone(), name.clone()), v);
        }
    }
    let mut paths: HashMap<(String, String), Expr> = HashMap::new();
    let mut own: HashMap<String, HashMap<String, Option<Expr>>> = HashMap::new();
    for (m, md) in &c.modules {
        if md.generated {
            continue;
        }
        for it in &md.types {
            let (n, e, t) = match it {
                Item::Const(k) => (k.ident.to_string(), &k.expr, &k.ty),
                Item::Static(k) if is_str(&k.expr) => (k.ident.to_string(), &k.expr, &k.ty),
                _ => continue,
            };
            let v = value(e, t);
            if let Some(v) = &v {
                let last = m.rsplit("::").next().unwrap();
                paths.insert((if last.is_empty() { "crate".into() } else { last.to_string() }, n.clone()), v.clone());
            }
            own.entry(m.clone()).or_default().insert(n, v);
        }
    }
    let mut scope = own.clone();
    for (m, md) in &c.modules {
        if md.generated {
            continue;
        }
        for u in &md.uses {
            let mut v = vec![];
            flat(&u.tree, &mut vec![], &mut v);
            for (p, rn) in v {
                if p.len() < 2 || norm::EXTERNAL.contains(&p[0].as_str()) {
                    continue;
                }
                let mut from = p[p.len() - 2].clone();
                if from == "super" || from == "self" || from == "crate" {
                    from = match from.as_str() {
                        "super" => m.rsplit_once("::").map_or("", |x| x.0).to_string(),
                        "self" => m.clone(),
                        _ => String::new(),
                    };
                }
                let Some(mo) = own.keys().find(|k| **k == from || k.ends_with(&format!("::{from}"))) else { continue };
                let last = p.last().unwrap();
                for (n, e) in &own[mo] {
                    if last == "*" || last == n {
                        let n = rn.clone().unwrap_or_else(|| n.clone());
                        scope.entry(m.clone()).or_default().entry(n).or_insert_with(|| e.clone());
                    }
                }
            }
        }
    }
    for f in c.fns.iter_mut() {
        if f.generated {
            continue;
        }
        let mut k = Consts {
            names: scope.get(&f.module).cloned().unwrap_or_default(),
            assoc: assoc.clone(),
            paths: paths.clone(),
            self_name: f.imp.map(|i| c.impls[i].self_name.clone()).unwrap_or_default(),
        };
        k.visit_block_mut(&mut f.body);
    }
    // what is used nowhere any more
    let mut gone: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (m, md) in c.modules.iter_mut() {
        if md.generated {
            continue;
        }
        md.types.retain(|it| {
            let n = match it {
                Item::Const(k) if is_str(&k.expr) => k.ident.to_string(),
                Item::Static(k) if is_str(&k.expr) => k.ident.to_string(),
                _ => return true,
            };
            gone.entry(m.rsplit("::").next().unwrap().to_string()).or_default().insert(n);
            false
        });
    }
    c.gone_consts = gone.into_values().flatten().collect();
}
