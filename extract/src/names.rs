//! Contracts speak of private types, fields, functions and local variables by name. When one of them was renamed, the code
//! is renamed back before it is used: a renaming to a name that occurs nowhere else changes nothing.
//! `contracts/names.txt` records the names the contracts were written against.
use crate::norm::{local_names, rename_local};
use crate::*;
use proc_macro2::{Group, Ident as PIdent};
use std::collections::HashMap;

#[derive(Default, Clone)]
pub struct Renames {
    pub global: HashMap<String, String>,
    pub per_file: HashMap<String, HashMap<String, String>>,
}

pub fn apply(ts: TokenStream, file: &str, r: &Renames) -> TokenStream {
    fn go(ts: TokenStream, m: &dyn Fn(&str) -> Option<String>) -> TokenStream {
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) => match m(&i.to_string()) {
                    Some(n) => TokenTree::Ident(PIdent::new(&n, i.span())),
                    None => TokenTree::Ident(i),
                },
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), go(g.stream(), m));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            })
            .collect()
    }
    if r.global.is_empty() && !r.per_file.contains_key(file) {
        return ts;
    }
    let pf = r.per_file.get(file);
    go(ts, &|x| pf.and_then(|p| p.get(x)).or_else(|| r.global.get(x)).cloned())
}

pub fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

#[derive(Default)]
pub struct Table {
    /// (module, name) -> (kind, members: name, type)
    types: BTreeMap<(String, String), (String, Vec<(String, String)>)>,
    /// key -> signature without names
    fns: BTreeMap<String, String>,
    locals: BTreeMap<String, Vec<String>>,
    /// (module, name, full path)
    pub uses: BTreeSet<(String, String, String)>,
    /// file -> identifiers
    idents: BTreeMap<String, BTreeSet<String>>,
}

fn squash<T: ToTokens>(t: &T) -> String {
    s(t).replace(' ', "")
}

/// a signature without names
pub fn shape(sig: &Signature) -> String {
    let ins: Vec<String> = sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => format!("{}self", if r.reference.is_some() { if r.mutability.is_some() { "&mut" } else { "&" } } else { "" }),
            FnArg::Typed(t) => squash(&t.ty),
        })
        .collect();
    format!("({}){}", ins.join(","), squash(&sig.output))
}

pub fn table(c: &Crate, files: &BTreeMap<String, BTreeSet<String>>) -> Table {
    let mut t = Table { idents: files.clone(), ..Default::default() };
    for (m, md) in &c.modules {
        if md.generated {
            continue;
        }
        for it in &md.types {
            match it {
                Item::Struct(x) => {
                    let f = x.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()), squash(&f.ty)));
                    t.types.insert((m.clone(), x.ident.to_string()), ("struct".into(), f.collect()));
                }
                Item::Enum(x) => {
                    let f = x.variants.iter().map(|v| (v.ident.to_string(), squash(&v.fields)));
                    t.types.insert((m.clone(), x.ident.to_string()), ("enum".into(), f.collect()));
                }
                _ => {}
            }
        }
    }
    for (m, names) in scopes(c) {
        for (n, p) in names {
            let own = if m.is_empty() { format!("crate::{n}") } else { format!("crate::{m}::{n}") };
            if p != own && p != n {
                t.uses.insert((m.clone(), n, p));
            }
        }
    }
    for f in &c.fns {
        if f.generated {
            continue;
        }
        t.fns.insert(f.key.clone(), shape(&f.sig));
        t.locals.insert(f.key.clone(), local_names(&f.body));
    }
    t
}

impl Table {
    /// functions outside impls: key, shape
    pub fn free_fns(&self) -> Vec<(String, String)> {
        let free = |k: &str| k.rsplit_once("::").is_none_or(|(p, _)| p.rsplit("::").next().unwrap().starts_with(|c: char| c.is_lowercase()));
        self.fns.iter().filter(|(k, _)| free(k)).map(|(k, g)| (k.clone(), g.clone())).collect()
    }
    pub fn write(&self) -> String {
        let mut o = String::new();
        for ((m, n), (k, f)) in &self.types {
            let fs: Vec<String> = f.iter().map(|(a, b)| format!("{a}\u{1}{b}")).collect();
            o.push_str(&format!("type\t{m}\t{n}\t{k}\t{}\n", fs.join("\u{2}")));
        }
        for (k, g) in &self.fns {
            o.push_str(&format!("fn\t{k}\t{g}\t{}\n", self.locals[k].join(" ")));
        }
        for (m, n, p) in &self.uses {
            o.push_str(&format!("use\t{m}\t{n}\t{p}\n"));
        }
        for (f, i) in &self.idents {
            o.push_str(&format!("idents\t{f}\t{}\n", i.iter().cloned().collect::<Vec<_>>().join(" ")));
        }
        o
    }
    pub fn read(text: &str) -> Table {
        let mut t = Table::default();
        let words = |x: &str| -> Vec<String> { x.split(' ').filter(|y| !y.is_empty()).map(|y| y.to_string()).collect() };
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "type" => {
                    let f = p[4].split('\u{2}').filter(|x| !x.is_empty()).map(|x| {
                        let (a, b) = x.split_once('\u{1}').unwrap();
                        (a.to_string(), b.to_string())
                    });
                    t.types.insert((p[1].into(), p[2].into()), (p[3].into(), f.collect()));
                }
                "fn" => {
                    t.fns.insert(p[1].into(), p[2].into());
                    t.locals.insert(p[1].into(), words(p[3]));
                }
                "use" => {
                    t.uses.insert((p[1].into(), p[2].into(), p[3].into()));
                }
                "idents" => {
                    t.idents.insert(p[1].into(), words(p[2]).into_iter().collect());
                }
                _ => {}
            }
        }
        t
    }
    fn any(&self, name: &str) -> bool {
        self.idents.values().any(|s| s.contains(name))
    }
}

/// what to rename so that `cur` looks more like `base`
pub fn find(base: &Table, cur: &Table, module_file: &BTreeMap<String, String>, r: &mut Renames) -> bool {
    let mut found = false;
    let fresh = |new: &str, old: &str| !base.any(new) && !cur.any(old);
    // types
    for ((m, old), (k, f)) in &base.types {
        if cur.types.contains_key(&(m.clone(), old.clone())) {
            continue;
        }
        let cands: Vec<&String> = cur
            .types
            .iter()
            .filter(|((m2, n2), (k2, f2))| {
                m2 == m && k2 == k && !base.types.contains_key(&(m.clone(), n2.clone())) && f2.len() == f.len() && {
                    let nf: Vec<(String, String)> = f2.iter().map(|(a, b)| (a.clone(), word_replace(b, n2, old))).collect();
                    nf == *f || f2.iter().map(|x| &x.0).eq(f.iter().map(|x| &x.0))
                }
            })
            .map(|((_, n2), _)| n2)
            .collect();
        if cands.len() == 1 && fresh(cands[0], old) {
            r.global.insert(cands[0].clone(), old.clone());
            found = true;
        }
    }
    if found {
        return true;
    }
    // fields and variants
    for ((m, n), (k, f)) in &base.types {
        let Some((k2, f2)) = cur.types.get(&(m.clone(), n.clone())) else { continue };
        if k != k2 || f == f2 {
            continue;
        }
        let Some(file) = module_file.get(m) else { continue };
        let gone: Vec<&(String, String)> = f.iter().filter(|x| !f2.iter().any(|y| y.0 == x.0)).collect();
        let new: Vec<&(String, String)> = f2.iter().filter(|x| !f.iter().any(|y| y.0 == x.0)).collect();
        if gone.len() != new.len() {
            continue;
        }
        let (bi, ci) = (base.idents.get(file), cur.idents.get(file));
        for (g, w) in gone.iter().zip(&new) {
            if g.1 == w.1 && bi.is_some_and(|x| !x.contains(&w.0)) && ci.is_some_and(|x| !x.contains(&g.0)) {
                r.per_file.entry(file.clone()).or_default().insert(w.0.clone(), g.0.clone());
                found = true;
            }
        }
    }
    if found {
        return true;
    }
    // functions
    for (key, g) in &base.fns {
        if cur.fns.contains_key(key) {
            continue;
        }
        let (pre, old) = key.rsplit_once("::").unwrap_or(("", key));
        let cands: Vec<&str> = cur
            .fns
            .iter()
            .filter(|(k2, g2)| !base.fns.contains_key(*k2) && *g2 == g && k2.rsplit_once("::").unwrap_or(("", k2)).0 == pre)
            .map(|(k2, _)| k2.rsplit_once("::").unwrap_or(("", k2)).1)
            .collect();
        if cands.len() == 1 && fresh(cands[0], old) {
            r.global.insert(cands[0].to_string(), old.to_string());
            found = true;
        }
    }
    found
}

/// local variables: (new, old) pairs
pub fn locals(base: &[String], body: &Block, wanted: &str) -> Vec<(String, String)> {
    let cur = local_names(body);
    if base == &cur[..] {
        return vec![];
    }
    // longest common subsequence; the gaps pair up in order
    let (n, m) = (base.len(), cur.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if base[i] == cur[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut pairs: Vec<(String, String)> = vec![];
    while i < n || j < m {
        let (mut gi, mut gj) = (vec![], vec![]);
        while i < n || j < m {
            if i < n && j < m && base[i] == cur[j] {
                break;
            }
            if i < n && (j >= m || l[i + 1][j] >= l[i][j + 1]) {
                gi.push(base[i].clone());
                i += 1;
            } else {
                gj.push(cur[j].clone());
                j += 1;
            }
        }
        if gi.len() == gj.len() {
            pairs.extend(gj.into_iter().zip(gi));
        }
        if i < n && j < m {
            i += 1;
            j += 1;
        }
    }
    let mut used = BTreeSet::new();
    idents(body.to_token_stream(), &mut used);
    let mut res: Vec<(String, String)> = vec![];
    for (new, old) in pairs {
        let word = |t: &str| wanted.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == t);
        if new == old || !word(&old) || used.contains(&old) || base.contains(&new) || res.iter().any(|(a, b)| *a == new || *b == old) {
            continue;
        }
        res.push((new, old));
    }
    res
}

pub fn rename_locals(base: &Table, key: &str, body: &mut Block, wanted: &str) -> Vec<(String, String)> {
    let Some(b) = base.locals.get(key) else { return vec![] };
    let r = locals(b, body, wanted);
    for (new, old) in &r {
        rename_local(body, new, old);
    }
    r
}
