mod consts;
mod contracts;
mod names;
mod norm;
mod print;

use contracts::*;
use norm::*;
use print::Printer;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct FnRec {
    key: String,
    module: String,
    /// index of the impl this function belongs to
    imp: Option<usize>,
    sig: Signature,
    body: Block,
    trait_name: Option<String>,
    generated: bool,
    file: String,
    line: usize,
}
struct ImplRec {
    module: String,
    generics: Generics,
    self_ty: Type,
    self_name: String,
    trait_name: Option<String>,
    assoc: BTreeMap<String, Type>,
}
#[derive(Default)]
struct Module {
    path: String,
    generated: bool,
    uses: Vec<ItemUse>,
    types: Vec<Item>,
    children: Vec<String>,
}
#[derive(Default)]
struct Crate {
    modules: BTreeMap<String, Module>,
    order: Vec<String>,
    fns: Vec<FnRec>,
    impls: Vec<ImplRec>,
    root_reexports: Vec<ItemUse>,
    renames: names::Renames,
    /// module file -> identifiers in it
    idents: BTreeMap<String, BTreeSet<String>>,
    /// type, name, value, type of the value
    assoc_consts: Vec<(String, String, Expr, Type)>,
    gone_consts: BTreeSet<String>,
}

fn s<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = s(a).replace(' ', "");
            t.contains("cfg(test") || t.contains("cfg(kani") || t.contains("cfg(fuzzing") || t.contains("not(feature=\"rust-zlib\")")
        }
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => "?".into(),
    }
}
/// like type_name, but foreign types keep their path (`io::Error`)
fn self_type_name(t: &Type) -> String {
    if let Type::Path(p) = t {
        let v: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
        if v.len() > 1 && !matches!(v[0].as_str(), "crate" | "self" | "super") {
            return v.join("::");
        }
    }
    type_name(t)
}

/// parse a source file, undoing renamings
fn parse_src(c: &mut Crate, text: &str, module: &str, file: &str) -> File {
    let ts: TokenStream = text.parse().unwrap_or_else(|e| fail(&format!("cannot tokenise {file}: {e}")));
    let ts = names::apply(ts, module, &c.renames);
    let mut ids = BTreeSet::new();
    names::idents(ts.clone(), &mut ids);
    c.idents.insert(module.to_string(), ids);
    parse2(ts).unwrap_or_else(|e| fail(&format!("cannot parse {file}: {e}")))
}

fn load_items(c: &mut Crate, items: Vec<Item>, path: &str, generated: bool, file: &str, dir: &Path) {
    let mut m = Module { path: path.into(), generated, ..Default::default() };
    c.order.push(path.to_string());
    for it in items {
        match it {
            Item::Use(u) => {
                if !cfg_out(&u.attrs) {
                    m.uses.push(u)
                }
            }
            Item::Mod(md) => {
                if cfg_out(&md.attrs) {
                    continue;
                }
                let p = if path.is_empty() { md.ident.to_string() } else { format!("{path}::{}", md.ident) };
                m.children.push(md.ident.to_string());
                match md.content {
                    Some((_, its)) => {
                        let has_include = its.iter().any(|i| matches!(i, Item::Macro(mm) if mm.mac.path.is_ident("include")));
                        if has_include {
                            load_generated(c, &p);
                        } else {
                            load_items(c, its, &p, generated, file, dir)
                        }
                    }
                    None => {
                        let name = md.ident.to_string();
                        let f1 = dir.join(format!("{name}.rs"));
                        let f2 = dir.join(&name).join("mod.rs");
                        let (f, d) = if f1.exists() { (f1, dir.join(&name)) } else { (f2, dir.join(&name)) };
                        if let Ok(text) = std::fs::read_to_string(&f) {
                            let ff = parse_src(c, &text, &p, &f.display().to_string());
                            load_items(c, ff.items, &p, generated, &f.display().to_string(), &d);
                        }
                    }
                }
            }
            Item::Struct(x) if !cfg_out(&x.attrs) => m.types.push(Item::Struct(x)),
            Item::Enum(x) if !cfg_out(&x.attrs) => m.types.push(Item::Enum(x)),
            Item::Type(x) if !cfg_out(&x.attrs) => m.types.push(Item::Type(x)),
            Item::Const(x) if !cfg_out(&x.attrs) => {
                if x.ident != "_PROTOBUF_VERSION_CHECK" {
                    m.types.push(Item::Const(x))
                }
            }
            Item::Static(x) if !cfg_out(&x.attrs) && !generated => m.types.push(Item::Static(x)),
            Item::Fn(f) if !cfg_out(&f.attrs) => {
                let line = f.sig.ident.span().start().line;
                let key = if path.is_empty() { f.sig.ident.to_string() } else { format!("{path}::{}", f.sig.ident) };
                c.fns.push(FnRec {
                    key,
                    module: path.into(),
                    imp: None,
                    sig: f.sig,
                    body: *f.block,
                    trait_name: None,
                    generated,
                    file: file.into(),
                    line,
                });
            }
            Item::Impl(im) if !cfg_out(&im.attrs) => {
                let self_name = self_type_name(&im.self_ty);
                let trait_name = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let mut assoc = BTreeMap::new();
                for i in &im.items {
                    if let ImplItem::Type(t) = i {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                let idx = c.impls.len();
                c.impls.push(ImplRec {
                    module: path.into(),
                    generics: im.generics.clone(),
                    self_ty: (*im.self_ty).clone(),
                    self_name: self_name.clone(),
                    trait_name: trait_name.clone(),
                    assoc,
                });
                let mut items = im.items;
                // `impl ExactSizeIterator for X {}` inherits the provided method `len`: written out (the standard library's body,
                // without its assertion that both bounds agree)
                if trait_name.as_deref() == Some("ExactSizeIterator") && !items.iter().any(|i| matches!(i, ImplItem::Fn(f) if f.sig.ident == "len")) {
                    items.push(parse_quote!(fn len(&self) -> usize { let (lower, _upper) = self.size_hint(); lower }));
                }
                for i in items {
                    if let ImplItem::Const(k) = &i {
                        if !generated && !cfg_out(&k.attrs) && trait_name.is_none() {
                            c.assoc_consts.push((self_name.clone(), k.ident.to_string(), k.expr.clone(), k.ty.clone()));
                        }
                    }
                    if let ImplItem::Fn(f) = i {
                        if cfg_out(&f.attrs) {
                            continue;
                        }
                        let line = f.sig.ident.span().start().line;
                        let tn = match &trait_name {
                            Some(t) if t != "Iterator" && t != "From" && t != "ExactSizeIterator" => format!("{self_name}#{t}"),
                            _ => self_name.clone(),
                        };
                        c.fns.push(FnRec {
                            key: format!("{path}::{tn}::{}", f.sig.ident),
                            module: path.into(),
                            imp: Some(idx),
                            sig: f.sig,
                            body: f.block,
                            trait_name: trait_name.clone(),
                            generated,
                            file: file.into(),
                            line,
                        });
                    }
                }
            }
            _ => {}
        }
    }
    c.modules.insert(path.to_string(), m);
}

fn load_generated(c: &mut Crate, path: &str) {
    let out = unsafe { OUT_DIR.clone().unwrap() };
    let mut m = Module { path: path.into(), generated: true, ..Default::default() };
    c.order.push(path.to_string());
    let text = std::fs::read_to_string(out.join("mod.rs")).unwrap_or_else(|e| fail(&format!("no generated mod.rs: {e}")));
    let f = parse_file(&text).unwrap();
    for it in f.items {
        if let Item::Mod(md) = it {
            let name = md.ident.to_string();
            m.children.push(name.clone());
            let fp = out.join(format!("{name}.rs"));
            let text = std::fs::read_to_string(&fp).unwrap();
            let ff = parse_file(&text).unwrap();
            load_items(c, ff.items, &format!("{path}::{name}"), true, &fp.display().to_string(), &out);
        }
    }
    c.modules.insert(path.to_string(), m);
}

static mut OUT_DIR: Option<PathBuf> = None;

fn fail(m: &str) -> ! {
    eprintln!("extract: {m}");
    std::process::exit(3)
}

/// names declared in the stub module, as paths relative to `dep`
fn dep_names(ts: TokenStream, prefix: &str, out: &mut HashSet<String>) {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < t.len() {
        if let TokenTree::Ident(id) = &t[i] {
            let w = id.to_string();
            if matches!(w.as_str(), "mod" | "struct" | "enum" | "trait" | "fn" | "type" | "const") {
                if let Some(TokenTree::Ident(n)) = t.get(i + 1) {
                    let p = if prefix.is_empty() { n.to_string() } else { format!("{prefix}::{n}") };
                    out.insert(p.clone());
                    if w == "mod" {
                        if let Some(TokenTree::Group(g)) = t.get(i + 2) {
                            if g.delimiter() == Delimiter::Brace {
                                dep_names(g.stream(), &p, out);
                                i += 3;
                                continue;
                            }
                        }
                    }
                    // enum variants etc. are not needed
                }
            }
            if w == "use" {
                let mut last = String::new();
                let mut j = i + 1;
                while j < t.len() {
                    match &t[j] {
                        TokenTree::Ident(x) => last = x.to_string(),
                        TokenTree::Punct(p) if p.as_char() == ';' => break,
                        _ => {}
                    }
                    j += 1;
                }
                out.insert(if prefix.is_empty() { last } else { format!("{prefix}::{last}") });
                i = j;
            }
            if w == "macro" {}
        }
        if let TokenTree::Group(g) = &t[i] {
            // verus! { ... } at the top
            if i >= 2 && prefix.is_empty() {
                if let TokenTree::Ident(id) = &t[i - 2] {
                    if *id == "verus" {
                        dep_names(g.stream(), prefix, out);
                    }
                }
            }
        }
        i += 1;
    }
}

/// flatten a use tree to (path segments, rename)
fn flat(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flat(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, Some(r.rename.to_string())));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                flat(x, pre, out);
            }
        }
    }
}

struct SubstAssoc<'a>(&'a BTreeMap<String, Type>);
impl<'a> VisitMut for SubstAssoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(ty) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = ty.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// Send/Sync bounds are dropped.
fn drop_bound(b: &TypeParamBound) -> bool {
    matches!(b, TypeParamBound::Trait(t) if {
        let l = t.path.segments.last().unwrap().ident.to_string();
        l == "Send" || l == "Sync"
    })
}

fn clean_generics(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t.bounds.iter().filter(|b| !drop_bound(b)).cloned().collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                t.bounds = t.bounds.iter().filter(|b| !drop_bound(b)).cloned().collect();
            }
        }
        w.predicates = w
            .predicates
            .iter()
            .filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounds.is_empty()))
            .cloned()
            .collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

/// shape of a closure bound, e.g. "FnMut(Element)", "FnMut(&Way)->bool", "Fn(T,T)->T"
fn fn_bound_shape(b: &TypeParamBound) -> Option<String> {
    if let TypeParamBound::Trait(t) = b {
        let seg = t.path.segments.last().unwrap();
        if matches!(seg.ident.to_string().as_str(), "FnMut" | "Fn" | "FnOnce") {
            if let PathArguments::Parenthesized(p) = &seg.arguments {
                fn ty(t: &Type) -> String {
                    match t {
                        Type::Reference(r) => format!("&{}", ty(&r.elem)),
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        o => o.to_token_stream().to_string().replace(' ', ""),
                    }
                }
                let ins: Vec<String> = p.inputs.iter().map(ty).collect();
                let out = match &p.output {
                    ReturnType::Default => String::new(),
                    ReturnType::Type(_, t) => format!("->{}", ty(t)),
                };
                return Some(format!("{}({}){}", seg.ident, ins.join(","), out));
            }
        }
    }
    None
}

fn word_replace(text: &str, from: &str, to: &str) -> String {
    if from == to {
        return text.to_string();
    }
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let f: Vec<char> = from.chars().collect();
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(&f[..])
            && (i == 0 || (!isw(b[i - 1]) && b[i - 1] != '.'))
            && (i + f.len() >= b.len() || !isw(b[i + f.len()]))
        {
            out.push_str(to);
            i += f.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn json_str(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list<I: IntoIterator<Item = String>>(v: I) -> String {
    format!("[{}]", v.into_iter().map(|x| json_str(&x)).collect::<Vec<_>>().join(","))
}

/// what the names in the scope of each module are: full paths
fn scopes(c: &Crate) -> HashMap<String, HashMap<String, String>> {
    let mut res: HashMap<String, HashMap<String, String>> = HashMap::new();
    for (m, md) in &c.modules {
        if md.generated {
            continue;
        }
        let mut names: HashMap<String, String> = HashMap::new();
        let abs = |n: &str| if m.is_empty() { format!("crate::{n}") } else { format!("crate::{m}::{n}") };
        for u in &md.uses {
            let mut v = vec![];
            flat(&u.tree, &mut vec![], &mut v);
            for (p, rn) in v {
                let Some(last) = p.last() else { continue };
                if last == "*" || last == "_" {
                    continue;
                }
                let full = match p[0].as_str() {
                    "self" => abs(&p[1..].join("::")),
                    "super" => {
                        let up = m.rsplit_once("::").map_or("", |x| x.0);
                        let rest = p[1..].join("::");
                        if up.is_empty() { format!("crate::{rest}") } else { format!("crate::{up}::{rest}") }
                    }
                    x if x == "crate" || norm::EXTERNAL.contains(&x) => p.join("::"),
                    _ => abs(&p.join("::")),
                };
                names.insert(rn.unwrap_or_else(|| last.clone()), full);
            }
        }
        for t in &md.types {
            let n = match t {
                Item::Struct(x) => x.ident.to_string(),
                Item::Enum(x) => x.ident.to_string(),
                Item::Type(x) => x.ident.to_string(),
                Item::Const(x) => x.ident.to_string(),
                Item::Static(x) => x.ident.to_string(),
                _ => continue,
            };
            names.insert(n.clone(), abs(&n));
        }
        for f in &c.fns {
            if f.module == *m && f.imp.is_none() {
                let n = f.sig.ident.to_string();
                names.insert(n.clone(), abs(&n));
            }
        }
        res.insert(m.clone(), names);
    }
    res
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut cdir, mut out, mut map) = (PathBuf::new(), PathBuf::new(), String::new(), String::new());
    let mut opaque: BTreeSet<String> = BTreeSet::new();
    let mut opaque_fields: BTreeSet<String> = BTreeSet::new();
    let mut dropped: BTreeSet<String> = BTreeSet::new();
    let mut no_contract: BTreeSet<String> = BTreeSet::new();
    let mut cover = false;
    let mut write_names: Option<String> = None;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap();
        match a.as_str() {
            "--repo" => repo = v().into(),
            "--out-dir" => unsafe { OUT_DIR = Some(v().into()) },
            "--contracts" => cdir = v().into(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--opaque" => {
                opaque.insert(v());
            }
            "--opaque-field" => {
                opaque_fields.insert(v());
            }
            "--drop" => {
                dropped.insert(v());
            }
            "--no-contract" => {
                no_contract.insert(v());
            }
            "--cover" => cover = true,
            "--write-names" => write_names = Some(v()),
            o => fail(&format!("unknown argument {o}")),
        }
    }
    // ---------------------------------------------------------------- contracts
    let mut files = vec![];
    let mut names: Vec<PathBuf> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for f in names {
        if f.extension().is_some_and(|e| e == "vc") {
            files.push((f.file_name().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(&f).unwrap()));
        }
    }
    let mut ct = contracts::parse(&files);
    let dep = std::fs::read_to_string(cdir.join("dep.rs")).unwrap();
    let mut depn = HashSet::new();
    {
        let mut raw = HashSet::new();
        dep_names(dep.parse::<TokenStream>().unwrap(), "", &mut raw);
        for n in raw {
            if let Some(r) = n.strip_prefix("dep::") {
                depn.insert(r.to_string());
            }
        }
    }

    // ---------------------------------------------------------------- crate
    let lib = std::fs::read_to_string(repo.join("src/lib.rs")).unwrap_or_else(|e| fail(&format!("{e}")));
    let base = names::Table::read(&std::fs::read_to_string(cdir.join("names.txt")).unwrap_or_default());
    let mut renames = names::Renames::default();
    let mut c;
    let mut rounds = 0;
    loop {
        c = Crate { renames: renames.clone(), ..Default::default() };
        let libf = parse_src(&mut c, &lib, "", "src/lib.rs");
        load_items(&mut c, libf.items, "", false, "src/lib.rs", &repo.join("src"));
        let cur = names::table(&c, &c.idents);
        if let Some(p) = &write_names {
            std::fs::write(p, cur.write()).unwrap();
            return;
        }
        // every module that has a file of its own
        let mf: BTreeMap<String, String> = c.idents.keys().map(|k| (k.clone(), k.clone())).collect();
        rounds += 1;
        if rounds > 6 || !names::find(&base, &cur, &mf, &mut renames) {
            break;
        }
    }
    let mut renamed: Vec<String> = c.renames.global.iter().map(|(a, b)| format!("{a} -> {b}")).collect();
    for (f, m) in &c.renames.per_file {
        renamed.extend(m.iter().map(|(a, b)| format!("{f}: {a} -> {b}")));
    }
    // items of the crate (not local variables) that go by another name now: the module, or nothing for the whole crate
    let mut replaced: BTreeSet<String> = c.renames.global.keys().map(|_| String::new()).collect();
    replaced.extend(c.renames.per_file.keys().cloned());
    for f in c.fns.iter_mut() {
        if let Some(k) = ct.fns.get(&f.key) {
            let mut wanted = k.start.clone();
            for l in &k.loops {
                wanted.push(' ');
                wanted.push_str(&l.text);
                for h in l.hooks.values() {
                    wanted.push(' ');
                    wanted.push_str(h);
                }
            }
            for (a, b) in names::rename_locals(&base, &f.key, &mut f.body, &wanted) {
                renamed.push(format!("{}: {a} -> {b}", f.key));
            }
        }
    }
    renamed.sort();

    consts::substitute(&mut c);

    // ---------------------------------------------------------------- world
    let mut w = World::default();
    w.sinks = ct.sinks.clone();
    let mut field_types: BTreeMap<String, (bool, bool)> = BTreeMap::new(); // name -> (message field, other)
    for m in c.modules.values() {
        for t in &m.types {
            if let Item::Struct(st) = t {
                for f in &st.fields {
                    if let Some(n) = &f.ident {
                        let e = field_types.entry(n.to_string()).or_default();
                        if m.generated && type_name(&f.ty) == "MessageField" {
                            e.0 = true;
                        } else {
                            e.1 = true;
                        }
                    }
                }
            }
        }
    }
    for (n, (a, b)) in &field_types {
        if *a && !*b {
            w.message_fields.insert(n.clone());
        }
    }
    for (k, v) in &ct.kinds {
        w.ret_kind.entry(k.clone()).or_default().insert(v.clone());
    }
    for f in &c.fns {
        if !f.generated {
            w.ret_kind.entry(f.sig.ident.to_string()).or_default().insert(ret_kind(&f.sig.output));
        }
        let contracted = ct.fns.contains_key(&f.key);
        if contracted {
            w.known.insert(f.sig.ident.to_string());
        }
    }
    for n in ["next", "new", "len", "is_empty", "clone", "fmt", "from", "into", "default", "size_hint", "description", "cause", "get", "push", "take", "limit"] {
        w.known.insert(n.into());
    }
    // imports the contracts were written with
    let mut sc = scopes(&c);
    let mut again: Vec<(String, ItemUse)> = vec![];
    for (m, name, full) in &base.uses {
        // (a name that the module mentions means what it means there)
        if !c.modules.contains_key(m) || sc.get(m).is_some_and(|s| s.contains_key(name)) || c.idents.get(m).is_some_and(|x| x.contains(name)) {
            continue;
        }
        let p: Vec<&str> = full.split("::").collect();
        let there = if p[0] == "crate" && p.len() > 1 {
            let (home, last) = (p[1..p.len() - 1].join("::"), p[p.len() - 1]);
            let whole = p[1..].join("::");
            c.modules.contains_key(&whole)
                || c.fns.iter().any(|f| f.key == whole && f.imp.is_none())
                || sc.get(&home).is_some_and(|s| s.contains_key(last))
                || c.modules.get(&home).is_some_and(|md| md.generated)
        } else {
            norm::EXTERNAL.contains(&p[0]) && p.len() > 1
        };
        if there {
            again.push((m.clone(), parse_str(&format!("use {full} as {name};")).unwrap()));
        }
    }
    for (m, u) in again {
        c.modules.get_mut(&m).unwrap().uses.push(u);
    }
    sc = scopes(&c);
    w.scope = sc;
    let known_keys: HashSet<String> = ct.fns.keys().cloned().collect();
    // a free function that moved to another module is taken back to the module its contract is written in
    for (k, sig) in base.free_fns() {
        let (home, name) = k.rsplit_once("::").unwrap_or(("", &k));
        if !known_keys.contains(&k) || !c.modules.contains_key(home) || c.fns.iter().any(|f| f.key == k) {
            continue;
        }
        let at: Vec<usize> = (0..c.fns.len())
            .filter(|&i| {
                let f = &c.fns[i];
                f.imp.is_none() && !f.generated && f.sig.ident == name && !known_keys.contains(&f.key) && names::shape(&f.sig) == sig
            })
            .collect();
        let [i] = at[..] else { continue };
        let f = &mut c.fns[i];
        let from = std::mem::replace(&mut f.module, home.to_string());
        f.key = k.clone();
        if let Some(names) = w.scope.get(&from) {
            norm::qualify(names, f);
        }
        let to_home = |p: &[String]| p.last().is_some_and(|l| l == name) && (p.len() < 2 || from.rsplit("::").next() == Some(p[p.len() - 2].as_str()));
        if let Some(md) = c.modules.get_mut(home) {
            let old = std::mem::take(&mut md.uses);
            for u in old {
                let mut v = vec![];
                flat(&u.tree, &mut vec![], &mut v);
                if !v.iter().any(|(p, _)| to_home(p)) {
                    md.uses.push(u);
                    continue;
                }
                for (p, rn) in v {
                    if to_home(&p) {
                        continue;
                    }
                    let rn = rn.map(|r| format!(" as {r}")).unwrap_or_default();
                    md.uses.push(parse_str(&format!("{} use {}{rn};", s(&u.vis), p.join("::"))).unwrap());
                }
            }
        }
        if let Some(md) = c.modules.get_mut(&from) {
            let full = if home.is_empty() { format!("crate::{name}") } else { format!("crate::{home}::{name}") };
            md.uses.push(parse_str(&format!("pub use {full};")).unwrap());
        }
        w.known.insert(name.to_string());
        renamed.push(format!("{from}::{name} -> {k}"));
    }
    for f in &c.fns {
        if known_keys.contains(&f.key) || f.generated {
            continue;
        }
        if f.trait_name.as_deref().is_some_and(|t| !matches!(t, "Iterator" | "From" | "ExactSizeIterator")) {
            continue;
        }
        let mut params = vec![];
        let mut is_method = false;
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => is_method = true,
                FnArg::Typed(t) => params.push(((*t.pat).clone(), (*t.ty).clone())),
            }
        }
        let opt = ret_kind(&f.sig.output) == "Option";
        let self_ty = f.imp.map(|i| c.impls[i].self_name.clone());
        let mut body = f.body.clone();
        strip_attrs(&mut body);
        w.helpers.entry(f.sig.ident.to_string()).or_default().push(Helper {
            key: format!("{}{}", f.key, if opt { "#opt" } else { "" }),
            is_method,
            self_ty,
            module: f.module.clone(),
            params,
            body,
            has_generics_fn: false,
        });
    }

    // ---------------------------------------------------------------- normalise
    struct Done {
        rec: FnRec,
        body: Block,
        out: FnOut,
        sig: Signature,
        sink_params: BTreeMap<String, String>,
    }
    let mut done: BTreeMap<String, Done> = BTreeMap::new();
    let mut missing: Vec<String> = vec![];
    let mut todo: Vec<usize> = vec![];
    let mut seen_keys = HashSet::new();
    for (i, f) in c.fns.iter().enumerate() {
        if known_keys.contains(&f.key) && seen_keys.insert(f.key.clone()) {
            todo.push(i);
        }
    }
    for k in &known_keys {
        if !seen_keys.contains(k) {
            missing.push(k.clone());
        }
    }
    missing.sort();
    while let Some(i) = todo.pop() {
        let f = c.fns[i].clone();
        if done.contains_key(&f.key) {
            continue;
        }
        let mut body = f.body.clone();
        strip_attrs(&mut body);
        let mut sig = f.sig.clone();
        let imp = f.imp.map(|i| &c.impls[i]);
        if let Some(im) = imp {
            let mut sa = SubstAssoc(&im.assoc);
            sa.visit_signature_mut(&mut sig);
            sa.visit_block_mut(&mut body);
        }
        // closure parameters
        let mut sink_types: BTreeMap<String, (String, String)> = BTreeMap::new();
        let mut sig_problem = vec![];
        {
            let mut handle = |name: String, bounds: &mut punctuated::Punctuated<TypeParamBound, Token![+]>| {
                let mut nb: punctuated::Punctuated<TypeParamBound, Token![+]> = Default::default();
                for b in bounds.iter() {
                    if let Some(shape) = fn_bound_shape(b) {
                        match w.sinks.get(&shape) {
                            Some((tr, me)) => {
                                sink_types.insert(name.clone(), (tr.clone(), me.clone()));
                                nb.push(parse_str(tr).unwrap());
                            }
                            None => sig_problem.push(format!("closure bound {shape} not modelled")),
                        }
                    } else if !drop_bound(b) {
                        nb.push(b.clone());
                    }
                }
                *bounds = nb;
            };
            for p in sig.generics.params.iter_mut() {
                if let GenericParam::Type(t) = p {
                    let n = t.ident.to_string();
                    handle(n, &mut t.bounds);
                }
            }
            if let Some(wc) = &mut sig.generics.where_clause {
                for p in wc.predicates.iter_mut() {
                    if let WherePredicate::Type(t) = p {
                        let n = type_name(&t.bounded_ty);
                        handle(n, &mut t.bounds);
                        t.lifetimes = None;
                    }
                }
            }
        }
        clean_generics(&mut sig.generics);
        let mut sink_params = BTreeMap::new();
        let mut prologue: Vec<String> = vec![];
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    if r.mutability.is_some() && r.reference.is_none() {
                        r.mutability = None;
                        prologue.push("let mut __self = self;".into());
                        rename_self(&mut body, "__self");
                    }
                    r.attrs.clear();
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    let tn = type_name(&t.ty);
                    if let Some((tr, me)) = sink_types.get(&tn) {
                        if let Pat::Ident(pi) = &mut *t.pat {
                            sink_params.insert(pi.ident.to_string(), me.clone());
                            pi.mutability = None;
                            if !matches!(&*t.ty, Type::Reference(_)) {
                                let ty = t.ty.clone();
                                *t.ty = if tr.ends_with("Op") || tr.contains("Op<") || tr.contains("Op <") {
                                    parse_quote!(&#ty)
                                } else {
                                    parse_quote!(&mut #ty)
                                };
                            }
                        }
                    } else if let Pat::Ident(pi) = &mut *t.pat {
                        if pi.mutability.is_some() {
                            pi.mutability = None;
                            prologue.push(format!("let mut {0} = {0};", pi.ident));
                        }
                    } else {
                        // destructured parameter
                        let nm = format!("__p{}", prologue.len());
                        prologue.push(format!("let {} = {nm};", s(&t.pat)));
                        t.pat = Box::new(Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: ident(&nm), subpat: None }));
                    }
                }
            }
        }
        Reborrow(&sink_params).visit_block_mut(&mut body);
        norm::tail_into(&mut body, &sig.output, imp.map(|i| i.self_name.as_str()), &w);

        let mut n = Norm {
            w: &w,
            fresh: 0,
            out: FnOut::default(),
            ret_is_option: ret_kind(&sig.output) == "Option",
            sink_params: sink_params.clone(),
            self_ty: imp.map(|i| i.self_name.clone()),
            module: f.module.clone(),
            locals: Default::default(),
            inline_stack: vec![f.key.clone()],
        };
        n.out.problems.extend(sig_problem);
        n.run(&mut body);
        let out = n.out;
        MapPaths.visit_block_mut(&mut body);
        MapPaths.visit_signature_mut(&mut sig);
        let mut pre: Vec<Stmt> = vec![];
        for p in prologue {
            let b: Block = parse_str(&format!("{{ {p} }}")).unwrap();
            pre.extend(b.stmts);
        }
        let b: Block = parse_str("{ __vp_m!(start); }").unwrap();
        pre.extend(b.stmts);
        body.stmts.splice(0..0, pre);
        // helpers that could not be inlined are emitted without contract
        for p in &out.problems {
            if let Some(rest) = p.strip_prefix("call of `") {
                let key = rest.split('`').next().unwrap().trim_end_matches("#opt").to_string();
                if let Some(j) = c.fns.iter().position(|g| g.key == key) {
                    todo.push(j);
                }
            }
        }
        done.insert(f.key.clone(), Done { rec: f, body, out, sig, sink_params });
    }

    done.retain(|k, _| !dropped.contains(k));

    // ---------------------------------------------------------------- emit
    let mut pr = Printer::new();
    let none = BTreeMap::new();
    let mut fnmap: Vec<String> = vec![];
    let mut specmap: Vec<String> = vec![];
    pr.raw("// GENERATED on every run from the working tree of /repo. Do not edit.\n");
    pr.raw("#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\n");
    let dep_start = pr.line;
    pr.raw(&dep);
    pr.nl();
    let dep_end = pr.line;
    pr.raw("verus! {\n");

    // which crate fns are emitted, by module::name
    let emitted: HashSet<String> = done.keys().cloned().collect();
    let all_fn_keys: HashSet<String> = c.fns.iter().map(|f| f.key.clone()).collect();
    let enum_fieldless = |e: &ItemEnum| e.variants.iter().all(|v| v.fields.is_empty());

    let mut module_list: Vec<String> = c.modules.keys().cloned().collect();
    for m in ct.specs.keys() {
        if !module_list.contains(m) {
            module_list.push(m.clone());
        }
    }
    // emit as a tree
    fn children_of(list: &[String], m: &str) -> Vec<String> {
        list.iter()
            .filter(|x| {
                !x.is_empty()
                    && if m.is_empty() { !x.contains("::") } else { x.starts_with(&format!("{m}::")) && !x[m.len() + 2..].contains("::") }
            })
            .cloned()
            .collect()
    }
    struct Ctx<'a> {
        c: &'a Crate,
        ct: &'a mut Contracts,
        done: &'a BTreeMap<String, Done>,
        depn: &'a HashSet<String>,
        emitted: &'a HashSet<String>,
        all_fn_keys: &'a HashSet<String>,
        opaque: &'a BTreeSet<String>,
        opaque_fields: &'a BTreeSet<String>,
        dropped: &'a BTreeSet<String>,
        no_contract: &'a BTreeSet<String>,
        items: Vec<String>,
        cover: bool,
        list: Vec<String>,
    }
    fn emit_module(
        x: &mut Ctx,
        m: &str,
        pr: &mut Printer,
        fnmap: &mut Vec<String>,
        specmap: &mut Vec<String>,
        none: &BTreeMap<String, String>,
        enum_fieldless: &dyn Fn(&ItemEnum) -> bool,
    ) {
        if !m.is_empty() {
            pr.rawln(&format!("pub mod {} {{", m.rsplit("::").next().unwrap()));
            pr.rawln("use vstd::prelude::*;");
            // where the standard prelude has a stand-in
            pr.rawln("use crate::dep::std::convert::AsRef;");
            pr.rawln("#[allow(unused)] use crate::dep::ext::*;");
            pr.rawln("broadcast use crate::dep::ext::vp_axioms;");
        }
        if let Some(md) = x.c.modules.get(m) {
            for u in &md.uses {
                let mut v = vec![];
                flat(&u.tree, &mut vec![], &mut v);
                for (mut p, rn) in v {
                    if p.len() == 1 && EXTERNAL.contains(&p[0].as_str()) {
                        continue;
                    }
                    if EXTERNAL.contains(&p[0].as_str()) {
                        if p[0] == "core" || p[0] == "alloc" {
                            p[0] = "std".into();
                        }
                        let full = p.join("::");
                        if p.last().unwrap() != "*" && !x.depn.contains(&full) {
                            continue;
                        }
                        if p.last().unwrap() == "*" && !x.depn.contains(&p[..p.len() - 1].join("::")) {
                            continue;
                        }
                        p.insert(0, "dep".into());
                        p.insert(0, "crate".into());
                    } else {
                        if p.last().is_some_and(|l| x.c.gone_consts.contains(l)) {
                            continue;
                        }
                        // functions that are not emitted cannot be imported
                        let mut q = p.clone();
                        if q[0] == "crate" {
                            q.remove(0);
                        } else if q[0] == "self" {
                            q.remove(0);
                            if !m.is_empty() {
                                let mut r: Vec<String> = m.split("::").map(|z| z.to_string()).collect();
                                r.extend(q);
                                q = r;
                            }
                        } else if q[0] == "super" {
                            q.remove(0);
                        }
                        let k = q.join("::");
                        if x.all_fn_keys.contains(&k) && !x.emitted.contains(&k) {
                            continue;
                        }
                    }
                    if let Some(l) = p.last() {
                        if l == "*" && p.len() == 1 {
                            continue;
                        }
                    }
                    let rn = rn.map(|r| format!(" as {r}")).unwrap_or_default();
                    pr.rawln(&format!("{} use {}{rn};", s(&u.vis), p.join("::")));
                }
            }
            for t in &md.types {
                let mut t = t.clone();
                let mut structural: Option<String> = None;
                let (kind, name) = match &t {
                    Item::Struct(i) => ("struct", i.ident.to_string()),
                    Item::Enum(i) => ("enum", i.ident.to_string()),
                    Item::Type(i) => ("type", i.ident.to_string()),
                    Item::Const(i) => ("const", i.ident.to_string()),
                    Item::Static(i) => ("const", i.ident.to_string()),
                    _ => ("", String::new()),
                };
                let ikey = if m.is_empty() { name } else { format!("{m}::{name}") };
                if x.dropped.contains(&ikey) {
                    continue;
                }
                MapPaths.visit_item_mut(&mut t);
                match &mut t {
                    Item::Struct(st) => {
                        let derived = |n: &str| st.attrs.iter().any(|a| a.path().is_ident("derive") && s(a).replace(' ', "").split(|c: char| !c.is_alphanumeric()).any(|w| w == n));
                        let copy = derived("Copy");
                        // equal if and only if the fields are: numbers
                        let number = |f: &Field| matches!(s(&f.ty).as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool");
                        let plain = copy && derived("PartialEq") && derived("Eq") && st.generics.params.is_empty() && st.fields.iter().all(number);
                        st.attrs.clear();
                        st.vis = parse_quote!(pub);
                        clean_generics(&mut st.generics);
                        for f in st.fields.iter_mut() {
                            f.attrs.clear();
                            f.vis = parse_quote!(pub);
                        }
                        if plain {
                            pr.rawln("#[derive(Clone, Copy, PartialEq, Eq)]");
                        } else if copy {
                            pr.rawln("#[derive(Clone, Copy)]");
                        }
                        // one line per field: what the verifier says of a field's type is laid to that field
                        let mut ph: Vec<String> = vec![];
                        for p in &st.generics.params {
                            match p {
                                GenericParam::Lifetime(l) => ph.push(format!("&{} ()", s(&l.lifetime))),
                                GenericParam::Type(t) => ph.push(format!("::core::marker::PhantomData<{}>", t.ident)),
                                _ => {}
                            }
                        }
                        let (ig, _, wc) = st.generics.split_for_impl();
                        let named = matches!(st.fields, Fields::Named(_));
                        pr.nl();
                        let head = format!("pub struct {}{}", st.ident, s(&ig));
                        match &st.fields {
                            Fields::Unit => pr.rawln(&format!("{head} {};", s(&wc))),
                            _ => {
                                pr.rawln(&if named { format!("{head} {} {{", s(&wc)) } else { format!("{head} (") });
                                for (i, f) in st.fields.iter().enumerate() {
                                    let fname = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                                    let fkey = format!("{ikey}::{fname}");
                                    let ty = if x.opaque_fields.contains(&fkey) { format!("crate::dep::Unmodelled<({})>", ph.iter().map(|z| format!("{z}, ")).collect::<String>()) } else { s(&f.ty) };
                                    x.items.push(format!("{{\"key\":{},\"kind\":\"field\",\"start\":{},\"end\":{}}}", json_str(&fkey), pr.line, pr.line));
                                    pr.rawln(&if named { format!("pub {fname}: {ty},") } else { format!("pub {ty},") });
                                }
                                pr.rawln(&if named { "}".to_string() } else { format!(") {};", s(&wc)) });
                            }
                        }
                        if plain {
                            pr.rawln(&format!("unsafe impl Structural for {} {{}}", st.ident));
                        }
                        continue;
                    }
                    Item::Enum(en) => {
                        let dv: String = en.attrs.iter().filter(|a| a.path().is_ident("derive")).map(s).collect();
                        let fl = enum_fieldless(en);
                        en.attrs.clear();
                        en.vis = parse_quote!(pub);
                        for v in en.variants.iter_mut() {
                            v.attrs.clear();
                            v.discriminant = None;
                            for f in v.fields.iter_mut() {
                                f.attrs.clear();
                            }
                        }
                        if fl && dv.contains("PartialEq") {
                            if dv.contains("Copy") {
                                pr.rawln("#[derive(Clone, Copy, PartialEq, Eq)]");
                            } else {
                                pr.rawln("#[derive(Clone, PartialEq, Eq)]");
                            }
                            structural = Some(en.ident.to_string());
                        } else if dv.contains("Copy") {
                            pr.rawln("#[derive(Clone, Copy)]");
                        }
                    }
                    Item::Type(tt) => {
                        tt.attrs.clear();
                        tt.vis = parse_quote!(pub);
                    }
                    Item::Const(cc) => {
                        cc.attrs.clear();
                        cc.vis = parse_quote!(pub);
                        if let Type::Reference(r) = &mut *cc.ty {
                            r.lifetime.get_or_insert_with(|| parse_quote!('static));
                        }
                    }
                    Item::Static(st) => {
                        let (i, ty, e) = (&st.ident, &st.ty, &st.expr);
                        let it: Item = parse_quote!(pub const #i: #ty = #e;);
                        t = it;
                    }
                    _ => {}
                }
                pr.nl();
                let istart = pr.line;
                pr.tokens(t.to_token_stream(), none);
                pr.nl();
                if !kind.is_empty() {
                    x.items.push(format!("{{\"key\":{},\"kind\":\"{kind}\",\"start\":{},\"end\":{}}}", json_str(&ikey), istart, pr.line));
                }
                if let Some(n) = structural {
                    pr.rawln(&format!("unsafe impl Structural for {n} {{}}"));
                }
            }
            // functions
            let keys: Vec<String> = x
                .c
                .fns
                .iter()
                .filter(|f| f.module == m && x.done.contains_key(&f.key))
                .map(|f| f.key.clone())
                .collect();
            let mut seen = HashSet::new();
            for k in keys {
                if seen.insert(k.clone()) {
                    emit_fn(x, &k, pr, fnmap);
                }
            }
        }
        if let Some(sp) = x.ct.specs.get(m).cloned() {
            for (f, t) in sp {
                pr.nl();
                let st = pr.line;
                let t = drop_specs(&t, m, x.dropped);
                pr.rawln(&t);
                specmap.push(format!("{{\"module\":{},\"file\":{},\"start\":{},\"end\":{}}}", json_str(m), json_str(&f), st, pr.line));
            }
        }
        for ch in children_of(&x.list.clone(), m) {
            emit_module(x, &ch, pr, fnmap, specmap, none, enum_fieldless);
        }
        if !m.is_empty() {
            pr.rawln("}");
        }
    }

    fn emit_fn(x: &mut Ctx, key: &str, pr: &mut Printer, fnmap: &mut Vec<String>) {
        let d = &x.done[key];
        let mut ctr = x.ct.fns.get(key).cloned();
        let stripped = x.no_contract.contains(key);
        if let (true, Some(c)) = (stripped, &mut ctr) {
            c.attrs.clear();
            c.requires.clear();
            c.ensures.clear();
            c.decreases.clear();
            c.loops.clear();
            c.alts.clear();
            c.start.clear();
        }
        let mut sig = d.sig.clone();
        sig.constness = None;
        sig.unsafety = None;
        sig.asyncness = None;
        let imp = d.rec.imp.map(|i| &x.c.impls[i]);
        let mut problems = d.out.problems.clone();
        // parameter names used in the contract vs. in the code
        let mut renames: Vec<(String, String)> = vec![];
        if let Some(ct) = &ctr {
            let actual: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    FnArg::Typed(t) => Some(s(&t.pat)),
                    _ => None,
                })
                .collect();
            if ct.params.len() == actual.len() {
                for (a, b) in ct.params.iter().zip(&actual) {
                    if a != b {
                        renames.push((a.clone(), b.clone()));
                    }
                }
            } else if !ct.params.is_empty() || !actual.is_empty() {
                problems.push(format!("contract names {} parameters, the code has {}", ct.params.len(), actual.len()));
            }
        }
        let fix = |t: &str| -> String {
            let mut t = t.to_string();
            for (a, b) in &renames {
                t = word_replace(&t, a, b);
            }
            t
        };
        let is_opaque = stripped || x.opaque.contains(key) || ctr.as_ref().is_some_and(|c| c.trusted);
        if let Some(im) = imp {
            let mut g = im.generics.clone();
            clean_generics(&mut g);
            let mut ty = im.self_ty.clone();
            MapPaths.visit_type_mut(&mut ty);
            MapPaths.visit_generics_mut(&mut g);
            let (ig, _, wc) = g.split_for_impl();
            pr.nl();
            pr.raw(&format!("impl{} {} {} {{\n", s(&ig), s(&ty), s(&wc)));
        }
        pr.nl();
        let start = pr.line;
        if let Some(ct) = &ctr {
            for a in &ct.attrs {
                pr.rawln(a);
            }
        }
        if is_opaque {
            pr.rawln("#[verifier::external_body]");
        } else {
            if !d.out.loops.is_empty() {
                pr.rawln("#[verifier::loop_isolation(false)]");
                let fully = ctr.as_ref().is_some_and(|c| c.loops.len() >= d.out.loops.len());
                if !fully {
                    pr.rawln("#[verifier::exec_allows_no_decreases_clause]");
                }
            }
            if ctr.is_none() {
                pr.rawln("#[verifier::exec_allows_no_decreases_clause]");
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!(" -> ({}: {})", ctr.as_ref().map(|c| c.ret.as_str()).unwrap_or("r"), s(&**t)),
        };
        let (ig, _, wc) = sig.generics.split_for_impl();
        pr.raw(&format!("pub fn {}{}({}){} {}\n", sig.ident, s(&ig), s(&sig.inputs), ret, s(&wc)));
        let mut clauses: Vec<String> = vec![];
        let mut emit_clauses = |pr: &mut Printer, kw: &str, cs: &[Clause]| {
            if cs.is_empty() {
                return;
            }
            pr.rawln(&format!("    {kw}"));
            for cl in cs {
                let st = pr.line;
                let txt = fix(&cl.text);
                pr.rawln(&format!("        {txt},"));
                clauses.push(format!(
                    "{{\"kind\":{},\"start\":{},\"end\":{},\"tags\":{},\"text\":{}}}",
                    json_str(kw),
                    st,
                    pr.line - 1,
                    json_list(cl.tags.clone()),
                    json_str(&txt)
                ));
            }
        };
        let mut markers: BTreeMap<String, String> = BTreeMap::new();
        let mut structure_ok = true;
        if let Some(ct) = &mut ctr {
            emit_clauses(pr, "requires", &ct.requires);
            emit_clauses(pr, "ensures", &ct.ensures);
            if !ct.decreases.trim().is_empty() {
                pr.rawln(&format!("    decreases {}", fix(&ct.decreases)));
            }
            if !is_opaque {
                let fits = |ls: &Vec<LoopSpec>| {
                    ls.len() == d.out.loops.len() && ls.iter().zip(&d.out.loops).all(|(s, l)| s.kind.split('|').any(|x| x == l.kind || x == "any"))
                };
                if !fits(&ct.loops) {
                    if let Some((st, ls)) = ct.alts.iter().find(|a| fits(&a.1)).cloned() {
                        ct.start = st;
                        ct.loops = ls;
                    }
                }
                if ct.loops.len() != d.out.loops.len() {
                    structure_ok = false;
                }
                for (i, l) in d.out.loops.iter().enumerate() {
                    if let Some(ls) = ct.loops.get(i) {
                        if !ls.kind.split('|').any(|x| x == l.kind || x == "any") {
                            structure_ok = false;
                        }
                        let f2 = |t: &str| {
                            let mut r = tag_lines(&fix(t)).replace("$it", &l.it).replace("__acc", &l.acc);
                            for (j, lj) in d.out.loops.iter().enumerate() {
                                r = r.replace(&format!("${j}"), &lj.it);
                            }
                            r
                        };
                        markers.insert(format!("l{i}"), f2(&ls.text));
                        for (h, t) in &ls.hooks {
                            markers.insert(format!("l{i}_{h}"), f2(t));
                        }
                    }
                }
                let mut st = fix(&ct.start);
                if x.cover {
                    st = format!("{st}\nproof {{ assert(false); }}");
                }
                markers.insert("start".into(), st);
            }
        }
        let body_start = pr.line;
        if is_opaque {
            pr.rawln("{ unimplemented!() }");
        } else {
            pr.tokens(d.body.to_token_stream(), &markers);
        }
        pr.nl();
        let end = pr.line - 1;
        if imp.is_some() {
            pr.rawln("}");
        }
        let props = ctr.as_ref().map(|c| c.props.clone()).unwrap_or_default();
        fnmap.push(format!(
            "{{\"key\":{},\"file\":{},\"src_line\":{},\"start\":{},\"body_start\":{},\"end\":{},\"contract\":{},\"opaque\":{},\"trusted\":{},\"props\":{},\"problems\":{},\"inlined\":{},\"loops\":{},\"loops_specified\":{},\"structure_ok\":{},\"calls\":{},\"clauses\":[{}],\"generated\":{}}}",
            json_str(key), json_str(&d.rec.file), d.rec.line, start, body_start, end, ctr.is_some(), x.opaque.contains(key),
            ctr.as_ref().is_some_and(|c| c.trusted), json_list(props), json_list(problems),
            json_list(d.out.inlined.clone()), json_list(d.out.loops.iter().map(|l| l.kind.clone())), ctr.as_ref().map(|c| c.loops.len()).unwrap_or(0),
            structure_ok, json_list(d.out.calls.iter().cloned()), clauses.join(","), d.rec.generated
        ));
        let _ = &d.sink_params;
    }

    let mut x = Ctx {
        c: &c,
        ct: &mut ct,
        done: &done,
        depn: &depn,
        emitted: &emitted,
        all_fn_keys: &all_fn_keys,
        opaque: &opaque,
        opaque_fields: &opaque_fields,
        dropped: &dropped,
        no_contract: &no_contract,
        items: vec![],
        cover,
        list: module_list,
    };
    emit_module(&mut x, "", &mut pr, &mut fnmap, &mut specmap, &none, &enum_fieldless);
    pr.rawln("} // verus!");
    pr.rawln("fn main() {}");
    std::fs::write(&out, &pr.out).unwrap();
    // overridden iterator methods that carry no contract
    let mut extra = vec![];
    for f in &c.fns {
        if let Some(t) = &f.trait_name {
            if (t == "Iterator" || t == "ExactSizeIterator") && !known_keys.contains(&f.key) {
                extra.push(f.key.clone());
            }
        }
    }
    // public functions without contract
    let mut nocontract = vec![];
    for f in &c.fns {
        if !f.generated && !known_keys.contains(&f.key) {
            nocontract.push(f.key.clone());
        }
    }
    let js = format!(
        "{{\"dep_start\":{dep_start},\"dep_end\":{dep_end},\"missing\":{},\"renamed\":{},\"replaced\":{},\"extra_iterator_methods\":{},\"without_contract\":{},\"specs\":[{}],\"items\":[{}],\"fns\":[\n{}\n]}}",
        json_list(missing),
        json_list(renamed),
        json_list(replaced),
        json_list(extra),
        json_list(nocontract),
        specmap.join(","),
        x.items.join(","),
        fnmap.join(",\n")
    );
    std::fs::write(&map, js).unwrap();
    let _ = x.c.root_reexports.len();
    let _ = x.c.impls.first().map(|i| (&i.module, &i.trait_name));
    let _ = x.c.order.len();
    let _ = x.c.modules.values().next().map(|m| (&m.path, &m.children));
}

/// takes the functions `module::name` out of the text of a specification
fn drop_specs(t: &str, m: &str, dropped: &BTreeSet<String>) -> String {
    let mut t = t.to_string();
    for d in dropped {
        let Some((dm, name)) = d.rsplit_once("::spec ").or_else(|| d.strip_prefix("spec ").map(|n| ("", n))) else { continue };
        if dm != m {
            continue;
        }
        let lines: Vec<&str> = t.split('\n').collect();
        let head = |l: &str| {
            l.find("fn ").is_some_and(|i| {
                let r = &l[i + 3..];
                r.starts_with(name) && !r[name.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_') && !l[..i].contains("//")
            })
        };
        let Some(i) = lines.iter().position(|l| head(l)) else { continue };
        let mut a = i;
        while a > 0 && (lines[a - 1].trim_start().starts_with("#[") || lines[a - 1].trim_start().starts_with("///")) {
            a -= 1;
        }
        // up to the brace that closes the body (a `;` before any brace: no body)
        let (mut depth, mut opened, mut z) = (0i32, false, i);
        'o: for (k, l) in lines.iter().enumerate().skip(i) {
            let l = l.split("//").next().unwrap();
            for ch in l.chars() {
                match ch {
                    '{' => {
                        depth += 1;
                        opened = true
                    }
                    '}' => depth -= 1,
                    ';' if !opened => {
                        z = k;
                        break 'o;
                    }
                    _ => {}
                }
            }
            // braces in clauses close on their line; the body is what ends a line at depth 0 with a lone or last `}`
            // (a line that is a lone `{` after it begins the body: the clause ended with a brace)
            let body_follows = lines.get(k + 1).is_some_and(|l| l.trim() == "{");
            if opened && depth == 0 && !body_follows && l.trim_end().ends_with('}') {
                z = k;
                break;
            }
        }
        let keep: Vec<&str> = lines[..a].iter().chain(&lines[z + 1..]).cloned().collect();
        t = keep.join("\n");
    }
    t
}

/// `[C01 C02] text` in the text of a loop: the tags go to a comment at the end of the line, for the checks to read
fn tag_lines(t: &str) -> String {
    let mut out = String::new();
    for l in t.split('\n') {
        let tr = l.trim_start();
        match tr.strip_prefix('[').and_then(|r| r.split_once(']')) {
            Some((tags, rest)) if !tags.is_empty() && tags.split(' ').all(|x| x.len() == 3 && x.starts_with('C')) => {
                out.push_str(&format!("{rest} // vp[{tags}]"))
            }
            _ => out.push_str(l),
        }
        out.push('\n');
    }
    out.pop();
    out
}

fn strip_attrs(b: &mut Block) {
    ExpandMacros.visit_block_mut(b);
    struct V;
    impl VisitMut for V {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    V.visit_block_mut(b);
}
