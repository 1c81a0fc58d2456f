//! Normalisation of function bodies: every rewriting preserves what the code does (see DESIGN.md,
//! "What the extraction changes").
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn path_expr(s: &str) -> Expr {
    parse_str::<Expr>(s).unwrap()
}

/// What is known about the functions of the crate (and, by table, of its dependencies).
#[derive(Default, Clone)]
pub struct World {
    /// last path segment -> kinds of return types ("Option"/"Result"/"Iter"/"other")
    pub ret_kind: HashMap<String, BTreeSet<String>>,
    /// inlinable helpers: name -> definitions
    pub helpers: HashMap<String, Vec<Helper>>,
    /// names that have a contract or belong to a dependency: never inlined
    pub known: HashSet<String>,
    pub message_fields: HashSet<String>,
    /// `&T`-like sink bounds: shape -> (trait, method)
    pub sinks: BTreeMap<String, (String, String)>,
    /// module -> what the names in its scope are: full paths
    pub scope: HashMap<String, HashMap<String, String>>,
    /// field names of crate structs with an integer type etc. are not needed
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub is_method: bool,
    pub self_ty: Option<String>,
    pub module: String,
    pub params: Vec<(Pat, Type)>, // without self
    pub body: Block,
    pub has_generics_fn: bool,
}

#[derive(Default)]
pub struct FnOut {
    pub loops: Vec<LoopInfo>,
    pub inlined: Vec<String>,
    pub problems: Vec<String>,
    pub calls: BTreeSet<String>,
}
#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub kind: String,
    pub it: String,
    /// the variable the loop accumulates in
    pub acc: String,
}

/// the one variable from outside the loop that its body assigns, where there is only one
fn accumulator(b: &Block) -> String {
    struct A(BTreeSet<String>);
    impl<'a> Visit<'a> for A {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if let Some(i) = p.path.get_ident() {
                    self.0.insert(i.to_string());
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut v = A(BTreeSet::new());
    v.visit_block(b);
    let inner = local_names(b);
    let mut out: Vec<String> = v.0.into_iter().filter(|x| !inner.contains(x)).collect();
    if out.len() == 1 { out.pop().unwrap() } else { "__acc".into() }
}

/// methods of the standard library: a crate function of the same name is only inlined when called on `self`
const STD_METHODS: &[&str] = &[
    "as_slice", "as_str", "as_ref", "as_mut", "as_bytes", "to_vec", "iter", "iter_mut", "contains", "insert", "extend", "range",
    "map", "filter", "and_then", "unwrap", "unwrap_or", "expect", "first", "last", "push", "pop", "clear", "take", "replace", "min", "max",
    "sum", "fold", "find", "any", "all", "count", "copied", "cloned", "collect", "chunks", "start", "end", "kind", "read", "seek", "is_some",
    "is_none", "is_ok", "is_err", "ok", "err", "to_string", "to_owned", "eq", "cmp", "skip", "zip", "rev", "enumerate", "nth", "step_by",
];

pub struct Norm<'w> {
    pub w: &'w World,
    pub fresh: usize,
    pub out: FnOut,
    pub ret_is_option: bool,
    pub sink_params: BTreeMap<String, String>, // param -> method
    pub self_ty: Option<String>,
    pub module: String,
    pub inline_stack: Vec<String>,
    /// what local variables hold, where it is known
    pub locals: BTreeMap<String, &'static str>,
}

fn quote_str<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn block_expr(b: Block) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}
fn expr_stmt(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}

/// Does the expression contain `return` or `?` (outside of closures)?
pub struct HasExit(pub bool);
impl<'a> Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_exit_expr(e: &Expr) -> bool {
    let mut h = HasExit(false);
    h.visit_expr(e);
    h.0
}
fn has_exit_stmt(s: &Stmt) -> bool {
    let mut h = HasExit(false);
    h.visit_stmt(s);
    h.0
}
fn has_exit_block(b: &Block) -> bool {
    let mut h = HasExit(false);
    h.visit_block(b);
    h.0
}

/// macros (other than the markers) hide what they mention
fn has_macro(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_macro(&mut self, m: &'a Macro) {
            let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if !m.tokens.is_empty() && n != "__vp_m" && n != "__vp_loop" {
                self.0 = true;
            }
        }
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

/// A closure parameter passed on (`&mut f`, `|x| f(x)`) is reborrowed.
pub struct Reborrow<'a>(pub &'a BTreeMap<String, String>);
impl<'a> Reborrow<'a> {
    fn sink(&self, e: &Expr) -> Option<String> {
        if let Expr::Path(p) = e {
            let i = p.path.get_ident()?.to_string();
            return self.0.contains_key(&i).then_some(i);
        }
        None
    }
}
impl<'a> VisitMut for Reborrow<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Reference(r) => {
                if let Some(i) = self.sink(&r.expr) {
                    let m = if r.mutability.is_some() { "&mut *" } else { "" };
                    *e = parse_str(&format!("{m}{i}")).unwrap();
                    return;
                }
            }
            Expr::Closure(c) => {
                let mut body = &*c.body;
                if let Expr::Block(b) = body {
                    if let [Stmt::Expr(x, _)] = &b.block.stmts[..] {
                        body = x;
                    }
                }
                if let Expr::Call(k) = body {
                    let names: Vec<String> = c.inputs.iter().map(|p| quote_str(if let Pat::Type(t) = p { &*t.pat } else { p })).collect();
                    let args: Vec<String> = k.args.iter().map(quote_str).collect();
                    if let Some(i) = self.sink(&k.func) {
                        if names == args && !names.contains(&i) {
                            let m = if self.0[&i] == "call" { "" } else { "&mut *" };
                            *e = parse_str(&format!("{m}{i}")).unwrap();
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Macros with a meaning of their own are expanded before anything else.
pub struct ExpandMacros;
impl VisitMut for ExpandMacros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if let Some(x) = macro_repl(&m.mac).and_then(|t| parse_str::<Expr>(&t).ok()) {
                *e = x;
                self.visit_expr_mut(e);
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(mut x) = macro_repl(&m.mac).and_then(|t| parse_str::<Expr>(&t).ok()) {
                self.visit_expr_mut(&mut x);
                *s = Stmt::Expr(x, m.semi_token);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// names bound in a body, in order
pub fn local_names(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident != "None" {
                self.0.push(p.ident.to_string());
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
pub fn rename_local(b: &mut Block, from: &str, to: &str) {
    Rename { from: from.into(), to: to.into() }.visit_block_mut(b);
}
/// `self` -> another name
pub fn rename_self(b: &mut Block, to: &str) {
    Rename { from: "self".into(), to: to.into() }.visit_block_mut(b);
}

struct UsesIdent<'s>(&'s str, usize);
impl<'a, 's> Visit<'a> for UsesIdent<'s> {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.is_ident(self.0) {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for t in m.tokens.clone() {
            if t.to_string() == self.0 {
                self.1 += 1;
            }
        }
    }
}

/// Replace variable `name` by `*name_expr`-style expressions.
struct Subst {
    name: String,
    /// expression for plain uses
    plain: Expr,
    /// expression for `*name` and for `name` as a method receiver / field base (a place), if any
    place: Option<Expr>,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(place) = &self.place {
            match e {
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                    if is_var(expr, &self.name) {
                        *e = place.clone();
                        return;
                    }
                }
                Expr::MethodCall(mc) => {
                    if is_var(&mc.receiver, &self.name) {
                        *mc.receiver = place.clone();
                        for a in mc.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                }
                Expr::Field(f) => {
                    if is_var(&f.base, &self.name) {
                        *f.base = place.clone();
                        return;
                    }
                }
                Expr::Index(f) => {
                    if is_var(&f.expr, &self.name) {
                        *f.expr = place.clone();
                        self.visit_expr_mut(&mut f.index);
                        return;
                    }
                }
                _ => {}
            }
        }
        if is_var(e, &self.name) {
            *e = self.plain.clone();
            return;
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() && is_var(&f.expr, &self.name) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn is_var(e: &Expr, name: &str) -> bool {
    match e {
        Expr::Path(p) => p.path.is_ident(name),
        Expr::Paren(p) => is_var(&p.expr, name),
        _ => false,
    }
}
fn subst(b: &mut Block, name: &str, plain: Expr, place: Option<Expr>) {
    Subst { name: name.to_string(), plain, place }.visit_block_mut(b);
}

/// the one local variable whose `next` is called in this loop
fn pulled(b: &Block) -> String {
    struct P(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for P {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if m.method == "next" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(i) = p.path.get_ident() {
                        self.0.push(i.to_string());
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    }
    let mut p = P(vec![]);
    for s in &b.stmts {
        syn::visit::Visit::visit_stmt(&mut p, s);
    }
    p.0.sort();
    p.0.dedup();
    if p.0.len() == 1 { p.0.pop().unwrap() } else { String::new() }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => is_place(expr),
        _ => false,
    }
}

fn bound_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'v>(&'v mut Vec<String>);
    impl<'a, 'v> Visit<'a> for V<'v> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    V(out).visit_pat(p);
}
fn block_bound(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat(&mut self, p: &'a Pat) {
            bound_idents(p, &mut self.0);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
fn free_vars(e: &Expr) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_path(&mut self, p: &'a ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_expr(e);
    v.0
}
struct Rename {
    from: String,
    to: String,
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.from {
            p.ident = ident(&self.to);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() && is_var(&f.expr, &self.from) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.from) {
                *e = path_expr(&self.to);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            let mut v = vec![];
            bound_idents(&f.pat, &mut v);
            if v.contains(&self.from) {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}

/// Rewrite a statement list so that it contains no `return`; None if out of reach.
pub fn eliminate_returns(stmts: &[Stmt], depth: usize) -> Option<Vec<Stmt>> {
    if depth > 40 {
        return None;
    }
    for (i, s) in stmts.iter().enumerate() {
        if !has_exit_stmt(s) {
            continue;
        }
        let rest = &stmts[i + 1..];
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let cont = |extra: &[Stmt]| -> Option<Vec<Stmt>> {
            let mut v = extra.to_vec();
            v.extend_from_slice(rest);
            eliminate_returns(&v, depth + 1)
        };
        // an exit inside of the part that is evaluated first gets a statement of its own
        {
            let mut s2 = s.clone();
            let slot = match &mut s2 {
                Stmt::Expr(e, _) => Some(e),
                Stmt::Local(l) => l.init.as_mut().filter(|i| i.diverge.is_none()).map(|i| &mut *i.expr),
                _ => None,
            };
            if let Some(e) = slot {
                let nm = format!("__h{depth}_{i}");
                if let Some(x) = hoist_first(e, &nm) {
                    let mut v = vec![local(Pat::parse_single_str(&nm), x), s2];
                    v.extend_from_slice(rest);
                    out.extend(eliminate_returns(&v, depth + 1)?);
                    return Some(out);
                }
            }
        }
        match s {
            Stmt::Expr(e, semi) => {
                let last_value = rest.is_empty() && semi.is_none();
                let e2 = elim_expr(e, &|tail: Vec<Stmt>, value: bool| {
                    if value && last_value {
                        eliminate_returns(&tail, depth + 1)
                    } else {
                        let mut t = tail.clone();
                        if let Some(Stmt::Expr(_, se)) = t.last_mut() {
                            if se.is_none() {
                                *se = Some(Default::default());
                            }
                        }
                        cont(&t)
                    }
                })?;
                out.push(expr_stmt(e2));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if init.diverge.is_some() {
                    return None;
                }
                let pat = l.pat.clone();
                let e2 = elim_expr(&init.expr, &|mut tail: Vec<Stmt>, _| {
                    // value of the branch is the last expression
                    let val = match tail.pop() {
                        Some(Stmt::Expr(e, None)) => e,
                        _ => return None,
                    };
                    let l2 = Stmt::Local(Local {
                        attrs: vec![],
                        let_token: Default::default(),
                        pat: pat.clone(),
                        init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(val), diverge: None }),
                        semi_token: Default::default(),
                    });
                    tail.push(l2);
                    cont(&tail)
                })?;
                out.push(expr_stmt(e2));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}

/// take the exit out of the part of e that is evaluated first, leaving `nm` in its place
fn hoist_first(e: &mut Expr, nm: &str) -> Option<Expr> {
    /// evaluating it later makes no difference
    fn inert(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Paren(p) => inert(&p.expr),
            _ => false,
        }
    }
    fn first_of<'e>(es: impl Iterator<Item = &'e mut Expr>, nm: &str) -> Option<Expr> {
        for e in es {
            if has_exit_expr(e) {
                return at(e, nm, false);
            }
            if !inert(e) {
                return None;
            }
        }
        None
    }
    fn at(e: &mut Expr, nm: &str, top: bool) -> Option<Expr> {
        if !has_exit_expr(e) {
            return None;
        }
        match e {
            Expr::Paren(p) => at(&mut p.expr, nm, top),
            Expr::MethodCall(m) if has_exit_expr(&m.receiver) => at(&mut m.receiver, nm, false),
            Expr::Field(f) => at(&mut f.base, nm, false),
            Expr::Reference(r) if !top => at(&mut r.expr, nm, false),
            Expr::Unary(u) => at(&mut u.expr, nm, false),
            Expr::Cast(u) => at(&mut u.expr, nm, false),
            Expr::Call(c) => {
                if has_exit_expr(&c.func) {
                    return None;
                }
                first_of(c.args.iter_mut(), nm)
            }
            Expr::Tuple(t) => first_of(t.elems.iter_mut(), nm),
            Expr::Struct(t) if t.rest.is_none() => first_of(t.fields.iter_mut().map(|f| &mut f.expr), nm),
            Expr::MethodCall(m) if inert(&m.receiver) => first_of(m.args.iter_mut(), nm),
            Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && inert(&b.left) => at(&mut b.right, nm, false),
            Expr::Binary(b) if has_exit_expr(&b.left) => at(&mut b.left, nm, false),
            Expr::Assign(a) if inert(&a.left) => at(&mut a.right, nm, false),
            Expr::If(i) if matches!(&*i.cond, Expr::Let(l) if has_exit_expr(&l.expr)) => match &mut *i.cond {
                Expr::Let(l) => at(&mut l.expr, nm, false),
                _ => None,
            },
            Expr::Match(m) if has_exit_expr(&m.expr) => at(&mut m.expr, nm, false),
            Expr::If(i) if !matches!(&*i.cond, Expr::Let(_)) && has_exit_expr(&i.cond) => at(&mut i.cond, nm, false),
            Expr::Match(_) | Expr::If(_) | Expr::Return(_) if !top => Some(std::mem::replace(e, path_expr(nm))),
            _ => None,
        }
    }
    at(e, nm, true)
}

/// `k` receives the statements of a branch that falls through (value: its last expression is the value)
fn elim_expr(e: &Expr, k: &dyn Fn(Vec<Stmt>, bool) -> Option<Vec<Stmt>>) -> Option<Expr> {
    let branch = |b: &Expr| -> Option<Expr> {
        match b {
            Expr::Return(r) => {
                let v = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| path_expr("()"));
                if has_exit_expr(&v) {
                    return None;
                }
                Some(v)
            }
            Expr::Block(bl) if bl.label.is_none() => {
                // diverging block?
                Some(block_expr(block_of(elim_branch(&bl.block.stmts, k)?)))
            }
            other => Some(block_expr(block_of(elim_branch(&[expr_stmt(other.clone())], k)?))),
        }
    };
    match e {
        Expr::Return(_) => branch(e),
        Expr::If(i) => {
            if has_exit_expr(&i.cond) {
                return None;
            }
            let mut n = i.clone();
            n.then_branch = block_of(elim_branch(&i.then_branch.stmts, k)?);
            let els = match &i.else_branch {
                Some((_, b)) => branch(b)?,
                None => block_expr(block_of(k(vec![], false)?)),
            };
            let els = match els {
                Expr::Block(_) | Expr::If(_) => els,
                o => block_expr(block_of(vec![expr_stmt(o)])),
            };
            n.else_branch = Some((Default::default(), Box::new(els)));
            Some(Expr::If(n))
        }
        Expr::Match(m) => {
            if has_exit_expr(&m.expr) {
                return None;
            }
            let mut n = m.clone();
            for a in n.arms.iter_mut() {
                if a.guard.as_ref().is_some_and(|g| has_exit_expr(&g.1)) {
                    return None;
                }
                *a.body = branch(&a.body)?;
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(n))
        }
        Expr::Block(b) if b.label.is_none() => Some(block_expr(block_of(elim_branch(&b.block.stmts, k)?))),
        Expr::Paren(p) => elim_expr(&p.expr, k),
        _ => None,
    }
}
fn elim_branch(stmts: &[Stmt], k: &dyn Fn(Vec<Stmt>, bool) -> Option<Vec<Stmt>>) -> Option<Vec<Stmt>> {
    // does the branch end in a return?
    if let Some(Stmt::Expr(Expr::Return(r), _)) = stmts.last() {
        let mut v = stmts[..stmts.len() - 1].to_vec();
        if v.iter().any(has_exit_stmt) {
            // nested exits before: make the return a value and recurse
            v.push(expr_stmt(r.expr.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| path_expr("()"))));
            return eliminate_returns(&v, 1);
        }
        let val = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| path_expr("()"));
        if has_exit_expr(&val) {
            return None;
        }
        v.push(expr_stmt(val));
        return Some(v);
    }
    let value = matches!(stmts.last(), Some(Stmt::Expr(_, None)));
    k(stmts.to_vec(), value)
}

impl<'w> Norm<'w> {
    pub fn fresh(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("__{}{}", p, self.fresh)
    }
    fn problem(&mut self, s: String) {
        self.out.problems.push(s);
    }

    // ------------------------------------------------------------------ kinds
    pub fn kind_of(&self, e: &Expr) -> &'static str {
        match e {
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Reference(r) => self.kind_of(&r.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e),
                _ => "?",
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e),
                _ => "?",
            },
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind_of(&a.body);
                    if k != "?" {
                        return k;
                    }
                }
                "?"
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    match last.as_str() {
                        "Ok" | "Err" | "try_from" => return "Result",
                        "Some" => return "Option",
                        _ => {}
                    }
                    let qual = if p.path.segments.len() > 1 {
                        p.path.segments[p.path.segments.len() - 2].ident.to_string()
                    } else {
                        String::new()
                    };
                    if last == "map" && qual == "Mmap" {
                        return "Result";
                    }
                    return self.kind_name(&last);
                }
                "?"
            }
            Expr::Path(p) if p.path.is_ident("None") => "Option",
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => self.locals.get(&i.to_string()).copied().unwrap_or("?"),
                None => "?",
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "as_ref" | "as_mut" | "as_deref" | "and" | "or" | "cloned" | "copied" | "take" | "replace"
                    | "map" | "and_then" | "or_else" | "by_ref" | "filter" => {
                        let k = self.kind_of(&m.receiver);
                        if k != "?" {
                            return k;
                        }
                        if n == "as_ref" || n == "as_mut" {
                            return "Option";
                        }
                        "?"
                    }
                    "ok" | "err" | "first" | "last" | "get" | "next" | "checked_add" | "checked_sub" | "checked_mul"
                    | "get_mut" | "min_by_key" => "Option",
                    "map_err" | "ok_or" | "ok_or_else" | "try_into" | "try_from" => "Result",
                    "then" | "then_some" | "checked_div" | "checked_rem" | "checked_neg" | "checked_abs" | "checked_pow" | "split_first"
                    | "split_last" | "last_mut" | "first_mut" | "pop" | "strip_prefix" | "strip_suffix" => "Option",
                    "zip" if self.kind_of(&m.receiver) == "Option" => "Option",
                    "iter" | "iter_mut" | "into_iter" | "chunks" | "chunks_exact" | "zip" | "enumerate" | "rev"
                    | "skip" | "step_by" | "range" | "par_bridge" | "windows" | "chain" | "flat_map" | "peekable" => "Iter",
                    _ => self.kind_name(&n),
                }
            }
            _ => "?",
        }
    }
    fn find_locals(&mut self, b: &Block) {
        struct V<'n, 'w>(&'n Norm<'w>, BTreeMap<String, &'static str>);
        impl<'n, 'w> V<'n, 'w> {
            fn put(&mut self, n: String, k: &'static str) {
                let k = match self.1.get(&n) {
                    Some(x) if *x != k => "?",
                    _ => k,
                };
                self.1.insert(n, k);
            }
        }
        impl<'a, 'n, 'w> Visit<'a> for V<'n, 'w> {
            fn visit_local(&mut self, l: &'a Local) {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                    p => (p, None),
                };
                if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                    let k = match ty.map(type_last) {
                        Some(s) if s == "Option" => "Option",
                        Some(s) if s == "Result" => "Result",
                        Some(_) => "?",
                        None => self.0.kind_of(&init.expr),
                    };
                    self.put(i.ident.to_string(), k);
                    self.visit_expr(&init.expr);
                    if let Some(d) = &init.diverge {
                        self.visit_expr(&d.1);
                    }
                } else {
                    visit::visit_local(self, l);
                }
            }
            fn visit_pat(&mut self, p: &'a Pat) {
                let mut v = vec![];
                bound_idents(p, &mut v);
                for n in v {
                    self.put(n, "?");
                }
            }
        }
        // twice: a variable may be initialised from another
        for _ in 0..2 {
            let mut v = V(self, BTreeMap::new());
            v.visit_block(b);
            let m = v.1;
            self.locals = m;
        }
    }
    fn kind_name(&self, n: &str) -> &'static str {
        if let Some(s) = self.w.ret_kind.get(n) {
            if s.len() == 1 {
                return match s.iter().next().unwrap().as_str() {
                    "Option" => "Option",
                    "Result" => "Result",
                    "Iter" => "Iter",
                    _ => "?",
                };
            }
            if s.contains("Result") && !s.contains("Option") {
                return "Result";
            }
        }
        "?"
    }

    // ------------------------------------------------------------------ whole-body driver
    pub fn run(&mut self, b: &mut Block) {
        self.let_closures(b);
        self.inline_helpers(b);
        self.let_closures(b); // those of the functions just inlined
        self.find_locals(b);
        self.chains(b);
        self.patterns(b);
        self.find_locals(b);
        self.combinators(b);
        self.tries(b);
        self.misc(b);
        self.loops(b);
        self.collect_calls(b);
    }

    // ------------------------------------------------------------------ iterator chains with closures
    /// f applied to variables
    fn apply_to(&mut self, f: &Expr, args: &[&str]) -> Option<String> {
        match f {
            Expr::Paren(p) => self.apply_to(&p.expr, args),
            Expr::Reference(r) => self.apply_to(&r.expr, args),
            Expr::Closure(c) => {
                let mut body = match &*c.body {
                    Expr::Block(bl) if bl.label.is_none() => bl.block.clone(),
                    e => block_of(vec![expr_stmt(e.clone())]),
                };
                if has_exit_block(&body) {
                    let opt = matches!(&c.output, ReturnType::Type(_, t) if type_last(t) == "Option");
                    desugar_try_simple(&mut body, opt);
                    body = block_of(eliminate_returns(&body.stmts, 0)?);
                    if has_exit_block(&body) {
                        return None;
                    }
                }
                let params: Vec<(Pat, Option<Type>)> = c
                    .inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    })
                    .collect();
                let args: Vec<Expr> = args.iter().map(|a| path_expr(a)).collect();
                let e = self.beta(&params, &args, &body)?;
                Some(quote_str(&e))
            }
            Expr::Path(p) => Some(format!("{}({})", quote_str(p), args.join(", "))),
            _ => None,
        }
    }
    /// `x.map(f).fold(i, g)` becomes a loop; `x.par_bridge().map(f).reduce(i, g)` a loop that maps all items, and one that
    /// combines the results in an order chosen by the dependency's contract
    fn chains(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            fn convert(&mut self, m: &ExprMethodCall) -> Option<String> {
                let name = m.method.to_string();
                if name == "extend" && m.args.len() == 1 && is_place(&m.receiver) {
                    // one after the other
                    let (r, x, src) = (quote_str(&m.receiver), self.0.fresh("x"), quote_str(&m.args[0]));
                    return Some(format!("{{ for {x} in {src} {{ {r}.vp_add({x}); }} }}"));
                }
                if name == "for_each" && m.args.len() == 1 && self.0.kind_of(&m.receiver) == "Iter" {
                    let x = self.0.fresh("x");
                    let f = self.0.apply_to(&m.args[0], &[&x])?;
                    return Some(format!("{{ for {x} in {} {{ {f}; }} }}", quote_str(&m.receiver)));
                }
                if !(name == "fold" || name == "reduce") || m.args.len() != 2 {
                    return None;
                }
                // peel the maps
                let mut maps: Vec<Expr> = vec![];
                let mut src = (*m.receiver).clone();
                let mut par = false;
                loop {
                    match &src {
                        Expr::Paren(p) => src = (*p.expr).clone(),
                        Expr::MethodCall(c) if c.method == "map" && c.args.len() == 1 => {
                            maps.push(c.args[0].clone());
                            src = (*c.receiver).clone();
                        }
                        Expr::MethodCall(c) if c.method == "par_bridge" && c.args.is_empty() && !par => {
                            par = true;
                            src = (*c.receiver).clone();
                            break;
                        }
                        _ => break,
                    }
                }
                if par != (name == "reduce") || m.args.len() != 2 {
                    return None;
                }
                let x = self.0.fresh("x");
                let mut val = x.clone();
                let mut lets = String::new();
                while let Some(f) = maps.pop() {
                    let y = self.0.fresh("x");
                    let e = self.0.apply_to(&f, &[&val])?;
                    lets.push_str(&format!("let {y} = {e}; "));
                    val = y;
                }
                let src = quote_str(&src);
                if name == "fold" {
                    let init = quote_str(&m.args[0]);
                    let g = self.0.apply_to(&m.args[1], &["__acc", &val])?;
                    Some(format!("{{ let mut __acc = {init}; for {x} in {src} {{ {lets} __acc = {g}; }} __acc }}"))
                } else {
                    let id = self.0.apply_to(&m.args[0], &[])?;
                    let red = self.0.apply_to(&m.args[1], &["__a", "__b"])?;
                    Some(format!(
                        "{{ let mut __bag = rayon::Bag::new(); for {x} in {src} {{ {lets} __bag.put({val}); }} \
                         let mut __res = None; \
                         loop {{ match __bag.step() {{ \
                           rayon::Step::Identity => {{ let __v = {id}; __bag.put(__v); }} \
                           rayon::Step::Combine(__a, __b) => {{ let __v = {red}; __bag.put(__v); }} \
                           rayon::Step::Done(__r) => {{ __res = Some(__r); break; }} }} }} __res.unwrap() }}"
                    ))
                }
            }
        }
        impl<'n, 'w> V<'n, 'w> {
            /// `x.try_for_each(f)?`, or as the result of the function
            fn try_for_each(&mut self, m: &ExprMethodCall) -> Option<String> {
                if m.method != "try_for_each" || m.args.len() != 1 || self.0.ret_is_option {
                    return None;
                }
                let x = self.0.fresh("x");
                let f = self.0.apply_to(&m.args[0], &[&x])?;
                let src = quote_str(&m.receiver);
                let head = if is_place(&m.receiver) { format!("while let Some({x}) = {src}.next()") } else { format!("for {x} in {src}") };
                Some(format!("{{ {head} {{ match {f} {{ Ok(_) => {{}} Err(__e) => {{ return Err(__e); }} }} }} }}"))
            }
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Try(t) = e {
                    if let Expr::MethodCall(m) = &*t.expr {
                        if let Some(t) = self.try_for_each(m) {
                            *e = parse_str(&t).unwrap();
                        }
                    }
                }
                if let Expr::ForLoop(f) = e {
                    // `for p in x.map(g)` and the like
                    loop {
                        let Expr::MethodCall(m) = &*f.expr else { break };
                        let name = m.method.to_string();
                        if self.0.kind_of(&m.receiver) != "Iter" {
                            break;
                        }
                        let x = self.0.fresh("x");
                        let (pat, body) = (quote_str(&f.pat), quote_str(&f.body));
                        let new = match (name.as_str(), m.args.len()) {
                            ("map", 1) => match self.0.apply_to(&m.args[0], &[&x]) {
                                Some(v) => format!("{{ let {pat} = {v}; {body} }}"),
                                None => break,
                            },
                            ("copied" | "cloned", 0) => format!("{{ let {pat} = *{x}; {body} }}"),
                            ("filter", 1) => {
                                let y = self.0.fresh("y");
                                match self.0.apply_to(&m.args[0], &[&y]) {
                                    Some(v) => format!("{{ let {y} = &{x}; if {v} {{ let {pat} = {x}; {body} }} }}"),
                                    None => break,
                                }
                            }
                            _ => break,
                        };
                        let (Ok(b), src) = (parse_str::<Block>(&new), (*m.receiver).clone()) else { break };
                        f.body = b;
                        *f.pat = Pat::parse_single_str(&x);
                        *f.expr = src;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    if let Some(t) = self.convert(m) {
                        match parse_str::<Expr>(&t) {
                            Ok(x) => *e = x,
                            Err(er) => self.0.problem(format!("internal: {er}: {t}")),
                        }
                    }
                }
            }
            fn visit_local_mut(&mut self, l: &mut Local) {
                visit_mut::visit_local_mut(self, l);
                // let v: Vec<..> = x.copied().map(f).collect();
                let Some(init) = &mut l.init else { return };
                let Expr::MethodCall(m) = &*init.expr else { return };
                if m.method != "collect" {
                    return;
                }
                let ty = match (&m.turbofish, &l.pat) {
                    (Some(tf), _) => quote_str(&tf.args),
                    (None, Pat::Type(t)) => quote_str(&t.ty),
                    _ => return,
                };
                let last = ty.split('<').next().unwrap().trim().rsplit("::").next().unwrap().trim().to_string();
                if last != "Vec" && last != "BTreeSet" {
                    return;
                }
                let x = self.0.fresh("x");
                let mut steps: Vec<Expr> = vec![];
                let mut src = (*m.receiver).clone();
                loop {
                    match &src {
                        Expr::Paren(p) => src = (*p.expr).clone(),
                        Expr::MethodCall(c) if (c.method == "copied" || c.method == "cloned") && c.args.is_empty() => {
                            steps.push(path_expr("()"));
                            src = (*c.receiver).clone();
                        }
                        Expr::MethodCall(c) if c.method == "map" && c.args.len() == 1 => {
                            steps.push(c.args[0].clone());
                            src = (*c.receiver).clone();
                        }
                        _ => break,
                    }
                }
                let mut val = x.clone();
                let mut lets = String::new();
                while let Some(f) = steps.pop() {
                    let y = self.0.fresh("x");
                    let e = if let Expr::Tuple(_) = f {
                        format!("*{val}")
                    } else {
                        match self.0.apply_to(&f, &[&val]) {
                            Some(e) => e,
                            None => return,
                        }
                    };
                    lets.push_str(&format!("let {y} = {e}; "));
                    val = y;
                }
                let t = format!("{{ let mut __c = {last}::new(); for {x} in {} {{ {lets} __c.vp_add({val}); }} __c }}", quote_str(&src));
                match parse_str::<Expr>(&t) {
                    Ok(x) => *init.expr = x,
                    Err(er) => self.0.problem(format!("internal: {er}: {t}")),
                }
            }
        }
        let tail = match b.stmts.last() {
            Some(Stmt::Expr(Expr::MethodCall(m), None)) => V(self).try_for_each(m),
            _ => None,
        };
        if let Some(t) = tail {
            b.stmts.pop();
            b.stmts.push(expr_stmt(parse_str(&t).unwrap()));
            b.stmts.push(expr_stmt(parse_str("Ok(())").unwrap()));
        }
        V(self).visit_block_mut(b);
    }

    // ------------------------------------------------------------------ let-bound closures
    fn let_closures(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut i = 0;
                while i < b.stmts.len() {
                    let mut found = None;
                    if let Stmt::Local(l) = &b.stmts[i] {
                        let pat = match &l.pat {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        if let (Pat::Ident(pi), Some(init)) = (pat, &l.init) {
                            if let Expr::Closure(c) = &*init.expr {
                                found = Some((pi.ident.to_string(), c.clone()));
                            }
                        }
                    }
                    if let Some((name, c)) = found {
                        let mut rest = block_of(b.stmts[i + 1..].to_vec());
                        let mut ok = true;
                        // a variable the closure captures must still be the same one where the closure is used
                        let mut own = vec![];
                        for p in &c.inputs {
                            bound_idents(p, &mut own);
                        }
                        own.extend(block_bound(&block_of(vec![expr_stmt((*c.body).clone())])));
                        let captured: Vec<String> = free_vars(&c.body).into_iter().filter(|v| !own.contains(v)).collect();
                        let rebound = block_bound(&rest);
                        if captured.iter().any(|v| rebound.contains(v)) {
                            ok = false;
                        }
                        if c.capture.is_some() {
                            let mut m = MayChange(vec![]);
                            m.visit_block(&rest);
                            if captured.iter().any(|v| m.0.contains(v)) {
                                ok = false;
                            }
                        }
                        if ok {
                            PassedOn { name: &name, closure: &c }.visit_block_mut(&mut rest);
                        }
                        let mut calls = CallsOf { name: &name, n: 0 };
                        calls.visit_block(&rest);
                        let mut uses = UsesIdent(&name, 0);
                        uses.visit_block(&rest);
                        if uses.1 != calls.n {
                            ok = false;
                        }
                        let body = match &*c.body {
                            Expr::Block(bl) if bl.label.is_none() => bl.block.clone(),
                            e => block_of(vec![expr_stmt(e.clone())]),
                        };
                        let body = if has_exit_block(&body) {
                            // returns inside the closure leave the closure only
                            let mut tb = body.clone();
                            let opt = matches!(&c.output, ReturnType::Type(_, t) if type_last(t) == "Option");
                            desugar_try_simple(&mut tb, opt);
                            match eliminate_returns(&tb.stmts, 0) {
                                Some(v) => block_of(v),
                                None => {
                                    ok = false;
                                    body
                                }
                            }
                        } else {
                            body
                        };
                        if ok {
                            let params: Vec<(Pat, Option<Type>)> = c
                                .inputs
                                .iter()
                                .map(|p| match p {
                                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                                    p => (p.clone(), None),
                                })
                                .collect();
                            let mut ap = ApplyCalls { n: self.0, name: &name, params: &params, body: &body, ok: true };
                            ap.visit_block_mut(&mut rest);
                            if ap.ok {
                                b.stmts.truncate(i);
                                b.stmts.extend(rest.stmts);
                                continue;
                            }
                        }
                        self.0.problem(format!("closure `{name}` could not be expanded"));
                    }
                    i += 1;
                }
                visit_mut::visit_block_mut(self, b);
            }
        }
        /// variables that are assigned to or handed out by reference
        struct MayChange(Vec<String>);
        impl<'a> Visit<'a> for MayChange {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::Assign(a) => self.0.extend(free_vars(&a.left)),
                    Expr::Binary(b) => self.0.extend(free_vars(&b.left)),
                    Expr::Reference(r) if r.mutability.is_some() => self.0.extend(free_vars(&r.expr)),
                    Expr::MethodCall(m) => self.0.extend(free_vars(&m.receiver)),
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
        }
        /// the closure where it is handed to a method by name
        struct PassedOn<'s> {
            name: &'s str,
            closure: &'s ExprClosure,
        }
        impl<'s> VisitMut for PassedOn<'s> {
            fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                visit_mut::visit_expr_method_call_mut(self, m);
                for a in m.args.iter_mut() {
                    let hit = match &*a {
                        Expr::Reference(r) => is_var(&r.expr, self.name),
                        x => is_var(x, self.name),
                    };
                    if hit {
                        *a = Expr::Closure(self.closure.clone());
                    }
                }
            }
        }
        struct CallsOf<'s> {
            name: &'s str,
            n: usize,
        }
        impl<'a, 's> Visit<'a> for CallsOf<'s> {
            fn visit_expr_call(&mut self, c: &'a ExprCall) {
                if is_var(&c.func, self.name) {
                    self.n += 1;
                }
                visit::visit_expr_call(self, c);
            }
        }
        struct ApplyCalls<'n, 'w, 's> {
            n: &'n mut Norm<'w>,
            name: &'s str,
            params: &'s Vec<(Pat, Option<Type>)>,
            body: &'s Block,
            ok: bool,
        }
        impl<'n, 'w, 's> VisitMut for ApplyCalls<'n, 'w, 's> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(c) = e {
                    if is_var(&c.func, self.name) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        match self.n.beta(self.params, &args, self.body) {
                            Some(x) => *e = x,
                            None => self.ok = false,
                        }
                    }
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    /// the closure parameter that is passed on by `&mut *f` or `f`
    fn sink_arg(&self, a: &Expr) -> Option<String> {
        match a {
            Expr::Paren(p) => self.sink_arg(&p.expr),
            Expr::Reference(r) => self.sink_arg(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.sink_arg(expr),
            Expr::Path(p) => {
                let i = p.path.get_ident()?.to_string();
                self.sink_params.contains_key(&i).then_some(i)
            }
            _ => None,
        }
    }

    /// Apply a body to arguments.
    fn beta(&mut self, params: &[(Pat, Option<Type>)], args: &[Expr], body: &Block) -> Option<Expr> {
        if params.len() != args.len() {
            return None;
        }
        let mut body = body.clone();
        let mut lets: Vec<Stmt> = vec![];
        // avoid capture: rename local bindings of the body that clash with variables of the arguments
        let mut fv: HashSet<String> = HashSet::new();
        for a in args {
            for v in free_vars(a) {
                fv.insert(v);
            }
        }
        for bnd in block_bound(&body) {
            if fv.contains(&bnd) {
                let to = self.fresh(&format!("{bnd}_"));
                Rename { from: bnd, to }.visit_block_mut(&mut body);
            }
        }
        if has_macro(&body) {
            return None;
        }
        for ((p, ty), a) in params.iter().zip(args) {
            match p {
                Pat::Ident(pi) if pi.subpat.is_none() => {
                    let name = pi.ident.to_string();
                    // a body that binds the parameter's name again gets a variable of its own
                    let shadowed = block_bound(&body).contains(&name);
                    if let Some(f) = self.sink_arg(a) {
                        if shadowed {
                            return None;
                        }
                        Rename { from: name, to: f }.visit_block_mut(&mut body);
                        Reborrow(&self.sink_params).visit_block_mut(&mut body);
                        continue;
                    }
                    match a {
                        Expr::Reference(r) if is_place(&r.expr) && !shadowed && pi.mutability.is_none() => {
                            let plain = a.clone();
                            let place = Expr::Paren(ExprParen {
                                attrs: vec![],
                                paren_token: Default::default(),
                                expr: r.expr.clone(),
                            });
                            let place = if matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) {
                                (*r.expr).clone()
                            } else {
                                place
                            };
                            // must not be reassigned
                            subst(&mut body, &name, plain, Some(place));
                        }
                        Expr::Path(pp) if pp.path.get_ident().is_some() && pi.mutability.is_none() && !shadowed => {
                            let is_ref = matches!(ty, Some(Type::Reference(_)));
                            let _ = is_ref;
                            subst(&mut body, &name, a.clone(), None);
                        }
                        _ => {
                            let tmp = self.fresh(&format!("{name}_"));
                            Rename { from: name.clone(), to: tmp.clone() }.visit_block_mut(&mut body);
                            let pat: Pat = if pi.mutability.is_some() {
                                Pat::parse_single_str(&format!("mut {tmp}"))
                            } else {
                                Pat::parse_single_str(&tmp)
                            };
                            lets.push(local(pat, a.clone()));
                        }
                    }
                }
                Pat::Wild(_) => {
                    let tmp = self.fresh("w");
                    lets.push(local(Pat::parse_single_str(&tmp), a.clone()));
                }
                p => {
                    // names bound here must not catch variables of later arguments
                    let mut p = p.clone();
                    let mut names = vec![];
                    bound_idents(&p, &mut names);
                    for n in names {
                        let mut r = Rename { from: n.clone(), to: self.fresh(&format!("{n}_")) };
                        r.visit_pat_mut(&mut p);
                        r.visit_block_mut(&mut body);
                    }
                    lets.push(local(p, a.clone()))
                }
            }
        }
        lets.extend(body.stmts);
        if lets.len() == 1 {
            if let Stmt::Expr(e, None) = &lets[0] {
                return Some(match e {
                    Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Range(_) | Expr::Closure(_) => {
                        Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e.clone()) })
                    }
                    e => e.clone(),
                });
            }
        }
        Some(block_expr(block_of(lets)))
    }

    // ------------------------------------------------------------------ helper inlining
    fn inline_helpers(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            fn try_inline(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
                if self.0.inline_stack.contains(&h.key) || self.0.inline_stack.len() > 8 {
                    return None;
                }
                if h.has_generics_fn {
                    return None;
                }
                let mut body = h.body.clone();
                let mut own_params = h.params.clone();
                self.0.inline_stack.push(h.key.clone());
                // names of the helper's module
                if h.module != self.0.module {
                    if let Some(names) = self.0.w.scope.get(&h.module) {
                        let mut bound = block_bound(&body);
                        for (p, _) in &own_params {
                            bound_idents(p, &mut bound);
                        }
                        let mut q = Qualify { names, bound: &bound };
                        q.visit_block_mut(&mut body);
                        for (_, t) in own_params.iter_mut() {
                            q.visit_type_mut(t);
                        }
                    }
                }
                // `Self` inside the helper
                if let Some(st) = &h.self_ty {
                    ReplaceSelfTy(st.clone()).visit_block_mut(&mut body);
                }
                if has_exit_block(&body) {
                    let opt = h.ret_is_option();
                    self.0.patterns(&mut body);
                    self.0.combinators(&mut body);
                    desugar_try_simple(&mut body, opt);
                    match eliminate_returns(&body.stmts, 0) {
                        Some(v) => body = block_of(v),
                        None => {
                            self.0.inline_stack.pop();
                            return None;
                        }
                    }
                    if has_exit_block(&body) {
                        self.0.inline_stack.pop();
                        return None;
                    }
                }
                if let Some(r) = recv {
                    let place = match &r {
                        Expr::Reference(x) => (*x.expr).clone(),
                        x => x.clone(),
                    };
                    if is_place(&place) {
                        if !is_var(&place, "self") {
                            subst(&mut body, "self", place.clone(), Some(place));
                        }
                    } else {
                        self.0.inline_stack.pop();
                        return None;
                    }
                }
                let params: Vec<(Pat, Option<Type>)> =
                    own_params.iter().map(|(p, t)| (p.clone(), Some(t.clone()))).collect();
                let res = self.0.beta(&params, &args, &body);
                let res = res.map(|mut e| {
                    self.visit_expr_mut(&mut e);
                    e
                });
                self.0.inline_stack.pop();
                if res.is_some() {
                    self.0.out.inlined.push(h.key.clone());
                }
                res
            }
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                match e {
                    Expr::Call(c) => {
                        if let Expr::Path(p) = &*c.func {
                            let n = p.path.segments.len();
                            let last = p.path.segments[n - 1].ident.to_string();
                            let qual = if n > 1 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                            let w = self.0.w;
                            if let Some(hs) = w.helpers.get(&last) {
                                let self_ty = self.0.self_ty.clone();
                                let module = self.0.module.clone();
                                let cands: Vec<&Helper> = hs
                                    .iter()
                                    .filter(|h| match (&qual, &h.self_ty) {
                                        (None, None) => true,
                                        (None, Some(_)) => false,
                                        (Some(q), Some(t)) => {
                                            q == t || (q == "Self" && self_ty.as_deref() == Some(t.as_str()))
                                        }
                                        (Some(q), None) => {
                                            h.module.rsplit("::").next() == Some(q.as_str()) || q == "self" || q == "super" || q == "crate"
                                        }
                                    })
                                    .collect();
                                let cands: Vec<&Helper> = if cands.len() > 1 {
                                    cands.into_iter().filter(|h| h.module == module).collect()
                                } else {
                                    cands
                                };
                                if cands.len() == 1 {
                                    let h = cands[0].clone();
                                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                                    let recv = if h.is_method { Some(args.remove(0)) } else { None };
                                    match self.try_inline(&h, recv, args) {
                                        Some(x) => *e = x,
                                        None => self.0.problem(format!("call of `{}` (no contract, not inlinable)", h.key)),
                                    }
                                }
                            }
                        }
                    }
                    Expr::MethodCall(m) => {
                        let name = m.method.to_string();
                        if self.0.w.known.contains(&name) || (STD_METHODS.contains(&name.as_str()) && !is_var(&m.receiver, "self")) {
                            return;
                        }
                        let w = self.0.w;
                        if let Some(hs) = w.helpers.get(&name) {
                            let cands: Vec<&Helper> = hs.iter().filter(|h| h.is_method).collect();
                            let self_ty = self.0.self_ty.clone();
                            let cands: Vec<&Helper> = if cands.len() > 1 && is_var(&m.receiver, "self") {
                                cands.into_iter().filter(|h| h.self_ty == self_ty).collect()
                            } else {
                                cands
                            };
                            if cands.len() == 1 {
                                let h = cands[0].clone();
                                let args: Vec<Expr> = m.args.iter().cloned().collect();
                                match self.try_inline(&h, Some((*m.receiver).clone()), args) {
                                    Some(x) => *e = x,
                                    None => self.0.problem(format!("call of `{}` (no contract, not inlinable)", h.key)),
                                }
                            } else if !cands.is_empty() {
                                self.0.problem(format!("ambiguous call of method `{name}` without contract"));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    // ------------------------------------------------------------------ patterns
    pub fn patterns(&mut self, b: &mut Block) {
        struct P<'n, 'w> {
            n: &'n mut Norm<'w>,
            binds: Vec<(Pat, String)>,
            guards: Vec<Expr>,
        }
        impl<'n, 'w> VisitMut for P<'n, 'w> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                match p {
                    Pat::Reference(r) => {
                        let f = self.n.fresh("r");
                        if let Pat::Lit(l) = &*r.pat {
                            self.guards.push(path_expr(&format!("*{f} == {}", quote_str(l))));
                        } else {
                            self.binds.push(((*r.pat).clone(), f.clone()));
                        }
                        *p = Pat::parse_single_str(&f);
                    }
                    Pat::Lit(l) => {
                        if let Lit::Str(_) = &l.lit {
                            let f = self.n.fresh("s");
                            let lit = l.lit.clone();
                            let e = path_expr(&format!("{f} == {}", quote_str(&lit)));
                            self.guards.push(e);
                            *p = Pat::parse_single_str(&f);
                        }
                    }
                    Pat::Or(o) => {
                        // "a" | "b" at this position
                        let all_str = o.cases.iter().all(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))));
                        if all_str {
                            let f = self.n.fresh("s");
                            let alts: Vec<String> = o.cases.iter().map(|c| format!("{f} == {}", quote_str(c))).collect();
                            self.guards.push(path_expr(&format!("({})", alts.join(" || "))));
                            *p = Pat::parse_single_str(&f);
                        } else {
                            visit_mut::visit_pat_mut(self, p);
                        }
                    }
                    p => visit_mut::visit_pat_mut(self, p),
                }
            }
        }
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            fn pat(&mut self, p: &mut Pat) -> (Vec<(Pat, String)>, Vec<Expr>) {
                let mut v = P { n: self.0, binds: vec![], guards: vec![] };
                v.visit_pat_mut(p);
                (v.binds, v.guards)
            }
        }
        fn bind_stmts(b: &[(Pat, String)]) -> Vec<Stmt> {
            b.iter().map(|(p, f)| local(p.clone(), path_expr(&format!("*{f}")))).collect()
        }
        fn prepend(e: &mut Expr, s: Vec<Stmt>) {
            if s.is_empty() {
                return;
            }
            if let Expr::Block(b) = e {
                if b.label.is_none() {
                    b.block.stmts.splice(0..0, s);
                    return;
                }
            }
            let mut v = s;
            v.push(expr_stmt(e.clone()));
            *e = block_expr(block_of(v));
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                match e {
                    Expr::Match(m) => {
                        for a in m.arms.iter_mut() {
                            let (binds, guards) = self.pat(&mut a.pat);
                            if let Some((_, g)) = &mut a.guard {
                                for (p, f) in &binds {
                                    if let Pat::Ident(pi) = p {
                                        Subst {
                                            name: pi.ident.to_string(),
                                            plain: path_expr(&format!("(*{f})")),
                                            place: None,
                                        }
                                        .visit_expr_mut(g);
                                    }
                                }
                            }
                            for g in guards {
                                a.guard = Some(match a.guard.take() {
                                    None => (Default::default(), Box::new(g)),
                                    Some((t, og)) => {
                                        let (x, y) = (quote_str(&g), quote_str(&og));
                                        (t, Box::new(path_expr(&format!("({x}) && ({y})"))))
                                    }
                                });
                            }
                            prepend(&mut a.body, bind_stmts(&binds));
                            a.comma = Some(Default::default());
                        }
                    }
                    Expr::If(i) => {
                        let mut repl = None;
                        if let Expr::Let(l) = &mut *i.cond {
                            let (binds, guards) = self.pat(&mut l.pat);
                            let s = bind_stmts(&binds);
                            i.then_branch.stmts.splice(0..0, s);
                            if !guards.is_empty() {
                                let g: Vec<String> = guards.iter().map(|g| format!("({})", quote_str(g))).collect();
                                let el = i.else_branch.as_ref().map(|(_, e)| quote_str(e)).unwrap_or("{}".into());
                                repl = Some(path_expr(&format!(
                                    "match {} {{ {} if {} => {}, _ => {el}, }}",
                                    quote_str(&l.expr),
                                    quote_str(&l.pat),
                                    g.join(" && "),
                                    quote_str(&i.then_branch)
                                )));
                            }
                        }
                        if let Some(r) = repl {
                            *e = r;
                        }
                    }
                    Expr::While(i) => {
                        if let Expr::Let(l) = &mut *i.cond {
                            let (binds, _) = self.pat(&mut l.pat);
                            let s = bind_stmts(&binds);
                            i.body.stmts.splice(0..0, s);
                        }
                    }
                    Expr::ForLoop(i) => {
                        let (binds, _) = self.pat(&mut i.pat);
                        let s = bind_stmts(&binds);
                        i.body.stmts.splice(0..0, s);
                    }
                    Expr::Closure(c) => {
                        let mut all = vec![];
                        for p in c.inputs.iter_mut() {
                            let (binds, _) = self.pat(p);
                            all.extend(bind_stmts(&binds));
                        }
                        prepend(&mut c.body, all);
                    }
                    _ => {}
                }
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                let mut i = 0;
                while i < b.stmts.len() {
                    let mut ins = vec![];
                    let mut repl = None;
                    if let Stmt::Local(l) = &mut b.stmts[i] {
                        let (binds, _) = self.pat(&mut l.pat);
                        ins = bind_stmts(&binds);
                        if let Some(init) = &l.init {
                            if let Some((_, div)) = &init.diverge {
                                // let PAT = e else { div };  =>  let (vars) = match e { PAT => (vars), _ => div };
                                let mut vars = vec![];
                                bound_idents(&l.pat, &mut vars);
                                let p = quote_str(&l.pat);
                                let tup = if vars.len() == 1 { vars[0].clone() } else { format!("({})", vars.join(", ")) };
                                let txt = format!(
                                    "let {tup} = match {} {{ {p} => {tup}, _ => {} }};",
                                    quote_str(&init.expr),
                                    quote_str(div)
                                );
                                let blk: Block = parse_str(&format!("{{ {txt} }}")).unwrap();
                                repl = Some(blk.stmts[0].clone());
                            }
                        }
                    }
                    if let Some(r) = repl {
                        b.stmts[i] = r;
                    }
                    let n = ins.len();
                    for (j, s) in ins.into_iter().enumerate() {
                        b.stmts.insert(i + 1 + j, s);
                    }
                    i += 1 + n;
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    // ------------------------------------------------------------------ combinators
    pub fn combinators(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            /// (pattern, body) of f applied to a value; None if out of reach
            fn apply(&mut self, f: &Expr) -> Option<(String, String)> {
                match f {
                    Expr::Closure(c) => {
                        if c.inputs.len() > 1 {
                            return None;
                        }
                        let mut body = (*c.body).clone();
                        if has_exit_expr(&body) {
                            let mut bl = match body {
                                Expr::Block(b) => b.block,
                                e => block_of(vec![expr_stmt(e)]),
                            };
                            desugar_try_simple(&mut bl, false);
                            let v = eliminate_returns(&bl.stmts, 0)?;
                            body = block_expr(block_of(v));
                            if has_exit_expr(&body) {
                                return None;
                            }
                        }
                        let p = match c.inputs.first() {
                            None => "".to_string(),
                            Some(Pat::Type(t)) => quote_str(&t.pat),
                            Some(p) => quote_str(p),
                        };
                        Some((p, quote_str(&body)))
                    }
                    Expr::Path(p) => {
                        let v = self.0.fresh("v");
                        Some((v.clone(), format!("{}({v})", quote_str(p))))
                    }
                    _ => None,
                }
            }
            fn convert(&mut self, m: &ExprMethodCall) -> Option<String> {
                let name = m.method.to_string();
                let recv = quote_str(&m.receiver);
                let k = self.0.kind_of(&m.receiver);
                if k == "Iter" {
                    return None;
                }
                let a: Vec<&Expr> = m.args.iter().collect();
                let res = k == "Result";
                let v = self.0.fresh("e");
                Some(match (name.as_str(), a.len()) {
                    ("map", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        if res {
                            format!("match {recv} {{ Ok({p}) => Ok({b}), Err({v}) => Err({v}) }}")
                        } else {
                            format!("match {recv} {{ Some({p}) => Some({b}), None => None }}")
                        }
                    }
                    ("map_err", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Ok({v}) => Ok({v}), Err({p}) => Err({b}) }}")
                    }
                    ("and_then", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        if res {
                            format!("match {recv} {{ Ok({p}) => {b}, Err({v}) => Err({v}) }}")
                        } else {
                            format!("match {recv} {{ Some({p}) => {b}, None => None }}")
                        }
                    }
                    ("or_else", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        if res {
                            format!("match {recv} {{ Ok({v}) => Ok({v}), Err({p}) => {b} }}")
                        } else {
                            format!("match {recv} {{ Some({v}) => Some({v}), None => {b} }}")
                        }
                    }
                    ("unwrap_or_else", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        if res {
                            format!("match {recv} {{ Ok({v}) => {v}, Err({p}) => {b} }}")
                        } else {
                            format!("match {recv} {{ Some({v}) => {v}, None => {b} }}")
                        }
                    }
                    ("map_or", 2) => {
                        let (p, b) = self.apply(a[1])?;
                        let d = quote_str(a[0]);
                        let dv = self.0.fresh("d");
                        if res {
                            format!("{{ let {dv} = {d}; match {recv} {{ Ok({p}) => {b}, Err({v}) => {dv} }} }}")
                        } else {
                            format!("{{ let {dv} = {d}; match {recv} {{ Some({p}) => {b}, None => {dv} }} }}")
                        }
                    }
                    ("map_or_else", 2) => {
                        let (p, b) = self.apply(a[1])?;
                        let (p0, b0) = self.apply(a[0])?;
                        if res {
                            format!("match {recv} {{ Ok({p}) => {b}, Err({p0}) => {b0} }}")
                        } else {
                            format!("match {recv} {{ Some({p}) => {b}, None => {b0} }}")
                        }
                    }
                    ("ok_or_else", 1) => {
                        let (_, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Some({v}) => Ok({v}), None => Err({b}) }}")
                    }
                    ("ok_or", 1) => {
                        let dv = self.0.fresh("d");
                        format!("{{ let {dv} = {}; match {recv} {{ Some({v}) => Ok({v}), None => Err({dv}) }} }}", quote_str(a[0]))
                    }
                    ("ok", 0) if res => format!("match {recv} {{ Ok({v}) => Some({v}), Err(_) => None }}"),
                    ("is_some_and", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Some({p}) => {b}, None => false }}")
                    }
                    ("is_none_or", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Some({p}) => {b}, None => true }}")
                    }
                    ("is_ok_and", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Ok({p}) => {b}, Err(_) => false }}")
                    }
                    ("and", 1) if res => {
                        let dv = self.0.fresh("d");
                        format!("{{ let {dv} = {}; match {recv} {{ Ok(_) => {dv}, Err({v}) => Err({v}) }} }}", quote_str(a[0]))
                    }
                    ("unwrap_or", 1) if res => format!("match ({recv}, {}) {{ (Ok({v}), _) => {v}, (Err(_), __d) => __d }}", quote_str(a[0])),
                    ("unwrap_or_default", 0) if res => format!("match {recv} {{ Ok({v}) => {v}, Err(_) => Default::default() }}"),
                    ("is_err_and", 1) => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Err({p}) => {b}, Ok(_) => false }}")
                    }
                    ("err", 0) if res => format!("match {recv} {{ Err({v}) => Some({v}), Ok(_) => None }}"),
                    ("or", 1) if res => format!("match ({recv}, {}) {{ (Ok({v}), _) => Ok({v}), (Err(_), __d) => __d }}", quote_str(a[0])),
                    ("or", 1) if k == "Option" => format!("match ({recv}, {}) {{ (Some({v}), _) => Some({v}), (None, __d) => __d }}", quote_str(a[0])),
                    ("and", 1) if k == "Option" => format!("match ({recv}, {}) {{ (Some(_), __d) => __d, (None, _) => None }}", quote_str(a[0])),
                    ("zip", 1) if k == "Option" => format!("match ({recv}, {}) {{ (Some({v}), Some(__d)) => Some(({v}, __d)), _ => None }}", quote_str(a[0])),
                    ("flatten", 0) if k == "Option" => format!("match {recv} {{ Some({v}) => {v}, None => None }}"),
                    ("transpose", 0) if k == "Option" => {
                        format!("match {recv} {{ Some(Ok({v})) => Ok(Some({v})), Some(Err({v})) => Err({v}), None => Ok(None) }}")
                    }
                    ("transpose", 0) if res => {
                        format!("match {recv} {{ Ok(Some({v})) => Some(Ok({v})), Err({v}) => Some(Err({v})), Ok(None) => None }}")
                    }
                    ("then", 1) if matches!(a[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                        let (_, b) = self.apply(a[0])?;
                        format!("if {recv} {{ Some({b}) }} else {{ None }}")
                    }
                    ("then_some", 1) => format!("match ({recv}, {}) {{ (true, {v}) => Some({v}), _ => None }}", quote_str(a[0])),
                    ("copied" | "cloned", 0) if k == "Option" => format!("match {recv} {{ Some({v}) => Some(*{v}), None => None }}"),
                    ("filter", 1) if k == "Option" => {
                        let (p, b) = self.apply(a[0])?;
                        format!("match {recv} {{ Some({v}) => {{ let {p} = &{v}; if {b} {{ Some({v}) }} else {{ None }} }}, None => None }}")
                    }
                    _ => return None,
                })
            }
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    if let Some(t) = self.convert(m) {
                        match parse_str::<Expr>(&t) {
                            Ok(x) => *e = x,
                            Err(er) => self.0.problem(format!("internal: {er}: {t}")),
                        }
                    }
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    // ------------------------------------------------------------------ `?`
    fn tries(&mut self, b: &mut Block) {
        let opt = self.ret_is_option;
        desugar_try_simple(b, opt);
    }

    // ------------------------------------------------------------------ small rewritings
    fn misc(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            fn is_float(&self, e: &Expr) -> bool {
                match e {
                    Expr::Lit(l) => matches!(l.lit, Lit::Float(_)),
                    Expr::Paren(p) => self.is_float(&p.expr),
                    Expr::Cast(c) => matches!(quote_str(&c.ty).as_str(), "f64" | "f32"),
                    Expr::Call(c) => quote_str(&c.func).replace(' ', "").starts_with("crate::dep::f64_"),
                    Expr::Unary(u) => self.is_float(&u.expr),
                    Expr::Binary(b) => self.is_float(&b.left) || self.is_float(&b.right),
                    _ => false,
                }
            }
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                // an index by `a..=b`
                if let Expr::Index(ix) = e {
                    let mut x = &*ix.index;
                    while let Expr::Paren(p) = x {
                        x = &p.expr;
                    }
                    if let Expr::Range(r) = x {
                        if matches!(r.limits, RangeLimits::Closed(_)) && r.end.is_some() {
                            let (a, z) = (r.start.as_ref().map(quote_str).unwrap_or("0".into()), quote_str(r.end.as_ref().unwrap()));
                            *ix.index = path_expr(&format!("({a})..(({z}) + 1)"));
                        }
                    }
                }
                // comparisons of options
                if let Expr::Binary(b) = e {
                    let some = |x: &Expr| {
                        let mut x = x;
                        while let Expr::Paren(p) = x {
                            x = &p.expr;
                        }
                        match x {
                            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")),
                            Expr::Path(p) => p.path.is_ident("None"),
                            _ => false,
                        }
                    };
                    if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (some(&b.left) || some(&b.right)) {
                        let not = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                        let c = format!("({not}crate::dep::opt_eq(&({}), &({})))", quote_str(&b.left), quote_str(&b.right));
                        *e = parse_str(&c).unwrap();
                    }
                }
                // whole method chains first
                visit_mut::visit_expr_mut(self, e);
                let mut repl: Option<String> = None;
                match e {
                    Expr::MethodCall(m) => {
                        let name = m.method.to_string();
                        let recv = quote_str(&m.receiver);
                        match (name.as_str(), m.args.len()) {
                            ("iter", 0) => {
                                if let Expr::Array(a) = &*m.receiver {
                                    if a.elems.is_empty() {
                                        repl = Some("crate::dep::empty_iter()".into());
                                    }
                                }
                                if repl.is_none() {
                                    m.method = ident("vp_iter");
                                }
                            }
                            ("min" | "max", 1) => repl = Some(format!("crate::dep::vp_{name}({recv}, {})", quote_str(&m.args[0]))),
                            ("chunks", 1) => m.method = ident("vp_chunks"),
                            ("binary_search", 1) => m.method = ident("vp_binary_search"),
                            ("contains", 1) => m.method = ident("vp_contains"),
                            ("as_deref", 0) => m.method = ident("vp_as_deref"),
                            ("by_ref", 0) => repl = Some(format!("(&mut {recv})")),
                            ("into", 0) => repl = Some(format!("crate::dep::into_err({recv})")),
                            _ => {}
                        }
                        // deref of protobuf message fields
                        if let Expr::Field(f) = &*m.receiver {
                            if let Member::Named(n) = &f.member {
                                if self.0.w.message_fields.contains(&n.to_string())
                                    && !["as_ref", "as_mut", "get_or_default", "is_some", "is_none", "unwrap", "clone"].contains(&name.as_str())
                                {
                                    let r = quote_str(&m.receiver);
                                    *m.receiver = path_expr(&format!("{r}.get_or_default()"));
                                }
                            }
                        }
                    }
                    Expr::Field(f) => {
                        if let Expr::Field(inner) = &*f.base {
                            if let Member::Named(n) = &inner.member {
                                if self.0.w.message_fields.contains(&n.to_string()) {
                                    let r = quote_str(&f.base);
                                    *f.base = path_expr(&format!("{r}.get_or_default()"));
                                }
                            }
                        }
                    }
                    Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) && r.start.is_some() && r.end.is_some() => {
                        repl = Some(format!(
                            "crate::dep::std::ops::RangeInclusive::new({}, {})",
                            quote_str(r.start.as_ref().unwrap()),
                            quote_str(r.end.as_ref().unwrap())
                        ));
                    }
                    Expr::Reference(r) => {
                        if let Expr::Array(a) = &*r.expr {
                            if a.elems.is_empty() && r.mutability.is_none() {
                                repl = Some("crate::dep::empty_slice()".into());
                            }
                        }
                    }
                    Expr::Cast(c) => {
                        let t = quote_str(&c.ty);
                        if t == "f64" {
                            repl = Some(format!("crate::dep::f64_from({})", quote_str(&c.expr)));
                        }
                        if matches!(t.as_str(), "i8" | "i16" | "i32" | "i64" | "u8" | "u16" | "u32" | "u64" | "usize" | "isize") {
                            repl = Some(format!("crate::dep::as_{t}({})", quote_str(&c.expr)));
                        }
                    }
                    Expr::Call(c) => {
                        let p = quote_str(&c.func).replace(' ', "");
                        if p == "f64::from" && c.args.len() == 1 {
                            repl = Some(format!("crate::dep::f64_from({})", quote_str(&c.args[0])));
                        }
                        // calls of closure parameters
                        if let Expr::Path(pp) = &*c.func {
                            if let Some(id) = pp.path.get_ident() {
                                if let Some(meth) = self.0.sink_params.get(&id.to_string()) {
                                    let args: Vec<String> = c.args.iter().map(quote_str).collect();
                                    repl = Some(format!("{id}.{meth}({})", args.join(", ")));
                                }
                            }
                        }
                    }
                    Expr::Binary(bn) => {
                        if self.is_float(&bn.left) || self.is_float(&bn.right) {
                            let f = match bn.op {
                                BinOp::Mul(_) => Some("mul"),
                                BinOp::Div(_) => Some("div"),
                                BinOp::Add(_) => Some("add"),
                                BinOp::Sub(_) => Some("sub"),
                                _ => None,
                            };
                            if let Some(f) = f {
                                repl = Some(format!("crate::dep::f64_{f}({}, {})", quote_str(&bn.left), quote_str(&bn.right)));
                            }
                        }
                    }
                    Expr::Unary(u) => {
                        if let UnOp::Neg(_) = u.op {
                            if self.is_float(&u.expr) && !matches!(&*u.expr, Expr::Lit(_)) {
                                repl = Some(format!("crate::dep::f64_neg({})", quote_str(&u.expr)));
                            }
                        }
                    }
                    Expr::Macro(m) => {
                        repl = macro_repl(&m.mac);
                    }
                    _ => {}
                }
                if let Some(t) = repl {
                    match parse_str::<Expr>(&t) {
                        Ok(x) => *e = x,
                        Err(er) => self.0.problem(format!("internal: {er}: {t}")),
                    }
                }
            }
            fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                if let Stmt::Macro(m) = s {
                    if let Some(t) = macro_repl(&m.mac) {
                        if let Ok(mut x) = parse_str::<Expr>(&t) {
                            self.visit_expr_mut(&mut x);
                            *s = Stmt::Expr(x, m.semi_token);
                            return;
                        }
                    }
                }
                visit_mut::visit_stmt_mut(self, s);
            }
        }
        V(self).visit_block_mut(b);
    }

    // ------------------------------------------------------------------ loops
    fn loops(&mut self, b: &mut Block) {
        struct V<'n, 'w>(&'n mut Norm<'w>);
        impl<'n, 'w> V<'n, 'w> {
            fn new_loop(&mut self, kind: &str, it: &str) -> usize {
                let k = self.0.out.loops.len();
                self.0.out.loops.push(LoopInfo { kind: kind.into(), it: it.into(), acc: "__acc".into() });
                k
            }
        }
        /// what the contract puts at the end of the loop body also goes before every `continue` of this loop
        fn body_inner(b: &Block, k: usize) -> String {
            struct C(usize);
            impl VisitMut for C {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    match e {
                        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
                        Expr::Continue(c) if c.label.is_none() => {
                            *e = parse_str(&format!("{{ __vp_m!(l{}_end); continue; }}", self.0)).unwrap();
                        }
                        e => visit_mut::visit_expr_mut(self, e),
                    }
                }
            }
            let mut b = b.clone();
            C(k).visit_block_mut(&mut b);
            b.stmts.iter().map(quote_str).collect::<Vec<_>>().join("\n")
        }
        impl<'n, 'w> VisitMut for V<'n, 'w> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                // pre-order, so that loops are numbered in lexical order
                let mut repl: Option<String> = None;
                let n0 = self.0.out.loops.len();
                let acc = match e {
                    Expr::ForLoop(f) => accumulator(&f.body),
                    Expr::While(f) => accumulator(&f.body),
                    Expr::Loop(f) => accumulator(&f.body),
                    _ => String::new(),
                };
                match e {
                    Expr::ForLoop(f) if f.label.is_none() => {
                        let pat = quote_str(&f.pat);
                        let body = body_inner(&f.body, self.0.out.loops.len());
                        if let Expr::MethodCall(m) = &*f.expr {
                            if m.method == "iter_mut" && m.args.is_empty() && is_place(&m.receiver) {
                                *f.expr = parse_str(&format!("&mut {}", quote_str(&m.receiver))).unwrap();
                            }
                        }
                        match &*f.expr {
                            Expr::Reference(r) if r.mutability.is_some() && is_place(&r.expr) => {
                                let x = quote_str(&r.expr);
                                let k = self.new_loop("mutvec", "");
                                self.0.out.loops[k].it = format!("__i{k}");
                                repl = Some(format!(
                                    "{{ let mut __i{k}: usize = 0; __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); if __i{k} < {x}.len() {{ let __j{k}: usize = __i{k}; __i{k} = __i{k} + 1; let {pat} = &mut {x}[__j{k}]; {body} }} else {{ break; }} __vp_m!(l{k}_end); }} __vp_m!(l{k}_after); }}"
                                ));
                            }
                            Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                                let k = self.new_loop("range", "");
                                self.0.out.loops[k].it = format!("__i{k}");
                                let (s, en) = (quote_str(r.start.as_ref().unwrap()), quote_str(r.end.as_ref().unwrap()));
                                repl = Some(format!(
                                    "{{ let __n{k} = {en}; let mut __i{k} = {s}; __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); if __i{k} < __n{k} {{ let {pat} = __i{k}; __i{k} = __i{k} + 1; {body} }} else {{ break; }} __vp_m!(l{k}_end); }} __vp_m!(l{k}_after); }}"
                                ));
                            }
                            ex => {
                                let k = self.new_loop("iter", "");
                                self.0.out.loops[k].it = format!("__it{k}");
                                let mut x = quote_str(ex);
                                if let Expr::Reference(r) = ex {
                                    x = format!("({}).vp_iter()", quote_str(&r.expr));
                                }
                                repl = Some(format!(
                                    "{{ let mut __it{k} = {x}; __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); match __it{k}.next() {{ Some({pat}) => {{ {body} }} None => {{ break; }} }} __vp_m!(l{k}_end); }} __vp_m!(l{k}_after); }}"
                                ));
                            }
                        }
                    }
                    Expr::While(w) if w.label.is_none() => {
                        let body = body_inner(&w.body, self.0.out.loops.len());
                        if let Expr::Let(l) = &*w.cond {
                            let pat = quote_str(&l.pat);
                            let ex = quote_str(&l.expr);
                            let mut it = String::new();
                            let mut is_iter = false;
                            if let Expr::MethodCall(m) = &*l.expr {
                                if m.args.is_empty() {
                                    it = quote_str(&m.receiver);
                                    is_iter = m.method == "next";
                                }
                            }
                            let k = self.new_loop(if is_iter { "iter" } else { "whilelet" }, &it);
                            repl = Some(format!(
                                "{{ __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); match {ex} {{ {pat} => {{ {body} }} _ => {{ break; }} }} __vp_m!(l{k}_end); }} __vp_m!(l{k}_after); }}"
                            ));
                        } else {
                            let c = quote_str(&w.cond);
                            let k = self.new_loop("cond", "");
                            repl = Some(format!(
                                "{{ __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); if {c} {{ {body} }} else {{ break; }} __vp_m!(l{k}_end); }} __vp_m!(l{k}_after); }}"
                            ));
                        }
                    }
                    Expr::Loop(l) if l.label.is_none() => {
                        let body = body_inner(&l.body, self.0.out.loops.len());
                        let already = body.trim_start().starts_with("__vp_loop");
                        if !already {
                            // an iterator that is advanced by hand
                            let it = pulled(&l.body);
                            let k = self.new_loop("loop", &it);
                            repl = Some(format!("{{ __vp_m!(l{k}_before); loop {{ __vp_loop!(l{k}); __vp_m!(l{k}_begin); {{ {body} }} __vp_m!(l{k}_end); }} }}"));
                        }
                    }
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                        self.0.problem("labelled loop".into());
                    }
                    _ => {}
                }
                if let Some(t) = repl {
                    self.0.out.loops[n0].acc = acc;
                    match parse_str::<Expr>(&t) {
                        Ok(x) => *e = x,
                        Err(er) => self.0.problem(format!("internal: {er}: {t}")),
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        V(self).visit_block_mut(b);
    }

    fn collect_calls(&mut self, b: &Block) {
        struct V<'c>(&'c mut BTreeSet<String>);
        impl<'a, 'c> Visit<'a> for V<'c> {
            fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
                self.0.insert(m.method.to_string());
                visit::visit_expr_method_call(self, m);
            }
            fn visit_expr_path(&mut self, p: &'a ExprPath) {
                if let Some(s) = p.path.segments.last() {
                    self.0.insert(s.ident.to_string());
                }
            }
        }
        V(&mut self.out.calls).visit_block(b);
    }
}

fn macro_repl(m: &Macro) -> Option<String> {
    let name = m.path.segments.last()?.ident.to_string();
    let toks = m.tokens.to_string();
    let args = || -> Vec<Expr> {
        m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default()
    };
    match name.as_str() {
        "vec" if toks.is_empty() => Some("Vec::new()".into()),
        "panic" | "unreachable" | "todo" | "unimplemented" => Some("crate::dep::panic_now()".into()),
        "assert" | "debug_assert" => {
            let a = args();
            Some(format!("if !({}) {{ crate::dep::panic_now() }}", quote_str(a.first()?)))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = args();
            Some(format!("if !({} == {}) {{ crate::dep::panic_now() }}", quote_str(a.first()?), quote_str(a.get(1)?)))
        }
        "matches" => {
            // matches!(e, pat)
            let s = toks;
            let a: Vec<&str> = s.splitn(2, ',').collect();
            if a.len() == 2 && parse_str::<Expr>(a[0]).is_ok() {
                return Some(format!("match {} {{ {} => true, _ => false }}", a[0], a[1]));
            }
            None
        }
        _ => None,
    }
}

fn type_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

pub fn ret_kind(t: &ReturnType) -> String {
    match t {
        ReturnType::Default => "other".into(),
        ReturnType::Type(_, t) => {
            let l = type_last(t);
            if l == "Option" || l == "Result" {
                l
            } else if l.ends_with("Iter") {
                "Iter".into()
            } else {
                "other".into()
            }
        }
    }
}

impl Helper {
    fn ret_is_option(&self) -> bool {
        self.key.ends_with("#opt")
    }
}

fn desugar_try_simple(b: &mut Block, opt: bool) {
    struct V(bool, usize);
    impl VisitMut for V {
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Try(t) = e {
                self.1 += 1;
                let n = self.1;
                let x = quote_str(&t.expr);
                let s = if self.0 {
                    format!("match {x} {{ Some(__q{n}) => __q{n}, None => return None, }}")
                } else {
                    format!("match {x} {{ Ok(__q{n}) => __q{n}, Err(__qe{n}) => return Err(crate::dep::into_err(__qe{n})), }}")
                };
                *e = parse_str(&s).unwrap();
            }
        }
    }
    V(opt, 0).visit_block_mut(b);
}

fn local(p: Pat, e: Expr) -> Stmt {
    Stmt::Local(Local {
        attrs: vec![],
        let_token: Default::default(),
        pat: p,
        init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None }),
        semi_token: Default::default(),
    })
}

trait PatStr {
    fn parse_single_str(s: &str) -> Pat;
}
impl PatStr for Pat {
    fn parse_single_str(s: &str) -> Pat {
        use syn::parse::Parser;
        Pat::parse_single.parse_str(s).unwrap()
    }
}

struct ReplaceSelfTy(String);
impl VisitMut for ReplaceSelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(f) = p.segments.first_mut() {
            if f.ident == "Self" {
                f.ident = ident(&self.0);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `x.into()` as the result of a function, where the conversion is one of the crate's own: `T::from(x)`
pub fn tail_into(b: &mut Block, out: &ReturnType, self_ty: Option<&str>, w: &World) {
    let ReturnType::Type(_, t) = out else { return };
    let Type::Path(tp) = &**t else { return };
    let mut n = tp.path.segments.last().unwrap().ident.to_string();
    if n == "Self" {
        n = self_ty.unwrap_or("").to_string();
    }
    if !w.helpers.get("from").is_some_and(|h| h.iter().any(|h| h.self_ty.as_deref() == Some(n.as_str()))) {
        return;
    }
    let mut p = tp.path.clone();
    for s in p.segments.iter_mut() {
        s.arguments = PathArguments::None;
    }
    fn tail(e: &mut Expr, p: &Path) {
        match e {
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!(#p::from(#r));
            }
            Expr::Return(ExprReturn { expr: Some(r), .. }) => tail(r, p),
            Expr::Paren(x) => tail(&mut x.expr, p),
            Expr::Block(x) => last(&mut x.block, p),
            Expr::If(x) => {
                last(&mut x.then_branch, p);
                if let Some((_, e)) = &mut x.else_branch {
                    tail(e, p);
                }
            }
            Expr::Match(x) => x.arms.iter_mut().for_each(|a| tail(&mut a.body, p)),
            _ => {}
        }
    }
    fn last(b: &mut Block, p: &Path) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            tail(e, p);
        }
    }
    last(b, &p);
}

/// the function as it would read in another module
pub fn qualify(names: &HashMap<String, String>, f: &mut crate::FnRec) {
    let mut bound = block_bound(&f.body);
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            bound_idents(&t.pat, &mut bound);
        }
    }
    for g in &f.sig.generics.params {
        if let GenericParam::Type(t) = g {
            bound.push(t.ident.to_string());
        }
    }
    let mut q = Qualify { names, bound: &bound };
    q.visit_block_mut(&mut f.body);
    q.visit_signature_mut(&mut f.sig);
}

/// names in the scope of another module -> full paths
struct Qualify<'a> {
    names: &'a HashMap<String, String>,
    bound: &'a Vec<String>,
}
impl<'a> VisitMut for Qualify<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() {
            return;
        }
        let f = p.segments[0].ident.to_string();
        if p.segments.len() == 1 && self.bound.contains(&f) {
            return;
        }
        if let Some(full) = self.names.get(&f) {
            let mut q: Path = parse_str(full).unwrap();
            q.segments.last_mut().unwrap().arguments = p.segments[0].arguments.clone();
            for s in p.segments.iter().skip(1) {
                q.segments.push(s.clone());
            }
            *p = q;
        }
    }
}

/// std and dependency paths -> the stub module.
pub struct MapPaths;
pub const EXTERNAL: &[&str] = &["std", "core", "alloc", "protobuf", "byteorder", "flate2", "memmap2", "rayon"];
impl VisitMut for MapPaths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // the verifier does not take a specification for these
        let t = quote_str(&p).replace(' ', "");
        if matches!(t.as_str(), "u32::from_be_bytes" | "u32::from_le_bytes") {
            *p = parse_str(&format!("crate::dep::byteorder::{}", t.replace("::", "_"))).unwrap();
            return;
        }
        if let Some(f) = p.segments.first() {
            let n = f.ident.to_string();
            if EXTERNAL.contains(&n.as_str()) && (p.segments.len() > 1 || p.leading_colon.is_some()) {
                p.leading_colon = None;
                let n2 = if n == "core" || n == "alloc" { "std".to_string() } else { n };
                p.segments[0].ident = ident(&n2);
                p.segments.insert(0, PathSegment { ident: ident("dep"), arguments: PathArguments::None });
                p.segments.insert(0, PathSegment { ident: ident("crate"), arguments: PathArguments::None });
            }
        }
    }
}
