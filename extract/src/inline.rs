//! Inlining of helper functions that carry no contract (so that extracting a helper from a
//! verified function does not change what is verified).
use proc_macro2::TokenStream;
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};

#[derive(Clone)]
pub struct Helper {
    pub key: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<String>,
}

#[derive(Default)]
pub struct Helpers {
    pub by_name: BTreeMap<String, Vec<Helper>>,
    /// names of methods that carry a contract on some type: calls on a receiver of unknown type are not inlined
    pub contracted: std::collections::BTreeSet<String>,
}

impl Helpers {
    pub fn add(&mut self, key: String, sig: syn::Signature, block: syn::Block, self_ty: Option<String>) {
        let name = sig.ident.to_string();
        self.by_name.entry(name).or_default().push(Helper { key, sig, block, self_ty });
    }
    fn pick(&self, name: &str, caller: &str, ty: Option<&str>) -> Option<&Helper> {
        if ty == Some("?") && self.contracted.contains(name) {
            return None;
        }
        let v = self.by_name.get(name)?;
        let v: Vec<&Helper> = v
            .iter()
            .filter(|h| match (ty, &h.self_ty) {
                (None, None) => true,
                (Some("?"), Some(_)) => true,
                (Some(t), Some(u)) => t == u,
                _ => false,
            })
            .collect();
        if v.len() == 1 {
            return Some(v[0]);
        }
        let cm = caller.rsplit_once("::").map(|x| x.0).unwrap_or("");
        v.into_iter().find(|h| h.key.rsplit_once("::").map(|x| x.0).unwrap_or("") == cm)
    }
}

#[derive(Default)]
struct Flow {
    ret: bool,
    tri: bool,
    closure: usize,
}
impl<'a> syn::visit::Visit<'a> for Flow {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.ret = true;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tri = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {
        self.closure += 1;
    }
}
fn flow(b: &syn::Block) -> Flow {
    let mut f = Flow::default();
    syn::visit::Visit::visit_block(&mut f, b);
    f
}
fn has_ret(s: &syn::Stmt) -> bool {
    let mut f = Flow::default();
    syn::visit::Visit::visit_stmt(&mut f, s);
    f.ret
}
fn ret_only(b: &syn::Block) -> Option<(Vec<syn::Stmt>, Expr)> {
    // a block whose last statement is `return e;` and which has no other return
    let (last, init) = b.stmts.split_last()?;
    if init.iter().any(has_ret) {
        return None;
    }
    if let syn::Stmt::Expr(Expr::Return(r), _) = last {
        let e = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
        return Some((init.to_vec(), e));
    }
    None
}

/// eliminate guard-style returns: `if c { ..; return e; } rest` => `if c { ..; e } else { rest }`
fn elim(stmts: &[syn::Stmt]) -> Option<Vec<syn::Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_ret(s) {
            out.push(s.clone());
            continue;
        }
        match s {
            syn::Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
                out.push(syn::Stmt::Expr(e, None));
                return Some(out);
            }
            syn::Stmt::Expr(Expr::If(f), _) => {
                let c = &f.cond;
                if f.else_branch.is_none() {
                    let (pre, e) = ret_only(&f.then_branch)?;
                    let rest = elim(&stmts[i + 1..])?;
                    out.push(syn::Stmt::Expr(parse_quote!(if #c { #(#pre)* #e } else { #(#rest)* }), None));
                    return Some(out);
                }
                if i + 1 == stmts.len() {
                    // tail if/else: eliminate inside both
                    let th = elim(&f.then_branch.stmts)?;
                    let el: Expr = match &*f.else_branch.as_ref().unwrap().1 {
                        Expr::Block(b) => {
                            let x = elim(&b.block.stmts)?;
                            parse_quote!({ #(#x)* })
                        }
                        Expr::If(i2) => {
                            let x = elim(&[syn::Stmt::Expr(Expr::If(i2.clone()), None)])?;
                            parse_quote!({ #(#x)* })
                        }
                        _ => return None,
                    };
                    out.push(syn::Stmt::Expr(parse_quote!(if #c { #(#th)* } else #el), None));
                    return Some(out);
                }
                return None;
            }
            syn::Stmt::Expr(Expr::Match(m), _) if i + 1 == stmts.len() => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    if let Expr::Return(r) = &*a.body {
                        *a.body = r.expr.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
                    } else if let Expr::Block(b) = &*a.body {
                        let x = elim(&b.block.stmts)?;
                        *a.body = parse_quote!({ #(#x)* });
                    }
                }
                out.push(syn::Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

struct Subst {
    map: BTreeMap<String, Expr>, // ident -> place expression (for reference parameters)
    place: BTreeMap<String, Expr>,
}
impl VisitMut for Subst {
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default()); // shorthand
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(x) = self.place.get(&i.to_string()) {
                            *e = x.clone();
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Field(f) = e {
            if let Expr::Path(p) = &*f.base {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = self.place.get(&i.to_string()) {
                        *f.base = x.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = self.place.get(&i.to_string()) {
                        *m.receiver = x.clone();
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.map.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct SelfTy(String);
impl VisitMut for SelfTy {
    fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
        if s.ident == "Self" {
            s.ident = format_ident!("{}", self.0);
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
}

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && simple_place(&u.expr),
        _ => false,
    }
}

struct Inl<'a> {
    helpers: &'a Helpers,
    caller: &'a str,
    self_ty: Option<&'a str>,
    inlined: &'a mut Vec<String>,
    notes: &'a mut Vec<String>,
    depth: usize,
    n: usize,
    clo: usize,
    stack: Vec<String>,
}

#[derive(PartialEq, Clone, Copy)]
enum Pos {
    Plain,
    Try,
    Tail,
}

impl<'a> Inl<'a> {
    fn expand(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, pos: Pos) -> Option<Expr> {
        if self.depth > 6 || self.stack.contains(&h.key) || !h.sig.generics.params.is_empty() {
            self.notes.push(format!("structure: helper {} not inlined (recursion/generic)", h.key));
            return None;
        }
        let mut block = h.block.clone();
        let mut sig = h.sig.clone();
        // locals of the helper that collide with identifiers of the arguments would capture them: rename those
        {
            let mut ids = std::collections::BTreeSet::new();
            for a in args.iter().chain(recv.iter()) {
                idents(a.to_token_stream(), &mut ids);
            }
            let (_, ls) = crate::locals::collect(&sig, &block);
            let map: BTreeMap<String, String> =
                ls.into_iter().filter(|l| ids.contains(l)).map(|l| (l.clone(), format!("__c{}_{}", self.n + 1, l))).collect();
            if !map.is_empty() {
                let mut r = crate::locals::Rename(&map);
                r.visit_block_mut(&mut block);
                r.visit_signature_mut(&mut sig);
            }
        }
        let fl = flow(&block);
        if (fl.ret || fl.tri) && pos != Pos::Tail {
            if fl.ret {
                match elim(&block.stmts) {
                    Some(s) => block.stmts = s,
                    None => {
                        self.notes.push(format!("structure: helper {} has non-guard returns", h.key));
                        return None;
                    }
                }
            }
            if fl.tri && pos == Pos::Plain {
                self.notes.push(format!("structure: helper {} uses ? but is not called with ?", h.key));
                return None;
            }
        }
        self.n += 1;
        let tag = self.n;
        let mut pre: Vec<syn::Stmt> = vec![];
        let mut sub = Subst { map: BTreeMap::new(), place: BTreeMap::new() };
        let mut ai = args.into_iter();
        for inp in &sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => {
                    if let Some(r) = &recv {
                        if r.to_token_stream().to_string() != "self" {
                            if !simple_place(r) {
                                self.notes.push(format!("structure: helper {} receiver", h.key));
                                return None;
                            }
                            sub.place.insert("self".into(), r.clone());
                            sub.map.insert("self".into(), r.clone());
                        }
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let (name, mutab) = match &*t.pat {
                        syn::Pat::Ident(i) => (i.ident.clone(), i.mutability.is_some()),
                        syn::Pat::Wild(_) => (format_ident!("__unused{}", tag), false),
                        _ => return None,
                    };
                    let is_ref = matches!(&*t.ty, syn::Type::Reference(_));
                    let tmp = format_ident!("__h{}_{}", tag, name);
                    if is_ref {
                        if let Expr::Reference(r) = &a {
                            if simple_place(&r.expr) {
                                sub.place.insert(name.to_string(), (*r.expr).clone());
                                sub.map.insert(name.to_string(), parse_quote!((#a)));
                                continue;
                            }
                        }
                        if simple_place(&a) {
                            // already a reference variable: substitute it directly
                            sub.map.insert(name.to_string(), a.clone());
                            continue;
                        }
                        let s: syn::Stmt = parse_quote!(let #tmp = #a;);
                        pre.push(s);
                        sub.map.insert(name.to_string(), parse_quote!(#tmp));
                        continue;
                    }
                    let ty = &t.ty;
                    if let syn::Type::Path(tp) = &**ty {
                        let last = tp.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if last == "Deps" || last == "DepsMut" {
                            if let Expr::Path(_) = &a {
                                sub.map.insert(name.to_string(), a.clone());
                            } else {
                                pre.push(parse_quote!(let #tmp = #a;));
                                sub.map.insert(name.to_string(), parse_quote!(#tmp));
                            }
                            continue;
                        }
                    }
                    let s: syn::Stmt = if mutab { parse_quote!(let mut #tmp: #ty = #a;) } else { parse_quote!(let #tmp: #ty = #a;) };
                    pre.push(s);
                    sub.map.insert(name.to_string(), parse_quote!(#tmp));
                }
            }
        }
        // parameters shadowed by a local of the same name inside the body would be captured: rename is not done, refuse
        let mut locals = Locals(vec![]);
        syn::visit::Visit::visit_block(&mut locals, &block);
        for l in &locals.0 {
            if sub.map.contains_key(l) {
                // shadowing: bind by plain let instead of substitution
                if let Some(x) = sub.map.get(l).cloned() {
                    if sub.place.contains_key(l) {
                        self.notes.push(format!("structure: helper {} shadows a reference parameter", h.key));
                        return None;
                    }
                    let id = format_ident!("{}", l);
                    pre.push(parse_quote!(let #id = #x;));
                    sub.map.remove(l);
                }
            }
        }
        sub.visit_block_mut(&mut block);
        if let Some(t) = &h.self_ty {
            SelfTy(t.clone()).visit_block_mut(&mut block);
        }
        self.inlined.push(h.key.clone());
        // nested helpers
        self.depth += 1;
        self.stack.push(h.key.clone());
        let saved = self.self_ty;
        self.visit_block_mut(&mut block);
        self.self_ty = saved;
        self.stack.pop();
        self.depth -= 1;
        let st = &block.stmts;
        if pos != Pos::Tail {
            if let syn::ReturnType::Type(_, t) = &h.sig.output {
                let mut t = (**t).clone();
                if let Some(x) = &h.self_ty {
                    SelfTy(x.clone()).visit_type_mut(&mut t);
                }
                if t.to_token_stream().to_string().contains("Result") {
                    let r = format_ident!("__hr{}", tag);
                    return Some(parse_quote!({ #(#pre)* let #r: #t = { #(#st)* }; #r }));
                }
            }
        }
        if pre.is_empty() && st.len() == 1 {
            if let syn::Stmt::Expr(e, None) = &st[0] {
                return Some(parse_quote!((#e)));
            }
        }
        Some(parse_quote!({ #(#pre)* #(#st)* }))
    }

    fn try_inline(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => p,
                    _ => return None,
                };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let mut ty: Option<String> = None;
                if segs.len() >= 2 {
                    let q = &segs[segs.len() - 2];
                    if q == "Self" {
                        ty = self.self_ty.map(|s| s.to_string());
                    } else if q.chars().next().unwrap().is_uppercase() {
                        ty = Some(q.clone());
                    }
                }
                let h = self.helpers.pick(&name, self.caller, ty.as_deref())?.clone();
                if h.key == self.caller {
                    return None;
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if matches!(h.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    recv = Some(args.remove(0));
                }
                self.expand(&h, recv, args, pos)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = m.receiver.to_token_stream().to_string();
                let ty: Option<String> = if r == "self" { self.self_ty.map(|s| s.to_string()) } else { Some("?".into()) };
                let h = self.helpers.pick(&name, self.caller, ty.as_deref())?.clone();
                if h.key == self.caller || !matches!(h.sig.inputs.first(), Some(syn::FnArg::Receiver(_))) {
                    return None;
                }
                self.expand(&h, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), pos)
            }
            _ => None,
        }
    }

    fn tail(&mut self, b: &mut syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }

    /// an expression whose value is what the function returns
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(r) = self.try_inline(&e.clone(), Pos::Tail) {
                    *e = r;
                }
            }
            Expr::Paren(p) => self.tail_expr(&mut p.expr),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
            Expr::Block(b) if b.label.is_none() => self.tail(&mut b.block),
            Expr::If(i) => {
                self.tail(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail_expr(&mut a.body);
                }
            }
            _ => {}
        }
    }
}

struct Locals(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let mut p = PatIds(vec![]);
        syn::visit::Visit::visit_pat(&mut p, &l.pat);
        self.0.extend(p.0);
        syn::visit::visit_local(self, l);
    }
}
struct PatIds(Vec<String>);
impl<'a> syn::visit::Visit<'a> for PatIds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
    }
}

fn idents(ts: TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        self.clo += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.clo -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.clo == 0 {
            if let Expr::Return(r) = e {
                if let Some(x) = &mut r.expr {
                    self.tail_expr(x);
                }
            }
        }
        if let Expr::Try(t) = e {
            let inner = (*t.expr).clone();
            let cand = match &inner {
                Expr::Paren(p) => (*p.expr).clone(),
                x => x.clone(),
            };
            if let Some(r) = self.try_inline(&cand, Pos::Try) {
                *t.expr = r;
                return;
            }
        }
        if let Some(r) = self.try_inline(&e.clone(), Pos::Plain) {
            *e = r;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn inline_block(
    helpers: &Helpers,
    key: &str,
    block: &mut syn::Block,
    self_ty: Option<&str>,
    inlined: &mut Vec<String>,
    notes: &mut Vec<String>,
) {
    let mut i = Inl { helpers, caller: key, self_ty, inlined, notes, depth: 0, n: 0, clo: 0, stack: vec![] };
    i.tail(block);
    i.visit_block_mut(block);
    let _: Option<TokenStream> = None;
}

/// `let f = |a, b| body; ... f(x, y)`  ->  `... { let (a, b) = (x, y); body }` when f is only called
pub struct Closures;
struct CallSub {
    name: String,
    clo: syn::ExprClosure,
    other: bool,
    dry: bool,
}
impl VisitMut for CallSub {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.clo.inputs.len() {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if !self.dry {
                    let args: Vec<&Expr> = c.args.iter().collect();
                    let mut pats: Vec<syn::Pat> = vec![];
                    let mut tys: Vec<syn::Type> = vec![];
                    for p in &self.clo.inputs {
                        match p {
                            syn::Pat::Type(t) => {
                                pats.push((*t.pat).clone());
                                tys.push((*t.ty).clone());
                            }
                            p => {
                                pats.push(p.clone());
                                tys.push(parse_quote!(_));
                            }
                        }
                    }
                    let body = &self.clo.body;
                    *e = if args.is_empty() {
                        parse_quote!({ #body })
                    } else {
                        parse_quote!({ let (#(#pats,)*): (#(#tys,)*) = (#(#args,)*); #body })
                    };
                }
                return;
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.other = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let syn::Stmt::Local(l) = &b.stmts[i] {
                if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        let t = c.body.to_token_stream().to_string();
                        if !t.contains("return") && !t.contains('?') {
                            found = Some((p.ident.to_string(), c.clone()));
                        }
                    }
                }
            }
            if let Some((name, clo)) = found {
                let mut cs = CallSub { name, clo, other: false, dry: true };
                for s in b.stmts[i + 1..].iter_mut() {
                    cs.visit_stmt_mut(s);
                }
                if !cs.other {
                    cs.dry = false;
                    for s in b.stmts[i + 1..].iter_mut() {
                        cs.visit_stmt_mut(s);
                    }
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
