//! Undoes renamed locals: the contracts and loop invariants name the locals of a function, so a consistent
//! renaming of bindings is mapped back to the recorded names (a bijective renaming changes no behaviour).
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

struct Collect(Vec<String>);
impl<'a> Visit<'a> for Collect {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

pub fn collect(sig: &syn::Signature, block: &syn::Block) -> (Vec<String>, Vec<String>) {
    let mut ps = vec![];
    for a in &sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            let mut c = Collect(vec![]);
            c.visit_pat(&t.pat);
            ps.push(c.0.join(","));
        }
    }
    let mut c = Collect(vec![]);
    c.visit_block(block);
    (ps, c.0)
}

fn pairs(base: &[String], cur: &[String], out: &mut Vec<(String, String)>) {
    // longest common subsequence; runs of equal length between matches are paired
    let (n, m) = (base.len(), cur.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if base[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut bi, mut bj): (Vec<&String>, Vec<&String>) = (vec![], vec![]);
    let mut flush = |bi: &mut Vec<&String>, bj: &mut Vec<&String>| {
        if bi.len() == bj.len() {
            for (o, n) in bi.iter().zip(bj.iter()) {
                out.push(((*n).clone(), (*o).clone()));
            }
        }
        bi.clear();
        bj.clear();
    };
    while i < n || j < m {
        if i < n && j < m && base[i] == cur[j] {
            flush(&mut bi, &mut bj);
            i += 1;
            j += 1;
        } else if i < n && (j >= m || t[i + 1][j] >= t[i][j + 1]) {
            bi.push(&base[i]);
            i += 1;
        } else {
            bj.push(&cur[j]);
            j += 1;
        }
    }
    flush(&mut bi, &mut bj);
}

/// new name -> recorded name
pub fn renaming(base: &(Vec<String>, Vec<String>), cur: &(Vec<String>, Vec<String>)) -> BTreeMap<String, String> {
    let mut ps = vec![];
    if base.0.len() == cur.0.len() {
        for (o, n) in base.0.iter().zip(cur.0.iter()) {
            if o != n && !o.is_empty() && !n.is_empty() && !o.contains(',') && !n.contains(',') {
                ps.push((n.clone(), o.clone()));
            }
        }
    }
    pairs(&base.1, &cur.1, &mut ps);
    let bs: BTreeSet<&String> = base.0.iter().chain(base.1.iter()).collect();
    let cs: BTreeSet<&String> = cur.0.iter().chain(cur.1.iter()).collect();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut bad = BTreeSet::new();
    for (n, o) in ps {
        if bs.contains(&n) || cs.contains(&o) {
            continue;
        }
        match m.get(&n) {
            Some(x) if *x != o => {
                bad.insert(n.clone());
            }
            _ => {
                m.insert(n, o);
            }
        }
    }
    m.retain(|k, _| !bad.contains(k));
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for o in m.values() {
        *seen.entry(o.clone()).or_default() += 1;
    }
    m.retain(|_, o| seen[o] == 1);
    m
}

pub struct Rename<'a>(pub &'a BTreeMap<String, String>);
impl Rename<'_> {
    fn ident(&self, i: &mut syn::Ident) -> bool {
        if let Some(o) = self.0.get(&i.to_string()) {
            *i = syn::Ident::new(o, i.span());
            return true;
        }
        false
    }
    fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        let mut dot = false;
        ts.into_iter()
            .map(|t| {
                let r = match t {
                    proc_macro2::TokenTree::Ident(mut i) => {
                        if !dot {
                            self.ident(&mut i);
                        }
                        proc_macro2::TokenTree::Ident(i)
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        let mut h = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                        h.set_span(g.span());
                        proc_macro2::TokenTree::Group(h)
                    }
                    x => x,
                };
                dot = matches!(&r, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
                r
            })
            .collect()
    }
}
impl VisitMut for Rename<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.ident(&mut p.ident);
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            self.ident(&mut p.path.segments[0].ident);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            let before = f.member.clone();
            self.visit_expr_mut(&mut f.expr);
            if let (syn::Member::Named(n), syn::Expr::Path(p)) = (&before, &f.expr) {
                if !p.path.is_ident(n) {
                    f.colon_token = Some(Default::default());
                }
            }
        } else {
            syn::visit_mut::visit_field_value_mut(self, f);
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            let before = f.member.clone();
            self.visit_pat_mut(&mut f.pat);
            if let (syn::Member::Named(n), syn::Pat::Ident(p)) = (&before, &*f.pat) {
                if p.ident != *n {
                    f.colon_token = Some(Default::default());
                }
            }
        } else {
            syn::visit_mut::visit_field_pat_mut(self, f);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

/// `loop { if c { break; } .. }` is `while !c { .. }`; `loop { if c { return e; } .. }` without a break is `while !c { .. } return e;`
pub struct Loops;
struct Breaks(bool);
impl<'a> Visit<'a> for Breaks {
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        let mut b = Breaks(false);
        b.visit_block(&w.body);
        // an unlabelled break belongs to the inner loop; a labelled one is not analysed
        use quote::ToTokens;
        if b.0 && w.body.to_token_stream().to_string().contains("break '") {
            self.0 = true;
        }
    }
}
fn negate(c: &syn::Expr) -> syn::Expr {
    match c {
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (*u.expr).clone(),
        syn::Expr::Paren(p) => negate(&p.expr),
        _ => syn::parse_quote!(!(#c)),
    }
}
fn leading(b: &syn::Block) -> Option<(syn::Expr, Option<syn::Expr>)> {
    let first = b.stmts.first()?;
    let i = match first {
        syn::Stmt::Expr(syn::Expr::If(i), _) => i,
        _ => return None,
    };
    if i.else_branch.is_some() || i.then_branch.stmts.len() != 1 || matches!(&*i.cond, syn::Expr::Let(_)) {
        return None;
    }
    match &i.then_branch.stmts[0] {
        syn::Stmt::Expr(syn::Expr::Break(x), _) if x.label.is_none() && x.expr.is_none() => Some(((*i.cond).clone(), None)),
        syn::Stmt::Expr(syn::Expr::Return(r), _) => Some(((*i.cond).clone(), r.expr.as_ref().map(|e| (**e).clone()))),
        _ => None,
    }
}
struct Conts(bool);
impl<'a> Visit<'a> for Conts {
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn has_cont(s: &syn::Stmt) -> bool {
    let mut c = Conts(false);
    c.visit_stmt(s);
    c.0
}
fn is_cont(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Continue(c) => c.label.is_none(),
        syn::Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], syn::Stmt::Expr(x, _) if is_cont(x)),
        _ => false,
    }
}
/// body of a `for` without `continue`: the statements after a guard move into the other branch
fn no_cont(stmts: &[syn::Stmt]) -> Option<Vec<syn::Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_cont(s) {
            out.push(s.clone());
            continue;
        }
        let rest = || no_cont(&stmts[i + 1..]);
        match s {
            syn::Stmt::Expr(e, _) if is_cont(e) => return Some(out),
            syn::Stmt::Expr(syn::Expr::If(f), _) => {
                let c = &f.cond;
                let th = no_cont(&f.then_branch.stmts)?;
                let th_c = f.then_branch.stmts.iter().any(has_cont);
                let th_last = f.then_branch.stmts.last().map(|x| matches!(x, syn::Stmt::Expr(e, _) if is_cont(e))).unwrap_or(false);
                match &f.else_branch {
                    None if th_last => {
                        let r = rest()?;
                        if th.is_empty() && !matches!(&**c, syn::Expr::Let(_)) {
                            let nc = negate(c);
                            out.push(syn::parse_quote!(if #nc { #(#r)* }));
                        } else {
                            out.push(syn::parse_quote!(if #c { #(#th)* } else { #(#r)* }));
                        }
                        return Some(out);
                    }
                    Some((_, el)) => {
                        let el = match &**el {
                            syn::Expr::Block(b) => &b.block,
                            _ => return None,
                        };
                        let r = rest()?;
                        let el_last = el.stmts.last().map(|x| matches!(x, syn::Stmt::Expr(e, _) if is_cont(e))).unwrap_or(false);
                        let el2 = no_cont(&el.stmts)?;
                        if el_last && !th_c {
                            out.push(syn::parse_quote!(if #c { #(#th)* #(#r)* } else { #(#el2)* }));
                            return Some(out);
                        }
                        if th_last && !el.stmts.iter().any(has_cont) {
                            out.push(syn::parse_quote!(if #c { #(#th)* } else { #(#el2)* #(#r)* }));
                            return Some(out);
                        }
                        return None;
                    }
                    None => return None,
                }
            }
            syn::Stmt::Expr(syn::Expr::Match(m), _) => {
                let r = rest()?;
                let mut m = m.clone();
                let live = m.arms.iter().filter(|a| !is_cont(&a.body)).count();
                if live > 1 && !r.is_empty() {
                    return None;
                }
                for a in m.arms.iter_mut() {
                    if is_cont(&a.body) {
                        *a.body = syn::parse_quote!({});
                    } else {
                        let b = &a.body;
                        *a.body = match &**b {
                            syn::Expr::Block(x) => {
                                let st = no_cont(&x.block.stmts)?;
                                if x.block.stmts.iter().any(has_cont) && !r.is_empty() {
                                    return None;
                                }
                                syn::parse_quote!({ #(#st)* #(#r)* })
                            }
                            x => syn::parse_quote!({ #x; #(#r)* }),
                        };
                    }
                }
                out.push(syn::Stmt::Expr(syn::Expr::Match(m), None));
                return Some(out);
            }
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                let r = rest()?;
                if let Some((_, d)) = &init.diverge {
                    if !is_cont(d) {
                        return None;
                    }
                    let e = &init.expr;
                    out.push(syn::parse_quote!(if let #pat = #e { #(#r)* }));
                    return Some(out);
                }
                match &*init.expr {
                    syn::Expr::Match(m) => {
                        let mut m = m.clone();
                        if m.arms.iter().filter(|a| !is_cont(&a.body)).count() != 1 {
                            return None;
                        }
                        for a in m.arms.iter_mut() {
                            if is_cont(&a.body) {
                                *a.body = syn::parse_quote!({});
                            } else {
                                let b = &a.body;
                                *a.body = syn::parse_quote!({ let #pat = #b; #(#r)* });
                            }
                        }
                        out.push(syn::Stmt::Expr(syn::Expr::Match(m), None));
                        return Some(out);
                    }
                    syn::Expr::If(f) => {
                        let c = &f.cond;
                        let el = match &*f.else_branch.as_ref()?.1 {
                            syn::Expr::Block(b) => b.block.clone(),
                            _ => return None,
                        };
                        let elb: syn::Expr = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: el });
                        if is_cont(&elb) && !f.then_branch.stmts.iter().any(has_cont) {
                            let tb = &f.then_branch;
                            out.push(syn::parse_quote!(if #c { let #pat = #tb; #(#r)* }));
                            return Some(out);
                        }
                        return None;
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(out)
}
impl VisitMut for Loops {
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        syn::visit_mut::visit_expr_for_loop_mut(self, f);
        if f.body.stmts.iter().any(has_cont) {
            if let Some(s) = no_cont(&f.body.stmts) {
                f.body.stmts = s;
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        syn::visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let syn::Stmt::Expr(syn::Expr::Loop(l), _) = &s {
                if l.label.is_none() {
                    if let Some((c, ret)) = leading(&l.body) {
                        let rest: Vec<syn::Stmt> = l.body.stmts[1..].to_vec();
                        let nc = negate(&c);
                        match ret {
                            None => {
                                out.push(syn::parse_quote!(while #nc { #(#rest)* }));
                                continue;
                            }
                            Some(e) => {
                                let mut br = Breaks(false);
                                rest.iter().for_each(|s| br.visit_stmt(s));
                                if !br.0 {
                                    out.push(syn::parse_quote!(while #nc { #(#rest)* }));
                                    out.push(syn::parse_quote!(return #e;));
                                    continue;
                                }
                            }
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
