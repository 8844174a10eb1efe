use crate::Ctx;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};

pub type CV = (bool, u128); // (negative, magnitude)

fn add(a: CV, b: CV) -> Option<CV> {
    if a.0 == b.0 {
        Some((a.0, a.1.checked_add(b.1)?))
    } else if a.1 >= b.1 {
        Some((a.0 && a.1 != b.1, a.1 - b.1))
    } else {
        Some((b.0, b.1 - a.1))
    }
}

pub fn eval(e: &Expr, c: &BTreeMap<String, CV>) -> Option<CV> {
    match e {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some((false, i.base10_parse::<u128>().ok()?)),
            _ => None,
        },
        Expr::Paren(p) => eval(&p.expr, c),
        Expr::Group(p) => eval(&p.expr, c),
        Expr::Cast(x) => {
            let v = eval(&x.expr, c)?;
            let ty = x.ty.to_token_stream().to_string();
            if fits(v, &ty) {
                Some(v)
            } else {
                None
            }
        }
        Expr::Path(p) => {
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            match s.as_str() {
                "u128::MAX" => return Some((false, u128::MAX)),
                "u64::MAX" => return Some((false, u64::MAX as u128)),
                "u32::MAX" => return Some((false, u32::MAX as u128)),
                "i32::MAX" => return Some((false, i32::MAX as u128)),
                _ => {}
            }
            c.get(&p.path.segments.last()?.ident.to_string()).copied()
        }
        Expr::Unary(u) => match u.op {
            syn::UnOp::Neg(_) => {
                let v = eval(&u.expr, c)?;
                Some((!v.0 && v.1 != 0, v.1))
            }
            _ => None,
        },
        Expr::Binary(b) => {
            let l = eval(&b.left, c)?;
            let r = eval(&b.right, c)?;
            match b.op {
                syn::BinOp::Add(_) => add(l, r),
                syn::BinOp::Sub(_) => add(l, (!r.0 && r.1 != 0, r.1)),
                syn::BinOp::Mul(_) => Some((l.0 ^ r.0 && l.1 != 0 && r.1 != 0, l.1.checked_mul(r.1)?)),
                syn::BinOp::Div(_) if r.1 != 0 => {
                    let m = l.1 / r.1;
                    Some(((l.0 ^ r.0) && m != 0, m))
                }
                syn::BinOp::Shl(_) if !l.0 && !r.0 && r.1 < 128 => {
                    let v = l.1 << r.1;
                    if v >> r.1 == l.1 {
                        Some((false, v))
                    } else {
                        None
                    }
                }
                syn::BinOp::Shr(_) if !l.0 && !r.0 && r.1 < 128 => Some((false, l.1 >> r.1)),
                _ => None,
            }
        }
        _ => None,
    }
}

pub fn fits(v: CV, ty: &str) -> bool {
    let (neg, m) = v;
    match ty {
        "u8" => !neg && m <= u8::MAX as u128,
        "u16" => !neg && m <= u16::MAX as u128,
        "u32" => !neg && m <= u32::MAX as u128,
        "u64" | "usize" => !neg && m <= u64::MAX as u128,
        "u128" => !neg,
        "i32" => {
            if neg {
                m <= 1 << 31
            } else {
                m < 1 << 31
            }
        }
        "i64" => m < 1 << 63,
        "i128" => m < 1 << 127,
        _ => false,
    }
}

pub fn mentions(t: &syn::Type, what: &str) -> bool {
    t.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == what)
}

/// Some(true) if some parameter is `&mut dyn Storage` / `DepsMut`, Some(false) for `&dyn Storage`
pub fn storage_param(sig: &syn::Signature) -> Option<bool> {
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if mentions(&t.ty, "Storage") {
                if let syn::Type::Reference(r) = &*t.ty {
                    return Some(r.mutability.is_some());
                }
            }
        }
    }
    None
}

struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::TraitObject(o) = t {
            if o.dyn_token.is_some() {
                let b = &o.bounds;
                *t = parse_quote!(#b);
            }
        }
        if let syn::Type::Path(p) = t {
            if let Some(l) = p.path.segments.last_mut() {
                // drop lifetimes
                if let syn::PathArguments::AngleBracketed(a) = &mut l.arguments {
                    let args: Vec<_> = a.args.iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
                    a.args = args.into_iter().collect();
                }
            }
            let s = p.path.to_token_stream().to_string().replace(' ', "");
            if s == "core::result::Result" || s.starts_with("core::result::Result<") {
                let segs: Vec<_> = p.path.segments.iter().cloned().collect();
                let l = segs.last().unwrap();
                *t = parse_quote!(#l);
            }
        }
        if let syn::Type::Reference(r) = t {
            r.lifetime = None;
        }
        if let syn::Type::Path(p) = t {
            if p.path.is_ident("str") {
                *t = parse_quote!(String);
            }
        }
    }
}

pub fn fix_type(t: &mut syn::Type) {
    TypeFix.visit_type_mut(t);
}

/// the single target of `TryInto<..>` bounds, which is what drives inference in the original
pub fn tryinto_hint(g: &syn::Generics) -> Option<syn::Type> {
    struct F(Vec<syn::Type>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_path_segment(&mut self, s: &'a syn::PathSegment) {
            if s.ident == "TryInto" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        if !self.0.iter().any(|x| x.to_token_stream().to_string() == t.to_token_stream().to_string()) {
                            self.0.push(t.clone());
                        }
                    }
                }
            }
            syn::visit::visit_path_segment(self, s);
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_generics(&mut f, g);
    if f.0.len() == 1 {
        f.0.pop()
    } else {
        None
    }
}

pub fn fix_generics(g: &mut syn::Generics) {
    g.where_clause = None;
    for p in g.params.iter_mut() {
        if let syn::GenericParam::Type(t) = p {
            let mut out: syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]> = Default::default();
            for b in t.bounds.iter() {
                let s = b.to_token_stream().to_string().replace(' ', "");
                if s.starts_with("TryFrom") || s.starts_with("TryInto") || s.starts_with("From") {
                    continue;
                }
                out.push(b.clone());
            }
            if out.is_empty() {
                out.push(parse_quote!(VNum));
            }
            t.bounds = out;
        }
    }
}

pub fn fix_sig(sig: &mut syn::Signature) {
    fix_generics(&mut sig.generics);
    for i in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = i {
            let s = t.ty.to_token_stream().to_string();
            if s == "DepsMut" {
                *t.ty = parse_quote!(&mut DepsMut);
            } else if s == "Deps" {
                *t.ty = parse_quote!(&DepsMut);
            } else {
                fix_type(&mut t.ty);
            }
            if let syn::Type::ImplTrait(it) = &*t.ty {
                let s = it.to_token_stream().to_string();
                if s.contains("Iterator") && s.contains("u16") {
                    *t.ty = parse_quote!(Vec<u16>);
                }
            }
            t.attrs.clear();
        }
    }
    if let syn::ReturnType::Type(_, t) = &mut sig.output {
        fix_type(t);
    }
}

pub struct Rewriter {
    consts: BTreeMap<String, CV>,
    mut_fns: BTreeSet<String>,
    ro_fns: BTreeSet<String>,
    mut_params: BTreeSet<String>, // names of `&mut dyn Storage` params
    pub loops: usize,
    pub notes: Vec<String>,
    deps_mut: bool,
    tryinto: Option<syn::Type>,
    params: BTreeSet<String>,
    pub panicops: bool,
    in_index: bool,
    opt_params: BTreeSet<String>,
}

fn is_panic(e: &Expr) -> bool {
    match e {
        Expr::Macro(m) => {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            n == "panic" || n == "unreachable" || n == "unimplemented" || n == "todo"
        }
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], syn::Stmt::Expr(e, _) if is_panic(e)),
        Expr::Call(c) => c.func.to_token_stream().to_string() == "vpanic",
        _ => false,
    }
}

fn int_ty(s: &str) -> bool {
    matches!(s, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128")
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

impl Rewriter {
    pub fn new(ctx: &Ctx, sig: &syn::Signature) -> Self {
        let mut mut_params = BTreeSet::new();
        let mut deps_mut = false;
        let mut params = BTreeSet::new();
        let mut opt_params = BTreeSet::new();
        for i in &sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                if let syn::Pat::Ident(p) = &*t.pat {
                    params.insert(p.ident.to_string());
                    if t.ty.to_token_stream().to_string().starts_with("Option <") {
                        opt_params.insert(p.ident.to_string());
                    }
                    if mentions(&t.ty, "Storage") {
                        if let syn::Type::Reference(r) = &*t.ty {
                            if r.mutability.is_some() {
                                mut_params.insert(p.ident.to_string());
                            }
                        }
                    }
                    if mentions(&t.ty, "DepsMut") {
                        deps_mut = true;
                    }
                }
            }
        }
        Rewriter {
            consts: ctx.consts.clone(),
            mut_fns: ctx.mut_storage_fns.clone(),
            ro_fns: ctx.ro_storage_fns.clone(),
            mut_params,
            loops: 0,
            notes: vec![],
            deps_mut,
            tryinto: ctx.tryinto.clone(),
            params,
            panicops: false,
            in_index: false,
            opt_params,
        }
    }

    fn fix_storage_arg(&mut self, a: &mut Expr, needs_mut: bool) {
        let s = a.to_token_stream().to_string().replace(' ', "");
        if s == "deps.storage" {
            *a = if needs_mut { parse_quote!(&mut deps.storage) } else { parse_quote!(&deps.storage) };
        } else if s == "deps.as_ref()" {
            *a = if self.deps_mut { parse_quote!(&*deps) } else { parse_quote!(deps) };
        } else if self.mut_params.contains(&s) && !needs_mut {
            let e = a.clone();
            *a = parse_quote!(&*#e);
        }
    }

    fn closure1(e: &Expr) -> Option<(Vec<syn::Pat>, Expr)> {
        if let Expr::Closure(c) = strip(e) {
            let ps: Vec<syn::Pat> = c
                .inputs
                .iter()
                .map(|p| match p {
                    syn::Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect();
            return Some((ps, (*c.body).clone()));
        }
        None
    }

    /// string literals / format!() used as error payloads
    fn stringify(e: Expr) -> Expr {
        match strip(&e) {
            Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => parse_quote!(vstr()),
            Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "format" => parse_quote!(vstr()),
            _ => e,
        }
    }

    fn method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        match (name.as_str(), args.len()) {
            ("unwrap", 0) | ("expect", 1) => Some(parse_quote!(#recv.vunwrap())),
            ("unwrap_or_else", 1) => {
                let (ps, body) = Self::closure1(args[0])?;
                if is_panic(&body) {
                    return Some(parse_quote!(#recv.vunwrap()));
                }
                if ps.is_empty() {
                    Some(parse_quote!((match #recv { Some(__v) => __v, None => #body })))
                } else {
                    let p = &ps[0];
                    Some(parse_quote!((match #recv { Ok(__v) => __v, Err(#p) => #body })))
                }
            }
            ("map_err", 1) => {
                if let Some((ps, body)) = Self::closure1(args[0]) {
                    let p = ps.get(0)?;
                    let body = Self::stringify(body);
                    Some(parse_quote!((match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#body) })))
                } else {
                    let f = args[0];
                    Some(parse_quote!((match #recv { Ok(__v) => Ok(__v), Err(__e) => Err(#f(__e)) })))
                }
            }
            ("ok_or", 1) => {
                let e = Self::stringify(args[0].clone());
                Some(parse_quote!((match #recv { Some(__v) => Ok(__v), None => Err(#e) })))
            }
            ("ok_or_else", 1) => {
                let (_, body) = Self::closure1(args[0])?;
                let body = Self::stringify(body);
                Some(parse_quote!((match #recv { Some(__v) => Ok(__v), None => Err(#body) })))
            }
            ("try_into", 0) => {
                let mut base = strip(recv);
                if let Expr::MethodCall(g) = base {
                    if g.method == "get" && g.args.is_empty() {
                        base = strip(&g.receiver);
                    }
                }
                let is_param = self.params.contains(&base.to_token_stream().to_string());
                if let (Some(t), true) = (&self.tryinto, is_param) {
                    return Some(parse_quote!(#recv.vtry_into::<#t>()));
                }
                Some(parse_quote!(#recv.vtry_into()))
            }
            ("into", 0) => Some(parse_quote!(#recv.vinto())),
            ("to_string", 0) => Some(parse_quote!(#recv.vto_string())),
            ("unwrap_or", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vunwrap_or(#a)))
            }
            ("to_be_bytes", 0) => Some(parse_quote!(#recv.vto_be())),
            ("to_vec", 0) => Some(parse_quote!(#recv.vto_vec())),
            ("count_ones", 0) => Some(parse_quote!(#recv.vcount_ones())),
            ("min", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vminof(#a)))
            }
            ("max", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vmaxof(#a)))
            }
            ("saturating_add", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vsat_add(#a)))
            }
            ("saturating_sub", 1) => {
                let a = &args[0];
                Some(parse_quote!(#recv.vsat_sub(#a)))
            }
            ("checked_rem", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vchecked_rem(#a)))
            }
            ("checked_shl", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vchecked_shl(#a)))
            }
            ("extend_from_slice", 1) => {
                let a = args[0];
                Some(parse_quote!(#recv.vextend(#a)))
            }
            ("append", 1) => match strip(args[0]) {
                Expr::Reference(r) if matches!(strip(&r.expr), Expr::MethodCall(_) | Expr::Call(_)) => {
                    let x = &r.expr;
                    Some(parse_quote!(#recv.vextend(&#x)))
                }
                _ => None,
            },
            ("contains", 1) => {
                if let (Expr::Range(r), Expr::Reference(a)) = (strip(recv), strip(args[0])) {
                    let (lo, hi, x) = (r.start.as_ref()?, r.end.as_ref()?, &a.expr);
                    return Some(if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                        parse_quote!((#lo <= #x && #x <= #hi))
                    } else {
                        parse_quote!((#lo <= #x && #x < #hi))
                    });
                }
                let a = args[0];
                Some(parse_quote!(#recv.vcontains(#a)))
            }
            ("retain", 1) => {
                let (ps, body) = Self::closure1(args[0])?;
                let p = ps.get(0)?.clone();
                let k = self.loops;
                self.loops += 1;
                let i = format_ident!("__i{}", k);
                let s = format_ident!("__s{}", k);
                let r = format_ident!("__r{}", k);
                Some(parse_quote!({
                    let mut #r = Vec::new();
                    let #s = &#recv;
                    let mut #i: usize = 0;
                    while #i < #s.len() {
                        __vloop!(#k);
                        let #p = &#s[#i];
                        if #body { #r.push(#s[#i].clone()); }
                        #i = #i + 1;
                    }
                    #recv = #r;
                }))
            }
            ("rev", 0) => Some(parse_quote!(#recv.vrev())),
            // raw bounds are the raw key itself
            ("map", 1) if args[0].to_token_stream().to_string().replace(' ', "").ends_with("Bound::ExclusiveRaw") => Some((**recv).clone()),
            ("map", 1) if self.opt_params.contains(&recv.to_token_stream().to_string()) => {
                let (ps, body) = Self::closure1(args[0])?;
                let p = ps.get(0)?;
                Some(parse_quote!((match #recv { Some(#p) => Some(#body), None => None })))
            }
            ("range_raw", 4) | ("keys_raw", 4) if args[2].to_token_stream().to_string() == "None" && args[3].to_token_stream().to_string().ends_with("Ascending") => {
                let (st, a) = (args[0], args[1]);
                let f = format_ident!("v{}", name);
                Some(parse_quote!(#recv.#f(#st, #a)))
            }
            ("unwrap_or_default", 0) => Some(parse_quote!(#recv.vunwrap_or_default())),
            ("ne", 1) => match strip(args[0]) {
                Expr::Reference(r) => {
                    let x = &r.expr;
                    Some(parse_quote!((#recv != #x)))
                }
                x => Some(parse_quote!((!#recv.veq(#x)))),
            },
            ("eq", 1) => match strip(args[0]) {
                Expr::Reference(r) => {
                    let x = &r.expr;
                    Some(parse_quote!((#recv == #x)))
                }
                x => Some(parse_quote!(#recv.veq(#x))),
            },
            ("as_ref", 0) if recv.to_token_stream().to_string() == "deps" => {
                if self.deps_mut {
                    Some(parse_quote!(&*deps))
                } else {
                    Some(parse_quote!(deps))
                }
            }
            ("add_attribute", 2) | ("add_attributes", 1) => {
                let r = recv.clone();
                Some(*r)
            }
            // iterator idioms, by fixed schema
            ("collect", 0) => self.iter_collect(recv),
            ("any", 1) | ("position", 1) | ("find", 1) | ("all", 1) => self.iter_search(&name, recv, args[0]),
            _ => None,
        }
    }

    fn iter_base(e: &Expr) -> Option<(Expr, bool)> {
        // returns (sequence expr, owned)
        if let Expr::MethodCall(m) = strip(e) {
            if m.args.is_empty() {
                let r = (*m.receiver).clone();
                if m.method == "iter" {
                    return Some((r, false));
                }
                if m.method == "into_iter" {
                    return Some((r, true));
                }
            }
        }
        None
    }

    fn iter_search(&mut self, name: &str, recv: &Expr, clo: &Expr) -> Option<Expr> {
        let (base, _) = Self::iter_base(recv)?;
        let (ps, body) = Self::closure1(clo)?;
        let p = ps.get(0)?.clone();
        let k = self.loops;
        self.loops += 1;
        let i = format_ident!("__i{}", k);
        let s = format_ident!("__s{}", k);
        let r = format_ident!("__r{}", k);
        let item: TokenStream = if name == "find" { quote!(&&#s[#i]) } else { quote!(&#s[#i]) };
        let (init, hit): (TokenStream, TokenStream) = match name {
            "any" => (quote!(false), quote!(true)),
            "all" => (quote!(true), quote!(false)),
            "position" => (quote!(None::<usize>), quote!(Some(#i))),
            "find" => (quote!(#s.vnone_ref()), quote!(Some(&#s[#i]))),
            _ => return None,
        };
        let cond: TokenStream = if name == "all" { quote!(!(#body)) } else { quote!(#body) };
        // patterns: |x| with x: &T (any/position) or &&T (find); keep the closure's parameter pattern
        let item: TokenStream = if name == "find" {
            // auto-deref of &&T: bind as &T (field access and comparisons go through one less reference)
            quote!(&#s[#i])
        } else {
            item
        };
        Some(parse_quote!({
            let #s = &#base;
            let mut #i: usize = 0;
            let mut #r = #init;
            while #i < #s.len() {
                __vloop!(#k);
                let #p = #item;
                if #cond { #r = #hit; break; }
                #i = #i + 1;
            }
            #r
        }))
    }

    fn iter_collect(&mut self, recv: &Expr) -> Option<Expr> {
        // (a..b).map(|i| e).collect()  |  v.iter().filter(|x| c).map(|x| e).collect()
        let mut e = strip(recv).clone();
        let mut ops: Vec<(String, syn::Pat, Expr)> = vec![];
        let mut take: Option<Expr> = None;
        loop {
            let cur = strip(&e).clone();
            if let Expr::MethodCall(m) = &cur {
                let n = m.method.to_string();
                if (n == "map" || n == "filter") && m.args.len() == 1 {
                    if n == "map" && m.args[0].to_token_stream().to_string().replace(' ', "") == "Binary::from" {
                        // Vec<u8> to Binary: the same bytes
                        ops.insert(0, (n, parse_quote!(__b), parse_quote!(__b)));
                        e = (*m.receiver).clone();
                        continue;
                    }
                    let (ps, b) = Self::closure1(&m.args[0])?;
                    ops.insert(0, (n, ps.get(0)?.clone(), b));
                    e = (*m.receiver).clone();
                    continue;
                }
                if n == "take" && m.args.len() == 1 && take.is_none() && !ops.iter().any(|o| o.0 == "filter") {
                    take = Some(m.args[0].clone());
                    e = (*m.receiver).clone();
                    continue;
                }
                if n == "range_raw" || n == "keys_raw" {
                    return self.emit_collect(None, Some((cur.clone(), true)), ops, take);
                }
                let (base, owned) = Self::iter_base(&cur)?;
                return self.emit_collect(None, Some((base, owned)), ops, take);
            }
            if let Expr::Range(r) = &cur {
                if take.is_some() {
                    return None;
                }
                return self.emit_collect(Some(r.clone()), None, ops, None);
            }
            return None;
        }
    }

    fn emit_collect(&mut self, range: Option<syn::ExprRange>, seq: Option<(Expr, bool)>, ops: Vec<(String, syn::Pat, Expr)>, take: Option<Expr>) -> Option<Expr> {
        let k = self.loops;
        self.loops += 1;
        let i = format_ident!("__i{}", k);
        let s = format_ident!("__s{}", k);
        let e = format_ident!("__e{}", k);
        let r = format_ident!("__r{}", k);
        let x = format_ident!("__x{}", k);
        let mut conds: Vec<TokenStream> = vec![];
        let mut last: TokenStream = quote!(#x);
        let mut fallible = false;
        for (n, p, b) in &ops {
            if n == "filter" {
                if let syn::Pat::Ident(_) | syn::Pat::Wild(_) = p {
                } else {
                    return None;
                }
                // filter's closure receives a reference to the item
                let it: TokenStream = match &seq {
                    Some((_, true)) if ops.iter().any(|o| o.0 == "map") => quote!(&#last),
                    _ => quote!(#last),
                };
                conds.push(quote!({ let #p = #it; #b }));
            } else {
                let calls = b.to_token_stream().to_string();
                fallible = calls.starts_with("get_position (") || calls.contains("Ok (") || calls.contains('?');
                last = quote!({ let #p = #last; #b });
            }
        }
        let cond: TokenStream = if conds.is_empty() { quote!(true) } else { quote!(#(#conds)&&*) };
        // a closure ending in Ok(x): the collected item is x
        let mut stripped = false;
        if fallible {
            if let Some((n, p, b)) = ops.last() {
                if n == "map" && ops.iter().filter(|o| o.0 == "map").count() == 1 {
                    if let Expr::Block(bl) = b {
                        let mut bl = bl.clone();
                        let mut inner = None;
                        if let Some(syn::Stmt::Expr(Expr::Call(c), None)) = bl.block.stmts.last() {
                            if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 {
                                inner = Some(c.args[0].clone());
                            }
                        }
                        if let Some(ie) = inner {
                            *bl.block.stmts.last_mut().unwrap() = syn::Stmt::Expr(ie, None);
                            last = quote!({ let #p = #x; #bl });
                            stripped = true;
                        }
                    }
                }
            }
        }
        let pushed: TokenStream = if fallible && !stripped { quote!(#last?) } else { last.clone() };
        let wrap: TokenStream = if stripped { quote!(vok(#r)) } else if fallible { quote!(Ok(#r)) } else { quote!(#r) };
        if let Some(rg) = range {
            let (a, b) = (rg.start?, rg.end?);
            let lim: TokenStream = if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) { quote!(<) } else { return None };
            Some(parse_quote!({
                let mut #i = #a;
                let #e = #b;
                let mut #r = Vec::new();
                while #i #lim #e {
                    __vloop!(#k);
                    let #x = #i;
                    #r.push(#pushed);
                    #i = #i + 1;
                }
                #wrap
            }))
        } else {
            let (base, owned) = seq?;
            let val: TokenStream = if owned && ops.iter().all(|o| o.0 == "filter") { quote!(#s[#i].clone()) } else { pushed };
            let get: TokenStream = if owned && ops.iter().any(|o| o.0 == "map") { quote!(vitem(&#s, #i)) } else { quote!(&#s[#i]) };
            let t = format_ident!("__t{}", k);
            let (pre, guard): (TokenStream, TokenStream) = match &take {
                Some(n) => (quote!(let #t = #n;), quote!(&& #r.len() < #t)),
                None => (quote!(), quote!()),
            };
            Some(parse_quote!({
                let #s = &#base;
                let mut #i: usize = 0;
                let mut #r = Vec::new();
                #pre
                while #i < #s.len() #guard {
                    __vloop!(#k);
                    let #x = #get;
                    if #cond { #r.push(#val); }
                    #i = #i + 1;
                }
                #wrap
            }))
        }
    }

    fn has_continue(b: &syn::Block) -> bool {
        struct F(bool);
        impl<'a> syn::visit::Visit<'a> for F {
            fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
                self.0 = true;
            }
        }
        let mut f = F(false);
        syn::visit::Visit::visit_block(&mut f, b);
        f.0
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        let k = self.loops;
        self.loops += 1;
        let i = format_ident!("__i{}", k);
        let s = format_ident!("__s{}", k);
        let e = format_ident!("__e{}", k);
        let pat = &f.pat;
        let stmts = &f.body.stmts;
        if Self::has_continue(&f.body) {
            self.notes.push("structure: continue inside for".into());
            return None;
        }
        match strip(&f.expr) {
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                match r.limits {
                    syn::RangeLimits::HalfOpen(_) => Some(parse_quote!({
                        let mut #i = #a;
                        let #e = #b;
                        while #i < #e { __vloop!(#k); let #pat = #i; #(#stmts)* ; #i = #i + 1; }
                    })),
                    syn::RangeLimits::Closed(_) => Some(parse_quote!({
                        let mut #i = #a;
                        let #e = #b;
                        let mut __done = #i > #e;
                        while !__done { __vloop!(#k); let #pat = #i; #(#stmts)* ; if #i < #e { #i = #i + 1; } else { __done = true; } }
                    })),
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let v = &r.expr;
                Some(parse_quote!({
                    let #s = &#v;
                    let mut #i: usize = 0;
                    while #i < #s.len() { __vloop!(#k); let #pat = &#s[#i]; #(#stmts)* ; #i = #i + 1; }
                }))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let v = &m.receiver;
                Some(parse_quote!({
                    let #s = &#v;
                    let mut #i: usize = 0;
                    while #i < #s.len() { __vloop!(#k); let #pat = &#s[#i]; #(#stmts)* ; #i = #i + 1; }
                }))
            }
            Expr::Path(p) => {
                // an owned vector, or `range: impl Iterator<Item=u16>` (extracted as the vector of its items)
                Some(parse_quote!({
                    let #s = #p;
                    let mut #i: usize = 0;
                    while #i < #s.len() { __vloop!(#k); let #pat = #s[#i].clone(); #(#stmts)* ; #i = #i + 1; }
                }))
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                let v = &m.receiver;
                Some(parse_quote!({
                    let #s = #v;
                    let mut #i: usize = 0;
                    while #i < #s.len() { __vloop!(#k); let #pat = #s[#i].clone(); #(#stmts)* ; #i = #i + 1; }
                }))
            }
            _ => {
                self.notes.push("structure: unsupported for iterator".into());
                None
            }
        }
    }
}

/// `x[a..b]` -> vslice(&x, a, b)
fn slice_expr(i: &syn::ExprIndex) -> Option<Expr> {
    let x = &i.expr;
    if let Expr::Range(r) = strip(&i.index) {
        if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        let a: Expr = match &r.start {
            Some(a) => (**a).clone(),
            None => parse_quote!(0),
        };
        let b: Expr = match &r.end {
            Some(b) => (**b).clone(),
            None => parse_quote!(#x.len()),
        };
        return Some(parse_quote!(vslice(&#x, #a, #b)));
    }
    None
}

impl VisitMut for Rewriter {
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        // local consts -> lets; macros in statement position
        if let syn::Stmt::Item(syn::Item::Const(c)) = s {
            let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
            let v = eval(ex, &self.consts);
            let t = ty.to_token_stream().to_string();
            if let Some(v) = v {
                self.consts.insert(id.to_string(), v);
                let lit: TokenStream = crate::print::constval(&v, &t).parse().unwrap();
                *s = parse_quote!(let #id: #ty = #lit;);
            } else {
                *s = parse_quote!(let #id: #ty = #ex;);
            }
        }
        if let syn::Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "__vloop" || n == "__vhint" {
                return;
            }
            if n.starts_with("debug") || n == "println" || n == "print" || n == "eprintln" {
                *s = parse_quote!({};);
                return;
            }
            let mac = m.mac.clone();
            let e: Expr = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
            *s = syn::Stmt::Expr(e, Some(Default::default()));
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        l.attrs.clear();
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        fix_type(t);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order: loops and iterator schemas (so that loop numbering follows source order)
        loop {
            let rep: Option<Expr> = match e {
                Expr::Reference(r) if r.mutability.is_none() && matches!(&*r.expr, Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_))) => {
                    Some((*r.expr).clone())
                }
                Expr::ForLoop(f) => {
                    let f = f.clone();
                    self.for_loop(&f)
                }
                Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "collect" | "any" | "position" | "find" | "all" | "retain") => {
                    let m = m.clone();
                    self.method(&m)
                }
                Expr::Loop(l) => {
                    // loop { if c { break; } rest }  ->  while !c { rest }
                    let b = l.body.clone();
                    let mut out = None;
                    if let Some(syn::Stmt::Expr(Expr::If(i), _)) = b.stmts.first() {
                        if i.else_branch.is_none() && i.then_branch.to_token_stream().to_string().replace(' ', "") == "{break;}" {
                            let c = &i.cond;
                            let rest = &b.stmts[1..];
                            out = Some(parse_quote!(while !(#c) { #(#rest)* }));
                        }
                    }
                    if out.is_none() && !b.to_token_stream().to_string().contains("__vloop") {
                        out = {
                            let st = &b.stmts;
                            let k = self.loops;
                            self.loops += 1;
                            Some(parse_quote!(loop { __vloop!(#k); #(#st)* }))
                        };
                        *e = out.unwrap();
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                    out
                }
                Expr::While(w) if !w.body.to_token_stream().to_string().starts_with("{ __vloop") => {
                    let k = self.loops;
                    self.loops += 1;
                    let c = &w.cond;
                    let st = &w.body.stmts;
                    Some(parse_quote!(while #c { __vloop!(#k); #(#st)* }))
                }
                // event attributes carry no value the properties speak about
                Expr::Call(c) if c.args.len() == 2 && matches!(c.func.to_token_stream().to_string().replace(' ', "").as_str(), "attr" | "cosmwasm_std::attr" | "Attribute::new") => Some(parse_quote!(vattr())),
                // the cw2 version entry: its own storage item, not part of the modelled state
                Expr::Call(c) if c.args.len() == 3 && matches!(c.func.to_token_stream().to_string().replace(' ', "").as_str(), "set_contract_version" | "cw2::set_contract_version") => Some(parse_quote!(vset_version())),
                Expr::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    let toks = m.mac.tokens.clone();
                    match n.as_str() {
                        "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(vpanic())),
                        "vec" if toks.is_empty() => Some(parse_quote!(Vec::new())),
                        "vec" => {
                            let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                            match syn::parse::Parser::parse2(parser, toks) {
                                Ok(p) => {
                                    let it: Vec<_> = p.iter().collect();
                                    if it.len() == 1 {
                                        let a = it[0];
                                        Some(parse_quote!(vvec1(#a)))
                                    } else {
                                        let pushes: Vec<TokenStream> = it.iter().map(|x| quote!(__vv.push(#x);)).collect();
                                        Some(parse_quote!({ let mut __vv = Vec::new(); #(#pushes)* __vv }))
                                    }
                                }
                                Err(_) => None,
                            }
                        }
                        "assert" | "assert_eq" | "assert_ne" => {
                            let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                            match syn::parse::Parser::parse2(parser, toks) {
                                Ok(p) => {
                                    let it: Vec<_> = p.iter().collect();
                                    let c: Expr = match n.as_str() {
                                        "assert" => {
                                            let a = it[0];
                                            parse_quote!(#a)
                                        }
                                        "assert_eq" => {
                                            let (a, b) = (it[0], it[1]);
                                            parse_quote!((#a) == (#b))
                                        }
                                        _ => {
                                            let (a, b) = (it[0], it[1]);
                                            parse_quote!((#a) != (#b))
                                        }
                                    };
                                    Some(parse_quote!(if !(#c) { vpanic() }))
                                }
                                Err(_) => None,
                            }
                        }
                        "matches" => {
                            struct M(Expr, syn::Pat, Option<Expr>);
                            impl syn::parse::Parse for M {
                                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                                    let e: Expr = i.parse()?;
                                    i.parse::<syn::Token![,]>()?;
                                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                                    let g = if i.peek(syn::Token![if]) {
                                        i.parse::<syn::Token![if]>()?;
                                        Some(i.parse()?)
                                    } else {
                                        None
                                    };
                                    let _ = i.parse::<Option<syn::Token![,]>>();
                                    Ok(M(e, p, g))
                                }
                            }
                            match syn::parse2::<M>(toks) {
                                Ok(M(a, p, None)) => Some(parse_quote!((match #a { #p => true, _ => false }))),
                                Ok(M(a, p, Some(g))) => Some(parse_quote!((match #a { #p => #g, _ => false }))),
                                Err(_) => None,
                            }
                        }
                        "format" => Some(parse_quote!(vstr())),
                        _ => None,
                    }
                }
                _ => None,
            };
            match rep {
                Some(r) => {
                    *e = r;
                    if matches!(e, Expr::While(_)) {
                        break;
                    }
                }
                None => break,
            }
        }
        // constant folding of shifts before descending
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Shl(_)) {
                if let Some(v) = eval(e, &self.consts) {
                    if let Expr::Binary(b) = &*e {
                        let suf = match strip(&b.left) {
                            Expr::Lit(l) => match &l.lit {
                                syn::Lit::Int(i) => i.suffix().to_string(),
                                _ => String::new(),
                            },
                            _ => String::new(),
                        };
                        let t: TokenStream = format!("{}{}", v.1, suf).parse().unwrap();
                        *e = parse_quote!(#t);
                        return;
                    }
                }
            }
        }
        let saved = self.in_index;
        self.in_index = matches!(e, Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)))
            || matches!(e, Expr::MethodCall(m) if m.method == "contains" && matches!(strip(&m.receiver), Expr::Range(_)))
            || (saved && matches!(e, Expr::Paren(_)));
        visit_mut::visit_expr_mut(self, e);
        self.in_index = saved;
        // post-order
        let rep: Option<Expr> = match &*e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                self.method(&m)
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() && !self.in_index => {
                let (a, b) = (&r.start, &r.end);
                Some(if matches!(r.limits, syn::RangeLimits::Closed(_)) { parse_quote!(vincl(#a, #b)) } else { parse_quote!(vexcl(#a, #b)) })
            }
            Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)) => slice_expr(i),
            Expr::Index(i) if self.panicops => {
                let (x, k) = (&i.expr, &i.index);
                Some(parse_quote!((*#x.vidx(#k))))
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some(t) = f.strip_suffix("::from_be_bytes") {
                    let a = &args[0];
                    match strip(a) {
                        Expr::Array(ar) if ar.elems.len() == 2 => {
                            let (x, y) = (&ar.elems[0], &ar.elems[1]);
                            Some(parse_quote!(vfrom_be2(#x, #y)))
                        }
                        _ => {
                            // EXPR.try_into().unwrap()
                            let mut e = strip(a).clone();
                            loop {
                                match &e {
                                    Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "vunwrap" | "vtry_into") => {
                                        e = strip(&m.receiver).clone();
                                    }
                                    _ => break,
                                }
                            }
                            let g = format_ident!("vfrom_be_{}", t.rsplit("::").next().unwrap());
                            Some(parse_quote!(#g(#e)))
                        }
                    }
                } else if f.rsplit("::").next() == Some("to_length_prefixed_nested") && args.len() == 1 {
                    if let Expr::Reference(r) = strip(&args[0]) {
                        if let Expr::Array(a) = strip(&r.expr) {
                            let pushes: Vec<TokenStream> = a.elems.iter().map(|x| quote!(__nk.vnest(#x);)).collect();
                            Some(parse_quote!({ let mut __nk: Vec<u8> = Vec::new(); #(#pushes)* __nk }))
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                } else if let Some(t) = f.strip_suffix("::try_from") {
                    if int_ty(t) || t == "U256" || t == "U320" || t == "T" {
                        let a = &args[0];
                        let p: syn::Path = syn::parse_str(&format!("{}::vtry_from", t)).unwrap();
                        Some(parse_quote!(#p(#a)))
                    } else {
                        None
                    }
                } else if let Some(t) = f.strip_suffix("::from") {
                    if int_ty(t) || t == "U256" || t == "U320" || t == "T" {
                        let a = &args[0];
                        let p: syn::Path = syn::parse_str(&format!("{}::vfrom", t)).unwrap();
                        Some(parse_quote!(#p(#a)))
                    } else {
                        None
                    }
                } else if f == "attr" {
                    Some(parse_quote!(()))
                } else {
                    None
                }
            }
            Expr::Group(g) => {
                let x = &g.expr;
                Some(parse_quote!((#x)))
            }
            Expr::Binary(b) if self.panicops => {
                let (l, r) = (&b.left, &b.right);
                let lit = |e: &Expr| matches!(strip(e), Expr::Lit(_));
                let (f, asg) = match b.op {
                    syn::BinOp::Add(_) => ("vadd", false),
                    syn::BinOp::Sub(_) => ("vsub", false),
                    syn::BinOp::Mul(_) => ("vmul", false),
                    syn::BinOp::Div(_) => ("vdiv", false),
                    syn::BinOp::Rem(_) => ("vrem", false),
                    syn::BinOp::AddAssign(_) => ("vadd", true),
                    syn::BinOp::SubAssign(_) => ("vsub", true),
                    syn::BinOp::MulAssign(_) => ("vmul", true),
                    syn::BinOp::DivAssign(_) => ("vdiv", true),
                    syn::BinOp::RemAssign(_) => ("vrem", true),
                    _ => ("", false),
                };
                if f.is_empty() || (lit(l) && lit(r)) {
                    None
                } else {
                    let f = format_ident!("{}", f);
                    if asg {
                        Some(parse_quote!(#l = #f(#l, #r)))
                    } else {
                        Some(parse_quote!(#f(#l, #r)))
                    }
                }
            }
            Expr::Unary(u) if self.panicops && matches!(u.op, syn::UnOp::Neg(_)) && !matches!(strip(&u.expr), Expr::Lit(_)) => {
                let x = &u.expr;
                Some(parse_quote!(vneg(#x)))
            }
            _ => None,
        };
        if let Some(r) = rep {
            *e = r;
        }
        // storage arguments
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let recv = m.receiver.to_token_stream().to_string().replace(' ', "");
                let recv_last = recv.rsplit("::").next().unwrap().to_string();
                let is_map = (recv_last.chars().all(|c| c.is_ascii_uppercase() || c == '_') && !recv_last.is_empty()) || n == "vrange_raw" || n == "vkeys_raw";
                if is_map {
                    let needs_mut = matches!(n.as_str(), "save" | "remove" | "update");
                    let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(a) = args.first_mut() {
                        self.fix_storage_arg(a, needs_mut);
                    }
                    m.args = args.into_iter().collect();
                }
                let s = m.receiver.to_token_stream().to_string().replace(' ', "");
                let _ = s;
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let last = f.rsplit("::").next().unwrap().to_string();
                let needs_mut = if self.mut_fns.contains(&last) && !self.ro_fns.contains(&last) {
                    true
                } else {
                    false
                };
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                for a in args.iter_mut() {
                    let s = a.to_token_stream().to_string().replace(' ', "");
                    if s == "deps.api" {
                        *a = parse_quote!(&deps.api);
                    } else {
                        self.fix_storage_arg(a, needs_mut);
                    }
                }
                c.args = args.into_iter().collect();
            }
            _ => {}
        }
    }
}
