//! Mechanical extraction of /repo's functions into one Verus crate.
//! usage: extract --repo /repo --specs DIR --out gen.rs --index index.json [--lost key]... [--set contract|wasm]
mod decimals;
mod inline;
mod locals;
mod print;
mod rewrite;
mod specs;

use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub src_line: usize,
    pub src_end: usize,
    pub gen_start: usize,
    pub gen_end: usize,
    pub contract: bool,
    pub assumed: bool,
    pub lost: bool,
    pub loops: usize,
    pub text_hash: u64,
    pub inlined: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Ctx {
    pub repo: PathBuf,
    pub specs: specs::Specs,
    pub lost: BTreeSet<String>,
    pub out: String,
    pub line: usize,
    pub fns: Vec<FnInfo>,
    pub dropped: Vec<(String, String)>,
    pub consts: BTreeMap<String, rewrite::CV>,
    pub mut_storage_fns: BTreeSet<String>,
    pub ro_storage_fns: BTreeSet<String>,
    pub decimals: Vec<decimals::Dec>,
    pub helpers: inline::Helpers,
    pub warnings: Vec<String>,
    pub skip_mods: Vec<String>,
    /// names of constants and traits that are not emitted
    pub unemitted: BTreeSet<String>,
    pub root_prefix: String,
    pub tryinto: Option<syn::Type>,
    pub panicops: BTreeSet<String>,
    pub names: BTreeMap<String, (Vec<String>, Vec<String>)>,
    pub seen_names: BTreeMap<String, (Vec<String>, Vec<String>)>,
}

impl Ctx {
    pub fn emit(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }
}

pub fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
    })
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// collect (module path, file path, parsed file), following `mod x;`
/// the SDK's traceable_result macros: the same value, without the trace text of an error
struct Traces {}
impl syn::visit_mut::VisitMut for Traces {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        let mut rep = None;
        if let syn::Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "err" {
                rep = Some(syn::parse_quote!(verr()));
            } else if let Ok(x) = syn::parse2::<syn::Expr>(m.mac.tokens.clone()) {
                rep = match n.as_str() {
                    "ok_or_mark_trace" | "trace" => Some(syn::parse_quote!((#x))),
                    "unwrap" => Some(syn::parse_quote!((#x).unwrap())),
                    "from_result" => Some(syn::parse_quote!((#x).map_err(|_| verr()))),
                    _ => None,
                };
            }
        }
        if let Some(r) = rep {
            *e = r;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn load_tree(
    ctx: &Ctx,
    file: &Path,
    dir: &Path,
    modpath: &str,
    acc: &mut Vec<(String, String, syn::File)>,
) -> Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let parsed = syn::parse_file(&text).map_err(|e| format!("{}: {}", file.display(), e))?;
    let mods: Vec<String> = parsed
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Mod(m) if m.content.is_none() && !is_test(&m.attrs) => Some(m.ident.to_string()),
            _ => None,
        })
        .collect();
    let rel = file.strip_prefix(&ctx.repo).unwrap_or(file).display().to_string();
    acc.push((modpath.to_string(), rel, parsed));
    for m in mods {
        let mp = if modpath.is_empty() { m.clone() } else { format!("{}::{}", modpath, m) };
        if ctx.skip_mods.contains(&mp) {
            continue;
        }
        let f1 = dir.join(format!("{}.rs", m));
        let f2 = dir.join(&m).join("mod.rs");
        if f1.exists() {
            load_tree(ctx, &f1, &dir.join(&m), &mp, acc)?;
        } else if f2.exists() {
            load_tree(ctx, &f2, &dir.join(&m), &mp, acc)?;
        }
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut specdir = PathBuf::from("specs");
    let mut out = PathBuf::from("gen.rs");
    let mut index = PathBuf::from("index.json");
    let mut set = "contract".to_string();
    let mut lost = BTreeSet::new();
    let mut panicops = BTreeSet::new();
    let mut dump = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => repo = PathBuf::from(&args[i + 1]),
            "--specs" => specdir = PathBuf::from(&args[i + 1]),
            "--out" => out = PathBuf::from(&args[i + 1]),
            "--index" => index = PathBuf::from(&args[i + 1]),
            "--set" => set = args[i + 1].clone(),
            "--lost" => {
                lost.insert(args[i + 1].clone());
            }
            "--panicops" => {
                panicops.insert(args[i + 1].clone());
            }
            "--dump-locals" => dump = true,
            x => panic!("bad arg {}", x),
        }
        i += 2;
    }
    match run(repo, specdir, &out, &index, &set, lost, panicops, dump) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("EXTRACTION-ERROR: {}", e);
            std::process::exit(3);
        }
    }
}

fn run(repo: PathBuf, specdir: PathBuf, out: &Path, index: &Path, set: &str, lost: BTreeSet<String>, panicops: BTreeSet<String>, dump: bool) -> Result<(), String> {
    let sp = specs::load(&specdir, set)?;
    let nf = specdir.join(format!("{}.locals.json", set));
    let names = match std::fs::read_to_string(&nf) {
        Ok(t) if !dump => serde_json::from_str(&t).map_err(|e| e.to_string())?,
        _ => BTreeMap::new(),
    };
    let (root, skip): (PathBuf, Vec<&str>) = if set == "wasm" {
        (repo.join("wasm"), vec!["traceable_result"])
    } else {
        (repo.join("contracts/oraiswap-v3/src"), vec!["tests"])
    };
    let mut skip_mods: Vec<String> = skip.iter().map(|s| s.to_string()).collect();
    skip_mods.extend(sp.skip_mods.iter().cloned());
    let mut ctx = Ctx {
        repo: repo.clone(),
        specs: sp,
        lost,
        out: String::new(),
        line: 1,
        fns: vec![],
        dropped: vec![],
        consts: BTreeMap::new(),
        mut_storage_fns: BTreeSet::new(),
        ro_storage_fns: BTreeSet::new(),
        decimals: vec![],
        helpers: Default::default(),
        warnings: vec![],
        skip_mods,
        unemitted: BTreeSet::new(),
        root_prefix: String::new(),
        tryinto: None,
        panicops,
        names,
        seen_names: BTreeMap::new(),
    };
    let mut files = vec![];
    load_tree(&ctx, &root.join("lib.rs"), &root, "", &mut files)?;
    if set == "wasm" {
        for (_, _, f) in files.iter_mut() {
            syn::visit_mut::VisitMut::visit_file_mut(&mut Traces {}, f);
        }
    }
    // strip tests
    for (_, _, f) in files.iter_mut() {
        f.items.retain(|it| {
            let attrs: &[syn::Attribute] = match it {
                syn::Item::Fn(x) => &x.attrs,
                syn::Item::Mod(x) => &x.attrs,
                syn::Item::Impl(x) => &x.attrs,
                syn::Item::Struct(x) => &x.attrs,
                syn::Item::Enum(x) => &x.attrs,
                syn::Item::Use(x) => &x.attrs,
                syn::Item::Const(x) => &x.attrs,
                syn::Item::Macro(x) => &x.attrs,
                _ => &[],
            };
            !is_test(attrs)
        });
    }
    // global tables
    for _ in 0..4 {
        for (_, _, f) in &files {
            for it in &f.items {
                if let syn::Item::Const(c) = it {
                    if let Some(v) = rewrite::eval(&c.expr, &ctx.consts) {
                        let ty = c.ty.to_token_stream().to_string();
                        if rewrite::fits(v, &ty) {
                            ctx.consts.insert(c.ident.to_string(), v);
                        }
                    }
                }
            }
        }
    }
    for (mp, _, f) in &files {
        for it in &f.items {
            if let syn::Item::Fn(func) = it {
                match rewrite::storage_param(&func.sig) {
                    Some(true) => {
                        ctx.mut_storage_fns.insert(func.sig.ident.to_string());
                    }
                    Some(false) => {
                        ctx.ro_storage_fns.insert(func.sig.ident.to_string());
                    }
                    None => {}
                }
                let key = format!("{}::{}", mp, func.sig.ident);
                if !ctx.specs.has(&key) && ctx.specs.skip_reason(&key).is_none() {
                    ctx.helpers.add(key, func.sig.clone(), (*func.block).clone(), None);
                }
            }
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_none() {
                    let ty = im.self_ty.to_token_stream().to_string();
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(func) = ii {
                            let key = format!("{}::{}::{}", mp, ty, func.sig.ident);
                            if ctx.specs.has(&key) {
                                ctx.helpers.contracted.insert(func.sig.ident.to_string());
                            } else if ctx.specs.skip_reason(&key).is_none() {
                                ctx.helpers.add(key, func.sig.clone(), func.block.clone(), Some(ty.clone()));
                            }
                        }
                    }
                }
            }
        }
    }
    for (mp, _, f) in &files {
        for it in &f.items {
            match it {
                syn::Item::Const(c) if !ctx.consts.contains_key(&c.ident.to_string()) => {
                    let n = c.ident.to_string();
                    if !ctx.specs.modtext.get(mp).map(|t| t.contains(&format!("const {}:", n))).unwrap_or(false) {
                        ctx.unemitted.insert(n);
                    }
                }
                syn::Item::Trait(t) => {
                    let n = t.ident.to_string();
                    if !ctx.specs.modtext.get(mp).map(|t| t.contains(&format!("trait {}", n))).unwrap_or(false) {
                        ctx.unemitted.insert(n);
                    }
                }
                _ => {}
            }
        }
    }
    ctx.decimals = decimals::find(&files);
    let head = ctx.specs.head.clone();
    ctx.emit(&head);
    emit_mod(&mut ctx, &files, "")?;
    let tail = ctx.specs.tail.clone();
    ctx.emit(&tail);
    ctx.emit("\nfn main() { crate::top_main(); }\n");
    if dump {
        let rows: Vec<String> = ctx.seen_names.iter().map(|(k, v)| format!("{}: {}", serde_json::to_string(k).unwrap(), serde_json::to_string(v).unwrap())).collect();
        std::fs::write(&nf, format!("{{\n{}\n}}\n", rows.join(",\n"))).map_err(|e| e.to_string())?;
    }
    std::fs::write(out, &ctx.out).map_err(|e| e.to_string())?;
    let fns: Vec<serde_json::Value> = ctx
        .fns
        .iter()
        .map(|f| {
            serde_json::json!({"key": f.key, "file": f.file, "src_line": f.src_line, "src_end": f.src_end, "gen_start": f.gen_start,
            "gen_end": f.gen_end, "contract": f.contract, "assumed": f.assumed, "lost": f.lost, "loops": f.loops,
            "hash": format!("{:016x}", f.text_hash), "inlined": f.inlined, "notes": f.notes})
        })
        .collect();
    let seen: BTreeSet<&str> = ctx.fns.iter().map(|f| f.key.as_str()).collect();
    let missing: Vec<&String> = ctx.specs.fns.keys().filter(|k| !k.contains('*') && !seen.contains(k.as_str())).collect();
    let idx = serde_json::json!({"fns": fns, "dropped": ctx.dropped, "warnings": ctx.warnings, "missing": missing});
    std::fs::write(index, serde_json::to_string_pretty(&idx).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn emit_mod(ctx: &mut Ctx, files: &[(String, String, syn::File)], mp: &str) -> Result<(), String> {
    let (_, file, parsed) = files.iter().find(|(m, _, _)| m == mp).unwrap();
    if !mp.is_empty() {
        let name = mp.rsplit("::").next().unwrap();
        ctx.emit(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::prelude::*;\n", name));
    }
    // uses
    let mut uses = String::new();
    for it in &parsed.items {
        if let syn::Item::Use(u) = it {
            if let Some(s) = rewrite_use(u, files, ctx) {
                uses.push_str(&s);
                uses.push('\n');
            }
        }
    }
    // names an inlined helper of another module may need
    let leaf = parsed.items.iter().any(|x| matches!(x, syn::Item::Fn(_) | syn::Item::Impl(_)));
    if !mp.is_empty() && leaf {
        let mut defs: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (m, _, f) in files {
            for it in &f.items {
                let n = match it {
                    syn::Item::Struct(x) => x.ident.to_string(),
                    syn::Item::Enum(x) => x.ident.to_string(),
                    syn::Item::Fn(x) if ctx.specs.fns.contains_key(&format!("{}::{}", m, x.sig.ident)) => x.sig.ident.to_string(),
                    syn::Item::Const(x) if !ctx.unemitted.contains(&x.ident.to_string()) => x.ident.to_string(),
                    _ => continue,
                };
                if ctx.specs.skip_reason(&format!("{}::{}", m, n)).is_none() {
                    defs.entry(n).or_default().push(m.clone());
                }
            }
        }
        let text = uses.clone();
        let used: BTreeSet<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
        for (n, ms) in &defs {
            if ms.len() == 1 && ms[0] != mp && !used.contains(n.as_str()) {
                let m = if ms[0].is_empty() { String::new() } else { format!("{}::", ms[0]) };
                uses.push_str(&format!("#[allow(unused_imports)] use crate::{}{};\n", m, n));
            }
        }
    }
    ctx.emit(&uses);
    // child modules
    let children: Vec<String> = files
        .iter()
        .filter(|(m, _, _)| {
            if mp.is_empty() {
                !m.is_empty() && !m.contains("::")
            } else {
                m.strip_prefix(&format!("{}::", mp)).map(|r| !r.contains("::")).unwrap_or(false)
            }
        })
        .map(|(m, _, _)| m.clone())
        .collect();
    for c in children {
        emit_mod(ctx, files, &c)?;
    }
    ctx.emit("verus! {\n");
    if !mp.is_empty() {
        ctx.emit("broadcast use crate::prelude::vgroup;\n");
    }
    if let Some(t) = ctx.specs.modtext.get(mp).cloned() {
        ctx.emit(&t);
        ctx.emit("\n");
    }
    for it in &parsed.items {
        emit_item(ctx, mp, file, it)?;
    }
    let decs: Vec<decimals::Dec> = ctx.decimals.iter().filter(|d| d.module == mp).cloned().collect();
    for d in decs {
        decimals::emit(ctx, &d)?;
    }
    ctx.emit("} // verus!\n");
    if !mp.is_empty() {
        ctx.emit(&format!("}} // mod {}\n", mp));
    }
    Ok(())
}

/// drops the names of functions that are not emitted (they are inlined where they are called)
fn filter_use(t: &syn::UseTree, ctx: &Ctx) -> Option<syn::UseTree> {
    let gone = |n: &str| {
        (ctx.helpers.by_name.get(n).map(|v| v.iter().any(|h| h.self_ty.is_none())).unwrap_or(false)
            && !ctx.specs.fns.keys().any(|k| k.rsplit("::").next() == Some(n)))
            || ctx.unemitted.contains(n)
    };
    match t {
        syn::UseTree::Path(p) => {
            let inner = filter_use(&p.tree, ctx)?;
            let mut p = p.clone();
            *p.tree = inner;
            Some(syn::UseTree::Path(p))
        }
        syn::UseTree::Name(n) => (!gone(&n.ident.to_string())).then(|| t.clone()),
        syn::UseTree::Rename(n) => (!gone(&n.ident.to_string())).then(|| t.clone()),
        syn::UseTree::Glob(_) => Some(t.clone()),
        syn::UseTree::Group(g) => {
            let items: Vec<syn::UseTree> = g.items.iter().filter_map(|x| filter_use(x, ctx)).collect();
            if items.is_empty() {
                return None;
            }
            let mut g = g.clone();
            g.items = items.into_iter().collect();
            Some(syn::UseTree::Group(g))
        }
    }
}

fn rewrite_use(u: &syn::ItemUse, files: &[(String, String, syn::File)], ctx: &Ctx) -> Option<String> {
    let s = u.tree.to_token_stream().to_string().replace(' ', "");
    let first = s.split("::").next().unwrap().to_string();
    let vis = if matches!(u.vis, syn::Visibility::Public(_)) { "pub " } else { "" };
    let local = files.iter().any(|(m, _, _)| m.split("::").any(|x| x == first));
    if first == "crate" || first == "super" || first == "self" || local {
        for sm in &ctx.skip_mods {
            if s.starts_with(&format!("crate::{}::", sm)) || s.starts_with(&format!("{}::", sm)) {
                return None;
            }
        }
        if s == "crate::decimal_ops" || s.starts_with("crate::alloc::") {
            return None;
        }
        let tree = filter_use(&u.tree, ctx)?;
        Some(format!("#[allow(unused_imports)] {}use {};", vis, tree.to_token_stream()))
    } else {
        None
    }
}

fn emit_item(ctx: &mut Ctx, mp: &str, file: &str, it: &syn::Item) -> Result<(), String> {
    match it {
        syn::Item::Use(_) | syn::Item::Mod(_) | syn::Item::Macro(_) => {}
        syn::Item::Const(c) => {
            let name = c.ident.to_string();
            let key = format!("{}::{}", mp, name);
            if let Some(r) = ctx.specs.skip_reason(&key) {
                ctx.dropped.push((key, r));
                return Ok(());
            }
            let ty = c.ty.to_token_stream().to_string();
            if let Some(v) = ctx.consts.get(&name) {
                let t = print::constval(v, &ty);
                ctx.emit(&format!("pub const {}: {} = {};\n", name, ty, t));
            } else {
                ctx.dropped.push((key, "constant not foldable (storage handles are shims)".into()));
            }
        }
        syn::Item::Struct(s) => {
            let key = format!("{}::{}", mp, s.ident);
            if let Some(r) = ctx.specs.skip_reason(&key) {
                ctx.dropped.push((key, r));
                return Ok(());
            }
            let t = print::item_struct(ctx, s);
            ctx.emit(&t);
        }
        syn::Item::Enum(e) => {
            let key = format!("{}::{}", mp, e.ident);
            if let Some(r) = ctx.specs.skip_reason(&key) {
                ctx.dropped.push((key, r));
                return Ok(());
            }
            let t = print::item_enum(ctx, e);
            ctx.emit(&t);
        }
        syn::Item::Fn(f) => {
            let key = format!("{}::{}", mp, f.sig.ident);
            if let Some(r) = ctx.specs.skip_reason(&key) {
                ctx.dropped.push((key, r));
                return Ok(());
            }
            emit_fn(ctx, &key, file, &f.sig, &f.block, true, None)?;
        }
        syn::Item::Impl(im) => {
            let ty = im.self_ty.to_token_stream().to_string();
            let tr = im.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""));
            let key = match &tr {
                Some(t) => format!("{}::{}::{}", mp, ty, t),
                None => format!("{}::{}", mp, ty),
            };
            if let Some(r) = ctx.specs.skip_reason(&key) {
                ctx.dropped.push((key, r));
                return Ok(());
            }
            emit_impl(ctx, &key, file, im, &ty, tr.is_some())?;
        }
        syn::Item::Trait(t) => {
            let key = format!("{}::{}", mp, t.ident);
            match ctx.specs.skip_reason(&key) {
                Some(r) => ctx.dropped.push((key, r)),
                None => ctx.dropped.push((key, "trait declaration not extracted".into())),
            }
        }
        syn::Item::Type(t) => {
            ctx.emit(&format!("pub type {} = {};\n", t.ident, t.ty.to_token_stream()));
        }
        other => {
            ctx.dropped.push((format!("{}::{}", mp, other.to_token_stream().to_string().chars().take(60).collect::<String>()), "item kind not extracted".into()));
        }
    }
    Ok(())
}

pub fn emit_impl(ctx: &mut Ctx, key: &str, file: &str, im: &syn::ItemImpl, ty: &str, is_trait: bool) -> Result<(), String> {
    let mut g = im.generics.clone();
    ctx.tryinto = rewrite::tryinto_hint(&g);
    rewrite::fix_generics(&mut g);
    g.where_clause = None;
    let (ig, _, _) = g.split_for_impl();
    let head = match &im.trait_ {
        Some((_, p, _)) => format!("impl{} {} for {} {{\n", ig.to_token_stream(), p.to_token_stream(), ty),
        None => format!("impl{} {} {{\n", ig.to_token_stream(), ty),
    };
    ctx.emit(&head);
    if is_trait {
        if let Some(x) = ctx.specs.impl_extra(key) {
            let x = match ctx.decimals.iter().find(|d| d.name == ty) {
                Some(d) => decimals::vars(&x, d),
                None => x,
            };
            ctx.emit(&x);
            ctx.emit("\n");
        }
    }
    for ii in &im.items {
        match ii {
            syn::ImplItem::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                let k = format!("{}::{}", key, f.sig.ident);
                if let Some(r) = ctx.specs.skip_reason(&k) {
                    ctx.dropped.push((k, r));
                    continue;
                }
                emit_fn(ctx, &k, file, &f.sig, &f.block, !is_trait, Some(ty))?;
            }
            syn::ImplItem::Type(t) => {
                ctx.emit(&format!("type {} = {};\n", t.ident, t.ty.to_token_stream()));
            }
            syn::ImplItem::Const(c) => {
                ctx.emit(&format!("pub const {}: {} = {};\n", c.ident, c.ty.to_token_stream(), c.expr.to_token_stream()));
            }
            _ => {}
        }
    }
    ctx.emit("}\n");
    ctx.tryinto = None;
    Ok(())
}

pub fn emit_fn(
    ctx: &mut Ctx,
    key: &str,
    file: &str,
    sig: &syn::Signature,
    block: &syn::Block,
    public: bool,
    self_ty: Option<&str>,
) -> Result<(), String> {
    let spec = ctx.specs.find(key);
    if spec.is_none() && public {
        ctx.dropped.push((key.to_string(), "no contract (inlined at its call sites where a contracted function calls it)".into()));
        return Ok(());
    }
    let lost = ctx.lost.contains(key);
    let assumed = spec.as_ref().map(|s| s.assume.is_some()).unwrap_or(false);
    let mut sig = sig.clone();
    let mut block = block.clone();
    let src_line = sig.ident.span().start().line;
    let src_end = block.brace_token.span.close().end().line;
    let hash = fnv(&format!("{} {}", sig.to_token_stream(), block.to_token_stream()));
    let mut inlined = vec![];
    let mut notes = vec![];
    if spec.is_some() {
        let cur = locals::collect(&sig, &block);
        if let Some(base) = ctx.names.get(key) {
            let m = locals::renaming(base, &cur);
            if !m.is_empty() {
                let mut r = locals::Rename(&m);
                r.visit_signature_mut(&mut sig);
                r.visit_block_mut(&mut block);
            }
        }
        ctx.seen_names.insert(key.to_string(), cur);
    }
    locals::Loops.visit_block_mut(&mut block);
    if !(lost || assumed) {
        let helpers = std::mem::take(&mut ctx.helpers);
        let has_contract = spec.is_some();
        if has_contract {
            inline::inline_block(&helpers, key, &mut block, self_ty, &mut inlined, &mut notes);
        }
        ctx.helpers = helpers;
    }
    inline::Closures.visit_block_mut(&mut block);
    let mut rw = rewrite::Rewriter::new(ctx, &sig);
    rw.panicops = ctx.panicops.contains(key) || spec.as_ref().map(|s| s.panicops).unwrap_or(false);
    rw.visit_block_mut(&mut block);
    let nloops = rw.loops;
    notes.extend(std::mem::take(&mut rw.notes));
    rewrite::fix_sig(&mut sig);
    let gen_start = ctx.line;
    let mut text = String::new();
    let empty = specs::FnSpec::default();
    let s = spec.as_ref().unwrap_or(&empty);
    for a in &s.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if lost || assumed {
        text.push_str("#[verifier::external_body]\n");
    }
    if public {
        text.push_str("pub ");
    }
    text.push_str(&print::sig(&sig, s.ret.as_deref()));
    text.push('\n');
    text.push_str(&s.spec);
    if lost || assumed {
        text.push_str("{ unimplemented!() }\n");
    } else {
        let body = print::block(&block, s, nloops, &mut notes);
        text.push_str(&body);
        text.push('\n');
    }
    ctx.emit(&text);
    let gen_end = ctx.line;
    ctx.fns.push(FnInfo {
        key: key.to_string(),
        file: file.to_string(),
        src_line,
        src_end,
        gen_start,
        gen_end,
        contract: spec.is_some(),
        assumed,
        lost,
        loops: nloops,
        text_hash: hash,
        inlined,
        notes,
    });
    Ok(())
}

#[allow(dead_code)]
pub fn tokens(s: &str) -> proc_macro2::TokenStream {
    s.parse().unwrap_or_else(|_| quote!())
}
