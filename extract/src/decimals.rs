use crate::Ctx;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;

#[derive(Clone)]
pub struct Dec {
    pub module: String,
    pub file: String,
    pub name: String,
    pub under: String,
    pub big: String,
    pub scale: u8,
}

pub fn find(files: &[(String, String, syn::File)]) -> Vec<Dec> {
    let mut out = vec![];
    for (m, file, f) in files {
        for it in &f.items {
            if let syn::Item::Struct(s) = it {
                for a in &s.attrs {
                    if a.path().is_ident("decimal") {
                        let args = match &a.meta {
                            syn::Meta::List(l) => l.tokens.to_string(),
                            _ => String::new(),
                        };
                        let parts: Vec<&str> = args.split(',').collect();
                        let scale = parts[0].trim().parse::<u8>().unwrap_or(0);
                        let big = if parts.len() > 1 { parts[1].trim().to_string() } else { "U256".into() };
                        let under = s.fields.iter().next().unwrap().ty.to_token_stream().to_string();
                        out.push(Dec { module: m.clone(), file: file.clone(), name: s.ident.to_string(), under, big, scale });
                    }
                }
            }
        }
    }
    out
}

/// find the first quote!(...) inside a function body
fn quotes(ts: TokenStream, acc: &mut Vec<TokenStream>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "quote" && i + 2 < v.len() {
                if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) {
                    if p.as_char() == '!' {
                        acc.push(g.stream());
                        i += 3;
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            quotes(g.stream(), acc);
        }
        i += 1;
    }
}

fn subst(ts: TokenStream, f: &dyn Fn(&str) -> Option<TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' && i + 1 < v.len() {
                if let TokenTree::Ident(id) = &v[i + 1] {
                    if let Some(r) = f(&id.to_string()) {
                        out.extend(r);
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), f));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

const TEMPLATES: [&str; 8] = ["base", "ops", "big_ops", "by_number", "others", "factories", "checked_ops", "lib"];

pub fn emit(ctx: &mut Ctx, d: &Dec) -> Result<(), String> {
    for t in TEMPLATES {
        let rel = format!("packages/decimal-core/src/{}.rs", t);
        let text = std::fs::read_to_string(ctx.repo.join(&rel)).map_err(|e| format!("{}: {}", rel, e))?;
        let parsed = syn::parse_file(&text).map_err(|e| format!("{}: {}", rel, e))?;
        let mut qs = vec![];
        quotes(parsed.to_token_stream(), &mut qs);
        for q in qs {
            let dd = d.clone();
            let f = move |n: &str| -> Option<TokenStream> {
                let p = |s: String| Some(s.parse::<TokenStream>().unwrap());
                match n {
                    "struct_name" => p(dd.name.clone()),
                    "underlying_type" => p(dd.under.clone()),
                    "big_type" => p(dd.big.clone()),
                    "parsed_scale" | "scale" => p(format!("{}u8", dd.scale)),
                    "field_name" => p("0".into()),
                    "name_str" | "underlying_str" | "big_str" => p("\"\"".into()),
                    "denominator" => p(format!("{}u128", 10u128.pow(dd.scale as u32))),
                    "almost_denominator" => p(format!("{}u128", 10u128.pow(dd.scale as u32) - 1)),
                    "module_name" => p("tests_x".into()),
                    _ => None,
                }
            };
            let ts = subst(q, &f);
            let file: syn::File = match syn::parse2(ts) {
                Ok(f) => f,
                Err(e) => {
                    ctx.warnings.push(format!("{}: template did not parse after substitution: {}", rel, e));
                    continue;
                }
            };
            for it in file.items {
                if let syn::Item::Impl(im) = it {
                    if crate::is_test(&im.attrs) {
                        continue;
                    }
                    let mut im = im;
                    // `impl<T: Decimal, U256> BetweenDecimalsToValue<T, U256>`: the template names a type
                    // parameter after the big type; every use instantiates it with that type
                    im.generics.params = im
                        .generics
                        .params
                        .iter()
                        .filter(|p| !matches!(p, syn::GenericParam::Type(t) if t.ident == d.big.as_str()))
                        .cloned()
                        .collect();
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let key = match &tr {
                        Some(t) => format!("{}::{}::{}", d.module, d.name, t),
                        None => format!("{}::{}", d.module, d.name),
                    };
                    if let Some(r) = ctx.specs.skip_reason(&key) {
                        ctx.dropped.push((key, r));
                        continue;
                    }
                    crate::emit_impl(ctx, &key, &rel, &im, &d.name, tr.is_some())?;
                }
            }
        }
    }
    // spec-level characteristics
    if let Some(x) = ctx.specs.impl_extra("@decimal") {
        let s = vars(&x, d);
        ctx.emit(&s);
        ctx.emit("\n");
    }
    Ok(())
}

pub fn vars(x: &str, d: &Dec) -> String {
    x.replace("$NAME", &d.name)
        .replace("$UNDER", &d.under)
        .replace("$SCALE", &d.scale.to_string())
        .replace("$ONE", &10u128.pow(d.scale as u32).to_string())
}
