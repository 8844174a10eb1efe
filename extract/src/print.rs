use crate::rewrite::CV;
use crate::specs::FnSpec;
use crate::Ctx;
use quote::ToTokens;

pub fn constval(v: &CV, _ty: &str) -> String {
    if v.0 {
        format!("-{}", v.1)
    } else {
        format!("{}", v.1)
    }
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("cw_serde") {
            out.extend(["Clone".to_string(), "PartialEq".to_string(), "Debug".to_string()]);
        }
        if a.path().is_ident("derive") {
            let s = a.meta.to_token_stream().to_string();
            for w in s.split(|c: char| !c.is_alphanumeric()) {
                if !w.is_empty() && w != "derive" {
                    out.push(w.to_string());
                }
            }
        }
    }
    out
}

fn impls(name: &str, ds: &[String], default_body: Option<String>) -> String {
    let mut t = String::new();
    let has = |x: &str| ds.iter().any(|d| d == x);
    if has("Copy") {
        t.push_str(&format!("impl Copy for {} {{}}\n", name));
    }
    if has("Clone") {
        t.push_str(&format!(
            "impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
            n = name
        ));
    }
    if has("PartialEq") {
        t.push_str(&format!("impl PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{n}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &{n}) -> bool {{ unimplemented!() }} }}\n", n = name));
    }
    if has("Default") {
        if let Some(b) = default_body {
            t.push_str(&b);
        }
    }
    t
}

pub fn item_struct(ctx: &Ctx, s: &syn::ItemStruct) -> String {
    let name = s.ident.to_string();
    let ds = derives(&s.attrs);
    let mut t = String::new();
    let mut defs = vec![];
    let tuple = matches!(s.fields, syn::Fields::Unnamed(_));
    t.push_str(&format!("pub struct {} ", name));
    t.push_str(if tuple { "(" } else { "{\n" });
    for f in s.fields.iter() {
        let mut ty = f.ty.clone();
        crate::rewrite::fix_type(&mut ty);
        let ty = ty.to_token_stream().to_string();
        let d = default_of(&ty);
        match &f.ident {
            Some(i) => {
                t.push_str(&format!("    pub {}: {},\n", i, ty));
                defs.push((i.to_string(), d));
            }
            None => {
                t.push_str(&format!("pub {}, ", ty));
                defs.push((String::new(), d));
            }
        }
    }
    t.push_str(if tuple { ");\n" } else { "}\n" });
    let _ = ctx;
    let default_body = {
        let (specs, execs): (Vec<String>, Vec<String>) = defs
            .iter()
            .enumerate()
            .map(|(k, (n, d))| {
                let f = if n.is_empty() { format!("self.{}", k) } else { format!("self.{}", n) };
                (d.0.replace("{}", &f), if n.is_empty() { d.1.clone() } else { format!("{}: {}", n, d.1) })
            })
            .unzip();
        let ctor = if tuple { format!("{}({})", name, execs.join(", ")) } else { format!("{} {{ {} }}", name, execs.join(", ")) };
        Some(format!("impl {n} {{ pub open spec fn is_default(self) -> bool {{ {e} }}\npub fn default() -> (r: Self) ensures r.is_default() {{ {c} }} }}\n", n = name, e = specs.join(" && "), c = ctor))
    };
    t.push_str(&impls(&name, &ds, default_body));
    t
}

fn default_of(ty: &str) -> (String, String) {
    match ty {
        "i32" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize" => ("{} == 0".into(), "0".into()),
        "bool" => ("{} == false".into(), "false".into()),
        "String" => ("{}@ == Seq::<u8>::empty()".into(), "String::default()".into()),
        t if t.starts_with("Vec <") => ("{}@.len() == 0".into(), "Vec::new()".into()),
        t => ("{}.is_default()".into(), format!("{}::default()", t)),
    }
}

pub fn item_enum(_ctx: &Ctx, e: &syn::ItemEnum) -> String {
    let name = e.ident.to_string();
    let ds = derives(&e.attrs);
    let mut t = format!("pub enum {} {{\n", name);
    for v in &e.variants {
        let mut fields = v.fields.clone();
        for f in fields.iter_mut() {
            f.attrs.clear();
            crate::rewrite::fix_type(&mut f.ty);
        }
        t.push_str(&format!("    {}{},\n", v.ident, fields.to_token_stream()));
    }
    t.push_str("}\n");
    t.push_str(&impls(&name, &ds, None));
    t
}

pub fn sig(s: &syn::Signature, ret: Option<&str>) -> String {
    let mut s = s.clone();
    let out = s.output.clone();
    s.output = syn::ReturnType::Default;
    s.generics.where_clause = None;
    let mut t = s.to_token_stream().to_string();
    if let syn::ReturnType::Type(_, ty) = out {
        let n = ret.unwrap_or("r");
        t.push_str(&format!(" -> ({}: {})", n, ty.to_token_stream()));
    }
    t
}

fn nl(s: &str) -> String {
    // newlines after ; { } outside string literals
    let mut out = String::new();
    let mut instr = false;
    let mut prev = ' ';
    let cs: Vec<char> = s.chars().collect();
    let mut depth_par = 0i32;
    for (i, &c) in cs.iter().enumerate() {
        if c == '"' && prev != '\\' {
            // char literal '"' is not used in extracted code
            instr = !instr;
        }
        out.push(c);
        if !instr {
            if c == '(' {
                depth_par += 1;
            }
            if c == ')' {
                depth_par -= 1;
            }
            if c == ';' || c == '{' || c == '}' || (c == ',' && depth_par <= 1 && cs.get(i + 1) == Some(&' ') && false) {
                out.push('\n');
            }
        }
        prev = c;
    }
    out
}

/// top-level or nested `let <name>` statements: insert hints after them
fn insert_after_let(block: &mut syn::Block, name: &str, which: usize, count: &mut usize, id: usize) -> bool {
    let mut done = false;
    let mut i = 0;
    while i < block.stmts.len() {
        let hit = match &block.stmts[i] {
            syn::Stmt::Local(l) => pat_binds(&l.pat, name) && l.init.is_some(),
            _ => false,
        };
        // descend first (document order)
        {
            struct D<'a> {
                name: &'a str,
                which: usize,
                count: &'a mut usize,
                id: usize,
                done: bool,
            }
            impl<'a> syn::visit_mut::VisitMut for D<'a> {
                fn visit_block_mut(&mut self, b: &mut syn::Block) {
                    if !self.done {
                        self.done = insert_after_let(b, self.name, self.which, self.count, self.id);
                    }
                }
            }
            let mut d = D { name, which, count, id, done: false };
            syn::visit_mut::VisitMut::visit_stmt_mut(&mut d, &mut block.stmts[i]);
            if d.done {
                return true;
            }
        }
        if hit {
            *count += 1;
            if *count == which {
                block.stmts.insert(i + 1, syn::parse_quote!(__vhint!(#id);));
                done = true;
                break;
            }
        }
        i += 1;
    }
    done
}

/// insert a hint after (or before) the statement containing a call to `name`
fn insert_call(block: &mut syn::Block, name: &str, which: usize, count: &mut usize, id: usize, after: bool) -> bool {
    let mut i = 0;
    while i < block.stmts.len() {
        // is there a call directly in this statement (not inside a nested block)?
        struct C<'a> {
            name: &'a str,
            n: usize,
        }
        impl<'a, 'b> syn::visit::Visit<'b> for C<'a> {
            fn visit_block(&mut self, _: &'b syn::Block) {}
            fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.rsplit("::").next() == Some(self.name) {
                    self.n += 1;
                }
                syn::visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
                if c.method == self.name {
                    self.n += 1;
                }
                syn::visit::visit_expr_method_call(self, c);
            }
        }
        let is_expr_tail = i + 1 == block.stmts.len() && matches!(&block.stmts[i], syn::Stmt::Expr(_, None));
        let mut c = C { name, n: 0 };
        syn::visit::Visit::visit_stmt(&mut c, &block.stmts[i]);
        if c.n > 0 {
            *count += c.n;
            if *count >= which {
                if after && is_expr_tail {
                    return false;
                }
                let at = if after { i + 1 } else { i };
                block.stmts.insert(at, syn::parse_quote!(__vhint!(#id);));
                return true;
            }
        }
        struct D<'a> {
            name: &'a str,
            which: usize,
            count: &'a mut usize,
            id: usize,
            after: bool,
            done: bool,
        }
        impl<'a> syn::visit_mut::VisitMut for D<'a> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                if !self.done {
                    self.done = insert_call(b, self.name, self.which, self.count, self.id, self.after);
                }
            }
        }
        let mut d = D { name, which, count, id, after, done: false };
        syn::visit_mut::VisitMut::visit_stmt_mut(&mut d, &mut block.stmts[i]);
        if d.done {
            return true;
        }
        i += 1;
    }
    false
}

fn pat_binds(p: &syn::Pat, name: &str) -> bool {
    match p {
        syn::Pat::Ident(i) => i.ident == name,
        syn::Pat::Type(t) => pat_binds(&t.pat, name),
        syn::Pat::Tuple(t) => t.elems.iter().any(|e| pat_binds(e, name)),
        syn::Pat::TupleStruct(t) => t.elems.iter().any(|e| pat_binds(e, name)),
        _ => false,
    }
}

pub fn block(b: &syn::Block, s: &FnSpec, nloops: usize, notes: &mut Vec<String>) -> String {
    let mut b = b.clone();
    let mut hints: Vec<String> = vec![];
    let split = |n: &str| -> (String, usize) {
        match n.split_once('@') {
            Some((a, k)) => (a.trim().to_string(), k.trim().parse().unwrap_or(1)),
            None => (n.trim().to_string(), 1),
        }
    };
    for (n, t) in &s.afterlet {
        let (name, k) = split(n);
        let id = hints.len();
        hints.push(t.clone());
        let mut c = 0;
        if !insert_after_let(&mut b, &name, k, &mut c, id) {
            notes.push(format!("hint: no let {}", n));
        }
    }
    for (list, after) in [(&s.aftercall, true), (&s.beforecall, false)] {
        for (n, t) in list {
            let (name, k) = split(n);
            let id = hints.len();
            hints.push(t.clone());
            let mut c = 0;
            if !insert_call(&mut b, &name, k, &mut c, id, after) {
                notes.push(format!("hint: no call {}", n));
            }
        }
    }
    // an isolated statement: run exactly once, checked as its own obligation against a block contract
    // (`__o` is true before it and false after it)
    {
        let mut c = 0;
        for st in b.stmts.iter_mut() {
            if matches!(st, syn::Stmt::Expr(syn::Expr::If(_), _)) {
                c += 1;
                if s.isoif.contains_key(&c) {
                    let k = c;
                    let old = st.clone();
                    *st = syn::parse_quote!({ let mut __o = true; while __o { __viso!(#k); __o = false; #old __visoend!(#k); } });
                }
            }
        }
        for k in s.isoif.keys() {
            if *k > c {
                notes.push(format!("hint: no if {}", k));
            }
        }
    }
    for (k, t) in &s.afterif {
        let mut c = 0;
        let pos = b.stmts.iter().position(|st| {
            if matches!(st, syn::Stmt::Expr(syn::Expr::If(_), _)) {
                c += 1;
            }
            c == *k
        });
        match pos {
            Some(i) => {
                let id = hints.len();
                hints.push(t.clone());
                b.stmts.insert(i + 1, syn::parse_quote!(__vhint!(#id);));
            }
            None => notes.push(format!("hint: no if {}", k)),
        }
    }
    let stmts = &b.stmts;
    let mut text = String::new();
    text.push_str("{\n");
    text.push_str(&s.start);
    if s.end.is_empty() {
        for st in stmts {
            text.push_str(&nl(&st.to_token_stream().to_string()));
            text.push('\n');
        }
    } else {
        // bind the tail expression so that the end hint sees it
        let n = stmts.len();
        for (i, st) in stmts.iter().enumerate() {
            if i + 1 == n {
                if let syn::Stmt::Expr(e, None) = st {
                    text.push_str(&format!("let __ret = {};\n{}\n__ret\n", nl(&e.to_token_stream().to_string()), s.end));
                    continue;
                }
            }
            text.push_str(&nl(&st.to_token_stream().to_string()));
            text.push('\n');
            if i + 1 == n {
                text.push_str(&s.end);
            }
        }
    }
    text.push_str("}\n");
    for (k, inv) in &s.isoif {
        for u in ["", "usize"] {
            let pat = format!("__viso ! ({}{}) ;", k, u);
            if let Some(p) = text.find(&pat) {
                let open = text[..p].rfind('{').unwrap();
                let end = p + pat.len();
                text = format!("{}\n{}{{\n{}", &text[..open], inv, &text[end..]);
            }
            let pat = format!("__visoend ! ({}{}) ;", k, u);
            text = text.replace(&pat, s.isoend.get(k).map(|x| x.as_str()).unwrap_or(""));
        }
    }
    // loop markers
    for k in 0..nloops {
        let pat = format!("__vloop ! ({}) ;", k);
        if let Some(p) = text.find(&pat).or_else(|| text.find(&format!("__vloop ! ({}usize) ;", k))) {
            let end = text[p..].find(';').unwrap() + p + 1;
            // preceding '{'
            let open = text[..p].rfind('{').unwrap();
            let inv = s.loops.get(&k).cloned().unwrap_or_default();
            if inv.is_empty() {
                notes.push(format!("loop: no invariant for loop {}", k));
            }
            let body_start = s.loopstart.get(&k).cloned().unwrap_or_default();
            // matching close
            let close = match_brace(&text, open);
            let mut nt = String::new();
            let head = &text[..open];
            match s.loopbefore.get(&k) {
                Some(x) => {
                    let w = head.rfind("while ").unwrap_or(0).max(head.rfind("loop").unwrap_or(0)).max(head.rfind("for ").unwrap_or(0));
                    nt.push_str(&head[..w]);
                    nt.push('\n');
                    nt.push_str(x);
                    nt.push_str(&head[w..]);
                }
                None => nt.push_str(head),
            }
            nt.push('\n');
            nt.push_str(&inv);
            nt.push_str("{\n");
            nt.push_str(&body_start);
            nt.push_str(&text[end..close]);
            if let Some(x) = s.loopend.get(&k) {
                nt.push_str(x);
            }
            nt.push('}');
            if let Some(x) = s.loopafter.get(&k) {
                nt.push('\n');
                nt.push_str(x);
            }
            nt.push_str(&text[close + 1..]);
            text = nt;
        }
    }
    for k in s.loops.keys() {
        if *k >= nloops {
            notes.push(format!("loop: spec for missing loop {}", k));
        }
    }
    for (i, h) in hints.iter().enumerate() {
        for pat in [format!("__vhint ! ({}) ;", i), format!("__vhint ! ({}usize) ;", i)] {
            text = text.replace(&pat, &format!("\n{}", h));
        }
    }
    text
}

fn match_brace(s: &str, open: usize) -> usize {
    let b = s.as_bytes();
    let mut d = 0;
    let mut i = open;
    let mut instr = false;
    while i < b.len() {
        match b[i] {
            b'"' => instr = !instr,
            b'{' if !instr => d += 1,
            b'}' if !instr => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
        i += 1;
    }
    s.len() - 1
}
