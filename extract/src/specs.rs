use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub start: String,
    pub end: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub loopafter: BTreeMap<usize, String>,
    pub loopbefore: BTreeMap<usize, String>,
    pub afterlet: Vec<(String, String)>,
    pub aftercall: Vec<(String, String)>,
    pub beforecall: Vec<(String, String)>,
    pub afterif: BTreeMap<usize, String>,
    pub isoif: BTreeMap<usize, String>,
    pub isoend: BTreeMap<usize, String>,
    pub assume: Option<String>,
    pub panicops: bool,
}

#[derive(Default)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub order: Vec<String>,
    pub head: String,
    pub tail: String,
    pub modtext: BTreeMap<String, String>,
    pub skip: Vec<(String, String)>,
    pub skip_mods: Vec<String>,
    pub impls: BTreeMap<String, String>,
    pub keep: Vec<String>,
    pub typesub: Vec<(String, String)>,
}

pub fn wild(p: &str, s: &str) -> bool {
    if let Some(i) = p.find('*') {
        let (a, b) = (&p[..i], &p[i + 1..]);
        if !s.starts_with(a) {
            return false;
        }
        let rest = &s[a.len()..];
        if b.is_empty() {
            return true;
        }
        (0..=rest.len()).any(|k| rest.is_char_boundary(k) && wild(b, &rest[k..]))
    } else {
        p == s
    }
}

impl Specs {
    pub fn find(&self, key: &str) -> Option<FnSpec> {
        if let Some(s) = self.fns.get(key) {
            return Some(s.clone());
        }
        for k in &self.order {
            if k.contains('*') && wild(k, key) {
                return self.fns.get(k).cloned();
            }
        }
        None
    }
    pub fn has(&self, key: &str) -> bool {
        self.find(key).is_some()
    }
    pub fn skip_reason(&self, key: &str) -> Option<String> {
        self.skip.iter().find(|(p, _)| wild(p, key)).map(|x| x.1.clone())
    }
    pub fn impl_extra(&self, key: &str) -> Option<String> {
        self.impls.iter().find(|(p, _)| wild(p, key)).map(|x| x.1.clone())
    }
}

pub fn load(dir: &Path, set: &str) -> Result<Specs, String> {
    let mut sp = Specs::default();
    let mut files: Vec<_> = vec![];
    for d in ["common", set] {
        let dd = dir.join(d);
        let mut v: Vec<_> = std::fs::read_dir(&dd)
            .map_err(|e| format!("{}: {}", dd.display(), e))?
            .filter_map(|e| e.ok().map(|e| e.path()))
            .collect();
        v.sort();
        files.extend(v);
    }
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        if name.ends_with(".head.rs") {
            sp.head.push_str(&text);
        } else if name.ends_with(".tail.rs") {
            sp.tail.push_str(&text);
        } else if name.ends_with(".vspec") {
            parse(&mut sp, &text, &name)?;
        }
    }
    Ok(sp)
}

fn parse(sp: &mut Specs, text: &str, fname: &str) -> Result<(), String> {
    enum Sec {
        None,
        Spec,
        Start,
        End,
        Loop(usize),
        LoopStart(usize),
        LoopEnd(usize),
        LoopAfter(usize),
        LoopBefore(usize),
        AfterIf(usize),
        IsoIf(usize),
        IsoEnd(usize),
        AfterLet(String),
        AfterCall(String),
        BeforeCall(String),
        Mod(String),
        Impl(String),
    }
    let mut cur: Option<String> = None;
    let mut sec = Sec::None;
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if t.starts_with("#[") || t.starts_with("#!") {
            // attribute line inside text
        } else if let Some(rest) = t.strip_prefix('#') {
            let (cmd, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            let num = || arg.parse::<usize>().map_err(|_| format!("{}:{}: loop number", fname, ln + 1));
            match cmd {
                "fn" => {
                    let mut it = arg.splitn(2, char::is_whitespace);
                    let key = it.next().unwrap().to_string();
                    let at = it.next().unwrap_or("").trim();
                    let mut fs = FnSpec::default();
                    if !at.is_empty() {
                        fs.attrs.push(at.to_string());
                    }
                    if sp.fns.contains_key(&key) {
                        return Err(format!("{}:{}: duplicate {}", fname, ln + 1, key));
                    }
                    sp.order.push(key.clone());
                    sp.fns.insert(key.clone(), fs);
                    cur = Some(key);
                    sec = Sec::Spec;
                }
                "ret" => sp.fns.get_mut(cur.as_ref().unwrap()).unwrap().ret = Some(arg.to_string()),
                "assume" => sp.fns.get_mut(cur.as_ref().unwrap()).unwrap().assume = Some(arg.to_string()),
                "panicops" => sp.fns.get_mut(cur.as_ref().unwrap()).unwrap().panicops = true,
                "attr" => sp.fns.get_mut(cur.as_ref().unwrap()).unwrap().attrs.push(arg.to_string()),
                "spec" => sec = Sec::Spec,
                "start" => sec = Sec::Start,
                "end" => sec = Sec::End,
                "loop" => sec = Sec::Loop(num()?),
                "loopstart" => sec = Sec::LoopStart(num()?),
                "loopend" => sec = Sec::LoopEnd(num()?),
                "loopbefore" => sec = Sec::LoopBefore(num()?),
                "loopafter" => sec = Sec::LoopAfter(num()?),
                "afterif" => sec = Sec::AfterIf(num()?),
                "isoif" => sec = Sec::IsoIf(num()?),
                "isoend" => sec = Sec::IsoEnd(num()?),
                "afterlet" => sec = Sec::AfterLet(arg.to_string()),
                "aftercall" => sec = Sec::AfterCall(arg.to_string()),
                "beforecall" => sec = Sec::BeforeCall(arg.to_string()),
                "mod" => {
                    sec = Sec::Mod(arg.to_string());
                    cur = None;
                }
                "impl" => {
                    sec = Sec::Impl(arg.to_string());
                    cur = None;
                }
                "skip" => {
                    let mut it = arg.splitn(2, char::is_whitespace);
                    let key = it.next().unwrap().to_string();
                    sp.skip.push((key, it.next().unwrap_or("").to_string()));
                    sec = Sec::None;
                }
                "keep" => sp.keep.push(arg.to_string()),
                "skipmod" => {
                    sp.skip_mods.push(arg.to_string());
                }
                "rem" => {}
                _ => return Err(format!("{}:{}: unknown directive #{}", fname, ln + 1, cmd)),
            }
            continue;
        }
        let l = format!("{}\n", line);
        let push = |s: &mut String| s.push_str(&l);
        match &sec {
            Sec::None => {
                if !line.trim().is_empty() && !line.trim().starts_with("//") {
                    return Err(format!("{}:{}: text outside a section", fname, ln + 1));
                }
            }
            Sec::Mod(m) => push(sp.modtext.entry(m.clone()).or_default()),
            Sec::Impl(m) => push(sp.impls.entry(m.clone()).or_default()),
            other => {
                let fs = sp.fns.get_mut(cur.as_ref().unwrap()).unwrap();
                match other {
                    Sec::Spec => push(&mut fs.spec),
                    Sec::Start => push(&mut fs.start),
                    Sec::End => push(&mut fs.end),
                    Sec::Loop(k) => push(fs.loops.entry(*k).or_default()),
                    Sec::LoopStart(k) => push(fs.loopstart.entry(*k).or_default()),
                    Sec::LoopEnd(k) => push(fs.loopend.entry(*k).or_default()),
                    Sec::LoopBefore(k) => push(fs.loopbefore.entry(*k).or_default()),
                    Sec::LoopAfter(k) => push(fs.loopafter.entry(*k).or_default()),
                    Sec::AfterIf(k) => push(fs.afterif.entry(*k).or_default()),
                    Sec::IsoIf(k) => push(fs.isoif.entry(*k).or_default()),
                    Sec::IsoEnd(k) => push(fs.isoend.entry(*k).or_default()),
                    Sec::AfterLet(n) => {
                        if !fs.afterlet.iter().any(|x| &x.0 == n) {
                            fs.afterlet.push((n.clone(), String::new()));
                        }
                        push(&mut fs.afterlet.iter_mut().find(|x| &x.0 == n).unwrap().1)
                    }
                    Sec::AfterCall(n) => {
                        if !fs.aftercall.iter().any(|x| &x.0 == n) {
                            fs.aftercall.push((n.clone(), String::new()));
                        }
                        push(&mut fs.aftercall.iter_mut().find(|x| &x.0 == n).unwrap().1)
                    }
                    Sec::BeforeCall(n) => {
                        if !fs.beforecall.iter().any(|x| &x.0 == n) {
                            fs.beforecall.push((n.clone(), String::new()));
                        }
                        push(&mut fs.beforecall.iter_mut().find(|x| &x.0 == n).unwrap().1)
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}
