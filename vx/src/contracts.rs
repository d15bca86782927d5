//! Parser for the contract files (see DESIGN.md, "contract files").
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub text: String,
    pub no_default: bool,
    pub out_ty: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub name: String,
    pub params: Option<Vec<String>>,
    pub assume: bool,
    pub as_name: Option<String>,
    pub attrs: Vec<String>,
    pub clauses: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, String>,
    pub points: BTreeMap<String, String>,
    pub file: String,
    pub line: usize,
}

#[derive(Clone, Debug)]
pub enum Item {
    Raw(String),
    Use(String),
    Types(Vec<(String, Option<String>)>),
    Static(String, String),
    Fn(FnC),
    Trait(String),
    TraitImpl { tr: String, ty: String, fns: Vec<FnC>, pre: String },
    Expect(String, String),
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub src: Option<String>,
    pub items: Vec<Item>,
}

pub fn preprocess(text: &str, props: &[String]) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut stack: Vec<bool> = vec![];
    for (i, l) in text.lines().enumerate() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("%if ") {
            let neg = r.trim().starts_with('!');
            let on = r.trim().trim_start_matches('!').split_whitespace().any(|p| props.iter().any(|q| q == p || q == "ALL"));
            stack.push(on != neg);
            continue;
        }
        if t == "%else" {
            let n = stack.len();
            stack[n - 1] = !stack[n - 1];
            continue;
        }
        if t == "%endif" {
            stack.pop().expect("%endif without %if");
            continue;
        }
        if stack.iter().all(|b| *b) {
            if t.starts_with("%%") {
                continue;
            }
            // `//@ C03 C04`: this line's obligation decides those properties only
            let l = match l.find("//@") {
                Some(at) if l[at + 3..].split_whitespace().any(|p| props.iter().any(|q| q == p || q == "ALL")) => format!("{}// decides", &l[..at]),
                Some(at) => format!("{}// aside", &l[..at]),
                None => l.to_string(),
            };
            out.push((i + 1, l));
        }
    }
    assert!(stack.is_empty(), "unclosed %if");
    out
}

/// Contracts of functions verified elsewhere: bodies are not looked at, lemmas are stated without proof.
pub fn only_statements(lines: Vec<(usize, String)>) -> Vec<(usize, String)> {
    let mut raw = false;
    let mut drop = false;
    let mut out = vec![];
    for (n, l) in lines {
        let t = l.trim().to_string();
        if t.starts_with('%') {
            raw = t.starts_with("%raw");
            drop = t.starts_with("%loop") || t.starts_with("%at ") || t.starts_with("%closure");
            if drop {
                continue;
            }
            if t.starts_with("%fn ") && !t.ends_with(" assume") {
                out.push((n, format!("{} assume", t)));
                continue;
            }
        } else if drop {
            continue;
        } else if raw && (t.starts_with("pub proof fn") || t.starts_with("pub broadcast proof fn")) {
            out.push((n, "#[verifier::external_body]".to_string()));
        }
        out.push((n, l));
    }
    out
}

pub fn parse(file: &str, lines: Vec<(usize, String)>, modules: &mut Vec<Module>) {
    let mut cur: Option<usize> = None;
    // the destination of plain lines
    enum Dest {
        None,
        Raw,
        Clauses,
        Loop(usize),
        Closure(usize),
        Point(String),
        ImplPre,
    }
    let mut dest = Dest::None;
    let mut in_impl = false;
    fn last_fn(m: &mut Module, in_impl: bool) -> &mut FnC {
        match m.items.last_mut() {
            Some(Item::Fn(f)) if !in_impl => f,
            Some(Item::TraitImpl { fns, .. }) => fns.last_mut().expect("no %fn in %traitimpl"),
            _ => panic!("no %fn before"),
        }
    }
    for (ln, l) in lines {
        let t = l.trim();
        if !t.starts_with('%') {
            if t.is_empty() && matches!(dest, Dest::None) {
                continue;
            }
            let m = match cur {
                Some(c) => &mut modules[c],
                None => {
                    if t.is_empty() || t.starts_with("//") {
                        continue;
                    }
                    panic!("{}:{}: text outside a module", file, ln)
                }
            };
            match &dest {
                Dest::None => {
                    if !t.is_empty() && !t.starts_with("//") {
                        panic!("{}:{}: stray text: {}", file, ln, t)
                    }
                }
                Dest::Raw => {
                    if let Some(Item::Raw(s)) = m.items.last_mut() {
                        s.push_str(&l);
                        s.push('\n');
                    }
                }
                Dest::ImplPre => {
                    if let Some(Item::TraitImpl { pre, .. }) = m.items.last_mut() {
                        pre.push_str(&l);
                        pre.push('\n');
                    }
                }
                Dest::Clauses => {
                    let f = last_fn(m, in_impl);
                    f.clauses.push_str(&l);
                    f.clauses.push('\n');
                }
                Dest::Loop(n) => {
                    let f = last_fn(m, in_impl);
                    let e = f.loops.entry(*n).or_default();
                    e.text.push_str(&l);
                    e.text.push('\n');
                }
                Dest::Closure(n) => {
                    let f = last_fn(m, in_impl);
                    f.closures.entry(*n).or_default().push_str(&format!("{}\n", l));
                }
                Dest::Point(p) => {
                    let f = last_fn(m, in_impl);
                    f.points.entry(p.clone()).or_default().push_str(&format!("{}\n", l));
                }
            }
            continue;
        }
        let mut w = t[1..].split_whitespace();
        let d = w.next().unwrap_or("");
        let rest = t[1 + d.len()..].trim().to_string();
        match d {
            "mod" => {
                let mut a = rest.split_whitespace();
                let name = a.next().unwrap().to_string();
                let src = a.next().map(|s| s.to_string());
                in_impl = false;
                if let Some(i) = modules.iter().position(|m| m.name == name) {
                    if src.is_some() {
                        modules[i].src = src;
                    }
                    cur = Some(i);
                } else {
                    modules.push(Module { name, src, items: vec![] });
                    cur = Some(modules.len() - 1);
                }
                dest = Dest::None;
            }
            "raw" => {
                in_impl = false;
                modules[cur.unwrap()].items.push(Item::Raw(String::new()));
                dest = Dest::Raw;
            }
            "use" => {
                modules[cur.unwrap()].items.push(Item::Use(rest));
                dest = Dest::None;
            }
            "types" => {
                in_impl = false;
                let v = rest.split_whitespace().map(|s| (s.to_string(), None)).collect();
                modules[cur.unwrap()].items.push(Item::Types(v));
                dest = Dest::None;
            }
            "type" => {
                in_impl = false;
                let (n, a) = rest.split_once(' ').unwrap();
                modules[cur.unwrap()].items.push(Item::Types(vec![(n.to_string(), Some(a.to_string()))]));
                dest = Dest::None;
            }
            "expect" => {
                let (n, a) = rest.split_once(' ').unwrap();
                modules[cur.unwrap()].items.push(Item::Expect(n.to_string(), a.to_string()));
                dest = Dest::None;
            }
            "trait" => {
                in_impl = false;
                modules[cur.unwrap()].items.push(Item::Trait(rest));
                dest = Dest::None;
            }
            "traitimpl" => {
                let (a, b) = rest.split_once(" for ").expect("%traitimpl T for X");
                modules[cur.unwrap()].items.push(Item::TraitImpl { tr: a.trim().into(), ty: b.trim().into(), fns: vec![], pre: String::new() });
                in_impl = true;
                dest = Dest::ImplPre;
            }
            "endimpl" => {
                in_impl = false;
                dest = Dest::None;
            }
            "static" => {
                in_impl = false;
                modules[cur.unwrap()].items.push(Item::Static(rest, String::new()));
                dest = Dest::None;
                let _ = &dest;
            }
            "fn" => {
                let mut f = FnC { file: file.to_string(), line: ln, ..Default::default() };
                let mut r = rest.as_str();
                if let Some(x) = r.strip_suffix(" assume") {
                    f.assume = true;
                    r = x.trim();
                }
                if let Some((a, b)) = r.split_once(" as ") {
                    f.as_name = Some(b.trim().to_string());
                    r = a.trim();
                }
                if let Some((a, b)) = r.split_once('(') {
                    f.params = Some(b.trim_end_matches(')').split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
                    r = a.trim();
                }
                f.name = r.to_string();
                if in_impl {
                    if let Some(Item::TraitImpl { fns, .. }) = modules[cur.unwrap()].items.last_mut() {
                        fns.push(f);
                    }
                } else {
                    modules[cur.unwrap()].items.push(Item::Fn(f));
                }
                dest = Dest::Clauses;
            }
            "attr" => {
                last_fn(&mut modules[cur.unwrap()], in_impl).attrs.push(rest);
            }
            "loop" => {
                let mut a = rest.split_whitespace();
                let n: usize = a.next().unwrap().parse().unwrap();
                let x: Vec<&str> = a.collect();
                let nd = x.first() == Some(&"nodefault");
                let e = last_fn(&mut modules[cur.unwrap()], in_impl).loops.entry(n).or_default();
                e.no_default = nd;
                if !nd && !x.is_empty() {
                    e.out_ty = Some(x.join(" "));
                }
                dest = Dest::Loop(n);
            }
            "closure" => {
                dest = Dest::Closure(rest.parse().unwrap());
            }
            "at" => {
                dest = Dest::Point(rest);
            }
            _ => panic!("{}:{}: unknown directive %{}", file, ln, d),
        }
    }
}
