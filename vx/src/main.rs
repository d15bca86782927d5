//! vx: extracts functions and types from /repo's current source, lowers them mechanically into
//! the verifier's subset, attaches the contracts of /verif/contracts and writes one Verus file.
mod contracts;
mod lower;
mod drops;
mod select;

use contracts::*;
use lower::{ItemFnLike, Lower};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::*;

fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        (s.contains("cfg") && (s.contains("test") || s.contains("cambrian_verif"))) || s.contains("# [test]")
    })
}

#[derive(Clone)]
struct Found {
    imp: Option<ItemImpl>,
    tr: Option<ItemTrait>,
    sig: Signature,
    block: Option<Block>,
}

struct Source {
    file: File,
    fns: Vec<(String, Found)>, // "name" or "Type::name" or "<Trait for Type>::name"
    statics: HashMap<String, (Type, Expr)>,
    consts: HashMap<String, (Type, Expr)>,
    /// async functions of the module and those it imports
    asyncs: HashSet<String>,
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn load(path: &str) -> std::result::Result<Source, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
    let mut fns = vec![];
    let mut statics = HashMap::new();
    let mut consts = HashMap::new();
    fn walk(items: &[syn::Item], fns: &mut Vec<(String, Found)>, statics: &mut HashMap<String, (Type, Expr)>, consts: &mut HashMap<String, (Type, Expr)>) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !cfg_test(&f.attrs) => fns.push((
                    f.sig.ident.to_string(),
                    Found { imp: None, tr: None, sig: f.sig.clone(), block: Some((*f.block).clone()) },
                )),
                syn::Item::Impl(i) if !cfg_test(&i.attrs) => {
                    let ty = type_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            let key = match &tr {
                                Some(t) => format!("<{} for {}>::{}", t, ty, f.sig.ident),
                                None => format!("{}::{}", ty, f.sig.ident),
                            };
                            let mut sh = i.clone();
                            sh.items.clear();
                            fns.push((key, Found { imp: Some(sh), tr: None, sig: f.sig.clone(), block: Some(f.block.clone()) }));
                        }
                    }
                }
                syn::Item::Trait(t) if !cfg_test(&t.attrs) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            fns.push((
                                format!("{}::{}", t.ident, f.sig.ident),
                                Found { imp: None, tr: Some(t.clone()), sig: f.sig.clone(), block: f.default.clone() },
                            ));
                        }
                    }
                }
                syn::Item::Mod(m) if !cfg_test(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        walk(c, fns, statics, consts);
                    }
                }
                syn::Item::Const(c) if !cfg_test(&c.attrs) => {
                    consts.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
                }
                syn::Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "lazy_static" => {
                    // lazy_static! { static ref NAME: T = init; ... }
                    let s = m.mac.tokens.to_string();
                    for part in s.split("static ref").skip(1) {
                        if let Ok(ItemStatic { ident, ty, expr, .. }) = syn::parse_str::<ItemStatic>(&format!("static {}", part.trim_end().trim_end_matches("pub"))) {
                            statics.insert(ident.to_string(), (*ty, *expr));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    walk(&file.items, &mut fns, &mut statics, &mut consts);
    let asyncs = fns.iter().filter(|(n, f): &&(String, Found)| f.sig.asyncness.is_some() && !n.contains("::")).map(|(n, _)| n.clone()).collect();
    Ok(Source { file, fns, statics, consts, asyncs })
}

/// token text -> text with line breaks (outside of string and char literals)
fn breaklines(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut depth: usize = 0;
    while i < b.len() {
        let c = b[i];
        if c == '"' {
            let raw = i > 0 && (b[i - 1] == 'r' || b[i - 1] == '#');
            out.push(c);
            i += 1;
            while i < b.len() {
                out.push(b[i]);
                if b[i] == '\\' && !raw {
                    i += 1;
                    out.push(b[i]);
                } else if b[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
            continue;
        }
        if c == '\'' && i + 2 < b.len() && (b[i + 2] == '\'' || b[i + 1] == '\\') {
            let mut j = i + 1;
            if b[j] == '\\' {
                j += 1;
            }
            j += 1;
            while j < b.len() && b[j] != '\'' {
                j += 1;
            }
            out.extend(&b[i..=j.min(b.len() - 1)]);
            i = j + 1;
            continue;
        }
        out.push(c);
        match c {
            '{' => {
                depth += 1;
                out.push('\n');
                out.push_str(&"  ".repeat(depth.min(20)));
            }
            ';' => {
                out.push('\n');
                out.push_str(&"  ".repeat(depth.min(20)));
            }
            '}' => {
                depth = depth.saturating_sub(1);
                if i + 1 < b.len() && !matches!(b.get(i + 2), Some(';') | Some(')') | Some(',') | Some('.')) {
                    out.push('\n');
                    out.push_str(&"  ".repeat(depth.min(20)));
                }
            }
            _ => {}
        }
        i += 1;
    }
    out
}

fn subst(text: &str, map: &[(String, String)]) -> String {
    // whole-word substitution; `$x` words are matched with the dollar sign; not after `.` or `::`
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            let mut k = st;
            while k > 0 && b[k - 1] == ' ' {
                k -= 1;
            }
            let field = k > 0 && b[k - 1] == '.' && !(k > 1 && b[k - 2] == '.');
            match map.iter().find(|(a, _)| *a == w) {
                Some((_, r)) if !field => out.push_str(r),
                _ => out.push_str(&w),
            }
            continue;
        }
        out.push(c);
        i += 1;
    }
    out
}

fn strip_attrs_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
    }
}

struct Out {
    text: String,
    line: usize,
    map: Vec<String>, // json objects
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') {
            self.text.push('\n');
        }
        self.line = self.text.matches('\n').count();
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("derive"))
        .flat_map(|a| a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).map(|s| s.to_string()).collect::<Vec<_>>())
        .collect()
}

struct Ctx<'a> {
    /// the loops each function had when its contract was written
    loops: HashMap<String, Vec<String>>,
    renames: HashMap<String, String>,
    skip: HashSet<String>,
    warnings: Vec<String>,
    emitted: &'a HashSet<String>, // "module::Item"
    emitted_mods: &'a HashSet<String>,
}

fn use_leaves(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            use_leaves(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push((q, None))
        }
        UseTree::Rename(r) => {
            let mut q = pre;
            q.push(r.ident.to_string());
            out.push((q, Some(r.rename.to_string())))
        }
        UseTree::Glob(_) => {
            let mut q = pre;
            q.push("*".into());
            out.push((q, None))
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_leaves(x, pre.clone(), out)
            }
        }
    }
}

fn params_of(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Receiver(_) => None,
            FnArg::Typed(t) => Some(match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                p => p.to_token_stream().to_string(),
            }),
        })
        .collect()
}

/// first `X.push(..)`/`X.insert(..)` on a plain local in a loop body: the collection being built
fn built_local(body: &str) -> Option<String> {
    let toks: Vec<&str> = body.split_whitespace().collect();
    for w in toks.windows(4) {
        if w[1] == "." && (w[2] == "push" || w[2] == "insert" || w[2] == "extend" || w[2] == "push_back") {
            if w[0].chars().all(|c| c.is_alphanumeric() || c == '_') && !w[0].chars().next().unwrap().is_numeric() {
                return Some(w[0].to_string());
            }
        }
        if w[0] == "vx_collect_push" && w[1] == "(&" {
            // handled through __vx_out
        }
    }
    None
}

/// With `--probe 1`: an assertion that must fail, at the start of every verified body and loop body
/// (a probe that is accepted shows a contradictory precondition, invariant or axiom).
fn probe() -> String {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    if PROBE.load(Ordering::Relaxed) {
        format!("proof {{ if crate::ext::vx_probe({}) {{ assert(false); }} }}\n", N.fetch_add(1, Ordering::Relaxed))
    } else {
        String::new()
    }
}
static PROBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn emit_fn(o: &mut Out, cx: &mut Ctx, src: &Source, module: &str, fc: &FnC, f: &Found, pubk: bool, inline: &HashMap<String, ItemFnLike>) {
    let qual = format!("{}::{}", module, fc.name);
    let mut sig = f.sig.clone();
    let was_async = sig.asyncness.is_some();
    sig.asyncness = None;
    if let Some(n) = &fc.as_name {
        sig.ident = Ident::new(n, proc_macro2::Span::call_site());
    }
    // lowered body
    let statics: HashSet<String> = src.statics.keys().cloned().collect();
    let mut body = f.block.clone();
    let world = was_async || fc.attrs.iter().any(|a| a == "world");
    let mut renames = cx.renames.clone();
    for a in &fc.attrs {
        if let Some(r) = a.strip_prefix("rename ") {
            let mut w = r.split_whitespace();
            renames.insert(w.next().unwrap_or("").to_string(), w.next().unwrap_or("").to_string());
        }
    }
    let mut lw = Lower {
        next_loop: 0,
        loop_sigs: vec![],
        next_closure: 0,
        closure_params: vec![],
        next_tmp: 0,
        unsupported: vec![],
        notes: vec![],
        local_closures: vec![],
        inline,
        inline_stack: vec![],
        statics: &statics,
        consts: &src.consts,
        renames: &renames,
        str_ret: false,
        aliases: vec![],
        world,
        effects: fc.attrs.iter().filter_map(|a| a.strip_prefix("effects ")).flat_map(|a| a.split_whitespace()).map(|x| x.to_string()).collect(),
        asyncs: src.asyncs.iter().cloned().chain(fc.attrs.iter().filter_map(|a| a.strip_prefix("asyncs ")).flat_map(|a| a.split_whitespace()).map(|x| x.to_string())).collect(),
        in_await: false,
        drops: fc.attrs.iter().any(|a| a == "drops"),
        texts: fc.attrs.iter().any(|a| a == "texts"),
    };
    let mut assume = fc.assume || cx.skip.contains(&qual);
    if !fc.assume {
        if let Some(b) = &mut body {
            lw.run(b);
            if lw.drops {
                match syn::parse2::<Block>(b.to_token_stream()) {
                    Ok(mut nb) => {
                        let guards: HashSet<String> =
                            src.fns.iter().filter_map(|(k, _)| k.strip_prefix("<Drop for ").and_then(|k| k.strip_suffix(">::drop")).map(|x| x.to_string())).collect();
                        let mut d = drops::Drops::new(&guards);
                        d.block(&mut nb);
                        lw.unsupported.extend(d.unsupported);
                        *b = nb;
                    }
                    Err(e) => lw.unsupported.push(format!("lowered body not parsed: {}", e)),
                }
            }
        }
    }
    if !lw.unsupported.is_empty() && !fc.assume {
        cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"unsupported\",\"what\":{}}}", js(&qual), js(&lw.unsupported.join("; "))));
        assume = true;
    }
    let mut sub: Vec<(String, String)> = vec![];
    if let Some(ps) = &fc.params {
        let actual = params_of(&f.sig);
        if actual.len() != ps.len() {
            cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"signature\",\"what\":\"parameter count changed\"}}", js(&qual)));
            assume = true;
        }
        for (a, b) in ps.iter().zip(actual) {
            sub.push((a.clone(), b));
        }
    }
    let start = o.line + 1;
    o.push(&format!("// ---- {}", qual));
    o.push("#[allow(unused)]");
    for a in fc.attrs.iter().filter(|a| !a.starts_with("rename ") && !a.starts_with("effects ") && !a.starts_with("asyncs ") && *a != "world" && *a != "drops" && *a != "texts") {
        o.push(a);
    }
    if assume && f.block.is_some() {
        o.push("#[verifier::external_body]");
    } else if f.block.is_some() {
        o.push("#[verifier::loop_isolation(false)]");
        if fc.loops.values().any(|l| l.text.contains("invariant_except_break")) {
            o.push("#[verifier::allow_complex_invariants]");
        }
    }
    // signature with a named result
    let out_ty = sig.output.clone();
    sig.output = ReturnType::Default;
    let wh = sig.generics.where_clause.take();
    if world {
        sig.inputs.push(parse_quote! { vx_w: &mut crate::world::World });
    }
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => t.attrs.clear(),
            FnArg::Receiver(_) => {}
        }
    }
    let mut head = String::new();
    if pubk {
        head.push_str("pub ");
    }
    head.push_str(&sig.to_token_stream().to_string());
    if let ReturnType::Type(_, t) = &out_ty {
        let _ = write!(head, " -> (r: {})", t.to_token_stream());
    } else {
        head.push_str(" -> (r: ())");
    }
    if let Some(w) = wh {
        let _ = write!(head, " {}", w.to_token_stream());
    }
    let head = head.replace(": IntoIterator <", ": VxSource <");
    o.push(&head);
    for (i, l) in fc.clauses.lines().enumerate() {
        let st = o.line + 1;
        o.push(&format!("    {}", subst(l, &sub)));
        o.map.push(format!(
            "{{\"kind\":\"clause\",\"fn\":{},\"line\":{},\"contract\":{},\"text\":{}}}",
            js(&qual), st, js(&format!("{}:{}", fc.file, fc.line + 1 + i)), js(l.trim())
        ));
    }
    let mut nloops = 0;
    match &body {
        None => o.push(";"),
        Some(_) if assume => o.push("{ unimplemented!() }"),
        Some(b) => {
            let mut s = b.to_token_stream().to_string();
            // marks
            nloops = lw.next_loop;
            // the loops the contract was written for
            let to = match cx.loops.get(&qual) {
                Some(base) => align(base, &lw.loop_sigs),
                None => (0..lw.next_loop).map(Some).collect(),
            };
            let at = |n: usize| to.get(n).copied().flatten();
            let mut fcm = fc.clone();
            fcm.loops.clear();
            for (n, l) in &fc.loops {
                match at(*n) {
                    Some(a) => {
                        fcm.loops.insert(a, l.clone());
                    }
                    None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-loop\",\"what\":\"loop {}\"}}", js(&qual), n)),
                }
            }
            fcm.points.clear();
            for (k, v) in &fc.points {
                let mut w = k.split_whitespace();
                let k2 = match (w.next(), w.next().and_then(|x| x.parse::<usize>().ok())) {
                    (Some(h @ ("beforeloop" | "loopstart" | "loopend" | "afterloop")), Some(n)) => match at(n) {
                        Some(a) => format!("{} {}", h, a),
                        None => continue,
                    },
                    _ => k.clone(),
                };
                fcm.points.insert(k2, v.clone());
            }
            let fc = &fcm;
            for n in 0..lw.next_loop {
                let it = format!("__vx_it{}", n);
                let all = format!("__vx_all{}", n);
                let mut outv = format!("__vx_out{}", n);
                let lm = format!("{{ __vx_mark ! (\"L{}\") ;", n);
                let wm = format!("{{ __vx_mark ! (\"W{}\") ;", n);
                let isl = s.contains(&lm);
                let pos = s.find(if isl { &lm } else { &wm });
                if !s.contains(&format!("let mut {} ", outv)) && !s.contains(&format!("let mut {} :", outv)) {
                    if let Some(p) = pos {
                        let e = s.find(&format!("__vx_mark ! (\"E{}\")", n)).unwrap_or(s.len());
                        if let Some(v) = built_local(&s[p..e.max(p)]) {
                            outv = v;
                        }
                    }
                }
                let mut m2 = vec![
                    ("$it".to_string(), it.clone()),
                    ("$all".to_string(), all.clone()),
                    ("$out".to_string(), outv.clone()),
                    ("$pos".to_string(), format!("{}.pos", it)),
                    ("$brk".to_string(), format!("__vx_brk{}", n)),
                    ("$seen".to_string(), format!("__vx_seen{}", n)),
                ];
                for (k, a) in to.iter().enumerate() {
                    if let Some(a) = a {
                        m2.push((format!("$it{}", k), format!("__vx_it{}", a)));
                        m2.push((format!("$all{}", k), format!("__vx_all{}", a)));
                        m2.push((format!("$pos{}", k), format!("__vx_it{}.pos", a)));
                        m2.push((format!("$out{}", k), format!("__vx_out{}", a)));
                        m2.push((format!("$seen{}", k), format!("__vx_seen{}", a)));
                    }
                }
                m2.extend(sub.clone());
                for (k, v) in &lw.aliases {
                    m2.push((format!("${}", k), v.clone()));
                }
                let lc = fc.loops.get(&n);
                if let Some(t) = lc.and_then(|l| l.out_ty.as_ref()) {
                    s = s.replace(&format!("let mut __vx_out{} = None ;", n), &format!("let mut __vx_out{} : {} = None ;", n, t));
                    s = s.replace(&format!("let mut __vx_out{} : Vec < _ > = vx_collect_new ()", n), &format!("let mut __vx_out{} : {} = vx_collect_new ()", n, t));
                    s = s.replace(&format!("let mut __vx_out{} = vx_collect_new ()", n), &format!("let mut __vx_out{} : {} = vx_collect_new ()", n, t));
                }
                let mut inv = String::new();
                if isl && !lc.map(|l| l.no_default).unwrap_or(false) {
                    let _ = write!(inv, "\n  invariant {it}.all == {all}, 0 <= {it}.pos <= {all}.len(),\n", it = it, all = all);
                    if let Some(l) = lc {
                        // plain clauses first; a `decreases` in the text replaces the default one
                        inv.push_str(&subst(&l.text, &m2));
                    }
                    if !inv.contains("decreases") {
                        let _ = write!(inv, "\n  decreases {all}.len() - {it}.pos,\n", it = it, all = all);
                    }
                } else if let Some(l) = lc {
                    inv.push('\n');
                    inv.push_str(&subst(&l.text, &m2));
                    inv.push('\n');
                }
                if lc.is_none() {
                    cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"unannotated-loop\",\"what\":\"loop {}\"}}", js(&qual), n));
                }
                if let (Some(t), Some(p)) = (lc.and_then(|l| l.out_ty.as_ref()), pos) {
                    // a collection built by an explicit loop: write its type out
                    let d = format!("let mut {} = ", outv);
                    if !outv.starts_with("__vx") {
                        if let Some(i) = s[..p].rfind(&d) {
                            s.replace_range(i..i + d.len(), &format!("let mut {} : {} = ", outv, t));
                        }
                    }
                }
                let pts = |k: &str| fc.points.get(&format!("{} {}", k, n)).map(|t| subst(t, &m2)).unwrap_or_default();
                s = s.replace(&format!("__vx_mark ! (\"G{}\") ;", n), &format!("let ghost {} = {}.all;\n{}", all, it, pts("beforeloop")));
                s = s.replace(&format!("__vx_mark ! (\"B{}\") ;", n), &pts("beforeloop"));
                s = s.replace(&format!("__vx_mark ! (\"B{}\")", n), &pts("beforeloop"));
                let pb = probe();
                s = s.replace(&lm, &format!("{}{{\n{}{}", inv, pb, pts("loopstart")));
                s = s.replace(&wm, &format!("{}{{\n{}{}", inv, pb, pts("loopstart")));
                s = s.replace(&format!("__vx_mark ! (\"E{}\") ;", n), &pts("loopend"));
                s = s.replace(&format!("__vx_mark ! (\"A{}\") ;", n), &pts("afterloop"));
                s = s.replace(&format!("__vx_mark ! (\"A{}\")", n), &pts("afterloop"));
                s = s.replace(&format!("__vx_mark ! (\"E{}\")", n), &pts("loopend"));
            }
            for n in 0..lw.next_closure {
                let c = fc.closures.get(&n).cloned().unwrap_or_default();
                let ps: Vec<(String, String)> = lw.closure_params.get(n).map(|v| v.iter().enumerate().map(|(i, p)| (format!("$c{}", i), p.clone())).collect()).unwrap_or_default();
                let c = subst(&c, &ps);
                s = s.replace(&format!("{{ __vx_mark ! (\"C{}\") ;", n), &format!("\n{} {{", c));
            }
            // ghost points
            let mut st = format!("{{ proof {{ crate::ext::vx_ambient(); }}\n{}", probe());
            let mut m2 = sub.clone();
            for (k, a) in to.iter().enumerate() {
                if let Some(a) = a {
                    m2.push((format!("$all{}", k), format!("__vx_all{}", a)));
                    m2.push((format!("$out{}", k), format!("__vx_out{}", a)));
                }
            }
            for (k, v) in &lw.aliases {
                m2.push((format!("${}", k), v.clone()));
            }
            if let Some(t) = fc.points.get("start") {
                st.push_str(&subst(t, &m2));
            }
            let inner = s.trim().strip_prefix('{').unwrap().to_string();
            s = format!("{}{}", st, inner);
            if let Some(t) = fc.points.get("end") {
                // the value of the tail expression is bound to `r`
                let t = subst(t, &m2);
                s = format!("{{ let r = {};\n{}\nr }}", s, t);
            }
            for (k, t) in &fc.points {
                // `%at before TEXT` / `%at after TEXT`: the first statement whose text starts with TEXT
                if let Some(p) = k.strip_prefix("before ") {
                    match s.find(p) {
                        Some(i) => s.insert_str(i, &format!("\n{}\n", subst(t, &m2))),
                        None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-point\",\"what\":{}}}", js(&qual), js(k))),
                    }
                }
                if let Some(p) = k.strip_prefix("after ") {
                    match s.find(p).and_then(|i| s[i..].find(';').map(|j| i + j + 1)) {
                        Some(i) => s.insert_str(i, &format!("\n{}\n", subst(t, &m2))),
                        None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-point\",\"what\":{}}}", js(&qual), js(k))),
                    }
                }
            }
            o.push(&breaklines(&s));
        }
    }
    let h = {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        f.block.as_ref().map(|b| b.to_token_stream().to_string()).unwrap_or_default().hash(&mut h);
        f.sig.to_token_stream().to_string().hash(&mut h);
        h.finish()
    };
    o.map.push(format!(
        "{{\"kind\":\"fn\",\"fn\":{},\"start\":{},\"end\":{},\"mode\":{},\"loops\":{},\"sigs\":[{}],\"async\":{},\"hash\":\"{:x}\",\"file\":{},\"notes\":{}}}",
        js(&qual), start, o.line, js(if fc.assume { "assumed" } else if assume { "undecided" } else { "verified" }), nloops, lw.loop_sigs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), was_async, h, js(&fc.file), js(&lw.notes.join("; "))
    ));
}

/// which of the loops `now` the loops `base` of the annotated function are: the same header first, then the same kind in order
fn align(base: &[String], now: &[String]) -> Vec<Option<usize>> {
    let mut to: Vec<Option<usize>> = vec![None; base.len()];
    if base == now {
        return (0..base.len()).map(Some).collect();
    }
    let mut used = vec![false; now.len()];
    for i in 0..base.len() {
        let (nb, nn) = (base.iter().filter(|x| **x == base[i]).count(), now.iter().filter(|x| **x == base[i]).count());
        if nb == nn {
            if let Some(j) = (0..now.len()).find(|j| !used[*j] && now[*j] == base[i]) {
                to[i] = Some(j);
                used[j] = true;
            }
        }
    }
    let kind = |s: &str| s.split(' ').next().unwrap_or("").to_string();
    let sink = |s: &str| s.split(' ').nth(1).unwrap_or("").to_string();
    let score = |a: &str, b: &str| -> i32 {
        if a == b {
            12
        } else if kind(a) != kind(b) {
            0
        } else if kind(a) != "it" || sink(a) == sink(b) {
            4
        } else if sink(a) == "for" || sink(b) == "for" || sink(a) == "flat_map" || sink(b) == "flat_map" {
            3
        } else {
            1
        }
    };
    let bi: Vec<usize> = (0..base.len()).filter(|i| to[*i].is_none()).collect();
    let ni: Vec<usize> = (0..now.len()).filter(|j| !used[*j]).collect();
    let mut best = vec![vec![0i32; ni.len() + 1]; bi.len() + 1];
    for a in (0..bi.len()).rev() {
        for b in (0..ni.len()).rev() {
            let s = score(&base[bi[a]], &now[ni[b]]);
            let m = if s > 0 { s + best[a + 1][b + 1] } else { 0 };
            best[a][b] = m.max(best[a + 1][b]).max(best[a][b + 1]);
        }
    }
    let (mut a, mut b) = (0, 0);
    while a < bi.len() && b < ni.len() {
        let s = score(&base[bi[a]], &now[ni[b]]);
        if s > 0 && best[a][b] == s + best[a + 1][b + 1] {
            to[bi[a]] = Some(ni[b]);
            a += 1;
            b += 1;
        } else if best[a][b] == best[a + 1][b] {
            a += 1;
        } else {
            b += 1;
        }
    }
    to
}

fn find<'a>(src: &'a Source, name: &str) -> Option<&'a Found> {
    if let Some((_, f)) = src.fns.iter().find(|(n, _)| n == name) {
        return Some(f);
    }
    // `Type::name` may also live in a trait impl
    let (t, n) = name.split_once("::")?;
    src.fns.iter().find(|(k, _)| k.starts_with('<') && k.ends_with(&format!("for {}>::{}", t, n))).map(|(_, f)| f)
}

fn main() {
    let mut repo = String::from("/repo");
    let mut cdir = String::from("/verif/contracts");
    let mut out = String::from("/tmp/out.rs");
    let mut props: Vec<String> = vec![];
    let mut skip: HashSet<String> = HashSet::new();
    let mut files: Vec<String> = vec![];
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--repo" => repo = v,
            "--contracts" => cdir = v,
            "--out" => out = v,
            "--prop" => props.push(v),
            "--skip" => {
                skip.insert(v);
            }
            "--file" => files.push(v),
            "--probe" => PROBE.store(true, std::sync::atomic::Ordering::Relaxed),
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    let mut modules: Vec<Module> = vec![];
    for f in &files {
        // `~file`: its contracts and lemmas are used here and verified in another set
        let (used, f) = match f.strip_prefix('~') {
            Some(x) => (true, x),
            None => (false, f.as_str()),
        };
        let p = format!("{}/{}", cdir, f);
        let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e));
        let mut lines = preprocess(&text, &props);
        if used {
            lines = contracts::only_statements(lines);
        }
        contracts::parse(f, lines, &mut modules);
    }
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", cdir)).unwrap();
    let prelude = preprocess(&prelude, &props).into_iter().map(|(_, l)| l + "\n").collect::<String>();
    let mut renames = HashMap::new();
    for l in std::fs::read_to_string(format!("{}/renames.txt", cdir)).unwrap_or_default().lines() {
        let mut w = l.split_whitespace();
        if let (Some(a), Some(b)) = (w.next(), w.next()) {
            if !a.starts_with('#') {
                renames.insert(a.to_string(), b.to_string());
            }
        }
    }
    // everything that is emitted, for the imports
    let mut emitted = HashSet::new();
    let mut mods = HashSet::new();
    for m in &modules {
        mods.insert(m.name.clone());
        for it in &m.items {
            match it {
                contracts::Item::Types(v) => {
                    for (n, _) in v {
                        emitted.insert(format!("{}::{}", m.name, n));
                    }
                }
                contracts::Item::Fn(f) => {
                    emitted.insert(format!("{}::{}", m.name, f.as_name.as_ref().unwrap_or(&f.name)));
                }
                contracts::Item::Trait(t) => {
                    emitted.insert(format!("{}::{}", m.name, t));
                }
                contracts::Item::Raw(t) => {
                    for l in t.lines() {
                        let w: Vec<&str> = l.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty()).collect();
                        for k in w.windows(2) {
                            if ["struct", "enum", "fn", "type", "trait", "const", "use"].contains(&k[0]) {
                                emitted.insert(format!("{}::{}", m.name, k[1]));
                            }
                        }
                        if l.trim_start().starts_with("pub use") {
                            if let Some(x) = w.last() {
                                emitted.insert(format!("{}::{}", m.name, x));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let loops = std::fs::read_to_string(format!("{}/loops.txt", cdir))
        .unwrap_or_default()
        .lines()
        .map(|l| {
            let mut w = l.split('\t').map(|x| x.to_string());
            (w.next().unwrap_or_default(), w.collect())
        })
        .collect();
    let mut cx = Ctx { loops, renames, skip, warnings: vec![], emitted: &emitted, emitted_mods: &mods };
    let mut o = Out { text: String::new(), line: 0, map: vec![] };
    o.push(&prelude);
    o.push("// ======== extracted from the repository ========");
    for m in &modules {
        let src = match &m.src {
            Some(s) => match load(&format!("{}/{}", repo, s)) {
                Ok(s) => Some(s),
                Err(e) => {
                    cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"source\",\"what\":{}}}", js(&m.name), js(&e)));
                    None
                }
            },
            None => None,
        };
        emit_module(&mut o, &mut cx, m, src.as_ref());
    }
    o.push("fn main() {}");
    std::fs::write(&out, &o.text).unwrap();
    let j = format!("{{\"map\":[\n{}\n],\"warnings\":[\n{}\n]}}\n", o.map.join(",\n"), cx.warnings.join(",\n"));
    std::fs::write(format!("{}.json", out), j).unwrap();
}

fn emit_module(o: &mut Out, cx: &mut Ctx, m: &Module, src: Option<&Source>) {
    o.push(&format!("verus! {{ pub mod {} {{", m.name));
    o.push("#[allow(unused_imports)] use crate::ext::*;");
    o.push("#[allow(unused_imports)] use vstd::prelude::*;");
    if let Some(s) = src {
        let mut seen = HashSet::new();
        for it in &s.file.items {
            if let syn::Item::Use(u) = it {
                if cfg_test(&u.attrs) {
                    continue;
                }
                let mut v = vec![];
                use_leaves(&u.tree, vec![], &mut v);
                for (p, ren) in v {
                    let mut p = p;
                    if p[0] == "cambrian" {
                        p[0] = "crate".into();
                    }
                    if p[0] == "crate" && p.len() >= 2 && cx.emitted_mods.contains(&p[1]) {
                        let ok = p.len() == 2 || p[2] == "*" || cx.emitted.contains(&format!("{}::{}", p[1], p[2]));
                        if ok {
                            let t = match &ren {
                                Some(r) => format!("{} as {}", p.join("::"), r),
                                None => p.join("::"),
                            };
                            if seen.insert(t.clone()) {
                                o.push(&format!("#[allow(unused_imports)] use {};", t));
                            }
                        }
                    }
                }
            }
        }
    }
    let extra: String = m.items.iter().filter_map(|i| if let contracts::Item::Use(t) = i { t.strip_prefix("broadcast ").map(|b| format!(", {}", b)) } else { None }).collect();
    o.push(&format!("broadcast use {{crate::ext::vx_group, vstd::std_specs::vec::group_vec_axioms{}}};", extra));
    // names under contract in this module
    let mut annotated: HashSet<String> = HashSet::new();
    for it in &m.items {
        match it {
            contracts::Item::Fn(f) => {
                annotated.insert(f.name.clone());
            }
            contracts::Item::TraitImpl { fns, ty, .. } => {
                for f in fns {
                    annotated.insert(f.name.clone());
                    annotated.insert(format!("{}::{}", ty.split('<').next().unwrap(), f.name));
                }
            }
            _ => {}
        }
    }
    let mut inline: HashMap<String, ItemFnLike> = HashMap::new();
    let mut amb: HashSet<String> = HashSet::new();
    if let Some(s) = src {
        for (k, f) in &s.fns {
            if annotated.contains(k) || k.starts_with('<') {
                continue;
            }
            let base = k.rsplit("::").next().unwrap().to_string();
            if annotated.iter().any(|a| a.rsplit("::").next() == Some(&base) && a.contains("::") == k.contains("::")) {
                continue;
            }
            if let Some(b) = &f.block {
                if inline.insert(base.clone(), ItemFnLike { owner: k.rsplit_once("::").map(|x| x.0.to_string()), sig: f.sig.clone(), block: b.clone() }).is_some() {
                    amb.insert(base);
                }
            }
        }
    }
    for a in amb {
        inline.remove(&a);
    }
    let mut traits: HashMap<String, usize> = HashMap::new();
    for it in &m.items {
        match it {
            contracts::Item::Raw(t) => {
                let st = o.line + 1;
                o.push(t);
                o.map.push(format!("{{\"kind\":\"raw\",\"fn\":{},\"start\":{},\"end\":{}}}", js(&m.name), st, o.line));
            }
            contracts::Item::Use(t) if t.starts_with("broadcast ") => {}
            contracts::Item::Use(t) => o.push(&format!("#[allow(unused_imports)] use {};", t)),
            contracts::Item::Static(..) => {}
            contracts::Item::Expect(n, t) => {
                let ok = src.map(|s| {
                    s.file.items.iter().any(|i| {
                        let (name, text) = match i {
                            syn::Item::Type(x) => (x.ident.to_string(), x.ty.to_token_stream().to_string()),
                            syn::Item::Const(x) => (x.ident.to_string(), x.expr.to_token_stream().to_string()),
                            syn::Item::Struct(x) => {
                                // what (de)serialisation depends on
                                let mut x = x.clone();
                                x.vis = Visibility::Inherited;
                                x.attrs.retain(|a| a.path().is_ident("serde"));
                                (x.ident.to_string(), x.to_token_stream().to_string())
                            }
                            _ => return false,
                        };
                        name == *n && text.replace(' ', "") == t.replace(' ', "")
                    })
                });
                if ok != Some(true) {
                    cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"expect\",\"what\":{}}}", js(&format!("{}::{}", m.name, n)), js(t)));
                }
            }
            contracts::Item::Types(v) => {
                for (n, attr) in v {
                    emit_type(o, cx, m, src, n, attr.as_deref());
                }
            }
            contracts::Item::Trait(t) => {
                traits.insert(t.clone(), 1);
                let s = src.expect("%trait needs a source");
                let tr = s.file.items.iter().find_map(|i| if let syn::Item::Trait(x) = i { (x.ident == t.as_str()).then(|| x.clone()) } else { None });
                match tr {
                    None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"trait\"}}", js(&format!("{}::{}", m.name, t)))),
                    Some(tr) => {
                        let (g, sup) = (&tr.generics, &tr.supertraits);
                        let c = &tr.colon_token;
                        let id = &tr.ident;
                        o.push(&quote!(pub trait #id #g #c #sup).to_string());
                        o.push("{");
                        for it2 in &m.items {
                            if let contracts::Item::Fn(fc) = it2 {
                                if let Some(n) = fc.name.strip_prefix(&format!("{}::", t)) {
                                    let _ = n;
                                    match s.fns.iter().find(|(k, f)| *k == fc.name && f.tr.is_some()) {
                                        Some((_, f)) => emit_fn(o, cx, s, &m.name, fc, f, false, &inline),
                                        None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"function\"}}", js(&format!("{}::{}", m.name, fc.name)))),
                                    }
                                }
                            }
                        }
                        o.push("}");
                    }
                }
            }
            contracts::Item::TraitImpl { tr, ty, fns, pre } => {
                let s = src.expect("%traitimpl needs a source");
                let tyb = ty.split('<').next().unwrap().trim().to_string();
                let mut gen = quote!();
                let mut whr = quote!();
                let mut ty_tok = ty.clone();
                for (k, f) in &s.fns {
                    if k.starts_with(&format!("<{} for {}>", tr, tyb)) {
                        let i = f.imp.as_ref().unwrap();
                        let (a, _, c) = i.generics.split_for_impl();
                        gen = a.to_token_stream();
                        whr = c.to_token_stream();
                        ty_tok = i.self_ty.to_token_stream().to_string();
                    }
                }
                o.push(&format!("impl {} {} for {} {} {{", gen, tr, ty_tok, whr));
                o.push(pre);
                for fc in fns {
                    match s.fns.iter().find(|(k, _)| *k == format!("<{} for {}>::{}", tr, tyb, fc.name)) {
                        Some((_, f)) => emit_fn(o, cx, s, &m.name, &FnC { name: format!("{}::{}", tyb, fc.name), ..fc.clone() }, f, false, &inline),
                        None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"function\"}}", js(&format!("{}::{}::{}", m.name, tyb, fc.name)))),
                    }
                }
                o.push("}");
            }
            contracts::Item::Fn(fc) => {
                let s = src.unwrap_or_else(|| panic!("{}: %fn needs a source", m.name));
                if let Some(n) = fc.name.strip_prefix("static:") {
                    match s.statics.get(n) {
                        None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"static\"}}", js(&format!("{}::{}", m.name, n)))),
                        Some((ty, ex)) => {
                            let id = Ident::new(n, proc_macro2::Span::call_site());
                            let it: ItemFn = parse_quote! { fn #id() -> #ty { #ex } };
                            let f = Found { imp: None, tr: None, sig: it.sig, block: Some(*it.block) };
                            emit_fn(o, cx, s, &m.name, fc, &f, true, &inline);
                        }
                    }
                    continue;
                }
                if traits.keys().any(|t| fc.name.starts_with(&format!("{}::", t))) {
                    continue;
                }
                match find(s, &fc.name) {
                    None => cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"function\"}}", js(&format!("{}::{}", m.name, fc.name)))),
                    Some(f) => {
                        if let Some(i) = &f.imp {
                            let (a, _, c) = i.generics.split_for_impl();
                            let t = &i.self_ty;
                            o.push(&format!("impl {} {} {} {{", a.to_token_stream(), t.to_token_stream(), c.to_token_stream()));
                            emit_fn(o, cx, s, &m.name, fc, f, true, &inline);
                            o.push("}");
                        } else {
                            emit_fn(o, cx, s, &m.name, fc, f, true, &inline);
                        }
                    }
                }
            }
        }
    }
    o.push("} }");
}

fn emit_type(o: &mut Out, cx: &mut Ctx, m: &Module, src: Option<&Source>, n: &str, attr: Option<&str>) {
    let s = match src {
        Some(s) => s,
        None => return,
    };
    let st = o.line + 1;
    let mut found = false;
    for it in &s.file.items {
        let (mut toks, name, ds, gen): (TokenStream, String, Vec<String>, Generics) = match it {
            syn::Item::Struct(x) if x.ident == n => {
                let mut x = x.clone();
                let d = derives(&x.attrs);
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                for f in x.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                strip_attrs_fields(&mut x.fields);
                (x.to_token_stream(), x.ident.to_string(), d, x.generics.clone())
            }
            syn::Item::Enum(x) if x.ident == n => {
                let mut x = x.clone();
                let d = derives(&x.attrs);
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                for v in x.variants.iter_mut() {
                    v.attrs.clear();
                    strip_attrs_fields(&mut v.fields);
                }
                (x.to_token_stream(), x.ident.to_string(), d, x.generics.clone())
            }
            syn::Item::Const(x) if x.ident == n => {
                let mut x = x.clone();
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                (x.to_token_stream(), x.ident.to_string(), vec![], Default::default())
            }
            syn::Item::Type(x) if x.ident == n => {
                let mut x = x.clone();
                x.attrs.clear();
                x.vis = parse_quote!(pub);
                (x.to_token_stream(), x.ident.to_string(), vec![], Default::default())
            }
            _ => continue,
        };
        found = true;
        if let Some(a) = attr {
            if let Ok(a) = a.parse::<TokenStream>() {
                toks = quote!(#a #toks);
            }
        }
        o.push(&breaklines(&toks.to_string().replace("std :: io ::", "io ::")));
        let (a, b, c) = gen.split_for_impl();
        let (a, b, c) = (a.to_token_stream(), b.to_token_stream(), c.to_token_stream());
        if ds.iter().any(|d| d == "Clone") {
            o.push(&format!("impl {a} Clone for {name} {b} {c} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}"));
        }
        if ds.iter().any(|d| d == "Ord") {
            // the derived order: lexicographic in declaration order
            if let syn::Item::Struct(x) = it {
                let mut lt = String::from("false");
                let mut eq = String::from("true");
                for (i, f) in x.fields.iter().enumerate().collect::<Vec<_>>().into_iter().rev() {
                    let fname = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                    let ty = f.ty.to_token_stream();
                    lt = format!("<{ty} as VxOrd>::vx_lt(a.{fname}, b.{fname}) || <{ty} as VxOrd>::vx_equ(a.{fname}, b.{fname}) && ({lt})");
                    eq = format!("<{ty} as VxOrd>::vx_equ(a.{fname}, b.{fname}) && {eq}");
                }
                o.push(&format!("impl {a} VxOrd for {name} {b} {c} {{ open spec fn vx_lt(a: Self, b: Self) -> bool {{ {lt} }} open spec fn vx_equ(a: Self, b: Self) -> bool {{ {eq} }} }}"));
            }
        }
        if ds.iter().any(|d| d == "Copy") {
            o.push(&format!("impl {a} Copy for {name} {b} {c} {{}}"));
        }
        if ds.iter().any(|d| d == "Default") {
            if let syn::Item::Struct(x) = it {
                let conj: Vec<String> = x
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        let fname = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        format!("<{} as VxDefault>::vx_is_default(v.{})", f.ty.to_token_stream(), fname)
                    })
                    .collect();
                let conj = if conj.is_empty() { "true".to_string() } else { conj.join(" && ") };
                o.push(&format!(
                    "impl {a} VxDefault for {name} {b} {c} {{ open spec fn vx_is_default(v: Self) -> bool {{ {conj} }} }}\nimpl {a} Default for {name} {b} {c} {{ #[verifier::external_body] fn default() -> (r: Self) ensures <Self as VxDefault>::vx_is_default(r) {{ unimplemented!() }} }}"
                ));
            }
        }
    }
    if !found {
        cx.warnings.push(format!("{{\"fn\":{},\"kind\":\"lost-anchor\",\"what\":\"type\"}}", js(&format!("{}::{}", m.name, n))));
    }
    o.map.push(format!("{{\"kind\":\"type\",\"fn\":{},\"start\":{},\"end\":{}}}", js(&format!("{}::{}", m.name, n)), st, o.line));
    let _: BTreeMap<u8, u8> = BTreeMap::new();
}
