//! Mechanical lowering of function bodies into the subset accepted by the verifier.
//! Every rule is semantics-preserving for the executable part; see DESIGN.md for the list.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Fnish {
    Closure(ExprClosure),
    Path(Expr),
}

#[derive(Clone)]
enum Step {
    Map(Fnish),
    Filter(Fnish),
    FilterMap(Fnish),
    FlatMap(Fnish),
    TakeWhile(Fnish),
    Enumerate,
    Unique,
    Cloned,
}

fn sink_name(s: &Sink) -> &'static str {
    match s {
        Sink::Collect(_) => "collect",
        Sink::Choose(_) => "choose",
        Sink::Next => "next",
        Sink::Find(_) => "find",
        Sink::FindMap(_) => "find_map",
        Sink::Position(_) => "position",
        Sink::Any(_) => "any",
        Sink::All(_) => "all",
        Sink::Count => "count",
        Sink::Sum(_) => "sum",
        Sink::ForEach(_) => "for_each",
        Sink::For(..) => "for",
        Sink::Items => "items",
    }
}
enum Sink {
    Collect(Option<Type>),
    Choose(Expr),
    Next,
    Find(Fnish),
    FindMap(Fnish),
    Position(Fnish),
    Any(Fnish),
    All(Fnish),
    Count,
    Sum(Option<Type>),
    ForEach(Fnish),
    For(Pat, Block),
    Items,
}

pub struct InlineFn {
    pub item: ItemFnLike,
}
#[derive(Clone)]
pub struct ItemFnLike {
    pub owner: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

pub struct Lower<'a> {
    pub next_loop: usize,
    /// kind and header of each loop, to find the loop a contract was written for
    pub loop_sigs: Vec<String>,
    pub next_closure: usize,
    pub closure_params: Vec<Vec<String>>,
    pub next_tmp: usize,
    pub unsupported: Vec<String>,
    pub notes: Vec<String>,
    pub local_closures: Vec<HashMap<String, ExprClosure>>,
    pub inline: &'a HashMap<String, ItemFnLike>,
    pub inline_stack: Vec<String>,
    pub statics: &'a std::collections::HashSet<String>,
    /// constants of the module: replaced by their defining expression
    pub consts: &'a HashMap<String, (Type, Expr)>,
    /// replaced method names (std name -> contract'd name)
    pub renames: &'a HashMap<String, String>,
    pub str_ret: bool,
    /// functions that act on the world (async code, effects): name of the world parameter
    pub world: bool,
    pub effects: Vec<String>,
    pub asyncs: std::collections::HashSet<String>,
    pub in_await: bool,
    /// the future may be dropped at every suspension point
    pub drops: bool,
    /// `format!` is lowered to the text it makes
    pub texts: bool,
    /// names the contracts may use for locals of the source ($name -> local)
    pub aliases: Vec<(String, String)>,
}

/// `continue` ends a round of the loop like its end does
fn cont_marks(body: &mut [Stmt], le: &Stmt) {
    struct Cont<'a>(&'a Stmt);
    impl VisitMut for Cont<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Continue(c) if c.label.is_none() => {
                    let le = self.0;
                    *e = parse_quote! { { #le continue } };
                }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    for s in body {
        Cont(le).visit_stmt_mut(s);
    }
}

fn mark(s: &str) -> Stmt {
    let l = LitStr::new(s, Span::call_site());
    parse_quote! { __vx_mark!(#l); }
}

/// `rt.block_on(async { B })` as the result of a function: B, then
fn block_on_tail(b: &mut Block) {
    let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return };
    if let Expr::MethodCall(m) = e {
        if m.method == "block_on" && m.args.len() == 1 {
            if let Expr::Async(a) = &m.args[0] {
                let (r, mut body) = (&m.receiver, a.block.clone());
                block_on_tail(&mut body);
                *e = parse_quote! { { (#r).vx_block_on(vx_w); #body } };
            }
        }
    }
}

fn has_exit(e: &impl ToTokens) -> (bool, bool) {
    // (contains return, contains ?), ignoring nested closures
    struct V(bool, bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, t: &'a ExprTry) {
            self.1 = true;
            visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false, false);
    if let Ok(b) = syn::parse2::<Expr>({
        let t = e.to_token_stream();
        quote!({ #t })
    }) {
        visit::Visit::visit_expr(&mut v, &b);
    }
    (v.0, v.1)
}

/// the literal pieces (Ok) and arguments (Err) of a format string made of `{}` and `{name}`
fn fmt_pieces(args: &[Expr]) -> Option<Vec<std::result::Result<String, Expr>>> {
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() else { return None };
    let mut named: HashMap<String, Expr> = HashMap::new();
    let mut rest = vec![];
    for a in &args[1..] {
        match a {
            Expr::Assign(x) => {
                named.insert(x.left.to_token_stream().to_string(), (*x.right).clone());
            }
            a => rest.push(a.clone()),
        }
    }
    let (mut out, mut lit, mut next) = (vec![], String::new(), 0);
    let l = l.value();
    let mut cs = l.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                lit.push('{');
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                lit.push('}');
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match cs.next()? {
                        '}' => break,
                        c => n.push(c),
                    }
                }
                if !lit.is_empty() {
                    out.push(Ok(std::mem::take(&mut lit)));
                }
                if n.is_empty() {
                    out.push(Err(rest.get(next)?.clone()));
                    next += 1;
                } else if let Ok(i) = n.parse::<usize>() {
                    out.push(Err(rest.get(i)?.clone()));
                } else {
                    let id = syn::parse_str::<Ident>(&n).ok()?;
                    out.push(Err(named.get(&n).cloned().unwrap_or_else(|| parse_quote! { #id })));
                }
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push(Ok(lit));
    }
    Some(out)
}

pub fn parse_args(ts: TokenStream) -> Option<Vec<Expr>> {
    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
    p.parse2(ts).ok().map(|x| x.into_iter().collect())
}

const ADAPTERS: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "enumerate", "unique", "cloned", "copied", "take", "take_while", "rev", "skip", "by_ref", "into_iter", "iter",
    "peekable", "fuse",
];
const SOURCES: &[&str] = &["iter", "keys", "values", "into_iter", "chars", "bytes", "lines", "split", "into_keys", "into_values", "windows", "chunks"];

impl<'a> Lower<'a> {
    fn tmp(&mut self, p: &str) -> Ident {
        self.next_tmp += 1;
        format_ident!("__vx_{}{}", p, self.next_tmp)
    }

    fn fnish(&self, e: &Expr) -> Option<Fnish> {
        match e {
            Expr::Closure(c) => Some(Fnish::Closure(c.clone())),
            Expr::Path(p) => {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    for m in self.local_closures.iter().rev() {
                        if let Some(c) = m.get(&s) {
                            return Some(Fnish::Closure(c.clone()));
                        }
                    }
                }
                Some(Fnish::Path(e.clone()))
            }
            Expr::Paren(p) => self.fnish(&p.expr),
            Expr::Reference(r) => self.fnish(&r.expr),
            _ => None,
        }
    }

    fn apply(&mut self, f: &Fnish, args: Vec<Expr>) -> Expr {
        match f {
            Fnish::Closure(c) => {
                let (r, q) = has_exit(&c.body);
                if r || q {
                    self.unsupported.push("return or ? inside a closure".into());
                }
                let body = &c.body;
                let lets: Vec<Stmt> = c
                    .inputs
                    .iter()
                    .zip(args)
                    .map(|(p, a)| match p {
                        Pat::Type(pt) => {
                            let (p, t) = (&pt.pat, &pt.ty);
                            parse_quote! { let #p: #t = #a; }
                        }
                        p => parse_quote! { let #p = #a; },
                    })
                    .collect();
                if lets.is_empty() {
                    return (**body).clone();
                }
                parse_quote! { { #(#lets)* #body } }
            }
            Fnish::Path(p) => {
                let s = p.to_token_stream().to_string().replace(' ', "");
                match s.as_str() {
                    "Box::deref" | "Deref::deref" | "Box::as_ref" | "AsRef::as_ref" => {
                        let a = &args[0];
                        parse_quote! { vx_deref(#a) }
                    }
                    "Result::Ok" => {
                        let a = &args[0];
                        parse_quote! { Ok(#a) }
                    }
                    "Clone::clone" => {
                        let a = &args[0];
                        parse_quote! { (#a).clone() }
                    }
                    _ => parse_quote! { #p(#(#args),*) },
                }
            }
        }
    }

    fn peel(&self, e: &Expr) -> Option<(Expr, Vec<Step>)> {
        match e {
            Expr::Paren(p) => self.peel(&p.expr),
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                match r.limits {
                    RangeLimits::HalfOpen(_) => Some((parse_quote! { vx_range(#a, #b) }, vec![])),
                    RangeLimits::Closed(_) => Some((parse_quote! { vx_range_inclusive(#a, #b) }, vec![])),
                }
            }
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                if s.ends_with("iter::repeat_with") || s == "repeat_with" {
                    let f = self.fnish(&c.args[0])?;
                    // only meaningful below .take(n), see there
                    return Some((parse_quote! { vx_repeat() }, vec![Step::Map(match f {
                        Fnish::Closure(mut c) => {
                            c.inputs.push(parse_quote! { _ });
                            Fnish::Closure(c)
                        }
                        f => f,
                    })]));
                }
                if s.ends_with("iter::once") {
                    let a = &c.args[0];
                    return Some((parse_quote! { vx_once(#a) }, vec![]));
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if ADAPTERS.contains(&name.as_str()) {
                    if let Some((src, mut steps)) = self.peel(&m.receiver) {
                        match (name.as_str(), m.args.first()) {
                            ("map", Some(a)) => steps.push(Step::Map(self.fnish(a)?)),
                            ("filter", Some(a)) => steps.push(Step::Filter(self.fnish(a)?)),
                            ("filter_map", Some(a)) => steps.push(Step::FilterMap(self.fnish(a)?)),
                            ("flat_map", Some(a)) => steps.push(Step::FlatMap(self.fnish(a)?)),
                            ("take_while", Some(a)) => steps.push(Step::TakeWhile(self.fnish(a)?)),
                            ("enumerate", None) => steps.push(Step::Enumerate),
                            ("unique", None) => steps.push(Step::Unique),
                            ("cloned", None) | ("copied", None) => steps.push(Step::Cloned),
                            ("into_iter", None) | ("iter", None) | ("by_ref", None) | ("fuse", None) => {}
                            ("take", Some(n)) => {
                                // one-to-one steps commute with take
                                if steps.iter().all(|s| matches!(s, Step::Map(_) | Step::Enumerate | Step::Cloned)) {
                                    let src: Expr = if src.to_token_stream().to_string().starts_with("vx_repeat") {
                                        parse_quote! { vx_range(0, #n) }
                                    } else {
                                        parse_quote! { (#src).vx_take(#n) }
                                    };
                                    return Some((src, steps));
                                }
                                return None;
                            }
                            ("skip", Some(n)) if steps.is_empty() => return Some((parse_quote! { (#src).vx_skip(#n) }, steps)),
                            ("rev", None) if steps.is_empty() => return Some((parse_quote! { (#src).vx_rev() }, steps)),
                            _ => return None,
                        }
                        return Some((src, steps));
                    }
                }
                if SOURCES.contains(&name.as_str()) && m.args.is_empty() {
                    let r = &m.receiver;
                    let n = format_ident!("vx_{}", name);
                    return Some((parse_quote! { #r.#n() }, vec![]));
                }
                None
            }
            _ => None,
        }
    }

    fn sink_of(&self, m: &ExprMethodCall) -> Option<Sink> {
        let a = m.args.first();
        let ty = m.turbofish.as_ref().and_then(|t| {
            t.args.first().and_then(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None })
        });
        Some(match (m.method.to_string().as_str(), a) {
            ("collect", None) => Sink::Collect(ty),
            ("collect_vec", None) => Sink::Collect(Some(parse_quote! { Vec<_> })),
            ("choose", Some(r)) => Sink::Choose(r.clone()),
            ("next", None) => Sink::Next,
            ("find", Some(f)) => Sink::Find(self.fnish(f)?),
            ("find_map", Some(f)) => Sink::FindMap(self.fnish(f)?),
            ("position", Some(f)) => Sink::Position(self.fnish(f)?),
            ("any", Some(f)) => Sink::Any(self.fnish(f)?),
            ("all", Some(f)) => Sink::All(self.fnish(f)?),
            ("count", None) => Sink::Count,
            ("sum", None) => Sink::Sum(ty),
            ("for_each", Some(f)) => Sink::ForEach(self.fnish(f)?),
            _ => return None,
        })
    }

    fn build(&mut self, src: Expr, steps: Vec<Step>, sink: Sink) -> Expr {
        if let (Sink::Next, true) = (&sink, steps.is_empty()) {
            let mut src = src;
            self.visit_expr_mut(&mut src);
            return parse_quote! { (#src).vx_next_opt() };
        }
        if let Sink::Items = sink {
            if steps.is_empty() {
                let mut src = src;
                self.visit_expr_mut(&mut src);
                return src;
            }
            // an adapted iterator used as a value: evaluate it eagerly (stated in DESIGN.md)
            self.notes.push("iterator value evaluated eagerly".into());
            let v = self.build(src, steps, Sink::Collect(Some(parse_quote! { Vec<_> })));
            return parse_quote! { (#v).vx_into_iter() };
        }
        if let (Sink::Choose(rng), true) = (&sink, steps.is_empty()) {
            let (mut src, mut rng) = (src, rng.clone());
            self.visit_expr_mut(&mut src);
            self.visit_expr_mut(&mut rng);
            return parse_quote! { vx_choose_it(#src, #rng) };
        }
        if let Sink::Choose(mut rng) = sink {
            let v = self.build(src, steps, Sink::Collect(Some(parse_quote! { Vec<_> })));
            self.visit_expr_mut(&mut rng);
            return parse_quote! { vx_choose(#v, #rng) };
        }
        if let Sink::Count = sink {
            let v = self.build(src, steps, Sink::Collect(Some(parse_quote! { Vec<_> })));
            return parse_quote! { (#v).len() };
        }
        let id = self.next_loop;
        self.next_loop += 1;
        self.loop_sigs.push(format!("it {} {}", sink_name(&sink), src.to_token_stream()).replace(['\n', '\t'], " "));
        let it = format_ident!("__vx_it{}", id);
        let out = format_ident!("__vx_out{}", id);
        let mut src = src;
        self.visit_expr_mut(&mut src);
        let g = mark(&format!("G{}", id));
        let li = mark(&format!("L{}", id));
        let le = mark(&format!("E{}", id));
        let la = mark(&format!("A{}", id));
        let mut pre: Vec<Stmt> = vec![];
        let x = self.tmp("x");
        // innermost action
        let (init, extra, post): (Option<Stmt>, Option<Expr>, Option<Expr>);
        let mut sink = sink;
        let short = matches!(sink, Sink::Find(_) | Sink::FindMap(_) | Sink::Any(_) | Sink::All(_) | Sink::Next | Sink::Position(_));
        match &sink {
            Sink::Collect(t) => {
                init = Some(match t {
                    Some(t) => parse_quote! { let mut #out: #t = vx_collect_new(); },
                    None => parse_quote! { let mut #out = vx_collect_new(); },
                });
                extra = None;
                post = Some(parse_quote! { #out });
            }
            Sink::Find(_) | Sink::FindMap(_) | Sink::Next | Sink::Position(_) => {
                init = Some(parse_quote! { let mut #out = None; });
                extra = Some(parse_quote! { #out.is_none() });
                post = Some(parse_quote! { #out });
            }
            Sink::Any(_) => {
                init = Some(parse_quote! { let mut #out = false; });
                extra = Some(parse_quote! { !#out });
                post = Some(parse_quote! { #out });
            }
            Sink::All(_) => {
                init = Some(parse_quote! { let mut #out = true; });
                extra = Some(parse_quote! { #out });
                post = Some(parse_quote! { #out });
            }
            Sink::Sum(t) => {
                let t: Type = t.clone().unwrap_or_else(|| parse_quote! { _ });
                init = Some(parse_quote! { let mut #out: #t = vx_sum_zero(); });
                extra = None;
                post = Some(parse_quote! { #out });
            }
            Sink::ForEach(_) | Sink::For(..) => {
                init = None;
                extra = None;
                post = None;
            }
            Sink::Choose(_) | Sink::Count | Sink::Items => unreachable!(),
        }
        let _ = short;
        // build nested statements from the inside out: recursive helper
        let inner = self.nest(&it, &steps, 0, x.clone(), &mut sink, &out, &mut pre, 0);
        let cond: Expr = match extra {
            Some(e) => parse_quote! { #e && #it.vx_has_next() },
            None => parse_quote! { #it.vx_has_next() },
        };
        let tail: Vec<Stmt> = match post {
            Some(e) => {
                let s = Stmt::Expr(e, None);
                vec![s]
            }
            None => vec![],
        };
        let init: Vec<Stmt> = init.into_iter().collect();
        let mut inner = inner;
        cont_marks(&mut inner, &le);
        parse_quote! {
            {
                let mut #it = #src;
                #g
                #(#init)*
                #(#pre)*
                while #cond {
                    #li
                    let #x = #it.vx_next();
                    #(#inner)*
                    #le
                }
                #la
                #(#tail)*
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn nest(&mut self, it: &Ident, steps: &[Step], i: usize, cur: Ident, sink: &mut Sink, out: &Ident, pre: &mut Vec<Stmt>, filtered: usize) -> Vec<Stmt> {
        if i == steps.len() {
            return match sink {
                Sink::Collect(_) => vec![parse_quote! { vx_collect_push(&mut #out, #cur); }],
                Sink::Sum(_) => vec![parse_quote! { #out = #out + #cur; }],
                Sink::Next => vec![parse_quote! { #out = Some(#cur); }],
                Sink::Find(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { &#cur }]);
                    self.visit_expr_mut(&mut c);
                    vec![Stmt::Expr(parse_quote! { if #c { #out = Some(#cur); } }, None)]
                }
                Sink::FindMap(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { #cur }]);
                    self.visit_expr_mut(&mut c);
                    vec![parse_quote! { #out = #c; }]
                }
                Sink::Position(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { #cur }]);
                    self.visit_expr_mut(&mut c);
                    if filtered > 0 {
                        self.unsupported.push("position after a filter".into());
                    }
                    vec![Stmt::Expr(parse_quote! { if #c { #out = Some(#it.vx_index()); } }, None)]
                }
                Sink::Any(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { #cur }]);
                    self.visit_expr_mut(&mut c);
                    vec![Stmt::Expr(parse_quote! { if #c { #out = true; } }, None)]
                }
                Sink::All(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { #cur }]);
                    self.visit_expr_mut(&mut c);
                    vec![Stmt::Expr(parse_quote! { if !(#c) { #out = false; } }, None)]
                }
                Sink::ForEach(f) => {
                    let f = f.clone();
                    let mut c = self.apply(&f, vec![parse_quote! { #cur }]);
                    self.visit_expr_mut(&mut c);
                    vec![Stmt::Expr(c, Some(Default::default()))]
                }
                Sink::For(p, b) => {
                    let mut v: Vec<Stmt> = vec![parse_quote! { let #p = #cur; }];
                    let mut b = b.clone();
                    self.visit_block_mut(&mut b);
                    v.extend(b.stmts);
                    // a trailing expression statement of unit type needs no semicolon
                    v
                }
                Sink::Choose(_) | Sink::Count | Sink::Items => unreachable!(),
            };
        }
        let nx = self.tmp("x");
        match &steps[i] {
            Step::Map(f) => {
                let mut e = self.apply(f, vec![parse_quote! { #cur }]);
                self.visit_expr_mut(&mut e);
                let mut v: Vec<Stmt> = vec![parse_quote! { let #nx = #e; }];
                v.extend(self.nest(it, steps, i + 1, nx, sink, out, pre, filtered));
                v
            }
            Step::Cloned => {
                let mut v: Vec<Stmt> = vec![parse_quote! { let #nx = (*#cur).clone(); }];
                v.extend(self.nest(it, steps, i + 1, nx, sink, out, pre, filtered));
                v
            }
            Step::Enumerate => {
                if filtered > 0 {
                    self.unsupported.push("enumerate after a filter".into());
                }
                let mut v: Vec<Stmt> = vec![parse_quote! { let #nx = (#it.vx_index(), #cur); }];
                v.extend(self.nest(it, steps, i + 1, nx, sink, out, pre, filtered));
                v
            }
            Step::Filter(f) => {
                let mut c = self.apply(f, vec![parse_quote! { &#cur }]);
                self.visit_expr_mut(&mut c);
                let inner = self.nest(it, steps, i + 1, cur, sink, out, pre, filtered + 1);
                vec![Stmt::Expr(parse_quote! { if #c { #(#inner)* } }, None)]
            }
            Step::TakeWhile(_) => {
                self.unsupported.push("take_while".into());
                vec![]
            }
            Step::FilterMap(f) => {
                let mut c = self.apply(f, vec![parse_quote! { #cur }]);
                self.visit_expr_mut(&mut c);
                let inner = self.nest(it, steps, i + 1, nx.clone(), sink, out, pre, filtered + 1);
                vec![Stmt::Expr(parse_quote! { if let Some(#nx) = #c { #(#inner)* } }, None)]
            }
            Step::Unique => {
                let seen = format_ident!("{}", out.to_string().replace("out", "seen"));
                pre.push(parse_quote! { let mut #seen = vx_unique_new(); });
                let inner = self.nest(it, steps, i + 1, cur.clone(), sink, out, pre, filtered + 1);
                vec![Stmt::Expr(parse_quote! { if vx_unique_first(&mut #seen, &#cur) { #(#inner)* } }, None)]
            }
            Step::FlatMap(f) => {
                let f = f.clone();
                let mut e = self.apply(&f, vec![parse_quote! { #cur }]);
                self.visit_expr_mut(&mut e);
                let id = self.next_loop;
                self.next_loop += 1;
                self.loop_sigs.push("it flat_map".into());
                let it2 = format_ident!("__vx_it{}", id);
                let g = mark(&format!("G{}", id));
                let li = mark(&format!("L{}", id));
                let le = mark(&format!("E{}", id));
                let la = mark(&format!("A{}", id));
                let inner = self.nest(&it2, steps, i + 1, nx.clone(), sink, out, pre, filtered + 1);
                vec![Stmt::Expr(
                    parse_quote! { {
                        let mut #it2 = (#e).vx_into_iter();
                        #g
                        while #it2.vx_has_next() {
                            #li
                            let #nx = #it2.vx_next();
                            #(#inner)*
                            #le
                        }
                        #la
                    } },
                    None,
                )]
            }
        }
    }

    fn option_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        // a place expression may be a reference to a `Copy` option: take it by value
        let owned: Expr = match &*m.receiver {
            r @ (Expr::Path(_) | Expr::Field(_)) => parse_quote! { #r.vx_own() },
            r => r.clone(),
        };
        let r = &owned;
        let x = self.tmp("o");
        let arg = m.args.first();
        let nargs = |f: &Fnish| match f {
            Fnish::Closure(c) => Some(c.inputs.len()),
            Fnish::Path(_) => None,
        };
        match (name.as_str(), arg, m.args.len()) {
            ("map", Some(a), 1) => {
                let f = self.fnish(a)?;
                let b = self.apply(&f, vec![parse_quote! { #x }]);
                Some(parse_quote! { match #r { Some(#x) => Some(#b), None => None } })
            }
            ("and_then", Some(a), 1) => {
                let f = self.fnish(a)?;
                let b = self.apply(&f, vec![parse_quote! { #x }]);
                Some(parse_quote! { match #r { Some(#x) => #b, None => None } })
            }
            ("filter", Some(a), 1) => {
                let f = self.fnish(a)?;
                let b = self.apply(&f, vec![parse_quote! { &#x }]);
                Some(parse_quote! { match #r { Some(#x) => if #b { Some(#x) } else { None }, None => None } })
            }
            ("map_or", Some(d), 2) => {
                let f = self.fnish(&m.args[1])?;
                let b = self.apply(&f, vec![parse_quote! { #x }]);
                let d0 = self.tmp("d");
                Some(parse_quote! { { let #d0 = #d; match #r { Some(#x) => #b, None => #d0 } } })
            }
            ("is_some_and", Some(a), 1) => {
                let f = self.fnish(a)?;
                let b = self.apply(&f, vec![parse_quote! { #x }]);
                Some(parse_quote! { match #r { Some(#x) => #b, None => false } })
            }
            ("unwrap_or_else", Some(a), 1) => {
                let f = self.fnish(a)?;
                if nargs(&f) == Some(0) {
                    let b = self.apply(&f, vec![]);
                    Some(parse_quote! { match #r { Some(#x) => #x, None => #b } })
                } else if nargs(&f) == Some(1) {
                    let b = self.apply(&f, vec![parse_quote! { #x }]);
                    let y = self.tmp("o");
                    Some(parse_quote! { match #r { Ok(#y) => #y, Err(#x) => #b } })
                } else {
                    None
                }
            }
            ("ok_or_else", Some(a), 1) => {
                let f = self.fnish(a)?;
                let b = self.apply(&f, vec![]);
                Some(parse_quote! { match #r { Some(#x) => Ok(#x), None => Err(#b) } })
            }
            ("ok_or", Some(a), 1) => Some(parse_quote! { match #r { Some(#x) => Ok(#x), None => Err(#a) } }),
            ("or_else", Some(a), 1) => {
                let f = self.fnish(a)?;
                if nargs(&f) == Some(0) {
                    let b = self.apply(&f, vec![]);
                    Some(parse_quote! { match #r { Some(#x) => Some(#x), None => #b } })
                } else {
                    None
                }
            }
            ("map_err", Some(a), 1) => {
                let f = self.fnish(a)?;
                let y = self.tmp("o");
                let b = self.apply(&f, vec![parse_quote! { #x }]);
                Some(parse_quote! { match #r { Ok(#y) => Ok(#y), Err(#x) => Err(#b) } })
            }
            ("with_context", Some(a), 1) => {
                let f = self.fnish(a)?;
                let y = self.tmp("o");
                let b = self.apply(&f, vec![]);
                Some(parse_quote! { match #r { Ok(#y) => Ok(#y), Err(#x) => Err(vx_anyhow_context(#x, #b)) } })
            }
            ("context", Some(a), 1) => {
                let y = self.tmp("o");
                Some(parse_quote! { match #r { Ok(#y) => Ok(#y), Err(#x) => Err(vx_anyhow_context(#x, #a)) } })
            }
            _ => None,
        }
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "__vx_mark" => None,
            "info" | "trace" | "debug" | "warn" | "error" | "println" | "eprintln" | "print" | "write" | "writeln" | "format" => {
                let args = parse_args(mac.tokens.clone()).unwrap_or_default();
                if (name == "print" || name == "println") && self.world && self.effects.iter().any(|x| x == "println") {
                    let lit = match args.first() {
                        Some(Expr::Lit(l)) => match &l.lit {
                            Lit::Str(s) => s.value(),
                            _ => String::new(),
                        },
                        _ => String::new(),
                    };
                    let lit = if name == "print" { lit.strip_suffix('\n').map(|x| x.to_string()).unwrap_or_default() } else { lit };
                    let shown: Option<Expr> = if lit == "{}" && args.len() == 2 {
                        Some(match &args[1] {
                            Expr::Assign(x) => (*x.right).clone(),
                            a => a.clone(),
                        })
                    } else if lit.starts_with('{') && lit.ends_with('}') && args.len() == 1 {
                        syn::parse_str::<Ident>(&lit[1..lit.len() - 1]).ok().map(|i| parse_quote! { #i })
                    } else {
                        None
                    };
                    return Some(match shown {
                        Some(x) => parse_quote! { vx_println(&#x, vx_w) },
                        None => parse_quote! { vx_print_other(vx_w) },
                    });
                }
                if name == "format" && self.texts {
                    match fmt_pieces(&args) {
                        Some(ps) => {
                            let mut e: Expr = parse_quote! { vx_fmt_new() };
                            for p in ps {
                                e = match p {
                                    Ok(l) => parse_quote! { vx_fmt_lit(#e, #l) },
                                    Err(x) => parse_quote! { vx_fmt_arg(#e, &(#x)) },
                                };
                            }
                            return Some(e);
                        }
                        None => self.unsupported.push("format! string".into()),
                    }
                }
                let skip = if name == "write" || name == "writeln" { 0 } else { 0 };
                let evals: Vec<Stmt> = args
                    .into_iter()
                    .skip(skip)
                    .filter(|a| !matches!(a, Expr::Lit(_)))
                    .filter(|a| !matches!(a, Expr::Path(_)) || name == "println")
                    .map(|a| {
                        let a = match a {
                            Expr::Assign(x) => *x.right,
                            a => a,
                        };
                        let t = self.tmp("arg");
                        if let Expr::Field(_) = a {
                            parse_quote! { let #t = &#a; }
                        } else if let Expr::Reference(_) = a {
                            parse_quote! { let #t = #a; }
                        } else {
                            parse_quote! { let #t = &#a; }
                        }
                    })
                    .collect();
                Some(match name.as_str() {
                    "format" => parse_quote! { { #(#evals)* vx_format() } },
                    "write" | "writeln" => parse_quote! { { #(#evals)* vx_write_ok() } },
                    "println" => parse_quote! { { #(#evals)* vx_println(); } },
                    _ => parse_quote! { { #(#evals)* } },
                })
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote! { vx_unreachable() }),
            "matches" => {
                let parser = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = parser.parse2(mac.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote! { match #e { #p if #g => true, _ => false } },
                    None => parse_quote! { match #e { #p => true, _ => false } },
                })
            }
            "assert" => {
                let args = parse_args(mac.tokens.clone())?;
                let c = args.first()?;
                Some(parse_quote! { if !(#c) { vx_unreachable() } })
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "assert_eq" | "assert_ne" => {
                let args = parse_args(mac.tokens.clone())?;
                if name.ends_with("_eq") {
                    let (a, b) = (args.first()?, args.get(1)?);
                    Some(parse_quote! { if !(#a == #b) { vx_unreachable() } })
                } else if name.ends_with("_ne") {
                    let (a, b) = (args.first()?, args.get(1)?);
                    Some(parse_quote! { if #a == #b { vx_unreachable() } })
                } else {
                    let c = args.first()?;
                    Some(parse_quote! { if !(#c) { vx_unreachable() } })
                }
            }
            "pin" | "pin_mut" => Some(parse_quote! { {} }),
            "vec" => {
                let args = parse_args(mac.tokens.clone())?;
                let v = self.tmp("v");
                Some(parse_quote! { { let mut #v = Vec::new(); #(#v.push(#args);)* #v } })
            }
            _ => None,
        }
    }

    fn try_inline(&mut self, name: &str, args: Vec<Expr>, recv: Option<Expr>, tail: bool, try_: bool) -> Option<Expr> {
        let f = self.inline.get(name)?.clone();
        if self.inline_stack.iter().any(|n| n == name) || self.inline_stack.len() > 6 {
            return None;
        }
        let (r, q) = has_exit(&f.block);
        if (r && !tail) || (q && !(tail || try_)) {
            return None;
        }
        if f.sig.asyncness.is_some() && !(self.in_await && self.world) {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut closures = HashMap::new();
        let mut args = args.into_iter();
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(_) => {
                    // methods are inlined only on `self`
                    let rc = recv.as_ref()?;
                    if rc.to_token_stream().to_string() != "self" {
                        return None;
                    }
                }
                FnArg::Typed(t) => {
                    let a = args.next()?;
                    if let (Expr::Closure(c), Pat::Ident(id)) = (&a, &*t.pat) {
                        closures.insert(id.ident.to_string(), c.clone());
                        continue;
                    }
                    let p = &t.pat;
                    let ty = &t.ty;
                    let generic = ty.to_token_stream().to_string();
                    let known: Vec<String> = f.sig.generics.params.iter().filter_map(|g| if let GenericParam::Type(t) = g { Some(t.ident.to_string()) } else { None }).collect();
                    let plain = generic.contains("impl ") || generic.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| known.iter().any(|k| k == w)) || generic.contains('\'');
                    // evaluate the arguments under fresh names first, so that they cannot capture
                    if plain {
                        lets.push(parse_quote! { let #p = #a; });
                    } else {
                        lets.push(parse_quote! { let #p: #ty = #a; });
                    }
                }
            }
        }
        // simultaneous binding: arguments may mention names bound by earlier parameters
        if lets.len() > 1 {
            let mut pats: Vec<Pat> = vec![];
            let mut exprs: Vec<Expr> = vec![];
            let mut simple = true;
            let mut names: Vec<String> = vec![];
            for l in &lets {
                if let Stmt::Local(l) = l {
                    let p = match &l.pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let Pat::Ident(i) = &p {
                        names.push(i.ident.to_string());
                    }
                    pats.push(p);
                    let e = (*l.init.as_ref().unwrap().expr).clone();
                    let s = e.to_token_stream().to_string();
                    if names[..names.len().saturating_sub(1)].iter().any(|n| {
                        s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n) && s != *n
                    }) {
                        simple = false;
                    }
                    exprs.push(e);
                }
            }
            if !simple {
                lets = vec![parse_quote! { let (#(#pats),*) = (#(#exprs),*); }];
            }
        }
        self.notes.push(format!("inlined {}", name));
        self.inline_stack.push(name.to_string());
        self.local_closures.push(closures);
        let mut b = f.block.clone();
        let mut out: Expr = {
            let stmts = std::mem::take(&mut b.stmts);
            parse_quote! { { #(#lets)* #(#stmts)* } }
        };
        // arguments are lowered together with the body; closures were taken out before
        if tail {
            if let Expr::Block(b) = &mut out {
                self.tail_block(&mut b.block);
            }
        }
        self.visit_expr_mut(&mut out);
        self.local_closures.pop();
        self.inline_stack.pop();
        // already lowered: later passes must not touch it again
        Some(Expr::Verbatim(out.to_token_stream()))
    }

    fn call_inline(&mut self, e: &Expr, tail: bool, try_: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last()?.clone();
                    let owner = self.inline.get(&name)?.owner.clone();
                    let q = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
                    let fits = match &owner {
                        Some(o) => q == "Self" || q == *o,
                        None => !q.chars().next().map(|c| c.is_uppercase()).unwrap_or(false),
                    };
                    if fits {
                        return self.try_inline(&name, c.args.iter().cloned().collect(), None, tail, try_);
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let recv = (*m.receiver).clone();
                if recv.to_token_stream().to_string() != "self" {
                    return None;
                }
                self.inline.get(&m.method.to_string())?.owner.as_ref()?;
                self.try_inline(&m.method.to_string(), m.args.iter().cloned().collect(), Some(recv), tail, try_)
            }
            Expr::Paren(p) => self.call_inline(&p.expr, tail, try_),
            _ => None,
        }
    }

    pub fn run(&mut self, b: &mut Block) {
        if self.world {
            block_on_tail(b);
        }
        // tail position calls may contain returns
        self.tail_block(b);
        self.visit_block_mut(b);
    }

    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_expr(e);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        if let Some(n) = self.call_inline(e, true, true) {
            *e = n;
            return;
        }
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_expr(x);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail_expr(&mut a.body);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            _ => {}
        }
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        // the model of std::io lives in the prelude
        if p.segments.len() >= 3
            && p.segments[0].ident == "std"
            && p.segments[1].ident == "io"
            && ["Error", "ErrorKind", "Result"].iter().any(|x| p.segments[2].ident == x)
        {
            let tail: Vec<_> = p.segments.iter().skip(1).cloned().collect();
            *p = parse_quote!(crate::ext);
            p.segments.extend(tail);
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        self.local_closures.push(HashMap::new());
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            // local closures are inlined where they are called
            if let Stmt::Local(l) = &s {
                let id = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                };
                if let (Some(id), Some(init)) = (id, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        self.local_closures.last_mut().unwrap().insert(id, c.clone());
                        continue;
                    }
                }
            }
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "pin" || name == "pin_mut" {
                    // `pin!(x)` rebinds x; polling needs it mutable
                    let p = Punctuated::<Ident, Token![,]>::parse_terminated;
                    if let Ok(xs) = p.parse2(m.mac.tokens.clone()) {
                        for x in xs {
                            out.push(parse_quote! { let mut #x = #x; });
                        }
                        continue;
                    }
                }
                if let Some(e) = self.macro_expr(&m.mac) {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    let diverges = matches!(name.as_str(), "unreachable" | "panic" | "unimplemented" | "todo");
                    s = if diverges || m.semi_token.is_none() { Stmt::Expr(e, None) } else { Stmt::Expr(e, m.semi_token) };
                } else if m.mac.path.segments.last().unwrap().ident == "select" {
                    let mut e: Expr = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    self.visit_expr_mut(&mut e);
                    s = Stmt::Expr(e, m.semi_token);
                    out.push(s);
                    continue;
                } else if m.mac.path.segments.last().unwrap().ident != "__vx_mark" && m.mac.path.segments.last().unwrap().ident != "__vx_cancel" {
                    self.unsupported.push(format!("macro {}", m.mac.path.segments.last().unwrap().ident));
                }
            }
            if let Stmt::Expr(Expr::Return(r), semi) = &mut s {
                let _ = semi;
                if let Some(e) = &mut r.expr {
                    if let Some(n) = self.call_inline(e, true, true) {
                        **e = n;
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.local_closures.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().unwrap().ident == "select" {
                let n = &mut self.next_tmp;
                match if self.world { crate::select::lower(&m.mac, &format_ident!("vx_w"), n, self.drops) } else { Err("select! outside async code".into()) } {
                    Ok(x) => {
                        *e = x;
                        visit_mut::visit_expr_mut(self, e);
                    }
                    Err(s) => self.unsupported.push(s),
                }
                return;
            }
            if let Some(n) = self.macro_expr(&m.mac) {
                *e = n;
                self.visit_expr_mut(e);
            } else if m.mac.path.segments.last().unwrap().ident != "__vx_mark" && m.mac.path.segments.last().unwrap().ident != "__vx_cancel" {
                self.unsupported.push(format!("macro {}", m.mac.path.segments.last().unwrap().ident));
            }
            return;
        }
        // `match` on string literals: comparisons in order
        if let Expr::Match(m) = e {
            fn lits(p: &Pat) -> Option<Vec<Expr>> {
                match p {
                    Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
                    Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                    Pat::Paren(p) => lits(&p.pat),
                    _ => None,
                }
            }
            if m.arms.iter().any(|a| lits(&a.pat).is_some()) {
                let s = self.tmp("s");
                let mut out: Option<Expr> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let b: Expr = match &**b { Expr::Verbatim(_) => parse_quote! { { #b } }, b => b.clone() };
                    if let Some(ls) = lits(&a.pat) {
                        let mut c: Expr = parse_quote! { false };
                        for (i, l) in ls.iter().enumerate() {
                            c = if i == 0 { parse_quote! { vx_str_eq(#s, #l) } } else { parse_quote! { #c || vx_str_eq(#s, #l) } };
                        }
                        if let Some((_, g)) = &a.guard {
                            c = parse_quote! { (#c) && (#g) };
                        }
                        match out {
                            Some(o) => out = Some(parse_quote! { if #c { #b } else { #o } }),
                            None => ok = false,
                        }
                    } else if let Pat::Wild(_) = &a.pat {
                        match (&a.guard, out.take()) {
                            (None, None) => out = Some(b),
                            (Some((_, g)), Some(o)) => out = Some(parse_quote! { if #g { #b } else { #o } }),
                            _ => ok = false,
                        }
                    } else if let (Pat::Ident(_), None, None) = (&a.pat, &a.guard, &out) {
                        let p = &a.pat;
                        out = Some(parse_quote! { { let #p = #s; #b } });
                    } else {
                        ok = false;
                    }
                }
                match (ok, out) {
                    (true, Some(o)) => {
                        let x = &m.expr;
                        *e = parse_quote! { { let #s = #x; #o } };
                        self.visit_expr_mut(e);
                        return;
                    }
                    _ => self.unsupported.push("match on string literals with such patterns".into()),
                }
            }
        }
        // already lowered calls are left alone
        if let Expr::ForLoop(f) = e {
            let (src, steps) = match self.peel(&f.expr) {
                Some(x) => x,
                None => {
                    let x = &f.expr;
                    (parse_quote! { (#x).vx_into_iter() }, vec![])
                }
            };
            if f.label.is_some() {
                self.unsupported.push("labelled loop".into());
            }
            *e = self.build(src, steps, Sink::For((*f.pat).clone(), f.body.clone()));
            return;
        }
        if let Expr::While(w) = e {
            let id = self.next_loop;
            self.next_loop += 1;
            self.loop_sigs.push(format!("while {}", w.cond.to_token_stream()).replace(['\n', '\t'], " "));
            self.visit_expr_mut(&mut w.cond);
            self.visit_block_mut(&mut w.body);
            cont_marks(&mut w.body.stmts, &mark(&format!("E{}", id)));
            w.body.stmts.insert(0, mark(&format!("W{}", id)));
            w.body.stmts.push(mark(&format!("E{}", id)));
            let (w, lb, la) = (w.clone(), mark(&format!("B{}", id)), mark(&format!("A{}", id)));
            *e = parse_quote! { { #lb #w #la } };
            return;
        }
        if let Expr::Loop(w) = e {
            let id = self.next_loop;
            self.next_loop += 1;
            self.loop_sigs.push("loop".into());
            self.visit_block_mut(&mut w.body);
            // `break value`: the value is kept in a local
            struct Brk(Ident, bool, Option<Lifetime>);
            impl VisitMut for Brk {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Break(b) = e {
                        if let (Some(x), true) = (&b.expr, b.label.is_none() || b.label == self.2) {
                            let (v, l) = (&self.0, &b.label);
                            self.1 = true;
                            *e = parse_quote! { { #v = Some(#x); break #l } };
                            return;
                        }
                    }
                    match e {
                        Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                        _ => visit_mut::visit_expr_mut(self, e),
                    }
                }
            }
            let mut k = Brk(format_ident!("__vx_brk{}", id), false, w.label.as_ref().map(|l| l.name.clone()));
            for s in &mut w.body.stmts {
                k.visit_stmt_mut(s);
            }
            cont_marks(&mut w.body.stmts, &mark(&format!("E{}", id)));
            w.body.stmts.insert(0, mark(&format!("W{}", id)));
            if !matches!(w.body.stmts.last(), Some(Stmt::Expr(_, None))) {
                w.body.stmts.push(mark(&format!("E{}", id)));
            }
            if k.1 {
                let (w, v, lb, la) = (w.clone(), k.0, mark(&format!("B{}", id)), mark(&format!("A{}", id)));
                *e = parse_quote! { { let mut #v = None; #lb #w #la #v.unwrap() } };
            }
            return;
        }
        // async code: one caller at a time, the environment acts at every suspension point
        if let Expr::Await(a) = e {
            if !self.world {
                self.unsupported.push("await".into());
                return;
            }
            let mut base = (*a.base).clone();
            while let Expr::Paren(p) = base {
                base = *p.expr;
            }
            if let Expr::Call(_) = &base {
                let was = std::mem::replace(&mut self.in_await, true);
                let n = self.call_inline(&base, false, false);
                self.in_await = was;
                if let Some(n) = n {
                    *e = n;
                    return;
                }
            }
            // a channel read to its end
            if let Expr::MethodCall(m) = &mut base {
                if m.method == "forward" {
                    if let Expr::MethodCall(r) = &mut *m.receiver {
                        if r.method == "map" && r.args.len() == 1 && r.args[0].to_token_stream().to_string() == "Ok" {
                            *m.receiver = (*r.receiver).clone();
                        }
                    }
                }
            }
            match base {
                Expr::MethodCall(mut m) => {
                    visit_mut::visit_expr_method_call_mut(self, &mut m);
                    m.args.push(parse_quote! { vx_w });
                    *e = Expr::Verbatim(m.to_token_stream());
                    if self.drops {
                        *e = Expr::Verbatim(quote! { { __vx_cancel!(); #e } });
                    }
                }
                Expr::Call(mut c) => {
                    for x in c.args.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    if let Expr::Path(p) = &*c.func {
                        let first = p.path.segments.first().unwrap().ident.to_string();
                        if p.path.segments.len() > 1 && (first == "tokio" || first == "futures") {
                            let l = format_ident!("vx_aw_{}", p.path.segments.last().unwrap().ident);
                            c.func = parse_quote! { #l };
                        }
                    }
                    c.args.push(parse_quote! { vx_w });
                    *e = Expr::Verbatim(c.to_token_stream());
                    if self.drops {
                        *e = Expr::Verbatim(quote! { { __vx_cancel!(); #e } });
                    }
                }
                mut x => {
                    self.visit_expr_mut(&mut x);
                    *e = if self.drops { parse_quote! { { __vx_cancel!(); (#x).vx_await(vx_w) } } } else { parse_quote! { (#x).vx_await(vx_w) } };
                }
            }
            return;
        }
        if self.world {
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &mut *c.func {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    let eff = |x: &str| self.effects.iter().any(|e| e == x);
                    match c.args.first() {
                        // a task of its own: what it computes is available once it has run
                        Some(Expr::Async(a)) if c.args.len() == 1 && l == "spawn" && eff("spawn") && has_exit(&a.block) == (false, false) => {
                            let b = a.block.clone();
                            *e = parse_quote! { vx_spawn(#b) };
                            self.visit_expr_mut(e);
                            return;
                        }
                        Some(a) if c.args.len() == 1 && l == "block_on" && eff("block_on") && !matches!(a, Expr::Async(_)) => {
                            *e = parse_quote! { (#a).await };
                            self.visit_expr_mut(e);
                            return;
                        }
                        // what the handler does, some time later, on its own
                        Some(Expr::Closure(h)) if c.args.len() == 1 && l == "set_handler" && eff("set_handler") && h.inputs.is_empty() && has_exit(&*h.body) == (false, false) => {
                            let (f, b) = (&c.func, &h.body);
                            *e = parse_quote! { { if vx_any_bool() { vx_handler_starts(vx_w); { #b; } vx_handler_done(vx_w); } #f() } };
                            if let Expr::Block(x) = e {
                                if let Some(Stmt::Expr(Expr::Call(k), None)) = x.block.stmts.last_mut() {
                                    k.args.push(parse_quote! { vx_w });
                                    let k2 = k.to_token_stream();
                                    *x.block.stmts.last_mut().unwrap() = Stmt::Expr(Expr::Verbatim(k2), None);
                                }
                            }
                            self.visit_expr_mut(e);
                            return;
                        }
                        _ => {}
                    }
                    if self.asyncs.contains(&l) {
                        // a future: nothing runs before it is polled
                        p.path.segments.last_mut().unwrap().ident = format_ident!("{}_fut", l);
                        for x in c.args.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        c.args.push(parse_quote! { vx_w });
                        *e = Expr::Verbatim(c.to_token_stream());
                        return;
                    }
                    let n = p.path.segments.len();
                    let l2 = if n >= 2 { format!("{}::{}", p.path.segments[n - 2].ident, l) } else { String::new() };
                    if self.effects.iter().any(|x| *x == l || *x == l2) {
                        for x in c.args.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        c.args.push(parse_quote! { vx_w });
                        *e = Expr::Verbatim(c.to_token_stream());
                        return;
                    }
                }
            }
            if let Expr::MethodCall(m) = e {
                if self.effects.iter().any(|x| m.method == x) {
                    let mut m = m.clone();
                    visit_mut::visit_expr_method_call_mut(self, &mut m);
                    m.args.push(parse_quote! { vx_w });
                    *e = Expr::Verbatim(m.to_token_stream());
                    return;
                }
            }
        }
        // a pinned future is the future
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if self.world && p.path.segments.len() == 2 && p.path.segments[0].ident == "Box" && p.path.segments[1].ident == "pin" && c.args.len() == 1 {
                    *e = c.args[0].clone();
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // inlining
        if let Expr::Try(t) = e {
            if let Some(n) = self.call_inline(&t.expr, false, true) {
                *t.expr = n;
                return;
            }
        }
        if let Some(n) = self.call_inline(e, false, false) {
            *e = n;
            return;
        }
        // calls of local closures
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    let s = id.to_string();
                    let cl = self.local_closures.iter().rev().find_map(|m| m.get(&s).cloned());
                    if let Some(cl) = cl {
                        let mut n = self.apply(&Fnish::Closure(cl), c.args.iter().cloned().collect());
                        self.visit_expr_mut(&mut n);
                        *e = parse_quote! { (#n) };
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if !name.starts_with("vx_") {
                if let Some(sink) = self.sink_of(m) {
                    if let Some((src, steps)) = self.peel(&m.receiver) {
                        *e = self.build(src, steps, sink);
                        return;
                    }
                }
                if name == "next_back" || name == "last" {
                    if let Some((src, steps)) = self.peel(&m.receiver) {
                        if steps.is_empty() {
                            let mut src = src;
                            self.visit_expr_mut(&mut src);
                            *e = parse_quote! { (#src).vx_next_back() };
                            return;
                        }
                    }
                }
                if name == "unique" || name == "contains" || name == "all_equal" {
                    // itertools: contains / all_equal on an iterator
                    if let Some((src, steps)) = self.peel(&m.receiver) {
                        if steps.is_empty() && name == "contains" {
                            let mut src = src;
                            self.visit_expr_mut(&mut src);
                            let mut a = m.args[0].clone();
                            self.visit_expr_mut(&mut a);
                            *e = parse_quote! { (#src).vx_contains(#a) };
                            return;
                        }
                        if name == "all_equal" && steps.is_empty() {
                            let mut src = src;
                            self.visit_expr_mut(&mut src);
                            *e = parse_quote! { (#src).vx_all_equal() };
                            return;
                        }
                        if name == "all_equal" {
                            let v = self.build(src, steps, Sink::Collect(Some(parse_quote! { Vec<_> })));
                            *e = parse_quote! { vx_all_equal(#v) };
                            return;
                        }
                    }
                }
                if let Some((src, steps)) = self.peel(e) {
                    *e = self.build(src, steps, Sink::Items);
                    return;
                }
                let m = match e {
                    Expr::MethodCall(m) => m,
                    _ => unreachable!(),
                };
                if let Some(mut n) = self.option_method(&m.clone()) {
                    self.visit_expr_mut(&mut n);
                    *e = parse_quote! { (#n) };
                    return;
                }
                if name == "concat" {
                    if let Expr::Array(a) = &*m.receiver {
                        let mut els: Vec<Expr> = a.elems.iter().cloned().collect();
                        for x in &mut els {
                            self.visit_expr_mut(x);
                        }
                        if els.len() == 2 {
                            let (x, y) = (&els[0], &els[1]);
                            *e = parse_quote! { vx_concat(#x, #y) };
                            return;
                        }
                    }
                }
                if name == "deref" && m.args.is_empty() {
                    let mut a = (*m.receiver).clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote! { vx_deref(#a) };
                    return;
                }
                if let Some(n) = self.renames.get(&name) {
                    m.method = Ident::new(n, Span::call_site());
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some((_, x)) = self.consts.get(&id.to_string()) {
                    let mut x = x.clone();
                    self.visit_expr_mut(&mut x);
                    self.notes.push(format!("constant {} replaced by its definition", id));
                    *e = match &x {
                        Expr::Lit(_) => x,
                        _ => parse_quote! { (#x) },
                    };
                    return;
                }
                if self.statics.contains(&id.to_string()) {
                    *e = parse_quote! { #id() };
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            // associated constants of f64: contracted functions with their bit patterns
            if p.qself.is_none() && p.path.segments.len() >= 2 {
                let n = p.path.segments.len();
                let (a, b) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
                if a == "f64" && matches!(b.as_str(), "MAX" | "MIN" | "MIN_POSITIVE" | "INFINITY" | "NEG_INFINITY" | "EPSILON" | "NAN") {
                    let f = format_ident!("vx_f64_{}", b.to_lowercase());
                    *e = parse_quote! { #f() };
                    return;
                }
            }
        }
        if let Expr::Cast(c) = e {
            if c.ty.to_token_stream().to_string() == "f64" {
                let mut a = (*c.expr).clone();
                self.visit_expr_mut(&mut a);
                *e = parse_quote! { vx_as_f64(#a) };
                return;
            }
        }
        if let Expr::Closure(c) = e {
            let id = self.next_closure;
            self.next_closure += 1;
            self.closure_params.push(c.inputs.iter().map(|p| { let p = match p { Pat::Type(t) => &*t.pat, p => p }; p.to_token_stream().to_string() }).collect());
            let mut b = (*c.body).clone();
            self.visit_expr_mut(&mut b);
            let k = mark(&format!("C{}", id));
            c.body = Box::new(parse_quote! { { #k #b } });
            return;
        }
        // str::parse::<T>(x) and x.parse::<T>()
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "String::from_utf8_lossy" && c.args.len() == 1 {
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                *e = parse_quote! { vx_utf8_lossy(#a) };
                return;
            }
            if let Some(t) = f.strip_prefix("str::parse::<").and_then(|t| t.strip_suffix('>')) {
                let n = format_ident!("vx_parse_{}", t);
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                *e = parse_quote! { #n(#a) };
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "parse" && m.args.is_empty() {
                if let Some(GenericArgument::Type(t)) = m.turbofish.as_ref().and_then(|t| t.args.first()) {
                    let n = format_ident!("vx_parse_{}", t.to_token_stream().to_string());
                    let mut a = (*m.receiver).clone();
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote! { #n(&#a) };
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            // a chain that was not recognised before (through parentheses)
            let _ = m;
        }
    }

    fn visit_item_mut(&mut self, _: &mut Item) {}
}
