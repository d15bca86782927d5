//! Scope ends made explicit: the drop of every guard (a local whose type has a `Drop` impl under contract) at every exit of
//! its scope, and at every suspension point the exit taken when the future is dropped there.
use quote::{format_ident, ToTokens};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Drops<'a> {
    pub guards: &'a HashSet<String>,
    /// guards in scope, outermost first: (name, block depth)
    live: Vec<(Ident, usize)>,
    depth: usize,
    loops: usize,
    pub unsupported: Vec<String>,
    tmp: usize,
}

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// control does not come out of the expression
fn leaves(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, _)) if leaves(e)),
        _ => false,
    }
}

impl<'a> Drops<'a> {
    pub fn new(guards: &'a HashSet<String>) -> Self {
        Drops { guards, live: vec![], depth: 0, loops: 0, unsupported: vec![], tmp: 0 }
    }

    fn is_guard(&self, e: &Expr) -> bool {
        match e {
            Expr::Struct(s) => self.guards.contains(&last(&s.path)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.segments.len() > 1 && self.guards.contains(&p.path.segments[p.path.segments.len() - 2].ident.to_string()),
                _ => false,
            },
            Expr::Paren(p) => self.is_guard(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.is_guard(e),
                _ => false,
            },
            _ => false,
        }
    }

    fn drops(&self, from: usize) -> Vec<Stmt> {
        self.live[from..].iter().rev().map(|(g, _)| parse_quote! { #g.vx_drop(vx_w); }).collect()
    }

    pub fn block(&mut self, b: &mut Block) {
        self.depth += 1;
        let mut base = self.live.len();
        // guards of an outer scope given up in this block
        let mut restore: Vec<(usize, (Ident, usize))> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut diverged = false;
        for (i, mut s) in stmts.into_iter().enumerate() {
            match &mut s {
                Stmt::Local(l) => {
                    let g = match (&l.init, &l.pat) {
                        (Some(x), _) if self.is_guard(&x.expr) => true,
                        (Some(_), Pat::Type(t)) => matches!(&*t.ty, Type::Path(p) if self.guards.contains(&last(&p.path))),
                        _ => false,
                    };
                    if let Some(x) = &mut l.init {
                        self.visit_expr_mut(&mut x.expr);
                    }
                    if g {
                        let pat = if let Pat::Type(t) = &l.pat { (*t.pat).clone() } else { l.pat.clone() };
                        match pat {
                            Pat::Ident(mut p) => {
                                p.mutability = Some(Default::default());
                                let id = p.ident.clone();
                                match &mut l.pat {
                                    Pat::Type(t) => *t.pat = Pat::Ident(p),
                                    x => *x = Pat::Ident(p),
                                }
                                self.live.push((id, self.depth));
                                out.push(s);
                            }
                            Pat::Wild(_) => {
                                self.tmp += 1;
                                let t = format_ident!("__vx_guard{}", self.tmp);
                                let init = &l.init.as_ref().unwrap().expr;
                                out.push(parse_quote! { { let mut #t = #init; #t.vx_drop(vx_w); } });
                            }
                            _ => {
                                self.unsupported.push("a guard bound by a pattern".into());
                                out.push(s);
                            }
                        }
                        continue;
                    }
                    out.push(s);
                }
                Stmt::Expr(e, semi) => {
                    // drop(g), forget(g)
                    if let Expr::Call(c) = &*e {
                        if let (Expr::Path(p), Some(Expr::Path(a))) = (&*c.func, c.args.first()) {
                            let f = last(&p.path);
                            if let Some(k) = a.path.get_ident().and_then(|id| self.live.iter().position(|(g, _)| g == id)) {
                                if f == "drop" || f == "forget" {
                                    let (g, d) = self.live[k].clone();
                                    self.live.remove(k);
                                    if d != self.depth {
                                        if k < base {
                                            base -= 1;
                                        }
                                        restore.push((k, (g.clone(), d)));
                                    }
                                    if f == "drop" {
                                        out.push(parse_quote! { #g.vx_drop(vx_w); });
                                    }
                                    continue;
                                }
                            }
                        }
                    }
                    if let (true, Expr::Struct(_) | Expr::Call(_)) = (semi.is_some() && self.is_guard(e), &*e) {
                        self.unsupported.push("a guard that is a temporary".into());
                    }
                    self.visit_expr_mut(e);
                    let own = self.live.len() > base;
                    if semi.is_none() && i + 1 == n && own {
                        if self.is_guard(e) {
                            self.unsupported.push("a guard that is a result".into());
                        }
                        if matches!(e, Expr::Return(_)) {
                            diverged = true;
                            out.push(s);
                        } else {
                            self.tmp += 1;
                            let t = format_ident!("__vx_res{}", self.tmp);
                            out.push(parse_quote! { let #t = #e; });
                            out.extend(self.drops(base));
                            out.push(Stmt::Expr(parse_quote! { #t }, None));
                            diverged = true;
                        }
                    } else {
                        out.push(s);
                    }
                }
                Stmt::Macro(m) if m.mac.path.is_ident("__vx_cancel") => {
                    let d = self.drops(0);
                    out.push(parse_quote! { if vx_cancelled(vx_w) { #(#d)* return vx_dropped(); } });
                }
                _ => out.push(s),
            }
        }
        if !diverged && self.live.len() > base {
            let d = self.drops(base);
            out.extend(d);
        }
        self.live.truncate(base);
        if !restore.is_empty() {
            if !matches!(out.last(), Some(Stmt::Expr(e, _)) if leaves(e)) {
                self.unsupported.push("a guard dropped in an inner scope".into());
            }
            for (k, g) in restore.into_iter().rev() {
                self.live.insert(k, g);
            }
        }
        self.depth -= 1;
        b.stmts = out;
    }
}

impl<'a> VisitMut for Drops<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let s = c.to_token_stream().to_string();
        if self.live.iter().any(|(g, _)| s.split_whitespace().any(|w| *g == w)) {
            self.unsupported.push("a guard used in a closure".into());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                if !self.live.is_empty() {
                    let d = self.drops(0);
                    *e = match &r.expr {
                        Some(x) => parse_quote! { { let __vx_ret = #x; #(#d)* return __vx_ret } },
                        None => parse_quote! { { #(#d)* return } },
                    };
                }
            }
            Expr::Try(t) => {
                self.visit_expr_mut(&mut t.expr);
                if !self.live.is_empty() {
                    let d = self.drops(0);
                    let x = &t.expr;
                    *e = parse_quote! { match #x { Ok(__vx_ok) => __vx_ok, Err(__vx_err) => { #(#d)* return Err(__vx_err)? } } };
                }
            }
            Expr::Path(p) => {
                if p.path.get_ident().map_or(false, |id| self.live.iter().any(|(g, _)| g == id)) {
                    self.unsupported.push("a guard that is moved".into());
                }
            }
            Expr::Field(f) => {
                if !matches!(&*f.base, Expr::Path(_)) {
                    visit_mut::visit_expr_mut(self, &mut f.base);
                }
            }
            Expr::MethodCall(m) => {
                if !matches!(&*m.receiver, Expr::Path(_)) {
                    self.visit_expr_mut(&mut m.receiver);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Reference(r) => {
                if !matches!(&*r.expr, Expr::Path(_)) {
                    self.visit_expr_mut(&mut r.expr);
                }
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let n = self.live.len();
                self.loops += 1;
                visit_mut::visit_expr_mut(self, e);
                self.loops -= 1;
                if self.live.len() != n {
                    self.unsupported.push("a guard in a loop".into());
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
}
