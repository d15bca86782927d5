//! `select!` as a sequence of polls: the last round of the loop that tokio/futures run.
//! Earlier rounds, in which every enabled branch was pending, are `vx_rounds`.
use quote::format_ident;
use syn::parse::{Parse, ParseStream, Parser};
use syn::*;

struct Branch {
    pat: Pat,
    fut: Expr,
    cond: Option<Expr>,
    body: Expr,
}

struct Select {
    biased: bool,
    branches: Vec<Branch>,
}

impl Parse for Select {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut biased = false;
        if input.peek(Ident) && input.peek2(Token![;]) {
            let id: Ident = input.parse()?;
            if id != "biased" {
                return Err(input.error("unknown select! mode"));
            }
            input.parse::<Token![;]>()?;
            biased = true;
        }
        let mut branches = vec![];
        while !input.is_empty() {
            if input.peek(Token![else]) || (input.peek(Ident) && (input.fork().parse::<Ident>().map_or(false, |i| i == "complete" || i == "default")) && input.peek2(Token![=>])) {
                return Err(input.error("else / complete / default branch"));
            }
            let pat = Pat::parse_multi_with_leading_vert(input)?;
            input.parse::<Token![=]>()?;
            let fut: Expr = input.parse()?;
            let mut cond = None;
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                input.parse::<Token![if]>()?;
                cond = Some(input.parse()?);
            }
            input.parse::<Token![=>]>()?;
            let body: Expr = if input.peek(token::Brace) {
                let b: Block = input.parse()?;
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            } else {
                input.parse()?
            };
            let _ = input.parse::<Option<Token![,]>>()?;
            branches.push(Branch { pat, fut, cond, body });
        }
        Ok(Select { biased, branches })
    }
}

/// one poll of a future expression: `f`, `&mut f`, `x.m(..)` or `&mut x.m(..)`
pub fn poll(e: &Expr, w: &Ident) -> std::result::Result<Expr, String> {
    match e {
        Expr::Reference(r) => poll(&r.expr, w),
        Expr::Paren(p) => poll(&p.expr, w),
        Expr::Path(_) | Expr::Field(_) => Ok(parse_quote! { #e.vx_poll(#w) }),
        Expr::MethodCall(m) => {
            let mut m = m.clone();
            m.method = format_ident!("vx_poll_{}", m.method);
            m.args.push(parse_quote! { #w });
            Ok(Expr::MethodCall(m))
        }
        _ => Err("select! on an expression that is neither a future nor a method call".into()),
    }
}

pub fn lower(m: &Macro, w: &Ident, n: &mut usize, cancel: bool) -> std::result::Result<Expr, String> {
    let s = Select::parse.parse2(m.tokens.clone()).map_err(|e| format!("select!: {}", e))?;
    if s.branches.is_empty() || s.branches.len() > 3 {
        return Err("select!: number of branches".into());
    }
    let k = *n;
    *n += 1;
    let o: Vec<Ident> = (0..s.branches.len()).map(|i| format_ident!("__vx_sel{}_{}", k, i)).collect();
    let c: Vec<Ident> = (0..s.branches.len()).map(|i| format_ident!("__vx_en{}_{}", k, i)).collect();
    let mut pre: Vec<Stmt> = vec![];
    for (b, (o, c)) in s.branches.iter().zip(o.iter().zip(&c)) {
        match &b.cond {
            Some(x) => pre.push(parse_quote! { let #c = #x; }),
            None => pre.push(parse_quote! { let #c = true; }),
        }
        pre.push(parse_quote! { let mut #o = None; });
    }
    pre.push(parse_quote! { vx_rounds(#w); });
    if cancel {
        pre.push(parse_quote! { __vx_cancel!(); });
    }
    // the polls of one round, in an order
    let round = |ord: &[usize]| -> std::result::Result<Vec<Stmt>, String> {
        let mut v: Vec<Stmt> = vec![];
        for (j, i) in ord.iter().enumerate() {
            let p = poll(&s.branches[*i].fut, w)?;
            let (oi, ci) = (&o[*i], &c[*i]);
            if j == 0 {
                v.push(parse_quote! { if #ci { #oi = #p; } });
            } else {
                let prev: Vec<&Ident> = ord[..j].iter().map(|x| &o[*x]).collect();
                v.push(parse_quote! { if #(#prev.is_none() &&)* #ci { #oi = #p; } });
            }
        }
        Ok(v)
    };
    let order: Vec<usize> = (0..s.branches.len()).collect();
    if s.biased || order.len() == 1 {
        pre.extend(round(&order)?);
    } else {
        // an unbiased select polls in any order
        let mut all: Vec<Vec<usize>> = vec![];
        fn perms(cur: &mut Vec<usize>, n: usize, all: &mut Vec<Vec<usize>>) {
            if cur.len() == n {
                all.push(cur.clone());
                return;
            }
            for i in 0..n {
                if !cur.contains(&i) {
                    cur.push(i);
                    perms(cur, n, all);
                    cur.pop();
                }
            }
        }
        perms(&mut vec![], order.len(), &mut all);
        let mut e: Option<Expr> = None;
        for p in all.iter().rev() {
            let st = round(p)?;
            e = Some(match e {
                None => parse_quote! { { #(#st)* } },
                Some(x) => parse_quote! { if vx_any_bool() { #(#st)* } else #x },
            });
        }
        let e = e.unwrap();
        let e = if let Expr::If(_) = &e { e } else { e };
        pre.push(Stmt::Expr(e, Some(Default::default())));
    }
    let mut tail: Expr = parse_quote! { { vx_never(#w) } };
    for (i, b) in s.branches.iter().enumerate().rev() {
        let (pat, body, oi) = (&b.pat, &b.body, &o[i]);
        let bd: Expr = match body {
            Expr::Block(_) => body.clone(),
            x => parse_quote! { { #x } },
        };
        // irrefutable or not, the value is bound before the body runs
        tail = if matches!(pat, Pat::Wild(_)) {
            parse_quote! { if #oi.is_some() #bd else #tail }
        } else {
            parse_quote! { if let Some(#pat) = #oi #bd else #tail }
        };
    }
    Ok(parse_quote! { { #(#pre)* #tail } })
}
