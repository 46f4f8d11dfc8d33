//! The rewrite rules: a small fixed list of purely syntactic, meaning-preserving
//! desugarings (each application is reported in the evidence), the insertion of loop
//! clauses / ghost code, and the inlining of helpers unknown to the baseline.
use crate::Found;
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn marker(name: &str, idx: usize) -> Stmt {
    let n = format_ident!("{}", name);
    let i = proc_macro2::Literal::usize_unsuffixed(idx);
    let m: Macro = parse_quote!(#n!(#i));
    Stmt::Macro(StmtMacro { attrs: vec![], mac: m, semi_token: Some(Default::default()) })
}

pub fn subst_self(ts: TokenStream, ty: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(ref i) if i == "Self" => ty.clone().into_iter().collect(),
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), subst_self(g.stream(), ty));
                    ng.set_span(g.span());
                    vec![TokenTree::Group(ng)]
                }
                t => vec![t],
            }
        })
        .collect()
}

fn subst_ident(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    ts.into_iter()
        .flat_map(|t| -> Vec<TokenTree> {
            match t {
                TokenTree::Ident(ref i) if i == from => to.clone().into_iter().collect(),
                TokenTree::Group(g) => {
                    let mut ng = Group::new(g.delimiter(), subst_ident(g.stream(), from, to));
                    ng.set_span(g.span());
                    vec![TokenTree::Group(ng)]
                }
                t => vec![t],
            }
        })
        .collect()
}

// ------------------------------------------------------------------ paths
const PRIMS: &[&str] = &[
    "char", "str", "usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool", "std",
    "core", "vstd", "alloc",
];
/// drops `crate::`, `self::`, `super::` and module segments (everything ends in one module)
pub struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // names which would collide in one module
        if p.segments.len() > 1 {
            let n = p.segments.len();
            for i in 0..n - 1 {
                let (a, b) = (p.segments[i].ident.to_string(), p.segments[i + 1].ident.to_string());
                if let Some(x) = match (a.as_str(), b.as_str()) {
                    ("coolor", "Color") => Some("CoolorColor"),
                    ("fmt", "Result") => Some("FmtResult"),
                    ("io", "Result") => Some("IoResult"),
                    _ => None,
                } {
                    p.segments[i + 1].ident = format_ident!("{}", x);
                }
            }
        }
        if p.segments.len() > 1 && p.segments[0].ident == "std" && p.segments.iter().any(|s| ["fmt", "io"].contains(&s.ident.to_string().as_str())) {
            let s: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = s.into_iter().collect();
        }
        if p.segments.len() > 1 {
            let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
            loop {
                if segs.len() < 2 {
                    break;
                }
                let s = segs[0].ident.to_string();
                if s.chars().next().map_or(false, |c| c.is_lowercase()) && !PRIMS.contains(&s.as_str()) {
                    segs.remove(0);
                } else {
                    break;
                }
            }
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }
}

// ------------------------------------------------------------------ rewriting
thread_local! {
    pub static LAZIES: std::cell::RefCell<BTreeSet<String>> = Default::default();
}
fn lazy_name(e: &Expr) -> Option<Ident> {
    if let Expr::Path(p) = e {
        let id = p.path.get_ident()?;
        if LAZIES.with(|l| l.borrow().contains(&id.to_string())) {
            return Some(format_ident!("vrt_lazy_{}", id));
        }
    }
    None
}

struct Rw<'a> {
    opts: &'a [String],
    applied: &'a mut BTreeSet<String>,
    n: usize,
    vars: BTreeSet<String>,
}

impl<'a> Rw<'a> {
    fn opt(&self, n: &str) -> bool {
        self.opts.iter().any(|o| o == n)
    }
    fn opt_arg(&self, n: &str) -> Option<String> {
        self.opts.iter().find_map(|o| o.strip_prefix(n).and_then(|r| r.strip_prefix(' ')).map(|s| s.trim().to_string()))
    }
    fn mark(&mut self, s: &str) {
        self.applied.insert(s.to_string());
    }
    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("__{}{}", s, self.n)
    }
}

fn mc<'e>(e: &'e Expr, name: &str, nargs: usize) -> Option<&'e ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name && m.args.len() == nargs => Some(m),
        Expr::Paren(p) => mc(&p.expr, name, nargs),
        _ => None,
    }
}
fn closure(e: &Expr) -> Option<(&ExprClosure, Vec<&Pat>)> {
    match e {
        Expr::Closure(c) => Some((c, c.inputs.iter().collect())),
        _ => None,
    }
}
fn is_full_range(e: &Expr) -> bool {
    matches!(e, Expr::Range(r) if r.start.is_none() && r.end.is_none())
}

/// base.iter() followed by map/filter adaptors
enum Step {
    Map(Pat, Expr),
    Filter(Pat, Expr),
    FilterMap(Pat, Expr),
    Enumerate,
}
fn chain(e: &Expr) -> Option<(Expr, Vec<Step>)> {
    if let Some(m) = mc(e, "map", 1) {
        let (b, mut s) = chain(&m.receiver)?;
        let (c, p) = closure(&m.args[0])?;
        if p.len() != 1 {
            return None;
        }
        s.push(Step::Map(p[0].clone(), (*c.body).clone()));
        return Some((b, s));
    }
    if let Some(m) = mc(e, "filter", 1) {
        let (b, mut s) = chain(&m.receiver)?;
        let (c, p) = closure(&m.args[0])?;
        s.push(Step::Filter(p[0].clone(), (*c.body).clone()));
        return Some((b, s));
    }
    if let Some(m) = mc(e, "filter_map", 1) {
        let (b, mut s) = chain(&m.receiver)?;
        let (c, p) = closure(&m.args[0])?;
        if p.len() != 1 {
            return None;
        }
        s.push(Step::FilterMap(p[0].clone(), no_return(&c.body)?));
        return Some((b, s));
    }
    if let Some(m) = mc(e, "enumerate", 0) {
        if mc(&m.receiver, "iter", 0).is_some() {
            return Some(((*m.receiver).clone(), vec![Step::Enumerate]));
        }
        return None;
    }
    if ["iter", "chars", "char_indices", "vrt_char_indices", "vrt_drain_all", "into_iter"].iter().any(|n| mc(e, n, 0).is_some()) {
        return Some((e.clone(), vec![]));
    }
    None
}

// ---- return in closures: if c { ..; return x; } rest -> if c { ..; x } else { rest }
struct HasRet(bool);
impl<'ast> syn::visit::Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn no_return(e: &Expr) -> Option<Expr> {
    use syn::visit::Visit;
    let mut h = HasRet(false);
    h.visit_expr(e);
    if !h.0 {
        return Some(e.clone());
    }
    let Expr::Block(b) = e else { return None };
    let st = &b.block.stmts;
    for (i, s) in st.iter().enumerate() {
        let mut h = HasRet(false);
        h.visit_stmt(s);
        if !h.0 {
            continue;
        }
        let Stmt::Expr(Expr::If(f), _) = s else { return None };
        if f.else_branch.is_some() {
            return None;
        }
        let (last, before) = f.then_branch.stmts.split_last()?;
        let mut h = HasRet(false);
        before.iter().for_each(|s| h.visit_stmt(s));
        h.visit_expr(&f.cond);
        let Stmt::Expr(Expr::Return(r), _) = last else { return None };
        let v = r.expr.as_ref()?;
        h.visit_expr(v);
        if h.0 {
            return None;
        }
        let rest = &st[i + 1..];
        let rest = no_return(&parse_quote!({ #(#rest)* }))?;
        let (pre, c) = (&st[..i], &f.cond);
        return Some(parse_quote!({ #(#pre)* if #c { #(#before)* #v } else #rest }));
    }
    None
}

impl<'a> Rw<'a> {
    fn build_chain(&mut self, base: Expr, steps: Vec<Step>, sink: &dyn Fn(TokenStream) -> TokenStream) -> TokenStream {
        let x = self.fresh("x");
        let mut cur = quote!(#x);
        let mut open = TokenStream::new();
        let mut wraps: Vec<TokenStream> = vec![];
        let mut head = quote!(for #x in #base);
        for s in steps {
            match s {
                Step::Enumerate => {
                    let b = &mc(&base, "iter", 0).unwrap().receiver;
                    head = quote!(for #x in 0..#b.len());
                    cur = quote!((#x, &#b[#x]));
                }
                Step::Map(p, e) => {
                    let y = self.fresh("y");
                    open.extend(quote!(let #y = { let #p = #cur; #e };));
                    cur = quote!(#y);
                }
                Step::FilterMap(p, e) => {
                    let y = self.fresh("f");
                    let z = self.fresh("y");
                    open.extend(quote!(let #y = { let #p = #cur; #e };));
                    wraps.push(std::mem::take(&mut open));
                    open = TokenStream::new();
                    wraps.push(quote!(let Some(#z) = #y));
                    cur = quote!(#z);
                }
                Step::Filter(p, e) => {
                    let y = self.fresh("c");
                    open.extend(quote!(let #y = { let #p = &#cur; #e };));
                    wraps.push(std::mem::take(&mut open));
                    open = TokenStream::new();
                    wraps.push(quote!(#y));
                }
            }
        }
        let mut body = {
            let k = sink(cur);
            quote!(#open #k)
        };
        while let Some(c) = wraps.pop() {
            let pre = wraps.pop().unwrap();
            body = quote!(#pre if #c { #body });
        }
        quote!(#head { #body })
    }
}

// ---- continue in for loops (which verus doesn't support)
struct HasCont(bool);
impl<'ast> syn::visit::Visit<'ast> for HasCont {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        syn::visit::visit_expr(self, &f.expr);
    }
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_continue(s: &Stmt) -> bool {
    use syn::visit::Visit;
    let mut h = HasCont(false);
    h.visit_stmt(s);
    h.0
}
fn has_continue_stmts(s: &[Stmt]) -> bool {
    s.iter().any(has_continue)
}
fn is_continue(s: &Stmt) -> bool {
    matches!(s, Stmt::Expr(Expr::Continue(c), _) if c.label.is_none())
}
// the statements before a final continue (which is the only one)
fn ends_with_continue(st: &[Stmt]) -> Option<Vec<Stmt>> {
    let (last, before) = st.split_last()?;
    if is_continue(last) && !has_continue_stmts(before) { Some(before.to_vec()) } else { None }
}
fn expr_ends_with_continue(e: &Expr) -> Option<Vec<Stmt>> {
    match e {
        Expr::Block(b) if b.label.is_none() => ends_with_continue(&b.block.stmts),
        Expr::Continue(c) if c.label.is_none() => Some(vec![]),
        _ => None,
    }
}
fn no_continue(stmts: &[Stmt], flag: &Ident, used: &mut bool) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_continue(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            s if is_continue(s) => return Some(out),
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && ends_with_continue(&f.then_branch.stmts).is_some() => {
                let a = ends_with_continue(&f.then_branch.stmts)?;
                let b = no_continue(rest, flag, used)?;
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, els)) = &init.diverge {
                    let a = expr_ends_with_continue(els)?;
                    let b = no_continue(rest, flag, used)?;
                    let e = &init.expr;
                    out.push(Stmt::Expr(parse_quote!(if let #pat = #e { #(#b)* } else { #(#a)* }), None));
                    return Some(out);
                }
                if let Expr::Match(m) = &*init.expr {
                    let b = no_continue(rest, flag, used)?;
                    let mut m = m.clone();
                    let mut n = 0;
                    for arm in &mut m.arms {
                        if let Some(a) = expr_ends_with_continue(&arm.body) {
                            arm.body = Box::new(parse_quote!({ #(#a)* }));
                        } else {
                            n += 1;
                            let v = &arm.body;
                            arm.body = Box::new(parse_quote!({ let #pat = #v; #(#b)* }));
                        }
                        arm.comma = Some(Default::default());
                    }
                    if n != 1 {
                        return None;
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(out);
                }
                return None;
            }
            Stmt::Expr(e, _) => {
                *used = true;
                out.push(Stmt::Expr(flag_expr(e, flag)?, Some(Default::default())));
                let b = no_continue(rest, flag, used)?;
                if !b.is_empty() {
                    out.push(Stmt::Expr(parse_quote!(if !#flag { #(#b)* }), None));
                }
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn flag_block(stmts: &[Stmt], flag: &Ident) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !has_continue(s) {
            out.push(s.clone());
            continue;
        }
        if is_continue(s) {
            out.push(parse_quote!(#flag = true;));
            return Some(out);
        }
        if let Stmt::Expr(e, _) = s {
            out.push(Stmt::Expr(flag_expr(e, flag)?, Some(Default::default())));
            let b = flag_block(&stmts[i + 1..], flag)?;
            if !b.is_empty() {
                out.push(Stmt::Expr(parse_quote!(if !#flag { #(#b)* }), None));
            }
            return Some(out);
        }
        return None;
    }
    Some(out)
}
fn flag_expr(e: &Expr, flag: &Ident) -> Option<Expr> {
    match e {
        Expr::Continue(c) if c.label.is_none() => Some(parse_quote!({ #flag = true; })),
        Expr::Block(b) => {
            let s = flag_block(&b.block.stmts, flag)?;
            Some(parse_quote!({ #(#s)* }))
        }
        Expr::If(f) => {
            let mut f = f.clone();
            f.then_branch.stmts = flag_block(&f.then_branch.stmts, flag)?;
            if let Some((_, els)) = &mut f.else_branch {
                **els = flag_expr(els, flag)?;
            }
            Some(Expr::If(f))
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for arm in &mut m.arms {
                *arm.body = flag_expr(&arm.body, flag)?;
                arm.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        e => {
            if has_continue(&Stmt::Expr(e.clone(), None)) { None } else { Some(e.clone()) }
        }
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_item_mut(&mut self, _i: &mut Item) {}

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let never = m.mac.path.segments.last().map_or(false, |p| matches!(p.ident.to_string().as_str(), "panic" | "unreachable" | "todo" | "unimplemented"));
            let semi = m.semi_token.is_some();
            if let Some(mut e) = self.mac(&m.mac) {
                Paths.visit_expr_mut(&mut e);
                *s = match (never, semi) {
                    (true, true) => Stmt::Expr(parse_quote!(vstd::pervasive::unreached::<()>()), Some(Default::default())),
                    (true, false) => Stmt::Expr(e, None),
                    _ => Stmt::Expr(e, Some(Default::default())),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(mut n) = self.mac(&m.mac) {
                Paths.visit_expr_mut(&mut n);
                *e = n;
            }
        }
        let base: &Expr = match &*e {
            Expr::Reference(r) if r.mutability.is_none() => &r.expr,
            x => x,
        };
        if let Some(n) = lazy_name(base) {
            self.mark("lazy: &STATIC -> vrt_lazy_STATIC() (the initializer is verified; Lazy is trusted to return its value)");
            *e = parse_quote!(#n());
            return;
        }
        if self.opt("float_casts") {
            if let Expr::Cast(c) = e {
                let (x, ty) = (&c.expr, &c.ty);
                let n: Expr = parse_quote!(VrtAs::<#ty>::vrt_as(#x));
                self.mark("float_casts: x as T -> VrtAs::<T>::vrt_as(x)");
                *e = n;
            }
        }
        // for loops over adaptors
        if let Expr::ForLoop(f) = e {
            if let Some(n) = self.for_loop(f) {
                *e = n;
            }
        }
        if let Expr::ForLoop(f) = e {
            if has_continue_stmts(&f.body.stmts) {
                let flag = self.fresh("cont");
                let mut used = false;
                if let Some(mut st) = no_continue(&f.body.stmts, &flag, &mut used) {
                    if used {
                        st.insert(0, parse_quote!(let mut #flag = false;));
                    }
                    f.body.stmts = st;
                    self.mark("continue: in a for loop, if c { a; continue; } b -> if c { a } else { b }, or with a flag when it's nested deeper");
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = self.expr(e) {
            *e = n;
        }
    }
}

impl<'a> Rw<'a> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "debug_assert" if self.opt("drop_debug_assert") => {
                self.mark("debug_assert dropped: a requirement on float arguments (documented precondition of the API)");
                Some(parse_quote!({}))
            }
            "println" | "print" | "eprintln" | "eprint" | "mad_print_inline" if self.opt("drop_print") => {
                // only with arguments which do nothing
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                fn still(e: &Expr) -> bool {
                    match e {
                        Expr::Lit(_) | Expr::Path(_) => true,
                        Expr::Field(f) => still(&f.base),
                        Expr::Reference(r) => r.mutability.is_none() && still(&r.expr),
                        Expr::Paren(p) => still(&p.expr),
                        _ => false,
                    }
                }
                if !args.iter().all(still) {
                    return None;
                }
                self.mark("print dropped: println!/mad_print_inline! of literals, variables and fields");
                Some(parse_quote!(()))
            }
            "debug_assert" | "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = args.first()?;
                self.mark("assert-macro: assert!/debug_assert!(e) -> vrt_assert(e) (proof obligation)");
                Some(parse_quote!(vrt_assert(#a)))
            }
            "debug_assert_eq" | "assert_eq" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                self.mark("assert-macro: assert_eq!(a,b) -> vrt_assert(a == b) (proof obligation)");
                Some(parse_quote!(vrt_assert(#a == #b)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.mark("panic-macro: panic!/unreachable! -> unreached() (requires false)");
                Some(parse_quote!(vstd::pervasive::unreached()))
            }
            "regex_is_match" => {
                struct A(LitStr, Expr);
                impl syn::parse::Parse for A {
                    fn parse(i: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
                        let l = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let e = i.parse()?;
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(A(l, e))
                    }
                }
                let A(l, e) = m.parse_body().ok()?;
                let rx = crate::regexes::parse(&l)?;
                if !rx.start {
                    return None;
                }
                let items = &rx.items;
                self.mark("regex-is-match: regex_is_match!(\"..\", s) -> vrt_rx_is_match(s, Ghost(items of the parsed regex)) (trusted: the matcher)");
                Some(parse_quote!(vrt_rx_is_match(#e, Ghost(Seq::empty()#(.push(#items))*))))
            }
            "regex_switch" => {
                struct A(Expr, Vec<(LitStr, Expr)>);
                impl syn::parse::Parse for A {
                    fn parse(i: syn::parse::ParseStream<'_>) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let mut v = vec![];
                        while i.peek(LitStr) {
                            let l = i.parse()?;
                            i.parse::<Token![=>]>()?;
                            v.push((l, i.parse()?));
                            let _ = i.parse::<Option<Token![,]>>();
                        }
                        Ok(A(e, v))
                    }
                }
                let A(e, arms) = m.parse_body().ok()?;
                let mut r: Expr = parse_quote!(None);
                for (l, then) in arms.iter().rev() {
                    let rx = crate::regexes::parse(l)?;
                    if !rx.start || rx.names.len() > 3 {
                        return None;
                    }
                    let items = &rx.items;
                    r = if rx.names.is_empty() {
                        parse_quote!(if vrt_rx_is_match(#e, Ghost(Seq::empty()#(.push(#items))*)) { Some(#then) } else { #r })
                    } else {
                        let f = format_ident!("vrt_rx_cap{}", rx.names.len());
                        let ns: Vec<Ident> = rx.names.iter().map(|n| format_ident!("{}", n.0)).collect();
                        let ks = rx.names.iter().map(|n| { let k = n.1 as u64; quote!(Ghost(#k as int)) });
                        let p: Pat = if ns.len() == 1 { let n = &ns[0]; parse_quote!(#n) } else { parse_quote!((#(#ns),*)) };
                        parse_quote!(match #f(#e, Ghost(Seq::empty()#(.push(#items))*), #(#ks),*) { Some(#p) => Some(#then), None => #r })
                    };
                }
                self.mark("regex-switch: regex_switch!(s, \"..\" => e, ..) -> the tests in order, with the named groups (as the macro's definition; trusted: the matcher)");
                Some(r)
            }
            "write" if self.opt("write") || self.opt("write_string") => {
                // write!(f, "{}..", args) -> sequence of display calls; only {} placeholders
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let f = args.get(0)?;
                let lit = match args.get(1)? {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    _ => return None,
                };
                let mut parts: Vec<String> = vec![String::new()];
                let mut given = args.iter().skip(2);
                let mut vals: Vec<Expr> = vec![];
                let mut rest = lit.as_str();
                while let Some(i) = rest.find(|c| c == '{' || c == '}') {
                    let (a, b) = rest.split_at(i);
                    parts.last_mut()?.push_str(a);
                    if b.starts_with('}') {
                        return None;
                    }
                    let j = b.find('}')?;
                    let name = &b[1..j];
                    if name.is_empty() {
                        vals.push(given.next()?.clone());
                    } else {
                        let id = syn::parse_str::<Ident>(name).ok()?;
                        vals.push(parse_quote!(#id));
                    }
                    parts.push(String::new());
                    rest = &b[j + 1..];
                }
                parts.last_mut()?.push_str(rest);
                if given.next().is_some() {
                    return None;
                }
                if let Expr::Reference(r) = f {
                    // in a string, which can't fail
                    if r.mutability.is_none() || !self.opt("write_string") {
                        return None;
                    }
                    let x = &r.expr;
                    let mut st = TokenStream::new();
                    for (i, p) in parts.iter().enumerate() {
                        if !p.is_empty() {
                            st.extend(quote!(#x.push_str(#p);));
                        }
                        if let Some(a) = vals.get(i) {
                            st.extend(quote!(vrt_push_shown(&mut #x, &(#a));));
                        }
                    }
                    self.mark("write-macro on a string: write!(&mut s, \"a{}b\", x) -> s.push_str(\"a\"); vrt_push_shown(&mut s, &x); s.push_str(\"b\") (trusted: what fmt writes is appended, no failure)");
                    return Some(parse_quote!(({ #st vrt_ok() })));
                }
                self.mark("write-macro: write!(f, \"a{}b\", x) -> f.vrt_str(\"a\")?; x.vrt_display(f)?; f.vrt_str(\"b\")");
                let mut st = TokenStream::new();
                for (i, p) in parts.iter().enumerate() {
                    if !p.is_empty() {
                        st.extend(quote!(#f.vrt_str(#p)?;));
                    }
                    if let Some(a) = vals.get(i) {
                        st.extend(quote!((#a).vrt_display(#f)?;));
                    }
                }
                Some(parse_quote!(({ #st vrt_ok() })))
            }
            "writeln" if self.opt("write") => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let f = args.get(0)?;
                if args.len() != 1 {
                    return None;
                }
                self.mark("writeln-macro: writeln!(f) -> f.vrt_str(\"\\n\")");
                Some(parse_quote!(#f.vrt_str("\n")))
            }
            "queue" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let w = args.get(0)?;
                let n = args.len();
                let mut st = TokenStream::new();
                for (i, a) in args.iter().enumerate().skip(1) {
                    if i + 1 < n { st.extend(quote!(#w.queue(#a)?;)); } else { st.extend(quote!(#w.queue(#a))); }
                }
                self.mark("queue-macro: queue!(w, a, b) -> { w.queue(a)?; w.queue(b) } (as the macro's definition)");
                Some(parse_quote!({ #st }))
            }
            _ => None,
        }
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let body = &f.body;
        let stmts = &body.stmts;
        let lbl = &f.label;
        let pat = &*f.pat;
        let ex = &*f.expr;
        // for m in regex!(r).find_iter(s)
        if let Some(m) = mc(ex, "find_iter", 1) {
            if let Expr::Macro(mm) = &*m.receiver {
                if mm.mac.path.segments.last().map_or(false, |s| s.ident == "regex") {
                    let l: LitStr = mm.mac.parse_body().ok()?;
                    let rx = crate::regexes::parse(&l)?;
                    if rx.start || rx.min == 0 {
                        return None;
                    }
                    let (items, a, v) = (&rx.items, &m.args[0], self.fresh("matches"));
                    self.mark("regex-find-iter: for m in regex!(\"..\").find_iter(s) -> for m in vrt_rx_find_iter(s, Ghost(items of the parsed regex)).iter() (trusted: the matcher)");
                    return Some(parse_quote!({ let #v = vrt_rx_find_iter(#a, Ghost(Seq::empty()#(.push(#items))*)); #lbl for #pat in #v.iter() { #(#stmts)* } }));
                }
            }
        }
        // for (i, x) in E.iter().enumerate()
        if let (Some(m), Pat::Tuple(t)) = (mc(ex, "enumerate", 0), pat) {
            if t.elems.len() == 2 {
                let (pi, px) = (&t.elems[0], &t.elems[1]);
                if let Some(b) = mc(&m.receiver, "iter", 0) {
                    let b = &b.receiver;
                    self.mark("enumerate: for (i, x) in E.iter().enumerate() -> for i in 0..E.len() { let x = &E[i]; }");
                    return Some(parse_quote!(#lbl for #pi in 0..#b.len() { let #px = &#b[#pi]; #(#stmts)* }));
                }
                if let Some(b) = mc(&m.receiver, "iter_mut", 0) {
                    let b = &b.receiver;
                    self.mark("enumerate: for (i, x) in E.iter_mut().enumerate() -> for i in 0..E.len() { let x = &mut E[i]; }");
                    return Some(parse_quote!(#lbl for #pi in 0..#b.len() { let #px = &mut #b[#pi]; #(#stmts)* }));
                }
            }
        }
        // for x in E.iter_mut().skip(a).take(b)  /  .take(b)  / plain with the iter_mut_index option
        let mut cur = ex;
        let mut take: Option<Expr> = None;
        let mut skip: Option<Expr> = None;
        if let Some(m) = mc(cur, "take", 1) {
            take = Some(m.args[0].clone());
            cur = &m.receiver;
        }
        if let Some(m) = mc(cur, "skip", 1) {
            skip = Some(m.args[0].clone());
            cur = &m.receiver;
        }
        let im = mc(cur, "iter_mut", 0);
        if let (Some(b), Pat::Tuple(t), true) = (im, pat, self.opt("map_values")) {
            if t.elems.len() == 2 && matches!(t.elems[0], Pat::Wild(_)) && take.is_none() && skip.is_none() {
                let (b, px) = (&b.receiver, &t.elems[1]);
                let i = format_ident!("__i{}", self.n);
                self.n += 1;
                let hi = self.fresh("hi");
                self.mark("map-values: for (_, x) in MAP.iter_mut() -> for i in 0..MAP.renders.len() { let x = &mut MAP.renders[i]; } (the map is seen as the vector of its values, in any order)");
                return Some(parse_quote!({ let #hi = #b.renders.len(); #lbl for #i in 0..#hi { let #px = &mut #b.renders[#i]; #(#stmts)* } }));
            }
        }
        let ii = mc(cur, "iter", 0);
        if (im.is_some() || ii.is_some()) && (take.is_some() || skip.is_some() || (im.is_some() && self.opt("iter_mut_index"))) {
            let b = &im.or(ii).unwrap().receiver;
            let i = format_ident!("__i{}", self.n);
            self.n += 1;
            let hi = self.fresh("hi");
            let lo: Expr = skip.unwrap_or(parse_quote!(0));
            let borrow = if im.is_some() { quote!(&mut) } else { quote!(&) };
            let hi_e: TokenStream = match take {
                Some(t) => quote!(vrt_skip_take_end(#b.len(), #lo, #t)),
                None => quote!(vrt_skip_end(#b.len(), #lo)),
            };
            let lo_e: TokenStream = quote!(#lo);
            self.mark("index-iter: for x in E.iter[_mut]()[.skip(a)][.take(b)] -> for i in a..min(len,a+b) { let x = &[mut] E[i]; }");
            return Some(parse_quote!({ let #hi = #hi_e; #lbl for #i in #lo_e..#hi { let #pat = #borrow #b[#i]; #(#stmts)* } }));
        }
        // for x in &mut E
        if let (Expr::Reference(ExprReference { mutability: Some(_), expr, .. }), true) = (ex, self.opt("iter_mut_index")) {
            let i = format_ident!("__i{}", self.n);
            self.n += 1;
            let hi = self.fresh("hi");
            self.mark("index-iter: for x in &mut E -> for i in 0..E.len() { let x = &mut E[i]; }");
            return Some(parse_quote!({ let #hi = #expr.len(); #lbl for #i in 0..#hi { let #pat = &mut #expr[#i]; #(#stmts)* } }));
        }
        // for i in (a..b).rev()
        if let Some(m) = mc(ex, "rev", 0) {
            let mut inner = &*m.receiver;
            while let Expr::Paren(p) = inner {
                inner = &p.expr;
            }
            if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = inner {
                let (lo, k) = (self.fresh("lo"), self.fresh("k"));
                self.mark("rev-range: for i in (a..b).rev() -> let mut k = b; while k > a { k -= 1; let i = k; .. }");
                return Some(parse_quote!({ let #lo = #a; let mut #k = #b; #lbl while #k > #lo { #k = #k - 1; let #pat = #k; #(#stmts)* } }));
            }
        }
        // for x in E.iter_mut().rev() / E.iter().rev()
        if let Some(m) = mc(ex, "rev", 0) {
            let im = mc(&m.receiver, "iter_mut", 0);
            if let Some(b) = im.or(mc(&m.receiver, "iter", 0)) {
                let b = &b.receiver;
                let (v, k) = (self.fresh("v"), self.fresh("k"));
                let place = matches!(&**b, Expr::Path(_) | Expr::Field(_) | Expr::Index(_));
                let (bind, vv) = if place { (quote!(), quote!(#b)) } else { (quote!(let mut #v = #b;), quote!(#v)) };
                let borrow = if im.is_some() { quote!(&mut) } else { quote!(&) };
                self.mark("rev-iter: for x in E.iter[_mut]().rev() -> let mut k = E.len(); while k > 0 { k -= 1; let x = &[mut] E[k]; .. }");
                return Some(parse_quote!({ #bind let mut #k = #vv.len(); #lbl while #k > 0 { #k = #k - 1; let #pat = #borrow #vv[#k]; #(#stmts)* } }));
            }
        }
        // for &x in E
        if let Pat::Reference(r) = pat {
            let x = self.fresh("r");
            let inner = &r.pat;
            self.mark("ref-pattern: for &x in E -> for r in E { let x = *r; }");
            return Some(parse_quote!(#lbl for #x in #ex { let #inner = *#x; #(#stmts)* }));
        }
        // for _ in  -> named variable
        if let Pat::Wild(_) = pat {
            let x = self.fresh("w");
            return Some(parse_quote!(#lbl for #x in #ex { #(#stmts)* }));
        }
        // tuple patterns over char_indices are kept: verus supports them
        None
    }

    fn expr(&mut self, e: &mut Expr) -> Option<Expr> {
        // match e { .., P if self.x => a, _ => b }  ->  match e { .., P => if self.x { a } else { b }, _ => b }
        if let Expr::Match(m) = &mut *e {
            let n = m.arms.len();
            if n >= 2 && matches!(m.arms[n - 1].pat, Pat::Wild(_)) && m.arms[n - 1].guard.is_none() {
                let g = m.arms[n - 2].guard.as_ref().map(|g| (*g.1).clone());
                if let Some(g) = g.filter(|g| g.to_token_stream().to_string().contains("self .")) {
                    let (a, b) = (&m.arms[n - 2].body, &m.arms[n - 1].body);
                    let body: Expr = parse_quote!(if #g { #a } else { #b });
                    m.arms[n - 2].guard = None;
                    m.arms[n - 2].body = Box::new(body);
                    m.arms[n - 2].comma = Some(Default::default());
                    self.mark("match-guard: match e { .., P if self.x => a, _ => b } -> match e { .., P => if self.x { a } else { b }, _ => b }");
                }
            }
        }
        // x[a..b].method() on strings (autoref)
        if let Expr::MethodCall(m) = e {
            if self.opt("str_slice") {
                let mut inner = &*m.receiver;
                while let Expr::Paren(p) = inner {
                    inner = &p.expr;
                }
                if let Expr::Index(ix) = inner {
                    if let Expr::Range(rg) = &*ix.index {
                        if let Some(n) = self.str_slice(&ix.expr, rg) {
                            m.receiver = Box::new(n);
                        }
                    }
                }
            }
        }
        // X.sort_by_key(|c| c.f) / X.sort_by_key(|c| Reverse(c.f))
        if let (Expr::MethodCall(m), true) = (&*e, self.opt_arg("sort_key").is_some()) {
            if (m.method == "sort_by_key" || m.method == "sort_unstable_by_key") && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() == 1 {
                        let p = &c.inputs[0];
                        let mut b = (*c.body).clone();
                        let mut rev = false;
                        if let Expr::Call(k) = &b {
                            if k.args.len() == 1 && k.func.to_token_stream().to_string().replace(' ', "").ends_with("Reverse") {
                                rev = true;
                                b = k.args[0].clone();
                            }
                        }
                        if let (Pat::Ident(_), Expr::Field(_)) = (p, &b) {
                            let x = &m.receiver;
                            self.mark("sort-by-key: v.sort_by_key(|c| [Reverse](c.f)) -> vrt_sort_by_key(&mut v, Ghost(|c| [-]c.f)) (trusted: a permutation, sorted by this key)");
                            let pt = self.opts.iter().find_map(|o| o.strip_prefix("sort_key ").map(|t| t.to_string()))?;
                            let ty: Type = syn::parse_str(&pt).ok()?;
                            let neg = if rev { quote!(-) } else { quote!() };
                            return Some(parse_quote!(vrt_sort_by_key(&mut #x, Ghost(|#p: #ty| #neg (#b as int)))));
                        }
                    }
                }
            }
        }
        // A[..n].clone_from_slice(&B[..m])
        if let Expr::MethodCall(m) = &*e {
            if (m.method == "clone_from_slice" || m.method == "copy_from_slice") && m.args.len() == 1 {
                fn pre(e: &Expr) -> Option<(&Expr, &Expr)> {
                    if let Expr::Index(ix) = e {
                        if let Expr::Range(ExprRange { start: None, end: Some(n), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                            return Some((&ix.expr, n));
                        }
                    }
                    None
                }
                if let Expr::Reference(r) = &m.args[0] {
                    if let (Some((a, n)), Some((b, k))) = (pre(&m.receiver), pre(&r.expr)) {
                        self.mark("clone-from-slice: a[..n].clone_from_slice(&b[..k]) -> vrt_clone_prefix(&mut a, n, &b, k) (verified shim)");
                        return Some(parse_quote!(vrt_clone_prefix(&mut #a, #n, &#b, #k)));
                    }
                }
            }
        }
        // option-driven textual method renames:  rule "method NAME NEWNAME"
        if let Expr::MethodCall(m) = e {
            let renames: Vec<String> = self.opts.iter().filter_map(|o| o.strip_prefix("method ").map(|s| s.to_string())).collect();
            for r in renames {
                let w: Vec<&str> = r.split_whitespace().collect();
                if m.method == w[0] {
                    m.method = format_ident!("{}", w[1]);
                    self.mark(&format!("method: .{}(..) -> .{}(..) (trusted shim with the same signature)", w[0], w[1]));
                    return None;
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = p.to_token_stream().to_string().replace(' ', "");
                if let Some(n) = self.opts.iter().find_map(|o| {
                    let w: Vec<&str> = o.split_whitespace().collect();
                    if w.len() == 3 && w[0] == "call" && w[1] == s { Some(w[2].to_string()) } else { None }
                }) {
                    let np: Expr = syn::parse_str(&n).ok()?;
                    c.func = Box::new(np);
                    self.mark(&format!("call: {}(..) -> {}(..) (trusted shim with the same signature)", s, n));
                    return None;
                }
            }
        }
        if self.opt("eq") {
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => {
                        self.mark("eq: a == b -> vrt_eq(&(a), &(b)) (trusted shim: equality of the contents)");
                        return Some(parse_quote!(vrt_eq(&(#l), &(#r))));
                    }
                    BinOp::Ne(_) => {
                        self.mark("eq: a != b -> !vrt_eq(&(a), &(b)) (trusted shim: equality of the contents)");
                        return Some(parse_quote!((!vrt_eq(&(#l), &(#r)))));
                    }
                    _ => {}
                }
            }
        }
        if let Some(name) = self.opt_arg("stdin") {
            if let Expr::Call(c) = e {
                if c.args.is_empty() {
                    let f = c.func.to_token_stream().to_string().replace(' ', "");
                    if f == "io::stdin" || f == "std::io::stdin" || f == "stdin" {
                        let id = format_ident!("{}", name.trim());
                        self.mark("stdin: io::stdin() -> the added parameter holding the lines still to be read");
                        return Some(parse_quote!(#id));
                    }
                }
            }
        }
        // thread::spawn(closure) -> the call given by the rule
        if let Some(call) = self.opt_arg("spawn_call") {
            if is_spawn(e) {
                if let Ok(n) = syn::parse_str::<Expr>(&call) {
                    self.mark("spawn: thread::spawn(move || body) -> a call of the function made of the body (verified on its own), given the captured variables");
                    return Some(n);
                }
            }
        }
        for o in self.opts.iter().filter_map(|o| o.strip_prefix("call_with ")).map(|o| o.to_string()).collect::<Vec<_>>() {
            let w: Vec<&str> = o.split_whitespace().collect();
            if let (Expr::Call(c), [old, new, arg]) = (&*e, &w[..]) {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == *old || f.ends_with(&format!("::{}", old)) {
                    let (n, a, args) = (format_ident!("{}", new), format_ident!("{}", arg), &c.args);
                    self.mark("world: calls to the outside get an added parameter holding its history");
                    return Some(parse_quote!(#n(#a, #args)));
                }
            }
        }
        // x.m(args) -> x.m2(w, args), w being an added parameter holding the history of the outside
        for o in self.opts.iter().filter_map(|o| o.strip_prefix("method_with ")).map(|o| o.to_string()).collect::<Vec<_>>() {
            let w: Vec<&str> = o.split_whitespace().collect();
            if let (Expr::MethodCall(m), [old, new, arg]) = (&*e, &w[..]) {
                if m.method == old {
                    let (r, n, a, args) = (&m.receiver, format_ident!("{}", new), format_ident!("{}", arg), &m.args);
                    self.mark("world: calls to the outside get an added parameter holding its history");
                    return Some(parse_quote!(#r.#n(#a, #args)));
                }
            }
        }
        // calls of closures held in variables and fields
        if self.opt("callvars") {
            if let Expr::Call(c) = e {
                let mut fe = (*c.func).clone();
                while let Expr::Paren(p) = fe {
                    fe = *p.expr;
                }
                let is_var = match &fe {
                    Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.vars.contains(&i.to_string())),
                    Expr::Field(_) => true,
                    _ => false,
                };
                if is_var {
                    let meth = format_ident!("vrt_apply{}", c.args.len());
                    let args = &c.args;
                    self.mark("closure-call: f(args) on a boxed closure -> f.vrt_applyN(args) (assumed contract: a pure total function)");
                    return Some(parse_quote!(#fe.#meth(#args)));
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "drain" && m.args.len() == 1 && is_full_range(&m.args[0]) {
                let r = &m.receiver;
                self.mark("drain: v.drain(..) -> v.vrt_drain_all() (takes the whole vector)");
                return Some(parse_quote!(#r.vrt_drain_all()));
            }
            if n == "drain" && m.args.len() == 1 {
                if let Expr::Range(r) = &m.args[0] {
                    let rec = &m.receiver;
                    let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let m2: Option<Expr> = r.end.as_ref().map(|x| (**x).clone());
                        self.mark("drain-range: v.drain(a..b) -> v.vrt_drain(a, b) (trusted shim)");
                        return Some(match m2 {
                            Some(h) => parse_quote!(#rec.vrt_drain(#lo, #h)),
                            None => parse_quote!(#rec.vrt_drain_from(#lo)),
                        });
                    }
                }
            }
            if (n == "into" || n == "as_ref") && m.args.is_empty() {
                if let (Some(l), Expr::Path(p)) = (self.opt_arg("into_id"), &*m.receiver) {
                    let s = p.to_token_stream().to_string();
                    if l.split_whitespace().any(|x| x == s) {
                        let r = (*m.receiver).clone();
                        self.mark("identity: x.into() / x.as_ref() -> x where the instance is reflexive (usize: Into<usize>, &str: AsRef<str>)");
                        return Some(r);
                    }
                }
            }
            // std::iter::repeat(c).take(n).collect::<String>()
            if n == "collect" && m.args.is_empty() {
                if let Some(t) = mc(&m.receiver, "take", 1) {
                    if let Expr::Call(c) = &*t.receiver {
                        if c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::repeat") && c.args.len() == 1 {
                            let (x, k) = (&c.args[0], &t.args[0]);
                            self.mark("repeat: iter::repeat(c).take(n).collect() -> vrt_repeat_char(c, n) (verified shim)");
                            return Some(parse_quote!(vrt_repeat_char(#x, #k)));
                        }
                    }
                }
            }
            if let Some(c) = mc(&m.receiver, "chars", 0) {
                let r = &c.receiver;
                if n == "count" && m.args.is_empty() {
                    self.mark("chars-count: s.chars().count() -> s.vrt_chars_count() (trusted shim: number of chars)");
                    return Some(parse_quote!(#r.vrt_chars_count()));
                }
                if n == "all" && m.args.len() == 1 && m.args[0].to_token_stream().to_string().replace(' ', "") == "char::is_whitespace" {
                    self.mark("chars-all-blank: s.chars().all(char::is_whitespace) -> s.vrt_all_blank() (trusted shim)");
                    return Some(parse_quote!(#r.vrt_all_blank()));
                }
            }
            if n == "char_indices" && m.args.is_empty() {
                let r = &m.receiver;
                self.mark("char_indices: s.char_indices() -> s.vrt_char_indices() (trusted shim: vector of (byte offset, char))");
                return Some(parse_quote!(#r.vrt_char_indices()));
            }
            if n == "width" && m.args.is_empty() && self.opt("width") {
                m.method = format_ident!("vrt_width");
                self.mark("width: unicode_width's x.width() -> x.vrt_width() (trusted shim)");
                return None;
            }
            if n == "collect" && m.args.is_empty() && self.opt("collect") {
                if let Some((b, s)) = chain(&m.receiver) {
                    let acc = self.fresh("acc");
                    let a2 = acc.clone();
                    let l = self.build_chain(b, s, &move |c| quote!(#a2.push(#c);));
                    self.mark("iter-collect: E.iter().filter(..).map(..).collect() -> loop pushing in a vector");
                    return Some(parse_quote!({ let mut #acc = Vec::new(); #l #acc }));
                }
            }
            if n == "sum" && m.args.is_empty() {
                if let Some((b, s)) = chain(&m.receiver) {
                    let acc = self.fresh("acc");
                    let ty: TokenStream = match (&m.turbofish, self.opt_arg("sum_type")) {
                        (Some(t), _) => t.args.to_token_stream(),
                        (None, Some(t)) => t.parse().unwrap(),
                        (None, None) => quote!(usize),
                    };
                    let a2 = acc.clone();
                    let l = self.build_chain(b, s, &move |c| quote!(#a2 = #a2 + #c;));
                    self.mark("iter-sum: E.iter().filter(..).map(..).sum() -> accumulation loop");
                    return Some(parse_quote!({ let mut #acc: #ty = 0; #l #acc }));
                }
            }
            if n == "count" && m.args.is_empty() {
                if let Some((b, s)) = chain(&m.receiver) {
                    let acc = self.fresh("acc");
                    let a2 = acc.clone();
                    let l = self.build_chain(b, s, &move |_| quote!(#a2 = #a2 + 1;));
                    self.mark("iter-count: E.iter().filter(..).count() -> counting loop");
                    return Some(parse_quote!({ let mut #acc: usize = 0; #l #acc }));
                }
            }
            if n == "fold" && m.args.len() == 2 {
                if let (Some((b, s)), Some((c, p))) = (chain(&m.receiver), closure(&m.args[1])) {
                    if p.len() == 2 {
                        let acc = self.fresh("acc");
                        let init = &m.args[0];
                        let (pa, px, body) = (p[0].clone(), p[1].clone(), (*c.body).clone());
                        let a2 = acc.clone();
                        let ty: TokenStream = match self.opt_arg("fold_type") {
                            Some(t) => t.parse().unwrap(),
                            None => quote!(usize),
                        };
                        let l = self.build_chain(b, s, &move |cur| quote!(#a2 = { let #pa = #a2; let #px = #cur; #body };));
                        self.mark("iter-fold: E.iter().fold(init, |a, x| e) -> accumulation loop");
                        return Some(parse_quote!({ let mut #acc: #ty = #init; #l #acc }));
                    }
                }
            }
            // the last of the greatest ones
            if n == "max_by_key" && m.args.len() == 1 {
                if let (Some((b, s)), Some((c, p)), Some(t)) = (chain(&m.receiver), closure(&m.args[0]), self.opt_arg("max_type")) {
                    let acc = self.fresh("acc");
                    let (px, body) = (p[0].clone(), (*c.body).clone());
                    let ty: TokenStream = t.parse().unwrap();
                    let a2 = acc.clone();
                    let l = self.build_chain(b, s, &move |cur| quote!(let __new = { let #px = &#cur; #body }; let __keep = match &#a2 { Some(__old) => { let __o = { let #px = __old; #body }; __o > __new } None => false }; if !__keep { #a2 = Some(#cur); }));
                    self.mark("iter-max_by_key: E.max_by_key(|x| k) -> loop keeping the last greatest one");
                    return Some(parse_quote!({ let mut #acc: Option<#ty> = None; #l #acc }));
                }
            }
            if (n == "any" || n == "all") && m.args.len() == 1 {
                if let (Some((b, s)), Some((c, p))) = (chain(&m.receiver), closure(&m.args[0])) {
                    let acc = self.fresh("acc");
                    let (px, body) = (p[0].clone(), (*c.body).clone());
                    let a2 = acc.clone();
                    let is_any = n == "any";
                    let l = self.build_chain(b, s, &move |cur| {
                        if is_any {
                            quote!(if { let #px = #cur; #body } { #a2 = true; break; })
                        } else {
                            quote!(if !{ let #px = #cur; #body } { #a2 = false; break; })
                        }
                    });
                    let init = if is_any { quote!(false) } else { quote!(true) };
                    self.mark("iter-any/all: E.iter().any(|x| c) -> loop with break");
                    return Some(parse_quote!({ let mut #acc: bool = #init; #l #acc }));
                }
                // chars().all(char::is_whitespace)
                if let (Some((b, s)), Expr::Path(pf)) = (chain(&m.receiver), &m.args[0]) {
                    let acc = self.fresh("acc");
                    let a2 = acc.clone();
                    let pf = pf.clone();
                    let is_any = n == "any";
                    let l = self.build_chain(b, s, &move |cur| {
                        if is_any {
                            quote!(if #pf(#cur) { #a2 = true; break; })
                        } else {
                            quote!(if !#pf(#cur) { #a2 = false; break; })
                        }
                    });
                    let init = if is_any { quote!(false) } else { quote!(true) };
                    self.mark("iter-any/all: E.iter().any(|x| c) -> loop with break");
                    return Some(parse_quote!({ let mut #acc: bool = #init; #l #acc }));
                }
            }
            if n == "position" && m.args.len() == 1 {
                if let (Some(i), Some((c, p))) = (mc(&m.receiver, "iter", 0), closure(&m.args[0])) {
                    let (acc, x, b, px, body) = (self.fresh("acc"), self.fresh("x"), &i.receiver, p[0].clone(), &c.body);
                    self.mark("iter-position: E.iter().position(|x| c) -> loop with break");
                    return Some(parse_quote!({ let mut #acc: Option<usize> = None; for #x in 0..#b.len() { if { let #px = &#b[#x]; #body } { #acc = Some(#x); break; } } #acc }));
                }
            }
            if n == "map_err" && m.args.len() == 1 {
                if let Some((c, p)) = closure(&m.args[0]) {
                    if p.len() == 1 {
                        let (r, p0, b) = (&m.receiver, p[0], &c.body);
                        self.mark("map_err: r.map_err(|x| e) -> match r { Ok(v) => Ok(v), Err(x) => Err(e) }");
                        return Some(parse_quote!((match #r { Ok(__v) => Ok(__v), Err(#p0) => Err(#b) })));
                    }
                }
            }
            if n == "find_map" && m.args.len() == 1 {
                if let (Some((b, s)), Some((c, p))) = (chain(&m.receiver), closure(&m.args[0])) {
                    let acc = self.fresh("acc");
                    let (px, body) = (p[0].clone(), (*c.body).clone());
                    let a2 = acc.clone();
                    let l = self.build_chain(b, s, &move |cur| quote!(if #a2.is_none() { let #px = #cur; #a2 = #body; }));
                    self.mark("iter-find_map: E.iter().find_map(|x| e) -> loop keeping the first Some");
                    return Some(parse_quote!({ let mut #acc = None; #l #acc }));
                }
            }
            if n == "map_or" && m.args.len() == 2 {
                if let Some((c, p)) = closure(&m.args[1]) {
                    if p.len() == 1 {
                        let (r, d, p0, b) = (&m.receiver, &m.args[0], p[0], &c.body);
                        self.mark("map_or: o.map_or(d, |x| e) -> match o { Some(x) => e, None => d }");
                        return Some(parse_quote!((match #r { Some(#p0) => #b, None => #d })));
                    }
                }
            }
            if n == "map" && m.args.len() == 1 && self.opt("opt_map") {
                if let Some((c, p)) = closure(&m.args[0]) {
                    if p.len() == 1 {
                        let (r, p0, b) = (&m.receiver, p[0], &c.body);
                        self.mark("option-map: o.map(|x| e) -> match o { Some(x) => Some(e), None => None }");
                        return Some(parse_quote!((match #r { Some(#p0) => Some(#b), None => None })));
                    }
                }
            }
            if n == "and_then" && m.args.len() == 1 && self.opt("opt_map") {
                if let Some((c, p)) = closure(&m.args[0]) {
                    if p.len() == 1 {
                        let (r, p0, b) = (&m.receiver, p[0], &c.body);
                        self.mark("option-and_then: o.and_then(|x| e) -> match o { Some(x) => e, None => None }");
                        return Some(parse_quote!((match #r { Some(#p0) => #b, None => None })));
                    }
                }
            }
            if n == "unwrap_or_else" && m.args.len() == 1 {
                if let Some((c, p)) = closure(&m.args[0]) {
                    if p.is_empty() {
                        let (r, b) = (&m.receiver, &c.body);
                        self.mark("unwrap_or_else: o.unwrap_or_else(|| e) -> match");
                        return Some(parse_quote!((match #r { Some(__v) => __v, None => #b })));
                    }
                }
            }
        }
        // &s[a..b] on strings
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                let mut inner = &*r.expr;
                while let Expr::Paren(p) = inner {
                    inner = &p.expr;
                }
                if let Expr::Index(ix) = inner {
                    if let Expr::Range(rg) = &*ix.index {
                        if self.opt("str_slice") {
                            if let Some(n) = self.str_slice(&ix.expr, rg) {
                                return Some(n);
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Reference(r) = e {
            // & { Reference of already rewritten slice } handled above
            let _ = r;
        }
        None
    }

    fn str_slice(&mut self, base: &Expr, rg: &ExprRange) -> Option<Expr> {
        if !matches!(rg.limits, RangeLimits::HalfOpen(_)) {
            return None;
        }
        self.mark("str-slice: &s[a..b] -> s.vrt_slice(a, b) (trusted shim; char-boundary obligation)");
        Some(match (&rg.start, &rg.end) {
            (Some(a), Some(b)) => parse_quote!(#base.vrt_slice(#a, #b)),
            (Some(a), None) => parse_quote!(#base.vrt_slice_from(#a)),
            (None, Some(b)) => parse_quote!(#base.vrt_slice(0, #b)),
            (None, None) => base.clone(),
        })
    }
}

fn is_spawn(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "spawn") && matches!(c.args.first(), Some(Expr::Closure(_))),
            _ => false,
        },
        _ => false,
    }
}
// let run = move || ..; ... spawn(run)  ->  spawn(move || ..)
fn named_spawn(f: &mut ImplItemFn) {
    struct Uses<'a>(&'a Ident, usize);
    impl<'ast> Visit<'ast> for Uses<'_> {
        fn visit_ident(&mut self, i: &'ast Ident) {
            if i == self.0 { self.1 += 1; }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.0 == w) { self.1 += 100; }
        }
    }
    struct Put<'a>(&'a Ident, &'a ExprClosure, bool);
    impl VisitMut for Put<'_> {
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            visit_mut::visit_expr_call_mut(self, c);
            let spawn = matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "spawn"));
            if spawn && c.args.len() == 1 && matches!(&c.args[0], Expr::Path(p) if p.path.is_ident(self.0)) {
                c.args[0] = Expr::Closure(self.1.clone());
                self.2 = true;
            }
        }
    }
    struct Blocks;
    impl VisitMut for Blocks {
        fn visit_block_mut(&mut self, b: &mut Block) {
            for i in 0..b.stmts.len() {
                let (id, c) = match &b.stmts[i] {
                    Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) if p.by_ref.is_none() => match &*init.expr {
                        Expr::Closure(c) if c.inputs.is_empty() => (p.ident.clone(), c.clone()),
                        _ => continue,
                    },
                    _ => continue,
                };
                let mut u = Uses(&id, 0);
                for s in &b.stmts[i + 1..] { u.visit_stmt(s); }
                if u.1 != 1 { continue; }
                let mut v = Put(&id, &c, false);
                for s in &mut b.stmts[i + 1..] { v.visit_stmt_mut(s); }
                if v.2 { b.stmts.remove(i); break; }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    Blocks.visit_block_mut(&mut f.block);
}
// matches!(e, p)  ->  match e { p => true, _ => false }
fn open_matches(f: &mut ImplItemFn) {
    struct M(Expr, Pat, Option<Expr>);
    impl syn::parse::Parse for M {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let e = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
            if i.peek(Token![,]) { i.parse::<Token![,]>()?; }
            Ok(M(e, p, g))
        }
    }
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("matches") {
                    if let Ok(M(x, p, g)) = m.mac.parse_body::<M>() {
                        if matches!(x, Expr::MethodCall(_) | Expr::Call(_)) {
                            *e = match g {
                                Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                                None => parse_quote!(match #x { #p => true, _ => false }),
                            };
                        }
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V.visit_block_mut(&mut f.block);
}
// the body becomes the one of the closure given to thread::spawn
fn spawned(f: &mut ImplItemFn) {
    struct Find(Vec<Block>);
    impl<'ast> Visit<'ast> for Find {
        fn visit_expr(&mut self, e: &'ast Expr) {
            if is_spawn(e) {
                if let Expr::Call(c) = e {
                    if let Some(Expr::Closure(k)) = c.args.first() {
                        if k.inputs.is_empty() {
                            self.0.push(match &*k.body {
                                Expr::Block(b) if b.label.is_none() => b.block.clone(),
                                e => parse_quote!({ #e }),
                            });
                        }
                    }
                }
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = Find(vec![]);
    v.visit_block(&f.block);
    if v.0.len() == 1 {
        f.block = v.0.pop().unwrap();
    } else {
        f.block = parse_quote!({ lost_spawned_closure });
    }
}
// let f = |x| body; ... f(a)  ->  { let x = a; body }
fn inline_closures(f: &mut ImplItemFn, applied: &mut BTreeSet<String>) {
    struct Calls<'a>(&'a Ident, &'a ExprClosure, bool);
    impl VisitMut for Calls<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) && c.args.len() == self.1.inputs.len() {
                    let lets: Vec<Stmt> = self.1.inputs.iter().zip(&c.args).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                    let b = &self.1.body;
                    let stmts: Vec<Stmt> = match &**b { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), b => vec![Stmt::Expr(b.clone(), None)] };
                    *e = parse_quote!({ #(#lets)* #(#stmts)* });
                    self.2 = true;
                }
            }
        }
    }
    struct Blocks<'a>(&'a mut BTreeSet<String>);
    impl VisitMut for Blocks<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let mut found = None;
                if let Stmt::Local(l) = &b.stmts[i] {
                    let id = match &l.pat { Pat::Ident(p) if p.by_ref.is_none() => Some(p.ident.clone()), _ => None };
                    if let (Some(id), Some(init)) = (id, &l.init) {
                        if let Expr::Closure(c) = &*init.expr {
                            let mut h = HasRet(false);
                            h.visit_expr(&c.body);
                            if !h.0 {
                                found = Some((id, c.clone()));
                            }
                        }
                    }
                }
                if let Some((id, c)) = found {
                    let mut v = Calls(&id, &c, false);
                    for s in &mut b.stmts[i + 1..] {
                        v.visit_stmt_mut(s);
                    }
                    if v.2 {
                        b.stmts.remove(i);
                        self.0.insert("closures: a local closure is put in the places where it's called".into());
                        continue;
                    }
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    Blocks(applied).visit_block_mut(&mut f.block);
}

pub fn apply(f: &mut ImplItemFn, opts: &[String], applied: &mut BTreeSet<String>) {
    if opts.iter().any(|o| o.starts_with("method_with") || o.starts_with("call_with")) {
        open_matches(f);
    }
    if opts.iter().any(|o| o == "spawned" || o.starts_with("spawn_call")) {
        named_spawn(f);
    }
    if opts.iter().any(|o| o == "spawned") {
        spawned(f);
        applied.insert("spawned: the body of the closure given to thread::spawn, as a function of the variables it captures".into());
    }
    if opts.iter().any(|o| o == "inline_closures") {
        inline_closures(f, applied);
    }
    Paths.visit_impl_item_fn_mut(f);
    iter_cursors(f, applied);
    let vars = crate::bindings(f).into_iter().collect();
    let mut r = Rw { opts, applied, n: 0, vars };
    r.visit_block_mut(&mut f.block);
    // nested items (structs declared in bodies) are extracted separately
    struct DropItems;
    impl VisitMut for DropItems {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_local_mut(&mut self, l: &mut Local) {
            l.attrs.clear();
            // let &x = e  ->  let x = *(e)
            if let (Pat::Reference(r), Some(init)) = (&l.pat, &mut l.init) {
                let inner = (*r.pat).clone();
                let e = &init.expr;
                init.expr = Box::new(parse_quote!(*(#e)));
                l.pat = inner;
            }
            visit_mut::visit_local_mut(self, l);
        }
    }
    DropItems.visit_block_mut(&mut f.block);
}

// ------------------------------------------------------------------ iterators used by hand
// let mut n = E.iter()[.map(|x| e)][.enumerate()][.skip(k)][.peekable()]; with only n.next() and n.peek().is_some()
// -> an index in E (from k)
struct Cursor {
    name: Ident,
    src: Ident,
    elem: TokenStream,
}
impl Cursor {
    fn is(&self, e: &Expr, method: &str) -> bool {
        mc(e, method, 0).map_or(false, |m| matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)))
    }
}
fn cursor_chain(e: &Expr, name: &Ident, src: &Ident) -> Option<(Expr, TokenStream, Expr)> {
    if let Some(m) = mc(e, "peekable", 0) {
        return cursor_chain(&m.receiver, name, src);
    }
    if let Some(m) = mc(e, "skip", 1) {
        let (b, el, k) = cursor_chain(&m.receiver, name, src)?;
        return match k {
            Expr::Lit(_) => Some((b, el, m.args[0].clone())),
            _ => None,
        };
    }
    if let Some(m) = mc(e, "enumerate", 0) {
        let (b, el, k) = cursor_chain(&m.receiver, name, src)?;
        return match k {
            Expr::Lit(_) => Some((b, quote!((#name, #el)), k)),
            _ => None,
        };
    }
    if let Some(m) = mc(e, "map", 1) {
        let (b, el, k) = cursor_chain(&m.receiver, name, src)?;
        let (c, p) = closure(&m.args[0])?;
        if p.len() != 1 || no_return(&c.body).is_none() {
            return None;
        }
        let (p, body) = (p[0], &c.body);
        return Some((b, quote!({ let #p = #el; #body }), k));
    }
    let m = mc(e, "iter", 0)?;
    Some(((*m.receiver).clone(), quote!(&#src[#name]), parse_quote!(0)))
}
struct CursorUses<'a>(&'a Cursor);
impl VisitMut for CursorUses<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let c = self.0;
        let (name, src, elem) = (&c.name, &c.src, &c.elem);
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                if let (true, Pat::TupleStruct(t)) = (c.is(&l.expr, "next"), &*l.pat) {
                    if t.path.is_ident("Some") && t.elems.len() == 1 {
                        let (x, lbl, st) = (&t.elems[0], &w.label, &w.body.stmts);
                        *e = parse_quote!(#lbl while #name < #src.len() { let #x = #elem; #name += 1; #(#st)* });
                    }
                }
            }
        }
        if c.is(e, "next") {
            *e = parse_quote!((if #name < #src.len() { let __e = #elem; #name += 1; Some(__e) } else { None }));
            return;
        }
        if let Some(m) = mc(e, "is_some", 0) {
            if c.is(&m.receiver, "peek") {
                *e = parse_quote!((#name < #src.len()));
                return;
            }
        }
        if let Some(m) = mc(e, "is_none", 0) {
            if c.is(&m.receiver, "peek") {
                *e = parse_quote!((#name >= #src.len()));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn iter_cursors(f: &mut ImplItemFn, applied: &mut BTreeSet<String>) {
    struct V<'a>(&'a mut BTreeSet<String>);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let mut found = None;
                if let Stmt::Local(l) = &b.stmts[i] {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if p.mutability.is_some() && init.diverge.is_none() {
                            let src = format_ident!("__src_{}", p.ident);
                            if let Some((base, elem, k)) = cursor_chain(&init.expr, &p.ident, &src) {
                                found = Some((Cursor { name: p.ident.clone(), src, elem }, base, k));
                            }
                        }
                    }
                }
                if let Some((c, base, k)) = found {
                    let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                    CursorUses(&c).visit_block_mut(&mut rest);
                    // no other use of the iterator
                    let left = quote!(#rest).to_string();
                    if !left.contains(&format!("{} . next", c.name)) && !left.contains(&format!("{} . peek", c.name)) && !left.contains(&format!("in {}", c.name)) {
                        let (name, src) = (&c.name, &c.src);
                        let bind: Stmt = match base {
                            Expr::MethodCall(_) => parse_quote!(let #src = #base;),
                            _ => parse_quote!(let #src = &#base;),
                        };
                        let start: Stmt = parse_quote!(let mut #name: usize = #k;);
                        b.stmts.truncate(i);
                        b.stmts.push(bind);
                        b.stmts.push(start);
                        b.stmts.extend(rest.stmts);
                        self.0.insert("iter-cursor: let mut n = E.iter()[.map(|x| e)][.enumerate()][.skip(k)][.peekable()], used with n.next() and n.peek().is_some() -> an index in E from k (n.next() -> if n < E.len() { let e = (n, &E[n]); n += 1; Some(e) } else { None })".into());
                        i += 1;
                    }
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    V(applied).visit_block_mut(&mut f.block);
}

// ------------------------------------------------------------------ loops
pub fn loop_shape(f: &ImplItemFn) -> String {
    struct S(String);
    impl<'ast> Visit<'ast> for S {
        fn visit_expr(&mut self, e: &'ast Expr) {
            let k = match e {
                Expr::ForLoop(l) => Some(format!("for[{}]", header(&l.expr))),
                Expr::While(_) => Some("while".to_string()),
                Expr::Loop(_) => Some("loop".to_string()),
                _ => None,
            };
            if let Some(k) = &k {
                self.0.push_str(k);
                self.0.push('(');
            }
            visit::visit_expr(self, e);
            if k.is_some() {
                self.0.push(')');
            }
        }
    }
    fn header(e: &Expr) -> String {
        match e {
            Expr::MethodCall(m) => format!("{}.{}", header(&m.receiver), m.method),
            Expr::Range(_) => "range".into(),
            Expr::Reference(r) => header(&r.expr),
            Expr::Paren(r) => header(&r.expr),
            _ => "".into(),
        }
    }
    use syn::visit;
    let mut s = S(String::new());
    s.visit_block(&f.block);
    s.0
}

pub fn set_loop(f: &mut ImplItemFn, n: usize, it: Option<&str>, idx: usize) -> bool {
    struct L<'a> {
        n: usize,
        cur: usize,
        it: Option<&'a str>,
        idx: usize,
        done: bool,
    }
    impl<'a> VisitMut for L<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            let is = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_));
            let mine = is && {
                let c = self.cur;
                self.cur += 1;
                c == self.n
            };
            if mine && !self.done {
                self.done = true;
                let m = marker("__vclause", self.idx);
                match e {
                    Expr::ForLoop(l) => {
                        if let Some(it) = self.it {
                            let itn = format_ident!("{}", it);
                            let ex = &l.expr;
                            l.expr = Box::new(parse_quote!(__vit!(#itn, #ex)));
                        }
                        l.body.stmts.insert(0, m);
                    }
                    Expr::While(l) => l.body.stmts.insert(0, m),
                    Expr::Loop(l) => l.body.stmts.insert(0, m),
                    _ => {}
                }
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut l = L { n, cur: 0, it, idx, done: false };
    // loops are numbered in pre-order; a __vit! macro hides nothing that is a loop
    l.visit_block_mut(&mut f.block);
    l.done
}

fn insert_end(stmts: &mut Vec<Stmt>, s: Stmt) {
    match stmts.last() {
        Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => {
            let n = stmts.len() - 1;
            stmts.insert(n, s);
        }
        _ => stmts.push(s),
    }
}

pub fn insert_ghost(f: &mut ImplItemFn, at: &str, idx: usize) -> bool {
    let w: Vec<&str> = at.split_whitespace().collect();
    let m = marker("__vghost", idx);
    match w.as_slice() {
        ["body-start"] => {
            f.block.stmts.insert(0, m);
            true
        }
        ["body-end"] => {
            if matches!(f.sig.output, ReturnType::Default) {
                if let Some(Stmt::Expr(_, semi)) = f.block.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                f.block.stmts.push(m);
                return true;
            }
            insert_end(&mut f.block.stmts, m);
            true
        }
        ["loop", n, pos] => {
            let n: usize = n.parse().unwrap();
            match *pos {
                "start" | "end" => {
                    struct L {
                        n: usize,
                        cur: usize,
                        m: Option<Stmt>,
                        end: bool,
                    }
                    impl VisitMut for L {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            let body = match e {
                                Expr::ForLoop(l) => Some(&mut l.body),
                                Expr::While(l) => Some(&mut l.body),
                                Expr::Loop(l) => Some(&mut l.body),
                                _ => None,
                            };
                            if let Some(b) = body {
                                if self.cur == self.n {
                                    if let Some(m) = self.m.take() {
                                        if self.end {
                                            // the body of a loop is unit typed
                                            if let Some(Stmt::Expr(e, semi @ None)) = b.stmts.last_mut() {
                                                if !matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
                                                    *semi = Some(Default::default());
                                                }
                                            }
                                            b.stmts.push(m);
                                        } else {
                                            let p = if matches!(b.stmts.first(), Some(Stmt::Macro(mm)) if mm.mac.path.is_ident("__vclause")) { 1 } else { 0 };
                                            b.stmts.insert(p, m);
                                        }
                                    }
                                }
                                self.cur += 1;
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    let mut l = L { n, cur: 0, m: Some(m), end: *pos == "end" };
                    l.visit_block_mut(&mut f.block);
                    l.m.is_none()
                }
                _ => stmt_insert(f, &Target::Loop(n), *pos == "before", m),
            }
        }
        [pos, "call", name, k] => stmt_insert(f, &Target::Call(name.to_string(), k.parse().unwrap()), *pos == "before", m),
        [pos, "let", name] => stmt_insert(f, &Target::Let(name.to_string(), 0), *pos == "before", m),
        [pos, "let", name, k] => stmt_insert(f, &Target::Let(name.to_string(), k.parse().unwrap()), *pos == "before", m),
        [pos, "assign", name, k] => stmt_insert(f, &Target::Assign(name.to_string(), k.parse().unwrap()), *pos == "before", m),
        [br, n, "start"] if *br == "then" || *br == "else" => {
            struct L {
                n: usize,
                cur: usize,
                m: Option<Stmt>,
                els: bool,
            }
            impl VisitMut for L {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::If(i) = e {
                        if self.cur == self.n {
                            if self.els {
                                if let Some((_, b)) = &mut i.else_branch {
                                    if let Expr::Block(b) = &mut **b {
                                        if let Some(m) = self.m.take() {
                                            b.block.stmts.insert(0, m);
                                        }
                                    }
                                }
                            } else if let Some(m) = self.m.take() {
                                i.then_branch.stmts.insert(0, m);
                            }
                        }
                        self.cur += 1;
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            let mut l = L { n: n.parse().unwrap(), cur: 0, m: Some(m), els: *br == "else" };
            l.visit_block_mut(&mut f.block);
            l.m.is_none()
        }
        _ => panic!("unknown ghost position {}", at),
    }
}

enum Target {
    Call(String, usize),
    Let(String, usize),
    Assign(String, usize),
    Loop(usize),
}

fn stmt_insert(f: &mut ImplItemFn, t: &Target, before: bool, m: Stmt) -> bool {
    // count the matches in a statement outside nested blocks
    struct C<'a>(&'a Target, usize);
    impl<'a, 'ast> Visit<'ast> for C<'a> {
        fn visit_block(&mut self, _b: &'ast Block) {}
        fn visit_expr(&mut self, e: &'ast Expr) {
            match (self.0, e) {
                (Target::Call(n, _), Expr::MethodCall(m)) if m.method == n => self.1 += 1,
                (Target::Call(n, _), Expr::Call(c)) => {
                    if let Expr::Path(p) = &*c.func {
                        if p.path.segments.last().map_or(false, |s| s.ident == n) {
                            self.1 += 1;
                        }
                    }
                }
                (Target::Assign(n, _), Expr::Assign(a)) if a.left.to_token_stream().to_string().replace(' ', "") == *n => self.1 += 1,
                (Target::Assign(n, _), Expr::Binary(a)) if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) && a.left.to_token_stream().to_string().replace(' ', "") == *n => self.1 += 1,
                (Target::Loop(_), Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) => self.1 += 1,
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
        fn visit_local(&mut self, l: &'ast Local) {
            if let Target::Let(n, _) = self.0 {
                struct P<'b>(&'b str, bool);
                impl<'b, 'ast> Visit<'ast> for P<'b> {
                    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                        if p.ident == self.0 {
                            self.1 = true;
                        }
                        syn::visit::visit_pat_ident(self, p);
                    }
                }
                let mut p = P(n, false);
                p.visit_pat(&l.pat);
                if p.1 {
                    self.1 += 1;
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    struct V<'a> {
        t: &'a Target,
        k: usize,
        seen: usize,
        before: bool,
        m: Option<Stmt>,
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                if self.m.is_none() {
                    return;
                }
                let mut c = C(self.t, 0);
                c.visit_stmt(&b.stmts[i]);
                if c.1 > 0 && self.seen + c.1 > self.k {
                    let is_tail = i + 1 == b.stmts.len() && matches!(&b.stmts[i], Stmt::Expr(e, None) if !matches!(e, Expr::ForLoop(_)|Expr::While(_)|Expr::If(_)));
                    if self.before {
                        b.stmts.insert(i, self.m.take().unwrap());
                    } else if !is_tail {
                        b.stmts.insert(i + 1, self.m.take().unwrap());
                    }
                    return;
                }
                self.seen += c.1;
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                i += 1;
            }
        }
    }
    let k = match t {
        Target::Call(_, k) | Target::Let(_, k) | Target::Assign(_, k) | Target::Loop(k) => *k,
    };
    let mut v = V { t, k, seen: 0, before, m: Some(m) };
    v.visit_block_mut(&mut f.block);
    v.m.is_none()
}

// ------------------------------------------------------------------ inlining of new helpers
pub struct Inline<'a> {
    pub newf: &'a BTreeMap<String, Found>,
    pub done: Vec<String>,
    pub n: usize,
    pub self_ty: Option<String>,
    // the call is the whole of a body: `return` in the called function is a `return` of this body
    pub whole: bool,
}

fn inlinable(f: &ImplItemFn) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _e: &'ast ExprReturn) {
            self.0 = false;
        }
        fn visit_expr_try(&mut self, _e: &'ast ExprTry) {
            self.0 = false;
        }
        fn visit_expr_closure(&mut self, _e: &'ast ExprClosure) {}
    }
    let mut r = R(true);
    r.visit_block(&f.block);
    r.0
}

impl<'a> Inline<'a> {
    fn expand(&mut self, f: &Found, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if !inlinable(&f.func) && !self.whole {
            return None;
        }
        let mut pre = TokenStream::new();
        let mut lets = TokenStream::new();
        let mut params: Vec<&PatType> = vec![];
        let mut body: TokenStream = {
            let b = &f.func.block;
            quote!(#b)
        };
        let gens = !f.func.sig.generics.params.is_empty();
        self.n += 1;
        for a in &f.func.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let rv = recv.clone()?;
                    let plain = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
                    if !plain {
                        let s = format_ident!("__self{}", self.n);
                        if r.reference.is_some() {
                            if r.mutability.is_some() {
                                pre.extend(quote!(let #s = &mut #rv;));
                            } else {
                                pre.extend(quote!(let #s = &#rv;));
                            }
                        } else {
                            pre.extend(quote!(let #s = #rv;));
                        }
                        body = subst_ident(body, "self", &quote!(#s));
                    }
                }
                FnArg::Typed(t) => params.push(t),
            }
        }
        if params.len() != args.len() {
            return None;
        }
        for (i, (p, a)) in params.iter().zip(args.iter()).enumerate() {
            let v = format_ident!("__a{}_{}", self.n, i);
            pre.extend(quote!(let #v = #a;));
            let (pat, ty) = (&p.pat, &p.ty);
            if gens || self.whole || ty.to_token_stream().to_string().contains("impl") {
                lets.extend(quote!(let #pat = #v;));
            } else {
                lets.extend(quote!(let #pat: #ty = #v;));
            }
        }
        if let (Some(i), true) = (&f.imp, true) {
            body = subst_self(body, &i.self_ty.to_token_stream());
        }
        self.done.push(key.to_string());
        syn::parse2(quote!({ #pre #lets #body })).ok()
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        self.one(e);
        if is_spawn(e) {
            if let Expr::Call(c) = e {
                if let Some(Expr::Closure(k)) = c.args.first_mut() {
                    let tail = match &mut *k.body {
                        Expr::Block(b) if b.block.stmts.len() == 1 => match &mut b.block.stmts[0] {
                            Stmt::Expr(e, _) => e,
                            _ => return,
                        },
                        e => e,
                    };
                    self.whole = true;
                    self.one(tail);
                    self.whole = false;
                }
            }
        }
    }
}
impl<'a> Inline<'a> {
    fn one(&mut self, e: &mut Expr) {
        let n: Option<Expr> = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().cloned().unwrap_or_default();
                    let mut keys = vec![];
                    if segs.len() >= 2 {
                        let t = &segs[segs.len() - 2];
                        if t == "Self" {
                            if let Some(s) = &self.self_ty {
                                keys.push(format!("{}::{}", s, last));
                            }
                        } else {
                            keys.push(format!("{}::{}", t, last));
                        }
                    }
                    keys.push(last);
                    let mut r = None;
                    for k in keys {
                        if let Some(f) = self.newf.get(&k).cloned() {
                            let has_self = f.func.sig.receiver().is_some();
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let recv = if has_self && !args.is_empty() {
                                let a = args.remove(0);
                                Some(match a {
                                    Expr::Reference(r) => *r.expr,
                                    x => x,
                                })
                            } else {
                                None
                            };
                            r = self.expand(&f, &k, recv, args);
                            break;
                        }
                    }
                    r
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let plain_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let mut cand: Option<(String, Found)> = None;
                if plain_self {
                    if let Some(s) = &self.self_ty {
                        let k = format!("{}::{}", s, name);
                        if let Some(f) = self.newf.get(&k) {
                            cand = Some((k, f.clone()));
                        }
                    }
                } else {
                    let suff = format!("::{}", name);
                    let v: Vec<_> = self.newf.iter().filter(|(k, _)| k.ends_with(&suff)).collect();
                    if v.len() == 1 {
                        cand = Some((v[0].0.clone(), v[0].1.clone()));
                    }
                }
                cand.and_then(|(k, f)| {
                    let recv = (*m.receiver).clone();
                    let args = m.args.iter().cloned().collect();
                    self.expand(&f, &k, Some(recv), args)
                })
            }
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}
