//! weave: mechanically extracts functions and types of the repository under check and
//! splices the contracts of a unit file into them, producing one Verus file.
//!
//! usage: weave --repo DIR --unit FILE --out FILE.rs --map FILE.json [--baseline FILE]
//!              [--update-baseline] [--probe]
mod printer;
mod regexes;
mod rules;
use proc_macro2::TokenStream;
use printer::Printer;
use syn::visit_mut::VisitMut;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use syn::visit::Visit;

pub struct SrcFile {
    pub rel: String,
    pub ast: syn::File,
}

#[derive(Clone)]
pub struct Found {
    pub rel: String,
    pub line: usize,
    pub imp: Option<syn::ItemImpl>, // header (items removed)
    pub func: syn::ImplItemFn,
}

fn collect_rs(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            collect_rs(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

fn is_test_mod(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && (s.contains("test") || s.contains("termimad_verif"))
    })
}

// the features of the default build
fn default_features(repo: &str) -> Vec<String> {
    let t = fs::read_to_string(Path::new(repo).join("Cargo.toml")).unwrap_or_default();
    let mut sec = String::new();
    for l in t.lines() {
        let l = l.trim();
        if l.starts_with('[') {
            sec = l.to_string();
        }
        if sec == "[features]" && l.starts_with("default") {
            return l.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect();
        }
    }
    Vec::new()
}
// #[cfg(feature = "x")] and #[cfg(not(feature = "x"))] are resolved for the default features
struct Features<'a>(&'a [String]);
impl Features<'_> {
    // None: no feature condition
    fn eval(&self, attrs: &[syn::Attribute]) -> Option<bool> {
        let mut r = None;
        for a in attrs {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            if let Some(x) = s.strip_prefix("cfg(feature=\"").and_then(|x| x.strip_suffix("\")")) {
                r = Some(r.unwrap_or(true) && self.0.iter().any(|f| f == x));
            } else if let Some(x) = s.strip_prefix("cfg(not(feature=\"").and_then(|x| x.strip_suffix("\"))")) {
                r = Some(r.unwrap_or(true) && !self.0.iter().any(|f| f == x));
            }
        }
        r
    }
    fn clean(attrs: &mut Vec<syn::Attribute>) {
        attrs.retain(|a| !a.meta.to_token_stream().to_string().replace(' ', "").contains("feature="));
    }
}
fn expr_attrs(e: &mut syn::Expr) -> Option<&mut Vec<syn::Attribute>> {
    use syn::Expr::*;
    Some(match e {
        ForLoop(x) => &mut x.attrs,
        While(x) => &mut x.attrs,
        Loop(x) => &mut x.attrs,
        Block(x) => &mut x.attrs,
        If(x) => &mut x.attrs,
        Match(x) => &mut x.attrs,
        Call(x) => &mut x.attrs,
        MethodCall(x) => &mut x.attrs,
        Macro(x) => &mut x.attrs,
        Assign(x) => &mut x.attrs,
        Return(x) => &mut x.attrs,
        Try(x) => &mut x.attrs,
        Path(x) => &mut x.attrs,
        Binary(x) => &mut x.attrs,
        _ => return None,
    })
}
impl VisitMut for Features<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let me = &*self;
        b.stmts.retain_mut(|s| {
            let a = match s {
                syn::Stmt::Local(l) => Some(&mut l.attrs),
                syn::Stmt::Macro(m) => Some(&mut m.attrs),
                syn::Stmt::Expr(e, _) => expr_attrs(e),
                _ => None,
            };
            match a {
                Some(a) => match me.eval(a) {
                    Some(false) => false,
                    Some(true) => { Features::clean(a); true }
                    None => true,
                },
                None => true,
            }
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
        let keep: Vec<syn::FieldValue> = e.fields.iter().filter(|f| self.eval(&f.attrs) != Some(false)).cloned()
            .map(|mut f| { Features::clean(&mut f.attrs); f }).collect();
        e.fields = keep.into_iter().collect();
        syn::visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, e: &mut syn::ExprMatch) {
        e.arms.retain_mut(|a| match self.eval(&a.attrs) { Some(false) => false, Some(true) => { Features::clean(&mut a.attrs); true } None => true });
        syn::visit_mut::visit_expr_match_mut(self, e);
    }
    fn visit_fields_named_mut(&mut self, n: &mut syn::FieldsNamed) {
        let keep: Vec<syn::Field> = n.named.iter().filter(|f| self.eval(&f.attrs) != Some(false)).cloned()
            .map(|mut f| { Features::clean(&mut f.attrs); f }).collect();
        n.named = keep.into_iter().collect();
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        i.items.retain_mut(|x| match x {
            syn::ImplItem::Fn(f) => match self.eval(&f.attrs) { Some(false) => false, Some(true) => { Features::clean(&mut f.attrs); true } None => true },
            _ => true,
        });
        syn::visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.items.retain(|i| match i {
            syn::Item::Fn(x) => self.eval(&x.attrs) != Some(false),
            syn::Item::Impl(x) => self.eval(&x.attrs) != Some(false),
            syn::Item::Struct(x) => self.eval(&x.attrs) != Some(false),
            _ => true,
        });
        syn::visit_mut::visit_file_mut(self, f);
    }
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn impl_key(i: &syn::ItemImpl) -> String {
    let t = ty_name(&i.self_ty);
    if let Some((_, p, _)) = &i.trait_ {
        let tr = p.to_token_stream().to_string().replace(' ', "");
        format!("<{} for {}>", tr, t)
    } else {
        t
    }
}

fn walk_items<'a>(items: &'a [syn::Item], f: &mut dyn FnMut(&'a syn::Item)) {
    for it in items {
        f(it);
        if let syn::Item::Mod(m) = it {
            if is_test_mod(&m.attrs) {
                continue;
            }
            if let Some((_, its)) = &m.content {
                walk_items(its, f);
            }
        }
    }
}

/// replace `m!(name);` in an impl by the methods it stands for, when m is a macro of the
/// same file with one arm `($x:ident) => { .. }`
fn expand_method_macros(f: &mut syn::File) {
    use proc_macro2::{Delimiter, Group, TokenTree};
    fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<TokenStream> {
        match t { Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream()), _ => None }
    }
    fn subst(ts: TokenStream, var: &str, arg: &TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '$' && id == var => {
                    out.extend(arg.clone());
                    i += 1;
                }
                (TokenTree::Group(g), _) => {
                    let mut ng = Group::new(g.delimiter(), subst(g.stream(), var, arg));
                    ng.set_span(g.span());
                    out.extend([TokenTree::Group(ng)]);
                }
                (t, _) => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    let mut macs: BTreeMap<String, (String, TokenStream)> = BTreeMap::new();
    for it in &f.items {
        if let syn::Item::Macro(m) = it {
            let Some(name) = &m.ident else { continue };
            let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let (Some(pat), Some(body)) = (group(v.first(), Delimiter::Parenthesis), group(v.get(3), Delimiter::Brace)) else { continue };
            if v.len() > 5 { continue; }
            let p: Vec<String> = pat.into_iter().map(|t| t.to_string()).collect();
            if p.len() == 4 && p[0] == "$" && p[2] == ":" && p[3] == "ident" {
                macs.insert(name.to_string(), (p[1].clone(), body));
            }
        }
    }
    if macs.is_empty() { return; }
    for it in f.items.iter_mut() {
        if let syn::Item::Impl(im) = it {
            let mut out = Vec::new();
            for x in im.items.drain(..) {
                if let syn::ImplItem::Macro(m) = &x {
                    let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if let Some((var, body)) = macs.get(&n) {
                        let exp = subst(body.clone(), var, &m.mac.tokens);
                        let hdr: Result<syn::ItemImpl, _> = syn::parse2(quote!(impl X { #exp }));
                        if let Ok(h) = hdr {
                            out.extend(h.items);
                            continue;
                        }
                    }
                }
                out.push(x);
            }
            im.items = out;
        }
    }
}

/// all functions of a file, as (key, Found)
fn fns_of(sf: &SrcFile) -> Vec<(String, Found)> {
    let mut out = Vec::new();
    walk_items(&sf.ast.items, &mut |it| match it {
        syn::Item::Fn(f) => {
            if is_test_mod(&f.attrs) {
                return;
            }
            out.push((
                f.sig.ident.to_string(),
                Found {
                    rel: sf.rel.clone(),
                    line: f.sig.ident.span().start().line,
                    imp: None,
                    func: syn::ImplItemFn {
                        attrs: f.attrs.clone(),
                        vis: f.vis.clone(),
                        defaultness: None,
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                    },
                },
            ));
        }
        syn::Item::Impl(i) => {
            if is_test_mod(&i.attrs) {
                return;
            }
            let k = impl_key(i);
            let mut hdr = i.clone();
            hdr.items.clear();
            for x in &i.items {
                if let syn::ImplItem::Fn(f) = x {
                    out.push((
                        format!("{}::{}", k, f.sig.ident),
                        Found {
                            rel: sf.rel.clone(),
                            line: f.sig.ident.span().start().line,
                            imp: Some(hdr.clone()),
                            func: f.clone(),
                        },
                    ));
                }
            }
        }
        syn::Item::Trait(t) => {
            for x in &t.items {
                if let syn::TraitItem::Fn(f) = x {
                    if let Some(b) = &f.default {
                        out.push((
                            format!("{}::{}", t.ident, f.sig.ident),
                            Found {
                                rel: sf.rel.clone(),
                                line: f.sig.ident.span().start().line,
                                imp: None,
                                func: syn::ImplItemFn {
                                    attrs: f.attrs.clone(),
                                    vis: syn::Visibility::Inherited,
                                    defaultness: None,
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                },
                            },
                        ));
                    }
                }
            }
        }
        _ => {}
    });
    out
}

// ---------------------------------------------------------------- json (tiny writer/reader)
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- binding names
struct Binds(Vec<String>);
impl<'ast> Visit<'ast> for Binds {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
pub fn bindings(f: &syn::ImplItemFn) -> Vec<String> {
    let mut b = Binds(Vec::new());
    b.visit_signature(&f.sig);
    b.visit_block(&f.block);
    b.0
}

/// map of renamed bindings: an old name which vanished against a new one which
/// appeared at the same place of the binding sequence (LCS gaps of equal length)
fn rename_map(old: &[String], new: &[String]) -> BTreeMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut go: Vec<&String> = vec![];
    let mut gn: Vec<&String> = vec![];
    let mut map = BTreeMap::new();
    let oldset: BTreeSet<_> = old.iter().collect();
    let newset: BTreeSet<_> = new.iter().collect();
    let mut flush = |go: &mut Vec<&String>, gn: &mut Vec<&String>| {
        if go.len() == gn.len() {
            for (a, b) in go.iter().zip(gn.iter()) {
                if !newset.contains(*a) && !oldset.contains(*b) {
                    map.entry((*a).clone()).or_insert((*b).clone());
                }
            }
        }
        go.clear();
        gn.clear();
    };
    while i < n || j < m {
        if i < n && j < m && old[i] == new[j] {
            flush(&mut go, &mut gn);
            i += 1;
            j += 1;
        } else if j >= m || (i < n && l[i + 1][j] >= l[i][j + 1]) {
            go.push(&old[i]);
            i += 1;
        } else {
            gn.push(&new[j]);
            j += 1;
        }
    }
    flush(&mut go, &mut gn);
    map
}

fn subst_idents(s: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return s.to_string();
    }
    let ch: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < ch.len() {
        if ch[i].is_alphabetic() || ch[i] == '_' {
            let st = i;
            while i < ch.len() && (ch[i].is_alphanumeric() || ch[i] == '_') {
                i += 1;
            }
            let w: String = ch[st..i].iter().collect();
            let prev = if st > 0 { ch[st - 1] } else { ' ' };
            let dotted = prev == '.' && !(st > 1 && ch[st - 2] == '.');
            match map.get(&w) {
                Some(n) if !dotted => o.push_str(n),
                _ => o.push_str(&w),
            }
        } else {
            o.push(ch[i]);
            i += 1;
        }
    }
    o
}

// ---------------------------------------------------------------- unit directives
#[derive(Default, Clone)]
pub struct FnDir {
    pub file: String,
    pub key: String,
    pub as_name: Option<String>,
    pub free: bool, // emit as a free function
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub ghosts: Vec<(String, String)>,
    pub rules: Vec<String>,
    pub header: Option<String>, // replaces the impl header
    pub sig: Option<String>,    // replaces generics/params/where (types only; body untouched)
    pub line: usize,
    pub noprobe: bool,
    pub assumed: bool, // proved in another unit
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let repo = get("--repo").expect("--repo");
    let unit = get("--unit").expect("--unit");
    let out = get("--out").expect("--out");
    let mapf = get("--map").expect("--map");
    let basef = get("--baseline");
    let update = args.iter().any(|a| a == "--update-baseline");
    let probe = args.iter().any(|a| a == "--probe");

    // ------- sources
    let mut files: Vec<SrcFile> = Vec::new();
    let mut lines: Vec<String> = Vec::new();
    read_unit(Path::new(&unit), &mut lines);
    let unit_text = lines.join("\n");
    let features = default_features(&repo);
    let mut load = |root: &str, prefix: &str, want: &dyn Fn(&str) -> bool| {
        let mut v = Vec::new();
        collect_rs(&Path::new(root).join("src"), &mut v);
        for p in v {
            if !want(&format!("{}{}", prefix, p.strip_prefix(root).unwrap().display())) {
                continue;
            }
            let txt = fs::read_to_string(&p).unwrap_or_default();
            match syn::parse_file(&txt) {
                Ok(mut ast) => {
                    if prefix.is_empty() {
                        Features(&features).visit_file_mut(&mut ast);
                        expand_method_macros(&mut ast);
                    }
                    files.push(SrcFile {
                    rel: format!("{}{}", prefix, p.strip_prefix(root).unwrap().display()),
                    ast,
                    })
                }
                Err(e) => {
                    eprintln!("weave: cannot parse {}: {}", p.display(), e);
                }
            }
        }
    };
    load(&repo, "", &|_| true);
    if let Some(d) = get("--dep") {
        // name=path; only the files the unit mentions are read
        for d in d.split(',') {
            let (n, p) = d.split_once('=').unwrap();
            let pre = format!("{}:", n);
            load(p, &pre, &|rel| unit_text.contains(&format!(" {} ", rel)));
        }
    }
    let mut all: BTreeMap<String, Vec<Found>> = BTreeMap::new();
    let mut all_names: BTreeSet<String> = BTreeSet::new();
    for sf in &files {
        for (k, f) in fns_of(sf) {
            all_names.insert(k.clone());
            all.entry(k).or_default().push(f);
        }
    }
    // ------- baseline
    let base: Baseline = basef.as_ref().and_then(|f| fs::read_to_string(f).ok()).map(|s| Baseline::parse(&s)).unwrap_or_default();
    let mut newbase = base.clone();
    newbase.fns = all_names.iter().cloned().collect();

    // ------- unit
    let mut o = String::new();
    let mut fmeta: Vec<String> = Vec::new();
    let mut problems: Vec<String> = Vec::new();
    let mut i = 0;
    let mut consts_done: BTreeSet<String> = BTreeSet::new();
    let whole = lines.join("\n");
    let mut deferred_consts = String::new();
    while i < lines.len() {
        let l = lines[i].trim_start().to_string();
        if let Some(rest) = l.strip_prefix("//@type ") {
            let parts: Vec<&str> = rest.split_whitespace().collect();
            match emit_type(&files, parts[0], parts[1], &parts[2..]) {
                Ok(s) => o.push_str(&s),
                Err(e) => problems.push(e),
            }
            i += 1;
        } else if let Some(rest) = l.strip_prefix("//@const ") {
            // with a spec: the constant isn't usable in specs, and what's said of it is proved
            let (head, spec) = match rest.split_once(" | ") { Some((h, s)) => (h, Some(s)), None => (rest, None) };
            let parts: Vec<&str> = head.split_whitespace().collect();
            let emitted = emit_const(&files, parts[0], parts[1]).map(|s| match spec {
                Some(spec) => {
                    let (decl, value) = s.split_once(" = ").unwrap();
                    format!("{}\n    ensures {spec}\n{{ {} }}\n", decl.replacen("const", "exec const", 1), value.trim().trim_end_matches(';'))
                }
                None => s,
            });
            match emitted {
                Some(s) => {
                    consts_done.insert(parts[1].to_string());
                    o.push_str(&s)
                }
                None => problems.push(format!("const {} {} not found", parts[0], parts[1])),
            }
            i += 1;
        } else if let Some(rest) = l.strip_prefix("//@lazy ") {
            // a static initialized lazily: the initializer is verified against the spec, which
            // is assumed of what the static dereferences to
            let (head, spec) = rest.split_once(" | ").expect("//@lazy file NAME Type | spec");
            let parts: Vec<&str> = head.split_whitespace().collect();
            let mut found = None;
            for sf in files.iter().filter(|s| s.rel == parts[0]) {
                walk_items(&sf.ast.items, &mut |it| {
                    if let syn::Item::Static(c) = it {
                        if c.ident == parts[1] {
                            if let syn::Expr::Call(call) = &*c.expr {
                                if let Some(syn::Expr::Closure(cl)) = call.args.first() {
                                    let b = &cl.body;
                                    found = Some(quote!(#b).to_string());
                                }
                            }
                        }
                    }
                });
            }
            match found {
                Some(b) => {
                    rules::LAZIES.with(|l| l.borrow_mut().insert(parts[1].to_string()));
                    o.push_str(&format!(
                        "pub fn vrt_init_{n}() -> (r: {t})\n    ensures {spec},\n{{ {b} }}\n#[verifier::external_body]\npub fn vrt_lazy_{n}() -> (r: &'static {t})\n    ensures {spec},\n{{ unimplemented!() }}\n",
                        n = parts[1], t = parts[2]));
                }
                None => problems.push(format!("static {} {} not found", parts[0], parts[1])),
            }
            i += 1;
        } else if let Some(rest) = l.strip_prefix("//@fn ") {
            let mut d = FnDir::default();
            d.line = i;
            let (file, key) = rest.trim().split_once(' ').expect("//@fn file key");
            d.file = file.to_string();
            d.key = key.trim().to_string();
            i += 1;
            let mut cur: Option<String> = None;
            let mut buf = String::new();
            loop {
                let ll = lines.get(i).cloned().unwrap_or_else(|| "//@endfn".into());
                let t = ll.trim_start();
                if let Some(dd) = t.strip_prefix("//@") {
                    if let Some(c) = cur.take() {
                        store(&mut d, &c, std::mem::take(&mut buf));
                    }
                    buf.clear();
                    i += 1;
                    if dd.starts_with("endfn") {
                        break;
                    }
                    cur = Some(dd.trim().to_string());
                } else {
                    buf.push_str(&ll);
                    buf.push('\n');
                    i += 1;
                }
            }
            let start_line = o.matches('\n').count() + 1;
            match emit_fn(&all, &d, &base, &mut newbase, probe) {
                Ok(e) => {
                    // auto-extract constants of the same file which are referenced
                    for sf in files.iter().filter(|s| s.rel == e.rel) {
                        walk_items(&sf.ast.items, &mut |it| {
                            if let syn::Item::Const(c) = it {
                                let n = c.ident.to_string();
                                let re = has_ident(&e.text, &n);
                                if re && !consts_done.contains(&n) && !whole.contains(&format!("const {}", n)) {
                                    consts_done.insert(n.clone());
                                    let ty = &c.ty;
                                    let ex = &c.expr;
                                    if !quote!(#ty).to_string().contains("str") {
                                        let id = &c.ident;
                                        deferred_consts.push_str(&format!("pub const {}\n", quote!(#id : #ty = #ex;)));
                                    }
                                }
                            }
                        });
                    }
                    let mut m = e.map.clone();
                    for x in m.iter_mut() {
                        x.0 += start_line - 1;
                    }
                    o.push_str(&e.text);
                    let end_line = o.matches('\n').count() + 1;
                    if !d.assumed { fmeta.push(format!(
                        "{{\"key\":{},\"name\":{},\"file\":{},\"src_line\":{},\"start\":{},\"end\":{},\"lost\":{},\"renamed\":{},\"inlined\":{},\"rules\":{},\"shape\":{},\"shape_changed\":{},\"sig_changed\":{},\"text_changed\":{},\"contracted\":{},\"noprobe\":{},\"map\":[{}]}}",
                        jstr(&d.key), jstr(&e.name), jstr(&e.rel), e.line, start_line, end_line,
                        jarr(&e.lost), jarr(&e.renamed), jarr(&e.inlined), jarr(&e.rules), jstr(&e.shape),
                        e.shape_changed, e.sig_changed, e.text_changed, !d.spec.trim().is_empty(), d.noprobe,
                        m.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(",")
                    )); }
                }
                Err(e) => problems.push(e),
            }
        } else {
            o.push_str(&lines[i]);
            o.push('\n');
            i += 1;
        }
    }
    if !deferred_consts.is_empty() {
        // at the end, in its own verus! block
        o.push_str(&format!("\nverus! {{\n{}\n}}\n", deferred_consts));
    }
    fs::write(&out, &o).unwrap();
    fs::write(&mapf, format!("{{\"functions\":[{}],\"problems\":{}}}", fmeta.join(",\n"), jarr(&problems))).unwrap();
    if update {
        fs::write(basef.unwrap(), newbase.dump()).unwrap();
    }
    if !problems.is_empty() {
        eprintln!("weave: {}", problems.join("; "));
    }
}

fn has_ident(text: &str, id: &str) -> bool {
    let mut from = 0;
    while let Some(p) = text[from..].find(id) {
        let a = from + p;
        let b = a + id.len();
        let okb = a == 0 || !text[..a].ends_with(|c: char| c.is_alphanumeric() || c == '_');
        let oka = !text[b..].starts_with(|c: char| c.is_alphanumeric() || c == '_');
        if okb && oka {
            return true;
        }
        from = b;
    }
    false
}

fn read_unit(p: &Path, out: &mut Vec<String>) {
    let s = fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
    for l in s.lines() {
        if let Some(inc) = l.trim_start().strip_prefix("//@include ") {
            read_unit(&p.parent().unwrap().join(inc.trim()), out);
        } else if let Some(inc) = l.trim_start().strip_prefix("//@import ") {
            // the contracts only: the functions and lemmas are proved in another unit
            let mut inner = Vec::new();
            read_unit(&p.parent().unwrap().join(inc.trim()), &mut inner);
            for l in inner {
                let t = l.trim_start();
                if t.starts_with("//@fn ") {
                    out.push(l);
                    out.push("//@assumed".to_string());
                } else if t.starts_with("pub proof fn ") || t.starts_with("proof fn ") || t.starts_with("pub broadcast proof fn ") {
                    out.push(format!("#[verifier::external_body] {}", l));
                } else {
                    out.push(l);
                }
            }
        } else {
            out.push(l.to_string());
        }
    }
}

fn store(d: &mut FnDir, c: &str, buf: String) {
    let w: Vec<&str> = c.split_whitespace().collect();
    match w[0] {
        "ret" => d.ret = Some(w[1].to_string()),
        "as" => d.as_name = Some(w[1].to_string()),
        "free" => d.free = true,
        "noprobe" => d.noprobe = true,
        "assumed" => d.assumed = true,
        "spec" => d.spec = buf,
        "attrs" => d.attrs = format!("{}\n{}", c["attrs".len()..].trim(), buf),
        "header" => d.header = Some(c["header".len()..].trim().to_string()),
        "sig" => d.sig = Some(c["sig".len()..].trim().to_string()),
        "loop" => {
            d.loops.insert(w[1].parse().unwrap(), (w.get(2).map(|s| s.to_string()), buf));
        }
        "at" => d.ghosts.push((c["at".len()..].trim().to_string(), buf)),
        "rule" => d.rules.push(c["rule".len()..].trim().to_string()),
        x => panic!("unknown directive {}", x),
    }
}

fn emit_const(files: &[SrcFile], file: &str, name: &str) -> Option<String> {
    let mut r = None;
    for pass in 0..2 {
        for sf in files {
            if pass == 0 && sf.rel != file {
                continue;
            }
            walk_items(&sf.ast.items, &mut |it| {
                if let syn::Item::Const(c) = it {
                    if c.ident == name && r.is_none() {
                        let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                        r = Some(format!("pub const {}\n", quote!(#id : #ty = #ex;)));
                    }
                }
                if let syn::Item::Static(c) = it {
                    if c.ident == name && r.is_none() {
                        let (id, ty, ex) = (&c.ident, &c.ty, &c.expr);
                        let t = quote!(#ty).to_string().replace("& str", "&'static str");
                        let ts = match t.strip_prefix("& ") { Some(x) if !x.trim_start().starts_with("'") => format!("&'static {}", x), _ => t }; r = Some(format!("pub const {}: {} = {};\n", id, ts, quote!(#ex)));
                    }
                }
            });
        }
        if r.is_some() {
            break;
        }
    }
    r
}

fn emit_type(files: &[SrcFile], file: &str, name: &str, opts: &[&str]) -> Result<String, String> {
    let mut item: Option<syn::Item> = None;
    for pass in 0..2 {
        for sf in files {
            if pass == 0 && sf.rel != file {
                continue;
            }
            if pass == 1 && item.is_some() {
                break;
            }
            walk_items(&sf.ast.items, &mut |it| match it {
                syn::Item::Struct(s) if s.ident == name && item.is_none() => item = Some(it.clone()),
                syn::Item::Enum(s) if s.ident == name && item.is_none() => item = Some(it.clone()),
                _ => {}
            });
        }
    }
    if item.is_none() {
        // a type declared inside a function body
        for sf in files.iter().filter(|s| s.rel == file) {
            struct F<'a>(&'a str, Option<syn::Item>);
            impl<'a, 'ast> Visit<'ast> for F<'a> {
                fn visit_item_struct(&mut self, s: &'ast syn::ItemStruct) {
                    if s.ident == self.0 {
                        self.1 = Some(syn::Item::Struct(s.clone()));
                    }
                }
            }
            let mut f = F(name, None);
            f.visit_file(&sf.ast);
            item = f.1;
        }
    }
    if item.is_none() {
        // an enum declared by a macro of its name: Name! { A = expr, B = expr, }
        for sf in files.iter().filter(|s| s.rel == file) {
            for it in &sf.ast.items {
                if let syn::Item::Macro(m) = it {
                    if m.ident.is_none() && m.mac.path.is_ident(name) {
                        let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
                        let mut vs = vec![];
                        for w in toks.windows(2) {
                            if let (proc_macro2::TokenTree::Ident(i), proc_macro2::TokenTree::Punct(p)) = (&w[0], &w[1]) {
                                if p.as_char() == '=' {
                                    vs.push(i.to_string());
                                }
                            }
                        }
                        item = syn::parse_str::<syn::Item>(&format!("enum {} {{ {} }}", name, vs.join(", "))).ok();
                    }
                }
            }
        }
    }
    let mut item = item.ok_or(format!("type {} {} not found", file, name))?;
    let mut derive = String::new();
    let mut drop: Vec<String> = vec![];
    let mut attrs = String::new();
    let mut retype: Vec<(String, syn::Type)> = vec![];
    for op in opts {
        if let Some(x) = op.strip_prefix("derive=") {
            derive = format!("#[derive({})]\n", x);
        }
        if let Some(x) = op.strip_prefix("drop=") {
            drop = x.split(',').map(|s| s.to_string()).collect();
        }
        if let Some(x) = op.strip_prefix("retype=") {
            for r in x.split(';') {
                let (f, ty) = r.split_once(':').unwrap();
                retype.push((f.to_string(), syn::parse_str(ty).map_err(|e| format!("retype {}: {}", ty, e))?));
            }
        }
        if *op == "external" {
            attrs = "#[verifier::external_body]\n".into();
        }
    }
    // mechanical expansions of derived PartialOrd / Default (by field order)
    let mut expansion = String::new();
    if let syn::Item::Struct(s) = &item {
        let derives: String = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
        let fields: Vec<(String, String)> = s.fields.iter().enumerate()
            .map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.to_token_stream().to_string().replace(' ', ""))).collect();
        if opts.contains(&"ord") {
            if !derives.contains("PartialOrd") {
                return Err(format!("{} no more derives PartialOrd", name));
            }
            let mut b = String::from("Some(core::cmp::Ordering::Equal)");
            for (f, _) in fields.iter().rev() {
                b = format!("if self.{f} < o.{f} {{ Some(core::cmp::Ordering::Less) }} else if self.{f} > o.{f} {{ Some(core::cmp::Ordering::Greater) }} else {{ {b} }}");
            }
            expansion.push_str(&format!("impl PartialOrd for {name} {{ fn partial_cmp(&self, o: &{name}) -> (r: Option<core::cmp::Ordering>) {{ {b} }} }}\nimpl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<core::cmp::Ordering> {{ {b} }} }}\n"));
        }
        if opts.contains(&"default") {
            if !derives.contains("Default") {
                return Err(format!("{} no more derives Default", name));
            }
            let (mut ex, mut en) = (vec![], vec![]);
            for (f, t) in &fields {
                let (e, q) = if t.starts_with("Vec<") {
                    (format!("{f}: Vec::new()"), format!("r.{f}@.len() == 0"))
                } else if t.starts_with("Option<") {
                    (format!("{f}: None"), format!("r.{f} is None"))
                } else if t == "bool" {
                    (format!("{f}: false"), format!("!r.{f}"))
                } else if ["usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"].contains(&t.as_str()) {
                    (format!("{f}: 0"), format!("r.{f} == 0"))
                } else {
                    (format!("{f}: {t}::default()"), "true".to_string())
                };
                ex.push(e);
                en.push(q);
            }
            expansion.push_str(&format!("impl {name} {{ pub fn default() -> (r: Self) ensures {} {{ {name} {{ {} }} }} }}\n", en.join(", "), ex.join(", ")));
        }
    }
    if opts.contains(&"clone") {
        let (attrs_, gens, id) = match &item {
            syn::Item::Struct(s) => (&s.attrs, &s.generics, &s.ident),
            syn::Item::Enum(s) => (&s.attrs, &s.generics, &s.ident),
            _ => unreachable!(),
        };
        let derives: String = attrs_.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
        if !derives.contains("Clone") {
            return Err(format!("{} no more derives Clone", name));
        }
        let (ig, tg, wc) = gens.split_for_impl();
        expansion.push_str(&format!("impl {} Clone for {} {} {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
            ig.to_token_stream(), id, tg.to_token_stream(), wc.to_token_stream()));
    }
    let mut fix = rules::Paths;
    use syn::visit_mut::VisitMut;
    match &mut item {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            if let syn::Fields::Named(n) = &mut s.fields {
                let keep: Vec<syn::Field> = n
                    .named
                    .iter()
                    .filter(|f| !drop.contains(&f.ident.as_ref().unwrap().to_string()))
                    .cloned()
                    .collect();
                n.named = keep.into_iter().collect();
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
                if let Some((_, ty)) = retype.iter().find(|r| f.ident.as_ref().map_or(false, |i| *i == r.0)) {
                    f.ty = ty.clone();
                }
            }
            fix.visit_item_struct_mut(s);
        }
        syn::Item::Enum(e) => {
            e.attrs.clear();
            e.vis = syn::parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            fix.visit_item_enum_mut(e);
        }
        _ => {}
    }
    let texts = vec![];
    let mut p = Printer::new(&texts);
    p.stream(item.to_token_stream());
    Ok(format!("{}{}{}\n{}", derive, attrs, p.out.trim_start(), expansion))
}

struct Emitted {
    text: String,
    name: String,
    rel: String,
    line: usize,
    lost: Vec<String>,
    renamed: Vec<String>,
    inlined: Vec<String>,
    rules: Vec<String>,
    shape: String,
    shape_changed: bool,
    sig_changed: bool,
    text_changed: bool,
    map: Vec<(usize, usize)>,
}

fn emit_fn(
    all: &BTreeMap<String, Vec<Found>>,
    d: &FnDir,
    base: &Baseline,
    newbase: &mut Baseline,
    probe: bool,
) -> Result<Emitted, String> {
    let cands = all.get(&d.key).ok_or(format!("lost anchor: function {} not found", d.key))?;
    let f = cands
        .iter()
        .find(|f| f.rel == d.file)
        .or_else(|| if cands.len() == 1 { cands.first() } else { None })
        .ok_or(format!("lost anchor: function {} ambiguous", d.key))?
        .clone();
    let mut func = f.func.clone();
    func.attrs.clear();
    func.vis = syn::parse_quote!(pub);
    func.sig.constness = None;

    let bkey = format!("{}|{}{}", d.file, d.key, if d.rules.iter().any(|r| r == "spawned") { "#spawned" } else { "" });
    let raw_binds = bindings(&f.func);
    let raw_text = {
        let mut ff = f.func.clone();
        ff.attrs.clear();
        format!("{:016x}", hash(&ff.to_token_stream().to_string()))
    };
    let sig_text = f.func.sig.inputs.iter().map(|a| match a {
        syn::FnArg::Receiver(r) => r.to_token_stream().to_string(),
        syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
    }).collect::<Vec<_>>().join(",") + &f.func.sig.output.to_token_stream().to_string();

    // --- inlining of functions which do not exist in the baseline
    let mut inlined = Vec::new();
    if !base.fns.is_empty() {
        let newf: BTreeMap<String, Found> = all
            .iter()
            .filter(|(k, v)| !base.fns.contains(*k) && v.len() == 1)
            .map(|(k, v)| (k.clone(), v[0].clone()))
            .collect();
        if !newf.is_empty() {
            for _ in 0..4 {
                let mut inl = rules::Inline { newf: &newf, done: Vec::new(), n: inlined.len(), self_ty: f.imp.as_ref().map(|i| ty_name(&i.self_ty)), whole: false };
                use syn::visit_mut::VisitMut;
                inl.visit_block_mut(&mut func.block);
                if inl.done.is_empty() {
                    break;
                }
                inlined.extend(inl.done);
            }
        }
    }
    // --- rewrite rules
    let mut applied: BTreeSet<String> = BTreeSet::new();
    // `mut self`: a mutable local
    if let Some(syn::FnArg::Receiver(r)) = func.sig.inputs.first_mut() {
        if r.mutability.is_some() && r.reference.is_none() {
            r.mutability = None;
            fn ren(t: TokenStream) -> TokenStream {
                t.into_iter().map(|x| match x {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("__self", i.span())),
                    proc_macro2::TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), ren(g.stream()));
                        n.set_span(g.span());
                        proc_macro2::TokenTree::Group(n)
                    }
                    x => x,
                }).collect()
            }
            let b = &func.block;
            let mut b: syn::Block = syn::parse2(ren(quote!(#b))).map_err(|e| e.to_string())?;
            b.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
            func.block = b;
            applied.insert("mut_self".into());
        }
    }
    rules::apply(&mut func, &d.rules, &mut applied);

    let binds = { let mut b = raw_binds.clone(); if !inlined.is_empty() { b = bindings(&func); } b };
    let shape = rules::loop_shape(&func);
    let (mut shape_changed, mut sig_changed, mut text_changed) = (false, false, false);
    let mut map = BTreeMap::new();
    if let Some(b) = base.get(&bkey) {
        shape_changed = b.shape != shape;
        sig_changed = b.sig != sig_text;
        text_changed = b.text != raw_text;
        map = rename_map(&b.binds, &binds);
    }
    newbase.set(&bkey, BFn { binds: raw_binds.clone(), shape: shape.clone(), sig: sig_text, text: raw_text });

    // --- ghost insertion
    let mut texts: Vec<String> = Vec::new();
    let mut lost: Vec<String> = Vec::new();
    if d.assumed {
        func.block.stmts = vec![syn::Stmt::Expr(syn::parse_quote!(unimplemented!()), None)];
    }
    for (n, (it, cl)) in d.loops.iter().filter(|_| !d.assumed) {
        let idx = texts.len();
        texts.push(subst_idents(cl, &map));
        if !rules::set_loop(&mut func, *n, it.as_deref(), idx) {
            lost.push(format!("loop {}", n));
        }
    }
    for (at, txt) in d.ghosts.iter().filter(|_| !d.assumed) {
        let idx = texts.len();
        texts.push(subst_idents(txt, &map));
        let at2 = subst_idents(at, &map);
        if !rules::insert_ghost(&mut func, &at2, idx) {
            lost.push(at.clone());
        }
    }
    if probe && !d.spec.trim().is_empty() && !d.noprobe && !d.assumed {
        let idx = texts.len();
        texts.push("proof { assert(false); }".into());
        // only the start of the body matters
        func.block.stmts = vec![syn::Stmt::Expr(syn::parse_quote!(vstd::pervasive::unreached()), None)];
        rules::insert_ghost(&mut func, "body-start", idx);
    }
    // spec clause before the body
    let idx = texts.len();
    texts.push(subst_idents(&d.spec, &map));
    let st: syn::Stmt = rules::marker("__vclause", idx);
    func.block.stmts.insert(0, st);

    // --- signature
    let name = d.as_name.clone().unwrap_or_else(|| func.sig.ident.to_string());
    let mut p = Printer::new(&texts);
    let mut tail = String::new();
    let hdr_self = f.imp.as_ref().map(|i| (*i.self_ty).clone());
    if !d.free {
        if let Some(h) = &d.header {
            p.raw(&format!("{} {{\n", h));
            tail.push_str("}\n");
        } else if let Some(mut imp) = f.imp.clone() {
            imp.attrs.clear();
            use syn::visit_mut::VisitMut;
            rules::Paths.visit_item_impl_mut(&mut imp);
            if d.as_name.is_some() {
                imp.trait_ = None;
            }
            if imp.trait_.is_some() {
                func.vis = syn::Visibility::Inherited;
            }
            // drop anonymous lifetimes, verus copes with them
            let g = &imp.generics;
            let (ig, _, wh) = g.split_for_impl();
            let tr = imp.trait_.as_ref().map(|(_, p, f)| quote!(#p #f)).unwrap_or_default();
            let st = &imp.self_ty;
            let s = quote!(impl #ig #tr #st #wh).to_string();
            p.raw(&format!("{} {{\n", s));
            tail.push_str("}\n");
        }
    }
    p.raw(&d.attrs);
    if d.assumed {
        p.raw("#[verifier::external_body]\n");
    }
    let sig = &func.sig;
    let vis = &func.vis;
    let mut gens = sig.generics.clone();
    let wh = gens.where_clause.take();
    let inputs = &sig.inputs;
    let outty = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(t.clone()),
    };
    let nm = quote::format_ident!("{}", name);
    if let Some(s) = &d.sig {
        p.raw(&format!("pub fn {}{} ", name, subst_idents(s, &map)));
    } else {
        let mut inp: TokenStream = quote!(#inputs);
        if d.free {
            if let Some(st) = &hdr_self {
                inp = rules::subst_self(inp, &st.to_token_stream());
            }
        }
        p.stream(quote!(#vis fn #nm #gens (#inp)));
        if let Some(t) = outty {
            let mut t: TokenStream = t.to_token_stream();
            if d.free {
                if let Some(st) = &hdr_self {
                    t = rules::subst_self(t, &st.to_token_stream());
                }
            }
            let r = d.ret.clone().unwrap_or_else(|| "__ret".into());
            let ri = quote::format_ident!("{}", r);
            p.stream(quote!(-> (#ri : #t)));
        }
        if let Some(w) = wh {
            p.stream(quote!(#w));
        }
    }
    let block = &func.block;
    let mut b = quote!(#block);
    if d.free {
        if let Some(st) = &hdr_self {
            b = rules::subst_self(b, &st.to_token_stream());
        }
    }
    p.stream(b);
    p.nl();
    p.raw(&tail);
    Ok(Emitted {
        text: p.out.clone(),
        name,
        rel: f.rel.clone(),
        line: f.line,
        lost,
        renamed: map.iter().map(|(a, b)| format!("{}->{}", a, b)).collect(),
        inlined,
        rules: applied.into_iter().collect(),
        shape,
        shape_changed,
        sig_changed,
        text_changed,
        map: p.map.clone(),
    })
}

// ---------------------------------------------------------------- baseline file
#[derive(Default, Clone)]
struct BFn {
    binds: Vec<String>,
    shape: String,
    sig: String,
    text: String,
}
#[derive(Default, Clone)]
struct Baseline {
    fns: BTreeSet<String>,
    f: BTreeMap<String, BFn>,
}
impl Baseline {
    fn get(&self, k: &str) -> Option<&BFn> {
        self.f.get(k)
    }
    fn set(&mut self, k: &str, v: BFn) {
        self.f.insert(k.into(), v);
    }
    fn dump(&self) -> String {
        let mut s = String::new();
        for x in &self.fns {
            s.push_str(&format!("F\t{}\n", x));
        }
        for (k, b) in &self.f {
            s.push_str(&format!("K\t{}\nB\t{}\nS\t{}\nG\t{}\nT\t{}\n", k, b.binds.join(" "), b.shape, b.sig.replace('\n', " "), b.text));
        }
        s
    }
    fn parse(s: &str) -> Self {
        let mut b = Baseline::default();
        let mut k = String::new();
        for l in s.lines() {
            let (t, v) = l.split_once('\t').unwrap_or((l, ""));
            match t {
                "F" => {
                    b.fns.insert(v.into());
                }
                "K" => {
                    k = v.into();
                    b.f.insert(k.clone(), BFn::default());
                }
                "B" => b.f.get_mut(&k).unwrap().binds = v.split_whitespace().map(|s| s.to_string()).collect(),
                "S" => b.f.get_mut(&k).unwrap().shape = v.into(),
                "G" => b.f.get_mut(&k).unwrap().sig = v.into(),
                "T" => b.f.get_mut(&k).unwrap().text = v.into(),
                _ => {}
            }
        }
        b
    }
}
fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
