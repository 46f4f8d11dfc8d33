//! Token printer: prints a token stream keeping the line structure of the source,
//! replacing the weaver's markers by contract text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub line: usize,                    // current output line (1-based)
    pub src_line: usize,                // last source line
    pub map: Vec<(usize, usize)>,       // (out line, src line)
    pub texts: &'a [String],
    glue: bool,
}

impl<'a> Printer<'a> {
    pub fn new(texts: &'a [String]) -> Self {
        Self { out: String::new(), line: 1, src_line: 0, map: Vec::new(), texts, glue: true }
    }
    pub fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn nl(&mut self) {
        self.raw("\n");
        self.glue = true;
    }
    fn tok(&mut self, s: &str, src: usize) {
        if src != 0 && src != self.src_line {
            if !self.out.ends_with('\n') {
                self.raw("\n");
            }
            self.src_line = src;
            self.map.push((self.line, src));
            self.glue = true;
        }
        if !self.glue {
            self.out.push(' ');
        }
        self.raw(s);
        self.glue = false;
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // markers
            if let TokenTree::Ident(id) = &v[i] {
                let name = id.to_string();
                if name == "__vghost" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let n: usize = g.stream().to_string().parse().unwrap();
                        self.raw("\n");
                        let t = self.texts[n].clone();
                        self.raw(&t);
                        self.raw("\n");
                        self.glue = true;
                        i += 3;
                        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                            i += 1;
                        }
                        continue;
                    }
                }
                if name == "__vit" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        // __vit!{ name , expr }
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let nm = inner[0].to_string();
                        self.tok(&format!("{} :", nm), 0);
                        let rest: TokenStream = inner[2..].iter().cloned().collect();
                        self.stream(rest);
                        i += 3;
                        continue;
                    }
                }
                if name == "__vraw" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                        let n: usize = g.stream().to_string().parse().unwrap();
                        let t = self.texts[n].clone();
                        self.tok(&t, 0);
                        i += 3;
                        continue;
                    }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if g.delimiter() == Delimiter::Brace {
                        if let Some(TokenTree::Ident(id)) = inner.first() {
                            if id == "__vclause" {
                                if let TokenTree::Group(gg) = &inner[2] {
                                    let n: usize = gg.stream().to_string().parse().unwrap();
                                    self.raw("\n");
                                    let t = self.texts[n].clone();
                                    self.raw(&t);
                                    self.raw("\n");
                                    self.glue = true;
                                }
                                inner.drain(0..3);
                                if matches!(inner.first(), Some(TokenTree::Punct(p)) if p.as_char() == ';')
                                {
                                    inner.remove(0);
                                }
                            }
                        }
                    }
                    let open = g.span_open().start();
                    let src = if open.line > 0 && g.span_open().byte_range().len() > 0 { open.line } else { 0 };
                    self.tok(o, src);
                    self.stream(inner.into_iter().collect());
                    let close = g.span_close().start();
                    let src = if close.line > 0 && g.span_close().byte_range().len() > 0 { close.line } else { 0 };
                    self.tok(c, src);
                }
                TokenTree::Punct(p) => {
                    let src = lineof(p.span());
                    self.tok(&p.as_char().to_string(), src);
                    if p.spacing() == Spacing::Joint || p.as_char() == '\'' {
                        self.glue = true;
                    }
                }
                t => {
                    let src = lineof(t.span());
                    self.tok(&t.to_string(), src);
                }
            }
            i += 1;
        }
    }
}

fn lineof(s: proc_macro2::Span) -> usize {
    if s.byte_range().len() == 0 {
        0
    } else {
        s.start().line
    }
}
