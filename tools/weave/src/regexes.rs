//! regexes: a literal of the lazy_regex macros -> the list of its items (see contracts/rx.vrs),
//! which are data given to a ghost matcher. Sequences of chars, classes, greedy repetitions of
//! them, greedy optional groups, named groups around one item; anything else is refused.
use proc_macro2::TokenStream;
use quote::quote;
use regex_syntax::ast::{self, Ast, ClassPerlKind, ClassSetItem, GroupKind, RepetitionKind, RepetitionRange};

pub struct Rx {
    pub start: bool,
    pub items: Vec<TokenStream>,
    pub min: usize,
    pub names: Vec<(String, usize)>,
}

fn small(c: char) -> Option<char> {
    c.is_ascii().then(|| c.to_ascii_lowercase())
}

struct B {
    ci: bool,
    rx: Rx,
    word: Vec<char>,
}

impl B {
    fn flush(&mut self) {
        if !self.word.is_empty() {
            let w = std::mem::take(&mut self.word);
            let ci = self.ci;
            self.rx.items.push(quote!(Rx::W(Seq::empty()#(.push(#w))*, #ci)));
        }
    }
    fn set(&self, a: &Ast) -> Option<(bool, Vec<TokenStream>)> {
        match a {
            Ast::Literal(l) => {
                let c = if self.ci { small(l.c)? } else { l.c };
                Some((false, vec![quote!(Rc::Range(#c, #c))]))
            }
            Ast::ClassPerl(p) => Some((p.negated, vec![perl(&p.kind)])),
            Ast::ClassBracketed(b) => {
                let mut v = vec![];
                match &b.kind {
                    ast::ClassSet::Item(i) => self.class(i, &mut v)?,
                    _ => return None,
                }
                Some((b.negated, v))
            }
            _ => None,
        }
    }
    fn class(&self, i: &ClassSetItem, v: &mut Vec<TokenStream>) -> Option<()> {
        match i {
            ClassSetItem::Literal(l) => {
                let c = if self.ci { small(l.c)? } else { l.c };
                v.push(quote!(Rc::Range(#c, #c)));
            }
            ClassSetItem::Range(r) => {
                let (mut a, mut b) = (r.start.c, r.end.c);
                if self.ci {
                    // only ranges of letters or digits
                    if !(a.is_ascii_lowercase() && b.is_ascii_lowercase() || a.is_ascii_uppercase() && b.is_ascii_uppercase() || a.is_ascii_digit() && b.is_ascii_digit()) {
                        return None;
                    }
                    a = small(a)?;
                    b = small(b)?;
                }
                v.push(quote!(Rc::Range(#a, #b)));
            }
            ClassSetItem::Perl(p) if !p.negated => v.push(perl(&p.kind)),
            ClassSetItem::Union(u) => {
                for x in &u.items {
                    self.class(x, v)?;
                }
            }
            _ => return None,
        }
        Some(())
    }
    fn rep(&mut self, a: &Ast, min: usize, max: Option<usize>) -> Option<()> {
        self.flush();
        let (neg, v) = self.set(a)?;
        let ci = self.ci;
        let (mn, mx) = (min as u64, max.map(|m| m as u64));
        let mx = match mx {
            Some(m) => quote!(Some(#m as int)),
            None => quote!(None),
        };
        self.rx.items.push(quote!(Rx::C(Rs { neg: #neg, ci: #ci, set: Seq::empty()#(.push(#v))* }, #mn as int, #mx)));
        Some(())
    }
    fn add(&mut self, a: &Ast) -> Option<()> {
        match a {
            Ast::Empty(_) => {}
            Ast::Literal(l) => {
                let c = if self.ci { small(l.c)? } else { l.c };
                self.word.push(c);
                self.rx.min += 1;
            }
            Ast::Concat(c) => {
                for x in &c.asts {
                    self.add(x)?;
                }
            }
            Ast::Assertion(x) if x.kind == ast::AssertionKind::StartLine => {
                if !self.rx.items.is_empty() || !self.word.is_empty() || self.rx.start {
                    return None;
                }
                self.rx.start = true;
            }
            Ast::Assertion(x) if x.kind == ast::AssertionKind::EndLine => {
                self.flush();
                self.rx.items.push(quote!(Rx::E));
            }
            Ast::ClassPerl(_) | Ast::ClassBracketed(_) => {
                self.rx.min += 1;
                self.rep(a, 1, Some(1))?;
            }
            Ast::Repetition(r) => {
                if !r.greedy {
                    return None;
                }
                let (min, max) = match &r.op.kind {
                    RepetitionKind::ZeroOrOne => (0, Some(1)),
                    RepetitionKind::ZeroOrMore => (0, None),
                    RepetitionKind::OneOrMore => (1, None),
                    RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n as usize, Some(*n as usize)),
                    RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n as usize, None),
                    RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n as usize, Some(*m as usize)),
                };
                if let Ast::Group(g) = &*r.ast {
                    // an optional group, without name
                    let plain = match &g.kind {
                        GroupKind::CaptureIndex(_) => true,
                        GroupKind::NonCapturing(f) => f.items.is_empty(),
                        _ => false,
                    };
                    if (min, max) != (0, Some(1)) || !plain {
                        return None;
                    }
                    self.flush();
                    let at = self.rx.items.len();
                    let keep = self.rx.min;
                    let names = self.rx.names.len();
                    self.rx.items.push(quote!());
                    self.add(&g.ast)?;
                    self.flush();
                    self.rx.min = keep;
                    if self.rx.names.len() != names {
                        return None;
                    }
                    let n = (self.rx.items.len() - at - 1) as u64;
                    self.rx.items[at] = quote!(Rx::O(#n as int));
                } else {
                    self.rx.min += min;
                    self.rep(&r.ast, min, max)?;
                }
            }
            Ast::Group(g) => match &g.kind {
                GroupKind::CaptureName { name, .. } => {
                    self.flush();
                    let at = self.rx.items.len();
                    self.add(&g.ast)?;
                    self.flush();
                    if self.rx.items.len() != at + 1 {
                        return None;
                    }
                    self.rx.names.push((name.name.clone(), at));
                }
                _ => return None,
            },
            _ => return None,
        }
        Some(())
    }
}

fn perl(k: &ClassPerlKind) -> TokenStream {
    match k {
        ClassPerlKind::Digit => quote!(Rc::Digit),
        ClassPerlKind::Space => quote!(Rc::Space),
        ClassPerlKind::Word => quote!(Rc::Word),
    }
}

pub fn parse(lit: &syn::LitStr) -> Option<Rx> {
    let ci = match lit.suffix() {
        "" => false,
        "i" => true,
        _ => return None,
    };
    let a = ast::parse::Parser::new().parse(&lit.value()).ok()?;
    let mut b = B { ci, rx: Rx { start: false, items: vec![], min: 0, names: vec![] }, word: vec![] };
    b.add(&a)?;
    b.flush();
    Some(b.rx)
}
