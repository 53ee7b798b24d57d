//! Token streams to text, with `__vx!(n)` replaced by hints.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub hints: &'a [String],
    depth: usize,
    /// Inside (..) or [..]: no line breaks.
    flat: usize,
}

impl<'a> Printer<'a> {
    pub fn new(hints: &'a [String]) -> Self {
        Printer { out: String::new(), hints, depth: 0, flat: 0 }
    }

    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.depth {
            self.out.push_str("    ");
        }
    }

    pub fn print(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // __vx ! (n) ;
            if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 2)) {
                if id == "__vx" {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    self.nl();
                    let h = &self.hints[n];
                    self.out.push_str(h.trim_end());
                    self.nl();
                    i += 3;
                    if let Some(TokenTree::Punct(p)) = v.get(i) {
                        if p.as_char() == ';' {
                            i += 1;
                        }
                    }
                    continue;
                }
            }
            match &v[i] {
                TokenTree::Group(g) => self.group(g),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.out.push(c);
                    if p.spacing() == Spacing::Alone && c != '\'' {
                        self.out.push(' ');
                    }
                    if (c == ';' || c == ',') && self.flat == 0 {
                        self.nl();
                    }
                },
                TokenTree::Ident(x) => {
                    self.out.push_str(&x.to_string());
                    self.out.push(' ');
                },
                TokenTree::Literal(x) => {
                    self.out.push_str(&x.to_string());
                    self.out.push(' ');
                },
            }
            i += 1;
        }
    }

    fn group(&mut self, g: &proc_macro2::Group) {
        match g.delimiter() {
            Delimiter::Brace => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                // __vxl ! (n) ; at the start: the text goes before the brace
                let mut rest = inner.clone();
                if let (Some(TokenTree::Ident(id)), Some(TokenTree::Group(n))) = (inner.first(), inner.get(2)) {
                    if id == "__vxl" {
                        let n: usize = n.stream().to_string().trim().parse().unwrap();
                        self.nl();
                        let h = &self.hints[n];
                        self.out.push_str(h.trim_end());
                        self.nl();
                        rest = inner[4..].to_vec();
                    }
                }
                self.out.push('{');
                let flat = std::mem::take(&mut self.flat);
                self.depth += 1;
                self.nl();
                self.print(rest.into_iter().collect());
                self.depth -= 1;
                self.nl();
                self.flat = flat;
                self.out.push_str("} ");
                if self.flat == 0 {
                    self.nl();
                }
            },
            Delimiter::Parenthesis | Delimiter::Bracket => {
                let (a, b) = if g.delimiter() == Delimiter::Parenthesis { ('(', ')') } else { ('[', ']') };
                self.out.push(a);
                self.flat += 1;
                self.print(g.stream());
                self.flat -= 1;
                while self.out.ends_with(' ') {
                    self.out.pop();
                }
                self.out.push(b);
                self.out.push(' ');
            },
            Delimiter::None => self.print(g.stream()),
        }
    }
}
