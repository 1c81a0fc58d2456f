//! Token-stream printer with line tracking and expansion of the `__vp_*!` markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Printer {
    pub out: String,
    pub line: usize,
    indent: usize,
    bol: bool,
}

impl Printer {
    pub fn new() -> Self {
        Printer { out: String::new(), line: 1, indent: 0, bol: true }
    }
    pub fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
        if !s.is_empty() {
            self.bol = s.ends_with('\n');
        }
    }
    pub fn rawln(&mut self, s: &str) {
        self.nl();
        self.raw(s);
        self.raw("\n");
    }
    pub fn nl(&mut self) {
        if !self.bol {
            self.raw("\n");
        }
    }
    fn tok(&mut self, s: &str) {
        if self.bol {
            let ind = "    ".repeat(self.indent);
            self.out.push_str(&ind);
            self.bol = false;
        }
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    /// `markers`: text for `__vp_m!(name)`; loops: `__vp_loop!(name)` text goes before the brace.
    pub fn tokens(&mut self, ts: TokenStream, markers: &BTreeMap<String, String>) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut glue = true; // no space needed before the next token
        while i < toks.len() {
            // marker statement
            if let Some(name) = marker(&toks[i..], "__vp_m") {
                self.nl();
                if let Some(t) = markers.get(&name) {
                    self.rawln(t);
                }
                i += 4;
                glue = true;
                continue;
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut stream = g.stream();
                        if let Some(name) = marker(&inner, "__vp_loop") {
                            self.nl();
                            if let Some(t) = markers.get(&name) {
                                self.rawln(t);
                            }
                            stream = inner[4..].iter().cloned().collect();
                        }
                        if !glue && !self.bol {
                            self.tok(" ");
                        }
                        self.tok(o);
                        if !stream.is_empty() {
                            self.raw("\n");
                            self.indent += 1;
                            self.tokens(stream, markers);
                            self.nl();
                            self.indent -= 1;
                        }
                        self.tok(c);
                        let next_joins = match toks.get(i + 1) {
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                            Some(TokenTree::Group(g)) => g.delimiter() != Delimiter::Brace,
                            _ => false,
                        };
                        if next_joins {
                            glue = false;
                        } else {
                            self.raw("\n");
                            glue = true;
                        }
                    } else {
                        let attr = false;
                        let _ = attr;
                        self.tok(o);
                        self.tokens_inline(g.stream(), markers);
                        self.tok(c);
                        glue = false;
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    let tight = matches!(ch, ';' | ',' | '.' | '?' | ':');
                    if !glue && !tight && !self.bol {
                        self.tok(" ");
                    }
                    self.tok(&ch.to_string());
                    if ch == ';' {
                        self.raw("\n");
                        glue = true;
                    } else {
                        glue = p.spacing() == Spacing::Joint || matches!(ch, '.' | '\'' | '&' | '!' | '#' | '*' | '-')
                            && p.spacing() == Spacing::Alone && prefix_ctx(&toks, i);
                    }
                }
                t => {
                    if !glue && !self.bol {
                        self.tok(" ");
                    }
                    self.tok(&t.to_string());
                    glue = false;
                }
            }
            i += 1;
        }
    }
    fn tokens_inline(&mut self, ts: TokenStream, markers: &BTreeMap<String, String>) {
        self.tokens(ts, markers);
    }
}

fn prefix_ctx(toks: &[TokenTree], i: usize) -> bool {
    if let TokenTree::Punct(p) = &toks[i] {
        if p.as_char() == '.' {
            return true;
        }
        if p.as_char() == '\'' {
            return true;
        }
    }
    if i == 0 {
        return true;
    }
    matches!(&toks[i - 1], TokenTree::Punct(_))
}

fn marker(toks: &[TokenTree], which: &str) -> Option<String> {
    if toks.len() >= 4 {
        if let (TokenTree::Ident(a), TokenTree::Punct(b), TokenTree::Group(g), TokenTree::Punct(s)) =
            (&toks[0], &toks[1], &toks[2], &toks[3])
        {
            if a == which && b.as_char() == '!' && s.as_char() == ';' {
                return Some(g.stream().to_string().trim_matches('"').to_string());
            }
        }
    }
    None
}
