//! Printing, with loop specifications, closure contracts and proof hints put in place.
use crate::source::Func;
use crate::{FnSpec, R};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Inserts {
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<String>,
    pub closures: BTreeMap<usize, String>,
}

/// With VEXTRACT_SMOKE set, an assertion that must fail is put at every function and loop entry.
const SMOKE: &str = "if smoke_() { assert(false); /*smoke*/ }";
fn smoke() -> bool {
    std::env::var_os("VEXTRACT_SMOKE").is_some()
}

struct P<'a> {
    out: String,
    ind: usize,
    ins: &'a Inserts,
}

impl P<'_> {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
    }
    fn text(&mut self, t: &str) {
        for l in t.lines() {
            self.nl();
            self.out.push_str(l.trim_end());
        }
        self.nl();
    }
    fn macro_arg(ts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
        match (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
            (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if a == name && p.as_char() == '!' => g.stream().to_string().trim().parse().ok(),
            _ => None,
        }
    }
    fn stream(&mut self, s: TokenStream, brace: bool) {
        let ts: Vec<TokenTree> = s.into_iter().collect();
        let mut i = 0;
        while i < ts.len() {
            if let Some(h) = Self::macro_arg(&ts, i, "__hint") {
                let t = self.ins.hints[h].clone();
                self.text(&t);
                i += 4;
                continue;
            }
            if Self::macro_arg(&ts, i, "__loop_marker").is_some() {
                i += 4;
                if smoke() {
                    self.text(SMOKE);
                }
                continue;
            }
            if let Some(c) = Self::macro_arg(&ts, i, "__closure") {
                let t = self.ins.closures.get(&c).cloned().unwrap_or_default();
                self.text(&t);
                i += 3;
                continue;
            }
            match &ts[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some(k) = Self::macro_arg(&inner, 0, "__loop_marker") {
                            if let Some(t) = self.ins.loops.get(&k).cloned() {
                                self.ind += 1;
                                self.text(&t);
                                self.ind -= 1;
                            }
                        }
                        self.out.push('{');
                        if !inner.is_empty() {
                            self.ind += 1;
                            self.nl();
                            self.stream(g.stream(), true);
                            self.ind -= 1;
                            self.nl();
                        }
                        self.out.push('}');
                        let cont = match ts.get(i + 1) {
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(x)) => x == "else",
                            None => true,
                            _ => false,
                        };
                        if !cont || (brace && matches!(ts.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() != ';' && p.as_char() != '.' && p.as_char() != ',' && p.as_char() != '=' && p.as_char() != '|')) {
                            self.nl();
                        } else {
                            self.out.push(' ');
                        }
                    }
                    d => {
                        let (a, b) = if d == Delimiter::Parenthesis { ('(', ')') } else if d == Delimiter::Bracket { ('[', ']') } else { (' ', ' ') };
                        while self.out.ends_with(' ') && !self.out.ends_with("= ") && !self.out.ends_with("in ") {
                            self.out.pop();
                        }
                        if self.out.ends_with(|c: char| c.is_alphanumeric()) && matches!(ts.get(i.wrapping_sub(1)), Some(TokenTree::Ident(x)) if ["if", "while", "match", "return", "mut", "let", "in", "else"].contains(&x.to_string().as_str())) {
                            self.out.push(' ');
                        }
                        self.out.push(a);
                        self.stream(g.stream(), false);
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                        self.out.push(b);
                        self.out.push(' ');
                    }
                },
                TokenTree::Punct(p) => {
                    if matches!(p.as_char(), ';' | ',' | '.') {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    self.out.push(p.as_char());
                    if p.as_char() == ';' && brace {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && !matches!(p.as_char(), '.' | '&' | '!') {
                        self.out.push(' ');
                    }
                }
                t => {
                    self.out.push_str(&t.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}

pub fn print(ts: TokenStream, ins: &Inserts) -> String {
    let mut p = P { out: String::new(), ind: 0, ins };
    p.stream(ts, true);
    p.out
}

/// Calls made by a statement itself, not by the blocks inside it.
struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
    }
}
struct Assigned(Vec<String>);
impl<'a> Visit<'a> for Assigned {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        let l = &a.left;
        self.0.push(quote!(#l).to_string().replace(' ', ""));
    }
}

struct Place<'a> {
    at: &'a [(String, String)],
    used: Vec<bool>,
    count: BTreeMap<String, usize>,
}

fn hint(i: usize) -> Stmt {
    let l = LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
    parse_quote!(__hint!(#l);)
}

impl Place<'_> {
    fn find(&mut self, key: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, a) in self.at.iter().enumerate() {
            if a.0 == key {
                self.used[i] = true;
                v.push(hint(i));
            }
        }
        v
    }
    /// `after call f`, `after call f #2`: counts occurrences in program order.
    fn both(&mut self, key: &str) -> (Vec<Stmt>, Vec<Stmt>) {
        let c = self.count.entry(key.to_string()).or_insert(0);
        *c += 1;
        let n = *c;
        let mut r = (self.find(&format!("before {key} #{n}")), self.find(&format!("after {key} #{n}")));
        if n == 1 {
            r.0.extend(self.find(&format!("before {key}")));
            r.1.extend(self.find(&format!("after {key}")));
        }
        r
    }
}

struct BeforeContinue<'a>(&'a [Stmt]);
impl VisitMut for BeforeContinue<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if matches!(&s, Stmt::Expr(Expr::Continue(_), _)) {
                out.extend(self.0.iter().cloned());
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if !matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_)) {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}

fn loop_no(b: &Block) -> Option<usize> {
    match b.stmts.first() {
        Some(Stmt::Macro(m)) if m.mac.path.is_ident("__loop_marker") => m.mac.tokens.to_string().trim().parse().ok(),
        _ => None,
    }
}

fn loop_body(e: &mut Expr) -> Option<&mut Block> {
    match e {
        Expr::While(w) => Some(&mut w.body),
        Expr::Loop(w) => Some(&mut w.body),
        _ => None,
    }
}

impl VisitMut for Place<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut pre = vec![];
            let mut post = vec![];
            let mut keys = vec![];
            if let Stmt::Local(l) = &s {
                let mut c = names(&l.pat);
                for n in c.drain(..) {
                    keys.push(format!("let {n}"));
                }
            }
            let mut c = Calls(vec![]);
            c.visit_stmt(&s);
            for n in c.0 {
                keys.push(format!("call {n}"));
            }
            let mut c = Assigned(vec![]);
            c.visit_stmt(&s);
            for n in c.0 {
                keys.push(format!("set {n}"));
            }
            for k in keys {
                let (x, y) = self.both(&k);
                pre.extend(x);
                post.extend(y);
            }
            let mut lk = None;
            if let Stmt::Expr(e, _) = &mut s {
                if let Some(body) = loop_body(e) {
                    lk = loop_no(body);
                }
            }
            if let Some(k) = lk {
                pre.extend(self.find(&format!("before loop {k}")));
                post.extend(self.find(&format!("after loop {k}")));
            }
            self.visit_stmt_mut(&mut s);
            if let (Some(k), Stmt::Expr(e, _)) = (lk, &mut s) {
                let body = loop_body(e).unwrap();
                let st = self.find(&format!("loop {k} start"));
                let at = 1;
                for (j, h) in st.into_iter().enumerate() {
                    body.stmts.insert(at + j, h);
                }
                body.stmts.extend(self.find(&format!("loop {k} end")));
                // `every end`: also where an iteration is left early
                let every = self.find(&format!("loop {k} every end"));
                if !every.is_empty() {
                    BeforeContinue(&every).visit_block_mut(body);
                    body.stmts.extend(every);
                }
            }
            out.extend(pre);
            let tail = matches!(&s, Stmt::Expr(e, None) if !matches!(e, Expr::If(_) | Expr::While(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_)));
            if tail && !post.is_empty() {
                // the value of the block: nothing can follow it
                if let Stmt::Expr(e, None) = s {
                    out.push(parse_quote!(let tail_value = #e;));
                    out.extend(post);
                    out.push(Stmt::Expr(parse_quote!(tail_value), None));
                }
            } else {
                out.push(s);
                out.extend(post);
            }
        }
        b.stmts = out;
    }
}

fn names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut n = N(vec![]);
    n.visit_pat(p);
    n.0
}

/// Closures that remain get a contract slot, in program order.
struct Closures(usize);
impl VisitMut for Closures {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.0;
        self.0 += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        c.output = ReturnType::Default;
        let body = &c.body;
        let l = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
        // printed as: |args| <contract> { body }
        let b: Expr = match &**body {
            Expr::Block(bl) => {
                let s = &bl.block.stmts;
                Expr::Verbatim(quote!(__closure!(#l) { #(#s)* }))
            }
            e => Expr::Verbatim(quote!(__closure!(#l) { #e })),
        };
        c.body = Box::new(b);
    }
}

pub fn emit(spec: &FnSpec, f: &Func, nloops: usize) -> R<String> {
    if spec.nloops != usize::MAX && spec.nloops != nloops {
        return Err(format!("lost anchor: {} loops expected, {nloops} found", spec.nloops));
    }
    let mut block = f.block.clone();
    let mut pl = Place { at: &spec.at, used: vec![false; spec.at.len()], count: Default::default() };
    pl.visit_block_mut(&mut block);
    let start = pl.find("start");
    let end = pl.find("end");
    if !end.is_empty() {
        match block.stmts.last() {
            Some(Stmt::Expr(e, None)) if !matches!(f.sig.output, ReturnType::Default) => {
                let e = e.clone();
                block.stmts.pop();
                block.stmts.push(parse_quote!(let tail_value = #e;));
                block.stmts.extend(end);
                block.stmts.push(Stmt::Expr(parse_quote!(tail_value), None));
            }
            _ => block.stmts.extend(end),
        }
    }
    for (i, h) in start.into_iter().enumerate() {
        block.stmts.insert(i, h);
    }
    if let Some(i) = pl.used.iter().position(|u| !u) {
        return Err(format!("lost anchor: no place '{}'", spec.at[i].0));
    }
    let mut cl = Closures(0);
    cl.visit_block_mut(&mut block);
    if let Some(k) = spec.closures.keys().find(|k| **k >= cl.0) {
        return Err(format!("lost anchor: closure {k}"));
    }
    if let Some(k) = spec.loops.keys().find(|k| **k >= nloops) {
        return Err(format!("lost anchor: loop {k}"));
    }
    let ins = Inserts { loops: spec.loops.clone(), hints: spec.at.iter().map(|a| a.1.clone()).collect(), closures: spec.closures.clone() };
    let name = spec.alias.clone().unwrap_or(f.sig.ident.to_string());
    let mut s = String::new();
    s.push_str(&spec.attrs);
    // facts about what a loop does not change stay known in it
    if nloops > 0 && nloops != usize::MAX && !smoke() && !spec.attrs.contains("loop_isolation") && !spec.attrs.contains("external_body") {
        s.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    let (ig, _, wh) = f.sig.generics.split_for_impl();
    let inputs: Vec<String> = f.sig.inputs.iter().map(|i| print(i.to_token_stream(), &ins)).collect();
    let ret = match &f.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.ret, print(t.to_token_stream(), &ins)),
    };
    let mut params: Vec<String> = inputs;
    params.extend(spec.ghost.iter().cloned());
    s.push_str(&format!("{}fn {}{}({}){} {}\n{}", spec.vis, name, ig.to_token_stream(), params.join(", "), ret, wh.to_token_stream(), spec.sig));
    let body = print(block.to_token_stream(), &ins);
    if smoke() && spec.trust.is_empty() {
        let at = body.find('{').unwrap() + 1;
        s.push_str(&format!("{}\n{SMOKE}\n{}", &body[..at], &body[at..]));
    } else {
        s.push_str(&body);
    }
    s.push('\n');
    Ok(s)
}
