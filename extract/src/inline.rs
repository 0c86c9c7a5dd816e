//! Helper functions without a contract are inlined at their call sites (a helper that a refactoring
//! extracted belongs to the function it came from).
use crate::source::{Func, Src};
use crate::{Config, R};
use quote::quote;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Inl<'a> {
    src: &'a Src,
    cfg: &'a Config,
    self_ty: Option<String>,
    depth: usize,
    uid: usize,
    err: Option<String>,
    local: std::collections::HashMap<String, Func>, // closures bound by a plain `let`
    helpers: &'a [Helper],
    lifted: Vec<(usize, String, Func)>, // helpers with a contract of their own
    lets: Vec<(String, Stmt)>,          // the immutable variables of the enclosing function
    alias: String,
}

/// A contract for the one-argument helper (closure or function) that calls one of `has`.
#[derive(Clone, Default)]
pub struct Helper {
    pub has: Vec<String>,
    pub uses: String,
    pub spec: String,
}

struct Has<'a>(&'a [String], bool);
impl<'a, 'b> Visit<'b> for Has<'a> {
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        if self.0.contains(&m.method.to_string()) {
            self.1 = true;
        }
        visit::visit_expr_method_call(self, m);
    }
    // x * x * x, under the name `cube`
    fn visit_expr_binary(&mut self, b: &'b ExprBinary) {
        let s = quote!(#b).to_string().replace(['(', ')', ' '], "");
        let p: Vec<&str> = s.split('*').collect();
        if p.len() == 3 && p[0] == p[1] && p[1] == p[2] && self.0.iter().any(|h| h == "cube") {
            self.1 = true;
        }
        visit::visit_expr_binary(self, b);
    }
}
struct Idents(Vec<String>);
impl<'b> Visit<'b> for Idents {
    fn visit_expr_path(&mut self, p: &'b ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.push(i.to_string());
        }
    }
}
struct Binds(Vec<String>);
impl<'b> Visit<'b> for Binds {
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// Replace a variable by an expression.
struct Sub<'a>(&'a std::collections::HashMap<String, Expr>);
impl VisitMut for Sub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        // `*r` where r stands for `&mut place`
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if let Some(Expr::Reference(r)) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                        *e = (*r.expr).clone();
                        return;
                    }
                }
            }
        }
        // method calls and field accesses reborrow automatically
        match e {
            Expr::MethodCall(m) => self.auto(&mut m.receiver),
            Expr::Field(f) => self.auto(&mut f.base),
            Expr::Index(i) => self.auto(&mut i.expr),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl Sub<'_> {
    fn auto(&self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(Expr::Reference(r)) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *e = (*r.expr).clone();
            }
        }
    }
}

fn assigned(b: &Block, n: &str) -> bool {
    struct A<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for A<'a> {
        fn visit_expr_assign(&mut self, a: &'b ExprAssign) {
            if let Expr::Path(p) = &*a.left {
                if p.path.is_ident(self.0) {
                    self.1 = true;
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut a = A(n, false);
    a.visit_block(b);
    a.1
}

impl Inl<'_> {
    fn target(&self, path: &str) -> Option<Func> {
        if let Some(f) = self.local.get(path) {
            return Some(f.clone());
        }
        if self.cfg.contracts.iter().any(|c| c == path || c.ends_with(&format!("::{path}")) && !path.contains("::")) {
            return None;
        }
        match self.src.fns.get(path).map(|v| v.as_slice()) {
            Some([f]) => Some(f.clone()),
            _ => None,
        }
    }

    /// A helper with a contract becomes a function of its own; what a closure captures is computed
    /// again inside it, from the same immutable definitions.
    fn lift(&mut self, name: &str, f: &Func, arg: &Expr) -> Option<Expr> {
        let call = |k: usize, s: &Self| -> Expr {
            let id = Ident::new(&format!("{}_helper{k}", s.alias), proc_macro2::Span::call_site());
            parse_quote!(Self::#id(#arg))
        };
        if let Some((k, ..)) = self.lifted.iter().find(|l| l.1 == name) {
            return Some(call(*k, self));
        }
        let k = (0..self.helpers.len()).find(|k| {
            let mut h = Has(&self.helpers[*k].has, false);
            h.visit_block(&f.block);
            h.1 && !self.lifted.iter().any(|l| l.0 == *k)
        })?;
        let [FnArg::Typed(PatType { pat, .. })] = &f.sig.inputs.iter().cloned().collect::<Vec<_>>()[..] else { return None };
        let Pat::Ident(p) = &**pat else { return None };
        if p.mutability.is_some() || assigned(&f.block, &p.ident.to_string()) {
            return None;
        }
        let mut b = f.block.clone();
        // captured definitions, transitively
        let mut lets: Vec<Stmt> = vec![];
        let mut bound = Binds(vec![p.ident.to_string()]);
        bound.visit_block(&b);
        let mut todo = Idents(vec![]);
        todo.visit_block(&b);
        let mut taken: Vec<usize> = vec![];
        let mut i = 0;
        while i < todo.0.len() {
            let n = todo.0[i].clone();
            i += 1;
            if bound.0.contains(&n) {
                continue;
            }
            let at: Vec<usize> = (0..self.lets.len()).filter(|j| self.lets[*j].0 == n).collect();
            match at.as_slice() {
                [] => {
                    if n.chars().next().map_or(false, |c| c.is_lowercase()) && !self.src.fns.contains_key(&n) {
                        return None; // a parameter of the enclosing function
                    }
                }
                [j] => {
                    if !taken.contains(j) {
                        taken.push(*j);
                        if let Stmt::Local(l) = &self.lets[*j].1 {
                            let mut t = Idents(vec![]);
                            t.visit_local(l);
                            todo.0.extend(t.0);
                        }
                    }
                }
                _ => return None,
            }
        }
        taken.sort();
        for j in taken {
            lets.push(self.lets[j].1.clone());
        }
        let mut map = std::collections::HashMap::new();
        map.insert(p.ident.to_string(), parse_quote!(arg0));
        Sub(&map).visit_block_mut(&mut b);
        let st = &b.stmts;
        let mut block: Block = parse_quote!({ #(#lets)* #(#st)* });
        let saved = std::mem::replace(&mut self.self_ty, f.self_ty.clone());
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.self_ty = saved;
        let sig: Signature = parse_quote!(fn helper(arg0: F) -> F);
        self.lifted.push((k, name.to_string(), Func { sig, block, self_ty: self.self_ty.clone() }));
        Some(call(k, self))
    }

    fn expand(&mut self, name: &str, f: Func, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 {
            self.err = Some(format!("helper {name} is recursive"));
            return None;
        }
        if self.depth == 0 && recv.is_none() && args.len() == 1 {
            if let Some(e) = self.lift(name, &f, &args[0]) {
                return Some(e);
            }
        }
        let mut h = HasRet(false);
        h.visit_block(&f.block);
        if h.0 {
            self.err = Some(format!("helper {name} returns early"));
            return None;
        }
        let mut map = std::collections::HashMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        for i in &f.sig.inputs {
            match i {
                FnArg::Receiver(_) => {
                    map.insert("self".to_string(), recv.clone().or_else(|| it.next())?);
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let Pat::Ident(p) = &*t.pat else {
                        self.err = Some(format!("helper {name} has a pattern parameter"));
                        return None;
                    };
                    let simple = match &a {
                        Expr::Path(_) => true,
                        Expr::Reference(r) => matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)),
                        _ => false,
                    };
                    if simple && p.mutability.is_none() && !assigned(&f.block, &p.ident.to_string()) {
                        map.insert(p.ident.to_string(), a);
                    } else {
                        let ty = &t.ty;
                        let id = &p.ident;
                        let m = &p.mutability;
                        let _ = ty;
                        lets.push(parse_quote!(let #m #id = #a;));
                    }
                }
            }
        }
        let mut b = f.block.clone();
        // local names must not capture the arguments
        self.uid += 1;
        Sub(&map).visit_block_mut(&mut b);
        let saved = std::mem::replace(&mut self.self_ty, f.self_ty.clone());
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.self_ty = saved;
        let st = &b.stmts;
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.err.is_some() {
            return;
        }
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let path = match seg.as_slice() {
                        [a] => Some(a.clone()),
                        [s, a] if s == "Self" => self.self_ty.as_ref().map(|t| format!("{t}::{a}")),
                        [t, a] => Some(format!("{t}::{a}")),
                        _ => None,
                    };
                    path.and_then(|p| self.target(&p).map(|f| (p, f))).and_then(|(p, f)| self.expand(&p, f, None, c.args.iter().cloned().collect()))
                }
                _ => None,
            },
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                let path = self.self_ty.as_ref().map(|t| format!("{t}::{}", m.method));
                path.and_then(|p| self.target(&p).map(|f| (p, f)))
                    .and_then(|(p, f)| self.expand(&p, f, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// Take `let f = |..| ..;` out of the block when f is only ever called.
fn take_closures(f: &mut Func, out: &mut std::collections::HashMap<String, Func>) -> R<()> {
    struct Uses<'a>(&'a str, usize, usize);
    impl<'a, 'b> Visit<'b> for Uses<'a> {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
                self.1 += 1;
            }
            visit::visit_expr_call(self, c);
        }
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            if p.path.is_ident(self.0) {
                self.2 += 1;
            }
        }
    }
    struct Free(Vec<String>);
    impl<'b> Visit<'b> for Free {
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
    }
    struct Bound<'a>(&'a [String], Vec<String>);
    impl<'a, 'b> Visit<'b> for Bound<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            if self.0.contains(&p.ident.to_string()) {
                self.1.push(p.ident.to_string());
            }
        }
    }
    let mut keep = vec![];
    let whole = f.block.clone();
    for s in std::mem::take(&mut f.block.stmts) {
        if let Stmt::Local(Local { pat: Pat::Ident(id), init: Some(init), .. }) = &s {
            if let (Expr::Closure(c), None) = (&*init.expr, &id.mutability) {
                let name = id.ident.to_string();
                let mut u = Uses(&name, 0, 0);
                u.visit_block(&whole);
                if u.1 == u.2 {
                    let mut inputs: Vec<FnArg> = vec![];
                    let mut params = vec![];
                    let mut plain = true;
                    for p in &c.inputs {
                        let id = match p {
                            Pat::Ident(i) => i.clone(),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => i.clone(),
                                _ => { plain = false; continue }
                            },
                            _ => { plain = false; continue }
                        };
                        params.push(id.ident.to_string());
                        inputs.push(parse_quote!(#id: ()));
                    }
                    if plain {
                        let mut fr = Free(vec![]);
                        fr.visit_expr(&c.body);
                        fr.0.retain(|n| !params.contains(n));
                        let mut b = Bound(&fr.0, vec![]);
                        for i in &f.sig.inputs {
                            if let FnArg::Typed(t) = i {
                                b.visit_pat(&t.pat);
                            }
                        }
                        b.visit_block(&whole);
                        let mut names = b.1.clone();
                        names.sort();
                        if names.windows(2).any(|w| w[0] == w[1]) {
                            return Err(format!("unsupported: a variable that closure {name} captures is bound twice"));
                        }
                        let body = &c.body;
                        let block: Block = match &**body {
                            Expr::Block(b) => b.block.clone(),
                            e => parse_quote!({ #e }),
                        };
                        let sig: Signature = parse_quote!(fn closure(#(#inputs),*));
                        out.insert(name, Func { sig, block, self_ty: f.self_ty.clone() });
                        continue;
                    }
                }
            }
        }
        keep.push(s);
    }
    f.block.stmts = keep;
    Ok(())
}

pub fn inline(src: &Src, cfg: &Config, alias: &str, helpers: &[Helper], f: &mut Func) -> R<Vec<(usize, Func)>> {
    let mut lets = vec![];
    for s in &f.block.stmts {
        if let Stmt::Local(Local { pat, init: Some(_), .. }) = s {
            let id = match pat {
                Pat::Ident(i) => Some(i),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(i) => Some(i),
                    _ => None,
                },
                _ => None,
            };
            if let Some(i) = id {
                if i.mutability.is_none() {
                    lets.push((i.ident.to_string(), s.clone()));
                }
            }
        }
    }
    let mut i = Inl { src, cfg, self_ty: f.self_ty.clone(), depth: 0, uid: 0, err: None, local: Default::default(), helpers, lifted: vec![], lets, alias: alias.replace("::", "_").replace(['<', '>'], "_") };
    if cfg.closures {
        take_closures(f, &mut i.local)?;
    }
    i.visit_block_mut(&mut f.block);
    match i.err {
        Some(e) => Err(format!("unsupported: {e}")),
        None => Ok(i.lifted.into_iter().map(|(k, _, f)| (k, f)).collect()),
    }
}
