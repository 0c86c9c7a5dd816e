//! Iterator chains, `for`, `while let`, assertion macros and Option combinators become plain
//! loops, matches and calls. The rules follow the documented behaviour of the standard library.
use crate::source::Func;
use crate::R;
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct D {
    uid: usize,
    err: Option<String>,
    kinds: std::collections::HashMap<String, String>, // local variable -> collection type
    panic_fn: Ident,
}

enum Val {
    E(Expr),
    T(Box<Val>, Box<Val>),
}

struct Chain {
    setup: Vec<Stmt>,
    start: Expr,
    len: Expr,
    elem: Box<dyn Fn(&Ident) -> Val>,
    adapters: Vec<(String, Vec<Expr>)>,
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "i128", "isize"];

/// An expression that can only be a `bool`.
fn boolean(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Binary(b) => matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && boolean(&u.expr),
        Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
        Expr::MethodCall(m) => m.method.to_string().starts_with("is_") || m.method == "contains",
        _ => false,
    }
}

/// A place whose evaluation has no effect.
fn pure_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure_place(&f.base),
        Expr::Paren(p) => pure_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && pure_place(&u.expr),
        Expr::Index(i) => pure_place(&i.expr) && pure_place(&i.index),
        Expr::Binary(b) => pure_place(&b.left) && pure_place(&b.right) && !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)),
        _ => false,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

const ADAPTERS: &[&str] = &["enumerate", "map", "filter_map", "filter", "take", "zip", "cloned", "copied"];
const SINKS: &[&str] = &["collect", "for_each", "fold", "min_by", "max_by", "any", "all", "count"];

impl D {
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn id(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }

    /// The iterator chain an expression denotes, or None if it is not one.
    fn chain(&mut self, e: &Expr, u: usize) -> Option<Chain> {
        match strip_paren(e) {
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    self.fail("inclusive range");
                }
                let (a, b) = ((**a).clone(), (**b).clone());
                Some(Chain { setup: vec![], start: a, len: b, elem: Box::new(|n| Val::E(parse_quote!(#n))), adapters: vec![] })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if ADAPTERS.contains(&name.as_str()) {
                    let mut c = self.chain(&m.receiver, u)?;
                    c.adapters.push((name, m.args.iter().cloned().collect()));
                    return Some(c);
                }
                if !m.args.is_empty() {
                    return None;
                }
                match name.as_str() {
                    "iter" | "iter_mut" | "into_iter" => {
                        // `into_iter` of something that already is an iterator changes nothing
                        if name == "into_iter" {
                            if let Some(c) = self.chain(&m.receiver, u) {
                                return Some(c);
                            }
                        }
                        let recv = &m.receiver;
                        if name == "iter_mut" {
                            if let Expr::Path(p) = &**recv {
                                if let Some(i) = p.path.get_ident() {
                                    if self.kinds.get(&i.to_string()).map(|s| s.as_str()) == Some("HashMap") {
                                        let keys = format_ident!("__L{}_keys", u);
                                        let st: Stmt = parse_quote!(let #keys = map_keys(&#recv););
                                        let r = (**recv).clone();
                                        let k2 = keys.clone();
                                        return Some(Chain {
                                            setup: vec![st],
                                            start: parse_quote!(0),
                                            len: parse_quote!(#keys.len()),
                                            elem: Box::new(move |n| {
                                                Val::T(Box::new(Val::E(parse_quote!(&#k2[#n]))), Box::new(Val::E(parse_quote!(map_get_mut(&mut #r, #k2[#n])))))
                                            }),
                                            adapters: vec![],
                                        });
                                    }
                                }
                            }
                        }
                        Some(self.source(recv, &name, u))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn source(&mut self, recv: &Expr, kind: &str, u: usize) -> Chain {
        let mut recv = strip_paren(recv);
        let mut kind = kind;
        // an iterator over a reference to a place is one over the place
        if let Expr::Reference(r) = recv {
            if is_place(strip_paren(&r.expr)) {
                if kind == "into_iter" {
                    kind = if r.mutability.is_some() { "iter_mut" } else { "iter" };
                }
                recv = strip_paren(&r.expr);
            }
        }
        let mut setup = vec![];
        let place: Expr = if is_place(recv) && kind != "into_iter" {
            recv.clone()
        } else {
            let s = format_ident!("__L{}_src", u);
            setup.push(parse_quote!(let #s = #recv;));
            parse_quote!(#s)
        };
        let kind = kind.to_string();
        let p = place.clone();
        Chain {
            setup,
            start: parse_quote!(0),
            len: parse_quote!(#place.len()),
            elem: Box::new(move |n| {
                Val::E(match kind.as_str() {
                    "iter" => parse_quote!(&#p[#n]),
                    "iter_mut" => parse_quote!(&mut #p[#n]),
                    _ => parse_quote!(take_at(&#p, #n)),
                })
            }),
            adapters: vec![],
        }
    }

    fn any_chain(&mut self, e: &Expr, u: usize) -> Option<Chain> {
        if let Some(c) = self.chain(e, u) {
            return Some(c);
        }
        match strip_paren(e) {
            Expr::Reference(r) => {
                let k = if r.mutability.is_some() { "iter_mut" } else { "iter" };
                Some(self.source(&r.expr, k, u))
            }
            Expr::Path(_) | Expr::Field(_) => Some(self.source(e, "into_iter", u)),
            _ => None,
        }
    }

    fn bind(&mut self, pat: &Pat, v: Val, out: &mut Vec<Stmt>) {
        match (pat, v) {
            (Pat::Paren(p), v) => self.bind(&p.pat, v, out),
            (Pat::Type(t), v @ Val::T(..)) => self.bind(&t.pat, v, out),
            (Pat::Wild(_), Val::E(_)) => {}
            (Pat::Wild(_), Val::T(a, b)) => {
                self.bind(pat, *a, out);
                self.bind(pat, *b, out)
            }
            (Pat::Tuple(t), Val::T(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], *a, out);
                self.bind(&t.elems[1], *b, out);
            }
            (Pat::Reference(r), Val::E(e)) => {
                let e2: Expr = match strip_paren(&e) {
                    Expr::Reference(x) => (*x.expr).clone(),
                    o => parse_quote!(*(#o)),
                };
                self.bind(&r.pat, Val::E(e2), out)
            }
            (p, v) => {
                let e = Self::expr_of(v);
                out.push(parse_quote!(let #p = #e;));
            }
        }
    }

    fn expr_of(v: Val) -> Expr {
        match v {
            Val::E(e) => e,
            Val::T(a, b) => {
                let (a, b) = (Self::expr_of(*a), Self::expr_of(*b));
                parse_quote!((#a, #b))
            }
        }
    }

    /// Parameters and body of a closure (or of a path used as a function).
    fn closure(&mut self, f: &Expr, args: Vec<Val>, out: &mut Vec<Stmt>) -> Expr {
        match strip_paren(f) {
            Expr::Closure(c) => {
                for (p, a) in c.inputs.iter().zip(args) {
                    self.bind(p, a, out);
                }
                value_body(&c.body, self)
            }
            Expr::Path(p) => {
                let a: Vec<Expr> = args.into_iter().map(Self::expr_of).collect();
                parse_quote!(#p(#(#a),*))
            }
            _ => {
                self.fail("iterator adapter with a computed function");
                parse_quote!(())
            }
        }
    }

    fn steps(&mut self, u: usize, ad: &[(String, Vec<Expr>)], cur: Val, k: &mut dyn FnMut(&mut D, Val) -> Vec<Stmt>) -> Vec<Stmt> {
        let Some(((name, args), rest)) = ad.split_first() else {
            return k(self, cur);
        };
        let n = format_ident!("__L{}_n", u);
        let mut out = vec![];
        match name.as_str() {
            "enumerate" => {
                // the position is the number of elements drawn so far
                let _ = &n;
                let idx: Expr = parse_quote!(#n);
                out.extend(self.steps(u, rest, Val::T(Box::new(Val::E(idx)), Box::new(cur)), k));
            }
            "map" => {
                let body = self.closure(&args[0], vec![cur], &mut out);
                out.extend(self.steps(u, rest, Val::E(body), k));
            }
            "cloned" => {
                let e = Self::expr_of(cur);
                out.extend(self.steps(u, rest, Val::E(parse_quote!((#e).clone())), k));
            }
            "copied" => {
                let e = Self::expr_of(cur);
                out.extend(self.steps(u, rest, Val::E(parse_quote!(*(#e))), k));
            }
            "filter" => {
                let v = format_ident!("__L{}_v", u);
                let e = Self::expr_of(cur);
                out.push(parse_quote!(let #v = #e;));
                let mut b = vec![];
                let c = self.closure(&args[0], vec![Val::E(parse_quote!(&#v))], &mut b);
                let inner = self.steps(u, rest, Val::E(parse_quote!(#v)), k);
                out.push(parse_quote!(if { #(#b)* #c } { #(#inner)* }));
            }
            "filter_map" => {
                let v = format_ident!("__L{}_v", u);
                let c = self.closure(&args[0], vec![cur], &mut out);
                let inner = self.steps(u, rest, Val::E(parse_quote!(#v)), k);
                out.push(parse_quote!(match #c { Some(#v) => { #(#inner)* } None => {} }));
            }
            o => {
                self.fail(format!("iterator adapter {o} in this position"));
            }
        }
        out
    }

    /// The statements of the loop that draws every element of the chain and hands it to `k`.
    fn drain(&mut self, u: usize, mut c: Chain, k: &mut dyn FnMut(&mut D, Val) -> Vec<Stmt>) -> Vec<Stmt> {
        let n = format_ident!("__L{}_n", u);
        let end = format_ident!("__L{}_end", u);
        let nx = format_ident!("__L{}_i", u);
        let mut out = std::mem::take(&mut c.setup);
        let (start, len) = (c.start.clone(), c.len.clone());
        out.push(parse_quote!(let mut #n: usize = #start;));
        out.push(parse_quote!(let mut #end: usize = #len;));
        let zero_based = matches!(&c.start, Expr::Lit(l) if matches!(&l.lit, Lit::Int(i) if i.base10_digits() == "0"));
        let mut cur = (c.elem)(&nx);
        // one-to-one adapters in front of take / zip keep positions
        let mut rest = vec![];
        for (i, (name, args)) in c.adapters.iter().enumerate() {
            match name.as_str() {
                "take" if zero_based && c.adapters[..i].iter().all(|a| ["enumerate", "map", "zip", "cloned", "copied", "take"].contains(&a.0.as_str())) => {
                    let t = &args[0];
                    out.push(parse_quote!(#end = min_usize(#end, #t);));
                }
                "zip" if zero_based && c.adapters[..i].iter().all(|a| a.0 == "take") => {
                    let v = self.id();
                    match self.any_chain(&args[0], v) {
                        Some(o) if o.adapters.is_empty() && matches!(&o.start, Expr::Lit(_)) => {
                            out.extend(o.setup);
                            let l = o.len;
                            out.push(parse_quote!(#end = min_usize(#end, #l);));
                            let e2 = (o.elem)(&nx);
                            cur = Val::T(Box::new(cur), Box::new(e2));
                        }
                        _ => self.fail("zip with this iterator"),
                    }
                }
                "enumerate" if !zero_based => self.fail("enumerate of an offset range"),
                _ => rest.push((name.clone(), args.clone())),
            }
        }
        if rest.iter().position(|a| a.0 == "enumerate").map_or(false, |p| rest[..p].iter().any(|a| a.0.starts_with("filter"))) {
            self.fail("enumerate after filter");
        }
        // adapters talk about the drawn position __L_i (== __L_n before the increment)
        let body = self.steps_at(u, &nx, &rest, cur, k);
        let m = format_ident!("u{}", u);
        out.push(parse_quote!(while #n < #end {
            __loop_marker!(#m);
            let #nx: usize = #n;
            #n = #n + 1;
            #(#body)*
        }));
        out
    }

    fn steps_at(&mut self, u: usize, nx: &Ident, ad: &[(String, Vec<Expr>)], cur: Val, k: &mut dyn FnMut(&mut D, Val) -> Vec<Stmt>) -> Vec<Stmt> {
        let mut s = self.steps(u, ad, cur, k);
        // `enumerate` refers to the counter; use the position drawn
        let from = format_ident!("__L{}_n", u).to_string();
        let to = nx.to_string();
        for st in s.iter_mut() {
            rename(st, &from, &to);
        }
        s
    }

    fn sink(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let u = self.uid + 1;
        let acc = format_ident!("__L{}_acc", u);
        if name == "extend" && m.args.len() == 1 {
            self.id();
            let c = self.any_chain(&m.args[0], u)?;
            let recv = m.receiver.clone();
            let kind = quote!(#recv).to_string();
            let method = match self.kinds.get(&kind).map(|s| s.as_str()) {
                Some("VecDeque") => format_ident!("push_back"),
                Some("HashSet") => format_ident!("insert"),
                _ => format_ident!("push"),
            };
            let bare = c.adapters.iter().all(|a| a.0 == "take");
            let st = self.drain(u, c, &mut |_, v| {
                let mut e = Self::expr_of(v);
                if bare {
                    // Extend<&T> for T: Copy copies the element
                    if let Expr::Reference(r) = &e {
                        e = (*r.expr).clone();
                    }
                }
                vec![parse_quote!(#recv.#method(#e);)]
            });
            return Some(parse_quote!({ #(#st)* }));
        }
        if !SINKS.contains(&name.as_str()) {
            return None;
        }
        let c = self.chain(&m.receiver, u)?;
        self.id();
        Some(match name.as_str() {
            "collect" => {
                let st = self.drain(u, c, &mut |_, v| {
                    match Self::expr_of(v) {
                        Expr::Block(b) if b.label.is_none() && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                            let mut st = b.block.stmts;
                            let Some(Stmt::Expr(e, _)) = st.pop() else { unreachable!() };
                            st.push(parse_quote!(#acc.push(#e);));
                            st
                        }
                        e => vec![parse_quote!(#acc.push(#e);)],
                    }
                });
                parse_quote!({ let mut #acc = Vec::new(); #(#st)* #acc })
            }
            "for_each" => {
                let f = m.args[0].clone();
                let st = self.drain(u, c, &mut |d, v| {
                    let mut out = vec![];
                    match strip_paren(&f) {
                        Expr::Closure(cl) => {
                            d.bind(&cl.inputs[0], v, &mut out);
                            let mut b = (*cl.body).clone();
                            ReturnToContinue.visit_expr_mut(&mut b);
                            let mut h = HasReturn(false);
                            visit::Visit::visit_expr(&mut h, &b);
                            if h.0 {
                                d.fail("early return in a for_each body");
                            }
                            match b {
                                Expr::Block(bl) => out.extend(with_semi(bl.block.stmts)),
                                e => out.push(parse_quote!(#e;)),
                            }
                        }
                        _ => d.fail("for_each of a function"),
                    }
                    out
                });
                parse_quote!({ #(#st)* })
            }
            "fold" => {
                let (init, f) = (m.args[0].clone(), m.args[1].clone());
                let a2 = acc.clone();
                let st = self.drain(u, c, &mut |d, v| {
                    let mut out = vec![];
                    let b = d.closure(&f, vec![Val::E(parse_quote!(#a2)), v], &mut out);
                    out.push(parse_quote!(#a2 = #b;));
                    out
                });
                parse_quote!({ let mut #acc = #init; #(#st)* #acc })
            }
            "min_by" | "max_by" => {
                let f = m.args[0].clone();
                let (v0, a0) = (format_ident!("__L{}_v", u), format_ident!("__L{}_best", u));
                let a2 = acc.clone();
                let is_max = name == "max_by";
                let st = self.drain(u, c, &mut |d, v| {
                    let e = Self::expr_of(v);
                    let mut b = vec![];
                    let c = d.closure(&f, vec![Val::E(parse_quote!(&#a0)), Val::E(parse_quote!(&#v0))], &mut b);
                    // max_by keeps the last of equal maxima, min_by the first of equal minima
                    let arms: Vec<Arm> = if is_max {
                        vec![parse_quote!(Ordering::Greater => Some(#a0),), parse_quote!(_ => Some(#v0),)]
                    } else {
                        vec![parse_quote!(Ordering::Greater => Some(#v0),), parse_quote!(_ => Some(#a0),)]
                    };
                    let o = format_ident!("__L{}_ord", u);
                    vec![
                        parse_quote!(let #v0 = #e;),
                        parse_quote!(#a2 = match #a2 {
                            None => Some(#v0),
                            Some(#a0) => {
                                let #o = { #(#b)* #c };
                                match #o { #(#arms)* }
                            }
                        };),
                    ]
                });
                parse_quote!({ let mut #acc = None; #(#st)* #acc })
            }
            "any" | "all" => {
                let f = m.args[0].clone();
                let a2 = acc.clone();
                let any = name == "any";
                let st = self.drain(u, c, &mut |d, v| {
                    let mut out = vec![];
                    let b = d.closure(&f, vec![v], &mut out);
                    if any {
                        out.push(parse_quote!(if #b { #a2 = true; break; }));
                    } else {
                        out.push(parse_quote!(if !(#b) { #a2 = false; break; }));
                    }
                    out
                });
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                parse_quote!({ let mut #acc = #init; #(#st)* #acc })
            }
            _ => {
                let a2 = acc.clone();
                let st = self.drain(u, c, &mut |_, _| vec![parse_quote!(#a2 = #a2 + 1;)]);
                parse_quote!({ let mut #acc: usize = 0; #(#st)* #acc })
            }
        })
    }
}

fn with_semi(mut s: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, None)) = s.last() {
        let e = e.clone();
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_) | Expr::Loop(_)) {
            *s.last_mut().unwrap() = Stmt::Expr(e, Some(Default::default()));
        }
    }
    s
}

/// A jump out of the body of this loop.
struct Jumps(bool);
impl<'a> visit::Visit<'a> for Jumps {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
}
fn jumps(b: &Block) -> bool {
    let mut j = Jumps(false);
    visit::Visit::visit_block(&mut j, b);
    j.0
}
/// `for i in (a..b).step_by(k)`, without jumps. (The last step may overflow where the iterator does not: that is an obligation.)
fn stepped(f: &ExprForLoop) -> Option<Expr> {
    let Expr::MethodCall(m) = strip_paren(&f.expr) else { return None };
    let Expr::Range(r) = strip_paren(&m.receiver) else { return None };
    let (Pat::Ident(i), true) = (&*f.pat, m.method == "step_by" && matches!(r.limits, RangeLimits::HalfOpen(_))) else { return None };
    let Expr::Lit(k) = m.args.first().map(strip_paren)? else { return None };
    if matches!(&k.lit, Lit::Int(n) if n.base10_digits() == "0") || jumps(&f.body) {
        return None;
    }
    let (a, b, x, body) = (r.start.as_ref()?, r.end.as_ref()?, &i.ident, &f.body.stmts);
    Some(parse_quote!({ let mut #x = #a; while #x < #b { #(#body)* #x += #k; } }))
}
/// A loop over the elements of an array literal, without jumps.
fn unrolled(f: &ExprForLoop) -> Option<Expr> {
    let a = match strip_paren(&f.expr) {
        Expr::Array(a) => a.clone(),
        Expr::MethodCall(m) if m.method == "into_iter" => match strip_paren(&m.receiver) {
            Expr::Array(a) => a.clone(),
            _ => return None,
        },
        _ => return None,
    };
    if a.elems.len() > 4 || !a.elems.iter().all(pure_place) || jumps(&f.body) {
        return None;
    }
    let (p, body) = (&f.pat, &f.body.stmts);
    let rounds: Vec<Expr> = a.elems.iter().map(|x| parse_quote!({ let #p = #x; #(#body)* })).collect();
    Some(parse_quote!({ #(#rounds;)* }))
}

fn entry_of(e: &Expr) -> Option<(Expr, Expr)> {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "entry" && m.args.len() == 1 => Some(((*m.receiver).clone(), m.args[0].clone())),
        _ => None,
    }
}
fn or_insert(e: &Expr) -> Option<Expr> {
    let value = |m: &ExprMethodCall| -> Option<Expr> {
        match (m.method.to_string().as_str(), m.args.len()) {
            ("or_insert", 1) => Some(m.args[0].clone()),
            ("or_default", 0) => Some(parse_quote!(Default::default())),
            ("or_insert_with", 1) => match strip_paren(&m.args[0]) {
                Expr::Closure(c) if c.inputs.is_empty() && matches!(&*c.body, Expr::Call(_) | Expr::Lit(_)) => Some((*c.body).clone()),
                Expr::Path(p) => Some(parse_quote!(#p())),
                _ => None,
            },
            _ => None,
        }
    };
    match e {
        Expr::MethodCall(m) => {
            let v = value(m)?;
            let (map, k) = entry_of(&m.receiver)?;
            Some(parse_quote!(map_or_insert(&mut #map, #k, #v)))
        }
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 2 => {
            let (Stmt::Local(l), Stmt::Expr(Expr::MethodCall(m), None)) = (&b.block.stmts[0], &b.block.stmts[1]) else { return None };
            let v = value(m)?;
            let (Pat::Ident(i), Expr::Path(p)) = (&l.pat, strip_paren(&m.receiver)) else { return None };
            if !p.path.is_ident(&i.ident) {
                return None;
            }
            let (map, k) = entry_of(&l.init.as_ref()?.expr)?;
            Some(parse_quote!(map_or_insert(&mut #map, #k, #v)))
        }
        _ => None,
    }
}

struct ReturnToContinue;
impl VisitMut for ReturnToContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {}
            Expr::Return(r) if r.expr.is_none() => *e = parse_quote!(continue),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct HasReturn(bool);
impl<'a> visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// The body of a closure as a value: early returns become the branches of conditionals.
fn value_body(b: &Expr, d: &mut D) -> Expr {
    let mut e = b.clone();
    if let Expr::Block(bl) = &mut e {
        bl.block.stmts = unreturn(std::mem::take(&mut bl.block.stmts));
    }
    let mut h = HasReturn(false);
    visit::Visit::visit_expr(&mut h, &e);
    if h.0 {
        d.fail("early return in a closure");
    }
    e
}

fn unreturn(mut s: Vec<Stmt>) -> Vec<Stmt> {
    for i in 0..s.len() {
        if let Stmt::Expr(Expr::Return(r), _) = &s[i] {
            if let Some(x) = &r.expr {
                let x = (**x).clone();
                s.truncate(i);
                s.push(Stmt::Expr(x, None));
                return s;
            }
        }
        if let Stmt::Expr(Expr::If(f), _) = &s[i] {
            let ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.is_some());
            if ends && f.else_branch.is_none() {
                let mut f = f.clone();
                f.then_branch.stmts = unreturn(std::mem::take(&mut f.then_branch.stmts));
                let rest = unreturn(s.split_off(i + 1));
                s.pop();
                let (c, t) = (&f.cond, &f.then_branch);
                s.push(Stmt::Expr(parse_quote!(if #c #t else { #(#rest)* }), None));
                return s;
            }
        }
    }
    if let Some(Stmt::Expr(Expr::If(f), None)) = s.last_mut() {
        f.then_branch.stmts = unreturn(std::mem::take(&mut f.then_branch.stmts));
        if let Some((_, e)) = &mut f.else_branch {
            if let Expr::Block(b) = &mut **e {
                b.block.stmts = unreturn(std::mem::take(&mut b.block.stmts));
            }
        }
    }
    s
}

struct Rename<'a>(&'a str, &'a str);
impl VisitMut for Rename<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == self.0 {
            *i = Ident::new(self.1, Span::call_site());
        }
    }
}
fn rename(s: &mut Stmt, a: &str, b: &str) {
    Rename(a, b).visit_stmt_mut(s);
}

const OPTION_FNS: &[&str] = &["map", "map_or", "and_then", "unwrap_or_else", "is_some_and", "map_or_else"];

impl VisitMut for D {
    fn visit_local_mut(&mut self, l: &mut Local) {
        // remember the collection type of local variables
        let pat = match &l.pat {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        if let Pat::Ident(i) = &pat {
            let ty = match &l.pat {
                Pat::Type(t) => Some(crate::source::type_name(&t.ty)),
                _ => None,
            };
            let ty = ty.or_else(|| match l.init.as_ref().map(|x| strip_paren(&x.expr)) {
                Some(Expr::Call(c)) => match &*c.func {
                    Expr::Path(p) if p.path.segments.len() >= 2 => Some(p.path.segments[p.path.segments.len() - 2].ident.to_string()),
                    _ => None,
                },
                _ => None,
            });
            if let Some(t) = ty {
                self.kinds.insert(i.ident.to_string(), t);
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name != "__loop_marker" && name != "__hint" {
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros first: their arguments are visited after expansion
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
            let pf = self.panic_fn.clone();
            match name.as_str() {
                "assert" | "debug_assert" => match m.mac.parse_body_with(parser) {
                    Ok(a) if !a.is_empty() => {
                        let c = &a[0];
                        *e = parse_quote!(if !(#c) { #pf(); });
                    }
                    _ => self.fail("assert"),
                },
                "assert_eq" | "debug_assert_eq" => match m.mac.parse_body_with(parser) {
                    Ok(a) if a.len() >= 2 => {
                        let (x, y) = (&a[0], &a[1]);
                        *e = parse_quote!(if !(#x == #y) { #pf(); });
                    }
                    _ => self.fail("assert_eq"),
                },
                "unreachable" | "panic" | "unimplemented" | "todo" => *e = parse_quote!(#pf()),
                "vec" => {
                    let t = m.mac.tokens.to_string();
                    if t.trim().is_empty() {
                        *e = parse_quote!(Vec::new());
                    } else {
                        struct Rep(Expr, Expr);
                        impl parse::Parse for Rep {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let a = i.parse()?;
                                i.parse::<Token![;]>()?;
                                Ok(Rep(a, i.parse()?))
                            }
                        }
                        if let Ok(Rep(a, b)) = m.mac.parse_body::<Rep>() {
                            *e = parse_quote!(vec_repeat(#a, #b));
                        } else {
                            return;
                        }
                    }
                }
                "matches" => {
                    struct M(Expr, Pat);
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let a = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let _ = i.parse::<Option<Token![,]>>()?;
                            Ok(M(a, p))
                        }
                    }
                    match m.mac.parse_body::<M>() {
                        Ok(M(a, p)) => *e = parse_quote!(match #a { #p => true, _ => false }),
                        Err(_) => self.fail("matches!"),
                    }
                }
                _ => return,
            }
        }
        match e {
            Expr::ForLoop(f) => {
                visit_mut::visit_expr_mut(self, &mut f.expr);
                if let Some(n) = stepped(f).or_else(|| unrolled(f)) {
                    *e = n;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                let u = self.id();
                // not visit_expr_mut on f.expr itself: chains there belong to this loop
                match self.any_chain(&f.expr.clone(), u) {
                    Some(c) => {
                        self.visit_block_mut(&mut f.body);
                        let (pat, body) = ((*f.pat).clone(), f.body.stmts.clone());
                        let st = self.drain(u, c, &mut |d, v| {
                            let mut out = vec![];
                            d.bind(&pat, v, &mut out);
                            out.extend(body.clone());
                            out
                        });
                        *e = parse_quote!({ #(#st)* });
                    }
                    None => {
                        let x = &f.expr;
                        let t = quote!(#x).to_string();
                        self.fail(format!("for over {t}"));
                    }
                }
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (l.pat.clone(), l.expr.clone(), w.body.clone());
                    let mut n: Expr = parse_quote!(loop {
                        match #x {
                            #p => #b
                            _ => { break; }
                        }
                    });
                    visit_mut::visit_expr_mut(self, &mut n);
                    *e = n;
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // `a op= b` is `a = a op b` for the types in use (the in-place forms of points: C19)
        if let Expr::Binary(b) = e {
            let op: Option<BinOp> = match b.op {
                BinOp::AddAssign(_) => Some(parse_quote!(+)),
                BinOp::SubAssign(_) => Some(parse_quote!(-)),
                BinOp::MulAssign(_) => Some(parse_quote!(*)),
                BinOp::DivAssign(_) => Some(parse_quote!(/)),
                _ => None,
            };
            if let Some(op) = op {
                if pure_place(&b.left) {
                    let (l, r) = (&b.left, &b.right);
                    let r: Expr = if matches!(&**r, Expr::Binary(_)) { parse_quote!((#r)) } else { (**r).clone() };
                    *e = parse_quote!(#l = #l #op #r);
                } else {
                    self.fail("compound assignment to a computed place");
                }
                return;
            }
        }
        // `m.entry(k).or_insert(v)`, also with the entry named in a block of its own
        if let Some(n) = or_insert(e) {
            *e = n;
            return;
        }
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), n) = (strip_paren(&c.func), c.args.len()) {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let segs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
                match (&segs[..], n) {
                    // a truth value as a number
                    ([t, "from"], 1) if INTS.contains(t) && boolean(&c.args[0]) => {
                        let x = &c.args[0];
                        *e = parse_quote!(if #x { 1 } else { 0 });
                        return;
                    }
                    ([.., "cmp", f @ ("min" | "max")], 2) | ([f @ ("min" | "max")], 2) | (["usize", f @ ("min" | "max")], 2) => {
                        let (f, a, b) = (format_ident!("{}", f), &c.args[0], &c.args[1]);
                        *e = parse_quote!((#a).#f(#b));
                    }
                    _ => {}
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "then" && m.args.len() == 1 && boolean(&m.receiver) {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    if c.inputs.is_empty() && !quote!(#c).to_string().contains("return") {
                        let (r, b) = (&m.receiver, &c.body);
                        *e = parse_quote!(if #r { Some(#b) } else { None });
                        return;
                    }
                }
            }
            if let Some(n) = self.sink(&m.clone()) {
                *e = n;
                return;
            }
            let name = m.method.to_string();
            // `x.get_mut(i).expect(..)` of a slice or vector: the same panic as `&mut x[i]`
            if (name == "expect" && m.args.len() == 1) || (name == "unwrap" && m.args.is_empty()) {
                if let Expr::MethodCall(g) = strip_paren(&m.receiver) {
                    let map = |x: &Expr| self.kinds.get(&quote!(#x).to_string()).map_or(false, |k| k == "HashMap");
                    if g.args.len() == 1 && (g.method == "get" || g.method == "get_mut") && !map(&g.receiver) && !matches!(strip_paren(&g.args[0]), Expr::Reference(_) | Expr::Range(_)) {
                        let (x, i) = (&g.receiver, &g.args[0]);
                        *e = if g.method == "get" { parse_quote!(&#x[#i]) } else { parse_quote!(&mut #x[#i]) };
                        return;
                    }
                }
            }
            let fun = |i: usize| matches!(m.args.get(i).map(strip_paren), Some(Expr::Closure(_)) | Some(Expr::Path(_)));
            let probe = self.uid + 1;
            let drawn = self.chain(&m.receiver.clone(), probe).is_some();
            if !drawn && OPTION_FNS.contains(&name.as_str()) && m.args.last().is_some() && fun(m.args.len() - 1) {
                let u = self.id();
                let v = format_ident!("__L{}_v", u);
                let recv = m.receiver.clone();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let last = args.last().unwrap().clone();
                let mut b = vec![];
                if name == "unwrap_or_else" {
                    let c = self.closure(&last, vec![], &mut b);
                    *e = parse_quote!(match #recv { Some(#v) => #v, None => { #(#b)* #c } });
                    return;
                }
                // a plain variable pattern is bound by the match itself
                let (bound, c): (Pat, Expr) = match strip_paren(&last) {
                    Expr::Closure(cl) => {
                        let c = value_body(&cl.body, self);
                        let p = match &cl.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        (p, c)
                    }
                    f => (parse_quote!(#v), parse_quote!(#f(#v))),
                };
                *e = match name.as_str() {
                    "map" => parse_quote!(match #recv { Some(#bound) => Some(#c), None => None }),
                    "and_then" => parse_quote!(match #recv { Some(#bound) => #c, None => None }),
                    "is_some_and" => parse_quote!(match #recv { Some(#bound) => #c, None => false }),
                    "map_or" => {
                        let dflt = &args[0];
                        parse_quote!(match #recv { Some(#bound) => #c, None => #dflt })
                    }
                    _ => {
                        self.fail("map_or_else");
                        return;
                    }
                };
            }
        }
    }
}

/// Every loop gets its pre-order number; synthetic names follow it.
struct Number {
    next: usize,
    map: std::collections::HashMap<String, usize>,
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let body = match e {
            Expr::While(w) => Some(&mut w.body),
            Expr::Loop(l) => Some(&mut l.body),
            _ => None,
        };
        if let Some(b) = body {
            let k = self.next;
            self.next += 1;
            let lit = LitInt::new(&k.to_string(), Span::call_site());
            if let Some(Stmt::Macro(m)) = b.stmts.first() {
                if m.mac.path.is_ident("__loop_marker") {
                    let u = m.mac.tokens.to_string().trim_start_matches('u').to_string();
                    self.map.insert(u, k);
                    b.stmts.remove(0);
                }
            }
            b.stmts.insert(0, parse_quote!(__loop_marker!(#lit);));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Final<'a>(&'a std::collections::HashMap<String, usize>);
impl VisitMut for Final<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if let Some(r) = s.strip_prefix("__L") {
            if let Some((u, part)) = r.split_once('_') {
                let k = self.0.get(u).map(|k| k.to_string()).unwrap_or("z".to_string());
                *i = match part {
                    "acc" => format_ident!("acc{}", k),
                    p => format_ident!("it{}_{}", k, p),
                };
            }
        }
    }
}

/// `let x = chain.collect();` pushes to `x` itself.
struct Splice;
impl VisitMut for Splice {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match spliced(&s) {
                Some(v) => out.extend(v),
                None => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}
fn spliced(s: &Stmt) -> Option<Vec<Stmt>> {
    let Stmt::Local(l) = s else { return None };
    let (x, ty) = match &l.pat {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.clone(), None),
        Pat::Type(t) => match &*t.pat {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.clone(), Some(t.ty.clone())),
            _ => return None,
        },
        _ => return None,
    };
    let init = l.init.as_ref()?;
    if init.diverge.is_some() {
        return None;
    }
    let Expr::Block(b) = &*init.expr else { return None };
    let (Some(Stmt::Local(d)), Some(Stmt::Expr(Expr::Path(tail), None))) = (b.block.stmts.first(), b.block.stmts.last()) else { return None };
    let Pat::Ident(acc) = &d.pat else { return None };
    let a = acc.ident.to_string();
    if !(a.starts_with("__L") && a.ends_with("_acc")) || !tail.path.is_ident(&acc.ident) || quote!(#d).to_string() != quote!(let mut #acc = Vec::new();).to_string().replace("mut mut", "mut") {
        return None;
    }
    let n = b.block.stmts.len();
    let mut inner: Vec<Stmt> = b.block.stmts[1..n - 1].to_vec();
    let mut u = Uses(x.to_string(), false);
    for s in &inner {
        visit::Visit::visit_stmt(&mut u, s);
    }
    if u.1 {
        return None;
    }
    for s in inner.iter_mut() {
        rename(s, &a, &x.to_string());
    }
    let mut out: Vec<Stmt> = vec![match ty {
        Some(t) => parse_quote!(let mut #x: #t = Vec::new();),
        None => parse_quote!(let mut #x = Vec::new();),
    }];
    out.extend(inner);
    Some(out)
}
struct Uses(String, bool);
impl<'a> visit::Visit<'a> for Uses {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.1 |= *i == self.0;
    }
}

pub fn desugar(f: &mut Func, panic_fn: &str) -> R<usize> {
    let mut d = D { uid: 0, err: None, kinds: Default::default(), panic_fn: format_ident!("{}", panic_fn) };
    d.visit_block_mut(&mut f.block);
    if let Some(e) = d.err {
        return Err(format!("unsupported: {e}"));
    }
    Splice.visit_block_mut(&mut f.block);
    let mut n = Number { next: 0, map: Default::default() };
    n.visit_block_mut(&mut f.block);
    Final(&n.map).visit_block_mut(&mut f.block);
    Ok(n.next)
}
