//! Names of bindings, and statements that do nothing.
use crate::source::Func;
use crate::R;
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn synthetic(s: &str) -> bool {
    s.starts_with("__")
        || (s.starts_with("arg") && s[3..].chars().all(|c| c.is_ascii_digit()) && s.len() > 3)
        || (s.starts_with("acc") && s[3..].chars().all(|c| c.is_ascii_digit()) && s.len() > 3)
        || (s.starts_with("it") && s[2..].starts_with(|c: char| c.is_ascii_digit() || c == 'z'))
}

struct Collect(Vec<String>);
impl<'a> Visit<'a> for Collect {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        let constant = s.chars().next().map_or(false, |c| c.is_uppercase());
        if !synthetic(&s) && !constant && !self.0.contains(&s) {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}

pub fn bindings(f: &Func) -> Vec<String> {
    let mut c = Collect(vec![]);
    for i in &f.sig.inputs {
        if let FnArg::Typed(t) = i {
            c.visit_pat(&t.pat);
        }
    }
    c.visit_block(&f.block);
    c.0
}

struct Ren<'a>(&'a HashMap<String, String>);
impl VisitMut for Ren<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.ident(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            self.ident(&mut p.path.segments[0].ident);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_pat_mut(&mut f.pat);
    }
}
impl Ren<'_> {
    fn ident(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
}

/// Pair names the specification knows and the code lacks with names the code has and it does not know.
/// Names the specification's text does not mention need no partner.
fn pair(missing: &[String], extra: &[String], needed: &dyn Fn(&str) -> bool, map: &mut HashMap<String, String>) -> bool {
    if missing.len() == extra.len() {
        map.extend(extra.iter().cloned().zip(missing.iter().cloned()));
        return true;
    }
    let want: Vec<&String> = missing.iter().filter(|m| needed(m)).collect();
    if want.is_empty() {
        return true;
    }
    if want.len() == extra.len() {
        map.extend(extra.iter().cloned().zip(want.into_iter().cloned()));
        return true;
    }
    false
}

/// Rename the bindings so that the specification's names are present. Names both sides know divide the
/// function into segments; the remaining ones are matched in order within a segment, or else over the function.
pub fn align(f: &mut Func, canon: &[String], text: &str) -> R<()> {
    if canon.is_empty() {
        return Ok(());
    }
    let words: std::collections::HashSet<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let needed = |s: &str| words.contains(s);
    let cur = bindings(f);
    let missing: Vec<String> = canon.iter().filter(|n| !cur.contains(n)).cloned().collect();
    let extra: Vec<String> = cur.iter().filter(|n| !canon.contains(n)).cloned().collect();
    if missing.is_empty() {
        return Ok(());
    }
    let mut map: HashMap<String, String> = HashMap::new();
    let both = |l: &[String], o: &[String]| -> Vec<String> { l.iter().filter(|n| o.contains(n)).cloned().collect() };
    let mut ok = missing.len() == extra.len() && pair(&missing, &extra, &needed, &mut map);
    if !ok && both(canon, &cur) == both(&cur, canon) {
        ok = true;
        let segments = |l: &[String], o: &[String]| -> Vec<Vec<String>> {
            let mut v = vec![vec![]];
            for n in l {
                if o.contains(n) {
                    v.push(vec![]);
                } else {
                    v.last_mut().unwrap().push(n.clone());
                }
            }
            v
        };
        for (m, e) in segments(canon, &cur).iter().zip(segments(&cur, canon).iter()) {
            ok &= pair(m, e, &needed, &mut map);
        }
    }
    if !ok {
        map.clear();
        ok = pair(&missing, &extra, &needed, &mut map);
    }
    if !ok {
        return Err(format!("lost anchor: bindings {missing:?} not found (present: {extra:?})"));
    }
    let mut r = Ren(&map);
    for i in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = i {
            r.visit_pat_mut(&mut t.pat);
        }
    }
    r.visit_block_mut(&mut f.block);
    Ok(())
}

struct Loops<'a> {
    want: &'a str,
    pushed: Vec<String>,
    inside: bool,
}
impl<'a> Visit<'a> for Loops<'_> {
    fn visit_block(&mut self, b: &'a Block) {
        let here = matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__loop_marker") && m.mac.tokens.to_string().trim() == self.want);
        let was = self.inside;
        self.inside |= here;
        visit::visit_block(self, b);
        self.inside = was;
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.inside && m.method == "push" {
            if let Expr::Path(p) = &*m.receiver {
                if let Some(i) = p.path.get_ident() {
                    if !self.pushed.contains(&i.to_string()) {
                        self.pushed.push(i.to_string());
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

fn rename_all(f: &mut Func, from: &str, to: &str) {
    let map: HashMap<String, String> = [(from.to_string(), to.to_string())].into_iter().collect();
    Ren(&map).visit_block_mut(&mut f.block);
}

/// A sequence collected by a chain and one pushed to by a loop are the same thing under different names: the
/// specification calls it `accK` when the chain's value has no name of its own.
pub fn accumulators(f: &mut Func, canon: &[String], loops: &std::collections::BTreeMap<usize, String>, text: &str) {
    let words: std::collections::HashSet<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let mut bound = AllNames(vec![]);
    bound.visit_block(&f.block);
    for k in 0..16usize {
        let acc = format!("acc{k}");
        let in_code = bound.0.contains(&acc);
        if words.contains(acc.as_str()) && !in_code {
            let mut l = Loops { want: &k.to_string(), pushed: vec![], inside: false };
            l.visit_block(&f.block);
            l.pushed.retain(|p| !canon.contains(p));
            if let [x] = &l.pushed[..] {
                rename_all(f, x, &acc);
            }
        } else if in_code && !words.contains(acc.as_str()) {
            let Some(spec) = loops.get(&k) else { continue };
            let names: Vec<&String> = canon.iter().filter(|n| !bound.0.contains(n) && spec.contains(&format!("{n}@"))).collect();
            if let [x] = names[..] {
                rename_all(f, &acc, x);
            }
        }
    }
}

struct AllNames(Vec<String>);
impl<'a> Visit<'a> for AllNames {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

struct Strip;
fn pure_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure_lit),
        Expr::Paren(p) => pure_lit(&p.expr),
        Expr::Reference(r) => pure_lit(&r.expr),
        Expr::Binary(b) => matches!((&*b.left, &*b.right), (Expr::Lit(_), Expr::Lit(_))),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Cast(c) => pure_lit(&c.expr),
        _ => false,
    }
}
impl VisitMut for Strip {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => {
                let wild = match &l.pat {
                    Pat::Wild(_) => true,
                    Pat::Type(t) => matches!(&*t.pat, Pat::Wild(_)),
                    _ => false,
                };
                !(wild && l.init.as_ref().map_or(true, |i| matches!(&*i.expr, Expr::Lit(_) | Expr::Tuple(_) | Expr::Reference(_) | Expr::Binary(_)) && pure_lit(&i.expr)))
            }
            Stmt::Expr(e, Some(_)) => !pure_lit(e),
            Stmt::Expr(Expr::If(i), _) => !(matches!(&*i.cond, Expr::Lit(l) if matches!(&l.lit, Lit::Bool(b) if !b.value)) && i.else_branch.is_none()),
            Stmt::Item(Item::Const(_)) | Stmt::Item(Item::Use(_)) => true,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

/// Drop statements without effect (`();`, `let _ = 0;`).
pub fn strip_noops(b: &mut Block) {
    Strip.visit_block_mut(b);
}
