//! `f(a, g(b))` becomes `let arg0 = a; let arg1 = g(b); f(arg0, arg1)` where f's call is the whole value
//! of a statement: the arguments are evaluated in the same order, and proof hints fit between them.
use crate::source::Func;
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};
use syn::*;
type Result<T, E> = std::result::Result<T, E>;

struct H(usize);
impl H {
    fn split(&mut self, e: &mut Expr, out: &mut Vec<Stmt>) {
        let Expr::Call(c) = e else { return };
        if c.args.len() == 1 && matches!(&c.args[0], Expr::Call(_)) && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) {
            return self.split(&mut c.args[0], out);
        }
        if !c.args.iter().any(|a| matches!(a, Expr::Call(_))) {
            return;
        }
        for a in c.args.iter_mut() {
            if matches!(a, Expr::Lit(_)) || matches!(a, Expr::Reference(_)) {
                continue;
            }
            let n = format_ident!("arg{}", self.0);
            self.0 += 1;
            out.push(parse_quote!(let #n = #a;));
            *a = parse_quote!(#n);
        }
    }
}
impl VisitMut for H {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.split(&mut i.expr, &mut out);
                    }
                }
                Stmt::Expr(e, _) => self.split(e, &mut out),
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

pub fn hoist(f: &mut Func) {
    H(0).visit_block_mut(&mut f.block);
}

/// Calls of a function whose contract has ghost parameters pass a ghost argument.
struct Pass<'a>(&'a str, Expr);
impl VisitMut for Pass<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map_or(false, |s| s.ident == self.0) {
                c.args.push(self.1.clone());
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
}
pub fn pass(f: &mut Func, callee: &str, arg: &str) -> Result<(), String> {
    let e: Expr = parse_str(arg).map_err(|e| format!("template: pass {callee}: {e}"))?;
    Pass(callee, e).visit_block_mut(&mut f.block);
    Ok(())
}
