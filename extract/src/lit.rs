//! `F::from_f64(constant expression)` becomes `F::lit(expression, Ghost(the same expression over the reals))`.
use crate::source::Src;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lits<'a> {
    pub src: &'a Src,
    pub self_ty: Option<String>,
}

fn decimal(s: &str) -> Option<String> {
    let s = s.replace('_', "");
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (s[..i].to_string(), s[i + 1..].parse::<i32>().ok()?),
        None => (s, 0),
    };
    let (a, b) = m.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((m.clone(), String::new()));
    if !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) || e.abs() > 30 {
        return None;
    }
    let mut digits = format!("{a}{b}");
    let mut point = a.len() as i32 + e;
    while point < 1 {
        digits.insert(0, '0');
        point += 1;
    }
    while (digits.len() as i32) < point {
        digits.push('0');
    }
    let (x, y) = digits.split_at(point as usize);
    Some(format!("{x}.{}", if y.is_empty() { "0" } else { y }))
}

impl Lits<'_> {
    /// Constants of the source resolved.
    fn resolve(&self, e: &Expr, depth: usize) -> Option<Expr> {
        if depth > 8 {
            return None;
        }
        Some(match e {
            Expr::Lit(l) if matches!(l.lit, Lit::Float(_) | Lit::Int(_)) => e.clone(),
            Expr::Paren(p) => {
                let x = self.resolve(&p.expr, depth + 1)?;
                parse_quote!((#x))
            }
            Expr::Group(p) => self.resolve(&p.expr, depth + 1)?,
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => {
                let x = self.resolve(&u.expr, depth + 1)?;
                parse_quote!(-#x)
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) => {
                let (l, r, o) = (self.resolve(&b.left, depth + 1)?, self.resolve(&b.right, depth + 1)?, &b.op);
                parse_quote!(#l #o #r)
            }
            Expr::Path(p) => {
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match seg.as_slice() {
                    [a] => a.clone(),
                    [s, a] if s == "Self" => format!("{}::{a}", self.self_ty.clone()?),
                    [t, a] => format!("{t}::{a}"),
                    _ => return None,
                };
                match self.src.items.get(&key).map(|v| v.as_slice()) {
                    Some([Item::Const(c)]) => {
                        let x = self.resolve(&c.expr, depth + 1)?;
                        parse_quote!((#x))
                    }
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
}

fn real(e: &Expr) -> Option<Expr> {
    Some(match e {
        Expr::Lit(l) => {
            let s = match &l.lit {
                Lit::Float(f) => f.base10_digits().to_string(),
                Lit::Int(i) => i.base10_digits().to_string(),
                _ => return None,
            };
            let f = LitFloat::new(&format!("{}real", decimal(&s)?), proc_macro2::Span::call_site());
            parse_quote!(#f)
        }
        Expr::Paren(p) => {
            let x = real(&p.expr)?;
            parse_quote!((#x))
        }
        Expr::Unary(u) => {
            let x = real(&u.expr)?;
            parse_quote!((-#x))
        }
        Expr::Binary(b) => {
            let (l, r, o) = (real(&b.left)?, real(&b.right)?, &b.op);
            parse_quote!((#l #o #r))
        }
        _ => return None,
    })
}

/// Roundings on the way to the double-precision value, at most 2^-53 relative each: specs/coq/Round.v allows for three.
/// None for what could cancel.
fn roundings(e: &Expr) -> Option<usize> {
    fn whole(e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => i.base10_parse::<u64>().is_ok_and(|n| n <= 1 << 20),
                Lit::Float(f) => f.base10_parse::<f64>().is_ok_and(|x| x.fract() == 0.0 && x <= 1048576.0),
                _ => false,
            },
            Expr::Paren(p) => whole(&p.expr),
            Expr::Unary(u) => whole(&u.expr),
            _ => false,
        }
    }
    Some(match e {
        Expr::Lit(_) => usize::from(!whole(e)),
        Expr::Paren(p) => roundings(&p.expr)?,
        Expr::Unary(u) => roundings(&u.expr)?,
        Expr::Binary(b) => match b.op {
            _ if whole(&b.left) && whole(&b.right) => usize::from(matches!(b.op, BinOp::Div(_))),
            BinOp::Mul(_) | BinOp::Div(_) => roundings(&b.left)? + roundings(&b.right)? + 1,
            _ => return None,
        },
        _ => return None,
    })
}

impl VisitMut for Lits<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = if let Expr::Call(c) = e {
            match (&*c.func, c.args.first()) {
                (Expr::Path(p), Some(a)) if p.path.segments.len() == 2 && p.path.segments[1].ident == "from_f64" => self.resolve(a, 0).and_then(|x| {
                    let g = real(&x)?;
                    if roundings(&x)? > 3 {
                        return None;
                    }
                    let mut f = p.clone();
                    f.path.segments[1].ident = Ident::new("lit", p.path.segments[1].ident.span());
                    Some(parse_quote!(#f(Ghost(#g))))
                }),
                _ => None,
            }
        } else {
            None
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
