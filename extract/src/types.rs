//! Types: generic parameters become the opaque types of the unit; attributes, visibility and
//! phantom fields go.
use crate::source::{Func, Src};
use crate::{Config, R};
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const CONTAINERS: &[&str] = &["Vec", "Option", "HashMap", "HashSet", "BinaryHeap", "VecDeque", "Box", "Reverse", "Ghost", "Tracked", "Fn"];

pub struct Rewrite<'a>(pub &'a Config);
impl Rewrite<'_> {
    fn droppable(&self, a: &GenericArgument) -> bool {
        match a {
            GenericArgument::Type(Type::Path(p)) => p.path.get_ident().map_or(false, |i| {
                // a parameter that goes, or the type that stands for one
                self.0.generic.contains(&i.to_string()) || self.0.subst.iter().any(|(a, b)| i == b && self.0.generic.contains(a))
            }),
            _ => false,
        }
    }
}
impl VisitMut for Rewrite<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        for seg in p.segments.iter_mut() {
            for (a, b) in &self.0.subst {
                if seg.ident == a {
                    seg.ident = Ident::new(b, seg.ident.span());
                }
            }
            let container = CONTAINERS.contains(&seg.ident.to_string().as_str());
            if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                let kept = self.0.turbofish && seg.ident.to_string().starts_with(|c: char| c.is_lowercase());
                if !container && !kept {
                    let keep: Vec<_> = ab.args.iter().filter(|a| !self.droppable(a)).cloned().collect();
                    ab.args = keep.into_iter().collect();
                    if ab.args.is_empty() {
                        seg.arguments = PathArguments::None;
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if let (Some(t), false) = (&mut m.turbofish, self.0.turbofish) {
            let keep: Vec<_> = t.args.iter().filter(|a| !self.droppable(a)).cloned().collect();
            t.args = keep.into_iter().collect();
        }
        if m.turbofish.as_ref().map_or(false, |t| t.args.is_empty()) {
            m.turbofish = None;
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let keep: Vec<_> = s.fields.iter().filter(|f| !f.expr.to_token_stream().to_string().starts_with("PhantomData")).cloned().collect();
        s.fields = keep.into_iter().collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn rewrite_fn(cfg: &Config, f: &mut Func) {
    let mut r = Rewrite(cfg);
    // generics that are not replaced stay (function-typed parameters)
    let params: Vec<GenericParam> = f
        .sig
        .generics
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !cfg.generic.contains(&t.ident.to_string()) && !cfg.subst.iter().any(|s| t.ident == s.0),
            _ => true,
        })
        .cloned()
        .collect();
    let names: Vec<String> = params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
    let wc: Vec<WherePredicate> = f
        .sig
        .generics
        .where_clause
        .iter()
        .flat_map(|w| w.predicates.iter())
        .filter(|p| match p {
            WherePredicate::Type(t) => {
                let b = &t.bounded_ty;
                names.contains(&quote!(#b).to_string())
            }
            _ => false,
        })
        .cloned()
        .collect();
    f.sig.generics.params = params.into_iter().collect();
    f.sig.generics.where_clause = if wc.is_empty() { None } else { Some(WhereClause { where_token: Default::default(), predicates: wc.into_iter().collect() }) };
    r.visit_signature_mut(&mut f.sig);
    r.visit_block_mut(&mut f.block);
}

fn phantom(t: &Type) -> bool {
    crate::source::type_name(t) == "PhantomData"
}

fn generics(cfg: &Config, g: &mut Generics) {
    let keep: Vec<_> = g
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !cfg.generic.contains(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    g.params = keep.into_iter().collect();
    g.where_clause = None;
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
}

/// A struct, enum or constant of the source.
pub fn item(src: &Src, cfg: &Config, name: &str, prefix: &str) -> R<String> {
    let it = match src.items.get(name).map(|v| v.as_slice()) {
        Some([i]) => i.clone(),
        Some(_) => return Err(format!("{name}: more than one item of this name")),
        None => return Err(format!("{name}: not found in the source")),
    };
    let mut r = Rewrite(cfg);
    let ts = match it {
        Item::Struct(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            generics(cfg, &mut s.generics);
            if let Fields::Named(n) = &mut s.fields {
                let keep: Vec<Field> = n.named.iter().filter(|f| !phantom(&f.ty)).cloned().collect();
                n.named = keep.into_iter().collect();
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            r.visit_item_struct_mut(&mut s);
            quote!(#s)
        }
        Item::Enum(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            generics(cfg, &mut s.generics);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
            r.visit_item_enum_mut(&mut s);
            quote!(#s)
        }
        Item::Const(mut c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            quote!(#c)
        }
        _ => return Err(format!("{name}: unsupported item")),
    };
    Ok(format!("// @begin {name}\n{prefix}\n{}\n// @end {name}\n", crate::fmt::print(ts, &Default::default())))
}
