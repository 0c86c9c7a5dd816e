//! The real source: every function, struct and enum by name.
use crate::R;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct Func {
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<String>,
}

pub struct Src {
    pub fns: HashMap<String, Vec<Func>>,
    pub items: HashMap<String, Vec<Item>>,
    pub rules: crate::macros::Rules,
    pub complaints: Vec<String>,
}

fn hidden(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::quote!(#a).to_string();
        s.contains("test") || s.contains("verif_hooks")
    })
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

impl Src {
    pub fn function(&self, path: &str) -> R<Func> {
        match self.fns.get(path).map(|v| v.as_slice()) {
            Some([f]) => Ok(f.clone()),
            Some(_) => Err("more than one function of this name".into()),
            None => Err(format!("function not found in the source {}", self.complaints.join("; "))),
        }
    }
    fn add(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !hidden(&f.attrs) => {
                    self.fns.entry(f.sig.ident.to_string()).or_default().push(Func { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None });
                }
                Item::Impl(im) if !hidden(&im.attrs) => {
                    let ty = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().clone());
                    for ii in &im.items {
                        if let ImplItem::Const(c) = ii {
                            let (id, t, e) = (&c.ident, &c.ty, &c.expr);
                            let it: Item = parse_quote!(pub const #id: #t = #e;);
                            self.items.entry(format!("{ty}::{id}")).or_default().push(it);
                        }
                        if let ImplItem::Fn(f) = ii {
                            if hidden(&f.attrs) {
                                continue;
                            }
                            let func = Func { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some(ty.clone()) };
                            let mut keys = vec![];
                            // `From<&XYZ<F>> for Rgba` gets the key Rgba::from<XYZ>
                            if let Some(seg) = &tr {
                                if seg.ident == "From" {
                                    if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                                        if let Some(GenericArgument::Type(t)) = ab.args.first() {
                                            keys.push(format!("{ty}::from<{}>", type_name(t)));
                                        }
                                    }
                                }
                                keys.push(format!("{ty}::{}::{}", seg.ident, f.sig.ident));
                            }
                            keys.push(format!("{ty}::{}", f.sig.ident));
                            for k in keys {
                                self.fns.entry(k).or_default().push(func.clone());
                            }
                        }
                    }
                }
                Item::Macro(m) if !hidden(&m.attrs) => {
                    if let Some(name) = &m.ident {
                        match crate::macros::rules(m.mac.tokens.clone()) {
                            Ok(r) => {
                                self.rules.insert(name.to_string(), r);
                            }
                            Err(e) => self.complaints.push(e),
                        }
                    } else if let Some(name) = m.mac.path.get_ident().map(|i| i.to_string()) {
                        match crate::macros::expand(&self.rules, &name, m.mac.tokens.clone()) {
                            Ok(None) => {}
                            Ok(Some(ts)) => match syn::parse2::<File>(ts) {
                                Ok(f) => self.add(&f.items),
                                Err(e) => self.complaints.push(format!("{name}!: {e}")),
                            },
                            Err(e) => self.complaints.push(e),
                        }
                    }
                }
                Item::Struct(s) if !hidden(&s.attrs) => self.items.entry(s.ident.to_string()).or_default().push(it.clone()),
                Item::Enum(s) if !hidden(&s.attrs) => self.items.entry(s.ident.to_string()).or_default().push(it.clone()),
                Item::Const(s) if !hidden(&s.attrs) => self.items.entry(s.ident.to_string()).or_default().push(it.clone()),
                Item::Mod(m) if !hidden(&m.attrs) => {
                    if let Some((_, v)) = &m.content {
                        self.add(v);
                    }
                }
                _ => {}
            }
        }
    }
}

/// `dir` is a source directory, or a comma-separated list of files (to tell equal names apart).
pub fn load(list: &str) -> R<Src> {
    let mut s = Src { fns: HashMap::new(), items: HashMap::new(), rules: HashMap::new(), complaints: vec![] };
    fn walk(p: &std::path::Path, s: &mut Src) -> R<()> {
        if p.is_dir() {
            let mut v: Vec<_> = std::fs::read_dir(p).map_err(|e| e.to_string())?.map(|e| e.unwrap().path()).collect();
            v.sort();
            for e in v {
                walk(&e, s)?;
            }
        } else if p.extension().map_or(false, |e| e == "rs") {
            let text = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
            let f = syn::parse_file(&text).map_err(|e| format!("{}: {e}", p.display()))?;
            s.rules.clear(); // macros are scoped to their file
            s.add(&f.items);
        }
        Ok(())
    }
    for p in list.split(',') {
        walk(std::path::Path::new(p), &mut s)?;
    }
    Ok(s)
}
