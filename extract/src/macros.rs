//! Item macros of the source (macro_rules with fragments, repetitions and a single or several arms).
use crate::R;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

pub type Rules = HashMap<String, Vec<(TokenStream, TokenStream)>>;

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

pub fn rules(ts: TokenStream) -> R<Vec<(TokenStream, TokenStream)>> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == ';' => continue,
            TokenTree::Group(pat) => {
                let (Some(TokenTree::Punct(_)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(body))) = (it.next(), it.next(), it.next()) else {
                    return Err("macro arm not understood".into());
                };
                out.push((pat.stream(), body.stream()));
            }
            _ => return Err("macro arm not understood".into()),
        }
    }
    Ok(out)
}

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// `$( ... ) sep op` starting after the dollar sign: the group, the separator, the operator, the tokens used.
fn repetition(ts: &[TokenTree], i: usize) -> Option<(Group, Vec<TokenTree>, char, usize)> {
    let Some(TokenTree::Group(g)) = ts.get(i) else { return None };
    if g.delimiter() != Delimiter::Parenthesis {
        return None;
    }
    let mut sep = vec![];
    let mut j = i + 1;
    // the operator is the first + * or ? (a separator may itself not be one of these)
    while let Some(t) = ts.get(j) {
        if let TokenTree::Punct(p) = t {
            if ['+', '*', '?'].contains(&p.as_char()) {
                return Some((g.clone(), sep, p.as_char(), j + 1));
            }
        }
        sep.push(t.clone());
        if sep.len() > 3 {
            return None;
        }
        j += 1;
    }
    None
}

fn fragment(kind: &str, ts: &[TokenTree], i: usize) -> Option<(TokenStream, usize)> {
    match kind {
        "tt" => ts.get(i).map(|t| (t.clone().into(), i + 1)),
        "ident" => match ts.get(i) {
            Some(t @ TokenTree::Ident(_)) => Some((t.clone().into(), i + 1)),
            _ => None,
        },
        "literal" => match ts.get(i) {
            Some(t @ TokenTree::Literal(_)) => Some((t.clone().into(), i + 1)),
            _ => None,
        },
        "expr" | "ty" | "path" => {
            let rest: TokenStream = ts[i..].iter().cloned().collect();
            let n = ts.len() - i;
            let f = |s: ParseStream| -> syn::Result<(TokenStream, usize)> {
                use quote::ToTokens;
                let v = match kind {
                    "expr" => s.parse::<syn::Expr>()?.to_token_stream(),
                    "ty" => s.parse::<syn::Type>()?.to_token_stream(),
                    _ => s.parse::<syn::Path>()?.to_token_stream(),
                };
                let left: TokenStream = s.parse()?;
                Ok((v, left.into_iter().count()))
            };
            let (v, left) = f.parse2(rest).ok()?;
            let single = v.clone().into_iter().count() == 1;
            let v = if kind == "expr" && !single { TokenTree::Group(Group::new(Delimiter::Parenthesis, v)).into() } else { v };
            Some((v, i + n - left))
        }
        _ => None,
    }
}

fn matches(pat: &[TokenTree], ts: &[TokenTree], mut i: usize, b: &mut Binds) -> Option<usize> {
    let mut p = 0;
    while p < pat.len() {
        if is_punct(pat.get(p), '$') {
            if let Some((g, sep, op, next)) = repetition(pat, p + 1) {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut all: Vec<Binds> = vec![];
                loop {
                    let mut j = i;
                    if !all.is_empty() && !sep.is_empty() {
                        let ok = sep.iter().enumerate().all(|(k, s)| ts.get(i + k).map_or(false, |t| t.to_string() == s.to_string()));
                        if !ok {
                            break;
                        }
                        j += sep.len();
                    }
                    if j >= ts.len() {
                        break;
                    }
                    let mut one = Binds::new();
                    match matches(&inner, ts, j, &mut one) {
                        Some(k) if k > j => {
                            i = k;
                            all.push(one);
                        }
                        _ => break,
                    }
                    if op == '?' {
                        break;
                    }
                }
                if op == '+' && all.is_empty() {
                    return None;
                }
                let mut names = vec![];
                vars(&inner, &mut names);
                for n in names {
                    b.insert(n.clone(), Bind::Many(all.iter().map(|m| m.clone()).collect()));
                }
                p = next;
                continue;
            }
            let (Some(TokenTree::Ident(n)), true, Some(TokenTree::Ident(k))) = (pat.get(p + 1), is_punct(pat.get(p + 2), ':'), pat.get(p + 3)) else {
                return None;
            };
            let (v, k) = fragment(&k.to_string(), ts, i)?;
            b.insert(n.to_string(), Bind::One(v));
            i = k;
            p += 4;
            continue;
        }
        match (&pat[p], ts.get(i)?) {
            (TokenTree::Group(a), TokenTree::Group(c)) if a.delimiter() == c.delimiter() => {
                let (a, c): (Vec<TokenTree>, Vec<TokenTree>) = (a.stream().into_iter().collect(), c.stream().into_iter().collect());
                if matches(&a, &c, 0, b)? != c.len() {
                    return None;
                }
            }
            (TokenTree::Group(_), _) => return None,
            (a, c) if a.to_string() == c.to_string() => {}
            _ => return None,
        }
        p += 1;
        i += 1;
    }
    Some(i)
}

fn vars(pat: &[TokenTree], out: &mut Vec<String>) {
    for (k, t) in pat.iter().enumerate() {
        match t {
            TokenTree::Group(g) => vars(&g.stream().into_iter().collect::<Vec<_>>(), out),
            TokenTree::Ident(n) if k > 0 && is_punct(pat.get(k - 1), '$') => out.push(n.to_string()),
            _ => {}
        }
    }
}

fn fill(body: &[TokenTree], b: &Binds) -> R<TokenStream> {
    let mut out = TokenStream::new();
    let mut p = 0;
    while p < body.len() {
        if is_punct(body.get(p), '$') {
            if let Some((g, sep, _, next)) = repetition(body, p + 1) {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut names = vec![];
                vars(&inner, &mut names);
                let many = names.iter().find_map(|n| if let Some(Bind::Many(m)) = b.get(n) { Some(m) } else { None });
                let Some(many) = many else { return Err("macro repetition without a variable".into()) };
                for (k, m) in many.iter().enumerate() {
                    if k > 0 {
                        out.extend(sep.iter().cloned());
                    }
                    let mut env = b.clone();
                    env.extend(m.clone());
                    out.extend(fill(&inner, &env)?);
                }
                p = next;
                continue;
            }
            if let Some(TokenTree::Ident(n)) = body.get(p + 1) {
                match b.get(&n.to_string()) {
                    Some(Bind::One(v)) => out.extend(v.clone()),
                    _ => return Err(format!("macro variable ${n}")),
                }
                p += 2;
                continue;
            }
            return Err("macro body not understood".into());
        }
        match &body[p] {
            TokenTree::Group(g) => {
                let s = fill(&g.stream().into_iter().collect::<Vec<_>>(), b)?;
                let mut n = Group::new(g.delimiter(), s);
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        p += 1;
    }
    Ok(out)
}

pub fn expand(rules: &Rules, name: &str, args: TokenStream) -> R<Option<TokenStream>> {
    let Some(arms) = rules.get(name) else { return Ok(None) };
    let ts: Vec<TokenTree> = args.into_iter().collect();
    for (pat, body) in arms {
        let pat: Vec<TokenTree> = pat.clone().into_iter().collect();
        let mut b = Binds::new();
        if matches(&pat, &ts, 0, &mut b) == Some(ts.len()) {
            return fill(&body.clone().into_iter().collect::<Vec<_>>(), &b).map(Some);
        }
    }
    Err(format!("no arm of {name}! matches its call"))
}
