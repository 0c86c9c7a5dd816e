//! vextract REPO_SRC TEMPLATE OUT
//! Fills a Verus template with the functions, types and constants of the real source.
//! Exit 0: written; exit 3: an anchor is lost or a construct is not supported (reason on stdout).
mod desugar;
mod fmt;
mod hoist;
mod inline;
mod lit;
mod macros;
mod names;
mod source;
mod types;

use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub path: String,
    pub alias: Option<String>,
    pub sig: String,
    pub attrs: String,
    pub ret: String,
    pub loops: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub names: Vec<String>,
    pub nloops: usize,
    pub closures: BTreeMap<usize, String>,
    pub ghost: Vec<String>, // ghost parameters appended to the signature
    pub vis: String,
    pub panic_fn: String,
    pub hoist: bool,
    pub helpers: Vec<inline::Helper>,
    pub trust: String, // the unit that discharges this contract, when only the contract is wanted here
    pub props: String, // the properties that rest on this function, where not all of the unit's do
    pub pass: Vec<(String, String)>, // ghost arguments added to the calls of a function
}

pub struct Config {
    pub generic: Vec<String>,        // generic parameters replaced by opaque types of the unit
    pub closures: bool,               // local closures are inlined at their calls
    pub turbofish: bool,              // functions keep their generic arguments
    pub lit: bool,                    // decimal constants carry the real number they denote
    pub contracts: Vec<String>,      // functions under contract or trusted: never inlined
    pub subst: Vec<(String, String)>, // token-level type substitutions, e.g. N -> KDTree
}

fn parse_template(text: &str) -> R<(Vec<Piece>, Config)> {
    let mut pieces = vec![];
    let mut cfg = Config { closures: false, lit: false, turbofish: false, generic: vec!["F".into(), "P".into(), "R".into(), "W".into(), "T".into(), "V".into()], contracts: vec![], subst: vec![] };
    let mut lit = String::new();
    let mut cur: Option<FnSpec> = None;
    let mut section = String::new();
    let mut trust = String::new();
    for line in text.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let mut w = d.split_whitespace();
            let k = w.next().unwrap_or("");
            let rest: Vec<String> = w.map(|s| s.to_string()).collect();
            if let Some(f) = cur.as_mut() {
                match k {
                    "sig" | "attrs" => section = k.to_string(),
                    "ret" => f.ret = rest.join(" "),
                    "names" => f.names = rest,
                    "nloops" => f.nloops = rest[0].parse().map_err(|_| "nloops")?,
                    "closure" => section = format!("closure {}", rest[0]),
                    "ghost" => f.ghost.push(rest.join(" ")),
                    "hoist" => f.hoist = true,
                    "helper" => {
                        // helper METHOD,METHOD.. LEMMAS
                        section = format!("helper {}", f.helpers.len());
                        let has = rest[0].split(',').map(|s| s.to_string()).collect();
                        f.helpers.push(inline::Helper { has, uses: rest[1..].join(" "), spec: String::new() });
                    }
                    "for" => f.props = rest.iter().map(|p| format!(" @{p}")).collect(),
                    "pass" => f.pass.push((rest[0].clone(), rest[1..].join(" "))),
                    "vis" => f.vis = rest.join(" ") + " ",
                    "panic" => f.panic_fn = rest[0].clone(),
                    "loop" => section = format!("loop {}", rest[0]),
                    "at" => {
                        section = format!("at {}", f.at.len());
                        f.at.push((rest.join(" "), String::new()));
                    }
                    "end" => {
                        pieces.push(Piece::Fn(cur.take().unwrap()));
                        section.clear();
                    }
                    o => return Err(format!("template: unknown directive {o} inside fn")),
                }
                continue;
            }
            if !lit.is_empty() {
                pieces.push(Piece::Text(std::mem::take(&mut lit)));
            }
            match k {
                "fn" => {
                    cur = Some(FnSpec { path: rest[0].clone(), alias: rest.get(2).cloned(), ret: "r".into(), nloops: usize::MAX, vis: "pub ".into(), panic_fn: "panic_".into(), trust: trust.clone(), ..Default::default() });
                    section = "sig".into();
                }
                "struct" => pieces.push(Piece::Item(rest[0].clone(), rest[1..].join(" "))),
                "proved_in" => trust = rest.join(" "),
                "contract" => cfg.contracts.extend(rest),
                "inline_closures" => cfg.closures = true,
                "literals" => cfg.lit = true,
                "turbofish" => cfg.turbofish = true,
                "generic" => cfg.generic = rest,
                "subst" => cfg.subst.push((rest[0].clone(), rest[1].clone())),
                o => return Err(format!("template: unknown directive {o}")),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let tgt = match section.split_once(' ') {
                None if section == "sig" => &mut f.sig,
                None if section == "attrs" => &mut f.attrs,
                Some(("loop", n)) => f.loops.entry(n.parse().unwrap()).or_default(),
                Some(("helper", n)) => &mut f.helpers[n.parse::<usize>().unwrap()].spec,
                Some(("closure", n)) => f.closures.entry(n.parse().unwrap()).or_default(),
                Some(("at", n)) => &mut f.at[n.parse::<usize>().unwrap()].1,
                _ => return Err(format!("template: text outside a section: {line}")),
            };
            tgt.push_str(line);
            tgt.push('\n');
        } else {
            lit.push_str(line);
            lit.push('\n');
        }
    }
    if cur.is_some() {
        return Err("template: fn without end".into());
    }
    pieces.push(Piece::Text(lit));
    for p in &pieces {
        if let Piece::Fn(f) = p {
            cfg.contracts.push(f.path.clone());
        }
    }
    Ok((pieces, cfg))
}

enum Piece {
    Text(String),
    Item(String, String),
    Fn(FnSpec),
}

fn run(a: &[String]) -> R<()> {
    let text = std::fs::read_to_string(&a[2]).map_err(|e| e.to_string())?;
    // textual includes of shared specification files
    let dir = std::path::Path::new(&a[2]).parent().unwrap();
    let mut full = String::new();
    let mut sources: Vec<String> = vec![];
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@source ") {
            // the part of the source tree this unit reads
            sources.extend(f.split_whitespace().map(|f| format!("{}/{f}", a[1])));
        } else if let Some(f) = l.trim().strip_prefix("//@include ") {
            full.push_str(&std::fs::read_to_string(dir.join(f.trim())).map_err(|e| format!("{f}: {e}"))?);
        } else {
            full.push_str(l);
        }
        full.push('\n');
    }
    let src = source::load(&if sources.is_empty() { a[1].clone() } else { sources.join(",") })?;
    // numbers that differ between units
    let mut defs: Vec<(String, String)> = full
        .lines()
        .filter_map(|l| l.trim().strip_prefix("//@define ").map(|d| d.split_once(' ').unwrap_or((d, ""))))
        .map(|(a, b)| (format!("${a}"), b.trim().to_string()))
        .collect();
    defs.sort_by_key(|d| std::cmp::Reverse(d.0.len()));
    let mut full: String = full.lines().filter(|l| !l.trim().starts_with("//@define ")).map(|l| format!("{l}\n")).collect();
    for (a, b) in &defs {
        full = full.replace(a, b);
    }
    let (pieces, cfg) = parse_template(&full)?;
    let mut out = String::new();
    let mut lost = vec![];
    for p in &pieces {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Item(n, pre) => match types::item(&src, &cfg, n, pre) {
                Ok(s) => out.push_str(&s),
                Err(e) => return Err(e),
            },
            Piece::Fn(f) => {
                out.push_str(&format!("// @begin {}{}\n", f.alias.as_ref().unwrap_or(&f.path), f.props));
                match build_fn(&src, &cfg, f) {
                    Ok(s) => out.push_str(&s),
                    Err(e) => lost.push(format!("{}: {e}", f.path)),
                }
                out.push_str(&format!("// @end {}\n", f.alias.as_ref().unwrap_or(&f.path)));
            }
        }
    }
    if !lost.is_empty() {
        return Err(lost.join("\n"));
    }
    idioms(&a[2], &mut out)?;
    std::fs::write(&a[3], out).map_err(|e| e.to_string())
}

/// Contracts of library functions, added only to units whose code uses the function.
fn idioms(spec: &str, out: &mut String) -> R<()> {
    let p = std::path::Path::new(spec).with_file_name("idioms.inc");
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
    let code: String = code_of(out);
    let words: std::collections::HashSet<&str> = code.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let mut add = String::new();
    for b in t.split("//@idiom ").skip(1) {
        let (names, body) = b.split_once('\n').unwrap_or((b, ""));
        // a lone name has to be called as a method or a path
        let mut all = names.split_whitespace();
        if all.clone().count() == 1 {
            let n = all.next().unwrap();
            if ![format!(".{n}("), format!("::{n}("), format!(". {n} ("), format!(":: {n} (")].iter().any(|c| code.contains(c.as_str())) {
                continue;
            }
        } else if !all.all(|n| words.contains(n)) {
            continue;
        }
        if !out.contains(body.lines().next().unwrap_or("").split(" ensures").next().unwrap_or("")) {
            add.push_str(body);
        }
    }
    if !add.is_empty() {
        if !out.contains("feature(allocator_api)") && add.contains("Allocator") {
            out.insert_str(0, "#![feature(allocator_api)]\n");
        }
        out.push_str("\nverus! {\n");
        out.push_str(&add);
        out.push_str("} // verus!\n");
    }
    Ok(())
}

/// The extracted functions, without the text of the template around them.
fn code_of(out: &str) -> String {
    let mut s = String::new();
    let mut inside = false;
    for l in out.lines() {
        let t = l.trim_start();
        if t.starts_with("// @begin ") {
            inside = true;
        } else if t.starts_with("// @end ") {
            inside = false;
        } else if inside {
            s.push_str(l);
            s.push('\n');
        }
    }
    s
}

fn build_fn(src: &source::Src, cfg: &Config, f: &FnSpec) -> R<String> {
    let mut item = src.function(&f.path)?;
    if !f.trust.is_empty() {
        // only the signature and the contract; the body is checked in another unit
        item.block = syn::parse_str("{ unimplemented!() }").unwrap();
        let mut g = f.clone();
        g.attrs = format!("#[verifier::external_body] // contract discharged in {}\n", f.trust);
        g.loops.clear();
        g.at.clear();
        g.closures.clear();
        g.pass.clear();
        g.names.clear();
        g.nloops = usize::MAX;
        types::rewrite_fn(cfg, &mut item);
        return fmt::emit(&g, &item, 0);
    }
    let alias = f.alias.clone().unwrap_or(item.sig.ident.to_string());
    let lifted = inline::inline(src, cfg, &alias, &f.helpers, &mut item)?;
    let mut out = String::new();
    for (k, h) in lifted {
        let mut spec = FnSpec { path: format!("{alias}_helper{k}"), sig: f.helpers[k].spec.clone(), ret: "r".into(), nloops: usize::MAX, vis: "pub ".into(), panic_fn: f.panic_fn.clone(), ..Default::default() };
        spec.alias = Some(spec.path.clone());
        if !f.helpers[k].uses.is_empty() {
            spec.at.push(("start".into(), format!("    broadcast use {};\n", f.helpers[k].uses)));
        }
        out.push_str(&finish(src, cfg, &spec, h)?);
    }
    out.push_str(&finish(src, cfg, f, item)?);
    Ok(out)
}

fn finish(src: &source::Src, cfg: &Config, f: &FnSpec, mut item: source::Func) -> R<String> {
    if cfg.lit {
        use syn::visit_mut::VisitMut;
        lit::Lits { src, self_ty: item.self_ty.clone() }.visit_block_mut(&mut item.block);
    }
    names::strip_noops(&mut item.block);
    if f.hoist {
        hoist::hoist(&mut item);
    }
    let n = desugar::desugar(&mut item, &f.panic_fn)?;
    let mut text = f.sig.clone();
    for s in f.loops.values().chain(f.closures.values()).chain(f.at.iter().map(|a| &a.1)).chain(f.pass.iter().map(|p| &p.1)) {
        text.push_str(s);
    }
    // a place named by a binding needs the binding
    for (k, _) in &f.at {
        text.push_str(&format!(" {k} "));
    }
    names::accumulators(&mut item, &f.names, &f.loops, &text);
    names::align(&mut item, &f.names, &text)?;

    types::rewrite_fn(cfg, &mut item);
    for (callee, arg) in &f.pass {
        hoist::pass(&mut item, callee, arg)?;
    }
    fmt::emit(f, &item, n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[2] == "--bindings" {
        // print the bound names of a function in order (to write the `names` directive)
        let src = source::load(&a[1]).unwrap();
        let cfg = Config { closures: false, lit: false, turbofish: false, generic: vec![], contracts: src.fns.keys().cloned().collect(), subst: vec![] };
        let mut it = src.function(&a[3]).unwrap();
        inline::inline(&src, &cfg, &a[3], &[], &mut it).unwrap();
        names::strip_noops(&mut it.block);
        let n = desugar::desugar(&mut it, "panic_").unwrap();
        println!("//@names {}", names::bindings(&it).join(" "));
        types::rewrite_fn(&Config { closures: false, lit: false, turbofish: false, generic: vec!["F".into(), "P".into(), "R".into(), "W".into(), "T".into(), "V".into()], contracts: vec![], subst: vec![] }, &mut it);
        println!("{}", fmt::emit(&FnSpec { nloops: usize::MAX, ret: "r".into(), ..Default::default() }, &it, n).unwrap());
        return;
    }
    if let Err(e) = run(&a) {
        println!("{e}");
        std::process::exit(3);
    }
}
