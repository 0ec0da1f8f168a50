//! Mechanical extraction of functions and types from /repo/src into a Verus unit.
//!
//!   bpextract SPEC SRCDIR PRELUDEDIR OUT.rs REPORT.json
//!
//! The executable text comes from the source tree on every run.  The spec file
//! supplies contracts, loop invariants and proof hints, and nothing executable
//! except what it declares as `rewrite` (listed in the report).
//! Exit 0: unit written.  Exit 3: an anchor is lost or a construct is not
//! supported (reported on stderr and in REPORT.json): the proof cannot be
//! attempted, which says nothing about the property.
mod inline;
mod rules;
mod spec;

use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

pub type R<T> = Result<T, String>;

struct Src {
    file: syn::File,
}

fn load<'a>(cache: &'a mut BTreeMap<String, Src>, dir: &str, rel: &str) -> R<&'a Src> {
    if !cache.contains_key(rel) {
        let p = Path::new(dir).join(rel);
        let text = fs::read_to_string(&p).map_err(|e| format!("lost anchor: {}: {e}", p.display()))?;
        let file = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {e}", p.display()))?;
        cache.insert(rel.to_string(), Src { file });
    }
    Ok(&cache[rel])
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg") && (s.contains("test") || s.contains("windows")) && !s.contains("not")
    })
}

/// Find `name`, `Type::name`, `Trait for Type::name`, or `fn/inner` (nested fn), in items.
fn find_fn(items: &[syn::Item], path: &str) -> Option<Found> {
    if let Some((outer, inner)) = path.split_once("//") {
        let f = find_fn(items, outer)?;
        return find_nested(&f.block, inner);
    }
    let (ty, name) = match path.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, path),
    };
    let (trait_, ty) = match ty {
        Some(t) => match t.split_once(" for ") {
            Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
            None => (None, Some(t.to_string())),
        },
        None => (None, None),
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                return Some(Found { sig: f.sig.clone(), block: (*f.block).clone() })
            }
            syn::Item::Impl(im) if ty.is_some() && !is_test(&im.attrs) => {
                if Some(type_name(&im.self_ty)) != ty {
                    continue;
                }
                let tn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if trait_.is_some() && tn != trait_ {
                    continue;
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            return Some(Found { sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            // `static X: LazyLock<..> = LazyLock::new(|| ..)`: the initializer
            syn::Item::Static(st) if ty.is_none() && st.ident == name => {
                if let syn::Expr::Call(c) = &*st.expr {
                    if let Some(syn::Expr::Closure(c)) = c.args.first() {
                        return Some(closure_found(c));
                    }
                }
            }
            syn::Item::Trait(t) if ty.is_some() && Some(t.ident.to_string()) == ty => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(Found { sig: f.sig.clone(), block: b.clone() });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// nested `fn NAME` or `let [mut] NAME = [move] |..| ..` inside a block
fn find_nested(b: &syn::Block, name: &str) -> Option<Found> {
    use syn::visit::Visit;
    struct V<'n> {
        name: &'n str,
        out: Option<Found>,
    }
    impl<'a, 'n> Visit<'a> for V<'n> {
        fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
            if f.sig.ident == self.name && self.out.is_none() {
                self.out = Some(Found { sig: f.sig.clone(), block: (*f.block).clone() });
            }
            syn::visit::visit_item_fn(self, f);
        }
        fn visit_local(&mut self, l: &'a syn::Local) {
            let id = match &l.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                syn::Pat::Type(t) => match &*t.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    _ => String::new(),
                },
                _ => String::new(),
            };
            if id == self.name && self.out.is_none() {
                if let Some(init) = &l.init {
                    if let syn::Expr::Closure(c) = &*init.expr {
                        self.out = Some(closure_found(c));
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V { name, out: None };
    v.visit_block(b);
    v.out
}

pub fn closure_found(c: &syn::ExprClosure) -> Found {
    let mut inputs: Vec<syn::FnArg> = vec![];
    for p in &c.inputs {
        match p {
            syn::Pat::Type(pt) => inputs.push(syn::FnArg::Typed(pt.clone())),
            other => {
                let o = other.clone();
                inputs.push(syn::parse_quote!(#o: ()))
            }
        }
    }
    let block: syn::Block = match &*c.body {
        syn::Expr::Block(b) => b.block.clone(),
        e => syn::parse_quote!({ #e }),
    };
    let sig: syn::Signature = syn::parse_quote!(fn closure(#(#inputs),*));
    Found { sig, block }
}

fn find_type(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Type(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Fn(f) => {
                // types local to a function
                for st in &f.block.stmts {
                    if let syn::Stmt::Item(i) = st {
                        if let Some(x) = find_type(std::slice::from_ref(i), name) {
                            return Some(x);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn pp(items: Vec<syn::Item>) -> String {
    prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items })
}

fn emit_type(item: &syn::Item, opts: &spec::TypeSpec, unit: &spec::Unit) -> R<String> {
    let mut out = String::new();
    let mut it = item.clone();
    let (name, ders, generics) = match &mut it {
        syn::Item::Struct(s) => {
            let d = derives(&s.attrs);
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
            }
            (s.ident.to_string(), d, s.generics.clone())
        }
        syn::Item::Enum(s) => {
            let d = derives(&s.attrs);
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            (s.ident.to_string(), d, s.generics.clone())
        }
        syn::Item::Type(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            (s.ident.to_string(), vec![], s.generics.clone())
        }
        syn::Item::Const(s) => {
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            (s.ident.to_string(), vec![], s.generics.clone())
        }
        _ => return Err("unsupported type item".into()),
    };
    if let Some(n) = &opts.rename {
        let id = quote::format_ident!("{}", n);
        match &mut it {
            syn::Item::Struct(s) => s.ident = id,
            syn::Item::Enum(s) => s.ident = id,
            syn::Item::Type(s) => s.ident = id,
            syn::Item::Const(s) => s.ident = id,
            _ => {}
        }
    }
    rules::flatten_item(&mut it, unit);
    out.push_str(&pp(vec![it]));
    let (ig, tg, _) = generics.split_for_impl();
    let ig = quote::quote!(#ig).to_string();
    let tg = quote::quote!(#tg).to_string();
    let name = opts.rename.clone().unwrap_or(name);
    // Derived implementations are structural; their contracts are part of the trusted base.
    if ders.iter().any(|d| d == "Copy") {
        out.push_str(&format!("impl{ig} Copy for {name}{tg} {{}}\n"));
    }
    if ders.iter().any(|d| d == "Clone") {
        out.push_str(&format!(
            "impl{ig} Clone for {name}{tg} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
        ));
    }
    if ders.iter().any(|d| d == "PartialEq") {
        out.push_str(&format!(
            "impl{ig} PartialEq for {name}{tg} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n\
             impl{ig} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{tg} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n"
        ));
    }
    if ders.iter().any(|d| d == "Default") {
        if let Some(d) = &opts.default {
            out.push_str(&format!(
                "impl{ig} {name}{tg} {{ #[verifier::external_body] pub fn default() -> (r: Self) ensures {d} {{ unimplemented!() }} }}\n"
            ));
        }
    }
    Ok(out)
}

fn param_names(sig: &syn::Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .map(|a| match a {
            syn::FnArg::Receiver(_) => "self".to_string(),
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                p => {
                    let s = quote::quote!(#p).to_string();
                    format!("<{s}>")
                }
            },
        })
        .collect()
}

pub fn subst_word(text: &str, from: &str, to: &str) -> String {
    let b = text.as_bytes();
    let mut out = String::with_capacity(text.len());
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < text.len() {
        if text[i..].starts_with(from)
            && (i == 0 || !isw(b[i - 1]))
            && (i + from.len() == text.len() || !isw(b[i + from.len()]))
        {
            out.push_str(to);
            i += from.len();
        } else {
            let ch = text[i..].chars().next().unwrap();
            out.push(ch);
            i += ch.len_utf8();
        }
    }
    out
}

/// is NAME declared by the contracts (`fn NAME`), or does a directive speak of it?
fn declared(text: &str, name: &str) -> bool {
    let word = |line: &str| {
        let mut from = 0;
        while let Some(p) = line[from..].find(name) {
            let (a, b) = (from + p, from + p + name.len());
            let w = |c: Option<char>| c.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
            if !w(line[..a].chars().next_back()) && !w(line[b..].chars().next()) {
                return Some(a);
            }
            from = b;
        }
        None
    };
    let upper = name.chars().all(|c| !c.is_lowercase());
    text.lines().any(|l| match word(l) {
        None => false,
        Some(a) => upper || l.starts_with('@') || l[..a].ends_with("fn ") || l.contains(" =>> "),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 6 {
        eprintln!("usage: bpextract SPEC SRCDIR PRELUDEDIR OUT REPORT");
        std::process::exit(2);
    }
    let mut report = serde_json::Map::new();
    let r = run(&a[1], &a[2], &a[3], &a[4], &mut report);
    if let Err(e) = &r {
        report.insert("error".into(), serde_json::Value::String(e.clone()));
    }
    let _ = fs::write(&a[5], serde_json::to_string_pretty(&serde_json::Value::Object(report)).unwrap());
    if let Err(e) = r {
        eprintln!("bpextract: {e}");
        std::process::exit(3);
    }
}

fn includes(text: &str, dir: &Path) -> R<String> {
    let mut full = String::new();
    for l in text.lines() {
        match l.strip_prefix("@include ") {
            Some(f) => full.push_str(&fs::read_to_string(dir.join("../inc").join(f.trim())).map_err(|e| format!("{f}: {e}"))?),
            None => {
                full.push_str(l);
                full.push('\n');
            }
        }
    }
    Ok(full)
}

/// The contract unit `u` proves for function `path`, as a declaration without a body.
/// `@use UNIT PATH + CLAUSE` : with one more postcondition, assumed here
fn contract_of(dir: &Path, u: &str, path: &str) -> R<String> {
    let (path, more) = match path.split_once(" + ") {
        Some((a, b)) => (a.trim(), b.trim()),
        None => (path, ""),
    };
    let f = dir.join(format!("{u}.bp"));
    let text = includes(&fs::read_to_string(&f).map_err(|e| format!("{u}: {e}"))?, dir)?;
    let text: String = text.lines().filter(|l| !l.starts_with("@use ")).map(|l| format!("{l}\n")).collect();
    let unit = spec::parse(&text)?;
    for i in &unit.items {
        if let spec::Item::Fn(x) = i {
            if x.path == path || x.gen_name() == path {
                let mut o = format!("@raw\n// contract proved in unit {u}\n");
                let h = !x.header.is_empty();
                if h {
                    o.push_str(&format!("{} {{\n", x.header));
                }
                o.push_str(&format!("#[verifier::external_body]\n{}\n", x.sig));
                if !x.requires.trim().is_empty() {
                    o.push_str(&format!("requires {}\n", x.requires.trim()));
                }
                if !x.ensures.trim().is_empty() {
                    let sep = if more.is_empty() { "" } else { ",\n" };
                    o.push_str(&format!("ensures {}{sep}{more}\n", x.ensures.trim().trim_end_matches(',')));
                }
                o.push_str("{ unimplemented!() }\n");
                if h {
                    o.push_str("}\n");
                }
                return Ok(o);
            }
        }
    }
    Err(format!("@use {u} {path}: no such contract"))
}

fn run(
    specf: &str,
    srcdir: &str,
    preludedir: &str,
    out: &str,
    report: &mut serde_json::Map<String, serde_json::Value>,
) -> R<()> {
    let text = fs::read_to_string(specf).map_err(|e| format!("{specf}: {e}"))?;
    // `@include FILE` : shared declarations, from ../inc
    // `@use UNIT PATH` : the contract of a function proved in another unit, assumed here
    let dir = Path::new(specf).parent().unwrap_or(Path::new(".")).to_path_buf();
    let mut uses = vec![];
    let mut full = String::new();
    for l in includes(&text, &dir)?.lines() {
        match l.strip_prefix("@use ") {
            Some(a) => {
                let (u, p) = a.trim().split_once(' ').ok_or("@use UNIT PATH")?;
                full.push_str(&contract_of(&dir, u, p.trim())?);
                uses.push(serde_json::json!({"unit": u, "fn": p.trim()}));
            }
            None => {
                full.push_str(l);
                full.push('\n');
            }
        }
    }
    report.insert("uses".into(), serde_json::Value::Array(uses));
    let text = full;
    let unit = spec::parse(&text)?;
    let mut cache = BTreeMap::new();
    let mut gen = String::new();
    gen.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_labels, unused_assignments, unreachable_code, non_snake_case, non_camel_case_types, unused_braces, path_statements, unused_must_use)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut prelude_text = String::new();
    for p in &unit.preludes {
        let t = fs::read_to_string(Path::new(preludedir).join(p)).map_err(|e| format!("{p}: {e}"))?;
        prelude_text.push_str(&format!("// ======== prelude {p}\n"));
        prelude_text.push_str(&t);
        prelude_text.push('\n');
    }
    let all_spec_text = format!("{prelude_text}\n{text}");
    let mut fns_report = vec![];
    let mut types_report = vec![];
    let mut body = String::new();
    for item in &unit.items {
        match item {
            spec::Item::Raw(t) => {
                body.push_str(t);
                body.push('\n');
            }
            // nothing but these functions may be in the impl (an override of a default
            // method would run instead of code under contract)
            spec::Item::Impl { file, what, fns } => {
                let src = load(&mut cache, srcdir, file)?;
                let mut seen = false;
                for it in &src.file.items {
                    if let syn::Item::Impl(im) = it {
                        let tn = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                        let full = match tn {
                            Some(t) => format!("{t} for {}", type_name(&im.self_ty)),
                            None => type_name(&im.self_ty),
                        };
                        if full != *what || is_test(&im.attrs) {
                            continue;
                        }
                        seen = true;
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if !fns.contains(&f.sig.ident.to_string()) {
                                    return Err(format!("lost anchor: {file}: impl {what} also has {}", f.sig.ident));
                                }
                            }
                        }
                    }
                }
                if !seen {
                    return Err(format!("lost anchor: {file}: impl {what}"));
                }
            }
            spec::Item::Type(ts) => {
                let src = load(&mut cache, srcdir, &ts.file)?;
                let it = find_type(&src.file.items, &ts.name)
                    .ok_or_else(|| format!("lost anchor: type {}::{}", ts.file, ts.name))?;
                types_report.push(serde_json::json!(format!("{}::{}", ts.file, ts.name)));
                body.push_str(&format!("// ---- type {}::{}\n", ts.file, ts.name));
                body.push_str(&emit_type(&it, ts, &unit)?);
            }
            spec::Item::Fn(fs_) => {
                let src = load(&mut cache, srcdir, &fs_.file)?;
                let mut f = find_fn(&src.file.items, &fs_.path)
                    .ok_or_else(|| format!("lost anchor: fn {}::{}", fs_.file, fs_.path))?;
                let local_fns: Vec<String> = src
                    .file
                    .items
                    .iter()
                    .filter_map(|i| match i {
                        syn::Item::Fn(f) => Some(f.sig.ident.to_string()),
                        _ => None,
                    })
                    .collect();
                let names = param_names(&f.sig);
                let mut fspec = fs_.clone();
                // positional renaming of parameters, should the code have renamed them
                let spec_params = spec::sig_params(&fspec.sig)?;
                let n = names.len();
                let extra: usize = spec_params.len().saturating_sub(n);
                if spec_params.len() < n {
                    return Err(format!("lost anchor: fn {}::{} has {} parameters, spec has {}", fs_.file, fs_.path, n, spec_params.len()));
                }
                if extra != fspec.extra_params {
                    return Err(format!(
                        "lost anchor: fn {}::{} has {} parameters ({}), contract expects {}",
                        fs_.file, fs_.path, n, names.join(","), spec_params.len() - fspec.extra_params
                    ));
                }
                for (s, c) in spec_params.iter().zip(names.iter()) {
                    if s != c && !c.starts_with('<') && s != "self" {
                        fspec.rename_all(s, c);
                    }
                }
                // destructured parameters: `(a, b): T` becomes `p: T` and `let (a, b) = p;`
                let mut pats: Vec<syn::Stmt> = vec![];
                for (a, s) in f.sig.inputs.iter().zip(spec_params.iter()) {
                    if let syn::FnArg::Typed(t) = a {
                        if !matches!(&*t.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
                            let (p, i) = (&t.pat, quote::format_ident!("{}", s));
                            pats.push(syn::parse_quote!(let #p = #i;));
                        }
                    }
                }
                f.block.stmts.splice(0..0, pats);
                let lost = |e: String| format!("fn {}::{}: {e}", fs_.file, fs_.path);
                let modname = fs_.file.trim_end_matches(".rs").replace('/', "__");
                let self_ty = fs_.path.split("//").next().unwrap().rsplit_once("::").map(|(t, _)| t.rsplit(' ').next().unwrap().to_string());
                let this = fs_.path.rsplit(|c| c == ':' || c == '/').next().unwrap().to_string();
                let known = |n: &str| declared(&all_spec_text, n);
                let mut inl = inline::Inl::new(&src.file.items, self_ty, &modname, &known, this);
                inl.run(&mut f.block);
                let inlined_helpers = inl.done;
                rules::bind_locals(&f, &mut fspec).map_err(lost)?;
                let ctx = rules::Ctx { unit: &unit, f: &fspec, local_fns, modname, all_spec_text: &all_spec_text };
                let (printed, mut info) = rules::transform(&mut f, &ctx).map_err(lost)?;
                info.inlined.extend(inlined_helpers);
                body.push_str(&format!("// ---- fn {}::{}\n", fs_.file, fs_.path));
                body.push_str(&printed);
                fns_report.push(serde_json::json!({
                    "fn": format!("{}::{}", fs_.file, fs_.path),
                    "as": fspec.gen_name(),
                    "loops": info.loops,
                    "dropped": info.dropped,
                    "rewrites": info.rewrites,
                    "inlined": info.inlined,
                }));
            }
        }
    }
    gen.push_str(&prelude_text);
    gen.push_str(&body);
    gen.push_str("\n} // verus!\nfn main() {}\n");
    fs::write(out, gen).map_err(|e| e.to_string())?;
    report.insert("functions".into(), serde_json::Value::Array(fns_report));
    report.insert("types".into(), serde_json::Value::Array(types_report));
    Ok(())
}
