//! The rewriting rules.  Each is listed in DESIGN.md ("what the extraction drops").
use crate::spec::{FnSpec, Unit};
use crate::{Found, R};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Ctx<'a> {
    pub unit: &'a Unit,
    pub f: &'a FnSpec,
    pub local_fns: Vec<String>,
    pub modname: String,
    pub all_spec_text: &'a str,
}

#[derive(Default)]
pub struct Info {
    pub loops: usize,
    pub dropped: Vec<String>,
    pub rewrites: Vec<String>,
    pub inlined: Vec<String>,
}

fn norm<T: ToTokens>(t: &T) -> String {
    quote!(#t).to_string().chars().filter(|c| !c.is_whitespace()).collect::<String>().replace(",)", ")")
}
fn norms(t: &str) -> String {
    match t.parse::<proc_macro2::TokenStream>() {
        Ok(ts) => ts.to_string().chars().filter(|c| !c.is_whitespace()).collect::<String>().replace(",)", ")"),
        Err(_) => t.chars().filter(|c| !c.is_whitespace()).collect(),
    }
}

fn pat_idents(p: &syn::Pat) -> Vec<String> {
    use syn::visit::Visit;
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

/// Resolve names of locals that specs mention, when the code has renamed them.
pub fn bind_locals(f: &Found, fs: &mut FnSpec) -> R<()> {
    use syn::visit::Visit;
    struct V {
        all: Vec<String>,
        lets: Vec<(Vec<String>, String)>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.all.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
        fn visit_local(&mut self, l: &'a syn::Local) {
            self.lets.push((pat_idents(&l.pat), norm(l)));
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
            let p = &l.pat;
            let e = &l.expr;
            self.lets.push((pat_idents(p), norm(&quote!(for #p in #e))));
            syn::visit::visit_expr_for_loop(self, l);
        }
    }
    let mut v = V { all: vec![], lets: vec![] };
    v.visit_block(&f.block);
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            v.all.extend(pat_idents(&t.pat));
        }
    }
    for (name, pat) in fs.lets.clone() {
        if v.all.contains(&name) {
            continue;
        }
        let (pat, idx) = match pat.rsplit_once('#') {
            Some((p, i)) => (p.to_string(), i.trim().parse::<usize>().unwrap_or(0)),
            None => (pat, 0),
        };
        let p = norms(&pat);
        match v.lets.iter().find(|(_, t)| t.contains(&p)) {
            Some((ids, _)) if ids.len() > idx => fs.rename_all(&name, &ids[idx]),
            _ => return Err(format!("lost anchor: local `{name}`")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- pass 0
struct Pass0<'a> {
    f: &'a FnSpec,
    used_rw: Vec<bool>,
    used_ghost: Vec<bool>,
    used_drop: Vec<bool>,
    dropped: Vec<String>,
}
impl<'a> VisitMut for Pass0<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (si, s) in b.stmts.drain(..).enumerate() {
            // integer constants of the block
            if let Stmt::Item(syn::Item::Const(k)) = &s {
                if matches!(norm(&k.ty).as_str(), "usize" | "u64" | "u32" | "u8" | "u16" | "i32" | "i64") {
                    let (i, t, x) = (&k.ident, &k.ty, &k.expr);
                    out.insert(0, parse_quote!(let #i: #t = #x;));
                }
                continue;
            }
            if let Stmt::Item(_) = &s {
                // nested items are extracted separately when a unit needs them
                if norm(&s).starts_with("use") && norm(&s).ends_with("::*;") && norm(&s)[3..].starts_with(char::is_uppercase) {
                    out.push(s);
                }
                continue;
            }
            let t = norm(&s);
            // drops
            let mut dropped = false;
            for (i, d) in self.f.drops.iter().enumerate() {
                if t.starts_with(&norms(d)) {
                    self.used_drop[i] = true;
                    self.dropped.push(d.clone());
                    dropped = true;
                }
            }
            if dropped {
                continue;
            }
            let mut before = vec![];
            let mut after = vec![];
            for (i, (k, _)) in self.f.ghosts.iter().enumerate() {
                let lit = proc_macro2::Literal::usize_unsuffixed(i);
                let mut k = k.as_str();
                if let Some(r) = k.strip_prefix("all ") {
                    k = r;
                } else if self.used_ghost[i] {
                    continue;
                }
                if let Some(x) = k.strip_prefix("before ") {
                    if t.starts_with(&norms(x)) {
                        self.used_ghost[i] = true;
                        before.push(parse_quote!(__ghost!(#lit);));
                    }
                } else if let Some(x) = k.strip_prefix("after ") {
                    if t.starts_with(&norms(x)) {
                        self.used_ghost[i] = true;
                        after.push(parse_quote!(__ghost!(#lit);));
                    }
                }
            }
            out.extend(before);
            let is_tail = si + 1 == n && matches!(&s, Stmt::Expr(_, None));
            out.push(s);
            if !after.is_empty() && is_tail {
                // `TAIL` becomes `let __t = TAIL; ghost; __t`
                if let Some(Stmt::Expr(e, None)) = out.pop() {
                    out.push(parse_quote!(let __tail = #e;));
                    out.extend(after);
                    out.push(Stmt::Expr(parse_quote!(__tail), None));
                }
            } else {
                out.extend(after);
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let t = norm(e);
        for (i, (a, b)) in self.f.rewrites.iter().enumerate() {
            if t == norms(a) {
                match syn::parse_str::<Expr>(b) {
                    Ok(x) => {
                        *e = x;
                        self.used_rw[i] = true;
                        return;
                    }
                    Err(err) => panic!("bad rewrite {b}: {err}"),
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Late<'a> {
    f: &'a FnSpec,
    done: &'a [bool],
    used: Vec<bool>,
}
impl<'a> VisitMut for Late<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let t = norm(e);
        for (i, (a, b)) in self.f.rewrites.iter().enumerate() {
            if !self.done[i] && t == norms(a) {
                if let Ok(x) = syn::parse_str::<Expr>(b) {
                    *e = x;
                    self.used[i] = true;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- macros
struct Args(Vec<Expr>);
impl syn::parse::Parse for Args {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let p = syn::punctuated::Punctuated::<FmtArg, syn::Token![,]>::parse_terminated(i)?;
        Ok(Args(p.into_iter().map(|a| a.1).collect()))
    }
}
struct FmtArg(#[allow(dead_code)] Option<syn::Ident>, Expr);
impl syn::parse::Parse for FmtArg {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) {
            let id: syn::Ident = i.parse()?;
            let _: syn::Token![=] = i.parse()?;
            return Ok(FmtArg(Some(id), i.parse()?));
        }
        Ok(FmtArg(None, i.parse()?))
    }
}
struct Matches(Expr, syn::Pat, Option<Expr>);
impl syn::parse::Parse for Matches {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let e = i.parse()?;
        let _: syn::Token![,] = i.parse()?;
        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(syn::Token![if]) {
            let _: syn::Token![if] = i.parse()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _: Option<syn::Token![,]> = i.parse()?;
        Ok(Matches(e, p, g))
    }
}

struct Macros<'a> {
    ctx: &'a Ctx<'a>,
    err: Option<String>,
}
const LOGS: &[&str] = &["debug", "trace", "info", "warn", "error", "println", "print", "eprintln", "eprint"];
impl<'a> Macros<'a> {
    fn conv(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = |s: &mut Self| match m.parse_body::<Args>() {
            Ok(a) => a.0,
            Err(e) => {
                s.err = Some(format!("macro {name}: {e}"));
                vec![]
            }
        };
        if LOGS.contains(&name.as_str()) {
            return Some(parse_quote!(()));
        }
        match name.as_str() {
            "bail" => Some(parse_quote!(return Err(anyhow_err()))),
            "anyhow" => Some(parse_quote!(anyhow_err())),
            "ensure" => {
                let a = args(self);
                let c = a.first()?;
                Some(parse_quote!(if !(#c) { return Err(anyhow_err()); }))
            }
            "assert" | "debug_assert" => {
                let a = args(self);
                let c = a.first()?;
                Some(parse_quote!(exec_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args(self);
                let (x, y) = (a.first()?, a.get(1)?);
                Some(parse_quote!(exec_assert(#x == #y)))
            }
            "assert_ne" => {
                let a = args(self);
                let (x, y) = (a.first()?, a.get(1)?);
                Some(parse_quote!(exec_assert(#x != #y)))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote!(exec_unreachable())),
            "vec" => {
                let a = args(self);
                if a.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    None
                }
            }
            "matches" => match m.parse_body::<Matches>() {
                Ok(Matches(e, p, None)) => Some(parse_quote!(match #e { #p => true, _ => false })),
                Ok(Matches(e, p, Some(g))) => Some(parse_quote!(match #e { #p if #g => true, _ => false })),
                Err(e) => {
                    self.err = Some(format!("matches!: {e}"));
                    None
                }
            },
            "format" | "write" => {
                let mut a = args(self);
                let mut nm = String::from("fmt_");
                let mut refs: Vec<Expr> = vec![];
                let write = name == "write";
                if write {
                    if a.is_empty() {
                        return None;
                    }
                    nm = String::from("write_");
                    refs.push(a.remove(0));
                }
                let lit = match a.first() {
                    Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
                    _ if write => return None,
                    _ => return Some(parse_quote!(fmt_opaque())),
                };
                let mut pos = 1;
                let mut ch = lit.chars().peekable();
                while let Some(c) = ch.next() {
                    if c == '{' {
                        let mut inner = String::new();
                        for d in ch.by_ref() {
                            if d == '}' {
                                break;
                            }
                            inner.push(d);
                        }
                        let id = inner.split(':').next().unwrap_or("").trim().to_string();
                        nm.push('X');
                        if id.is_empty() {
                            if let Some(e) = a.get(pos) {
                                refs.push(parse_quote!(&#e));
                            }
                            pos += 1;
                        } else if let Ok(e) = syn::parse_str::<Expr>(&id) {
                            refs.push(parse_quote!(&#e));
                        }
                    } else if c.is_alphanumeric() {
                        nm.push(c)
                    } else {
                        nm.push('_')
                    }
                }
                if self.ctx.all_spec_text.contains(&format!("fn {nm}(")) || self.ctx.all_spec_text.contains(&format!("fn {nm}<")) {
                    let id = format_ident!("{nm}");
                    Some(parse_quote!(#id(#(#refs),*)))
                } else if write {
                    None
                } else {
                    Some(parse_quote!(fmt_opaque()))
                }
            }
            "__ghost" | "__lm" => None,
            _ => None,
        }
    }
}
impl<'a> VisitMut for Macros<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.conv(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.drain(..).enumerate() {
            match s {
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if LOGS.contains(&name.as_str()) {
                        if i + 1 == n && m.semi_token.is_none() {
                            // a unit tail, nothing to keep
                        }
                        continue;
                    }
                    match self.conv(&m.mac) {
                        Some(x) => {
                            let never = matches!(name.as_str(), "unreachable" | "panic" | "unimplemented" | "todo");
                            let is_tail = i + 1 == n && (never || m.semi_token.is_none());
                            let semi = if is_tail { None } else { Some(Default::default()) };
                            // `if` statements need no semicolon
                            out.push(Stmt::Expr(x, semi));
                        }
                        None => out.push(Stmt::Macro(m)),
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- guards
/// `let c = |..| ..;` that nothing mentions (its calls were rewritten to the closure's own
/// contract, checked by itself) is gone: making a closure does nothing.
struct UnusedClosures<'a> {
    info: &'a mut Info,
}
impl VisitMut for UnusedClosures<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        loop {
            let at = (0..b.stmts.len()).find(|&i| {
                let Stmt::Local(l) = &b.stmts[i] else { return false };
                let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { return false };
                if !matches!(&*init.expr, Expr::Closure(_)) {
                    return false;
                }
                let n = p.ident.to_string();
                fn mentions(t: proc_macro2::TokenStream, n: &str) -> bool {
                    t.into_iter().any(|t| match t {
                        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n),
                        proc_macro2::TokenTree::Ident(i) => i == n,
                        _ => false,
                    })
                }
                !b.stmts.iter().enumerate().any(|(j, s)| j > i && mentions(s.to_token_stream(), &n))
            });
            match at {
                Some(i) => {
                    b.stmts.remove(i);
                    self.info.inlined.push("unused closure".into());
                }
                None => break,
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// `let g = dec(..);` : the guard's drop is written out where Rust runs it, at the end of
/// the block (after the tail); a guard that is not bound is dropped where it is made.
struct Raii<'a> {
    raii: &'a [(String, String)],
    err: Option<String>,
}
impl<'a> Raii<'a> {
    fn guard(&self, e: &Expr) -> Option<syn::Ident> {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                return self.raii.iter().find(|(a, _)| *a == n).map(|(_, b)| format_ident!("{b}"));
            }
        }
        None
    }
}
impl<'a> VisitMut for Raii<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        let mut drops: Vec<(syn::Ident, syn::Ident)> = vec![];
        let n = b.stmts.len();
        for (i, s) in b.stmts.drain(..).enumerate() {
            if !drops.is_empty() {
                let t = norm(&s);
                if t.contains('?') || t.split(|c: char| !c.is_alphanumeric()).any(|x| x == "return" || x == "break" || x == "continue") {
                    self.err = Some("early exit while a guard is held".into());
                }
                // drop(g) by hand
                if let Some(k) = drops.iter().position(|(g, _)| t == format!("drop({g});")) {
                    let (g, d) = drops.remove(k);
                    out.push(parse_quote!(#d(#g);));
                    continue;
                }
            }
            match &s {
                Stmt::Local(l) => {
                    if let Some(d) = l.init.as_ref().and_then(|x| self.guard(&x.expr)) {
                        match &l.pat {
                            syn::Pat::Wild(_) => {
                                let e = &l.init.as_ref().unwrap().expr;
                                out.push(parse_quote!(#d(#e);));
                                continue;
                            }
                            syn::Pat::Ident(p) => drops.push((p.ident.clone(), d)),
                            _ => self.err = Some("guard bound by a pattern".into()),
                        }
                    }
                    out.push(s);
                }
                Stmt::Expr(e, Some(_)) if self.guard(e).is_some() => {
                    let d = self.guard(e).unwrap();
                    out.push(parse_quote!(#d(#e);));
                }
                Stmt::Expr(e, None) if i + 1 == n && !drops.is_empty() => {
                    out.push(parse_quote!(let __tail = #e;));
                    for (g, d) in drops.drain(..).rev() {
                        out.push(parse_quote!(#d(#g);));
                    }
                    out.push(Stmt::Expr(parse_quote!(__tail), None));
                }
                _ => out.push(s),
            }
        }
        for (g, d) in drops.drain(..).rev() {
            out.push(parse_quote!(#d(#g);));
        }
        b.stmts = out;
    }
}

// ---------------------------------------------------------------- method drops, inlining
/// (inside `Some(..)`, literal)
fn str_pat(p: &syn::Pat) -> Option<(bool, syn::LitStr)> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some((false, s.clone())),
            _ => None,
        },
        syn::Pat::TupleStruct(t) if norm(&t.path) == "Some" && t.elems.len() == 1 => match str_pat(&t.elems[0]) {
            Some((false, l)) => Some((true, l)),
            _ => None,
        },
        _ => None,
    }
}

struct Simplify<'a> {
    spec_text: &'a str,
    info: &'a mut Info,
}
fn closure_body_noargs(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
        Expr::Closure(c) if c.inputs.len() == 1 && matches!(c.inputs[0], syn::Pat::Wild(_)) => Some((*c.body).clone()),
        Expr::Closure(c) if c.inputs.len() == 1 && norm(&c.inputs[0]).starts_with('_') => Some((*c.body).clone()),
        _ => None,
    }
}
fn exits(t: &impl quote::ToTokens) -> bool {
    let t = norm(t);
    t.contains('?') || t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == "return")
}
/// the value of a closure's body where `?` ends the closure, not the function around it:
/// every `let P = E?;` and `E?;` becomes a match with what follows inside
fn seq_body(e: &Expr) -> Option<Expr> {
    if !exits(e) {
        return Some(e.clone());
    }
    let Expr::Block(b) = e else {
        return match e {
            Expr::Try(t) if !exits(&t.expr) => Some(parse_quote!(match #t { Ok(__v) => __v, Err(__e) => Err(__e) })),
            _ => None,
        };
    };
    let mut rest: Vec<Stmt> = vec![];
    for (i, s) in b.block.stmts.iter().enumerate().rev() {
        if !exits(s) {
            rest.insert(0, s.clone());
            continue;
        }
        let last = i + 1 == b.block.stmts.len();
        match s {
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let Expr::Try(t) = &*init.expr else { return None };
                if exits(&t.expr) || init.diverge.is_some() || last {
                    return None;
                }
                let (p, x) = (&l.pat, &t.expr);
                rest = vec![Stmt::Expr(parse_quote!(match #x { Ok(__v) => { let #p = __v; #(#rest)* } Err(__e) => Err(__e) }), None)];
            }
            Stmt::Expr(Expr::Try(t), Some(_)) if !exits(&t.expr) && !last => {
                let x = &t.expr;
                rest = vec![Stmt::Expr(parse_quote!(match #x { Ok(_) => { #(#rest)* } Err(__e) => Err(__e) }), None)];
            }
            _ => return None,
        }
    }
    Some(parse_quote!({ #(#rest)* }))
}
/// `thread::scope(|s| BODY)` and `(|| BODY)()`
fn called_closure(e: &Expr) -> Option<(&Expr, &'static str)> {
    let Expr::Call(c) = e else { return None };
    if norm(&c.func).ends_with("thread::scope") && c.args.len() == 1 {
        return match &c.args[0] {
            Expr::Closure(cl) => Some((&cl.body, "thread::scope body")),
            _ => None,
        };
    }
    if c.args.is_empty() {
        let mut f = &*c.func;
        while let Expr::Paren(p) = f {
            f = &p.expr;
        }
        if let Expr::Closure(cl) = f {
            if cl.inputs.is_empty() {
                return Some((&cl.body, "immediately invoked closure"));
            }
        }
    }
    None
}
fn strip_context(e: &Expr) -> &Expr {
    match e {
        Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "with_context" || m.method == "context") => strip_context(&m.receiver),
        _ => e,
    }
}
impl<'a> VisitMut for Simplify<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let new: Option<Expr> = match e {
                // CLOSURE()? : an early exit of the closure is one of the function
                Expr::Try(t) if called_closure(strip_context(&t.expr)).is_some_and(|(b, _)| !norm(b).split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == "return")) => {
                    let (b, what) = called_closure(strip_context(&t.expr)).unwrap();
                    self.info.inlined.push(what.into());
                    Some(parse_quote!(#b?))
                }
                Expr::Call(_) if called_closure(e).is_some() => {
                    let (b, what) = called_closure(e).unwrap();
                    let r = seq_body(b);
                    if r.is_some() {
                        self.info.inlined.push(what.into());
                    }
                    r
                }
                // a named thread: its closure, run where it is started
                Expr::MethodCall(m) if (m.method == "spawn" && m.args.len() == 1 || m.method == "spawn_scoped" && m.args.len() == 2)
                    && norm(&m.receiver).starts_with("thread::Builder::new()")
                    && self.spec_text.contains("fn builder_spawned") => {
                    match m.args.last().and_then(closure_body_noargs).as_ref().and_then(seq_body) {
                        Some(b) => {
                            self.info.inlined.push("thread body".into());
                            Some(parse_quote!(builder_spawned(#b)))
                        }
                        None => None,
                    }
                }
                Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && self.spec_text.contains("fn map_unit")
                    && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1 && matches!(c.inputs[0], syn::Pat::Wild(_)) && norm(&c.body) == "()") => {
                    let r = &m.receiver;
                    Some(parse_quote!(map_unit(#r)))
                }
                Expr::MethodCall(m) if m.method == "or" && m.args.len() == 1 && self.spec_text.contains("fn opt_or") => {
                    let (r, x) = (&m.receiver, &m.args[0]);
                    Some(parse_quote!(opt_or(#r, #x)))
                }
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    let r = &m.receiver;
                    match (name.as_str(), m.args.len()) {
                        ("with_context", 1) | ("context", 1) => Some((**r).clone()),
                        ("map_err", 1) if closure_body_noargs(&m.args[0]).is_some() => {
                            Some((**r).clone())
                        }
                        // (&mut X).take(n)
                        ("take", 1) if matches!(&**r, Expr::Paren(p) if matches!(&*p.expr, Expr::Reference(x) if x.mutability.is_some())) => {
                            let x = strip_ref(r);
                            let n = &m.args[0];
                            Some(parse_quote!(#x.take_mut(#n)))
                        }
                        ("expect", 1) => Some(parse_quote!(#r.unwrap())),
                        ("or_default", 0) => match &**r {
                            Expr::MethodCall(x) if x.method == "entry" && x.args.len() == 1 => {
                                let (m, k) = (&x.receiver, &x.args[0]);
                                Some(parse_quote!(#m.entry_or_default(#k)))
                            }
                            _ => None,
                        },
                        ("ok_or_else", 1) => closure_body_noargs(&m.args[0]).map(|b| parse_quote!(#r.ok_or(#b))),
                        ("unwrap_or_else", 1) => closure_body_noargs(&m.args[0]).map(|b| {
                            let t = norm(&b);
                            if t.starts_with("exec_unreachable(") {
                                parse_quote!(#r.unwrap())
                            } else {
                                parse_quote!(match #r { Some(__v) => __v, None => #b })
                            }
                        }),
                        ("then", 1) => closure_body_noargs(&m.args[0])
                            .map(|b| parse_quote!(if #r { Some(#b) } else { None })),
                        ("and_then", 1) if matches!(&**r, Expr::MethodCall(x) if x.method == "ok_or" || x.method == "ok_or_else") => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let (p, b) = (&c.inputs[0], &c.body);
                                Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }))
                            }
                            Expr::Path(f) => Some(parse_quote!(match #r { Ok(__v) => #f(__v), Err(__e) => Err(__e) })),
                            _ => None,
                        },
                        ("and_then", 1) => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
                            }
                            _ => None,
                        },
                        ("is_some_and", 1) | ("is_none_or", 1) | ("is_ok_and", 1) | ("is_err_and", 1) => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                Some(match name.as_str() {
                                    "is_some_and" => parse_quote!(match #r { Some(#p) => #b, None => false }),
                                    "is_none_or" => parse_quote!(match #r { Some(#p) => #b, None => true }),
                                    "is_ok_and" => parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }),
                                    _ => parse_quote!(match #r { Err(#p) => #b, Ok(_) => false }),
                                })
                            }
                            _ => None,
                        },
                        ("map_or", 2) => match &m.args[1] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                let d = &m.args[0];
                                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                            }
                            _ => None,
                        },
                        ("cloned", 0) | ("copied", 0) if matches!(&**r, Expr::MethodCall(x) if x.method == "ok_or" || x.method == "ok_or_else") => {
                            Some(parse_quote!(match #r { Ok(__v) => Ok(__v.clone()), Err(__e) => Err(__e) }))
                        }
                        ("map", 1) if matches!(&**r, Expr::MethodCall(x) if x.method == "ok_or" || x.method == "ok_or_else") => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }))
                            }
                            _ => None,
                        },
                        ("map", 1) if matches!(&**r, Expr::MethodCall(x) if x.method == "get" || x.method == "remove" || x.method == "last" || x.method == "first" || (x.method == "next" && x.args.is_empty())) => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let p = &c.inputs[0];
                                let b = &c.body;
                                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
                            }
                            _ => None,
                        },
                        // an Option's filter
                        ("filter", 1) if matches!(&**r, Expr::MethodCall(x) if ["get", "insert", "remove", "first", "last", "next", "pop", "ok"].contains(&x.method.to_string().as_str())) => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let (p, b) = (&c.inputs[0], &c.body);
                                Some(parse_quote!(match #r { Some(__v) => if { let #p = &__v; #b } { Some(__v) } else { None }, None => None }))
                            }
                            _ => None,
                        },
                        // XS.flatten().all(P): every element of every X
                        ("all", 1) | ("any", 1) if matches!(&**r, Expr::MethodCall(x) if x.method == "flatten" && x.args.is_empty()) => {
                            let Expr::MethodCall(x) = &**r else { unreachable!() };
                            let (xs, f, p) = (&x.receiver, &m.method, &m.args[0]);
                            Some(parse_quote!(#xs.#f(|__m| __m.iter().#f(#p))))
                        }
                        ("borrow_mut", 0) => Some((**r).clone()),
                        // a self-referencing struct's accessor: the closure's argument is the struct itself
                        ("with_mut", 1) if norm(&**r) == "self" => match &m.args[0] {
                            Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], syn::Pat::Ident(_)) => {
                                let syn::Pat::Ident(i) = &c.inputs[0] else { unreachable!() };
                                struct Sub(syn::Ident);
                                impl VisitMut for Sub {
                                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                                        if let Expr::Path(p) = e {
                                            if p.path.is_ident(&self.0) {
                                                *e = parse_quote!(self);
                                                return;
                                            }
                                        }
                                        visit_mut::visit_expr_mut(self, e);
                                    }
                                }
                                let mut b = (*c.body).clone();
                                Sub(i.ident.clone()).visit_expr_mut(&mut b);
                                self.info.inlined.push("with_mut closure".into());
                                Some(b)
                            }
                            _ => None,
                        },
                        ("as_ref", 0) | ("as_slice", 0) | ("as_path", 0) if false => Some((**r).clone()),
                        _ => None,
                    }
                }
                // the ID of the empty tree
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.segments.last().unwrap().ident == "EMPTY_ID")
                    && self.spec_text.contains("fn empty_id(") => Some(parse_quote!(empty_id())),
                // match X[..] { [a, b] => .., _ => .. }
                Expr::Match(m) if matches!(&*m.expr, Expr::Index(ix) if norm(&ix.index) == "..")
                    && m.arms.iter().all(|a| matches!(a.pat, syn::Pat::Slice(_) | syn::Pat::Wild(_))) => {
                    let lens: Vec<usize> = m.arms.iter().filter_map(|a| match &a.pat { syn::Pat::Slice(p) => Some(p.elems.len()), _ => None }).collect();
                    let rest = m.arms.iter().any(|a| matches!(&a.pat, syn::Pat::Slice(p) if p.elems.iter().any(|x| matches!(x, syn::Pat::Rest(_)) || norm(x).contains(".."))));
                    if rest || lens.is_empty() || lens.iter().any(|l| *l != lens[0]) {
                        None
                    } else {
                        let id = format_ident!("slice{}", lens[0]);
                        let x = match &*m.expr { Expr::Index(ix) => (*ix.expr).clone(), _ => unreachable!() };
                        let mut m2 = m.clone();
                        m2.expr = Box::new(parse_quote!(#id(&#x)));
                        for a in m2.arms.iter_mut() {
                            if let syn::Pat::Slice(p) = &a.pat {
                                let el = &p.elems;
                                a.pat = parse_quote!(Some((#el)));
                            }
                        }
                        Some(Expr::Match(m2))
                    }
                }
                // match X { "a" => .., Some("b") => .., _ => .. }: one comparison after the other
                Expr::Match(m) if m.arms.len() > 1
                    && m.arms.iter().any(|a| str_pat(&a.pat).is_some())
                    && m.arms.iter().enumerate().all(|(i, a)| a.guard.is_none() && (str_pat(&a.pat).is_some() || (i + 1 == m.arms.len() && matches!(a.pat, syn::Pat::Wild(_))))) => {
                    let x = &m.expr;
                    let mut els: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let b = &a.body;
                        els = Some(match (str_pat(&a.pat), els) {
                            (None, _) => parse_quote!({ #b }),
                            (Some((some, l)), Some(e)) => {
                                let f = format_ident!("{}", if some { "opt_str_is" } else { "str_is" });
                                parse_quote!(if #f(&__m, #l) { #b } else { #e })
                            }
                            (Some(_), None) => parse_quote!({ #b }),
                        });
                    }
                    let e = els.unwrap();
                    Some(parse_quote!({ let __m = #x; #e }))
                }
                // &X[a..b]
                Expr::Reference(rf) if rf.mutability.is_none()
                    && matches!(&*rf.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) => {
                    let Expr::Index(ix) = &*rf.expr else { unreachable!() };
                    let Expr::Range(rg) = &*ix.index else { unreachable!() };
                    let x = &ix.expr;
                    let closed = matches!(rg.limits, syn::RangeLimits::HalfOpen(_));
                    let (nm, e): (&str, Expr) = match (&rg.start, &rg.end) {
                        (None, Some(b)) if closed => ("slice_to", parse_quote!(slice_to(&#x, #b))),
                        (Some(a), None) => ("slice_from", parse_quote!(slice_from(&#x, #a))),
                        (Some(a), Some(b)) if closed => ("slice_of", parse_quote!(slice_of(&#x, #a, #b))),
                        _ => ("slice_all", parse_quote!(slice_all(&#x))),
                    };
                    if self.spec_text.contains(&format!("fn {nm}(")) || self.spec_text.contains(&format!("fn {nm}<")) { Some(e) } else { None }
                }
                // a &= b
                Expr::Binary(b) if matches!(b.op, syn::BinOp::BitAndAssign(_)) => {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(#l = band(#l, #r)))
                }
                // io::copy(&mut TEMPORARY, ..)
                Expr::Call(c) if norm(&c.func) == "io::copy" && c.args.len() == 2
                    && matches!(&c.args[0], Expr::Reference(x) if matches!(&*x.expr, Expr::MethodCall(_) | Expr::Call(_))) => {
                    let x = strip_ref(&c.args[0]);
                    let y = &c.args[1];
                    Some(parse_quote!(io::copy_temp(#x, #y)))
                }
                // thread::spawn(move || BODY): BODY is a function whose contract holds for whatever the thread will receive
                Expr::Call(c) if norm(&c.func).ends_with("thread::spawn") && c.args.len() == 1 => closure_body_noargs(&c.args[0]).map(|b| {
                    self.info.inlined.push("thread::spawn body".into());
                    parse_quote!(spawned(#b))
                }),
                _ => None,
            };
            match new {
                Some(x) => *e = x,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- @math
/// Counters as mathematical integers: `a += b` and `a + b` go through `madd`.
struct MathAdd;
impl VisitMut for MathAdd {
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::AddAssign(_) => Some(parse_quote!(#l = madd(#l, #r))),
                    syn::BinOp::Add(_) => Some(parse_quote!(madd(#l, #r))),
                    syn::BinOp::Mul(_) => Some(parse_quote!(mmul(#l, #r))),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
        }
    }
}

// ---------------------------------------------------------------- threads made sequential
/// `concurrently(ITER.map(|p| { ..; move || BODY }))` runs every closure exactly once;
/// it becomes a loop over ITER, BODY's errors (fatal: the process exits) an early return.
/// Mutexes are their contents; atomics created in the function are plain counters.
struct Conc<'a> {
    info: &'a mut Info,
    err: Option<String>,
    atomics: Vec<String>,
    locks: bool, // the unit has a contract for locking
}
struct SubstPath<'a> {
    from: &'a str,
    to: Expr,
}
impl<'a> VisitMut for SubstPath<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(self.from) {
                *e = self.to.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn strip_ref(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip_ref(&p.expr),
        Expr::Reference(r) => strip_ref(&r.expr),
        e => e.clone(),
    }
}
impl<'a> Conc<'a> {
    /// the closure chain -> statements of a loop
    fn seq_loop(&mut self, e: &Expr, collect: bool) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => m,
            _ => return None,
        };
        let c = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let pat = match &c.inputs[0] {
            syn::Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let (mut pre, mut tail): (Vec<Stmt>, Expr) = match &*c.body {
            Expr::Block(b) => {
                let mut st = b.block.stmts.clone();
                match st.pop() {
                    Some(Stmt::Expr(e, None)) => (st, e),
                    _ => return None,
                }
            }
            e => (vec![], e.clone()),
        };
        // (name, closure)
        if let Expr::Tuple(t) = &tail {
            if t.elems.len() == 2 {
                tail = t.elems[1].clone();
            }
        }
        let inner = match &tail {
            Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
            _ => return None,
        };
        let mut inner = inner;
        let mut keep = vec![];
        for s in pre.drain(..) {
            let mut done = false;
            if let Stmt::Local(l) = &s {
                if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Reference(r) = &*init.expr {
                        if let Expr::Path(_) = &*r.expr {
                            let to = (*init.expr).clone();
                            let from = i.ident.to_string();
                            SubstPath { from: &from, to: parse_quote!((#to)) }.visit_expr_mut(&mut inner);
                            done = true;
                        }
                    }
                }
            }
            if !done {
                keep.push(s);
            }
        }
        let src = &m.receiver;
        self.info.inlined.push("concurrent closures run in sequence".into());
        let bd: Vec<Stmt> = match inner {
            Expr::Block(b) => b.block.stmts,
            e => vec![Stmt::Expr(e, None)],
        };
        Some(if collect {
            parse_quote!({ let mut __res: Vec<_> = collect_new(); for #pat in #src { #(#keep)* let __one: Result<_> = { #(#bd)* }; let __v = __one?; collect_push(&mut __res, __v); } __res })
        } else {
            parse_quote!({ for #pat in #src { #(#keep)* let __one: Result<()> = { #(#bd)* }; __one?; } })
        })
    }
}
impl<'a> VisitMut for Conc<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // inline `let X = CHAIN;` whose only use is `concurrently(X)`
        let mut lets: Vec<(String, Expr)> = vec![];
        let mut out: Vec<Stmt> = vec![];
        let uses: Vec<String> = {
            use syn::visit::Visit;
            struct V(Vec<String>);
            impl<'x> Visit<'x> for V {
                fn visit_expr_call(&mut self, c: &'x syn::ExprCall) {
                    let f = norm(&c.func);
                    if f.ends_with("concurrently") && c.args.len() == 1 {
                        self.0.push(norm(&c.args[0]));
                    }
                    syn::visit::visit_expr_call(self, c);
                }
            }
            let mut v = V(vec![]);
            v.visit_block(b);
            v.0
        };
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                let id = pat_idents(&l.pat);
                if id.len() == 1 && uses.contains(&id[0]) {
                    if let Some(i) = &l.init {
                        lets.push((id[0].clone(), (*i.expr).clone()));
                        continue;
                    }
                }
                if let Some(i) = &l.init {
                    let t = norm(&i.expr);
                    if id.len() == 1 && t.starts_with("Atomic") && t.contains("::new(") {
                        self.atomics.push(id[0].clone());
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        for (n, e) in lets {
            SubstPath { from: &n, to: e }.visit_block_mut(b);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new: Option<Expr> = match e {
            Expr::Call(c) => {
                let f = norm(&c.func);
                if f.ends_with("concurrently") && c.args.len() == 1 {
                    let r = self.seq_loop(&c.args[0], f.ends_with("map_concurrently"));
                    if r.is_none() {
                        self.err = Some("concurrently() on something other than a mapped iterator of closures".into());
                    }
                    r
                } else if f.ends_with("Mutex::new") && c.args.len() == 1 && !self.locks {
                    Some(c.args[0].clone())
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap" => match &*m.receiver {
                Expr::MethodCall(l) if l.method == "lock" && l.args.is_empty() && !self.locks => {
                    let x = strip_ref(&l.receiver);
                    Some(parse_quote!((&mut #x)))
                }
                Expr::MethodCall(l) if l.method == "into_inner" && l.args.is_empty() => Some((*l.receiver).clone()),
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "fetch_add" || m.method == "fetch_sub" || m.method == "store" => {
                let r = strip_ref(&m.receiver);
                let n = norm(&r);
                if self.atomics.contains(&n) {
                    let id = format_ident!("{}_mut", m.method);
                    let a = &m.args[0];
                    Some(parse_quote!(#r.#id(#a)))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- loops
struct Loops<'a> {
    f: &'a FnSpec,
    next: usize,
    auto: Vec<Auto>,
    err: Option<String>,
    ret_is_result: bool,
}
#[derive(Clone, Default)]
pub struct Auto {
    inv: Vec<String>,
    invx: Vec<String>,
    ens: Vec<String>,
    dec: Option<String>,
}

fn has_break(b: &syn::Block, label: Option<&str>) -> bool {
    use syn::visit::Visit;
    struct V<'l> {
        label: Option<&'l str>,
        depth: usize,
        found: bool,
    }
    impl<'a, 'l> Visit<'a> for V<'l> {
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
            match &b.label {
                None if self.depth == 0 => self.found = true,
                Some(l) if Some(l.ident.to_string().as_str()) == self.label => self.found = true,
                _ => {}
            }
        }
        fn visit_expr_for_loop(&mut self, x: &'a syn::ExprForLoop) {
            self.depth += 1;
            syn::visit::visit_expr_for_loop(self, x);
            self.depth -= 1;
        }
        fn visit_expr_while(&mut self, x: &'a syn::ExprWhile) {
            self.depth += 1;
            syn::visit::visit_expr_while(self, x);
            self.depth -= 1;
        }
        fn visit_expr_loop(&mut self, x: &'a syn::ExprLoop) {
            self.depth += 1;
            syn::visit::visit_expr_loop(self, x);
            self.depth -= 1;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V { label, depth: 0, found: false };
    v.visit_block(b);
    v.found
}

enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Copied,
    Cloned,
    Skip(Expr),
    Take(Expr),
    Enumerate,
}
const TERMINALS: &[&str] = &["all", "any", "find", "fold", "partition", "collect", "for_each", "sum", "position", "count"];
const SOURCES: &[&str] = &["iter", "into_iter", "keys", "values", "values_mut", "iter_mut", "drain", "chars", "lines", "split"];

/// a chain that starts at a collection (and not, say, a reader with a `take`)
fn over_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            SOURCES.contains(&n.as_str()) && n != "lines" && n != "split" && n != "chars"
                || ["map", "filter", "filter_map", "copied", "cloned", "skip", "take", "enumerate"].contains(&n.as_str()) && over_iter(&m.receiver)
        }
        _ => false,
    }
}
/// split `src.iter().map(..).filter(..)` into (src.iter(), stages)
fn split_stages(e: &Expr) -> (Expr, Vec<Stage>) {
    let mut st = vec![];
    let mut cur = e.clone();
    loop {
        let next = match &cur {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("map", 1) => Some((Stage::Map(m.args[0].clone()), (*m.receiver).clone())),
                    ("filter", 1) => Some((Stage::Filter(m.args[0].clone()), (*m.receiver).clone())),
                    ("filter_map", 1) => Some((Stage::FilterMap(m.args[0].clone()), (*m.receiver).clone())),
                    ("copied", 0) => Some((Stage::Copied, (*m.receiver).clone())),
                    ("cloned", 0) => Some((Stage::Cloned, (*m.receiver).clone())),
                    ("skip", 1) if over_iter(&m.receiver) => Some((Stage::Skip(m.args[0].clone()), (*m.receiver).clone())),
                    ("take", 1) if over_iter(&m.receiver) => Some((Stage::Take(m.args[0].clone()), (*m.receiver).clone())),
                    ("enumerate", 0) if over_iter(&m.receiver) => Some((Stage::Enumerate, (*m.receiver).clone())),
                    _ => None,
                }
            }
            _ => None,
        };
        match next {
            Some((s, r)) => {
                st.push(s);
                cur = r;
            }
            None => break,
        }
    }
    st.reverse();
    (cur, st)
}
fn looks_like_iter(e: &Expr, stages: &[Stage]) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            SOURCES.contains(&n.as_str()) || n == "rev" || n == "chain" || n == "enumerate" || n == "zip" || n == "skip" || n == "take"
                || !stages.is_empty()
        }
        _ => !stages.is_empty(),
    }
}
fn apply1(f: &Expr, x: Expr) -> Expr {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let p = match &c.inputs[0] {
                syn::Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let b = &c.body;
            parse_quote!({ let #p = #x; #b })
        }
        f => parse_quote!(#f(#x)),
    }
}

impl<'a> Loops<'a> {
    fn stage_stmts(&self, stages: &[Stage], x: &syn::Ident, k: usize) -> Vec<Stmt> {
        stages
            .iter()
            .enumerate()
            .map(|(j, s)| -> Stmt {
                let c = format_ident!("__cnt{k}_{j}");
                match s {
                    Stage::Skip(n) => Stmt::Expr(parse_quote!(if #c < #n { #c = #c + 1; continue; }), None),
                    Stage::Take(n) => Stmt::Expr(parse_quote!(if #c < #n { #c = #c + 1; } else { break; }), None),
                    Stage::Enumerate => parse_quote!(let #x = { let __i = #c; #c = #c + 1; (__i, #x) };),
                    Stage::Map(f) => {
                        let e = apply1(f, parse_quote!(#x));
                        parse_quote!(let #x = #e;)
                    }
                    Stage::Filter(f) => {
                        let e = apply1(f, parse_quote!(&#x));
                        Stmt::Expr(parse_quote!(if !(#e) { continue; }), None)
                    }
                    Stage::FilterMap(f) => {
                        let e = apply1(f, parse_quote!(#x));
                        parse_quote!(let #x = match #e { Some(__v) => __v, None => { continue; } };)
                    }
                    Stage::Copied => parse_quote!(let #x = *#x;),
                    Stage::Cloned => parse_quote!(let #x = #x.clone();),
                }
            })
            .collect()
    }
    fn fresh(&mut self) -> usize {
        let k = self.next;
        self.next += 1;
        self.auto.push(Auto::default());
        k
    }
    fn gmark(&self, key: &str) -> Vec<Stmt> {
        self.f
            .ghosts
            .iter()
            .enumerate()
            .filter(|(_, (k, _))| k == key)
            .map(|(i, _)| {
                let lit = proc_macro2::Literal::usize_unsuffixed(i);
                parse_quote!(__ghost!(#lit);)
            })
            .collect()
    }
    fn iter_loop(&mut self, k: usize, src: Expr, stages: &[Stage], body: Vec<Stmt>, label: Option<syn::Label>, brk: bool) -> Vec<Stmt> {
        let it = format_ident!("__it{k}");
        let x = format_ident!("__x{k}");
        let kl = proc_macro2::Literal::usize_unsuffixed(k);
        let st = self.stage_stmts(stages, &x, k);
        // counters of skip, take and enumerate: how many came this far
        let mut counters: Vec<Stmt> = vec![];
        let mut first = true;
        let mut brk = brk;
        for (j, s) in stages.iter().enumerate() {
            let c = format_ident!("__cnt{k}_{j}");
            match s {
                Stage::Skip(n) => {
                    counters.push(parse_quote!(let mut #c: usize = 0;));
                    let n = norm(n);
                    self.auto[k].inv.push(if first { format!("({c} as int) == (if __it{k}.pos() < ({n} as int) {{ __it{k}.pos() }} else {{ {n} as int }})") } else { format!("{c} <= __it{k}.pos()") });
                    first = false;
                }
                Stage::Take(_) | Stage::Enumerate => {
                    counters.push(parse_quote!(let mut #c: usize = 0;));
                    self.auto[k].inv.push(format!("{c} <= __it{k}.pos()"));
                    if first {
                        self.auto[k].invx.push(format!("({c} as int) == __it{k}.pos()"));
                    }
                    if let Stage::Take(n) = s {
                        brk = true;
                        if first {
                            let n = norm(n);
                            self.auto[k].ens.push(format!("__it{k}.pos() == __seq{k}.len() || {c} >= {n}"));
                        }
                        first = false;
                    }
                }
                Stage::Filter(_) | Stage::FilterMap(_) => first = false,
                _ => {}
            }
        }
        self.auto[k].inv.push(format!("__it{k}.seq() == __seq{k}, 0 <= __it{k}.pos() <= __seq{k}.len()"));
        self.auto[k].dec = Some(format!("__seq{k}.len() - __it{k}.pos()"));
        if !brk {
            self.auto[k].ens.push(format!("__it{k}.pos() == __seq{k}.len()"));
        }
        let (gs, ge, gb, ga) = (
            self.gmark(&format!("loop {k} start")),
            self.gmark(&format!("loop {k} end")),
            self.gmark(&format!("loop {k} before")),
            self.gmark(&format!("loop {k} after")),
        );
        // a temporary that is iterated by reference lives as long as the loop
        let mut out: Vec<Stmt> = vec![];
        let mut src = src.clone();
        if let Expr::MethodCall(m) = &mut src {
            if m.method == "it" && matches!(&*m.receiver, Expr::Try(_)) {
                let r = m.receiver.clone();
                let t = format_ident!("__tmp{k}");
                out.push(parse_quote!(let #t = #r;));
                m.receiver = Box::new(parse_quote!(#t));
            }
        }
        out.extend([
            parse_quote!(let mut #it = #src;),
            parse_quote!(__glet!(#kl);),
        ]);
        out.extend(counters);
        out.extend(gb);
        let mut body = body;
        if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
            *semi = Some(Default::default());
        }
        out.push(Stmt::Expr(
            parse_quote!(#label loop {
                __lm!(#kl);
                match #it.next() {
                    None => { break; }
                    Some(mut #x) => { #(#gs)* #(#st)* #(#body)* #(#ge)* }
                }
            }),
            None,
        ));
        out.extend(ga);
        out
    }
    fn src_iter(&self, src: Expr, for_loop: bool) -> Expr {
        if let Expr::MethodCall(m) = &src {
            let n = m.method.to_string();
            if n == "iter" {
                let r = &m.receiver;
                return parse_quote!(#r.it());
            }
            if SOURCES.contains(&n.as_str()) && n != "into_iter" && n != "values_mut" || ["rev", "chain", "enumerate", "zip", "skip", "take"].contains(&n.as_str()) {
                return src;
            }
            if n == "values_mut" {
                // the values are taken out of the map, which is not used again
                let r = &m.receiver;
                return parse_quote!(#r.into_values());
            }
            if n == "into_iter" {
                let r = &m.receiver;
                return parse_quote!(#r.into_it());
            }
        }
        if for_loop {
            parse_quote!((#src).into_it())
        } else {
            src
        }
    }
    fn chain(&mut self, m: &syn::ExprMethodCall, question: bool, tail: bool) -> Option<Expr> {
        let term = m.method.to_string();
        if !TERMINALS.contains(&term.as_str()) {
            return None;
        }
        let (src, mut stages) = split_stages(&m.receiver);
        if !looks_like_iter(&src, &stages) {
            return None;
        }
        let k = self.fresh();
        let src = self.src_iter(src, false);
        let acc = format_ident!("__acc{k}");
        let acc2 = format_ident!("__acc{k}_b");
        let x = format_ident!("__x{k}");
        let stages = std::mem::take(&mut stages);
        let mut pre: Vec<Stmt> = vec![];
        let mut brk = true;
        let res: Expr;
        let body: Vec<Stmt>;
        match term.as_str() {
            "all" => {
                pre.push(parse_quote!(let mut #acc = true;));
                let p = apply1(&m.args[0], parse_quote!(#x));
                body = vec![Stmt::Expr(parse_quote!(if !(#p) { #acc = false; break; }), None)];
                res = parse_quote!(#acc);
                self.auto[k].invx.push(format!("__acc{k}"));
                self.auto[k].ens.push(format!("__acc{k} ==> __it{k}.pos() == __seq{k}.len()"));
            }
            "any" => {
                pre.push(parse_quote!(let mut #acc = false;));
                let p = apply1(&m.args[0], parse_quote!(#x));
                body = vec![Stmt::Expr(parse_quote!(if #p { #acc = true; break; }), None)];
                res = parse_quote!(#acc);
                self.auto[k].invx.push(format!("!__acc{k}"));
                self.auto[k].ens.push(format!("!__acc{k} ==> __it{k}.pos() == __seq{k}.len()"));
            }
            "find" => {
                pre.push(parse_quote!(let mut #acc = None;));
                let p = apply1(&m.args[0], parse_quote!(&#x));
                body = vec![Stmt::Expr(parse_quote!(if #p { #acc = Some(#x); break; }), None)];
                res = parse_quote!(#acc);
                self.auto[k].invx.push(format!("__acc{k} is None"));
                self.auto[k].ens.push(format!("__acc{k} is None ==> __it{k}.pos() == __seq{k}.len()"));
            }
            "for_each" => {
                let p = apply1(&m.args[0], parse_quote!(#x));
                body = vec![Stmt::Expr(p, Some(Default::default()))];
                res = parse_quote!(());
                brk = false;
            }
            "fold" if m.args.len() == 2 => {
                let init = &m.args[0];
                pre.push(parse_quote!(let mut #acc = #init;));
                let c = match &m.args[1] {
                    Expr::Closure(c) if c.inputs.len() == 2 => c,
                    _ => {
                        self.err = Some("unsupported: fold with a function".into());
                        return None;
                    }
                };
                let strip = |p: &syn::Pat| match p {
                    syn::Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let (a, b) = (strip(&c.inputs[0]), strip(&c.inputs[1]));
                let bd = &c.body;
                body = vec![Stmt::Expr(parse_quote!(#acc = { let #a = #acc; let #b = #x; #bd }), Some(Default::default()))];
                res = parse_quote!(#acc);
                brk = false;
            }
            "sum" => {
                pre.push(parse_quote!(let mut #acc = 0;));
                body = vec![if self.f.math {
                    parse_quote!(#acc = madd(#acc, #x);)
                } else {
                    parse_quote!(#acc = #acc + #x;)
                }];
                res = parse_quote!(#acc);
                brk = false;
            }
            "count" => {
                pre.push(parse_quote!(let mut #acc = 0usize;));
                body = vec![Stmt::Expr(parse_quote!(#acc = #acc + 1), Some(Default::default()))];
                res = parse_quote!(#acc);
                brk = false;
            }
            "partition" => {
                pre.push(parse_quote!(let mut #acc = collect_new();));
                pre.push(parse_quote!(let mut #acc2 = collect_new();));
                let p = apply1(&m.args[0], parse_quote!(&#x));
                body = vec![Stmt::Expr(
                    parse_quote!(if #p { collect_push(&mut #acc, #x); } else { collect_push(&mut #acc2, #x); }),
                    None,
                )];
                res = parse_quote!((#acc, #acc2));
                brk = false;
            }
            "collect" => {
                let mut is_res = question || (tail && self.ret_is_result);
                let mut inner_ty: Option<syn::Type> = None;
                if let Some(tf) = &m.turbofish {
                    if let Some(syn::GenericArgument::Type(syn::Type::Path(p))) = tf.args.first() {
                        let last = p.path.segments.last().unwrap();
                        if last.ident == "Result" {
                            is_res = true;
                            if let syn::PathArguments::AngleBracketed(ab) = &last.arguments {
                                if let Some(syn::GenericArgument::Type(t)) = ab.args.first() {
                                    inner_ty = Some(t.clone());
                                }
                            }
                        } else {
                            is_res = false;
                            inner_ty = Some(syn::Type::Path(p.clone()));
                        }
                    }
                }
                let has_infer = |t: &syn::Type| norm(t).contains('_') && norm(t).contains("<_>");
                match &inner_ty {
                    Some(t) if !has_infer(t) => pre.push(parse_quote!(let mut #acc: #t = collect_new();)),
                    Some(t) => {
                        // Vec<_>, FxHashSet<_>
                        pre.push(parse_quote!(let mut #acc: #t = collect_new();))
                    }
                    None => pre.push(parse_quote!(let mut #acc = collect_new();)),
                }
                if is_res {
                    let er = format_ident!("__err{k}");
                    pre.push(parse_quote!(let mut #er: Option<Error> = None;));
                    body = vec![Stmt::Expr(
                        parse_quote!(match #x { Ok(__v) => { collect_push(&mut #acc, __v); } Err(__e) => { #er = Some(__e); break; } }),
                        None,
                    )];
                    res = parse_quote!(match #er { Some(__e) => Err(__e), None => Ok(#acc) });
                    self.auto[k].invx.push(format!("__err{k} is None"));
                    self.auto[k].ens.push(format!("__err{k} is None ==> __it{k}.pos() == __seq{k}.len()"));
                } else {
                    body = vec![Stmt::Expr(parse_quote!(collect_push(&mut #acc, #x)), Some(Default::default()))];
                    res = parse_quote!(#acc);
                    brk = false;
                }
            }
            _ => {
                self.err = Some(format!("unsupported iterator terminal {term}"));
                return None;
            }
        }
        let lp = self.iter_loop(k, src, &stages, body, None, brk);
        Some(parse_quote!({ #(#pre)* #(#lp)* #res }))
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let save = self.ret_is_result;
        self.ret_is_result = false;
        visit_mut::visit_expr_closure_mut(self, c);
        self.ret_is_result = save;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut new: Option<Expr> = None;
        match e {
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = &*t.expr {
                    if m.method == "collect" {
                        if let Some(x) = self.chain(m, true, false) {
                            new = Some(parse_quote!(#x?));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.chain(m, false, false) {
                    new = Some(x);
                }
            }
            Expr::ForLoop(f) => {
                let k = self.fresh();
                let (src, stages) = split_stages(&f.expr);
                let use_stages = !stages.is_empty() && looks_like_iter(&src, &stages);
                let (src, stages) = if use_stages { (src, stages) } else { ((*f.expr).clone(), vec![]) };
                let src = self.src_iter(src, true);
                let x = format_ident!("__x{k}");
                let pat = &f.pat;
                let brk = has_break(&f.body, f.label.as_ref().map(|l| l.name.ident.to_string()).as_deref());
                let mut body: Vec<Stmt> = vec![];
                if norm(&f.expr).ends_with(".values_mut()") {
                    body.push(parse_quote!(let #pat = &mut #x;));
                } else {
                    body.push(parse_quote!(let #pat = #x;));
                }
                let b = &f.body;
                body.extend(b.stmts.clone());
                let lp = self.iter_loop(k, src, &stages, body, f.label.clone(), brk);
                new = Some(parse_quote!({ #(#lp)* }));
            }
            Expr::While(w) => {
                let k = self.fresh();
                let kl = proc_macro2::Literal::usize_unsuffixed(k);
                let (gs, ge, gb, ga) = (
                    self.gmark(&format!("loop {k} start")),
                    self.gmark(&format!("loop {k} end")),
                    self.gmark(&format!("loop {k} before")),
                    self.gmark(&format!("loop {k} after")),
                );
                let mut body = w.body.stmts.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
                    *semi = Some(Default::default());
                }
                let label = &w.label;
                if let Expr::Let(l) = &*w.cond {
                    let (p, ex) = (&l.pat, &l.expr);
                    new = Some(parse_quote!({ #(#gb)* #label loop { __lm!(#kl); match #ex { #p => { #(#gs)* #(#body)* #(#ge)* } _ => { break; } } } #(#ga)* }));
                } else {
                    let c = &w.cond;
                    new = Some(parse_quote!({ #(#gb)* #label while #c { __lm!(#kl); #(#gs)* #(#body)* #(#ge)* } #(#ga)* }));
                }
            }
            Expr::Loop(l) => {
                let marked = match l.body.stmts.first() {
                    Some(Stmt::Macro(m)) => m.mac.path.is_ident("__lm"),
                    _ => false,
                };
                if !marked {
                    let k = self.fresh();
                    let kl = proc_macro2::Literal::usize_unsuffixed(k);
                    let mut body = l.body.stmts.clone();
                    if let Some(Stmt::Expr(_, semi @ None)) = body.last_mut() {
                        *semi = Some(Default::default());
                    }
                    let label = &l.label;
                    let (gs, ge, gb, ga) = (
                        self.gmark(&format!("loop {k} start")),
                        self.gmark(&format!("loop {k} end")),
                        self.gmark(&format!("loop {k} before")),
                        self.gmark(&format!("loop {k} after")),
                    );
                    new = Some(parse_quote!({ #(#gb)* #label loop { __lm!(#kl); #(#gs)* #(#body)* #(#ge)* } #(#ga)* }));
                }
            }
            _ => {}
        }
        if let Some(x) = new {
            *e = x;
            // the generated loop is marked and will not be numbered again
            if let Expr::While(_) = e {}
            self.visit_generated(e);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> Loops<'a> {
    fn visit_generated(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) => self.visit_generated(&mut t.expr),
            Expr::Block(b) => {
                for s in b.block.stmts.iter_mut() {
                    match s {
                        Stmt::Expr(Expr::Loop(l), _) => visit_mut::visit_block_mut(self, &mut l.body),
                        Stmt::Expr(Expr::While(w), _) => {
                            let marked = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__lm"));
                            if marked {
                                self.visit_expr_mut(&mut w.cond);
                                visit_mut::visit_block_mut(self, &mut w.body)
                            } else {
                                visit_mut::visit_stmt_mut(self, s)
                            }
                        }
                        s => visit_mut::visit_stmt_mut(self, s),
                    }
                }
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- paths, effects, let mut
struct Flatten<'a> {
    unit: &'a Unit,
    local_fns: &'a [String],
    modname: &'a str,
    locals: Vec<String>,
}
impl<'a> Flatten<'a> {
    fn path(&self, p: &mut syn::Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        // typemap: longest matching prefix "a::B"
        for (a, b) in &self.unit.typemap {
            let pre: Vec<&str> = a.split("::").collect();
            if segs.len() >= pre.len() && segs.iter().zip(pre.iter()).all(|(x, y)| x == y) {
                let args = p.segments[pre.len() - 1].arguments.clone();
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(pre.len()).cloned().collect();
                let id = format_ident!("{}", b);
                let mut np: syn::Path = parse_quote!(#id);
                np.segments[0].arguments = args;
                for r in rest {
                    np.segments.push(r);
                }
                *p = np;
                return;
            }
        }
        let mut drop = 0;
        while drop + 1 < segs.len() && self.unit.modules.iter().any(|m| *m == segs[drop]) && segs[drop] != "Self" {
            drop += 1;
        }
        // env::x, process::x, thread::x, anyhow::x ... any lowercase leading segment is a module
        while drop + 1 < segs.len() && segs[drop].chars().next().unwrap().is_lowercase()
            && !["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "str", "char", "f64", "f32"].contains(&segs[drop].as_str()) {
            drop += 1;
        }
        if drop > 0 && segs[0] != "vstd" {
            let last_mod = segs[..drop].iter().rev().find(|s| *s != "crate" && *s != "super" && *s != "self").cloned();
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(drop).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
            let first = p.segments[0].ident.to_string();
            if p.segments.len() == 1 && first.chars().next().unwrap().is_lowercase() {
                let lm = last_mod.unwrap_or_else(|| self.modname.to_string());
                p.segments[0].ident = format_ident!("{}__{}", lm, first);
            }
        } else if segs.len() == 1 && self.local_fns.contains(&segs[0]) && !self.locals.contains(&segs[0]) {
            p.segments[0].ident = format_ident!("{}__{}", self.modname, segs[0]);
        }
    }
}
impl<'a> VisitMut for Flatten<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
    // `dyn Backend + Send` is whatever the trait's contract says: DynBackend
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::TraitObject(o) = t {
            if let Some(syn::TypeParamBound::Trait(b)) = o.bounds.first() {
                let id = format_ident!("Dyn{}", b.path.segments.last().unwrap().ident);
                *t = parse_quote!(#id);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "iter" && m.args.is_empty() {
                    m.method = format_ident!("it");
                }
                // `.m` any receiver; `.r.m` only when the receiver ends in r
                let recv = match &*m.receiver {
                    Expr::Field(f) => match &f.member {
                        syn::Member::Named(i) => i.to_string(),
                        _ => String::new(),
                    },
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    Expr::MethodCall(r) => r.method.to_string(),
                    _ => String::new(),
                };
                if self.unit.effects.iter().any(|x| *x == format!(".{n}") || *x == format!(".{recv}.{n}")) {
                    m.args.push(parse_quote!(w));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if self.unit.effects.iter().any(|x| *x == n) {
                        c.args.push(parse_quote!(w));
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        fn mk(p: &mut syn::Pat) {
            match p {
                syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i.mutability = Some(Default::default()),
                syn::Pat::Type(t) => mk(&mut t.pat),
                syn::Pat::Tuple(t) => t.elems.iter_mut().for_each(mk),
                _ => {}
            }
        }
        if let Some(init) = &l.init {
            // `mut` inside a pattern matched through a reference would move
            if !matches!(l.pat, syn::Pat::Tuple(_)) {
                let _ = init;
                mk(&mut l.pat);
            }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

pub fn flatten_item(it: &mut syn::Item, unit: &Unit) {
    let mut f = Flatten { unit, local_fns: &[], modname: "", locals: vec![] };
    f.visit_item_mut(it);
}

// tail `collect()` of a function returning Result
fn mark_tail(b: &mut syn::Block, l: &mut Loops) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.turbofish.is_none() && l.ret_is_result {
                m.turbofish = Some(parse_quote!(::<Result<_>>));
            }
        }
    }
}

fn split_tags(t: &str) -> Auto {
    let mut a = Auto::default();
    let mut cur: Option<(&str, String)> = None;
    let flush = |c: &mut Option<(&str, String)>, a: &mut Auto| {
        if let Some((k, s)) = c.take() {
            let s = s.trim().trim_end_matches(',').to_string();
            if s.is_empty() {
                return;
            }
            match k {
                "inv" => a.inv.push(s),
                "invx" => a.invx.push(s),
                "ens" => a.ens.push(s),
                _ => a.dec = Some(s),
            }
        }
    };
    for line in t.lines() {
        let l = line.trim_start();
        let tag = ["inv:", "invx:", "ens:", "dec:"].iter().find(|x| l.starts_with(**x));
        if let Some(tg) = tag {
            flush(&mut cur, &mut a);
            cur = Some((match *tg { "inv:" => "inv", "invx:" => "invx", "ens:" => "ens", _ => "dec" }, l[tg.len()..].to_string()));
        } else if let Some((_, s)) = cur.as_mut() {
            s.push('\n');
            s.push_str(line);
        }
    }
    flush(&mut cur, &mut a);
    a
}

pub fn transform(f: &mut Found, ctx: &Ctx) -> R<(String, Info)> {
    let mut info = Info::default();
    let fs = ctx.f;
    let mut block = f.block.clone();
    // pass 0: spec-declared rewrites, drops, ghost anchors
    let mut p0 = Pass0 {
        f: fs,
        used_rw: vec![false; fs.rewrites.len()],
        used_ghost: vec![false; fs.ghosts.len()],
        used_drop: vec![false; fs.drops.len()],
        dropped: vec![],
    };
    p0.visit_block_mut(&mut block);
    for (i, u) in p0.used_drop.iter().enumerate() {
        // nothing to drop is fine
        let _ = (i, u);
    }
    for (i, u) in p0.used_ghost.iter().enumerate() {
        let k = &fs.ghosts[i].0;
        let k2 = k.strip_prefix("all ").unwrap_or(k);
        if (k2.starts_with("before ") || k2.starts_with("after ")) && !u {
            return Err(format!("lost anchor: `{k}`"));
        }
    }
    info.dropped = p0.dropped;
    info.rewrites = fs.rewrites.iter().map(|(a, b)| format!("{a} => {b}")).collect();
    let mut mac = Macros { ctx, err: None };
    mac.visit_block_mut(&mut block);
    if let Some(e) = mac.err {
        return Err(format!("unsupported: {e}"));
    }
    // rewrites of what stood inside a macro
    let done = p0.used_rw.clone();
    let mut late = Late { f: fs, done: &done, used: done.clone() };
    late.visit_block_mut(&mut block);
    for (i, u) in late.used.iter().enumerate() {
        if !u {
            return Err(format!("lost anchor: rewrite `{}`", fs.rewrites[i].0));
        }
    }
    UnusedClosures { info: &mut info }.visit_block_mut(&mut block);
    if !ctx.unit.raii.is_empty() {
        let mut ra = Raii { raii: &ctx.unit.raii, err: None };
        ra.visit_block_mut(&mut block);
        if let Some(e) = ra.err {
            return Err(format!("unsupported: {e}"));
        }
    }
    if fs.math {
        MathAdd.visit_block_mut(&mut block);
        info.rewrites.push("additions treated as mathematical (no overflow check)".into());
    }
    Simplify { spec_text: ctx.all_spec_text, info: &mut info }.visit_block_mut(&mut block);
    let mut cc = Conc { info: &mut info, err: None, atomics: vec![], locks: ctx.all_spec_text.contains("fn lock(") };
    cc.visit_block_mut(&mut block);
    if let Some(e) = cc.err {
        return Err(format!("unsupported: {e}"));
    }
    let ret_is_result = fs.sig.rsplit("->").next().map(|t| t.contains("Result<")).unwrap_or(false);
    let mut lp = Loops { f: fs, next: 0, auto: vec![], err: None, ret_is_result };
    mark_tail(&mut block, &mut lp);
    lp.visit_block_mut(&mut block);
    if let Some(e) = lp.err {
        return Err(e);
    }
    info.loops = lp.next;
    if let Some(n) = fs.expect_loops {
        if n != lp.next {
            return Err(format!("lost anchor: {} loops, contract annotates {}", lp.next, n));
        }
    }
    let maxl = fs.loops.iter().map(|(k, _)| *k + 1).max().unwrap_or(0);
    if maxl > lp.next {
        return Err(format!("lost anchor: loop {} of {}", maxl - 1, lp.next));
    }
    // start / end ghosts
    let gm = |key: &str| -> Vec<Stmt> {
        fs.ghosts
            .iter()
            .enumerate()
            .filter(|(_, (k, _))| k == key)
            .map(|(i, _)| {
                let lit = proc_macro2::Literal::usize_unsuffixed(i);
                parse_quote!(__ghost!(#lit);)
            })
            .collect()
    };
    let start = gm("start");
    let ret = gm("ret");
    let mut stmts = start;
    stmts.extend(block.stmts.drain(..));
    if !ret.is_empty() {
        match stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                stmts.push(parse_quote!(let __ret = #e;));
                stmts.extend(ret);
                stmts.push(Stmt::Expr(parse_quote!(__ret), None));
            }
            Some(s) => {
                stmts.push(s);
                stmts.extend(ret);
            }
            None => stmts.extend(ret),
        }
    }
    let probing = std::env::var("BP_PROBE").is_ok();
    if probing {
        // vacuity: is the end of the function reached? (never `true`: bp_probe is uninterpreted)
        let at = stmts.len().saturating_sub(1);
        if !stmts.is_empty() {
            stmts.insert(at, parse_quote!(__probe!(999);));
        }
    }
    block.stmts = stmts;
    let mut locals: Vec<String> = vec![];
    {
        use syn::visit::Visit;
        struct V<'v>(&'v mut Vec<String>);
        impl<'a, 'v> Visit<'a> for V<'v> {
            fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                self.0.push(i.ident.to_string());
            }
        }
        let mut v = V(&mut locals);
        v.visit_block(&block);
        v.visit_signature(&f.sig);
    }
    let mut fl = Flatten { unit: ctx.unit, local_fns: &ctx.local_fns, modname: &ctx.modname, locals };
    fl.visit_block_mut(&mut block);
    // print
    let item: syn::Item = parse_quote!(fn __extracted() #block);
    let txt = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![item] });
    let pos = txt.find('{').unwrap();
    let mut body = txt[pos..].to_string();
    // loop clauses
    for k in 0..lp.next {
        let mut a = lp.auto[k].clone();
        for (kk, t) in &fs.loops {
            if *kk == k {
let t = subst_dollar(t, k);
                let u = split_tags(&t);
                a.inv.extend(u.inv);
                a.invx.extend(u.invx);
                a.ens.extend(u.ens);
                if u.dec.is_some() {
                    a.dec = u.dec;
                }
            }
        }
        let mut c = String::new();
        if !a.invx.is_empty() {
            c.push_str(&format!("\n    invariant_except_break {},", a.invx.join(",\n        ")));
        }
        if !a.inv.is_empty() {
            c.push_str(&format!("\n    invariant {},", a.inv.join(",\n        ")));
        }
        if !a.ens.is_empty() {
            c.push_str(&format!("\n    ensures {},", a.ens.join(",\n        ")));
        }
        if let Some(d) = &a.dec {
            c.push_str(&format!("\n    decreases {d},"));
        }
        let mk = format!("__lm!({k});");
        let p = match body.find(&mk) {
            Some(p) => p,
            None => return Err(format!("internal: loop marker {k}")),
        };
        let brace = body[..p].rfind('{').unwrap();
        body.replace_range(brace..p + mk.len(), &format!("{c}\n    {{ /* loop {k} */"));
        if probing {
            let m = format!("/* loop {k} */");
            body = body.replace(&m, &format!("{m} proof {{ assert(!bp_probe({k})); }}"));
        }
        let gl = format!("__glet!({k});");
        body = body.replace(&gl, &format!("let ghost __seq{k} = __it{k}.seq();"));
    }
    for (i, (_, t)) in fs.ghosts.iter().enumerate() {
        let t = subst_dollar(t, 0);
        body = body.replace(&format!("__ghost!({i});"), &t);
    }
    if probing {
        body = body.replace("__probe!(999);", "proof { assert(!bp_probe(999)); }");
        let b = body.find('{').unwrap();
        body.insert_str(b + 1, "\nproof { assert(!bp_probe(1000)); }\n");
    }
    let mut out = String::new();
    if !fs.header.is_empty() {
        out.push_str(&format!("{} {{\n", fs.header));
    }
    out.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    if !fs.attrs.is_empty() {
        out.push_str(&fs.attrs);
        out.push('\n');
    }
    out.push_str(fs.sig.trim());
    let clause = |k: &str, t: &str| if t.trim().is_empty() { String::new() } else { format!("\n    {k} {},", t.trim().trim_end_matches(',')) };
    out.push_str(&clause("requires", &fs.requires));
    out.push_str(&clause("ensures", &fs.ensures));
    out.push_str(&clause("decreases", &fs.decreases));
    out.push('\n');
    out.push_str(&body);
    if !fs.header.is_empty() {
        out.push_str("}\n");
    }
    Ok((out, info))
}

/// `$it $seq $acc $err $x`, optionally followed by a loop number (default k)
fn subst_dollar(t: &str, k: usize) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find('$') {
        out.push_str(&rest[..p]);
        rest = &rest[p + 1..];
        let name = ["it", "seq", "acc", "err", "x"].iter().find(|n| rest.starts_with(**n));
        match name {
            Some(n) => {
                let r = &rest[n.len()..];
                let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                let kk = if d.is_empty() { k.to_string() } else { d.clone() };
                out.push_str(&format!("__{n}{kk}"));
                rest = &r[d.len()..];
            }
            None => out.push('$'),
        }
    }
    out.push_str(rest);
    out
}
