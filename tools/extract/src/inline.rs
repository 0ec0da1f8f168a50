//! Helpers the contracts do not know: a call to a function of the same file that no
//! contract, shim or prelude declares is replaced by that function's body, so that
//! splitting a function under contract does not take its proof away.
//!
//!   f(a, b)   becomes  { let __a0 = a; let __a1 = b; let p = __a0; let q = __a1; BODY }
//!
//! only where that means the same: BODY has no `return`, `?` or `bail!`-like macro,
//! or the call is followed by `?` / stands in tail position, where leaving BODY
//! early with an error leaves the caller early with the same error.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

#[derive(Default)]
struct Exits {
    q: bool,        // `?`, bail!, ensure!, return Err(..)
    ret: bool,      // return of anything else
    depth: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Try(_) => self.q = true,
            Expr::Return(r) => match r.expr.as_deref() {
                Some(Expr::Call(c)) if quote!(#c).to_string().starts_with("Err") => self.q = true,
                _ => self.ret = true,
            },
            Expr::Closure(c) if c.asyncness.is_none() => {
                // leaving a closure is not leaving the function
                return;
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "bail" || n == "ensure" {
            self.q = true;
        } else {
            let t = m.tokens.to_string();
            if t.contains('?') && n != "println" && !t.contains(":?") {
                self.q = true;
            }
            if t.contains("return") {
                self.ret = true;
            }
        }
        let _ = self.depth;
    }
}

struct Callee {
    sig: syn::Signature,
    block: Block,
}

pub struct Inl<'a> {
    pub items: &'a [syn::Item],
    pub self_ty: Option<String>,
    pub modname: &'a str,
    pub known: &'a dyn Fn(&str) -> bool,
    pub this: String,
    pub done: Vec<String>,
    depth: usize,
    count: usize,
}

fn closure(e: &Expr) -> Option<&syn::ExprClosure> {
    match e {
        Expr::Paren(p) => closure(&p.expr),
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}
/// drops the scope argument of a scope's closure: `f(s, x)` becomes `f(x)`
struct NoScope(String);
impl VisitMut for NoScope {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let n = self.0.clone();
            let keep: Vec<Expr> = c.args.iter().filter(|a| quote!(#a).to_string() != n).cloned().collect();
            c.args = keep.into_iter().collect();
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn closure_callee(k: &syn::ExprClosure, scope: Option<String>) -> Callee {
    let out = match &k.output {
        syn::ReturnType::Default => parse_quote!(-> Result<_>),
        o => o.clone(),
    };
    let mut sig: syn::Signature = parse_quote!(fn closure());
    sig.output = out;
    let body = &k.body;
    let mut block: Block = match &**body {
        Expr::Block(b) => b.block.clone(),
        o => parse_quote!({ #o }),
    };
    if let Some(s) = scope {
        NoScope(s).visit_block_mut(&mut block);
    }
    no_progress(&mut block);
    Callee { sig, block }
}
/// `let P = ..ProgressThread::spawn(..); .. P.join();` only show progress on the terminal;
/// without them, `let R = E; R` at the end is `E`.
pub fn no_progress(b: &mut Block) {
    let mut names: Vec<String> = vec![];
    b.stmts.retain(|s| match s {
        Stmt::Local(syn::Local { pat: syn::Pat::Ident(p), init: Some(i), .. }) => {
            let x = &i.expr;
            let t = quote!(#x).to_string().replace(' ', "");
            let gone = matches!(&**x, Expr::Call(_)) && t.split('(').next().unwrap().ends_with("ProgressThread::spawn");
            if gone {
                names.push(p.ident.to_string());
            }
            !gone
        }
        Stmt::Expr(e, Some(_)) => {
            let t = quote!(#e).to_string().replace(' ', "");
            !names.iter().any(|n| t == format!("{n}.join()"))
        }
        _ => true,
    });
    if names.is_empty() {
        return;
    }
    if let [.., Stmt::Local(syn::Local { pat: syn::Pat::Ident(p), init: Some(i), .. }), Stmt::Expr(Expr::Path(r), None)] = &b.stmts[..] {
        if r.path.is_ident(&p.ident) {
            let x = (*i.expr).clone();
            b.stmts.pop();
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(x, None));
        }
    }
}

fn type_last(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

impl<'a> Inl<'a> {
    pub fn new(items: &'a [syn::Item], self_ty: Option<String>, modname: &'a str, known: &'a dyn Fn(&str) -> bool, this: String) -> Self {
        Inl { items, self_ty, modname, known, this, done: vec![], depth: 0, count: 0 }
    }
    fn free(&self, name: &str) -> Option<Callee> {
        if name == self.this || (self.known)(&format!("{}__{}", self.modname, name)) || (self.known)(name) {
            return None;
        }
        self.items.iter().find_map(|i| match i {
            syn::Item::Fn(f) if f.sig.ident == name && f.sig.unsafety.is_none() => Some(Callee { sig: f.sig.clone(), block: (*f.block).clone() }),
            _ => None,
        })
    }
    fn method(&self, ty: &str, name: &str) -> Option<Callee> {
        if name == self.this || (self.known)(name) {
            return None;
        }
        for i in self.items {
            if let syn::Item::Impl(im) = i {
                if im.trait_.is_none() && type_last(&im.self_ty) == ty {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                return Some(Callee { sig: f.sig.clone(), block: f.block.clone() });
                            }
                        }
                    }
                }
            }
        }
        None
    }
    /// the function a call goes to and its arguments, if it is one to inline
    fn target(&self, e: &Expr) -> Option<(String, Callee, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                // `(|| BODY)()` and `thread::scope(|s| BODY)` run BODY once, here
                if let (Some(k), true) = (closure(&c.func), c.args.is_empty()) {
                    if k.inputs.is_empty() {
                        return Some(("closure".into(), closure_callee(k, None), vec![]));
                    }
                }
                if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                    if quote!(#p).to_string().replace(' ', "").ends_with("thread::scope") {
                        if let Some(k) = closure(&c.args[0]) {
                            if let (1, Some(syn::Pat::Ident(s))) = (k.inputs.len(), k.inputs.first()) {
                                return Some(("thread::scope".into(), closure_callee(k, Some(s.ident.to_string())), vec![]));
                            }
                        }
                    }
                }
                let p = match &*c.func {
                    Expr::Path(p) => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match segs.len() {
                    1 => self.free(&segs[0]).map(|x| (segs[0].clone(), x, args)),
                    2 => {
                        let ty = if segs[0] == "Self" { self.self_ty.clone()? } else { segs[0].clone() };
                        let c = self.method(&ty, &segs[1])?;
                        if c.sig.receiver().is_some() {
                            return None;
                        }
                        Some((format!("{ty}::{}", segs[1]), c, args))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                if quote!(#r).to_string() != "self" {
                    return None;
                }
                let ty = self.self_ty.clone()?;
                let c = self.method(&ty, &m.method.to_string())?;
                c.sig.receiver()?;
                Some((format!("{ty}::{}", m.method), c, m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    /// the lets that bind the parameters, and the body
    fn expand(&mut self, name: &str, c: &Callee, args: Vec<Expr>) -> Option<(Vec<Stmt>, Block)> {
        if self.depth > 4 {
            return None;
        }
        let params: Vec<&syn::PatType> = c.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(t), _ => None }).collect();
        if params.len() != args.len() {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut bind: Vec<Stmt> = vec![];
        for (p, a) in params.iter().zip(args) {
            // the same name on both sides needs no binding
            let pp = &p.pat;
            if matches!(&**pp, syn::Pat::Ident(i) if i.mutability.is_none()) && quote!(#pp).to_string() == quote!(#a).to_string() {
                continue;
            }
            let id = format_ident!("__a{}", self.count);
            self.count += 1;
            let a: Expr = match &*p.ty {
                // a `&mut` variable handed on is reborrowed
                syn::Type::Reference(r) if r.mutability.is_some() && matches!(a, Expr::Path(_)) => parse_quote!(&mut *#a),
                _ => a,
            };
            lets.push(parse_quote!(let #id = #a;));
            bind.push(parse_quote!(let #pp = #id;));
        }
        lets.extend(bind);
        self.done.push(format!("helper {name}"));
        Some((lets, c.block.clone()))
    }
    fn ret_ty(c: &Callee) -> Option<TokenStream> {
        match &c.sig.output {
            syn::ReturnType::Type(_, t) => {
                let s = quote!(#t);
                if s.to_string().contains("impl ") { None } else { Some(s) }
            }
            _ => None,
        }
    }
    pub fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => {
                if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                    self.tail(x);
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(x, None)) = i.then_branch.stmts.last_mut() {
                    self.tail(x);
                }
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail(&mut a.body)),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            _ => {
                if let Some((name, c, args)) = self.target(e) {
                    if let Some((lets, body)) = self.expand(&name, &c, args) {
                        let st = body.stmts;
                        *e = parse_quote!({ #(#lets)* #(#st)* });
                        self.depth += 1;
                        self.tail(e);
                        self.depth -= 1;
                    }
                }
            }
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
            self.tail(x);
        }
        self.visit_block_mut(b);
    }
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_macro_mut(&mut self, _: &mut syn::Macro) {}
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // CALL?
        if let Expr::Try(t) = e {
            if let Some((name, c, args)) = self.target(&t.expr) {
                let mut x = Exits::default();
                x.visit_block(&c.block);
                if !x.ret {
                    if let (Some(ty), Some((lets, body))) = (Self::ret_ty(&c), self.expand(&name, &c, args)) {
                        let mut st = body.stmts;
                        // `Ok(x)` at the end is x
                        let last = st.pop();
                        *e = match last {
                            Some(Stmt::Expr(Expr::Call(k), None)) if { let f = &k.func; quote!(#f).to_string() == "Ok" } && k.args.len() == 1 => {
                                let v = &k.args[0];
                                parse_quote!({ #(#lets)* #(#st)* #v })
                            }
                            Some(Stmt::Expr(t @ Expr::Call(_), None)) => parse_quote!({ #(#lets)* #(#st)* #t? }),
                            Some(l) => {
                                st.push(l);
                                let id = format_ident!("__r{}", self.count);
                                self.count += 1;
                                parse_quote!({ #(#lets)* let #id: #ty = { #(#st)* }; #id? })
                            }
                            None => parse_quote!({ #(#lets)* }),
                        };
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                        return;
                    }
                }
            }
        } else if let Some((name, c, args)) = self.target(e) {
            let mut x = Exits::default();
            x.visit_block(&c.block);
            if !x.ret && !x.q {
                if let Some((lets, body)) = self.expand(&name, &c, args) {
                    let st = body.stmts;
                    *e = parse_quote!({ #(#lets)* #(#st)* });
                    self.depth += 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.depth -= 1;
                    return;
                }
            }
        }
        // constants of the file nobody declares
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if n.len() > 1 && n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && !(self.known)(&n) {
                    if let Some(x) = self.items.iter().find_map(|i| match i {
                        syn::Item::Const(k) if k.ident == n => Some((*k.expr).clone()),
                        _ => None,
                    }) {
                        self.done.push(format!("const {n}"));
                        *e = parse_quote!((#x));
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
