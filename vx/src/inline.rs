//! vx --inline SRC.rs TYPE::name|name ...: the source with the named functions put back into their callers.
//!
//! A contract is about a function of the code base as it was; a helper that was cut out of such a function has no
//! contract of its own. Its calls are replaced by its body (a program equivalent by the meaning of calls), so that the caller can be
//! verified against its contract. Done only when it is plainly right: the helper is not generic and does not
//! call itself, its arguments are variables, borrows of variables or plain values, and
//! * `helper(..)?` where every `return` of the helper returns an error: its `?` and `return` leave the caller just as well;
//! * `return helper(..)` or a tail call, when both return the same type;
//! * otherwise a helper without `return` and `?`.
//! Prints {"source": ..., "left": [functions that could not be put back]}.
use crate::{norm, rng};
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::json;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct Facts {
    bad_returns: usize,
    returns: usize,
    tries: usize,
    items: usize,
    binds: Vec<String>,
    depth: usize,
}
impl<'a> Visit<'a> for Facts {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        if self.depth == 0 {
            self.returns += 1;
            let ok = match r.expr.as_deref() {
                Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"),
                Some(Expr::Path(p)) => p.path.segments.last().unwrap().ident == "None",
                _ => false,
            };
            if !ok {
                self.bad_returns += 1;
            }
        }
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        if self.depth == 0 {
            self.tries += 1;
        }
        visit::visit_expr_try(self, t)
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        self.depth += 1;
        visit::visit_expr_closure(self, c);
        self.depth -= 1;
    }
    fn visit_item(&mut self, i: &'a Item) {
        self.items += !matches!(i, Item::Use(_)) as usize;
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.binds.push(p.ident.to_string());
        visit::visit_pat_ident(self, p)
    }
}

struct Helper {
    ty: String,
    name: String,
    params: Vec<(String, String, bool)>, // name, type, mutable binding; the receiver is called self
    ret: String,
    block: (usize, usize),
    item: (usize, usize),
    facts: Facts,
    tokens: TokenStream,
    /// tail expression Ok(E)/Some(E): the ranges of the whole and of E
    tail_ok: Option<((usize, usize), (usize, usize))>,
    /// the body declares nothing of its own at its top level
    flat: bool,
}

fn helper(sig: &Signature, b: &Block, item: (usize, usize), ty: &str) -> Option<Helper> {
    if sig.generics.params.iter().any(|g| !matches!(g, GenericParam::Lifetime(_))) || sig.generics.where_clause.is_some() {
        return None;
    }
    let mut params = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(_) => params.push(("self".to_string(), String::new(), false)),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => params.push((p.ident.to_string(), t.ty.to_token_stream().to_string(), p.mutability.is_some())),
                _ => return None,
            },
        }
    }
    let mut facts = Facts::default();
    facts.visit_block(b);
    if facts.items > 0 {
        return None;
    }
    let tail_ok = match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => match e {
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if matches!(p.path.segments.last().unwrap().ident.to_string().as_str(), "Ok" | "Some")) => Some((rng(e), rng(&c.args[0]))),
            _ => None,
        },
        _ => None,
    };
    let ret = match &sig.output {
        ReturnType::Type(_, t) => norm(t),
        _ => "()".into(),
    };
    Some(Helper { ty: ty.to_string(), name: sig.ident.to_string(), params, ret, block: rng(b), item, facts, tokens: b.to_token_stream(), tail_ok, flat: !b.stmts.iter().any(|s| matches!(s, Stmt::Local(_))) })
}

struct Find<'a> {
    ty: String,
    want: (&'a str, &'a str),
    found: Option<Helper>,
    seen: usize,
}
impl<'a, 'b> Visit<'b> for Find<'a> {
    fn visit_item_impl(&mut self, i: &'b ItemImpl) {
        let old = std::mem::replace(&mut self.ty, if i.trait_.is_none() { norm(&i.self_ty) } else { "?".into() });
        visit::visit_item_impl(self, i);
        self.ty = old;
    }
    fn visit_impl_item_fn(&mut self, f: &'b ImplItemFn) {
        if self.want == (self.ty.as_str(), f.sig.ident.to_string().as_str()) {
            self.seen += 1;
            self.found = helper(&f.sig, &f.block, rng(f), &self.ty);
        }
        visit::visit_impl_item_fn(self, f)
    }
    fn visit_item_fn(&mut self, f: &'b ItemFn) {
        if self.want == ("", f.sig.ident.to_string().as_str()) {
            self.seen += 1;
            self.found = helper(&f.sig, &f.block, rng(f), "");
        }
        visit::visit_item_fn(self, f)
    }
}

struct Calls<'a> {
    src: &'a str,
    h: &'a Helper,
    ty: String,
    ret: String,
    /// ranges of calls in a position where leaving the helper leaves the caller
    tails: Vec<(usize, usize)>,
    /// ranges of calls that are statements of their own
    stmts: Vec<(usize, usize)>,
    edits: Vec<(usize, usize, String)>,
    ok: bool,
    in_closure: usize,
}

fn idents_followed(ts: &TokenStream, f: &mut dyn FnMut(&str, (usize, usize), Option<char>, Option<char>)) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (n, t) in v.iter().enumerate() {
        let ch = |t: Option<&TokenTree>| match t {
            Some(TokenTree::Punct(p)) => Some(p.as_char()),
            _ => None,
        };
        match t {
            TokenTree::Ident(i) => {
                let r = i.span().byte_range();
                f(&i.to_string(), (r.start, r.end), if n > 0 { ch(v.get(n - 1)) } else { None }, ch(v.get(n + 1)))
            }
            TokenTree::Group(g) => idents_followed(&g.stream(), f),
            _ => {}
        }
    }
}

/// x or x.f.g
fn place(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(x) => Some(x.path.get_ident()?.to_string()),
        Expr::Field(f) => match &f.member {
            Member::Named(n) => Some(format!("{}.{}", place(&f.base)?, n)),
            _ => None,
        },
        _ => None,
    }
}

impl<'a> Calls<'a> {
    fn mark_tail(&mut self, e: &Expr) {
        match e {
            Expr::Block(b) => self.mark_tail_block(&b.block),
            Expr::If(i) => {
                self.mark_tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.mark_tail(e)
                }
            }
            Expr::Match(m) => m.arms.iter().for_each(|a| self.mark_tail(&a.body)),
            Expr::MethodCall(_) | Expr::Call(_) => self.tails.push(rng(e)),
            _ => {}
        }
    }
    fn mark_tail_block(&mut self, b: &Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark_tail(e)
        }
    }
    fn enter(&mut self, sig: &Signature, b: &Block) -> (String, Vec<(usize, usize)>) {
        let r = match &sig.output {
            ReturnType::Type(_, t) => norm(t),
            _ => "()".into(),
        };
        let old = (std::mem::replace(&mut self.ret, r), std::mem::take(&mut self.tails));
        self.mark_tail_block(b);
        old
    }
    /// the text that replaces a call with these arguments; None: leave it
    fn body(&self, args: &[&Expr], tried: bool, stmt: bool) -> Option<String> {
        let h = self.h;
        if args.len() != h.params.len() {
            return None;
        }
        let mut lets = String::new();
        let mut edits: Vec<(usize, usize, String)> = vec![];
        for (a, (p, ty, mutable)) in args.iter().zip(&h.params) {
            let arg = &self.src[rng(*a).0..rng(*a).1];
            let target = match a {
                Expr::Path(x) if x.path.get_ident().is_some() && !mutable => Some((x.path.get_ident().unwrap().to_string(), false)),
                Expr::Reference(r) if r.mutability.is_some() => Some((place(&r.expr)?, true)),
                _ => None,
            };
            let plain = ty.starts_with('&') || p == "self";
            match target {
                // a variable stands for the parameter: a borrow, or a value that is not used up or changed in between
                Some((v, borrowed)) if plain => {
                    if v != *p && h.facts.binds.iter().any(|b| Some(b.as_str()) == v.split('.').next()) {
                        return None;
                    }
                    if v != *p || borrowed {
                        let mut bad = false;
                        idents_followed(&h.tokens, &mut |i, r, before, after| {
                            if i == p && before != Some('.') {
                                if after == Some(':') {
                                    bad = true;
                                }
                                let t = if !borrowed {
                                    v.clone()
                                } else if before == Some('*') {
                                    edits.push((r.0 - 1, r.0, String::new()));
                                    bad |= self.src.as_bytes()[r.0 - 1] != b'*';
                                    v.clone()
                                } else if after == Some('.') {
                                    v.clone()
                                } else {
                                    format!("&mut {}", v)
                                };
                                edits.push((r.0, r.1, t));
                            }
                        });
                        let text = h.tokens.to_string();
                        if bad || text.contains(&format!("{{{}}}", p)) || text.contains(&format!("{{{}:", p)) || h.facts.binds.contains(p) {
                            return None;
                        }
                    }
                }
                _ => {
                    if p == "self" || ty.starts_with("& mut") {
                        return None;
                    }
                    lets += &format!("let {}{}: {} = {}; ", if *mutable { "mut " } else { "" }, p, ty, arg);
                }
            }
        }
        if args.len() > 1 && lets.matches("let ").count() > 1 {
            // later arguments must not see earlier parameters
            for a in args {
                let mut names = vec![];
                idents_followed(&a.to_token_stream(), &mut |i, _, b, _| if b != Some('.') { names.push(i.to_string()) });
                if !matches!(a, Expr::Path(_)) && names.iter().any(|n| h.params.iter().any(|p| p.0 == *n && n != "self")) {
                    return None;
                }
            }
        }
        let mut direct = false;
        if tried {
            if let Some((whole, inner)) = h.tail_ok {
                edits.push((whole.0, inner.0, String::new()));
                edits.push((inner.1, whole.1, String::new()));
                direct = true;
            }
        }
        edits.sort();
        let (a, b) = h.block;
        let mut t = String::new();
        let mut at = a + 1;
        for (x, y, s) in edits {
            if x < at {
                return None;
            }
            t += &self.src[at..x];
            t += &s;
            at = y;
        }
        t += &self.src[at..b - 1];
        if stmt && lets.is_empty() && h.flat && (!tried || direct) {
            return Some(t);
        }
        let t = format!("{{ {}{} }}", lets, t);
        Some(if tried && !direct { format!("({})?", t) } else { t })
    }
    fn try_call(&mut self, e: &Expr, tried: bool, whole: (usize, usize)) -> bool {
        let h = self.h;
        let (args, is) = match e {
            Expr::MethodCall(m) => {
                let mut v = vec![&*m.receiver];
                v.extend(m.args.iter());
                (v, m.method == h.name && !h.ty.is_empty() && h.params.first().is_some_and(|p| p.0 == "self"))
            }
            Expr::Call(c) => (
                c.args.iter().collect(),
                matches!(&*c.func, Expr::Path(p) if {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    s.last() == Some(&h.name) && if h.ty.is_empty() { s.len() == 1 } else { s.len() == 2 && (s[0] == h.ty || s[0] == "Self" && self.ty == h.ty) }
                }),
            ),
            _ => return false,
        };
        if !is {
            return false;
        }
        let f = &h.facts;
        let tail = self.tails.contains(&whole) && self.ret == h.ret;
        let fits = self.in_closure == 0 && (tried && f.bad_returns == 0 || !tried && tail) || f.returns == 0 && f.tries == 0;
        // a plain call: what is inside need not be an error
        match if fits { self.body(&args, tried && (f.returns + f.tries > 0 || h.tail_ok.is_some()), self.stmts.contains(&whole)) } else { None } {
            Some(t) => {
                // without `?` inside, `helper(..)?` keeps its own
                let t = if tried && !(f.returns + f.tries > 0 || h.tail_ok.is_some()) { format!("({})?", t) } else { t };
                self.edits.push((whole.0, whole.1, t));
            }
            None => self.ok = false,
        }
        true
    }
}
impl<'a, 'b> Visit<'b> for Calls<'a> {
    fn visit_item_impl(&mut self, i: &'b ItemImpl) {
        let old = std::mem::replace(&mut self.ty, norm(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.ty = old;
    }
    fn visit_impl_item_fn(&mut self, f: &'b ImplItemFn) {
        if rng(f) == self.h.item {
            return;
        }
        let old = self.enter(&f.sig, &f.block);
        visit::visit_impl_item_fn(self, f);
        (self.ret, self.tails) = old;
    }
    fn visit_item_fn(&mut self, f: &'b ItemFn) {
        if rng(f) == self.h.item {
            return;
        }
        let old = self.enter(&f.sig, &f.block);
        visit::visit_item_fn(self, f);
        (self.ret, self.tails) = old;
    }
    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
        self.in_closure += 1;
        visit::visit_expr_closure(self, c);
        self.in_closure -= 1;
    }
    fn visit_expr_return(&mut self, r: &'b ExprReturn) {
        if let Some(e) = &r.expr {
            if self.ret == self.h.ret && self.in_closure == 0 {
                self.tails.push(rng(&**e));
            }
        }
        visit::visit_expr_return(self, r)
    }
    fn visit_stmt(&mut self, s: &'b Stmt) {
        if let Stmt::Expr(e, Some(_)) = s {
            self.stmts.push(rng(e));
        }
        visit::visit_stmt(self, s)
    }
    fn visit_expr(&mut self, e: &'b Expr) {
        if let Expr::Try(t) = e {
            if self.try_call(&t.expr, true, rng(e)) {
                return;
            }
        }
        if self.try_call(e, false, rng(e)) {
            return;
        }
        visit::visit_expr(self, e)
    }
    fn visit_item_macro(&mut self, _: &'b ItemMacro) {
        // only definitions are left in an expanded source
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.h.name) {
            self.ok = false;
        }
    }
}

pub fn main(args: &[String]) {
    let mut src = std::fs::read_to_string(&args[0]).unwrap();
    let mut left: Vec<String> = vec![];
    for want in &args[1..] {
        let (ty, name) = want.rsplit_once("::").unwrap_or(("", want));
        let f: File = parse_file(&src).unwrap();
        let mut fd = Find { ty: String::new(), want: (ty, name), found: None, seen: 0 };
        fd.visit_file(&f);
        let h = match fd.found {
            Some(h) if fd.seen == 1 => h,
            _ => {
                left.push(want.clone());
                continue;
            }
        };
        let mut recursive = false;
        idents_followed(&h.tokens, &mut |i, _, _, _| recursive |= i == h.name);
        let mut c = Calls { src: &src, h: &h, ty: String::new(), ret: String::new(), tails: vec![], stmts: vec![], edits: vec![], ok: !recursive, in_closure: 0 };
        c.visit_file(&f);
        if !c.ok || c.edits.is_empty() {
            left.push(want.clone());
            continue;
        }
        let mut es = c.edits;
        es.push((h.item.0, h.item.1, String::new()));
        es.sort();
        let mut t = String::new();
        let mut at = 0;
        for (a, b, s) in es {
            assert!(a >= at, "nested calls");
            t += &src[at..a];
            t += &s;
            at = b;
        }
        t += &src[at..];
        src = t;
    }
    println!("{}", json!({"source": src, "left": left}));
}
