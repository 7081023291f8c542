//! vx: mechanical extraction of functions from macro-expanded Rust source.
//!
//! Reads an expanded crate, and for every item emits (as JSON) its source text verbatim except for the
//! token-level edits listed below, plus slot markers (comments `/*@name@*/`) where contracts, loop
//! invariants and proof hints may be attached. Edits performed, and nothing else:
//!   * identifiers/paths in the configuration tables are renamed to shims of the same meaning
//!     (e.g. `.to_le_bytes()` -> `.v_to_le_bytes()`, `Chars` -> `VChars`);
//!   * `for P in E B` is replaced by Rust's own expansion: `let mut it = into_iter(E); loop { match it.next() {..} }`;
//!   * `X.ok_or_else(|| E)`, `unwrap_or_else`, `map_or_else`, `map(|v| E)` on options and `R.try_fold(I, |a, p| B)`
//!     `X.is_some_and(|p| B)` are replaced by the match / loop that defines them;
//!   * `while C B` whose condition contains `?` becomes `loop { if !(C) { break; } B }`;
//!   * `E as f64` becomes `v_as_f64(E)` (the same for f32);
//!   * `&X[n..]` becomes `v_from(&X, n)`, `-f64::C` becomes `v_fneg(f64::C)`;
//!   * `format!`/`write!` are replaced by one append call per literal piece / argument;
//!   * comparisons and patterns with string literals become calls of `v_seq` (string equality), `s += "lit"` becomes `s.push_str("lit")`;
//!   * `R.and_then(|p| { S; T })` on results is replaced by the match that defines it; a statement `E?;` of such a closure becomes
//!     `match E { Err(e) => Err(e), Ok(_) => { rest } }`;
//!   * the MaybeUninit idioms become operations of VMuArr (an array of raw slots) and VMu (one raw slot) on a ledger of the
//!     initialised raw slots: `MaybeUninit::<[MaybeUninit<T>; N]>::uninit().assume_init()`, `to[i] = E`, `to[i].write(E)`, `MaybeUninit::new`,
//!     `x.assume_init()`, `(*(&to as *const _ as *const MaybeUninit<_>)).assume_init_read()`, `ptr::read(&to as *const _ as *const _)`;
//!     the keyword `unsafe` is dropped (an unsafe operation that remains is then refused by the compiler);
//!   * panics are replaced by a call to a function with precondition `false`;
//!   * functions nested in functions are hoisted; constants nested in functions become locals; private items are made `pub`; attributes and doc comments dropped.
//! `vx --inline` (inline.rs) puts a function that has no contract back into its callers first.
mod inline;
use proc_macro2::{LineColumn, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone)]
struct Edit {
    a: usize,
    b: usize,
    text: String,
    /// order among zero-length edits at the same place
    ord: (i8, i64),
}

struct Cfg {
    idents: BTreeMap<String, String>,
    paths: Vec<(Vec<String>, String)>,
    types: BTreeMap<String, String>,
    methods: BTreeMap<String, String>,
}

struct Cx<'a> {
    src: &'a str,
    cfg: &'a Cfg,
}

fn rng<T: Spanned>(x: &T) -> (usize, usize) {
    let r = x.span().byte_range();
    (r.start, r.end)
}

fn apply(src: &str, base: (usize, usize), edits: &[Edit]) -> String {
    let mut es: Vec<Edit> = edits.iter().filter(|e| e.a >= base.0 && e.b <= base.1).cloned().collect();
    // drop edits strictly inside a replaced region
    let repl: Vec<(usize, usize)> = es.iter().filter(|e| e.b > e.a).map(|e| (e.a, e.b)).collect();
    es.retain(|e| {
        !repl.iter().any(|r| {
            (e.b > e.a && (r.0 < e.a && e.b <= r.1 || r.0 <= e.a && e.b < r.1)) || (e.a == e.b && r.0 < e.a && e.a < r.1)
        })
    });
    es.sort_by_key(|e| (e.a, if e.a == e.b { 0 } else { 1 }, e.ord));
    let mut out = String::new();
    let mut pos = base.0;
    for e in &es {
        if e.a < pos {
            continue;
        }
        out.push_str(&src[pos..e.a]);
        out.push_str(&e.text);
        pos = e.b;
    }
    out.push_str(&src[pos..base.1]);
    out
}

fn norm(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let mut prev = ' ';
    let cs: Vec<char> = s.chars().collect();
    for (k, &c) in cs.iter().enumerate() {
        if c.is_whitespace() {
            let n = cs.get(k + 1).copied().unwrap_or(' ');
            if (prev.is_alphanumeric() || prev == '_') && (n.is_alphanumeric() || n == '_' || n == '\'') {
                out.push(' ');
                prev = ' ';
            }
            continue;
        }
        out.push(c);
        prev = c;
    }
    out
}

/// state of the visit of one function body
struct Fv<'a, 'b> {
    cx: &'b Cx<'a>,
    edits: Vec<Edit>,
    seq: i64,
    nloops: usize,
    depth: usize,
    loops: Vec<Value>,
    lets: Vec<String>,
    /// per open block: locals declared there with the initial value None
    nones: Vec<Vec<String>>,
    calls: Vec<String>,
    call_no: BTreeMap<String, usize>,
    rets: usize,
    arms: BTreeMap<String, usize>,
    hoisted: Vec<ItemFn>,
    closure_ret: Option<usize>, // inside a desugared try_fold: return None => flag
    closure_depth: usize,
    unsup: Vec<String>,
    pat_names: std::collections::BTreeSet<String>, // names that patterns of the body mention
    mu: std::collections::BTreeSet<String>, // locals that are arrays of MaybeUninit
    ledger: bool,
}

impl<'a, 'b> Fv<'a, 'b> {
    fn new(cx: &'b Cx<'a>) -> Self {
        Fv { cx, edits: vec![], seq: 0, nloops: 0, depth: 0, loops: vec![], lets: vec![], nones: vec![], calls: vec![], call_no: BTreeMap::new(), rets: 0, arms: BTreeMap::new(), hoisted: vec![], closure_ret: None, closure_depth: 0, unsup: vec![], pat_names: Default::default(), mu: Default::default(), ledger: false }
    }
    fn ins_before(&mut self, at: usize, t: impl Into<String>) {
        // opening insertions: outer first
        self.seq += 1;
        self.edits.push(Edit { a: at, b: at, text: t.into(), ord: (1, self.seq) });
    }
    fn ins_after(&mut self, at: usize, t: impl Into<String>) {
        // closing insertions: inner first
        self.seq += 1;
        self.edits.push(Edit { a: at, b: at, text: t.into(), ord: (0, -self.seq) });
    }
    fn repl(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.seq += 1;
        self.edits.push(Edit { a, b, text: t.into(), ord: (0, 0) });
    }
    fn src(&self, r: (usize, usize)) -> String {
        self.cx.src[r.0..r.1].to_string()
    }
    fn path_edit(&mut self, p: &Path, is_type: bool) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(last) = p.segments.last() {
            if is_type {
                if let Some(n) = self.cx.cfg.types.get(&last.ident.to_string()) {
                    let (a, _) = rng(p);
                    let (_, b) = rng(&last.ident);
                    self.repl(a, b, n.clone());
                    return;
                }
            } else {
                let mut found = None;
                for (suf, new) in &self.cx.cfg.paths {
                    if segs.len() >= suf.len() && segs[segs.len() - suf.len()..] == suf[..] {
                        found = Some(new.clone());
                        break;
                    }
                }
                if let Some(n) = found {
                    let (a, _) = rng(p);
                    let (_, b) = rng(&last.ident);
                    self.repl(a, b, n);
                    return;
                }
                if let Some(n) = self.cx.cfg.idents.get(&last.ident.to_string()) {
                    let (a, b) = rng(&last.ident);
                    if segs.len() > 1 {
                        self.repl(a, b, n.clone());
                    }
                }
            }
        }
        // `nanoserde::X`, `::core::result::Result::Ok` etc: shorten to the last two segments
        let strip = match segs.first().map(|s| s.as_str()) {
            Some("core") | Some("alloc") | Some("std") | Some("crate") | Some("nanoserde") => true,
            _ => false,
        };
        if strip && segs.len() >= 2 {
            let n = segs.len();
            // keep Type::method when the second to last segment is a type (capitalised)
            let keep = if segs[n - 2].chars().next().is_some_and(|c| c.is_uppercase()) { 2 } else { 1 };
            let cut = &p.segments[n - keep];
            let (a, _) = rng(p);
            let (b, _) = rng(&cut.ident);
            if b > a {
                self.repl(a, b, "");
            }
        }
    }
    fn new_loop(&mut self, kind: &str, header: String) -> usize {
        let k = self.nloops;
        self.nloops += 1;
        let nones = self.nones.last().cloned().unwrap_or_default();
        self.loops.push(json!({"id": k, "kind": kind, "depth": self.depth, "header": header, "nones": nones}));
        k
    }
    fn fmt_pieces(&mut self, toks: &TokenStream) -> Option<Vec<(Option<String>, Option<(Expr, String)>)>> {
        // returns list of (literal | (arg, spec))
        let parser = |input: parse::ParseStream| -> Result<(LitStr, Vec<Expr>)> {
            let l: LitStr = input.parse()?;
            let mut v = vec![];
            while !input.is_empty() {
                let _: Token![,] = input.parse()?;
                if input.is_empty() {
                    break;
                }
                v.push(input.parse()?);
            }
            Ok((l, v))
        };
        let (l, args) = parser.parse2(toks.clone()).ok()?;
        let f = l.value();
        let mut out = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut nextarg = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                    let inner: String = cs[i + 1..j].iter().collect();
                    let (idx, spec) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner, String::new()),
                    };
                    let n = if idx.is_empty() {
                        nextarg += 1;
                        nextarg - 1
                    } else {
                        idx.parse::<usize>().ok()?
                    };
                    if !lit.is_empty() {
                        out.push((Some(std::mem::take(&mut lit)), None));
                    }
                    out.push((None, Some((args.get(n)?.clone(), spec))));
                    i = j + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() {
            out.push((Some(lit), None));
        }
        Some(out)
    }
    fn fmt_text(&mut self, toks: &TokenStream, target: &str) -> Option<String> {
        let ps = self.fmt_pieces(toks)?;
        let mut t = String::new();
        for (lit, arg) in ps {
            if let Some(l) = lit {
                t.push_str(&format!("v_fmt_lit({}, {:?}); ", target, l));
            }
            if let Some((e, spec)) = arg {
                let r = rng(&e);
                // edits inside the argument
                let mut sub = Fv::new(self.cx);
                sub.visit_expr(&e);
                let at = apply(self.cx.src, r, &sub.edits);
                let f = match spec.as_str() {
                    "" => "v_fmt_display".to_string(),
                    "?" => "v_fmt_debug".to_string(),
                    s => format!("v_fmt_{}", s),
                };
                t.push_str(&format!("{}({}, &({})); ", f, target, at));
            }
        }
        Some(t)
    }
    fn call_slot(&mut self, name: &str) {
        *self.call_no.entry(name.to_string()).or_insert(0) += 1;
        self.calls.push(name.to_string());
    }
}

fn has_return(e: &Expr) -> bool {
    struct T(bool);
    impl<'x> Visit<'x> for T {
        fn visit_expr_return(&mut self, _t: &'x ExprReturn) {
            self.0 = true;
        }
    }
    let mut t = T(false);
    t.visit_expr(e);
    t.0
}

fn has_try(e: &Expr) -> bool {
    struct T(bool);
    impl<'x> Visit<'x> for T {
        fn visit_expr_try(&mut self, _t: &'x ExprTry) {
            self.0 = true;
        }
    }
    let mut t = T(false);
    t.visit_expr(e);
    t.0
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(g) => strip(&g.expr),
        _ => e,
    }
}

/// `MaybeUninit<X>` -> X
fn mu_arg(t: &Type) -> Option<&Type> {
    if let Type::Path(p) = t {
        let l = p.path.segments.last()?;
        if l.ident == "MaybeUninit" {
            if let PathArguments::AngleBracketed(g) = &l.arguments {
                if let Some(GenericArgument::Type(x)) = g.args.first() {
                    return Some(x);
                }
            }
        }
    }
    None
}

/// `[MaybeUninit<X>; N]` -> (X, N)
fn mu_arr(t: &Type) -> Option<(&Type, &Expr)> {
    if let Type::Array(a) = t {
        return Some((mu_arg(&a.elem)?, &a.len));
    }
    None
}

/// `&x as *const _ as *const Y` -> x, Y
fn addr_cast(e: &Expr) -> Option<(String, &Type)> {
    if let Expr::Cast(c) = strip(e) {
        if let Type::Ptr(p) = &*c.ty {
            if p.const_token.is_none() {
                return None;
            }
            if let Expr::Cast(c2) = strip(&c.expr) {
                if let (Type::Ptr(q), Expr::Reference(r)) = (&*c2.ty, strip(&c2.expr)) {
                    if norm(&q.elem) == "_" && r.mutability.is_none() {
                        if let Expr::Path(x) = strip(&r.expr) {
                            return Some((x.path.get_ident()?.to_string(), &p.elem));
                        }
                    }
                }
            }
        }
    }
    None
}

/// names of calls made directly by a statement (not inside nested blocks)
struct CallNames(Vec<String>);
impl<'ast> Visit<'ast> for CallNames {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.0.push(s.ident.to_string());
            }
        }
    }
    fn visit_block(&mut self, _b: &'ast Block) {}
    fn visit_item(&mut self, _i: &'ast Item) {}
}

struct PatNames(std::collections::BTreeSet<String>);
impl<'ast> Visit<'ast> for PatNames {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for Fv<'a, 'b> {
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (x, y) = rng(a);
        self.repl(x, y, "");
    }
    fn visit_item(&mut self, i: &'ast Item) {
        match i {
            Item::Fn(f) => {
                self.hoisted.push(f.clone());
                let (a, b) = rng(i);
                self.repl(a, b, "");
            }
            // a constant of the function: the same value in a local (not when a pattern mentions the name: it would bind)
            Item::Const(c) if !self.pat_names.contains(&c.ident.to_string()) => {
                let (a, b) = rng(i);
                let (ca, _) = rng(&c.ident);
                self.repl(a, ca, "let ");
                self.visit_type(&c.ty);
                self.visit_expr(&c.expr);
                let _ = b;
            }
            _ => {
                let (a, b) = rng(i);
                self.repl(a, b, "");
            }
        }
    }
    fn visit_block(&mut self, b: &'ast Block) {
        let n = b.stmts.len();
        self.nones.push(vec![]);
        for (k, s) in b.stmts.iter().enumerate() {
            if let Stmt::Item(it) = s {
                self.visit_item(it);
                continue;
            }
            let mut cn = CallNames(vec![]);
            cn.visit_stmt(s);
            let (a, e) = rng(s);
            let base: Vec<(String, usize)> = cn
                .0
                .iter()
                .map(|n| {
                    let c = self.call_no.get(n).copied().unwrap_or(0);
                    (n.clone(), c)
                })
                .collect();
            // number occurrences within this statement
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            let mut names = vec![];
            for (n, c) in base {
                let k = seen.entry(n.clone()).or_insert(0);
                names.push(format!("{}#{}", n, c + *k));
                *k += 1;
            }
            for nm in &names {
                self.ins_before(a, format!("/*@before:{}@*/", nm));
            }
            let is_tail = k + 1 == n && matches!(s, Stmt::Expr(_, None));
            if is_tail {
                self.ins_before(a, "/*@tail@*/");
            }
            self.visit_stmt(s);
            if !is_tail {
                for nm in &names {
                    self.ins_after(e, format!("/*@after:{}@*/", nm));
                }
            }
        }
        self.nones.pop();
    }
    fn visit_local(&mut self, l: &'ast Local) {
        struct P(Vec<String>);
        impl<'x> Visit<'x> for P {
            fn visit_pat_ident(&mut self, p: &'x PatIdent) {
                self.0.push(p.ident.to_string());
                visit::visit_pat_ident(self, p);
            }
        }
        let mut p = P(vec![]);
        p.visit_pat(&l.pat);
        let none = matches!(&l.init, Some(i) if norm(&i.expr) == "None");
        if let (true, [n], Some(top)) = (none, &p.0[..], self.nones.last_mut()) {
            top.push(n.clone());
        }
        if let Pat::Type(t) = &l.pat {
            if mu_arr(&t.ty).is_some() {
                self.mu.extend(p.0.iter().cloned());
            }
        }
        self.lets.extend(p.0);
        visit::visit_local(self, l);
    }
    fn visit_type_array(&mut self, t: &'ast TypeArray) {
        if let Some(x) = mu_arg(&t.elem) {
            let (a, b) = rng(t);
            let (xa, xb) = rng(x);
            let n = self.src(rng(&t.len));
            self.repl(a, xa, "VMuArr<");
            self.repl(xb, b, format!(", {n}>"));
            self.ledger = true;
            self.visit_type(x);
            return;
        }
        visit::visit_type_array(self, t);
    }
    fn visit_expr_assign(&mut self, e: &'ast ExprAssign) {
        if let Expr::Index(ix) = &*e.left {
            if let Expr::Path(x) = strip(&ix.expr) {
                if let Some(id) = x.path.get_ident().map(|i| i.to_string()) {
                    if self.mu.contains(&id) {
                        let (a, b) = rng(e);
                        let (ra, _) = rng(&*e.right);
                        let mut sub = Fv::new(self.cx);
                        sub.visit_expr(&ix.index);
                        let it = apply(self.cx.src, rng(&*ix.index), &sub.edits);
                        self.repl(a, ra, "{ let __mv = ");
                        self.visit_expr(&e.right);
                        self.ins_after(b, format!("; {id}.v_set({it}, __mv) }}"));
                        return;
                    }
                }
            }
        }
        visit::visit_expr_assign(self, e);
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        if let Expr::Block(b) = &*a.body {
            let key = norm(&a.pat);
            let c = self.arms.entry(key.clone()).or_insert(0);
            let k = *c;
            *c += 1;
            let (x, _) = rng(&b.block);
            self.ins_after(x + 1, format!("/*@arm:{}#{}@*/", key.replace("*/", "* /"), k));
        }
        // string literal patterns become guards
        fn lits(p: &Pat, out: &mut Vec<String>) -> bool {
            match p {
                Pat::Lit(l) => match &l.lit {
                    Lit::Str(s) => {
                        out.push(s.token().to_string());
                        true
                    }
                    _ => false,
                },
                Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                Pat::Paren(q) => lits(&q.pat, out),
                _ => false,
            }
        }
        let mut ls = vec![];
        if lits(&a.pat, &mut ls) {
            let (x, y) = rng(&a.pat);
            let g = ls.iter().map(|l| format!("v_seq(__s, {l})")).collect::<Vec<_>>().join(" || ");
            match &a.guard {
                Some((_, e)) => {
                    let (ga, ge) = rng(&**e);
                    self.repl(x, ga, format!("__s if ({g}) && ("));
                    self.ins_after(ge, ")");
                }
                None => self.repl(x, y, format!("__s if {g}")),
            }
            if let Some((_, e)) = &a.guard {
                self.visit_expr(e);
            }
            self.visit_expr(&a.body);
            return;
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_binary(&mut self, e: &'ast ExprBinary) {
        let is_str = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
        let (a, b) = rng(e);
        let (_, le) = rng(&*e.left);
        let (ra, _) = rng(&*e.right);
        match e.op {
            BinOp::Eq(_) | BinOp::Ne(_) if is_str(&e.right) || is_str(&e.left) => {
                let n = if matches!(e.op, BinOp::Ne(_)) { "!" } else { "" };
                self.ins_before(a, format!("{n}v_seq(&("));
                self.repl(le, ra, "), &(");
                self.ins_after(b, "))");
            }
            BinOp::AddAssign(_) if is_str(&e.right) => {
                self.repl(le, ra, ".push_str(");
                self.ins_after(b, ")");
            }
            _ => {}
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast ExprForLoop) {
        let k = self.new_loop("for", norm(&f.expr));
        let (a, _) = rng(f);
        let (ea, ee) = rng(&*f.expr);
        let (ba, be) = rng(&f.body);
        let pat = self.src(rng(&*f.pat));
        let lab = f.label.as_ref().map(|l| format!("{}: ", l.name)).unwrap_or_default();
        self.repl(a, ea, format!("/*@L{k}.pre@*/{{ let mut __it{k} = v_into_iter("));
        self.repl(ee, ba, format!("); /*@L{k}.init@*/{lab}loop /*@L{k}.spec@*/{{ match __it{k}.next() {{ None => {{ break; }} Some({pat}) => "));
        self.ins_after(ba + 1, format!("/*@L{k}.start@*/"));
        self.ins_after(be - 1, format!("/*@L{k}.end@*/"));
        self.ins_after(be, format!(" }} }} /*@L{k}.after@*/ }}"));
        self.visit_expr(&f.expr);
        self.depth += 1;
        self.visit_block(&f.body);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
        let k = self.new_loop("while", norm(&w.cond));
        let (a, _) = rng(w);
        let (ba, be) = rng(&w.body);
        if w.label.is_none() {
            self.ins_before(a, format!("/*@L{k}.pre@*/"));
        }
        if let Expr::Let(_) = &*w.cond {
            // while let P = E B  ==>  loop { match E { P => B, _ => break } }
            let l = if let Expr::Let(l) = &*w.cond { l } else { unreachable!() };
            let (wa, _) = rng(&w.while_token);
            let pat = self.src(rng(&*l.pat));
            let (xa, xe) = rng(&*l.expr);
            self.repl(wa, xa, format!("loop /*@L{k}.spec@*/{{ match "));
            self.repl(xe, ba, format!(" {{ {pat} => "));
            self.ins_after(ba + 1, format!("/*@L{k}.start@*/"));
            self.ins_after(be - 1, format!("/*@L{k}.end@*/"));
            self.ins_after(be, format!(" _ => {{ break; }} }} }} /*@L{k}.after@*/"));
            self.visit_expr(&l.expr);
        } else if has_try(&w.cond) {
            // while C B  ==>  loop { if !(C) { break; } B }
            let (wa, _) = rng(&w.while_token);
            let (ca, ce) = rng(&*w.cond);
            self.repl(wa, ca, format!("loop /*@L{k}.spec@*/{{ /*@L{k}.cond@*/ if !("));
            self.repl(ce, ba, ") { /*@L{k}.exit@*/ break; } ".replace("{k}", &k.to_string()));
            self.ins_after(ba + 1, format!("/*@L{k}.start@*/"));
            self.ins_after(be - 1, format!("/*@L{k}.end@*/"));
            self.ins_after(be, format!(" }} /*@L{k}.after@*/"));
            self.visit_expr(&w.cond);
        } else {
            self.ins_before(ba, format!("/*@L{k}.spec@*/"));
            self.ins_after(ba + 1, format!("/*@L{k}.start@*/"));
            self.ins_after(be - 1, format!("/*@L{k}.end@*/"));
            self.ins_after(be, format!("/*@L{k}.after@*/"));
            self.visit_expr(&w.cond);
        }
        self.depth += 1;
        self.visit_block(&w.body);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
        let k = self.new_loop("loop", String::new());
        let (ba, be) = rng(&l.body);
        let (a, _) = rng(l);
        if l.label.is_none() {
            self.ins_before(a, format!("/*@L{k}.pre@*/"));
        }
        self.ins_before(ba, format!("/*@L{k}.spec@*/"));
        self.ins_after(ba + 1, format!("/*@L{k}.start@*/"));
        self.ins_after(be - 1, format!("/*@L{k}.end@*/"));
        self.depth += 1;
        self.visit_block(&l.body);
        self.depth -= 1;
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        let (a, b) = rng(r);
        if let Some(k) = self.closure_ret {
            if let Some(e) = &r.expr {
                if norm(e) == "None" {
                    self.repl(a, b, format!("{{ __ok{k} = false; break; }}"));
                    return;
                }
            }
            self.unsup.push("return in try_fold closure".into());
        }
        if self.closure_depth == 0 {
            let k = self.rets;
            self.rets += 1;
            self.ins_before(a, format!("/*@ret{k}.open@*/"));
            self.ins_after(b, format!("/*@ret{k}.close@*/"));
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        // a closure that no rule above resolves: it has no contract
        self.unsup.push("closure without contract".into());
        self.closure_depth += 1;
        visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let name = m.method.to_string();
        self.call_slot(&name);
        let (a, b) = rng(m);
        let (_, re) = rng(&*m.receiver);
        if name == "write_fmt" && m.args.len() == 1 {
            if let Some(Expr::Macro(mac)) = m.args.first() {
                if norm(&mac.mac.path) == "format_args" {
                    let recv = self.src(rng(&*m.receiver));
                    if let Some(t) = self.fmt_text(&mac.mac.tokens, &format!("&mut {recv}")) {
                        self.repl(a, b, format!("{{ {t} v_fmt_ok() }}"));
                        return;
                    }
                }
            }
        }
        let clos = |i: usize| -> Option<&ExprClosure> {
            match m.args.iter().nth(i) {
                Some(Expr::Closure(c)) => Some(c),
                _ => None,
            }
        };
        let simple = |c: &ExprClosure, n: usize| c.inputs.len() == n;
        match (name.as_str(), m.args.len()) {
            ("ok_or_else", 1) | ("unwrap_or_else", 1) if clos(0).is_some_and(|c| simple(c, 0)) => {
                let c = clos(0).unwrap();
                let (ca, ce) = rng(&*c.body);
                self.ins_before(a, "(match ");
                let (pre, post) = if name == "ok_or_else" { ("{ Some(__v) => Ok(__v), None => Err(", ") })") } else { ("{ Some(__v) => __v, None => ", " })") };
                self.repl(re, ca, pre);
                self.repl(ce, b, post);
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                return;
            }
            ("map_or_else", 2) if clos(0).is_some_and(|c| simple(c, 0)) && clos(1).is_some_and(|c| simple(c, 1)) => {
                let c0 = clos(0).unwrap();
                let c1 = clos(1).unwrap();
                let (xa, xe) = rng(&*c0.body);
                let (ya, ye) = rng(&*c1.body);
                let pat = self.src(rng(&c1.inputs[0]));
                self.ins_before(a, "(match ");
                self.repl(re, xa, "{ None => { ");
                self.repl(xe, ya, format!(" }} Some({pat}) => {{ "));
                self.repl(ye, b, " } })");
                self.visit_expr(&m.receiver);
                self.visit_expr(&c0.body);
                self.visit_expr(&c1.body);
                return;
            }
            ("map", 1) if clos(0).is_some_and(|c| simple(c, 1)) => {
                let c = clos(0).unwrap();
                let (ca, ce) = rng(&*c.body);
                let pat = self.src(rng(&c.inputs[0]));
                self.ins_before(a, "(match ");
                self.repl(re, ca, format!("{{ Some({pat}) => Some("));
                self.repl(ce, b, "), None => None })");
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                return;
            }
            ("and_then", 1) if clos(0).is_some_and(|c| simple(c, 1)) => {
                let c = clos(0).unwrap();
                let (ca, ce) = rng(&*c.body);
                let pat = self.src(rng(&c.inputs[0]));
                let mut ok = !has_return(&c.body);
                let mut tries: Vec<(usize, usize, usize, usize, String)> = vec![];
                if has_try(&c.body) {
                    match &*c.body {
                        Expr::Block(bl) if bl.label.is_none() => {
                            let n = bl.block.stmts.len();
                            for (k, s) in bl.block.stmts.iter().enumerate() {
                                let (sa, se) = rng(s);
                                match s {
                                    Stmt::Expr(Expr::Try(t), Some(_)) if !has_try(&t.expr) && k + 1 < n => {
                                        let (xa, xe) = rng(&*t.expr);
                                        tries.push((sa, xa, xe, se, "_".into()));
                                    }
                                    Stmt::Local(l) if l.init.as_ref().is_some_and(|i| i.diverge.is_none() && matches!(&*i.expr, Expr::Try(t) if !has_try(&t.expr))) => {
                                        if let Expr::Try(t) = &*l.init.as_ref().unwrap().expr {
                                            let (xa, xe) = rng(&*t.expr);
                                            tries.push((sa, xa, xe, se, self.src(rng(&l.pat))));
                                        }
                                    }
                                    Stmt::Expr(e, None) if !has_try(e) => {}
                                    Stmt::Expr(e, Some(_)) if !has_try(e) => {}
                                    Stmt::Local(l) if !l.init.as_ref().is_some_and(|i| has_try(&i.expr)) => {}
                                    _ => ok = false,
                                }
                            }
                        }
                        _ => ok = false,
                    }
                }
                if ok {
                    self.ins_before(a, "(match ");
                    self.repl(re, ca, format!("{{ Err(__ce) => Err(__ce), Ok({pat}) => "));
                    self.repl(ce, b, " })");
                    for (sa, xa, xe, se, p) in tries {
                        if xa > sa {
                            self.repl(sa, xa, "match ");
                        } else {
                            self.ins_before(xa, "match ");
                        }
                        self.repl(xe, se, format!(" {{ Err(__ce) => Err(__ce), Ok({p}) => {{ "));
                        self.ins_after(ce - 1, " } } ");
                    }
                    self.visit_expr(&m.receiver);
                    self.closure_depth += 1;
                    self.visit_expr(&c.body);
                    self.closure_depth -= 1;
                    return;
                }
            }
            ("assume_init", 0) => {
                if let Expr::Call(c) = strip(&m.receiver) {
                    if let Expr::Path(p) = &*c.func {
                        let n = p.path.segments.len();
                        if n >= 2 && p.path.segments[n - 1].ident == "uninit" && p.path.segments[n - 2].ident == "MaybeUninit" {
                            if let PathArguments::AngleBracketed(g) = &p.path.segments[n - 2].arguments {
                                if let Some(GenericArgument::Type(t)) = g.args.first() {
                                    if let Some((x, l)) = mu_arr(t) {
                                        self.call_slot("uninit");
                                        let (x, l) = (self.src(rng(x)), self.src(rng(l)));
                                        self.repl(a, b, format!("VMuArr::<{x}, {l}>::v_uninit()"));
                                        self.ledger = true;
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                self.repl(re, b, ".v_assume_init(__led)");
                self.ledger = true;
                self.visit_expr(&m.receiver);
                return;
            }
            ("assume_init_read", 0) => {
                if let Expr::Unary(u) = strip(&m.receiver) {
                    if let (UnOp::Deref(_), Some((x, t))) = (&u.op, addr_cast(&u.expr)) {
                        if self.mu.contains(&x) && (norm(t) == "MaybeUninit<_>" || mu_arg(t).is_some_and(|y| matches!(y, Type::Array(_)) && mu_arr(y).is_none())) {
                            self.repl(a, b, format!("{x}.v_read_all(__led)"));
                            self.ledger = true;
                            return;
                        }
                    }
                }
            }
            ("write", 1) => {
                if let Expr::Index(ix) = strip(&m.receiver) {
                    if let Expr::Path(x) = strip(&ix.expr) {
                        if let Some(id) = x.path.get_ident().map(|i| i.to_string()) {
                            if self.mu.contains(&id) {
                                let (ra, rb) = rng(&m.args[0]);
                                let mut sub = Fv::new(self.cx);
                                sub.visit_expr(&ix.index);
                                let it = apply(self.cx.src, rng(&*ix.index), &sub.edits);
                                self.repl(a, ra, "{ let __mv = v_mu_new(");
                                self.repl(rb, b, format!(", __led); {id}.v_set({it}, __mv) }}"));
                                self.ledger = true;
                                self.visit_expr(&m.args[0]);
                                return;
                            }
                        }
                    }
                }
            }
            ("or_else", 1) | ("map_err", 1) | ("unwrap_or_else", 1) | ("filter", 1)
                if clos(0).is_some_and(|c| (simple(c, 1) || name == "or_else" && simple(c, 0)) && !has_return(&c.body) && !has_try(&c.body)) =>
            {
                let c = clos(0).unwrap();
                let (ca, ce) = rng(&*c.body);
                let pat = if c.inputs.len() == 1 { self.src(rng(&c.inputs[0])) } else { String::new() };
                let (pre, post) = match name.as_str() {
                    "or_else" if pat.is_empty() => ("{ Some(__v) => Some(__v), None => ".to_string(), " })"),
                    "or_else" => (format!("{{ Ok(__v) => Ok(__v), Err({pat}) => "), " })"),
                    "map_err" => (format!("{{ Ok(__v) => Ok(__v), Err({pat}) => Err("), ") })"),
                    "unwrap_or_else" => (format!("{{ Ok(__v) => __v, Err({pat}) => "), " })"),
                    _ => (format!("{{ None => None, Some(__v) => {{ let {pat} = &__v; if "), " { Some(__v) } else { None } } })"),
                };
                self.ins_before(a, "(match ");
                self.repl(re, ca, pre);
                self.repl(ce, b, post);
                self.visit_expr(&m.receiver);
                self.closure_depth += 1;
                self.visit_expr(&c.body);
                self.closure_depth -= 1;
                return;
            }
            ("is_some_and", 1) if clos(0).is_some_and(|c| simple(c, 1)) => {
                let c = clos(0).unwrap();
                let (ca, ce) = rng(&*c.body);
                let pat = self.src(rng(&c.inputs[0]));
                self.ins_before(a, "(match ");
                self.repl(re, ca, format!("{{ Some({pat}) => "));
                self.repl(ce, b, ", None => false })");
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                return;
            }
            ("try_fold", 2) if clos(1).is_some_and(|c| simple(c, 2)) => {
                let c = clos(1).unwrap();
                let k = self.new_loop("try_fold", norm(&*m.receiver));
                let (ia, ie) = rng(&m.args[0]);
                let (ca, ce) = rng(&*c.body);
                let acc = self.src(rng(&c.inputs[0]));
                let pat = self.src(rng(&c.inputs[1]));
                self.ins_before(a, format!("{{ /*@L{k}.pre@*/let mut __it{k} = v_into_iter("));
                self.repl(re, ia, format!("); let mut __acc{k} = "));
                self.repl(ie, ca, format!("; let mut __ok{k} = true; /*@L{k}.init@*/loop /*@L{k}.spec@*/{{ match __it{k}.next() {{ None => {{ break; }} Some({pat}) => {{ let {acc} = __acc{k}; /*@L{k}.start@*/let __r{k} = "));
                self.repl(ce, b, format!("; match __r{k} {{ Some(__v) => {{ __acc{k} = __v; /*@L{k}.end@*/}} None => {{ __ok{k} = false; break; }} }} }} }} }} /*@L{k}.after@*/if __ok{k} {{ Some(__acc{k}) }} else {{ None }} }}"));
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[0]);
                let save = self.closure_ret;
                self.closure_ret = Some(k);
                self.depth += 1;
                self.visit_expr(&c.body);
                self.depth -= 1;
                self.closure_ret = save;
                return;
            }
            _ => {}
        }
        if let Some(n) = self.cx.cfg.idents.get(&name).or(self.cx.cfg.methods.get(&name)) {
            let (x, y) = rng(&m.method);
            self.repl(x, y, n.clone());
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let (a, b) = rng(c);
            self.call_slot(segs.last().unwrap());
            if segs.len() >= 2 && segs[segs.len() - 2] == "MaybeUninit" && segs[segs.len() - 1] == "new" && c.args.len() == 1 {
                let (ra, rb) = rng(&c.args[0]);
                self.repl(a, ra, "v_mu_new(");
                self.repl(rb, b, ", __led)");
                self.ledger = true;
                self.visit_expr(&c.args[0]);
                return;
            }
            if segs.len() >= 2 && segs[segs.len() - 2] == "ptr" && segs[segs.len() - 1] == "read" && c.args.len() == 1 {
                if let Some((x, t)) = addr_cast(&c.args[0]) {
                    if self.mu.contains(&x) && (norm(t) == "_" || matches!(t, Type::Array(_)) && mu_arr(t).is_none()) {
                        self.repl(a, b, format!("{x}.v_read_all(__led)"));
                        self.ledger = true;
                        return;
                    }
                }
            }
            if segs.iter().any(|s| s == "panicking") {
                self.repl(a, b, "v_panic()");
                return;
            }
            if segs.len() >= 2 && segs[segs.len() - 2] == "fmt" && segs[segs.len() - 1] == "format" {
                if let Some(Expr::Macro(m)) = c.args.first() {
                    if let Some(t) = self.fmt_text(&m.mac.tokens, "&mut __fs") {
                        self.repl(a, b, format!("{{ let mut __fs = v_fmt_new(); {t} __fs }}"));
                        return;
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_unary(&mut self, e: &'ast ExprUnary) {
        if let (UnOp::Neg(_), Expr::Path(p)) = (&e.op, &*e.expr) {
            if p.path.segments.len() >= 2 && ["f64", "f32"].contains(&p.path.segments[p.path.segments.len() - 2].ident.to_string().as_str()) {
                let (a, b) = rng(e);
                let (xa, _) = rng(&*e.expr);
                self.repl(a, xa, "v_fneg(");
                self.ins_after(b, ")");
            }
        }
        visit::visit_expr_unary(self, e);
    }
    fn visit_expr_cast(&mut self, e: &'ast ExprCast) {
        if let Type::Path(p) = &*e.ty {
            for f in ["f64", "f32"] {
                if p.path.is_ident(f) {
                    let (a, b) = rng(e);
                    let (xa, xe) = rng(&*e.expr);
                    self.ins_before(a, format!("v_as_{f}("));
                    self.repl(xe, b, ")");
                    let _ = xa;
                    self.visit_expr(&e.expr);
                    return;
                }
            }
        }
        visit::visit_expr_cast(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast ExprReference) {
        // &X[n..] of a string or slice
        if let (None, Expr::Index(ix)) = (&e.mutability, &*e.expr) {
            if let Expr::Range(r) = &*ix.index {
                if let (Some(st), None) = (&r.start, &r.end) {
                    let (a, b) = rng(e);
                    let (xa, xe) = rng(&*ix.expr);
                    let (sa, se) = rng(&**st);
                    self.repl(a, xa, "v_from(&(");
                    self.repl(xe, sa, "), ");
                    self.repl(se, b, ")");
                    self.visit_expr(&ix.expr);
                    self.visit_expr(st);
                    return;
                }
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        self.unsup.push(format!("macro {}", norm(&m.mac.path)));
    }
    fn visit_expr_unsafe(&mut self, u: &'ast ExprUnsafe) {
        self.unsup.push("unsafe block".into());
        let (ua, ue) = rng(&u.unsafe_token);
        self.repl(ua, ue, "");
        visit::visit_expr_unsafe(self, u);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(q) = &p.qself {
            self.visit_type(&q.ty);
            let last = p.path.segments.last().unwrap();
            if let Some(n) = self.cx.cfg.idents.get(&last.ident.to_string()) {
                let (a, b) = rng(&last.ident);
                self.repl(a, b, n.clone());
            }
            return;
        }
        self.path_edit(&p.path, false);
        for s in &p.path.segments {
            self.visit_path_arguments(&s.arguments);
        }
    }
    fn visit_expr_struct(&mut self, e: &'ast ExprStruct) {
        self.path_edit(&e.path, false);
        for f in &e.fields {
            if f.colon_token.is_some() {
                self.visit_expr(&f.expr);
            }
        }
        if let Some(r) = &e.rest {
            self.visit_expr(r);
        }
    }
    fn visit_type_path(&mut self, p: &'ast TypePath) {
        if p.qself.is_none() {
            self.path_edit(&p.path, true);
        }
        for s in &p.path.segments {
            self.visit_path_arguments(&s.arguments);
        }
    }
    fn visit_trait_bound(&mut self, t: &'ast TraitBound) {
        self.path_edit(&t.path, true);
        for s in &t.path.segments {
            self.visit_path_arguments(&s.arguments);
        }
    }
    fn visit_pat_tuple_struct(&mut self, p: &'ast PatTupleStruct) {
        self.path_edit(&p.path, false);
        for e in &p.elems {
            self.visit_pat(e);
        }
    }
    fn visit_pat_struct(&mut self, p: &'ast PatStruct) {
        self.path_edit(&p.path, false);
        for f in &p.fields {
            if f.colon_token.is_some() {
                self.visit_pat(&f.pat);
            }
        }
    }
    fn visit_pat_ident(&mut self, _p: &'ast PatIdent) {}
    fn visit_lifetime(&mut self, _l: &'ast Lifetime) {}
}

fn emit_fn(cx: &Cx, sig: &Signature, block: Option<&Block>, hoisted_out: &mut Vec<ItemFn>, has_default: bool) -> Value {
    let mut fv = Fv::new(cx);
    // signature edits
    for i in &sig.inputs {
        match i {
            FnArg::Typed(t) => fv.visit_type(&t.ty),
            FnArg::Receiver(_) => {}
        }
    }
    if let ReturnType::Type(_, t) = &sig.output {
        fv.visit_type(t);
    }
    fv.visit_generics(&sig.generics);
    if let Some(w) = &sig.generics.where_clause {
        fv.visit_where_clause(w);
    }
    let (fa, _) = rng(&sig.fn_token);
    let pe = sig.paren_token.span.close().byte_range().end;
    let head = apply(cx.src, (fa, pe), &fv.edits);
    let ret = match &sig.output {
        ReturnType::Type(_, t) => Some(apply(cx.src, rng(&**t), &fv.edits)),
        _ => None,
    };
    let wh = sig.generics.where_clause.as_ref().map(|w| apply(cx.src, rng(w), &fv.edits));
    let params: Vec<String> = sig
        .inputs
        .iter()
        .map(|i| match i {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => p.ident.to_string(),
                p => norm(p),
            },
        })
        .collect();
    let mut v = json!({"name": sig.ident.to_string(), "head": head, "ret": ret, "where": wh, "params": params, "has_body": block.is_some(), "default": has_default});
    if let Some(b) = block {
        let mut bv = Fv::new(cx);
        let (a, e) = rng(b);
        bv.ins_after(a + 1, "/*@start@*/");
        bv.ins_after(e - 1, "/*@end@*/");
        let mut pn = PatNames(Default::default());
        pn.visit_block(b);
        bv.pat_names = pn.0;
        bv.visit_block(b);
        let body = apply(cx.src, (a, e), &bv.edits);
        let h = v.as_object_mut().unwrap();
        h.insert("body".into(), json!(body));
        h.insert("raw".into(), json!(norm(b)));
        h.insert("loops".into(), json!(bv.loops));
        h.insert("lets".into(), json!(bv.lets));
        h.insert("calls".into(), json!(bv.calls));
        h.insert("nrets".into(), json!(bv.rets));
        h.insert("unsup".into(), json!(bv.unsup));
        h.insert("ledger".into(), json!(bv.ledger));
        h.insert("src_lines".into(), json!([b.span().start().line, b.span().end().line]));
        hoisted_out.extend(bv.hoisted);
    }
    v
}

fn pubfields(cx: &Cx, fields: &Fields, edits: &mut Vec<Edit>) {
    let mut fv = Fv::new(cx);
    for f in fields {
        for a in &f.attrs {
            fv.visit_attribute(a);
        }
        fv.visit_type(&f.ty);
    }
    edits.extend(fv.edits);
}

fn attr_names(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().map(|a| norm(a.path())).collect()
}

fn items(cx: &Cx, its: &[Item], path: &str, out: &mut Vec<Value>) {
    let mut hoisted: Vec<ItemFn> = vec![];
    for it in its {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    let p = if path.is_empty() { m.ident.to_string() } else { format!("{}::{}", path, m.ident) };
                    items(cx, c, &p, out);
                }
            }
            Item::Struct(s) => {
                let mut edits = vec![];
                pubfields(cx, &s.fields, &mut edits);
                for f in &s.fields {
                    let r = match &f.vis {
                        Visibility::Inherited => {
                            let at = f.ident.as_ref().map(|i| rng(i).0).unwrap_or(rng(&f.ty).0);
                            (at, at)
                        }
                        v => rng(v),
                    };
                    edits.push(Edit { a: r.0, b: r.1, text: if r.0 == r.1 { "pub ".into() } else { "pub".into() }, ord: (2, 0) });
                }
                let (a, _) = rng(&s.struct_token);
                let (_, e) = rng(s);
                let fields: Vec<Value> = s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), norm(&f.ty)])).collect();
                out.push(json!({"kind": "struct", "path": path, "name": s.ident.to_string(), "text": format!("pub {}", apply(cx.src, (a, e), &edits)), "generics": norm(&s.generics), "fields": fields}));
            }
            Item::Enum(s) => {
                let mut edits = vec![];
                let mut vars = vec![];
                for v in &s.variants {
                    pubfields(cx, &v.fields, &mut edits);
                    for a in &v.attrs {
                        let (x, y) = rng(a);
                        edits.push(Edit { a: x, b: y, text: String::new(), ord: (0, 0) });
                    }
                    vars.push(json!({"name": v.ident.to_string(), "fields": v.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), norm(&f.ty)])).collect::<Vec<_>>()}));
                }
                let (a, _) = rng(&s.enum_token);
                let (_, e) = rng(s);
                out.push(json!({"kind": "enum", "path": path, "name": s.ident.to_string(), "text": format!("pub {}", apply(cx.src, (a, e), &edits)), "generics": norm(&s.generics), "variants": vars}));
            }
            Item::Fn(f) => {
                let v = emit_fn(cx, &f.sig, Some(&f.block), &mut hoisted, false);
                out.push(json!({"kind": "fn", "path": path, "name": f.sig.ident.to_string(), "fn": v}));
            }
            Item::Trait(t) => {
                let mut fns = vec![];
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        fns.push(emit_fn(cx, &f.sig, f.default.as_ref(), &mut hoisted, f.default.is_some()));
                    }
                }
                let sup = norm(&t.supertraits);
                out.push(json!({"kind": "trait", "path": path, "name": t.ident.to_string(), "generics": norm(&t.generics), "supertraits": sup, "fns": fns}));
            }
            Item::Impl(im) => {
                let mut fv = Fv::new(cx);
                fv.visit_generics(&im.generics);
                fv.visit_type(&im.self_ty);
                if let Some((_, p, _)) = &im.trait_ {
                    fv.path_edit(p, true);
                    for s in &p.segments {
                        fv.visit_path_arguments(&s.arguments);
                    }
                }
                if let Some(w) = &im.generics.where_clause {
                    fv.visit_where_clause(w);
                }
                let (a, _) = rng(&im.impl_token);
                let b = im.brace_token.span.open().byte_range().start;
                let header = apply(cx.src, (a, b), &fv.edits);
                let selft = apply(cx.src, rng(&*im.self_ty), &fv.edits);
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let l = p.segments.last().unwrap();
                    norm(l)
                });
                let mut fns = vec![];
                let mut other = vec![];
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) => fns.push(emit_fn(cx, &f.sig, Some(&f.block), &mut hoisted, false)),
                        o => other.push(norm(o)),
                    }
                }
                out.push(json!({"kind": "impl", "path": path, "trait": tr, "self_ty": norm_ty(&selft), "header": header, "generics": norm(&im.generics), "attrs": attr_names(&im.attrs), "fns": fns, "other": other}));
            }
            Item::Const(c) => {
                out.push(json!({"kind": "const", "path": path, "name": c.ident.to_string(), "text": format!("pub {}", &cx.src[rng(&c.const_token).0..rng(c).1])}));
            }
            Item::Use(_) | Item::ExternCrate(_) | Item::Macro(_) => {}
            other => {
                out.push(json!({"kind": "other", "path": path, "text": norm(other)}));
            }
        }
    }
    let mut more: Vec<ItemFn> = vec![];
    while let Some(f) = hoisted.pop() {
        let v = emit_fn(cx, &f.sig, Some(&f.block), &mut more, false);
        out.push(json!({"kind": "fn", "path": path, "name": f.sig.ident.to_string(), "fn": v, "hoisted": true}));
        hoisted.append(&mut more);
    }
}

fn norm_ty(s: &str) -> String {
    match syn::parse_str::<Type>(s) {
        Ok(t) => norm(t),
        Err(_) => s.to_string(),
    }
}

fn main() {
    let _ = |x: LineColumn, t: TokenTree| (x, t);
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--inline" {
        return inline::main(&args[2..]);
    }
    let src = std::fs::read_to_string(&args[1]).unwrap();
    let cfgv: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let map = |k: &str| -> BTreeMap<String, String> { cfgv[k].as_object().unwrap().iter().map(|(a, b)| (a.clone(), b.as_str().unwrap().to_string())).collect() };
    let cfg = Cfg {
        idents: map("idents"),
        types: map("types"),
        methods: map("methods"),
        paths: map("paths").into_iter().map(|(a, b)| (a.split("::").map(|s| s.to_string()).collect(), b)).collect(),
    };
    let f: File = syn::parse_file(&src).unwrap();
    let cx = Cx { src: &src, cfg: &cfg };
    let mut out = vec![];
    items(&cx, &f.items, "", &mut out);
    println!("{}", serde_json::to_string(&out).unwrap());
}
