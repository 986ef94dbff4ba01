//! vx: mechanical extraction of the contract's functions from /repo into the subset of Rust that Verus accepts.
//! Every run parses the current sources with `syn`, rewrites the syntax tree by the fixed rules below and prints
//! JSON. Nothing here knows what any function is supposed to do. The rules are listed in /verif/DESIGN.md.
mod inline;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jobj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
}
fn jarr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

fn refuse(msg: String) -> ! {
    eprintln!("{}", msg);
    std::process::exit(3)
}

/// value of a cfg predicate in the build the properties speak about (no test, no optional feature), None if it depends on the target
fn cfg_val(m: &Meta) -> Option<bool> {
    match m {
        Meta::Path(p) if p.is_ident("test") || p.is_ident("debug_assertions") || p.is_ident("kani") || p.is_ident("miri") => Some(false),
        Meta::NameValue(nv) if nv.path.is_ident("feature") => Some(false),
        Meta::List(l) => {
            let v: Vec<Option<bool>> = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).ok()?.iter().map(cfg_val).collect();
            if l.path.is_ident("not") {
                v.first().copied().flatten().map(|b| !b)
            } else if l.path.is_ident("all") {
                if v.contains(&Some(false)) { Some(false) } else if v.contains(&None) { None } else { Some(true) }
            } else if l.path.is_ident("any") {
                if v.contains(&Some(true)) { Some(true) } else if v.contains(&None) { None } else { Some(false) }
            } else {
                None
            }
        }
        _ => None,
    }
}

/// the item is compiled out of the contract
fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && match a.parse_args::<Meta>().ok().and_then(|m| cfg_val(&m)) {
            Some(b) => !b,
            None => refuse(format!("conditional compilation not decided: {}", toks(a))),
        }
    })
}

/// attributes that change what the text means and that the extraction does not model
struct Odd(Vec<String>);
impl<'b> Visit<'b> for Odd {
    fn visit_attribute(&mut self, a: &'b Attribute) {
        let t = toks(a);
        if a.path().is_ident("cfg") || a.path().is_ident("path") || (a.path().is_ident("serde") && t.replace(' ', "") != "#[serde(default)]") || (a.path().is_ident("cfg_attr") && !t.contains("entry_point")) {
            self.0.push(t);
        }
    }
}
/// cfg attributes of items are evaluated above; here: everything below them
struct OddItems(Vec<String>);
impl<'b> Visit<'b> for OddItems {
    fn visit_item(&mut self, it: &'b Item) {
        let attrs = match it {
            Item::Fn(x) => &x.attrs,
            Item::Impl(x) => &x.attrs,
            Item::Struct(x) => &x.attrs,
            Item::Enum(x) => &x.attrs,
            Item::Const(x) => &x.attrs,
            Item::Type(x) => &x.attrs,
            Item::Mod(x) => &x.attrs,
            Item::Use(x) => &x.attrs,
            _ => return,
        };
        if is_cfg_test(attrs) {
            return;
        }
        for a in attrs {
            let mut o = Odd(vec![]);
            o.visit_attribute(a);
            self.0.extend(o.0.into_iter().filter(|_| !a.path().is_ident("cfg")));
        }
        let mut o = Odd(vec![]);
        match it {
            Item::Struct(x) => x.fields.iter().for_each(|f| o.visit_field(f)),
            Item::Enum(x) => x.variants.iter().for_each(|v| o.visit_variant(v)),
            _ => {}
        }
        self.0.extend(o.0);
    }
}
fn has_derive(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        (a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == what))
            || (a.path().is_ident("cw_serde") && ["Clone", "PartialEq", "Debug"].contains(&what))
    })
}
fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn pretty_block(b: &Block) -> String {
    let f: File = parse_quote! { fn x() #b };
    let s = prettyplease::unparse(&f);
    let a = s.find('{').unwrap();
    s[a..].trim_end().to_string()
}
fn pretty_expr(e: &Expr) -> String {
    let f: File = parse_quote! { fn x() { let x = #e; } };
    let s = prettyplease::unparse(&f);
    let a = s.find("let x =").unwrap() + 7;
    let b = s.rfind(';').unwrap();
    s[a..b].trim().to_string()
}
fn pretty_ty(t: &Type) -> String {
    let f: File = parse_quote! { type X = #t; };
    let s = prettyplease::unparse(&f);
    let a = s.find('=').unwrap() + 1;
    let b = s.rfind(';').unwrap();
    s[a..b].trim().to_string()
}

// ---------------------------------------------------------------- types
struct TyMap;
impl VisitMut for TyMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Reference(r) = t {
            r.lifetime = None;
            if let Type::Path(p) = &*r.elem {
                if p.path.is_ident("str") {
                    r.elem = Box::new(parse_quote!(String));
                }
            }
            if let Type::TraitObject(o) = &*r.elem {
                if o.bounds.len() == 1 {
                    if let TypeParamBound::Trait(tb) = &o.bounds[0] {
                        let p = &tb.path;
                        r.elem = Box::new(parse_quote!(#p));
                    }
                }
            }
        }
        if let Type::ImplTrait(o) = t {
            for b in o.bounds.iter_mut() {
                if let TypeParamBound::Trait(tb) = b {
                    if let Some(s) = tb.path.segments.last_mut() {
                        if s.ident == "Into" {
                            s.ident = format_ident!("Into_");
                        }
                    }
                }
            }
            let s = toks(t).replace(' ', "");
            if s == "implInto_<Decimal256>" {
                *t = parse_quote!(Decimal256);
            }
        }
        // strip lifetime arguments such as Foo<'_>
        if let Type::Path(p) = t {
            for seg in p.path.segments.iter_mut() {
                if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                    let kept: Vec<GenericArgument> =
                        ab.args.iter().filter(|g| !matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
                    if kept.is_empty() {
                        seg.arguments = PathArguments::None;
                    } else {
                        ab.args = kept.into_iter().collect();
                    }
                }
            }
        }
    }
}
fn map_ty(t: &Type) -> Type {
    let mut t = t.clone();
    TyMap.visit_type_mut(&mut t);
    t
}

// ---------------------------------------------------------------- bodies
struct Tx {
    native: bool,          // keep + - * native (overflow must then be proved absent)
    loops: usize,
    loop_meta: Vec<String>,
    dropped: BTreeSet<String>,
    unsupported: Vec<String>,
    calls: BTreeSet<String>,
    /// names bound by `let x = [a, b, ..]` in the current function
    arrays: BTreeMap<String, usize>,
}

const DROP_CALLS: &[&str] = &["add_attribute", "add_attributes", "add_event", "add_events"];
const CHAIN: &[&str] =
    &["take", "map", "filter", "filter_map", "iter", "into_iter", "cloned", "copied", "rev", "skip"];

thread_local! {
    /// functions of the contract that return a Result
    static RESULTS: std::cell::RefCell<BTreeSet<String>> = Default::default();
}
struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        self.0 |= m.tokens.to_string().contains('?') || m.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with("ensure"));
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
/// `?` or `return` in the body of a closure leaves the closure, not the function around it
fn escapes(e: &Expr) -> bool {
    let mut v = Escapes(false);
    v.visit_expr(e);
    v.0
}
/// a tail `collect()` of a function that returns a result: `Ok(collect()?)`
fn tail_collect(sig: &Signature, b: &mut Block) {
    let res = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "StdResult" || s.ident == "Result" || s.ident == "ContractResult")));
    if let (true, Some(Stmt::Expr(e, None))) = (res, b.stmts.last_mut()) {
        if matches!(&*e, Expr::MethodCall(m) if m.method == "collect") {
            let c = e.clone();
            *e = parse_quote!(Ok(#c?));
        }
    }
}
/// a body that leaves by a `return` other than of an error
fn returns(e: &Expr) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, r: &'a ExprReturn) {
            self.0 |= !matches!(r.expr.as_deref(), Some(Expr::Call(c)) if toks(&c.func) == "Err");
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            self.0 |= m.tokens.to_string().contains("return");
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = R(false);
    v.visit_expr(e);
    v.0
}
fn pat_of(p: &Pat) -> Pat {
    match p {
        Pat::Type(pt) => (*pt.pat).clone(),
        p => p.clone(),
    }
}
thread_local! { static RESVARS: std::cell::RefCell<BTreeSet<String>> = Default::default(); }
/// the local names that surely hold a Result: bound to such a value, or an item of a walk over a stored map
struct ResVars {
    its: BTreeSet<String>,
}
impl ResVars {
    fn walk(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.walk(&p.expr),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.its.contains(&i.to_string())),
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "range" => true,
                "keys" => m.args.len() == 4,
                "take" | "skip" | "rev" | "filter" | "into_iter" | "peekable" => self.walk(&m.receiver),
                _ => false,
            },
            _ => false,
        }
    }
    fn add(p: &Pat) {
        if let Pat::Ident(i) = pat_of(p) {
            RESVARS.with(|r| r.borrow_mut().insert(i.ident.to_string()));
        }
    }
}
impl<'a> Visit<'a> for ResVars {
    fn visit_local(&mut self, l: &'a Local) {
        if let Some(i) = &l.init {
            if self.walk(&i.expr) {
                if let Pat::Ident(p) = pat_of(&l.pat) {
                    self.its.insert(p.ident.to_string());
                }
            } else if is_result(&i.expr) && i.diverge.is_none() {
                ResVars::add(&l.pat);
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        if self.walk(&f.expr) {
            ResVars::add(&f.pat);
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if self.walk(&m.receiver) {
            for a in &m.args {
                if let Expr::Closure(c) = a {
                    c.inputs.first().into_iter().for_each(ResVars::add);
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}
/// is the value surely a Result (as far as its form tells)
fn is_result(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_result(&p.expr),
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| RESVARS.with(|r| r.borrow().contains(&i.to_string()))),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                ["try_from", "from_str", "must_pay", "nonpayable", "one_coin", "may_pay", "to_json_binary", "checked_from_ratio", "from_atomics", "Ok", "Err"].contains(&n.as_str())
                    || RESULTS.with(|r| r.borrow().contains(&n))
            }
            _ => false,
        },
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "load" | "may_load" | "save" | "update" | "addr_validate" | "query_supply" | "query_balance" | "ok_or" | "ok_or_else" | "map_err" | "checked_multiply_ratio" | "try_into" | "parse" | "into_result" => true,
                "map" | "and_then" | "or_else" | "cloned" | "copied" | "as_ref" | "as_mut" => is_result(&m.receiver),
                _ => RESULTS.with(|r| r.borrow().contains(&n)),
            }
        }
        _ => false,
    }
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    closure1_try(e).filter(|(_, b)| !escapes(b))
}
/// the body may contain `?`; the caller sees to it that leaving the function there is right
fn closure1_try(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let mut p = c.inputs[0].clone();
            if let Pat::Type(pt) = p {
                p = *pt.pat;
            }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}
/// apply a function argument (closure or path) to a bound variable: returns (pattern, result expression)
fn apply1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Some(x) = closure1(e) {
        return Some(x);
    }
    if let Expr::Path(p) = e {
        let id = format_ident!("vx_v");
        return Some((parse_quote!(#id), parse_quote!(#p(#id))));
    }
    None
}
fn closure0(e: &Expr) -> Option<Expr> {
    if let Expr::Closure(c) = e {
        if c.inputs.is_empty() && !escapes(&c.body) {
            return Some((*c.body).clone());
        }
    }
    if let Expr::Path(p) = e {
        return Some(parse_quote!(#p()));
    }
    None
}
struct HasCtl {
    cont: bool,
    brk: bool,
}
impl<'a> Visit<'a> for HasCtl {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.cont = true;
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.brk = true;
    }
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn ctl_stmts(s: &[Stmt]) -> (bool, bool) {
    let mut h = HasCtl { cont: false, brk: false };
    for x in s {
        h.visit_stmt(x);
    }
    (h.cont, h.brk)
}
/// removes `if c { ..; continue; }` by moving the rest of the body into the else branch
fn elim_continue(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let (c, b) = ctl_stmts(std::slice::from_ref(s));
        if b {
            return None;
        }
        if !c {
            out.push(s.clone());
            continue;
        }
        if let Stmt::Expr(Expr::If(f), _) = s {
            if f.else_branch.is_none() {
                let th = &f.then_branch.stmts;
                if let Some(Stmt::Expr(Expr::Continue(_), _)) = th.last() {
                    let head = &th[..th.len() - 1];
                    if ctl_stmts(head) == (false, false) {
                        let rest = elim_continue(&stmts[i + 1..])?;
                        let cond = &f.cond;
                        out.push(parse_quote!(if #cond { #(#head)* } else { #(#rest)* }));
                        return Some(out);
                    }
                }
            }
        }
        return None;
    }
    Some(out)
}

impl Tx {
    fn ex(&mut self, e: &mut Expr) {
        self.visit_expr_mut(e)
    }
    fn new_loop(&mut self, kind: &str) -> usize {
        let k = self.loops;
        self.loops += 1;
        self.loop_meta.push(kind.to_string());
        k
    }
    /// a method call ending in collect / count / any / .. over a known adaptor chain; `tried`: the call stands under `?`
    /// [a, b].contains(&x), [a, b].iter().any(|p| ..), .all(..): written out element by element
    fn few(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        if !["contains", "any", "all"].contains(&m.method.to_string().as_str()) || m.args.len() != 1 {
            return None;
        }
        let test = m.method != "contains";
        let (mut r, mut byref) = (&*m.receiver, true);
        if test {
            let Expr::MethodCall(i) = r else { return None };
            if (i.method != "iter" && i.method != "into_iter") || !i.args.is_empty() {
                return None;
            }
            byref = i.method == "iter";
            r = &*i.receiver;
        }
        let (mut pre, mut els): (Vec<Stmt>, Vec<Expr>) = (vec![], vec![]);
        match r {
            Expr::Array(a) => {
                for (i, x) in a.elems.iter().enumerate() {
                    let (v, mut x) = (format_ident!("vx_c{}", i), x.clone());
                    self.ex(&mut x);
                    pre.push(parse_quote!(let #v = #x;));
                    els.push(parse_quote!(#v));
                }
            }
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.arrays.contains_key(&i.to_string())) => {
                for i in 0..self.arrays[&p.path.get_ident().unwrap().to_string()] {
                    let l = Lit::Int(LitInt::new(&i.to_string(), Span::call_site()));
                    els.push(if byref { parse_quote!(#p[#l]) } else { parse_quote!(vx_take(&#p, #l)) });
                }
            }
            _ => return None,
        }
        let mut c: Option<Expr> = None;
        let (and, mut arg) = (m.method == "all", m.args[0].clone());
        let one = if test {
            let (p, mut b) = apply1(&arg)?;
            self.ex(&mut b);
            Some((p, b))
        } else {
            self.ex(&mut arg);
            pre.push(parse_quote!(let vx_x = #arg;));
            None
        };
        for v in els {
            let t: Expr = match &one {
                Some((p, b)) if byref => parse_quote!({ let #p = &#v; #b }),
                Some((p, b)) => parse_quote!({ let #p = #v; #b }),
                None => parse_quote!(#v == *vx_x),
            };
            c = Some(match c {
                None => t,
                Some(c) if and => parse_quote!((#c) && (#t)),
                Some(c) => parse_quote!((#c) || (#t)),
            });
        }
        let c = c?;
        Some(parse_quote!({ #(#pre)* #c }))
    }
    fn chain(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        let (n, l) = (self.loops, self.loop_meta.clone());
        let r = self.chain_(e, tried);
        if r.is_none() {
            self.loops = n;
            self.loop_meta = l;
        }
        r
    }
    fn chain_(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        let mut ads: Vec<(String, Vec<Expr>)> = vec![];
        let mut cur = e.clone();
        let term;
        let targs: Vec<Expr>;
        if let Expr::MethodCall(m) = &cur {
            term = m.method.to_string();
            targs = m.args.iter().cloned().collect();
            cur = (*m.receiver).clone();
        } else {
            return None;
        }
        loop {
            let next = if let Expr::MethodCall(m) = &cur {
                let n = m.method.to_string();
                if CHAIN.contains(&n.as_str()) {
                    ads.push((n, m.args.iter().cloned().collect()));
                    Some((*m.receiver).clone())
                } else {
                    None
                }
            } else {
                None
            };
            match next {
                Some(n) => cur = n,
                None => break,
            }
        }
        ads.reverse();
        // an iterator kept in a variable has a state, and a slice has methods of the same names
        if !["collect", "count"].contains(&term.as_str()) && ads.is_empty() {
            match &cur {
                Expr::MethodCall(m) if m.method == "range" || m.method == "keys" => {}
                _ => return None,
            }
        }
        let mut src = cur;
        self.ex(&mut src);
        let mut byref = false;
        let mut rest: Vec<(String, Vec<Expr>)> = vec![];
        for (i, (n, a)) in ads.into_iter().enumerate() {
            match n.as_str() {
                "iter" if i == 0 => byref = true,
                "into_iter" if i == 0 => {}
                "cloned" | "copied" if byref && i == 1 => byref = false,
                "iter" | "into_iter" | "cloned" | "copied" => return None,
                "rev" | "skip" if rest.is_empty() => {
                    if byref {
                        src = parse_quote!(vx_refs(&#src));
                        byref = false;
                    }
                    if n == "rev" {
                        src = parse_quote!(#src.rev());
                    } else {
                        let mut x = a[0].clone();
                        self.ex(&mut x);
                        src = parse_quote!(#src.skip(#x));
                    }
                }
                "rev" | "skip" => return None,
                _ => rest.push((n, a)),
            }
        }
        if term == "collect" && tried && rest.is_empty() && !byref {
            return Some(parse_quote!(vx_tc(#src)?));
        }
        let k = self.new_loop("chain");
        let (vs, vi, vo, vn) = (
            format_ident!("vx_src{}", k),
            format_ident!("vx_i{}", k),
            format_ident!("vx_out{}", k),
            format_ident!("vx_n{}", k),
        );
        if term == "count" && rest.is_empty() {
            return Some(parse_quote!({ let #vs = #src; #vs.len() }));
        }
        let vx = format_ident!("vx_x");
        if term == "next" && rest.is_empty() {
            let el: Expr = if byref { parse_quote!(&#vs[0]) } else { parse_quote!(vx_take(&#vs, 0)) };
            let src: Expr = if byref { parse_quote!(&#src) } else { src };
            return Some(parse_quote!({ let #vs = #src; if #vs.len() > 0 { Some(#el) } else { None } }));
        }
        let mut take: Option<Expr> = None;
        if let Some((n, a)) = rest.first() {
            if n == "take" {
                let mut t = a[0].clone();
                self.ex(&mut t);
                take = Some(t);
                rest.remove(0);
            }
        }
        let vd = format_ident!("vx_done{}", k);
        let mut early = false;
        let (init, mut inner): (Expr, Vec<Stmt>) = match term.as_str() {
            "collect" | "count" if !tried => (parse_quote!(Vec::new()), vec![parse_quote!(#vo.push(#vx);)]),
            // collect::<Result<..>>()? leaves at the first error
            "collect" => (parse_quote!(Vec::new()), vec![parse_quote!(let #vx = #vx?;), parse_quote!(#vo.push(#vx);)]),
            "any" | "all" => {
                let (p, mut b) = apply1(targs.first()?)?;
                self.ex(&mut b);
                early = true;
                let c: Expr = if term == "any" { parse_quote!({ let #p = #vx; #b }) } else { parse_quote!(!{ let #p = #vx; #b }) };
                let r: Expr = if term == "any" { parse_quote!(true) } else { parse_quote!(false) };
                (if term == "any" { parse_quote!(false) } else { parse_quote!(true) }, vec![parse_quote!(if #c { #vo = #r; #vd = true; })])
            }
            "find" => {
                let (p, mut b) = apply1(targs.first()?)?;
                self.ex(&mut b);
                early = true;
                (parse_quote!(None), vec![parse_quote!(if { let #p = &#vx; #b } { #vo = Some(#vx); #vd = true; })])
            }
            "find_map" => {
                let (p, mut b) = apply1(targs.first()?)?;
                self.ex(&mut b);
                early = true;
                (parse_quote!(None), vec![parse_quote!(match { let #p = #vx; #b } { Some(#vx) => { #vo = Some(#vx); #vd = true; } None => {} })])
            }
            "next" => {
                early = true;
                (parse_quote!(None), vec![parse_quote!(#vo = Some(#vx);), parse_quote!(#vd = true;)])
            }
            "position" if rest.is_empty() => {
                let (p, mut b) = apply1(targs.first()?)?;
                self.ex(&mut b);
                early = true;
                (parse_quote!(None), vec![parse_quote!(if { let #p = #vx; #b } { #vo = Some(#vi - 1); #vd = true; })])
            }
            "last" => (parse_quote!(None), vec![parse_quote!(#vo = Some(#vx);)]),
            "sum" => (parse_quote!(VxDefault::vx_default()), vec![if byref { parse_quote!(#vo = vx_add(#vo, *#vx);) } else { parse_quote!(#vo = vx_add(#vo, #vx);) }]),
            "fold" | "try_fold" => {
                let Expr::Closure(c) = targs.get(1)? else { return None };
                if c.inputs.len() != 2 || returns(&c.body) || (term == "fold" && escapes(&c.body)) || (term == "try_fold" && !tried) {
                    return None;
                }
                let (pa, px) = (pat_of(&c.inputs[0]), pat_of(&c.inputs[1]));
                let (mut b, mut i) = ((*c.body).clone(), targs[0].clone());
                self.ex(&mut b);
                self.ex(&mut i);
                let v: Expr = match (&*term, &c.output) {
                    ("fold", _) => parse_quote!({ let #pa = #vo; let #px = #vx; #b }),
                    (_, ReturnType::Type(_, ty)) => {
                        let ty = map_ty(ty);
                        parse_quote!({ let #pa = #vo; let #px = #vx; let vx_r: #ty = #b; vx_r? })
                    }
                    _ => parse_quote!({ let #pa = #vo; let #px = #vx; (#b)? }),
                };
                (i, vec![parse_quote!(#vo = #v;)])
            }
            "try_for_each" if tried => {
                let (p, mut b) = closure1_try(targs.first()?).filter(|(_, b)| !returns(b))?;
                self.ex(&mut b);
                (parse_quote!(()), vec![parse_quote!({ let #p = #vx; (#b)?; })])
            }
            "for_each" => {
                let (p, mut b) = apply1(targs.first()?)?;
                self.ex(&mut b);
                (parse_quote!(()), vec![parse_quote!({ let #p = #vx; #b; })])
            }
            _ => return None,
        };
        let nrest = rest.len();
        for (ix, (n, a)) in rest.iter().enumerate().rev() {
            match n.as_str() {
                "map" => {
                    let last = ix + 1 == nrest && tried && term == "collect";
                    let (p, mut b) = if last { closure1_try(&a[0]).filter(|(_, b)| !returns(b)).or_else(|| apply1(&a[0])) } else { apply1(&a[0]) }?;
                    let out = match &a[0] {
                        Expr::Closure(c) => match &c.output {
                            ReturnType::Type(_, t) => Some(map_ty(t)),
                            _ => None,
                        },
                        _ => None,
                    };
                    self.ex(&mut b);
                    let mut v: Vec<Stmt> = match out {
                        Some(ty) => vec![parse_quote!(let #vx: #ty = { let #p = #vx; #b };)],
                        None => vec![parse_quote!(let #vx = { let #p = #vx; #b };)],
                    };
                    v.extend(inner);
                    inner = v;
                }
                "filter_map" => {
                    let (p, mut b) = apply1(&a[0])?;
                    self.ex(&mut b);
                    inner = vec![parse_quote!(match { let #p = #vx; #b } { Some(#vx) => { #(#inner)* } None => {} })];
                }
                "filter" => {
                    let (p, mut b) = apply1(&a[0])?;
                    self.ex(&mut b);
                    inner = vec![parse_quote!(if { let #p = &#vx; #b } { #(#inner)* })];
                }
                _ => return None,
            }
        }
        let elem: Expr = if byref { parse_quote!(&#vs[#vi]) } else { parse_quote!(vx_take(&#vs, #vi)) };
        let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
        let (mut pre, mut cond): (Vec<Stmt>, Expr) = match &take {
            Some(t) => (vec![parse_quote!(let #vn: usize = #t;)], parse_quote!(#vi < #vs.len() && #vi < #vn)),
            None => (vec![], parse_quote!(#vi < #vs.len())),
        };
        if early {
            pre.push(parse_quote!(let mut #vd = false;));
            cond = parse_quote!(!#vd && #cond);
        }
        let src: Expr = if byref && term != "collect" && term != "count" { parse_quote!(&#src) } else { src };
        let res: Expr = if term == "count" { parse_quote!(#vo.len()) } else { parse_quote!(#vo) };
        Some(parse_quote!({
            let #vs = #src;
            #(#pre)*
            let mut #vo = #init;
            let mut #vi: usize = 0;
            while #cond {
                vx_inv!(#lit);
                let #vx = #elem;
                #vi = #vi + 1;
                #(#inner)*
            }
            #res
        }))
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let mut src = (*f.expr).clone();
        // strip .iter() / .into_iter()
        let mut byref = false;
        loop {
            match &src {
                Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => {
                    byref = m.method == "iter" || byref;
                    src = (*m.receiver).clone();
                }
                Expr::Paren(p) => src = (*p.expr).clone(),
                _ => break,
            }
        }
        if let Expr::Reference(r) = &src {
            byref = true;
            src = (*r.expr).clone();
        }
        let mut pat = (*f.pat).clone();
        if let Pat::Reference(r) = &pat {
            if byref {
                pat = (*r.pat).clone();
                byref = false;
            }
        }
        // literal arrays (or arrays bound to a name in this function): unroll
        let elems: Option<Vec<Expr>> = match &src {
            Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.arrays.contains_key(&i.to_string())) => {
                let n = self.arrays[&p.path.get_ident().unwrap().to_string()];
                Some((0..n).map(|i| {
                    let l = Lit::Int(LitInt::new(&i.to_string(), Span::call_site()));
                    if byref { parse_quote!(&#p[#l]) } else { parse_quote!(vx_take(&#p, #l)) }
                }).collect())
            }
            _ => None,
        };
        if let Some(el) = elems {
            if let Some(body) = elim_continue(&f.body.stmts) {
                let mut blocks: Vec<Stmt> = vec![];
                for mut e in el {
                    self.ex(&mut e);
                    let e: Expr = if byref && matches!(src, Expr::Array(_)) { parse_quote!(&#e) } else { e };
                    let mut b: Block = parse_quote!({ #(#body)* });
                    self.visit_block_mut(&mut b);
                    let ss = &b.stmts;
                    blocks.push(parse_quote!({ let #pat = #e; #(#ss)* }));
                }
                return parse_quote!({ #(#blocks)* });
            }
        }
        // (i, x) over .enumerate(): the loop's own counter is i
        let mut index: Option<Pat> = None;
        if let Expr::MethodCall(m) = &src {
            if m.method == "enumerate" && m.args.is_empty() {
                if let Pat::Tuple(t) = &pat {
                    if t.elems.len() == 2 {
                        index = Some(t.elems[0].clone());
                        let p1 = t.elems[1].clone();
                        let mut s = (*m.receiver).clone();
                        loop {
                            match &s {
                                Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => {
                                    byref = m.method == "iter" || byref;
                                    s = (*m.receiver).clone();
                                }
                                Expr::Paren(p) => s = (*p.expr).clone(),
                                _ => break,
                            }
                        }
                        src = s;
                        pat = p1;
                        if let Pat::Reference(r) = &pat {
                            if byref {
                                pat = (*r.pat).clone();
                                byref = false;
                            }
                        }
                    }
                }
            }
        }
        // a range counted down
        if let Expr::MethodCall(m) = &src {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let (true, Expr::Range(r), None) = (m.method == "rev", r, &index) {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    let (mut a, mut b) = ((**a).clone(), (**b).clone());
                    self.ex(&mut a);
                    self.ex(&mut b);
                    let k = self.new_loop("range");
                    let (vi, vn) = (format_ident!("vx_i{}", k), format_ident!("vx_n{}", k));
                    let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                    let mut body = f.body.clone();
                    self.visit_block_mut(&mut body);
                    let ss = &body.stmts;
                    return parse_quote!({
                        let #vn = #a;
                        let mut #vi = #b;
                        while #vi > #vn {
                            vx_inv!(#lit);
                            #vi = #vi - 1;
                            let #pat = #vi;
                            #(#ss)*
                        }
                    });
                }
            }
            // adaptors: the sequence is built first
            if CHAIN.contains(&m.method.to_string().as_str()) && !(m.args.is_empty() && (m.method == "cloned" || m.method == "copied")) {
                let (inner, take) = match &src {
                    Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => ((*m.receiver).clone(), Some(m.args[0].clone())),
                    _ => (src.clone(), None),
                };
                if let (false, Some(s)) = (byref, self.plain_adaptors(&inner)) {
                    let take = take.map(|mut t| { self.ex(&mut t); t });
                    let k = self.new_loop("for");
                    return self.walk(k, s, false, pat, index, &f.body, take);
                }
                let c: Expr = parse_quote!(#src.collect());
                if !byref {
                    if let Some(x) = self.chain(&c, false) {
                        src = x;
                        let k = self.new_loop("for");
                        return self.walk(k, src, false, pat, index, &f.body, None);
                    }
                }
            }
        }
        if let Expr::Range(r) = &src {
            if let (Some(a), Some(b), RangeLimits::Closed(_), None) = (&r.start, &r.end, &r.limits, &index) {
                let (mut a, mut b) = ((**a).clone(), (**b).clone());
                self.ex(&mut a);
                self.ex(&mut b);
                let k = self.new_loop("range");
                let (vi, vn, vd) = (format_ident!("vx_i{}", k), format_ident!("vx_n{}", k), format_ident!("vx_done{}", k));
                let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let ss = &body.stmts;
                return parse_quote!({
                    let mut #vi = #a;
                    let #vn = #b;
                    let mut #vd = #vi > #vn;
                    while !#vd {
                        vx_inv!(#lit);
                        let #pat = #vi;
                        if #vi < #vn { #vi = #vi + 1; } else { #vd = true; }
                        #(#ss)*
                    }
                });
            }
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_), None) = (&r.start, &r.end, &r.limits, &index) {
                let (mut a, mut b) = ((**a).clone(), (**b).clone());
                self.ex(&mut a);
                self.ex(&mut b);
                let k = self.new_loop("range");
                let (vi, vn) = (format_ident!("vx_i{}", k), format_ident!("vx_n{}", k));
                let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let ss = &body.stmts;
                return parse_quote!({
                    let #vn = #b;
                    let mut #vi = #a;
                    while #vi < #vn {
                        vx_inv!(#lit);
                        let #pat = #vi;
                        #vi = #vi + 1;
                        #(#ss)*
                    }
                });
            }
        }
        self.ex(&mut src);
        let k = self.new_loop("for");
        self.walk(k, src, byref, pat, index, &f.body, None)
    }
    /// x.iter().rev().take(n).skip(m): no closures, hence no loop
    fn plain_adaptors(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("take" | "skip", 1) => {
                    let r = self.plain_adaptors(&m.receiver)?;
                    let (mut a, id) = (m.args[0].clone(), &m.method);
                    self.ex(&mut a);
                    return Some(parse_quote!(#r.#id(#a)));
                }
                ("rev", 0) => {
                    let r = self.plain_adaptors(&m.receiver)?;
                    return Some(parse_quote!(#r.rev()));
                }
                ("iter", 0) => {
                    let mut r = (*m.receiver).clone();
                    self.ex(&mut r);
                    return Some(parse_quote!(vx_refs(&#r)));
                }
                ("into_iter", 0) => {
                    let mut r = (*m.receiver).clone();
                    self.ex(&mut r);
                    return Some(r);
                }
                (n, _) if CHAIN.contains(&n) => return None,
                _ => {}
            }
        }
        if matches!(e, Expr::Range(_) | Expr::Paren(_)) {
            return None;
        }
        let mut r = e.clone();
        self.ex(&mut r);
        Some(r)
    }
    fn walk(&mut self, k: usize, src: Expr, byref: bool, pat: Pat, index: Option<Pat>, body: &Block, take: Option<Expr>) -> Expr {
        let (vs, vi, vn) = (format_ident!("vx_src{}", k), format_ident!("vx_i{}", k), format_ident!("vx_n{}", k));
        let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
        let mut body = body.clone();
        self.visit_block_mut(&mut body);
        let ss = &body.stmts;
        let elem: Expr = if byref { parse_quote!(&#vs[#vi]) } else { parse_quote!(vx_take(&#vs, #vi)) };
        let src: Expr = if byref { parse_quote!(&#src) } else { src };
        let ix: Vec<Stmt> = index.iter().map(|p| parse_quote!(let #p = #vi;)).collect();
        let (pre, cond): (Vec<Stmt>, Expr) = match &take {
            Some(t) => (vec![parse_quote!(let #vn: usize = #t;)], parse_quote!(#vi < #vs.len() && #vi < #vn)),
            None => (vec![], parse_quote!(#vi < #vs.len())),
        };
        parse_quote!({
            let #vs = #src;
            #(#pre)*
            let mut #vi: usize = 0;
            while #cond {
                vx_inv!(#lit);
                let #pat = #elem;
                #(#ix)*
                #vi = #vi + 1;
                #(#ss)*
            }
        })
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "ensure" => {
                let a = args()?;
                let (mut c, mut e) = (a[0].clone(), a[1].clone());
                self.ex(&mut c);
                self.ex(&mut e);
                Some(parse_quote!(if !(#c) { return Err(#e); }))
            }
            "ensure_eq" | "ensure_ne" => {
                let a = args()?;
                let (mut x, mut y, mut e) = (a[0].clone(), a[1].clone(), a[2].clone());
                self.ex(&mut x);
                self.ex(&mut y);
                self.ex(&mut e);
                if name == "ensure_eq" {
                    Some(parse_quote!(if !(#x == #y) { return Err(#e); }))
                } else {
                    Some(parse_quote!(if #x == #y { return Err(#e); }))
                }
            }
            "format" => {
                self.dropped.insert("format! text".into());
                Some(parse_quote!(vx_fmt()))
            }
            "unimplemented" | "panic" | "todo" | "unreachable" => Some(parse_quote!(vx_panic())),
            "assert" => {
                let mut c = args()?[0].clone();
                self.ex(&mut c);
                Some(parse_quote!(if !(#c) { vx_panic::<()>() }))
            }
            "assert_eq" | "assert_ne" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.ex(&mut x);
                self.ex(&mut y);
                Some(if name == "assert_eq" { parse_quote!(if !(#x == #y) { vx_panic::<()>() }) } else { parse_quote!(if #x == #y { vx_panic::<()>() }) })
            }
            // not compiled into a release build
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                self.dropped.insert(format!("{}!", name));
                Some(parse_quote!({}))
            }
            "env" => Some(parse_quote!(str_ref("env"))),
            "vec" => {
                let a = args()?;
                let v: Vec<Expr> = a
                    .iter()
                    .map(|e| {
                        let mut e = e.clone();
                        self.ex(&mut e);
                        e
                    })
                    .collect();
                if v.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    Some(parse_quote!(vec![#(#v),*]))
                }
            }
            "matches" => None,
            _ => {
                self.unsupported.push(format!("macro {}!", name));
                None
            }
        }
    }
}

impl VisitMut for Tx {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        TyMap.visit_type_mut(t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.arrays.clone();
        for s in b.stmts.iter_mut() {
            // `let a = [x, y]` becomes a Vec, remembered so that loops over it can be unrolled
            if let Stmt::Local(l) = s {
                l.attrs.clear();
                if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Array(a) = &*init.expr {
                        self.arrays.insert(pi.ident.to_string(), a.elems.len());
                    }
                }
            }
            if let Stmt::Macro(m) = s {
                if let Some(e) = self.mac(&m.mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
        self.arrays = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions are dropped
        match e {
            Expr::Macro(m) => {
                if let Some(n) = self.mac(&m.mac) {
                    *e = n;
                }
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                        if let (true, 1, true, Expr::Path(it)) = (m.method == "next" && m.args.is_empty(), ts.elems.len(), ts.path.is_ident("Some"), &*m.receiver) {
                            let mut ids = Idents(BTreeSet::new());
                            ids.visit_block(&w.body);
                            if it.path.get_ident().is_some_and(|i| !ids.0.contains(&i.to_string())) {
                                let (p, b) = (&ts.elems[0], &w.body);
                                let f: ExprForLoop = parse_quote!(for #p in #it #b);
                                *e = self.for_loop(&f);
                                return;
                            }
                        }
                    }
                }
                let k = self.new_loop("while");
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(vx_inv!(#lit);));
                return;
            }
            Expr::Loop(l) => {
                let k = self.new_loop("loop");
                self.visit_block_mut(&mut l.body);
                let lit = Lit::Int(LitInt::new(&k.to_string(), Span::call_site()));
                l.body.stmts.insert(0, parse_quote!(vx_inv!(#lit);));
                return;
            }
            Expr::Array(a) => {
                let v: Vec<Expr> = a
                    .elems
                    .iter()
                    .map(|x| {
                        let mut x = x.clone();
                        self.ex(&mut x);
                        x
                    })
                    .collect();
                *e = parse_quote!(vec![#(#v),*]);
                return;
            }
            Expr::Lit(l) => {
                if let Lit::Str(_) = &l.lit {
                    let l = l.clone();
                    *e = parse_quote!(str_ref(#l));
                }
                return;
            }
            Expr::Binary(b) => {
                // x == "text"
                let text = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (text(&b.left) != text(&b.right)) {
                    let (mut l, mut x) = ((*b.right).clone(), (*b.left).clone());
                    if !text(&l) {
                        std::mem::swap(&mut l, &mut x);
                    }
                    self.ex(&mut x);
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#x).vx_is(str_ref(#l))) } else { parse_quote!(!(#x).vx_is(str_ref(#l))) };
                    return;
                }
                self.ex(&mut b.left);
                self.ex(&mut b.right);
                // (a, b) == x : compared field by field
                if let BinOp::Eq(_) = b.op {
                    let (t, o) = match (&*b.left, &*b.right) {
                        (Expr::Tuple(t), o) if !matches!(o, Expr::Tuple(_)) => (t.clone(), o.clone()),
                        (o, Expr::Tuple(t)) if !matches!(o, Expr::Tuple(_)) => (t.clone(), o.clone()),
                        _ => return,
                    };
                    let mut acc: Option<Expr> = None;
                    for (i, x) in t.elems.iter().enumerate() {
                        let ix = Index::from(i);
                        let c: Expr = parse_quote!(#x == #o.#ix);
                        acc = Some(match acc {
                            None => c,
                            Some(a) => parse_quote!(#a && #c),
                        });
                    }
                    if let Some(a) = acc {
                        *e = parse_quote!((#a));
                    }
                    return;
                }
                match b.op {
                    BinOp::Div(_) => {
                        let (l, r) = (b.left.clone(), b.right.clone());
                        *e = parse_quote!(vx_div(#l, #r));
                        return;
                    }
                    BinOp::Rem(_) => {
                        let (l, r) = (b.left.clone(), b.right.clone());
                        *e = parse_quote!(vx_rem(#l, #r));
                        return;
                    }
                    _ => {}
                }
                if !self.native {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    match b.op {
                        BinOp::Add(_) => *e = parse_quote!(vx_add(#l, #r)),
                        BinOp::Sub(_) => *e = parse_quote!(vx_sub(#l, #r)),
                        BinOp::Mul(_) => *e = parse_quote!(vx_mul(#l, #r)),
                        BinOp::AddAssign(_) => *e = parse_quote!(#l = vx_add(#l, #r)),
                        BinOp::SubAssign(_) => *e = parse_quote!(#l = vx_sub(#l, #r)),
                        BinOp::MulAssign(_) => *e = parse_quote!(#l = vx_mul(#l, #r)),
                        _ => {}
                    }
                }
                return;
            }
            Expr::Call(c) => {
                // T::from(x)
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.calls.insert(segs.last().unwrap().clone());
                    if segs.len() >= 2 && segs[segs.len() - 2] == "cmp" && (segs[segs.len() - 1] == "max" || segs[segs.len() - 1] == "min") {
                        let f = format_ident!("{}", segs[segs.len() - 1]);
                        c.func = parse_quote!(#f);
                    }
                    if segs.len() == 2 && segs[1] == "from" && c.args.len() == 1 {
                        let ty = format_ident!("{}", segs[0]);
                        let mut a = c.args[0].clone();
                        if segs[0] == "ContractError" {
                            self.ex(&mut a);
                            c.args[0] = a;
                            return;
                        }
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a {
                            *e = parse_quote!(str_lit(#s));
                            return;
                        }
                        self.ex(&mut a);
                        *e = parse_quote!({ let vx_f: #ty = (#a).into_(); vx_f });
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if DROP_CALLS.contains(&name.as_str()) {
                    self.dropped.insert(format!(".{}(..)", name));
                    let mut r = (*m.receiver).clone();
                    self.ex(&mut r);
                    *e = r;
                    return;
                }
                if let Some(x) = self.few(m) {
                    *e = x;
                    return;
                }
                if ["any", "all", "find", "find_map", "position", "fold", "sum", "for_each", "next", "last"].contains(&name.as_str()) {
                    let me = Expr::MethodCall(m.clone());
                    if let Some(n) = self.chain(&me, false) {
                        *e = n;
                        return;
                    }
                }
                if name == "collect" || name == "count" {
                    let me = e.clone();
                    match self.chain(&me, false) {
                        Some(n) => {
                            *e = n;
                            return;
                        }
                        None => {
                            self.unsupported.push(format!("iterator chain {}", toks(&me)));
                            return;
                        }
                    }
                }
                if name == "to_string" || name == "to_owned" {
                    if let Expr::Lit(l) = &*m.receiver {
                        if let Lit::Str(_) = l.lit {
                            let l = l.clone();
                            *e = parse_quote!(str_lit(#l));
                            return;
                        }
                    }
                }
                // the order of equal elements, or of any, is left open: a permutation
                if let (1, Some(Expr::Closure(c)), true) = (m.args.len(), m.args.first(), ["sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"].contains(&name.as_str())) {
                    if !escapes(&c.body) {
                        let mut r = (*m.receiver).clone();
                        self.ex(&mut r);
                        *e = parse_quote!(#r.vx_sort());
                        return;
                    }
                }
                if name == "retain" && m.args.len() == 1 {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    let c: Expr = parse_quote!(#r.into_iter().filter(#a).collect());
                    if let Some(x) = self.chain(&c, false) {
                        let mut r = (*m.receiver).clone();
                        self.ex(&mut r);
                        *e = parse_quote!({ let vx_k = #x; #r = vx_k; });
                        return;
                    }
                }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let mut recv = (*m.receiver).clone();
                let repl: Option<Expr> = match (name.as_str(), args.len()) {
                    ("map", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        let res = is_result(&recv);
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        if res { parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }) } else { parse_quote!(match #recv { Some(#p) => Some(#b), None => None }) }
                    }),
                    ("and_then", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        let res = is_result(&recv);
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        if res { parse_quote!(match #recv { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }) } else { parse_quote!(match #recv { Some(#p) => #b, None => None }) }
                    }),
                    ("is_some_and", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(#p) => #b, None => false })
                    }),
                    ("is_none_or", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(#p) => #b, None => true })
                    }),
                    ("is_ok_and", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })
                    }),
                    ("is_err_and", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Err(#p) => #b, Ok(_) => false })
                    }),
                    ("filter", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(vx_o) => { if { let #p = &vx_o; #b } { Some(vx_o) } else { None } } None => None })
                    }),
                    ("then", 1) => closure0(&args[0]).map(|mut b| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(if #recv { Some(#b) } else { None })
                    }),
                    ("or_else", 1) if matches!(&args[0], Expr::Closure(c) if c.inputs.len() == 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#p) => #b })
                    }),
                    ("or_else", 1) => closure0(&args[0]).map(|mut b| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(vx_ok) => Some(vx_ok), None => #b })
                    }),
                    ("unwrap_or_else", 1) if matches!(&args[0], Expr::Closure(c) if c.inputs.len() == 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Ok(vx_ok) => vx_ok, Err(#p) => #b })
                    }),
                    ("expect", 1) => {
                        self.ex(&mut recv);
                        Some(parse_quote!(#recv.unwrap()))
                    }
                    ("map_or", 2) => apply1(&args[1]).map(|(p, mut b)| {
                        let mut d = args[0].clone();
                        let res = is_result(&recv);
                        self.ex(&mut recv);
                        self.ex(&mut d);
                        self.ex(&mut b);
                        if res { parse_quote!(match #recv { Ok(#p) => #b, Err(_) => #d }) } else { parse_quote!(match #recv { Some(#p) => #b, None => #d }) }
                    }),
                    ("map_or_else", 2) => match (closure0(&args[0]), apply1(&args[1])) {
                        (Some(mut d), Some((p, mut b))) => {
                            self.ex(&mut recv);
                            self.ex(&mut d);
                            self.ex(&mut b);
                            Some(parse_quote!(match #recv { Some(#p) => #b, None => #d }))
                        }
                        _ => None,
                    },
                    ("map_err", 1) => apply1(&args[0]).map(|(p, mut b)| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#p) => Err(#b) })
                    }),
                    ("ok_or_else", 1) => closure0(&args[0]).map(|mut b| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(vx_ok) => Ok(vx_ok), None => Err(#b) })
                    }),
                    ("unwrap_or_else", 1) => closure0(&args[0]).map(|mut b| {
                        self.ex(&mut recv);
                        self.ex(&mut b);
                        parse_quote!(match #recv { Some(vx_ok) => vx_ok, None => #b })
                    }),
                    _ => None,
                };
                if let Some(r) = repl {
                    *e = r;
                    return;
                }
                self.calls.insert(name.clone());
                let ren = match name.as_str() {
                    "into" => Some("into_"),
                    "unwrap_or_default" => Some("vx_uod"),
                    "unwrap_or" => Some("vx_uo"),
                    "min" => Some("min_"),
                    "max" => Some("max_"),
                    "first" => Some("vx_first"),
                    "extend" => Some("vx_extend"),
                    "sort" | "sort_unstable" if m.args.is_empty() => Some("vx_sort"),
                    "reverse" if m.args.is_empty() => Some("vx_reverse"),
                    "dedup" if m.args.is_empty() => Some("vx_dedup"),
                    "swap" if m.args.len() == 2 => Some("vx_swap"),
                    "to_string" => Some("vx_str"),
                    "abs" => Some("vx_abs"),
                    "unsigned_abs" => Some("vx_uabs"),
                    _ => None,
                };
                if let Some(r) = ren {
                    m.method = format_ident!("{}", r);
                }
                if let Some(t) = &mut m.turbofish {
                    for a in t.args.iter_mut() {
                        visit_mut::visit_generic_argument_mut(self, a);
                    }
                }
                self.ex(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.ex(a);
                }
                return;
            }
            Expr::Try(t) => {
                if let Expr::MethodCall(m) = &*t.expr {
                    let name = m.method.to_string();
                    if name == "collect" || name == "try_fold" || name == "try_for_each" {
                        let me = (*t.expr).clone();
                        if let Some(n) = self.chain(&me, true) {
                            *e = n;
                            return;
                        }
                    }
                    // X.update(storage, [key,] |v| body)? is a load, the body and a save
                    if let (true, Some(Expr::Closure(c)), p @ (Expr::Path(_) | Expr::Call(_))) = (name == "update", m.args.last(), &*m.receiver) {
                        let mut p = p.clone();
                        self.ex(&mut p);
                        let n = m.args.len();
                        if c.inputs.len() == 1 && (n == 2 || n == 3) && !returns(&c.body) {
                            let (mut st, mut body) = (m.args[0].clone(), (*c.body).clone());
                            self.ex(&mut st);
                            self.ex(&mut body);
                            let v = pat_of(&c.inputs[0]);
                            let ty = match &c.output {
                                ReturnType::Type(_, t) => Some(map_ty(t)),
                                _ => None,
                            };
                            let run: Stmt = match ty {
                                Some(t) => parse_quote!(let vx_n: #t = #body;),
                                None => parse_quote!(let vx_n = #body;),
                            };
                            self.calls.extend(["load", "may_load", "save"].map(String::from));
                            *e = if n == 2 {
                                parse_quote!({ let #v = #p.load(#st)?; #run let vx_n = vx_n?; #p.save(#st, &vx_n)?; vx_n })
                            } else {
                                let mut key = m.args[1].clone();
                                self.ex(&mut key);
                                parse_quote!({ let vx_k = #key; let #v = #p.may_load(#st, vx_k)?; #run let vx_n = vx_n?; #p.save(#st, vx_k, &vx_n)?; vx_n })
                            };
                            return;
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                self.unsupported.push(format!("closure {}", toks(c)));
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- items
struct FnInfo {
    name: String,
    block: Block,
    cfgtest: bool,
}
struct Idents(BTreeSet<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.0.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn rec(t: TokenStream, o: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    proc_macro2::TokenTree::Group(g) => rec(g.stream(), o),
                    _ => {}
                }
            }
        }
        rec(m.tokens.clone(), &mut self.0);
        syn::visit::visit_macro(self, m);
    }
}

/// `cosmwasm_std::X` written out in full (outside `use`) is X: the library names are all in scope
fn unqualified(ts: TokenStream) -> TokenStream {
    use proc_macro2::{Group, TokenTree as T};
    let v: Vec<T> = ts.into_iter().collect();
    let mut out: Vec<T> = vec![];
    let (mut i, mut in_use) = (0, false);
    while i < v.len() {
        match &v[i] {
            T::Ident(x) if x == "use" => in_use = true,
            T::Punct(p) if p.as_char() == ';' => in_use = false,
            T::Ident(x) if !in_use && ["cosmwasm_std", "cw_storage_plus", "cw_utils", "cw2"].contains(&x.to_string().as_str()) => {
                let colons = |k: usize| matches!((v.get(k), v.get(k + 1)), (Some(T::Punct(a)), Some(T::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
                if colons(i + 1) && matches!(v.get(i + 3), Some(T::Ident(_))) {
                    i += 3;
                    continue;
                }
            }
            T::Group(g) if !in_use => {
                let mut n = Group::new(g.delimiter(), unqualified(g.stream()));
                n.set_span(g.span());
                out.push(T::Group(n));
                i += 1;
                continue;
            }
            _ => {}
        }
        out.push(v[i].clone());
        i += 1;
    }
    out.into_iter().collect()
}

/// fn f(P: T) {..} with a destructuring pattern is fn f(vx_p: T) { let P = vx_p; .. }
struct Params;
impl Params {
    fn fix(sig: &mut Signature, block: &mut Block) {
        let mut lets: Vec<Stmt> = vec![];
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()) {
                    let (v, p) = (format_ident!("vx_p{}", n), t.pat.clone());
                    if !matches!(&*p, Pat::Wild(_)) {
                        lets.push(parse_quote!(let #p = #v;));
                    }
                    *t.pat = parse_quote!(#v);
                }
            }
        }
        block.stmts.splice(0..0, lets);
    }
}
impl VisitMut for Params {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        Self::fix(&mut f.sig, &mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        Self::fix(&mut f.sig, &mut f.block);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    let native: BTreeSet<String> = args.get(2).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut mods: Vec<(String, File, PathBuf)> = vec![];
    fn load(src: &Path, file: PathBuf, modpath: String, dir: PathBuf, out: &mut Vec<(String, File, PathBuf)>) {
        let text = std::fs::read_to_string(&file).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", file.display(), e);
            std::process::exit(3)
        });
        let toks: TokenStream = text.parse().unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", file.display(), e);
            std::process::exit(3)
        });
        let f: File = parse2(unqualified(toks)).unwrap_or_else(|e| {
            eprintln!("cannot parse {}: {}", file.display(), e);
            std::process::exit(3)
        });
        let mut subs = vec![];
        for it in &f.items {
            if let Item::Mod(m) = it {
                if m.content.is_none() && !is_cfg_test(&m.attrs) {
                    subs.push(m.ident.to_string());
                }
            }
        }
        out.push((modpath.clone(), f, file));
        for s in subs {
            let a = dir.join(format!("{}.rs", s));
            let b = dir.join(&s).join("mod.rs");
            let np = if modpath.is_empty() { s.clone() } else { format!("{}::{}", modpath, s) };
            if a.exists() {
                load(src, a, np, dir.join(&s), out);
            } else if b.exists() {
                load(src, b, np, dir.join(&s), out);
            }
        }
    }
    load(&src, src.join("lib.rs"), String::new(), src.clone(), &mut mods);
    {
        struct R(BTreeSet<String>);
        impl<'a> Visit<'a> for R {
            fn visit_signature(&mut self, s: &'a Signature) {
                if let ReturnType::Type(_, t) = &s.output {
                    if let Type::Path(p) = &**t {
                        if p.path.segments.last().is_some_and(|s| s.ident.to_string().ends_with("Result")) {
                            self.0.insert(s.ident.to_string());
                        }
                    }
                }
            }
        }
        let mut r = R(BTreeSet::new());
        mods.iter().for_each(|(_, f, _)| r.visit_file(f));
        RESULTS.with(|x| *x.borrow_mut() = r.0);
    }
    let mut consts: BTreeMap<String, Option<String>> = BTreeMap::new(); // text constants, None if ambiguous
    for (_, f, _) in &mods {
        let mut o = OddItems(vec![]);
        f.items.iter().for_each(|i| o.visit_item(i));
        if !o.0.is_empty() {
            refuse(format!("attributes outside the subset: {}", o.0.join(" ")));
        }
        for it in &f.items {
            if let Item::Const(c) = it {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                    let n = c.ident.to_string();
                    let v = if consts.contains_key(&n) { None } else { Some(s.value()) };
                    consts.insert(n, v);
                }
            }
        }
    }
    let text = |e: Option<&Expr>| -> String {
        match e {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            Some(Expr::Path(p)) => match consts.get(&p.path.segments.last().unwrap().ident.to_string()) {
                Some(Some(s)) => s.clone(),
                _ => refuse(format!("storage namespace not known: {}", toks(p))),
            },
            e => refuse(format!("storage namespace not known: {}", e.map_or(String::new(), |e| toks(e)))),
        }
    };
    let which: BTreeSet<String> = args.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut inlined: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (_, f, _) in mods.iter_mut() {
        Params.visit_file_mut(f);
    }
    for (_, f, _) in mods.iter_mut() {
        inline::closures(f);
    }
    if !which.is_empty() {
        for (mp, f, _) in mods.iter_mut() {
            inlined.extend(inline::run(mp, f, &which));
        }
    }
    let mut listed: Vec<String> = vec![]; // fields named in get_indexes

    // ---- collect functions for reachability
    let mut fns: Vec<FnInfo> = vec![];
    for (_mp, f, _) in &mods {
        for it in &f.items {
            match it {
                Item::Fn(x) if !is_cfg_test(&x.attrs) => fns.push(FnInfo { name: x.sig.ident.to_string(), block: (*x.block).clone(), cfgtest: false }),
                Item::Impl(im) if !is_cfg_test(&im.attrs) && im.trait_.is_none() => {
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            fns.push(FnInfo { name: x.sig.ident.to_string(), block: x.block.clone(), cfgtest: is_cfg_test(&x.attrs) });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fns.retain(|f| !f.cfgtest);
    let mut reach: BTreeSet<String> =
        ["instantiate", "execute", "query", "reply", "migrate", "sudo"].iter().map(|s| s.to_string()).collect();
    // functions used by trait impls (From, Display, Default) count as reachable
    for (_, f, _) in &mods {
        for it in &f.items {
            if let Item::Impl(im) = it {
                if im.trait_.is_some() && !is_cfg_test(&im.attrs) {
                    let mut id = Idents(BTreeSet::new());
                    id.visit_item_impl(im);
                    reach.extend(id.0);
                }
            }
        }
    }
    loop {
        let n = reach.len();
        for f in &fns {
            if reach.contains(&f.name) {
                let mut id = Idents(BTreeSet::new());
                id.visit_block(&f.block);
                reach.extend(id.0);
            }
        }
        if reach.len() == n {
            break;
        }
    }

    let modnames: BTreeSet<String> = mods.iter().map(|m| m.0.clone()).collect();
    let mut out_items: Vec<String> = vec![];
    let mut defined: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); // module -> names
    let mut uses: Vec<(String, ItemUse)> = vec![];
    let mut warn: Vec<String> = vec![];

    let emit_fn = |mp: &str, imp: Option<&str>, sig: &Signature, block: &Block, line: usize, native_m: bool, kind: &str, extra: Vec<(&str, String)>| -> String {
        let mut tx = Tx {
            native: native_m,
            loops: 0,
            loop_meta: vec![],
            dropped: BTreeSet::new(),
            unsupported: vec![],
            calls: BTreeSet::new(),
            arrays: BTreeMap::new(),
        };
        let mut b = block.clone();
        let mut odd = Odd(vec![]);
        odd.visit_block(block);
        tx.unsupported.extend(odd.0.into_iter().map(|a| format!("attribute {}", a)));
        tail_collect(sig, &mut b);
        RESVARS.with(|r| r.borrow_mut().clear());
        ResVars { its: BTreeSet::new() }.visit_block(&b);
        tx.visit_block_mut(&mut b);
        let mut params = vec![];
        let mut selfk = String::new();
        for p in &sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    selfk = match (&r.reference, r.mutability.is_some()) {
                        (Some(_), true) => "&mut self".into(),
                        (Some(_), false) => "&self".into(),
                        (None, true) => "mut self".into(),
                        (None, false) => "self".into(),
                    };
                }
                FnArg::Typed(t) => {
                    let ty = map_ty(&t.ty);
                    let (m, n) = match &*t.pat {
                        Pat::Ident(pi) => (pi.mutability.is_some(), pi.ident.to_string()),
                        _ => (false, "_".into()),
                    };
                    params.push(jobj(vec![("name", jstr(&n)), ("mut", m.to_string()), ("ty", jstr(&pretty_ty(&ty)))]));
                }
            }
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => pretty_ty(&map_ty(t)),
        };
        let mut v = vec![
            ("kind", jstr(kind)),
            ("module", jstr(mp)),
            ("impl", imp.map_or("null".into(), |s| jstr(&s.replace(' ', "")))),
            ("name", jstr(&sig.ident.to_string())),
            ("line", line.to_string()),
            ("self", jstr(&selfk)),
            ("params", jarr(params)),
            ("ret", jstr(&ret)),
            ("body", jstr(&pretty_block(&b))),
            ("loops", jarr(tx.loop_meta.iter().map(|s| jstr(s)).collect())),
            ("dropped", jarr(tx.dropped.iter().map(|s| jstr(s)).collect())),
            ("unsupported", jarr(tx.unsupported.iter().map(|s| jstr(s)).collect())),
            ("calls", jarr(tx.calls.iter().map(|s| jstr(s)).collect())),
        ];
        v.extend(extra);
        jobj(v)
    };

    for (mp, f, path) in &mods {
        let nat = native.contains(mp);
        let def = defined.entry(mp.clone()).or_default();
        let rel = path.strip_prefix(&src).unwrap().display().to_string();
        for it in &f.items {
            match it {
                Item::Use(u) => {
                    if !is_cfg_test(&u.attrs) {
                        uses.push((mp.clone(), u.clone()));
                    }
                }
                Item::Mod(m) => {
                    if !is_cfg_test(&m.attrs) {
                        def.insert(m.ident.to_string());
                    }
                }
                Item::Fn(x) if !is_cfg_test(&x.attrs) => {
                    let rt = toks(&x.sig.output).replace(' ', "");
                    if rt.contains("IndexedMap<") {
                        // storage map with indexes
                        let mut ns = vec![];
                        let mut idx = vec![];
                        struct V<'a> {
                            ns: &'a mut Vec<String>,
                            idx: &'a mut Vec<String>,
                            text: &'a dyn Fn(Option<&Expr>) -> String,
                        }
                        impl<'a, 'b> Visit<'b> for V<'a> {
                            fn visit_field_value(&mut self, fv: &'b FieldValue) {
                                if let (Member::Named(n), Expr::Call(c)) = (&fv.member, &fv.expr) {
                                    let nn = n.to_string();
                                    let mut cl = String::new();
                                    let mut strs = vec![];
                                    for a in &c.args {
                                        match a {
                                            Expr::Closure(k) => {
                                                let p: Vec<String> = k
                                                    .inputs
                                                    .iter()
                                                    .map(|p| match p {
                                                        Pat::Type(t) => toks(&t.pat),
                                                        p => toks(p),
                                                    })
                                                    .collect();
                                                cl = format!(
                                                    "{{\"params\":{},\"body\":{}}}",
                                                    jarr(p.iter().map(|s| jstr(s)).collect()),
                                                    jstr(&pretty_expr(&k.body))
                                                );
                                            }
                                            e => strs.push(jstr(&(self.text)(Some(e)))),
                                        }
                                    }
                                    self.idx.push(jobj(vec![
                                        ("field", jstr(&nn)),
                                        ("ctor", jstr(&toks(&c.func).replace(' ', ""))),
                                        ("closure", if cl.is_empty() { "null".into() } else { cl }),
                                        ("strs", jarr(strs)),
                                    ]));
                                }
                            }
                            fn visit_expr_call(&mut self, c: &'b ExprCall) {
                                if toks(&c.func).replace(' ', "") == "IndexedMap::new" {
                                    self.ns.push((self.text)(c.args.first()));
                                }
                                syn::visit::visit_expr_call(self, c);
                            }
                        }
                        let mut v = V { ns: &mut ns, idx: &mut idx, text: &text };
                        v.visit_block(&x.block);
                        def.insert(x.sig.ident.to_string());
                        out_items.push(jobj(vec![
                            ("kind", jstr("indexed")),
                            ("module", jstr(mp)),
                            ("name", jstr(&x.sig.ident.to_string())),
                            ("ret", jstr(&rt)),
                            ("ns", jarr(ns.iter().map(|s| jstr(s)).collect())),
                            ("indexes", jarr(idx)),
                        ]));
                        continue;
                    }
                    if !reach.contains(&x.sig.ident.to_string()) {
                        warn.push(format!("unreachable function not extracted: {}::{}", mp, x.sig.ident));
                        continue;
                    }
                    def.insert(x.sig.ident.to_string());
                    let s = emit_fn(mp, None, &x.sig, &x.block, x.sig.ident.span().start().line, nat, "fn", vec![("file", jstr(&rel))]);
                    out_items.push(s);
                }
                Item::Impl(im) if !is_cfg_test(&im.attrs) => {
                    let ty = toks(&im.self_ty);
                    match &im.trait_ {
                        None => {
                            for ii in &im.items {
                                if let ImplItem::Fn(x) = ii {
                                    if is_cfg_test(&x.attrs) {
                                        continue;
                                    }
                                    if !reach.contains(&x.sig.ident.to_string()) {
                                        warn.push(format!("unreachable method not extracted: {}::{}::{}", mp, ty, x.sig.ident));
                                        continue;
                                    }
                                    let s = emit_fn(mp, Some(&ty), &x.sig, &x.block, x.sig.ident.span().start().line, nat, "fn", vec![("file", jstr(&rel))]);
                                    out_items.push(s);
                                }
                            }
                        }
                        Some((_, tp, _)) => {
                            let tn = tp.segments.last().unwrap();
                            let tname = tn.ident.to_string();
                            let fnx = im.items.iter().find_map(|i| if let ImplItem::Fn(x) = i { Some(x) } else { None });
                            match (tname.as_str(), fnx) {
                                ("From", Some(x)) => {
                                    let mut a = String::new();
                                    if let PathArguments::AngleBracketed(ab) = &tn.arguments {
                                        a = toks(&ab.args[0]);
                                    }
                                    let s = emit_fn(mp, Some(&ty), &x.sig, &x.block, x.sig.ident.span().start().line, nat, "from", vec![("from", jstr(&a)), ("file", jstr(&rel))]);
                                    out_items.push(s);
                                }
                                ("Default", Some(x)) => {
                                    let s = emit_fn(mp, Some(&ty), &x.sig, &x.block, x.sig.ident.span().start().line, nat, "fn", vec![("file", jstr(&rel))]);
                                    out_items.push(s);
                                }
                                ("Display", Some(x)) => {
                                    // write!(f, "{}", E)
                                    let mut ok = false;
                                    if let [Stmt::Macro(StmtMacro { mac, semi_token: None, .. })] | [Stmt::Expr(Expr::Macro(ExprMacro { mac, .. }), None)] = &x.block.stmts[..] {
                                        if let Ok(a) = mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                                            if a.len() == 3 && toks(&a[1]) == "\"{}\"" {
                                                let e = a[2].clone();
                                                let blk: Block = parse_quote!({ #e });
                                                let sig: Signature = parse_quote!(fn display(&self) -> String);
                                                let s = emit_fn(mp, Some(&ty), &sig, &blk, x.sig.ident.span().start().line, nat, "display", vec![("file", jstr(&rel))]);
                                                out_items.push(s);
                                                ok = true;
                                            }
                                        }
                                    }
                                    if !ok {
                                        warn.push(format!("Display of {} not extracted", ty));
                                    }
                                }
                                ("IndexList", Some(x)) => {
                                    struct F<'a>(&'a mut Vec<String>);
                                    impl<'a, 'b> Visit<'b> for F<'a> {
                                        fn visit_expr_field(&mut self, e: &'b ExprField) {
                                            if toks(&e.base) == "self" {
                                                self.0.push(toks(&e.member));
                                            }
                                        }
                                        fn visit_macro(&mut self, m: &'b Macro) {
                                            if let Ok(a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                                                a.iter().for_each(|e| self.visit_expr(e));
                                            }
                                        }
                                    }
                                    F(&mut listed).visit_block(&x.block);
                                }
                                ("Serialize" | "Deserialize" | "Drop" | "Deref" | "DerefMut", _) => refuse(format!("impl {} for {}", tname, ty)),
                                _ => warn.push(format!("impl {} for {} not extracted", tname, ty)),
                            }
                        }
                    }
                }
                Item::Struct(s) if !is_cfg_test(&s.attrs) => {
                    def.insert(s.ident.to_string());
                    let mut fs = vec![];
                    for (i, fl) in s.fields.iter().enumerate() {
                        let n = fl.ident.as_ref().map_or(i.to_string(), |x| x.to_string());
                        fs.push(jobj(vec![("name", jstr(&n)), ("ty", jstr(&pretty_ty(&map_ty(&fl.ty))))]));
                    }
                    out_items.push(jobj(vec![
                        ("kind", jstr("struct")),
                        ("module", jstr(mp)),
                        ("name", jstr(&s.ident.to_string())),
                        ("fields", jarr(fs)),
                        ("generics", jstr(&toks(&s.generics))),
                        ("clone", has_derive(&s.attrs, "Clone").to_string()),
                        ("copy", has_derive(&s.attrs, "Copy").to_string()),
                        ("eq", has_derive(&s.attrs, "PartialEq").to_string()),
                        ("default", has_derive(&s.attrs, "Default").to_string()),
                    ]));
                }
                Item::Enum(s) if !is_cfg_test(&s.attrs) => {
                    def.insert(s.ident.to_string());
                    let mut vs = vec![];
                    let mut unit = true;
                    for v in &s.variants {
                        let (k, fs): (&str, Vec<String>) = match &v.fields {
                            Fields::Unit => ("unit", vec![]),
                            Fields::Named(n) => (
                                "named",
                                n.named.iter().map(|f| jobj(vec![("name", jstr(&f.ident.as_ref().unwrap().to_string())), ("ty", jstr(&pretty_ty(&map_ty(&f.ty))))])).collect(),
                            ),
                            Fields::Unnamed(n) => (
                                "tuple",
                                n.unnamed
                                    .iter()
                                    .map(|f| {
                                        jobj(vec![
                                            ("from", f.attrs.iter().any(|a| a.path().is_ident("from")).to_string()),
                                            ("ty", jstr(&pretty_ty(&map_ty(&f.ty)))),
                                        ])
                                    })
                                    .collect(),
                            ),
                        };
                        if k != "unit" {
                            unit = false;
                        }
                        vs.push(jobj(vec![("name", jstr(&v.ident.to_string())), ("kind", jstr(k)), ("fields", jarr(fs))]));
                    }
                    out_items.push(jobj(vec![
                        ("kind", jstr("enum")),
                        ("module", jstr(mp)),
                        ("name", jstr(&s.ident.to_string())),
                        ("variants", jarr(vs)),
                        ("unit", unit.to_string()),
                        ("clone", has_derive(&s.attrs, "Clone").to_string()),
                        ("copy", has_derive(&s.attrs, "Copy").to_string()),
                        ("eq", has_derive(&s.attrs, "PartialEq").to_string()),
                        ("error", has_derive(&s.attrs, "Error").to_string()),
                    ]));
                }
                Item::Const(c) if !is_cfg_test(&c.attrs) => {
                    def.insert(c.ident.to_string());
                    let t = toks(&c.ty).replace(' ', "");
                    if let (Type::Path(tp), Expr::Call(call)) = (&*c.ty, &*c.expr) {
                        let seg = tp.path.segments.last().unwrap();
                        if seg.ident == "Item" || seg.ident == "Map" {
                            let mut tys: Vec<Type> = vec![];
                            if let PathArguments::AngleBracketed(ab) = &seg.arguments {
                                for g in &ab.args {
                                    if let GenericArgument::Type(t) = g {
                                        tys.push(t.clone());
                                    }
                                }
                            }
                            let ns = text(call.args.first());
                            out_items.push(jobj(vec![
                                ("kind", jstr("storage")),
                                ("module", jstr(mp)),
                                ("name", jstr(&c.ident.to_string())),
                                ("container", jstr(&seg.ident.to_string())),
                                ("types", jarr(tys.iter().map(|t| jstr(&pretty_ty(&map_ty(t)))).collect())),
                                ("ns", jstr(&ns)),
                            ]));
                            continue;
                        }
                    }
                    let _ = t;
                    let mut tx = Tx { native: true, loops: 0, loop_meta: vec![], dropped: BTreeSet::new(), unsupported: vec![], calls: BTreeSet::new(), arrays: BTreeMap::new() };
                    let mut e = (*c.expr).clone();
                    tx.ex(&mut e);
                    out_items.push(jobj(vec![
                        ("kind", jstr("const")),
                        ("module", jstr(mp)),
                        ("name", jstr(&c.ident.to_string())),
                        ("ty", jstr(&pretty_ty(&map_ty(&c.ty)))),
                        ("expr", jstr(&pretty_expr(&e))),
                    ]));
                }
                Item::Type(t) if !is_cfg_test(&t.attrs) => {
                    def.insert(t.ident.to_string());
                    out_items.push(jobj(vec![
                        ("kind", jstr("type")),
                        ("module", jstr(mp)),
                        ("name", jstr(&t.ident.to_string())),
                        ("text", jstr(&format!("pub type {}{} = {};", t.ident, toks(&t.generics), pretty_ty(&map_ty(&t.ty))))),
                    ]));
                }
                _ => {}
            }
        }
    }

    // ---- use declarations: keep crate-internal ones, as flat (module, path, alias)
    let mut use_out = vec![];
    for (mp, u) in &uses {
        fn walk(t: &UseTree, pre: Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
            match t {
                UseTree::Path(p) => {
                    let mut q = pre;
                    q.push(p.ident.to_string());
                    walk(&p.tree, q, out)
                }
                UseTree::Name(n) => {
                    let mut q = pre;
                    if n.ident == "self" {
                        let l = q.last().cloned().unwrap_or_default();
                        out.push((q, l));
                    } else {
                        q.push(n.ident.to_string());
                        let l = n.ident.to_string();
                        out.push((q, l))
                    }
                }
                UseTree::Rename(r) => {
                    let mut q = pre;
                    q.push(r.ident.to_string());
                    out.push((q, r.rename.to_string()))
                }
                UseTree::Glob(_) => {
                    let mut q = pre;
                    q.push("*".into());
                    out.push((q, "*".into()))
                }
                UseTree::Group(g) => {
                    for x in &g.items {
                        walk(x, pre.clone(), out)
                    }
                }
            }
        }
        let mut v = vec![];
        walk(&u.tree, vec![], &mut v);
        for (p, alias) in v {
            let mut base: Vec<String> = match p[0].as_str() {
                "crate" => vec![],
                "self" => mp.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
                "super" => {
                    let mut b: Vec<String> = mp.split("::").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                    b.pop();
                    b
                }
                _ => {
                    use_out.push(jobj(vec![
                        ("module", jstr(mp)),
                        ("external", "true".into()),
                        ("path", jstr(&p.join("::"))),
                        ("alias", jstr(&alias)),
                        ("pub", "false".into()),
                    ]));
                    continue;
                }
            };
            base.extend(p[1..].iter().cloned());
            let public = matches!(u.vis, Visibility::Public(_));
            use_out.push(jobj(vec![
                ("module", jstr(mp)),
                ("external", "false".into()),
                ("path", jstr(&base.join("::"))),
                ("alias", jstr(&alias)),
                ("pub", public.to_string()),
            ]));
        }
    }
    let dj = jobj(defined.iter().map(|(k, v)| (k.as_str(), jarr(v.iter().map(|s| jstr(s)).collect()))).collect());
    println!(
        "{}",
        jobj(vec![
            ("modules", jarr(modnames.iter().map(|s| jstr(s)).collect())),
            ("items", jarr(out_items)),
            ("uses", jarr(use_out)),
            ("defined", dj),
            ("inlined", jobj(inlined.iter().map(|(k, v)| (k.as_str(), jarr(v.iter().map(|s| jstr(s)).collect()))).collect())),
            ("listed", jarr(listed.iter().map(|s| jstr(s)).collect())),
            ("warnings", jarr(warn.iter().map(|s| jstr(s)).collect())),
        ])
    );
}
