//! Helpers that have no contract of their own (functions that are new in the tree) are expanded at their call sites, so
//! that the caller's contract is still decided by proof. Purely syntactic; a helper or call that does not fit is left alone.
use crate::toks;
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// `ensure!(c, e)` and friends as plain `if`s
struct Ensures;
impl Ensures {
    fn expand(m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if !["ensure", "ensure_eq", "ensure_ne"].contains(&name.as_str()) {
            return None;
        }
        let a: Vec<Expr> = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
        match (name.as_str(), &a[..]) {
            ("ensure", [c, e]) => Some(parse_quote!(if !(#c) { return Err(#e); })),
            ("ensure_eq", [x, y, e]) => Some(parse_quote!(if !(#x == #y) { return Err(#e); })),
            ("ensure_ne", [x, y, e]) => Some(parse_quote!(if #x == #y { return Err(#e); })),
            _ => None,
        }
    }
}
impl VisitMut for Ensures {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = Self::expand(&m.mac) {
                *s = Stmt::Expr(e, None);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

#[derive(Default)]
struct Ctl {
    ret: usize,
    ret_err: usize,
    question: bool,
    bad: bool,
}
impl<'a> Visit<'a> for Ctl {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret += 1;
        if let Some(e) = &r.expr {
            if toks(e).replace(' ', "").starts_with("Err(") {
                self.ret_err += 1;
            }
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        let mut k = Ctl::default();
        k.visit_expr(&c.body);
        if k.ret > 0 || k.question {
            self.bad = true;
        }
    }
    fn visit_item(&mut self, _: &'a Item) {
        self.bad = true;
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Ok(a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            a.iter().for_each(|e| self.visit_expr(e));
        }
    }
}
fn ctl_block(b: &Block) -> Ctl {
    let mut c = Ctl::default();
    c.visit_block(b);
    c
}
fn ctl_stmt(s: &Stmt) -> Ctl {
    let mut c = Ctl::default();
    c.visit_stmt(s);
    c
}

fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => ends_in_return(&i.then_branch) && matches!(&i.else_branch, Some((_, e)) if matches!(&**e, Expr::Block(x) if ends_in_return(&x.block))),
        _ => false,
    }
}
fn unit() -> Expr {
    parse_quote!(())
}
/// rewrites a block so that its value is what the function would have returned; None if a `return` cannot be moved to the tail
fn tail_block(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (n, s) in b.stmts.iter().enumerate() {
        let rest = || Block { brace_token: b.brace_token, stmts: b.stmts[n + 1..].to_vec() };
        let last = n + 1 == b.stmts.len();
        if let Stmt::Expr(Expr::Return(r), _) = s {
            let e = r.expr.as_ref().map_or(unit(), |e| (**e).clone());
            out.push(Stmt::Expr(tail_expr(&e)?, None));
            return Some(Block { brace_token: b.brace_token, stmts: out });
        }
        if last {
            if let Stmt::Expr(e, None) = s {
                out.push(Stmt::Expr(tail_expr(e)?, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
        }
        if ctl_stmt(s).ret == 0 {
            out.push(s.clone());
            continue;
        }
        match s {
            Stmt::Expr(Expr::If(i), _) => {
                out.push(Stmt::Expr(push_rest(i, &rest())?, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Local(l) => {
                // let P = e else { return X; };
                if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                    if let Expr::Block(d) = &**d {
                        if ends_in_return(&d.block) && ctl_stmt(&Stmt::Expr((**expr).clone(), None)).ret == 0 {
                            let (p, t, r) = (&l.pat, tail_block(&d.block)?, tail_block(&rest())?);
                            out.push(Stmt::Expr(parse_quote!(if let #p = #expr #r else #t), None));
                            return Some(Block { brace_token: b.brace_token, stmts: out });
                        }
                    }
                }
                return None;
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
/// `if a { x } else { return y } rest` with the rest in the branches that go on
fn push_rest(i: &ExprIf, rest: &Block) -> Option<Expr> {
    let go = |x: &Block| -> Option<Block> {
        if ends_in_return(x) {
            return tail_block(x);
        }
        let mut y = x.clone();
        if let Some(Stmt::Expr(_, semi)) = y.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        if y.stmts.iter().any(|s| matches!(s, Stmt::Local(_) | Stmt::Item(_))) {
            // its names stay its own
            if ctl_block(&y).ret > 0 {
                return None;
            }
            y = Block { brace_token: y.brace_token, stmts: vec![Stmt::Expr(parse_quote!(#y), None)] };
        }
        y.stmts.extend(rest.stmts.clone());
        tail_block(&y)
    };
    // the pattern's names stay in the branch
    if matches!(&*i.cond, Expr::Let(_)) && !ends_in_return(&i.then_branch) {
        return None;
    }
    let t = go(&i.then_branch)?;
    let r: Expr = match &i.else_branch {
        None => {
            let r = tail_block(rest)?;
            parse_quote!(#r)
        }
        Some((_, e)) => match &**e {
            Expr::Block(x) => {
                let r = go(&x.block)?;
                parse_quote!(#r)
            }
            Expr::If(j) => push_rest(j, rest)?,
            _ => return None,
        },
    };
    let c = &i.cond;
    Some(parse_quote!(if #c #t else #r))
}
fn tail_expr(e: &Expr) -> Option<Expr> {
    let mut c = Ctl::default();
    c.visit_expr(e);
    if c.ret == 0 {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => tail_expr(&r.expr.as_ref().map_or(unit(), |e| (**e).clone())),
        Expr::Block(b) => {
            let t = tail_block(&b.block)?;
            Some(parse_quote!(#t))
        }
        Expr::If(i) => {
            let (_, els) = i.else_branch.as_ref()?;
            let (c, t, z) = (&i.cond, tail_block(&i.then_branch)?, tail_expr(els)?);
            Some(match z {
                Expr::Block(_) | Expr::If(_) => parse_quote!(if #c #t else #z),
                z => parse_quote!(if #c #t else { #z }),
            })
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = tail_expr(&a.body)?;
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}

fn err_of(r: &ReturnType) -> Option<String> {
    let ReturnType::Type(_, t) = r else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match s.ident.to_string().as_str() {
        "Result" if a.args.len() == 2 => Some(toks(&a.args[1])),
        "StdResult" => Some("StdError".into()),
        "ContractResult" => Some("ContractError".into()),
        _ => None,
    }
}

#[derive(Clone)]
struct Helper {
    imp: Option<String>,
    recv: Option<Receiver>,
    params: Vec<(Ident, bool, Type)>,
    ret: ReturnType,
    block: Block,
    bound: BTreeSet<String>,
}
impl Helper {
    /// the type of a call, when it can be written at the call site
    fn ty(&self) -> Option<Type> {
        let ReturnType::Type(_, t) = &self.ret else { return None };
        let mut t = (**t).clone();
        struct Bad(bool);
        impl<'a> Visit<'a> for Bad {
            fn visit_type_impl_trait(&mut self, _: &'a TypeImplTrait) {
                self.0 = true;
            }
            fn visit_ident(&mut self, i: &'a Ident) {
                self.0 |= i == "Self";
            }
        }
        let mut b = Bad(false);
        b.visit_type(&t);
        Strip.visit_type_mut(&mut t);
        (!b.0).then_some(t)
    }
}
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
    }
}

fn helper(imp: Option<String>, sig: &Signature, block: &Block) -> Option<Helper> {
    if sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) {
        return None;
    }
    let mut recv = None;
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                recv = Some(r.clone())
            }
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (_, Type::ImplTrait(_)) => return None,
                (Pat::Ident(p), ty) if p.by_ref.is_none() && p.subpat.is_none() => params.push((p.ident.clone(), p.mutability.is_some(), ty.clone())),
                _ => return None,
            },
        }
    }
    let mut b = Bound(BTreeSet::new());
    b.visit_block(block);
    struct Own<'a>(&'a Ident, bool);
    impl<'a, 'b> Visit<'b> for Own<'a> {
        fn visit_ident(&mut self, i: &'b Ident) {
            self.1 |= i == self.0;
        }
    }
    let mut own = Own(&sig.ident, false);
    own.visit_block(block);
    if own.1 || ctl_block(block).bad || params.iter().any(|p| b.0.contains(&p.0.to_string()) && matches!(&p.2, Type::Reference(r) if r.mutability.is_some())) {
        return None;
    }
    let mut strip = Strip;
    let mut params = params;
    params.iter_mut().for_each(|p| strip.visit_type_mut(&mut p.2));
    Some(Helper { imp, recv, params, ret: sig.output.clone(), block: block.clone(), bound: b.0 })
}
/// drops lifetimes
struct Strip;
impl VisitMut for Strip {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        r.lifetime = None;
        visit_mut::visit_type_reference_mut(self, r);
    }
}

struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = match x {
                        Expr::Reference(_) => parse_quote!((#x)),
                        x => x.clone(),
                    };
                }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // *(&x) is x, (&x).f is x.f
        fn under(e: &Expr) -> Option<Expr> {
            match e {
                Expr::Paren(p) => match &*p.expr {
                    Expr::Reference(r) => Some((*r.expr).clone()),
                    _ => None,
                },
                _ => None,
            }
        }
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(x) = under(&u.expr) {
                    *e = x;
                }
            }
            Expr::Field(f) => {
                if let Some(x) = under(&f.base) {
                    *f.base = x;
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = under(&m.receiver) {
                    *m.receiver = x;
                }
            }
            _ => {}
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token = Some(Default::default());
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            a.iter_mut().for_each(|e| self.visit_expr_mut(e));
            m.tokens = quote::quote!(#a);
        }
    }
}
struct SelfTy(String);
impl VisitMut for SelfTy {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" {
            *i = format_ident!("{}", self.0);
        }
    }
}

/// root identifier of a place expression `a.b.c`
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Reference(r) => root(&r.expr),
        Expr::Paren(p) => root(&p.expr),
        _ => None,
    }
}
fn mentions(e: &Expr, names: &BTreeSet<String>) -> bool {
    struct M<'a>(&'a BTreeSet<String>, bool);
    impl<'a, 'b> Visit<'b> for M<'a> {
        fn visit_ident(&mut self, i: &'b Ident) {
            self.1 |= self.0.contains(&i.to_string());
        }
        fn visit_macro(&mut self, _: &'b Macro) {
            self.1 = true;
        }
    }
    let mut m = M(names, false);
    m.visit_expr(e);
    m.1
}

struct Inliner<'a> {
    free: &'a BTreeMap<String, Helper>,
    assoc: &'a BTreeMap<(String, String), Helper>,
    methods: &'a BTreeMap<String, Helper>,
    err: Option<String>,
    imp: Option<String>,
    done: Vec<String>,
}
impl<'a> Inliner<'a> {
    fn find(&self, e: &Expr) -> Option<(String, Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match &s[..] {
                    [f] => self.free.get(f).map(|h| (f.clone(), h.clone(), None, args)),
                    [t, f] => {
                        let t = if t == "Self" { self.imp.clone()? } else { t.clone() };
                        self.assoc.get(&(t, f.clone())).map(|h| (f.clone(), h.clone(), None, args))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) => self.methods.get(&m.method.to_string()).map(|h| (m.method.to_string(), h.clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect())),
            _ => None,
        }
    }
    /// the call as a block; `early`: an `Err` may be returned from the enclosing function instead
    fn expand(&mut self, e: &Expr, early: bool) -> Option<Block> {
        let (name, h, recv, args) = self.find(e)?;
        if self.done.len() > 60 {
            return None;
        }
        if args.len() != h.params.len() || h.recv.is_some() != recv.is_some() {
            return None;
        }
        let mut block = h.block.clone();
        let early = early && err_of(&h.ret).is_some() && err_of(&h.ret) == self.err;
        let c = ctl_block(&block);
        if !early && c.question {
            return None;
        }
        if c.ret > 0 && !(early && c.ret == c.ret_err) {
            block = tail_block(&block)?;
        }
        let c = ctl_block(&block);
        if c.ret > 0 && !(early && c.ret == c.ret_err) {
            return None;
        }
        if let Some(t) = &h.imp {
            SelfTy(t.clone()).visit_block_mut(&mut block);
        }
        let mut map = BTreeMap::new();
        let mut lets: Vec<(Ident, bool, Type, Expr)> = vec![];
        let mut owned: Option<Stmt> = None;
        if let Some(r) = recv {
            if h.bound.contains(&root(&r)?) {
                return None;
            }
            // `mut self` by value is a local of the helper
            if h.recv.as_ref().is_some_and(|s| s.reference.is_none() && s.mutability.is_some()) {
                owned = Some(parse_quote!(let mut vx_self = #r;));
                map.insert("self".to_string(), parse_quote!(vx_self));
            } else {
                map.insert("self".to_string(), r);
            }
        }
        for ((p, m, t), a) in h.params.iter().zip(args) {
            let place = root(&a).is_some_and(|r| !h.bound.contains(&r));
            let same = !*m && matches!(&a, Expr::Path(x) if x.path.is_ident(p));
            // a parameter that the body shadows is bound, never substituted
            if same || (!h.bound.contains(&p.to_string()) && matches!(t, Type::Reference(_)) && !*m && place) {
                map.insert(p.to_string(), a);
            } else {
                lets.push((p.clone(), *m, t.clone(), a));
            }
        }
        // the new bindings must not capture names used by the arguments
        let names: BTreeSet<String> = lets.iter().map(|l| l.0.to_string()).collect();
        if map.values().any(|e| mentions(e, &names)) {
            return None;
        }
        Subst(&map).visit_block_mut(&mut block);
        let clash = lets.len() > 1 && lets.iter().any(|l| mentions(&l.3, &names));
        let mut pre: Vec<Stmt> = owned.into_iter().collect();
        if clash {
            for (n, (_, _, t, a)) in lets.iter().enumerate() {
                let v = format_ident!("vx_h{}", n);
                pre.push(parse_quote!(let #v: #t = #a;));
            }
        }
        for (n, (p, m, t, a)) in lets.iter().enumerate() {
            let v = format_ident!("vx_h{}", n);
            let a: Expr = if clash { parse_quote!(#v) } else { a.clone() };
            pre.push(if *m { parse_quote!(let mut #p: #t = #a;) } else { parse_quote!(let #p: #t = #a;) });
        }
        pre.extend(block.stmts);
        self.done.push(name);
        Some(Block { brace_token: h.block.brace_token, stmts: pre })
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_of(&mut b.block),
            Expr::If(i) => {
                self.tail_of(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail(&mut a.body)),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(b) = self.expand(e, true) {
                    *e = parse_quote!(#b);
                }
            }
            _ => {}
        }
    }
    fn tail_of(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail(x);
            }
        }
        if let Expr::Try(t) = e {
            let ty = self.find(&t.expr).and_then(|(_, h, ..)| h.ty());
            if let Some(mut b) = self.expand(&t.expr, true) {
                // { ..; Ok(x) }? is { ..; x }
                let mut ok = false;
                if let Some(Stmt::Expr(Expr::Call(c), None)) = b.stmts.last_mut() {
                    if toks(&c.func) == "Ok" && c.args.len() == 1 {
                        let x = c.args[0].clone();
                        let n = b.stmts.len() - 1;
                        b.stmts[n] = Stmt::Expr(x, None);
                        ok = true;
                    }
                }
                *e = match (ok, ty) {
                    (true, _) => parse_quote!(#b),
                    (_, Some(t)) => parse_quote!({ let vx_r: #t = #b; vx_r? }),
                    _ => parse_quote!((#b)?),
                };
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        let ty = self.find(e).filter(|(_, h, ..)| matches!(&h.ret, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().is_some_and(|s| !s.arguments.is_empty())))).and_then(|(_, h, ..)| h.ty());
        if let Some(b) = self.expand(e, false) {
            *e = match ty {
                Some(t) => parse_quote!({ let vx_r: #t = #b; vx_r }),
                None => parse_quote!(#b),
            };
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // a `return` or `?` inside a closure belongs to the closure
        let e = self.err.take();
        visit_mut::visit_expr_closure_mut(self, c);
        self.err = e;
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let n = self.done.len();
            a.iter_mut().for_each(|e| self.visit_expr_mut(e));
            if self.done.len() > n {
                m.tokens = quote::quote!(#a);
            }
        }
    }
}

/// expands the functions named in `which` (module::[Impl::]name) in the file of module `mp`; the names of functions changed
pub fn run(mp: &str, f: &mut File, which: &BTreeSet<String>) -> BTreeMap<String, BTreeSet<String>> {
    let key = |imp: Option<&str>, n: &str| [Some(mp), imp, Some(n)].into_iter().flatten().filter(|s| !s.is_empty()).collect::<Vec<_>>().join("::");
    let mut changed: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    if !which.iter().any(|w| mp.is_empty() || w.starts_with(&format!("{}::", mp))) {
        return changed;
    }
    for it in f.items.iter_mut() {
        match it {
            Item::Fn(x) => Ensures.visit_block_mut(&mut x.block),
            Item::Impl(im) => im.items.iter_mut().for_each(|i| {
                if let ImplItem::Fn(x) = i {
                    Ensures.visit_block_mut(&mut x.block)
                }
            }),
            _ => {}
        }
    }
    for _ in 0..4 {
        let (mut free, mut assoc, mut methods) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        for it in &f.items {
            match it {
                Item::Fn(x) if which.contains(&key(None, &x.sig.ident.to_string())) => {
                    if let Some(h) = helper(None, &x.sig, &x.block) {
                        free.insert(x.sig.ident.to_string(), h);
                    }
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let ty = toks(&im.self_ty).replace(' ', "");
                    for i in &im.items {
                        if let ImplItem::Fn(x) = i {
                            if which.contains(&key(Some(&ty), &x.sig.ident.to_string())) {
                                if let Some(h) = helper(Some(ty.clone()), &x.sig, &x.block) {
                                    if h.recv.is_some() {
                                        methods.insert(x.sig.ident.to_string(), h);
                                    } else {
                                        assoc.insert((ty.clone(), x.sig.ident.to_string()), h);
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let mut any = false;
        let mut go = |imp: Option<String>, sig: &Signature, block: &mut Block| {
            let me = key(imp.as_deref(), &sig.ident.to_string());
            // a helper that calls itself is not expanded
            let mut n = Inliner { free: &free, assoc: &assoc, methods: &methods, err: err_of(&sig.output), imp, done: vec![] };
            if which.contains(&me) {
                return;
            }
            n.tail_of(block);
            n.visit_block_mut(block);
            if !n.done.is_empty() {
                any = true;
                changed.entry(me).or_default().extend(n.done);
            }
        };
        for it in f.items.iter_mut() {
            match it {
                Item::Fn(x) => {
                    let s = x.sig.clone();
                    go(None, &s, &mut x.block)
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let ty = toks(&im.self_ty).replace(' ', "");
                    for i in im.items.iter_mut() {
                        if let ImplItem::Fn(x) = i {
                            let s = x.sig.clone();
                            go(Some(ty.clone()), &s, &mut x.block)
                        }
                    }
                }
                _ => {}
            }
        }
        if !any {
            break;
        }
    }
    changed
}

/// `let f = |p: T, ..| body;` with `f` only ever called: the calls are written out
struct Closures;
fn count_tokens(t: proc_macro2::TokenStream, name: &str) -> usize {
    t.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Group(g) => count_tokens(g.stream(), name),
            proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
            _ => 0,
        })
        .sum()
}
struct CallOf<'a> {
    name: &'a str,
    params: Vec<(Ident, bool, Option<Type>)>,
    ret: Option<Type>,
    body: Expr,
    seen: usize,
    dry: bool,
}
impl<'a> VisitMut for CallOf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) && c.args.len() == self.params.len() {
                self.seen += 1;
                if self.dry {
                    return;
                }
                let (mut pre, mut lets): (Vec<Stmt>, Vec<Stmt>) = (vec![], vec![]);
                for (n, ((p, m, t), a)) in self.params.iter().zip(&c.args).enumerate() {
                    let v = format_ident!("vx_k{}", n);
                    pre.push(parse_quote!(let #v = #a;));
                    lets.push(match (m, t) {
                        (false, Some(t)) => parse_quote!(let #p: #t = #v;),
                        (false, None) => parse_quote!(let #p = #v;),
                        (true, Some(t)) => parse_quote!(let mut #p: #t = #v;),
                        (true, None) => parse_quote!(let mut #p = #v;),
                    });
                }
                let b = &self.body;
                *e = match &self.ret {
                    Some(t) => parse_quote!({ #(#pre)* #(#lets)* let vx_r: #t = #b; vx_r }),
                    None => parse_quote!({ #(#pre)* #(#lets)* #b }),
                };
            }
        }
    }
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.one(b, i) {
                b.stmts.remove(i);
            } else {
                i += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}
impl Closures {
    fn one(&self, b: &mut Block, i: usize) -> bool {
        let Stmt::Local(l) = &b.stmts[i] else { return false };
        let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { return false };
        let Expr::Closure(c) = &*init.expr else { return false };
        if init.diverge.is_some() || p.by_ref.is_some() || p.subpat.is_some() || c.asyncness.is_some() || c.capture.is_some() {
            return false;
        }
        let ctl = {
            let e = (*c.body).clone();
            let blk: Block = parse_quote!({ #e });
            ctl_block(&blk)
        };
        if ctl.bad || ctl.question || ctl.ret > 0 {
            return false;
        }
        let mut params = vec![];
        for q in &c.inputs {
            match q {
                Pat::Ident(q) if q.by_ref.is_none() && q.subpat.is_none() => params.push((q.ident.clone(), q.mutability.is_some(), None)),
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(q) if q.by_ref.is_none() && q.subpat.is_none() => params.push((q.ident.clone(), q.mutability.is_some(), if matches!(&*t.ty, Type::Infer(_)) { None } else { Some((*t.ty).clone()) })),
                    _ => return false,
                },
                _ => return false,
            }
        }
        let ret = match &c.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        };
        let name = p.ident.to_string();
        // nothing that the closure captures may be bound anew below it
        let mut bound = Bound(BTreeSet::new());
        b.stmts[i + 1..].iter().for_each(|s| bound.visit_stmt(s));
        struct Ids(BTreeSet<String>);
        fn ids(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
            for t in t {
                match t {
                    proc_macro2::TokenTree::Group(g) => ids(g.stream(), o),
                    proc_macro2::TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    _ => {}
                }
            }
        }
        let mut free = Ids(BTreeSet::new());
        let body = (*c.body).clone();
        ids(quote::quote!(#body), &mut free.0);
        params.iter().for_each(|q| {
            free.0.remove(&q.0.to_string());
        });
        if bound.0.contains(&name) || free.0.iter().any(|f| bound.0.contains(f)) {
            return false;
        }
        let total: usize = b.stmts[i + 1..].iter().map(|s| count_tokens(quote::quote!(#s), &name)).sum();
        let mut v = CallOf { name: &name, params, ret, body, seen: 0, dry: true };
        let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
        rest.iter_mut().for_each(|s| v.visit_stmt_mut(s));
        if v.seen == 0 || v.seen != total {
            return false;
        }
        v.dry = false;
        b.stmts[i + 1..].iter_mut().for_each(|s| v.visit_stmt_mut(s));
        true
    }
}
pub fn closures(f: &mut File) {
    Closures.visit_file_mut(f);
}
