//! The rewriting of function bodies: everything the extraction changes in the
//! code it hands to the verifier is done here (see DESIGN.md, "Extraction").

use std::collections::BTreeMap;

use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Path, Stmt};

use crate::overlay::{FnSpec, Place};
use crate::source::cfg_on;

/// Names: modules are flattened, `use X as Y` is undone.
pub struct Rename(pub BTreeMap<String, String>);

const MODULES: &[&str] = &[
    "crate", "super", "anchor", "backlog", "deletion", "encode",
    "encoded_replica", "gtree", "insertion", "leb128", "replica",
    "replica_id", "run_indices", "run_tree", "text", "utils", "version_map",
    "panic_messages",
];

impl Rename {
    fn path(&self, p: &mut Path) {
        p.leading_colon = None;
        let mut aliased = false;
        loop {
            let first = p.segments[0].ident.to_string();
            if !aliased {
                if let Some(to) = self.0.get(&first) {
                    p.segments[0].ident = syn::Ident::new(to, p.segments[0].ident.span());
                    aliased = true;
                    continue;
                }
            }
            if p.segments.len() > 1 && MODULES.contains(&first.as_str()) {
                p.segments = p.segments.iter().skip(1).cloned().collect();
                // the name behind the module may have its own alias
                aliased = false;
                continue;
            }
            break;
        }
    }
}

impl VisitMut for Rename {
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_item_struct_mut(&mut self, i: &mut syn::ItemStruct) {
        if let Some(to) = self.0.get(&i.ident.to_string()) {
            i.ident = syn::Ident::new(to, i.ident.span());
        }
        visit_mut::visit_item_struct_mut(self, i);
    }

    fn visit_item_enum_mut(&mut self, i: &mut syn::ItemEnum) {
        if let Some(to) = self.0.get(&i.ident.to_string()) {
            i.ident = syn::Ident::new(to, i.ident.span());
        }
        visit_mut::visit_item_enum_mut(self, i);
    }

    fn visit_item_type_mut(&mut self, i: &mut syn::ItemType) {
        if let Some(to) = self.0.get(&i.ident.to_string()) {
            i.ident = syn::Ident::new(to, i.ident.span());
        }
        visit_mut::visit_item_type_mut(self, i);
    }
}

// ---------------------------------------------------------------- %sub

type Binds = BTreeMap<String, Vec<TokenTree>>;

fn trees(ts: TokenStream) -> Vec<TokenTree> {
    let mut out = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::None => {
                out.extend(trees(g.stream()))
            },
            t => out.push(t),
        }
    }
    out
}

fn same(a: &[TokenTree], b: &[TokenTree]) -> bool {
    let s = |v: &[TokenTree]| v.iter().cloned().collect::<TokenStream>().to_string();
    s(a) == s(b)
}

/// Matches `pat` at the start of `v`; the number of trees used.
fn match_here(pat: &[TokenTree], v: &[TokenTree], whole: bool, b: &mut Binds) -> Option<usize> {
    let Some(p) = pat.first() else {
        return (!whole || v.is_empty()).then_some(0);
    };
    if let (TokenTree::Punct(d), Some(TokenTree::Ident(n))) = (p, pat.get(1)) {
        if d.as_char() == '$' {
            let n = n.to_string();
            for k in 1..=v.len() {
                let mut b2 = b.clone();
                if let Some(old) = b2.get(&n) {
                    if !same(old, &v[..k]) {
                        continue;
                    }
                }
                b2.insert(n.clone(), v[..k].to_vec());
                if let Some(u) = match_here(&pat[2..], &v[k..], whole, &mut b2) {
                    *b = b2;
                    return Some(k + u);
                }
            }
            return None;
        }
    }
    let t = v.first()?;
    match (p, t) {
        (TokenTree::Group(g), TokenTree::Group(h)) if g.delimiter() == h.delimiter() => {
            match_here(&trees(g.stream()), &trees(h.stream()), true, b)?;
        },
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => return None,
        (p, t) => {
            if p.to_string() != t.to_string() {
                return None;
            }
        },
    }
    Some(1 + match_here(&pat[1..], &v[1..], whole, b)?)
}

fn fill(repl: &[TokenTree], b: &Binds) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut i = 0;
    while i < repl.len() {
        if let (TokenTree::Punct(d), Some(TokenTree::Ident(n))) = (&repl[i], repl.get(i + 1)) {
            if d.as_char() == '$' {
                if let Some(v) = b.get(&n.to_string()) {
                    out.extend(v.clone());
                    i += 2;
                    continue;
                }
            }
        }
        out.push(match &repl[i] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(
                g.delimiter(),
                fill(&trees(g.stream()), b).into_iter().collect(),
            )),
            t => t.clone(),
        });
        i += 1;
    }
    out
}

fn sub(v: Vec<TokenTree>, pat: &[TokenTree], repl: &[TokenTree], n: &mut usize) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut b = Binds::new();
        if let Some(u) = match_here(pat, &v[i..], false, &mut b) {
            *n += 1;
            // bound parts may contain the pattern again
            for x in b.values_mut() {
                *x = sub_groups(std::mem::take(x), pat, repl, n);
            }
            out.extend(fill(repl, &b));
            i += u.max(1);
            continue;
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(
                g.delimiter(),
                sub(trees(g.stream()), pat, repl, n).into_iter().collect(),
            )),
            t => t.clone(),
        });
        i += 1;
    }
    out
}

fn sub_groups(v: Vec<TokenTree>, pat: &[TokenTree], repl: &[TokenTree], n: &mut usize) -> Vec<TokenTree> {
    v.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => TokenTree::Group(Group::new(
                g.delimiter(),
                sub(trees(g.stream()), pat, repl, n).into_iter().collect(),
            )),
            t => t,
        })
        .collect()
}

// ------------------------------------------------------------ attributes

struct Attrs;

fn stmt_attrs(s: &Stmt) -> &[syn::Attribute] {
    match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Item(_) => &[],
    }
}

fn expr_attrs(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        _ => &[],
    }
}

impl VisitMut for Attrs {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| cfg_on(stmt_attrs(s)));
        b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Use(_) | syn::Item::Fn(_) | syn::Item::Enum(_) | syn::Item::Struct(_))));
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- macros

struct Macros {
    err: Option<String>,
}

fn args(ts: &TokenStream) -> Vec<Expr> {
    use syn::punctuated::Punctuated;
    use syn::parse::Parser;
    Punctuated::<Expr, syn::Token![,]>::parse_terminated
        .parse2(ts.clone())
        .map(|p| p.into_iter().collect())
        .unwrap_or_default()
}

fn mac_expr(m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let a = args(&m.tokens);
    Some(match name.as_str() {
        "debug_assert" | "assert" => {
            let e = a.first()?;
            parse_quote!(if !(#e) { vx_panic(); })
        },
        "debug_assert_eq" | "assert_eq" => {
            let (x, y) = (a.first()?, a.get(1)?);
            parse_quote!(if !(#x == #y) { vx_panic(); })
        },
        "debug_assert_ne" | "assert_ne" => {
            let (x, y) = (a.first()?, a.get(1)?);
            parse_quote!(if !(#x != #y) { vx_panic(); })
        },
        "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(vx_panic()),
        _ => return None,
    })
}

impl VisitMut for Macros {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = mac_expr(&m.mac) {
                *s = match e {
                    Expr::If(_) => Stmt::Expr(e, None),
                    e => Stmt::Expr(e, m.semi_token),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = mac_expr(&m.mac) {
                *e = x;
            } else if m.mac.path.is_ident("matches") {
                // matches!(e, p): the verifier knows it, but names inside
                // have to be visible to the renaming
                let r = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                    let x: Expr = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.parse::<Option<syn::Token![if]>>()?.is_some() {
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>()?;
                    Ok((x, p, g))
                });
                if let Ok((x, p, g)) = r {
                    *e = match g {
                        None => parse_quote!(match #x { #p => true, _ => false }),
                        Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                    };
                }
            } else if !m.mac.path.is_ident("vec") {
                self.err = Some(format!("macro {}", m.mac.path.to_token_stream()));
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------- patterns, closures

/// `&x` patterns become `x` and a `let x = *x;`.
struct Deref(Vec<syn::Ident>);

impl VisitMut for Deref {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                self.0.push(i.ident.clone());
                *p = Pat::Ident(i.clone());
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

fn deref(p: &mut Pat) -> Vec<Stmt> {
    let mut d = Deref(vec![]);
    d.visit_pat_mut(p);
    d.0.into_iter().map(|i| parse_quote!(let #i = *#i;)).collect()
}

struct Shape<'a> {
    f: &'a FnSpec,
}

impl VisitMut for Shape<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut extra = vec![];
            if let Stmt::Local(l) = &mut s {
                // `let &(a, b) = e` is `let (a, b) = *e`
                if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
                    if matches!(*r.pat, Pat::Tuple(_)) {
                        let e = &i.expr;
                        *i.expr = parse_quote!(*#e);
                        l.pat = (*r.pat).clone();
                    }
                }
                extra = deref(&mut l.pat);
            }
            out.push(s);
            out.extend(extra);
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        visit_mut::visit_arm_mut(self, a);
        let d = deref(&mut a.pat);
        let body = &a.body;
        if !d.is_empty() || !matches!(**body, Expr::Block(_)) {
            *a.body = parse_quote!({ #(#d)* #body });
        }
        a.comma = None;
    }

    fn visit_expr_if_mut(&mut self, e: &mut syn::ExprIf) {
        visit_mut::visit_expr_if_mut(self, e);
        if let Expr::Let(l) = &mut *e.cond {
            let d = deref(&mut l.pat);
            let old = std::mem::take(&mut e.then_branch.stmts);
            e.then_branch.stmts = d.into_iter().chain(old).collect();
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        if m.args.len() != 1 {
            return;
        }
        let recv = &m.receiver;
        match (name.as_str(), &m.args[0]) {
            ("map", Expr::Closure(c)) if c.inputs.len() == 1 => {
                let (p, b) = (&c.inputs[0], &c.body);
                let p = untyped(p);
                *e = if self.f.option_map {
                    parse_quote!(match #recv { Some(#p) => Some(#b), None => None })
                } else {
                    parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })
                };
            },
            ("map_err", Expr::Closure(c)) if c.inputs.len() == 1 => {
                let (p, b) = (untyped(&c.inputs[0]), &c.body);
                *e = parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) });
            },
            ("map_err", Expr::Path(p)) => {
                *e = parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#p(vx_e)) });
            },
            _ => {},
        }
    }
}

fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

// -------------------------------------------- closures that are functions

/// The body of the closure that `let name = |..| ..;` binds.
pub fn closure(b: &Block, name: &str) -> Option<Block> {
    b.stmts.iter().find_map(|s| {
        let Stmt::Local(l) = s else { return None };
        let Pat::Ident(i) = &l.pat else { return None };
        if i.ident != name {
            return None;
        }
        let Expr::Closure(c) = &*l.init.as_ref()?.expr else { return None };
        Some(match &*c.body {
            Expr::Block(x) => x.block.clone(),
            e => parse_quote!({ #e }),
        })
    })
}

/// Captured variables are references now.
struct Captured<'a>(&'a [String]);

impl VisitMut for Captured<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Path(p) = &*e else { return };
        if p.path.get_ident().is_some_and(|i| self.0.iter().any(|x| i == x)) {
            *e = parse_quote!((*#p));
        }
    }
}

/// `e.find_map(|p| (c).then_some(v))` is a `loop` too.
fn find_map(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "find_map" || m.args.len() != 1 {
        return None;
    }
    let Expr::Closure(c) = &m.args[0] else { return None };
    let (it, p) = (&m.receiver, c.inputs.first()?);
    let mut body = &*c.body;
    while let Expr::Block(b) = body {
        match &b.block.stmts[..] {
            [Stmt::Expr(e, None)] => body = e,
            _ => return None,
        }
    }
    let Expr::MethodCall(t) = body else { return None };
    if t.method != "then_some" || t.args.len() != 1 {
        return None;
    }
    let mut cond = &*t.receiver;
    while let Expr::Paren(x) = cond {
        cond = &x.expr;
    }
    let v = &t.args[0];
    Some(parse_quote!({
        let mut vx_it = #it;
        let mut vx_found = None;
        loop {
            match vx_it.next() {
                Some(#p) => {
                    if #cond {
                        vx_found = Some(#v);
                        break;
                    }
                }
                None => { break; }
            }
        }
        vx_found
    }))
}

/// `for p in e { b }` is `loop` over what `next()` of `e` gives.
struct ForLoops;

impl VisitMut for ForLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = find_map(e) {
            *e = x;
            return;
        }
        let Expr::ForLoop(x) = &*e else { return };
        let (p, i, b, l) = (&x.pat, &x.expr, &x.body, &x.label);
        *e = parse_quote!({
            let mut vx_it = #i;
            #l loop {
                match vx_it.next() {
                    Some(#p) => #b,
                    None => { break; }
                }
            }
        });
    }
}

// ----------------------------------------------------------------- hints

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Hints<'a> {
    place: &'a Place,
    id: usize,
    seen: usize,
    done: bool,
}

fn mark(n: usize) -> Stmt {
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(__vx!(#n);)
}

impl Hints<'_> {
    fn bind_tail(b: &mut Block, at: usize) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.get(at) {
            if at + 1 == b.stmts.len() {
                let e = e.clone();
                b.stmts[at] = parse_quote!(let vx_tail = #e;);
                b.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
            }
        }
    }
}

impl VisitMut for Hints<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        let (before, k, pat) = match self.place {
            Place::Before(k, p) => (true, *k, p),
            Place::After(k, p) => (false, *k, p),
            _ => return,
        };
        let want = squeeze(pat);
        let mut i = 0;
        while i < b.stmts.len() {
            let t = squeeze(&b.stmts[i].to_token_stream().to_string());
            if t.starts_with(&want) {
                if self.seen == k {
                    self.done = true;
                    if before {
                        b.stmts.insert(i, mark(self.id));
                    } else {
                        Self::bind_tail(b, i);
                        b.stmts.insert(i + 1, mark(self.id));
                    }
                    return;
                }
                self.seen += 1;
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            if self.done {
                return;
            }
            i += 1;
        }
    }
}

/// `return e` is `return` of what `e` was, after the hint.
struct Exits {
    id: usize,
}

impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        let Expr::Return(r) = &*e else { return };
        let m = mark(self.id);
        *e = match &r.expr {
            Some(x) => parse_quote!({ let vx_tail = #x; #m return vx_tail; }),
            None => parse_quote!({ #m return; }),
        };
    }
}

/// A closure's parameters, with types, and its contract.
struct Closures<'a> {
    n: usize,
    want: usize,
    params: &'a str,
    id: usize,
    done: bool,
}

impl VisitMut for Closures<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        if self.n == self.want && !self.done {
            self.done = true;
            if !self.params.is_empty() {
                let t: Result<syn::ExprClosure, _> = syn::parse_str(&format!("{} ()", self.params));
                if let Ok(t) = t {
                    if t.inputs.len() == c.inputs.len() {
                        // only the types are taken from the contract
                        for (mine, theirs) in c.inputs.iter_mut().zip(&t.inputs) {
                            if let (Pat::Ident(_), Pat::Type(ty)) = (&*mine, theirs) {
                                let (m, ty) = (mine.clone(), &ty.ty);
                                *mine = Pat::Type(parse_quote!(#m: #ty));
                            }
                        }
                    } else {
                        self.done = false;
                    }
                } else {
                    self.done = false;
                }
            }
            let body = match &*c.body {
                Expr::Block(x) => x.block.clone(),
                e => parse_quote!({ #e }),
            };
            let lit = proc_macro2::Literal::usize_unsuffixed(self.id);
            let stmts = &body.stmts;
            *c.body = parse_quote!({ __vxl!(#lit); #(#stmts)* });
        }
        self.n += 1;
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

struct Loops<'a> {
    n: usize,
    want: usize,
    f: &'a mut dyn FnMut(&mut Block),
    done: bool,
}

impl VisitMut for Loops<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let b = match e {
            Expr::While(x) => Some(&mut x.body),
            Expr::Loop(x) => Some(&mut x.body),
            Expr::ForLoop(x) => Some(&mut x.body),
            _ => None,
        };
        if let Some(b) = b {
            if self.n == self.want {
                self.done = true;
                (self.f)(b);
            }
            self.n += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn in_loop(b: &mut Block, want: usize, f: &mut dyn FnMut(&mut Block)) -> bool {
    let mut l = Loops { n: 0, want, f, done: false };
    l.visit_block_mut(b);
    l.done
}

/// `%sigsub`: the signature handed to the verifier.
pub fn signature(s: syn::Signature, f: &FnSpec, lost: &mut Vec<String>) -> syn::Signature {
    if f.sigsubs.is_empty() {
        return s;
    }
    let mut v = trees(s.to_token_stream());
    for (p, r) in &f.sigsubs {
        let (Ok(pt), Ok(rt)) = (p.parse::<TokenStream>(), r.parse::<TokenStream>()) else {
            lost.push(format!("bad sigsub {p}"));
            continue;
        };
        let mut n = 0;
        v = sub(v, &trees(pt), &trees(rt), &mut n);
        if n == 0 {
            lost.push(format!("no match for: {p}"));
        }
    }
    match syn::parse2(v.into_iter().collect()) {
        Ok(s) => s,
        Err(e) => {
            lost.push(format!("signature: {e}"));
            s
        },
    }
}

/// `break e` of a loop that's a function's value is `return e`.
struct TailBreaks;

impl VisitMut for TailBreaks {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        let Expr::Break(b) = &*e else { return };
        if let (None, Some(x)) = (&b.label, &b.expr) {
            *e = parse_quote!(return #x);
        }
    }
}

/// `(a, b) = e` is `let (x, y) = e; a = x; b = y`.
struct TupleAssign;

impl VisitMut for TupleAssign {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Assign(a) = &*e else { return };
        let Expr::Tuple(t) = &*a.left else { return };
        if !t.elems.iter().all(|e| matches!(e, Expr::Path(_))) {
            return;
        }
        let to: Vec<&Expr> = t.elems.iter().collect();
        let via: Vec<syn::Ident> =
            (0..to.len()).map(|i| quote::format_ident!("vx_to_{i}")).collect();
        let from = &a.right;
        *e = parse_quote!({ let (#(#via,)*) = #from; #(#to = #via;)* });
    }
}

/// The body handed to the verifier.
pub fn body(
    b: &Block,
    f: &FnSpec,
    names: &mut Rename,
    hints: &mut Vec<String>,
    lost: &mut Vec<String>,
) -> Result<Block, String> {
    let mut b = b.clone();
    Attrs.visit_block_mut(&mut b);
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        TailBreaks.visit_block_mut(&mut l.body);
    }
    TupleAssign.visit_block_mut(&mut b);
    for name in &f.drop {
        let n = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Local(l)
            if matches!(&l.pat, Pat::Ident(i) if i.ident == name)
            && matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Closure(_)))));
        if b.stmts.len() + 1 != n {
            lost.push(format!("no closure {name}"));
        }
    }
    if !f.deref.is_empty() {
        Captured(&f.deref).visit_block_mut(&mut b);
    }
    if !f.subs.is_empty() {
        let mut v = trees(b.to_token_stream());
        for (p, r, optional) in &f.subs {
            let parse = |s: &str| -> Result<Vec<TokenTree>, String> {
                s.parse::<TokenStream>().map(trees).map_err(|e| format!("{s}: {e}"))
            };
            let (pt, rt) = (parse(p)?, parse(r)?);
            let mut n = 0;
            v = sub(v, &pt, &rt, &mut n);
            if n == 0 && !optional {
                lost.push(format!("no match for: {p}"));
            }
        }
        let ts: TokenStream = v.into_iter().collect();
        b = syn::parse2(ts.clone()).map_err(|e| format!("after %sub: {e}: {ts}"))?;
    }
    let mut m = Macros { err: None };
    m.visit_block_mut(&mut b);
    if let Some(e) = m.err {
        return Err(e);
    }
    if f.for_loops {
        ForLoops.visit_block_mut(&mut b);
    }
    Shape { f }.visit_block_mut(&mut b);
    names.visit_block_mut(&mut b);

    // loops first: `__vxl` has to stay the first statement of its block
    let mut loop_marks = vec![];
    for (n, text) in &f.loops {
        loop_marks.push((*n, text.clone()));
    }
    for (k, params, text) in &f.closures {
        let id = hints.len();
        hints.push(text.clone());
        let mut c = Closures { n: 0, want: *k, params, id, done: false };
        c.visit_block_mut(&mut b);
        if !c.done {
            lost.push(format!("no closure {k}"));
        }
    }
    for (p, text) in &f.hints {
        let id = hints.len();
        hints.push(text.clone());
        let ok = match p {
            Place::Start => {
                b.stmts.insert(0, mark(id));
                true
            },
            Place::End | Place::Exits => {
                if matches!(p, Place::Exits) {
                    Exits { id }.visit_block_mut(&mut b);
                }
                let last = b.stmts.len();
                if last > 0 {
                    Hints::bind_tail(&mut b, last - 1);
                }
                let at = match b.stmts.last() {
                    Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
                    _ => b.stmts.len(),
                };
                b.stmts.insert(at, mark(id));
                true
            },
            Place::LoopStart(n) => in_loop(&mut b, *n, &mut |b| b.stmts.insert(0, mark(id))),
            Place::LoopEnd(n) => in_loop(&mut b, *n, &mut |b| b.stmts.push(mark(id))),
            Place::Before(..) | Place::After(..) => {
                let mut h = Hints { place: p, id, seen: 0, done: false };
                h.visit_block_mut(&mut b);
                h.done
            },
        };
        if !ok {
            lost.push(format!("no place for a hint: {p:?}"));
        }
    }
    for (n, text) in loop_marks {
        let id = hints.len();
        hints.push(text);
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        let s: Stmt = parse_quote!(__vxl!(#lit););
        if !in_loop(&mut b, n, &mut |b| b.stmts.insert(0, s.clone())) {
            lost.push(format!("no loop {n}"));
        }
    }
    // a loop without a contract
    let mut total = 0;
    loop {
        if !in_loop(&mut b, total, &mut |_| {}) {
            break;
        }
        total += 1;
    }
    if total > f.loops.len() {
        lost.push(format!("{total} loops, {} with an invariant", f.loops.len()));
    }
    let _ = quote!();
    Ok(b)
}
