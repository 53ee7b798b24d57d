//! Reads the crate's files and finds items in them, whatever module they are
//! in.  `#[cfg]`s are evaluated for: features `encode` and `serde` on, x86_64,
//! not test, no verification hooks.

use std::collections::BTreeMap;
use std::path::Path;

use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use syn::{Attribute, Item, Meta};

pub struct Source {
    pub files: BTreeMap<String, Vec<Item>>,
    /// per file: alias -> name
    pub aliases: BTreeMap<String, BTreeMap<String, String>>,
}

pub fn cfg_on(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        match &a.meta {
            Meta::List(l) => match syn::parse2::<Meta>(l.tokens.clone()) {
                Ok(m) => eval(&m),
                Err(_) => true,
            },
            _ => true,
        }
    })
}

fn eval(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            let s = p.to_token_stream().to_string();
            !matches!(s.as_str(), "test" | "cola_verif" | "cola_verif_small" | "docsrs" | "fuzzing" | "feature")
        },
        Meta::NameValue(nv) => {
            let k = nv.path.to_token_stream().to_string();
            let v = nv.value.to_token_stream().to_string();
            match k.as_str() {
                "target_arch" => v == "\"x86_64\"",
                "feature" => v == "\"encode\"" || v == "\"serde\"",
                _ => true,
            }
        },
        Meta::List(l) => {
            let k = l.path.to_token_stream().to_string();
            let inner: Vec<Meta> = l
                .parse_args_with(
                    syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated,
                )
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            match k.as_str() {
                "not" => !inner.iter().all(eval),
                "any" => inner.iter().any(eval),
                _ => inner.iter().all(eval),
            }
        },
    }
}

fn attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

type Macros = BTreeMap<String, (Vec<String>, TokenStream)>;

fn flatten(items: Vec<Item>, out: &mut Vec<Item>, macros: &mut Macros, al: &mut BTreeMap<String, String>) {
    for i in items {
        if !cfg_on(attrs(&i)) {
            continue;
        }
        match i {
            Item::Mod(m) => {
                if let Some((_, inner)) = m.content {
                    let n = m.ident.to_string();
                    if n != "serde" && n != "debug" && n != "tests" && n != "verif" {
                        flatten(inner, out, macros, al);
                    }
                }
            },
            Item::Use(u) => use_aliases(&u.tree, al),
            Item::Macro(m) => {
                if m.mac.path.is_ident("macro_rules") {
                    if let (Some(id), Some(d)) = (&m.ident, macro_def(m.mac.tokens.clone())) {
                        macros.insert(id.to_string(), d);
                    }
                } else if let Some((params, body)) =
                    m.mac.path.get_ident().and_then(|i| macros.get(&i.to_string()))
                {
                    let args = split_commas(m.mac.tokens.clone());
                    if args.len() == params.len() {
                        let map: BTreeMap<_, _> =
                            params.iter().cloned().zip(args).collect();
                        let ts = substitute(body.clone(), &map);
                        if let Ok(f) = syn::parse2::<syn::File>(ts) {
                            flatten(f.items, out, macros, al);
                        }
                    }
                }
            },
            i => out.push(i),
        }
    }
}

fn use_aliases(t: &syn::UseTree, al: &mut BTreeMap<String, String>) {
    match t {
        syn::UseTree::Path(p) => use_aliases(&p.tree, al),
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| use_aliases(t, al)),
        syn::UseTree::Rename(r) => {
            if r.rename != "_" {
                al.insert(r.rename.to_string(), r.ident.to_string());
            }
        },
        _ => {},
    }
}

/// A macro with one arm `($a:ty, $b:expr) => { body }`.
fn macro_def(ts: TokenStream) -> Option<(Vec<String>, TokenStream)> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let TokenTree::Group(head) = t.first()? else { return None };
    let TokenTree::Group(body) = t.get(3)? else { return None };
    let h: Vec<TokenTree> = head.stream().into_iter().collect();
    let mut names = vec![];
    let mut i = 0;
    while i < h.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&h[i], h.get(i + 1)) {
            if p.as_char() == '$' {
                names.push(n.to_string());
                i += 4;
                if let Some(TokenTree::Punct(p)) = h.get(i) {
                    if p.as_char() == ',' {
                        i += 1;
                    }
                }
                continue;
            }
        }
        return None;
    }
    Some((names, body.stream()))
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![TokenStream::new()];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => out.push(TokenStream::new()),
            _ => out.last_mut().unwrap().extend([t]),
        }
    }
    if out.last().unwrap().is_empty() {
        out.pop();
    }
    out
}

fn substitute(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = it.peek() {
                    if let Some(r) = map.get(&n.to_string()) {
                        out.extend(r.clone());
                        it.next();
                        continue;
                    }
                }
                out.extend([TokenTree::Punct(p)]);
            },
            TokenTree::Group(g) => {
                let n = Group::new(g.delimiter(), substitute(g.stream(), map));
                out.extend([TokenTree::Group(n)]);
            },
            t => out.extend([t]),
        }
    }
    out
}

impl Source {
    pub fn load(dir: &Path) -> Result<Self, String> {
        let mut s = Source { files: BTreeMap::new(), aliases: BTreeMap::new() };
        let mut paths = vec![];
        fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    out.push(p);
                }
            }
        }
        walk(dir, &mut paths);
        paths.sort();
        for p in paths {
            let name = p.strip_prefix(dir).unwrap().display().to_string();
            let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
            let f = syn::parse_file(&text).map_err(|e| format!("{name}: {e}"))?;
            let mut out = vec![];
            let mut al = BTreeMap::new();
            flatten(f.items, &mut out, &mut BTreeMap::new(), &mut al);
            s.files.insert(name.clone(), out);
            s.aliases.insert(name, al);
        }
        Ok(s)
    }
}
