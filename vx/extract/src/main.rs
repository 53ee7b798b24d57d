//! Joins functions of /repo/src with the contracts of the `.vx` files.
//!
//!   vx-extract <src dir> <unit.vx> <out.rs> <map.json> [degraded fn keys...]
mod overlay;
mod print;
mod rewrite;
mod source;

use std::collections::BTreeMap;
use std::path::Path;

use overlay::*;
use print::Printer;
use quote::{quote, ToTokens};
use serde_json::json;
use source::{cfg_on, Source};
use syn::visit_mut::VisitMut;
use syn::{ImplItem, Item, Signature, TraitItem};

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// `Encode for Text`, `Text`, `BaseMap<T>`
fn head(i: &syn::ItemImpl) -> String {
    let t = i.self_ty.to_token_stream().to_string();
    match &i.trait_ {
        Some((_, p, _)) => {
            squeeze(&format!("{}for{}", p.to_token_stream(), t))
        },
        None => squeeze(&t),
    }
}

struct Gen<'a> {
    src: &'a Source,
    aliases: BTreeMap<String, BTreeMap<String, String>>,
    out: String,
    funcs: Vec<serde_json::Value>,
    missing: Vec<String>,
    degraded: Vec<String>,
}

impl Gen<'_> {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn push(&mut self, s: &str) {
        self.out.push_str(s);
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
    }

    fn renamer(&self, file: &str) -> rewrite::Rename {
        rewrite::Rename(self.aliases.get(file).cloned().unwrap_or_default())
    }

    /// The text of a token stream without hints.
    fn text(&self, t: impl ToTokens) -> String {
        let mut p = Printer::new(&[]);
        p.print(t.to_token_stream());
        p.out
    }

    fn item(&mut self, file: &str, kind: &str, name: &str, add: &[String], del: &[String], attrs: &str, ghost: &[(String, String)]) {
        let items = match self.src.files.get(file) {
            Some(f) => f,
            None => {
                self.missing.push(format!("{file}"));
                return;
            },
        };
        // `f/Name`: an item in the body of `f`
        let (outer, name) = match name.split_once('/') {
            Some((o, n)) => (Some(o), n),
            None => (None, name),
        };
        let is = |i: &Item| match (kind, i) {
            ("struct", Item::Struct(x)) => x.ident == name,
            ("enum", Item::Enum(x)) => x.ident == name,
            ("const", Item::Const(x)) => x.ident == name,
            ("type", Item::Type(x)) => x.ident == name,
            _ => false,
        };
        let inner = |b: &syn::Block| {
            b.stmts.iter().find_map(|s| match s {
                syn::Stmt::Item(i) if is(i) => Some(i.clone()),
                _ => None,
            })
        };
        let found = items.iter().find(|i| is(i)).cloned().or_else(|| {
            let outer = outer?;
            items.iter().find_map(|i| match i {
                Item::Fn(x) if x.sig.ident == outer => inner(&x.block),
                Item::Impl(x) => x.items.iter().find_map(|i| match i {
                    ImplItem::Fn(x) if x.sig.ident == outer => inner(&x.block),
                    _ => None,
                }),
                _ => None,
            })
        });
        let Some(found) = found else {
            self.missing.push(format!("{file}::{name}"));
            return;
        };
        let mut i = found;
        let mut derives: Vec<String> = vec![];
        let keep = |attrs: &mut Vec<syn::Attribute>, derives: &mut Vec<String>| {
            for a in attrs.iter() {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|m| {
                        let n = m.path.to_token_stream().to_string();
                        if ["Clone", "Copy", "PartialEq", "Eq"].contains(&n.as_str()) {
                            derives.push(n);
                        }
                        Ok(())
                    });
                }
            }
            attrs.clear();
        };
        match &mut i {
            Item::Struct(x) => {
                keep(&mut x.attrs, &mut derives);
                x.vis = syn::parse_quote!(pub);
                for f in x.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                }
                if let syn::Fields::Named(n) = &mut x.fields {
                    for (name, t) in ghost {
                        let name = syn::Ident::new(name, proc_macro2::Span::call_site());
                        let t: syn::Type = syn::parse_str(t).unwrap();
                        n.named.push(syn::parse_quote!(pub #name: #t));
                    }
                }
            },
            Item::Enum(x) => {
                keep(&mut x.attrs, &mut derives);
                x.vis = syn::parse_quote!(pub);
                for v in x.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
            },
            Item::Const(x) => {
                x.attrs.clear();
                // sizes of types the unit has checked otherwise
                if let Some((from, to)) = attrs.strip_prefix('=').and_then(|a| a.split_once('=')) {
                    let e = x.expr.to_token_stream().to_string().replace(' ', "");
                    if e.ends_with(from) {
                        x.expr = Box::new(syn::parse_str(to).unwrap());
                    }
                }
                x.vis = syn::parse_quote!(pub);
            },
            Item::Type(x) => {
                x.attrs.clear();
                x.vis = syn::parse_quote!(pub);
            },
            _ => {},
        }
        self.renamer(file).visit_item_mut(&mut i);
        for d in del {
            // contracts assume what the derived implementation does
            if !derives.contains(d) {
                self.push(&format!("compile_error!(\"{name} does not derive {d} any more\");"));
            }
        }
        derives.retain(|d| !del.contains(d));
        derives.extend(add.iter().cloned());
        if !attrs.is_empty() && !attrs.starts_with('=') {
            self.push(attrs);
        }
        if !derives.is_empty() {
            let d = derives.join(", ");
            self.push(&format!("#[derive({d})]"));
        }
        let t = self.text(i);
        self.push(&t);
    }

    fn function(
        &mut self,
        key: String,
        file: &str,
        sig: &Signature,
        block: Option<&syn::Block>,
        f: &FnSpec,
        public: bool,
    ) {
        let mut lost: Vec<String> = vec![];
        let mut sig = rewrite::signature(sig.clone(), f, &mut lost);
        self.renamer(file).visit_signature_mut(&mut sig);
        for a in sig.inputs.iter_mut() {
            match a {
                syn::FnArg::Receiver(r) => r.attrs.clear(),
                syn::FnArg::Typed(t) => t.attrs.clear(),
            }
        }
        let start = self.line();
        let degraded = self.degraded.contains(&key);
        let trusted = f.trusted || f.imported.is_some();
        let original = block.map(|b| b.to_token_stream().to_string()).unwrap_or_default();
        if !f.attrs.is_empty() {
            self.push(&f.attrs);
        }
        if block.is_none() {
        } else if let Some(u) = f.imported.as_ref().filter(|_| !f.trusted) {
            self.push(&format!("#[verifier::external_body] /* proved in {u} */"));
        } else if degraded || trusted {
            self.push("#[verifier::external_body]");
        }
        // the signature, with a named result
        let ret = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some(t.clone()),
        };
        sig.output = syn::ReturnType::Default;
        sig.constness = None;
        if let Some(n) = &f.rename {
            sig.ident = syn::Ident::new(n, proc_macro2::Span::call_site());
        }
        let wher = sig.generics.where_clause.take();
        let mut text = String::new();
        if public {
            text.push_str("pub ");
        }
        text.push_str(self.text(&sig).trim_end());
        if let Some(t) = ret {
            if let syn::Type::Never(_) = &*t {
                text.push_str(" -> !");
            } else {
                text.push_str(&format!(" -> ({}: {})", f.ret, self.text(&t).trim()));
            }
        }
        if let Some(w) = wher {
            text.push('\n');
            text.push_str(&self.text(w));
        }
        text.push('\n');
        text.push_str(&f.spec);
        match block {
            None => text.push_str(";\n"),
            Some(_) if degraded || trusted => {
                text.push_str("{ unimplemented!() }\n");
            },
            Some(b) => {
                let mut hints = vec![];
                match rewrite::body(b, f, &mut self.renamer(file), &mut hints, &mut lost) {
                    Ok(b) => {
                        let mut p = Printer::new(&hints);
                        p.print(quote!(#b));
                        text.push_str(&p.out);
                    },
                    Err(e) => {
                        lost.push(e);
                        text.push_str("{ unimplemented!() }\n");
                        self.push("#[verifier::external_body]");
                    },
                }
            },
        }
        self.push(&text);
        self.push("");
        let end = self.line();
        self.funcs.push(json!({
            "key": key, "start": start, "end": end, "lost": lost,
            "degraded": degraded, "trusted": trusted, "imported": f.imported, "spec": !f.spec.trim().is_empty(),
            "body": block.is_some(), "source": original,
        }));
    }

    fn run(&mut self, o: &Overlay) {
        for e in &o.entries {
            match e {
                Entry::Alias { .. } => {},
                Entry::Raw(s) => self.push(s),
                Entry::Item { file, kind, name, derive_add, derive_del, attrs, ghost } => {
                    self.item(file, kind, name, derive_add, derive_del, attrs, ghost)
                },
                Entry::Free { file, f } if f.name.contains('/') => {
                    let (outer, inner) = f.name.split_once('/').unwrap();
                    let src = self.src;
                    let blocks = src.files.get(file).into_iter().flatten().flat_map(|i| match i {
                        Item::Fn(x) if x.sig.ident == outer => vec![&*x.block],
                        Item::Impl(x) => x
                            .items
                            .iter()
                            .filter_map(|i| match i {
                                ImplItem::Fn(x) if x.sig.ident == outer => Some(&x.block),
                                _ => None,
                            })
                            .collect(),
                        _ => vec![],
                    });
                    let found = blocks.flat_map(|b| &b.stmts).find_map(|s| match s {
                        syn::Stmt::Item(Item::Fn(x)) if x.sig.ident == inner => Some(x),
                        _ => None,
                    });
                    let Some(x) = found else {
                        self.missing.push(format!("{file}::{}", f.name));
                        continue;
                    };
                    self.function(
                        format!("{file}::{}", f.name),
                        file,
                        &x.sig,
                        Some(&x.block),
                        f,
                        true,
                    );
                },
                Entry::Free { file, f } => {
                    let Some(i) = self.src.files.get(file).and_then(|v| {
                        v.iter().find_map(|i| match i {
                            Item::Fn(x) if x.sig.ident == f.name => Some(x),
                            _ => None,
                        })
                    }) else {
                        self.missing.push(format!("{file}::{}", f.name));
                        continue;
                    };
                    self.function(
                        format!("{file}::{}", f.name),
                        file,
                        &i.sig,
                        Some(&i.block),
                        f,
                        true,
                    );
                },
                Entry::Trait { file, name, header, ghost, fns } => {
                    let Some(t) = self.src.files.get(file).and_then(|v| {
                        v.iter().find_map(|i| match i {
                            Item::Trait(x) if x.ident == name => Some(x),
                            _ => None,
                        })
                    }) else {
                        self.missing.push(format!("{file}::{name}"));
                        continue;
                    };
                    let mut h = t.clone();
                    h.attrs.clear();
                    h.items.clear();
                    h.vis = syn::parse_quote!(pub);
                    let mut text = self.text(&h);
                    if let Some(x) = header {
                        text = format!("{x} {{\n}}");
                    }
                    let cut = text.rfind('{').unwrap() + 1;
                    self.push(&text[..cut]);
                    self.push(ghost);
                    for i in &t.items {
                        match i {
                            TraitItem::Type(x) => {
                                let mut x = x.clone();
                                x.attrs.clear();
                                // bounds that only matter for error messages
                                x.bounds = x
                                    .bounds
                                    .into_iter()
                                    .filter(|b| {
                                        let b = b.to_token_stream().to_string();
                                        b != "Display" && b != "Debug"
                                    })
                                    .collect();
                                if x.bounds.is_empty() {
                                    x.colon_token = None;
                                }
                                let s = self.text(x);
                                self.push(&s);
                            },
                            TraitItem::Fn(x) => {
                                let Some(f) = fns.iter().find(|f| x.sig.ident == f.name) else {
                                    continue;
                                };
                                self.function(
                                    format!("{file}::{name}::{}", f.name),
                                    file,
                                    &x.sig,
                                    x.default.as_ref(),
                                    f,
                                    false,
                                );
                            },
                            _ => {},
                        }
                    }
                    self.push("}");
                },
                Entry::Impl { file, head: hd, header, ghost, fns } => {
                    let want = squeeze(hd);
                    let src = self.src;
                    let impls: Vec<&syn::ItemImpl> = src
                        .files
                        .get(file)
                        .into_iter()
                        .flatten()
                        .filter_map(|i| match i {
                            Item::Impl(x) if head(x) == want && cfg_on(&x.attrs) => Some(x),
                            _ => None,
                        })
                        .collect();
                    if impls.is_empty() {
                        self.missing.push(format!("{file}::{hd}"));
                        continue;
                    }
                    let mut h = impls[0].clone();
                    h.attrs.clear();
                    h.items.clear();
                    self.renamer(file).visit_item_impl_mut(&mut h);
                    let is_trait = match header {
                        Some(x) => x.contains(" for "),
                        None => h.trait_.is_some(),
                    };
                    let mut text = self.text(&h);
                    if let Some(x) = header {
                        text = format!("{x} {{\n}}");
                    }
                    let cut = text.rfind('{').unwrap() + 1;
                    self.push(&text[..cut]);
                    self.push(ghost);
                    if is_trait {
                        for i in &impls[0].items {
                            if let ImplItem::Type(x) = i {
                                let mut x = x.clone();
                                x.attrs.clear();
                                self.renamer(file).visit_type_mut(&mut x.ty);
                                let s = self.text(x);
                                self.push(&s);
                            }
                        }
                    }
                    for f in fns {
                        if let Some((outer, inner)) = f.name.split_once('/') {
                            let body = impls.iter().flat_map(|i| &i.items).find_map(|i| match i {
                                ImplItem::Fn(x) if x.sig.ident == outer && cfg_on(&x.attrs) => {
                                    rewrite::closure(&x.block, inner)
                                },
                                _ => None,
                            });
                            let sig = f.sig.as_ref().and_then(|s| syn::parse_str::<Signature>(s).ok());
                            let (Some(body), Some(sig)) = (body, sig) else {
                                self.missing.push(format!("{file}::{hd}::{}", f.name));
                                continue;
                            };
                            self.function(
                                format!("{file}::{hd}::{}", f.name),
                                file,
                                &sig,
                                Some(&body),
                                f,
                                !is_trait,
                            );
                            continue;
                        }
                        let Some(x) = impls.iter().flat_map(|i| &i.items).find_map(|i| match i {
                            ImplItem::Fn(x) if x.sig.ident == f.name && cfg_on(&x.attrs) => Some(x),
                            _ => None,
                        }) else {
                            self.missing.push(format!("{file}::{hd}::{}", f.name));
                            continue;
                        };
                        self.function(
                            format!("{file}::{hd}::{}", f.name),
                            file,
                            &x.sig,
                            Some(&x.block),
                            f,
                            !is_trait,
                        );
                    }
                    self.push("}");
                },
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = match Source::load(Path::new(&a[1])) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read the source: {e}");
            std::process::exit(3);
        },
    };
    let mut o = Overlay::default();
    overlay::load(Path::new(&a[2]), &mut o, &mut vec![], None);
    let mut aliases = src.aliases.clone();
    for e in &o.entries {
        if let Entry::Alias { file, from, to } = e {
            aliases.entry(file.clone()).or_default().insert(from.clone(), to.clone());
        }
    }
    let mut g = Gen {
        src: &src,
        aliases,
        out: String::new(),
        funcs: vec![],
        missing: vec![],
        degraded: a[5..].to_vec(),
    };
    g.push("// Generated from /repo/src and the contracts in /verif/vx; do not edit.");
    g.push("#![allow(unused, dead_code, non_snake_case)]\nuse vstd::prelude::*;\nverus! {");
    g.run(&o);
    g.push("} // verus!\nfn main() {}");
    std::fs::write(&a[3], &g.out).unwrap();
    let m = json!({"functions": g.funcs, "missing": g.missing, "imports": o.imports});
    std::fs::write(&a[4], serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
