//! The contracts: `.vx` files, see /verif/DESIGN.md for the syntax.

use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub name: String,
    pub spec: String,
    pub ret: String,
    pub attrs: String,
    pub loops: Vec<(usize, String)>,
    /// (place, text)
    pub hints: Vec<(Place, String)>,
    /// (pattern, replacement, may be absent)
    pub subs: Vec<(String, String, bool)>,
    pub sigsubs: Vec<(String, String)>,
    pub option_map: bool,
    pub trusted: bool,
    /// The unit that proves it, when only its contract is used here.
    pub imported: Option<String>,
    /// Contract text that replaces the generics/where of the signature.
    pub props: Vec<String>,
    pub rename: Option<String>,
    /// The signature of a closure that is made a function.
    pub sig: Option<String>,
    /// Captured by the closure: `x` becomes `*x`.
    pub deref: Vec<String>,
    /// `let` statements of closures that are functions of their own.
    pub drop: Vec<String>,
    /// `for` becomes `loop` over `next()`.
    pub for_loops: bool,
    /// Contracts of closures: (which, parameters, text).
    pub closures: Vec<(usize, String, String)>,
}

#[derive(Debug, Clone)]
pub enum Place {
    Start,
    End,
    /// At the end and at each `return`.
    Exits,
    Before(usize, String),
    After(usize, String),
    LoopStart(usize),
    LoopEnd(usize),
}

#[derive(Debug, Clone)]
pub enum Entry {
    Raw(String),
    Item { file: String, kind: String, name: String, derive_add: Vec<String>, derive_del: Vec<String>, attrs: String, ghost: Vec<(String, String)> },
    Impl { file: String, head: String, header: Option<String>, ghost: String, fns: Vec<FnSpec> },
    Trait { file: String, name: String, header: Option<String>, ghost: String, fns: Vec<FnSpec> },
    Free { file: String, f: FnSpec },
    Alias { file: String, from: String, to: String },
}

#[derive(Debug, Default)]
pub struct Overlay {
    pub entries: Vec<Entry>,
    pub imports: Vec<String>,
}

enum Sink {
    None,
    Raw,
    Ghost,
    Spec,
    Loop,
    Hint,
    Closure,
}

pub fn load(path: &Path, o: &mut Overlay, seen: &mut Vec<String>, from: Option<&str>) {
    let text = std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{}: {e}", path.display()));
    let mut file = String::new();
    let mut sink = Sink::None;
    for (n, line) in text.lines().enumerate() {
        let bad = |m: &str| -> ! {
            panic!("{}:{}: {m}", path.display(), n + 1)
        };
        let t = line.trim_start();
        if !t.starts_with('%') {
            let out: &mut String = match (&sink, o.entries.last_mut()) {
                (Sink::Raw, Some(Entry::Raw(s))) => s,
                (Sink::Ghost, Some(Entry::Impl { ghost, .. }))
                | (Sink::Ghost, Some(Entry::Trait { ghost, .. })) => ghost,
                (s, Some(e)) if !matches!(s, Sink::None) => {
                    let f = match last_fn(e) {
                        Some(f) => f,
                        None => bad("text outside of a function"),
                    };
                    match s {
                        Sink::Spec => &mut f.spec,
                        Sink::Loop => &mut f.loops.last_mut().unwrap().1,
                        Sink::Closure => &mut f.closures.last_mut().unwrap().2,
                        _ => &mut f.hints.last_mut().unwrap().1,
                    }
                },
                _ => {
                    if t.is_empty() || t.starts_with("//") {
                        continue;
                    }
                    bad("text outside of any directive")
                },
            };
            out.push_str(line);
            out.push('\n');
            continue;
        }
        let (d, rest) = match t[1..].split_once(char::is_whitespace) {
            Some((d, r)) => (d, r.trim()),
            None => (&t[1..], ""),
        };
        let two = |r: &str| -> (String, String) {
            let (a, b) = r.split_once(char::is_whitespace).unwrap_or((r, ""));
            (a.to_string(), b.trim().to_string())
        };
        sink = Sink::None;
        match d {
            "use" => {
                let p = path.parent().unwrap().join(rest);
                let key = p.display().to_string();
                if !seen.contains(&key) {
                    seen.push(key);
                    load(&p, o, seen, from);
                }
            },
            "import" => {
                let p = path.parent().unwrap().join(rest);
                let key = p.display().to_string();
                let unit = rest.trim_end_matches(".vx").to_string();
                if !o.imports.contains(&unit) {
                    o.imports.push(unit.clone());
                }
                if !seen.contains(&key) {
                    seen.push(key);
                    load(&p, o, seen, Some(&unit));
                }
            },
            "raw" => {
                o.entries.push(Entry::Raw(String::new()));
                sink = Sink::Raw;
            },
            // A contract that another unit assumes, as it's written there, for
            // `api_NAME`, whose body is what follows.
            "contract" => {
                let (unit, name) = two(rest);
                let text = contract(&path.parent().unwrap().join(&unit), &name);
                let Some(Entry::Raw(s)) = o.entries.last_mut() else { bad("%contract outside of %raw") };
                s.push_str(&text);
                sink = Sink::Raw;
            },
            "file" => file = rest.to_string(),
            "alias" => {
                let (from, to) = two(rest);
                o.entries.push(Entry::Alias { file: file.clone(), from, to });
            },
            "item" => {
                let mut w = rest.split_whitespace();
                let kind = w.next().unwrap().to_string();
                let name = w.next().unwrap().to_string();
                let (mut add, mut del) = (vec![], vec![]);
                let mut attrs = String::new();
                let mut ghost = vec![];
                for x in w {
                    if let Some((n, t)) = x.strip_prefix("ghost:").and_then(|x| x.split_once(':')) {
                        ghost.push((n.to_string(), t.to_string()));
                    } else if let Some(x) = x.strip_prefix('+') {
                        add.push(x.to_string());
                    } else if let Some(x) = x.strip_prefix('-') {
                        del.push(x.to_string());
                    } else {
                        attrs.push_str(x);
                    }
                }
                o.entries.push(Entry::Item {
                    file: file.clone(),
                    kind,
                    name,
                    derive_add: add,
                    derive_del: del,
                    attrs,
                    ghost,
                });
            },
            "impl" => o.entries.push(Entry::Impl {
                file: file.clone(),
                head: rest.to_string(),
                header: None,
                ghost: String::new(),
                fns: vec![],
            }),
            "trait" => o.entries.push(Entry::Trait {
                file: file.clone(),
                name: rest.to_string(),
                header: None,
                ghost: String::new(),
                fns: vec![],
            }),
            "header" => match o.entries.last_mut() {
                Some(Entry::Impl { header, .. })
                | Some(Entry::Trait { header, .. }) => {
                    *header = Some(rest.to_string())
                },
                _ => bad("header"),
            },
            "ghost" => sink = Sink::Ghost,
            "fn" => {
                let f = FnSpec {
                    name: rest.to_string(),
                    ret: "r".into(),
                    imported: from.map(str::to_string),
                    ..Default::default()
                };
                match o.entries.last_mut() {
                    Some(Entry::Impl { fns, .. })
                    | Some(Entry::Trait { fns, .. }) => fns.push(f),
                    _ => bad("%fn outside of an impl"),
                }
                sink = Sink::Spec;
            },
            "free" => {
                o.entries.push(Entry::Free {
                    file: file.clone(),
                    f: FnSpec {
                        name: rest.to_string(),
                        ret: "r".into(),
                    imported: from.map(str::to_string),
                        ..Default::default()
                    },
                });
                sink = Sink::Spec;
            },
            _ => {
                let f = match o.entries.last_mut().and_then(last_fn) {
                    Some(f) => f,
                    None => bad("no function"),
                };
                match d {
                    "ret" => {
                        f.ret = rest.to_string();
                        sink = Sink::Spec;
                    },
                    "attr" => {
                        f.attrs.push_str(rest);
                        f.attrs.push('\n');
                        sink = Sink::Spec;
                    },
                    "spec" => sink = Sink::Spec,
                    // The contract another unit assumes of it, as it's
                    // written there.
                    "like" => {
                        let text = like(&path.parent().unwrap().join(rest), &f.name);
                        f.spec.push_str(&text);
                        sink = Sink::Spec;
                    },
                    "rename" => {
                        f.rename = Some(rest.to_string());
                        sink = Sink::Spec;
                    },
                    "sig" => {
                        f.sig = Some(rest.to_string());
                        sink = Sink::Spec;
                    },
                    "deref" => {
                        f.deref.extend(rest.split_whitespace().map(str::to_string));
                        sink = Sink::Spec;
                    },
                    "drop" => {
                        f.drop.extend(rest.split_whitespace().map(str::to_string));
                        sink = Sink::Spec;
                    },
                    "forloops" => {
                        f.for_loops = true;
                        sink = Sink::Spec;
                    },
                    "optionmap" => {
                        f.option_map = true;
                        sink = Sink::Spec;
                    },
                    "trusted" => {
                        f.trusted = true;
                        sink = Sink::Spec;
                    },
                    "loop" => {
                        f.loops
                            .push((rest.parse().unwrap(), String::new()));
                        sink = Sink::Loop;
                    },
                    "closure" => {
                        let (k, ps) = match rest.split_once(char::is_whitespace) {
                            Some((k, p)) => (k, p),
                            None => (rest, ""),
                        };
                        f.closures.push((k.parse().unwrap(), ps.trim().to_string(), String::new()));
                        sink = Sink::Closure;
                    },
                    "at" => {
                        let (a, b) = two(rest);
                        let p = match a.as_str() {
                            "start" => Place::Start,
                            "end" => Place::End,
                            "exits" => Place::Exits,
                            "loopstart" => Place::LoopStart(b.parse().unwrap()),
                            "loopend" => Place::LoopEnd(b.parse().unwrap()),
                            _ => bad("place"),
                        };
                        f.hints.push((p, String::new()));
                        sink = Sink::Hint;
                    },
                    "before" | "after" => {
                        let (k, pat) = match rest.split_once(char::is_whitespace) {
                            Some((k, p)) if k.parse::<usize>().is_ok() => {
                                (k.parse().unwrap(), p.to_string())
                            },
                            _ => (0, rest.to_string()),
                        };
                        f.hints.push((
                            if d == "before" {
                                Place::Before(k, pat)
                            } else {
                                Place::After(k, pat)
                            },
                            String::new(),
                        ));
                        sink = Sink::Hint;
                    },
                    "sub" | "sub?" | "sigsub" => {
                        let Some((a, b)) = rest.split_once("=>>") else {
                            bad("sub needs =>>")
                        };
                        let (a, b) = (a.trim().to_string(), b.trim().to_string());
                        if d == "sigsub" {
                            f.sigsubs.push((a, b));
                        } else {
                            f.subs.push((a, b, d == "sub?"));
                        }
                        sink = Sink::Spec;
                    },
                    _ => bad("unknown directive"),
                }
            },
        }
    }
}

fn last_fn(e: &mut Entry) -> Option<&mut FnSpec> {
    match e {
        Entry::Impl { fns, .. } | Entry::Trait { fns, .. } => fns.last_mut(),
        Entry::Free { f, .. } => Some(f),
        _ => None,
    }
}

/// The contract of a function in another file.
fn like(path: &Path, name: &str) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{}: {e}", path.display());
        std::process::exit(2)
    });
    let mut out = String::new();
    let mut on = false;
    for line in text.lines() {
        match line.trim().strip_prefix('%') {
            Some("trusted") if on => {},
            Some(d) => {
                if on {
                    break;
                }
                on = d.strip_prefix("fn ").is_some_and(|n| n.trim() == name);
            },
            None if on => {
                out.push_str(line);
                out.push('\n');
            },
            None => {},
        }
    }
    if !on && out.is_empty() {
        eprintln!("{}: no contract of {name}", path.display());
        std::process::exit(2)
    }
    out
}

/// The assumed contract of a function, named `api_` what it's named there, of
/// types that have an arity.
fn contract(path: &Path, name: &str) -> String {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{}: {e}", path.display());
        std::process::exit(2)
    });
    let (name, nth) = match name.split_once(' ') {
        Some((n, k)) => (n, k.trim().parse().unwrap()),
        None => (name, 0usize),
    };
    let heads =
        [format!("pub fn {name}("), format!("pub fn {name}<"), format!("pub proof fn {name}(")];
    let mut out = String::new();
    let (mut on, mut at) = (false, 0);
    for line in text.lines() {
        let t = line.trim();
        if !on && heads.iter().any(|h| t.starts_with(h.as_str())) {
            on = at == nth;
            at += 1;
        }
        if on && (t == "{ unimplemented!() }" || t == "{}") {
            return out
                .replacen(&format!("fn {name}"), &format!("fn api_{name}"), 1)
                .replace("Gtree<L>", "Gtree<ARITY, L>")
                .replace("Leaves<'a, L>", "Leaves<'a, ARITY, L>")
                .replace("Siblings<'a, L>", "Siblings<'a, ARITY, L>");
        }
        if on {
            out.push_str(line);
            out.push('\n');
        }
    }
    eprintln!("{}: no contract of {name}", path.display());
    std::process::exit(2)
}
