//! The spec file: a sequence of `@directive args` lines, each followed by a body.
use crate::{subst_word, R};

#[derive(Clone, Debug, Default)]
pub struct TypeSpec {
    pub file: String,
    pub name: String,
    pub rename: Option<String>,
    pub default: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub sig: String,
    pub header: String, // wrapper such as `impl Foo` put around the function
    pub attrs: String,
    pub requires: String,
    pub ensures: String,
    pub extra_params: usize,
    pub loops: Vec<(usize, String)>,       // loop clauses by ordinal
    pub ghosts: Vec<(String, String)>,     // position key -> text
    pub rewrites: Vec<(String, String)>,   // token text => token text
    pub drops: Vec<String>,                // statements to drop (token text contained)
    pub lets: Vec<(String, String)>,
    pub expect_loops: Option<usize>,
    pub lift: Vec<(String, String)>,       // closure variable -> call expression prefix
    pub decreases: String,
    pub math: bool,
}

impl FnSpec {
    pub fn rename_all(&mut self, from: &str, to: &str) {
        let s = |t: &mut String| *t = subst_word(t, from, to);
        s(&mut self.sig);
        s(&mut self.requires);
        s(&mut self.ensures);
        s(&mut self.decreases);
        for (_, t) in self.loops.iter_mut() {
            s(t);
        }
        for (_, t) in self.ghosts.iter_mut() {
            s(t);
        }
        for (_, t) in self.rewrites.iter_mut() {
            s(t);
        }
    }
    pub fn gen_name(&self) -> String {
        let s = self.sig.trim();
        let i = s.find("fn ").map(|i| i + 3).unwrap_or(0);
        s[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
    }
}

pub enum Item {
    Raw(String),
    Type(TypeSpec),
    Fn(FnSpec),
    Impl { file: String, what: String, fns: Vec<String> },
}

#[derive(Default)]
pub struct Unit {
    pub name: String,
    pub preludes: Vec<String>,
    pub effects: Vec<String>,
    pub raii: Vec<(String, String)>, // guard-returning call (last path segment) => what drops it
    pub typemap: Vec<(String, String)>, // "a::B" => "C"
    pub modules: Vec<String>,
    pub items: Vec<Item>,
}

pub fn parse(text: &str) -> R<Unit> {
    let mut u = Unit {
        modules: "backend backup blob chunk concurrently config counters diff file_util filter fs_tree hashing index ls pack prettify progress rcu read repack semaphored snapshot tree upload ui fs io cache memory std mem atomic crate super self"
            .split(' ')
            .map(String::from)
            .collect(),
        ..Default::default()
    };
    // split into directives
    let mut dirs: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            dirs.push((d.to_string(), String::new()));
        } else if line.trim_start().starts_with("#!") {
            // spec comment
        } else if let Some(l) = dirs.last_mut() {
            l.1.push_str(line);
            l.1.push('\n');
        }
    }
    for (d, body) in dirs {
        let (key, args) = d.split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((d.trim(), ""));
        let full = |b: &str| if args.is_empty() { b.trim().to_string() } else { format!("{args}\n{}", b.trim_end()) };
        match key {
            "unit" => u.name = args.to_string(),
            "prelude" => u.preludes.extend(args.split_whitespace().map(String::from)),
            "effect" => u.effects.extend(args.split_whitespace().map(String::from)),
            "raii" => { let v: Vec<&str> = args.split_whitespace().collect(); u.raii.push((v[0].to_string(), v[1].to_string())); }
            "typemap" => {
                for l in full(&body).lines() {
                    if let Some((a, b)) = l.split_once("=>") {
                        u.typemap.push((a.trim().replace(' ', ""), b.trim().to_string()));
                    }
                }
            }
            "impl" => {
                let (file, rest) = args.split_once(' ').ok_or("impl: file")?;
                let (what, fns) = rest.rsplit_once(':').ok_or("impl: functions")?;
                u.items.push(Item::Impl { file: file.into(), what: what.trim().into(), fns: fns.split_whitespace().map(String::from).collect() });
            }
            "raw" => u.items.push(Item::Raw(body)),
            "type" => {
                let mut t = args.split_whitespace();
                let mut ts = TypeSpec {
                    file: t.next().ok_or("type: file")?.into(),
                    name: t.next().ok_or("type: name")?.into(),
                    ..Default::default()
                };
                for o in t {
                    if let Some(x) = o.strip_prefix("as=") {
                        ts.rename = Some(x.into());
                    }
                }
                for l in body.lines() {
                    if let Some(x) = l.trim().strip_prefix("default:") {
                        ts.default = Some(x.trim().into());
                    }
                }
                u.items.push(Item::Type(ts));
            }
            "fn" => {
                let (file, path) = args.split_once(' ').ok_or("fn: file path")?;
                u.items.push(Item::Fn(FnSpec { file: file.into(), path: path.trim().into(), ..Default::default() }));
            }
            _ => {
                let f = match u.items.last_mut() {
                    Some(Item::Fn(f)) => f,
                    _ => return Err(format!("directive @{d} outside @fn")),
                };
                match key {
                    "math" => f.math = true,
                    "sig" => f.sig = full(&body).trim().to_string(),
                    "in" => f.header = full(&body).trim().to_string(),
                    "attrs" => f.attrs = full(&body).trim().to_string(),
                    "requires" => f.requires = full(&body),
                    "ensures" => f.ensures = full(&body),
                    "decreases" => f.decreases = full(&body),
                    "extra" => f.extra_params = args.parse().map_err(|_| "extra")?,
                    "loops" => f.expect_loops = Some(args.parse().map_err(|_| "loops")?),
                    "loop" => f.loops.push((args.parse().map_err(|_| format!("loop {args}"))?, body)),
                    "ghost" => f.ghosts.push((args.to_string(), body)),
                    "rewrite" => {
                        for l in full(&body).split("\n;;") {
                            let (a, b) = l.split_once("=>>").ok_or("rewrite")?;
                            f.rewrites.push((a.trim().into(), b.trim().into()));
                        }
                    }
                    "drop" => f.drops.push(full(&body).trim().to_string()),
                    "let" => {
                        let (a, b) = args.split_once('=').ok_or("let")?;
                        f.lets.push((a.trim().into(), b.trim().into()));
                    }
                    "lift" => {
                        let (a, b) = args.split_once("=>").ok_or("lift")?;
                        f.lift.push((a.trim().into(), b.trim().into()));
                    }
                    _ => return Err(format!("unknown directive @{d}")),
                }
            }
        }
    }
    Ok(u)
}

/// Parameter names of a Verus signature text (splits on top-level commas).
pub fn sig_params(sig: &str) -> R<Vec<String>> {
    // skip generics: find the parenthesis after the fn name
    let i = sig.find("fn ").ok_or("sig: no fn")? + 3;
    let b: Vec<char> = sig[i..].chars().collect();
    let mut k = 0;
    let mut depth = 0i32;
    while k < b.len() {
        match b[k] {
            '<' => depth += 1,
            '>' if k > 0 && b[k - 1] != '-' => depth -= 1,
            '(' if depth == 0 => break,
            _ => {}
        }
        k += 1;
    }
    let mut parts = vec![String::new()];
    let mut d = 0i32;
    k += 1;
    while k < b.len() {
        let c = b[k];
        match c {
            '(' | '[' | '<' | '{' => d += 1,
            ')' | ']' | '}' => {
                if d == 0 {
                    break;
                }
                d -= 1
            }
            '>' if b[k - 1] != '-' && b[k - 1] != '=' => d -= 1,
            ',' if d == 0 => {
                parts.push(String::new());
                k += 1;
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().push(c);
        k += 1;
    }
    Ok(parts
        .iter()
        .map(|p| {
            let p = p.trim();
            let n = p.split(':').next().unwrap_or("").trim();
            let n = n.strip_prefix("mut ").unwrap_or(n);
            if n.ends_with("self") {
                "self".to_string()
            } else {
                n.to_string()
            }
        })
        .filter(|s| !s.is_empty())
        .collect())
}
