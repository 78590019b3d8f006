//! The unit description format (see DESIGN.md, "Unit files").
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub name: Option<String>,
    /// false: only the signature and contract are emitted (external_body); the contract is
    /// discharged in another unit.
    pub verify: bool,
    pub contract: String,
    pub ret: String,
    pub loops: BTreeMap<usize, String>,
    pub raws: Vec<(Anchor, String)>,
    pub opts: BTreeMap<String, String>,
    pub attrs: String,
    pub nloops: Option<usize>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Anchor {
    Entry,
    BeforeLoop(usize),
    AfterLoop(usize),
    LoopStart(usize),
    LoopEnd(usize),
    AfterLet(String, usize),
    Arm(String, usize),
    Tail,
}

#[derive(Debug, Clone)]
pub enum Item {
    Raw(String),
    Types(String, Vec<String>),
    Consts(String, Vec<String>),
    Fn(FnSpec),
}

#[derive(Default, Debug)]
pub struct Unit {
    pub name: String,
    pub items: Vec<Item>,
    pub sources: Vec<String>,
    pub tags: Vec<String>,
    /// options given to every following function
    pub default: BTreeMap<String, String>,
    pub known: Vec<String>,
    /// inside an include whose functions are discharged elsewhere: those kept, by contract only
    pub only: Option<Vec<String>>,
    /// files included so far: each is taken once
    pub included: Vec<String>,
}

/// PATH or PATH:TAG,TAG — lines starting with `@{TAG,..}` are kept only when one of the tags is given
pub fn load(path: &str) -> Result<Unit, String> {
    let (path, tags) = match path.split_once(':') {
        Some((p, t)) => (p, t.split(',').map(|s| s.to_string()).collect::<Vec<_>>()),
        None => (path, vec![]),
    };
    let mut u = Unit {
        name: Path::new(path).file_stem().unwrap().to_string_lossy().to_string(),
        tags,
        ..Default::default()
    };
    load_into(path, &mut u)?;
    Ok(u)
}

/// `#[vx_def]` before a spec function: the function is opaque, and the lemma def_NAME states its definition
fn expand_defs(b: &str) -> String {
    const MARK: &str = "#[vx_def]";
    if !b.contains(MARK) {
        return b.to_string();
    }
    let parts: Vec<&str> = b.split(MARK).collect();
    let name_of = |p: &str| -> String {
        let i = p.find("spec fn ").map(|i| i + 8).unwrap_or(0);
        p[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
    };
    let all: Vec<String> = parts[1..].iter().map(|p| name_of(p)).collect();
    let mut out = parts[0].to_string();
    for p in &parts[1..] {
        let name = name_of(p);
        let cs: Vec<char> = p.chars().collect();
        // parameters
        let open = cs.iter().position(|c| *c == '(').unwrap();
        let (mut d, mut i) = (0i32, open);
        let mut close = open;
        while i < cs.len() {
            match cs[i] {
                '(' => d += 1,
                ')' => {
                    d -= 1;
                    if d == 0 {
                        close = i;
                        break;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let params: String = cs[open + 1..close].iter().collect();
        let (mut args, mut depth, mut cur) = (vec![], 0i32, String::new());
        for c in params.chars() {
            match c {
                '<' | '(' | '[' => depth += 1,
                '>' | ')' | ']' => depth -= 1,
                _ => {}
            }
            if c == ',' && depth == 0 {
                args.push(std::mem::take(&mut cur));
            } else {
                cur.push(c);
            }
        }
        if !cur.trim().is_empty() {
            args.push(cur);
        }
        let args: Vec<String> = args.iter().map(|a| a.split(':').next().unwrap().trim().to_string()).collect();
        // body
        let bo = close + cs[close..].iter().position(|c| *c == '{').unwrap();
        let (mut d, mut i) = (0i32, bo);
        while i < cs.len() {
            match cs[i] {
                '{' => d += 1,
                '}' => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let body: String = cs[bo..=i].iter().collect();
        let words: Vec<&str> = body.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
        let reveals: String = all.iter().filter(|n| **n == name || words.contains(&n.as_str())).map(|n| format!("reveal({});", n)).collect();
        let gen: String = {
            let head: String = cs[..open].iter().collect();
            match (head.find('<'), head.find("spec fn")) {
                (Some(a), Some(f)) if a > f => head[a..].to_string(),
                _ => String::new(),
            }
        };
        let f: String = cs[..=i].iter().collect();
        let rest: String = cs[i + 1..].iter().collect();
        out.push_str("#[verifier::opaque]");
        out.push_str(&f);
        out.push_str(&format!(
            "\npub proof fn def_{name}{gen}({params}) ensures {name}({a}) == ({body}) {{ {reveals} }}",
            a = args.join(", ")
        ));
        out.push_str(&rest);
    }
    out
}

fn load_into(path: &str, u: &mut Unit) -> Result<(), String> {
    let text = fs::read_to_string(path).map_err(|e| e.to_string())?;
    let dir = Path::new(path).parent().unwrap().to_path_buf();
    let mut file = String::new();
    #[derive(PartialEq)]
    enum Cur {
        None,
        Raw,
        Contract,
        Loop(usize),
        Anchor(Anchor),
        Attrs,
    }
    let mut cur = Cur::None;
    let mut buf = String::new();
    // inside a function that is not part of the unit under these tags
    let mut skip = false;
    fn flush(cur: &Cur, buf: &mut String, u: &mut Unit) {
        let b = std::mem::take(buf);
        match cur {
            Cur::None => {}
            Cur::Raw => u.items.push(Item::Raw(expand_defs(&b))),
            _ => {
                if let Some(Item::Fn(f)) = u.items.last_mut() {
                    match cur {
                        Cur::Contract => f.contract.push_str(&b),
                        Cur::Loop(n) => {
                            f.loops.insert(*n, b);
                        }
                        Cur::Anchor(a) => f.raws.push((a.clone(), b)),
                        Cur::Attrs => f.attrs.push_str(&b),
                        _ => {}
                    }
                }
            }
        }
    }
    for (ln, line) in text.lines().enumerate() {
        let mut line = line;
        if let Some(r) = line.trim_start().strip_prefix("@{") {
            let (tags, r) = r.split_once('}').ok_or(format!("line {}: bad tag", ln + 1))?;
            let neg = tags.starts_with('!');
            let hit = tags.trim_start_matches('!').split(',').any(|t| u.tags.iter().any(|x| x == t));
            if hit == neg {
                continue;
            }
            line = r;
        }
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            flush(&cur, &mut buf, u);
            let d = d.trim();
            let mut w = d.split_whitespace();
            let kw = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            let num = |i: usize| -> Result<usize, String> {
                rest.get(i)
                    .and_then(|s| s.parse().ok())
                    .ok_or(format!("line {}: number expected", ln + 1))
            };
            let section = ["attrs", "contract", "loop", "entry", "tail", "before_loop", "after_loop", "loop_start", "loop_end", "after_let", "arm"].contains(&kw);
            if skip && section {
                cur = Cur::None;
                continue;
            }
            skip = false;
            if kw == "fn" || kw == "assume" {
                if let Some(t) = rest.iter().find_map(|x| x.strip_prefix("tags=")) {
                    let neg = t.starts_with('!');
                    if t.trim_start_matches('!').split(',').any(|t| u.tags.iter().any(|x| x == t)) == neg {
                        skip = true;
                        cur = Cur::None;
                        continue;
                    }
                }
            }
            if kw == "fn" && u.only.as_ref().map_or(false, |o| !o.iter().any(|x| x == rest[0])) {
                skip = true;
                cur = Cur::None;
                continue;
            }
            match kw {
                "raw" => cur = Cur::Raw,
                "end" => cur = Cur::None,
                "include" => {
                    cur = Cur::None;
                    // `assumed=F,G`: of the functions in there only these are kept, by contract
                    let o = u.only.clone();
                    if let Some(l) = rest.iter().find_map(|x| x.strip_prefix("assumed=")) {
                        u.only = Some(l.split(',').map(|x| x.to_string()).collect());
                    }
                    if !u.included.iter().any(|x| x == rest[0]) {
                        u.included.push(rest[0].to_string());
                        load_into(dir.join(rest[0]).to_str().unwrap(), u)?;
                    }
                    u.only = o;
                }
                "file" => {
                    cur = Cur::None;
                    file = rest[0].to_string();
                    if !u.sources.contains(&file) {
                        u.sources.push(file.clone());
                    }
                }
                "types" => {
                    cur = Cur::None;
                    u.items.push(Item::Types(file.clone(), rest.iter().map(|s| s.to_string()).collect()));
                }
                "consts" => {
                    cur = Cur::None;
                    u.items.push(Item::Consts(file.clone(), rest.iter().map(|s| s.to_string()).collect()));
                }
                "fn" | "assume" => {
                    let mut f = FnSpec {
                        file: file.clone(),
                        path: rest[0].to_string(),
                        verify: kw == "fn" && u.only.is_none(),
                        ret: "r".into(),
                        opts: u.default.clone(),
                        ..Default::default()
                    };
                    for o in &rest[1..] {
                        if let Some((k, v)) = o.split_once('=') {
                            match k {
                                "name" => f.name = Some(v.to_string()),
                                "tags" => {}
                                // proved when one of these tags is given, otherwise kept by contract
                                "proved" => {
                                    if kw == "fn" && !v.split(',').any(|t| u.tags.iter().any(|x| x == t)) {
                                        f.verify = false;
                                    }
                                }
                                "ret" => f.ret = v.to_string(),
                                "loops" => f.nloops = v.parse().ok(),
                                _ => {
                                    f.opts.insert(k.to_string(), v.to_string());
                                }
                            }
                        } else {
                            f.opts.insert(o.to_string(), "1".into());
                        }
                    }
                    u.items.push(Item::Fn(f));
                    cur = Cur::Contract;
                }
                // functions the unit itself supplies: calls to them stay calls
                "known" => {
                    cur = Cur::None;
                    u.known.extend(rest.iter().map(|s| s.to_string()));
                }
                "default" => {
                    cur = Cur::None;
                    u.default.clear();
                    for o in &rest {
                        let (k, v) = o.split_once('=').unwrap_or((o, "1"));
                        u.default.insert(k.to_string(), v.to_string());
                    }
                }
                "attrs" => cur = Cur::Attrs,
                "contract" => cur = Cur::Contract,
                "loop" => cur = Cur::Loop(num(0)?),
                "entry" => cur = Cur::Anchor(Anchor::Entry),
                "tail" => cur = Cur::Anchor(Anchor::Tail),
                "before_loop" => cur = Cur::Anchor(Anchor::BeforeLoop(num(0)?)),
                "after_loop" => cur = Cur::Anchor(Anchor::AfterLoop(num(0)?)),
                "loop_start" => cur = Cur::Anchor(Anchor::LoopStart(num(0)?)),
                "loop_end" => cur = Cur::Anchor(Anchor::LoopEnd(num(0)?)),
                "after_let" => cur = Cur::Anchor(Anchor::AfterLet(rest[0].to_string(), num(1).unwrap_or(0))),
                "arm" => cur = Cur::Anchor(Anchor::Arm(rest[0].to_string(), num(1).unwrap_or(0))),
                _ => return Err(format!("line {}: unknown directive {}", ln + 1, kw)),
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&cur, &mut buf, u);
    Ok(())
}
