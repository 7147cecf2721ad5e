//! The reference model of what bulloak derives from trees. Deliberately naive.
use crate::sol;
use crate::tree::*;
use unicode_xid::UnicodeXID;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Modifier { name: String, node: (usize, usize) },
    Test { name: String, mods: Vec<String>, comments: Vec<String>, node: (usize, usize) },
}
impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Modifier { name, .. } | Item::Test { name, .. } => name,
        }
    }
    pub fn is_mod(&self) -> bool {
        matches!(self, Item::Modifier { .. })
    }
    /// (tree, node) that this item stands for.
    pub fn node(&self) -> (usize, usize) {
        match self {
            Item::Modifier { node, .. } | Item::Test { node, .. } => *node,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Contract {
    pub name: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reject {
    /// Two conditions or top-level actions of one tree share a name.
    DupInTree(usize),
    DupTest(String),
    Separator(usize),
    NameMissing(usize),
    Mismatch { expected: String, actual: String },
}

/// Keeps what may be in an identifier; hyphens become underscores.
pub fn clean(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '-' {
            o.push('_');
        } else if c.is_xid_continue() || c == ' ' {
            o.push(c);
        }
    }
    o
}
pub fn cap(w: &str) -> String {
    let mut it = w.chars();
    match it.next() {
        Some(c) => c.to_uppercase().collect::<String>() + it.as_str(),
        None => String::new(),
    }
}
pub fn uncap(w: &str) -> String {
    let mut it = w.chars();
    match it.next() {
        Some(c) => c.to_lowercase().collect::<String>() + it.as_str(),
        None => String::new(),
    }
}
pub fn camel(s: &str) -> String {
    clean(s).split(' ').map(cap).collect()
}
pub fn modifier_name(title: &str) -> String {
    uncap(&camel(title))
}

fn test_name(title: &str, revert: bool) -> String {
    if !revert {
        return format!("test_{}", camel(title));
    }
    let (kw, rest) = title.split_once(' ').unwrap_or((title, ""));
    format!("test_Revert{}_{}", cap(kw), camel(rest))
}
fn top_action_name(text: &str) -> String {
    let rest = text.split_once(' ').map_or("", |(_, r)| r);
    format!("test_{}", camel(rest))
}

struct St<'a> {
    r: &'a Rendered,
    t: usize,
    n: usize,
    stack: Vec<String>,
    out: Vec<Item>,
}

fn comments_of(a: &Node, n: usize, r: &Rendered) -> Vec<String> {
    // `n` is the index of the action.
    let mut v = vec![a.text.clone()];
    for (d, p) in flat(a).iter().zip(&r.nodes[n + 1..]) {
        v.push(format!("{}{}", " ".repeat(p.delta), d.text));
    }
    v
}
pub fn flat(a: &Node) -> Vec<&Node> {
    fn rec<'a>(k: &'a Node, v: &mut Vec<&'a Node>) {
        for x in &k.kids {
            v.push(x);
            rec(x, v);
        }
    }
    let mut v = vec![];
    rec(a, &mut v);
    v
}

fn visit_cond(c: &Node, s: &mut St) {
    let me = s.n;
    s.n += 1;
    let nested = c.kids.iter().any(|k| k.kind == Kind::Cond);
    if nested {
        let name = modifier_name(&c.text);
        s.out.push(Item::Modifier { name: name.clone(), node: (s.t, me) });
        s.stack.push(name);
    }
    // own test first, although its actions may be drawn after nested conditions
    let mut comments = vec![];
    let mut revert = None;
    let mut n = s.n;
    for k in &c.kids {
        if k.kind == Kind::Act {
            if revert.is_none() {
                revert = Some(clean(&k.text).to_lowercase() == "it should revert");
            }
            comments.extend(comments_of(k, n, s.r));
        }
        n += k.size();
    }
    if !comments.is_empty() {
        s.out.push(Item::Test {
            name: test_name(&c.text, revert.unwrap()),
            mods: s.stack.clone(),
            comments,
            node: (s.t, me),
        });
    }
    for k in &c.kids {
        if k.kind == Kind::Cond {
            visit_cond(k, s);
        } else {
            s.n += k.size();
        }
    }
    if nested {
        s.stack.pop();
    }
}

fn one(t: &Tree, r: &Rendered, idx: usize) -> Vec<Item> {
    let mut s = St { r, t: idx, n: 0, stack: vec![], out: vec![] };
    for k in &t.kids {
        match k.kind {
            Kind::Cond => visit_cond(k, &mut s),
            _ => {
                let me = s.n;
                s.out.push(Item::Test {
                    name: top_action_name(&k.text),
                    mods: vec![],
                    comments: comments_of(k, me, s.r),
                    node: (idx, me),
                });
                s.n += k.size();
            }
        }
    }
    s.out
}

/// What a file with these (well-formed) trees stands for.
pub fn expect(ts: &[Tree], rs: &[Rendered]) -> Result<Contract, Reject> {
    for (i, t) in ts.iter().enumerate() {
        let mut seen = std::collections::HashSet::new();
        for n in t.nodes() {
            if n.kind == Kind::Cond && !seen.insert(modifier_name(&n.text)) {
                return Err(Reject::DupInTree(i));
            }
        }
        let mut seen = std::collections::HashSet::new();
        for n in &t.kids {
            if n.kind == Kind::Act && !seen.insert(uncap(&camel(&n.text))) {
                return Err(Reject::DupInTree(i));
            }
        }
    }
    let mut out = Contract { name: String::new(), items: vec![] };
    if ts.len() == 1 {
        out.name = ts[0].root.clone();
        out.items = one(&ts[0], &rs[0], 0);
    } else {
        let mut mods = std::collections::HashSet::new();
        for (i, t) in ts.iter().enumerate() {
            let Some((c, f)) = t.root.split_once("::") else { return Err(Reject::Separator(i + 1)) };
            if c.is_empty() {
                return Err(Reject::NameMissing(i + 1));
            }
            if i == 0 {
                out.name = c.to_string();
            } else if out.name != c {
                return Err(Reject::Mismatch { expected: out.name, actual: c.into() });
            }
            for it in one(t, &rs[i], i) {
                match it {
                    Item::Modifier { name, node } => {
                        if mods.insert(name.clone()) {
                            out.items.push(Item::Modifier { name, node });
                        }
                    }
                    Item::Test { name, mods, comments, node } => {
                        let name = format!("test_{}{}", cap(&clean(f)), name.strip_prefix("test_").unwrap());
                        out.items.push(Item::Test { name, mods, comments, node });
                    }
                }
            }
        }
    }
    out.name = clean(&out.name);
    let mut seen = std::collections::HashSet::new();
    for it in &out.items {
        if !it.is_mod() && !seen.insert(it.name().to_string()) {
            return Err(Reject::DupTest(it.name().into()));
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Opts {
    pub version: String,
    pub skip_mods: bool,
    pub vm_skip: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { version: "0.8.0".into(), skip_mods: false, vm_skip: false }
    }
}
impl Opts {
    pub fn all() -> Vec<Opts> {
        let mut v = vec![];
        for version in ["0.8.0", "0.8.24"] {
            for skip_mods in [false, true] {
                for vm_skip in [false, true] {
                    v.push(Opts { version: version.into(), skip_mods, vm_skip });
                }
            }
        }
        v
    }
    pub fn args(&self) -> Vec<&str> {
        let mut v = vec![];
        if self.version != "0.8.0" {
            v.extend(["-s", self.version.as_str()]);
        }
        if self.skip_mods {
            v.push("-m");
        }
        if self.vm_skip {
            v.push("-S");
        }
        v
    }
}

/// The tokens of one generated item.
pub fn item_tokens(it: &Item, vm_skip: bool) -> Vec<String> {
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match it {
        Item::Modifier { name, .. } => s(&["modifier", name, "(", ")", "{", "_", ";", "}"]),
        Item::Test { name, mods, comments, .. } => {
            let mut v = s(&["function", name, "(", ")", "external"]);
            v.extend(mods.iter().cloned());
            v.push("{".into());
            v.extend(comments.iter().map(|c| format!("// {c}")));
            if vm_skip {
                v.extend(s(&["vm", ".", "skip", "(", "true", ")", ";"]));
            }
            v.push("}".into());
            v
        }
    }
}

/// The exact token sequence (comments included) of the generated file.
pub fn file_tokens(c: &Contract, o: &Opts) -> Vec<String> {
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut v = s(&["// SPDX-License-Identifier: UNLICENSED", "pragma", "solidity"]);
    v.extend(sol::lex(&o.version).into_iter().map(|t| t.text));
    v.push(";".into());
    if o.vm_skip {
        v.extend(s(&["import", "{", "Test", "}", "from", "\"forge-std/Test.sol\"", ";"]));
    }
    v.extend(s(&["contract", &c.name]));
    if o.vm_skip {
        v.extend(s(&["is", "Test"]));
    }
    v.push("{".into());
    for it in &c.items {
        if it.is_mod() && o.skip_mods {
            continue;
        }
        v.extend(item_tokens(it, o.vm_skip));
    }
    v.push("}".into());
    v
}
