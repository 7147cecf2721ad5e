//! C02, C14..C19 and the `check` part of C05: comparing and fixing contracts,
//! always through the real CLI on files in a scratch directory.
use crate::p_scaffold::{self, Case};
use crate::refm::{self, Contract, Item, Opts};
use crate::rt::*;
use crate::sol;
use crate::tree::*;
use std::collections::BTreeMap;
use std::sync::Arc;

// ------------------------------------------------------------- reports

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Missing(String),
    NoContract(String),
    Renamed(String, String),
    Order(String),
    NoSol(String),
    Unreadable,
    BadTree(String),
    BadSol,
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    pub kind: K,
    pub msg: String,
    pub help: Option<String>,
    pub fix: Option<String>,
    pub loc: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub viols: Vec<V>,
    pub total: Option<usize>,
    pub fixes: Option<usize>,
    pub ok: bool,
    pub fixed: Option<usize>,
    pub noise: Vec<String>,
}

fn kind_of(m: &str) -> K {
    let quoted = |s: &str| s.split('"').nth(1).unwrap_or("").to_string();
    if m.starts_with("contract \"") && m.contains("\" is missing in .sol") {
        let parts: Vec<&str> = m.split('"').collect();
        if m.contains("found \"") && parts.len() >= 4 {
            return K::Renamed(parts[1].into(), parts[3].into());
        }
        return K::NoContract(quoted(m));
    }
    if m.starts_with("function \"") && m.ends_with("\" is missing in .sol") {
        return K::Missing(quoted(m));
    }
    if let Some(r) = m.strip_prefix("incorrect position for function `") {
        return K::Order(r.trim_end_matches('`').into());
    }
    if let Some(r) = m.strip_prefix("the tree is missing its matching Solidity file: ") {
        return K::NoSol(r.into());
    }
    if m.starts_with("bulloak couldn't read the file") {
        return K::Unreadable;
    }
    if m.contains("occurred while parsing the tree") {
        return K::BadTree(m.into());
    }
    if m.contains("occurred while parsing the solidity file") {
        return K::BadSol;
    }
    K::Other(m.into())
}

fn label(k: &K) -> &'static str {
    match k {
        K::Missing(_) => "missing function",
        K::NoContract(_) => "missing contract",
        K::Renamed(..) => "other contract",
        K::Order(_) => "order",
        K::NoSol(_) => "no solidity file",
        K::Unreadable => "unreadable",
        K::BadTree(_) => "ill-formed tree",
        K::BadSol => "ill-formed solidity",
        K::Other(_) => "other",
    }
}

pub fn report(o: &Out) -> Report {
    let mut r = Report::default();
    let num = |s: &str| s.split_whitespace().next().and_then(|n| n.parse::<usize>().ok());
    for l in o.stderr.lines() {
        if let Some(m) = l.strip_prefix("warn: ") {
            if let Some(n) = num(m) {
                if m.contains(" failed") {
                    r.total = Some(n);
                    r.fixes = m.split("to apply ").nth(1).and_then(num);
                    continue;
                }
            }
            r.viols.push(V { kind: kind_of(m), msg: m.into(), help: None, fix: None, loc: None });
        } else if let (Some(v), Some(h)) = (r.viols.last_mut(), l.trim_start().strip_prefix("= help: ")) {
            v.help = Some(h.into());
        } else if let (Some(v), Some(h)) = (r.viols.last_mut(), l.trim_start().strip_prefix("+ fix: run ")) {
            v.fix = Some(h.trim_matches('`').into());
        } else if let (Some(v), Some(h)) = (r.viols.last_mut(), l.trim_start().strip_prefix("--> ")) {
            v.loc = Some(h.into());
        } else if !l.trim().is_empty() {
            r.noise.push(l.into());
        }
    }
    for l in o.stdout.lines() {
        if l.starts_with("All checks completed successfully") {
            r.ok = true;
        }
        if let Some(m) = l.strip_prefix("success: ") {
            r.fixed = num(m);
        }
    }
    r
}

// ------------------------------------------------- trees and Solidity files

pub struct Spec {
    pub case: Case,
    pub text: String,
    pub rs: Vec<Rendered>,
    pub want: Contract,
}
impl Spec {
    pub fn new(case: Case) -> Option<Arc<Spec>> {
        let (text, rs) = case.build();
        let want = refm::expect(&case.ts, &rs).ok()?;
        Some(Arc::new(Spec { case, text, rs, want }))
    }
    /// The line an item stems from.
    pub fn line(&self, i: usize) -> usize {
        let (t, n) = self.want.items[i].node();
        self.rs[t].nodes[n].start.line
    }
    pub fn n(&self) -> usize {
        self.want.items.len()
    }
}

/// A part of a contract: an expected item in some style, or something else.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    Item(usize, usize),
    User(String),
}

#[derive(Clone)]
pub struct St {
    pub spec: Arc<Spec>,
    pub before: String,
    pub contract: Option<(String, String)>,
    pub parts: Vec<P>,
    pub after: String,
    pub crlf: bool,
    /// As few lines as possible.
    pub flat: bool,
    pub skip: bool,
}
impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "flags: {}\n--- a.tree ---\n{}\n--- a.t.sol ---\n{}", if self.skip { "-m" } else { "" }, self.spec.text, self.sol().text)
    }
}

pub struct Src {
    pub text: String,
    /// Line of every part's first code token.
    pub lines: Vec<usize>,
    pub contract_line: usize,
}

/// The ways in which items are written; `STYLES + i` mixes them.
pub const STYLES: usize = 7;
const S: usize = STYLES;

/// Every way to declare a test; `@` is its name.
pub const TEST_FORMS: &[&str] = &[
    "function @() private {}", "function @() internal {}", "function @() public {}", "function @() {}", "function @();", "function @() external pure {}", "function @() external payable {}", "function @() public view virtual override {}", "function @() external override;", "function @() external virtual override(A) {}",
    "function @(uint256) external {}", "function @(uint256, bytes memory) external {}", "function @(uint256 a, uint256 b, uint256 c) external {}", "function @(uint256 a, uint256 b, uint256 c, uint256 d) external {}", "function @(uint256 a, A b, A.B c, uint256[2][] calldata d, bytes32 e, address payable f, bool g, string memory h) external {}",
    "function @(mapping(uint256 => A) storage m) internal {}", "function @(function (uint256) external returns (bool) f) public {}",
    "function @() external returns (uint256) {}", "function @() external returns (uint256 a, uint256 b, uint256 c, uint256 d) {}", "function @() external returns (A memory) { return A({b: 1}); }",
    "function @() external m {}", "function @() external m() {}", "function @() external m(1, \"a\") n(A.B) o {}", "function @() external m(uint256(1)) returns (bool) {}",
    "function @() external { { } }", "function @() external { assembly { } }", "function @() external { function() internal f; }", "function @() external { @(); }", "function @() external { this.@; @ = 1; }",
    // (not in the order into which they are formatted)
    "function @() pure external {}", "function @() view public virtual override {}", "function @() external override(A) virtual override {}", "function @() m(1, \"a\") external n(A.B) o {}", "function @() constant {}",
    "function  @  (  )  external  {  }", "function\n@\n(\n)\nexternal\n{\n}", "function/**/@/**/()/**/external/**/{}", "function @() external {}\n    function @(uint256 second) external {}",
];
pub const MODIFIER_FORMS: &[&str] = &[
    "modifier @ { _; }", "modifier @() {}", "modifier @() { _; _; }", "modifier @() virtual { _; }", "modifier @() override { _; }", "modifier @() virtual override(A, B) { _; }", "modifier @ virtual;", "modifier @();", "modifier @(uint256) { _; }", "modifier @(uint256 a, bytes memory b, A.B c, bool d) { a; _; b; }", "modifier @() { revert(); }", "modifier @() { assembly { } _; }", "modifier @ /* { */ { // }\n _; }", "modifier  @  (  )  {  _  ;  }", "modifier\n@\n{\n_\n;\n}", "modifier @() { { _; } }",
];
/// The styles from here on are the forms.
const FORM: usize = 1000;
/// Specs with items in every form: the sets of `orders` all in the form, or one
/// item in it.
fn formed(s: &Arc<Spec>, orders: &[Vec<usize>], formatted: bool) -> Vec<St> {
    let mut v = vec![];
    for f in 0..TEST_FORMS.len() {
        if formatted && (TEST_FORMS[f].starts_with("function @() pure") || TEST_FORMS[f].contains("view public") || TEST_FORMS[f].contains("override(A) virtual") || TEST_FORMS[f].contains("@() m(") || TEST_FORMS[f].contains("@() constant")) {
            continue;
        }
        for o in orders {
            v.push(St::new(s, o.iter().map(|i| P::Item(*i, FORM + f)).collect()));
            for x in o {
                v.push(St::new(s, o.iter().map(|i| P::Item(*i, if i == x { FORM + f } else { 0 })).collect()).flat(f % 2 == 1));
            }
        }
    }
    v
}

pub fn item_src(it: &Item, style: usize) -> String {
    if let Some(f) = style.checked_sub(FORM) {
        let l = if it.is_mod() { MODIFIER_FORMS } else { TEST_FORMS };
        return format!("    {}", l[f % l.len()].replace('@', it.name()));
    }
    match (it, style) {
        (Item::Modifier { name, .. }, 0) => format!("    modifier {name}() {{\n        _;\n    }}"),
        (Item::Modifier { name, .. }, 1) => format!("    modifier {name}() virtual {{\n        vm.prank(address(1)); // é }}\n        _;\n    }}"),
        (Item::Modifier { name, .. }, 2) => format!("    modifier {name}(address who) {{\n        require(who != address(0), \"}} // {{\");\n        _;\n    }}"),
        (Item::Modifier { name, .. }, 3) => format!("    modifier {name}() virtual;"),
        (Item::Modifier { name, .. }, 5) => format!("    modifier {name}(\n        // ) ; {{\n        uint256 a\n    ) /* a; }} é */ virtual /* modifier {name}() {{ ; */ ;"),
        (Item::Modifier { name, .. }, 6) => format!("    modifier {name}() virtual override(A, B.C) {{\n        if (a[0] > 1) {{\n            _;\n        }} else {{\n            revert E({{why: \"\\\" }} ; \\\\\"}});\n        }}\n    }}"),
        (Item::Modifier { name, .. }, _) => format!("    /// @dev Doc of {name}: {{\n    modifier {name}() {{\n        _;\n        after_{name}();\n    }}"),
        (Item::Test { name, mods, comments, .. }, 0) => {
            let m = mods.iter().map(|m| format!(" {m}")).collect::<String>();
            let c = comments.iter().map(|c| format!("        // {c}\n")).collect::<String>();
            format!("    function {name}() external{m} {{\n{c}    }}")
        }
        (Item::Test { name, .. }, 1) => format!(
            "    function {name}() public virtual {{\n        // body of {name} }}\n        uint256 x = 1;\n        if (x > 0) {{\n            assertEq(x, 1, \"{{ 日本\");\n        }}\n    }}"
        ),
        (Item::Test { name, mods, .. }, 2) => {
            let m = mods.iter().map(|m| format!(" {m}")).collect::<String>();
            format!("    function {name}(uint256 a, bytes calldata b) external view{m} returns (bool ok) {{\n        return a > b.length;\n    }}")
        }
        (Item::Test { name, .. }, 3) => format!("    function {name}() external virtual;"),
        (Item::Test { name, .. }, 5) => format!("    function {name}(\n        // ) ; {{\n        uint256 a\n    ) external /* a; }} é */ virtual // function {name}() external; {{\n    ;"),
        (Item::Test { name, mods, .. }, 6) => {
            let m = mods.iter().map(|m| format!(" {m}(1, \"}}\")")).collect::<String>();
            format!("    function {name}(C.D[2][] memory a) public payable virtual override(A, B.C){m} returns (uint256 r, string memory) {{\n        unchecked {{\n            r = a.length ** 2;\n        }}\n        try this.f{{value: 1 ether, gas: 2}}(a[0], hex\"7b\", unicode\"é {{ ;\") returns (uint256 x) {{\n            emit E(x, \"\\\" }} // \\\\\");\n        }} catch Error(string memory) {{}}\n        catch {{\n            delete r;\n        }}\n        for (uint256 i = 0; i < 3; i++) {{\n            r += i;\n        }}\n    }}")
        }
        (Item::Test { name, .. }, _) => format!("    /**\n     * @notice Doc of {name} }}\n     */\n    function {name}() external {{\n        _run{name}(/* {{ */ 7);\n        /* end }} */\n    }}"),
    }
}

impl St {
    pub fn new(spec: &Arc<Spec>, parts: Vec<P>) -> St {
        St {
            spec: spec.clone(),
            before: "pragma solidity 0.8.0;\n\n".into(),
            contract: Some((spec.want.name.clone(), String::new())),
            parts,
            after: String::new(),
            crlf: false,
            flat: false,
            skip: false,
        }
    }
    pub fn flat(mut self, flat: bool) -> St {
        self.flat = flat;
        self
    }
    pub fn m(mut self, skip: bool) -> St {
        self.skip = skip;
        self
    }
    pub fn sol(&self) -> Src {
        let mut s = self.before.clone();
        let mut lines = vec![];
        let mut contract_line = 0;
        let line = |s: &str| s.matches('\n').count() + 1;
        if let Some((name, header)) = &self.contract {
            contract_line = line(&s);
            if let Some(h) = header.strip_prefix("abstract") {
                s.push_str(&format!("abstract contract {name}{h} {{"));
            } else {
                s.push_str(&format!("contract {name}{header} {{"));
            }
            let mut gap = if self.flat { ' ' } else { '\n' };
            for p in &self.parts {
                s.push(gap);
                let mut t = match p {
                    P::Item(i, style) => item_src(&self.spec.want.items[*i], *style),
                    P::User(t) => t.clone(),
                };
                if self.flat && !t.contains("//") && !t.contains('"') {
                    t = t.split_whitespace().collect::<Vec<_>>().join(" ");
                }
                // where the code begins: after comment lines
                let mut l = line(&s);
                for x in t.lines() {
                    let x = x.trim_start();
                    if x.starts_with("//") || x.starts_with("/*") || x.starts_with('*') {
                        l += 1;
                    } else {
                        break;
                    }
                }
                lines.push(l);
                s.push_str(&t);
                gap = if self.flat && !t.lines().last().unwrap_or("").contains("//") { ' ' } else { '\n' };
                if !self.flat || gap == '\n' {
                    s.push('\n');
                }
            }
            s.push_str("}\n");
        }
        s.push_str(&self.after);
        if self.crlf {
            s = s.replace('\n', "\r\n");
        }
        Src { text: s, lines, contract_line }
    }
    /// Index of the first part that defines item `i`.
    pub fn find(&self, i: usize) -> Option<usize> {
        self.parts.iter().position(|p| match p {
            P::Item(j, _) => *j == i,
            P::User(t) => {
                let it = &self.spec.want.items[i];
                sol::outline(&format!("contract X {{ {t} }}")).parts.iter().any(|x| x.is(it.is_mod(), it.name()))
            }
        })
    }
    pub fn missing(&self) -> Vec<usize> {
        (0..self.spec.n()).filter(|i| self.find(*i).is_none() && !(self.skip && self.spec.want.items[*i].is_mod())).collect()
    }
    pub fn put(&self, w: &Worker) -> String {
        let s = self.sol().text;
        w.put("a.tree", &self.spec.text);
        w.put("a.t.sol", &s);
        s
    }
    pub fn args<'a>(&self, extra: &[&'a str]) -> Vec<&'a str> {
        let mut v = vec!["check"];
        v.extend(extra);
        if self.skip {
            v.push("-m");
        }
        v.push("a.tree");
        v
    }
    fn key(&self) -> String {
        format!("{self:?}")
    }
}

fn bad<T>(s: &St, m: impl std::fmt::Display, rest: &str) -> Result<T, Viol> {
    viol(s.key(), format!("{m}\n{s:?}\n{rest}"))
}

fn crashed(s: &St, o: &Out, what: &str) -> R {
    if o.crashed() {
        return bad(s, format!("`bulloak {what}` crashed"), &o.show());
    }
    Ok(())
}

// ----------------------------------------------------------- enumeration

/// Every arrangement of every subset of 0..n.
pub fn arrangements(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut out);
    out
}
pub fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    arrangements(v.len()).into_iter().filter(|a| a.len() == v.len()).map(|a| a.into_iter().map(|i| v[i]).collect()).collect()
}
pub fn subsets(n: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
/// Some orders of 0..n: as it is, two neighbours exchanged, reversed, rotated.
fn near_orders(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![id.clone(), id.iter().rev().copied().collect()];
    for i in 1..n {
        let mut x = id.clone();
        x.swap(i - 1, i);
        v.push(x);
    }
    if n > 2 {
        let mut x = id.clone();
        x.rotate_left(1);
        v.push(x);
        let mut x = id;
        x.rotate_right(1);
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}
/// Some arrangements of 0..n: nothing, the last, all in order and reversed,
/// all but the first in order, all but the last reversed.
fn few_arrangements(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![], vec![n - 1], (0..n).collect::<Vec<_>>(), (0..n).rev().collect(), (1..n).collect(), (0..n - 1).rev().collect()];
    v.sort();
    v.dedup();
    v
}
pub fn inverted(v: &[usize]) -> bool {
    v.windows(2).any(|w| w[0] > w[1])
}

pub fn items(a: &[usize], style: usize) -> Vec<P> {
    a.iter().map(|i| P::Item(*i, if style < STYLES { style } else { (*i + style) % STYLES })).collect()
}

/// Every tree of conditions and actions with at most `n` nodes whose contract
/// has at most `k` items.
pub fn trees(n: usize, k: usize) -> Vec<Arc<Spec>> {
    (1..=n)
        .flat_map(rule_forests)
        .filter_map(|s| Spec::new(Case::one(labelled(s, "Root"))))
        .filter(|s| s.n() <= k)
        .collect()
}

pub fn two_trees(n: usize, k: usize) -> Vec<Arc<Spec>> {
    let small: Vec<Vec<Node>> = (1..=n).flat_map(rule_forests).collect();
    let mut v = vec![];
    for a in &small {
        for b in &small {
            // the same condition titles: shared modifiers
            let ts = vec![labelled(a.clone(), "Root::one"), labelled(b.clone(), "Root::two")];
            if let Some(s) = Spec::new(Case::many(ts)) {
                if s.n() <= k {
                    v.push(s);
                }
            }
        }
    }
    v
}

/// Bigger specs: the families of growing trees, files of many trees, long
/// names; and for each some arrangements: all, none, reversed, every second,
/// one missing, one moved to its neighbour, to the front, to the end.
fn big(mc: &Mc) -> impl Iterator<Item = St> + Send {
    let (n, most) = mc.pick((7, 34), (16, 66));
    mc.bound("sizes_of_families", n as u64);
    mc.bound("some_sizes_of_families", most as u64);
    let sizes = growing(n, most);
    let shapes = sizes.clone().flat_map(|n| family_shapes(n).into_iter().take(12).map(|s| Case::one(labelled(s, "Root"))));
    let trees = sizes.filter(|n| *n >= 3).map(|n| {
        let mut one = vec![cond("", vec![act(""), cond("", vec![cond("", vec![act("")])])])];
        crate::tree::label(&mut one);
        Case::many((0..n).map(|i| tree(&format!("Root::f{}", word(i)), one.clone())).collect())
    });
    let long = p_scaffold::long_texts(mc).enumerate().flat_map(|(x, c)| {
        let s = Spec::new(c)?;
        let few = few_arrangements(s.n());
        let v: Vec<St> = [vec![], few[x % few.len()].clone()].iter().map(|a| St::new(&s, items(a, x % (2 * S))).m(x % 7 == 0)).collect();
        Some(v)
    });
    // contracts of any number of bytes and lines
    let most: usize = mc.pick(140_000, 1_100_000);
    mc.bound("contract_bytes", most as u64);
    let sizes = [1000, 4080, 4096, 4097, 8192, 16384, 32767, 32768, 65520, 65535, 65536, 65537, 131072, 262144, 1 << 20];
    let padded = sizes.into_iter().filter(move |n| *n <= most).flat_map(|n| {
        typical().into_iter().enumerate().flat_map(move |(t, s)| {
            // the parser takes its time for many comments
            let pad = if t % 2 == 0 || n > 5000 { format!("// {}\n", "é".repeat(n / 2)) } else { "// c }\n".repeat(n / 7) };
            few_arrangements(s.n()).into_iter().enumerate().flat_map(|(x, a)| {
                let mut v = vec![];
                for k in 0..3 {
                    let mut st = St::new(&s, items(&a, x % (2 * S)));
                    match k {
                        0 => st.before = format!("{pad}{}", st.before),
                        1 => st.after = pad.clone(),
                        _ => st.parts.insert(a.len() / 2, P::User(format!("    uint256 x = 1;\n{}", pad.trim_end()))),
                    }
                    v.push(st);
                }
                v
            }).collect::<Vec<_>>()
        })
    });
    let thorough = mc.thorough;
    shapes.chain(trees).enumerate().flat_map(move |(x, c)| {
        let Some(s) = Spec::new(c) else { return vec![] };
        let k = s.n();
        let id: Vec<usize> = (0..k).collect();
        let mut v = vec![id.clone(), vec![], id.iter().rev().copied().collect(), id.iter().copied().step_by(2).collect(), id.iter().copied().skip(1).step_by(2).collect()];
        // of the biggest ones, some items only
        let few = [0, 1, k / 3, k / 2, k.saturating_sub(2), k.saturating_sub(1)];
        for i in (0..k).filter(|i| k <= 24 || few.contains(i)) {
            let mut y = id.clone();
            y.remove(i);
            v.push(y.clone());
            let to: Vec<usize> = if thorough && k <= 48 { (0..k).collect() } else { vec![0, i.saturating_sub(1), (i + 1).min(k - 1), k - 1] };
            for j in to {
                let mut z = y.clone();
                z.insert(j, i);
                v.push(z);
            }
        }
        v.sort();
        v.dedup();
        v.into_iter().enumerate().map(|(i, a)| St::new(&s, items(&a, (x + i) % (2 * S))).m((x + i) % 3 == 0)).collect::<Vec<_>>()
    }).chain(long.flatten()).chain(padded)
}

/// Contracts of very many parts and lines: between the items, before and behind them.
fn many_parts(mc: &Mc) -> impl Iterator<Item = St> + Send {
    let mut ns = vec![120, 126, 127, 128, 129, 254, 255, 256, 257, 258, 1000, 65_534, 65_535, 65_536, 65_537];
    if mc.thorough {
        ns = (100..=300).chain([1000, 1022, 1023, 1024, 1025, 2000, 32_766, 32_767, 32_768, 32_769]).chain(65_530..=65_540).collect();
    }
    mc.bound("parts_of_a_contract", *ns.last().unwrap() as u64);
    ns.reverse();
    let specs = typical();
    ns.into_iter().flat_map(move |n| {
        let mut v = vec![];
        for s in specs.iter().take(if n > 1100 { 1 } else { 3 }) {
            let k = s.n();
            let id: Vec<usize> = (0..k).collect();
            let rot: Vec<usize> = (1..k).chain([0]).collect();
            for a in [id.clone(), id.iter().rev().copied().collect(), rot] {
                for at in [0, 1, k / 2, k] {
                    let vars = P::User((0..n - at).map(|i| format!("    int v{i};\n")).collect::<String>());
                    let blank = P::User(format!("{}    int v;", "\n".repeat(n - at)));
                    for x in [vars, blank] {
                        let mut p = items(&a, S + n % S);
                        p.insert(at.min(p.len()), x);
                        v.push(St::new(s, p));
                    }
                }
            }
        }
        v
    })
}

/// A few typical specs: tests only, a modifier, nested modifiers, two trees.
pub fn typical() -> Vec<Arc<Spec>> {
    let two = |r: &str, x: &str| tree(r, vec![cond("when shared", vec![act("it x"), cond(x, vec![act("It should revert")])])]);
    [
        Case::one(tree("Root", vec![act("it aa"), cond("when b", vec![act("it should revert"), act("it é } do")]), act("it c")])),
        Case::one(tree("Root", vec![cond("given b", vec![act("it x"), cond("when c d", vec![actd("it y", vec![desc("because {")])])]), act("it z")])),
        Case::one(tree("Root", vec![cond("when m", vec![cond("when n", vec![cond("when o", vec![act("it x")])]), act("it y")])])).at(4),
        Case { ts: vec![two("Root::f", "when p"), two("Root::g", "when q")], layout: 6, before: "// é\r\n", sep: "\r\n" },
    ]
    .into_iter()
    .map(|c| Spec::new(c).unwrap())
    .collect()
}

/// Things users write into contracts, none of which stands for an item. Already
/// in the canonical form of the formatter, as far as tokens go.
pub fn user_parts() -> Vec<String> {
    [
        "    uint256 public x = 1;",
        "    constructor() {}",
        "    receive() external payable {}",
        "    fallback() external {}",
        "    event E(uint256 a);",
        "    struct S {\n        uint256 a;\n    }",
        "    error Err(string why);",
        "    using L for uint256;",
        "    enum En {\n        A,\n        B\n    }",
        "    mapping(address => uint256) internal m;",
        "    bytes constant B = hex\"00\";",
        "    function helper() internal pure returns (uint256) {\n        return 1; // }\n    }",
        "    function test_Extra() external {}",
        "    modifier onlyX() {\n        _;\n    }",
        "    function setUp() public virtual {\n        string memory s = \"} // { function test_A() external {}\";\n        s;\n    }",
        "    function abs() external virtual;",
        "    modifier absM() virtual;",
        "    // a line comment } é",
        "    /* a block comment { */",
        "    /// @dev natspec of nothing",
        "    /* 日本\n     contract K {}\n     */",
        "    function asm() internal {\n        assembly {\n            let y := 1 // }\n        }\n    }",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// Near misses of the items: none of them stands for one.
fn near_misses(s: &Spec) -> Vec<String> {
    let mut v = vec![];
    for it in &s.want.items {
        let n = it.name();
        if it.is_mod() {
            v.push(format!("    function {n}() internal {{}}"));
            v.push(format!("    modifier {}() {{\n        _;\n    }}", n.to_uppercase()));
            v.push(format!("    modifier {n}2() {{\n        _;\n    }}"));
            v.push(format!("    modifier {n}_() virtual;"));
            v.push(format!("    modifier _{n}() virtual;"));
            v.push(format!("    // modifier {n}() {{ _; }}"));
            v.push(format!("    uint256 {n}_;"));
        } else {
            v.push(format!("    modifier {n}() {{\n        _;\n    }}"));
            v.push(format!("    function {}() external {{}}", n.to_lowercase()));
            v.push(format!("    function {n}2() external {{}}"));
            v.push(format!("    function {n}_() external {{}}"));
            v.push(format!("    function _{n}() external {{}}"));
            v.push(format!("    function {}() external {{}}", n.replacen("test", "Test", 1)));
            v.push(format!("    function {}() external {{}}", n.replacen('_', "", 1)));
            v.push(format!("    function {}() external {{}}", &n[..n.len() - 1]));
            v.push(format!("    /* function {n}() external {{}} */"));
            v.push(format!("    string s_ = \"function {n}() external {{}}\";"));
            v.push(format!("    event {n}();"));
        }
    }
    v
}

/// Every insertion of one of `xs` into `base`.
pub fn with_one(base: &[P], xs: &[String]) -> Vec<Vec<P>> {
    let mut v = vec![];
    for pos in 0..=base.len() {
        for x in xs {
            let mut p = base.to_vec();
            p.insert(pos, P::User(x.clone()));
            v.push(p);
        }
    }
    v
}

const BEFORES: &[&str] = &[
    "",
    "// SPDX-License-Identifier: MIT\npragma solidity 0.8.0;\n\n",
    "// contract Nope { é 😀\npragma solidity ^0.8.0;\n\nimport {Test} from \"forge-std/Test.sol\";\nimport \"./b.sol\";\n\n",
    "pragma solidity >=0.8.0 <0.9.0;\n\nstruct G {\n    uint256 a;\n}\n\nfunction free() pure returns (string memory) {\n    return \"contract } {\";\n}\n\nuint256 constant C = 1;\n\n/* é } */\n\n",
    "// Tests of contract $C {\n\n/// contract $C, modifier whenB() {\nstring constant S = \"contract $C {\";\n\n/*\ncontract $C {\n    function test_A() external {}\n}\n*/\n",
    "error E1();\n\nusing {free} for uint256;\n\ntype T is uint256;\n\nenum Top {\n    A\n}\n\n/// @title doc\n/// @dev {\n",
];
const AFTERS: &[&str] = &["", "// the end } é\n", "\ncontract Other is Thing {\n    function inOther() external {}\n\n    modifier m() {\n        _;\n    }\n}\n", "\nlibrary L {}\n\ninterface I {\n    function g() external;\n}\n", "\nfunction freeAfter() {}\n", "\n// contract $C ends\n\ncontract $C2 is $C {\n    string s = \"contract $C {\";\n}\n"];
const HEADERS: &[&str] = &["", " is Test", " is A, B(1), C.D", " is A(\"{\", 1)", " is A(\"{\"), B(\"} {\", T({x: 1, y: \"}\"}), hex\"00\")", "\n    // { is\n    is\n    A, // {\n    B // c {\n", " /* { is */ is Test /* } { */", " /* contract $C */ is $C2", "abstract is Test", "abstract"];

/// All the file-level variants of a state.
fn files(s: &St, names: bool) -> Vec<St> {
    let mut v = vec![];
    let root = s.spec.want.name.clone();
    let mut ns = vec![root.clone()];
    if names {
        ns.extend([format!("{root}X"), root.to_lowercase(), "Other2".into(), root[..root.len() - 1].to_string(), "_$a1".into()]);
    }
    for b in BEFORES {
        for a in AFTERS {
            for h in HEADERS {
                for n in &ns {
                    let mut x = s.clone();
                    // `$C` is the contract's own name
                    x.before = b.replace("$C", n);
                    x.after = a.replace("$C", n);
                    x.contract = Some((n.clone(), h.replace("$C", n)));
                    v.push(x);
                }
            }
        }
    }
    v
}

/// The file-level variants of a state in which either the text around the
/// contract or its header and name differ from the usual ones.
fn some_files(s: &St, names: bool) -> Vec<St> {
    files(s, names).into_iter().filter(|x| {
        let (n, h) = x.contract.as_ref().unwrap();
        (*n == s.spec.want.name && *h == HEADERS[1]) || (x.before == BEFORES[1] && x.after == AFTERS[2]) || (x.before.contains("Tests of contract") && x.after == AFTERS[0] && *h == HEADERS[1])
    }).collect()
}

/// Files without a contract.
fn bare(spec: &Arc<Spec>) -> Vec<St> {
    let mut v = vec![];
    for b in BEFORES.iter().chain(&["\n\n", " \t\n", "// only a comment", "/* only } */", "function free() {}", "pragma solidity 0.8.0;", "// SPDX-License-Identifier: MIT\n// contract Root {}\n", "\u{feff}"]) {
        for skip in [false, true] {
            for crlf in [false, true] {
                let mut x = St::new(spec, vec![]).m(skip);
                x.before = b.replace("$C", "Root");
                x.contract = None;
                x.crlf = crlf;
                v.push(x);
            }
        }
    }
    // the byte order mark is not Solidity
    v.retain(|s| !s.before.starts_with('\u{feff}'));
    v
}

// ------------------------------------------------------------------- C15

fn judge_missing(w: &mut Worker, s: &St) -> R {
    w.mc.state();
    w.mc.sample(|| s.key().into());
    s.put(w);
    let o = w.run(&s.args(&[]));
    crashed(s, &o, "check")?;
    w.mc.trace();
    let r = report(&o);
    let mut got: Vec<K> = r.viols.iter().map(|v| v.kind.clone()).filter(|k| !matches!(k, K::Order(_))).collect();
    got.sort();
    let mut want = vec![];
    match &s.contract {
        None => want.push(K::NoContract(s.spec.want.name.clone())),
        Some((n, _)) => {
            if *n != s.spec.want.name {
                want.push(K::Renamed(s.spec.want.name.clone(), n.clone()));
            }
            want.extend(s.missing().into_iter().map(|i| K::Missing(s.spec.want.items[i].name().into())));
        }
    }
    want.sort();
    w.mc.outcome(&format!("{} missing", want.len()));
    if got != want {
        return bad(s, format!("check reports\n{got:#?}\ninstead of\n{want:#?}"), &o.show());
    }
    // nothing but the tree's own constructs is reported, for order either
    for v in &r.viols {
        if let K::Order(n) = &v.kind {
            if !s.spec.want.items.iter().any(|i| i.name() == n) {
                return bad(s, format!("check reports {n:?}, which is not in the tree"), &o.show());
            }
        }
    }
    Ok(())
}

pub fn c15(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every subset of the expected items of every tree within the bounds, in order and reversed, with and without -m, in every style; bigger families of trees and long names x one item missing or moved; typical specs x every subset x every extra part and near miss at every position, and pairs of them; every file-level variant (name, header, text before and after) x subset; files without contract: the missing-construct violations equal the model's set difference".into();
    let n = mc.pick(6, 7);
    let k = mc.pick(5, 6);
    mc.bound("nodes", n as u64);
    mc.bound("items", k as u64);
    mc.par(trees(n, k).into_iter().chain(two_trees(3, k)).flat_map(|s| {
        let mut v = vec![];
        for (x, sub) in subsets(s.n()).into_iter().enumerate() {
            for skip in [false, true] {
                v.push(St::new(&s, items(&sub, S + x % S)).m(skip).flat(x % 3 == 1));
                let mut rev = sub.clone();
                rev.reverse();
                v.push(St::new(&s, items(&rev, x % S)).m(skip));
            }
        }
        v
    }), judge_missing);
    mc.par(big(mc), judge_missing);
    mc.par(many_parts(mc), judge_missing);
    for s in typical() {
        let mut xs = user_parts();
        xs.extend(near_misses(&s));
        let st: Vec<St> = subsets(s.n())
            .into_iter()
            .flat_map(|sub| {
                let base = items(&sub, S);
                with_one(&base, &xs).into_iter().flat_map(|p| [St::new(&s, p.clone()), St::new(&s, p).m(true)]).collect::<Vec<_>>()
            })
            .collect();
        mc.par(st.into_iter(), judge_missing);
        // pairs of extras
        let misses = near_misses(&s);
        let subs = [vec![], (0..s.n()).collect::<Vec<_>>(), (1..s.n()).collect(), (0..s.n()).step_by(2).collect()];
        let all = if mc.thorough { xs.clone() } else { misses };
        let st: Vec<St> = subs
            .iter()
            .flat_map(|sub| {
                let base = items(sub, S + 1);
                let mut v = vec![];
                for x in &all {
                    for y in &all {
                        let mut p = base.clone();
                        p.insert(0, P::User(x.clone()));
                        p.push(P::User(y.clone()));
                        v.push(St::new(&s, p));
                    }
                }
                v
            })
            .collect();
        mc.par(st.into_iter(), judge_missing);
        let st: Vec<St> = [vec![], vec![0], (1..s.n()).collect::<Vec<_>>(), (0..s.n()).collect()].iter().flat_map(|sub| files(&St::new(&s, items(sub, S)), true)).collect();
        mc.par(st.into_iter(), judge_missing);
        mc.par(formed(&s, &[(0..s.n()).collect(), (1..s.n()).collect(), (0..s.n()).step_by(2).collect()], false).into_iter(), judge_missing);
        mc.par(bare(&s).into_iter(), judge_missing);
        // the items elsewhere: in another contract, free, in a comment
        let elsewhere: Vec<St> = subsets(s.n())
            .into_iter()
            .flat_map(|sub| {
                let others: String = (0..s.n()).map(|i| item_src(&s.want.items[i], 0) + "\n").collect();
                let free: String = s.want.items.iter().filter(|i| !i.is_mod()).map(|i| format!("function {}() {{}}\n", i.name())).collect();
                [format!("\ncontract Second {{\n{others}}}\n"), format!("\n{free}"), format!("\n/*\n{others}*/\n"), format!("\nlibrary Root2 {{\n{others}}}\n")]
                    .into_iter()
                    .map(|a| {
                        let mut x = St::new(&s, items(&sub, S));
                        x.after = a;
                        x
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
        mc.par(elsewhere.into_iter(), judge_missing);
    }
}

// ------------------------------------------------------------------- C16

fn judge_order(w: &mut Worker, s: &St) -> R {
    w.mc.state();
    w.mc.sample(|| s.key().into());
    s.put(w);
    let o = w.run(&s.args(&[]));
    crashed(s, &o, "check")?;
    w.mc.trace();
    let r = report(&o);
    let pos: Vec<(usize, usize)> = (0..s.spec.n()).filter_map(|i| s.find(i).map(|p| (i, p))).collect();
    // what stands behind something that the tree puts later
    let out_of_place: Vec<&str> = pos
        .iter()
        .filter(|(i, p)| pos.iter().any(|(j, q)| i < j && q < p))
        .map(|(i, _)| s.spec.want.items[*i].name())
        .collect();
    let got: Vec<&String> = r
        .viols
        .iter()
        .filter_map(|v| match &v.kind {
            K::Order(n) => Some(n),
            _ => None,
        })
        .collect();
    w.mc.outcome(&format!("{} out of place", out_of_place.len()));
    if let Some(n) = out_of_place.iter().find(|n| !got.iter().any(|g| g == *n)) {
        return bad(s, format!("{n:?} is out of place, but check reports only {got:?}"), &o.show());
    }
    if let Some(n) = got.iter().find(|n| !out_of_place.contains(&n.as_str())) {
        return bad(s, format!("check reports {n:?}, which is in place ({out_of_place:?} are not)"), &o.show());
    }
    for (i, n) in got.iter().enumerate() {
        if got[..i].contains(n) {
            return bad(s, format!("{n:?} is reported twice"), &o.show());
        }
    }
    Ok(())
}

pub fn c16(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every arrangement of every subset of the expected items of every tree within the bounds (for trees with the largest number of items: every permutation), with and without -m; bigger families of trees and long names x one item missing or moved; typical specs x every permutation (in the quick tier, beyond 4 items: the identity, exchanges of neighbours, the reversal and rotations) x every extra part at every position and at all positions at once, and file-level variants: the functions reported as out of order are exactly those that stand behind one that the tree puts later".into();
    let n = mc.pick(7, 8);
    let k = mc.pick(5, 6);
    mc.bound("nodes", n as u64);
    mc.bound("items", k as u64);
    mc.par(trees(n, k).into_iter().chain(two_trees(3, k)).flat_map(|s| {
        let all: Vec<usize> = (0..s.n()).collect();
        let mut v = vec![];
        let orders = if s.n() <= k - 1 { arrangements(s.n()) } else { permutations(&all) };
        for (x, p) in orders.into_iter().enumerate() {
            for skip in [false, true] {
                v.push(St::new(&s, items(&p, x % (2 * S))).m(skip).flat(x % 3 == 1));
            }
        }
        v
    }), judge_order);
    mc.par(big(mc), judge_order);
    mc.par(many_parts(mc), judge_order);
    for s in typical() {
        let all: Vec<usize> = (0..s.n()).collect();
        let perms = permutations(&all);
        // every style, on one line
        mc.par((0..S).flat_map(|x| perms.iter().map(|p| St::new(&s, p.iter().map(|i| P::Item(*i, x)).collect()).flat(true)).collect::<Vec<_>>()), judge_order);
        mc.par(formed(&s, &near_orders(s.n()), false).into_iter(), judge_order);
        let mut xs = user_parts();
        xs.extend(near_misses(&s));
        let few = if mc.thorough || s.n() <= 4 { perms.clone() } else { near_orders(s.n()) };
        let st = few.iter().flat_map(|p| with_one(&items(p, S), &xs).into_iter().map(|p| St::new(&s, p)).collect::<Vec<_>>());
        mc.par(st.collect::<Vec<_>>().into_iter(), judge_order);
        let few = if mc.thorough { &perms[..] } else { &near_orders(s.n()) };
        let st = few.iter().flat_map(|p| if mc.thorough { files(&St::new(&s, items(p, S + 1)), false) } else { some_files(&St::new(&s, items(p, S + 1)), false) });
        mc.par(st.collect::<Vec<_>>().into_iter(), judge_order);
        // an extra part at every position at once
        let st = perms.iter().flat_map(|p| {
            xs.iter()
                .map(|x| {
                    let mut v = vec![P::User(x.clone())];
                    for i in items(p, S + 2) {
                        v.push(i);
                        v.push(P::User(x.clone()));
                    }
                    St::new(&s, v)
                })
                .collect::<Vec<_>>()
        });
        mc.par(st.collect::<Vec<_>>().into_iter(), judge_order);
    }
}

// -------------------------------------------------------------- C18 and C19

/// Everything `--fix` has to work on: shared by C18 and C19.
fn fixing(mc: &Mc, f: fn(&mut Worker, &St) -> R) {
    let n = mc.pick(5, 6);
    let k = mc.pick(4, 5);
    mc.bound("nodes", n as u64);
    mc.bound("items", k as u64);
    mc.par(trees(n, k).into_iter().chain(two_trees(2, k)).flat_map(|s| {
        let mut v = vec![];
        for (x, a) in arrangements(s.n()).into_iter().enumerate() {
            v.push(St::new(&s, items(&a, S + x % S)).flat(x % 4 == 2));
            v.push(St::new(&s, items(&a, x % S)).m(true).flat(x % 4 == 1));
        }
        v
    }), f);
    mc.par(big(mc), f);
    for (t, s) in typical().into_iter().enumerate() {
        let mut xs = user_parts();
        let own = xs.clone();
        xs.extend(near_misses(&s));
        xs.extend(overloads(&s));
        // one extra part
        let subs = few_arrangements(s.n());
        let arr = if mc.thorough { arrangements(s.n()) } else { subs.clone() };
        let st = arr.iter().enumerate().flat_map(|(x, a)| {
            let one = with_one(&items(a, S + x % S), &xs);
            one.into_iter().flat_map(|p| if mc.thorough { vec![St::new(&s, p.clone()), St::new(&s, p).m(true)] } else { vec![St::new(&s, p).m((x + t) % 3 == 0)] }).collect::<Vec<_>>()
        });
        mc.par(st.collect::<Vec<_>>().into_iter(), f);
        // every form of the items
        let some = if mc.thorough { subs.clone() } else { subs.iter().step_by(2).cloned().collect() };
        mc.par(formed(&s, &some, true).into_iter(), f);
        // file-level variants
        let st = subs.iter().enumerate().flat_map(|(x, sub)| {
            let st = St::new(&s, items(sub, S + x));
            let all = if mc.thorough { files(&st, true) } else { some_files(&st, true) };
            let forms: Vec<(bool, bool)> = if mc.thorough { vec![(false, false), (true, false), (false, true), (true, true)] } else { vec![([x, x / 2][t % 2] % 2 == 0, x % 3 == 0)] };
            all.into_iter()
                .flat_map(|y| {
                    forms
                        .iter()
                        .map(|(crlf, skip)| {
                            let mut y = y.clone();
                            (y.crlf, y.skip) = (*crlf, *skip);
                            y
                        })
                        .collect::<Vec<_>>()
                })
                .collect::<Vec<_>>()
        });
        mc.par(st.collect::<Vec<_>>().into_iter(), f);
        mc.par(bare(&s).into_iter(), f);
        // pairs of extra parts around and between
        let (subs, ps) = if mc.thorough { (subs, xs) } else if t == 0 { (vec![(0..s.n() - 1).rev().collect()], own) } else { continue };
        let st = subs.iter().flat_map(|sub| {
            let base = items(sub, S + 1);
            let mut v = vec![];
            for x in &ps {
                for y in &ps {
                    let mut p = base.clone();
                    p.insert(p.len() / 2, P::User(x.clone()));
                    p.push(P::User(y.clone()));
                    v.push(St::new(&s, p));
                }
            }
            v
        });
        mc.par(st.collect::<Vec<_>>().into_iter(), f);
    }
}

fn overloads(s: &Spec) -> Vec<String> {
    s.want.items.iter().filter(|i| !i.is_mod()).map(|i| format!("    function {}(uint256 a, address) external returns (uint256) {{\n        return a;\n    }}", i.name())).collect()
}

/// The position of every expected item in a contract.
fn positions(s: &Spec, o: &sol::Outline) -> Vec<Option<usize>> {
    s.want.items.iter().map(|i| o.parts.iter().position(|p| p.is(i.is_mod(), i.name()))).collect()
}

/// After `--fix`, every expected item is there, in order, and once.
pub fn converged(before: &str, after: &str, spec: &Spec, skip: bool, contract: bool) -> Result<(), String> {
    let old = sol::outline(before);
    let new = sol::outline(after);
    let (op, np) = (positions(spec, &old), positions(spec, &new));
    let mut last = None;
    for (i, it) in spec.want.items.iter().enumerate() {
        let count = |o: &sol::Outline| o.parts.iter().filter(|p| p.is(it.is_mod(), it.name())).count();
        let must = !(skip && it.is_mod()) || (contract && op[i].is_some());
        if must && np[i].is_none() {
            return Err(format!("{} is not there after --fix", it.name()));
        }
        let was = if contract { count(&old) } else { 0 };
        let want = if must { was.max(1) } else { 0 };
        if count(&new) != want {
            return Err(format!("{} is there {} times after --fix instead of {want}", it.name(), count(&new)));
        }
        if np[i].is_some() {
            if np[i] < last {
                return Err(format!("{} is out of order after --fix", it.name()));
            }
            last = np[i];
        }
    }
    Ok(())
}

fn judge_converges(w: &mut Worker, s: &St) -> R {
    w.mc.state();
    w.mc.sample(|| s.key().into());
    let before = s.put(w);
    let fix = w.run(&s.args(&["--fix"]));
    crashed(s, &fix, "check --fix")?;
    let after = w.get("a.t.sol").unwrap_or_default();
    w.mc.trace();
    let log = format!("--- after --fix ---\n{after}\n--- --fix ---\n{}", fix.show());
    let r = report(&fix);
    if fix.code != 0 || !r.viols.is_empty() {
        return bad(s, "check --fix does not succeed", &log);
    }
    let o = w.run(&s.args(&[]));
    crashed(s, &o, "check")?;
    w.mc.trace();
    if o.code != 0 || !report(&o).ok || !report(&o).viols.is_empty() {
        return bad(s, "check still reports problems after --fix", &format!("{log}\n--- check ---\n{}", o.show()));
    }
    let again = w.run(&s.args(&["--fix"]));
    crashed(s, &again, "check --fix")?;
    w.mc.trace();
    let twice = w.get("a.t.sol").unwrap_or_default();
    if twice != after || report(&again).fixed != Some(0) || again.code != 0 {
        return bad(s, "a second check --fix changes something", &format!("{log}\n--- after the second --fix ---\n{twice}\n{}", again.show()));
    }
    if let Err(m) = converged(&before, &after, &s.spec, s.skip, s.contract.is_some()) {
        return bad(s, m, &log);
    }
    w.mc.outcome(&format!("{} issues fixed", r.fixed.unwrap_or(0)));
    Ok(())
}

pub fn c18(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every arrangement of every subset of the expected items of every tree within the bounds, bigger families of trees and long names x one item missing or moved, typical specs x arrangements (quick: 6 of them) x every extra part at every position, pairs of them, file-level variants, files without contract; -m, line ends and styles alternate with the arrangement in the quick tier and are multiplied in the thorough one: check --fix, then check, then check --fix again on the real files".into();
    fixing(mc, judge_converges);
    // other definitions first: the first contract-like one is the contract
    for s in typical() {
        let mut v = vec![];
        for first in ["interface IRoot {}\n\n", "library Lib {}\n\n", "abstract contract Base {\n    function b() internal {}\n}\n\n"] {
            for a in subsets(s.n()) {
                let mut x = St::new(&s, items(&a, 0));
                x.before = format!("pragma solidity 0.8.0;\n\n{first}");
                v.push(x);
            }
        }
        mc.par(v.into_iter(), |w, s| {
            w.mc.state();
            s.put(w);
            let fix = w.run(&s.args(&["--fix"]));
            crashed(s, &fix, "check --fix")?;
            let after = w.get("a.t.sol").unwrap_or_default();
            let o = w.run(&s.args(&[]));
            w.mc.trace();
            if fix.code != 0 || o.code != 0 {
                return bad(s, "check still reports problems after --fix", &format!("--- after ---\n{after}\n{}", o.show()));
            }
            Ok(())
        });
    }
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn bag<T: Ord, I: IntoIterator<Item = T>>(it: I) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in it {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}
fn minus<T: Ord + Clone>(a: &BTreeMap<T, usize>, b: &BTreeMap<T, usize>) -> Vec<(T, usize)> {
    a.iter().filter_map(|(k, n)| n.checked_sub(*b.get(k).unwrap_or(&0)).filter(|x| *x > 0).map(|x| (k.clone(), x))).collect()
}

const BANNER: &[&str] = &["<<<<<<<<", "BULLOAK AUTOGENERATED SEPARATOR", ">>>>>>>>", "could not be automatically moved by bulloak", "========"];

/// The formatter writes the empty parentheses of modifiers' definitions, and
/// doesn't those of their uses.
fn spelled(toks: &[String]) -> String {
    let mut v: Vec<&str> = toks.iter().map(|t| t.as_str()).collect();
    match v.first() {
        Some(&"modifier") if v.len() > 2 && v[2] != "(" => {
            v.splice(2..2, ["(", ")"]);
        }
        Some(&"function") => {
            let end = v.iter().position(|t| *t == "{" || *t == ";").unwrap_or(v.len());
            let mut k = v[..end].iter().position(|t| *t == ")").unwrap_or(end);
            while k + 2 < v.len() && !["{", ";"].contains(&v[k]) {
                if v[k + 1] == "(" && v[k + 2] == ")" && v[k].chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') {
                    v.drain(k + 1..k + 3);
                }
                k += 1;
            }
        }
        _ => {}
    }
    v.join(" ")
}

/// After `--fix`, all that was there is still there, and what is new is as generated.
pub fn preserved(before: &str, after: &str, spec: &Spec, contract: bool, missing: &[usize]) -> Result<(), String> {
    let old = sol::outline(before);
    let new = sol::outline(after);
    if !old.balanced {
        panic!("unbalanced input: {before}");
    }
    if !new.balanced {
        return Err("the fixed file is not well-formed".into());
    }
    if new.name.as_deref() != Some(spec.want.name.as_str()) {
        return Err(format!("the contract is named {:?}", new.name));
    }
    let toks = |v: &[sol::Part]| v.iter().map(|p| p.toks.join(" ")).collect::<Vec<_>>();
    let blank = before.trim().is_empty();
    if contract && old.header != new.header {
        return Err(format!("the header of the contract was {:?}, is {:?}", old.header, new.header));
    }
    if !blank && toks(&old.others) != toks(&new.others) {
        return Err(format!("other top-level definitions changed from {:#?} to {:#?}", toks(&old.others), toks(&new.others)));
    }
    if contract && old.at != new.at {
        return Err("the contract moved past other definitions".into());
    }
    // the contract's parts: the old ones, and the missing items as generated
    // the formatter moves comments out of definitions that end in a semicolon
    let inner = |p: &sol::Part| if p.toks.last().is_some_and(|t| t == ";") { vec![] } else { p.comments.clone() };
    let part = |p: &sol::Part| (spelled(&p.toks), inner(p).iter().map(|c| squeeze(c)).collect::<Vec<_>>());
    let gen = |i: usize| {
        let t = refm::item_tokens(&spec.want.items[i], false);
        let (c, t): (Vec<String>, Vec<String>) = t.into_iter().partition(|x| x.starts_with("//"));
        (t.join(" "), c.iter().map(|c| squeeze(c)).collect::<Vec<_>>())
    };
    let mut want: Vec<(String, Vec<String>)> = old.parts.iter().map(part).collect();
    want.extend(missing.iter().map(|i| gen(*i)));
    let (a, b) = (bag(want), bag(new.parts.iter().map(part)));
    if a != b {
        return Err(format!("parts of the contract were lost: {:#?}\nand others appeared: {:#?}", minus(&a, &b), minus(&b, &a)));
    }
    // comments
    let mut want: Vec<String> = old.comments.iter().map(|c| squeeze(c)).collect();
    for i in missing {
        want.extend(gen(*i).1);
    }
    let (a, b) = (bag(want), bag(new.comments.iter().map(|c| squeeze(c))));
    let lost = minus(&a, &b);
    if !lost.is_empty() {
        return Err(format!("comments were lost: {lost:?}"));
    }
    let banner = |c: &str| BANNER.iter().any(|b| c.contains(b));
    let extra: Vec<_> = minus(&b, &a).into_iter().filter(|(c, n)| !(banner(c) && *n <= 1) && !(blank && c.contains("SPDX"))).collect();
    if !extra.is_empty() {
        return Err(format!("comments appeared: {extra:?}"));
    }
    Ok(())
}

fn judge_preserves(w: &mut Worker, s: &St) -> R {
    w.mc.state();
    w.mc.sample(|| s.key().into());
    let before = s.put(w);
    let fix = w.run(&s.args(&["--fix"]));
    crashed(s, &fix, "check --fix")?;
    let after = w.get("a.t.sol").unwrap_or_default();
    w.mc.trace();
    let log = format!("--- after --fix ---\n{after}\n--- --fix ---\n{}", fix.show());
    if w.get("a.tree").as_deref() != Some(s.spec.text.as_str()) {
        return bad(s, "the tree file was changed", &log);
    }
    let missing: Vec<usize> = if s.contract.is_some() { s.missing() } else { (0..s.spec.n()).filter(|i| !(s.skip && s.spec.want.items[*i].is_mod())).collect() };
    if let Err(m) = preserved(&before, &after, &s.spec, s.contract.is_some(), &missing) {
        return bad(s, m, &log);
    }
    w.mc.outcome(&format!("{} inserted", missing.len()));
    Ok(())
}

pub fn c19(mc: &Mc) {
    *mc.rule.lock().unwrap() = "the same files as for C18: after check --fix the token sequences of all user definitions and all comments are a permutation of what was there, plus exactly the missing items as scaffold generates them; header, other top-level definitions and their order are unchanged".into();
    fixing(mc, judge_preserves);
}

// ------------------------------------------------------------------- C14

pub fn c14(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every accepted file of the general space of trees x every combination of scaffold options: scaffold -w, check, check --fix through the real CLI".into();
    let opts = Opts::all();
    let limit = mc.pick(2000, 20000);
    mc.bound("files_with_all_options", limit as u64);
    let cases = p_scaffold::cases(mc, 6, 8).enumerate().flat_map(move |(i, c)| {
        let opts = opts.clone();
        // all options for the small ones, two for the others
        let small = i < limit;
        opts.into_iter().filter(move |o| small || (o.skip_mods == o.vm_skip && o.version == Opts::default().version)).map(move |o| (c.clone(), o)).collect::<Vec<_>>()
    });
    mc.par(cases, |w, (c, o)| roundtrip(w, c, o));
    // names that need care
    let titles = ["a", "A", "a b c", "a-b", "a'b", "a \"b\" c", "1", "_", "x_y", "é", "日本", "aB cD", "the / of", "$x"];
    let mut v = vec![];
    for a in titles {
        for root in ["Root", "root", "R-oot", "R oot", "Ro/ot", "Ré", "R1_", "$R", "Root::f", "R-oot::f g", "Ro::o::t"] {
            let t = tree(root, vec![cond(&format!("when {a}"), vec![act(&format!("it {a}")), cond(&format!("given {a} x"), vec![act("It Should Revert"), act("it y")])]), act(&format!("it {a} z"))]);
            v.push((Case::one(t.clone()), Opts::default()));
            v.push((Case::one(t.clone()), Opts { skip_mods: true, vm_skip: true, ..Opts::default() }));
            let mut t1 = t.clone();
            t1.root = format!("{root}::f{a}");
            let mut t2 = t.clone();
            t2.root = format!("{root}::g_{a}");
            v.push((Case::many(vec![t1, t2]), Opts::default()));
        }
    }
    mc.par(v.into_iter(), |w, (c, o)| roundtrip(w, c, o));
}

fn roundtrip(w: &mut Worker, c: &Case, o: &Opts) -> R {
    w.mc.state();
    let (text, _) = c.build();
    w.mc.sample(|| text.clone().into());
    w.put("a.tree", &text);
    w.del("a.t.sol");
    let mut a = vec!["scaffold", "-w"];
    a.extend(o.args());
    a.push("a.tree");
    let s = w.run(&a);
    if s.code == 1 {
        // which trees are accepted is the subject of C04, C09 and C12
        w.mc.outcome("not accepted");
        return Ok(());
    }
    let fail = |m: &str, rest: String| viol(format!("{o:?} {text}"), format!("{m}\noptions: {o:?}\n--- a.tree ---\n{text}\n{rest}"));
    if s.crashed() {
        return fail("scaffold crashed", s.show());
    }
    let Some(sol) = w.get("a.t.sol") else { return fail("scaffold -w wrote no file", s.show()) };
    let mut a = vec!["check"];
    if o.skip_mods {
        a.push("-m");
    }
    a.push("a.tree");
    let k = w.run(&a);
    w.mc.trace();
    if k.code != 0 || !report(&k).ok || !report(&k).viols.is_empty() {
        return fail("check complains about a scaffolded file", format!("--- a.t.sol ---\n{sol}\n{}", k.show()));
    }
    a.insert(1, "--fix");
    let f = w.run(&a);
    w.mc.trace();
    if f.code != 0 || report(&f).fixed != Some(0) {
        return fail("check --fix finds something to fix in a scaffolded file", format!("--- a.t.sol ---\n{sol}\n{}", f.show()));
    }
    let now = w.get("a.t.sol").unwrap_or_default();
    if now != sol {
        return fail("check --fix changes a scaffolded file", format!("--- before ---\n{sol}\n--- after ---\n{now}\n{}", f.show()));
    }
    w.mc.outcome("round trip");
    Ok(())
}

// ------------------------------------------------------------------- C17

fn agree(o: &Out) -> Result<Report, String> {
    let r = report(o);
    if o.crashed() {
        return Err("crashed".into());
    }
    if let Some(V { kind: K::Other(m), .. }) = r.viols.iter().find(|v| matches!(v.kind, K::Other(_))) {
        return Err(format!("an unknown violation is listed: {m:?}"));
    }
    if r.viols.is_empty() {
        if o.code != 0 {
            return Err(format!("exit status {} although nothing is listed", o.code));
        }
        if r.total.is_some() {
            return Err("a failure summary although nothing is listed".into());
        }
    } else {
        if o.code != 1 {
            return Err(format!("exit status {} although {} violations are listed", o.code, r.viols.len()));
        }
        if r.ok {
            return Err("the success line is printed although violations are listed".into());
        }
        if r.total != Some(r.viols.len()) {
            return Err(format!("{:?} checks failed, but {} are listed", r.total, r.viols.len()));
        }
        let f = r.viols.iter().filter(|v| v.fix.is_some()).count();
        if r.fixes.unwrap_or(0) != f {
            return Err(format!("{:?} fixes announced, but {f} violations are marked fixable", r.fixes));
        }
    }
    Ok(r)
}

/// One file of a C17 invocation: the tree and what lies next to it.
#[derive(Clone, Debug)]
struct F {
    tree: Option<String>,
    sol: Option<Vec<u8>>,
}

/// Runs check, --fix and check on some files with the given base names.
/// `name` is the path without the extension, which is `tree`, unless it follows after a `|`.
fn verdicts(w: &mut Worker, fs: &[(String, F)], skip: bool) -> R {
    w.mc.state();
    w.clean();
    let mut all = String::new();
    let tree_of = |n: &str| match n.split_once('|') {
        Some((b, "")) => b.to_string(),
        Some((b, e)) => format!("{b}.{e}"),
        None => format!("{n}.tree"),
    };
    let sol_of = |n: &str| format!("{}.t.sol", n.split('|').next().unwrap());
    for (n, f) in fs {
        if let Some((d, _)) = n.rsplit_once('/') {
            std::fs::create_dir_all(w.dir.join(d)).unwrap();
        }
        if let Some(t) = &f.tree {
            w.put(&tree_of(n), t);
            all.push_str(&format!("--- {} ---\n{t}\n", tree_of(n)));
        }
        if let Some(s) = &f.sol {
            w.put(&sol_of(n), s);
            all.push_str(&format!("--- {} ---\n{}\n", sol_of(n), String::from_utf8_lossy(s)));
        }
    }
    let names: Vec<String> = fs.iter().map(|(n, _)| tree_of(n)).collect();
    let args = |fix: &[&'static str]| {
        let mut a = vec!["check"];
        a.extend(fix);
        if skip {
            a.push("-m");
        }
        a.extend(names.iter().map(|s| s.as_str()));
        a
    };
    let fail = |m: String, o: &Out| viol(format!("{skip} {all}"), format!("{m}\nfiles: {names:?}, -m: {skip}\n{all}{}", o.show()));
    let first = w.run(&args(&[]));
    let r1 = match agree(&first) {
        Ok(r) => r,
        Err(m) => return fail(m, &first),
    };
    w.mc.trace();
    w.mc.outcome(&r1.viols.iter().map(|v| label(&v.kind)).collect::<Vec<_>>().join(", "));
    if r1.viols.is_empty() && !r1.ok {
        return fail("no violation is listed, but no success line either".into(), &first);
    }
    for v in &r1.viols {
        // the hints name the tree file concerned
        let Some(loc) = &v.loc else { return fail(format!("{:?} is listed without a location", v.msg), &first) };
        let path = match loc.rsplit_once(':') {
            Some((p, l)) if l.parse::<usize>().is_ok() => p,
            _ => loc,
        };
        let Some((n, _)) = fs.iter().find(|(n, _)| tree_of(n) == path || sol_of(n) == path) else {
            return fail(format!("{:?} is located in {path:?}, which is none of the files", v.msg), &first);
        };
        let tree = tree_of(n);
        if let Some(f) = &v.fix {
            if *f != format!("bulloak check --fix {tree}") {
                return fail(format!("the suggested command is {f:?} for {tree:?}"), &first);
            }
        }
        if let (K::NoSol(_), Some(h)) = (&v.kind, &v.help) {
            if !h.contains(&format!("`bulloak scaffold {tree}`")) {
                return fail(format!("the suggested command is {h:?} for {tree:?}"), &first);
            }
        }
    }
    let fix = w.run(&args(&["--fix"]));
    if fix.crashed() {
        return fail("check --fix crashed".into(), &fix);
    }
    let second = w.run(&args(&[]));
    let r2 = match agree(&second) {
        Ok(r) => r,
        Err(m) => return fail(format!("after --fix: {m}"), &second),
    };
    w.mc.trace();
    // fixable exactly if --fix repairs it
    let id = |v: &V| (v.kind.clone(), v.loc.as_ref().map(|l| l.rsplit_once(':').map_or(l.clone(), |x| x.0.to_string())));
    let rest: Vec<_> = r2.viols.iter().map(id).collect();
    for v in &r1.viols {
        if v.fix.is_some() == rest.contains(&id(v)) {
            let m = if v.fix.is_some() { "is marked fixable, but is still there after --fix" } else { "is not marked fixable, but gone after --fix" };
            return fail(format!("{:?} {m}", v.msg), &second);
        }
    }
    for v in &rest {
        if !r1.viols.iter().any(|x| id(x) == *v) {
            return fail(format!("{v:?} is new after --fix"), &second);
        }
    }
    // what remains is reported by the --fix run itself
    let rf = report(&fix);
    if r2.viols.is_empty() != (fix.code == 0) {
        return fail(format!("check --fix exits with {}, but {} violations remain", fix.code, r2.viols.len()), &fix);
    }
    if !r2.viols.is_empty() {
        if bag(rf.viols.iter().map(id)) != bag(rest) {
            return fail(format!("check --fix reports {:?}, but what remains is {:?}", rf.viols, r2.viols), &fix);
        }
        if let Err(m) = agree(&fix) {
            return fail(format!("--fix: {m}"), &fix);
        }
        // it speaks of the files as they are then
        let lines = |r: &Report| bag(r.viols.iter().map(|v| (v.kind.clone(), v.loc.clone(), v.fix.clone(), v.help.clone())));
        if lines(&rf) != lines(&r2) {
            return fail(format!("check --fix reports {:?}, but then check says {:?}", rf.viols, r2.viols), &fix);
        }
    }
    let fixed = r1.viols.iter().filter(|v| v.fix.is_some()).count();
    if rf.fixed.unwrap_or(0) < 1 && fixed > 0 {
        return fail(format!("{fixed} violations were fixed, but check --fix claims {:?}", rf.fixed), &fix);
    }
    if rf.fixed.unwrap_or(0) > 0 && fixed == 0 {
        return fail(format!("nothing was fixed, but check --fix claims {:?}", rf.fixed), &fix);
    }
    Ok(())
}

/// Kinds of files with all kinds of verdicts.
fn kinds() -> Vec<F> {
    let s = &typical()[1];
    let n = s.n();
    let all: Vec<usize> = (0..n).collect();
    let rev: Vec<usize> = (0..n).rev().collect();
    let st = |p: &[usize]| St::new(s, items(p, S));
    let f = |x: St| F { tree: Some(x.spec.text.clone()), sol: Some(x.sol().text.into_bytes()) };
    let mut renamed = st(&rev[1..]);
    renamed.contract = Some(("Nope".into(), " is Test".into()));
    let mut bare = st(&[]);
    bare.contract = None;
    let good = f(st(&all));
    vec![
        good.clone(),
        f(st(&rev)),
        f(st(&all[1..])),
        f(st(&rev[..n - 1])),
        f(renamed),
        f(bare),
        F { sol: None, ..good.clone() },
        F { sol: Some(b"contract {".to_vec()), ..good.clone() },
        F { sol: Some(vec![0xff, 0xfe, b'a']), ..good.clone() },
        F { sol: Some(vec![]), ..good.clone() },
        F { tree: None, ..good.clone() },
        F { tree: Some("Root\n├── when a\n└── it b".into()), ..good.clone() },
        F { tree: Some("Root\n├── when a\n│   └── it b\n└── when a\n    └── it c".into()), ..good.clone() },
        F { tree: Some("A::b\n└── it x\n\nB::c\n└── it y".into()), ..good.clone() },
        F { tree: Some("Root\n└── blah".into()), sol: None },
    ]
}

pub fn c17(mc: &Mc) {
    *mc.rule.lock().unwrap() = "check, check --fix and check again on: every arrangement of the items of every tree within the bounds (with and without -m), typical specs x arrangements (quick: 6 of them) x every extra part at every position x -m, every triple of 15 kinds of files in one invocation, files given several times, every kind at different paths, 30 roots that are no contract names or look so: exit status, success line, listing, totals, hints and what remains agree".into();
    let n = mc.pick(5, 6);
    let k = mc.pick(4, 5);
    mc.bound("nodes", n as u64);
    mc.bound("items", k as u64);
    mc.bound("files_per_invocation", 3);
    let one = |w: &mut Worker, s: &St| verdicts(w, &[("a".into(), F { tree: Some(s.spec.text.clone()), sol: Some(s.sol().text.into_bytes()) })], s.skip);
    mc.par(trees(n, k).into_iter().chain(two_trees(2, k)).flat_map(|s| {
        let mut v = vec![];
        for (x, a) in arrangements(s.n()).into_iter().enumerate() {
            let mut st = St::new(&s, items(&a, S + x % S)).m(x % 3 == 0);
            if x % 4 == 1 {
                st.contract = Some(("Wrong".into(), String::new()));
            }
            v.push(st);
        }
        v
    }), one);
    for s in typical() {
        let mut xs = user_parts();
        xs.extend(overloads(&s));
        let arr = if mc.thorough { arrangements(s.n()) } else { few_arrangements(s.n()) };
        let st: Vec<St> = arr
            .iter()
            .enumerate()
            .flat_map(|(x, a)| with_one(&items(a, x % (2 * S)), &xs).into_iter().flat_map(|p| [St::new(&s, p.clone()), St::new(&s, p).m(true)]).collect::<Vec<_>>())
            .collect();
        mc.par(st.into_iter(), one);
        mc.par(bare(&s).into_iter(), one);
    }
    let ks = kinds();
    let m = ks.len();
    for count in 1..=3usize {
        let ks = &ks;
        mc.par((0..m.pow(count as u32)).flat_map(|x| [(x, false), (x, true)]), |w, (x, skip)| {
            let mut x = *x;
            let mut fs = vec![];
            for i in 0..count {
                fs.push((format!("f{i}"), ks[x % m].clone()));
                x /= m;
            }
            verdicts(w, &fs, *skip)
        });
    }
    // files given more than once, also under other names
    mc.par((0..m * m).flat_map(|x| (0..6).map(move |y| (x, y))), |w, (x, y)| {
        let (a, b) = (ks[x % m].clone(), ks[x / m].clone());
        let names: &[(&str, &F)] = match y {
            0 => &[("a", &a), ("a", &a), ("b", &b)],
            1 => &[("a", &a), ("b", &b), ("a", &a)],
            2 => &[("a", &a), ("./a", &a), ("b", &b), ("b", &b)],
            3 => &[("d/a", &a), ("b", &b), ("d/../d/a", &a), ("d/a", &a)],
            4 => &[("a", &a), ("b", &b), ("b", &b), ("a", &a), ("b", &b)],
            _ => &[("a", &a), ("a", &a), ("a", &a), ("a", &a)],
        };
        verdicts(w, &names.iter().map(|(n, f)| (n.to_string(), (*f).clone())).collect::<Vec<_>>(), y % 2 == 1)
    });
    // roots that are no contract names, and those that look so
    let roots = ["1Root", "€", "contract", "int", "-", "a-b", "from", "error", "::", "K::", "is", "unchecked", "_", "$", "a$b", "ß", "address", "payable", "a.b", "Root;", "Root{}", "uint7", "0x", "a\u{a0}b", "//", "/*", "\"", "hex", "unicode", "abstract"];
    let texts = ["", "\n\n\n", "struct S { uint x; }\n", "\n\n\n// x\n\n\n\ncontract Foo{\n\n\n\n function test_B() external{}\n\n\n\n function test_A() external{}}\n", "contract Foo is A,\n\n\n B {}\n\n\ncontract Bar {}", "contract Foo {\n    function test_A() external {\n        // it a\n    }\n\n    function test_B() external {\n        // it b\n    }\n}\n", "library Root {}\n", "\n\n\nabstract\n\n\ncontract\n\n\nRoot\n\n\n{\n\n\n}"];
    mc.par(roots.into_iter().flat_map(|r| texts.into_iter().flat_map(move |t| [(r, t, false), (r, t, true)])), |w, (r, t, skip)| {
        let f = |r: &str| F { tree: Some(format!("{r}\n├── it a\n└── it b\n")), sol: Some(t.as_bytes().to_vec()) };
        verdicts(w, &[("a".into(), f(r))], *skip)?;
        verdicts(w, &[("a".into(), f("Root")), ("b".into(), f(r)), ("c".into(), f("Foo"))], *skip)
    });
    // any number of violations, in one file and over many
    let mut ns: Vec<usize> = (0..=34).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]).collect();
    if mc.thorough {
        ns = (0..=300).chain([511, 512, 513]).collect();
    }
    mc.bound("violations", *ns.last().unwrap() as u64);
    mc.par(ns.iter().rev().flat_map(|n| (0..6).map(move |k| (*n, k))), |w, (n, k)| {
        let fns = |v: &mut dyn Iterator<Item = usize>| v.map(|i| format!("    function test_A{i}() external {{\n        // it a{i}\n    }}\n")).collect::<Vec<_>>().join("\n");
        let tree = format!("Root\n{}└── it z\n", (0..*n).map(|i| format!("├── it a{i}\n")).collect::<String>());
        let z = "    function test_Z() external {\n        // it z\n    }\n";
        let fs: Vec<(String, F)> = match k {
            // all missing; every second one missing; in reverse order; -, and one missing
            0 => vec![("a".into(), F { tree: Some(tree), sol: Some(format!("contract Root {{\n{z}}}\n").into()) })],
            1 => vec![("a".into(), F { tree: Some(tree), sol: Some(format!("contract Root {{\n{}{z}}}\n", fns(&mut (0..*n).step_by(2))).into()) })],
            2 => vec![("a".into(), F { tree: Some(tree), sol: Some(format!("contract Root {{\n{}{z}}}\n", fns(&mut (0..*n).rev())).into()) })],
            3 => vec![("a".into(), F { tree: Some(tree), sol: Some(format!("contract Roof {{\n{}}}\n", fns(&mut (0..*n).rev())).into()) })],
            // that many files that can't be fixed, or with one violation each
            4 => (0..*n.min(&300)).map(|i| (format!("f{i}"), F { tree: Some("Root\n└── it a\n".into()), sol: None })).collect(),
            _ => (0..*n.min(&300)).map(|i| (format!("f{i}"), F { tree: Some("Root\n└── it a\n".into()), sol: Some("contract Root {}\n".into()) })).collect(),
        };
        if fs.is_empty() {
            return Ok(());
        }
        verdicts(w, &fs, false)
    });
    // paths
    let paths = ["./a", "d/a", "a.t", "a.b", "x.tree", "x.t.sol", "d.t.sol/a", "d.tree/a", "sp ace/a b", "é/日本", ".hidden", "a.t.sol.tree/b.t.sol", "-a/../a", "t.sol",
        // trees need not be called .tree
        "a|spec", "a|", "a.tree|txt", "x.t.sol|spec", "d.tree/a|", ".hidden|", "a|Tree", "a|sol", "a|t", "a.t|x"];
    let mut v: Vec<(String, F)> = paths.iter().flat_map(|p| ks.iter().map(move |k| (p.to_string(), k.clone()))).collect();
    // long ones
    for n in [40usize, 60, 79, 81, 101, 121, 160, 200, 240, 249] {
        for p in [format!("{}/a", "x".repeat(n)), "y".repeat(n), format!("{}a", "zé/".repeat(n / 3)), format!("a {}", "b ".repeat(n / 2 - 1).trim_end())] {
            v.extend(ks.iter().map(|k| (p.clone(), k.clone())));
        }
    }
    mc.par(v.into_iter(), |w, (p, f)| {
        if p.starts_with('-') {
            std::fs::create_dir_all(w.dir.join("-a")).unwrap();
        }
        let p = if p.starts_with('-') { format!("./{p}") } else { p.clone() };
        verdicts(w, &[(p, f.clone())], false)
    });
}

// ------------------------------------------------------------------- C05

/// The locations printed by check.
pub fn c05_check(mc: &Mc) {
    let n = mc.pick(5, 6);
    let k = mc.pick(4, 5);
    let judge = |w: &mut Worker, s: &St| -> R {
        w.mc.state();
        let src = s.sol();
        s.put(w);
        let o = w.run(&s.args(&[]));
        crashed(s, &o, "check")?;
        w.mc.trace();
        let r = report(&o);
        for v in &r.viols {
            let want = match &v.kind {
                K::NoContract(_) => "a.tree".to_string(),
                K::Renamed(..) => format!("a.t.sol:{}", src.contract_line),
                K::Missing(n) => match (0..s.spec.n()).find(|i| s.spec.want.items[*i].name() == n) {
                    Some(i) => format!("a.tree:{}", s.spec.line(i)),
                    None => continue,
                },
                K::Order(n) => match (0..s.spec.n()).find(|i| s.spec.want.items[*i].name() == n).and_then(|i| s.find(i)) {
                    Some(p) => format!("a.t.sol:{}", src.lines[p]),
                    None => continue,
                },
                _ => continue,
            };
            w.mc.outcome(&format!("located: {}", if want.contains(".sol") { "sol" } else { "tree" }));
            if v.loc.as_deref() != Some(want.as_str()) {
                return bad(s, format!("{:?} is located at {:?} instead of {want}", v.msg, v.loc), &o.show());
            }
        }
        Ok(())
    };
    mc.par(trees(n, k).into_iter().enumerate().flat_map(|(t, s)| {
        // the same tree elsewhere in its file
        let mut c = s.case.clone();
        c.layout = [0, 1, 2, 3, 4, 5, 6, 7, 8][t % 9];
        c.before = crate::p_syntax::prefixes()[t % 4];
        let s = Spec::new(c).unwrap();
        let mut v = vec![];
        for (x, a) in arrangements(s.n()).into_iter().enumerate() {
            let mut st = St::new(&s, items(&a, S + x % S));
            st.before = BEFORES[x % BEFORES.len()].replace("$C", "Root");
            st.crlf = x % 3 == 1;
            if x % 5 == 2 {
                st.contract = Some(("Wrong".into(), " is A".into()));
            }
            v.push(st);
        }
        v
    }), judge);
    // far down in big files
    mc.par(many_parts(mc), judge);
    for before in ["\n".repeat(300), "\n".repeat(65_600), "// c\n".repeat(300), "// é\r\n".repeat(65_600)] {
        let before: &'static str = Box::leak(before.into_boxed_str());
        mc.par(typical().into_iter().flat_map(|s| {
            let mut c = s.case.clone();
            c.before = before;
            let s = Spec::new(c).unwrap();
            few_arrangements(s.n()).into_iter().map(|a| St::new(&s, items(&a, S))).collect::<Vec<_>>()
        }), judge);
    }
    mc.par(two_trees(3, k).into_iter().enumerate().flat_map(|(t, s)| {
        let mut c = s.case.clone();
        c.layout = t % 9;
        c.before = crate::p_syntax::prefixes()[t % 4];
        c.sep = crate::p_syntax::separators()[t % 5];
        let s = Spec::new(c).unwrap();
        subsets(s.n()).into_iter().map(|a| St::new(&s, items(&a, S))).collect::<Vec<_>>()
    }), judge);
    for s in typical() {
        let xs = user_parts();
        let arr = if mc.thorough {
            arrangements(s.n())
        } else {
            let mut v = few_arrangements(s.n());
            v.extend(near_orders(s.n()));
            v
        };
        let st: Vec<St> = arr
            .into_iter()
            .flat_map(|a| with_one(&items(&a, S), &xs).into_iter().map(|p| St::new(&s, p)).collect::<Vec<_>>())
            .collect();
        mc.par(st.into_iter(), judge);
        let n = s.n();
        let st: Vec<St> = [(0..n).rev().collect::<Vec<_>>(), vec![n - 1]].iter().flat_map(|a| files(&St::new(&s, items(a, S)), true)).collect();
        mc.par(st.into_iter(), judge);
    }
    // whole files: the file that is broken is named
    let broken: Vec<(F, &str)> = kinds()
        .into_iter()
        .enumerate()
        .filter_map(|(i, f)| match i {
            5 | 6 | 10..=14 => Some((f, "a.tree")),
            7 | 8 => Some((f, "a.t.sol")),
            _ => None,
        })
        .collect();
    mc.par(broken.into_iter(), |w, (f, want)| {
        w.mc.state();
        w.clean();
        if let Some(t) = &f.tree {
            w.put("a.tree", t);
        }
        if let Some(s) = &f.sol {
            w.put("a.t.sol", s);
        }
        let o = w.run(&["check", "a.tree"]);
        w.mc.trace();
        let r = report(&o);
        let loc = r.viols.first().and_then(|v| v.loc.clone()).unwrap_or_default();
        if r.viols.len() != 1 || loc.split(':').next() != Some(*want) {
            return viol(format!("{f:?}"), format!("the violation is not located in {want}: {r:?}\n{f:#?}\n{}", o.show()));
        }
        Ok(())
    });
}

// ------------------------------------------------------------------- C02

/// All flag combinations on the tree and Solidity file in place.
fn all_flags(w: &mut Worker, tree: &[u8], sol: Option<&[u8]>) -> R {
    w.mc.state();
    let sets: [&[&str]; 6] = [&["check", "a.tree"], &["check", "-m", "a.tree"], &["check", "--fix", "--stdout", "a.tree"], &["check", "--fix", "--stdout", "-m", "a.tree"], &["check", "--fix", "a.tree"], &["check", "--fix", "-m", "a.tree"]];
    for a in sets {
        w.put("a.tree", tree);
        match sol {
            Some(s) => w.put("a.t.sol", s),
            None => w.del("a.t.sol"),
        }
        let o = w.run(a);
        w.mc.trace();
        w.mc.outcome(&format!("exit {} ({})", o.code, a.len()));
        if o.crashed() {
            let s = sol.map(|s| String::from_utf8_lossy(s).into_owned());
            let t = String::from_utf8_lossy(tree);
            // a panic inside of a dependency is identified by its call site
            let key = match o.stderr.split("/registry/src/").nth(1) {
                Some(p) => format!("panic at {}", p.split('/').skip(1).collect::<Vec<_>>().join("/").split(":\n").next().unwrap_or("")),
                None => format!("{a:?} {t} {s:?}"),
            };
            return viol(
                key,
                format!("bulloak crashed\nargs: {a:?}\n--- a.tree ---\n{t}\n--- a.t.sol ---\n{}\n{}", s.unwrap_or("(absent)".into()), o.show()),
            );
        }
    }
    Ok(())
}

const SOL_PIECES: &[&str] = &[
    "contract ", "Root ", "X", "{", "}", "function ", "test_A", "()", ";", "modifier ", "whenB", "_;", " is A", "//", "/*", "*/", "\"", "'", "é", "\n", "\r", "interface I {}", "pragma solidity 0.8.0;", "abstract ", "external", "constructor", "0x", "\\", "\u{0}", "\u{feff}", "assembly", "forgefmt: disable-start", "unicode\"é\"",
];

/// Statements and definitions of every kind the grammar knows.
const STATEMENTS: &[&str] = &[
    "return;", "x = 1;", "x++;", "delete x;", "if (a) b();", "if (a) {} else if (b) {} else {}", "for (uint256 i = 0; i < 1; i++) {}", "for (;;) {}", "while (true) { break; }", "do { continue; } while (true);", "unchecked { x--; }", "emit E(1);", "revert();", "revert E(1);", "revert E({a: 1, b: 2});", "try this.f() returns (uint256 a) { a; } catch Error(string memory) {} catch {}", "(uint256 a, ) = f();", "(, b) = g();", "f{value: 1, gas: 2}(3);", "new X{salt: 0}(1);", "assembly { let a := 1 if a { } for { } lt(a, 1) { } { } switch a case 0 { } default { } function g(b) -> c { leave } }", "assembly \"evmasm\" (\"memory-safe\") { }", "a ? b : c;", "x = hex\"00\" hex\"11\";", "x = \"a\" \"b\";", "x = unicode\"é\";", "x = 1 ether + 2 days;", "x = 0x1F + 1e10 + 1_000 + .5;", "type(uint256).max;", "a[1:2];", "a[:];", "abi.encode(a, (b), ((c)));", "!a && -b > ~c ** 2 << 3;", "function() external returns (uint256) f;", "mapping(uint256 k => address v) storage m;", "{ { } }", "uint256[] memory a = new uint256[](1);", "x = a.b.c(d)(e);", "using A for B;", "address payable a;", "_;", "//", "/**/", "payable(a).transfer(1);", "x = y = z;", "x >>>= 1;", "f({});", "a = [1, 2];", "true;", "this;", "super.f();", "string memory s = 'a\\'b';",
];
const DEFS: &[&str] = &[
    "", "using A for *;", "using {f, g as +} for T global;", "type T is uint256;", "error E();", "error E(uint256 a, string);", "event E(uint256 indexed a) anonymous;", "struct S { }", "struct S { uint256 a; }", "enum E { }", "enum E { A, B }", "uint256 immutable x;", "uint256 public constant x = 1;", "uint256 transient x;", "mapping(a => b[]) public override(A, B) m;", "constructor(uint256 a) A(a) payable {}", "receive() external payable {}", "fallback(bytes calldata) external returns (bytes memory) {}", "function () {}", "function f();", "function f(uint256, uint256 b) public pure virtual override(A, B) m(1) n returns (uint256) {}", "function f() f g h i j k {}", "modifier m { _; }", "modifier m(uint256 a) virtual override { _; }", "modifier m;", "modifier test_Aa { _; }", "function receive() {}", "function fallback() {}", ";", "assembly {}", "a b;", "function test_Aa() {} function test_Aa(uint256) {}", "function test_Aa(", "modifier whenM() { _; } modifier whenM() { _; }", "function test_Aa() external { // }\n}", "function\ntest_Aa\n(\n)\nexternal\n{\n}", "function test_Aa() external /* ; */ ;", "function test_Aa() external virtual // ;\n ;", "/** @dev */", "/// x", "//", "/* é */", "string s = \"é\";",
];

pub fn c02(mc: &Mc) {
    *mc.rule.lock().unwrap() = format!("all six flag combinations on: every sequence of parts (<= bound) out of definitions of every kind and the spec's items, alone and with each other; every statement kind in a test body; every sequence of <= bound pieces over an adversarial Solidity alphabet of {} pieces, as a file and inside a contract; every single-character deletion, truncation and piece insertion of a full file; adversarial trees next to good contracts; missing, unreadable and non-text files", SOL_PIECES.len());
    let spec = Spec::new(Case::one(tree("Root", vec![cond("when m", vec![cond("when n", vec![act("it x")]), act("it should revert")]), act("it aa")]))).unwrap();
    let good = spec.text.clone();
    // definitions
    let mut parts: Vec<String> = DEFS.iter().map(|s| s.to_string()).collect();
    parts.extend(spec.want.items.iter().map(|i| item_src(i, 0)));
    let len = mc.pick(2, 3);
    mc.bound("parts", len as u64);
    let m = parts.len();
    let frames = ["contract Root {\n", "contract Nope is A(1), B {\n", "interface Root {\n", "library Root {", "abstract contract Root /* { */ {", "contract Root // {\r{", "contract Root /*{*/ is A // {\r /* } */ {"];
    for n in 1..=len {
        mc.par((0..m.pow(n)).flat_map(|x| (0..if n == 1 || (n == 2 && mc.thorough) { frames.len() } else { 1 }).map(move |f| (x, f))), |w, (x, f)| {
            let mut x = *x;
            let mut s = String::from(frames[*f]);
            for _ in 0..n {
                s.push_str(&parts[x % m]);
                s.push('\n');
                x /= m;
            }
            s.push('}');
            all_flags(w, good.as_bytes(), Some(s.as_bytes()))
        });
    }
    // definitions at the top level
    mc.par(parts.clone().into_iter(), |w, p| {
        for s in [p.clone(), format!("{p}\ncontract Root {{}}"), format!("contract Root {{}}\n{p}"), format!("contract A {{}} {p} contract Root {{}}")] {
            all_flags(w, good.as_bytes(), Some(s.as_bytes()))?;
        }
        Ok(())
    });
    // statements
    let body = |a: &str, b: &str| format!("contract Root {{ function test_Aa() external {{ {a}\n{b}\n}} function f() {{ {b}\n {a}\n}} }}");
    let st = STATEMENTS.len();
    let all = mc.thorough;
    mc.par((0..st * st).filter(move |x| all || x % st == 0 || x / st == 0 || x / st == x % st), |w, x| all_flags(w, good.as_bytes(), Some(body(STATEMENTS[x / st], STATEMENTS[x % st]).as_bytes())));
    // pieces
    let k = SOL_PIECES.len();
    let len = mc.pick(2, 3);
    mc.bound("pieces", len as u64);
    for n in 0..=len {
        mc.par(0..k.pow(n), |w, x| {
            let mut x = *x;
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(SOL_PIECES[x % k]);
                x /= k;
            }
            all_flags(w, good.as_bytes(), Some(s.as_bytes()))?;
            all_flags(w, good.as_bytes(), Some(format!("contract Root {{ function test_Aa() {{}} {s} }}").as_bytes()))?;
            all_flags(w, good.as_bytes(), Some(format!("contract {s} {{}}").as_bytes()))
        });
    }
    // damaged files
    let all: Vec<usize> = (0..spec.n()).rev().collect();
    let mut full = St::new(&spec, items(&all, S + 1));
    full.before = BEFORES[2].into();
    full.parts.insert(1, P::User(user_parts()[14].clone()));
    let text = full.sol().text;
    let at: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    let thorough = mc.thorough;
    mc.par(at.into_iter(), |w, i| {
        let c = text[*i..].chars().next().unwrap().len_utf8();
        let mut x = text.clone();
        x.replace_range(*i..i + c, "");
        all_flags(w, good.as_bytes(), Some(x.as_bytes()))?;
        all_flags(w, good.as_bytes(), Some(text[..*i].as_bytes()))?;
        if thorough {
            for p in SOL_PIECES {
                let mut x = text.clone();
                x.insert_str(*i, p);
                all_flags(w, good.as_bytes(), Some(x.as_bytes()))?;
                let mut x = text.clone();
                x.replace_range(*i..i + c, p);
                all_flags(w, good.as_bytes(), Some(x.as_bytes()))?;
            }
        }
        Ok(())
    });
    let short = "contract Root is A {modifier whenM() {_;}function test_Aa() external {}}";
    mc.par((0..=short.len()).flat_map(|i| (0..SOL_PIECES.len()).map(move |p| (i, p))), |w, (i, p)| {
        let mut x = short.to_string();
        x.insert_str(*i, SOL_PIECES[*p]);
        all_flags(w, good.as_bytes(), Some(x.as_bytes()))
    });
    // trees
    let sols: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(text.clone().into_bytes()), Some(b"contract Root {}".to_vec()), Some(vec![0xff]), Some(b"contract {".to_vec())];
    let pieces = p_scaffold::PIECES;
    let n = mc.pick(1, 2);
    mc.bound("tree_pieces", n as u64);
    let k = pieces.len();
    let sols = &sols;
    mc.par((0..=n).flat_map(|n| (0..k.pow(n as u32)).map(move |x| (n, x))), |w, (n, x)| {
        let mut x = *x;
        let mut s = String::new();
        for _ in 0..*n {
            s.push_str(pieces[x % k]);
            x /= k;
        }
        for sol in sols {
            for t in [s.clone(), format!("Root\n└── {s}"), format!("Root\n├── when b{s}\n│   ├── when c\n│   │   └── it c\n│   └── it {s}\n└── it aa"), format!("Root{s}\n└── it aa"), format!("Root::{s}\n└── it aa\n\n{s}::x\n└── it a")] {
                all_flags(w, t.as_bytes(), sol.as_deref())?;
            }
        }
        Ok(())
    });
    // every shape of tree against a few contracts
    let n1 = mc.pick(5, 7);
    mc.bound("nodes", n1 as u64);
    mc.par((1..=n1).flat_map(|n| forests(n, false)), |w, s| {
        let c = Case::one(labelled(s.clone(), "Root"));
        let (text, rs) = c.build();
        let want = refm::expect(&c.ts, &rs).unwrap();
        let half: String = want.items.iter().rev().step_by(2).map(|i| item_src(i, 0) + "\n").collect();
        all_flags(w, text.as_bytes(), Some(format!("contract Root {{\n{half}}}").as_bytes()))?;
        all_flags(w, text.as_bytes(), Some(b"// \xc3\xa9\ncontract Root is A {} contract B {}"))
    });
    // odd places
    mc.one("odd places", |w| {
        w.clean();
        w.put("a.tree", &spec.text);
        std::fs::create_dir_all(w.dir.join("a.t.sol")).unwrap();
        std::fs::create_dir_all(w.dir.join("d.tree")).unwrap();
        for a in [&["check", "a.tree"][..], &["check", "--fix", "a.tree"], &["check", "d.tree"], &["check", "none.tree"], &["check", "."], &["check", "/"], &["check", ".."], &["check"], &["check", "--fix"], &["check", "--fix", "none.tree", "d.tree", "a.tree"], &["check", "none.tree", "none.tree"]] {
            w.mc.state();
            let o = w.run(a);
            w.mc.trace();
            if o.crashed() {
                return viol(format!("{a:?}"), format!("bulloak crashed\nargs: {a:?}\n{}", o.show()));
            }
        }
        Ok(())
    });
}
