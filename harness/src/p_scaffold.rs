//! C01 and C06..C12: generating Solidity from trees.
use crate::p_syntax::{prefixes, separators};
use crate::refm::{self, Contract, Item, Opts, Reject};
use crate::rt::*;
use crate::sol;
use crate::tree::*;
use bulloak_foundry::config::Config;
use std::collections::{HashMap, HashSet};

pub fn config(o: &Opts) -> Config {
    Config { solidity_version: o.version.clone(), skip_modifiers: o.skip_mods, emit_vm_skip: o.vm_skip, ..Config::default() }
}

const CLI_PART: u64 = 8;
/// What is generated for a text: through the library, or, for a fixed part of
/// the texts, through the real command.
pub fn scaffold(w: &Worker, text: &str, o: &Opts) -> Result<String, String> {
    w.mc.reads(text);
    if hash(text) % CLI_PART == 0 || text.len() > 60_000 {
        w.put("lib.tree", text);
        let version = format!("--solidity-version={}", o.version);
        let mut a = vec!["scaffold", "lib.tree", &version];
        if o.skip_mods {
            a.push("-m");
        }
        if o.vm_skip {
            a.push("-S");
        }
        let r = w.run(&a);
        w.del("lib.tree");
        return match r.code {
            0 => Ok(r.stdout.strip_suffix('\n').unwrap_or(&r.stdout).to_string()),
            1 => Err(r.stderr.split("\nfile: ").next().unwrap().to_string()),
            _ => Err(format!("the command failed\n{}", r.show())),
        };
    }
    bulloak_foundry::scaffold::scaffold(text, &config(o)).map_err(|e| e.to_string())
}

/// A part of a generated contract.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum G {
    Mod { name: String, toks: Vec<String> },
    Test { name: String, mods: Vec<String>, comments: Vec<String>, body: Vec<String> },
    Other(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub name: String,
    pub header: Vec<String>,
    pub parts: Vec<G>,
    pub others: Vec<Vec<String>>,
    pub comments: Vec<String>,
    pub balanced: bool,
    pub contract_last: bool,
}

pub fn read_gen(src: &str) -> Gen {
    let o = sol::outline(src);
    let parts = o
        .parts
        .iter()
        .map(|p| {
            let t = &p.toks;
            match p.kind() {
                "modifier" if t.len() >= 2 => G::Mod { name: t[1].clone(), toks: t.clone() },
                "function" if t.len() >= 5 && t[2] == "(" && t[3] == ")" && t[4] == "external" => {
                    let b = t.iter().position(|x| x == "{").unwrap_or(t.len());
                    G::Test {
                        name: t[1].clone(),
                        mods: t[5.min(b)..b].to_vec(),
                        comments: p.comments.clone(),
                        body: t[(b + 1).min(t.len())..t.len() - 1].to_vec(),
                    }
                }
                _ => G::Other(t.clone()),
            }
        })
        .collect();
    Gen {
        name: o.name.clone().unwrap_or_default(),
        header: o.header,
        parts,
        contract_last: o.at == o.others.len(),
        others: o.others.into_iter().map(|p| p.toks).collect(),
        comments: o.comments,
        balanced: o.balanced,
    }
}

impl Gen {
    pub fn tests(&self) -> Vec<(&String, &Vec<String>, &Vec<String>)> {
        self.parts
            .iter()
            .filter_map(|p| match p {
                G::Test { name, mods, comments, .. } => Some((name, mods, comments)),
                _ => None,
            })
            .collect()
    }
    pub fn mods(&self) -> Vec<&String> {
        self.parts
            .iter()
            .filter_map(|p| match p {
                G::Mod { name, .. } => Some(name),
                _ => None,
            })
            .collect()
    }
}

fn want_tests(c: &Contract) -> Vec<(&String, &Vec<String>, Vec<String>)> {
    c.items
        .iter()
        .filter_map(|i| match i {
            Item::Test { name, mods, comments, .. } => Some((name, mods, comments.iter().map(|c| format!("// {c}").trim_end().to_string()).collect())),
            _ => None,
        })
        .collect()
}

/// A tree file to explore.
#[derive(Clone)]
pub struct Case {
    pub ts: Vec<Tree>,
    pub layout: usize,
    pub before: &'static str,
    pub sep: &'static str,
}
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.build().0)
    }
}
impl Case {
    pub fn one(t: Tree) -> Case {
        Case { ts: vec![t], layout: 0, before: "", sep: "\n" }
    }
    pub fn many(ts: Vec<Tree>) -> Case {
        Case { ts, layout: 0, before: "", sep: "\n" }
    }
    pub fn at(mut self, l: usize) -> Case {
        self.layout = l;
        self
    }
    pub fn build(&self) -> (String, Vec<Rendered>) {
        let l = &layouts()[self.layout];
        let fix = |s: &str| if l.eol == "\r\n" { s.replace("\r\n", "\n").replace('\n', "\r\n") } else { s.to_string() };
        let sep = if l.final_eol { self.sep.to_string() } else { format!("\n{}", self.sep) };
        render_all(&self.ts, l, &fix(self.before), &fix(&sep), "")
    }
}

/// The general space of well-formed files: shapes x layouts, file compositions.
pub fn cases(mc: &Mc, q: usize, t: usize) -> impl Iterator<Item = Case> + Send {
    let n1 = mc.pick(q, t);
    mc.bound("nodes", n1 as u64);
    mc.bound("trees_per_file", 3);
    let single = (1..=n1).flat_map(move |n| {
        forests(n, false).into_iter().enumerate().flat_map(move |(i, s)| {
            let ls: Vec<usize> = if n <= 4 { (0..NL).collect() } else { vec![i % NL] };
            ls.into_iter().map(move |l| Case::one(revert_some(labelled(s.clone(), "Root"), i)).at(l))
        })
    });
    let small: Vec<Vec<Node>> = (1..=3).flat_map(|n| forests(n, false)).collect();
    let k = small.len();
    let s2 = small.clone();
    let two = (0..k * k).map(move |x| {
        let ts = vec![labelled(s2[x / k].clone(), "K::alpha"), revert_some(labelled(s2[x % k].clone(), "K::beta"), x)];
        Case { ts, layout: x % NL, before: prefixes()[x % 4], sep: separators()[x % 5] }
    });
    let tiny: Vec<Vec<Node>> = (1..=2).flat_map(|n| forests(n, false)).collect();
    let m = tiny.len();
    let three = (0..m * m * m).map(move |x| {
        let ts = vec![labelled(tiny[x % m].clone(), "K::a"), labelled(tiny[x / m % m].clone(), "K::b"), labelled(tiny[x / m / m].clone(), "K::cC_1")];
        Case { ts, layout: x % NL, before: "", sep: separators()[x % 5] }
    });
    single.chain(two).chain(three).chain(families(mc))
}

/// Files that grow in one direction each, at every size up to a bound.
pub fn families(mc: &Mc) -> impl Iterator<Item = Case> + Send {
    let (n2, most) = mc.pick((12, 66), (40, 130));
    mc.bound("sizes_of_families", n2 as u64);
    mc.bound("some_sizes_of_families", most as u64);
    let sizes = growing(n2, most);
    let shapes = sizes.clone().flat_map(move |n| family_shapes(n).into_iter().enumerate().map(move |(i, s)| Case::one(revert_some(labelled(s, "Root"), n * 5 + i)).at(if i < 6 { 0 } else { (n + i) % NL })));
    let trees = sizes.filter(|n| *n >= 4).flat_map(|n| {
        (0..4).map(move |x| {
            let ts = (0..n)
                .map(|i| {
                    let mut kids = match (x + i * (x / 2)) % 4 {
                        0 => vec![act("")],
                        1 => vec![cond("", vec![act("")])],
                        2 => vec![cond("", vec![cond("", vec![act("")])]), act("")],
                        _ => vec![cond("", vec![act(""), cond("", vec![cond("", vec![act("")])])])],
                    };
                    label(&mut kids);
                    tree(&format!("K::f{}", word(i)), kids)
                })
                .collect();
            Case { ts, layout: (n + x) % NL, before: prefixes()[x], sep: separators()[n % 5] }
        })
    });
    shapes.chain(trees).chain(long_texts(mc)).chain(long_files(mc)).chain(repeated(mc))
}

/// Trees whose descriptions and whose actions below conditions repeat each
/// other: every assignment of two texts to them.
fn repeated(mc: &Mc) -> impl Iterator<Item = Case> + Send {
    let n1 = mc.pick(5, 6);
    mc.bound("nodes_with_repeated_texts", n1 as u64);
    fn paint(kids: &mut [Node], below: bool, bits: &mut usize) {
        for k in kids {
            if k.kind == Kind::Desc || (k.kind == Kind::Act && below) {
                let x = if *bits & 1 == 1 { "same" } else { "other one" };
                *bits >>= 1;
                k.text = if k.kind == Kind::Act { format!("it {x}") } else { x.into() };
            }
            paint(&mut k.kids, k.kind == Kind::Cond, bits);
        }
    }
    fn count(kids: &[Node], below: bool) -> usize {
        kids.iter().map(|k| (k.kind == Kind::Desc || (k.kind == Kind::Act && below)) as usize + count(&k.kids, k.kind == Kind::Cond)).sum()
    }
    (2..=n1).flat_map(|n| forests(n, false)).flat_map(|s| {
        let m = count(&s, false);
        // the first one is the same, without loss of generality
        (0..if m < 2 { 0 } else { 1usize << (m - 1) }).map(move |bits| {
            let mut t = labelled(s.clone(), "Root");
            paint(&mut t.kids, false, &mut (bits << 1 | 1));
            Case::one(t)
        })
    })
}

/// Files of any number of bytes and lines, by comments before, within and
/// between trees.
fn long_files(mc: &Mc) -> impl Iterator<Item = Case> + Send {
    let most: usize = mc.pick(140_000, 5_000_000);
    mc.bound("file_bytes", most as u64);
    let sizes = [1000, 4080, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65520, 65535, 65536, 65537, 131072, 262144, 1 << 20, 4 << 20];
    sizes.into_iter().filter(move |n| *n <= most).flat_map(|n| {
        (0..4).map(move |k| {
            let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
            // one long line, or many lines
            let pad = leak(if k % 2 == 0 { format!("// {}\n", "é".repeat(n / 2)) } else { "// c\n".repeat(n / 5) });
            let kids = |x: &str| vec![cond(&format!("when {x}"), vec![act("it a"), cond("given c", vec![act("it should revert")])]), act("it z")];
            let ts = vec![tree("K::f", kids("b")), tree("K::g", kids("c"))];
            match k {
                0 | 1 => Case { ts, layout: 0, before: pad, sep: "\n" },
                _ => Case { ts, layout: 0, before: "", sep: leak(format!("\n{pad}")) },
            }
        })
    })
}

/// Texts of every length, so that every line reaches its widest and is broken.
pub fn long_texts(mc: &Mc) -> impl Iterator<Item = Case> + Send {
    let n3 = mc.pick(140, 300);
    mc.bound("text_lengths", n3 as u64);
    let more = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096].into_iter().filter(move |n| *n > n3);
    (1..=n3).chain(more).flat_map(|n| {
        let long = |k: &str| format!("{k} {}", "x".repeat(n));
        let words = |k: &str| format!("{k}{}", " ab".repeat(n.div_ceil(3)));
        [
            tree("Root", vec![cond(&long("when"), vec![act("it a"), cond("given b", vec![act("it should revert"), cond("when c", vec![act("it d")])])])]),
            tree("Root", vec![cond("when a", vec![cond(&words("given"), vec![cond("when z", vec![act(&words("it"))]), act("it b")])]), act(&words("it c"))]),
            tree("Root", vec![cond("when m", vec![cond("when n", vec![cond(&long("when"), vec![actd(&long("it"), vec![desc(&long("because"))])])])])]),
            tree(&long("R").replace(' ', ""), vec![act("it a")]),
        ]
        .map(Case::one)
    })
}

/// Gives some conditions `it should revert` as their first action (bits of `m`),
/// spelled in different ways.
pub fn revert_some(t: Tree, m: usize) -> Tree {
    fn rec(k: &mut Node, n: &mut usize, m: usize) {
        if k.kind == Kind::Cond {
            if let Some(a) = k.kids.iter_mut().find(|a| a.kind == Kind::Act) {
                if m >> (*n % 16) & 1 == 1 {
                    a.text = ["It should revert", "it should revert.", "IT SHOULD REVERT"][*n % 3].into();
                }
                *n += 1;
            }
        }
        for x in &mut k.kids {
            rec(x, n, m);
        }
    }
    let mut t = t;
    let mut n = 0;
    for k in &mut t.kids {
        rec(k, &mut n, m);
    }
    t
}

fn show(text: &str, out: &str) -> String {
    format!("--- tree file ---\n{text}\n--- generated ---\n{out}")
}

/// Runs `judge` on the generated contract of every case.
fn generated<J>(w: &mut Worker, c: &Case, o: &Opts, judge: J) -> R
where
    J: Fn(&Contract, &Gen, &str) -> Result<(), String>,
{
    let (text, rs) = c.build();
    w.mc.state();
    let want = match refm::expect(&c.ts, &rs) {
        Ok(x) => x,
        Err(_) => return Ok(()), // C09/C12 look at these
    };
    w.mc.sample(|| text.clone().into());
    let out = match scaffold(w, &text, o) {
        Ok(x) => x,
        Err(e) => return viol(&text, format!("a well-formed tree file is rejected: {e}\n--- tree file ---\n{text}")),
    };
    w.mc.trace();
    let g = read_gen(&out);
    w.mc.outcome(&format!("{} tests, {} modifiers", g.tests().len(), g.mods().len()));
    match judge(&want, &g, &out) {
        Ok(()) => Ok(()),
        Err(m) => viol(&text, format!("{m}\noptions: {o:?}\n{}", show(&text, &out))),
    }
}

/// Texts for comments: everything that could be special somewhere.
pub const NASTY: &[&str] = &[
    "plain", "*/", "/*", "/* a */ b", "a//b", "\"q\"", "'", "\\", "\\n", "{", "}", "};", "contract X {}", "; function f() {}", "é", "日本", "😀", "→", "—", "@dev x", "@", "/", "///", "`x`", "${x}", "%s", "#", "pragma", "unicode\"x\"", "<b>", "¡", "_", "|", "│", "^", "~", "a,b", "a.b", "...", "1.", "-", "--", "\u{200b}", "it", "when", "given", "forgefmt: disable-next-line", "SPDX-License-Identifier: MIT", "solhint-disable", "$", "=", "?", "!", "&&", "0x00", "\u{301}",
];

fn special_texts() -> Vec<(Case, String)> {
    let mut v = vec![];
    let mut texts: Vec<String> = vec![];
    for x in NASTY {
        texts.push(x.to_string());
        texts.push(format!("a {x}"));
        texts.push(format!("{x} b"));
        texts.push(format!("a {x} b {x}"));
        texts.push(format!("a{x}b"));
    }
    for n in [80, 119, 120, 121, 200, 1000] {
        texts.push("x".repeat(n));
        texts.push("word ".repeat(n / 5));
    }
    for c in 0x21u8..0x7f {
        texts.push((c as char).to_string());
    }
    for t in texts {
        // the text as a description and in an action, at each depth
        if t.starts_with("//") || t.contains(" //") || t.starts_with('│') || t.contains(" │") {
            continue; // drawing
        }
        let d = t.trim_end().to_string();
        let kw = matches!(d.split(' ').next().unwrap().to_lowercase().as_str(), "it" | "when" | "given");
        let a = format!("it {d}");
        let mut kids = vec![cond("when a", vec![act(&a), actd("it z", vec![desc("why"), desc("x1")]), cond("given b", vec![actd(&a, vec![])])])];
        kids.push(actd("it top", vec![]));
        if !kw {
            for k in &mut kids[1].kids {
                *k = desc(&d);
            }
            kids[1].kids.push(desc(&d));
            kids[0].kids[1].kids = vec![Node { kind: Kind::Desc, text: d.clone(), kids: vec![desc(&d)] }, desc("end")];
        }
        v.push((Case::one(tree("Root", kids)), d));
    }
    v
}

pub fn c06(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every tree shape within the node bound x layouts (with every pattern of reverting conditions up to 2^conditions, cycled), every 2- and 3-tree file of small shapes x separators x prefixes, and every special text at every comment position: the generated tests (in order, with their comments) and contract name equal the model's".into();
    let judge = |want: &Contract, g: &Gen, _: &str| -> Result<(), String> {
        if g.name != want.name {
            return Err(format!("the contract is named {:?} instead of {:?}", g.name, want.name));
        }
        if let Some(G::Other(t)) = g.parts.iter().find(|p| matches!(p, G::Other(_))) {
            return Err(format!("something other than tests and modifiers was generated: {}", t.join(" ")));
        }
        let w: Vec<_> = want_tests(want).into_iter().map(|t| t.2).collect();
        let got: Vec<_> = g.tests().iter().map(|t| t.2.clone()).collect();
        if w != got {
            return Err(format!("the comments of the tests are\n{got:#?}\ninstead of\n{w:#?}"));
        }
        if g.parts.iter().any(|p| matches!(p, G::Test { body, .. } if !body.is_empty())) {
            return Err("a test body holds code".into());
        }
        Ok(())
    };
    mc.par(cases(mc, 7, 9), |w, c| generated(w, c, &Opts::default(), judge));
    // with modifiers left out and the skip statement, the comments stay
    mc.par(cases(mc, 4, 6), |w, c| {
        generated(w, c, &Opts { skip_mods: true, ..Opts::default() }, judge)
    });
    mc.par(special_texts().into_iter(), |w, (c, _)| generated(w, c, &Opts::default(), judge));
    // several spaces are collapsed, comments dropped: see also C13
    mc.par([("it  a   b", "it a b"), ("it a // x", "it a"), ("it a    // x", "it a"), ("it a//x", "it a//x")].into_iter(), |w, (a, b)| {
        let t = tree("Root", vec![cond("when x", vec![act(a)])]);
        let text = render(&t, &Layout::default()).text;
        let out = scaffold(w, &text, &Opts::default()).or_else(|e| viol(&text, e))?;
        let g = read_gen(&out);
        let want = format!("// {b}");
        if g.tests().len() != 1 || *g.tests()[0].2 != vec![want.clone()] {
            return viol(&text, format!("expected the comment {want:?}\n{}", show(&text, &out)));
        }
        Ok(())
    });
}

pub fn c07(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every tree shape within the node bound x layouts and every 2- and 3-tree file of small shapes (distinct and shared conditions): each test's modifier list, and the set, order and bodies of the modifier definitions, equal the model's (up to a consistent renaming)".into();
    let judge = |want: &Contract, g: &Gen, _: &str| -> Result<(), String> {
        // tests are matched by their comments, which are unique in these trees
        let mut by: HashMap<Vec<String>, &Vec<String>> = HashMap::new();
        for (_, mods, comments) in want_tests(want) {
            by.insert(comments, mods);
        }
        let mut map: HashMap<String, String> = HashMap::new();
        let mut back: HashMap<String, String> = HashMap::new();
        for (name, mods, comments) in g.tests() {
            let Some(w) = by.get(comments) else { continue };
            let same = w.len() == mods.len()
                && w.iter().zip(mods.iter()).all(|(a, b)| {
                    map.entry(a.clone()).or_insert_with(|| b.clone()) == b && back.entry(b.clone()).or_insert_with(|| a.clone()) == a
                });
            if !same {
                return Err(format!("{name} is guarded by {mods:?} instead of {w:?}"));
            }
        }
        let mut defined: HashSet<&String> = HashSet::new();
        let mut used: HashSet<&String> = HashSet::new();
        for p in &g.parts {
            match p {
                G::Mod { name, toks } => {
                    if !defined.insert(name) {
                        return Err(format!("modifier {name} is defined twice"));
                    }
                    if toks[2..] != ["(", ")", "{", "_", ";", "}"] {
                        return Err(format!("modifier {name} does not just hold the placeholder: {}", toks.join(" ")));
                    }
                }
                G::Test { name, mods, .. } => {
                    for m in mods {
                        if !defined.contains(m) {
                            return Err(format!("{name} uses {m} before its definition"));
                        }
                        used.insert(m);
                    }
                }
                G::Other(_) => {}
            }
        }
        // a condition that encloses conditions always guards a test below it
        if let Some(m) = defined.iter().find(|m| !used.contains(*m)) {
            return Err(format!("modifier {m} is never used"));
        }
        Ok(())
    };
    mc.par(cases(mc, 7, 9), |w, c| {
        let mut c = c.clone();
        distinct_actions(&mut c);
        generated(w, &c, &Opts::default(), judge)
    });
    // shared conditions between the trees of a file
    let small: Vec<Vec<Node>> = (2..=mc.pick(4, 5)).flat_map(rule_forests).filter(|s| s.iter().any(has_nested)).collect();
    let pairs: Vec<(usize, usize)> = (0..small.len()).flat_map(|a| (0..small.len()).map(move |b| (a, b))).collect();
    mc.par(pairs.into_iter(), |w, (a, b)| {
        for shift in 0..3usize {
            let mut ts = vec![labelled(small[*a].clone(), "K::one"), labelled(small[*b].clone(), "K::two")];
            // same labels (shift 0) or partly shared ones
            let n = ts[1].size();
            for i in 0..n {
                ts[1] = ts[1].with_node(i, |x| {
                    if x.kind == Kind::Act {
                        x.text = format!("{} two", x.text);
                    } else if shift > 0 && i % 2 == shift - 1 {
                        x.text = format!("{} two", x.text);
                    }
                });
            }
            let c = Case::many(ts);
            generated(w, &c, &Opts::default(), judge)?;
        }
        Ok(())
    });
}
fn has_nested(k: &Node) -> bool {
    k.kids.iter().any(|x| x.kind == Kind::Cond) || k.kids.iter().any(has_nested)
}
/// Makes the comments of the trees of a file differ.
fn tag_trees(c: &mut Case) {
    for (ti, t) in c.ts.iter_mut().enumerate() {
        // from the end, as it adds nodes behind the ones it changes
        for i in (0..t.size()).rev() {
            *t = t.with_node(i, |x| {
                if x.kind == Kind::Act && !x.text.to_lowercase().starts_with("it should revert") {
                    x.text.push_str(&format!(" t{ti}"));
                } else if x.kind == Kind::Act {
                    // after the revert, what tells the tests apart
                    x.kids.push(desc(&format!("n{i} t{ti}")));
                }
            });
        }
    }
}
fn distinct_actions(c: &mut Case) {
    for (ti, t) in c.ts.iter_mut().enumerate() {
        let n = t.size();
        for i in 0..n {
            *t = t.with_node(i, |x| {
                if x.kind == Kind::Act {
                    x.text = format!("it {} t{ti}", word(i));
                }
            });
        }
    }
}

// ------------------------------------------------------------------------- C08

const WORDS: &[&str] = &["a", "B", "foo", "fooBar", "x-y", "-", "_", "it's", "\"q\"", "1", "9z", "test_", "It", "when", "A'b-c", "-d", "'e", "f_", "éà", "ßx", "日本", "ǆo", "ñ", "atest_b"];
/// For actions, whose text may hold anything.
const ACT_WORDS: &[&str] = &["a", "Foo.", "(b)", "x-y", "{c}", "@dev", "it's", "1%", "_", "$d", "→", "revert", "should", "a,b", "étÉ", "ßx"];

pub fn c08(mc: &Mc) {
    let k = mc.pick(2, 3);
    *mc.rule.lock().unwrap() = format!("every title of <= {k} words over an alphabet of {} words for conditions and {} for actions, every letter-case pattern of `it should revert`, in every context (leaf, parent, nested, sibling before/after, second tree of a file); every shape within the node bound: the generated names equal the documented function of the text", WORDS.len(), ACT_WORDS.len());
    mc.bound("words_per_title", k as u64);
    // Tests are found by their (unique) first comment; their names must be the
    // documented ones.
    let judge = |want: &Contract, g: &Gen, _: &str| -> Result<(), String> {
        named(want, g)?;
        let mods: HashSet<&str> = want.items.iter().filter(|i| i.is_mod()).map(|i| i.name()).collect();
        for m in g.mods() {
            if !mods.contains(m.as_str()) {
                return Err(format!("no condition gives the modifier name {m}; expected names: {mods:?}"));
            }
        }
        for (n, used, _) in g.tests() {
            if let Some(m) = used.iter().find(|m| !mods.contains(m.as_str())) {
                return Err(format!("no condition gives the modifier name {m} used by {n}; expected names: {mods:?}"));
            }
        }
        Ok(())
    };
    let titles = |words: &'static [&'static str]| {
        let mut v: Vec<String> = vec![];
        let mut cur: Vec<String> = vec![String::new()];
        for _ in 0..k {
            cur = cur.iter().flat_map(|s| words.iter().map(move |w| if s.is_empty() { w.to_string() } else { format!("{s} {w}") })).collect();
            v.extend(cur.iter().cloned());
        }
        v
    };
    mc.par(titles(WORDS).into_iter(), |w, t| {
        for kw in ["when", "Given", "WHEN"] {
            let title = format!("{kw} {t}");
            for rev in ["it does", "it should revert", "It Should Revert."] {
                for c in contexts(&cond(&title, vec![act(rev)])) {
                    generated(w, &c, &Opts::default(), judge)?;
                }
            }
        }
        Ok(())
    });
    mc.par(titles(ACT_WORDS).into_iter(), |w, t| {
        for it in ["it", "It", "IT"] {
            let a = act(&format!("{it} {t}"));
            for ts in [
                vec![tree("Root", vec![a.clone()])],
                vec![tree("Root", vec![act("it first"), a.clone(), cond("when c", vec![act("it x")])])],
                vec![tree("K::f", vec![a.clone()]), tree("K::gG", vec![cond("when c", vec![act("it y")]), act(&format!("{} z", a.text))])],
            ] {
                generated(w, &Case::many(ts), &Opts::default(), judge)?;
            }
        }
        Ok(())
    });
    // every word of few characters of all kinds, also as the name of a function
    let chars = ["a", "B", "-", "_", "'", "1", "é"];
    let n = mc.pick(3, 4);
    mc.bound("characters_per_word", n as u64);
    let mut short: Vec<String> = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..n {
        cur = cur.iter().flat_map(|s| chars.iter().map(move |c| format!("{s}{c}"))).collect();
        short.extend(cur.iter().cloned());
    }
    mc.par(short.into_iter(), |w, x| {
        for ts in [
            vec![tree("Root", vec![act(&format!("it {x}")), cond(&format!("when {x} b"), vec![act("it d"), cond(&format!("given c {x}"), vec![act("it should revert")])])])],
            vec![tree(&format!("K::f{x}"), vec![act("it b"), cond("when c", vec![act("it should revert")])]), tree(&format!("K::{x}g"), vec![act("it e"), cond("when d", vec![act("it f")])])],
        ] {
            generated(w, &Case::many(ts), &Opts::default(), judge)?;
        }
        Ok(())
    });
    // all letter cases of `it should revert`, and texts that only resemble it
    let base = "it should revert";
    let letters: Vec<usize> = (0..base.len()).filter(|i| base.as_bytes()[*i] != b' ').collect();
    let n = 1u32 << letters.len();
    mc.bound("letter_cases_of_revert", n as u64);
    mc.par(0..n, |w, m| {
        let mut s: Vec<u8> = base.bytes().collect();
        for (b, i) in letters.iter().enumerate() {
            if m >> b & 1 == 1 {
                s[*i] = s[*i].to_ascii_uppercase();
            }
        }
        let s = String::from_utf8(s).unwrap();
        let t = tree("Root", vec![cond("when x", vec![act(&s)])]);
        generated(w, &Case::one(t), &Opts::default(), judge)
    });
    let near = [
        "it should revert now", "it should not revert", "it reverts", "it should reverts", "it should  revert", "it should revert!", "it should (revert)", "it should re-vert", "it should_revert",
        "it shouldrevert", "it revert should", "it should", "it should revert revert", "it - should revert", "it should revert // why", "it should revert: X",
    ];
    mc.par(near.into_iter(), |w, s| {
        let plain = s.split(" //").next().unwrap();
        for extra in [vec![], vec![act("it more")], vec![cond("when y", vec![act("it z")])]] {
            for (before, after) in [(true, false), (false, true)] {
                let mut kids = vec![act(plain)];
                for e in &extra {
                    if before {
                        kids.push(e.clone())
                    } else if after {
                        kids.insert(0, e.clone())
                    }
                }
                let t = tree("Root", vec![cond("given w v", kids)]);
                generated(w, &Case::one(t), &Opts::default(), judge)?;
            }
        }
        // revert with descriptions below it
        let t = tree("Root", vec![cond("when u", vec![actd(plain, vec![desc("because"), desc("it is")].into_iter().take(1).collect()), act("it should revert")])]);
        generated(w, &Case::one(t), &Opts::default(), judge)
    });
    // nested pairs of titles
    let two = titles(WORDS).into_iter().filter(|t| !t.contains(' ')).collect::<Vec<_>>();
    let pairs: Vec<(String, String)> = two.iter().flat_map(|a| two.iter().map(move |b| (a.clone(), b.clone()))).collect();
    mc.par(pairs.into_iter(), |w, (a, b)| {
        for (x, y) in [("when", "when"), ("given", "when")] {
            let inner = cond(&format!("{y} {b} in"), vec![act("it should revert")]);
            let t = tree("Root", vec![cond(&format!("{x} {a}"), vec![inner.clone(), act("it a")]), cond(&format!("{x} {b}"), vec![act("it b")])]);
            generated(w, &Case::one(t), &Opts::default(), judge)?;
        }
        Ok(())
    });
    mc.par(cases(mc, 7, 9), |w, c| {
        let mut c = c.clone();
        tag_trees(&mut c);
        generated(w, &c, &Opts::default(), judge)
    });
    mc.par(cases(mc, 4, 5), |w, c| {
        let mut c = c.clone();
        tag_trees(&mut c);
        generated(w, &c, &Opts { skip_mods: true, vm_skip: true, ..Opts::default() }, |want, g, _| {
            // only the names used
            named(want, g)
        })
    });
}

/// The names of the tests are the documented ones: if several have the same
/// comments, one of theirs, and all in order if the comments are.
fn named(want: &Contract, g: &Gen) -> Result<(), String> {
    let w: Vec<_> = want_tests(want);
    let got = g.tests();
    let ordered = w.len() == got.len() && w.iter().zip(&got).all(|(a, b)| a.2 == *b.2);
    let mut names: HashMap<&Vec<String>, Vec<&String>> = HashMap::new();
    for t in &w {
        names.entry(&t.2).or_default().push(t.0);
    }
    for (i, (name, _, comments)) in got.iter().enumerate() {
        let want: &[&String] = match names.get(comments) {
            Some(_) if ordered => std::slice::from_ref(&w[i].0),
            Some(v) => v,
            None => continue,
        };
        if !want.contains(name) {
            return Err(format!("the test {comments:?} is named {name} instead of {want:?}"));
        }
    }
    Ok(())
}

/// A condition in all kinds of surroundings. The comments of all tests differ.
fn contexts(k: &Node) -> Vec<Case> {
    let nested = {
        let mut n = k.clone();
        n.kids.push(cond("when inner", vec![act("it inner")]));
        n
    };
    let s = || cond("when other thing", vec![act("it other")]);
    let sr = || cond("given zz", vec![act("it should revert"), act("it zz")]);
    vec![
        Case::one(tree("Root", vec![k.clone()])),
        Case::one(tree("Root", vec![nested.clone()])),
        Case::one(tree("Root", vec![s(), k.clone()])),
        Case::one(tree("Root", vec![k.clone(), sr()])),
        Case::one(tree("Root", vec![cond("given outer", vec![k.clone(), act("it outer")])])),
        Case::one(tree("Root", vec![cond("given outer", vec![s(), nested.clone(), sr()]), act("it top")])),
        Case::many(vec![tree("K::f", vec![s()]), tree("K::gH", vec![nested.clone()])]),
        Case::many(vec![tree("K::f", vec![nested, s()]), tree("K::g", vec![sr()])]),
    ]
}

// ------------------------------------------------------------------------- C09

fn assign(shape: &[Node], conds: &[&str], acts: &[&str], top: &[&str], root: &str) -> Vec<Tree> {
    let t = tree(root, shape.to_vec());
    let mut tops = HashSet::new();
    let mut n = 0;
    for k in &t.kids {
        tops.insert(n);
        n += k.size();
    }
    let kinds: Vec<Kind> = t.nodes().iter().map(|n| n.kind).collect();
    let mut out = vec![t];
    for (i, k) in kinds.iter().enumerate() {
        let set = match k {
            Kind::Cond => conds,
            Kind::Act if tops.contains(&i) => top,
            Kind::Act => acts,
            Kind::Desc => &["d"],
        };
        out = out.iter().flat_map(|t| set.iter().map(move |x| t.with_node(i, |n| n.text = x.to_string()))).collect();
    }
    out
}

pub fn c09(mc: &Mc) {
    let n1 = mc.pick(4, 5);
    *mc.rule.lock().unwrap() = format!("every shape of <= {n1} nodes (descriptions excluded) x every assignment of colliding titles, every 2-tree file of shapes of <= 3 nodes x colliding titles x function names, 3-tree files, long names (up to 64 Ki characters) that are equal or differ at any end: accepted exactly if the model finds no clash; if accepted, names are distinct and no test is missing; `check` rejects the same files");
    mc.bound("nodes", n1 as u64);
    let conds = ["when a b", "When aB", "given a-b", "when a_b", "given a'-b"];
    let acts = ["it x", "it should revert"];
    let top = ["it when a b", "It When A b.", "it x-y", "it x_y", "it RevertWhen_AB"];
    let judge = |w: &mut Worker, ts: &[Tree], cli: bool| -> R {
        let c = Case::many(ts.to_vec());
        let (text, rs) = c.build();
        w.mc.state();
        let want = refm::expect(ts, &rs);
        let got = scaffold(w, &text, &Opts::default());
        w.mc.trace();
        match (&want, &got) {
            (Ok(x), Ok(out)) => {
                w.mc.outcome("accepted");
                let g = read_gen(out);
                let tests: Vec<&String> = g.tests().iter().map(|t| t.0).collect();
                let mods = g.mods();
                let expected = x.items.iter().filter(|i| !i.is_mod()).count();
                if tests.len() != expected {
                    return viol(&text, format!("{expected} tests are specified, {} generated\n{}", tests.len(), show(&text, out)));
                }
                let ds: HashSet<_> = tests.iter().collect();
                let dm: HashSet<_> = mods.iter().collect();
                if ds.len() != tests.len() || dm.len() != mods.len() {
                    return viol(&text, format!("generated names clash\n{}", show(&text, out)));
                }
            }
            (Err(r), Err(e)) => {
                w.mc.outcome(match r {
                    Reject::DupInTree(_) => "rejected: duplicate in a tree",
                    Reject::DupTest(_) => "rejected: duplicate test name",
                    _ => "rejected: roots",
                });
                w.mc.sample(|| text.clone().into());
                let ok = match r {
                    Reject::DupInTree(_) => e.contains("found an identifier more than once"),
                    Reject::DupTest(n) => e.contains("more than one test") && e.contains(n.as_str()),
                    _ => true,
                };
                if !ok {
                    return viol(&text, format!("the error does not name the clash {r:?}\n--- tree file ---\n{text}\n--- error ---\n{e}"));
                }
            }
            (Ok(_), Err(e)) => return viol(&text, format!("a file without name clashes is rejected: {e}\n--- tree file ---\n{text}")),
            (Err(r), Ok(out)) => return viol(&text, format!("a file whose names clash ({r:?}) is accepted\n{}", show(&text, out))),
        }
        if cli {
            w.clean();
            w.put("a.tree", &text);
            w.put("a.t.sol", got.clone().unwrap_or_else(|_| "contract Root {}\n".into()));
            let o = w.run(&["check", "a.tree"]);
            w.mc.trace();
            let bad = if want.is_ok() { o.code != 0 } else { o.code != 1 || !o.stderr.contains("parsing the tree") };
            if bad {
                return viol(format!("check {text}"), format!("check and scaffold disagree (expected {})\n--- tree file ---\n{text}\n{}", if want.is_ok() { "success" } else { "a rejection" }, o.show()));
            }
            let o = w.run(&["scaffold", "a.tree"]);
            w.mc.trace();
            if o.code != if want.is_ok() { 0 } else { 1 } {
                return viol(format!("scaffold {text}"), format!("the CLI and the library disagree\n--- tree file ---\n{text}\n{}", o.show()));
            }
        }
        Ok(())
    };
    for n in 1..=n1 {
        mc.par(rule_forests(n).into_iter(), |w, s| {
            let conds: &[&str] = if n >= 5 { &conds[..4] } else { &conds };
            for t in assign(s, conds, &acts, &top, "Root") {
                judge(w, &[t], n <= 2)?;
            }
            Ok(())
        });
    }
    // bigger files, with one pair of equal names at any two places
    let (n2, most) = mc.pick((7, 41), (14, 101));
    mc.bound("sizes_of_families_with_a_pair", n2 as u64);
    mc.bound("some_sizes_of_families_with_a_pair", most as u64);
    // of the biggest ones, some places only
    let few = move |i: usize, n: usize| n <= n2 * 4 || i < 3 || n - i <= 3 || i % (n / 4) == 1;
    mc.par(growing(n2, most).flat_map(family_shapes), |w, s| {
        let t = labelled(s.clone(), "Root");
        let nodes: Vec<(Kind, String)> = t.nodes().iter().map(|x| (x.kind, x.text.clone())).collect();
        judge(w, std::slice::from_ref(&t), false)?;
        let k = nodes.len();
        for i in (0..k).filter(|i| few(*i, k)) {
            for j in (0..k).filter(|j| few(*j, k) || i.abs_diff(*j) < 2) {
                let ((a, x), (b, _)) = (&nodes[i], &nodes[j]);
                let new = match (a, b) {
                    (Kind::Cond, Kind::Cond) if i < j => vec![x.clone(), x.replacen(" c", " C", 1)],
                    (Kind::Cond, Kind::Act) => vec![format!("it {x}")],
                    (Kind::Act, Kind::Act) if i < j => vec![x.clone(), x.to_uppercase().replacen("IT", "it", 1)],
                    _ => vec![],
                };
                for y in new {
                    judge(w, &[t.with_node(j, |k| k.text = y)], false)?;
                }
            }
        }
        Ok(())
    });
    mc.par(growing(n2, most).flat_map(|n| (0..n).flat_map(move |i| (0..n).map(move |j| (n, i, j)))).filter(|(n, i, j)| few(*i, *n) && few(*j, *n)), |w, (n, i, j)| {
        for shape in [vec![act("")], vec![cond("", vec![act("")])], vec![cond("", vec![cond("", vec![act("")]), act("")])]] {
            let mut ts: Vec<Tree> = (0..*n).map(|x| labelled(shape.clone(), &format!("K::f{}", word(x)))).collect();
            ts[*j].root = if i < j { ts[*i].root.clone() } else { ts[*i].root.replace("K::f", "K::F") };
            judge(w, &ts, false)?;
        }
        Ok(())
    });
    // long names that are equal, or differ somewhere
    let lens: Vec<usize> = if mc.thorough { (1..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect() } else { vec![14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65536] };
    mc.bound("length_of_names", *lens.last().unwrap() as u64);
    mc.par(lens.into_iter().flat_map(|n| (0..3).flat_map(move |at| (0..4).map(move |how| (n, at, how)))), |w, (n, at, how)| {
        // equal, other letters, other case, one longer
        let x: String = (0..*n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
        let mut y: Vec<char> = x.chars().collect();
        let i = [0, n / 2, n - 1][*at];
        match how {
            0 => {}
            1 => y[i] = if y[i] == 'q' { 'r' } else { 'q' },
            2 => y[i] = y[i].to_ascii_uppercase(),
            _ => y.insert(i + 1, 'q'),
        }
        let y: String = y.into_iter().collect();
        let c = |t: &str, a: &str| cond(&format!("when {t}"), vec![act(a)]);
        let ts = vec![
            vec![tree("Root", vec![act(&format!("it {x}")), act(&format!("it {y}"))])],
            vec![tree("Root", vec![c(&x, "it x"), c(&y, "it y")])],
            vec![tree("Root", vec![c(&x, "it x"), cond("when z", vec![c(&y, "it y"), act("it should revert")])])],
            vec![tree(&format!("K::{x}"), vec![act("it b")]), tree(&format!("K::{y}"), vec![act("it b")])],
            vec![tree(&format!("K::f{x}"), vec![c("b", "it b")]), tree("K::f", vec![act(&format!("it {y} when b"))])],
            vec![tree("K::f", vec![c(&x, "it b")]), tree("K::g", vec![c(&y, "it b"), act("it a")])],
        ];
        for t in ts {
            judge(w, &t, *n < 300 && *at == 2)?;
        }
        Ok(())
    });
    // several trees
    let small: Vec<Vec<Node>> = (1..=3).flat_map(rule_forests).collect();
    let pairs: Vec<(usize, usize)> = (0..small.len()).flat_map(|a| (0..small.len()).map(move |b| (a, b))).collect();
    let roots: &[(&str, &str)] = &[("K::f", "K::f"), ("K::f", "K::F"), ("K::f", "K::g"), ("K::f", "K::fWhen"), ("K::fWhenAB", "K::f")];
    mc.par(pairs.into_iter(), |w, (a, b)| {
        for (i, (r1, r2)) in roots.iter().enumerate() {
            let c = ["when a b", "given aB", "when a-b"];
            let top = ["it when a b", "it x", "it aB"];
            for t1 in assign(&small[*a], &c, &["it x"], &top, r1) {
                for t2 in assign(&small[*b], &c, &["it should revert", "it y"], &top, r2) {
                    judge(w, &[t1.clone(), t2], i < 2 && *a < 2 && *b < 2)?;
                }
            }
        }
        Ok(())
    });
    // three trees
    let tiny: Vec<Vec<Node>> = (1..=2).flat_map(rule_forests).collect();
    let m = tiny.len();
    mc.par(0..m * m * m * 27, |w, x| {
        let r = ["K::f", "K::F", "K::g"];
        let mut x = *x;
        let mut ts = vec![];
        for _ in 0..3 {
            let s = &tiny[x % m];
            x /= m;
            let root = r[x % 3];
            x /= 3;
            ts.push((s, root));
        }
        let c = ["when a b", "when c"];
        for t1 in assign(ts[0].0, &c, &["it x"], &c.map(|_| "it q"), ts[0].1) {
            for t2 in assign(ts[1].0, &c, &["it x"], &["it q", "it when c"], ts[1].1) {
                for t3 in assign(ts[2].0, &c, &["it should revert"], &["it q"], ts[2].1) {
                    judge(w, &[t1.clone(), t2.clone(), t3], false)?;
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------- C10

/// The generated file has the fixed grammar of scaffolded files.
fn grammar(out: &str, o: &Opts) -> Result<(), String> {
    let toks = sol::lex(out);
    if toks.first().map(|t| t.text.as_str()) != Some("// SPDX-License-Identifier: UNLICENSED") {
        return Err("the file does not start with the SPDX line".into());
    }
    let t: Vec<&str> = toks.iter().filter(|t| !t.comment).map(|t| t.text.as_str()).collect();
    let g = read_gen(out);
    if !g.balanced {
        return Err("unbalanced or incomplete code".into());
    }
    let mut head: Vec<String> = vec!["pragma".into(), "solidity".into()];
    head.extend(sol::texts(&o.version));
    head.push(";".into());
    if t.len() < head.len() || t[..head.len()] != head.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        return Err(format!("expected the pragma {}", head.join(" ")));
    }
    let contracts = t.iter().filter(|x| **x == "contract").count();
    if contracts != 1 {
        return Err(format!("{contracts} contracts"));
    }
    let others = if o.vm_skip { 2 } else { 1 };
    if g.others.len() != others || !g.contract_last {
        return Err(format!("unexpected definitions next to the contract: {:?}", g.others));
    }
    let head: Vec<&str> = if o.vm_skip { vec!["contract", "is", "Test"] } else { vec!["contract"] };
    if g.header != head {
        return Err(format!("unexpected contract header {:?}", g.header));
    }
    let ident = |s: &str| !s.is_empty() && s.chars().all(|c| unicode_xid::UnicodeXID::is_xid_continue(c) || c == '$') && !s.starts_with(|c: char| c.is_ascii_digit());
    if !ident(&g.name) {
        return Err(format!("{:?} is not an identifier", g.name));
    }
    for p in &g.parts {
        match p {
            G::Mod { name, toks } => {
                if o.skip_mods || !ident(name) || toks[2..] != ["(", ")", "{", "_", ";", "}"] {
                    return Err(format!("unexpected modifier {}", toks.join(" ")));
                }
            }
            G::Test { name, mods, body, .. } => {
                let b: Vec<&str> = if o.vm_skip { vec!["vm", ".", "skip", "(", "true", ")", ";"] } else { vec![] };
                if !ident(name) || mods.iter().any(|m| !ident(m)) || *body != b {
                    return Err(format!("unexpected test {p:?}"));
                }
            }
            G::Other(t) => return Err(format!("unexpected code {}", t.join(" "))),
        }
    }
    Ok(())
}

/// The formatter, without the instructions that comments can give it.
pub fn canonical(src: &str) -> Result<String, String> {
    let mut p = forge_fmt::parse(src).map_err(|e| format!("{e:?}"))?;
    p.inline_config = Default::default();
    let mut out = String::new();
    forge_fmt::format(&mut out, p, Default::default()).map_err(|e| e.to_string())?;
    Ok(out)
}

fn valid(w: &mut Worker, text: &str, o: &Opts, must: bool) -> R {
    w.mc.state();
    let out = match scaffold(w, text, o) {
        Ok(s) => s,
        Err(e) if must => return viol(text, format!("a well-formed tree file is rejected: {e}\n--- tree file ---\n{text}")),
        Err(_) => {
            w.mc.outcome("rejected");
            return Ok(());
        }
    };
    w.mc.outcome("valid");
    w.mc.sample(|| text.into());
    let bad = |m: String| viol::<()>(text, format!("{m}\noptions: {o:?}\n{}", show(text, &out)));
    if let Err(e) = forge_fmt::parse(&out) {
        return bad(format!("the generated code does not parse: {e:?}"));
    }
    match canonical(&out) {
        Ok(f) if f == out => {}
        Ok(f) => return bad(format!("the generated code is not canonically formatted; the formatter gives\n{f}")),
        Err(e) => return bad(format!("the formatter fails on the generated code: {e}")),
    }
    w.mc.trace();
    match grammar(&out, o) {
        Ok(()) => Ok(()),
        Err(m) => bad(m),
    }
}

/// The comments of the tests are the texts of the tree.
fn comments_kept(w: &mut Worker, c: &Case, o: &Opts) -> R {
    let (text, rs) = c.build();
    let Ok(want) = refm::expect(&c.ts, &rs) else { return Ok(()) };
    let Ok(out) = scaffold(w, &text, o) else { return Ok(()) };
    let g = read_gen(&out);
    let got: Vec<&Vec<String>> = g.tests().into_iter().map(|t| t.2).collect();
    let want: Vec<Vec<String>> = want_tests(&want).into_iter().map(|t| t.2).collect();
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| *a != b) {
        return viol(&text, format!("the comments are {got:?} instead of {want:?}\n{}", show(&text, &out)));
    }
    Ok(())
}

pub fn c10(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every shape within the node bound and every 2- and 3-tree file x option sets; every special text and every printable character at every comment position; every character and short word over an adversarial alphabet in condition titles, top-level actions, roots and function names: whatever is generated parses, has the fixed grammar of scaffolded files and is a fixed point of the formatter".into();
    let all = Opts::all();
    mc.par(cases(mc, 5, 7), |w, c| {
        let (text, _) = c.build();
        for o in &all {
            valid(w, &text, o, true)?;
        }
        Ok(())
    });
    mc.par(special_texts().into_iter(), |w, (c, _)| {
        let (text, _) = c.build();
        for o in &all[..4] {
            valid(w, &text, o, true)?;
            comments_kept(w, c, o)?;
        }
        Ok(())
    });
    // every short string over the characters that delimit things in Solidity
    let len = mc.pick(4, 5);
    mc.bound("delimiter_characters", len as u64);
    let marks = ['"', ';', '\\', '*', '/', '}', ' ', 'x', '\''];
    let m = marks.len();
    mc.par((1..=len).flat_map(|n| (0..m.pow(n)).map(move |x| (n, x))), |w, (n, x)| {
        let mut x = *x;
        let mut t = String::new();
        for _ in 0..*n {
            t.push(marks[x % m]);
            x /= m;
        }
        if t.starts_with(' ') || t.ends_with(' ') || t.contains("  ") || t.contains(" //") {
            return Ok(()); // the same as without, or a comment of the tree
        }
        let o = &all[0];
        let c = Case::one(tree("Root", vec![actd(&format!("it a{t}"), vec![desc(&format!("d{t} b"))])]));
        valid(w, &c.build().0, o, true)?;
        comments_kept(w, &c, o)
    });
    // versions
    let vs = [">=0.8.0 <0.9.0", "0.8.1 || 0.8.2", "0.8.0", "0.4.26", "0.8.30", "^0.8.0", ">=0.8.0", "=0.8.19", "~0.8.1", ">0.7.0", "<0.9.0", "0.8", "1.0.0"];
    mc.par(vs.into_iter(), |w, v| {
        for s in (1..=3).flat_map(|n| forests(n, false)) {
            let text = render(&labelled(s, "Root"), &Layout::default()).text;
            valid(w, &text, &Opts { version: v.to_string(), ..Opts::default() }, true)?;
        }
        Ok(())
    });
    // the same for identifiers: what is dropped from them leaves nothing behind
    let len = mc.pick(3, 4);
    let marks = ['(', ')', '{', '}', ';', ':', '=', 'x', '"'];
    let m = marks.len();
    mc.par((1..=len).flat_map(|n| (0..m.pow(n)).map(move |x| (n, x))), |w, (n, x)| {
        let mut x = *x;
        let mut t = String::new();
        for _ in 0..*n {
            t.push(marks[x % m]);
            x /= m;
        }
        let kids = |k: &str| vec![act(&format!("it a{t} {k}")), act(&format!("it b {t}c {k}")), cond(&format!("when d {k}"), vec![act("it e")])];
        for ts in [vec![tree(&format!("R{t}"), kids("p"))], vec![tree(&format!("K::f{t}"), kids("p")), tree(&format!("K::g{t}h"), kids("q"))]] {
            let c = Case::many(ts);
            valid(w, &c.build().0, &all[0], true)?;
            generated(w, &c, &all[0], |want, g, _| {
                let names: Vec<&String> = g.tests().into_iter().map(|t| t.0).collect();
                let wanted: Vec<&String> = want_tests(want).into_iter().map(|t| t.0).collect();
                if g.name != want.name || names != wanted || g.tests().iter().any(|t| !t.1.is_empty()) {
                    return Err(format!("expected the contract {} with the tests {wanted:?}", want.name));
                }
                Ok(())
            })?;
        }
        Ok(())
    });
    // adversarial identifiers: every character, then words
    let mut chars: Vec<char> = (0x21u8..0x7f).map(|c| c as char).collect();
    chars.extend(['é', '日', '😀', '—', '²', 'ª', '\u{301}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{85}', 'ß', 'ŉ', '\u{feff}', '٣', '⁀', '·']);
    let mut words: Vec<String> = vec![];
    for c in &chars {
        for f in [format!("{c}"), format!("{c}b"), format!("a{c}"), format!("a{c}b"), format!("{c}{c}")] {
            words.push(f);
        }
    }
    words.extend(["contract", "function", "is", "a{}", "a;b", "uint256", "A/**/", "A//x", "vm", "Test", "test", "_", "external", "", "A::b", "::", ":"].map(String::from));
    let k = mc.pick(1, 2);
    if k == 2 {
        let w2: Vec<String> = NASTY.iter().flat_map(|a| NASTY.iter().map(move |b| format!("{a}{b}"))).filter(|s| !s.contains(' ')).collect();
        words.extend(w2);
    }
    mc.bound("identifier_texts", words.len() as u64);
    mc.par(words.into_iter(), |w, x| {
        for o in [&all[0], &all[3]] {
            for text in [
                format!("{x}\n└── it works"),
                format!("Root\n└── when {x}\n    └── it works"),
                format!("Root\n└── when a {x} b\n    ├── it works\n    └── when {x}{x}\n        └── it should revert"),
                format!("Root\n├── it {x}\n└── it b {x} c"),
                format!("K::{x}\n└── it works\n\nK::{x}b\n└── when c\n    └── it should revert"),
                format!("{x}::f\n└── it works\n\n{x}::g\n└── it works"),
                format!("Root\n└── when c\n    └── it {x}\n        ├── {x}\n        └── a {x} b"),
            ] {
                valid(w, &text, o, false)?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------- C11

/// Applies the documented effect of the options to the option-free output.
fn with_options(base: &str, o: &Opts) -> Vec<String> {
    let toks = sol::lex(base);
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    let t = |i: usize| toks.get(i).map_or("", |t| t.text.as_str());
    let mut depth = 0;
    while i < toks.len() {
        let x = t(i).to_string();
        if x == "pragma" {
            out.extend(["pragma".to_string(), "solidity".to_string()]);
            out.extend(sol::texts(&o.version));
            while t(i) != ";" {
                i += 1;
            }
            out.push(";".into());
            if o.vm_skip {
                out.extend(["import", "{", "Test", "}", "from", "\"forge-std/Test.sol\"", ";"].map(String::from));
            }
            i += 1;
            continue;
        }
        if x == "contract" && depth == 0 {
            out.extend([x, t(i + 1).to_string()]);
            if o.vm_skip {
                out.extend(["is", "Test"].map(String::from));
            }
            i += 2;
            continue;
        }
        if x == "modifier" && o.skip_mods {
            while t(i) != "}" {
                i += 1;
            }
            i += 1;
            continue;
        }
        match x.as_str() {
            "{" if !toks[i].comment => depth += 1,
            "}" if !toks[i].comment => {
                depth -= 1;
                // the end of a test (modifiers hold a placeholder)
                if depth == 1 && o.vm_skip && t(i - 1) != ";" {
                    out.extend(["vm", ".", "skip", "(", "true", ")", ";"].map(String::from));
                }
            }
            _ => {}
        }
        out.push(x);
        i += 1;
    }
    out
}

pub fn c11(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every shape within the node bound and every 2- and 3-tree file, x every combination of -m, -S and five -s versions: the output equals the documented edit of the option-free output; ill-formed files are rejected with the same error under every combination; the same through the real CLI with short and long options".into();
    let mut all = vec![];
    for v in ["0.8.0", "0.8.24", "^0.7.6", ">=0.8.0 <0.9.0", "0.8.1 || 0.8.2"] {
        for m in 0..4 {
            all.push(Opts { version: v.into(), skip_mods: m & 1 == 1, vm_skip: m & 2 == 2 });
        }
    }
    mc.bound("option_sets", all.len() as u64);
    let all = &all;
    let check = |w: &mut Worker, text: &str, base: &Result<String, String>, o: &Opts, got: Result<String, String>| -> R {
        w.mc.trace();
        match (base, got) {
            (Ok(b), Ok(g)) => {
                let want = with_options(b, o);
                let got = sol::texts(&g);
                if want != got {
                    return viol(format!("{o:?} {text}"), format!("the options {o:?} change more or less than documented\n--- tree file ---\n{text}\n--- without options ---\n{b}\n--- with options ---\n{g}\nexpected tokens: {}\n", want.join(" ")));
                }
                if !o.skip_mods && !o.vm_skip && g != b.replacen("pragma solidity 0.8.0;", &format!("pragma solidity {};", o.version), 1) {
                    return viol(format!("{o:?} {text}"), format!("-s changes more than the version\n{}", show(text, &g)));
                }
                w.mc.outcome(&format!("m={} S={} s={}", o.skip_mods, o.vm_skip, o.version));
            }
            (Err(a), Err(b)) => {
                w.mc.outcome("rejected under all options");
                if *a != b {
                    return viol(format!("{o:?} {text}"), format!("the error depends on the options {o:?}\n--- tree file ---\n{text}\n--- without ---\n{a}\n--- with ---\n{b}"));
                }
            }
            (Ok(_), Err(e)) => return viol(format!("{o:?} {text}"), format!("accepted without options, rejected with {o:?}: {e}\n--- tree file ---\n{text}")),
            (Err(e), Ok(_)) => return viol(format!("{o:?} {text}"), format!("rejected without options ({e}), accepted with {o:?}\n--- tree file ---\n{text}")),
        }
        Ok(())
    };
    mc.par(cases(mc, 6, 8), |w, c| {
        let (text, _) = c.build();
        w.mc.sample(|| text.clone().into());
        let base = scaffold(w, &text, &Opts::default());
        for o in all {
            w.mc.state();
            let got = scaffold(w, &text, o);
            check(w, &text, &base, o, got)?;
        }
        Ok(())
    });
    // ill-formed files and clashes
    mc.par((1..=mc.pick(3, 4)).flat_map(|n| forests(n, false)), |w, s| {
        let t = labelled(s.clone(), "Root");
        let mut files: Vec<String> = crate::p_syntax::mistakes(&t, &Layout::default(), "", "", false).into_iter().map(|b| b.text).collect();
        let n = t.size();
        for i in 0..n {
            for j in 0..i {
                let nodes = t.nodes();
                if nodes[i].kind == nodes[j].kind && nodes[i].kind != Kind::Desc {
                    let x = nodes[j].text.clone();
                    files.push(render(&t.with_node(i, |n| n.text = x.clone()), &Layout::default()).text);
                }
            }
        }
        for r in [("K::a", "L::a"), ("K::a", "K"), ("K::a", "::a"), ("K", "K")] {
            let ts = [tree(r.0, t.kids.clone()), tree(r.1, t.kids.clone())];
            files.push(render_all(&ts, &Layout::default(), "", "\n", "").0);
        }
        for text in files {
            let base = scaffold(w, &text, &Opts::default());
            for o in all {
                w.mc.state();
                let got = scaffold(w, &text, o);
                check(w, &text, &base, o, got)?;
            }
        }
        Ok(())
    });
    // the real CLI
    mc.par(cases(mc, 2, 3).enumerate(), |w, (i, c)| {
        if c.ts.len() > 1 && i % 7 != 0 {
            return Ok(());
        }
        let (text, _) = c.build();
        w.clean();
        w.put("a.tree", &text);
        let base = w.run(&["scaffold", "a.tree"]);
        let base = if base.code == 0 { Ok(base.stdout) } else { Err(base.stderr) };
        for o in all {
            for long in [false, true] {
                w.mc.state();
                let mut args = vec!["scaffold"];
                if o.skip_mods {
                    args.push(if long { "--skip-modifiers" } else { "-m" });
                }
                args.push("a.tree");
                if o.vm_skip {
                    args.push(if long { "--vm-skip" } else { "-S" });
                }
                args.extend([if long { "--solidity-version" } else { "-s" }, o.version.as_str()]);
                let r = w.run(&args);
                let got = if r.code == 0 { Ok(r.stdout) } else { Err(r.stderr) };
                check(w, &text, &base, o, got)?;
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------- C12

pub fn c12(mc: &Mc) {
    let len = mc.pick(3, 4);
    *mc.rule.lock().unwrap() = format!("every sequence of 2..={len} roots over an alphabet of well- and ill-formed roots (trees of one condition), every 2-tree file of shapes of <= 3 nodes and 3-tree file of <= 2 nodes with all sharings of conditions: error named with the right index or names, or the combination of what each tree gives on its own");
    mc.bound("trees_per_file", len as u64);
    let roots = ["K::a", "K::b", "K::camelCase", "L::a", "K", "::a", "k::a", "Kx::a", "K:a", "Ké", "K::f::g", "K::a-b()", "L::K::a"];
    let mut files: Vec<Vec<usize>> = vec![];
    for n in 2..=len {
        for x in 0..roots.len().pow(n as u32) {
            let mut x = x;
            files.push((0..n).map(|_| { let r = x % roots.len(); x /= roots.len(); r }).collect());
        }
    }
    let combined = |w: &mut Worker, ts: &[Tree], sep: &'static str, layout: usize| -> R {
        let c = Case { ts: ts.to_vec(), layout, before: "", sep };
        let (text, rs) = c.build();
        w.mc.state();
        let got = scaffold(w, &text, &Opts::default());
        w.mc.trace();
        match refm::expect(ts, &rs) {
            Err(r) => {
                let need: Vec<String> = match &r {
                    Reject::Separator(i) => vec![format!("separator missing at tree root #{i}.")],
                    Reject::NameMissing(i) => vec![format!("contract name missing at tree root #{i}")],
                    Reject::Mismatch { expected, actual } => vec![format!("expected '{expected}', found '{actual}'")],
                    _ => vec![],
                };
                w.mc.outcome(match &r {
                    Reject::Separator(_) => "separator missing",
                    Reject::NameMissing(_) => "name missing",
                    Reject::Mismatch { .. } => "mismatch",
                    _ => "clash",
                });
                match got {
                    Ok(out) => viol(&text, format!("expected the rejection {r:?}\n{}", show(&text, &out))),
                    Err(e) if need.iter().all(|n| e.contains(n.as_str())) => Ok(()),
                    Err(e) => viol(&text, format!("expected an error with {need:?}\n--- tree file ---\n{text}\n--- error ---\n{e}")),
                }
            }
            Ok(want) => {
                w.mc.outcome("combined");
                w.mc.sample(|| text.clone().into());
                let out = match got {
                    Ok(o) => o,
                    Err(e) => return viol(&text, format!("the file is rejected: {e}\n--- tree file ---\n{text}")),
                };
                let g = read_gen(&out);
                // what the trees give on their own
                let mut tests: Vec<(String, Vec<String>, Vec<String>)> = vec![];
                let mut mods: Vec<String> = vec![];
                for t in ts {
                    let alone = tree("Alone", t.kids.clone());
                    let text = render(&alone, &layouts()[layout]).text;
                    let o = match scaffold(w, &text, &Opts::default()) {
                        Ok(o) => o,
                        Err(e) => return viol(&text, format!("the tree is rejected on its own: {e}\n--- tree file ---\n{text}")),
                    };
                    let f = t.root.split_once("::").unwrap().1;
                    let s = read_gen(&o);
                    for (n, m, c) in s.tests() {
                        tests.push((format!("test_{}{}", refm::cap(&refm::clean(f)), n.strip_prefix("test_").unwrap_or(n)), m.clone(), c.clone()));
                    }
                    for m in s.mods() {
                        if !mods.contains(m) {
                            mods.push(m.clone());
                        }
                    }
                }
                let gt: Vec<_> = g.tests().into_iter().map(|(a, b, c)| (a.clone(), b.clone(), c.clone())).collect();
                let gm: Vec<String> = g.mods().into_iter().cloned().collect();
                if g.name != want.name {
                    return viol(&text, format!("the contract is named {} instead of {}\n{}", g.name, want.name, show(&text, &out)));
                }
                if gt != tests {
                    return viol(&text, format!("the tests are\n{gt:#?}\ninstead of\n{tests:#?}\n{}", show(&text, &out)));
                }
                if gm != mods {
                    return viol(&text, format!("the modifiers are {gm:?} instead of {mods:?}\n{}", show(&text, &out)));
                }
                if g.parts.len() != gt.len() + gm.len() {
                    return viol(&text, format!("there is more than tests and modifiers\n{}", show(&text, &out)));
                }
                Ok(())
            }
        }
    };
    mc.par(files.into_iter(), |w, f| {
        let ts: Vec<Tree> = f.iter().enumerate().map(|(i, r)| tree(roots[*r], vec![cond(&format!("when c{}", word(i)), vec![act("it x"), cond("given shared", vec![act("it should revert")])])])).collect();
        combined(w, &ts, separators()[f.len() % 5], 0)
    });
    let small: Vec<Vec<Node>> = (1..=mc.pick(4, 5)).flat_map(rule_forests).collect();
    let m = small.len();
    mc.bound("nodes_of_each_of_two_trees", mc.pick(4, 5));
    mc.par(0..m * m * 5, |w, x| {
        let (a, b, sep) = (&small[x % m], &small[x / m % m], separators()[x / m / m]);
        for share in 0..3usize {
            let t1 = labelled(a.clone(), "Ctr::one");
            let mut t2 = labelled(b.clone(), "Ctr::twoThree");
            for i in 0..t2.size() {
                t2 = t2.with_node(i, |n| {
                    if share == 1 || (share == 2 && i % 2 == 0) {
                        n.text.push_str(" too");
                    }
                });
            }
            combined(w, &[t1, t2], sep, x % 9)?;
        }
        Ok(())
    });
    let tiny: Vec<Vec<Node>> = (1..=3).flat_map(rule_forests).collect();
    let m = tiny.len();
    mc.par(0..m * m * m, |w, x| {
        let mut ts = vec![];
        for (i, r) in ["C::a", "C::b", "C::c"].iter().enumerate() {
            ts.push(labelled(tiny[x / m.pow(i as u32) % m].clone(), r));
        }
        combined(w, &ts, separators()[x % 5], x % 9)
    });
    // many trees: alike or not, one of them ill-rooted
    let (few, most) = mc.pick((12, 66), (40, 258));
    mc.bound("some_numbers_of_trees", most as u64);
    mc.par(growing(few, most).flat_map(|n| (0..5).flat_map(move |x| {
        let mut bad: Vec<Option<(usize, &str)>> = vec![None];
        for at in [0, 1, n / 2, n - 2, n - 1] {
            for r in ["K", "::a", "k::a", "Kx::a"] {
                if x == n % 5 {
                    bad.push(Some((at, r)));
                }
            }
        }
        bad.into_iter().map(move |b| (n, x, b))
    })), |w, &(n, x, bad)| {
        let ts: Vec<Tree> = (0..n)
            .map(|i| {
                let own = word(i);
                let kids = match (x + i * (x / 2)) % 4 {
                    // all share the outer condition, and some the inner one
                    0 => vec![cond("when shared", vec![act("it x"), cond(&format!("given i{}", word(i % 7)), vec![cond("when in", vec![act("it should revert")])])])],
                    1 => vec![cond(&format!("when o{own}"), vec![cond("given shared", vec![cond("when in", vec![act("it y")])]), act("it z")])],
                    2 => vec![act(&format!("it {own}")), cond("when shared", vec![act("it q")])],
                    _ => vec![cond("given a", vec![cond(&format!("when b{}", word(i / 2)), vec![cond("given c", vec![act("it r")])])]), act("it s")],
                };
                match bad {
                    Some((at, r)) if at == i => tree(r, kids),
                    _ => tree(&format!("K::f{own}"), kids),
                }
            })
            .collect();
        combined(w, &ts, separators()[(n + x) % 5], (n + x) % NL)
    });
    // texts and function names that resemble what the combination adds
    let words = ["latest_b", "test_", "a-test_c", "revertWhen x", "when", "it", "éB", "testF", "_test_d", "K", "one", "K::one"];
    let names = ["f", "test_f", "atest_", "revert", "when", "F_test_x", "é", "_", "one", "a-b", "f()", "f::g", "'"];
    let (n, m) = (words.len(), names.len());
    let fit = |x: &str, k: Kind| !x.contains(':') || k == Kind::Act;
    mc.par((0..n * n).flat_map(|x| (0..m * m).map(move |y| (x, y))), |w, (x, y)| {
        let (a, b) = (words[x / n], words[x % n]);
        if !fit(a, Kind::Cond) || !fit(b, Kind::Cond) {
            return Ok(());
        }
        let (f, g) = (names[y / m], names[y % m]);
        let ts = [
            tree(&format!("K::{f}"), vec![cond(&format!("when {a}"), vec![act("it p"), cond(&format!("given {b}"), vec![act("it should revert"), act("it q")])])]),
            tree(&format!("K::{g}"), vec![act(&format!("it {a}")), cond(&format!("when {b}"), vec![cond(&format!("given {a}"), vec![act("it r")])])]),
        ];
        combined(w, &ts, "\n", 0)
    });
    mc.par((0..n * n).flat_map(|x| [(x, "f", "g"), (x, "test_", "when")]), |w, (x, f, g)| {
        let (a, b) = (words[x / n], words[x % n]);
        combined(w, &[tree(&format!("K::{f}"), vec![act(&format!("it {a} {b}"))]), tree(&format!("K::{g}"), vec![act(&format!("it {b} y")), act(&format!("it {a} z"))])], "\n", 0)
    });
    // through the CLI: the message reaches the user
    mc.par(0..roots.len() * roots.len(), |w, x| {
        let ts = [tree(roots[x % roots.len()], vec![act("it x")]), tree(roots[x / roots.len()], vec![act("it x")])];
        let c = Case::many(ts.to_vec());
        let (text, rs) = c.build();
        w.mc.state();
        w.clean();
        w.put("a.tree", &text);
        w.put("a.t.sol", "contract K {}");
        for args in [["scaffold", "a.tree"], ["check", "a.tree"]] {
            let o = w.run(&args);
            w.mc.trace();
            if let Err(r) = refm::expect(&ts, &rs) {
                let need = match &r {
                    Reject::Separator(i) => format!("separator missing at tree root #{i}."),
                    Reject::NameMissing(i) => format!("contract name missing at tree root #{i}"),
                    Reject::Mismatch { expected, actual } => format!("expected '{expected}', found '{actual}'"),
                    _ => "more than one".to_string(),
                };
                if o.code != 1 || !o.stderr.contains(&need) {
                    return viol(format!("{args:?} {text}"), format!("expected exit status 1 and {need:?}\n--- tree file ---\n{text}\n{}", o.show()));
                }
            } else if args[0] == "scaffold" && o.code != 0 {
                return viol(format!("{args:?} {text}"), format!("rejected\n--- tree file ---\n{text}\n{}", o.show()));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------- C01

pub const PIECES: &[&str] = &["├", "└", "──", " ", "\n", "when", "it", "given", "a", "//", "::", "\n\n", "!", "é", "\t", "\r\n", "│", "-", "{", "\"", "'", "*/", "\n    ", "A::b"];

fn survives(w: &mut Worker, text: &str) -> R {
    w.mc.state();
    for o in [Opts::default(), Opts { skip_mods: true, vm_skip: true, ..Opts::default() }] {
        match scaffold(w, text, &o) {
            Ok(s) => {
                w.mc.outcome("generated");
                if !s.contains("contract") {
                    return viol(text, format!("success without Solidity\n{}", show(text, &s)));
                }
            }
            Err(e) => {
                let first = e.lines().find(|l| l.contains("error") || l.contains("could not")).unwrap_or("?");
                let first: String = first.chars().take_while(|c| *c != '\'' && *c != '#').take(60).collect();
                w.mc.outcome(&first);
                if e.trim().is_empty() {
                    return viol(text, format!("an empty error\n--- tree file ---\n{text}"));
                }
            }
        }
    }
    w.mc.trace();
    w.mc.sample(|| text.into());
    Ok(())
}

fn cli_survives(w: &mut Worker, content: &[u8], extra: &[&str]) -> R {
    w.mc.state();
    w.clean();
    w.put("a.tree", content);
    for args in [&["scaffold"][..], &["scaffold", "-m", "-S"], &["scaffold", "-w", "-f"]] {
        let mut a = args.to_vec();
        a.extend(extra);
        a.push("a.tree");
        let o = w.run(&a);
        w.mc.trace();
        let text = String::from_utf8_lossy(content).into_owned();
        if o.crashed() {
            return viol(format!("{a:?} {text}"), format!("bulloak crashed\nargs: {a:?}\n--- tree file ---\n{text}\n--- escaped ---\n{text:?}\n{}", o.show()));
        }
        if o.code == 1 && o.stderr.trim().is_empty() {
            return viol(format!("{a:?} {text}"), format!("failure without a report\nargs: {a:?}\n--- tree file ---\n{text}\n{}", o.show()));
        }
        if o.code == 0 && !(o.stdout.contains("contract") || w.get("a.t.sol").is_some_and(|s| s.contains("contract"))) {
            return viol(format!("{a:?} {text}"), format!("success without Solidity\nargs: {a:?}\n--- tree file ---\n{text}\n{}", o.show()));
        }
    }
    w.mc.outcome("survived by the CLI");
    Ok(())
}

const LINES: &[&str] = &["A", "A::b", "└── when a", "├── given é", "    └── when b", "    ├── it should revert", "        └── it c", "      └── d", "  └── it e", "word", " more words", "                    far words é", "when", "│", "", "// c", "│   └── it f // g", "\tit h", "└──", "├── it a"];

pub fn c01(mc: &Mc) {
    let len = mc.pick(4, 5);
    let lines = mc.pick(4, 5);
    *mc.rule.lock().unwrap() = format!("every sequence of <= {len} pieces over an adversarial alphabet of {} pieces, alone and after a root line and inside a tree, x option sets; every sequence of <= {lines} lines of {}, alone, behind a root and as a second tree; every shape with every special text; every single- and double-piece corruption of drawn trees; size families; through the library with a watchdog and panic capture, a subset through the real CLI", PIECES.len(), LINES.len());
    mc.bound("pieces", len as u64);
    let k = PIECES.len();
    for n in 0..=len {
        let total = k.pow(n as u32);
        let tail = n == len; // the longest ones only in one frame
        mc.par(0..total, |w, x| {
            let mut x = *x;
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(PIECES[x % k]);
                x /= k;
            }
            if !(tail && !w.mc.thorough) {
                survives(w, &s)?;
            }
            survives(w, &format!("A\n└── {s}"))?;
            if n < len {
                survives(w, &format!("A\n├── when b\n│   └── it c{s}\n└── it d"))?;
            }
            Ok(())
        });
    }
    // every sequence of lines
    mc.bound("lines", lines as u64);
    mc.par((1..=lines).flat_map(|n| (0..LINES.len().pow(n as u32)).map(move |x| (n, x))), |w, (n, x)| {
        let mut x = *x;
        let mut s = String::new();
        for _ in 0..*n {
            s.push_str(LINES[x % LINES.len()]);
            s.push('\n');
            x /= LINES.len();
        }
        survives(w, &format!("A\n{s}"))?;
        if *n == lines && !w.mc.thorough {
            return Ok(());
        }
        survives(w, &s)?;
        survives(w, &format!("A::b\n└── it c\n\nA::d\n{}", s.trim_end()))
    });
    // corruptions of drawn trees: delete, insert, replace at every position
    let n1 = mc.pick(3, 4);
    mc.bound("nodes_of_corrupted_trees", n1 as u64);
    mc.par((1..=n1).flat_map(|n| forests(n, false)), |w, s| {
        let t = labelled(s.clone(), "Root");
        for l in [&layouts()[0], &layouts()[6]] {
            let text = render(&t, l).text;
            let at: Vec<usize> = text.char_indices().map(|x| x.0).collect();
            for i in &at {
                let c = text[*i..].chars().next().unwrap().len_utf8();
                let mut x = text.clone();
                x.replace_range(*i..i + c, "");
                survives(w, &x)?;
                survives(w, &text[..*i])?;
                survives(w, &text[*i..])?;
                for p in PIECES {
                    let mut x = text.clone();
                    x.replace_range(*i..i + c, p);
                    survives(w, &x)?;
                    let mut x = text.clone();
                    x.insert_str(*i, p);
                    survives(w, &x)?;
                }
            }
        }
        Ok(())
    });
    // every character at every kind of place
    let mut chars: Vec<char> = (0u32..0x250).filter_map(char::from_u32).collect();
    chars.extend("─│├└—…“”\u{85}\u{a0}\u{1680}\u{2000}\u{2007}\u{200b}\u{2028}\u{2029}\u{202e}\u{202f}\u{205f}\u{3000}\u{feff}\u{fffd}\u{301}ßŉǰİıſΣς日本😀\u{1f468}\u{200d}\u{10ffff}ﬁＡ１²".chars());
    mc.par(chars.into_iter(), |w, c| {
        for text in [
            format!("{c}"),
            format!("A{c}\n└── it b"),
            format!("{c}A\n└── it b"),
            format!("A\n{c}└── it b"),
            format!("A\n└{c}── it b"),
            format!("A\n└── {c}it b"),
            format!("A\n└── it{c}b"),
            format!("A\n└── it {c}"),
            format!("A\n└── it b{c}c {c} d{c}"),
            format!("A\n└── when {c}\n    └── it b"),
            format!("A\n└── when{c}b\n    └── it b"),
            format!("A\n└── when b{c}c {c} d{c}\n    ├── it b\n    └── when {c}{c}\n        └── it b"),
            format!("A\n└── it b\n    └── {c} c{c}"),
            format!("A::{c}\n└── it b\n\nA::b{c}\n└── it b"),
            format!("{c}::b\n└── it b\n\n{c}::c\n└── it b"),
            format!("A::b\n└── it b\n{c}\nA::c\n└── it b"),
            format!("A\n└── it b //{c}\n{c}// x"),
        ] {
            survives(w, &text)?;
        }
        Ok(())
    });
    // sizes
    let sizes: Vec<usize> = mc.pick(vec![10, 100, 300], vec![10, 100, 300, 1000]);
    let mut fam: Vec<(&'static str, usize)> = vec![];
    for n in &sizes {
        for f in ["deep", "wide", "words", "long word", "trees", "descriptions", "deep descriptions", "comments", "blank", "glyphs", "long root", "dashes", "duplicates"] {
            fam.push((f, *n));
        }
    }
    let large: &[(&str, usize)] = &[("words", 300_000), ("long word", 100_000), ("comments", 300_000), ("blank", 1_000_000), ("glyphs", 300_000), ("dashes", 100_000), ("long root", 100_000), ("duplicates", 3000), ("wide", 1500), ("trees", 700), ("descriptions", 4000), ("deep descriptions", 900), ("deep", 1200)];
    fam.extend(large.iter().map(|(f, n)| (*f, mc.pick(*n, if *n >= 100_000 { n * 5 } else { n * 3 / 2 }))));
    fam.reverse();
    mc.par(fam.into_iter(), |w, (f, n)| {
        let n = *n;
        let text = match *f {
            "deep" => {
                let mut s = String::from("A\n");
                for i in 0..n {
                    s.push_str(&format!("{}└── when c{i}\n", " ".repeat(i)));
                }
                s + &format!("{}└── it x", " ".repeat(n))
            }
            "wide" => "A\n".to_string() + &(0..n).map(|i| format!("├── when c{i}\n│   └── it x\n")).collect::<String>() + "└── it y",
            "words" => format!("A\n└── when {}\n    └── it {}", "w ".repeat(n), "w ".repeat(n)),
            "long word" => format!("A\n└── when {}\n    └── it {}", "w".repeat(n * 10), "w".repeat(n * 10)),
            "trees" => (0..n).map(|i| format!("A::f{i}\n└── when c{}\n    └── it x\n\n", i % 7)).collect(),
            "descriptions" => "A\n└── it x\n".to_string() + &(0..n).map(|i| format!("    ├── d{i}\n")).collect::<String>() + "    └── z",
            "deep descriptions" => "A\n└── it x\n".to_string() + &(0..n).map(|i| format!("{}└── d{i}\n", " ".repeat(i + 1))).collect::<String>(),
            "comments" => "// c\n".repeat(n) + "A\n" + &"// é\n".repeat(n) + "└── it x\n" + &"// d\n".repeat(n),
            "blank" => "\n".repeat(n) + "A\n└── it x" + &"\n".repeat(n),
            "glyphs" => "A\n".to_string() + &"├└".repeat(n),
            "long root" => "R".repeat(n * 10) + "\n└── it x",
            "dashes" => format!("A\n└{} it x", "─".repeat(n * 10)),
            _ => "A\n".to_string() + &"├── when same\n│   └── it x\n".repeat(n) + "└── it y",
        };
        survives(w, &text)?;
        cli_survives(w, text.as_bytes(), &[])
    });
    // the real CLI: short files, bytes that are not text, odd versions
    let n = mc.pick(2, 3);
    mc.bound("pieces_through_the_cli", n as u64);
    mc.par((0..=n).flat_map(|n| (0..k.pow(n as u32)).map(move |x| (n, x))), |w, (n, x)| {
        let mut x = *x;
        let mut s = String::new();
        for _ in 0..*n {
            s.push_str(PIECES[x % k]);
            x /= k;
        }
        cli_survives(w, format!("A\n└── {s}").as_bytes(), &[])?;
        cli_survives(w, s.as_bytes(), &[])
    });
    let bytes: Vec<Vec<u8>> = (0u16..256).flat_map(|b| vec![vec![b as u8], [b"A\n\xe2\x94\x94\xe2\x94\x80 it x", &[b as u8][..], b"y"].concat()]).collect();
    mc.par(bytes.into_iter(), |w, b| cli_survives(w, b, &[]));
    let versions = ["", " ", "0", "x", "0.8.0;", "0.8.0; contract X {}", "é", "\n", "//", "/*", "\"", "{", "}", "^", "0.8.x", "*", ">=0.8.0 <0.9.0", "-1", "99999999999999999999.0.0", "0.8.0 ||", "\\", "\u{0}x"];
    mc.par(versions.into_iter(), |w, v| {
        let t = "A\n└── when b\n    └── it c";
        w.mc.state();
        let _ = scaffold(w, t, &Opts { version: v.to_string(), ..Opts::default() });
        if v.contains('\u{0}') {
            return Ok(());
        }
        cli_survives_version(w, t, v)
    });
}

fn cli_survives_version(w: &mut Worker, t: &str, v: &str) -> R {
    w.clean();
    w.put("a.tree", t);
    let s = format!("--solidity-version={v}");
    for args in [vec!["scaffold", &s, "a.tree"], vec!["scaffold", "-w", "-f", "-S", &s, "a.tree"]] {
        let o = w.run(&args);
        w.mc.trace();
        if o.crashed() {
            return viol(format!("{args:?}"), format!("bulloak crashed\nargs: {args:?}\n--- tree file ---\n{t}\n{}", o.show()));
        }
    }
    Ok(())
}
