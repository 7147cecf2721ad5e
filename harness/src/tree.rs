//! The reference model of a `.tree` drawing: trees, their bounded enumeration
//! and a renderer that knows where everything ends up in the text.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Cond,
    Act,
    Desc,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node {
    pub kind: Kind,
    /// The text of the branch, including the keyword.
    pub text: String,
    pub kids: Vec<Node>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Tree {
    pub root: String,
    pub kids: Vec<Node>,
}

impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.text)?;
        if !self.kids.is_empty() {
            write!(f, "{:?}", self.kids)?;
        }
        Ok(())
    }
}
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        writeln!(f, "tree {:?} {:?}", self.root, self.kids)?;
        write!(f, "drawn:\n{}", render(self, &Layout::default()).text)
    }
}

pub fn cond(text: &str, kids: Vec<Node>) -> Node {
    Node { kind: Kind::Cond, text: text.into(), kids }
}
pub fn act(text: &str) -> Node {
    Node { kind: Kind::Act, text: text.into(), kids: vec![] }
}
pub fn actd(text: &str, kids: Vec<Node>) -> Node {
    Node { kind: Kind::Act, text: text.into(), kids }
}
pub fn desc(text: &str) -> Node {
    Node { kind: Kind::Desc, text: text.into(), kids: vec![] }
}
pub fn tree(root: &str, kids: Vec<Node>) -> Tree {
    Tree { root: root.into(), kids }
}

impl Tree {
    pub fn size(&self) -> usize {
        self.kids.iter().map(Node::size).sum()
    }
    /// All nodes in drawing order.
    pub fn nodes(&self) -> Vec<&Node> {
        let mut v = vec![];
        for k in &self.kids {
            k.collect(&mut v);
        }
        v
    }
    /// Applies `f` to the `i`-th node in drawing order.
    pub fn with_node(&self, i: usize, f: impl FnOnce(&mut Node)) -> Tree {
        let mut t = self.clone();
        let mut n = i;
        let mut f = Some(f);
        for k in &mut t.kids {
            if k.at(&mut n, &mut f) {
                break;
            }
        }
        t
    }
}
impl Node {
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(Node::size).sum::<usize>()
    }
    fn collect<'a>(&'a self, v: &mut Vec<&'a Node>) {
        v.push(self);
        for k in &self.kids {
            k.collect(v);
        }
    }
    fn at<F: FnOnce(&mut Node)>(&mut self, n: &mut usize, f: &mut Option<F>) -> bool {
        if *n == 0 {
            if let Some(f) = f.take() {
                f(self);
            }
            return true;
        }
        *n -= 1;
        self.kids.iter_mut().any(|k| k.at(n, f))
    }
}

// ---------------------------------------------------------------- enumeration

/// Every forest with exactly `n` nodes below a root or a condition (`act=false`)
/// or below an action or description (`act=true`). Titles are empty.
pub fn forests(n: usize, under_action: bool) -> Vec<Vec<Node>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    // size of the first tree
    for first in 1..=n {
        let firsts = if under_action { desc_trees(first) } else { rule_trees(first) };
        if firsts.is_empty() {
            continue;
        }
        let rest = forests(n - first, under_action);
        for f in &firsts {
            for r in &rest {
                let mut v = Vec::with_capacity(1 + r.len());
                v.push(f.clone());
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}
fn desc_trees(n: usize) -> Vec<Node> {
    forests(n - 1, true).into_iter().map(|kids| Node { kind: Kind::Desc, text: String::new(), kids }).collect()
}
fn rule_trees(n: usize) -> Vec<Node> {
    let mut out: Vec<Node> =
        forests(n - 1, true).into_iter().map(|kids| Node { kind: Kind::Act, text: String::new(), kids }).collect();
    if n >= 2 {
        out.extend(forests(n - 1, false).into_iter().map(|kids| Node { kind: Kind::Cond, text: String::new(), kids }));
    }
    out
}

/// Shapes without descriptions.
pub fn rule_forests(n: usize) -> Vec<Vec<Node>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        let mut firsts = vec![];
        if first == 1 {
            firsts.push(act(""));
        } else {
            firsts.extend(rule_forests(first - 1).into_iter().map(|k| cond("", k)));
        }
        let rest = rule_forests(n - first);
        for f in &firsts {
            for r in &rest {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

/// Shapes that grow in one direction each, of size `n`: chains of conditions,
/// with tests at their end, at every level, before or behind the next one; many
/// children of one kind below the root, a condition or an action; square ones.
pub fn family_shapes(n: usize) -> Vec<Vec<Node>> {
    let chain = |inner: &dyn Fn(Option<Node>) -> Vec<Node>| {
        let mut k: Option<Node> = None;
        for _ in 0..n {
            k = Some(cond("", inner(k)));
        }
        vec![k.unwrap()]
    };
    let a = || act("");
    let c1 = || cond("", vec![act("")]);
    let mut v = vec![
        chain(&|k| vec![k.unwrap_or_else(a)]),
        chain(&|k| vec![a()].into_iter().chain(k).collect()),
        chain(&|k| k.into_iter().chain([a()]).collect()),
        chain(&|k| k.into_iter().chain([c1()]).collect()),
        chain(&|k| [c1()].into_iter().chain(k).collect()),
        chain(&|k| [c1(), a()].into_iter().chain(k).chain([a(), c1()]).collect()),
        (0..n).map(|_| a()).collect(),
        (0..n).map(|_| c1()).collect(),
        (0..n).map(|i| if i % 2 == 0 { a() } else { c1() }).collect(),
        (0..n).map(|_| cond("", vec![cond("", vec![a()])])).collect(),
        vec![cond("", (0..n).map(|_| a()).collect())],
        vec![cond("", (0..n).map(|_| c1()).collect()), a()],
        vec![actd("", (0..n).map(|_| desc("")).collect())],
        vec![cond("", vec![actd("", (0..n).map(|_| desc("")).collect()), a()])],
    ];
    let mut d: Vec<Node> = vec![];
    for _ in 0..n {
        d = vec![Node { kind: Kind::Desc, text: String::new(), kids: d }, desc("")];
    }
    v.push(vec![actd("", d), a()]);
    let m = (1..).find(|m| m * m >= n).unwrap();
    v.push((0..m).map(|_| cond("", (0..m).map(|_| cond("", vec![a(), a()])).collect())).collect());
    v
}

/// Every size up to `n`, and the ones around round numbers up to `most`.
pub fn growing(n: usize, most: usize) -> impl Iterator<Item = usize> + Send + Clone {
    const MORE: [usize; 43] = [
        8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 25, 26, 27, 31, 32, 33, 34, 40, 41, 50, 51, 52, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129,
        130, 200, 201, 255, 256, 257, 258,
    ];
    (2..=n).chain(MORE.into_iter().filter(move |x| *x > n && *x <= most))
}

/// Fills in distinct texts, by position.
pub fn label(kids: &mut [Node]) {
    fn rec(kids: &mut [Node], n: &mut usize) {
        for k in kids {
            k.text = match k.kind {
                Kind::Cond => format!("{} c{}", if *n % 3 == 2 { "given" } else { "when" }, word(*n)),
                Kind::Act => format!("it a{} holds", word(*n)),
                Kind::Desc => format!("d{} text", word(*n)),
            };
            *n += 1;
            rec(&mut k.kids, n);
        }
    }
    rec(kids, &mut 0);
}
/// Distinct short words for numbers.
pub fn word(mut n: usize) -> String {
    let mut s = String::new();
    loop {
        s.insert(0, (b'a' + (n % 26) as u8) as char);
        n /= 26;
        if n == 0 {
            return s;
        }
        n -= 1;
    }
}

pub fn labelled(kids: Vec<Node>, root: &str) -> Tree {
    let mut kids = kids;
    label(&mut kids);
    Tree { root: root.into(), kids }
}

// ------------------------------------------------------------------ rendering

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Corner {
    /// Last children of every node use a corner.
    Proper,
    /// Below the top level, only tees.
    Tees,
    /// Below the top level, only corners.
    Corners,
}

/// What stands on a line before its branch: bars below the branches that have
/// later siblings, or less, or more.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bars {
    Yes,
    No,
    /// Only on lines of this parity.
    Lines(usize),
    /// Below every branch, also below the last ones.
    All,
    /// As yes, with other blanks in between.
    Blank(char),
}

#[derive(Clone, Debug)]
pub struct Layout {
    /// Indentation below depth 0, 1, ... (the last one repeats).
    pub indent: Vec<usize>,
    /// What goes between the glyph and the text.
    pub dash: &'static str,
    pub bars: Bars,
    pub corner: Corner,
    pub eol: &'static str,
    /// Column of the top-level branches.
    pub base: usize,
    pub final_eol: bool,
}

impl Default for Layout {
    fn default() -> Self {
        Layout { indent: vec![4], dash: "── ", bars: Bars::Yes, corner: Corner::Proper, eol: "\n", base: 0, final_eol: true }
    }
}

/// How many layouts there are.
pub const NL: usize = 14;

pub fn layouts() -> Vec<Layout> {
    let d = Layout::default();
    vec![
        d.clone(),
        Layout { indent: vec![3], dash: "── ", bars: Bars::Yes, ..d.clone() },
        Layout { indent: vec![1], dash: " ", bars: Bars::No, ..d.clone() },
        Layout { indent: vec![2], dash: "─ ", bars: Bars::Yes, corner: Corner::Tees, ..d.clone() },
        Layout { indent: vec![5, 1, 3], dash: "───── ", bars: Bars::Yes, corner: Corner::Corners, ..d.clone() },
        Layout { indent: vec![1, 6, 2], dash: "", bars: Bars::No, corner: Corner::Tees, final_eol: false, ..d.clone() },
        Layout { indent: vec![4], eol: "\r\n", ..d.clone() },
        Layout { indent: vec![8], base: 3, dash: "──   ", final_eol: false, ..d.clone() },
        Layout { indent: vec![12, 1], base: 0, dash: "────────── ", corner: Corner::Proper, ..d.clone() },
        Layout { bars: Bars::Lines(0), ..d.clone() },
        Layout { bars: Bars::Lines(1), indent: vec![2], dash: "─ ", ..d.clone() },
        Layout { bars: Bars::All, indent: vec![3, 4], ..d.clone() },
        // what `tree` prints
        Layout { bars: Bars::Blank('\u{a0}'), ..d.clone() },
        Layout { bars: Bars::Blank('\t'), indent: vec![2], base: 1, dash: "─\t", ..d },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Pos {
    pub offset: usize,
    pub line: usize,
    pub col: usize,
}

/// Where a node is: its glyph, and the last character of its own text and of
/// its subtree.
#[derive(Clone, Copy, Debug, Default)]
pub struct Place {
    pub start: Pos,
    pub text_start: Pos,
    pub text_end: Pos,
    pub end: Pos,
    /// Column distance to the parent action (descriptions).
    pub delta: usize,
    pub depth: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    pub root: Place,
    /// In drawing order.
    pub nodes: Vec<Place>,
}

pub struct Cursor {
    pub text: String,
    pub pos: Pos,
    pub last: Pos,
}
impl Cursor {
    pub fn new() -> Self {
        Cursor { text: String::new(), pos: Pos { offset: 0, line: 1, col: 1 }, last: Pos { offset: 0, line: 1, col: 1 } }
    }
    pub fn push(&mut self, s: &str) {
        for c in s.chars() {
            self.last = self.pos;
            self.text.push(c);
            self.pos.offset += c.len_utf8();
            if c == '\n' {
                self.pos.line += 1;
                self.pos.col = 1;
            } else {
                self.pos.col += 1;
            }
        }
    }
}

pub fn render(t: &Tree, l: &Layout) -> Rendered {
    let mut c = Cursor::new();
    let mut r = Rendered::default();
    render_into(t, l, &mut c, &mut r);
    r.text = c.text;
    r
}

pub fn render_into(t: &Tree, l: &Layout, c: &mut Cursor, r: &mut Rendered) {
    let start = c.pos;
    c.push(&t.root);
    r.root = Place { start, text_start: start, text_end: c.last, end: c.last, delta: 0, depth: 0 };
    let n = t.kids.len();
    for (i, k) in t.kids.iter().enumerate() {
        node(k, l, c, r, &mut vec![], i + 1 == n, 0);
    }
    if let Some(last) = r.nodes.last() {
        r.root.end = last.text_end;
    }
    if l.final_eol {
        c.push(l.eol);
    }
}

/// `open`: for every ancestor, its column and whether it has later siblings.
fn node(k: &Node, l: &Layout, c: &mut Cursor, r: &mut Rendered, open: &mut Vec<(usize, bool)>, last: bool, act_col: usize) {
    c.push(l.eol);
    let depth = open.len();
    let col = match open.last() {
        None => l.base,
        Some((p, _)) => p + l.indent[(depth - 1).min(l.indent.len() - 1)],
    };
    let mut line = String::new();
    let row = c.pos.line;
    for x in 0..col {
        let at = open.iter().find(|(p, _)| *p == x);
        let bar = match l.bars {
            Bars::No => false,
            Bars::All => at.is_some(),
            Bars::Lines(n) if row % 2 != n => false,
            _ => at.is_some_and(|(_, more)| *more),
        };
        line.push(match l.bars {
            _ if bar => '│',
            // the last one before the branch is an ordinary one
            Bars::Blank(b) if x + 1 < col || b == '\t' => b,
            _ => ' ',
        });
    }
    c.push(&line);
    let start = c.pos;
    let corner = match l.corner {
        _ if depth == 0 => last,
        Corner::Proper => last,
        Corner::Tees => false,
        Corner::Corners => true,
    };
    c.push(if corner { "└" } else { "├" });
    c.push(l.dash);
    let text_start = c.pos;
    c.push(&k.text);
    let end = c.last;
    let delta = if k.kind == Kind::Desc { col - act_col } else { 0 };
    let i = r.nodes.len();
    r.nodes.push(Place { start, text_start, text_end: end, end, delta, depth });
    open.push((col, !last));
    let n = k.kids.len();
    let act_col = if k.kind == Kind::Act { col } else { act_col };
    for (j, kid) in k.kids.iter().enumerate() {
        node(kid, l, c, r, open, j + 1 == n, act_col);
    }
    open.pop();
    let end = r.nodes.last().unwrap().text_end;
    r.nodes[i].end = end;
}

/// Several trees in one file, separated by `sep` (which follows the trees'
/// final end of line, if any).
pub fn render_all(ts: &[Tree], l: &Layout, before: &str, sep: &str, after: &str) -> (String, Vec<Rendered>) {
    let mut c = Cursor::new();
    let mut v = vec![];
    c.push(before);
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            c.push(sep);
        }
        let mut r = Rendered::default();
        render_into(t, l, &mut c, &mut r);
        v.push(r);
    }
    c.push(after);
    (c.text, v)
}
