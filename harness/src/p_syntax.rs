//! C03, C04, C05 (tree part) and C13: reading tree files.
use crate::refm;
use crate::rt::*;
use crate::tree::*;
use bulloak_syntax::{Ast, Span};
use std::path::Path;

/// A parsed tree, without the library's types.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Got {
    pub kind: &'static str,
    pub text: String,
    pub span: Span,
    pub kids: Vec<Got>,
}

pub fn got(a: &Ast) -> Got {
    match a {
        Ast::Root(x) => Got { kind: "root", text: x.contract_name.clone(), span: x.span, kids: x.children.iter().map(got).collect() },
        Ast::Condition(x) => Got { kind: "condition", text: x.title.clone(), span: x.span, kids: x.children.iter().map(got).collect() },
        Ast::Action(x) => Got { kind: "action", text: x.title.clone(), span: x.span, kids: x.children.iter().map(got).collect() },
        Ast::ActionDescription(x) => Got { kind: "description", text: x.text.clone(), span: x.span, kids: vec![] },
    }
}

pub fn squeeze(s: &str) -> String {
    s.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// What parsing should give: kind, text, place, children (descriptions of an
/// action are a flat list, in drawing order).
struct Want {
    kind: &'static str,
    text: String,
    place: Place,
    kids: Vec<Want>,
}

fn want(t: &Tree, r: &Rendered) -> Want {
    fn rec(k: &Node, n: &mut usize, r: &Rendered, out: &mut Vec<Want>) {
        let place = r.nodes[*n];
        *n += 1;
        match k.kind {
            Kind::Cond => {
                let mut kids = vec![];
                for x in &k.kids {
                    rec(x, n, r, &mut kids);
                }
                out.push(Want { kind: "condition", text: refm::clean(&squeeze(&k.text)), place, kids });
            }
            Kind::Act => {
                let mut kids = vec![];
                for x in &k.kids {
                    rec(x, n, r, &mut kids);
                }
                out.push(Want { kind: "action", text: squeeze(&k.text), place, kids });
            }
            Kind::Desc => {
                let text = format!("{}{}", " ".repeat(place.delta), squeeze(&k.text));
                let mut place = place;
                place.end = place.text_end;
                out.push(Want { kind: "description", text, place, kids: vec![] });
                for x in &k.kids {
                    rec(x, n, r, out);
                }
            }
        }
    }
    let mut kids = vec![];
    let mut n = 0;
    for k in &t.kids {
        rec(k, &mut n, r, &mut kids);
    }
    Want { kind: "root", text: t.root.clone(), place: r.root, kids }
}

fn same(w: &Want, g: &Got, spans: bool, path: &str) -> Result<(), String> {
    if w.kind != g.kind {
        return Err(format!("{path}: expected a {}, got a {} ({:?})", w.kind, g.kind, g.text));
    }
    if w.text.trim() != g.text.trim() {
        return Err(format!("{path}: expected the text {:?}, got {:?}", w.text, g.text));
    }
    if w.kids.len() != g.kids.len() {
        return Err(format!(
            "{path} ({} {:?}): expected {} children, got {}: {:?}",
            w.kind, w.text, w.kids.len(), g.kids.len(), g.kids.iter().map(|k| &k.text).collect::<Vec<_>>()
        ));
    }
    if spans {
        let eq = |p: Pos, q: bulloak_syntax::Position| p.offset == q.offset && p.line == q.line && p.col == q.column;
        if !eq(w.place.start, g.span.start) || !eq(w.place.end, g.span.end) {
            return Err(format!("{path} ({} {:?}): expected the span {:?}..{:?}, got {:?}", w.kind, w.text, w.place.start, w.place.end, g.span));
        }
    }
    for (i, (w, g)) in w.kids.iter().zip(&g.kids).enumerate() {
        same(w, g, spans, &format!("{path}.{i}"))?;
    }
    Ok(())
}

/// Parses `text` with the real parser and compares with the drawn trees.
fn compare(w: &mut Worker, text: &str, ts: &[Tree], rs: &[Rendered], spans: bool) -> R {
    w.mc.reads(text);
    let asts = match bulloak_syntax::parse(text) {
        Ok(a) => a,
        Err(e) => return viol(text, format!("a well-formed tree file was rejected\n--- file ---\n{text}\n--- error ---\n{e}")),
    };
    w.mc.trace();
    if asts.len() != ts.len() {
        return viol(text, format!("{} trees drawn, {} parsed\n--- file ---\n{text}", ts.len(), asts.len()));
    }
    for (i, a) in asts.iter().enumerate() {
        if let Err(e) = same(&want(&ts[i], &rs[i]), &got(a), spans, &format!("tree {}", i + 1)) {
            return viol(text, format!("the parsed tree differs from the drawing: {e}\n--- file ---\n{text}"));
        }
    }
    Ok(())
}

/// Texts that must come through unchanged.
pub fn texts(k: Kind) -> Vec<&'static str> {
    match k {
        Kind::Cond => vec![
            "when a",
            "given the owner's  balance is zero",
            "WHEN it is given when a-b",
            "Given \"x_1\" é",
        ],
        Kind::Act => vec![
            "it holds",
            "It should revert.",
            "it emits {Ev(a, b)}; when x // given",
            "IT   is é → ok: $1 — 100%",
        ],
        Kind::Desc => vec!["note", "Because it is   so, when /* given */", "- é: `x`"],
    }
}

/// Words that texts are made of.
fn text_words(k: Kind) -> Vec<&'static str> {
    let mut v = vec!["a", "it", "When", "gIVEN", "IT", "wHEN", "GIVEN", "then", "It's", "É", "日本", "x-y", "_1", "\"q\""];
    if k != Kind::Cond {
        v.extend(["→", "a//b", "/", "*/", "{B", "};", "é:"]);
    }
    v
}

/// Every assignment of the texts to the nodes of a shape.
fn assignments(shape: &[Node]) -> Vec<Vec<Node>> {
    let t = tree("", shape.to_vec());
    let kinds: Vec<Kind> = t.nodes().iter().map(|n| n.kind).collect();
    let mut out = vec![t];
    for (i, k) in kinds.iter().enumerate() {
        let mut next = vec![];
        for t in &out {
            for x in texts(*k) {
                next.push(t.with_node(i, |n| n.text = x.into()));
            }
        }
        out = next;
    }
    out.into_iter().map(|t| t.kids).collect()
}

/// Makes the condition texts of a tree distinct without changing their class.
fn distinct(mut t: Tree) -> Tree {
    let n = t.nodes().len();
    for i in 0..n {
        t = t.with_node(i, |x| {
            if x.kind != Kind::Desc {
                // before a comment, which would hide it
                match x.text.split_once(" //") {
                    Some((a, b)) => x.text = format!("{a} n{} //{b}", word(i)),
                    None => x.text = format!("{} n{}", x.text, word(i)),
                }
            }
        });
    }
    t
}

/// The text of a branch that remains when the tree comments are dropped.
fn uncommented(t: &Tree) -> Tree {
    let mut t = t.clone();
    let n = t.nodes().len();
    for i in 0..n {
        t = t.with_node(i, |x| {
            if let Some((a, _)) = x.text.split_once(" //") {
                x.text = a.to_string();
            }
        });
    }
    t
}

pub fn prefixes() -> Vec<&'static str> {
    vec![
        "",
        "\n",
        "\n\n\n",
        "// é comment ├── when x\n",
        "// a\n\n// b\n",
        "  // a\n\t// b └──\n",
        "\r\n\r\n// ü\r\n",
    ]
}
pub fn separators() -> Vec<&'static str> {
    vec!["\n", "\n\n", "\n\n\n", "\n// c é ├── it x\n", "\n\n// lone\n\n// c\n"]
}

pub fn c03(mc: &Mc) {
    structure(mc, false)
}

fn structure(mc: &Mc, spans: bool) {
    let n1 = mc.pick(8, 10);
    *mc.rule.lock().unwrap() = format!(
        "every tree shape of 1..={n1} nodes (conditions, actions, nested descriptions) x {} layouts; every assignment of {} text classes to shapes of <= 4 nodes; every sequence of 1..=3 trees of <= 2 nodes x separators x prefixes; chains, combs, wide trees, many trees and long texts at every size; the parser's result is compared node by node with the drawing",
        layouts().len(), texts(Kind::Cond).len() + texts(Kind::Act).len() + texts(Kind::Desc).len()
    );
    mc.bound("nodes", n1 as u64);
    mc.bound("layouts", layouts().len() as u64);
    for n in 1..=n1 {
        let shapes = forests(n, false);
        mc.par(shapes.into_iter(), |w, s| {
            let t = labelled(s.clone(), "Root");
            for l in layouts() {
                w.mc.state();
                let r = render(&t, &l);
                w.mc.sample(|| r.text.clone().into());
                compare(w, &r.text, std::slice::from_ref(&t), std::slice::from_ref(&r), spans)?;
            }
            w.mc.outcome(&format!("{n} nodes parsed"));
            Ok(())
        });
    }
    // texts
    let nt = mc.pick(4, 5);
    mc.bound("nodes_with_all_text_assignments", nt as u64);
    for n in 1..=nt {
        let shapes = forests(n, false);
        mc.par(shapes.into_iter(), |w, s| {
            for kids in assignments(s) {
                let t = distinct(tree("Root", kids));
                // text_end must be where the text before the comment ends
                let plain = uncommented(&t);
                for (i, l) in [layouts()[0].clone(), layouts()[5].clone(), layouts()[6].clone()].iter().enumerate() {
                    w.mc.state();
                    let text = render(&t, l).text;
                    let mut r = render(&plain, l);
                    if t != plain {
                        // only lines after a comment move: compare the structure
                        r.text = text.clone();
                        compare(w, &text, &[plain.clone()], &[r], false)?;
                    } else {
                        compare(w, &text, &[plain.clone()], &[r], spans)?;
                    }
                    if i == 0 {
                        w.mc.outcome("texts kept");
                    }
                }
            }
            Ok(())
        });
    }
    // files that grow in one direction each
    mc.par(crate::p_scaffold::families(mc), |w, c| {
        w.mc.state();
        let (text, rs) = c.build();
        compare(w, &text, &c.ts, &rs, spans)?;
        w.mc.outcome("families");
        Ok(())
    });
    // every short sequence of words as a text
    let nw = mc.pick(3, 4);
    mc.bound("words_per_text", nw as u64);
    for kind in [Kind::Cond, Kind::Act, Kind::Desc] {
        let words = text_words(kind);
        let k = words.len();
        for len in 1..=nw {
            mc.par((0..k.pow(len as u32)).flat_map(|x| [(x, " "), (x, "  ")]), |w, (x, gap)| {
                let mut x = *x;
                let mut ws = vec![];
                for _ in 0..len {
                    ws.push(words[x % k]);
                    x /= k;
                }
                let text = ws.join(gap);
                if len == 1 && *gap != " " {
                    return Ok(());
                }
                let ts: Vec<Tree> = match kind {
                    Kind::Cond => ["when", "GIVEN"].iter().map(|kw| tree("Root", vec![cond(&format!("{kw} {text}"), vec![cond(&format!("given x {text}"), vec![act("it a")]), act("it b")])])).collect(),
                    Kind::Act => ["it", "It"].iter().map(|kw| tree("Root", vec![cond("when a", vec![act(&format!("{kw} {text}")), actd("it z", vec![desc("d")])]), act(&format!("it q {text}"))])).collect(),
                    Kind::Desc => {
                        // a keyword at the start would make it something else
                        if ["it", "when", "given"].contains(&ws[0].to_lowercase().as_str()) {
                            return Ok(());
                        }
                        vec![tree("Root", vec![cond("when a", vec![actd("it a", vec![Node { kind: Kind::Desc, text: text.clone(), kids: vec![desc(&text)] }, desc("end")])])])]
                    }
                };
                for t in ts {
                    w.mc.state();
                    let r = render(&t, &Layout::default());
                    compare(w, &r.text, std::slice::from_ref(&t), std::slice::from_ref(&r), spans)?;
                }
                Ok(())
            });
        }
    }
    // several trees, prefixes
    let small: Vec<Vec<Node>> = (1..=2).flat_map(|n| forests(n, false)).collect();
    let mut files: Vec<Vec<usize>> = vec![];
    for len in 1..=3usize {
        let mut idx = vec![0; len];
        'l: loop {
            files.push(idx.clone());
            for p in 0..len {
                idx[p] += 1;
                if idx[p] < small.len() {
                    continue 'l;
                }
                idx[p] = 0;
            }
            break;
        }
    }
    mc.bound("trees_per_file", 3);
    mc.par(files.into_iter(), |w, f| {
        let ts: Vec<Tree> = f.iter().enumerate().map(|(i, s)| labelled(small[*s].clone(), &format!("Ké::f{i}"))).collect();
        for l in [&layouts()[0], &layouts()[4], &layouts()[5], &layouts()[6]] {
            for before in prefixes() {
                for sep in separators() {
                    for after in ["", "\n\n", "\n// end é"] {
                        w.mc.state();
                        let sep = if l.final_eol { sep.to_string() } else { format!("\n{sep}") };
                        let after = if l.final_eol || after.is_empty() { after.to_string() } else { format!("\n{after}") };
                        let fix = |s: &str| if l.eol == "\r\n" { s.replace("\r\n", "\n").replace('\n', "\r\n") } else { s.to_string() };
                        let before = fix(before);
                        let (text, rs) = render_all(&ts, l, &before, &fix(&sep), &fix(&after));
                        compare(w, &text, &ts, &rs, spans)?;
                        if f.len() == 1 {
                            break;
                        }
                    }
                }
            }
        }
        w.mc.outcome(&format!("{} trees", f.len()));
        Ok(())
    });
}

// ------------------------------------------------------------- ill-formed trees

/// An ill-formed file and what has to be said about it.
#[derive(Clone, Debug)]
pub struct Bad {
    pub text: String,
    /// The acceptable first lines of the error.
    pub msg: String,
    /// Line, column and length of the marked place; `None` if the error has no place.
    pub at: Option<(usize, usize, usize)>,
    pub what: &'static str,
}

fn place_of(text: &str, off: usize) -> (usize, usize) {
    let b = &text[..off];
    let line = b.matches('\n').count() + 1;
    let col = b[b.rfind('\n').map_or(0, |i| i + 1)..].chars().count() + 1;
    (line, col)
}

pub const BAD_CHARS: &[char] = &['!', '@', '#', '%', '^', '&', '*', '(', ')', '+', '=', '{', '}', '[', ']', '\\', ':', ';', '<', '>', ',', '.', '?', '~', '`', '—', '…', '“', '→'];

/// Every single mistake at every place of the given drawing. `pre` and `post` are the
/// texts around the tree in its file.
pub fn mistakes(t: &Tree, l: &Layout, pre: &str, post: &str, all_chars: bool) -> Vec<Bad> {
    let mut out = vec![];
    let file = |t: &Tree| {
        let (text, rs) = render_all(std::slice::from_ref(t), l, pre, "", post);
        (text, rs.into_iter().next().unwrap())
    };
    let mut push = |text: String, what: &'static str, msg: String, off: usize, len: usize| {
        let (line, col) = place_of(&text, off);
        out.push(Bad { at: if off == 0 { None } else { Some((line, col, len)) }, text, msg, what });
    };
    let len = |s: &str| s.chars().count();
    let nodes: Vec<Node> = t.nodes().into_iter().cloned().collect();
    let mut top = vec![];
    {
        let mut n = 0;
        for k in &t.kids {
            top.push(n);
            n += k.size();
        }
    }
    // under[i]: kind of the parent of node i (None: root)
    let mut under: Vec<Option<Kind>> = vec![None; nodes.len()];
    {
        fn rec(k: &Node, n: &mut usize, p: Option<Kind>, u: &mut Vec<Option<Kind>>) {
            u[*n] = p;
            *n += 1;
            for x in &k.kids {
                rec(x, n, Some(k.kind), u);
            }
        }
        let mut n = 0;
        for k in &t.kids {
            rec(k, &mut n, None, &mut under);
        }
    }
    // no rules
    {
        let e = tree(&t.root, vec![]);
        let (text, r) = file(&e);
        push(text, "no rules", "no rules where defined".into(), r.root.text_end.offset, 1);
    }
    // no root
    {
        let mut e = t.clone();
        e.root = String::new();
        let (text, r) = file(&e);
        push(text, "no root", "missing a root".into(), r.nodes[0].start.offset, 1);
    }
    // words after the root
    for (x, msg) in [("b", "unexpected `word` 'b'"), ("when", "unexpected `when` keyword"), ("Given", "unexpected `given` keyword"), ("it", "unexpected `it` keyword")] {
        let mut e = t.clone();
        e.root = format!("{} {x} y", t.root);
        let (text, r) = file(&e);
        let off = r.root.start.offset + t.root.len() + 1;
        push(text, "words after the root", msg.into(), off, len(x));
    }
    for (i, k) in nodes.iter().enumerate() {
        let (_, r0) = file(t);
        let g = r0.nodes[i].start.offset;
        // the keyword is not a keyword
        if k.kind != Kind::Desc {
            for (j, x) in ["whenever", "should", "é", "its"].iter().enumerate() {
                if j > 1 && !all_chars {
                    continue;
                }
                let rest = k.text.split_once(' ').unwrap().1;
                let e = t.with_node(i, |n| n.text = format!("{x} {rest}"));
                let (text, r) = file(&e);
                push(text, "no keyword", format!("unexpected token '{x}'"), r.nodes[i].text_start.offset, len(x));
            }
        } else {
            // a rule below an action
            for x in ["when", "it", "GIVEN"] {
                let e = t.with_node(i, |n| n.text = format!("{x} b c"));
                let (text, r) = file(&e);
                push(text, "rule under an action", format!("unexpected token in description '{x}'"), r.nodes[i].text_start.offset, len(x));
            }
        }
        // nothing on the branch
        {
            let e = t.with_node(i, |n| n.text = String::new());
            let (text, r) = file(&e);
            let in_act = matches!(under[i], Some(Kind::Act) | Some(Kind::Desc));
            // what follows on the next line, if anything
            match r.nodes.get(i + 1) {
                Some(p) => {
                    let glyph = text[p.start.offset..].chars().next().unwrap();
                    let m = if in_act { format!("unexpected token in description '{glyph}'") } else { format!("unexpected token '{glyph}'") };
                    push(text, "empty branch", m, p.start.offset, 1);
                }
                None => push(text, "empty branch", "unexpected end of file".into(), g, 1),
            }
        }
        if k.kind == Kind::Cond {
            // only the keyword
            let kw = k.text.split_once(' ').unwrap().0.to_string();
            let e = t.with_node(i, |n| n.text = kw.clone());
            let (text, r) = file(&e);
            push(text, "no title", "found a condition/action without a title".into(), r.nodes[i].text_start.offset, len(&kw));
            // no children
            let e = t.with_node(i, |n| n.kids.clear());
            let (text, r) = file(&e);
            // a condition that became a leaf keeps its siblings
            push(text, "condition without children", "found a condition with no children".into(), g, r.nodes[i].text_end.col + 1 - r.nodes[i].start.col);
            // a bad character at each place of the title
            let chars: Vec<char> = k.text.chars().collect();
            let first = chars.iter().position(|c| *c == ' ').unwrap() + 1;
            for at in first..=chars.len() {
                let set: &[char] = if all_chars { BAD_CHARS } else { &BAD_CHARS[(i + at) % BAD_CHARS.len()..][..1] };
                for c in set {
                    let mut x = chars.clone();
                    x.insert(at, *c);
                    let s: String = x.iter().collect();
                    let e = t.with_node(i, |n| n.text = s.clone());
                    let (text, r) = file(&e);
                    let off = r.nodes[i].text_start.offset + x[..at].iter().map(|c| c.len_utf8()).sum::<usize>();
                    push(text, "bad character", format!("invalid identifier: {c}"), off, 1);
                }
            }
        }
        if k.kind == Kind::Act && k.kids.is_empty() {
            // an action that is a condition without children
            let e = t.with_node(i, |n| n.text = "given nothing".into());
            let (text, r) = file(&e);
            push(text, "condition without children", "found a condition with no children".into(), g, r.nodes[i].text_end.col + 1 - r.nodes[i].start.col);
        }
        // the wrong glyph at the top level
        if let Some(j) = top.iter().position(|x| *x == i) {
            let (mut text, _) = file(t);
            let last = j + 1 == top.len();
            text.replace_range(g..g + '├'.len_utf8(), if last { "├" } else { "└" });
            let m = if last { "a `Tee` must not be the last child" } else { "a `Corner` must be the last child" };
            push(text, "wrong glyph", m.into(), g, 1);
        }
        // a description where a rule must be
        if k.kind == Kind::Cond || under[i].is_none() {
            let mut e = t.clone();
            let extra = desc("because so");
            if k.kind == Kind::Cond {
                for at in 0..=k.kids.len() {
                    let e = t.with_node(i, |n| n.kids.insert(at, extra.clone()));
                    let (text, _) = file(&e);
                    let off = text.rfind("because so").unwrap();
                    let _ = &e;
                    push(text, "description under a condition", "unexpected token 'because'".into(), off, 7);
                }
            }
            if let Some(j) = top.iter().position(|x| *x == i) {
                e.kids.insert(j, extra);
                let (text, _) = file(&e);
                let off = text.rfind("because so").unwrap();
                push(text, "description under the root", "unexpected token 'because'".into(), off, 7);
            }
        }
    }
    out
}

/// The error names the problem, and (with `place`) points at it.
pub fn judge_error(b: &Bad, err: &str, place: bool) -> Result<(), String> {
    let first = err.lines().find(|l| l.starts_with("bulloak error: ")).unwrap_or("");
    let said = first.trim_start_matches("bulloak error: ").trim_end();
    if said != b.msg {
        return Err(format!("expected the error {:?}, got {said:?}", b.msg));
    }
    if !place {
        return Ok(());
    }
    let Some((line, col, n)) = b.at else { return Ok(()) };
    let lines: Vec<&str> = err.lines().collect();
    let want_loc = format!("--- (line {line}, column {col}) ---");
    if !lines.contains(&want_loc.as_str()) {
        return Err(format!("expected {want_loc:?}"));
    }
    let src = b.text.lines().nth(line - 1).unwrap_or("");
    let mark = format!("{}{}", " ".repeat(col - 1), "^".repeat(n));
    let ok = lines.windows(2).any(|w| w[0].trim_end() == src.trim_end() && w[1] == mark);
    if !ok {
        return Err(format!("expected the excerpt\n{src}\n{mark}"));
    }
    Ok(())
}

fn scaffold(text: &str) -> anyhow::Result<String> {
    bulloak_foundry::scaffold::scaffold(text, &bulloak_foundry::config::Config::default())
}

fn parse_err(text: &str) -> Option<String> {
    bulloak_syntax::parse(text).err().map(|e| e.to_string())
}

/// Runs the real CLI on an ill-formed tree.
fn cli_rejects(w: &mut Worker, b: &Bad, place: bool) -> R {
    w.clean();
    w.put("a.tree", &b.text);
    w.put("a.t.sol", "contract A {}\n");
    let runs: [&[&str]; 6] = [
        &["scaffold", "a.tree"],
        &["scaffold", "-w", "-f", "a.tree"],
        &["scaffold", "-w", "-f", "-m", "-S", "a.tree"],
        &["check", "a.tree"],
        &["check", "--fix", "a.tree"],
        &["check", "--fix", "--stdout", "-m", "a.tree"],
    ];
    let before = w.snapshot();
    for args in runs {
        let o = w.run(args);
        w.mc.trace();
        let bad = |why: String| viol(format!("{args:?} {}", b.text), format!("{why}\nargs: {args:?}\n--- file ---\n{}\n{}", b.text, o.show()));
        if o.code != 1 {
            return bad(format!("an ill-formed tree ({}) gives exit status {}", b.what, o.code));
        }
        if o.stdout.contains("contract ") || w.snapshot() != before {
            return bad("something was generated from an ill-formed tree".into());
        }
        if args[0] == "scaffold" || o.stderr.contains("bulloak error") {
            if let Err(e) = judge_error(b, &o.stderr, place) {
                return bad(e);
            }
        }
        let semantic = b.msg.starts_with("no rules") || b.msg.starts_with("found a condition with");
        let msg = if semantic { "at least one semantic error occurred while parsing the tree" } else { &b.msg };
        if args[0] == "check" && !o.stderr.contains(msg) {
            return bad(format!("check does not name the problem ({})", b.msg));
        }
    }
    Ok(())
}

fn ill_formed(mc: &Mc, place: bool) {
    let n1 = mc.pick(5, 6);
    mc.bound("nodes_with_every_mistake", n1 as u64);
    let ls = layouts();
    for n in 1..=n1 {
        mc.par(forests(n, false).into_iter().enumerate(), |w, (si, s)| {
            let t = labelled(s.clone(), "Root");
            // every prefix for small shapes, one (rotating) for larger ones
            let pres = prefixes();
            for (li, l) in ls.iter().enumerate() {
                if n >= 4 && !(li == 0 || li == 1 + si % (ls.len() - 1)) {
                    continue;
                }
                let sel: Vec<usize> = if n <= 2 { (0..pres.len()).collect() } else { vec![(si + li) % pres.len()] };
                for p in sel {
                    let (pre, post) = (pres[p], if (si + p) % 2 == 0 || !l.final_eol { "" } else { "// end\n" });
                    for b in mistakes(&t, l, pre, post, n <= 2) {
                        w.mc.state();
                        w.mc.reads(&b.text);
                        let Some(e) = parse_err(&b.text) else {
                            return viol(&b.text, format!("an ill-formed tree was accepted ({}; expected {:?})\n--- file ---\n{}", b.what, b.msg, b.text));
                        };
                        w.mc.trace();
                        w.mc.outcome(b.what);
                        w.mc.sample(|| serde_json::json!({"file": b.text, "mistake": b.what}));
                        if let Err(m) = judge_error(&b, &e, place) {
                            return viol(&b.text, format!("{m}\nmistake: {}\n--- file ---\n{}\n--- error ---\n{e}", b.what, b.text));
                        }
                        if let Ok(sol) = scaffold(&b.text) {
                            return viol(&b.text, format!("code was generated from an ill-formed tree ({})\n--- file ---\n{}\n--- code ---\n{sol}", b.what, b.text));
                        }
                    }
                }
            }
            Ok(())
        });
    }
    // the mistake in a later tree of the file
    let first = labelled(forests(2, false)[0].clone(), "Root::fé");
    let second: Vec<Vec<Node>> = (1..=3).flat_map(|n| forests(n, false)).collect();
    mc.par(second.into_iter(), |w, s| {
        let t = labelled(s.clone(), "Root::g");
        for l in [&ls[0], &ls[3], &ls[6]] {
            let (text, _) = render_all(std::slice::from_ref(&first), l, "// é\n", "", l.eol);
            let text = if l.eol == "\r\n" { text.replacen("// é\n", "// é\r\n", 1) } else { text };
            for b in mistakes(&t, l, &text, "", false) {
                if b.what == "no root" {
                    continue; // the branches would belong to the comment or tree before
                }
                w.mc.state();
                w.mc.reads(&b.text);
                let Some(e) = parse_err(&b.text) else {
                    return viol(&b.text, format!("an ill-formed tree was accepted ({})\n--- file ---\n{}", b.what, b.text));
                };
                w.mc.trace();
                if let Err(m) = judge_error(&b, &e, place) {
                    return viol(&b.text, format!("{m}\nmistake: {}\n--- file ---\n{}\n--- error ---\n{e}", b.what, b.text));
                }
            }
        }
        w.mc.outcome("mistake in the second tree");
        Ok(())
    });
    // far down and far to the right
    let far: Vec<(String, usize)> = [250, 65_530].iter().flat_map(|n| [("\n".repeat(*n), 0), ("// é\n".repeat(*n), 0), (String::new(), (*n).min(300))]).collect();
    mc.par(far.into_iter().flat_map(|f| (1..=2).flat_map(|n| forests(n, false)).map(move |s| (f.clone(), s))), |w, ((pre, wide), s)| {
        let mut t = labelled(s.clone(), "Root");
        if *wide > 0 {
            for i in 0..t.nodes().len() {
                t = t.with_node(i, |n| n.text = format!("{} {}x", n.text, "y".repeat(*wide)));
            }
        }
        for b in mistakes(&t, &ls[0], pre, "", false) {
            if b.what == "no root" {
                continue;
            }
            w.mc.state();
            let Some(e) = parse_err(&b.text) else {
                return viol(&b.text, format!("an ill-formed tree was accepted ({}; expected {:?})", b.what, b.msg));
            };
            w.mc.trace();
            if let Err(m) = judge_error(&b, &e, place) {
                return viol(&b.text, format!("{}\nmistake: {}, {} characters before the tree, {wide} in its texts", m.chars().take(500).collect::<String>(), b.what, pre.len()));
            }
        }
        w.mc.outcome("far away");
        Ok(())
    });
    // characters that others take for line ends, or that are of no width
    let odd = "\u{1}\u{7}\u{8}\t\u{b}\u{c}\r\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f}\u{7f}\u{80}\u{85}\u{a0}\u{ad}\u{301}\u{34f}\u{61c}\u{1680}\u{180e}\u{2003}\u{200b}\u{200d}\u{200e}\u{2028}\u{2029}\u{202e}\u{202f}\u{205f}\u{2060}\u{3000}\u{fe0f}\u{feff}\u{fffd}\u{1f468}\u{e0001}\u{10ffff}";
    mc.par(odd.chars().flat_map(|c| (1..=2).flat_map(|n| forests(n, false)).map(move |s| (c, s))), |w, (c, s)| {
        let mut t = labelled(s.clone(), "Root");
        for i in 0..t.nodes().len() {
            t = t.with_node(i, |n| {
                if n.kind != Kind::Cond {
                    n.text = format!("{} p{c}q", n.text);
                }
            });
        }
        for (l, pre) in [(&ls[0], format!("// {c} x{c}y\n")), (&ls[6], String::new()), (&ls[3], format!("Root::f\n└── it {c} z{c}z\n\n"))] {
            if pre.starts_with("Root") {
                t.root = "Root::g".into();
            }
            for b in mistakes(&t, l, &pre, "", false) {
                if b.what == "no root" && !pre.is_empty() {
                    continue;
                }
                w.mc.state();
                let Some(e) = parse_err(&b.text) else {
                    return viol(&b.text, format!("an ill-formed tree was accepted ({}; expected {:?})\n--- file ---\n{}", b.what, b.msg, b.text));
                };
                w.mc.trace();
                if let Err(m) = judge_error(&b, &e, place) {
                    return viol(&b.text, format!("{m}\nmistake: {}\n--- file ---\n{}\n--- error ---\n{e}", b.what, b.text));
                }
            }
        }
        w.mc.outcome("odd characters");
        Ok(())
    });
    // through the real CLI
    let nc = mc.pick(2, 3);
    mc.bound("nodes_with_every_mistake_through_the_cli", nc as u64);
    for n in 1..=nc {
        mc.par(forests(n, false).into_iter(), |w, s| {
            let t = labelled(s.clone(), "Root");
            for (l, pre) in [(&ls[0], ""), (&ls[6], "\r\n// é\r\n")] {
                for b in mistakes(&t, l, pre, "", false) {
                    w.mc.state();
                    cli_rejects(w, &b, place)?;
                }
            }
            Ok(())
        });
    }
}

pub fn c04(mc: &Mc) {
    *mc.rule.lock().unwrap() = "every tree shape within the node bound x layouts: accepted as drawn; every single mistake at every place of every shape: rejected with the error that names it, nothing generated (library and real CLI); every pair of mistakes on small shapes: rejected; every short file without a tree: rejected".into();
    mc.assume("a nested branch may use either corner style (documented leniency), so wrong glyphs below the top level are not mistakes");
    ill_formed(mc, false);
    // pairs of mistakes
    mc.par((1..=3).flat_map(|n| forests(n, false)), |w, s| {
        let t = labelled(s.clone(), "Root");
        let l = Layout::default();
        let n = t.size();
        for i in 0..n {
            for j in 0..n {
                let ms: [fn(&mut Node); 4] = [
                    |x| x.text = String::new(),
                    |x| {
                        if x.kind == Kind::Desc {
                            x.text = "it x".into()
                        } else {
                            x.text = "foo bar".into()
                        }
                    },
                    |x| {
                        if x.kind == Kind::Cond {
                            x.text.push('!')
                        } else {
                            x.text = String::new()
                        }
                    },
                    |x| {
                        if x.kind == Kind::Act {
                            x.text = "whenever".into()
                        } else {
                            x.text = "when".into()
                        }
                    },
                ];
                for a in ms {
                    for b in ms {
                        let e = t.with_node(i, a).with_node(j, b);
                        let text = render(&e, &l).text;
                        w.mc.state();
                        w.mc.step();
                        if parse_err(&text).is_none() || scaffold(&text).is_ok() {
                            return viol(&text, format!("an ill-formed tree was accepted\n--- file ---\n{text}"));
                        }
                        w.mc.trace();
                    }
                }
            }
        }
        w.mc.outcome("two mistakes");
        Ok(())
    });
    // files without a tree: all sequences of blank pieces
    let pieces = ["\n", " ", "// c\n", "//\n", "\r\n", "\t", "// ├── it x", "   // d\n\n"];
    let mut seqs: Vec<String> = vec![String::new()];
    let mut cur = seqs.clone();
    for _ in 0..mc.pick(4, 5) {
        cur = cur.iter().flat_map(|s| pieces.iter().map(move |p| format!("{s}{p}"))).collect();
        seqs.extend(cur.iter().cloned());
    }
    mc.par(seqs.into_iter(), |w, text| {
        // a comment swallows what follows it on its line
        w.mc.state();
        w.mc.step();
        if text.lines().all(|l| l.trim().is_empty() || l.trim().starts_with("//")) {
            match scaffold(text) {
                Ok(s) => return viol(text, format!("code was generated from a file without a tree\n--- file ---\n{text:?}\n--- code ---\n{s}")),
                Err(e) => {
                    w.mc.trace();
                    if !e.to_string().contains("found an empty tree") {
                        return viol(text, format!("expected \"found an empty tree\"\n--- file ---\n{text:?}\n--- error ---\n{e}"));
                    }
                }
            }
            w.mc.outcome("no tree");
        }
        Ok(())
    });
    // acceptance of everything well-formed, up to the generated code
    for n in 1..=mc.pick(5, 6) {
        mc.par(forests(n, false).into_iter().enumerate(), |w, (i, s)| {
            let t = labelled(s.clone(), "Root");
            for l in [&layouts()[0], &layouts()[1 + i % (NL - 1)]] {
                w.mc.state();
                w.mc.step();
                let text = render(&t, l).text;
                if let Err(e) = scaffold(&text) {
                    return viol(&text, format!("a well-formed tree was rejected\n--- file ---\n{text}\n--- error ---\n{e}"));
                }
                w.mc.trace();
            }
            w.mc.outcome("well-formed accepted");
            Ok(())
        });
    }
    structure(mc, false);
    *mc.rule.lock().unwrap() = "every tree shape within the node bound x layouts: accepted as drawn; every single mistake at every place of every shape: rejected with the error that names it, nothing generated (library and real CLI); every pair of mistakes on small shapes: rejected; every short file without a tree: rejected".into();
}

pub fn c05_tree(mc: &Mc) {
    structure(mc, true);
    ill_formed(mc, true);
    *mc.rule.lock().unwrap() = format!("the drawings of C03 (every shape of 1..={} nodes x layouts, texts, files of several trees): the span of every node is the place it was drawn at; every single mistake at every place of every shape within the bound (see C04): the error's line, column, excerpt and marker are those of the planted mistake; every pair of equal titles in a tree: the lines of all of them are listed; every arrangement of items of every tree within the bounds, extra parts before and between, headers, line ends: the file and line `check` prints are those of the construct", mc.pick(8, 10));
    // duplicated names: the lines of all of them are listed
    let n1 = mc.pick(5, 6);
    for n in 2..=n1 {
        mc.par(forests(n, false).into_iter(), |w, s| {
            let t = labelled(s.clone(), "Root");
            let nodes: Vec<(Kind, bool)> = {
                let mut top = std::collections::HashSet::new();
                let mut k = 0;
                for x in &t.kids {
                    top.insert(k);
                    k += x.size();
                }
                t.nodes().iter().enumerate().map(|(i, x)| (x.kind, top.contains(&i))).collect()
            };
            // groups of equally named conditions, or of top-level actions
            for kind in [Kind::Cond, Kind::Act] {
                let idx: Vec<usize> = (0..nodes.len()).filter(|i| nodes[*i].0 == kind && (kind == Kind::Cond || nodes[*i].1)).collect();
                for mask in 0u32..(1 << idx.len()) {
                    if mask.count_ones() < 2 {
                        continue;
                    }
                    let sel: Vec<usize> = idx.iter().enumerate().filter(|(b, _)| mask >> b & 1 == 1).map(|(_, i)| *i).collect();
                    let mut e = t.clone();
                    for i in &sel {
                        e = e.with_node(*i, |n| n.text = if kind == Kind::Cond { "when same".into() } else { "it is same".into() });
                    }
                    for (pre, l) in [("", layouts()[0].clone()), ("// é\n\n", layouts()[5].clone())] {
                        let (text, rs) = render_all(std::slice::from_ref(&e), &l, pre, "", "");
                        let r = &rs[0];
                        w.mc.state();
                        w.mc.step();
                        let lines = sel.iter().map(|i| r.nodes[*i].start.line.to_string()).collect::<Vec<_>>().join(", ");
                        let p = r.nodes[sel[0]].start;
                        let b = Bad { text: text.clone(), msg: format!("found an identifier more than once in lines: {lines}"), at: Some((p.line, p.col, 1)), what: "duplicate" };
                        match parse_err(&text) {
                            None => return viol(&text, format!("duplicated names were accepted\n--- file ---\n{text}")),
                            Some(err) => {
                                w.mc.trace();
                                if let Err(m) = judge_error(&b, &err, true) {
                                    return viol(&text, format!("{m}\n--- file ---\n{text}\n--- error ---\n{err}"));
                                }
                            }
                        }
                    }
                }
            }
            w.mc.outcome("duplicates located");
            Ok(())
        });
    }
    let _ = Path::new("");
}

// ------------------------------------------------------------------------- C13

fn shape_of(text: &str) -> Result<Vec<Got>, String> {
    fn blank(mut g: Got) -> Got {
        g.span = Span::default();
        g.kids = g.kids.into_iter().map(blank).collect();
        g
    }
    bulloak_syntax::parse(text).map(|v| v.iter().map(|a| blank(got(a))).collect()).map_err(|e| e.to_string())
}

/// Edits of a drawing that must not matter: (edited lines, keyword case changed).
#[derive(Clone, Debug)]
enum Edit {
    CommentLine(usize, &'static str),
    /// Comments set apart by blank lines.
    Block(usize, &'static [&'static str]),
    EolComment(usize, &'static str),
    Trailing(usize, &'static str),
    Gap(usize, usize),
    Dash(usize, &'static str),
    Case(usize, u8),
    Blank(usize),
    Crlf,
    Leading(&'static str),
    EndBlank,
    NoFinalEol,
}

/// `lines` are the lines of the file without their ends.
fn edits(lines: &[String]) -> Vec<Edit> {
    let mut v = vec![Edit::Crlf, Edit::Leading("\n"), Edit::Leading("\n\n \n"), Edit::Leading("// x\n\n"), Edit::EndBlank, Edit::NoFinalEol];
    for (i, l) in lines.iter().enumerate() {
        for c in ["// c", "   // └── when é", "//", "//// it"] {
            v.push(Edit::CommentLine(i, c));
        }
        if i == 0 || l.is_empty() {
            v.extend(BLOCKS.iter().map(|b| Edit::Block(i, b)));
        }
        if l.is_empty() {
            v.push(Edit::Blank(i));
            continue;
        }
        for c in [" // c", "  //", " // ├── it x // y"] {
            v.push(Edit::EolComment(i, c));
        }
        for c in [" ", "    ", "\t", " \t "] {
            v.push(Edit::Trailing(i, c));
        }
        if let Some(g) = l.find(['├', '└']) {
            for d in ["─", "────", " ─ ", " "] {
                v.push(Edit::Dash(i, d));
            }
            let words = l[g..].split(' ').filter(|w| !w.is_empty()).count();
            for k in 1..words {
                v.push(Edit::Gap(i, k));
            }
            if has_keyword(l).is_some() {
                for k in 0..4 {
                    v.push(Edit::Case(i, k));
                }
            }
        }
    }
    v.push(Edit::CommentLine(lines.len(), "// end"));
    v.extend(BLOCKS.iter().map(|b| Edit::Block(lines.len(), b)));
    v
}
const BLOCKS: &[&[&str]] = &[&["//c"], &["// K::x", "// c", "// d"], &["  //└── it x", "//", "// ├── when y", "//z", "// z"], &["// a", "", "//b", "", "", "// c"], &["// c", "\t// d", " \t //e"], &["\t// c"]];

fn has_keyword(l: &str) -> Option<(usize, &str)> {
    let g = l.find(['├', '└'])?;
    let start = g + l[g..].find(|c: char| c.is_ascii_alphanumeric())?;
    let w = l[start..].split(' ').next()?;
    matches!(w.to_lowercase().as_str(), "when" | "given" | "it").then_some((start, w))
}

/// Applies edits (given for the original line numbers) and builds the file.
fn apply(lines: &[String], es: &[Edit]) -> String {
    let mut eol = "\n";
    let mut head = String::new();
    let mut tail = String::new();
    let mut last_eol = true;
    let mut out: Vec<(Vec<String>, String)> = lines.iter().map(|l| (vec![], l.clone())).collect();
    out.push((vec![], String::new()));
    // order matters: text edits first, end-of-line additions last
    for pass in 0..3 {
        for e in es {
            match (pass, e) {
                (0, Edit::Case(i, k)) => {
                    let l = &mut out[*i].1;
                    if let Some((s, w)) = has_keyword(l) {
                        let n: String = match k {
                            0 => w.to_uppercase(),
                            1 => w.to_lowercase(),
                            2 => refm::cap(&w.to_lowercase()),
                            _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                        };
                        let len = w.len();
                        l.replace_range(s..s + len, &n);
                    }
                }
                (1, Edit::Gap(i, k)) => {
                    // widen the k-th gap between words after the glyph
                    let l = out[*i].1.clone();
                    let g = l.find(['├', '└']).unwrap();
                    let mut n = 0;
                    let b = l.as_bytes();
                    let mut p = g;
                    while p < b.len() {
                        if b[p] == b' ' && b[p - 1] != b' ' {
                            n += 1;
                            if n == *k {
                                out[*i].1.insert_str(p, "   ");
                                break;
                            }
                        }
                        p += 1;
                    }
                }
                (1, Edit::Dash(i, d)) => {
                    let l = &mut out[*i].1;
                    let g = l.find(['├', '└']).unwrap();
                    l.insert_str(g + '├'.len_utf8(), d);
                }
                (1, Edit::CommentLine(i, c)) => out[*i].0.push(c.to_string()),
                (1, Edit::Block(i, b)) => {
                    if *i > 0 {
                        out[*i].0.push(String::new());
                    }
                    out[*i].0.extend(b.iter().map(|s| s.to_string()));
                    if *i == 0 {
                        out[*i].0.push(String::new());
                    }
                }
                (1, Edit::Blank(i)) => out[*i].0.push(String::new()),
                (2, Edit::EolComment(i, c)) => out[*i].1.push_str(c),
                (2, Edit::Trailing(i, c)) => out[*i].1.push_str(c),
                (2, Edit::Crlf) => eol = "\r\n",
                (2, Edit::Leading(s)) => head.push_str(s),
                (2, Edit::EndBlank) => tail.push_str("\n\n"),
                (2, Edit::NoFinalEol) => last_eol = false,
                _ => {}
            }
        }
    }
    let end = out.pop().unwrap();
    let mut all: Vec<String> = vec![];
    for (pre, l) in out {
        all.extend(pre);
        all.push(l);
    }
    all.extend(end.0);
    let mut s = all.join("\n");
    if last_eol || !tail.is_empty() {
        s.push('\n');
    }
    let s = format!("{head}{s}{tail}");
    if eol == "\n" {
        s
    } else {
        s.replace('\n', "\r\n")
    }
}

fn lower(v: &[Got]) -> Vec<Got> {
    v.iter()
        .map(|g| Got {
            kind: g.kind,
            text: match (g.kind, g.text.split_once(' ')) {
                ("condition" | "action", Some((k, r))) => format!("{} {r}", k.to_lowercase()),
                _ => g.text.clone(),
            },
            span: g.span,
            kids: lower(&g.kids),
        })
        .collect()
}

fn neutral(w: &mut Worker, base: &str, lines: &[String], es: &[Edit]) -> R {
    let text = apply(lines, es);
    if text == base {
        return Ok(());
    }
    w.mc.state();
    w.mc.reads(&text);
    let case = es.iter().any(|e| matches!(e, Edit::Case(..)));
    let (a, b) = (shape_of(base), shape_of(&text));
    let show = |m: &str| viol::<()>(&text, format!("{m}\nedits: {es:?}\n--- original file ---\n{base}\n--- edited file ---\n{text}\n--- edited file, escaped ---\n{text:?}"));
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            let eq = if case { lower(x) == lower(y) } else { x == y };
            if !eq {
                return show(&format!("the parsed tree changed\nbefore: {x:#?}\nafter: {y:#?}"));
            }
        }
        (Ok(_), Err(e)) => return show(&format!("the edited file is rejected: {e}")),
        (Err(e), _) => panic!("base tree rejected: {e}"),
    }
    let (sa, sb) = (scaffold(base), scaffold(&text));
    w.mc.trace();
    match (sa, sb) {
        (Ok(x), Ok(y)) => {
            let eq = if case { x.to_lowercase() == y.to_lowercase() } else { x == y };
            if !eq {
                return show(&format!("the generated code changed\n--- before ---\n{x}\n--- after ---\n{y}"));
            }
            if case && y.matches("function ").count() != x.matches("function ").count() {
                return show("the generated tests changed");
            }
        }
        (Ok(_), Err(e)) => return show(&format!("the edited file no longer scaffolds: {e}")),
        (Err(_), Err(_)) => {}
        (Err(e), Ok(_)) => return show(&format!("the edited file scaffolds, the original did not: {e}")),
    }
    w.mc.outcome(match es {
        [e] => match e {
            Edit::CommentLine(..) => "comment line",
            Edit::Block(..) => "comments on their own",
            Edit::EolComment(..) => "end-of-line comment",
            Edit::Trailing(..) => "trailing blanks",
            Edit::Gap(..) => "gap",
            Edit::Dash(..) => "dashes",
            Edit::Case(..) => "keyword case",
            Edit::Blank(..) => "blank line",
            Edit::Crlf => "crlf",
            Edit::Leading(..) => "leading blanks",
            Edit::EndBlank => "blank end",
            Edit::NoFinalEol => "no final line end",
        },
        _ => "two edits",
    });
    w.mc.sample(|| serde_json::json!({"edits": format!("{es:?}"), "file": text}));
    Ok(())
}

pub fn c13(mc: &Mc) {
    let n1 = mc.pick(5, 6);
    let n2 = mc.pick(3, 4);
    *mc.rule.lock().unwrap() = format!("every shape of <= {n1} nodes (and every 2-tree file of shapes of <= 2 nodes): every single meaning-preserving edit at every line; every pair of edits on shapes of <= {n2} nodes and on the 2-tree files; every single edit of chains, combs, wide trees and files of many trees; parsed structure and generated code compared with the unedited file's");
    mc.bound("nodes_single_edit", n1 as u64);
    mc.bound("nodes_edit_pairs", n2 as u64);
    mc.assume("a line holding only blanks does not separate trees (trees are separated by two consecutive line ends), so blanks are not added to empty lines");
    let mut bases: Vec<(String, bool)> = vec![];
    for n in 1..=n1 {
        for (i, s) in forests(n, false).into_iter().enumerate() {
            let mut t = labelled(s, "Root");
            // one revert condition where possible
            let nodes: Vec<Kind> = t.nodes().iter().map(|x| x.kind).collect();
            if let Some(j) = nodes.windows(2).position(|w| w == [Kind::Cond, Kind::Act]) {
                t = t.with_node(j + 1, |x| x.text = "It should revert".into());
            }
            let l = if n <= 3 { vec![layouts()[0].clone(), layouts()[3].clone()] } else { vec![layouts()[(i % 2) * 3].clone()] };
            for l in l {
                bases.push((render(&t, &l).text, n <= n2));
            }
        }
    }
    let small: Vec<Vec<Node>> = (1..=2).flat_map(|n| forests(n, false)).collect();
    for a in &small {
        for b in &small {
            let ts = [labelled(a.clone(), "K::one"), labelled(b.clone(), "K::two")];
            bases.push((render_all(&ts, &Layout::default(), "", "\n", "").0, true));
        }
    }
    let (n3, most) = mc.pick((6, 17), (12, 34));
    mc.bound("sizes_of_families", n3 as u64);
    mc.bound("some_sizes_of_families", most as u64);
    for n in crate::tree::growing(n3, most) {
        bases.extend(family_shapes(n).into_iter().map(|s| (render(&labelled(s, "Root"), &Layout::default()).text, false)));
        let ts: Vec<Tree> = (0..n).map(|i| labelled(vec![cond("", vec![act(""), act("")])], &format!("K::f{}", word(i)))).collect();
        bases.push((render_all(&ts, &Layout::default(), "", "\n", "").0, false));
    }
    mc.par(bases.into_iter(), |w, (base, pairs)| {
        let lines: Vec<String> = base.strip_suffix('\n').unwrap().split('\n').map(|s| s.to_string()).collect();
        let mut es = edits(&lines);
        if !*pairs && es.len() > w.mc.pick(600, 2500) {
            // every kind of edit at the first and the last lines, and all over
            let n = es.len();
            es = es.into_iter().enumerate().filter(|(i, _)| *i < 60 || n - i < 60 || i % (n / 60) == 7).map(|x| x.1).collect();
        }
        for e in &es {
            neutral(w, base, &lines, std::slice::from_ref(e))?;
        }
        if *pairs {
            for (i, a) in es.iter().enumerate() {
                for b in &es[i + 1..] {
                    neutral(w, base, &lines, &[a.clone(), b.clone()])?;
                }
            }
        }
        Ok(())
    });
    // any character in comments, any blank at the end of lines
    let chars: Vec<char> = (0..0x3001u32).chain([0xfeff, 0xfffd, 0x1f600, 0xe0001]).filter_map(char::from_u32).filter(|c| *c != '\n' && (c.is_whitespace() || c.is_control() || "\u{200b}\u{ad}\u{feff}\u{fffd}\u{1f600}\u{e0001}é─│├└/*\"'@{}#".contains(*c))).collect();
    mc.bound("characters_in_comments", chars.len() as u64);
    let few: Vec<Tree> = (1..=mc.pick(3, 4)).flat_map(|n| forests(n, false)).map(|s| labelled(s, "Root")).collect();
    let mut bases: Vec<String> = few.iter().map(|t| render(t, &Layout::default()).text).collect();
    bases.push(render_all(&[labelled(vec![act(""), cond("", vec![act("")])], "K::one"), labelled(vec![cond("", vec![act("")])], "K::two")], &Layout::default(), "", "\n", "").0);
    mc.par(bases.into_iter().flat_map(|b| chars.clone().into_iter().map(move |c| (b.clone(), c))), |w, (base, c)| {
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        let lines: Vec<String> = base.strip_suffix('\n').unwrap().split('\n').map(|s| s.to_string()).collect();
        let cs: [&'static str; 3] = [leak(format!(" // a{c}b")), leak(format!(" //{c}")), leak(format!(" // c {c}├── it x"))];
        for i in 0..lines.len() {
            for k in cs {
                if i == 0 || lines[i].is_empty() {
                    neutral(w, base, &lines, &[Edit::Block(i, Box::leak(vec![k.trim_start(), "// z"].into_boxed_slice()))])?;
                }
                neutral(w, base, &lines, &[Edit::CommentLine(i, k.trim_start())])?;
                if !lines[i].is_empty() {
                    neutral(w, base, &lines, &[Edit::EolComment(i, k)])?;
                }
            }
            if c.is_whitespace() && !lines[i].is_empty() {
                neutral(w, base, &lines, &[Edit::Trailing(i, leak(c.to_string()))])?;
                neutral(w, base, &lines, &[Edit::Trailing(i, leak(format!(" {c} ")))])?;
            }
        }
        Ok(())
    });
}
