//! C31: what a test file goes through while its tree changes and people work on
//! it. States are the real files, transitions the runs of bulloak and edits.
use crate::p_check::*;
use crate::p_scaffold::Case;
use crate::rt::*;
use crate::sol;
use crate::tree::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

/// The trees that a file may be given, which share titles.
fn alphabet(n: usize) -> Vec<Arc<Spec>> {
    fn reverse(kids: &mut [Node]) {
        kids.reverse();
        for k in kids {
            reverse(&mut k.kids);
        }
    }
    let mut cases = vec![];
    for s in (1..=n).flat_map(|n| forests(n, false)) {
        let t = labelled(s, "Root");
        let mut r = t.clone();
        reverse(&mut r.kids);
        cases.push(Case::one(t));
        cases.push(Case::one(r));
    }
    let xy = |k: &str| vec![cond("when ca", vec![act("it ab"), cond("given cb", vec![act("it should revert")])]), act(k)];
    cases.push(Case::one(tree("Root", xy("it aa"))));
    cases.push(Case::one(tree("Roof", xy("it ab"))));
    cases.push(Case::many(vec![tree("Root::f", xy("it aa")), tree("Root::g", vec![cond("given cb", vec![cond("when ca", vec![act("it ab")])])])]));
    cases.push(Case::many(vec![tree("Root::g", xy("it aa")), tree("Root::f", xy("it ab"))]));
    let mut seen = HashSet::new();
    cases.into_iter().filter_map(Spec::new).filter(|s| seen.insert(s.text.clone())).collect()
}

/// The lines of a canonically formatted file: head, blocks of the contract's
/// body, and the rest.
struct Body {
    head: Vec<String>,
    blocks: Vec<Vec<String>>,
    tail: Vec<String>,
}
impl Body {
    fn of(text: &str) -> Option<Body> {
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let at = lines.iter().position(|l| l.starts_with("contract "))?;
        let mut b = Body { head: lines[..=at].to_vec(), blocks: vec![], tail: vec![] };
        if lines[at].ends_with("{}") {
            b.head[at] = lines[at].trim_end_matches('}').into();
            b.tail = std::iter::once("}".to_string()).chain(lines[at + 1..].iter().cloned()).collect();
            return Some(b);
        }
        let end = at + 1 + lines[at + 1..].iter().position(|l| l == "}")?;
        b.tail = lines[end..].to_vec();
        let mut cur: Vec<String> = vec![];
        for l in &lines[at + 1..end] {
            if l.is_empty() && cur.is_empty() {
                continue;
            }
            cur.push(l.clone());
            let top = l.starts_with("    ") && !l.starts_with("     ");
            if top && (l.ends_with('}') || l.ends_with(';') || l.trim_start().starts_with("//")) {
                b.blocks.push(std::mem::take(&mut cur));
            }
        }
        cur.is_empty().then_some(b)
    }
    fn text(&self) -> String {
        let mut s = self.head.join("\n");
        for b in &self.blocks {
            s.push_str("\n\n");
            s.push_str(&b.join("\n"));
        }
        s.push('\n');
        s.push_str(&self.tail.join("\n"));
        s.push('\n');
        s
    }
}

/// What people do to a file: a description, and what it looks like then.
fn edits(text: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let Some(b) = Body::of(text) else { return v };
    let mut push = |what: String, f: &dyn Fn(&mut Body)| {
        let mut b = Body::of(text).unwrap();
        f(&mut b);
        let t = b.text();
        if t != text {
            v.push((what, t));
        }
    };
    for (i, block) in b.blocks.iter().enumerate() {
        let first = block[0].trim();
        if !first.starts_with("function") && !first.starts_with("modifier") {
            continue;
        }
        push(format!("delete {first}"), &|b| {
            b.blocks.remove(i);
        });
        push(format!("move to the top: {first}"), &|b| {
            let x = b.blocks.remove(i);
            b.blocks.insert(0, x);
        });
        push(format!("move to the end: {first}"), &|b| {
            let x = b.blocks.remove(i);
            b.blocks.push(x);
        });
        if block.len() > 1 && !block.iter().any(|l| l.contains("filled")) {
            push(format!("write the body of {first}"), &|b| {
                let n = b.blocks[i].len();
                b.blocks[i].insert(n - 1, format!("        assertEq(x({i}), \"}} {{\"); // filled {i} }}"));
            });
        }
    }
    if !text.contains("helper") {
        push("add a function at the end".into(), &|b| b.blocks.push(vec!["    /// Helps.".into(), "    function helper() internal {".into(), "        // }".into(), "    }".into()]));
        push("add a function and a comment at the top".into(), &|b| {
            b.blocks.insert(0, vec!["    function helper() internal;".into()]);
            b.blocks.insert(1, vec!["    // apart".into()]);
        });
    }
    if !text.contains("mine") {
        push("add a variable in the middle".into(), &|b| b.blocks.insert(b.blocks.len() / 2, vec!["    uint256 mine = 1;".into()]));
        push("give the contract a base".into(), &|b| {
            let h = b.head.last_mut().unwrap();
            *h = format!("{} is Mine(\"{{\") {{", h.split(" is ").next().unwrap().trim_end_matches('{').trim_end());
            b.head.insert(b.head.len() - 1, "struct Mine2 {\n    uint256 mine;\n}\n".into());
        });
    }
    v
}

#[derive(Clone, Debug)]
struct At {
    text: String,
    path: Vec<String>,
    /// Edits by people so far.
    edits: usize,
}

fn show(path: &[String], spec: &Spec, before: &str, after: &str, out: &str) -> String {
    format!("--- what was done ---\n{}\n--- a.tree ---\n{}\n--- a.t.sol before ---\n{before}\n--- a.t.sol after ---\n{after}\n{out}", path.join("\n"), spec.text)
}

/// The tree becomes `spec`, and `check --fix` is run. Returns the file then.
fn evolve(w: &mut Worker, at: &At, spec: &Spec, skip: bool) -> Result<String, Viol> {
    w.put("a.tree", &spec.text);
    w.put("a.t.sol", &at.text);
    let args = |fix: bool| {
        let mut a = vec!["check"];
        if fix {
            a.push("--fix");
        }
        if skip {
            a.push("-m");
        }
        a.push("a.tree");
        a
    };
    let fix = w.run(&args(true));
    let after = w.get("a.t.sol").unwrap_or_default();
    w.mc.trace();
    let fail = |m: String, o: &Out| viol(show(&at.path, spec, &at.text, "", ""), format!("{m}\n{}", show(&at.path, spec, &at.text, &after, &o.show())));
    if fix.crashed() || fix.code != 0 {
        return fail("check --fix does not succeed".into(), &fix);
    }
    let old = sol::outline(&at.text);
    let there = |i: &crate::refm::Item| old.parts.iter().any(|p| p.is(i.is_mod(), i.name()));
    let missing: Vec<usize> = spec.want.items.iter().enumerate().filter(|(_, i)| !there(i) && !(skip && i.is_mod())).map(|x| x.0).collect();
    if let Err(m) = converged(&at.text, &after, spec, skip, true).and_then(|_| preserved(&at.text, &after, spec, true, &missing)) {
        return fail(m, &fix);
    }
    let check = w.run(&args(false));
    if check.crashed() || check.code != 0 {
        return fail("check still reports problems after --fix".into(), &check);
    }
    let again = w.run(&args(true));
    let twice = w.get("a.t.sol").unwrap_or_default();
    if again.code != 0 || twice != after {
        return fail(format!("a second check --fix gives\n{twice}"), &again);
    }
    w.mc.outcome(&format!("{} functions added", missing.len()));
    Ok(after)
}

pub fn c31(mc: &Mc) {
    *mc.rule.lock().unwrap() = "explicit-state exploration of the histories of a test file: it is scaffolded from every tree of an alphabet (all shapes within the node bound, both sibling orders, another root, two trees), then alternately edited (every generated function deleted, moved to either end or filled in, functions, comments, a variable, a base and other definitions added) or not, and repaired for every tree of the alphabet; -m throughout or not at all; equal files are explored once".into();
    // nodes of the trees, rounds, edits per history, -m
    let plans: &[(usize, usize, usize, bool)] = if mc.thorough {
        &[(1, 3, 1, true), (2, 2, 1, false), (3, 2, 1, true), (3, 2, 2, false), (2, 3, 1, true), (2, 3, 2, false)]
    } else {
        &[(2, 2, 1, false), (1, 3, 1, true)]
    };
    for (n, rounds, most, skip) in plans {
        histories(mc, *n, *rounds, *most, *skip);
    }
}

fn histories(mc: &Mc, n: usize, rounds: usize, most: usize, skip: bool) {
    let specs = &alphabet(n);
    let name = format!("trees_of_{n}_nodes{}", if skip { "_m" } else { "" });
    mc.bound(&name, specs.len() as u64);
    mc.bound(&format!("{name}_rounds"), rounds as u64);
    mc.bound(&format!("{name}_edits"), most as u64);
    let first: Mutex<BTreeMap<String, Vec<String>>> = Default::default();
    mc.par(0..specs.len(), |w, t| {
        w.clean();
        w.put("a.tree", &specs[*t].text);
        let args: &[&str] = if skip { &["scaffold", "-w", "-m", "a.tree"] } else { &["scaffold", "-w", "a.tree"] };
        let o = w.run(args);
        if o.code != 0 {
            return viol(specs[*t].text.clone(), format!("scaffold fails\n{}\n{}", specs[*t].text, o.show()));
        }
        first.lock().unwrap().insert(w.get("a.t.sol").unwrap_or_default(), vec![format!("{}:\n{}", args.join(" "), specs[*t].text)]);
        Ok(())
    });
    // files with the fewest edits that lead to them
    let mut seen: HashSet<String> = HashSet::new();
    let mut frontier: Vec<At> = first.into_inner().unwrap().into_iter().map(|(text, path)| At { text, path, edits: 0 }).collect();
    for round in 0..rounds {
        let mut next: BTreeMap<(usize, String), Vec<String>> = BTreeMap::new();
        for at in &frontier {
            next.entry((at.edits, at.text.clone())).or_insert_with(|| at.path.clone());
            if at.edits < most {
                for (what, text) in edits(&at.text) {
                    let mut path = at.path.clone();
                    path.push(what);
                    next.entry((at.edits + 1, text)).or_insert(path);
                }
            }
        }
        let states: Vec<At> = next.into_iter().filter(|((_, t), _)| seen.insert(t.clone())).map(|((edits, text), path)| At { text, path, edits }).collect();
        if std::env::var("MC_DEBUG").is_ok() {
            eprintln!("round {round}: {} files x {} trees", states.len(), specs.len());
        }
        mc.bound(&format!("{name}_files_of_round_{}", round + 1), states.len() as u64);
        let found: Mutex<BTreeMap<String, (usize, Vec<String>)>> = Default::default();
        mc.par(states.into_iter().flat_map(|s| {
            let s = Arc::new(s);
            (0..specs.len()).map(move |t| (s.clone(), t))
        }), |w, (s, t)| {
            w.mc.state();
            w.mc.visit((&s.text, &specs[*t].text));
            w.mc.sample(|| show(&s.path, &specs[*t], &s.text, "", "").into());
            let after = evolve(w, s, &specs[*t], skip)?;
            let mut path = s.path.clone();
            path.push(format!("check --fix with:\n{}", specs[*t].text));
            let x = (s.edits, path);
            let mut f = found.lock().unwrap();
            // the same, whatever the order in which they are found
            match f.get_mut(&after) {
                Some(p) => {
                    if x < *p {
                        *p = x;
                    }
                }
                None => {
                    f.insert(after, x);
                }
            }
            Ok(())
        });
        if mc.stopped() {
            return;
        }
        frontier = found.into_inner().unwrap().into_iter().map(|(text, (edits, path))| At { text, path, edits }).collect();
    }
}
