//! C26: all the mistakes of a tree are named at once; C27: the command line.
use crate::rt::*;
use crate::tree::*;

// ------------------------------------------------------------------- C26

/// Shapes of conditions and actions in which conditions may be without children.
fn loose(n: usize) -> Vec<Vec<Node>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        let mut firsts: Vec<Node> = loose(first - 1).into_iter().map(|k| cond("", k)).collect();
        if first == 1 {
            firsts.push(act(""));
        }
        let rest = loose(n - first);
        for f in &firsts {
            for r in &rest {
                out.push(std::iter::once(f.clone()).chain(r.iter().cloned()).collect());
            }
        }
    }
    out
}

/// Every way to put `n` things into groups, as the group of each.
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                let m = p.iter().max().map_or(0, |x| x + 1);
                (0..=m).map(move |g| p.iter().copied().chain([g]).collect())
            })
            .collect();
    }
    v
}

/// The problems named by an error report, with the line they are placed at.
fn named(err: &str) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![];
    for l in err.lines() {
        if let Some(m) = l.strip_prefix("bulloak error: ") {
            v.push((m.trim_end().into(), 0));
        } else if let (Some(x), Some(p)) = (v.last_mut(), l.strip_prefix("--- (line ")) {
            x.1 = p.split(',').next().and_then(|n| n.parse().ok()).unwrap_or(0);
        }
    }
    v
}

fn expected(t: &Tree, r: &Rendered, group: &dyn Fn(usize) -> Option<(Kind, usize)>) -> Vec<(String, usize)> {
    let nodes = t.nodes();
    let mut v = vec![];
    let mut groups: Vec<((Kind, usize), Vec<usize>)> = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let line = r.nodes[i].start.line;
        if n.kind == Kind::Cond && n.kids.is_empty() {
            v.push(("found a condition with no children".to_string(), line));
        }
        if let Some(g) = group(i) {
            match groups.iter_mut().find(|x| x.0 == g) {
                Some(x) => x.1.push(line),
                None => groups.push((g, vec![line])),
            }
        }
    }
    for (_, ls) in groups {
        if ls.len() > 1 {
            v.push((format!("found an identifier more than once in lines: {}", ls.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", ")), ls[0]));
        }
    }
    v.sort();
    v
}

pub fn c26(mc: &Mc) {
    let n1 = mc.pick(6, 7);
    *mc.rule.lock().unwrap() = format!("every shape of <= {n1} conditions (with or without children) and actions x every way to give its conditions, and its top-level actions, equal names (in several spellings), as the only tree and behind another one; bigger families of trees: the error names every condition without children and every group of equal names with all its lines, each once, and nothing else; a file without mistakes is accepted; the real CLI says the same on the smaller ones");
    mc.bound("nodes", n1 as u64);
    let nc = mc.pick(3, 4);
    mc.bound("nodes_through_the_cli", nc as u64);
    let spell = |kind: Kind, g: usize, nth: usize| {
        let w = word(g);
        match kind {
            Kind::Cond => [format!("when q{w} x"), format!("When q{w} X"), format!("WHEN q{w}  x").replace("WHEN", "when"), format!("when q{w} x'")][nth % 4].clone(),
            _ => [format!("it q{w} x"), format!("it q{w}  X"), format!("It q{w} x.")][nth % 3].clone(),
        }
    };
    let judge = move |w: &mut Worker, t: &Tree, groups: &[(usize, usize)], cli: bool| -> R {
        // groups: node -> group
        let kind_of: Vec<Kind> = t.nodes().iter().map(|n| n.kind).collect();
        let mut e = t.clone();
        for (k, (i, g)) in groups.iter().enumerate() {
            let nth = groups[..k].iter().filter(|(j, h)| h == g && kind_of[*j] == kind_of[*i]).count();
            e = e.with_node(*i, |n| n.text = spell(kind_of[*i], *g, nth));
        }
        let alone = cli || t.size() <= 4;
        for (pre, l) in [("", &Layout::default()), ("// é\n\nRoot::f\n└── it a\n\n", &layouts()[3])] {
            if !alone && !pre.is_empty() {
                continue;
            }
            e.root = if pre.is_empty() { "Root".into() } else { "Root::g".into() };
            let (text, rs) = render_all(std::slice::from_ref(&e), l, pre, "", "");
            let want = expected(&e, &rs[0], &|i| groups.iter().find(|x| x.0 == i).map(|x| (kind_of[i], x.1)));
            w.mc.state();
            w.mc.reads(&text);
            w.mc.sample(|| text.clone().into());
            let got = bulloak_syntax::parse(&text);
            w.mc.trace();
            w.mc.outcome(&format!("{} mistakes", want.len()));
            let err = got.err().map(|e| e.to_string());
            let mut said = err.as_deref().map(named).unwrap_or_default();
            said.sort();
            if said != want || err.is_none() != want.is_empty() {
                return viol(&text, format!("the error names {said:#?}\ninstead of {want:#?}\n--- file ---\n{text}\n--- error ---\n{}", err.unwrap_or_default()));
            }
            if !cli {
                continue;
            }
            w.put("a.tree", &text);
            w.del("a.t.sol");
            let o = w.run(&["scaffold", "a.tree"]);
            w.mc.trace();
            let mut said = named(&o.stderr);
            said.sort();
            // equal names of tests are C09's
            let more = want.is_empty() && o.code == 1 && o.stderr.contains("more than one test");
            if !more && (said != want || o.code != !want.is_empty() as i32) {
                return viol(format!("cli {text}"), format!("the command names {said:#?}\ninstead of {want:#?}\n--- file ---\n{text}\n{}", o.show()));
            }
            w.put("a.t.sol", "contract Root {}\n");
            let o = w.run(&["check", "a.tree"]);
            w.mc.trace();
            if !want.is_empty() && (o.code != 1 || o.stderr.matches("at least one semantic error occurred while parsing the tree").count() != 1) {
                return viol(format!("check {text}"), format!("check does not report the tree once\n--- file ---\n{text}\n{}", o.show()));
            }
        }
        Ok(())
    };
    // nodes that give names, by kind
    fn bearers(t: &Tree) -> (Vec<usize>, Vec<usize>) {
        let nodes = t.nodes();
        let mut tops = vec![];
        let mut k = 0;
        for x in &t.kids {
            tops.push(k);
            k += x.size();
        }
        let c = (0..nodes.len()).filter(|i| nodes[*i].kind == Kind::Cond).collect();
        let a = tops.into_iter().filter(|i| nodes[*i].kind == Kind::Act).collect();
        (c, a)
    }
    for n in 1..=n1 {
        mc.par(loose(n).into_iter(), |w, s| {
            let t = labelled(s.clone(), "Root");
            let (c, a) = bearers(&t);
            for p in partitions(c.len()) {
                for q in partitions(a.len()) {
                    let g: Vec<(usize, usize)> = c.iter().copied().zip(p.iter().copied()).chain(a.iter().copied().zip(q.iter().copied())).collect();
                    judge(w, &t, &g, n <= nc)?;
                }
            }
            Ok(())
        });
    }
    // bigger ones: two groups of equal names anywhere, or childless conditions
    let n2 = mc.pick(6, 12);
    mc.bound("sizes_of_families", n2 as u64);
    mc.par((3..=n2).flat_map(family_shapes), |w, s| {
        let t = labelled(s.clone(), "Root");
        let (c, a) = bearers(&t);
        for v in [&c, &a] {
            for i in 0..v.len() {
                for j in i + 1..v.len() {
                    judge(w, &t, &[(v[i], 0), (v[j], 0)], false)?;
                    for k in (j + 1..v.len()).step_by(2) {
                        judge(w, &t, &[(v[i], 0), (v[j], 1), (v[k], 0)], false)?;
                        if k + 1 < v.len() {
                            judge(w, &t, &[(v[i], 0), (v[j], 1), (v[k], 0), (v[k + 1], 1)], false)?;
                        }
                    }
                }
            }
            judge(w, &t, &v.iter().map(|i| (*i, 0)).collect::<Vec<_>>(), false)?;
            judge(w, &t, &v.iter().enumerate().map(|(x, i)| (*i, x % 3)).collect::<Vec<_>>(), false)?;
        }
        for i in &c {
            for j in &c {
                let e = t.with_node(*i, |n| n.kids.clear());
                if *j < e.size() {
                    let e = e.with_node(*j, |n| if n.kind == Kind::Cond { n.kids.clear() });
                    judge(w, &e, &[], false)?;
                }
            }
        }
        Ok(())
    });
    // and many mistakes
    let sizes: Vec<usize> = if mc.thorough { (7..=140).chain([199, 200, 255, 256, 257, 500, 512, 1000, 1025]).collect() } else { (7..=20).chain([25, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 257]).collect() };
    mc.bound("mistakes_of_one_tree", *sizes.last().unwrap() as u64);
    mc.par(sizes.into_iter().rev().flat_map(|n| (0..5).flat_map(move |k| (0..5).map(move |g| (n, k, g)))), |w, (n, k, g)| {
        let kids: Vec<Node> = match k {
            0 => (0..*n).map(|_| cond("", vec![])).collect(),
            1 => vec![cond("", (0..*n).map(|_| cond("", vec![])).collect())],
            2 => (0..*n).map(|_| cond("", vec![act("")])).collect(),
            3 => (0..*n).map(|_| act("")).collect(),
            _ => (0..*n).map(|i| if i % 2 == 0 { cond("", vec![cond("", vec![]), act("")]) } else { act("") }).collect(),
        };
        let t = labelled(kids, "Root");
        let (c, a) = bearers(&t);
        let group = |v: &[usize]| -> Vec<(usize, usize)> {
            match g {
                0 => vec![],
                1 => v.iter().map(|i| (*i, 0)).collect(),
                2 => v.iter().enumerate().map(|(x, i)| (*i, x / 2)).collect(),
                3 => v.iter().enumerate().map(|(x, i)| (*i, x % (n / 2).max(1))).collect(),
                _ => v.iter().enumerate().map(|(x, i)| (*i, x % 3)).collect(),
            }
        };
        let gs: Vec<(usize, usize)> = group(&c).into_iter().chain(group(&a)).collect();
        judge(w, &t, &gs, *n < 12 || n % 50 == 0)
    });
}

// ------------------------------------------------------------------- C27

const TREE: &str = "Root\n├── when a\n│   ├── it b\n│   └── when c\n│       └── it d\n└── it e\n";
const SOL: &str = "pragma solidity 0.8.0;\n\ncontract Root {\n    function test_E() external {}\n\n    modifier whenA() {\n        _;\n    }\n}\n";

#[derive(Clone, Debug)]
struct Opt {
    /// The spellings: a list of arguments each. The first one is the reference.
    ways: &'static [&'static [&'static str]],
    /// The letter, if the option can be combined with others.
    letter: Option<char>,
    needs: Option<usize>,
}

const SCAFFOLD: &[Opt] = &[
    Opt { ways: &[&["--write-files"], &["-w"]], letter: Some('w'), needs: None },
    Opt { ways: &[&["--force-write"], &["-f"]], letter: Some('f'), needs: Some(0) },
    Opt { ways: &[&["--vm-skip"], &["-S"]], letter: Some('S'), needs: None },
    Opt { ways: &[&["--skip-modifiers"], &["-m"]], letter: Some('m'), needs: None },
    Opt { ways: &[&["--solidity-version", "0.7.6"], &["--solidity-version=0.7.6"], &["-s", "0.7.6"], &["-s0.7.6"], &["-s=0.7.6"]], letter: None, needs: None },
];
const CHECK: &[Opt] = &[
    Opt { ways: &[&["--fix"]], letter: None, needs: None },
    Opt { ways: &[&["--stdout"]], letter: None, needs: Some(0) },
    Opt { ways: &[&["--skip-modifiers"], &["-m"]], letter: Some('m'), needs: None },
];

type Shot = (Out, std::collections::BTreeMap<String, Vec<u8>>);
fn shot(w: &Worker, args: &[String], files: &[(&str, &str)]) -> Shot {
    w.clean();
    for (n, t) in files {
        w.put(n, t);
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = w.run(&a);
    w.mc.trace();
    (o, w.snapshot())
}

fn permutations(v: &[usize]) -> Vec<Vec<usize>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    (0..v.len())
        .flat_map(|i| {
            let mut r = v.to_vec();
            let x = r.remove(i);
            permutations(&r).into_iter().map(move |p| std::iter::once(x).chain(p).collect())
        })
        .collect()
}

pub fn c27(mc: &Mc) {
    *mc.rule.lock().unwrap() = "both commands, every set of their options x every spelling of each x every order of options and files (full product in the thorough tier; in the quick one every spelling in 6 orders and every order in 2 spellings), combined short options in every order: same outcome as the reference spelling in front of the files; every set that lacks a needed option, every repeated or unknown option or command, malformed and missing values: usage error, status 2, no file touched; help and version; names behind `--`".into();
    let files: &[(&str, &str)] = &[("a.tree", TREE), ("b.tree", "Other\n└── it x\n"), ("a.t.sol", SOL), ("b.t.sol", "contract Other {}\n")];
    let before: std::collections::BTreeMap<String, Vec<u8>> = files.iter().map(|(n, t)| (n.to_string(), t.as_bytes().to_vec())).collect();
    let refused = |w: &mut Worker, args: &[String]| -> R {
        w.mc.state();
        let (o, fs) = shot(w, args, files);
        if o.code != 2 || !o.stdout.is_empty() || o.stderr.trim().is_empty() {
            return viol(format!("{args:?}"), format!("bulloak {args:?} should be refused as wrong usage with status 2\n{}", o.show()));
        }
        if fs != before {
            return viol(format!("{args:?}"), format!("bulloak {args:?} changed files although it was refused"));
        }
        w.mc.outcome("usage error");
        Ok(())
    };
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (cmd, opts) in [("scaffold", SCAFFOLD), ("check", CHECK)] {
        let sets: Vec<Vec<usize>> = (0u32..1 << opts.len()).map(|m| (0..opts.len()).filter(|i| m >> i & 1 == 1).collect()).collect();
        mc.par(sets.into_iter(), |w, set| {
            let reference: Vec<String> = std::iter::once(cmd.to_string()).chain(set.iter().flat_map(|i| s(opts[*i].ways[0]))).chain(s(&["a.tree", "b.tree"])).collect();
            let lacking = set.iter().any(|i| opts[*i].needs.is_some_and(|n| !set.contains(&n)));
            let base = shot(w, &reference, files);
            if !lacking && base.0.code == 2 {
                return viol(format!("{reference:?}"), format!("bulloak {reference:?} is refused\n{}", base.0.show()));
            }
            // things to order: options, and the two files (in this order)
            let n = set.len() + 2;
            let orders: Vec<Vec<usize>> = permutations(&(0..n).collect::<Vec<_>>()).into_iter().filter(|p| p.iter().position(|x| *x == n - 2) < p.iter().position(|x| *x == n - 1)).collect();
            let mut spellings: Vec<Vec<usize>> = vec![vec![]];
            for i in set {
                spellings = spellings.into_iter().flat_map(|v| (0..opts[*i].ways.len()).map(move |x| v.iter().copied().chain([x]).collect())).collect();
            }
            let some = |x: usize| x < 2 || x + 1 == orders.len() || x % (orders.len() / 3).max(1) == 0;
            let mut all: Vec<Vec<String>> = vec![];
            for (x, o) in orders.iter().enumerate() {
                for (y, sp) in spellings.iter().enumerate() {
                    if w.mc.thorough || y == 0 || y + 1 == spellings.len() || some(x) {
                        let mut v = vec![cmd.to_string()];
                        for k in o {
                            match k.checked_sub(set.len()) {
                                Some(f) => v.push(["a.tree", "b.tree"][f].into()),
                                None => v.extend(s(opts[set[*k]].ways[sp[*k]])),
                            }
                        }
                        all.push(v);
                    }
                }
            }
            // combined letters, in every order, before, between and behind
            let letters: Vec<usize> = set.iter().copied().filter(|i| opts[*i].letter.is_some()).collect();
            if letters.len() > 1 {
                let rest: Vec<String> = set.iter().filter(|i| opts[**i].letter.is_none()).flat_map(|i| s(opts[*i].ways[0])).collect();
                for p in permutations(&letters) {
                    let c = format!("-{}", p.iter().map(|i| opts[*i].letter.unwrap()).collect::<String>());
                    for at in 0..3 {
                        let mut v = vec![cmd.to_string()];
                        for (k, f) in ["a.tree", "b.tree", ""].iter().enumerate() {
                            if at == k {
                                v.push(c.clone());
                                v.extend(rest.iter().cloned());
                            }
                            if !f.is_empty() {
                                v.push(f.to_string());
                            }
                        }
                        all.push(v);
                    }
                    // with the version behind the letters
                    if set.contains(&4) && cmd == "scaffold" {
                        all.push(vec![cmd.into(), format!("{c}s"), "0.7.6".into(), "a.tree".into(), "b.tree".into()]);
                        all.push(vec![cmd.into(), "a.tree".into(), format!("{c}s0.7.6"), "b.tree".into()]);
                    }
                }
            }
            for args in all {
                if lacking {
                    refused(w, &args)?;
                    continue;
                }
                w.mc.state();
                w.mc.sample(|| args.join(" ").into());
                let x = shot(w, &args, files);
                if x != base {
                    return viol(format!("{args:?}"), format!("bulloak {args:?} differs from bulloak {reference:?}\n=== the latter ===\n{}\n=== the former ===\n{}", base.0.show(), x.0.show()));
                }
                w.mc.outcome(&format!("{cmd}: status {}", x.0.code));
            }
            // `--` and repeated or unknown options
            if !lacking {
                let k = reference.len() - 2;
                let mut v = reference.clone();
                v.insert(k, "--".into());
                let x = shot(w, &v, files);
                if x != base {
                    return viol(format!("{v:?}"), format!("bulloak {v:?} differs from bulloak {reference:?}\n{}", x.0.show()));
                }
            }
            // an unambiguous long name only counts if written out
            let mut bads = s(&["--nope", "-x", "-W", "--Fix", "--stdin", "-wx", "--fix=maybe", "--vm-skip=1x", "-o", "--output", "---", "--write-files=", "--write_files"]);
            if set.len() < 2 || w.mc.thorough {
                for o in opts {
                    let long = o.ways[0][0];
                    bads.extend((3..long.len()).map(|n| long[..n].to_string()));
                    bads.extend([long[1..].to_string(), format!("{long}s"), long.to_uppercase(), long.replacen("--", "--no-", 1), format!("{long}=true")]);
                    bads.retain(|b| opts.iter().all(|o| o.ways.iter().all(|w| w[0] != b)) && !(cmd == "scaffold" && (b.starts_with("-s") || b == "--solidity-version=true")));
                }
            } else {
                bads.push("--write".into());
            }
            for bad in bads {
                for at in 1..=reference.len() {
                    let mut v = reference.clone();
                    if opts.iter().any(|o| o.ways.iter().any(|w| w.len() == 2 && v.get(at - 1).is_some_and(|a| a == w[0]))) {
                        continue; // would be a value
                    }
                    v.insert(at, bad.clone());
                    refused(w, &v)?;
                }
            }
            for i in set {
                for way in opts[*i].ways {
                    let mut v = reference.clone();
                    v.extend(s(way));
                    refused(w, &v)?;
                }
            }
            Ok(())
        });
    }
    // commands, help, version
    let cases: Vec<Vec<String>> = [
        &["scafold", "a.tree"][..], &["Check", "a.tree"], &["fix", "a.tree"], &["a.tree"], &["--fix", "a.tree"], &["-m", "scaffold", "a.tree"], &["scaffold", "a.tree", "-s"], &["scaffold", "-s"], &["scaffold", "a.tree", "--solidity-version"],
        &["check", "-w", "a.tree"], &["check", "-f", "a.tree"], &["check", "-S", "a.tree"], &["check", "-s", "0.8.0", "a.tree"], &["check", "--write-files", "a.tree"], &["scaffold", "--fix", "a.tree"], &["scaffold", "--stdout", "a.tree"], &["scaffold", "-w", "--stdout", "a.tree"],
        // a value is missing, even if something that looks like an option is next
        &["scaffold", "-s", "-w", "a.tree"], &["scaffold", "a.tree", "-s", "-w"], &["scaffold", "-ws", "-S", "a.tree"], &["scaffold", "--solidity-version", "--write-files", "a.tree"], &["scaffold", "-s", "--vm-skip", "a.tree"], &["scaffold", "-s", "-9", "a.tree"], &["scaffold", "-s", "--", "a.tree"], &["scaffold", "-s", "-x", "a.tree"],
        &["-w", "-f"], &["--nope"], &[],
    ]
    .iter()
    .map(|v| s(v))
    .chain(["scaffold", "check", "help"].iter().flat_map(|c| {
        let mut v: Vec<String> = (1..c.len()).map(|n| c[..n].to_string()).collect();
        v.extend([c.to_uppercase(), format!("{c}s"), format!(" {c}"), format!("{c} "), c[1..].to_string(), format!("-{c}"), format!("--{c}"), c.chars().rev().collect()]);
        v.into_iter().filter(|x| !x.starts_with("-h") && x != "--help").flat_map(|x| [vec![x.clone()], vec![x.clone(), "a.tree".into()], vec![x, "-m".into(), "a.tree".into()]])
    }))
    .collect();
    mc.par(cases.into_iter(), |w, v| {
        if v.is_empty() {
            w.mc.state();
            let (o, fs) = shot(w, v, files);
            if o.code != 2 || fs != before {
                return viol("no command", format!("bulloak without a command should show its usage with status 2\n{}", o.show()));
            }
            return Ok(());
        }
        refused(w, v)
    });
    let help: Vec<(Vec<String>, &[&str])> = vec![
        (s(&["--help"]), &["scaffold", "check", "--help", "--version"]),
        (s(&["-h"]), &["scaffold", "check"]),
        (s(&["help"]), &["scaffold", "check"]),
        (s(&["scaffold", "--help"]), &["--write-files", "-w", "--force-write", "-f", "--solidity-version", "-s", "--vm-skip", "-S", "--skip-modifiers", "-m", "0.8.0"]),
        (s(&["scaffold", "-h"]), &["--write-files", "--force-write", "--solidity-version", "--vm-skip", "--skip-modifiers"]),
        (s(&["help", "scaffold"]), &["--write-files", "--force-write", "--solidity-version", "--vm-skip", "--skip-modifiers"]),
        (s(&["scaffold", "-w", "-f", "a.tree", "-h"]), &["--write-files"]),
        (s(&["check", "--help"]), &["--fix", "--stdout", "--skip-modifiers", "-m"]),
        (s(&["check", "-h"]), &["--fix", "--stdout", "--skip-modifiers"]),
        (s(&["help", "check"]), &["--fix", "--stdout", "--skip-modifiers"]),
        (s(&["check", "--fix", "a.tree", "--help"]), &["--fix"]),
        (s(&["--version"]), &["bulloak 0."]),
        (s(&["-V"]), &["bulloak 0."]),
    ];
    mc.par(help.into_iter(), |w, (v, words)| {
        w.mc.state();
        let (o, fs) = shot(w, v, files);
        if o.code != 0 || fs != before || !o.stderr.is_empty() {
            return viol(format!("{v:?}"), format!("bulloak {v:?} should print and succeed, without touching files\n{}", o.show()));
        }
        if let Some(x) = words.iter().find(|x| !o.stdout.contains(**x)) {
            return viol(format!("{v:?}"), format!("bulloak {v:?} does not mention {x}\n{}", o.show()));
        }
        w.mc.outcome("help");
        Ok(())
    });
    // names that aren't UTF-8: the file is handled as any other or nothing is done
    mc.par([["scaffold"].as_slice(), &["scaffold", "-w"], &["scaffold", "-w", "-f"], &["check"], &["check", "--fix"], &["check", "--fix", "--stdout"]].into_iter().flat_map(|c| (0..3).map(move |at| (c, at))), |w, (cmd, at)| {
        use std::os::unix::ffi::OsStrExt;
        w.mc.state();
        w.mc.step();
        w.clean();
        for (n, t) in files {
            w.put(n, t);
        }
        let odd = w.dir.join(std::ffi::OsStr::from_bytes(b"x\xff.tree"));
        std::fs::write(&odd, TREE).unwrap();
        let names = || std::fs::read_dir(&w.dir).unwrap().map(|e| e.unwrap().path()).map(|p| (p.clone(), std::fs::read(&p).unwrap())).collect::<std::collections::BTreeMap<_, _>>();
        let was = names();
        let mut c = std::process::Command::new(&w.mc.bin);
        c.args(*cmd).current_dir(&w.dir).env_clear();
        for (k, f) in ["a.tree", "b.tree"].iter().enumerate() {
            if *at == k {
                c.arg(odd.file_name().unwrap());
            }
            c.arg(f);
        }
        if *at == 2 {
            c.arg(odd.file_name().unwrap());
        }
        let o = c.output().unwrap();
        let text = format!("{cmd:?} with a name that is not UTF-8: {:?}\n{}\n{}", o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        std::fs::remove_file(&odd).unwrap();
        let mut now = names();
        if o.status.code() == Some(1) && o.stdout.is_empty() && !o.stderr.is_empty() {
            now.insert(odd.clone(), TREE.into());
            if now != was {
                return viol(format!("{cmd:?} x\\xff.tree"), format!("files changed although the command was refused\n{text}"));
            }
            w.mc.outcome("refused: not UTF-8");
            return Ok(());
        }
        // as with an ordinary name in the place of the odd one
        let _ = std::fs::remove_file(odd.with_extension("t.sol"));
        let mut v: Vec<String> = s(cmd);
        v.extend(s(&["a.tree", "b.tree"]));
        v.insert(cmd.len() + at, "x.tree".into());
        let mut plain = files.to_vec();
        plain.push(("x.tree", TREE));
        let x = shot(w, &v, &plain);
        if o.status.code() != Some(x.0.code) || o.stderr.is_empty() != x.0.stderr.is_empty() {
            return viol(format!("{cmd:?} x\\xff.tree"), format!("a file whose name is not UTF-8 is neither refused nor handled as any other\n{text}\n{}", x.0.show()));
        }
        w.mc.outcome("handled: not UTF-8");
        Ok(())
    });
    // whatever its name is, a file is one file
    const NAMES: &[&str] = &[
        "a.tree,b.tree", "a,b.tree", ",", "c.tree,", "x;y.tree", "x:y.tree", "a.tree:b.tree", "x=y.tree", "@a.tree", "@x", "*.tree", "?.tree", "[a].tree", "{a,b}.tree", "~", "~x.tree", "$HOME.tree", "%a.tree", "'a.tree'", "\"x\".tree", "x\\y.tree", " x.tree", "x.tree ", "x y.tree", "x\ty.tree", "x\ny.tree", "#x.tree", "!x.tree", "&x.tree", "|", ">x", "(x).tree", "scaffold", "check", "help", "w", "fix", "s=1.tree", "0", "true", "x--fix.tree", "ü.tree", "a.tree b.tree", "a.tree;b.tree", "file:x.tree", "c.tree#x",
    ];
    let cmds: &[&[&str]] = &[&["scaffold"], &["scaffold", "-w"], &["scaffold", "-wf", "-s", "0.7.6"], &["check"], &["check", "--fix"], &["check", "--fix", "--stdout"]];
    mc.par(NAMES.iter().flat_map(|n| cmds.iter().flat_map(move |c| (0..4).map(move |at| (*n, *c, at)))), |w, (name, cmd, at)| {
        w.mc.state();
        w.mc.reads(name);
        let out = |n: &str| std::path::Path::new(n).with_extension("t.sol").to_string_lossy().into_owned();
        let run = |name: &str| {
            let sol = out(name);
            let mut fs = files.to_vec();
            fs.push((name, TREE));
            if cmd[0] == "check" {
                fs.push((&sol, SOL));
            }
            let mut v = s(cmd);
            match at {
                0 => v.push(name.into()),
                1 => v.extend([name.to_string(), "b.tree".into()]),
                2 => v.extend(["b.tree".to_string(), name.into()]),
                _ => v.extend(["--".to_string(), name.into()]),
            }
            shot(w, &v, &fs)
        };
        let (x, mut y) = (run(name), run("qqq.tree"));
        let named = |t: &str| t.replace("qqq.tree", name).replace("qqq.t.sol", &out(name));
        y.0.stdout = named(&y.0.stdout);
        y.0.stderr = named(&y.0.stderr);
        y.1 = y.1.into_iter().map(|(k, t)| (named(&k), t)).collect();
        if x != y {
            return viol(format!("{cmd:?} {name:?} {at}"), format!("bulloak {cmd:?} on a file that is called {name:?} (place {at}) differs from what it does on qqq.tree\n{}\n--- instead of ---\n{}", x.0.show(), y.0.show()));
        }
        w.mc.outcome("any name");
        Ok(())
    });
    // names that look like options
    for name in ["-w", "--fix", "-x.tree", "--help.tree", "-", "--"] {
        mc.par([["scaffold"].as_slice(), &["scaffold", "-w"], &["check"], &["check", "--fix"]].into_iter(), |w, cmd| {
            w.mc.state();
            let odd = [(name, TREE), ("plain.tree", TREE)];
            let mut v = s(cmd);
            v.push("--".into());
            v.push(name.into());
            let mut r = s(cmd);
            r.push(format!("./{name}"));
            let (x, y) = (shot(w, &v, &odd), shot(w, &r, &odd));
            let plain = |o: &Out| (o.code, o.stdout.replace("./", ""), o.stderr.replace("./", ""));
            if plain(&x.0) != plain(&y.0) || x.1 != y.1 {
                return viol(format!("{v:?}"), format!("bulloak {v:?} differs from bulloak {r:?}\n{}\n{}", x.0.show(), y.0.show()));
            }
            w.mc.outcome("names behind --");
            Ok(())
        });
    }
}
