//! C20..C24: what commands do to the files of a workspace.
use crate::p_check::{self, report, K};
use crate::p_scaffold::Case;
use crate::refm;
use crate::rt::*;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;
use std::sync::{Arc, Mutex};

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn lay(w: &Worker, fs: &Files) {
    w.clean();
    lay_in(w, &w.dir, fs);
}
pub fn lay_in(w: &Worker, dir: &Path, fs: &Files) {
    for (n, c) in fs {
        w.note(n, c);
        let p = dir.join(n);
        if n.ends_with('/') {
            std::fs::create_dir_all(p).unwrap();
            continue;
        }
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
}
pub fn show_files(fs: &Files) -> String {
    fs.iter().map(|(n, c)| format!("--- {n} ---\n{}\n", String::from_utf8_lossy(c))).collect()
}
pub fn diff(a: &Files, b: &Files) -> Vec<String> {
    let names: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    names.into_iter().filter(|n| a.get(*n) != b.get(*n)).cloned().collect()
}
fn sol_of(tree: &str) -> String {
    let (dir, file) = tree.rsplit_once('/').map_or(("", tree), |(d, f)| (&tree[..d.len() + 1], f));
    let stem = match file.rfind('.') {
        Some(0) | None => file,
        Some(i) => &file[..i],
    };
    format!("{dir}{stem}.t.sol")
}

const GOOD: &str = "Root\n├── it aa\n├── when b\n│   ├── it should revert\n│   └── when c\n│       └── it x\n└── it z\n";
const MULTI: &str = "K::f\n├── when shared\n│   └── when p\n│       └── it x\n└── it y\n\nK::g\n└── when shared\n    ├── it should revert\n    └── given q\n        └── it é\n";
const BAD: &str = "Root\n├── when b\n└── it aa\n";

pub fn fresh(text: &str, ts: Vec<Tree>) -> String {
    // the reference contract, as scaffold would lay it out, edited by a user
    let c = Case::many(ts);
    let (t, rs) = c.build();
    let _ = (text, t);
    let want = refm::expect(&c.ts, &rs).unwrap();
    let mut s = format!("pragma solidity 0.8.0;\n\ncontract {} is Test {{\n    uint256 mine = 1; // é }}\n\n", want.name);
    for it in want.items.iter().rev() {
        s.push_str(&p_check::item_src(it, 1));
        s.push_str("\n\n");
    }
    s.push_str("    function helper() internal {}\n}\n");
    s
}
pub fn good_tree() -> Tree {
    tree("Root", vec![act("it aa"), cond("when b", vec![act("it should revert"), cond("when c", vec![act("it x")])]), act("it z")])
}

// --------------------------------------------------------------- C20, C21

#[derive(Clone, Debug)]
struct Cmd {
    scaffold: bool,
    args: Vec<&'static str>,
    files: Vec<&'static str>,
    write: bool,
    force: bool,
    fix: bool,
    stdout: bool,
}
impl Cmd {
    fn all(&self) -> Vec<&'static str> {
        let mut v = vec![if self.scaffold { "scaffold" } else { "check" }];
        v.extend(&self.args);
        v.extend(&self.files);
        v
    }
}

fn commands(sets: &[&[&'static str]]) -> Vec<Cmd> {
    let mut v = vec![];
    for files in sets {
        for o in [&[][..], &["-m"], &["-S", "-s", "0.8.24"]] {
            for wf in [&[][..], &["-w"], &["-w", "-f"]] {
                let mut args: Vec<&'static str> = o.to_vec();
                args.extend(wf);
                v.push(Cmd { scaffold: true, args, files: files.to_vec(), write: !wf.is_empty(), force: wf.len() == 2, fix: false, stdout: false });
            }
        }
        for o in [&[][..], &["-m"]] {
            for f in [&[][..], &["--fix"], &["--fix", "--stdout"]] {
                let mut args: Vec<&'static str> = o.to_vec();
                args.extend(f);
                v.push(Cmd { scaffold: false, args, files: files.to_vec(), write: false, force: false, fix: !f.is_empty(), stdout: f.len() == 2 });
            }
        }
    }
    v
}

/// What `scaffold` prints for one tree with some options, or None if it fails.
type Printed = Mutex<HashMap<(Vec<u8>, Vec<&'static str>), Option<String>>>;

fn printed(w: &Worker, cache: &Printed, fs: &Files, file: &str, opts: &[&'static str]) -> Option<String> {
    let tree = fs.get(file)?;
    let key = (tree.clone(), opts.to_vec());
    if let Some(x) = cache.lock().unwrap().get(&key) {
        return x.clone();
    }
    let d = w.dir.join("_print");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("p.tree"), tree).unwrap();
    let mut a = vec!["scaffold"];
    a.extend(opts);
    a.push("p.tree");
    let o = w.run_env(&a, &[], Some(&d));
    let _ = std::fs::remove_dir_all(&d);
    let r = (o.code == 0).then_some(o.stdout);
    cache.lock().unwrap().insert(key, r.clone());
    r
}

/// The blocks that `--fix --stdout` prints: path and content.
pub fn blocks(stdout: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut open = false;
    for l in stdout.lines() {
        if let Some(p) = l.strip_prefix("--> ").filter(|_| !open) {
            v.push((p.to_string(), String::new()));
            open = true;
        } else if l == "<--" {
            open = false;
        } else if open {
            let b = v.last_mut().unwrap();
            b.1.push_str(l);
            b.1.push('\n');
        }
    }
    v
}

fn step(w: &mut Worker, cache: &Printed, fs: &Files, c: &Cmd, judge: char) -> Result<Files, Viol> {
    lay(w, fs);
    let root = w.dir.to_string_lossy().into_owned();
    let calls = w.mc.scratch.join(format!("calls{}", w.n));
    let _ = std::fs::remove_file(&calls);
    let calls_s = calls.to_string_lossy().into_owned();
    let o = w.run_env(&c.all(), &[("MC_ROOT", &root), ("MC_LOG", &calls_s), ("TMPDIR", &root)], None);
    let now = w.snapshot();
    w.mc.trace();
    let log = || format!("command: bulloak {}\n{}\n=== after ===\n{}\n{}", c.all().join(" "), show_files(fs), show_files(&now), o.show());
    let fail = |m: String| viol(format!("{:?} {fs:?}", c.all()), format!("{m}\n{}", log()));
    if o.crashed() {
        return fail("the command crashed".into());
    }
    let changed = diff(fs, &now);
    w.mc.outcome(&format!("{} {} changed", if c.scaffold { "scaffold" } else { "check" }, changed.len()));
    let targets: Vec<String> = c.files.iter().map(|f| sol_of(f)).collect();
    let may = c.write || (c.fix && !c.stdout);
    for n in &changed {
        if !may || !targets.contains(n) {
            return fail(format!("{n} was changed, created or deleted"));
        }
        if c.fix && !fs.contains_key(n) {
            return fail(format!("check --fix created {n}"));
        }
        if !now.contains_key(n) {
            return fail(format!("{n} was deleted"));
        }
    }
    // other files that the run has to do with: what if there already were some?
    let mut others: BTreeSet<String> = Default::default();
    for e in read_log(&calls) {
        if !matches!(e.op.as_str(), "create" | "rename" | "link" | "unlink" | "mkdir" | "truncate" | "chmod") {
            continue;
        }
        for p in [e.path, e.path2] {
            let p = p.strip_prefix(&format!("{root}/")).unwrap_or(&p).trim_start_matches("./").to_string();
            let parent = p.rsplit_once('/').map_or(String::new(), |x| format!("{}/", x.0));
            if !p.is_empty() && !p.starts_with('/') && !targets.contains(&p) && !fs.contains_key(&p) && !fs.contains_key(&format!("{p}/")) && (parent.is_empty() || fs.contains_key(&parent)) {
                others.insert(p);
            }
        }
    }
    if judge == '0' && !others.is_empty() {
        let mut fs = fs.clone();
        for p in &others {
            fs.insert(p.clone(), b"mine\n".to_vec());
        }
        lay(w, &fs);
        let o = w.run_env(&c.all(), &[("TMPDIR", &root)], None);
        let now = w.snapshot();
        w.mc.trace();
        for n in diff(&fs, &now) {
            if !may || !targets.contains(&n) {
                return viol(format!("{:?} {fs:?}", c.all()), format!("{n} was changed, created or deleted\ncommand: bulloak {}\n{}\n=== after ===\n{}\n{}", c.all().join(" "), show_files(&fs), show_files(&now), o.show()));
            }
        }
        lay(w, &now);
    }
    if c.scaffold {
        let opts: Vec<&'static str> = c.args.iter().copied().filter(|a| !matches!(*a, "-w" | "-f")).collect();
        let prints: Vec<Option<String>> = c.files.iter().map(|f| printed(w, cache, fs, f, &opts)).collect();
        if c.write {
            let mut model = fs.clone();
            let mut skipped = vec![];
            for (f, p) in c.files.iter().zip(&prints) {
                let t = sol_of(f);
                if let Some(p) = p {
                    if c.force || !model.contains_key(&t) {
                        model.insert(t, p.strip_suffix('\n').unwrap_or(p).as_bytes().to_vec());
                    } else {
                        skipped.push(t);
                    }
                }
            }
            for n in diff(&model, &now) {
                let was = fs.get(&n).map(|x| String::from_utf8_lossy(x).into_owned());
                if judge == '0' && now.get(&n) == fs.get(&n) {
                    continue; // not written: the subject of C21
                }
                return fail(format!("{n} should now hold\n{:?}\nIt was\n{was:?}", model.get(&n).map(|x| String::from_utf8_lossy(x).into_owned())));
            }
            if judge == '1' {
                for t in &skipped {
                    if !o.stderr.contains("Skipped") || !o.stderr.contains(t.as_str()) {
                        return fail(format!("no notice says that {t} was left alone"));
                    }
                }
                if (o.code == 0) != prints.iter().all(|p| p.is_some()) {
                    return fail(format!("exit status {}", o.code));
                }
                if !o.stdout.trim().is_empty() {
                    return fail("scaffold -w prints the code as well".into());
                }
            }
        } else {
            let want: String = prints.iter().flatten().cloned().collect();
            if o.stdout != want {
                return fail(format!("scaffold prints something else than for the single files:\n{want}"));
            }
        }
    }
    if c.fix && judge == '0' {
        // compare --stdout with the real thing
        let other: Vec<&'static str> = {
            let mut v = vec!["check"];
            v.extend(c.args.iter().filter(|a| **a != "--stdout"));
            if !c.stdout {
                v.push("--stdout");
            }
            v.extend(&c.files);
            v
        };
        lay(w, fs);
        let o2 = w.run(&other);
        let now2 = w.snapshot();
        let (out, written) = if c.stdout { (&o, &now2) } else { (&o2, &now) };
        let bl = blocks(&out.stdout);
        if !c.stdout && now2 != *fs {
            return fail(format!("check --fix --stdout changed {:?}", diff(fs, &now2)));
        }
        for (p, text) in &bl {
            if !targets.contains(p) {
                return fail(format!("--stdout prints {p:?}, which is none of the files"));
            }
            let file = String::from_utf8_lossy(written.get(p).map_or(&b""[..], |x| x)).into_owned();
            if file.trim() != text.trim() {
                return fail(format!("--stdout prints for {p}\n{text}\nbut --fix writes\n{file}"));
            }
        }
        for n in diff(fs, written) {
            if !bl.iter().any(|(p, _)| *p == n) {
                return fail(format!("--fix changes {n}, but --stdout does not print it:\n{}", out.stdout));
            }
        }
    }
    Ok(now)
}

fn explore(mc: &Mc, judge: char) {
    let edited = fresh(GOOD, vec![good_tree()]);
    let variants: Vec<Option<Vec<u8>>> = vec![
        None,
        Some(vec![]),
        Some(edited.clone().into_bytes()),
        Some(b"// mine\ncontract Other {\n    function test_Z() external {}\n    function test_Aa() external {\n        f();\n    }\n}\n".to_vec()),
        Some(b"contract {".to_vec()),
        Some(vec![0xff, 0x00, 0xfe]),
        // shrinks when it is formatted; two items are out of place
        Some(format!("contract   Root  {{{}\r\n\r\n\r\n    function  test_Aa( )   external  {{    }}{}modifier whenM(  )    {{   _ ;  }}  }}", " ".repeat(300), "\r\n".repeat(40)).into_bytes()),
    ];
    let mut base = Files::new();
    base.insert("a.tree".into(), GOOD.into());
    base.insert("d/b.tree".into(), MULTI.into());
    base.insert("bad.tree".into(), BAD.into());
    for (n, c) in [("a.sol", "contract A {}"), ("a.t.sol.bak", "x"), ("a.t.tree", GOOD), ("a.tree.t.sol", "y"), ("notes.txt", "z"), ("d/x.t.sol", "contract X {}"), ("b.t.sol", "contract InRoot {}"), ("foundry.toml", "[profile.default]\n"), ("empty/", "")] {
        base.insert(n.into(), c.into());
    }
    base.insert("d/".into(), vec![]);
    let sets: Vec<&[&str]> = vec![&["a.tree"], &["d/b.tree"], &["a.tree", "d/b.tree"], &["bad.tree"], &["bad.tree", "a.tree"], &["none.tree", "d/b.tree", "a.tree"], &["a.tree", "a.tree"], &[]];
    let cmds = commands(&sets);
    let mut seen: HashSet<Files> = HashSet::new();
    let mut frontier: Vec<Arc<Files>> = vec![];
    for x in &variants {
        for y in &variants {
            let mut f = base.clone();
            if let Some(x) = x {
                f.insert("a.t.sol".into(), x.clone());
            }
            if let Some(y) = y {
                f.insert("d/b.t.sol".into(), y.clone());
            }
            if seen.insert(f.clone()) {
                frontier.push(Arc::new(f));
            }
        }
    }
    // one more: the failing tree has an output already
    let mut f = base.clone();
    f.insert("bad.t.sol".into(), b"contract Keep {}".to_vec());
    seen.insert(f.clone());
    frontier.push(Arc::new(f));
    let cache: Printed = Default::default();
    let depth = mc.pick(2, 12);
    let mut level = 0;
    while !frontier.is_empty() && level < depth && !mc.stopped() {
        mc.states.fetch_add(frontier.len() as u64, std::sync::atomic::Ordering::SeqCst);
        let next: Mutex<Vec<Files>> = Default::default();
        let items: Vec<(Arc<Files>, Cmd)> = frontier.iter().flat_map(|f| cmds.iter().map(move |c| (f.clone(), c.clone()))).collect();
        mc.par(items.into_iter(), |w, (f, c)| {
            w.mc.sample(|| format!("{}\n{}", c.all().join(" "), show_files(f)).into());
            let now = step(w, &cache, f, c, judge)?;
            if now != **f {
                next.lock().unwrap().push(now);
            }
            Ok(())
        });
        let mut v = next.into_inner().unwrap();
        v.sort();
        v.dedup();
        frontier = v.into_iter().filter(|f| seen.insert(f.clone())).map(Arc::new).collect();
        level += 1;
    }
    // outputs of any size, and contents close to what would be generated
    let mut ns: Vec<usize> = (1..=8).chain([12, 16, 20, 33, 40, 65, 70, 100, 129, 150, 257, 520]).collect();
    if mc.thorough {
        ns = (1..=70).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 3000]).collect();
    }
    mc.bound("actions_of_one_tree", *ns.last().unwrap() as u64);
    let cmds = commands(&[&["a.tree"], &["d/b.tree", "a.tree"]]);
    mc.par(ns.into_iter().rev().flat_map(|n| (0..CLOSE).flat_map(move |k| (0..2).map(move |t| (n, k, t)))), |w, (n, k, t)| {
        let tree: String = match t {
            0 => format!("Root\n{}└── it z\n", (0..*n).map(|i| format!("├── it a{i}\n")).collect::<String>()),
            _ => format!("Root\n{}└── it z\n", (0..*n).map(|i| format!("├── when b{i}\n│   ├── it should revert\n│   └── when c\n│       └── it x{i}\n")).collect::<String>()),
        };
        let mut fs = base.clone();
        fs.insert("a.tree".into(), tree.into_bytes());
        let Some(text) = printed(w, &cache, &fs, "a.tree", &[]) else { return Ok(()) };
        let Some(old) = close(&text, *k) else { return Ok(()) };
        fs.insert("a.t.sol".into(), old);
        for (x, c) in cmds.iter().enumerate() {
            // the time that --fix takes grows with the third power
            if !c.scaffold && *n > w.mc.pick(150, 300) {
                continue;
            }
            if w.mc.thorough || *n < 9 || (x + n) % 3 == 0 || *n == 150 {
                w.mc.state();
                step(w, &cache, &fs, c, judge)?;
            }
        }
        Ok(())
    });
    if judge == '0' {
        large_outputs(mc);
    }
    mc.bound("levels", level as u64);
    mc.bound("levels_limit", depth as u64);
    mc.bound("unexplored_states", frontier.len() as u64);
    mc.bound("commands_per_state", cmds.len() as u64);
}

/// Outputs of any size: the calls of the run, not only what is there at the end, touch nothing
/// but the output.
fn large_outputs(mc: &Mc) {
    let shim = mc.shim.to_string_lossy().into_owned();
    let mut ns: Vec<usize> = vec![10, 4_000, 8_200, 33_000, 66_000, 132_000, 270_000, 1_100_000];
    if mc.thorough {
        ns.extend([5_000_000, 17_000_000]);
    }
    mc.bound("bytes_of_outputs", *ns.last().unwrap() as u64);
    let cmds: &[&[&'static str]] = &[&["scaffold"], &["scaffold", "-w"], &["scaffold", "-w", "-f"], &["check"], &["check", "-m"], &["check", "--fix"], &["check", "--fix", "-m"], &["check", "--fix", "--stdout"]];
    mc.par(ns.into_iter().rev().flat_map(|n| cmds.iter().flat_map(move |c| (0..5).map(move |k| (n, *c, k)))), |w, (n, cmd, k)| {
        let word = |n: usize| "x".repeat(40) + " " + &"lorem ".repeat(n / 6);
        let scaf = cmd[0] == "scaffold";
        let tree = format!("Root\n├── it a {}\n└── it b\n", if scaf { word(*n) } else { String::new() });
        let t = |x: &str| format!("    function test_{x}() external {{\n        // it {}\n    }}\n", x.to_lowercase());
        let user = format!("    /* {}\n    */\n    uint256 x{n};\n", word(99).repeat(n / 100 + 1));
        let sol = match k {
            0 => format!("contract Root {{\n{}\n{}\n{user}}}\n", t("A"), t("B")),
            1 => format!("contract Root {{\n{user}{}\n{}}}\n", t("B"), t("A")),
            2 => format!("contract Root {{\n{user}}}\n"),
            3 => format!("{}\ncontract Roof {{\n{}{user}}}\n", user.split_once("uint").unwrap().0, t("A")),
            _ => String::new(),
        };
        let mut fs = Files::new();
        fs.insert("a.tree".into(), tree.into_bytes());
        if *k < 4 && !(scaf && *k == 0) {
            fs.insert("a.t.sol".into(), sol.into_bytes());
        }
        for (f, c) in [("a.t.tmp", "t"), ("a.tmp", "t"), ("a.t.sol.tmp", "t"), ("a.t.sol.bak", "b"), ("a.t.sol~", "c"), (".a.t.sol.swp", "d"), ("a.sol", "e"), ("a.t.sol.new", "f"), ("a.t.sol.orig", "g")] {
            fs.insert(f.into(), c.into());
        }
        let s = Scen { name: "large", cmd, stems: vec!["a".into()], fs: fs.clone() };
        w.mc.state();
        let (o, now, log) = run_faulty(w, &s, &shim, "");
        w.mc.trace();
        w.mc.outcome(&format!("large: {}", cmd.join(" ")));
        let writes = (cmd.contains(&"-w") && (cmd.contains(&"-f") || !fs.contains_key("a.t.sol"))) || (cmd.contains(&"--fix") && !cmd.contains(&"--stdout"));
        let id = format!("{cmd:?} {n} {k}");
        let info = || format!("command: {} a.tree\nsize: {n}, content: {k}\ncalls: {}\nstatus {}", cmd.join(" "), log.iter().map(|e| format!("{} {} {}", e.op, e.path, e.path2)).collect::<Vec<_>>().join("; ").chars().take(2000).collect::<String>(), o.code);
        if o.crashed() {
            return viol(id, format!("bulloak crashed\n{}", info()));
        }
        for e in &log {
            if matches!(e.op.as_str(), "open" | "read" | "stat" | "fstat" | "fsync" | "lock") {
                continue;
            }
            let ok = |p: &str| p.is_empty() || p == "a.t.sol" || Path::new(p) == w.dir.join("a.t.sol");
            if !writes || !ok(&e.path) || !ok(&e.path2) {
                return viol(id, format!("another file than the output was changed on the way: {} {} {}\n{}", e.op, e.path, e.path2, info()));
            }
        }
        for (f, c) in &fs {
            if (f != "a.t.sol" || !writes) && now.get(f) != Some(c) {
                return viol(id, format!("{f} was changed\n{}", info()));
            }
        }
        if let Some(f) = now.keys().find(|f| !fs.contains_key(*f) && (f.as_str() != "a.t.sol" || !writes)) {
            return viol(id, format!("{f} was created\n{}", info()));
        }
        Ok(())
    });
}

const CLOSE: usize = 18;
/// Contents that are close to what is generated, if they are not the same.
fn close(text: &str, k: usize) -> Option<Vec<u8>> {
    let t = text.strip_suffix('\n').unwrap_or(text);
    let lines: Vec<&str> = t.lines().collect();
    let x: String = match k {
        0 => t.into(),
        1 => text.into(),
        2 => lines.iter().map(|l| format!("{}\n", l.trim())).collect(),
        3 => t.replace('\n', "\r\n"),
        4 => t.replace('\n', "\n\n"),
        5 => t.replace("    ", "\t"),
        6 => t.trim_end().into(),
        7 => t[..t.len() / 2].into(),
        8 => format!("{t}{t}"),
        9 => t.to_lowercase(),
        10 => format!(" {t}"),
        // of the same length
        11 => t.replacen("it ", "iT ", 1),
        12 => "x".repeat(t.len()),
        // without comments; a part of the tests; the tests in another order
        13 => lines.iter().filter(|l| !l.trim().starts_with("//")).map(|l| format!("{l}\n")).collect(),
        14 => "pragma solidity 0.8.0;\n\ncontract Root {}\n".into(),
        // lines whose blanks count: those of comments
        15 => "/* a  \n\n\n\t\n  b \n*/\ncontract Root {\n    uint256 x; /* c   \n \n*/\n    /// d  \n    // e\t\n    uint256 y;\n}\n/*  \n*/\n".into(),
        16 => t.replacen("contract Root {\n", "contract Root {\n    /* a   \n\t\n        b \n\n\n*/\n", 1).replacen("function test_", "function test_Not", 1),
        _ => {
            let i = t.find("contract Root {")?;
            let (head, body) = t.split_at(i + 15);
            let parts: Vec<&str> = body.trim_end().trim_end_matches('}').trim_end().split("\n\n").collect();
            format!("{head}{}\n}}\n", parts.into_iter().rev().collect::<Vec<_>>().join("\n\n"))
        }
    };
    Some(x.into_bytes())
}

pub fn c20(mc: &Mc) {
    *mc.rule.lock().unwrap() = "breadth-first search over workspace states: 50 initial states (all pairs of 7 contents of the two .t.sol files), every command of the alphabet (scaffold x {-w,-w -f} x options, check x {--fix, --fix --stdout} x -m, on 8 file lists) executed by the real CLI in every state; and the same commands on trees of up to hundreds of tests x 18 contents close to what would be generated; every directory snapshot is compared, and printed with written contents".into();
    explore(mc, '0');
}

/// Paths: the tree and its expected output.
const PATHS: &[(&str, &str)] = &[
    ("x.tree", "x.t.sol"),
    ("./x.tree", "x.t.sol"),
    ("d/x.tree", "d/x.t.sol"),
    ("d/../x.tree", "x.t.sol"),
    ("d/e/f/x.tree", "d/e/f/x.t.sol"),
    ("x.y.tree", "x.y.t.sol"),
    ("x.t.tree", "x.t.t.sol"),
    ("x.t.sol.tree", "x.t.sol.t.sol"),
    ("x", "x.t.sol"),
    ("x.txt", "x.t.sol"),
    ("x.tree.txt", "x.tree.t.sol"),
    ("d.tree/x.tree", "d.tree/x.t.sol"),
    ("d.t.sol/x", "d.t.sol/x.t.sol"),
    ("sp ace/x y.tree", "sp ace/x y.t.sol"),
    ("é/日本.tree", "é/日本.t.sol"),
    ("x.TREE", "x.t.sol"),
    ("x_test.tree", "x_test.t.sol"),
    ("x..tree", "x..t.sol"),
    ("-x/y.tree", "-x/y.t.sol"),
];

pub fn c21(mc: &Mc) {
    *mc.rule.lock().unwrap() = "the breadth-first search of C20 with the exact write policy as model; and every path form x every prior content of the output x {-w, -w -f, repeated} x {accepted, rejected} trees x given relative, absolute and from another directory".into();
    explore(mc, '1');
    let contents: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"x".to_vec()), Some(vec![0xff; 10]), Some("é\r\n".repeat(5000).into_bytes()), Some(b"contract Root {}\n".to_vec()), Some(b" \n".to_vec())];
    let trees: Vec<(&str, bool)> = vec![(GOOD, true), (MULTI, true), ("Root\n", true), (BAD, false), ("", true), ("Root\n└── blah", false), ("A::b\n└── it x\n\nB::c\n└── it y", false), ("Root\n└── when !\n    └── it x", false), ("1Root\n└── it x", false), ("Root\n├── it x\n└── it x", false)];
    let mut v = vec![];
    for (p, out) in PATHS {
        for c in &contents {
            for (t, _) in &trees {
                v.push((*p, *out, c.clone(), *t));
            }
        }
    }
    let cache: Printed = Default::default();
    mc.par(v.into_iter(), |w, (p, out, content, t)| {
        for (force, mode) in [(false, 0), (true, 0), (false, 1), (true, 1), (false, 2), (true, 2)] {
            w.mc.state();
            let mut fs = Files::new();
            let real = p.replace("d/../", "").trim_start_matches("./").to_string();
            fs.insert(real.clone(), t.as_bytes().to_vec());
            if p.contains("..") && p.starts_with("d/") {
                fs.insert("d/".into(), vec![]);
            }
            if let Some(c) = content {
                fs.insert(out.to_string(), c.clone());
            }
            fs.insert("cwd/".into(), vec![]);
            let want = printed(w, &cache, &fs, &real, &[]);
            lay(w, &fs);
            let before = w.snapshot();
            let (cwd, arg) = match mode {
                0 => (w.dir.clone(), p.to_string()),
                1 => (w.dir.clone(), w.dir.join(p).to_string_lossy().into_owned()),
                _ => (w.dir.join("cwd"), format!("../{p}")),
            };
            let arg = if arg.starts_with('-') { format!("./{arg}") } else { arg };
            let mut a = vec!["scaffold", "-w"];
            if force {
                a.push("-f");
            }
            a.push(&arg);
            let o = w.run_env(&a, &[], Some(&cwd));
            let now = w.snapshot();
            w.mc.trace();
            let mut model = before.clone();
            if let Some(x) = &want {
                if force || content.is_none() {
                    model.insert(out.to_string(), x.strip_suffix('\n').unwrap_or(x).as_bytes().to_vec());
                }
            }
            let log = format!("command: bulloak {} (in {})\n{}\n=== after ===\n{}\n{}", a.join(" "), cwd.display(), show_files(&before), show_files(&now), o.show());
            w.mc.outcome(if now == before { "left alone" } else { "written" });
            if o.crashed() || now != model {
                return viol(format!("{a:?} {fs:?}"), format!("{:?} are not as they should be\n{log}", diff(&model, &now)));
            }
            if (o.code == 0) != want.is_some() {
                return viol(format!("{a:?} {fs:?}"), format!("exit status {}\n{log}", o.code));
            }
            let skipped = want.is_some() && content.is_some() && !force;
            if skipped != o.stderr.contains("Skipped") {
                return viol(format!("{a:?} {fs:?}"), format!("the notice is {}\n{log}", if skipped { "missing" } else { "wrong" }));
            }
        }
        Ok(())
    });
    // other kinds of files in the place of the output
    mc.one("links", |w| {
        for force in [false, true] {
            for dangling in [false, true] {
                w.mc.state();
                let mut fs = Files::new();
                fs.insert("x.tree".into(), GOOD.into());
                if !dangling {
                    fs.insert("target.sol".into(), b"contract Mine {}\n".to_vec());
                }
                lay(w, &fs);
                std::os::unix::fs::symlink("target.sol", w.dir.join("x.t.sol")).unwrap();
                let mut a = vec!["scaffold", "-w"];
                if force {
                    a.push("-f");
                }
                a.push("x.tree");
                let o = w.run(&a);
                w.mc.trace();
                let now = w.get("target.sol");
                if !force && !dangling && (now.as_deref() != Some("contract Mine {}\n") || o.code != 0) {
                    return viol(format!("link {force} {dangling}"), format!("an existing file was overwritten through a link\n{}", o.show()));
                }
                if force && (o.code != 0 || !w.get("x.t.sol").unwrap_or_default().contains("contract Root")) {
                    return viol(format!("link {force} {dangling}"), format!("-f did not write\n{}", o.show()));
                }
            }
        }
        Ok(())
    });
}

// -------------------------------------------------------------------- C22

/// A kind of file: what lies at `<stem>.tree` and `<stem>.t.sol`.
#[derive(Clone, Debug)]
pub struct Kd {
    pub name: &'static str,
    pub tree: Option<Vec<u8>>,
    pub sol: Option<Vec<u8>>,
    /// The output is a directory.
    pub dir: bool,
}

pub fn kinds() -> Vec<Kd> {
    let edited = fresh(GOOD, vec![good_tree()]);
    let k = |name, tree: &str, sol: Option<&str>| Kd { name, tree: Some(tree.into()), sol: sol.map(|s| s.into()), dir: false };
    vec![
        k("fresh", GOOD, None),
        k("edited", GOOD, Some(&edited)),
        k("partial", GOOD, Some("pragma solidity 0.8.0;\n\ncontract Nope {\n    function test_Z() external {}\n\n    function test_Aa() external {\n        f();\n    }\n}\n")),
        k("complete", "Root\n├── it a\n└── it b\n", Some("contract Root {\n    function test_A() external {}\n\n    function test_B() external {}\n}\n")),
        k("multi", MULTI, Some("contract K {\n    modifier whenShared() {\n        _;\n    }\n}\n")),
        k("bad", BAD, Some("contract Root {}\n")),
        k("duplicate", "Root\n├── when b\n│   └── it a\n├── when b\n│   └── it a\n└── when b\n    └── it c\n", None),
        k("mismatch", "A::b\n└── it x\n\nB::c\n└── it y\n", Some("contract A {}\n")),
        k("broken sol", GOOD, Some("contract {")),
        k("empty sol", GOOD, Some("")),
        Kd { name: "no tree", tree: None, sol: Some(b"contract Root {}\n".to_vec()), dir: false },
        Kd { name: "not text", tree: Some(vec![0xff, 0xfe]), sol: None, dir: false },
        Kd { name: "sol not text", tree: Some(GOOD.into()), sol: Some(vec![0xff]), dir: false },
        Kd { name: "directory", tree: Some(GOOD.into()), sol: None, dir: true },
    ]
}

pub fn put_kind(fs: &mut Files, stem: &str, k: &Kd) {
    if let Some(t) = &k.tree {
        fs.insert(format!("{stem}.tree"), t.clone());
    }
    if let Some(s) = &k.sol {
        fs.insert(format!("{stem}.t.sol"), s.clone());
    }
    if k.dir {
        fs.insert(format!("{stem}.t.sol/"), vec![]);
        fs.insert(format!("{stem}.t.sol/inside"), b"x".to_vec());
    }
}

const COMMANDS: &[&[&str]] = &[
    &["scaffold"],
    &["scaffold", "-m", "-S", "-s", "0.8.24"],
    &["scaffold", "-w"],
    &["scaffold", "-w", "-f"],
    &["check"],
    &["check", "-m"],
    &["check", "--fix"],
    &["check", "--fix", "-m"],
    &["check", "--fix", "--stdout"],
];

#[derive(Clone, Debug)]
struct Single {
    out: Out,
    after: Files,
}

/// stderr of scaffold without the final summary, and the number in it.
fn scaffold_errs(o: &Out) -> (Vec<String>, usize) {
    let mut n = 0;
    let mut v = vec![];
    for l in o.stderr.lines() {
        if let Some(x) = l.strip_prefix("warn: Could not scaffold ") {
            n = x.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0);
        } else if !l.trim().is_empty() {
            v.push(l.to_string());
        }
    }
    v.sort();
    (v, n)
}

fn compare_single(cmd: &[&str], multi: &Out, now: &Files, singles: &[&Single], before: &Files) -> Result<(), String> {
    let fails = singles.iter().filter(|s| s.out.code != 0).count();
    if (multi.code != 0) != (fails > 0) {
        return Err(format!("the exit status is {}, that of the single runs {:?}", multi.code, singles.iter().map(|s| s.out.code).collect::<Vec<_>>()));
    }
    // files
    let mut model = before.clone();
    for s in singles {
        for (n, c) in &s.after {
            model.insert(n.clone(), c.clone());
        }
    }
    let d = diff(&model, now);
    if !d.is_empty() {
        return Err(format!("{d:?} are not what the single runs make of them:\n{}", show_files(&model)));
    }
    if cmd[0] == "scaffold" {
        let want: String = singles.iter().map(|s| s.out.stdout.as_str()).collect();
        if multi.stdout != want {
            return Err(format!("the single runs print\n{want}"));
        }
        let mut lines = vec![];
        for s in singles {
            lines.extend(scaffold_errs(&s.out).0);
        }
        lines.sort();
        let (got, n) = scaffold_errs(multi);
        if got != lines {
            return Err(format!("the reports are\n{got:#?}\ninstead of\n{lines:#?}"));
        }
        if n != fails {
            return Err(format!("{n} files are counted as failed instead of {fails}"));
        }
        return Ok(());
    }
    let r = report(multi);
    let rs: Vec<_> = singles.iter().map(|s| report(&s.out)).collect();
    let mut want: Vec<String> = rs.iter().flat_map(|r| r.viols.iter().map(|v| format!("{v:?}"))).collect();
    let mut got: Vec<String> = r.viols.iter().map(|v| format!("{v:?}")).collect();
    want.sort();
    got.sort();
    if want != got {
        return Err(format!("the violations are\n{got:#?}\ninstead of\n{want:#?}"));
    }
    let mut want: Vec<String> = rs.iter().flat_map(|r| r.noise.clone()).collect();
    let mut got = r.noise.clone();
    want.sort();
    got.sort();
    if want != got {
        return Err(format!("the reports are\n{got:#?}\ninstead of\n{want:#?}"));
    }
    let want: Vec<_> = singles.iter().flat_map(|s| blocks(&s.out.stdout)).collect();
    if blocks(&multi.stdout) != want {
        return Err(format!("the single runs print\n{want:#?}"));
    }
    let fixed: usize = rs.iter().map(|r| r.fixed.unwrap_or(0)).sum();
    if r.fixed.unwrap_or(0) != fixed {
        return Err(format!("{:?} issues are said to be fixed instead of {fixed}", r.fixed));
    }
    if r.ok != (rs.iter().all(|r| r.ok)) {
        return Err("the success line is wrong".into());
    }
    Ok(())
}

pub fn c22(mc: &Mc) {
    let ks = kinds();
    let n = mc.pick(3, 4);
    *mc.rule.lock().unwrap() = format!("every sequence of <= {n} files out of {} kinds (accepted, rejected, unreadable, with every state of the contract) x 9 commands in one invocation, compared with the single runs: reports, printed code, written files, counts, exit status; any number of files up to some hundred of which all, one or every second one is special; every pair and triple of ten paths with equal and similar names in several folders; also the same file given twice", ks.len());
    mc.bound("files_per_invocation", n as u64);
    mc.bound("kinds", ks.len() as u64);
    let table: Mutex<HashMap<(usize, usize, usize), Arc<Single>>> = Default::default();
    let all: Vec<(usize, usize, usize)> = (0..ks.len()).flat_map(|k| (0..n).flat_map(move |p| (0..COMMANDS.len()).map(move |c| (k, p, c)))).collect();
    mc.par(all.into_iter(), |w, (k, p, c)| {
        let mut fs = Files::new();
        put_kind(&mut fs, &format!("f{p}"), &ks[*k]);
        lay(w, &fs);
        let arg = format!("f{p}.tree");
        let mut a = COMMANDS[*c].to_vec();
        a.push(&arg);
        let out = w.run(&a);
        let s = Single { out, after: w.snapshot() };
        table.lock().unwrap().insert((*k, *p, *c), Arc::new(s));
        Ok(())
    });
    if mc.stopped() {
        return;
    }
    let table = table.into_inner().unwrap();
    let m = ks.len();
    for count in 2..=n {
        mc.par((0..m.pow(count as u32)).flat_map(|x| (0..COMMANDS.len()).map(move |c| (x, c))), |w, (x, c)| {
            w.mc.state();
            let mut x = *x;
            let mut seq = vec![];
            for _ in 0..count {
                seq.push(x % m);
                x /= m;
            }
            let mut fs = Files::new();
            for (p, k) in seq.iter().enumerate() {
                put_kind(&mut fs, &format!("f{p}"), &ks[*k]);
            }
            lay(w, &fs);
            let before = w.snapshot();
            let names: Vec<String> = (0..count).map(|p| format!("f{p}.tree")).collect();
            let mut a = COMMANDS[*c].to_vec();
            a.extend(names.iter().map(|s| s.as_str()));
            let o = w.run(&a);
            let now = w.snapshot();
            w.mc.trace();
            let singles: Vec<&Single> = seq.iter().enumerate().map(|(p, k)| &**table.get(&(*k, p, *c)).unwrap()).collect();
            w.mc.outcome(&format!("{} of {count} fail: {}", singles.iter().filter(|s| s.out.code != 0).count(), COMMANDS[*c].join(" ")));
            w.mc.sample(|| format!("{} on {:?}", a.join(" "), seq.iter().map(|k| ks[*k].name).collect::<Vec<_>>()).into());
            if let Err(e) = compare_single(COMMANDS[*c], &o, &now, &singles, &before) {
                return viol(
                    format!("{a:?} {seq:?}"),
                    format!("{e}\ncommand: bulloak {}\nfiles: {:?}\n{}\n=== after ===\n{}\n{}", a.join(" "), seq.iter().map(|k| ks[*k].name).collect::<Vec<_>>(), show_files(&before), show_files(&now), o.show()),
                );
            }
            Ok(())
        });
    }
    // any number of files
    let mut ns: Vec<usize> = (4..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
    if mc.thorough {
        ns = (4..=300).chain([511, 512, 513]).collect();
    }
    mc.bound("files_in_families", *ns.last().unwrap() as u64);
    let bads = [2usize, 5, 8, 10];
    let good = 3usize;
    let v: Vec<(usize, usize, usize, usize)> = ns.iter().rev().flat_map(|n| (0..COMMANDS.len()).flat_map(move |c| bads.into_iter().flat_map(move |k| (0..5).map(move |at| (*n, c, k, at))))).collect();
    mc.par(v.into_iter(), |w, (n, c, k, at)| {
        if *n > 70 && !w.mc.thorough && (*at == 2 || *at == 4 && *c % 3 != 1) {
            return Ok(());
        }
        w.mc.state();
        // all, the first, the middle one, the last, every second one
        let kind = |p: usize| if [true, p == 0, p == *n / 2, p + 1 == *n, p % 2 == 0][*at] { *k } else { good };
        let mut fs = Files::new();
        let mut singles = vec![];
        for p in 0..*n {
            put_kind(&mut fs, &format!("f{p}"), &ks[kind(p)]);
            let s = table.get(&(kind(p), 0, *c)).unwrap();
            let name = |t: &str| t.replace("f0.", &format!("f{p}."));
            let out = Out { stdout: name(&s.out.stdout), stderr: name(&s.out.stderr), ..s.out.clone() };
            singles.push(Single { out, after: s.after.iter().map(|(n, x)| (name(n), x.clone())).collect() });
        }
        lay(w, &fs);
        let names: Vec<String> = (0..*n).map(|p| format!("f{p}.tree")).collect();
        let mut a = COMMANDS[*c].to_vec();
        a.extend(names.iter().map(|s| s.as_str()));
        let o = w.run(&a);
        let now = w.snapshot();
        w.mc.trace();
        if let Err(e) = compare_single(COMMANDS[*c], &o, &now, &singles.iter().collect::<Vec<_>>(), &fs) {
            return viol(
                format!("{n} files, {} at {at}, {}", ks[*k].name, COMMANDS[*c].join(" ")),
                format!("{e}\ncommand: bulloak {} f0.tree ... f{}.tree: {}\n{}", COMMANDS[*c].join(" "), n - 1, (0..*n).map(|p| ks[kind(p)].name).collect::<Vec<_>>().join(", "), o.show()),
            );
        }
        Ok(())
    });
    // files of similar and of equal names in several folders
    let paths = ["a.tree", "d/a.tree", "d/d/a.tree", "e/a.tree", "d/b.tree", "b.tree", "a.b.tree", "A.tree", "aa.tree", "a/a.tree"];
    let few = [0usize, 2, 3, 5, 8];
    let (np, nk) = (paths.len(), few.len());
    let lay_paths = |seq: &[(usize, usize)]| {
        let mut fs = Files::new();
        for (p, k) in seq {
            put_kind(&mut fs, paths[*p].strip_suffix(".tree").unwrap(), &ks[*k]);
        }
        fs
    };
    let run_paths = |w: &mut Worker, seq: &[(usize, usize)], c: usize| {
        lay(w, &lay_paths(seq));
        let mut a = COMMANDS[c].to_vec();
        a.extend(seq.iter().map(|(p, _)| paths[*p]));
        let out = w.run(&a);
        w.mc.trace();
        Single { out, after: w.snapshot() }
    };
    let table2: Mutex<HashMap<(usize, usize, usize), Arc<Single>>> = Default::default();
    mc.par((0..np * nk * COMMANDS.len()).map(|x| (x % np, few[x / np % nk], x / np / nk)), |w, (p, k, c)| {
        let s = run_paths(w, &[(*p, *k)], *c);
        table2.lock().unwrap().insert((*p, *k, *c), Arc::new(s));
        Ok(())
    });
    if mc.stopped() {
        return;
    }
    let table2 = table2.into_inner().unwrap();
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![];
    for p in 0..np {
        for q in (0..np).filter(|q| *q != p) {
            for x in 0..nk * nk {
                seqs.push(vec![(p, few[x % nk]), (q, few[x / nk])]);
            }
            for r in (0..np).filter(|r| *r != p && *r != q) {
                let kinds: &[[usize; 3]] = if mc.thorough { &[[0, 0, 0], [2, 2, 2], [0, 2, 5], [8, 0, 0], [3, 2, 3]] } else { &[[0, 2, 0]] };
                seqs.extend(kinds.iter().map(|k| vec![(p, k[0]), (q, k[1]), (r, k[2])]));
            }
        }
    }
    mc.bound("paths", np as u64);
    mc.par(seqs.into_iter().flat_map(|s| (0..COMMANDS.len()).map(move |c| (s.clone(), c))), |w, (seq, c)| {
        w.mc.state();
        let m = run_paths(w, seq, *c);
        let singles: Vec<&Single> = seq.iter().map(|(p, k)| &**table2.get(&(*p, *k, *c)).unwrap()).collect();
        let before = lay_paths(seq);
        let mut model = before.clone();
        // (the folders themselves are listed, too)
        for s in &singles {
            model.extend(s.after.iter().map(|(n, x)| (n.clone(), x.clone())));
        }
        if let Err(e) = compare_single(COMMANDS[*c], &m.out, &m.after, &singles, &model) {
            let names: Vec<&str> = seq.iter().map(|(p, _)| paths[*p]).collect();
            return viol(format!("{:?} {seq:?}", COMMANDS[*c]), format!("{e}\ncommand: bulloak {} {}\n{}\n=== after ===\n{}\n{}", COMMANDS[*c].join(" "), names.join(" "), show_files(&before), show_files(&m.after), m.out.show()));
        }
        Ok(())
    });
    // the same file twice: the read-only commands say everything twice
    mc.par((0..m).flat_map(|k| [0usize, 1, 4, 5, 8].into_iter().map(move |c| (k, c))), |w, (k, c)| {
        w.mc.state();
        let mut fs = Files::new();
        put_kind(&mut fs, "f0", &ks[*k]);
        lay(w, &fs);
        let before = w.snapshot();
        let mut a = COMMANDS[*c].to_vec();
        a.extend(["f0.tree", "f0.tree"]);
        let o = w.run(&a);
        w.mc.trace();
        let s = &**table.get(&(*k, 0, *c)).unwrap();
        if let Err(e) = compare_single(COMMANDS[*c], &o, &w.snapshot(), &[s, s], &before) {
            return viol(format!("{a:?} {k}"), format!("{e}\ncommand: bulloak {}\n{}\n{}", a.join(" "), show_files(&before), o.show()));
        }
        Ok(())
    });
}

// -------------------------------------------------------------------- C23

fn seeded_env<'a>(w: &Worker, shim: &'a str, root: &'a str, seed: &'a str, time: &'a str) -> Vec<(&'static str, &'a str)> {
    let _ = w;
    // with every seed another order of threads, should there be any
    let threads = ["", "f", "r", "o"][seed.parse().unwrap_or(1usize) % 4];
    vec![("LD_PRELOAD", shim), ("MC_ROOT", root), ("MC_SEED", seed), ("MC_TIME", time), ("MC_THREADS", threads)]
}

pub fn c23(mc: &Mc) {
    let seeds = mc.pick(32u64, 256);
    *mc.rule.lock().unwrap() = format!("every command on every kind of file, on all of them in one invocation, and on every tree shape with every way to give conditions equal names, under {seeds} hash seeds, clocks and orders of threads (the process' getrandom, clocks and thread starts are controlled), from other directories and places, next to other files, after other runs, and in other environments: outputs, exit status and written files are compared byte for byte");
    mc.bound("hash_seeds", seeds);
    let shim = mc.shim.to_string_lossy().into_owned();
    let mut ks = kinds();
    let many = |t: &str| Kd { name: "many", tree: Some(t.as_bytes().to_vec()), sol: None, dir: false };
    let mut t = String::from("Root\n");
    for i in 0..12 {
        t.push_str(&format!("├── when c{}\n│   ├── it a{i}\n│   └── when n{}\n│       └── it b\n", i % 4, i % 3));
    }
    t.push_str("└── it z\n");
    ks.push(many(&t));
    let mut t = String::new();
    for i in 0..9 {
        t.push_str(&format!("K::f{i}\n├── when m{}\n│   └── when n{}\n│       └── it x\n└── when o\n    ├── it y\n    └── given p{i}\n        └── it w\n\n", i % 3, i % 2));
    }
    ks.push(many(&t));
    let mut sol = ks[ks.len() - 1].clone();
    sol.sol = Some(b"contract Nope {}".to_vec());
    ks.push(sol);
    let ks = &ks;
    let all = ks.len();
    // one item per (kind or all, command)
    let items: Vec<(usize, usize)> = (0..=all).flat_map(|k| (0..COMMANDS.len()).map(move |c| (k, c))).collect();
    mc.par(items.into_iter(), |w, (k, c)| {
        let mut fs = Files::new();
        let sel: Vec<usize> = if *k == all { (0..all).collect() } else { vec![*k] };
        for i in &sel {
            put_kind(&mut fs, &format!("f{i}"), &ks[*i]);
        }
        let names: Vec<String> = sel.iter().map(|i| format!("f{i}.tree")).collect();
        let run = |w: &Worker, fs: &Files, dir: &str, cwd: &str, pre: &str, seed: &str, time: &str| {
            w.clean();
            let d = w.dir.join(dir);
            lay_in(w, &d, fs);
            let cwd = w.dir.join(cwd);
            std::fs::create_dir_all(&cwd).unwrap();
            let pre = pre.replace("$W", &w.dir.to_string_lossy());
            let args: Vec<String> = COMMANDS[*c].iter().map(|s| s.to_string()).chain(names.iter().map(|n| format!("{pre}{n}"))).collect();
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let root = w.dir.to_string_lossy().into_owned();
            let o = w.run_env(&a, &seeded_env(w, &shim, &root, seed, time), Some(&cwd));
            let norm = |s: &str| if pre.is_empty() { s.to_string() } else { s.replace(&pre, "") };
            let mut files = Files::new();
            for (n, x) in w.snapshot() {
                let p = if dir == "." { n } else { match n.strip_prefix(&format!("{dir}/")) { Some(x) => x.to_string(), None => continue } };
                if !p.is_empty() {
                    files.insert(p, x);
                }
            }
            (Out { code: o.code, stdout: norm(&o.stdout), stderr: norm(&o.stderr) }, files)
        };
        let base = run(w, &fs, ".", ".", "", "1", "1000");
        let check = |w: &Worker, what: String, x: (Out, Files)| -> R {
            w.mc.state();
            w.mc.trace();
            if x != base {
                let d: Vec<String> = diff(&base.1, &x.1);
                return viol(
                    format!("{what} {:?} {names:?}", COMMANDS[*c]),
                    format!("{what}: the run differs from the first one\ncommand: bulloak {} {}\nfiles that differ: {d:?}\n{}=== first ===\n{}\n=== other ===\n{}", COMMANDS[*c].join(" "), names.join(" "), show_files(&fs), base.0.show(), x.0.show()),
                );
            }
            Ok(())
        };
        w.mc.outcome(&format!("{} exit {}", COMMANDS[*c].join(" "), base.0.code));
        w.mc.sample(|| format!("{} on {names:?}", COMMANDS[*c].join(" ")).into());
        let times = ["0", "86399", "1700000000", "4102444800"];
        for s in 2..=seeds {
            let x = run(w, &fs, ".", ".", "", &s.to_string(), times[(s % 4) as usize]);
            check(w, format!("hash seed {s}"), x)?;
        }
        // places
        for (dir, cwd, pre) in [("p", "p", ""), (".", "cwd", "../"), ("p q", ".", "p q/"), ("é/x.t.sol.d", "é", "x.t.sol.d/"), (".", ".", "./"), ("p", ".", "$W/p/"), ("p", "q/r", "../../p/")] {
            let mut x = run(w, &fs, dir, cwd, pre, "1", "1000");
            // directories of the place itself
            x.1.remove("cwd/");
            check(w, format!("files in {dir:?}, run in {cwd:?}"), x)?;
        }
        // neighbours
        let mut more = fs.clone();
        for (n, t) in [("foundry.toml", "[fmt]\nline_length = 40\n"), ("bulloak.toml", "skip_modifiers = true\n"), (".bulloak", "x"), ("z.tree", BAD), ("f.tree", GOOD)] {
            more.insert(n.into(), t.into());
        }
        let mut x = run(w, &more, ".", ".", "", "1", "1000");
        for n in ["foundry.toml", "bulloak.toml", ".bulloak", "z.tree", "f.tree"] {
            x.1.remove(n);
        }
        check(w, "next to other files".into(), x)?;
        // after other runs on the same files that do not write
        lay(w, &fs);
        for other in [0, 4, 5, 8] {
            let mut a = COMMANDS[other].to_vec();
            a.extend(names.iter().map(|s| s.as_str()));
            w.run(&a);
        }
        let mut a = COMMANDS[*c].to_vec();
        a.extend(names.iter().map(|s| s.as_str()));
        let o = w.run(&a);
        check(w, "after other runs".into(), (o, w.snapshot()))?;
        // in a process that doesn't come from the fork server, and in other surroundings
        for env in [&[][..], &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")], &[("TERM", "dumb"), ("COLUMNS", "20")], &[("NO_COLOR", "1"), ("FOUNDRY_PROFILE", "ci"), ("USER", "x")]] {
            w.clean();
            lay(w, &fs);
            let o = w.run_exec(&a, env, None);
            check(w, format!("a new process with the environment {env:?}"), (o, w.snapshot()))?;
        }
        Ok(())
    });
    // every way to give the conditions of a shape equal names
    let n1 = mc.pick(6, 8);
    mc.bound("nodes_of_duplicate_shapes", n1 as u64);
    mc.par((3..=n1).flat_map(rule_forests), |w, s| {
        let t = labelled(s.clone(), "Root");
        let idx: Vec<usize> = t.nodes().iter().enumerate().filter(|(_, n)| n.kind == Kind::Cond).map(|x| x.0).collect();
        if idx.len() < 2 {
            return Ok(());
        }
        // assignments of two names: every subset has the first
        for mask in 0u32..1 << idx.len() {
            let mut e = t.clone();
            for (b, i) in idx.iter().enumerate() {
                e = e.with_node(*i, |n| n.text = if mask >> b & 1 == 1 { "when same".into() } else { "given other".into() });
            }
            w.mc.state();
            let text = render(&e, &Layout::default()).text;
            w.put("a.tree", &text);
            w.del("a.t.sol");
            let root = w.dir.to_string_lossy().into_owned();
            let mut first = None;
            for seed in ["1", "2", "3", "4", "5", "6"] {
                let o = w.run_env(&["scaffold", "a.tree"], &seeded_env(w, &shim, &root, seed, "0"), None);
                w.mc.trace();
                match &first {
                    None => first = Some(o),
                    Some(f) if *f != o => {
                        return viol(&text, format!("hash seed {seed}: the run differs from the first one\n--- a.tree ---\n{text}\n=== first ===\n{}\n=== other ===\n{}", f.show(), o.show()));
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    });
}

// -------------------------------------------------------------------- C24

#[derive(Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub path: String,
    pub path2: String,
    pub fired: bool,
}

fn read_log(p: &Path) -> Vec<Ev> {
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let (_, l) = l.split_once(' ')?;
            let (op, p) = l.split_once(' ')?;
            let (p, fired) = match p.strip_suffix(" !") {
                Some(p) => (p, true),
                None => (p, false),
            };
            let (p, path2) = p.split_once('\t').unwrap_or((p, ""));
            Some(Ev { op: op.into(), path: p.into(), path2: path2.into(), fired })
        })
        .collect()
}

const EIO: &str = "e5";

/// The faults that can happen at a call, and whether they are hard.
fn faults(op: &str, all: bool) -> Vec<(&'static str, bool)> {
    let v: &[(&'static str, bool)] = match op {
        "open" => &[(EIO, true), ("e13", true), ("e2", true), ("e24", true), ("e4", false), ("e40", true), ("e12", true)],
        "create" => &[("e28", true), ("e13", true), ("e30", true), ("e24", true), ("e4", false), (EIO, true), ("e26", true), ("e1", true), ("e122", true)],
        "read" => &[(EIO, true), ("e21", true), ("e4", false), ("s", false), ("e116", true)],
        "write" => &[("e28", true), (EIO, true), ("e4", false), ("s", false), ("z", true), ("e27", true), ("e122", true)],
        "stat" => &[("e13", true), (EIO, true), ("e40", true)],
        "fstat" => &[(EIO, false), ("e75", false)],
        _ => &[(EIO, true)],
    };
    if all { v.to_vec() } else { v.iter().filter(|f| matches!(f.0, "e5" | "e28" | "e4" | "s" | "e2")).copied().collect() }
}

pub struct Scen {
    pub name: &'static str,
    pub cmd: &'static [&'static str],
    pub fs: Files,
    pub stems: Vec<String>,
}

pub fn scenarios(mc: &Mc) -> Vec<Scen> {
    let ks = kinds();
    let by = |n: &str| ks.iter().find(|k| k.name == n).unwrap().clone();
    let mut v = vec![];
    let mut add = |name, cmd, kinds: &[&str]| {
        let mut fs = Files::new();
        let mut stems = vec![];
        for (i, k) in kinds.iter().enumerate() {
            put_kind(&mut fs, &format!("f{i}"), &by(k));
            stems.push(format!("f{i}"));
        }
        fs.insert("bystander.t.sol".into(), b"contract B {}".to_vec());
        v.push(Scen { name, cmd, fs, stems });
    };
    add("print", &["scaffold"], &["fresh", "multi", "fresh"]);
    add("write", &["scaffold", "-w"], &["fresh", "edited", "fresh"]);
    add("overwrite", &["scaffold", "-w", "-f"], &["edited", "fresh", "multi"]);
    add("check", &["check"], &["complete", "partial", "edited"]);
    add("check clean", &["check"], &["complete", "complete", "complete"]);
    add("fix", &["check", "--fix"], &["partial", "complete", "multi"]);
    add("fix and print", &["check", "--fix", "--stdout"], &["partial", "edited", "complete"]);
    add("fix next to a failure", &["check", "--fix"], &["bad", "partial", "empty sol"]);
    add("overwrite next to failures", &["scaffold", "-w", "-f"], &["bad", "partial", "no tree"]);
    if mc.thorough {
        add("fix without modifiers", &["check", "--fix", "-m"], &["multi", "edited", "empty sol"]);
        add("write four", &["scaffold", "-w", "-S", "-m"], &["fresh", "duplicate", "fresh", "multi"]);
        add("check four", &["check", "-m"], &["partial", "broken sol", "complete", "multi"]);
    }
    v
}

pub fn run_faulty(w: &Worker, s: &Scen, shim: &str, spec: &str) -> (Out, Files, Vec<Ev>) {
    lay(w, &s.fs);
    let log = w.mc.scratch.join(format!("log{}", w.n));
    let _ = std::fs::remove_file(&log);
    let names: Vec<String> = s.stems.iter().map(|n| format!("{n}.tree")).collect();
    let mut a = s.cmd.to_vec();
    a.extend(names.iter().map(|s| s.as_str()));
    let root = w.dir.to_string_lossy().into_owned();
    let log_s = log.to_string_lossy().into_owned();
    let o = w.run_env(&a, &[("LD_PRELOAD", shim), ("MC_ROOT", &root), ("MC_LOG", &log_s), ("MC_FAULTS", spec), ("MC_SEED", "1")], None);
    (o, w.snapshot(), read_log(&log))
}

/// The parts of an output that concern one file.
fn about(cmd: &[&str], o: &Out, base: &Out, stem: &str) -> String {
    let _ = base;
    if cmd[0] == "scaffold" {
        let mut v = vec![];
        // the report of a file is the text up to its `file:` line
        let mut cur = vec![];
        for l in o.stderr.lines() {
            if let Some(f) = l.strip_prefix("file: ") {
                if f == format!("{stem}.tree") {
                    v.push(cur.join("\n"));
                }
                cur.clear();
            } else if l.contains("Skipped emitting") {
                if l.contains(&format!("\"{stem}.t.sol\"")) {
                    v.push(l.to_string());
                }
            } else if l.contains("file already exists") {
            } else {
                cur.push(l);
            }
        }
        return v.join("\n");
    }
    let r = report(o);
    let mine = |p: &str| p.split(':').next().map(|p| p.trim_end_matches(".t.sol").trim_end_matches(".tree") == stem).unwrap_or(false);
    let mut v: Vec<String> = r.viols.iter().filter(|v| v.loc.as_deref().is_some_and(mine)).map(|v| format!("{v:?}")).collect();
    v.sort();
    v.extend(blocks(&o.stdout).into_iter().filter(|b| mine(&b.0)).map(|b| b.1));
    v.join("\n")
}

fn judge_faulty(w: &Worker, s: &Scen, spec: &str, hard_of: &dyn Fn(usize) -> Option<bool>, base: &(Out, Files, Vec<Ev>), prints: &BTreeMap<String, String>, x: (Out, Files, Vec<Ev>)) -> R {
    let (o, now, log) = x;
    w.mc.trace();
    let mut before = s.fs.clone();
    before.extend(base.1.iter().filter(|(n, _)| n.ends_with('/')).map(|(n, c)| (n.clone(), c.clone())));
    let show = || {
        format!(
            "scenario: {} (bulloak {} {})\nfaults: {spec}\ncalls:\n{}\n{}\n=== after ===\n{}\n{}\n=== without faults ===\n{}",
            s.name,
            s.cmd.join(" "),
            s.stems.join(" "),
            log.iter().enumerate().map(|(i, e)| format!("{i} {} {}{}\n", e.op, e.path, if e.fired { "  <- fault" } else { "" })).collect::<String>(),
            show_files(&before),
            show_files(&now),
            o.show(),
            base.0.show()
        )
    };
    let fail = |m: String| viol(format!("{} {spec}", s.name), format!("{m}\n{}", show()));
    let mut hit: BTreeSet<String> = Default::default();
    let mut writing: BTreeSet<String> = Default::default();
    for (i, e) in log.iter().enumerate() {
        if e.fired && hard_of(i) == Some(true) {
            let p = e.path.trim_start_matches("./").to_string();
            let stem = p.trim_end_matches(".t.sol").trim_end_matches(".tree").to_string();
            hit.insert(stem);
            if !matches!(e.op.as_str(), "open" | "read" | "stat" | "fstat") {
                writing.insert(p);
            }
        }
    }
    w.mc.outcome(&format!("{}: {} files hit, exit {}", s.name, hit.len(), o.code));
    if o.crashed() {
        return fail("the command crashed".into());
    }
    if hit.is_empty() {
        if o != base.0 || now != base.1 {
            return fail("an interrupted or partial call changes the outcome".into());
        }
        return Ok(());
    }
    if o.code == 0 {
        return fail("exit status 0 although a file could not be read or written".into());
    }
    for stem in &hit {
        if !o.stderr.contains(&format!("{stem}.")) {
            return fail(format!("stderr does not mention {stem}"));
        }
    }
    // files
    for n in diff(&before, &now).into_iter().chain(diff(&base.1, &now)) {
        let stem = n.trim_end_matches(".t.sol").trim_end_matches(".tree").to_string();
        if writing.contains(&n) {
            if now.contains_key(&n) || !before.contains_key(&n) {
                continue;
            }
        }
        let want = if hit.contains(&stem) { before.get(&n) } else { base.1.get(&n) };
        // a hit file may have been done before the fault (e.g. given twice)
        if now.get(&n) != want && !(hit.contains(&stem) && now.get(&n) == base.1.get(&n)) {
            return fail(format!("{n} is not what it should be"));
        }
        if hit.contains(&stem) && !writing.contains(&n) && now.get(&n) != before.get(&n) {
            return fail(format!("{n} was changed although it could not be processed"));
        }
    }
    // the other files are processed as ever
    for stem in &s.stems {
        if hit.contains(stem) {
            continue;
        }
        let (a, b) = (about(s.cmd, &o, &base.0, stem), about(s.cmd, &base.0, &base.0, stem));
        if a != b {
            return fail(format!("{stem} is not treated as without the fault:\n{a}\ninstead of\n{b}"));
        }
    }
    if s.cmd[0] == "scaffold" {
        let want: String = s.stems.iter().filter(|n| !hit.contains(*n)).filter_map(|n| prints.get(n).cloned()).collect();
        if o.stdout != want {
            return fail(format!("the printed code should be\n{want}"));
        }
    }
    Ok(())
}

pub fn c24(mc: &Mc) {
    *mc.rule.lock().unwrap() = "for 9 (thorough: 12) invocations on 3 (4) files: every file-system call of the run x every fault of its kind (errno, interruption, short transfer, zero write), and every pair of calls x their main faults, by interposing the C library; plus directories, dangling links, loops, missing directories and a full device in the place of trees and outputs".into();
    mc.assume("faults when closing files and when writing to stderr are not injected");
    let shim = mc.shim.to_string_lossy().into_owned();
    if !mc.shim.exists() {
        panic!("no shim at {}", mc.shim.display());
    }
    let sc = scenarios(mc);
    mc.bound("scenarios", sc.len() as u64);
    for s in &sc {
        if mc.stopped() {
            return;
        }
        let base: Mutex<Option<(Out, Files, Vec<Ev>)>> = Default::default();
        let prints: Mutex<BTreeMap<String, String>> = Default::default();
        mc.one("baseline", |w| {
            let b = run_faulty(w, s, &shim, "");
            // the shim itself changes nothing
            lay(w, &s.fs);
            let names: Vec<String> = s.stems.iter().map(|n| format!("{n}.tree")).collect();
            let mut a = s.cmd.to_vec();
            a.extend(names.iter().map(|s| s.as_str()));
            let plain = w.run(&a);
            if plain != b.0 || w.snapshot() != b.1 {
                return viol(s.name, format!("the run differs from one without interposition\n{}\n{}", b.0.show(), plain.show()));
            }
            if b.2.is_empty() {
                panic!("no calls were intercepted");
            }
            if s.cmd == ["scaffold"] {
                for n in &s.stems {
                    let f = format!("{n}.tree");
                    let o = w.run(&["scaffold", &f]);
                    prints.lock().unwrap().insert(n.clone(), o.stdout);
                }
            }
            *base.lock().unwrap() = Some(b);
            Ok(())
        });
        if mc.stopped() {
            return;
        }
        let base = base.into_inner().unwrap().unwrap();
        let prints = prints.into_inner().unwrap();
        let calls: Vec<String> = base.2.iter().map(|e| e.op.clone()).collect();
        let mut items: Vec<Vec<(usize, &'static str, bool)>> = vec![];
        for (i, op) in calls.iter().enumerate() {
            for (k, h) in faults(op, true) {
                items.push(vec![(i, k, h)]);
            }
        }
        mc.par(items.into_iter(), |w, f| {
            w.mc.state();
            let spec = f.iter().map(|(i, k, _)| format!("{i}:{k}")).collect::<Vec<_>>().join(",");
            w.mc.sample(|| format!("{}: {spec}", s.name).into());
            let x = run_faulty(w, s, &shim, &spec);
            let hard = |i: usize| f.iter().find(|y| y.0 == i).map(|y| y.2);
            judge_faulty(w, s, &spec, &hard, &base, &prints, x)
        });
        // pairs: the second call is one of the run that the first fault left
        let firsts: Vec<(usize, &'static str, bool)> = calls.iter().enumerate().flat_map(|(i, op)| faults(op, mc.thorough).into_iter().map(move |(k, h)| (i, k, h))).collect();
        mc.par(firsts.into_iter(), |w, (i, k, h)| {
            let one = format!("{i}:{k}");
            let (_, _, log) = run_faulty(w, s, &shim, &one);
            for (j, e) in log.iter().enumerate().skip(i + 1) {
                for (k2, h2) in faults(&e.op, w.mc.thorough) {
                    w.mc.state();
                    let spec = format!("{one},{j}:{k2}");
                    let x = run_faulty(w, s, &shim, &spec);
                    let hard = |n: usize| if n == *i { Some(*h) } else if n == j { Some(h2) } else { None };
                    judge_faulty(w, s, &spec, &hard, &base, &prints, x)?;
                }
            }
            Ok(())
        });
    }
    real_faults(mc);
}

/// Faults that the file system itself produces.
fn real_faults(mc: &Mc) {
    let bads = ["directory", "missing", "dangling", "loop", "not text", "no directory", "under a file", "too long"];
    let mut v = vec![];
    for b in bads {
        for pos in 0..3usize {
            for c in 0..COMMANDS.len() {
                v.push((b, pos, c, false));
                v.push((b, pos, c, true));
            }
        }
    }
    mc.par(v.into_iter(), |w, (bad, pos, c, sol)| {
        let cmd = COMMANDS[*c];
        let scaffold = cmd[0] == "scaffold";
        let writes = cmd.contains(&"-w");
        if *sol && (matches!(*bad, "no directory" | "under a file" | "too long") || (scaffold && !writes)) {
            return Ok(());
        }
        // what stands in the way of the output only matters when it is written
        let matters = if *sol { !scaffold || (*bad == "directory" && cmd.contains(&"-f")) || *bad == "loop" } else { true };
        let partial = kinds()[2].clone();
        w.clean();
        let mut fs = Files::new();
        let mut names: Vec<String> = vec![];
        for i in 0..3 {
            names.push(format!("f{i}.tree"));
            if i == *pos && !*sol {
                continue;
            }
            put_kind(&mut fs, &format!("f{i}"), &partial);
            if (i == *pos && *sol) || (scaffold && writes && !cmd.contains(&"-f")) {
                fs.remove(&format!("f{i}.t.sol"));
            }
        }
        lay_in(w, &w.dir, &fs);
        let target = w.dir.join(format!("f{pos}.{}", if *sol { "t.sol" } else { "tree" }));
        match *bad {
            "directory" => std::fs::create_dir(&target).unwrap(),
            "missing" => {}
            "dangling" => std::os::unix::fs::symlink("nowhere/x", &target).unwrap(),
            "loop" => std::os::unix::fs::symlink(target.file_name().unwrap(), &target).unwrap(),
            "not text" => std::fs::write(&target, [0xffu8, 0xfe, 0x00]).unwrap(),
            "no directory" => names[*pos] = format!("nodir/f{pos}.tree"),
            "under a file" => names[*pos] = format!("f{}.tree/f{pos}.tree", (pos + 1) % 3),
            _ => names[*pos] = format!("{}f{pos}.tree", "x".repeat(300)),
        }
        if *sol && scaffold && matches!(*bad, "missing" | "dangling" | "not text" | "directory") && !matters {
            return Ok(());
        }
        let before = links(w);
        let mut a = cmd.to_vec();
        a.extend(names.iter().map(|s| s.as_str()));
        let o = w.run(&a);
        let now = links(w);
        w.mc.state();
        w.mc.trace();
        w.mc.outcome(&format!("{bad}: exit {}", o.code));
        let log = format!("{bad} in the place of {}\ncommand: bulloak {}\n{}", target.file_name().unwrap().to_string_lossy(), a.join(" "), o.show());
        let fail = |m: String| viol(format!("{bad} {pos} {cmd:?} {sol}"), format!("{m}\n{log}"));
        if o.crashed() {
            return fail("the command crashed".into());
        }
        if o.code == 0 {
            return fail("exit status 0 although a file could not be read or written".into());
        }
        if !o.stderr.contains(&format!("f{pos}.")) {
            return fail(format!("stderr does not mention f{pos}"));
        }
        let mine: Vec<String> = before.keys().chain(now.keys()).filter(|n| before.get(*n) != now.get(*n)).cloned().collect();
        let may = writes || (cmd.contains(&"--fix") && !cmd.contains(&"--stdout"));
        for i in (0..3).filter(|i| i != pos) {
            let out = format!("f{i}.t.sol");
            if may && !mine.contains(&out) {
                return fail(format!("{out} was not written"));
            }
        }
        for n in mine {
            let others: Vec<String> = (0..3).filter(|i| i != pos).map(|i| format!("f{i}.t.sol")).collect();
            if !may || !others.contains(&n) {
                return fail(format!("{n} was changed"));
            }
        }
        // the others appear in the output
        if !may {
            for i in (0..3).filter(|i| i != pos) {
                let all = format!("{}{}", o.stdout, o.stderr);
                let seen = if scaffold { o.stdout.matches("contract Root").count() == 2 } else { all.contains(&format!("f{i}.")) };
                if !seen {
                    return fail(format!("f{i} was not processed"));
                }
            }
        }
        Ok(())
    });
    // a byte that is not text, at every place
    let mut whole = Files::new();
    put_kind(&mut whole, "f0", &kinds()[2]);
    put_kind(&mut whole, "f1", &kinds()[2]);
    let mut v: Vec<(bool, usize, usize, u8)> = vec![];
    for sol in [false, true] {
        for at in 0..=whole[if sol { "f0.t.sol" } else { "f0.tree" }].len() {
            for c in 0..COMMANDS.len() {
                for b in [0xffu8, 0xc3] {
                    v.push((sol, at, c, b));
                }
            }
        }
    }
    mc.par(v.into_iter(), |w, (sol, at, c, b)| {
        let cmd = COMMANDS[*c];
        if *sol && cmd[0] == "scaffold" {
            return Ok(()); // does not read it
        }
        let name = if *sol { "f0.t.sol" } else { "f0.tree" };
        let mut fs = whole.clone();
        let x = fs.get_mut(name).unwrap();
        x.insert(*at, *b);
        if std::str::from_utf8(x).is_ok() {
            return Ok(());
        }
        w.mc.state();
        lay(w, &fs);
        let mut a = cmd.to_vec();
        a.extend(["f0.tree", "f1.tree"]);
        let o = w.run(&a);
        let now = w.snapshot();
        w.mc.trace();
        let fail = |m: String| viol(format!("{sol} {at} {b} {cmd:?}"), format!("{m}\nthe byte {b:#x} was inserted into {name} at {at}\ncommand: bulloak {}\n{}\n{}", a.join(" "), show_files(&fs), o.show()));
        if o.crashed() || o.code == 0 || !o.stderr.contains("f0.") {
            return fail("a file that is not text is not reported".into());
        }
        for n in diff(&fs, &now) {
            if n.starts_with("f0") {
                return fail(format!("{n} was changed"));
            }
        }
        Ok(())
    });
    // a full device
    mc.one("full device", |w| {
        for cmd in [&["scaffold", "-w", "-f"][..], &["check", "--fix"]] {
            w.mc.state();
            w.clean();
            let mut fs = Files::new();
            for i in 0..3 {
                put_kind(&mut fs, &format!("f{i}"), &kinds()[2]);
            }
            lay_in(w, &w.dir, &fs);
            if cmd[0] == "scaffold" {
                std::fs::remove_file(w.dir.join("f1.t.sol")).unwrap();
                std::os::unix::fs::symlink("/dev/full", w.dir.join("f1.t.sol")).unwrap();
            } else {
                continue;
            }
            let mut a = cmd.to_vec();
            a.extend(["f0.tree", "f1.tree", "f2.tree"]);
            let o = w.run(&a);
            w.mc.trace();
            if o.crashed() || o.code == 0 || !o.stderr.contains("f1.") {
                return viol("full", format!("a full device is not reported\n{}", o.show()));
            }
            for n in ["f0.t.sol", "f2.t.sol"] {
                if !w.get(n).unwrap_or_default().contains("contract Root") {
                    return viol("full", format!("{n} was not written\n{}", o.show()));
                }
            }
        }
        Ok(())
    });
    // stdout that takes nothing
    let ks = kinds();
    mc.par((0..ks.len()).flat_map(|k| (0..COMMANDS.len()).flat_map(move |c| [0, 2, 3].into_iter().map(move |s: usize| (k, c, s)))), |w, (k, c, s)| {
        use std::process::{Command, Stdio};
        w.mc.state();
        let mut fs = Files::new();
        for i in 0..3 {
            put_kind(&mut fs, &format!("f{i}"), &ks[if i == 1 { *k } else { 2 }]);
        }
        lay(w, &fs);
        let mut a = COMMANDS[*c].to_vec();
        a.extend(["f0.tree", "f1.tree", "f2.tree"]);
        let base = w.run(&a);
        let done = w.snapshot();
        lay(w, &fs);
        let out = match s {
            0 | 1 => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
            2 => {
                // nobody reads
                let mut p = [0; 2];
                assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
                unsafe { libc::close(p[0]) };
                unsafe { <Stdio as std::os::fd::FromRawFd>::from_raw_fd(p[1]) }
            }
            // can't be written
            _ => Stdio::from(std::fs::File::open("/dev/null").unwrap()),
        };
        let o = Command::new(&w.mc.bin).args(&a).current_dir(&w.dir).env_clear().stdin(Stdio::null()).stdout(out).stderr(Stdio::piped()).output().unwrap();
        let now = w.snapshot();
        w.mc.trace();
        w.mc.step();
        let text = format!("command: bulloak {} with stdout {}\n{:?}\n{}", a.join(" "), ["on a full device", "on a full device", "as a pipe that nobody reads", "open for reading only"][*s], o.status, String::from_utf8_lossy(&o.stderr));
        let fail = |m: &str| viol(format!("stdout {s} {k} {c}"), format!("{m}\n{text}"));
        for n in diff(&fs, &now) {
            if now.get(&n) != done.get(&n) {
                return fail(&format!("{n} was changed into something else than with a usable stdout"));
            }
        }
        // std takes EBADF for a sink, as if stdout were closed
        if *s != 3 && !base.stdout.is_empty() && (o.status.code() == Some(0) || o.stderr.is_empty()) {
            return fail("what could not be printed is passed off as success");
        }
        if base.stdout.is_empty() && (now != done || o.status.code() != Some(base.code)) {
            return fail("the outcome depends on a stdout that nothing is printed to");
        }
        w.mc.outcome(&format!("stdout broken: {}", if base.stdout.is_empty() { "not needed" } else { "reported" }));
        Ok(())
    });
    let _ = K::BadSol;
}

/// A snapshot that does not follow links.
fn links(w: &Worker) -> Files {
    let mut m = Files::new();
    for e in std::fs::read_dir(&w.dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let t = e.file_type().unwrap();
        if t.is_symlink() {
            m.insert(n, std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes());
        } else if t.is_dir() {
            m.insert(n, format!("{:?}", std::fs::read_dir(e.path()).unwrap().flatten().map(|x| x.file_name()).collect::<Vec<_>>()).into_bytes());
        } else {
            m.insert(n, std::fs::read(e.path()).unwrap());
        }
    }
    m
}
