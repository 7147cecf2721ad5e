//! C28: runs that are killed at any call; C29: runs at the same time, under a
//! scheduler that decides whose file-system call is next.
use crate::p_ws::*;
use crate::rt::*;
use std::collections::{BTreeMap, BTreeSet};

// -------------------------------------------------------------------- C28

fn command(s: &Scen) -> Vec<String> {
    s.cmd.iter().map(|x| x.to_string()).chain(s.stems.iter().map(|n| format!("{n}.tree"))).collect()
}

struct Crash<'a> {
    s: &'a Scen,
    base: &'a (Out, Files, Vec<Ev>),
}

impl Crash<'_> {
    fn writes(&self) -> bool {
        self.s.cmd.contains(&"-w") || (self.s.cmd.contains(&"--fix") && !self.s.cmd.contains(&"--stdout"))
    }

    fn show(&self, what: &str, before: &Files, now: &Files, o: &Out) -> String {
        format!("bulloak {} {what}\n=== before ===\n{}\n=== after ===\n{}\n{}", command(self.s).join(" "), show_files(before), show_files(now), o.show())
    }

    /// The files after a crash; returns the one that is torn.
    fn judge(&self, what: &str, before: &Files, now: &Files, o: &Out) -> Result<Option<String>, Viol> {
        let fail = |m: String| viol(format!("{} {what}", self.s.name), format!("{m}\n{}", self.show(what, before, now, o)));
        let done = &self.base.1;
        let mut torn = None;
        let names: BTreeSet<&String> = before.keys().chain(now.keys()).chain(done.keys()).collect();
        for n in names {
            let x = now.get(n);
            if x == before.get(n) || x == done.get(n) {
                continue;
            }
            let output = self.writes() && self.s.stems.iter().any(|s| *n == format!("{s}.t.sol"));
            if !output {
                return fail(format!("{n} is damaged")).map(|()| None);
            }
            match (x, done.get(n)) {
                (Some(x), Some(d)) if d.starts_with(x) => {}
                // on the way to be replaced
                (None, Some(_)) => {}
                _ => return fail(format!("{n} is neither as it was nor a part of what it should become")).map(|()| None),
            }
            if let Some(t) = torn.replace(n.clone()) {
                return fail(format!("both {t} and {n} are incomplete")).map(|()| None);
            }
        }
        Ok(torn)
    }

    /// What running the command again makes of the files left by a crash.
    fn again(&self, what: &str, left: &Files, torn: &[String], o: &Out, now: &Files) -> R {
        let fail = |m: String| viol(format!("{} {what}", self.s.name), format!("{m}\n{}", self.show(&format!("again, after having been {what}"), left, now, o)));
        let done = &self.base.1;
        if o.crashed() {
            return fail("the command crashes on what was left".into());
        }
        let force = self.s.cmd.contains(&"-f");
        let fix = self.s.cmd.contains(&"--fix");
        let names: BTreeSet<&String> = left.keys().chain(now.keys()).chain(done.keys()).collect();
        for n in names {
            let want = if self.writes() && !force && !fix && left.contains_key(n) {
                left.get(n)
            } else if fix && torn.contains(n) {
                continue;
            } else {
                done.get(n)
            };
            if now.get(n) != want {
                return fail(format!("{n} is not what it should be in the end"));
            }
        }
        if (force || !self.writes()) && *o != self.base.0 {
            return fail(format!("the outcome is not the one of a run that isn't interrupted\n{}", self.base.0.show()));
        }
        Ok(())
    }
}

fn with_dirs(fs: &Files, other: &Files) -> Files {
    let mut m = fs.clone();
    m.extend(other.iter().filter(|(n, _)| n.ends_with('/')).map(|(n, c)| (n.clone(), c.clone())));
    m
}

pub fn c28(mc: &Mc) {
    *mc.rule.lock().unwrap() = "for 9 (thorough: 12) invocations on 3 (4) files: the process is killed before every file-system call and after every number of bytes (quick: 8 numbers) of every write; the files left are judged, then the command is run again, and (for the whole-call kills) killed again at every call of that run, and run a third time".into();
    mc.assume("the data that was written before the kill reaches the file (power failures that lose pages are not modelled)");
    let shim = mc.shim.to_string_lossy().into_owned();
    for s in &scenarios(mc) {
        if mc.stopped() {
            return;
        }
        let base: std::sync::Mutex<Option<(Out, Files, Vec<Ev>)>> = Default::default();
        mc.one("baseline", |w| {
            *base.lock().unwrap() = Some(run_faulty(w, s, &shim, ""));
            Ok(())
        });
        if mc.stopped() {
            return;
        }
        let base = base.into_inner().unwrap().unwrap();
        let mut items: Vec<(usize, String)> = vec![];
        for (i, e) in base.2.iter().enumerate() {
            items.push((i, "k".into()));
            if e.op == "write" {
                let n = base.1.get(e.path.trim_start_matches("./")).map_or(0, |c| c.len());
                let some = [1, 2, 3, n / 4, n / 3, n / 2, n.saturating_sub(1), n];
                for k in 1..=n {
                    if mc.thorough || some.contains(&k) {
                        items.push((i, format!("t{k}")));
                    }
                }
            }
        }
        mc.par(items.into_iter(), |w, (i, k)| {
            let c = Crash { s, base: &base };
            w.mc.state();
            let spec = format!("{i}:{k}");
            w.mc.sample(|| format!("{}: {spec}", s.name).into());
            let (o, now, _) = run_faulty(w, s, &shim, &spec);
            w.mc.trace();
            let before = with_dirs(&s.fs, &base.1);
            let what = format!("killed at call {i} ({} {}, {k})", base.2[*i].op, base.2[*i].path);
            if o.code != 1009 {
                return viol(&what, format!("the process was not killed\n{}", c.show(&what, &before, &now, &o)));
            }
            let torn = c.judge(&what, &before, &now, &o)?;
            w.mc.outcome(&format!("{}: {}", s.name, if torn.is_some() { "incomplete output" } else { "whole files" }));
            let second = Scen { name: s.name, cmd: s.cmd, fs: now.clone(), stems: s.stems.clone() };
            let (o2, end, log2) = run_faulty(w, &second, &shim, "");
            let torn: Vec<String> = torn.into_iter().collect();
            c.again(&what, &now, &torn, &o2, &end)?;
            // killed again while it makes up for it
            if k != "k" && !w.mc.thorough {
                return Ok(());
            }
            let fix = s.cmd.contains(&"--fix");
            for j in 0..log2.len() {
                w.mc.state();
                let (o3, left, _) = run_faulty(w, &second, &shim, &format!("{j}:k"));
                w.mc.trace();
                let what = format!("{what} and again at call {j}");
                // what isn't torn by either
                let mut torn2 = torn.clone();
                let skip: BTreeMap<_, _> = now.iter().filter(|(n, _)| torn.contains(n)).map(|(n, c)| (n.clone(), c.clone())).collect();
                if fix {
                    // a torn contract may be mended in any way
                    let hide = |f: &Files| f.iter().filter(|(n, _)| !skip.contains_key(*n)).map(|(n, c)| (n.clone(), c.clone())).collect::<Files>();
                    let b2 = (base.0.clone(), hide(&base.1), vec![]);
                    let c2 = Crash { s, base: &b2 };
                    torn2.extend(c2.judge(&what, &hide(&before), &hide(&left), &o3)?);
                } else {
                    torn2.extend(c.judge(&what, &now, &left, &o3)?);
                }
                let third = Scen { name: s.name, cmd: s.cmd, fs: left.clone(), stems: s.stems.clone() };
                let (o4, end, _) = run_faulty(w, &third, &shim, "");
                c.again(&what, &left, &torn2, &o4, &end)?;
            }
            Ok(())
        });
    }
}

// -------------------------------------------------------------------- C29

const RUNS: &[&[&str]] = &[&["scaffold"], &["scaffold", "-m", "-S"], &["scaffold", "-w"], &["scaffold", "-w", "-f"], &["check"], &["check", "--fix"], &["check", "--fix", "--stdout"], &["check", "--fix", "-m"]];

fn independent(a: &Call, b: &Call) -> bool {
    let reads = |c: &Call| matches!(c.op.as_str(), "open" | "read" | "stat" | "fstat" | "fsync");
    let plain = |c: &Call| reads(c) || matches!(c.op.as_str(), "create" | "write" | "truncate");
    let norm = |p: &str| p.trim_start_matches("./").to_string();
    if reads(a) && reads(b) {
        return true;
    }
    plain(a) && plain(b) && norm(&a.path) != norm(&b.path)
}

struct Node {
    calls: Vec<Option<Call>>,
    sleep: Vec<bool>,
    tried: Vec<bool>,
    chosen: usize,
}

/// All the schedules of the commands, up to the order of independent calls
/// unless `full`. Gives each complete one to `judge`; returns their number.
fn schedules(w: &mut Worker, cmds: &[Vec<String>], fs: &Files, full: bool, judge: &mut dyn FnMut(&mut Worker, &[(usize, Call)], Vec<Out>, Files) -> R) -> Result<usize, Viol> {
    let n = cmds.len();
    let mut path: Vec<Node> = vec![];
    let mut complete = 0;
    loop {
        lay(w, fs);
        let mut depth = 0;
        let mut done: Vec<(usize, Call)> = vec![];
        let args: Vec<Vec<&str>> = cmds.iter().map(|c| c.iter().map(|s| s.as_str()).collect()).collect();
        let mut odd = None;
        let outs = w.run_together(&args, &mut |calls| {
            if depth == path.len() {
                let sleep: Vec<bool> = match path.last() {
                    None => vec![false; n],
                    Some(p) => {
                        let by = p.calls[p.chosen].as_ref().unwrap();
                        (0..n).map(|q| !full && q != p.chosen && (p.sleep[q] || p.tried[q]) && p.calls[q].as_ref().is_some_and(|c| independent(c, by))).collect()
                    }
                };
                // a process that waits for a lock lets the others go on
                let stuck = |q: usize| calls[q].as_ref().is_some_and(|c| c.op == "lock") && done.last().is_some_and(|(p, c)| *p == q && Some(c) == calls[q].as_ref());
                let mut can: Vec<usize> = (0..n).filter(|q| calls[*q].is_some() && !sleep[*q] && !stuck(*q)).collect();
                if can.is_empty() && !(0..n).any(|q| calls[q].is_some() && sleep[q]) {
                    can = (0..n).filter(|q| calls[*q].is_some()).collect();
                }
                let chosen = *can.first()?;
                path.push(Node { calls: calls.to_vec(), sleep, tried: vec![false; n], chosen });
            } else if path[depth].calls != calls {
                odd = Some(format!("{:?} instead of {calls:?}", path[depth].calls));
                return None;
            }
            let c = path[depth].chosen;
            depth += 1;
            done.push((c, calls[c].clone().unwrap()));
            Some(c)
        });
        if let Some(o) = odd {
            return viol(format!("{cmds:?}"), format!("the same schedule leads to other file-system calls: {o}\n{cmds:?}")).map(|()| 0);
        }
        if let Some(outs) = outs {
            complete += 1;
            let files = w.snapshot();
            judge(w, &done, outs, files)?;
        }
        // the next schedule
        loop {
            let Some(p) = path.last_mut() else { return Ok(complete) };
            p.tried[p.chosen] = true;
            let (calls, tried, sleep) = (&p.calls, &p.tried, &p.sleep);
            match (0..n).find(|q| calls[*q].is_some() && !tried[*q] && !sleep[*q]) {
                Some(q) => {
                    p.chosen = q;
                    break;
                }
                None => {
                    path.pop();
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Case {
    cmds: Vec<Vec<String>>,
    fs: Files,
    full: bool,
    /// The runs may write the same file.
    same: bool,
}

fn run_one(w: &mut Worker, c: &Case, order: &[usize]) -> (Vec<Option<Out>>, Files) {
    lay(w, &c.fs);
    let mut outs = vec![None; c.cmds.len()];
    for i in order {
        let a: Vec<&str> = c.cmds[*i].iter().map(|s| s.as_str()).collect();
        let root = w.dir.to_string_lossy().into_owned();
        let tmp = format!("{root}/tmp");
        outs[*i] = Some(w.run_env(&a, &[("TMPDIR", &tmp), ("MC_ROOT", &root), ("MC_SEED", "1")], None));
    }
    (outs, w.snapshot())
}

fn judge_case(w: &mut Worker, c: &Case) -> R {
    let n = c.cmds.len();
    // what each of them does alone
    let mut outs: Vec<Vec<Out>> = vec![vec![]; n];
    let mut ends: Vec<Files> = vec![];
    if c.same {
        let orders: Vec<Vec<usize>> = if n == 2 { vec![vec![0, 1], vec![1, 0]] } else { vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]] };
        for o in orders {
            let (x, e) = run_one(w, c, &o);
            for (i, x) in x.into_iter().enumerate() {
                outs[i].extend(x);
            }
            ends.push(e);
        }
    } else {
        let start = { lay(w, &c.fs); w.snapshot() };
        let mut end = start.clone();
        for i in 0..n {
            let (x, e) = run_one(w, c, &[i]);
            outs[i].extend(x.into_iter().flatten());
            for d in diff(&start, &e) {
                match e.get(&d) {
                    Some(x) => end.insert(d, x.clone()),
                    None => end.remove(&d),
                };
            }
        }
        ends.push(end);
    }
    let show_cmds = c.cmds.iter().map(|c| format!("bulloak {}", c.join(" "))).collect::<Vec<_>>().join("\nbulloak ");
    let mut calls = 0;
    let k = schedules(w, &c.cmds, &c.fs, c.full, &mut |w, trace, got, now| {
        w.mc.state();
        w.mc.trace();
        calls = calls.max(trace.len());
        let show = |m: String| {
            let t: String = trace.iter().map(|(p, c)| format!("{}: {} {} {}\n", p + 1, c.op, c.path, c.path2)).collect();
            let o: String = got.iter().enumerate().map(|(i, o)| format!("=== run {} ===\n{}\n", i + 1, o.show())).collect();
            let e: String = outs.iter().enumerate().map(|(i, o)| format!("=== run {} on its own ===\n{}\n", i + 1, o[0].show())).collect();
            viol(&show_cmds, format!("{m}\nat the same time: bulloak {show_cmds}\n{}\n=== calls, in their order ===\n{t}{o}=== files ===\n{}\n{e}=== files expected ===\n{}", show_files(&c.fs), show_files(&now), show_files(&ends[0])))
        };
        for (i, o) in got.iter().enumerate() {
            if !outs[i].contains(o) {
                return show(format!("run {} doesn't do what it does on its own", i + 1));
            }
        }
        if !ends.contains(&now) {
            return show("the files are not as after runs one by one".into());
        }
        Ok(())
    })?;
    w.mc.outcome(&format!("{} runs{}{}: {k} schedules of {calls} calls", n, if c.same { " on the same output" } else { "" }, if c.full { ", unreduced" } else { "" }));
    Ok(())
}

pub fn c29(mc: &Mc) {
    *mc.rule.lock().unwrap() = "pairs of runs of 8 commands on different trees (4 pairs of names, 5x5 states of the files), on the same tree as long as neither reads what the other writes, pairs (thorough: triples) of scaffold -w runs on one tree: every interleaving of their file-system calls up to the order of independent calls (sleep sets), some pairs with every interleaving; each run does what it does on its own".into();
    mc.assume("calls that don't touch the same file commute; the kernel executes each call atomically");
    let ks = kinds();
    let by = |n: &str| ks.iter().find(|k| k.name == n).unwrap();
    let with = |cmd: &[&str], files: &[&str]| cmd.iter().map(|s| s.to_string()).chain(files.iter().map(|f| format!("{f}.tree"))).collect::<Vec<String>>();
    let mut v: Vec<Case> = vec![];
    let states = ["fresh", "partial", "complete", "bad", "multi"];
    for (p, (a, b)) in [("x", "y"), ("a", "a.b"), ("p/a", "q/a"), ("a", "A")].into_iter().enumerate() {
        for ka in states {
            for kb in states {
                for (i, ca) in RUNS.iter().enumerate() {
                    for (j, cb) in RUNS.iter().enumerate() {
                        if p != 1 && i > j {
                            continue;
                        }
                        let mut fs = Files::new();
                        put_kind(&mut fs, a, by(ka));
                        put_kind(&mut fs, b, by(kb));
                        fs.insert("tmp/".into(), vec![]);
                        // every interleaving of a few
                        let full = p == 0 && ka == "fresh" && kb == "fresh" && (mc.thorough || (i, j) == (2, 2) || (i, j) == (0, 2));
                        v.push(Case { cmds: vec![with(ca, &[a]), with(cb, &[b])], fs, full, same: false });
                    }
                }
            }
        }
    }
    // several files in a run
    for (ca, cb) in [(2, 2), (3, 5), (5, 5), (2, 4), (5, 7)] {
        let mut fs = Files::new();
        for (i, n) in ["a", "b", "c", "d"].iter().enumerate() {
            put_kind(&mut fs, n, by(if ca == 2 { "fresh" } else { states[i] }));
        }
        fs.insert("tmp/".into(), vec![]);
        v.push(Case { cmds: vec![with(RUNS[ca], &["a", "c"]), with(RUNS[cb], &["b", "d"])], fs, full: false, same: false });
    }
    // the same tree
    let reads = [0, 1, 4, 6];
    for k in &ks {
        if k.dir || k.tree.is_none() {
            continue;
        }
        for i in 0..RUNS.len() {
            for j in 0..=i {
                let quiet = |x: usize| reads.contains(&x);
                // scaffold doesn't look at the output
                let fine = quiet(i) && quiet(j) || i < 2 || j < 2;
                let writers = [2, 3].contains(&i) && [2, 3].contains(&j);
                if !fine && !writers {
                    continue;
                }
                let mut fs = Files::new();
                put_kind(&mut fs, "a", k);
                fs.insert("tmp/".into(), vec![]);
                let full = writers && (mc.thorough || (k.name == "fresh" && i == j));
                v.push(Case { cmds: vec![with(RUNS[i], &["a"]), with(RUNS[j], &["a"])], fs: fs.clone(), full: false, same: writers });
                if full || (k.name == "partial" && fine && (mc.thorough || i == 4 && j == 0)) {
                    v.push(Case { cmds: vec![with(RUNS[i], &["a"]), with(RUNS[j], &["a"])], fs, full: true, same: writers });
                }
            }
        }
    }
    // three runs
    for c in [[2, 2, 2], [2, 2, 3], [2, 3, 3], [3, 3, 3]] {
        let mut fs = Files::new();
        put_kind(&mut fs, "a", by("fresh"));
        fs.insert("tmp/".into(), vec![]);
        if mc.thorough {
            v.push(Case { cmds: c.iter().map(|i| with(RUNS[*i], &["a"])).collect(), fs, full: false, same: true });
        }
    }
    for c in [[2, 5, 4], [5, 5, 3], [0, 3, 6]] {
        let mut fs = Files::new();
        for (i, n) in ["a", "b", "c"].iter().enumerate() {
            put_kind(&mut fs, n, by(states[i]));
        }
        fs.insert("tmp/".into(), vec![]);
        v.push(Case { cmds: c.iter().zip(["a", "b", "c"]).map(|(i, f)| with(RUNS[*i], &[f])).collect(), fs, full: false, same: false });
    }
    mc.bound("cases", v.len() as u64);
    v.sort_by_key(|c| !c.full);
    mc.par(v.into_iter(), |w, c| judge_case(w, c));
}
