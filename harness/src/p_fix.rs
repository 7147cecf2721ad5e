//! C30: repairing violations one by one, through the library. Each contract is
//! the start of a graph whose transitions are the single repairs.
use crate::p_check::*;
use crate::refm::{self, Opts};
use crate::rt::*;
use crate::sol;
use bulloak_foundry::check::context::Context;
use bulloak_foundry::check::rules::{Checker, StructuralMatcher};
use bulloak_foundry::check::violation::{fix_order, Violation, ViolationKind};
use bulloak_foundry::config::Config;
use bulloak_foundry::sol::find_contract;
use std::collections::{BTreeMap, VecDeque};

fn is_order(v: &Violation) -> bool {
    matches!(v.kind, ViolationKind::FunctionOrderMismatch(..))
}

/// The messages of the violations, in order.
fn says(vs: &[Violation]) -> Vec<String> {
    vs.iter().map(|v| v.kind.to_string()).collect()
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn explore(w: &mut Worker, s: &St) -> R {
    let start_src = s.put(w);
    let cfg = Config { skip_modifiers: s.skip, ..Default::default() };
    let fail = |m: String, path: &[String], src: &str| -> R {
        viol(format!("{s:?}"), format!("{m}\n{s:?}\n--- repaired, in this order ---\n{}\n--- the file then ---\n{src}", path.join("\n")))
    };
    let ctx = match Context::new(w.dir.join("a.tree"), &cfg) {
        Ok(c) => c,
        Err(v) => return fail(format!("the files are refused: {v}"), &[], &start_src),
    };
    let first = StructuralMatcher::check(&ctx);
    let in_order = !first.iter().any(is_order);
    let fixable = first.iter().filter(|v| v.is_fixable()).count();
    if fixable > 7 {
        return Ok(());
    }
    w.mc.sample(|| format!("{s:?}").into());
    let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut end: Option<(String, Vec<String>)> = None;
    let mut queue = VecDeque::from([(ctx, vec![])]);
    while let Some((ctx, path)) = queue.pop_front() {
        if seen.contains_key(&ctx.src) {
            continue;
        }
        seen.insert(ctx.src.clone(), path.clone());
        w.mc.state();
        w.mc.visit(&ctx.src);
        let vs = StructuralMatcher::check(&ctx);
        let said = says(&vs);
        // the order of functions: all of it is repaired together
        if vs.iter().any(is_order) {
            let (Some(contract), Some(hir)) = (find_contract(&ctx.pt), ctx.hir.find_contract()) else {
                return fail("there is no contract to order".into(), &path, &ctx.src);
            };
            let only: Vec<Violation> = StructuralMatcher::check(&ctx).into_iter().filter(is_order).collect();
            let next = fix_order(&only, &contract, hir, ctx.clone());
            w.mc.step();
            let left = StructuralMatcher::check(&next);
            let want = sorted(says(&vs.iter().filter(|v| !is_order(v)).map(|v| Violation::new(copy(&v.kind), v.location.clone())).collect::<Vec<_>>()));
            if sorted(says(&left)) != want {
                return fail(format!("the order of functions was repaired; left are {:#?} instead of {want:#?}", says(&left)), &path, &next.src);
            }
            w.mc.outcome("repaired: order");
            // one by one they aren't repaired, but nothing is damaged
            for v in &only {
                let next = v.kind.fix(ctx.clone());
                w.mc.step();
                if sorted(says(&StructuralMatcher::check(&next))) != sorted(said.clone()) && next.src != ctx.src {
                    let now = says(&StructuralMatcher::check(&next));
                    if now.iter().any(|x| !said.contains(x)) {
                        return fail(format!("repairing {:?} makes new violations {now:#?}", v.kind.to_string()), &path, &next.src);
                    }
                }
            }
        }
        let mut moved = false;
        for (i, v) in vs.iter().enumerate().filter(|(_, v)| v.is_fixable() && !is_order(v)) {
            moved = true;
            let next = v.kind.fix(ctx.clone());
            w.mc.step();
            let mut path = path.clone();
            path.push(said[i].clone());
            let left = StructuralMatcher::check(&next);
            if next.sol != ctx.sol || next.tree != ctx.tree {
                return fail("the paths were changed".into(), &path, &next.src);
            }
            let order: Vec<String> = says(&left.iter().filter(|v| is_order(v)).map(|v| Violation::new(copy(&v.kind), v.location.clone())).collect::<Vec<_>>());
            let left = says(&left);
            let mut want = said.clone();
            want.remove(i);
            if matches!(v.kind, ViolationKind::ContractMissing(_)) {
                want.clear();
            }
            let (got, want) = if in_order {
                (sorted(left), sorted(want))
            } else {
                // where others are out of order, a new one might be as well
                let keep = |v: Vec<String>| sorted(v.into_iter().filter(|x| !x.starts_with("incorrect position")).collect());
                (keep(left), keep(want))
            };
            if got != want {
                return fail(format!("after {:?} was repaired, there are {got:#?} instead of {want:#?}", said[i]), &path, &next.src);
            }
            if in_order && !order.is_empty() {
                return fail(format!("repairing {:?} puts functions out of order: {order:?}", said[i]), &path, &next.src);
            }
            if let Some(m) = damage(s, &v.kind, &ctx.src, &next.src) {
                return fail(format!("repairing {:?} {m}\n--- the file before ---\n{}", said[i], ctx.src), &path, &next.src);
            }
            w.mc.outcome(match v.kind {
                ViolationKind::ContractMissing(_) => "repaired: no contract",
                ViolationKind::ContractNameNotMatches(..) => "repaired: name",
                _ => "repaired: missing function",
            });
            queue.push_back((next, path));
        }
        if !moved {
            let text = match ctx.clone().fmt() {
                Ok(t) => t,
                Err(_) => return fail("the result can't be formatted".into(), &path, &ctx.src),
            };
            w.mc.trace();
            match &end {
                None => end = Some((text, path)),
                Some((t, p)) if *t != text => return fail(format!("another order of the same repairs leads elsewhere\n--- that order ---\n{}\n--- leads to ---\n{t}\n--- this one to ---\n{text}", p.join("\n")), &path, &ctx.src),
                _ => {}
            }
        }
    }
    // the command does the same
    if in_order {
        let o = w.run(&s.args(&["--fix"]));
        let Some((t, p)) = end else { return Ok(()) };
        let got = w.get("a.t.sol").unwrap_or_default();
        if o.code != 0 || got != t {
            return fail(format!("`check --fix` differs from the repairs one by one\n--- one by one ---\n{t}\n{}", o.show()), &p, &got);
        }
    }
    Ok(())
}

/// What a repair does to the file besides what it has to.
fn damage(s: &St, k: &ViolationKind, old: &str, new: &str) -> Option<String> {
    let (a, b) = (sol::texts(old), sol::texts(new));
    match k {
        ViolationKind::ContractMissing(_) => {
            let o = Opts { skip_mods: s.skip, ..Opts::default() };
            let file = refm::file_tokens(&s.spec.want, &o);
            let from = if a.is_empty() && old.trim().is_empty() { 0 } else { file.iter().position(|t| t == "contract").unwrap() };
            let want: Vec<String> = a.into_iter().chain(file[from..].iter().cloned()).collect();
            (b != want).then(|| format!("gives {b:?} instead of {want:?}"))
        }
        ViolationKind::ContractNameNotMatches(..) => {
            let differ: Vec<_> = a.iter().zip(&b).filter(|(x, y)| x != y).collect();
            (a.len() != b.len() || differ.len() != 1 || *differ[0].1 != s.spec.want.name).then(|| format!("changes {differ:?}"))
        }
        ViolationKind::MatchingFunctionMissing(f, _) => {
            let it = s.spec.want.items.iter().find(|i| i.name() == f.identifier && i.is_mod() == f.is_modifier())?;
            let gen = refm::item_tokens(it, false);
            let n = gen.len();
            if b.len() != a.len() + n {
                return Some(format!("adds other things than {gen:?}"));
            }
            let same = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let ok = (0..=same).rev().any(|p| b[p..p + n] == gen[..] && b[p + n..] == a[p..]);
            (!ok).then(|| format!("adds other things than {gen:?}, or not in one place"))
        }
        _ => None,
    }
}

/// Violations can't be cloned.
fn copy(k: &ViolationKind) -> ViolationKind {
    match k {
        ViolationKind::ContractMissing(a) => ViolationKind::ContractMissing(a.clone()),
        ViolationKind::ContractNameNotMatches(a, b) => ViolationKind::ContractNameNotMatches(a.clone(), b.clone()),
        ViolationKind::FunctionOrderMismatch(a, b, c) => ViolationKind::FunctionOrderMismatch(a.clone(), *b, *c),
        ViolationKind::MatchingFunctionMissing(a, b) => ViolationKind::MatchingFunctionMissing(a.clone(), *b),
        _ => ViolationKind::FileUnreadable,
    }
}

pub fn c30(mc: &Mc) {
    let n = mc.pick(5, 7);
    let k = mc.pick(5, 6);
    *mc.rule.lock().unwrap() = "contracts for every tree within the bounds: every subset of its items in order, some out of order, the right, another or no name, extra parts at every position; from each one the graph of all repairs of single violations in every order, through the library: each repair removes its violation, no other violation and nothing else in the file changes, all orders end in the same text, which is what the command writes; repairing the order removes the order violations only".into();
    mc.bound("nodes", n as u64);
    mc.bound("items", k as u64);
    mc.bound("violations", 7);
    let names: [Option<(&str, &str)>; 4] = [None, Some(("Wrong", "")), Some(("Wrong", " is A, B(S({x: 1})) /* { */")), Some(("", " /* contract Root { */"))];
    let vary = |s: &std::sync::Arc<Spec>, parts: Vec<P>, x: usize, out: &mut Vec<St>| {
        for (i, name) in names.iter().enumerate() {
            let mut st = St::new(s, parts.clone()).m((x + i) % 4 == 1);
            if let Some((n, h)) = name {
                let n = if n.is_empty() { s.want.name.clone() } else { n.to_string() };
                st.contract = Some((n, h.to_string()));
            }
            st.crlf = (x + i) % 5 == 4;
            out.push(st);
        }
    };
    let all: Vec<_> = trees(n, k).into_iter().chain(two_trees(3, k)).collect();
    mc.par(all.into_iter().flat_map(|s| {
        let mut v = vec![];
        for (x, a) in subsets(s.n()).into_iter().enumerate() {
            vary(&s, items(&a, x % (2 * STYLES)), x, &mut v);
        }
        for (x, a) in arrangements(s.n().min(4)).into_iter().enumerate() {
            if inverted(&a) {
                let st = St::new(&s, items(&a, x % (2 * STYLES))).m(x % 3 == 0);
                v.push(st);
            }
        }
        // no contract
        for (x, before) in ["", "\n", "// nothing\n", "pragma solidity ^0.8.0;\n\nimport \"x.sol\";\n", "pragma solidity 0.8.0;\n\nfunction free() pure {}\n\n// end\n", "// SPDX-License-Identifier: MIT\nstruct T {\n    uint256 a;\n}", "/* contract Root { */ error E1(); // contract"].iter().enumerate() {
            let mut st = St::new(&s, vec![]).m(x % 2 == 1);
            st.contract = None;
            st.before = before.to_string();
            v.push(st);
        }
        v
    }), explore);
    for s in typical() {
        let xs = user_parts();
        mc.par(subsets(s.n()).into_iter().enumerate().flat_map(|(x, a)| with_one(&items(&a, x % (2 * STYLES)), &xs).into_iter().enumerate().map(|(i, p)| St::new(&s, p).m((x + i) % 4 == 0)).collect::<Vec<_>>()).collect::<Vec<_>>().into_iter(), explore);
    }
}
