//! C25: what check and --fix make of a Solidity file does not depend on how it
//! is laid out: every edit of blank space and comments at every token gap.
use crate::p_check::{report, typical, user_parts, Spec, St, K, P};
use crate::p_scaffold::canonical;
use crate::rt::*;
use crate::sol::{self, Outline};
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

struct Gap {
    from: usize,
    to: usize,
    /// Blank space may be put here, or is here already.
    open: bool,
    /// The space here can be left out.
    tight: bool,
    /// The token before is a line comment.
    eol: bool,
}

fn gaps(src: &str) -> Vec<Gap> {
    let t = sol::lex(src);
    let punct = |s: &str| matches!(s, "{" | "}" | "(" | ")" | ";" | ",");
    let mut v = vec![];
    let mut pragma = false;
    for k in 0..=t.len() {
        let from = if k == 0 { 0 } else { t[k - 1].start + t[k - 1].text.len() };
        let to = t.get(k).map_or(src.len(), |x| x.start);
        if k > 0 && !t[k - 1].comment {
            match t[k - 1].text.as_str() {
                "pragma" => pragma = true,
                ";" => pragma = false,
                _ => {}
            }
        }
        let near = |x: Option<&sol::Tok>| x.is_none_or(|x| punct(&x.text) && !x.comment);
        let tight = near(k.checked_sub(1).map(|k| &t[k])) || near(t.get(k));
        let eol = k > 0 && t[k - 1].comment && t[k - 1].text.starts_with("//");
        if !pragma {
            v.push(Gap { from, to, open: to > from || tight, tight: tight && !eol, eol });
        }
    }
    v
}

const INSERTS: &[&str] = &[" ", "\n", "\r\n\t", "\n\n\n", "/* c1 */", "// c1 {\n", "/* } function X() {} \" */", "/** @dev c1 ; */", "/// c1 '\n", "//\r\n", "/**/", "/*/ { */", "/***/", "/*/**/", "//*{\n"];

#[derive(Clone)]
struct Base {
    st: St,
    text: Arc<String>,
    fix: bool,
    want: Arc<OnceLock<Want>>,
}
#[derive(Debug)]
struct Want {
    code: i32,
    kinds: Vec<K>,
    fixed: Outline,
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn bag(v: &[String]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(squeeze(x)).or_insert(0) += 1;
    }
    m
}

fn kinds(o: &Out) -> Vec<K> {
    report(o).viols.into_iter().map(|v| v.kind).collect()
}

fn base_of(w: &Worker, b: &Base) -> Result<Want, Viol> {
    w.put("a.tree", &b.st.spec.text);
    w.put("a.t.sol", &*b.text);
    let o = w.run(&b.st.args(&[]));
    let f = w.run(&b.st.args(&["--fix"]));
    let after = w.get("a.t.sol").unwrap_or_default();
    if o.crashed() || f.code != 0 {
        return viol(b.text.as_str(), format!("check --fix fails\n--- a.tree ---\n{}\n--- a.t.sol ---\n{}\n{}", b.st.spec.text, b.text, f.show()));
    }
    Ok(Want { code: o.code, kinds: kinds(&o), fixed: sol::outline(&after) })
}

fn judge(w: &mut Worker, b: &Base, what: &str, text: &str) -> R {
    w.mc.state();
    if forge_fmt::parse(text).is_err() {
        w.mc.outcome("not Solidity for the parser");
        return Ok(());
    }
    if b.want.get().is_none() {
        let x = base_of(w, b)?;
        let _ = b.want.set(x);
    }
    let want = b.want.get().unwrap();
    w.put("a.tree", &b.st.spec.text);
    w.put("a.t.sol", text);
    w.mc.sample(|| text.to_string().into());
    let o = w.run(&b.st.args(&[]));
    w.mc.trace();
    let show = |x: &Out| format!("--- a.tree ---\n{}\n--- a.t.sol ---\n{text}\n{}", b.st.spec.text, x.show());
    let k = kinds(&o);
    if k != want.kinds || o.code != want.code {
        return viol(text, format!("{what}: check reports {k:#?} (status {}) instead of {:#?} (status {})\n{}", o.code, want.kinds, want.code, show(&o)));
    }
    w.mc.outcome(&format!("{} violations", k.len()));
    if !b.fix {
        return Ok(());
    }
    // what the formatter itself cannot take is not bulloak's doing
    let Ok(canon) = std::panic::catch_unwind(|| canonical(text)) else {
        w.mc.outcome("the formatter panics");
        return Ok(());
    };
    let Ok(canon) = canon else {
        w.mc.outcome("the formatter refuses");
        return Ok(());
    };
    let f = w.run(&b.st.args(&["--fix"]));
    w.mc.trace();
    let after = w.get("a.t.sol").unwrap_or_default();
    let log = format!("{}\n--- after --fix ---\n{after}", show(&f));
    if f.code != 0 {
        return viol(format!("fix {text}"), format!("{what}: check --fix fails\n{log}"));
    }
    let new = sol::outline(&after);
    // the parts and their order; code is as before or as the formatter writes it
    let toks = |o: &Outline| (o.name.clone(), o.header.clone(), o.at, o.balanced);
    let code = |o: &Outline| o.parts.iter().chain(&o.others).map(|p| p.toks.join(" ")).collect::<Vec<_>>();
    let canon = sol::outline(&canon);
    let (n, b0, c) = (code(&new), code(&want.fixed), code(&canon));
    let head = |s: &str| s.split(['{', ';']).next().unwrap().to_string();
    let same = n.len() == b0.len() && n.iter().zip(&b0).all(|(x, y)| x == y || (head(x) == head(y) && c.contains(x)));
    if toks(&new) != toks(&want.fixed) || !same {
        return viol(format!("fix {text}"), format!("{what}: the repaired file is {:?} {n:#?}\ninstead of {:?} {b0:#?}\n{log}", toks(&new), toks(&want.fixed)));
    }
    let old = bag(&sol::outline(text).comments);
    if bag(&canon.comments) == old {
        let mut add = bag(&want.fixed.comments);
        for (c, n) in bag(&sol::outline(&b.text).comments) {
            *add.get_mut(&c).unwrap_or(&mut 0) -= n.min(*add.get(&c).unwrap_or(&0));
        }
        for (c, n) in &old {
            *add.entry(c.clone()).or_insert(0) += n;
        }
        add.retain(|_, n| *n > 0);
        let got = bag(&new.comments);
        if got != add {
            return viol(format!("fix {text}"), format!("{what}: the comments of the repaired file are {got:#?}\ninstead of {add:#?}\n{log}"));
        }
    } else {
        w.mc.outcome("the formatter changes comments");
    }
    let o = w.run(&b.st.args(&[]));
    w.mc.trace();
    if o.code != 0 {
        return viol(format!("fix {text}"), format!("{what}: check is not satisfied after --fix\n{log}\n{}", o.show()));
    }
    Ok(())
}

fn bases(mc: &Mc) -> Vec<Base> {
    let mut v = vec![];
    let mut add = |st: St, fix: bool| v.push(Base { text: Arc::new(st.sol().text), st, fix, want: Arc::default() });
    let us = user_parts();
    for (t, s) in typical().iter().enumerate() {
        let n = s.n();
        let orders = [(0..n).collect::<Vec<_>>(), (0..n).rev().collect(), vec![], vec![n - 1], (1..n).collect()];
        for (x, a) in orders.iter().enumerate() {
            let st = St::new(s, a.iter().map(|i| P::Item(*i, if x == 1 { i % 3 * 2 } else { x % 5 })).collect());
            add(st.clone(), mc.thorough || (x + t) % 2 == 0);
            let mut other = st;
            other.contract = Some(("Wrong".into(), " is Test".into()));
            other.skip = true;
            other.before = format!("// pre\npragma solidity 0.8.0;\n\nimport {{Test}} from \"a.sol\";\n\n{}", ["", "function free() pure {}\n\n"][x % 2]);
            other.after = ["", "\ncontract Z {\n    function test_A() external {}\n}\n"][t % 2].into();
            add(other, mc.thorough || (x + t) % 3 == 0);
        }
        // user parts between the items
        let mut parts = vec![];
        for (i, u) in us.iter().enumerate() {
            if i % n == 0 && i / n > 0 || i == 0 {
                parts.push(P::Item(if t % 2 == 0 { n - 1 - i / n % n } else { i / n % n }, i % 5));
            }
            parts.push(P::User(u.clone()));
        }
        if t == 0 || mc.thorough {
            let mut seen = vec![];
            parts.retain(|p| match p {
                P::Item(i, _) => {
                    let new = !seen.contains(i);
                    seen.push(*i);
                    new
                }
                _ => true,
            });
            add(St::new(s, parts), true);
        }
    }
    v
}

pub fn c25(mc: &Mc) {
    *mc.rule.lock().unwrap() = format!("typical specs x contracts (in order, reversed, incomplete, misnamed, among other definitions): every insertion of one of {} pieces of blank space and comments at every token gap, every removal of the blank space at a gap, whole-file layouts (minified, a token per line, a comment at every gap, CRLF): check reports the same violations in the same order, and --fix repairs the file to the same code with all comments", INSERTS.len());
    mc.assume("layouts that the Solidity parser or formatter themselves reject or whose comments the formatter drops are left out");
    let bs = bases(mc);
    mc.bound("contracts", bs.len() as u64);
    mc.bound("insertions_per_gap", INSERTS.len() as u64 + 2);
    // one item per gap
    let items: Vec<(Base, usize)> = bs.iter().flat_map(|b| (0..gaps(&b.text).len()).map(|g| (b.clone(), g))).collect();
    let dbg = |b: &Base, g: usize| format!("gap {g} of\n{}", b.text);
    struct It(Base, usize, fn(&Base, usize) -> String);
    impl std::fmt::Debug for It {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.2(&self.0, self.1))
        }
    }
    mc.par(items.into_iter().map(|(b, g)| It(b, g, dbg)), |w, It(b, g, _)| {
        let gs = gaps(&b.text);
        let g = &gs[*g];
        let (head, gap, tail) = (&b.text[..g.from], &b.text[g.from..g.to], &b.text[g.to..]);
        if g.open {
            for x in INSERTS {
                judge(w, b, &format!("with {x:?} inserted"), &format!("{head}{gap}{x}{tail}"))?;
            }
        }
        if !gap.is_empty() && !g.eol {
            for x in ["", " "] {
                if gap != x && (!x.is_empty() || g.tight) {
                    judge(w, b, &format!("with {gap:?} replaced by {x:?}"), &format!("{head}{x}{tail}"))?;
                }
            }
        }
        Ok(())
    });
    if mc.thorough {
        // pairs of insertions
        let pairs: Vec<(Base, usize)> = bs.iter().flat_map(|b| (0..gaps(&b.text).len()).map(|g| (b.clone(), g))).collect();
        mc.par(pairs.into_iter().map(|(b, g)| It(b, g, dbg)), |w, It(b, i, _)| {
            let gs = gaps(&b.text);
            let g = &gs[*i];
            if !g.open || gs.len() > 130 {
                return Ok(());
            }
            for h in gs[i + 1..].iter().filter(|h| h.open) {
                for (x, y) in [("/* c1 { */", "/* } c2 */"), ("// c1 \"\n", "// c2 \"\n"), ("\n", "/* c1 function f( */"), ("/** c1 */", "\r\n\r\n")] {
                    let text = format!("{}{x}{}{y}{}", &b.text[..g.to], &b.text[g.to..h.to], &b.text[h.to..]);
                    judge(w, b, &format!("with {x:?} and {y:?} inserted"), &text)?;
                }
            }
            Ok(())
        });
    }
    // whole files
    mc.par(bs.into_iter().map(|b| It(b, 0, dbg)), |w, It(b, _, _)| {
        let gs = gaps(&b.text);
        let all = |f: &dyn Fn(&Gap, &str) -> String| {
            let mut s = String::new();
            let mut at = 0;
            for g in &gs {
                s.push_str(&b.text[at..g.from]);
                s.push_str(&f(g, &b.text[g.from..g.to]));
                at = g.to;
            }
            s.push_str(&b.text[at..]);
            s
        };
        let files = [
            all(&|g, x| if g.eol { "\n".into() } else if g.tight { String::new() } else if x.is_empty() { String::new() } else { " ".into() }),
            all(&|g, x| if g.open { "\n".into() } else { x.into() }),
            all(&|g, x| if g.open { format!("{x}/* c1 */") } else { x.into() }),
            all(&|g, x| if g.open { format!("{x}// c1 }}\n") } else { x.into() }),
            all(&|g, x| if g.open { format!("{x}\t \n\n") } else { x.into() }),
            b.text.replace('\n', "\r\n"),
            b.text.replace('\n', "\n\n"),
            b.text.trim().to_string(),
        ];
        for (i, f) in files.iter().enumerate() {
            judge(w, b, &format!("whole layout {i}"), f)?;
        }
        Ok(())
    });
}
