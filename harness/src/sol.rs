//! A small Solidity lexer and outline scanner used as an oracle.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub text: String,
    pub comment: bool,
    pub start: usize,
    pub line: usize,
}

pub fn lex(src: &str) -> Vec<Tok> {
    let b: Vec<(usize, char)> = src.char_indices().collect();
    let mut i = 0;
    let mut line = 1;
    let mut v = vec![];
    let at = |i: usize| b.get(i).map(|x| x.1);
    while i < b.len() {
        let (start, c) = b[i];
        let s = i;
        let l0 = line;
        let mut comment = false;
        if c == '\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && at(i + 1) == Some('/') {
            comment = true;
            while i < b.len() && b[i].1 != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == Some('*') {
            comment = true;
            i += 2;
            while i < b.len() && !(b[i].1 == '*' && at(i + 1) == Some('/')) {
                if b[i].1 == '\n' {
                    line += 1;
                }
                i += 1;
            }
            i = (i + 2).min(b.len());
        } else if c == '"' || c == '\'' {
            i += 1;
            while i < b.len() && b[i].1 != c && b[i].1 != '\n' {
                if b[i].1 == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(b.len());
        } else if c.is_alphanumeric() || c == '_' || c == '$' || !c.is_ascii() {
            while i < b.len() && (b[i].1.is_alphanumeric() || b[i].1 == '_' || b[i].1 == '$' || (!b[i].1.is_ascii() && !b[i].1.is_whitespace())) {
                i += 1;
            }
        } else {
            i += 1;
        }
        let text: String = b[s..i].iter().map(|x| x.1).collect();
        v.push(Tok { text: if comment { text.trim_end().to_string() } else { text }, comment, start, line: l0 });
    }
    v
}

pub fn texts(src: &str) -> Vec<String> {
    lex(src).into_iter().map(|t| t.text).collect()
}

/// A definition at the top level of a file or contract: its code tokens.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Part {
    pub toks: Vec<String>,
    /// Comments inside of it.
    pub comments: Vec<String>,
    pub line: usize,
}
impl Part {
    pub fn kind(&self) -> &str {
        self.toks.first().map_or("", |s| s.as_str())
    }
    /// `function f`/`modifier m` -> its name.
    pub fn name(&self) -> Option<&str> {
        match self.kind() {
            "function" | "modifier" => self.toks.get(1).map(|s| s.as_str()).filter(|s| *s != "("),
            _ => None,
        }
    }
    pub fn is(&self, modifier: bool, name: &str) -> bool {
        self.kind() == if modifier { "modifier" } else { "function" } && self.name() == Some(name)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Outline {
    /// Top-level definitions other than the first contract, in order.
    pub others: Vec<Part>,
    /// Tokens of the contract's header, without its name.
    pub header: Vec<String>,
    pub name: Option<String>,
    pub parts: Vec<Part>,
    pub comments: Vec<String>,
    pub balanced: bool,
    /// Index in `others` where the contract sits.
    pub at: usize,
    pub contract_line: usize,
}

fn split_parts(t: &[Tok]) -> (Vec<Part>, bool) {
    let mut v = vec![];
    let mut cur: Vec<&Tok> = vec![];
    let mut pending: Vec<String> = vec![];
    let mut depth = 0i32;
    let mut ok = true;
    for k in t {
        if k.comment {
            if !cur.is_empty() {
                pending.push(k.text.clone());
            }
            continue;
        }
        cur.push(k);
        match k.text.as_str() {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            ok = false;
        }
        let import = matches!(cur[0].text.as_str(), "import" | "using");
        if depth == 0 && (k.text == ";" || (k.text == "}" && !import)) {
            v.push(Part { toks: cur.iter().map(|t| t.text.clone()).collect(), comments: std::mem::take(&mut pending), line: cur[0].line });
            cur.clear();
        }
    }
    (v, ok && cur.is_empty())
}

/// Outline of a file: the first contract-like definition and everything else.
pub fn outline(src: &str) -> Outline {
    let toks = lex(src);
    let mut o = Outline { comments: toks.iter().filter(|t| t.comment).map(|t| t.text.clone()).collect(), ..Default::default() };
    // Split on the token level, remembering where the first contract is.
    let (all, ok) = split_parts(&toks);
    o.balanced = ok;
    let is_contract = |p: &Part| matches!(p.kind(), "contract" | "library" | "interface" | "abstract");
    if let Some(i) = all.iter().position(is_contract) {
        o.at = i;
        let p = &all[i];
        o.contract_line = p.line;
        // header up to the brace that opens the body: the first `{` at depth 0
        let mut depth = 0;
        let mut body = p.toks.len();
        for (j, t) in p.toks.iter().enumerate() {
            match t.as_str() {
                "(" => depth += 1,
                ")" => depth -= 1,
                "{" if depth == 0 => {
                    body = j;
                    break;
                }
                _ => {}
            }
        }
        let head = &p.toks[..body];
        let name_at = head.iter().position(|t| matches!(t.as_str(), "contract" | "library" | "interface")).map_or(0, |x| x + 1);
        o.name = head.get(name_at).cloned();
        o.header = head.iter().enumerate().filter(|(j, _)| *j != name_at).map(|(_, t)| t.clone()).collect();
        // find the same tokens with comments
        let start_idx = {
            let mut seen = 0;
            let total: usize = all[..i].iter().map(|p| p.toks.len()).sum::<usize>() + body;
            toks.iter().position(|t| {
                if t.comment {
                    return false;
                }
                seen += 1;
                seen == total + 1
            })
        };
        let end_count: usize = all[..=i].iter().map(|p| p.toks.len()).sum();
        let mut seen = 0;
        let end_idx = toks.iter().position(|t| {
            if !t.comment {
                seen += 1;
            }
            seen == end_count
        });
        if let (Some(a), Some(b)) = (start_idx, end_idx) {
            if a + 1 <= b {
                let (parts, ok) = split_parts(&toks[a + 1..b]);
                o.parts = parts;
                o.balanced &= ok;
            }
        }
        o.others = all.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| p.clone()).collect();
    } else {
        o.others = all;
    }
    o
}
