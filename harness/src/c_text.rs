//! C18 (grammar text), C19 (tree queries), C20 (JSON parsers).
use crate::ctx::*;
use crate::gen::*;
use crate::gram::*;
use crate::lexg::*;
use crate::rng::*;
use crate::sys::*;
use lang_pt::{ASTNode, NodeImpl, ParseError};
use std::collections::HashSet;
use std::fmt::{Debug, Write};

/// The grammar text a description stands for.
struct Text<'g> {
    g: &'g Grammar,
    seen: HashSet<&'static str>,
    out: String,
    rules: u64,
}
impl<'g> Text<'g> {
    fn set(v: &[(String, Option<N>)]) -> String {
        let v: Vec<String> = v.iter().map(|(s, n)| Self::item(s, *n)).collect();
        format!("({})", v.join("|"))
    }
    fn item(s: &str, n: Option<N>) -> String {
        match n {
            Some(n) => format!("[{:?}; {:?}]", s, n),
            None => format!("[{:?}; ]", s),
        }
    }
    fn tok(t: i8, n: Option<N>) -> String {
        match n {
            Some(n) => format!("[&{:?}; {:?}]", t, n),
            None => format!("[&{:?}; ]", t),
        }
    }
    fn disp(&self, e: &G) -> String {
        if let Some(r) = self.g.rules.get(&e.id) {
            return r.to_string();
        }
        match &e.k {
            K::Tok(t, n) => Self::tok(*t, *n),
            K::TokSet(v) => format!("({})", v.iter().map(|(t, n)| Self::tok(*t, *n)).collect::<Vec<_>>().join("|")),
            K::Const(s, n) => Self::item(s, *n),
            K::ConstSet(v) | K::Punct(v) => Self::set(v),
            K::Regex(s, _) => format!("/{}/", s.replace('/', "\\/")),
            K::Null(_) => "''".into(),
            K::Eof(_) => "EOF".into(),
            K::List(x) => format!("{}+", self.disp(x)),
            K::Sep(..) => self.sep(e),
            K::Opt(x, _) => format!("({})?", self.disp(x)),
            K::Node(x, n) => format!("[{}; @{:?}]", self.disp(x), n),
            K::Hidden(x) => format!("[{};]", self.disp(x)),
            K::Valid(x, _) => format!("{{{}}}", self.disp(x)),
            K::Look(x, _) => format!("?={}", self.disp(x)),
            K::NonStr(x, _) | K::Struc(x) => format!("%{}%", self.disp(x)),
            K::Memo(_, x) => format!("<{}>", self.disp(x)),
            K::Ref(i) => self.g.names[*i].to_string(),
        }
    }
    fn sep(&self, e: &G) -> String {
        match &e.k {
            K::Sep(p, s, i) => {
                let (p, s) = (self.disp(p), self.disp(s));
                format!("{} ({} {})*{}", p, s, p, if *i { format!(" ({})?", s) } else { String::new() })
            }
            _ => unreachable!(),
        }
    }
    fn rule(&mut self, name: &'static str, body: String) {
        self.rules += 1;
        let _ = writeln!(self.out, "{} : {} ;", name, body);
    }
    fn expr(&mut self, e: &'g G) {
        if let Some(r) = self.g.rules.get(&e.id).copied() {
            if self.seen.insert(r) {
                let body = match &e.k {
                    K::Node(x, n) => format!("[{}; @{:?}]", self.disp(x), n),
                    K::Hidden(x) => format!("[{};]", self.disp(x)),
                    K::Sep(..) => self.sep(e),
                    _ => unreachable!(),
                };
                self.rule(r, body);
            }
        }
        match &e.k {
            K::List(x) | K::Opt(x, _) | K::Node(x, _) | K::Hidden(x) | K::Valid(x, _) | K::Look(x, _)
            | K::NonStr(x, _) | K::Struc(x) | K::Memo(_, x) => self.expr(x),
            K::Sep(p, s, _) => {
                self.expr(p);
                self.expr(s);
            }
            K::Ref(i) => self.nt(*i),
            _ => {}
        }
    }
    fn nt(&mut self, i: usize) {
        if !self.seen.insert(self.g.names[i]) {
            return;
        }
        let all = |t: &Self, v: &[G], s: &str| v.iter().map(|x| t.disp(x)).collect::<Vec<_>>().join(s);
        match &self.g.nts[i] {
            NT::Concat(v) => {
                let b = all(self, v, " ");
                self.rule(self.g.names[i], b);
                v.iter().for_each(|x| self.expr(x));
            }
            NT::Union(v) => {
                let b = all(self, v, " | ");
                self.rule(self.g.names[i], b);
                v.iter().for_each(|x| self.expr(x));
            }
            NT::Suf(l, st, v) => {
                let left = self.disp(l);
                let mut b: Vec<String> = v.iter().map(|(x, n)| format!("[{} {}; @{:?}]", left, self.disp(x), n)).collect();
                if *st {
                    b.push(left);
                }
                self.rule(self.g.names[i], b.join(" | "));
                self.expr(l);
                v.iter().for_each(|(x, _)| self.expr(x));
            }
        }
    }
    fn of(g: &'g Grammar, root: &'g G) -> (String, u64) {
        let mut t = Text { g, seen: HashSet::new(), out: String::new(), rules: 0 };
        let head = t.disp(root);
        t.expr(root);
        (format!("{}\n{}", head, t.out), t.rules)
    }
}

/// Order inside sets has no meaning (the longest fixed string wins, each token is its own): sort it away.
/// Then drop the blanks that do not separate two words.
fn canon(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("([") {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        match set_items(&rest[1..]) {
            Some((mut v, n)) => {
                v.sort();
                let _ = write!(out, "({})", v.join("|"));
                rest = &rest[1 + n..];
            }
            None => {
                out.push('(');
                rest = &rest[1..];
            }
        }
    }
    out.push_str(rest);
    let mut res = String::new();
    for w in out.split_whitespace() {
        let glue = |c: char| !(c.is_alphanumeric() || c == '_');
        match res.chars().last() {
            Some(l) if !glue(l) && !glue(w.chars().next().unwrap()) => res.push(' '),
            _ => {}
        }
        res.push_str(w);
    }
    res
}
/// `["..."; n]|["..."; ]...)`: items and length with the parenthesis.
fn set_items(s: &str) -> Option<(Vec<&str>, usize)> {
    let b = s.as_bytes();
    let (mut i, mut v) = (0, vec![]);
    loop {
        let start = i;
        if s[i..].starts_with("[\"") {
            i += 2;
            while *b.get(i)? != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
        } else if s[i..].starts_with("[&") {
            i += 2;
        } else {
            return None;
        }
        while *b.get(i)? != b']' {
            i += 1;
        }
        i += 1;
        v.push(&s[start..i]);
        match b.get(i)? {
            b'|' => i += 1,
            b')' => return Some((v, i + 1)),
            _ => return None,
        }
    }
}

/// Fields of one lexeme: (lines, may be listed in any order).
fn fields(l: &L) -> Vec<(Vec<String>, bool)> {
    let line = |t: i8, s: String| format!("{:?} : {} ,", t, s);
    match l {
        L::Pat(t, s) => vec![(vec![line(*t, format!("/{}/", s.replace('/', "\\/")))], false)],
        L::Consts(v) | L::Punct(v) => vec![(v.iter().map(|(s, t)| line(*t, format!("{:?}", s))).collect(), true)],
        L::Map(x, v) => {
            let mut out = vec![(v.iter().map(|(s, t)| line(*t, format!("{:?}", s))).collect::<Vec<_>>(), true)];
            out.extend(fields(x));
            out
        }
        L::TMap(x, _) | L::Mid(x, _) | L::Mix(x, _) | L::TMix(x, _) => fields(x),
    }
}
fn lexer_text(x: &Lexers, got: &str) -> Result<u64, String> {
    let lines: Vec<String> = got
        .lines()
        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
        .filter(|l| !l.is_empty())
        .collect();
    let mut at = 0;
    let mut states: Vec<&(u8, Vec<L>)> = x.states.iter().collect();
    states.sort_by_key(|s| s.0);
    let multi = x.combined || x.states.len() > 1;
    let mut n = 0;
    let mut next = |k: usize| -> Result<Vec<String>, String> {
        if at + k > lines.len() {
            return Err(format!("text ends early, {} more lines expected", at + k - lines.len()));
        }
        at += k;
        Ok(lines[at - k..at].to_vec())
    };
    let norm = |s: &String| s.split_whitespace().collect::<Vec<_>>().join(" ");
    for (s, v) in states {
        let head = if multi { format!("fragment {} {{", s) } else { "fragment {".into() };
        let g = next(1)?;
        if g[0] != head {
            return Err(format!("{:?} in place of {:?}", g[0], head));
        }
        for l in v {
            for (f, any) in fields(l) {
                let mut g = next(f.len())?;
                let mut f: Vec<String> = f.iter().map(norm).collect();
                n += f.len() as u64;
                if any {
                    g.sort();
                    f.sort();
                }
                if f != g {
                    return Err(format!("state {} lexeme {:?}: {:?} in place of {:?}", s, l, g, f));
                }
            }
        }
        let g = next(1)?;
        if g[0] != "}" {
            return Err(format!("{:?} in place of the end of state {}", g[0], s));
        }
    }
    if at != lines.len() {
        return Err(format!("more text than expected: {:?}", &lines[at..]));
    }
    Ok(n)
}

pub fn c18(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = if r.pct(50) { Profile::token() } else { Profile::less() };
    p.trivia = p.mode == Mode::Token && r.pct(30);
    p.names = true;
    p.memo = if p.trivia { 0 } else { *r.pick(&[0, 10]) };
    p.valid = 4;
    p.look = 4;
    p.max_nts = *r.pick(&[6, 20, 40]);
    let g = Gen::grammar(r, &p);
    let lexers = if p.mode == Mode::Token {
        Some(if r.pct(30) {
            lang(r.below(60))
        } else {
            let states = *r.pick(&[1, 4]);
            crate::lexgen::lexers(r, &crate::lexgen::LexProfile { states, actions: if states > 1 { 25 } else { 0 }, catch_all: 60 })
        })
    } else {
        None
    };
    let style = r.pct(40);
    let sys = match Sys::new(&g, lexers.as_ref(), BuildOpt { style, ..Default::default() }) {
        Ok(s) => s,
        Err(_) => return c.count("grammars refused by the constructor", 1),
    };
    c.count("grammars", 1);
    let show = || format!("{}\nrule names by expression: {:?}", g.show(), g.rules);
    if r.pct(30) {
        // Text after parsing.
        let _ = sys.parse(b"a bb", 20_000, false);
    }
    let got = match sys.grammar() {
        Ok(Ok(s)) => s,
        o => return c.viol("rendering fails", format!("{}\n{:?}", show(), o)),
    };
    let (want, rules) = Text::of(&g, &g.root);
    c.count("rules", rules);
    c.max("most rules in a grammar", rules);
    c.eval(if rules > 1 { Some(hash(want.as_bytes())) } else { None });
    let (body, lex) = match &lexers {
        Some(_) => {
            let i = got.find("\nfragment ").map_or(got.len(), |i| i + 1);
            got.split_at(i)
        }
        None => (got.as_str(), ""),
    };
    if canon(body) != canon(&want) {
        c.viol("grammar text", format!("{}\nexpected:\n{}\nobserved:\n{}", show(), want, body));
    } else if rules > 3 && rules < 12 {
        c.sample(|| body.to_string());
    }
    if let Some(l) = &lexers {
        c.eval(Some(hash(l.show().as_bytes())));
        match lexer_text(l, lex) {
            Ok(n) => c.count("lexeme fields", n),
            Err(e) => c.viol("tokenizer text", format!("{}\n{}\nobserved:\n{}", l.show(), e, lex)),
        }
    }
    // The text of parts of the grammar.
    for _ in 0..3 {
        let i = r.below(g.nts.len());
        let root = G { id: u32::MAX, k: K::Ref(i) };
        let want = Text::of(&g, &root).0;
        match guard(|| sys.built.nts[i].build_grammar()) {
            Ok(Ok(s)) if canon(&s) == canon(&want) => {}
            o => c.viol("grammar text of a part", format!("{}\nroot {}\nexpected:\n{}\nobserved:\n{:?}", show(), g.names[i], want, o)),
        }
        c.eval(Some(hash(want.as_bytes())));
    }
    let mut ids: Vec<u32> = sys.built.by_id.keys().copied().collect();
    ids.sort();
    g.each(&mut |e| {
        let want = Text { g: &g, seen: HashSet::new(), out: String::new(), rules: 0 }.disp(e);
        if let Some(q) = sys.built.by_id.get(&e.id) {
            c.count("productions displayed", 1);
            match guard(|| format!("{}", q)) {
                Ok(s) if canon(&s) == canon(&want) => {}
                o => c.viol("production text", format!("{}\nexpression {} expected {}\nobserved {:?}", show(), e.id, want, o)),
            }
        }
    });
}

fn tree(r: &mut Rng, depth: usize, budget: &mut usize, vals: usize, at: &mut usize) -> ASTNode<N> {
    *budget = budget.saturating_sub(1);
    let n = if depth == 0 || *budget == 0 { 0 } else { *r.pick(&[0usize, 0, 1, 1, 2, 3, 5]) };
    let start = *at;
    *at += r.below(3);
    let mut kids = vec![];
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        kids.push(tree(r, depth - 1, budget, vals, at));
    }
    ASTNode::new(r.below(vals) as N, start, *at, None, kids)
}
fn pre<'t>(t: &'t ASTNode<N>, out: &mut Vec<&'t ASTNode<N>>) {
    let mut todo = vec![t];
    while let Some(x) = todo.pop() {
        out.push(x);
        todo.extend(x.children.iter().rev());
    }
}

pub fn c19(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let vals = *r.pick(&[2usize, 3, 6, 20]);
    let root = match r.below(40) {
        0 => {
            let mut t = ASTNode::leaf(0u16, 0, 1, None);
            let k = if r.below(30) == 0 { 20_000 } else { r.range(10, 3000) };
            for i in 0..k {
                t = ASTNode::new((i % vals) as N, 0, i, None, vec![t]);
            }
            t
        }
        1 => {
            let k = if r.below(10) == 0 { 70_000 } else { r.range(10, 2000) };
            ASTNode::new(0, 0, k, None, (0..k).map(|i| ASTNode::leaf(r.below(vals) as N, i, i + 1, None)).collect())
        }
        2 => {
            // A tree from a parse.
            let p = Profile::less();
            let g = Gen::grammar(r, &p);
            match Sys::new(&g, None, BuildOpt::default()) {
                Ok(s) => {
                    let f = crate::refi::Facts::new(&g);
                    let ins = inputs(r, &g, &f, &p, 4, false);
                    let mut kids = vec![];
                    for t in ins {
                        if let Out::Ok(v) = s.parse(&t, 20_000, false) {
                            kids.extend(v);
                        }
                    }
                    ASTNode::new(0, 0, 1, None, kids)
                }
                Err(_) => return,
            }
        }
        _ => {
            let (d, mut b) = (r.range(1, 9), r.range(1, 120));
            tree(r, d, &mut b, vals, &mut 0)
        }
    };
    let mut all = vec![];
    pre(&root, &mut all);
    let shape: String = if all.len() < 400 { show_a(std::slice::from_ref(&root)) } else { format!("{} nodes", all.len()) };
    c.count("trees", 1);
    c.count("tree nodes", all.len() as u64);
    c.max("largest tree", all.len() as u64);
    let key = hash(shape.as_bytes());
    let deep = all.len() >= 400;
    let from: Vec<&ASTNode<N>> = if deep { vec![&root, all[all.len() / 2]] } else { (0..4).map(|_| all[r.below(all.len())]).chain([&root]).collect() };
    let same = |a: Option<&ASTNode<N>>, b: Option<&ASTNode<N>>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        _ => false,
    };
    let lists = |a: &[&ASTNode<N>], b: &[&ASTNode<N>]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| std::ptr::eq(*a, *b));
    for t in from {
        let mut sub = vec![];
        pre(t, &mut sub);
        for v in 0..=vals.min(8) as N {
            c.eval(if sub.len() > 2 { Some(key ^ mix(v as u64) ^ mix(sub.len() as u64).rotate_left(5)) } else { None });
            let first = sub.iter().find(|x| x.node == v).copied();
            let every: Vec<&ASTNode<N>> = sub.iter().filter(|x| x.node == v).copied().collect();
            let child = t.children.iter().find(|x| x.node == v);
            c.count("matches expected", every.len() as u64);
            let mut bad = vec![];
            if !same(t.find_tree_with_node(&v), first) {
                bad.push("find by value");
            }
            if !lists(&t.list_tree_with_token(&v), &every) {
                bad.push("list by value");
            }
            if t.contains(&v) != first.is_some() {
                bad.push("contains");
            }
            if !same(t.get_child(&v), child) {
                bad.push("child");
            }
            // Predicates on anything: spans, child counts.
            let (m, q) = (r.range(1, 4), r.below(4));
            let f = |x: &ASTNode<N>| (x.start + x.children.len() * 3 + x.node as usize) % m == q.min(m - 1);
            let first = sub.iter().find(|x| f(x)).copied();
            let every: Vec<&ASTNode<N>> = sub.iter().filter(|x| f(x)).copied().collect();
            if !same(t.find_tree(&f), first) {
                bad.push("find by predicate");
            }
            if !lists(&t.list_tree(&f), &every) {
                bad.push("list by predicate");
            }
            // Nested search.
            let path: Vec<N> = (0..r.below(4)).map(|_| r.below(vals) as N).collect();
            let mut at = Some(t);
            for p in &path {
                at = at.and_then(|a| {
                    let mut s = vec![];
                    pre(a, &mut s);
                    s.into_iter().find(|x| x.node == *p)
                });
            }
            if !same(t.find_nested_tree_with_node(&path), at) {
                bad.push("nested search");
            }
            c.count("queries compared", 7);
            if !bad.is_empty() {
                return c.viol("tree query", format!("{:?} for value {} path {:?} on {}", bad, v, path, show_a(std::slice::from_ref(t)).chars().take(3000).collect::<String>()));
            }
        }
    }
    if all.len() > 5 && all.len() < 40 {
        c.sample(|| shape);
    }
}
use crate::refi::show_a;

// ---------------------------------------------------------------- JSON

#[derive(Debug, Clone, PartialEq)]
struct J {
    kind: &'static str,
    start: usize,
    /// End of the text.
    end: usize,
    kids: Vec<J>,
}
struct Rd<'t> {
    b: &'t [u8],
    p: usize,
    depth: usize,
    max: usize,
    /// Starts of structural tokens, in order.
    toks: Vec<usize>,
}
impl<'t> Rd<'t> {
    fn ch(&self, p: usize) -> Option<(char, usize)> {
        let rest = &self.b[p..];
        for n in 1..=4.min(rest.len()) {
            if let Ok(s) = std::str::from_utf8(&rest[..n]) {
                return s.chars().next().map(|c| (c, n));
            }
        }
        None
    }
    fn ws(&mut self) {
        while let Some((c, n)) = self.ch(self.p) {
            if !c.is_whitespace() {
                break;
            }
            self.p += n;
        }
    }
    fn lit(&mut self, c: u8) -> bool {
        if self.b.get(self.p) == Some(&c) {
            self.toks.push(self.p);
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn string(&mut self) -> Option<(usize, usize)> {
        let s = self.p;
        let mut p = s;
        if self.b.get(p) != Some(&b'"') {
            return None;
        }
        p += 1;
        loop {
            let (c, n) = self.ch(p)?;
            p += n;
            match c {
                '"' => break,
                '\r' | '\n' => return None,
                '\\' => {
                    // A continued line, or any escaped character.
                    let blanks = |mut q: usize| {
                        while let Some((c, n)) = self.ch(q) {
                            if !c.is_whitespace() || c == '\r' || c == '\n' {
                                break;
                            }
                            q += n;
                        }
                        q
                    };
                    let q = blanks(p);
                    match self.ch(q) {
                        Some(('\r' | '\n', _)) => p = blanks(q + 1),
                        _ => {
                            let (c, n) = self.ch(p)?;
                            if c == '\n' {
                                return None;
                            }
                            p += n;
                        }
                    }
                }
                _ => {}
            }
        }
        self.toks.push(s);
        self.p = p;
        Some((s, p))
    }
    fn digits(&self, p: usize) -> usize {
        let mut q = p;
        while self.b.get(q).map_or(false, |c| c.is_ascii_digit()) {
            q += 1;
        }
        q
    }
    fn value(&mut self) -> Option<J> {
        self.depth += 1;
        self.max = self.max.max(self.depth);
        let s = self.p;
        let leaf = |kind, end| J { kind, start: s, end, kids: vec![] };
        let r = match *self.b.get(s)? {
            b'"' => {
                let (_, e) = self.string()?;
                leaf("String", e)
            }
            b'0'..=b'9' => {
                let mut e = self.digits(s);
                if self.b.get(e) == Some(&b'.') && self.digits(e + 1) > e + 1 {
                    e = self.digits(e + 1);
                }
                if matches!(self.b.get(e), Some(b'e' | b'E')) {
                    let mut q = e + 1;
                    if matches!(self.b.get(q), Some(b'+' | b'-')) {
                        q += 1;
                    }
                    if self.digits(q) > q {
                        e = self.digits(q);
                    }
                }
                self.toks.push(s);
                self.p = e;
                leaf("Number", e)
            }
            b't' | b'f' | b'n' => {
                let w = ["true", "false", "null"].into_iter().find(|w| self.b[s..].starts_with(w.as_bytes()))?;
                self.toks.push(s);
                self.p = s + w.len();
                leaf("Constant", self.p)
            }
            o @ (b'[' | b'{') => {
                let close = if o == b'[' { b']' } else { b'}' };
                self.lit(o);
                self.ws();
                let mut kids = vec![];
                if self.b.get(self.p) == Some(&close) {
                    kids.push(J { kind: "NULL", start: self.p, end: self.p, kids: vec![] });
                } else {
                    loop {
                        kids.push(if o == b'[' { self.value()? } else { self.item()? });
                        self.ws();
                        if !self.lit(b',') {
                            break;
                        }
                        self.ws();
                        if self.b.get(self.p) == Some(&close) {
                            break;
                        }
                    }
                }
                if !self.lit(close) {
                    return None;
                }
                J { kind: if o == b'[' { "Array" } else { "Object" }, start: s, end: self.p, kids }
            }
            _ => return None,
        };
        self.depth -= 1;
        Some(r)
    }
    fn item(&mut self) -> Option<J> {
        let (s, e) = self.string()?;
        let key = J { kind: "Key", start: s, end: e, kids: vec![] };
        self.ws();
        if !self.lit(b':') {
            return None;
        }
        self.ws();
        let v = self.value()?;
        Some(J { kind: "Item", start: s, end: v.end, kids: vec![key, v] })
    }
    fn doc(b: &'t [u8]) -> (Option<J>, Vec<usize>, usize) {
        let mut r = Rd { b, p: 0, depth: 0, max: 0, toks: vec![] };
        r.ws();
        let v = r.value();
        let ok = v.is_some() && {
            r.ws();
            r.p == b.len()
        };
        r.toks.push(b.len());
        (if ok { v } else { None }, r.toks, r.max)
    }
}

/// Does the tree mirror the document? `next`: start of the first structural token at or after a position,
/// where inner nodes of tokenized trees end.
fn mirror<T: NodeImpl>(t: &ASTNode<T>, j: &J, lexerless: bool, next: &dyn Fn(usize) -> usize) -> Result<(), String> {
    let kind = format!("{:?}", t.node);
    let want = if lexerless && j.kind == "Key" { "String" } else { j.kind };
    let inner = matches!(j.kind, "Array" | "Object" | "Item");
    let end = if inner && !lexerless { next(j.end) } else { j.end };
    if kind != want || t.start != j.start || t.end != end {
        return Err(format!("{} {}..{} in place of {} {}..{}", kind, t.start, t.end, want, j.start, end));
    }
    if t.children.len() != j.kids.len() {
        return Err(format!("{} at {}: {} children in place of {}", kind, t.start, t.children.len(), j.kids.len()));
    }
    t.children.iter().zip(&j.kids).try_for_each(|(t, j)| mirror(t, j, lexerless, next))
}

fn value(r: &mut Rng, fuel: &mut i32, depth: usize) -> serde_json::Value {
    use serde_json::Value as V;
    *fuel -= 1;
    match r.below(if depth == 0 || *fuel <= 0 { 7 } else { 11 }) {
        0 => V::Null,
        1 => V::Bool(r.pct(50)),
        2 => V::from(r.u64() >> r.below(64)),
        3 => V::from((r.u64() >> 11) as f64 / (1u64 << r.below(53)) as f64),
        4 => V::from(f64::from_bits(r.u64() & 0x7fff_ffff_ffff_ffff)),
        5 | 6 => V::String(word(r)),
        7 | 8 => V::Array((0..r.below(5)).map(|_| value(r, fuel, depth - 1)).collect()),
        _ => V::Object((0..r.below(5)).map(|_| (word(r), value(r, fuel, depth - 1))).collect()),
    }
}
fn word(r: &mut Rng) -> String {
    let n = r.size(5, 40);
    (0..n)
        .map(|_| match r.below(12) {
            0 => '"',
            1 => '\\',
            2 => '\n',
            3 => 'é',
            4 => '😀',
            5 => char::from_u32(r.below(0x20) as u32).unwrap(),
            6 => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
            7 => *r.pick(&['/', '\u{7f}', '\u{2028}', '\u{a0}', ' ', '[', '}', ':', ',']),
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

/// A document of the dialect, written freely.
fn free(r: &mut Rng, out: &mut String, fuel: &mut i32, depth: usize) {
    *fuel -= 1;
    match r.below(if depth == 0 || *fuel <= 0 { 6 } else { 12 }) {
        0 | 1 => {
            for _ in 0..r.range(1, 4) {
                out.push((b'0' + r.below(10) as u8) as char);
            }
            if r.pct(40) {
                let _ = write!(out, ".{}", r.below(1000));
            }
            if r.pct(40) {
                let _ = write!(out, "{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), r.below(400));
            }
        }
        2 => out.push_str(*r.pick(&["true", "false", "null"])),
        3..=5 => literal(r, out),
        k => {
            let arr = k < 9;
            out.push(if arr { '[' } else { '{' });
            let n = r.below(4);
            space(r, out);
            for i in 0..n {
                if !arr {
                    literal(r, out);
                    space(r, out);
                    out.push(':');
                    space(r, out);
                }
                free(r, out, fuel, depth - 1);
                space(r, out);
                if i + 1 < n || r.pct(30) {
                    out.push(',');
                    space(r, out);
                }
            }
            out.push(if arr { ']' } else { '}' });
        }
    }
}
fn space(r: &mut Rng, out: &mut String) {
    for _ in 0..*r.pick(&[0usize, 0, 0, 1, 1, 2]) {
        out.push(*r.pick(&[' ', ' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{85}', '\u{c}']));
    }
}
fn literal(r: &mut Rng, out: &mut String) {
    out.push('"');
    for _ in 0..r.size(4, 30) {
        match r.below(12) {
            0 => out.push_str("\\\""),
            1 => out.push_str("\\\\"),
            2 => out.push_str(*r.pick(&["\\n", "\\u00e9", "\\q", "\\é", "\\😀", "\\ "])),
            3 => out.push_str(*r.pick(&["\\\n", "\\ \t\n  ", "\\\r", "\\\r  "])),
            4 => out.push_str(*r.pick(&["é", "😀", "\u{2028}", "\t", "\0", "{", "]", ","])),
            _ => out.push((b'a' + r.below(26) as u8) as char),
        }
    }
    out.push('"');
}
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        let i = r.below(n + 1);
        match r.below(8) {
            0 | 1 if i < n => {
                b.remove(i);
            }
            2 | 3 => b.insert(i, *r.pick(b"{}[],:\"\\ \n0e.+-tfn")),
            4 if i < n => b[i] = *r.pick(b"{}[],:\"\\ \n0e.+-tfn"),
            5 => b.truncate(i),
            6 if n > 0 => {
                let j = r.below(n);
                let (a, z) = (i.min(j), i.max(j).min(i.min(j) + 12));
                let part = b[a..z.min(n)].to_vec();
                let k = r.below(n);
                b.splice(k..k, part);
            }
            _ => b.insert(i, r.below(256) as u8),
        }
    }
}

type TP = lang_pt::DefaultParser<lang_pt::examples::json::tokenized::JSONNode, lang_pt::examples::json::tokenized::JSONToken>;
type LP = lang_pt::LexerlessParser<lang_pt::examples::json::lexerless::JSONNode, i8>;
thread_local! {
    static JSON: (TP, LP) = (
        lang_pt::examples::json::tokenized::json_grammar(),
        lang_pt::examples::json::lexerless::json_lexerless_grammar(),
    );
}

fn one<T: NodeImpl + Debug>(
    c: &mut Ctx,
    which: &str,
    t: &[u8],
    want: &Option<J>,
    lexerless: bool,
    next: &dyn Fn(usize) -> usize,
    got: Result<Result<Vec<ASTNode<T>>, ParseError>, String>,
) -> bool {
    let bad = match (&got, want) {
        (Err(p), _) => format!("panics: {}", p),
        (Ok(Ok(tr)), Some(j)) => {
            let main = J { kind: "Main", start: if lexerless { 0 } else { j.start }, end: t.len(), kids: vec![j.clone()] };
            match tr.as_slice() {
                [m] => match mirror(m, &main, lexerless, next) {
                    Ok(()) => return true,
                    Err(e) => format!("tree differs: {}", e),
                },
                _ => format!("{} trees", tr.len()),
            }
        }
        (Ok(Err(e)), None) if e.pointer <= t.len() => {
            if crate::c_parse::printed_position(&e.message) == Some(crate::c_parse::line_col(t, e.pointer)) {
                return true;
            }
            format!("position of {} in {:?}", e.pointer, e.message)
        }
        (Ok(Err(e)), _) => format!("rejected: {} {:?}", e.pointer, e.message),
        (Ok(Ok(_)), None) => "accepted a document outside the dialect".into(),
    };
    c.viol(&format!("{} JSON parser", which), format!("{}\n{}", text(t), bad));
    false
}

pub fn c20(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    for _ in 0..8 {
        let mut fuel = *r.pick(&[3i32, 10, 40, 200]);
        let depth = r.range(0, 7);
        let source = r.below(10);
        let mut t: Vec<u8> = match source {
            0..=3 => {
                let v = value(r, &mut fuel, depth);
                if r.pct(50) { serde_json::to_vec(&v) } else { serde_json::to_vec_pretty(&v) }.unwrap()
            }
            4 if r.pct(20) => {
                let k = *r.pick(&[10usize, 60, 300]);
                let (o, z) = if r.pct(50) { ("[", "]") } else { ("{\"k\":", "}") };
                format!("{}1{}", o.repeat(k), z.repeat(k)).into_bytes()
            }
            _ => {
                let mut s = String::new();
                space(r, &mut s);
                free(r, &mut s, &mut fuel, depth);
                space(r, &mut s);
                s.into_bytes()
            }
        };
        let intact = t.clone();
        let long = r.pct(5);
        if long {
            stretch(r, &mut t);
        }
        let hurt = r.pct(45);
        if hurt {
            damage(r, &mut t);
        }
        let hurt = hurt || long;
        let (want, toks, max) = Rd::doc(&t);
        c.count(if want.is_some() { "documents in the dialect" } else { "documents outside the dialect" }, 1);
        c.max("deepest nesting", max as u64);
        c.max("longest document", t.len() as u64);
        if !hurt {
            c.count(if source < 4 { "documents by serde_json" } else { "documents of the dialect" }, 1);
            if want.is_none() {
                c.viol("the reference refuses a generated document", text(&intact));
                continue;
            }
        }
        let next = |p: usize| toks.iter().copied().find(|t| *t >= p).unwrap_or(p);
        c.eval(if t.len() > 2 { Some(hash(&t)) } else { None });
        let around = amid(&t);
        let (a, b) = JSON.with(|(a, b)| (guard(|| a.parse(&around)), guard(|| b.parse(&around))));
        let ok = one(c, "tokenized", &t, &want, false, &next, a) & one(c, "lexerless", &t, &want, true, &next, b);
        if ok && want.is_some() && t.len() > 30 {
            c.sample(|| text(&t));
        }
    }
}
