//! C25: what log labels print. The standard output of one call is redirected into memory and compared with what the
//! probes around every production and lexeme saw.
use crate::c_parse::{case, either, line_col};
use crate::ctx::*;
use crate::gen::*;
use crate::gram::*;
use crate::lexgen::*;
use lang_pt::{ASTNode, TokenImpl};
use crate::rng::*;
use crate::sys::*;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom, Write};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::os::raw::c_char, flags: u32) -> i32;
}

/// What `f` writes to the standard output.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, String) {
    use std::os::unix::io::FromRawFd;
    let mut out = std::io::stdout();
    out.flush().unwrap();
    unsafe {
        let m = memfd_create(b"log\0".as_ptr() as *const _, 0);
        let old = dup(1);
        assert!(m >= 0 && old >= 0 && dup2(m, 1) == 1);
        let r = f();
        out.flush().unwrap();
        assert!(dup2(old, 1) == 1);
        close(old);
        let mut file = std::fs::File::from_raw_fd(m);
        file.seek(SeekFrom::Start(0)).unwrap();
        let mut b = vec![];
        file.read_to_end(&mut b).unwrap();
        (r, String::from_utf8_lossy(&b).to_string())
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Line {
    Enter,
    Ok((usize, usize), (usize, usize)),
    No((usize, usize)),
    Invalid((usize, usize)),
    Lex(i8, (usize, usize), (usize, usize)),
    Switch(u8, u8, (usize, usize)),
    Failed(u8, (usize, usize)),
    Done,
}

fn pos(s: &str) -> Option<((usize, usize), &str)> {
    let s = s.trim_start().strip_prefix("{ line: ")?;
    let (l, s) = s.split_once(", column: ")?;
    let (k, s) = s.split_once(" }")?;
    Some(((l.parse().ok()?, k.parse().ok()?), s))
}
/// The line and what follows its label, or None for anything else.
fn read(l: &str) -> Option<(&str, Line)> {
    if let Some(x) = l.strip_prefix("Entering '") {
        return Some((x.strip_suffix("'")?, Line::Enter));
    }
    if let Some(x) = l.strip_prefix("Parsing Success for '") {
        let (n, x) = x.split_once("': from ")?;
        let (a, x) = pos(x)?;
        let (b, _) = pos(x.strip_prefix(" to ")?)?;
        return Some((n, Line::Ok(a, b)));
    }
    if let Some(x) = l.strip_prefix("Unparsed production '") {
        let (n, x) = x.split_once("': at ")?;
        return Some((n, Line::No(pos(x)?.0)));
    }
    if let Some(x) = l.strip_prefix("Validation error '") {
        let (n, x) = x.split_once("': at ")?;
        return Some((n, Line::Invalid(pos(x)?.0)));
    }
    if let Some(x) = l.strip_prefix("Lexeme Success for ") {
        let (n, x) = x.split_once(" : token: ")?;
        let (t, x) = x.split_once(" from ")?;
        let (a, x) = pos(x)?;
        let (b, _) = pos(x.strip_prefix(" to ")?)?;
        return Some((n, Line::Lex(t.parse().ok()?, a, b)));
    }
    if let Some(x) = l.strip_prefix("Lexeme error for ") {
        let (n, x) = x.split_once(" : at ")?;
        return Some((n, Line::No(pos(x)?.0)));
    }
    if let Some(x) = l.strip_prefix("Entering ") {
        return Some((x, Line::Enter));
    }
    let (n, x) = match (l.strip_prefix("["), l.split_once(':')) {
        (Some(x), _) => x.split_once(';')?,
        (None, x) => x?,
    };
    let n = n.trim();
    if x.contains("success") {
        return Some((n, Line::Done));
    }
    let nums: Vec<usize> = x.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
    match nums[..] {
        [s, l, k] if x.contains("failed") => Some((n, Line::Failed(s as u8, (l, k)))),
        [a, b, l, k] if x.contains("Switching") => Some((n, Line::Switch(a as u8, b as u8, (l, k)))),
        _ => None,
    }
}

/// Compares the lines of one label with the ones wanted; `same` is the comparison of two lines.
fn compare(c: &mut Ctx, what: &str, ctx: &str, label: &str, lv: u8, want: &[Line], seen: &[Line], same: impl Fn(usize, &Line) -> bool) {
    c.eval(None);
    c.count(&format!("labels compared at {}", LEVELS[lv as usize]), 1);
    c.count("log lines compared", want.len() as u64);
    let ok = want.len() == seen.len() && seen.iter().enumerate().all(|(i, l)| same(i, l));
    if !ok {
        let i = (0..seen.len().min(want.len())).find(|i| !same(*i, &seen[*i]));
        c.viol(
            what,
            format!(
                "{}\nlabel {} at {}: {} lines expected, {} printed; first difference: {:?}\nexpected {:?}\nprinted {:?}",
                ctx,
                label,
                LEVELS[lv as usize],
                want.len(),
                seen.len(),
                i.map(|i| (&want[i], &seen[i])),
                &want[..want.len().min(40)],
                &seen[..seen.len().min(40)]
            ),
        );
    }
}

const LEVELS: [&str; 6] = ["no label", "Log::None", "Log::Default", "Log::Success", "Log::Result", "Log::Verbose"];

fn by_label(text: &str) -> HashMap<&str, Vec<Line>> {
    let mut seen: HashMap<&str, Vec<Line>> = HashMap::new();
    for l in text.lines() {
        if let Some((n, l)) = read(l) {
            seen.entry(n).or_default().push(l);
        }
    }
    seen
}

fn stray(c: &mut Ctx, ctx: &str, text: &str, seen: &HashMap<&str, Vec<Line>>, log: u8) {
    for (n, l) in seen {
        for l in l {
            let lv = own_level(log, n);
            let least = match l {
                Line::Switch(..) | Line::Failed(..) => 2,
                // What a lexeme prints on entry is not specified, but a label of level None prints nothing.
                Line::Enter if n.is_empty() || n.starts_with('x') => 2,
                Line::Enter => 5,
                _ => 3,
            };
            if lv < least {
                return c.viol(
                    "a label prints more than its level allows",
                    format!("{}\nlabel {:?} at {}: {:?}\n{}", ctx, n, LEVELS[lv as usize], l, text.chars().take(2000).collect::<String>()),
                );
            }
        }
    }
}

/// Line and column of every offset.
fn places(t: &[u8]) -> Vec<(usize, usize)> {
    let (mut l, mut k) = (1, 1);
    let mut v = vec![(1, 1)];
    for b in t {
        if *b == b'\n' {
            l += 1;
            k = 0;
        }
        k += 1;
        v.push((l, k));
    }
    v
}

fn tokenizer_logs(c: &mut Ctx, r: &mut Rng) {
    let states = if r.pct(60) { 4 } else { 1 };
    let log = r.range(100, 250) as u8;
    let x = lexers(r, &LexProfile { states, actions: if states > 1 { 40 } else { 0 }, catch_all: 60 });
    let b = match guard(|| x.build(log, r.pct(50))) {
        Ok(b) => b,
        Err(_) => return,
    };
    for _ in 0..6 {
        let t = lex_text(r, &x);
        if t.len() > if r.pct(15) { 8000 } else { 1500 } {
            continue;
        }
        let table = places(&t);
        let line_col = |_: &[u8], p: usize| table[p];
        let ctx = format!("{}\ninput: {}", x.show(), text(&t));
        b.mon.calls.set(0);
        b.mon.limit.set(50_000);
        b.mon.record.set(true);
        b.mon.events.borrow_mut().clear();
        b.mon.seen.borrow_mut().clear();
        let (got, out) = captured(|| crate::c_lex::run_tok(&b, &t));
        let got = match got {
            Ok(g) => g,
            Err(_) => continue,
        };
        let seen = by_label(&out);
        stray(c, &ctx, &out, &seen, log);
        let none = vec![];
        let mut want: HashMap<&str, Vec<Line>> = HashMap::new();
        for (n, p, m) in b.mon.seen.borrow().iter() {
            let lv = own_level(log, n);
            let w = want.entry(n).or_default();
            match m {
                Some((tok, s, e)) if lv >= 3 => w.push(Line::Lex(*tok, line_col(&t, *s), line_col(&t, *e))),
                None if lv >= 4 => w.push(Line::No(line_col(&t, *p))),
                _ => (),
            }
        }
        for (n, w) in &want {
            let s: Vec<Line> = seen.get(n).unwrap_or(&none).iter().filter(|l| **l != Line::Enter).cloned().collect();
            compare(c, "a lexeme label does not print what the lexeme did", &ctx, n, own_level(log, n), w, &s, |i, l| w[i] == *l);
        }
        if x.combined || x.states.len() > 1 {
            let lv = own_level(log, "tokenizer");
            let mut w = vec![];
            let mut cur = x.states[0].0;
            for (s, p, _, _) in b.mon.events.borrow().iter() {
                if *s != cur && lv >= 2 {
                    w.push(Line::Switch(cur, *s, line_col(&t, *p)));
                }
                cur = *s;
            }
            match &got {
                Ok(_) if lv >= 3 && !t.is_empty() => w.push(Line::Done),
                Err((p, _)) if lv >= 2 => w.push(Line::Failed(cur, line_col(&t, *p))),
                _ => (),
            }
            // States without lexemes leave no trace in the events.
            if x.states.iter().all(|s| !s.1.is_empty()) {
                let s: Vec<Line> = seen
                    .get("tokenizer")
                    .unwrap_or(&none)
                    .iter()
                    .filter(|l| !(t.is_empty() && **l == Line::Done))
                    .cloned()
                    .collect();
                c.count("state switches reported", w.iter().filter(|l| matches!(l, Line::Switch(..))).count() as u64);
                compare(c, "the tokenizer's label does not print what it did", &ctx, "tokenizer", lv, &w, &s, |i, l| w[i] == *l);
            }
        }
    }
}

#[cfg(not(debug_assertions))]
pub fn c25(c: &mut Ctx) {
    let _ = c;
}

#[cfg(debug_assertions)]
pub fn c25(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(35) {
        return tokenizer_logs(c, r);
    }
    let mut p = either(r, 60);
    p.trivia = p.mode == Mode::Token && r.pct(35);
    p.memo = if p.trivia { 0 } else { *r.pick(&[0, 0, 6]) };
    p.errors = r.pct(40);
    let log = r.range(100, 250) as u8;
    let (cs, sys, f) = match case(r, &p, log, c) {
        Some(x) => x,
        None => return,
    };
    let mut name: HashMap<u32, &'static str> = HashMap::new();
    cs.g.each(&mut |x| {
        let n = match &x.k {
            K::Ref(i) => cs.g.names[*i],
            _ => label(format!("e{}", x.id)),
        };
        name.insert(x.id, n);
    });
    for t in inputs(r, &cs.g, &f, &p, 6, true) {
        if t.len() > if r.pct(15) { 8000 } else { 1500 } {
            continue;
        }
        let table = places(&t);
        let line_col = |_: &[u8], p: usize| table[p];
        let (got, out) = captured(|| sys.parse(&t, 20_000, true));
        if let Out::Panic(_) = got {
            continue;
        }
        let ctx = cs.show(&t);
        let seen = by_label(&out);
        stray(c, &ctx, &out, &seen, log);
        let none = vec![];
        // Where a token ends, by the start of the structural token after it: both are the end of a match.
        let mut ends: HashMap<usize, usize> = HashMap::new();
        if cs.mode == Mode::Token {
            if let Ok(toks) = sys.tokens(&t) {
                let mut last = 0;
                for k in &toks {
                    ends.insert(k.start, last);
                    if k.token.is_structural() {
                        last = k.end;
                    }
                }
            }
        }
        let mut want: HashMap<&str, Vec<(Line, usize)>> = HashMap::new();
        for e in sys.built.mon.events.borrow().iter() {
            let n = name[&e.id];
            let lv = own_level(log, n);
            let at = line_col(&t, e.at);
            let w = want.entry(n).or_default();
            match (e.end, e.invalid, lv) {
                (Some(x), _, 3..=5) => {
                    let y = ends.get(&x).filter(|y| **y > e.at).unwrap_or(&x);
                    w.push((Line::Ok(at, line_col(&t, x)), *y));
                }
                (None, true, 4..=5) => w.push((Line::Invalid(at), 0)),
                (None, false, 4..=5) => w.push((Line::No(at), 0)),
                _ => (),
            }
        }
        for (n, w) in &want {
            let s: Vec<Line> = seen.get(n).unwrap_or(&none).iter().filter(|l| **l != Line::Enter).cloned().collect();
            let l: Vec<Line> = w.iter().map(|x| x.0.clone()).collect();
            compare(c, "a production's label does not print what the production did", &ctx, n, own_level(log, n), &l, &s, |i, l| {
                match (&w[i], l) {
                    ((Line::Ok(a, b), y), Line::Ok(d, e)) => a == d && (b == e || *e == line_col(&t, *y)),
                    ((Line::Invalid(_), _), Line::Invalid(p)) => match &got {
                        Out::Err(q, _) => *p == line_col(&t, *q),
                        _ => true,
                    },
                    ((a, _), b) => a == b,
                }
            });
            if s.len() > 3 {
                c.sample(|| format!("{}\nlabel {} at {}: {:?}", ctx, n, LEVELS[own_level(log, n) as usize], s));
                c.eval(Some(hash(n.as_bytes()) ^ cs.key(&t)));
            }
        }
    }
}

/// A tree drawn with lines: depth and text of each node.
fn drawn(s: &str) -> Vec<(usize, String)> {
    s.lines()
        .map(|l| {
            let n = l.chars().take_while(|c| " │├└─".contains(*c)).count();
            (n / 3, l.chars().skip(n).collect())
        })
        .collect()
}

fn flat<'t, T>(t: &'t ASTNode<T>, d: usize, out: &mut Vec<(usize, &'t ASTNode<T>)>) {
    out.push((d, t));
    for x in &t.children {
        flat(x, d + 1, out);
    }
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}

/// Every printed form of a tree names its nodes in order.
fn printed<T: std::fmt::Debug + Clone + PartialEq>(c: &mut Ctx, t: &ASTNode<T>, ctx: &dyn Fn() -> String, value: impl Fn(&T) -> Vec<usize>) {
    let mut all = vec![];
    flat(t, 0, &mut all);
    let (r, out) = captured(|| crate::sys::guard(|| t.print().is_ok()));
    let got = drawn(&out);
    let want: Vec<(usize, String)> = all.iter().map(|(d, n)| (*d, format!("{:?} # {}-{}", n.node, n.start, n.end))).collect();
    c.eval(if all.len() > 2 { Some(hash(out.as_bytes())) } else { None });
    if all.len() > 3 {
        c.sample(|| format!("{}\n{}", ctx(), out));
    }
    c.count("nodes printed", all.len() as u64);
    c.max("depth printed", all.iter().map(|x| x.0).max().unwrap_or(0) as u64);
    if r != Ok(true) || got != want {
        let i = (0..got.len().min(want.len())).find(|i| got[*i] != want[*i]);
        c.viol(
            "the drawn tree is not the tree",
            format!("{}\nresult {:?}, {} lines for {} nodes, first difference {:?}\n{}", ctx(), r, got.len(), want.len(), i.map(|i| (&want[i], &got[i])), out.chars().take(2000).collect::<String>()),
        );
    }
    let nums: Vec<usize> = all.iter().flat_map(|(_, n)| value(&n.node).into_iter().chain([n.start, n.end])).collect();
    // The pretty form costs the cube of the depth.
    let deep = all.iter().map(|x| x.0).max().unwrap_or(0) > 120;
    let mut forms = vec![("Debug", format!("{:?}", t)), ("Display", format!("{}", t))];
    if !deep {
        forms.push(("pretty Debug", format!("{:#?}", t)));
    }
    for (form, s) in forms {
        c.eval(None);
        if numbers(&s) != nums {
            c.viol(
                "a printed form of a tree does not name every node in order",
                format!("{}\n{}: {}\nnumbers expected {:?}", ctx(), form, s.chars().take(3000).collect::<String>(), nums),
            );
        }
    }
    // Nesting: as many levels of children open at each value as the node has ancestors.
    let s = format!("{:?}", t);
    let mut depth = 0usize;
    let mut seen = vec![];
    for (i, ch) in s.char_indices() {
        match ch {
            '[' => depth += 1,
            ']' => depth = depth.wrapping_sub(1),
            's' if s[i..].starts_with("start: ") => seen.push(depth),
            _ => (),
        }
    }
    if seen != all.iter().map(|x| x.0).collect::<Vec<_>>() {
        c.viol("Debug nests the nodes wrongly", format!("{}\n{}", ctx(), s.chars().take(3000).collect::<String>()));
    }
    let cl = t.clone();
    let same = {
        let mut b = vec![];
        flat(&cl, 0, &mut b);
        b.len() == all.len() && b.iter().zip(&all).all(|(x, y)| x.0 == y.0 && x.1.node == y.1.node && (x.1.start, x.1.end, x.1.bound) == (y.1.start, y.1.end, y.1.bound))
    };
    if !same {
        c.viol("a clone is not the tree", ctx());
    }
}

/// A tree of given shape made with the public constructors.
fn made<T: lang_pt::NodeImpl + PartialEq>(r: &mut Rng, depth: usize, left: &mut usize, v: &mut dyn FnMut(&mut Rng) -> T, c: &mut Ctx) -> ASTNode<T> {
    let (s, e) = (r.below(5000), r.below(5000));
    let bound = if r.pct(50) { Some((lang_pt::TokenPtr::default(), lang_pt::TokenPtr::default() + r.range(1, 9))) } else { None };
    let mut kids = vec![];
    if depth > 0 {
        for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 5]) {
            if *left == 0 {
                break;
            }
            *left -= 1;
            kids.push(made(r, depth - 1, left, v, c));
        }
    }
    let x = v(r);
    let n = kids.len();
    let (t, want) = if n == 0 && r.pct(40) {
        (ASTNode::leaf(x.clone(), s, e, bound), (x, s, e, bound))
    } else if n == 0 && r.pct(30) {
        let b = bound.map(|b| b.1);
        (ASTNode::null(s, b), (T::null(), s, s, b.map(|b| (b, b))))
    } else {
        (ASTNode::new(x.clone(), s, e, bound, kids), (x, s, e, bound))
    };
    c.eval(None);
    if t.node != want.0 || t.start != want.1 || t.end != want.2 || t.bound != want.3 || t.children.len() != n {
        c.viol("a node is not what it was made of", format!("{:?} bound {:?} expected {:?}", t, t.bound, want));
    }
    t
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Text(&'static str);
impl lang_pt::NodeImpl for Text {
    fn null() -> Self {
        Text("null")
    }
}

pub fn c26(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    // Tokens, pointers, positions and errors.
    for _ in 0..4 {
        let (t, a, b) = (r.below(100) as i8, r.below(9000), r.below(9000));
        let l = lang_pt::Lex::new(t, a, b);
        let forms = [
            (format!("{}", l), vec![t as usize, a, b]),
            (format!("{:?}", l), vec![t as usize, a, b]),
            (format!("{}", lang_pt::Position::new(a, b)), vec![a, b]),
            (format!("{}", lang_pt::TokenPtr::default() + (a + 1)), vec![a + 1]),
            (format!("{}", lang_pt::FltrPtr::default() + (b + 1)), vec![b + 1]),
            (format!("{}", lang_pt::ParseError::new(a, format!("found {} é", b))), vec![b]),
            (format!("{}", lang_pt::ImplementationError::new(format!("what {}", a), format!("message {}", b))), vec![a, b]),
        ];
        for (s, n) in &forms {
            c.eval(Some(hash(s.as_bytes())));
            if numbers(s) != *n || !s.is_char_boundary(s.len()) {
                c.viol("a printed form leaves something out", format!("{:?} expected {:?}", s, n));
            }
        }
        if !forms[5].0.contains(&format!("found {} é", b)) || !forms[6].0.contains(&format!("what {}", a)) || !forms[6].0.contains(&format!("message {}", b)) {
            c.viol("an error does not print its message", format!("{:?} {:?}", forms[5], forms[6]));
        }
    }
    match r.below(3) {
        0 => {
            let mut left = r.range(0, 60);
            let depth = if r.pct(10) { r.range(20, 60) } else { r.range(0, 6) };
            let t = made::<u16>(r, depth, &mut left, &mut |r| r.below(70) as u16, c);
            printed(c, &t, &|| format!("{:?}", t), |v| vec![*v as usize]);
        }
        1 => {
            let mut left = r.range(0, 30);
            let t = made::<Text>(r, 5, &mut left, &mut |r| Text(*r.pick(&["a", "é\n", "# 4", "│ ", "\"", "", "├─ x # 1-2", "end: "])), c);
            printed(c, &t, &|| format!("{:?}", t), |v| numbers(v.0));
        }
        _ => {
            let p = either(r, 60);
            let (cs, sys, f) = match case(r, &p, 0, c) {
                Some(x) => x,
                None => return,
            };
            for t in inputs(r, &cs.g, &f, &p, 4, false) {
                // Indenting is quadratic in the depth.
                if t.len() > 400 {
                    continue;
                }
                if let Out::Ok(l) = sys.parse(&t, 20_000, false) {
                    for n in &l {
                        printed(c, n, &|| cs.show(&t), |v| vec![*v as usize]);
                    }
                }
            }
        }
    }
}
