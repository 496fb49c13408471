//! Lexeme set and text generators.
use crate::lexg::*;
use crate::rng::Rng;

pub const PATS: [(&str, &[&str]); 30] = [
    (r#"^/+[a"'/\\]*/+"#, &["//", "///", "/a/", "/\"\\//"]),
    (r"^[a-z]+", &["if", "abc", "z", "let"]),
    (r"^[ab]+", &["a", "ab", "bab"]),
    (r"^[0-9]+", &["0", "17", "4096"]),
    (r"^\s+", &[" ", "\n", " \t\r\n "]),
    (r"^a+b?", &["a", "ab", "aaab"]),
    (r"^(if|ab)", &["if", "ab"]),
    (r"^é+", &["é", "éé"]),
    (r"^[^a-z\s]", &["A", "é", "{"]),
    (r#"^"[^"]*""#, &["\"\"", "\"a\nb\"", "\"é😀\""]),
    (r"^x\b", &["x", "x "]),
    (r"^\w+", &["foo_1", "éa", "A9"]),
    (r"^[+\-]?[0-9]+", &["+1", "-20", "3"]),
    (r"^/\*[^*]*\*/", &["/**/", "/* é */"]),
    (r"^(?-u:[\x80-\xff])+", &["é", "😀"]),
    (r"^\n", &["\n"]),
    (r"^a$", &["a"]),
    (r"^ab(c)?", &["ab", "abc"]),
    (r"^[{}()<>]", &["{", "}", "<"]),
    (r"^(<<|<|<=)", &["<", "<<", "<="]),
    (r"^.", &["a", "é", "?"]),
    (r"^(?s-u:.)", &["a", "\u{e9}", "\n"]),
    (r"^[^<{]+", &["text ", "é\nx"]),
    (r"^(?i:let|é)", &["LET", "lEt", "É"]),
    (r"^\p{Lu}\p{Ll}*", &["Abc", "Éa", "B"]),
    (r"^a{2,3}?", &["aa", "aaaa"]),
    (r"^do|^end", &["do", "end"]),
    (r"(?i)^do[0-9]?", &["DO1", "Do", "do"]),
    (r"\A[xy]", &["x", "y"]),
    (r"(?x)^ < \s* [a-z] # name", &["<a", "< b"]),
];
pub const WORDS: [&str; 34] = [
    "a", "b", "ab", "abc", "abcd", "abd", "if", "iff", "let", "<", "<<", "<<=", "<<<", "<=", "=",
    "==", "===", "=>", "{", "}", "{{", "(", ")", "é", "éé", "éa", "è", "ü", "😀", "😁", "\n", " ",
    "\0", "aaaaaaaa",
];

/// A long string: keywords of any length, character width and quoting.
pub fn long(r: &mut Rng) -> String {
    let n = *r.pick(&[5usize, 5, 9, 9, 17, 17, 40, 40, 120, 300]);
    let wide = r.pct(60);
    (0..r.range(2, n))
        .map(|_| match r.below(if wide { 9 } else { 3 }) {
            0 => 'a',
            1 => 'b',
            2 => *r.pick(&['_', '<', '"', '\\', '/', '[', ']', '|', ' ', '{']),
            3 | 4 => 'é',
            5 => '日',
            6 => '😀',
            7 => '\u{301}',
            _ => 'ü',
        })
        .collect()
}

fn set(r: &mut Rng, toks: &[i8]) -> Vec<(String, i8)> {
    let huge = r.below(150) == 0;
    let n = if huge { *r.pick(&[70usize, 140, 300]) } else { r.size(5, 30) + 1 };
    let mut v: Vec<(String, i8)> = vec![];
    for _ in 0..n {
        let s = match r.below(10) {
            0..=6 if huge => format!("{}{}{}", r.pick(&WORDS), r.pick(&WORDS), r.below(100)),
            0..=5 => r.pick(&WORDS).to_string(),
            6 if r.pct(35) => long(r),
            6 => r.pick(&WORDS).to_string(),
            7 => format!("{}{}", r.pick(&WORDS), r.pick(&WORDS)),
            8 if !v.is_empty() => {
                // Extend a member, leaving a gap in the prefix chain.
                let i = r.below(v.len());
                format!("{}{}{}", v[i].0, r.pick(&WORDS), r.pick(&WORDS))
            }
            _ => (0..r.range(1, 6)).map(|_| *r.pick(&['<', '=', 'a', 'é', 'è', '>'])).collect(),
        };
        if v.iter().all(|x| x.0 != s) {
            v.push((s, *r.pick(toks)));
        }
    }
    if r.below(12) == 0 {
        let t = prefixes(r);
        for s in t {
            if v.iter().all(|x| x.0 != s) {
                v.push((s, *r.pick(toks)));
            }
        }
    }
    r.shuffle(&mut v);
    v
}
/// A long string and some of its beginnings.
pub fn prefixes(r: &mut Rng) -> Vec<String> {
    let mut s = long(r);
    if r.pct(50) {
        let k = *r.pick(&[20usize, 70, 260, 700]) / s.len() + 1;
        s = s.repeat(k);
    }
    let ends: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).collect();
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        if !ends.is_empty() {
            let e = if r.pct(30) { ends[r.below(ends.len().min(12))] } else { *r.pick(&ends) };
            v.push(s[..e].to_string());
        }
    }
    v.push(s);
    v
}
pub fn fixed_set(r: &mut Rng) -> Vec<(String, i8)> {
    let toks: Vec<i8> = (0..100).collect();
    let mut v = set(r, &toks);
    for (i, x) in v.iter_mut().enumerate() {
        x.1 = i as i8 % 120;
    }
    v
}

pub fn samples(l: &L, r: &mut Rng) -> String {
    match l {
        L::Pat(_, s) => PATS
            .iter()
            .find(|p| p.0 == *s)
            .map_or(String::from("a"), |p| r.pick(p.1).to_string()),
        L::Consts(v) | L::Punct(v) if v.is_empty() => String::from("a"),
        L::Consts(v) | L::Punct(v) => r.pick(v).0.clone(),
        L::Map(x, v) => {
            if r.pct(50) && !v.is_empty() {
                r.pick(v).0.clone()
            } else {
                samples(x, r)
            }
        }
        L::TMap(x, _) | L::Mid(x, _) | L::Mix(x, _) | L::TMix(x, _) => samples(x, r),
    }
}
fn tokens_of(l: &L, out: &mut Vec<i8>) {
    match l {
        L::Pat(t, _) => out.push(*t),
        L::Consts(v) | L::Punct(v) => out.extend(v.iter().map(|x| x.1)),
        L::Map(x, v) => {
            tokens_of(x, out);
            out.extend(v.iter().map(|x| x.1));
        }
        L::TMap(x, k) => {
            tokens_of(x, out);
            out.push(match k {
                TMapK::LenMod(_, _, t)
                | TMapK::AfterTok(_, t)
                | TMapK::NextByte(_, t)
                | TMapK::Before(_, _, t)
                | TMapK::StreamLen(_, t) => *t,
            });
        }
        L::Mid(x, _) | L::Mix(x, _) | L::TMix(x, _) => tokens_of(x, out),
    }
}

pub struct LexProfile {
    pub states: usize,
    /// Percent of lexemes with state actions.
    pub actions: usize,
    /// A last lexeme that takes any byte, so that most inputs are accepted.
    pub catch_all: usize,
}

fn act(r: &mut Rng, states: &[u8]) -> Act {
    let d = r.pct(30);
    match r.below(8) {
        0..=2 => Act::Append(*r.pick(states), d),
        3 | 4 => Act::Pop(d),
        5 | 6 => Act::Switch(*r.pick(states), d),
        _ => Act::None(d),
    }
}

fn lexeme(r: &mut Rng, toks: &[i8], states: &[u8], p: &LexProfile, depth: usize) -> L {
    let roll = r.below(100);
    if depth < 4 && roll < 34 {
        let x = Box::new(lexeme(r, toks, states, p, depth + 1));
        return match r.below(3) {
            0 => {
                let n = if r.below(40) == 0 { 0 } else { r.range(1, 5) };
                let mut v: Vec<(String, i8)> = vec![];
                for _ in 0..n {
                    let s = if r.pct(75) {
                        samples(&x, r)
                    } else if r.pct(30) {
                        long(r)
                    } else {
                        r.pick(&WORDS).to_string()
                    };
                    if v.iter().all(|y| y.0 != s) && !s.is_empty() {
                        v.push((s, *r.pick(toks)));
                    }
                }
                L::Map(x, v)
            }
            1 => {
                let t = *r.pick(toks);
                let a = *r.pick(toks);
                let m = r.range(2, 3);
                let k = match r.below(5) {
                    4 => TMapK::Before(r.below(12), a, t),
                    0 => TMapK::LenMod(m, r.below(m), t),
                    1 => TMapK::AfterTok(a, t),
                    2 => TMapK::NextByte(*r.pick(b"a (<\n1"), t),
                    _ => TMapK::StreamLen(r.below(4), t),
                };
                L::TMap(x, k)
            }
            _ => {
                let m = r.range(2, 3);
                let k = match r.below(5) {
                    4 => MidK::Before(r.below(12), *r.pick(toks), r.pct(50)),
                    0 => MidK::LastTok(*r.pick(toks), r.pct(50)),
                    1 => MidK::CountMod(m, r.below(m)),
                    2 => MidK::CodeLenMin(r.below(12)),
                    _ => MidK::EvenPos,
                };
                L::Mid(x, k)
            }
        };
    }
    if depth < 4 && roll < 34 + p.actions {
        let x = Box::new(lexeme(r, toks, states, p, depth + 1));
        let mut ts = vec![];
        tokens_of(&x, &mut ts);
        if r.pct(65) {
            let n = if r.below(40) == 0 { 0 } else { r.range(1, 3) };
            let mut v: Vec<(i8, Act)> = vec![];
            for _ in 0..n {
                let t = if r.pct(85) && !ts.is_empty() { *r.pick(&ts) } else { *r.pick(toks) };
                let a = act(r, states);
                if v.iter().all(|y| y.0 != t) {
                    v.push((t, a));
                }
            }
            return L::Mix(x, v);
        }
        let a = act(r, states);
        let m = r.range(2, 3);
        let k = match r.below(4) {
            3 => TMixK::Before(r.below(12), *r.pick(toks), a),
            0 => TMixK::FirstByte(*r.pick(b"a{<(\"1"), a),
            1 => TMixK::LenMod(m, r.below(m), a),
            _ => TMixK::AfterTok(*r.pick(toks), a),
        };
        return L::TMix(x, k);
    }
    match r.below(10) {
        0..=5 => L::Pat(*r.pick(toks), r.pick(&PATS).0),
        6 | 7 => L::Punct(set(r, toks)),
        _ if r.below(30) == 0 => L::Consts(vec![]),
        _ => L::Consts(set(r, toks)),
    }
}

pub fn lexers(r: &mut Rng, p: &LexProfile) -> Lexers {
    let nt = r.range(2, 10);
    let toks: Vec<i8> = (0..nt).map(|_| r.below(16) as i8 - 3).collect();
    let mut ids: Vec<u8> = vec![0, 1, 2, 3, 5, 8, 13, 200, 255];
    r.shuffle(&mut ids);
    let ns = if p.states <= 1 { 1 } else { r.range(1, p.states) };
    let mut ids = ids[..ns].to_vec();
    if p.states > 1 && r.below(60) == 0 {
        // Very many states.
        let n = *r.pick(&[20usize, 40, 130]);
        for _ in 0..n {
            let k = r.below(256) as u8;
            if !ids.contains(&k) {
                ids.push(k);
            }
        }
    }
    let states: Vec<(u8, Vec<L>)> = ids
        .iter()
        .map(|s| {
            let n = if r.below(100) == 0 && ids.len() < 10 { r.range(20, 90) } else { r.size(4, 14) + 1 };
            let n = if r.below(60) == 0 { 0 } else { n };
            let mut v: Vec<L> = (0..n).map(|_| lexeme(r, &toks, &ids, p, 0)).collect();
            if r.below(100) < p.catch_all {
                let t = *r.pick(&toks);
                let x = L::Pat(t, if r.pct(70) { r"^(?s-u:.)" } else { r"^." });
                v.push(x);
            }
            (*s, v)
        })
        .collect();
    Lexers {
        combined: p.states > 1,
        states,
    }
}

/// States which open and close one another, and a text that goes deep and comes back.
pub fn nested(r: &mut Rng) -> (Lexers, Vec<Vec<u8>>) {
    const PAIRS: [(&str, &str); 5] = [("(", ")"), ("<", ">"), ("[", "]"), ("{", "}"), ("\u{ab}", "\u{bb}")];
    let mut ids: Vec<u8> = vec![0, 1, 2, 7, 100, 255];
    r.shuffle(&mut ids);
    let n = r.range(1, 4);
    let ids = ids[..n].to_vec();
    let mut states = vec![];
    for (k, id) in ids.iter().enumerate() {
        let mut set = vec![];
        let mut acts = vec![];
        for (j, (a, b)) in PAIRS.iter().enumerate() {
            let (open, close) = (2 * j as i8, 2 * j as i8 + 1);
            set.push((a.to_string(), open));
            set.push((b.to_string(), close));
            if r.pct(95) {
                acts.push((open, Act::Append(ids[(j + k) % n], r.pct(5))));
            }
            if r.pct(95) {
                acts.push((close, Act::Pop(r.pct(5))));
            }
        }
        if r.pct(40) {
            set.push(("|".into(), 11));
            acts.push((11, Act::Switch(*r.pick(&ids), false)));
        }
        r.shuffle(&mut acts);
        let v = vec![L::Mix(Box::new(L::Punct(set)), acts), L::Pat(20 + k as i8, "^[a-z]"), L::Pat(-1, r"^\s+")];
        states.push((*id, v));
    }
    let texts = (0..6)
        .map(|_| {
            let deep = *r.pick(&[3usize, 20, 70, 150, 300, 1100]);
            let deep = r.range(deep / 2, deep);
            let mut t = String::new();
            let mut open: Vec<usize> = vec![];
            let mut word = |r: &mut Rng, t: &mut String| {
                if r.pct(30) {
                    t.push(*r.pick(&['a', 'b', ' ', 'z', '\n']));
                }
                if r.below(60) == 0 {
                    t.push('|');
                }
            };
            while open.len() < deep {
                word(r, &mut t);
                if r.pct(12) && !open.is_empty() {
                    t += PAIRS[open.pop().unwrap()].1;
                } else {
                    open.push(r.below(5));
                    t += PAIRS[*open.last().unwrap()].0;
                }
            }
            while let Some(k) = open.pop() {
                word(r, &mut t);
                t += PAIRS[k].1;
                if r.pct(8) && !open.is_empty() {
                    open.push(r.below(5));
                    t += PAIRS[*open.last().unwrap()].0;
                }
            }
            t += *r.pick(&["a", "", "a)b", ">a"]);
            t.into_bytes()
        })
        .collect();
    (Lexers { combined: true, states }, texts)
}

pub fn lex_text(r: &mut Rng, x: &Lexers) -> Vec<u8> {
    let n = match r.below(14) {
        0 => 0,
        1 => r.range(50, 400),
        2 => 1,
        _ => r.range(1, 14),
    };
    let mut s: Vec<u8> = vec![];
    for _ in 0..n {
        match r.below(12) {
            0 => s.extend(r.pick(&WORDS).bytes()),
            1 => s.push(b' '),
            _ => {
                let st = r.pick(&x.states).1.len();
                let _ = st;
                let (_, v) = &x.states[r.below(x.states.len())];
                if !v.is_empty() {
                    let l = &v[r.below(v.len())];
                    s.extend(samples(l, r).bytes());
                }
            }
        }
    }
    if r.pct(3) {
        crate::gen::stretch(r, &mut s);
    }
    if r.pct(15) {
        crate::gen::noise(r, &mut s);
    }
    // A lexeme may look at the whole rest of the text at every position and then refuse.
    if r.pct(85) {
        s.truncate(10_000);
    }
    s
}
