//! Grammar, sentence and text generators. Everything is a function of the random stream it is given.
use crate::gram::*;
use crate::lexg::{Lexers, L};
use crate::refi::{nullable, Facts};
use crate::rng::Rng;
use std::collections::HashMap;

/// Structural tokens of the test language with sample texts; negative kinds are trivia.
pub const FIXED: [(i8, &str); 8] = [
    (0, "a"),
    (1, "bb"),
    (2, "c"),
    (3, "é"),
    (4, "("),
    (5, ")"),
    (6, ","),
    (8, "=>"),
];
pub const KINDS: [i8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

/// More tokens, for grammars with large vocabularies; negative kinds are trivia.
pub fn extra() -> Vec<(i8, String)> {
    let mut v: Vec<(i8, String)> = ('A'..='Z').enumerate().map(|(i, c)| (20 + i as i8, c.to_string())).collect();
    v.extend(('α'..='ο').enumerate().map(|(i, c)| (46 + i as i8, c.to_string())));
    v.extend([(126, "%".to_string()), (125, "$".into()), (-4, "~".into()), (-128, "`".into()), (-127, "@".into())]);
    v
}

pub fn lang(variant: usize) -> Lexers {
    let fx = |v: &[usize]| v.iter().map(|i| (FIXED[*i].1.to_string(), FIXED[*i].0)).collect();
    let num = L::Pat(7, r"^[0-9]+;");
    let id = L::Pat(9, r"^x[yz]*");
    let sp = L::Pat(-1, r"^[ \t]+");
    let nl = L::Pat(-2, r"^\n");
    let cm = L::Pat(-3, r"^#[^\n]*?#");
    let set = match variant % 3 {
        0 => vec![L::Punct(fx(&[0, 1, 2, 3, 4, 5, 6, 7]))],
        1 => vec![L::Consts(fx(&[7, 3, 1, 0, 2])), L::Punct(fx(&[4, 5, 6]))],
        _ => vec![
            L::Map(
                Box::new(L::Pat(0, r"^(a|bb|c|é)")),
                vec![("bb".into(), 1), ("c".into(), 2), ("é".into(), 3)],
            ),
            L::Punct(fx(&[7, 6, 5, 4])),
        ],
    };
    let mut v = vec![num, id, sp, nl, cm];
    for (i, l) in set.into_iter().enumerate() {
        v.insert((variant / 3 + i) % (v.len() + 1), l);
    }
    v.push(L::Punct(extra().into_iter().map(|(k, t)| (t, k)).collect()));
    Lexers {
        states: vec![(0, v)],
        combined: variant % 5 == 4,
    }
}
pub fn tok_text(r: &mut Rng, k: i8) -> String {
    match k {
        7 => {
            let top = if r.pct(10) { 1_000_000_000 } else { 20 };
            format!("{};", r.below(top))
        }
        9 => {
            let n = r.size(2, 30);
            let mut s = String::from("x");
            for _ in 0..n {
                s.push(if r.pct(50) { 'y' } else { 'z' });
            }
            s
        }
        -1 => (*r.pick(&[" ", "  ", "\t", " \t "])).into(),
        -2 => "\n".into(),
        -3 => (*r.pick(&["##", "# é #", "#a bb#", "# \u{1F600} (#"])).into(),
        k => FIXED
            .iter()
            .find(|f| f.0 == k)
            .map(|f| f.1.to_string())
            .or_else(|| extra().into_iter().find(|f| f.0 == k).map(|f| f.1))
            .unwrap_or_default(),
    }
}

pub const REGEXES: [(&str, &[&str]); 24] = [
    (r"^(///|//|/)", &["/", "//", "///"]),
    (r#"^/[a-c"'/\\]*/[a/]*/"#, &["///", "/a/a/", "/\"\\//"]),
    (r"^[ab]+", &["a", "ab", "bba"]),
    (r"^a*", &["", "a", "aaa"]),
    (r"^[0-9]+", &["0", "42", "900"]),
    (r"^\s*", &["", " ", "\n "]),
    (r"^(ab|a)", &["ab", "a"]),
    (r"^[^b]", &["a", "é", "c"]),
    (r"^.", &["a", "é", "("]),
    (r"^[a-c]?", &["", "b"]),
    (r"^x[yz]*", &["x", "xyz"]),
    (r"^\w+", &["abc", "a1", "é"]),
    (r"^(é|ü)+", &["é", "üé"]),
    (r"^[^\s,()]+", &["abc", "é", "1"]),
    (r"^(a|aa)(,|$)", &["a,", "aa,"]),
    (r"^\n", &["\n"]),
    (r#"^"[^"]*""#, &["\"\"", "\"a é\""]),
    (r"^(?:aa|ab|b)*?c", &["c", "aac", "abbc"]),
    (r"^(?i:ab|ü)", &["aB", "AB", "Ü"]),
    (r"^\p{Greek}+\d?", &["β", "αβ1"]),
    (r"^(?:a{2,3}|(?P<last>b))", &["aa", "aaa", "b"]),
    (r"^ab|^c", &["ab", "c"]),
    (r"(?i)^b[0-9]?", &["B1", "b", "B"]),
    (r"\Aü", &["ü"]),
];
pub const STRS: [&str; 24] = [
    "a", "b", "ab", "aab", "abc", "bb", "c", "é", "éa", "ü", "(", ")", ",", "=", "==", "=>", "<",
    "<<=", "<<", "x", "\n", " ", "1", "aaaa",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Token,
    Less,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub mode: Mode,
    /// Non structural and structural productions.
    pub trivia: bool,
    pub valid: usize,
    /// Validators that can report errors.
    pub errors: bool,
    pub memo: usize,
    pub look: usize,
    /// Terminals of both modes correspond one to one.
    pub pair: bool,
    pub names: bool,
    pub max_nts: usize,
}
impl Profile {
    pub fn token() -> Self {
        Profile {
            mode: Mode::Token,
            trivia: false,
            valid: 3,
            errors: false,
            memo: 3,
            look: 4,
            pair: false,
            names: false,
            max_nts: 14,
        }
    }
    pub fn less() -> Self {
        Profile {
            mode: Mode::Less,
            ..Self::token()
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Main,
    Raw,
    Pure,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    p: Profile,
    n: usize,
    /// [0,a) main rules, [a,b) rules for raw token ranges, [b,n) plain rules.
    a: usize,
    b: usize,
    kinds: Vec<u8>,
    nl: Vec<bool>,
    key: usize,
    shared: Vec<usize>,
    focus: Vec<i8>,
    strs: Vec<&'static str>,
    opt_bias: usize,
    /// Few node values make neighbours alike.
    nodes: usize,
}

fn g(k: K) -> G {
    G::new(k)
}
fn bx(x: G) -> Box<G> {
    Box::new(x)
}

impl<'r> Gen<'r> {
    pub fn grammar(r: &'r mut Rng, p: &Profile) -> Grammar {
        let n = match r.below(12) {
            0 if r.below(12) == 0 => *r.pick(&[50, 90, 140, 280]),
            0 => r.range(1, p.max_nts.max(1)),
            1 | 2 => 1,
            _ => r.range(1, p.max_nts.min(6).max(1)),
        };
        let (a, b) = if p.trivia && n >= 2 {
            let raw = r.range(1, (n / 2).max(1));
            let pure = if n - raw >= 2 { r.below((n - raw) / 2 + 1) } else { 0 };
            (n - raw - pure, n - pure)
        } else {
            (n, n)
        };
        let kinds = (0..n)
            .map(|i| match r.below(20) {
                _ if (a..b).contains(&i) && r.pct(25) => 2u8,
                0..=8 => 0u8,
                9..=16 => 1,
                _ => 2,
            })
            .collect();
        let shared = (0..2).map(|_| r.below(n)).collect();
        // Small alphabets make collisions between alternatives likely.
        let nf = r.range(2, 6);
        let large = !p.pair && r.pct(7);
        let focus = if large {
            let all: Vec<i8> = extra().into_iter().map(|x| x.0).filter(|k| *k >= 0).chain(KINDS).collect();
            (0..r.range(8, 50)).map(|_| *r.pick(&all)).collect()
        } else {
            (0..nf).map(|_| *r.pick(&KINDS)).collect()
        };
        let ns = r.range(3, 10);
        let strs = (0..ns).map(|_| *r.pick(&STRS)).collect();
        let opt_bias = *r.pick(&[0usize, 0, 0, 15]);
        let nodes = *r.pick(&[2usize, 6, 60, 60]);
        let mut s = Gen {
            nodes,
            r,
            p: p.clone(),
            n,
            a,
            b,
            kinds,
            nl: vec![true; n],
            key: 0,
            shared,
            focus,
            strs,
            opt_bias,
        };
        if s.r.pct(12) {
            let nts = s.template();
            return s.finish(nts, g(K::Ref(0)));
        }
        let mut nts: Vec<NT> = vec![];
        for i in (0..n).rev() {
            let nt = s.nt(i);
            s.nl[i] = match &nt {
                NT::Concat(v) => v.iter().all(|x| nullable(x, &s.nl)),
                NT::Union(v) => v.iter().any(|x| nullable(x, &s.nl)),
                NT::Suf(l, st, v) => {
                    nullable(l, &s.nl) && (*st || v.iter().any(|x| nullable(&x.0, &s.nl)))
                }
            };
            nts.push(nt);
        }
        nts.reverse();
        if s.r.pct(35) {
            s.repeat(&mut nts);
        }
        let root = {
            let mut x = g(K::Ref(0));
            if s.r.pct(15) {
                x = g(K::Node(bx(x), s.node()));
            }
            if s.r.pct(8) {
                x = g(K::Opt(bx(x), s.r.pct(50)));
            }
            if s.r.pct(8) {
                x = g(K::List(bx(x)));
            }
            x
        };
        s.finish(nts, root)
    }
    /// Puts expressions into a second place.
    fn repeat(&mut self, nts: &mut Vec<NT>) {
        for _ in 0..self.r.range(1, 3) {
            let i = self.r.below(nts.len());
            let mut all = vec![];
            let mut add = |x: &G| x.each(&mut |y| all.push(y.clone()));
            match &nts[i] {
                NT::Concat(v) | NT::Union(v) => v.iter().for_each(&mut add),
                NT::Suf(_, _, v) => v.iter().for_each(|x| add(&x.0)),
            }
            all.retain(|x| !nullable(x, &self.nl));
            if all.is_empty() {
                continue;
            }
            let x = self.r.pick(&all).clone();
            // What is on the left of a rule refers to later rules only.
            let j = self.r.below(i + 1);
            if (i < self.a) != (j < self.a) || (i < self.b) != (j < self.b) {
                continue;
            }
            let mut later = true;
            x.each(&mut |y| {
                if let K::Ref(n) = y.k {
                    later &= n > j
                }
            });
            match &mut nts[j] {
                NT::Concat(v) => {
                    let k = self.r.range(v.len().saturating_sub(1), v.len());
                    if later || v[..k].iter().any(|y| !nullable(y, &self.nl)) {
                        v.insert(k, x)
                    }
                }
                _ if !later => (),
                NT::Union(v) => {
                    let k = self.r.below(v.len() + 1);
                    v.insert(k, x)
                }
                NT::Suf(_, _, v) => {
                    let k = self.r.below(v.len() + 1);
                    let n = self.node();
                    v.insert(k, (x, n))
                }
            }
        }
    }
    /// Names, numbers and rule names.
    fn finish(&mut self, nts: Vec<NT>, root: G) -> Grammar {
        let s = self;
        let n = nts.len();
        let mut names: Vec<&'static str> = NAMES.to_vec();
        s.r.shuffle(&mut names);
        let mut gr = Grammar {
            nts,
            root,
            unset: vec![false; n],
            names: names[..n].to_vec(),
            rules: HashMap::new(),
            ids: 0,
        };
        gr.number();
        if s.p.names {
            let mut rules = RULES.to_vec();
            s.r.shuffle(&mut rules);
            let mut ids = vec![];
            gr.each(&mut |x| {
                if matches!(x.k, K::Node(..) | K::Hidden(_) | K::Sep(..)) {
                    ids.push(x.id)
                }
            });
            for id in ids {
                if s.r.pct(50) {
                    if let Some(n) = rules.pop() {
                        gr.rules.insert(id, n);
                    }
                }
            }
            // Equal expressions carry equal names, some of the time.
            if s.r.pct(50) {
                let mut by: HashMap<String, Vec<u32>> = HashMap::new();
                gr.each(&mut |x| by.entry(gr.sg(x)).or_default().push(x.id));
                for v in by.values() {
                    let n = gr.rules.get(&v[0]).copied();
                    for id in &v[1..] {
                        match n {
                            Some(n) => gr.rules.insert(*id, n),
                            None => gr.rules.remove(id),
                        };
                    }
                }
                gr.merge_ids();
            }
        } else if s.r.pct(40) {
            gr.merge_ids();
        }
        gr
    }
    /// Grammars of the usual kinds, with some decoration.
    fn template(&mut self) -> Vec<NT> {
        let t = |s: &mut Self, k: i8| {
            let n = s.onode();
            if s.p.mode == Mode::Token {
                return g(K::Tok(k, n));
            }
            match k {
                7 => g(K::Regex(r"^[0-9]+", n)),
                9 => g(K::Regex(r"^x[yz]*", n)),
                k => g(K::Const(FIXED.iter().find(|f| f.0 == k).unwrap().1.to_string(), n)),
            }
        };
        let f = |i: usize| g(K::Ref(i));
        let mut words: Vec<i8> = vec![0, 1, 2, 3, 7, 9];
        self.r.shuffle(&mut words);
        let eof = |s: &mut Self| g(K::Eof(s.onode()));
        let incl = self.r.pct(50);
        let hide = self.r.pct(50);
        let kinds = if self.p.trivia { 6 } else { 5 };
        let mut nts = match self.r.below(kinds) {
            // Infix expressions with suffixes, parentheses and calls.
            0 => {
                let (n1, n2, n3) = (self.node(), self.node(), self.node());
                let alone = self.r.pct(85);
                vec![
                    NT::Concat(vec![f(1), eof(self)]),
                    NT::Suf(f(2), alone, vec![(f(4), n1), (f(5), n2)]),
                    NT::Union(vec![g(K::Node(bx(g(K::Sep(bx(f(3)), bx(t(self, 1)), false))), n3))]),
                    NT::Union(vec![f(6), f(7), t(self, 7), t(self, 9), t(self, 0)]),
                    NT::Concat(vec![t(self, 6), f(1)]),
                    NT::Concat(vec![t(self, 8), f(1)]),
                    NT::Concat(vec![t(self, 4), f(1), t(self, 5)]),
                    NT::Concat(vec![t(self, 9), t(self, 4), g(K::Opt(bx(g(K::Sep(bx(f(1)), bx(t(self, 3)), incl))), hide)), t(self, 5)]),
                ]
            }
            // Nested values.
            1 => {
                let key = *self.r.pick(&words);
                vec![
                    NT::Concat(vec![f(1), eof(self)]),
                    NT::Union(vec![f(2), f(3), t(self, 7), t(self, 9), t(self, 0)]),
                    NT::Concat(vec![t(self, 1), g(K::Opt(bx(g(K::Sep(bx(f(4)), bx(t(self, 6)), incl))), hide)), t(self, 2)]),
                    NT::Concat(vec![t(self, 4), g(K::Opt(bx(g(K::Sep(bx(f(1)), bx(t(self, 6)), incl))), hide)), t(self, 5)]),
                    NT::Concat(vec![t(self, key), t(self, 8), f(1)]),
                ]
            }
            // Statements, read again by a later alternative.
            2 | 3 => {
                let (w, never) = (*self.r.pick(&[6i8, 8]), words[0]);
                let mut value = f(7);
                if self.p.memo > 0 {
                    self.key += 1;
                    value = g(K::Memo(self.key, bx(value)));
                }
                let mut stmt = f(3);
                if self.p.memo > 0 && self.r.pct(50) {
                    self.key += 1;
                    stmt = g(K::Memo(self.key, bx(stmt)));
                }
                vec![
                    NT::Union(vec![f(1), f(2)]),
                    NT::Concat(vec![g(K::List(bx(stmt.clone()))), t(self, never)]),
                    NT::Concat(vec![g(K::List(bx(stmt.clone()))), eof(self)]),
                    NT::Union(vec![f(4), f(5), f(6)]),
                    NT::Concat(vec![value.clone(), t(self, 8), value.clone(), t(self, w)]),
                    NT::Concat(vec![value, t(self, w)]),
                    NT::Concat(vec![t(self, 4), g(K::Opt(bx(g(K::List(bx(stmt)))), hide)), t(self, 5)]),
                    NT::Union(words[1..].iter().map(|k| t(self, *k)).collect()),
                ]
            }
            // Brackets only.
            4 => vec![
                NT::Union(vec![f(1), t(self, 0), f(2)]),
                NT::Concat(vec![t(self, 4), f(0), t(self, 5)]),
                NT::Concat(vec![t(self, 1), g(K::List(bx(f(0)))), t(self, 2)]),
            ],
            // Lines.
            _ => {
                let n = self.node();
                let ws = |s: &mut Self| g(K::TokSet(vec![(-1, s.onode()), (-3, s.onode())]));
                let more = g(K::TokSet(vec![(-1, self.onode()), (-2, self.onode()), (-3, None)]));
                vec![
                    NT::Concat(vec![g(K::List(bx(g(K::Node(bx(f(1)), n))))), eof(self)]),
                    NT::Concat(vec![g(K::List(bx(f(3)))), g(K::NonStr(bx(f(2)), true))]),
                    NT::Concat(vec![
                        g(K::Opt(bx(ws(self)), hide)),
                        t(self, -2),
                        g(K::Opt(bx(g(K::List(bx(more)))), hide)),
                    ]),
                    NT::Union(vec![f(4), t(self, 0), t(self, 9), t(self, 6)]),
                    NT::Concat(vec![t(self, 9), g(K::NonStr(bx(f(5)), incl)), t(self, 7)]),
                    NT::Concat(vec![ws(self), g(K::Struc(bx(g(K::List(bx(t(self, 1)))))))]),
                ]
            }
        };
        // Some decoration, and now and then something unusual in place of a terminal.
        let raw = |x: &G| matches!(x.k, K::Tok(k, _) if k < 0);
        let mut odd = if self.r.pct(40) { 1 } else { 0 };
        let mut todo: Vec<&mut G> = vec![];
        for nt in nts.iter_mut() {
            match nt {
                NT::Concat(v) | NT::Union(v) => todo.extend(v.iter_mut()),
                NT::Suf(_, _, v) => todo.extend(v.iter_mut().map(|x| &mut x.0)),
            }
        }
        self.r.shuffle(&mut todo);
        for x in todo {
            if odd > 0 && matches!(x.k, K::Tok(..) | K::Const(..)) && !raw(x) {
                odd -= 1;
                *x = self.terminal(Ctx::Main);
                continue;
            }
            if !self.r.pct(15) {
                continue;
            }
            let y = bx(x.clone());
            *x = match self.r.below(4) {
                0 => g(K::Hidden(y)),
                1 if self.p.valid > 0 => g(K::Valid(y, self.vkind())),
                _ => g(K::Node(y, self.node())),
            };
        }
        nts
    }
    fn node(&mut self) -> N {
        if self.r.pct(3) {
            0
        } else {
            let n = self.nodes;
            self.r.range(1, n) as N
        }
    }
    fn onode(&mut self) -> Option<N> {
        if self.r.pct(65) {
            Some(self.node())
        } else {
            None
        }
    }
    fn ctx(&self, i: usize) -> Ctx {
        if i < self.a {
            Ctx::Main
        } else if i < self.b {
            Ctx::Raw
        } else {
            Ctx::Pure
        }
    }
    fn nt(&mut self, i: usize) -> NT {
        let c = self.ctx(i);
        match self.kinds[i] {
            0 => {
                let n = match self.r.below(15) {
                    0 if !self.p.names && self.r.pct(12) => 0,
                    0 => 1,
                    1 if self.r.pct(15) => self.r.range(10, 80),
                    1 => self.r.range(5, 9),
                    _ => self.r.range(2, 4),
                };
                let mut v: Vec<G> = vec![];
                let mut consumed = false;
                if self.r.below(40) == 0 {
                    // Optional parts only, for long.
                    for _ in 0..*self.r.pick(&[6, 12, 30, 70]) {
                        let h = self.r.pct(70);
                        let t = self.terminal(c);
                        if !nullable(&t, &self.nl) {
                            v.push(g(K::Opt(bx(t), h)));
                        }
                    }
                }
                for j in 0..n {
                    let x = if j == 0 && self.r.pct(25) {
                        let h = *self.r.pick(&self.shared);
                        if h > i {
                            g(K::Ref(h))
                        } else {
                            self.expr(i, c, 0, !consumed)
                        }
                    } else {
                        self.expr(i, c, 0, !consumed)
                    };
                    if self.r.below(100) < self.p.look {
                        // A lookahead that agrees with what follows.
                        let n = self.onode();
                        v.push(g(K::Look(bx(x.clone()), n)));
                    }
                    consumed |= !nullable(&x, &self.nl);
                    v.push(x);
                }
                if i == 0 && self.r.pct(50) {
                    let n = self.onode();
                    v.push(g(K::Eof(n)));
                }
                NT::Concat(v)
            }
            1 => {
                let n = match self.r.below(15) {
                    0 if !self.p.names && self.r.pct(12) => 0,
                    0 => 1,
                    1 => self.r.range(6, 40),
                    _ => self.r.range(2, 5),
                };
                if self.r.below(60) == 0 {
                    return NT::Union(self.wide(i, c, true));
                }
                NT::Union((0..n).map(|_| self.expr(i, c, 0, true)).collect())
            }
            _ => {
                let l = self.suf_left(i, c);
                let free = !nullable(&l, &self.nl);
                let n = match self.r.below(12) {
                    0 if !self.p.names && self.r.pct(12) => 0,
                    0 => self.r.range(5, 14),
                    _ => self.r.range(1, 4),
                };
                let alts: Vec<G> = if self.r.below(40) == 0 {
                    self.wide(i, c, !free)
                } else {
                    (0..n).map(|_| self.expr(i, c, 0, !free)).collect()
                };
                let v = alts.into_iter().map(|x| (x, self.node())).collect();
                NT::Suf(l, self.r.pct(60), v)
            }
        }
    }
    /// Very many alternatives, most of them alike, so that those far behind are reached.
    fn wide(&mut self, i: usize, c: Ctx, left: bool) -> Vec<G> {
        let n = *self.r.pick(&[20usize, 40, 70, 140, 300]);
        let odd = self.r.range(1, 4);
        let same = loop {
            let x = self.terminal(c);
            if !nullable(&x, &self.nl) {
                break x;
            }
        };
        let mut v: Vec<G> = (0..n).map(|_| same.clone()).collect();
        for _ in 0..odd {
            let x = self.expr(i, c, 1, left);
            if !nullable(&x, &self.nl) || self.r.pct(20) {
                let k = if self.r.pct(50) { n - 1 - self.r.below(n / 4) } else { self.r.below(n) };
                v[k] = x;
            }
        }
        v
    }
    fn suf_left(&mut self, i: usize, c: Ctx) -> G {
        // Only references upwards: the left side is fixed at construction.
        for _ in 0..20 {
            let x = self.expr(i, c, 1, true);
            let mut ok = true;
            x.each(&mut |y| {
                if let K::Ref(j) = y.k {
                    ok &= j > i;
                }
            });
            if ok {
                return x;
            }
        }
        self.terminal(c)
    }
    fn reference(&mut self, i: usize, c: Ctx, left: bool) -> Option<G> {
        let lo = match (c, left) {
            (_, true) => i + 1,
            (Ctx::Main, false) => 0,
            (Ctx::Raw, false) => (i + 1).max(self.a),
            (Ctx::Pure, false) => self.b,
        };
        let lo = if c == Ctx::Raw { lo.max(self.a) } else { lo };
        let hi = self.n;
        if lo >= hi {
            return None;
        }
        if self.r.pct(20) {
            let h = *self.r.pick(&self.shared);
            if h >= lo {
                return Some(g(K::Ref(h)));
            }
        }
        Some(g(K::Ref(self.r.range(lo, hi - 1))))
    }
    fn kind(&mut self, c: Ctx) -> i8 {
        if c == Ctx::Raw && self.r.pct(60) {
            if self.focus.len() > 6 && self.r.pct(30) {
                return *self.r.pick(&[-4i8, -127, -128]);
            }
            return *self.r.pick(&[-1i8, -1, -2, -3]);
        }
        if self.r.pct(85) {
            *self.r.pick(&self.focus)
        } else {
            *self.r.pick(&KINDS)
        }
    }
    pub fn terminal(&mut self, c: Ctx_) -> G {
        match self.r.below(30) {
            0 => {
                return g(K::Null(self.r.pct(50)));
            }
            1 => {
                let n = self.onode();
                if self.p.mode == Mode::Token && !self.p.pair && self.r.pct(30) {
                    return g(K::Tok(i8::MAX, n));
                }
                return g(K::Eof(n));
            }
            _ => {}
        }
        let n = self.onode();
        if self.p.mode == Mode::Token {
            if self.r.pct(75) {
                g(K::Tok(self.kind(c), n))
            } else {
                let top = if self.focus.len() > 6 && self.r.pct(50) { 60 } else { 4 };
                let k = self.r.range(1, top);
                let mut v: Vec<(i8, Option<N>)> = vec![];
                let uniform = self.r.pct(30);
                for _ in 0..k {
                    let t = self.kind(c);
                    let m = if uniform { n } else { self.onode() };
                    if v.iter().all(|x| x.0 != t) && !(self.p.pair && (t == 7 || t == 9)) {
                        v.push((t, m));
                    }
                }
                if !self.p.pair && self.r.pct(2) {
                    let n = self.onode();
                    v.push((i8::MAX, n));
                }
                if !self.p.pair && !self.p.names && self.r.below(150) == 0 {
                    v.clear();
                } else if v.is_empty() {
                    return g(K::Tok(self.kind(c), n));
                }
                if v.is_empty() && self.p.pair {
                    g(K::Tok(self.kind(c), n))
                } else {
                    g(K::TokSet(v))
                }
            }
        } else {
            let s = |s: &mut Self| -> String {
                if s.r.pct(85) {
                    s.r.pick(&s.strs).to_string()
                } else if s.r.pct(20) {
                    crate::lexgen::long(s.r)
                } else {
                    s.r.pick(&STRS).to_string()
                }
            };
            match self.r.below(10) {
                0..=4 => g(K::Const(s(self), n)),
                5..=7 => {
                    let k = self.r.size(3, 12) + 1;
                    let mut v: Vec<(String, Option<N>)> = vec![];
                    for _ in 0..k {
                        let x = s(self);
                        let m = self.onode();
                        if v.iter().all(|y| y.0 != x) {
                            v.push((x, m));
                        }
                    }
                    if self.r.pct(4) {
                        let m = self.onode();
                        v.push((String::new(), m));
                    }
                    if self.r.pct(3) {
                        for x in crate::lexgen::prefixes(self.r) {
                            let m = self.onode();
                            if v.iter().all(|y| y.0 != x) {
                                v.push((x, m));
                            }
                        }
                    }
                    if !self.p.names && self.r.below(80) == 0 {
                        return g(K::ConstSet(vec![]));
                    }
                    if self.r.pct(50) {
                        g(K::ConstSet(v))
                    } else {
                        g(K::Punct(v))
                    }
                }
                _ => g(K::Regex(self.r.pick(&REGEXES).0, n)),
            }
        }
    }
    fn expr(&mut self, i: usize, c: Ctx, depth: usize, left: bool) -> G {
        let deep = match self.r.below(40) {
            0 => 7,
            _ => 3,
        };
        if depth > deep || self.r.pct(38) {
            return self.terminal(c);
        }
        if self.r.pct(40) {
            if let Some(x) = self.reference(i, c, left) {
                return x;
            }
            if self.r.pct(60) {
                return self.terminal(c);
            }
        }
        if self.r.below(100) < self.opt_bias {
            let h = self.r.pct(50);
            let x = self.expr(i, c, depth + 1, left);
            return g(K::Opt(bx(x), h));
        }
        let d = depth + 1;
        let roll = self.r.below(100);
        let mut lim = self.p.valid;
        if c == Ctx::Raw && self.p.errors {
            lim = 40;
        }
        if roll < lim {
            let x = self.expr(i, c, d, left);
            return g(K::Valid(bx(x), self.vkind_in(c)));
        }
        lim += self.p.memo;
        if roll < lim && c == Ctx::Main {
            let x = self.expr(i, c, d, left);
            self.key += 1;
            return g(K::Memo(self.key, bx(x)));
        }
        lim += self.p.look;
        if roll < lim {
            let n = self.onode();
            return g(K::Look(bx(self.expr(i, c, d, left)), n));
        }
        if self.p.mode == Mode::Less && !self.p.pair {
            // Without tokens these have no effect.
            lim += 2;
            if roll < lim {
                let x = bx(self.expr(i, c, d, left));
                return if self.r.pct(50) { g(K::Struc(x)) } else { g(K::NonStr(x, self.r.pct(50))) };
            }
        }
        if self.p.trivia {
            if c == Ctx::Main {
                lim += 22;
                if roll < lim {
                    let x = self.expr(i, Ctx::Raw, d, true);
                    return g(K::NonStr(bx(x), self.r.pct(50)));
                }
            } else if c == Ctx::Raw {
                lim += 6;
                if roll < lim {
                    let x = self.expr(i, Ctx::Raw, d, true);
                    return g(K::NonStr(bx(x), self.r.pct(50)));
                }
                lim += 14;
                if roll < lim {
                    let x = self.expr(i, Ctx::Raw, d, true);
                    return g(K::Struc(bx(x)));
                }
            }
        }
        match self.r.below(50) {
            0..=10 => g(K::List(bx(self.expr(i, c, d, left)))),
            11..=19 => {
                let p = self.expr(i, c, d, left);
                let free = !left || !nullable(&p, &self.nl);
                let s = if self.r.pct(50) {
                    self.terminal(c)
                } else {
                    self.expr(i, c, d, !free)
                };
                g(K::Sep(bx(p), bx(s), self.r.pct(50)))
            }
            20..=32 => {
                let h = self.r.pct(50);
                g(K::Opt(bx(self.expr(i, c, d, left)), h))
            }
            33..=44 => {
                let x = self.expr(i, c, d, left);
                let n = self.node();
                g(K::Node(bx(x), n))
            }
            _ => g(K::Hidden(bx(self.expr(i, c, d, left)))),
        }
    }
    fn vkind(&mut self) -> VKind {
        self.vkind_in(Ctx::Main)
    }
    fn vkind_in(&mut self, c: Ctx) -> VKind {
        let bytes: &[u8] = if c == Ctx::Raw { b" \t\n#ax" } else { b"abcx(1,=" };
        match self.r.below(if self.p.errors { 11 } else { 4 }) {
            0 => VKind::Accept,
            1..=3 => {
                let m = self.r.range(2, 4);
                VKind::UnparsedMod(m, self.r.below(m))
            }
            4..=6 => VKind::ErrLen(self.r.range(1, if c == Ctx::Raw { 3 } else { 6 })),
            7 | 8 => VKind::ErrByte(*self.r.pick(bytes)),
            _ => VKind::ErrAt(*self.r.pick(bytes), self.r.range(0, 8)),
        }
    }
}
use Ctx as Ctx_;

/// An arbitrary grammar for construction checks: a good one, damaged at random places.
pub fn wild(r: &mut Rng) -> (Grammar, &'static str) {
    let mut p = if r.pct(50) { Profile::token() } else { Profile::less() };
    p.trivia = p.mode == Mode::Token && r.pct(40);
    p.max_nts = 20;
    let mut gr = Gen::grammar(r, &p);
    let n = gr.nts.len();
    let suf: Vec<bool> = gr.nts.iter().map(|x| matches!(x, NT::Suf(..))).collect();
    let edits = *r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
    let mut label = "intact";
    for _ in 0..edits {
        label = "edited";
        // Positions inside the left part of a suffix form keep the declaration order.
        let target = r.below(gr.ids as usize) as u32;
        let to = r.below(n);
        let wrap = r.below(6);
        let mut left_of: HashMap<u32, usize> = HashMap::new();
        for (i, nt) in gr.nts.iter().enumerate() {
            if let NT::Suf(l, _, _) = nt {
                l.each(&mut |x| {
                    left_of.insert(x.id, i);
                });
            }
        }
        let allowed = left_of.get(&target).map_or(true, |i| !suf[to] || to > *i);
        if !allowed {
            continue;
        }
        gr.each_mut(&mut |x| {
            if x.id != target {
                return;
            }
            let old = std::mem::replace(&mut x.k, K::Null(true));
            let t = G { id: u32::MAX, k: K::Ref(to) };
            x.k = match wrap {
                0 => K::Sep(bx(G { id: u32::MAX, k: old }), bx(t), false),
                1 => K::Sep(bx(t), bx(G { id: u32::MAX, k: old }), true),
                2 => K::Opt(bx(t), true),
                _ => K::Ref(to),
            };
        });
        gr.number();
        if r.pct(20) {
            // Make something nullable in front of other things.
            let target = r.below(gr.ids as usize) as u32;
            gr.each_mut(&mut |x| {
                if x.id == target && !matches!(x.k, K::Opt(..)) {
                    let old = std::mem::replace(&mut x.k, K::Null(true));
                    x.k = K::Opt(bx(G { id: u32::MAX, k: old }), false);
                }
            });
            gr.number();
        }
    }
    if r.pct(25) {
        label = "unset";
        for _ in 0..r.range(1, 2) {
            let i = r.below(n);
            gr.unset[i] = true;
        }
    }
    // Recursion that goes through raw ranges and back to structural tokens is not generated here.
    (gr, label)
}

/// Items of a derived sentence.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Tok(i8),
    Text(String),
}

pub struct Derive<'a, 'r> {
    pub g: &'a Grammar,
    pub f: &'a Facts,
    pub r: &'r mut Rng,
    pub fuel: i64,
    pub out: Vec<Item>,
    less: bool,
    /// Percent of the optional parts that are present.
    present: usize,
}
impl<'a, 'r> Derive<'a, 'r> {
    pub fn run(g: &'a Grammar, f: &'a Facts, r: &'r mut Rng, fuel: i64) -> Vec<Item> {
        let mut less = false;
        g.each(&mut |x| less |= matches!(x.k, K::Const(..) | K::ConstSet(_) | K::Punct(_) | K::Regex(..)));
        let present = *r.pick(&[55, 55, 55, 95, 5]);
        let mut d = Derive {
            less,
            present,
            g,
            f,
            r,
            fuel,
            out: vec![],
        };
        d.go(&g.root, 0);
        d.out
    }
    fn reps(&mut self) -> usize {
        if self.fuel <= 0 {
            return 1;
        }
        match self.r.below(10) {
            0 => self.r.range(1, 12),
            1..=4 => 1,
            5..=7 => 2,
            _ => 3,
        }
    }
    fn go(&mut self, x: &G, depth: usize) {
        self.fuel -= 1;
        if self.fuel < -3000 || depth > 600 {
            return;
        }
        let d = depth + 1;
        match &x.k {
            K::Tok(t, _) if *t == i8::MAX => {}
            K::Tok(t, _) => self.out.push(Item::Tok(*t)),
            K::TokSet(v) => {
                let t = if v.is_empty() { i8::MAX } else { self.r.pick(v).0 };
                if t != i8::MAX {
                    self.out.push(Item::Tok(t))
                }
            }
            K::Const(s, _) => self.out.push(Item::Text(s.clone())),
            K::ConstSet(v) | K::Punct(v) if v.is_empty() => {}
            K::ConstSet(v) | K::Punct(v) => {
                let s = self.r.pick(v).0.clone();
                self.out.push(Item::Text(s))
            }
            K::Regex(s, _) => {
                let e = REGEXES.iter().find(|y| y.0 == *s);
                let t = match e {
                    Some(e) => self.r.pick(e.1).to_string(),
                    None => String::new(),
                };
                self.out.push(Item::Text(t))
            }
            K::Null(_) | K::Eof(_) => {}
            K::List(y) => {
                for _ in 0..self.reps() {
                    self.go(y, d);
                }
            }
            K::Sep(p, s, incl) => {
                let n = self.reps();
                for i in 0..n {
                    if i > 0 {
                        self.go(s, d);
                    }
                    self.go(p, d);
                }
                if *incl && self.r.pct(30) {
                    self.go(s, d);
                }
            }
            K::Opt(y, _) => {
                if self.fuel > 0 && self.r.pct(self.present) {
                    self.go(y, d);
                }
            }
            K::Node(y, _) | K::Hidden(y) | K::Valid(y, _) | K::Memo(_, y) => self.go(y, d),
            K::Struc(y) | K::NonStr(y, _) if self.less => self.go(y, d),
            K::Struc(y) => {
                if self.r.pct(30) {
                    self.go(y, d)
                }
            }
            K::Look(y, _) => {
                if self.r.pct(10) {
                    self.go(y, d)
                }
            }
            K::NonStr(y, _) => {
                // Insert what the range wants to see as trivia here.
                let at = self.out.len();
                self.go(y, d);
                let tail = self.out.split_off(at);
                for t in tail {
                    match t {
                        Item::Tok(k) if k < 0 => self.out.push(t),
                        _ => break,
                    }
                }
            }
            K::Ref(i) => {
                if self.f.height[*i] == u32::MAX {
                    return;
                }
                match &self.g.nts[*i] {
                    NT::Concat(v) => v.iter().for_each(|y| self.go(y, d)),
                    NT::Union(v) if v.is_empty() => {}
                    NT::Union(v) => {
                        let low = |y: &G| crate::refi::expr_height(y, self.f);
                        let y = if self.fuel <= 0 || depth > 200 {
                            v.iter().min_by_key(|y| low(y)).unwrap()
                        } else {
                            let j = self.r.below(v.len());
                            &v[j]
                        };
                        self.go(y, d)
                    }
                    NT::Suf(l, st, v) => {
                        self.go(l, d);
                        if !v.is_empty() && (!*st || (self.fuel > 0 && self.r.pct(65))) {
                            let j = self.r.below(v.len());
                            self.go(&v[j].0, d);
                        }
                    }
                }
            }
        }
    }
}

pub fn mutate(r: &mut Rng, v: &mut Vec<Item>, pool: &[Item]) {
    for _ in 0..r.range(1, 3) {
        let n = v.len();
        let any = |r: &mut Rng| pool[r.below(pool.len())].clone();
        match r.below(7) {
            0 if n > 0 => {
                v.remove(r.below(n));
            }
            1 if n > 0 => {
                let i = r.below(n);
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                v.swap(i, j);
            }
            3 if n > 0 => {
                let i = r.below(n);
                v[i] = any(r);
            }
            4 if n > 0 => v.truncate(r.below(n)),
            5 => {
                let x = any(r);
                v.push(x)
            }
            _ => {
                let x = any(r);
                let i = r.below(n + 1);
                v.insert(i, x);
            }
        }
    }
}

pub fn pool(gr: &Grammar, mode: Mode) -> Vec<Item> {
    let mut p = vec![];
    gr.each(&mut |x| match &x.k {
        K::Tok(t, _) if *t != i8::MAX => p.push(Item::Tok(*t)),
        K::TokSet(v) => v.iter().filter(|t| t.0 != i8::MAX).for_each(|t| p.push(Item::Tok(t.0))),
        K::Const(s, _) => p.push(Item::Text(s.clone())),
        K::ConstSet(v) | K::Punct(v) => v.iter().for_each(|t| p.push(Item::Text(t.0.clone()))),
        K::Regex(s, _) => {
            if let Some(e) = REGEXES.iter().find(|y| y.0 == *s) {
                e.1.iter().for_each(|t| p.push(Item::Text(t.to_string())))
            }
        }
        _ => {}
    });
    match mode {
        Mode::Token => {
            p.push(Item::Tok(KINDS[p.len() % 10]));
            p.push(Item::Tok(0));
        }
        Mode::Less => {
            p.push(Item::Text("a".into()));
            p.push(Item::Text("é".into()));
        }
    }
    p
}

/// Trivia between tokens: 0 none, 1 some, 2 a lot.
pub fn render(r: &mut Rng, v: &[Item], trivia: usize) -> Vec<u8> {
    let mut s = String::new();
    let pad = |r: &mut Rng, s: &mut String| {
        let n = match trivia {
            0 => 0,
            1 => (r.pct(25)) as usize,
            _ => r.below(4),
        };
        for _ in 0..n {
            let k = *r.pick(&[-1i8, -1, -2, -3]);
            let t = tok_text(r, k);
            s.push_str(&t);
        }
    };
    for x in v {
        match x {
            Item::Tok(k) => {
                pad(r, &mut s);
                let t = tok_text(r, *k);
                s.push_str(&t);
            }
            Item::Text(t) => s.push_str(t),
        }
    }
    if v.iter().any(|x| matches!(x, Item::Tok(_))) || trivia == 2 {
        pad(r, &mut s);
    }
    s.into_bytes()
}

/// Inputs for a grammar: derived sentences, near misses, noise and extremes.
pub fn inputs(r: &mut Rng, gr: &Grammar, f: &Facts, p: &Profile, n: usize, trivia: bool) -> Vec<Vec<u8>> {
    let pool = pool(gr, p.mode);
    let mut out = vec![];
    let mut lists = false;
    let mut regexes = false;
    let mut memo = false;
    gr.each(&mut |x| {
        lists |= matches!(x.k, K::List(_) | K::Sep(..));
        regexes |= matches!(x.k, K::Regex(..));
        memo |= matches!(x.k, K::Memo(..));
    });
    // A pattern that is matched anew at every position of a long run takes quadratic time; memoized results that
    // lie in each other take quadratic memory.
    let long = if memo {
        2_500
    } else if p.mode == Mode::Less && regexes && r.pct(90) {
        20_000
    } else {
        150_000
    };
    for j in 0..n {
        let tr = if p.mode == Mode::Token && trivia {
            *r.pick(&[0usize, 1, 1, 2])
        } else {
            0
        };
        let fuel = match r.below(16) {
            0 if r.pct(20) => 2500,
            0 => 400,
            1..=3 => 80,
            _ => 25,
        };
        if lists && r.below(5000) == 0 {
            let mut v = Derive::run(gr, f, r, 25);
            let (t, _) = giant(r, &mut v);
            let mut b = render(r, &v, t.min(tr));
            b.truncate(long);
            out.push(b);
            continue;
        }
        let mut b = match if j == 0 { 0 } else { r.below(12) } {
            0..=4 => {
                let v = Derive::run(gr, f, r, fuel);
                render(r, &v, tr)
            }
            5..=9 => {
                let mut v = Derive::run(gr, f, r, fuel);
                mutate(r, &mut v, &pool);
                render(r, &v, tr)
            }
            _ => {
                let k = r.size(8, 60);
                let v: Vec<Item> = (0..k).map(|_| pool[r.below(pool.len())].clone()).collect();
                render(r, &v, tr)
            }
        };
        if p.mode == Mode::Less && r.pct(12) {
            noise(r, &mut b);
        }
        if r.pct(2) {
            stretch(r, &mut b);
        }
        b.truncate(long.min(90_000));
        out.push(b);
    }
    if r.pct(40) {
        out.push(vec![]);
    }
    out
}

/// Repeats a part of a sentence until offsets and counts exceed 16 bits.
fn giant(r: &mut Rng, v: &mut Vec<Item>) -> (usize, usize) {
    if v.is_empty() {
        v.push(Item::Tok(0));
    }
    let i = r.below(v.len());
    let k = r.range(1, 3.min(v.len() - i));
    let part = v[i..i + k].to_vec();
    let n = 70_000 / k;
    v.splice(i..i, (0..n).flat_map(|_| part.iter().cloned()).collect::<Vec<_>>());
    (r.below(2), n)
}

/// Repeats one character very often: long tokens, long gaps, many tokens.
pub fn stretch(r: &mut Rng, b: &mut Vec<u8>) {
    let s = match std::str::from_utf8(b) {
        Ok(s) if !s.is_empty() => s,
        _ => return,
    };
    let at: Vec<(usize, char)> = s.char_indices().collect();
    let (i, ch) = *r.pick(&at);
    let mut k = *r.pick(&[70usize, 300, 300, 1100, 4400, 5000]);
    if r.below(150) == 0 {
        k = 66_000;
    }
    // Many lines cost too much in some checks, deep nesting in all.
    if k > 400 && !ch.is_alphanumeric() && ch != ' ' {
        return;
    }
    let mid: String = std::iter::repeat(ch).take(k).collect();
    b.splice(i..i, mid.bytes());
}

/// Characters that code may treat in a special way.
pub const SPECIAL: [&str; 18] = [
    "\u{feff}", "\u{2028}", "\u{2029}", "\u{85}", "\u{a0}", "\u{b}", "\u{c}", "\u{0}", "\u{1b}[31m", "\u{200b}", "\u{202e}", "\u{301}",
    "\u{1a}", "\u{7f}", "\u{10ffff}", "\u{d7ff}", "\u{fffd}", "\\",
];

pub fn noise(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        match r.below(5) {
            0 if n > 0 => {
                let i = r.below(n);
                b[i] = r.below(256) as u8;
            }
            1 if n > 0 => {
                b.truncate(r.below(n));
            }
            2 => {
                let i = r.below(n + 1);
                b.insert(i, *r.pick(&[0xffu8, 0xc3, 0xe2, 0x80, 0xf0, 0, b'\n']));
            }
            3 => {
                let i = if r.pct(30) { 0 } else { r.below(n + 1) };
                let s = if r.pct(50) { "😀" } else { *r.pick(&SPECIAL) };
                b.splice(i..i, s.bytes());
            }
            _ => {
                let i = r.below(n + 1);
                b.insert(i, r.below(128) as u8);
            }
        }
    }
}
