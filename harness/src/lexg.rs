//! Lexeme descriptions, their translation to lang_pt lexemes (each behind a counting probe) and the
//! reference tokenizer.
use crate::gram::{label, log_label, BUDGET};
use crate::refi::{regex, Tok};
use lang_pt::lexeme::{
    Action, Constants, LexemeBuilder, Mapper, Middleware, Pattern, Punctuations, StateMixin,
    ThunkMapper, ThunkStateMixin,
};
use lang_pt::{Code, CombinedTokenizer, ILexeme, ITokenization, Lex, Log, Tokenizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Pop(bool),
    Append(u8, bool),
    Switch(u8, bool),
    None(bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum TMapK {
    LenMod(usize, usize, i8),
    AfterTok(i8, i8),
    NextByte(u8, i8),
    StreamLen(usize, i8),
    /// The token so many places back.
    Before(usize, i8, i8),
}
#[derive(Clone, Debug, PartialEq)]
pub enum MidK {
    LastTok(i8, bool),
    CountMod(usize, usize),
    CodeLenMin(usize),
    /// Position reached so far is even.
    EvenPos,
    Before(usize, i8, bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum TMixK {
    FirstByte(u8, Act),
    LenMod(usize, usize, Act),
    AfterTok(i8, Act),
    Before(usize, i8, Act),
}

#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Pat(i8, &'static str),
    Consts(Vec<(String, i8)>),
    Punct(Vec<(String, i8)>),
    Map(Box<L>, Vec<(String, i8)>),
    TMap(Box<L>, TMapK),
    Mid(Box<L>, MidK),
    Mix(Box<L>, Vec<(i8, Act)>),
    TMix(Box<L>, TMixK),
}

impl L {
    pub fn is_base(&self) -> bool {
        matches!(self, L::Pat(..) | L::Consts(_) | L::Punct(_))
    }
}

#[derive(Clone, Debug)]
pub struct Lexers {
    /// States with their lexemes; the first is the default. One state: the plain tokenizer unless `combined`.
    pub states: Vec<(u8, Vec<L>)>,
    pub combined: bool,
}

/// The tokens so far as a closure sees them.
struct Seen<'a> {
    n: usize,
    at: &'a dyn Fn(usize) -> (i8, usize),
}
impl Seen<'_> {
    fn back(&self, k: usize) -> Option<(i8, usize)> {
        self.n.checked_sub(k + 1).map(|i| (self.at)(i))
    }
}

fn tmap(k: &TMapK, t: i8, s: usize, e: usize, code: &[u8], toks: &Seen) -> Option<i8> {
    let _ = t;
    match k {
        TMapK::LenMod(m, r, x) if (e - s) % m == *r => Some(*x),
        TMapK::AfterTok(a, x) if toks.back(0).map(|x| x.0) == Some(*a) => Some(*x),
        TMapK::NextByte(b, x) if code.get(e) == Some(b) => Some(*x),
        TMapK::StreamLen(n, x) if toks.n == *n => Some(*x),
        TMapK::Before(k, a, x) if toks.back(*k).map(|x| x.0) == Some(*a) => Some(*x),
        _ => None,
    }
}
fn mid(k: &MidK, code: &[u8], toks: &Seen) -> bool {
    match k {
        MidK::LastTok(t, neg) => (toks.back(0).map(|x| x.0) == Some(*t)) != *neg,
        MidK::CountMod(m, r) => toks.n % m == *r,
        MidK::Before(k, t, neg) => (toks.back(*k).map(|x| x.0) == Some(*t)) != *neg,
        MidK::CodeLenMin(n) => code.len() >= *n,
        MidK::EvenPos => toks.back(0).map_or(0, |x| x.1) % 2 == 0,
    }
}
fn tmix(k: &TMixK, s: usize, e: usize, code: &[u8], toks: &Seen) -> Act {
    match k {
        TMixK::FirstByte(b, a) if code.get(s) == Some(b) => a.clone(),
        TMixK::LenMod(m, r, a) if (e - s) % m == *r => a.clone(),
        TMixK::AfterTok(t, a) if toks.back(0).map(|x| x.0) == Some(*t) => a.clone(),
        TMixK::Before(k, t, a) if toks.back(*k).map(|x| x.0) == Some(*t) => a.clone(),
        _ => Act::None(false),
    }
}
fn action(a: &Act) -> Action<u8> {
    match a {
        Act::Pop(d) => Action::remove(*d),
        Act::Append(s, d) => Action::append(*s, *d),
        Act::Switch(s, d) => Action::switch(*s, *d),
        Act::None(false) => Action::default(),
        Act::None(d) => Action::None { discard: *d },
    }
}

/// Calls seen by the lexeme probes.
#[derive(Default)]
pub struct LMon {
    pub calls: Cell<u64>,
    pub limit: Cell<u64>,
    pub record: Cell<bool>,
    /// (lexeme set, position, lexeme index in the set, matched)
    pub events: RefCell<Vec<(u8, usize, usize, bool)>>,
    /// (label, position, match) of everything a labelled lexeme reports.
    pub seen: RefCell<Vec<(&'static str, usize, Option<(i8, usize, usize)>)>>,
}

pub type DL = Rc<dyn ILexeme<Token = i8, State = u8>>;

/// A sized handle on any lexeme; top level handles report to the monitor.
pub struct LProbe {
    inner: DL,
    top: Option<(Rc<LMon>, u8, usize)>,
    /// Labels which report what this lexeme does.
    names: Vec<&'static str>,
    mon: Option<Rc<LMon>>,
}
impl ILexeme for LProbe {
    type Token = i8;
    type State = u8;
    fn consume(
        &self,
        code: &Code,
        pointer: usize,
        stream: &Vec<Lex<i8>>,
        states: &mut Vec<u8>,
    ) -> Option<Lex<i8>> {
        if let Some((m, _, _)) = &self.top {
            m.calls.set(m.calls.get() + 1);
            if m.calls.get() > m.limit.get() {
                panic!("{}", BUDGET);
            }
        }
        crate::gram::tick();
        let r = self.inner.consume(code, pointer, stream, states);
        if let Some(m) = &self.mon {
            if m.record.get() && m.seen.borrow().len() < 3_000_000 {
                for n in &self.names {
                    m.seen.borrow_mut().push((n, pointer, r.as_ref().map(|l| (l.token, l.start, l.end))));
                }
            }
        }
        if let Some((m, s, i)) = &self.top {
            if m.record.get() && m.events.borrow().len() < 100_000 {
                m.events.borrow_mut().push((*s, pointer, *i, r.is_some()));
            }
        }
        r
    }
    fn get_grammar_field(&self) -> Vec<(i8, String)> {
        self.inner.get_grammar_field()
    }
}

/// `style` chooses between constructors and the builder methods, which must be the same thing.
pub fn build_lexeme(l: &L, log: u8, style: bool, name: &'static str, mon: Option<&Rc<LMon>>) -> DL {
    let lab = || log_label(log, name);
    // The lexeme inside a wrapper, with a label of its own where labels differ.
    let inside = |x: &L| {
        let n = if log < 100 { name } else { label(format!("{}i", name)) };
        LProbe {
            inner: build_lexeme(x, log, style, n, mon),
            top: None,
            names: if x.is_base() { vec![name, n] } else { vec![name] },
            mon: mon.cloned(),
        }
    };
    fn refs(v: &[(String, i8)]) -> Vec<(&str, i8)> {
        v.iter().map(|(s, t)| (s.as_str(), *t)).collect()
    }
    macro_rules! lg {
        ($p:expr) => {{
            let p = $p;
            if let Some(l) = lab() {
                p.set_log(l).unwrap();
            }
            Rc::new(p)
        }};
    }
    match l {
        L::Pat(t, s) => lg!(Pattern::<i8, u8>::new(*t, s).unwrap()),
        L::Consts(v) => lg!(Constants::<i8, u8>::new(refs(v))),
        L::Punct(v) => lg!(Punctuations::<i8, u8>::new(refs(v)).unwrap()),
        L::Map(x, v) => {
            let x = inside(x);
            if style {
                lg!(x.mapping(refs(v)).unwrap())
            } else {
                lg!(Mapper::new(x, refs(v)).unwrap())
            }
        }
        L::TMap(x, k) => {
            let x = inside(x);
            let k = k.clone();
            let f = move |l: &Lex<i8>, code: &[u8], s: &Vec<Lex<i8>>| {
                let at = |i: usize| (s[i].token, s[i].end);
                tmap(&k, l.token, l.start, l.end, code, &Seen { n: s.len(), at: &at })
            };
            if style {
                lg!(x.thunk_mapping(f))
            } else {
                lg!(ThunkMapper::new(x, f))
            }
        }
        L::Mid(x, k) => {
            let x = inside(x);
            let k = k.clone();
            let f = move |code: &[u8], s: &Vec<Lex<i8>>| {
                let at = |i: usize| (s[i].token, s[i].end);
                mid(&k, code, &Seen { n: s.len(), at: &at })
            };
            if style {
                lg!(x.middleware(f))
            } else {
                lg!(Middleware::new(x, f))
            }
        }
        L::Mix(x, v) => {
            let x = inside(x);
            let v: Vec<(i8, Action<u8>)> = v.iter().map(|(t, a)| (*t, action(a))).collect();
            if style {
                lg!(x.state_mixin(v))
            } else {
                lg!(StateMixin::new(x, v))
            }
        }
        L::TMix(x, k) => {
            let x = inside(x);
            let k = k.clone();
            let f = move |l: &Lex<i8>, code: &[u8], s: &Vec<Lex<i8>>| {
                let at = |i: usize| (s[i].token, s[i].end);
                action(&tmix(&k, l.start, l.end, code, &Seen { n: s.len(), at: &at }))
            };
            if style {
                lg!(x.thunk_mixin(f))
            } else {
                lg!(ThunkStateMixin::new(x, f))
            }
        }
    }
}

pub struct BuiltLex {
    pub tok: Rc<dyn ITokenization<Token = i8>>,
    pub mon: Rc<LMon>,
}

impl Lexers {
    pub fn build(&self, log: u8, style: bool) -> BuiltLex {
        let mon = Rc::new(LMon::default());
        mon.limit.set(u64::MAX);
        let set = |s: u8, v: &Vec<L>| -> Vec<DL> {
            v.iter()
                .enumerate()
                .map(|(i, l)| {
                    let name = if log < 100 { "lexeme é" } else { label(format!("x{}.{}", s, i)) };
                    let logged = if log < 100 { None } else { Some(&mon) };
                    Rc::new(LProbe {
                        inner: build_lexeme(l, log, style, name, logged),
                        top: Some((mon.clone(), s, i)),
                        names: if l.is_base() { vec![name] } else { vec![] },
                        mon: logged.cloned(),
                    }) as DL
                })
                .collect()
        };
        let (s0, l0) = &self.states[0];
        let tok: Rc<dyn ITokenization<Token = i8>> = if self.combined || self.states.len() > 1 {
            let mut c = CombinedTokenizer::<i8, u8>::new(*s0, set(*s0, l0));
            for (s, l) in &self.states[1..] {
                c.add_state(*s, set(*s, l));
            }
            if let Some(l) = log_label(log, "tokenizer") {
                let _: Log<&'static str> = l;
                c.set_log(l).unwrap();
            }
            Rc::new(c)
        } else {
            Rc::new(Tokenizer::<i8, u8>::new(set(*s0, l0)))
        };
        BuiltLex { tok, mon }
    }
    pub fn show(&self) -> String {
        self.states
            .iter()
            .map(|(s, v)| format!("state {}: {:?}", s, v))
            .collect::<Vec<_>>()
            .join("\n")
    }
}

fn perform(a: &Act, st: &mut Vec<u8>, t: Tok) -> Option<Tok> {
    let discard = match a {
        Act::Pop(d) => {
            if st.pop().is_none() {
                return None;
            }
            *d
        }
        Act::Append(s, d) => {
            st.push(*s);
            *d
        }
        Act::Switch(s, d) => {
            st.pop();
            st.push(*s);
            *d
        }
        Act::None(d) => *d,
    };
    if discard {
        None
    } else {
        Some(t)
    }
}

/// What the lexeme's own definition says at a position.
pub fn consume(l: &L, code: &[u8], p: usize, toks: &[Tok], st: &mut Vec<u8>) -> Option<Tok> {
    let at = |i: usize| (toks[i].t, toks[i].e);
    let seen = Seen { n: toks.len(), at: &at };
    match l {
        L::Pat(t, s) => {
            let m = regex(s).find(&code[p..])?;
            if m.end() == 0 {
                return None;
            }
            Some(Tok {
                t: *t,
                s: p,
                e: p + m.end(),
            })
        }
        L::Consts(v) | L::Punct(v) => {
            let mut best: Option<(usize, i8)> = None;
            for (s, t) in v {
                let n = s.len();
                if n > 0
                    && p + n <= code.len()
                    && &code[p..p + n] == s.as_bytes()
                    && best.map_or(true, |b| n > b.0)
                {
                    best = Some((n, *t));
                }
            }
            best.map(|(n, t)| Tok {
                t,
                s: p,
                e: p + n,
            })
        }
        L::Map(x, v) => {
            let mut t = consume(x, code, p, toks, st)?;
            if let Some(f) = v.iter().find(|f| f.0.as_bytes() == &code[t.s..t.e]) {
                t.t = f.1;
            }
            Some(t)
        }
        L::TMap(x, k) => {
            let mut t = consume(x, code, p, toks, st)?;
            if let Some(n) = tmap(k, t.t, t.s, t.e, code, &seen) {
                t.t = n;
            }
            Some(t)
        }
        L::Mid(x, k) => {
            if mid(k, code, &seen) {
                consume(x, code, p, toks, st)
            } else {
                None
            }
        }
        L::Mix(x, v) => {
            let t = consume(x, code, p, toks, st)?;
            match v.iter().find(|a| a.0 == t.t) {
                Some((_, a)) => perform(a, st, t),
                None => Some(t),
            }
        }
        L::TMix(x, k) => {
            let t = consume(x, code, p, toks, st)?;
            let a = tmix(k, t.s, t.e, code, &seen);
            perform(&a, st, t)
        }
    }
}

pub struct RefLex {
    pub result: Result<Vec<Tok>, usize>,
    pub calls: u64,
    pub switches: usize,
    pub max_depth: usize,
    /// A state without a set of lexemes was to be used at the rejected position.
    pub lost: bool,
    /// (state of the active set, position, lexeme index, matched)
    pub events: Vec<(u8, usize, usize, bool)>,
}

pub fn tokenize(x: &Lexers, code: &[u8]) -> RefLex {
    let mut toks: Vec<Tok> = vec![];
    let mut st: Vec<u8> = vec![];
    let mut p = 0;
    let multi = x.combined || x.states.len() > 1;
    let (mut calls, mut switches, mut max_depth) = (0, 0, 0);
    let mut cur = x.states[0].0;
    let mut events = vec![];
    let mut lost = false;
    let result = loop {
        if p == code.len() {
            toks.push(Tok {
                t: i8::MAX,
                s: p,
                e: p,
            });
            break Ok(toks);
        }
        let state = if multi {
            st.last().copied().unwrap_or(x.states[0].0)
        } else {
            x.states[0].0
        };
        if state != cur {
            switches += 1;
            cur = state;
        }
        let set = match x.states.iter().find(|s| s.0 == state) {
            Some(s) => &s.1,
            None => {
                lost = true;
                break Err(p);
            }
        };
        let mut found = None;
        for (i, l) in set.iter().enumerate() {
            calls += 1;
            let r = consume(l, code, p, &toks, &mut st);
            if events.len() < 100_000 {
                events.push((state, p, i, r.is_some()));
            }
            if let Some(t) = r {
                found = Some(t);
                break;
            }
        }
        max_depth = max_depth.max(st.len());
        match found {
            Some(t) => {
                p = t.e;
                toks.push(t);
            }
            None => break Err(p),
        }
    };
    RefLex {
        result,
        calls,
        switches,
        max_depth,
        lost,
        events,
    }
}

pub fn same_toks(a: &[Lex<i8>], b: &[Tok]) -> bool {
    a.len() == b.len()
        && a.iter()
            .zip(b)
            .all(|(a, b)| a.token == b.t && a.start == b.s && a.end == b.e)
}
pub fn show_lex(a: &[Lex<i8>]) -> String {
    a.iter()
        .map(|t| format!("{}:{}-{}", t.token, t.start, t.end))
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn show_tok(a: &[Tok]) -> String {
    a.iter()
        .map(|t| format!("{}:{}-{}", t.t, t.s, t.e))
        .collect::<Vec<_>>()
        .join(" ")
}
