//! C01-C04: tokenization.
use crate::ctx::*;
use crate::lexg::*;
use crate::lexgen::*;
use crate::rng::*;
use crate::sys::guard;
use lang_pt::{ASTNode, Code, IProduction, Lex, LexerlessParser};
use lang_pt::production::{ConstantFieldSet, PunctuationsField};
use std::rc::Rc;

pub fn run_tok(b: &BuiltLex, code: &[u8]) -> Result<Result<Vec<Lex<i8>>, (usize, String)>, String> {
    guard(|| {
        b.tok
            .tokenize(&Code::new(&crate::sys::amid(code)))
            .map_err(|e| (e.pointer, e.message))
    })
}

fn show(x: &Lexers, t: &[u8]) -> String {
    format!("{}\ninput: {}", x.show(), text(t))
}

fn key(x: &Lexers, t: &[u8]) -> u64 {
    hash(x.show().as_bytes()) ^ hash(t).rotate_left(9)
}

/// Monitor for C01: looks at the tokens only.
fn tiles(toks: &[Lex<i8>], len: usize) -> Result<(), String> {
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        let last = i + 1 == toks.len();
        if t.start != at {
            return Err(format!("token {} starts at {}, expected {}", i, t.start, at));
        }
        if (t.token == i8::MAX) != last {
            return Err(format!("end of file token misplaced at {}", i));
        }
        if last && (t.start != len || t.end != len) {
            return Err(format!("end of file token at {}..{}", t.start, t.end));
        }
        if !last && t.end <= t.start {
            return Err(format!("empty token {}", i));
        }
        at = t.end;
    }
    if toks.is_empty() || at != len {
        return Err(format!("tokens end at {} of {}", at, len));
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let states = if r.pct(50) { 4 } else { 1 };
    let x = lexers(
        r,
        &LexProfile {
            states,
            actions: if states > 1 { 25 } else { 0 },
            catch_all: 75,
        },
    );
    let b = match guard(|| x.build(0, r.pct(50))) {
        Ok(b) => b,
        Err(e) => return c.viol("constructor panics", format!("{}\n{}", x.show(), e)),
    };
    for _ in 0..14 {
        let t = lex_text(r, &x);
        b.mon.calls.set(0);
        b.mon.limit.set(10_000_000);
        let res = run_tok(&b, &t);
        c.eval(if t.is_empty() { None } else { Some(key(&x, &t)) });
        match res {
            Err(p) => c.viol("tokenize panics", format!("{}\n{}", show(&x, &t), p)),
            Ok(Ok(toks)) => {
                c.count("accepted", 1);
                c.count("tokens checked", toks.len() as u64);
                if let Err(e) = tiles(&toks, t.len()) {
                    c.viol(
                        "tokens do not tile the input",
                        format!("{}\n{}\ntokens: {}", show(&x, &t), e, show_lex(&toks)),
                    );
                }
                if t.len() > 20 {
                    c.sample(|| format!("{} => {}", show(&x, &t), show_lex(&toks)));
                }
            }
            Ok(Err((p, _))) => {
                c.count("rejected", 1);
                let want = tokenize(&x, &t).result;
                if p >= t.len() || want != Err(p) {
                    c.viol(
                        "rejected at the wrong position",
                        format!(
                            "{}\nreported {}; expected {:?}",
                            show(&x, &t),
                            p,
                            want.map(|t| show_tok(&t))
                        ),
                    );
                }
            }
        }
    }
}

fn against_reference(c: &mut Ctx, x: &Lexers, b: &BuiltLex, t: &[u8], what: &str) -> RefLex {
    let want = tokenize(x, t);
    b.mon.calls.set(0);
    b.mon.limit.set(want.calls * 20 + 100_000);
    b.mon.events.borrow_mut().clear();
    b.mon.record.set(false);
    let got = run_tok(b, t);
    let ok = match (&want.result, &got) {
        (Ok(w), Ok(Ok(g))) => same_toks(g, w),
        // Nothing is registered for the state: only going on with the tokens of another state is wrong.
        (Err(_), Err(p)) if want.lost => !crate::c_parse::spent(p),
        (Err(w), Ok(Err((g, _)))) => w == g,
        _ => false,
    };
    if want.lost {
        c.count("stopped at a state without lexemes", 1);
    }
    c.count("lexeme attempts", b.mon.calls.get());
    if !ok {
        c.viol(
            what,
            format!(
                "{}\nexpected: {}\nobserved: {}",
                show(x, t),
                match &want.result {
                    Ok(v) => show_tok(v),
                    Err(p) => format!("rejected at {}", p),
                },
                match &got {
                    Ok(Ok(v)) => show_lex(v),
                    Ok(Err(p)) => format!("rejected {:?}", p),
                    Err(p) => format!("panic {}", p),
                }
            ),
        );
    }
    want
}

pub fn c02(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let x = lexers(
        r,
        &LexProfile {
            states: 1,
            actions: 0,
            catch_all: 70,
        },
    );
    let b = match guard(|| x.build(0, r.pct(50))) {
        Ok(b) => b,
        Err(e) => return c.viol("constructor panics", format!("{}\n{}", x.show(), e)),
    };
    for _ in 0..14 {
        let t = lex_text(r, &x);
        let w = against_reference(c, &x, &b, &t, "not the ordered first match");
        c.eval(if t.is_empty() { None } else { Some(key(&x, &t)) });
        match &w.result {
            Ok(v) => {
                c.count("accepted", 1);
                c.count("tokens compared", v.len() as u64);
            }
            Err(_) => c.count("rejected", 1),
        }
        let late = w.events.iter().filter(|e| e.3 && e.2 > 0).count();
        c.count("tokens won by a later lexeme", late as u64);
        if late > 3 {
            c.sample(|| show(&x, &t));
        }
    }
}

pub fn c04(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(8) {
        return other_states(c, r);
    }
    let (mut x, mut texts) = if r.pct(12) {
        nested(r)
    } else {
        let p = LexProfile {
            states: 5,
            actions: 35,
            catch_all: 70,
        };
        (lexers(r, &p), vec![])
    };
    if texts.is_empty() {
        texts = (0..14).map(|_| lex_text(r, &x)).collect();
    }
    if x.states.len() > 1 && r.pct(8) {
        // Actions lead to a state that nobody registered.
        let i = r.range(1, x.states.len() - 1);
        x.states.remove(i);
        x.combined = true;
    }
    let b = match guard(|| x.build(0, r.pct(50))) {
        Ok(b) => b,
        Err(e) => return c.viol("constructor panics", format!("{}\n{}", x.show(), e)),
    };
    for t in texts {
        let w = against_reference(c, &x, &b, &t, "not the state stack discipline");
        c.eval(if w.switches > 0 || w.max_depth > 0 { Some(key(&x, &t)) } else { None });
        c.count("state switches", w.switches as u64);
        c.max("deepest state stack", w.max_depth as u64);
        c.count(if w.result.is_ok() { "accepted" } else { "rejected" }, 1);
        if w.switches > 2 {
            c.sample(|| show(&x, &t));
        }
    }
}

/// Longest member of a set at every position, through all four kinds of sets.
pub fn c03(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let v = fixed_set(r);
    let mut orders = vec![v.clone(), v.clone()];
    r.shuffle(&mut orders[1]);
    for v in orders {
        // The sets of lexerless parsing may have an empty member.
        let mut w = v.clone();
        if r.pct(30) {
            let at = r.below(w.len() + 1);
            w.insert(at, (String::new(), 0));
        }
        fn naive(v: &[(String, i8)], t: &[u8]) -> Option<(usize, usize)> {
            let mut best = None;
            for (i, (s, _)) in v.iter().enumerate() {
                if t.starts_with(s.as_bytes()) && best.map_or(true, |(l, _)| s.len() > l) {
                    best = Some((s.len(), i));
                }
            }
            best
        }
        let lex = |l: L| Lexers {
            states: vec![(0, vec![l])],
            combined: false,
        };
        let sets = [lex(L::Punct(v.clone())), lex(L::Consts(v.clone()))];
        let built: Vec<BuiltLex> = match guard(|| sets.iter().map(|s| s.build(0, false)).collect()) {
            Ok(b) => b,
            Err(e) => return c.viol("constructor refuses or panics", format!("{:?}\n{}", v, e)),
        };
        let mut prods: Vec<(&str, Rc<dyn IProduction<Node = u16, Token = i8>>)> = vec![];
        let refs = || -> Vec<(&str, Option<u16>)> {
            w.iter().enumerate().map(|(i, x)| (x.0.as_str(), Some(i as u16 + 1))).collect()
        };
        match guard(|| PunctuationsField::new(refs())) {
            Ok(Ok(p)) => prods.push(("PunctuationsField", Rc::new(p))),
            e => return c.viol("constructor refuses or panics", format!("{:?} {:?}", v, e.map(|x| x.is_ok()))),
        }
        match guard(|| ConstantFieldSet::new(refs())) {
            Ok(p) => prods.push(("ConstantFieldSet", Rc::new(p))),
            Err(e) => return c.viol("constructor refuses or panics", format!("{:?}\n{}", v, e)),
        }
        let parsers: Vec<_> = prods
            .iter()
            .filter_map(|(n, p)| LexerlessParser::new(p.clone()).ok().map(|p| (*n, p)))
            .collect();
        for _ in 0..10 {
            // Members cut short, extended and chained.
            let mut t: Vec<u8> = vec![];
            for _ in 0..r.range(1, 6) {
                let m = r.pick(&v).0.as_bytes().to_vec();
                let n = if r.pct(40) { r.below(m.len() + 1) } else { m.len() };
                t.extend(&m[..n]);
                if r.pct(25) {
                    t.extend(r.pick(&WORDS).bytes());
                }
            }
            if r.pct(10) {
                crate::gen::noise(r, &mut t);
            }
            let starts = [0, r.below(t.len() + 1), r.below(t.len() + 1)];
            for (s, b) in sets.iter().zip(&built) {
                let name = if matches!(s.states[0].1[0], L::Punct(_)) { "Punctuations" } else { "Constants" };
                // The lexeme alone, at chosen positions.
                for p in starts {
                    if p >= t.len() {
                        continue;
                    }
                    let l = build_lexeme(&s.states[0].1[0], 0, false, "", None);
                    let got = guard(|| l.consume(&Code::new(&t), p, &vec![], &mut vec![]));
                    let want = naive(&v, &t[p..]);
                    let ok = match (&got, want) {
                        (Ok(None), None) => true,
                        (Ok(Some(g)), Some((n, i))) => g.start == p && g.end == p + n && g.token == v[i].1,
                        _ => false,
                    };
                    let gap = want.map_or(0, |w| {
                        v.iter().filter(|x| x.0.len() < w.0 && t[p..].starts_with(x.0.as_bytes())).count()
                    });
                    c.eval(Some(hash(format!("{:?}{}{:?}{}", v, name, t, p).as_bytes())));
                    c.count("sets with shorter members matching too", (gap > 0) as u64);
                    c.count(if want.is_some() { "matches" } else { "mismatches" }, 1);
                    if !ok {
                        c.viol(
                            "not the longest member",
                            format!("{} {:?}\ninput: {} at {}\nexpected {:?}\nobserved {:?}", name, v, text(&t), p, want, got),
                        );
                    }
                }
                against_reference(c, s, b, &t, "tokenization by a set is not longest match");
            }
            for (name, p) in &parsers {
                let p0 = if r.pct(15) { t.len() } else { starts[1] };
                let rest = &t[p0..];
                let got = guard(|| p.parse(rest).map_err(|e| e.pointer));
                let want = naive(&w, rest);
                let ok = match (&got, want) {
                    (Ok(Err(_)), None) => true,
                    (Ok(Ok(g)), Some((n, i))) => {
                        let g: &Vec<ASTNode<u16>> = g;
                        g.len() == 1 && g[0].start == 0 && g[0].end == n && g[0].node == i as u16 + 1
                    }
                    _ => false,
                };
                c.eval(Some(hash(format!("{:?}{}{:?}", v, name, rest).as_bytes())));
                c.count(if want.is_some() { "matches" } else { "mismatches" }, 1);
                if !ok {
                    c.viol(
                        "not the longest member",
                        format!("{} {:?}\ninput: {}\nexpected {:?}\nobserved {:?}", name, v, text(rest), want, got),
                    );
                }
            }
            c.sample(|| format!("{:?} on {}", v, text(&t)));
        }
    }
}

/// A type of states of which no two look different, in reverse order.
#[derive(Clone, Copy, PartialEq, Eq)]
struct St(u32);
impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "St")
    }
}
impl PartialOrd for St {
    fn partial_cmp(&self, o: &St) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for St {
    fn cmp(&self, o: &St) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}

/// The state stack with a state type of the caller's own.
fn other_states(c: &mut Ctx, r: &mut Rng) {
    use lang_pt::lexeme::{Action, Pattern, Punctuations, StateMixin, ThunkStateMixin};
    use lang_pt::{CombinedTokenizer, ILexeme, ITokenization};
    type LS = Rc<dyn ILexeme<Token = i8, State = St>>;
    #[derive(Clone, Copy, Debug)]
    enum A {
        Push(usize, bool),
        Switch(usize, bool),
        Pop(bool),
        Stay(bool),
    }
    let n = if r.pct(5) { 300 } else { r.range(2, 8) };
    let mut names: Vec<u32> = vec![];
    while names.len() < n {
        let x = if r.pct(50) { r.below(1000) as u32 } else { r.below(1 << 31) as u32 * 2 };
        if !names.contains(&x) {
            names.push(x);
        }
    }
    // By state: lexemes of characters with their token and action; whether anything else has a token.
    let states: Vec<(Vec<(Vec<(u8, i8, Option<A>)>, bool)>, bool)> = (0..n)
        .map(|_| {
            let lexemes = (0..r.range(1, 3))
                .map(|_| {
                    let mut chars: Vec<u8> = (b'a'..=b'h').collect();
                    r.shuffle(&mut chars);
                    chars.truncate(r.range(1, 5));
                    let v = chars
                        .iter()
                        .map(|ch| {
                            let d = r.pct(12);
                            let a = match r.below(7) {
                                0 | 1 => Some(A::Push(r.below(n), d)),
                                2 => Some(A::Switch(r.below(n), d)),
                                3 | 4 => Some(A::Pop(d)),
                                5 => Some(A::Stay(d)),
                                _ => None,
                            };
                            (*ch, r.below(100) as i8, a)
                        })
                        .collect::<Vec<_>>();
                    // One action for each token of a lexeme.
                    let mut w: Vec<(u8, i8, Option<A>)> = vec![];
                    for x in v {
                        if w.iter().all(|y| y.1 != x.1) {
                            w.push(x);
                        }
                    }
                    (w, r.pct(50))
                })
                .collect();
            (lexemes, r.pct(85))
        })
        .collect();
    let act = |a: A| match a {
        A::Push(i, d) => Action::Append { state: St(names[i]), discard: d },
        A::Switch(i, d) => Action::Switch { state: St(names[i]), discard: d },
        A::Pop(d) => Action::Pop { discard: d },
        A::Stay(d) => Action::None { discard: d },
    };
    let list = |i: usize| -> Vec<LS> {
        let mut v: Vec<LS> = vec![];
        for (set, thunk) in &states[i].0 {
            let texts: Vec<String> = set.iter().map(|x| (x.0 as char).to_string()).collect();
            let p: Punctuations<i8, St> =
                Punctuations::new(texts.iter().zip(set).map(|(s, x)| (s.as_str(), x.1)).collect()).unwrap();
            if *thunk {
                let m: Vec<(i8, Action<St>)> = set.iter().map(|x| (x.1, act(x.2.unwrap_or(A::Stay(false))))).collect();
                v.push(Rc::new(ThunkStateMixin::new(p, move |l: &Lex<i8>, _: &[u8], _: &Vec<Lex<i8>>| {
                    m.iter().find(|x| x.0 == l.token).unwrap().1
                })));
            } else {
                v.push(Rc::new(StateMixin::new(p, set.iter().filter_map(|x| x.2.map(|a| (x.1, act(a)))).collect())));
            }
        }
        if states[i].1 {
            v.push(Rc::new(Pattern::<i8, St>::new(100, r"^(?s-u:.)").unwrap()));
        }
        v
    };
    let mut t: CombinedTokenizer<i8, St> = CombinedTokenizer::new(St(names[0]), list(0));
    let mut order: Vec<usize> = (1..n).collect();
    r.shuffle(&mut order);
    for i in order {
        t.add_state(St(names[i]), list(i));
    }
    for _ in 0..8 {
        let len = r.size(20, 400);
        let s: Vec<u8> = (0..len).map(|_| if r.pct(4) { b'z' } else { b'a' + r.below(8) as u8 }).collect();
        let mut want: Vec<(i8, usize)> = vec![];
        let mut stack: Vec<usize> = vec![];
        let mut failed = None;
        let mut switches = 0;
        let mut cur = 0;
        for (i, ch) in s.iter().enumerate() {
            let mut hit = None;
            for (set, _) in &states[cur].0 {
                if let Some((_, tok, a)) = set.iter().find(|x| x.0 == *ch) {
                    let gone = match a {
                        Some(A::Push(j, d)) => {
                            stack.push(*j);
                            *d
                        }
                        Some(A::Switch(j, d)) => {
                            stack.pop();
                            stack.push(*j);
                            *d
                        }
                        Some(A::Pop(d)) => stack.pop().is_none() || *d,
                        Some(A::Stay(d)) => *d,
                        None => false,
                    };
                    if !gone {
                        hit = Some(*tok);
                        break;
                    }
                }
            }
            match hit.or(if states[cur].1 { Some(100) } else { None }) {
                Some(k) => want.push((k, i)),
                None => {
                    failed = Some(i);
                    break;
                }
            }
            let next = stack.last().copied().unwrap_or(0);
            switches += (next != cur) as u64;
            cur = next;
        }
        let got = guard(|| t.tokenize(&Code::new(&crate::sys::amid(&s))));
        let ok = match (&got, failed) {
            (Ok(Ok(v)), None) => {
                v.len() == want.len() + 1 && v.iter().zip(&want).all(|(l, w)| (l.token, l.start, l.end) == (w.0, w.1, w.1 + 1))
            }
            (Ok(Err(e)), Some(i)) => e.pointer == i,
            _ => false,
        };
        c.eval(if switches > 0 { Some(hash(&s) ^ hash(format!("{:?}", states).as_bytes())) } else { None });
        c.count("switches between states of another type", switches);
        if !ok {
            c.viol(
                "not the state stack discipline",
                format!(
                    "states {:?} {:?}\ninput {}\nexpected {:?} {:?}\ngot {:?}",
                    names,
                    states,
                    text(&s),
                    want,
                    failed,
                    got.map(|g| g.map(|v| show_lex(&v)).map_err(|e| e.pointer))
                ),
            );
            return;
        }
    }
}
