//! C05-C09, C11-C13, C15, C16, C21, C23: parsing.
use crate::ctx::*;
use crate::gen::*;
use crate::gram::*;
use crate::lexg::*;
use crate::refi::*;
use crate::rng::*;
use crate::sys::*;
use lang_pt::{ASTNode, Code, IProduction, Lex};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// The monitor ended the run: too many attempts, or too deep.
pub fn spent(s: &str) -> bool {
    s.contains(BUDGET) || s.contains(DEPTH)
}

/// Attempts the reference makes before it gives up.
fn ref_limit(t: &[u8]) -> u64 {
    if t.len() > 60_000 {
        1_500_000
    } else {
        120_000
    }
}

/// A buildable case; grammars refused by the constructor are C10's subject.
pub fn case(r: &mut Rng, p: &Profile, log: u8, c: &mut Ctx) -> Option<(Case, Sys, Facts)> {
    let g = Gen::grammar(r, p);
    let lexers = if p.mode == Mode::Token {
        Some(lang(r.below(60)))
    } else {
        None
    };
    let opt = BuildOpt {
        log,
        no_memo: false,
        style: r.pct(40),
    };
    let sys = match Sys::new(&g, lexers.as_ref(), opt) {
        Ok(s) => s,
        Err(_) => {
            c.count("grammars refused by the constructor", 1);
            return None;
        }
    };
    let f = Facts::new(&g);
    c.count("grammars", 1);
    Some((Case { g, lexers, mode: p.mode }, sys, f))
}

/// Line and column printed at the end of a message.
pub fn printed_position(m: &str) -> Option<(usize, usize)> {
    let nums: Vec<usize> = m
        .split(|ch: char| !ch.is_ascii_digit())
        .filter(|s| !s.is_empty())
        .filter_map(|s| s.parse().ok())
        .collect();
    if nums.len() < 2 {
        return None;
    }
    Some((nums[nums.len() - 2], nums[nums.len() - 1]))
}
pub fn line_col(code: &[u8], p: usize) -> (usize, usize) {
    let mut l = 1;
    let mut s = 0;
    for (i, b) in code[..p].iter().enumerate() {
        if *b == b'\n' {
            l += 1;
            s = i + 1;
        }
    }
    (l, p - s + 1)
}

fn accept_and_tree(want: &Want, got: &Out) -> bool {
    match (want, got) {
        (Want::Ok(w), Out::Ok(g)) => same_list(g, w),
        (Want::Lex(_) | Want::Unparsed(_) | Want::Invalid(..), Out::Err(..)) => true,
        _ => false,
    }
}

fn peg(c: &mut Ctx, p: &Profile, n: usize, trivia: bool, what: &str, raised: bool) {
    let r = &mut Rng::new(c.seed ^ 0x51);
    let (cs, sys, f) = match case(r, p, 0, c) {
        Some(x) => x,
        None => return,
    };
    if p.trivia {
        let mut ns = false;
        let mut st = false;
        cs.g.each(&mut |x| {
            ns |= matches!(x.k, K::NonStr(..));
            st |= matches!(x.k, K::Struc(..));
        });
        c.count("grammars with non-structural productions", ns as u64);
        c.count("grammars with nested structural productions", st as u64);
    }
    for t in inputs(r, &cs.g, &f, p, n, trivia) {
        let w = reference(&cs.g, cs.lexers.as_ref(), &t, ref_limit(&t), false);
        c.count(w.want.tag(), 1);
        if matches!(w.want, Want::Budget) {
            continue;
        }
        let got = sys.parse(&t, w.steps * 50 + 1_000_000, false);
        c.eval(if !t.is_empty() && w.steps >= 6 { Some(cs.key(&t)) } else { None });
        c.count("expression attempts by the reference", w.steps);
        c.count("expression attempts observed", sys.built.mon.steps.get());
        let mut ok = accept_and_tree(&w.want, &got);
        if let Want::Ok(tr) = &w.want {
            c.count("tree nodes compared", nodes(tr));
            c.max("largest tree", nodes(tr));
            c.max("deepest derivation", w.depth);
            c.max("longest accepted input", t.len() as u64);
        }
        if raised {
            ok &= match (&w.want, &got) {
                (Want::Invalid(p, m), Out::Err(q, n)) => p == q && n.contains(m.as_str()),
                (Want::Unparsed(_), Out::Err(_, n)) => n.contains("Unexpected"),
                _ => true,
            };
        }
        if !ok {
            c.viol(
                what,
                format!("{}\nexpected: {}\nobserved: {}", cs.show(&t), w.want.show(), got.show()),
            );
        } else if t.len() > 6 && w.steps > 30 && matches!(w.want, Want::Ok(_)) {
            c.sample(|| format!("{}\n=> {}", cs.show(&t), got.show()));
        }
    }
}

fn vary(r: &mut Rng, mut p: Profile) -> Profile {
    p.valid = *r.pick(&[0, 3, 8]);
    p.errors = r.pct(40);
    p.memo = *r.pick(&[0, 3]);
    p.look = *r.pick(&[2, 6]);
    p.max_nts = *r.pick(&[6, 14, 30]);
    p
}

/// A varied profile, for tokenized parsing in so many of 100 cases.
pub fn either(r: &mut Rng, pct: usize) -> Profile {
    let p = if r.pct(pct) { Profile::token() } else { Profile::less() };
    vary(r, p)
}

pub fn c05(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let p = vary(r, Profile::less());
    peg(c, &p, 16, false, "lexerless parsing differs from the PEG reading", false);
    if r.below(40) == 0 {
        other_types::<u8, i8>(c, r, false);
        other_types::<u16, i16>(c, r, false);
        other_types::<usize, isize>(c, r, false);
        other_types::<Word, Low>(c, r, false);
    }
}
/// A token type whose end of file is the least and which has structural tokens of both signs, in reverse order.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Low(i8);
impl From<i8> for Low {
    fn from(x: i8) -> Self {
        Low(x)
    }
}
impl Ord for Low {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        // -128 is the end of file.
        (self.0 != -128, o.0).cmp(&(o.0 != -128, self.0))
    }
}
impl PartialOrd for Low {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl lang_pt::TokenImpl for Low {
    fn eof() -> Self {
        Low(-128)
    }
    fn is_structural(&self) -> bool {
        self.0 != -1
    }
}
/// A node type that is not a number and cannot be copied or ordered.
#[derive(Clone, PartialEq, Debug)]
struct Word(String);
impl From<u8> for Word {
    fn from(x: u8) -> Self {
        Word(if x == 0 { "nothing".into() } else { "x".repeat(x as usize) })
    }
}
impl lang_pt::NodeImpl for Word {
    fn null() -> Self {
        Word("nothing".into())
    }
}
/// The node and token types for which the library implements its traits, on random lists of items.
fn other_types<NV, T>(c: &mut Ctx, r: &mut Rng, tokens: bool)
where
    NV: lang_pt::NodeImpl + From<u8> + PartialEq + std::fmt::Debug + 'static,
    T: lang_pt::TokenImpl + From<i8> + 'static,
{
    use lang_pt::lexeme::Pattern;
    use lang_pt::production::*;
    use lang_pt::{DefaultParser, ILexeme, LexerlessParser, Tokenizer};
    use std::rc::Rc;
    type P<NV, T> = Rc<dyn IProduction<Node = NV, Token = T>>;
    let nv = |k: u8| Some(NV::from(k));
    let list = |t: P<NV, T>, o: P<NV, T>, x: P<NV, T>, e: P<NV, T>| {
        let item: P<NV, T> = Rc::new(Concat::new("item", vec![o, t]));
        let one = Rc::new(Union::new("one", vec![item, x]));
        let all: P<NV, T> = Rc::new(List::new(&one));
        Rc::new(Concat::new("all", vec![all, e]))
    };
    // Items are "b" or "ab"; the a which is missing leaves the null value.
    let mut text = String::new();
    let mut want: Vec<(NV, usize, usize)> = vec![];
    for _ in 0..r.range(1, 30) {
        if tokens && r.pct(30) {
            text.push(' ');
        }
        if r.pct(35) {
            // An item of another kind.
            let k = r.below(2);
            want.push((NV::from(3 + k as u8), text.len(), text.len() + 1));
            text.push(['c', 'd'][k]);
            continue;
        }
        if r.pct(50) {
            want.push((NV::from(1), text.len(), text.len() + 1));
            text.push('a');
        } else {
            want.push((NV::from(0), text.len(), text.len()));
        }
        if tokens && r.pct(30) {
            text.push(' ');
            if let Some(x) = want.last_mut().filter(|x| x.1 == x.2) {
                x.1 += 1;
                x.2 += 1;
            }
        }
        want.push((NV::from(2), text.len(), text.len() + 1));
        text.push('b');
    }
    let bad = r.pct(20);
    if bad {
        text.push('a');
    }
    let got = guard(|| {
        if tokens {
            let pat = |k: i8, s: &str| Rc::new(Pattern::<T, u8>::new(T::from(k), s).unwrap()) as Rc<dyn ILexeme<Token = T, State = u8>>;
            let lexer = Tokenizer::new(vec![pat(-1, "^ +"), pat(0, "^a"), pat(100, "^b"), pat(7, "^c"), pat(120, "^d")]);
            let a = Rc::new(TokenField::new(T::from(0), nv(1)));
            let x = TokenFieldSet::new(vec![(T::from(120), nv(4)), (T::from(7), nv(3))]);
            let g = list(Rc::new(TokenField::new(T::from(100), nv(2))), Rc::new(Nullable::new(&a)), Rc::new(x), Rc::new(EOFProd::new(None)));
            let p = DefaultParser::new(Rc::new(lexer), g).map_err(|e| e.to_string())?;
            p.parse(text.as_bytes()).map_err(|e| e.pointer.to_string())
        } else {
            let pat = |k: u8, s: &str| Rc::new(RegexField::<NV, i8>::new(s, nv(k)).unwrap());
            let o: P<NV, i8> = Rc::new(Nullable::new(&pat(1, "^a")));
            let item: P<NV, i8> = Rc::new(Concat::new("item", vec![o, pat(2, "^b")]));
            let x: P<NV, i8> = Rc::new(PunctuationsField::new(vec![("d", nv(4)), ("c", nv(3))]).unwrap());
            let one = Rc::new(Union::new("one", vec![item, x]));
            let all: P<NV, i8> = Rc::new(List::new(&one));
            let g = Rc::new(Concat::new("all", vec![all, Rc::new(EOFProd::new(None))]));
            let p = LexerlessParser::new(g).map_err(|e| e.to_string())?;
            p.parse(text.as_bytes()).map_err(|e| e.pointer.to_string())
        }
    });
    c.eval(if want.len() > 2 { Some(hash(text.as_bytes())) } else { None });
    c.count("parses with other node and token types", 1);
    let ok = match &got {
        Ok(Ok(t)) => !bad && t.iter().map(|n| (n.node.clone(), n.start, n.end)).eq(want.iter().cloned()),
        // The furthest failure is behind the last a.
        Ok(Err(e)) => bad && *e == text.len().to_string(),
        Err(_) => false,
    };
    if !ok {
        c.viol(
            "node or token types other than the usual",
            format!("nodes {}, tokens {}, {:?}\nexpected: {}\nobserved: {:?}", std::any::type_name::<NV>(), std::any::type_name::<T>(), text, if bad { "rejected".into() } else { format!("{:?}", want) }, got.map(|x| x.map(|t| t.iter().map(|n| (n.node.clone(), n.start, n.end)).collect::<Vec<_>>()))),
        );
    }
}
/// Alternatives that see the tokens in different ways, over few kinds of tokens.
fn views(r: &mut Rng, c: &mut Ctx) -> Option<(Case, Sys)> {
    let leaf = |r: &mut Rng| {
        let k = *r.pick(&[0i8, 0, 1, 2, -1]);
        let n = r.below(60) as N;
        G::new(K::Tok(k, Some(n)))
    };
    let b = |x: G| Box::new(x);
    let view = |r: &mut Rng| {
        let x = match r.below(6) {
            0 => G::new(K::List(b(leaf(r)))),
            1 => G::new(K::Opt(b(leaf(r)), false)),
            _ => leaf(r),
        };
        match r.below(10) {
            0..=2 => G::new(K::NonStr(b(x), r.pct(50))),
            3 => G::new(K::Struc(b(x))),
            4 => G::new(K::NonStr(b(G::new(K::Struc(b(x)))), false)),
            5 => G::new(K::NonStr(b(G::new(K::NonStr(b(x), true))), r.pct(50))),
            _ => x,
        }
    };
    let n = r.range(2, 5);
    let all: Vec<G> = (0..n).map(|_| view(r)).collect();
    let nt = if r.pct(70) {
        NT::Union(all)
    } else {
        let left = view(r);
        NT::Suf(left, r.pct(80), all.into_iter().map(|x| (x, 61)).collect())
    };
    let rf = |i: usize| G::new(K::Ref(i));
    let mut x = rf(1);
    if r.pct(65) {
        x = G::new(if r.pct(65) { K::NonStr(b(x), r.pct(50)) } else { K::Node(b(x), 62) });
    }
    let top = vec![x, G::new(K::Opt(b(leaf(r)), true)), G::new(K::Opt(b(rf(1)), false))];
    let mut g = Grammar {
        nts: vec![NT::Concat(top), nt],
        root: rf(0),
        unset: vec![false; 2],
        names: NAMES.to_vec(),
        rules: Default::default(),
        ids: 0,
    };
    g.number();
    let lexers = lang(0);
    let sys = Sys::new(&g, Some(&lexers), BuildOpt { log: 0, no_memo: false, style: false }).ok()?;
    c.count("grammars", 1);
    Some((Case { g, lexers: Some(lexers), mode: Mode::Token }, sys))
}
/// Token lists that no tokenizer of the library makes: trivia left out, text between the tokens that has no token.
fn given_tokens(c: &mut Ctx, p: &Profile) {
    let r = &mut Rng::new(c.seed ^ 0x77);
    let (cs, sys, texts) = if r.pct(40) {
        let word = |r: &mut Rng| *r.pick(&["a", "bb", "c", " "]);
        let texts: Vec<Vec<u8>> = (0..14)
            .map(|_| (0..r.below(6)).map(|_| word(r)).collect::<String>().into_bytes())
            .collect();
        match views(r, c) {
            Some((cs, sys)) => (cs, sys, texts),
            None => return,
        }
    } else {
        match case(r, p, 0, c) {
            Some((cs, sys, f)) => {
                let v = inputs(r, &cs.g, &f, p, 10, true);
                (cs, sys, v)
            }
            None => return,
        }
    };
    for t in texts {
        let toks = match sys.tokens(&t) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let (drop, gap) = *r.pick(&[(100, 0), (50, 0), (0, 40), (100, 40), (30, 10)]);
        let mut text: Vec<u8> = vec![];
        let mut list: Vec<Lex<i8>> = vec![];
        for k in &toks {
            if r.pct(gap) {
                let junk = *r.pick(&["~", "\n", " \n\t", "é", "# x\n", "a", "0", "()", "~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~"]);
                text.extend(junk.as_bytes());
            }
            if k.token == i8::MAX {
                list.push(Lex::new(k.token, text.len(), text.len()));
                break;
            }
            let s = text.len();
            text.extend(&t[k.start..k.end]);
            if k.token >= 0 || !r.pct(drop) {
                list.push(Lex::new(k.token, s, text.len()));
            }
        }
        let same: Vec<Tok> = list.iter().map(|k| Tok { t: k.token, s: k.start, e: k.end }).collect();
        // The caller may choose the structural tokens.
        let odd = r.pct(45).then(|| {
            let (kinds, p) = (r.pct(60), *r.pick(&[10, 30, 60]));
            let salt = r.u64();
            (0..list.len())
                .filter(|i| {
                    let k = list[*i].token;
                    let h = mix(salt ^ if kinds { k as u8 as u64 } else { *i as u64 }) % 100;
                    k == i8::MAX || ((h < p) != (k >= 0))
                })
                .collect::<Vec<usize>>()
        });
        let w = reference_on(&cs.g, M::F, &text, same, odd.as_deref(), ref_limit(&text), false);
        c.count(w.want.tag(), 1);
        if matches!(w.want, Want::Budget) {
            continue;
        }
        let got = sys.parse_chosen(&text, &list, odd.as_deref(), w.steps * 50 + 1_000_000);
        c.count("parses of given tokens", 1);
        c.eval(if !text.is_empty() && w.steps >= 6 { Some(cs.key(&text)) } else { None });
        let ok = accept_and_tree(&w.want, &got)
            && match (&w.want, &got) {
                (Want::Invalid(p, m), Out::Err(q, n)) => p == q && n.contains(m.as_str()),
                (Want::Unparsed(p), Out::Err(q, _)) => p == q,
                _ => true,
            };
        if !ok {
            c.viol(
                "tokenized parsing differs from the PEG reading",
                format!(
                    "{}\ntokens: {}{}\nexpected: {}\nobserved: {}",
                    cs.show(&text),
                    show_lex(&list),
                    odd.map_or(String::new(), |v| format!("\nstructural: {:?}", v)),
                    w.want.show(),
                    got.show()
                ),
            );
        }
    }
}

pub fn c06(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = vary(r, Profile::token());
    if r.pct(25) {
        p.trivia = true;
        p.memo = 0;
    }
    if r.pct(8) {
        if r.pct(60) {
            p.trivia = true;
            p.memo = 0;
        }
        return given_tokens(c, &p);
    }
    let tr = r.pct(60);
    peg(c, &p, 16, tr, "tokenized parsing differs from the PEG reading", true);
    if r.below(40) == 0 {
        other_types::<u8, i8>(c, r, true);
        other_types::<u16, i16>(c, r, true);
        other_types::<usize, isize>(c, r, true);
        other_types::<u16, Low>(c, r, true);
        other_types::<Word, Low>(c, r, true);
    }
}

/// Shape of a tree in terms of structural tokens only.
fn shape(t: &[ASTNode<N>], rank: &[usize], toks: &[lang_pt::Lex<i8>], code: &[u8]) -> String {
    let mut s = String::new();
    for n in t {
        let (a, b) = match n.bound {
            Some((a, b)) => (
                format!("{}", a).parse::<usize>().unwrap(),
                format!("{}", b).parse::<usize>().unwrap(),
            ),
            None => return "no bound".into(),
        };
        // The structural text it stands for.
        let leaf: String = if n.children.is_empty() {
            toks[a.min(toks.len())..b.min(toks.len())]
                .iter()
                .filter(|k| k.token >= 0)
                .map(|k| String::from_utf8_lossy(&code[k.start..k.end]).to_string())
                .collect()
        } else {
            String::new()
        };
        s += &format!(
            "{}({},{}){:?}[{}]",
            n.node,
            rank.get(a).copied().unwrap_or(9999),
            rank.get(b).copied().unwrap_or(9999),
            leaf,
            shape(&n.children, rank, toks, code)
        );
    }
    s
}

pub fn c07(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(60) {
        let mut p = vary(r, Profile::token());
        p.trivia = true;
        p.errors = false;
        p.memo = 0;
        return peg(c, &p, 16, true, "non-structural parsing differs from the raw token reading", false);
    }
    // Metamorphic: trivia between tokens is invisible to structural parsing.
    let mut p = vary(r, Profile::token());
    p.errors = false;
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let pool = pool(&cs.g, p.mode);
    for j in 0..8 {
        let mut v = Derive::run(&cs.g, &f, r, 40);
        if j % 2 == 1 {
            mutate(r, &mut v, &pool);
        }
        let words: Vec<String> = v
            .iter()
            .filter_map(|x| match x {
                Item::Tok(k) if *k >= 0 => Some(tok_text(r, *k)),
                _ => None,
            })
            .collect();
        if words.len() > 300 {
            continue;
        }
        let mut first: Option<(String, Vec<u8>, String)> = None;
        for k in 0..5 {
            let mut t = String::new();
            for i in 0..=words.len() {
                let n = match k {
                    0 => 0,
                    1 => (i == 0) as usize,
                    2 => (i == words.len()) as usize * 2,
                    _ => r.below(4),
                };
                for _ in 0..n {
                    let tv = *r.pick(&[-1i8, -2, -3]);
                    t += &tok_text(r, tv);
                }
                if i < words.len() {
                    t += &words[i];
                }
            }
            let t = t.into_bytes();
            let got = sys.parse(&t, 3_000_000, false);
            let toks = match sys.tokens(&t) {
                Ok(x) => x,
                Err(_) => break,
            };
            let mut rank = vec![];
            let mut n = 0;
            for x in &toks {
                rank.push(n);
                if x.token >= 0 {
                    n += 1;
                }
            }
            rank.push(n);
            let s = match &got {
                Out::Ok(tr) => format!("accepted {}", shape(tr, &rank, &toks, &t)),
                Out::Err(p, m) => format!(
                    "rejected at token {} {}",
                    rank[toks.iter().position(|x| x.token >= 0 && x.start >= *p).unwrap_or(0)],
                    m.lines().next().unwrap_or("")
                ),
                Out::Panic(p) => format!("panic {}", p),
            };
            if spent(&s) {
                break;
            }
            match &first {
                None => first = Some((s, t, got.show())),
                Some((s0, t0, g0)) => {
                    c.eval(Some(cs.key(&t)));
                    c.count("trivia variants compared", 1);
                    c.count(if matches!(got, Out::Ok(_)) { "accepted" } else { "rejected by the grammar" }, 1);
                    if s != *s0 {
                        c.viol(
                            "trivia changes the result",
                            format!(
                                "{}\nother input: {}\nfirst: {}\n  {}\nsecond: {}\n  {}",
                                cs.show(t0),
                                text(&t),
                                s0,
                                g0,
                                s,
                                got.show()
                            ),
                        );
                    }
                }
            }
        }
    }
}

fn bound(n: &ASTNode<N>) -> Option<(usize, usize)> {
    n.bound.map(|(a, b)| (format!("{}", a).parse().unwrap(), format!("{}", b).parse().unwrap()))
}

/// Monitor for C08: tree, tokens and source only.
struct Geo<'a> {
    code: &'a [u8],
    toks: Option<&'a [Tok]>,
    terms: &'a HashMap<u32, G>,
    order: bool,
    nodes: u64,
    leaves: u64,
}
impl<'a> Geo<'a> {
    fn list(&mut self, v: &[ASTNode<N>], parent: Option<&ASTNode<N>>) -> Result<(), String> {
        let mut at = 0;
        for n in v {
            self.nodes += 1;
            if n.start > n.end || n.end > self.code.len() {
                return Err(format!("range {}..{} of node {}", n.start, n.end, n.node));
            }
            if self.order {
                if n.start < at {
                    return Err(format!("node {} at {} overlaps its sibling", n.node, n.start));
                }
                at = n.end;
                if let Some(p) = parent {
                    if n.start < p.start || n.end > p.end {
                        return Err(format!(
                            "node {} {}..{} leaves its parent {}..{}",
                            n.node, n.start, n.end, p.start, p.end
                        ));
                    }
                }
            }
            let leaf = n.node >= 1000 && n.node < 20_000;
            match self.toks {
                None => {
                    if n.bound.is_some() {
                        return Err(format!("lexerless node {} has token bounds", n.node));
                    }
                }
                Some(toks) => {
                    let (a, b) = match bound(n) {
                        Some(x) => x,
                        None => return Err(format!("node {} without token bounds", n.node)),
                    };
                    if a > b || b >= toks.len() + 1 || a >= toks.len() {
                        return Err(format!("bounds {},{} of node {}", a, b, n.node));
                    }
                    if toks[a].s != n.start {
                        return Err(format!("node {} does not start at its first token", n.node));
                    }
                    if leaf {
                        let w = (toks[a].t != i8::MAX) as usize;
                        if b != a + w || n.end != toks[a].e {
                            return Err(format!("token leaf {} {}..{} bounds {},{}", n.node, n.start, n.end, a, b));
                        }
                    } else if b >= toks.len() || toks[b].s != n.end {
                        return Err(format!("node {} does not end where its end token starts", n.node));
                    }
                    if !leaf && (a == b) != (n.start == n.end) {
                        return Err(format!("zero width and bounds of node {} disagree", n.node));
                    }
                }
            }
            if leaf {
                self.leaves += 1;
                self.leaf(n)?;
            } else if n.node >= 40_000 && (n.start != n.end || !n.children.is_empty()) {
                return Err(format!("marker {} has a width", n.node));
            }
            self.list(&n.children, Some(n))?;
        }
        Ok(())
    }
    fn leaf(&self, n: &ASTNode<N>) -> Result<(), String> {
        let g = match self.terms.get(&((n.node - 1000) as u32)) {
            Some(g) => g,
            None => return Err(format!("leaf {} of no terminal", n.node)),
        };
        if !n.children.is_empty() {
            return Err("leaf with children".into());
        }
        let s = &self.code[n.start..n.end];
        let rest = &self.code[n.start..];
        let tok = |k: i8| match self.toks {
            Some(t) => bound(n).and_then(|(a, _)| t.get(a)).map_or(false, |x| x.t == k && x.s == n.start && x.e == n.end),
            None => false,
        };
        let longest = |v: &Vec<(String, Option<N>)>| {
            v.iter().filter(|x| rest.starts_with(x.0.as_bytes())).map(|x| x.0.len()).max() == Some(s.len())
        };
        let ok = match &g.k {
            K::Tok(t, _) => tok(*t),
            K::TokSet(v) => v.iter().any(|x| tok(x.0)),
            K::Const(x, _) => s == x.as_bytes(),
            K::ConstSet(v) | K::Punct(v) => longest(v),
            K::Regex(x, _) => regex(x).find(rest).map(|m| (m.start(), m.end())) == Some((0, s.len())),
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("leaf {} spans {} which is not what its terminal matches", n.node, text(s)))
        }
    }
}

pub fn c08(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = either(r, 60);
    p.trivia = p.mode == Mode::Token && r.pct(50);
    if p.trivia {
        p.memo = 0;
    }
    let mut g = Gen::grammar(r, &p);
    // Node values say which expression made them.
    let mut terms = HashMap::new();
    let mut order = true;
    if g.ids > 15_000 {
        return;
    }
    g.each_mut(&mut |x| {
        let id = x.id as N;
        let leaf = |n: &mut Option<N>, base: N| {
            if n.is_some() {
                *n = Some(base + id)
            }
        };
        match &mut x.k {
            K::Tok(_, n) | K::Const(_, n) | K::Regex(_, n) => leaf(n, 1000),
            K::TokSet(v) => v.iter_mut().for_each(|y| leaf(&mut y.1, 1000)),
            K::ConstSet(v) | K::Punct(v) => v.iter_mut().for_each(|y| leaf(&mut y.1, 1000)),
            K::Look(_, n) | K::Eof(n) => leaf(n, 40_000),
            K::Node(_, n) => *n = 20_000 + id,
            K::NonStr(..) => order = false,
            _ => {}
        }
        if matches!(x.k, K::Tok(..) | K::TokSet(_) | K::Const(..) | K::ConstSet(_) | K::Punct(_) | K::Regex(..)) {
            terms.insert(x.id, x.clone());
        }
    });
    for nt in g.nts.iter_mut() {
        if let NT::Suf(_, _, v) = nt {
            v.iter_mut().for_each(|x| x.1 = 20_000 + x.0.id as N);
        }
    }
    let f = Facts::new(&g);
    let lexers = if p.mode == Mode::Token { Some(lang(r.below(60))) } else { None };
    let sys = match Sys::new(&g, lexers.as_ref(), BuildOpt { style: r.pct(40), ..Default::default() }) {
        Ok(s) => s,
        Err(_) => return c.count("grammars refused by the constructor", 1),
    };
    c.count("grammars", 1);
    let cs = Case { g, lexers, mode: p.mode };
    for t in inputs(r, &cs.g, &f, &p, 16, true) {
        let got = sys.parse(&t, 400_000, false);
        if let Some(m) = sys.built.mon.odd.borrow_mut().take() {
            c.viol("a result describes itself wrongly", format!("{}\n{}", cs.show(&t), m));
        }
        let tree = match &got {
            Out::Ok(t) => t,
            _ => {
                c.count("not accepted", 1);
                continue;
            }
        };
        let toks = cs.lexers.as_ref().map(|l| tokenize(l, &t).result.unwrap_or_default());
        let mut geo = Geo {
            code: &t,
            toks: toks.as_deref(),
            terms: &terms,
            order,
            nodes: 0,
            leaves: 0,
        };
        let res = geo.list(tree, None);
        c.eval(if geo.nodes > 2 { Some(cs.key(&t)) } else { None });
        c.count("trees", 1);
        c.count("nodes checked", geo.nodes);
        c.count("leaves checked", geo.leaves);
        c.max("largest tree", geo.nodes);
        if let Err(e) = res {
            c.viol("tree geometry", format!("{}\n{}\ntree: {}", cs.show(&t), e, got.show()));
        } else if geo.nodes > 8 {
            c.sample(|| format!("{}\n=> {}", cs.show(&t), got.show()));
        }
    }
}

/// The lexerless counterpart of a token grammar.
/// Other texts for the fixed tokens: no text is the start of another one or of the remaining tokens.
fn retext(r: &mut Rng) -> Vec<(i8, String)> {
    let mut pool = vec![
        "\n", "\t", "\r\n", " ", "ü", "\u{1F600}", "\u{7f}", "[[", "]", "if", "e", "Ω=", "\0", "\"", "\\n", "+", "ẞ", "{", "-->",
    ];
    r.shuffle(&mut pool);
    FIXED
        .iter()
        .map(|f| {
            let t = if r.pct(60) { pool.pop().unwrap() } else { f.1 };
            (f.0, t.to_string())
        })
        .collect()
}
fn retexted(t: &[u8], names: &[(i8, String)]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        match FIXED.iter().find(|f| t[i..].starts_with(f.1.as_bytes())) {
            Some(f) => {
                v.extend(names.iter().find(|x| x.0 == f.0).unwrap().1.bytes());
                i += f.1.len();
            }
            None => {
                v.push(t[i]);
                i += 1;
            }
        }
    }
    v
}

fn lexerless(g: &Grammar, r: &mut Rng, names: &[(i8, String)]) -> Grammar {
    let mut h = g.clone();
    let name = |k: i8| names.iter().find(|f| f.0 == k).map(|f| f.1.clone());
    let style = r.below(3);
    h.each_mut(&mut |x| {
        let k = match &x.k {
            K::Tok(7, n) => K::Regex(r"^[0-9]+;", *n),
            K::Tok(9, n) => K::Regex(r"^x[yz]*", *n),
            K::Tok(t, n) => match style {
                0 => K::Const(name(*t).unwrap(), *n),
                1 => K::Punct(vec![(name(*t).unwrap(), *n)]),
                _ => K::ConstSet(vec![(name(*t).unwrap(), *n)]),
            },
            K::TokSet(v) => {
                let w: Vec<(String, Option<N>)> =
                    v.iter().map(|y| (name(y.0).unwrap(), y.1)).collect();
                if style == 1 {
                    K::ConstSet(w)
                } else {
                    K::Punct(w)
                }
            }
            _ => return,
        };
        x.k = k;
    });
    h
}

fn unbound(t: &[ASTNode<N>]) -> String {
    t.iter()
        .map(|t| format!("{}#{}-{}[{}]", t.node, t.start, t.end, unbound(&t.children)))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn c09(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = vary(r, Profile::token());
    p.pair = true;
    let (mut cs, mut sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let fixed: Vec<(i8, String)> = FIXED.iter().map(|f| (f.0, f.1.to_string())).collect();
    let names = if r.pct(60) { retext(r) } else { fixed.clone() };
    if names != fixed {
        let set: Vec<(String, i8)> = names.iter().map(|x| (x.1.clone(), x.0)).collect();
        let mut v = vec![L::Pat(7, r"^[0-9]+;"), L::Pat(9, r"^x[yz]*")];
        let k = r.below(3);
        v.insert(k, if r.pct(50) { L::Punct(set) } else { L::Consts(set) });
        let lexers = Lexers { states: vec![(0, v)], combined: r.pct(30) };
        sys = match Sys::new(&cs.g, Some(&lexers), BuildOpt::default()) {
            Ok(s) => s,
            Err(_) => return,
        };
        cs.lexers = Some(lexers);
    }
    let h = lexerless(&cs.g, r, &names);
    let other = match Sys::new(&h, None, BuildOpt::default()) {
        Ok(s) => s,
        Err(e) => {
            return c.viol(
                "only one of the two parsers can be built",
                format!("{}\n{}", h.show(), e),
            )
        }
    };
    for t in inputs(r, &cs.g, &f, &p, 16, false) {
        let mut t = retexted(&t, &names);
        if r.pct(20) {
            let x = r.pick(&names).1.clone();
            t.extend(x.bytes());
        }
        if sys.tokens(&t).is_err() {
            continue;
        }
        let a = sys.parse(&t, 400_000, false);
        let b = other.parse(&t, 800_000, false);
        if spent(&a.show()) || spent(&b.show()) {
            c.count("over the attempt budget", 1);
            continue;
        }
        c.eval(if t.len() > 1 { Some(cs.key(&t)) } else { None });
        let ok = match (&a, &b) {
            (Out::Ok(x), Out::Ok(y)) => {
                c.count("both accepted", 1);
                c.count("tree nodes compared", anodes(x));
                unbound(x) == unbound(y)
            }
            (Out::Err(p, m), Out::Err(q, n)) => {
                c.count("both rejected", 1);
                c.max("furthest rejection", *p as u64);
                p == q && m.contains("end of file") == n.contains("end of file")
            }
            _ => false,
        };
        if !ok {
            c.viol(
                "tokenized and lexerless parsers disagree",
                format!("{}\nlexerless {}\ntokenized: {}\nlexerless: {}", cs.show(&t), h.show(), a.show(), b.show()),
            );
        } else if t.len() > 8 {
            c.sample(|| format!("{}\ntokenized: {}\nlexerless: {}", cs.show(&t), a.show(), b.show()));
        }
    }
}

pub fn c11(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(20) {
        return total_lex(c, r);
    }
    let mut p = either(r, 50);
    p.trivia = p.mode == Mode::Token && r.pct(30);
    if p.trivia {
        p.memo = 0;
    }
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let mut ins = inputs(r, &cs.g, &f, &p, 12, true);
    if r.pct(30) {
        ins.push((0..r.below(60)).map(|_| r.below(256) as u8).collect());
        let n = r.range(1, 3000);
        let b = *r.pick(b"a(,c x\n");
        ins.push(vec![b; n]);
        let v = Derive::run(&cs.g, &f, r, 3000);
        ins.push(render(r, &v, 1));
    }
    for t in ins {
        let w = reference(&cs.g, cs.lexers.as_ref(), &t, ref_limit(&t) * 4, true);
        c.count(w.want.tag(), 1);
        if matches!(w.want, Want::Budget) {
            continue;
        }
        let got = sys.parse(&t, w.steps + 20_000, true);
        let steps = sys.built.mon.steps.get();
        c.eval(if w.steps > 5 { Some(cs.key(&t)) } else { None });
        c.count("attempts observed", steps);
        c.count("attempts allowed", w.steps);
        c.max("longest input", t.len() as u64);
        c.max("most attempts in one parse", steps);
        if let Out::Panic(m) = &got {
            c.viol("parse panics or does not end", format!("{}\n{}", cs.show(&t), m));
            continue;
        }
        if steps > w.steps {
            c.viol(
                "more attempts than plain ordered choice",
                format!("{}\nobserved {} allowed {}", cs.show(&t), steps, w.steps),
            );
            continue;
        }
        for (k, n) in sys.built.mon.attempts.borrow().iter() {
            let m = w.attempts.get(k).copied().unwrap_or(0);
            if *n > m {
                c.viol(
                    "an expression is tried again without progress",
                    format!("{}\nexpression {:?} tried {} times, ordered choice needs {}", cs.show(&t), k, n, m),
                );
                break;
            }
        }
        if steps > 200 {
            c.sample(|| format!("{}\nattempts {} of {}", cs.show(&t), steps, w.steps));
        }
    }
}

fn total_lex(c: &mut Ctx, r: &mut Rng) {
    let states = *r.pick(&[1usize, 4]);
    let x = crate::lexgen::lexers(
        r,
        &crate::lexgen::LexProfile {
            states,
            actions: if states > 1 { 30 } else { 0 },
            catch_all: 60,
        },
    );
    let b = match guard(|| x.build(0, false)) {
        Ok(b) => b,
        Err(e) => return c.viol("constructor panics", format!("{}\n{}", x.show(), e)),
    };
    for k in 0..8 {
        let t: Vec<u8> = match k {
            0 => (0..r.below(80)).map(|_| r.below(256) as u8).collect(),
            1 => vec![*r.pick(b"a<{ 1\n"); r.range(1, 4000)],
            _ => crate::lexgen::lex_text(r, &x),
        };
        let w = tokenize(&x, &t);
        b.mon.calls.set(0);
        b.mon.limit.set(w.calls + 100);
        let got = crate::c_lex::run_tok(&b, &t);
        c.eval(if t.is_empty() { None } else { Some(hash(x.show().as_bytes()) ^ hash(&t)) });
        c.count("lexeme attempts observed", b.mon.calls.get());
        c.count("lexeme attempts allowed", w.calls);
        c.max("longest input", t.len() as u64);
        let d = || format!("{}\ninput: {}", x.show(), text(&t));
        match got {
            Err(p) => c.viol("tokenize panics or does not end", format!("{}\n{}", d(), p)),
            _ if b.mon.calls.get() > w.calls => c.viol(
                "lexemes are tried more often than needed",
                format!("{}\nobserved {} allowed {}", d(), b.mon.calls.get(), w.calls),
            ),
            _ => {}
        }
    }
}

pub fn c12(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(5) {
        return crate::c_misc::direct_error(c, r);
    }
    let mut p = either(r, 60);
    p.errors = false;
    p.trivia = p.mode == Mode::Token && r.pct(20);
    if p.trivia {
        p.memo = 0;
    }
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    for t in inputs(r, &cs.g, &f, &p, 18, true) {
        let w = reference(&cs.g, cs.lexers.as_ref(), &t, ref_limit(&t), false);
        let far = match w.want {
            Want::Unparsed(p) => p,
            _ => continue,
        };
        let got = sys.parse(&t, w.steps * 50 + 1_000_000, false);
        c.eval(Some(cs.key(&t)));
        let end = far == t.len();
        c.count(
            match (end, far) {
                (true, _) => "rejected at the end",
                (_, 0) => "rejected at the start",
                _ => "rejected in between",
            },
            1,
        );
        let (q, m) = match &got {
            Out::Err(q, m) => (*q, m.clone()),
            o => {
                c.viol("not rejected", format!("{}\nexpected an error at {}\nobserved {}", cs.show(&t), far, o.show()));
                continue;
            }
        };
        let mut bad = String::new();
        if q != far {
            bad = format!("pointer {} in place of {}", q, far);
        } else if m.contains("Unexpected end of file") != end {
            bad = "end of file message".into();
        } else {
            if !end {
                let s: &[u8] = match cs.mode {
                    Mode::Token => {
                        let k = w.toks.iter().find(|k| k.t >= 0 && k.s == far).unwrap();
                        &t[k.s..k.e]
                    }
                    Mode::Less => {
                        let n = (1..=4.min(t.len() - far))
                            .find(|n| std::str::from_utf8(&t[far..far + n]).is_ok())
                            .unwrap_or(1);
                        &t[far..far + n]
                    }
                };
                // Bytes that are not a character can only be named lossily.
                let s = &*String::from_utf8_lossy(s);
                let esc = format!("{:?}", s);
                let first = m.split("Failed to parse").next().unwrap_or("");
                if !first.contains(s) && !first.contains(esc.trim_matches('"')) {
                    bad = format!("message does not name {:?}", s);
                }
            }
            if printed_position(&m) != Some(line_col(&t, far)) {
                bad = format!("position {:?} in place of {:?}", printed_position(&m), line_col(&t, far));
            }
        }
        if !bad.is_empty() {
            c.viol("syntax error", format!("{}\n{}\nfurthest match ends at {}, error expected at {}\nobserved {}", cs.show(&t), bad, w.far, far, got.show()));
        } else if far > 3 && !end {
            c.sample(|| format!("{}\n=> {}", cs.show(&t), got.show()));
        }
    }
}

/// Expressions that raw token ranges evaluate.
fn between_tokens(g: &Grammar) -> HashSet<u32> {
    let mut todo: Vec<&G> = vec![];
    let mut raw = HashSet::new();
    g.each(&mut |x| {
        if let K::NonStr(y, _) = &x.k {
            todo.push(y)
        }
    });
    while let Some(x) = todo.pop() {
        let mut refs = vec![];
        if !raw.insert(x.id) {
            continue;
        }
        x.each(&mut |z| {
            raw.insert(z.id);
            if let K::Ref(i) = &z.k {
                refs.push(*i)
            }
        });
        for i in refs {
            match &g.nts[i] {
                NT::Concat(v) | NT::Union(v) => todo.extend(v.iter()),
                NT::Suf(l, _, v) => {
                    todo.push(l);
                    todo.extend(v.iter().map(|y| &y.0))
                }
            }
        }
    }
    raw
}

pub fn c13(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = either(r, 50);
    p.errors = true;
    p.valid = *r.pick(&[10, 20, 35]);
    p.memo = *r.pick(&[0, 0, 4]);
    p.trivia = p.mode == Mode::Token && r.pct(50);
    if p.trivia {
        p.memo = 0;
    }
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let raw = between_tokens(&cs.g);
    let mut memo = false;
    cs.g.each(&mut |x| memo |= matches!(x.k, K::Memo(..)));
    for t in inputs(r, &cs.g, &f, &p, 18, true) {
        let w = reference(&cs.g, cs.lexers.as_ref(), &t, ref_limit(&t), true);
        if matches!(w.want, Want::Budget | Want::Lex(_)) || w.validator_calls.is_empty() {
            continue;
        }
        let got = sys.parse(&t, w.steps * 50 + 1_000_000, true);
        c.eval(Some(cs.key(&t)));
        c.count(w.want.tag(), 1);
        let calls = sys.built.mon.validator_calls.borrow().clone();
        c.count("validator calls observed", calls.len() as u64);
        if matches!(w.want, Want::Invalid(..)) && w.validator_calls.last().map_or(false, |v| raw.contains(&v.0)) {
            c.count("validation errors between tokens", 1);
        }
        let mut bad = String::new();
        match (&w.want, &got) {
            (Want::Invalid(p, m), Out::Err(q, n)) => {
                if p != q || !n.contains(m.as_str()) {
                    bad = format!("error at {} in place of {} {:?}", q, p, m);
                } else if printed_position(n) != Some(line_col(&t, *p)) {
                    bad = format!("position {:?} in place of {:?}", printed_position(n), line_col(&t, *p));
                }
            }
            (Want::Ok(x), Out::Ok(y)) => {
                if !same_list(y, x) {
                    bad = "tree differs".into();
                }
            }
            (Want::Unparsed(_), Out::Err(_, n)) if n.contains("Unexpected") => {}
            _ => bad = "outcome differs".into(),
        }
        // What validators saw.
        let mut have: HashMap<(u32, usize, u64), i64> = HashMap::new();
        for k in &w.validator_calls {
            *have.entry(*k).or_insert(0) += 1;
        }
        for k in &calls {
            let e = have.entry(*k).or_insert(0);
            *e -= 1;
            if *e < 0 {
                bad = format!("validator {} was given nodes or source its production did not produce", k.0);
            }
        }
        if cs.mode == Mode::Less && !memo && calls != w.validator_calls && bad.is_empty() {
            bad = format!("validator calls {:?} in place of {:?}", calls, w.validator_calls);
        }
        if !bad.is_empty() {
            c.viol("validation", format!("{}\n{}\nexpected {}\nobserved {}", cs.show(&t), bad, w.want.show(), got.show()));
        } else if matches!(w.want, Want::Invalid(..)) && w.steps > 20 {
            c.sample(|| format!("{}\n=> {}", cs.show(&t), got.show()));
        }
    }
}

/// Thousands of memoized results in one parse, all asked for again by a later alternative.
fn long_memo(c: &mut Ctx, r: &mut Rng) {
    let mode = if r.pct(50) { Mode::Token } else { Mode::Less };
    let b = |k: K| Box::new(G::new(k));
    let t = |k: i8, n: Option<N>| {
        if mode == Mode::Token {
            K::Tok(k, n)
        } else {
            K::Const(FIXED[k as usize].1.into(), n)
        }
    };
    let item = K::Memo(1, b(K::Ref(3)));
    let again = r.range(1, 3);
    let mut alts: Vec<G> = (0..again).map(|_| G::new(K::Ref(1))).collect();
    alts.push(G::new(K::Ref(2)));
    let mut g = Grammar {
        nts: vec![
            NT::Union(alts),
            NT::Concat(vec![G::new(K::List(b(item.clone()))), G::new(t(5, Some(7)))]),
            NT::Concat(vec![G::new(K::List(b(item))), G::new(K::Eof(None))]),
            NT::Union(vec![G::new(K::Ref(4)), G::new(t(0, Some(3))), G::new(t(3, None))]),
            NT::Concat(vec![G::new(t(4, Some(4))), G::new(t(0, None)), G::new(t(6, Some(5)))]),
        ],
        root: G::new(K::Ref(0)),
        unset: vec![false; 5],
        names: NAMES[..5].to_vec(),
        rules: Default::default(),
        ids: 0,
    };
    g.number();
    let lexers = if mode == Mode::Token { Some(lang(r.below(60))) } else { None };
    let cs = Case { g, lexers, mode };
    let new = |no_memo| Sys::new(&cs.g, cs.lexers.as_ref(), BuildOpt { no_memo, ..Default::default() });
    let (sys, plain) = match (new(false), new(true)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return c.viol("grammar refused", cs.g.show()),
    };
    let mut memos: Vec<u32> = vec![];
    cs.g.each(&mut |x| {
        if let K::Memo(_, y) = &x.k {
            memos.push(y.id)
        }
    });
    let n = *r.pick(&[300usize, 1_200, 5_000, 12_000]);
    let mut text = String::new();
    for _ in 0..n {
        text.push_str(*r.pick(&["a", "é", "(a,", "a"]));
    }
    if r.pct(30) {
        text.push_str(*r.pick(&["(", ")", "(a", "#"]));
    }
    let text = text.as_bytes();
    let limit = 40 * n as u64 + 10_000;
    let a = plain.parse(text, limit, false);
    let o = sys.parse(text, limit, true);
    c.eval(Some(cs.key(text)));
    c.count("long parses", 1);
    c.max("memo entries in one parse", n as u64);
    // The memoized rule is the same production behind both wrappers, with one key.
    let at = sys.built.mon.attempts.borrow();
    let mut per: HashMap<usize, u64> = HashMap::new();
    for (k, times) in at.iter() {
        if memos.contains(&k.0) {
            *per.entry(k.2).or_insert(0) += *times as u64;
        }
    }
    let short = |o: &Out| o.show().chars().take(300).collect::<String>();
    if !a.same(&o) {
        c.viol("memoization changes the outcome", format!("{}\n{} items\nwithout: {}\nwith: {}", cs.g.show(), n, short(&a), short(&o)));
    } else if let Some((p, k)) = per.iter().find(|x| *x.1 > 1) {
        c.viol("a memoized production is evaluated twice at one position", format!("{}\n{} items, {} evaluations at {}", cs.g.show(), n, k, p));
    }
}

/// The store of memoized results against a map.
fn store(c: &mut Ctx, r: &mut Rng) {
    let mut real = lang_pt::Cache::<usize, N>::root();
    let mut model: HashMap<(usize, usize), Result<usize, usize>> = HashMap::new();
    let mut furthest = 0;
    let mut ops = vec![];
    let show = |x: &lang_pt::ParsedResult<usize, N>| match x {
        Ok(s) => Ok(s.consumed_index),
        Err(lang_pt::ProductionError::Validation(p, _)) => Err(*p),
        Err(_) => Err(0),
    };
    for n in 0..r.size(40, 200) {
        let (k, at) = (r.below(5), r.below(8));
        let key = || lang_pt::CacheKey::verif_new(k);
        let bad = match r.below(4) {
            0 => {
                let v = if r.pct(60) {
                    Ok(lang_pt::SuccessData::hidden(n + at))
                } else if r.pct(50) {
                    Err(lang_pt::ProductionError::Validation(n + 1, "m".into()))
                } else {
                    Err(lang_pt::ProductionError::Unparsed)
                };
                let want = show(&v);
                ops.push(format!("insert({}, {}, {:?})", k, at, want));
                let old = real.insert(key(), at, v).map(|x| show(&x));
                furthest = furthest.max(at);
                old != model.insert((k, at), want)
            }
            1 => {
                ops.push(format!("update_index({})", at));
                real.update_index(at);
                furthest = furthest.max(at);
                false
            }
            2 => {
                ops.push(format!("contains({}, {})", k, at));
                real.contains(key(), at) != model.contains_key(&(k, at))
            }
            _ => {
                ops.push(format!("find({}, {})", k, at));
                real.find(key(), at).map(show) != model.get(&(k, at)).copied()
            }
        };
        c.count("store operations", 1);
        if bad || real.get_index() != furthest {
            c.viol("the store of results disagrees with a map", ops.join(" "));
            return;
        }
    }
    c.eval(Some(hash(ops.join(" ").as_bytes())));
}

pub fn c15(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if r.pct(2) {
        return long_memo(c, r);
    }
    if r.pct(4) {
        return store(c, r);
    }
    let mut p = either(r, 50);
    p.memo = 25;
    p.errors = r.pct(40);
    p.max_nts = *r.pick(&[6, 14]);
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let plain = match Sys::new(&cs.g, cs.lexers.as_ref(), BuildOpt { no_memo: true, ..Default::default() }) {
        Ok(s) => s,
        Err(_) => return c.viol("grammar refused only with memoization", cs.g.show()),
    };
    let mut memos: Vec<(u32, u32)> = vec![];
    cs.g.each(&mut |x| {
        if let K::Memo(_, y) = &x.k {
            memos.push((x.id, y.id))
        }
    });
    // What also stands elsewhere, or behind another key, may be evaluated again there.
    let mut places: HashMap<u32, usize> = HashMap::new();
    cs.g.each(&mut |x| *places.entry(x.id).or_insert(0) += 1);
    let under = memos.clone();
    memos.sort();
    memos.dedup();
    let alone = |m: u32, i: u32| under.iter().filter(|x| **x == (m, i)).count() == places[&i];
    if memos.is_empty() {
        return;
    }
    for t in inputs(r, &cs.g, &f, &p, 14, true) {
        let a = plain.parse(&t, 300_000, false);
        if let Out::Panic(m) = &a {
            if spent(m) {
                c.count("over the attempt budget", 1);
                continue;
            }
        }
        let b = sys.parse(&t, 3_000_000, true);
        if matches!(&b, Out::Panic(m) if m.contains(DEPTH)) {
            c.count("over the attempt budget", 1);
            continue;
        }
        c.count(if matches!(a, Out::Ok(_)) { "accepted" } else { "rejected" }, 1);
        let at = sys.built.mon.attempts.borrow();
        let mut hits = 0u64;
        let mut stores = 0u64;
        let mut twice = None;
        for (m, i) in &memos {
            for (k, n) in at.iter() {
                if k.0 == *i {
                    stores += 1;
                    if *n > 1 && alone(*m, *i) {
                        twice = Some(*k);
                    }
                }
                if k.0 == *m {
                    hits += (*n - 1) as u64;
                }
            }
        }
        c.count("memo evaluations", stores);
        c.count("memo hits", hits);
        c.eval(if stores > 0 { Some(cs.key(&t)) } else { None });
        c.count("cases with memo hits", (hits > 0) as u64);
        if !a.same(&b) {
            c.viol("memoization changes the outcome", format!("{}\nwithout: {}\nwith: {}", cs.show(&t), a.show(), b.show()));
        } else if let Some(k) = twice {
            c.viol("a memoized production is evaluated twice at one position", format!("{}\n{:?}", cs.show(&t), k));
        } else if hits > 2 {
            c.sample(|| format!("{}\nhits {} => {}", cs.show(&t), hits, b.show()));
        }
    }
}

/// Panic of the caller's code in C16.
const GIVEN_UP: &str = "VH-GIVEN-UP";

pub fn c16(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = either(r, 60);
    p.trivia = p.mode == Mode::Token && r.pct(30);
    p.names = true;
    p.memo = if p.trivia { 0 } else { *r.pick(&[0, 10]) };
    let g = Gen::grammar(r, &p);
    let lexers = if p.mode == Mode::Token {
        if r.pct(50) {
            Some(lang(r.below(60)))
        } else {
            // Tokenizers with states and closures; the grammar mostly rejects, tokens still count.
            Some(crate::lexgen::lexers(
                r,
                &crate::lexgen::LexProfile {
                    states: 4,
                    actions: 25,
                    catch_all: 90,
                },
            ))
        }
    } else {
        None
    };
    let new = |style: bool| Sys::new(&g, lexers.as_ref(), BuildOpt { style, ..Default::default() });
    let (sys, twin) = match (new(false), new(false)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => return c.count("grammars refused by the constructor", 1),
        _ => return c.viol("the same grammar is accepted once and refused once", g.show()),
    };
    c.count("grammars", 1);
    let f = Facts::new(&g);
    let cs = Case { g: g.clone(), lexers: lexers.clone(), mode: p.mode };
    let mut ins = inputs(r, &g, &f, &p, 5, true);
    if let Some(l) = &lexers {
        for _ in 0..2 {
            ins.push(crate::lexgen::lex_text(r, l));
        }
    }
    // Every call costs as much again.
    ins.iter_mut().for_each(|t| t.truncate(8000));
    let text0 = twin.grammar();
    // Each input alone on a fresh parser.
    let mut alone: Vec<(Out, String)> = vec![];
    for t in &ins {
        let s = match new(false) {
            Ok(s) => s,
            Err(_) => return,
        };
        let o = s.parse(t, 200_000, false);
        let k = if lexers.is_some() {
            match s.tokens(t) {
                Ok(v) => show_lex(&v),
                Err(p) => format!("rejected {}", p),
            }
        } else {
            String::new()
        };
        alone.push((o, k));
    }
    let mut log = vec![];
    // Half of the calls read the same memory with other contents.
    let mut buf: Vec<u8> = Vec::with_capacity(32_768);
    let calls = if r.pct(2) { 400 } else { 24 };
    for _ in 0..calls {
        let i = r.below(ins.len());
        let t = if r.pct(50) {
            c.count("calls on a reused buffer", 1);
            buf.clear();
            buf.extend(&ins[i]);
            &buf
        } else {
            &ins[i]
        };
        let who = if r.pct(85) { &sys } else { &twin };
        if let Out::Panic(m) = &alone[i].0 {
            if spent(m) {
                continue;
            }
        }
        let entry = r.below(if lexers.is_some() { 5 } else { 2 });
        log.push((i, entry));
        who.built.mon.reset(300_000, DEEP, false);
        // Sometimes another call is made from within this one, or this one is given up in the middle by a panic of
        // the caller's code.
        let inside = Rc::new(RefCell::new(None));
        let kind = r.below(8);
        if kind == 0 {
            let j = r.below(ins.len());
            let (at, inside, alone) = (r.size(12, 300) as u64, inside.clone(), alone[j].clone());
            let text = ins[j].clone();
            let (p, mon) = (if r.pct(80) { who as *const Sys } else { &twin as *const Sys }, who.built.mon.clone());
            let show = r.pct(15);
            let text0 = text0.clone();
            let skip = matches!(&alone.0, Out::Panic(_));
            arm(
                at.max(1),
                Rc::new(move || {
                    // The parser lives as long as the call that this happens in.
                    let p = unsafe { &*p };
                    let (steps, depth) = (mon.steps.get(), mon.depth.get());
                    let tok = match &p.tok {
                        Some(q) => Some(match q.tokenize(&Code::new(&text)) {
                            Ok(v) => show_lex(&v),
                            Err(e) => format!("rejected {}", e.pointer),
                        }),
                        None => None,
                    };
                    let mut wrong = match &tok {
                        Some(k) if *k != alone.1 => Some(k.clone()),
                        _ => None,
                    };
                    if !skip {
                        mon.steps.set(0);
                        let o = Out::from(guard(|| match (&p.tok, &p.less) {
                            (Some(q), _) => q.parse(&text),
                            (_, Some(q)) => q.parse(&text),
                            _ => unreachable!(),
                        }));
                        if !o.same(&alone.0) && !matches!(&o, Out::Panic(m) if spent(m) || m.contains(DEPTH)) {
                            wrong = Some(o.show());
                        }
                    }
                    if show && p.grammar() != text0 {
                        wrong = Some("another grammar text".into());
                    }
                    mon.steps.set(steps);
                    mon.depth.set(depth);
                    *inside.borrow_mut() = Some(wrong.map(|w| format!("input {}\nalone: {} {}\ninside: {}", j, alone.0.show(), alone.1, w)));
                }),
            );
        } else if kind == 1 {
            let at = r.size(12, 300) as u64;
            arm(at.max(1), Rc::new(|| panic!("{}", GIVEN_UP)));
        }
        let (o, k): (Option<Out>, Option<String>) = match entry {
            0 => (Some(who.parse(t, 300_000, false)), None),
            1 => {
                let gt = who.grammar();
                c.count("grammar texts compared", 1);
                if gt.is_err() || gt != text0 {
                    c.viol("grammar text changes", format!("{}\nfirst: {:?}\nlater: {:?}", g.show(), text0, gt));
                }
                (None, None)
            }
            2 => (None, match guard(|| who.tokens(t)) {
                Ok(Ok(v)) => Some(show_lex(&v)),
                Ok(Err(p)) => Some(format!("rejected {}", p)),
                Err(p) if p.contains(GIVEN_UP) => None,
                Err(p) => panic!("{}", p),
            }),
            3 => match guard(|| who.tok.as_ref().unwrap().tokenize_n_parse(&amid(t))) {
                Ok(Ok((k, tr))) => (Some(Out::Ok(tr)), Some(show_lex(&k))),
                Ok(Err(e)) => (Some(Out::Err(e.pointer, e.message)), None),
                Err(p) => (Some(Out::Panic(p)), None),
            },
            _ => match guard(|| who.tokens(t)) {
                Ok(Ok(v)) => (Some(who.parse_stream(t, &v, 300_000)), Some(show_lex(&v))),
                Ok(Err(_)) => (None, None),
                Err(p) if p.contains(GIVEN_UP) => (None, None),
                Err(p) => panic!("{}", p),
            },
        };
        let fired = disarm() && kind < 2;
        if fired {
            c.count(["calls made from within another call", "calls given up in the middle"][kind], 1);
            if let Some(Some(w)) = inside.borrow_mut().take() {
                c.viol("result depends on history, instance or entry point", format!("{}\na call from within another one: {}", cs.show(t), w));
                return;
            }
            if kind == 1 {
                continue;
            }
        }
        c.eval(if log.len() > 1 && !t.is_empty() { Some(cs.key(t) ^ mix(log.len() as u64)) } else { None });
        c.count(["parse calls", "grammar calls", "tokenize calls", "tokenize_n_parse calls", "parse_stream calls"][entry], 1);
        let a = &alone[i];
        if o.as_ref().map_or(false, |o| !o.same(&a.0) && !matches!((o, &a.0), (Out::Panic(_), Out::Panic(_))))
            || k.as_ref().map_or(false, |k| *k != a.1)
        {
            c.viol(
                "result depends on history, instance or entry point",
                format!(
                    "{}\nhistory (input, entry): {:?}\nalone: {} {}\nnow: {} {}",
                    cs.show(t),
                    log,
                    a.0.show(),
                    a.1,
                    o.map_or(String::new(), |o| o.show()),
                    k.unwrap_or_default()
                ),
            );
            return;
        }
    }
    c.count("histories", 1);
    c.sample(|| format!("{}\ninputs {} history {:?}", g.show(), ins.len(), log));
}

pub fn c21(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = either(r, 60);
    p.trivia = p.mode == Mode::Token && r.pct(30);
    if p.trivia {
        p.memo = 0;
    }
    let odd = r.pct(25);
    let g = Gen::grammar(r, &p);
    let lexers = match p.mode {
        Mode::Token if odd => Some(crate::lexgen::lexers(
            r,
            &crate::lexgen::LexProfile {
                states: 4,
                actions: 25,
                catch_all: 90,
            },
        )),
        Mode::Token => Some(lang(r.below(60))),
        _ => None,
    };
    let level = 1 + r.below(5) as u8;
    let style = r.pct(40);
    let plain = Sys::new(&g, lexers.as_ref(), BuildOpt { style, ..Default::default() });
    let logged = Sys::new(&g, lexers.as_ref(), BuildOpt { log: level, style, ..Default::default() });
    let (plain, logged) = match (plain, logged) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(_)) => {
            c.digest.push((c.seed, 1 + a.contains("panic") as u64));
            return;
        }
        _ => return c.viol("log labels change what is accepted as a grammar", g.show()),
    };
    c.count("grammars", 1);
    let f = Facts::new(&g);
    let cs = Case { g, lexers, mode: p.mode };
    let mut digest = 0u64;
    let mut ins = inputs(r, &cs.g, &f, &p, 8, true);
    if let Some(l) = &cs.lexers {
        if odd {
            for _ in 0..4 {
                ins.push(crate::lexgen::lex_text(r, l));
            }
            // A pattern of these tokenizers may look at the whole rest of the text at each token.
            for t in ins.iter_mut() {
                t.truncate(20_000);
            }
        }
    }
    for t in ins {
        let a = plain.parse(&t, 60_000, false);
        if let Out::Panic(m) = &a {
            if spent(m) {
                c.count("over the attempt budget", 1);
                continue;
            }
        }
        let b = logged.parse(&t, 60_000, false);
        c.eval(if t.len() > 1 { Some(cs.key(&t)) } else { None });
        c.count(if matches!(a, Out::Ok(_)) { "accepted" } else { "rejected" }, 1);
        c.count("logged runs compared", 1);
        digest = mix(digest ^ a.digest());
        if cs.lexers.is_some() {
            let (x, y) = (plain.tokens(&t), logged.tokens(&t));
            let s = match (&x, &y) {
                (Ok(x), Ok(y)) => {
                    let s = show_lex(x);
                    if s != show_lex(y) {
                        c.viol("logging changes tokens", format!("level {}\n{}", level, cs.show(&t)));
                    }
                    s
                }
                (Err(x), Err(y)) if x == y => format!("{}", x),
                _ => {
                    c.viol("logging changes tokenization", format!("level {}\n{}", level, cs.show(&t)));
                    String::new()
                }
            };
            digest = mix(digest ^ hash(s.as_bytes()));
        }
        if !a.same(&b) {
            c.viol(
                "logging changes the outcome",
                format!("level {}\n{}\nplain: {}\nlogged: {}", level, cs.show(&t), a.show(), b.show()),
            );
        }
        #[cfg(debug_assertions)]
        debug_entry(c, r, &cs, &t);
    }
    c.digest.push((c.seed, digest));
    c.sample(|| format!("level {} {}", level, cs.g.show()));
}

/// Registered productions through the debug entry points against the same production inside a full parse.
#[cfg(debug_assertions)]
fn debug_entry(c: &mut Ctx, r: &mut Rng, cs: &Case, t: &[u8]) {
    if !r.pct(30) {
        return;
    }
    let mut sys = match Sys::new(&cs.g, cs.lexers.as_ref(), BuildOpt::default()) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut ids: Vec<u32> = sys.built.by_id.keys().copied().collect();
    ids.sort();
    r.shuffle(&mut ids);
    ids.truncate(if r.below(15) == 0 { 60 } else { 8 });
    let mut names: Vec<&'static str> = NAMES.to_vec();
    r.shuffle(&mut names);
    for (i, id) in ids.iter().enumerate() {
        let q = sys.built.by_id[id].clone();
        match (&mut sys.tok, &mut sys.less) {
            (Some(p), _) => p.add_debug_production(names[i], &q),
            (_, Some(p)) => p.add_debug_production(names[i], &q),
            _ => {}
        }
    }
    *sys.built.mon.watch.borrow_mut() = ids.iter().copied().collect();
    let full = sys.parse(t, 60_000, true);
    let seen: Vec<Seen> = std::mem::take(&mut sys.built.mon.seen.borrow_mut());
    sys.built.mon.watch.borrow_mut().clear();
    if let Out::Panic(_) = full {
        return;
    }
    let struc: Vec<usize> = match cs.mode {
        Mode::Token => sys.tokens(t).map_or(vec![], |v| v.iter().filter(|k| k.token >= 0).map(|k| k.start).collect()),
        Mode::Less => vec![],
    };
    // A name that is not registered.
    let other = names[names.len() - 1];
    let got = guard(|| match (&sys.tok, &sys.less) {
        (Some(p), _) => p.debug_production_at(other, t, r.below(t.len() + 1)).is_ok(),
        (_, Some(p)) => p.debug_parser_at(other, t, r.below(t.len() + 1)).is_ok(),
        _ => unreachable!(),
    });
    c.count("unregistered names asked for", 1);
    if got != Ok(false) {
        c.viol("unregistered debug name", format!("{}\n{} gives {:?}", cs.show(t), other, got));
    }
    let mut done = HashSet::new();
    for s in seen {
        if s.m == M::R || !done.insert((s.id, s.at)) || done.len() > 40 {
            continue;
        }
        let i = ids.iter().position(|x| *x == s.id).unwrap();
        let mut at = s.at;
        if s.m == M::F && r.pct(50) {
            // Anywhere behind the start of the structural token before.
            let from = struc.iter().filter(|x| **x < s.at).max().map_or(0, |x| x + 1);
            at = r.range(from, s.at);
            if at < s.at {
                c.count("debug entries between tokens", 1);
            }
        }
        sys.built.mon.reset(200_000, DEEP, false);
        let got = Out::from(guard(|| match (&sys.tok, &sys.less) {
            (Some(p), _) => p.debug_production_at(names[i], &amid(t), at),
            (_, Some(p)) => p.debug_parser_at(names[i], &amid(t), at),
            _ => unreachable!(),
        }));
        c.count("debug entry points compared", 1);
        let ok = match (&got, &s.res) {
            (Out::Ok(a), Some(b)) => eq_list(a, b),
            (Out::Err(..), None) => true,
            _ => false,
        };
        if !ok {
            c.viol(
                "debug entry point differs from the full parse",
                format!(
                    "{}\nexpression {} at {} asked at {}\nin the parse: {}\ndebug: {}",
                    cs.show(t),
                    s.id,
                    s.at,
                    at,
                    s.res.as_ref().map_or("mismatch".into(), |x| show_a(x)),
                    got.show()
                ),
            );
        }
    }
    // Anywhere else: against the reference, with the position of the error.
    let mut places: Vec<(usize, usize)> = (0..6).map(|_| (r.below(ids.len()), r.below(t.len() + 1))).collect();
    places.push((r.below(ids.len()), 0));
    places.push((r.below(ids.len()), t.len()));
    for (i, at) in places {
        let mut e = None;
        cs.g.each(&mut |x| {
            if x.id == ids[i] {
                e = Some(x)
            }
        });
        let w = reference_at(cs, t, e.unwrap(), at, 20_000);
        if matches!(w, Want::Budget) {
            continue;
        }
        sys.built.mon.reset(1_200_000, DEEP, false);
        let got = Out::from(guard(|| match (&sys.tok, &sys.less) {
            (Some(p), _) => p.debug_production_at(names[i], &amid(t), at),
            (_, Some(p)) => p.debug_parser_at(names[i], &amid(t), at),
            _ => unreachable!(),
        }));
        c.count("debug entry points against the reference", 1);
        let ok = match (&w, &got) {
            (Want::Ok(x), Out::Ok(y)) => same_list(y, x),
            (Want::Lex(p) | Want::Unparsed(p), Out::Err(q, _)) => p == q,
            (Want::Invalid(p, m), Out::Err(q, n)) => p == q && n.contains(m.as_str()),
            _ => false,
        };
        if !ok {
            c.viol(
                "debug entry point differs from its production",
                format!("{}\nexpression {} at {}\nexpected: {}\ndebug: {}", cs.show(t), ids[i], at, w.show(), got.show()),
            );
        }
    }
    let none = guard(|| match (&sys.tok, &sys.less) {
        (Some(p), _) => p.debug_production_at("nothing", t, 0).is_err(),
        (_, Some(p)) => p.debug_parser_at("nothing", t, 0).is_err(),
        _ => unreachable!(),
    });
    if none != Ok(true) {
        c.viol("debug entry point of an unknown name", format!("{:?}", none));
    }
}

pub fn c23(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    let mut p = either(r, 65);
    p.trivia = p.mode == Mode::Token && r.pct(40);
    if p.trivia {
        p.memo = 0;
    }
    let (cs, sys, f) = match case(r, &p, 0, c) {
        Some(x) => x,
        None => return,
    };
    let facts = |q: &Probe| {
        guard(|| {
            let mut s = HashSet::new();
            if cs.mode == Mode::Token {
                q.impl_first_set(&mut s);
            }
            (q.is_nullable(), s)
        })
    };
    let mut before = HashMap::new();
    for (id, q) in &sys.built.by_id {
        match facts(q) {
            Ok(x) => {
                before.insert(*id, x);
            }
            Err(e) => {
                c.viol("declaration panics", format!("{}\nexpression {}: {}", cs.g.show(), id, e));
                return;
            }
        }
    }
    for t in inputs(r, &cs.g, &f, &p, 14, true) {
        let _ = sys.parse(&t, 150_000, true);
        let raw = if cs.mode == Mode::Token { sys.tokens(&t).unwrap_or_default() } else { vec![] };
        // For every raw token: the next structural token, and the start of the gap before that one.
        let mut next = vec![raw.len().saturating_sub(1); raw.len()];
        let mut gaps = vec![0; raw.len()];
        for j in 0..raw.len() {
            if j > 0 {
                gaps[j] = if raw[j - 1].token >= 0 { j } else { gaps[j - 1] };
            }
        }
        for j in (0..raw.len()).rev() {
            if raw[j].token >= 0 {
                next[j] = j;
            } else if j + 1 < raw.len() {
                next[j] = next[j + 1];
            }
        }
        let evs = sys.built.mon.events.borrow();
        c.eval(if evs.len() > 4 { Some(cs.key(&t)) } else { None });
        for e in evs.iter() {
            if e.end.is_none() {
                continue;
            }
            let (n, first) = &before[&e.id];
            if !e.advanced {
                c.count("empty matches checked", 1);
                if !n {
                    c.viol(
                        "declared non-nullable but matched nothing",
                        format!("{}\nexpression {} at {}", cs.show(&t), e.id, e.at),
                    );
                    return;
                }
            } else if e.m == M::F {
                c.count("first tokens checked", 1);
                if !first.contains(&e.tok) {
                    c.viol(
                        "first token is not in the declared first set",
                        format!("{}\nexpression {} at {} began with token {}, declared {:?}", cs.show(&t), e.id, e.at, e.tok, first),
                    );
                    return;
                }
            } else if e.m == M::R && !raw.is_empty() {
                // The raw token itself; through a structural production inside the next structural
                // token, or the start of the gap before it.
                c.count("first raw tokens checked", 1);
                let i = raw.partition_point(|k| k.start < e.at);
                let i = if raw.get(i).map_or(false, |k| k.start == e.at) { i } else { raw.len() - 1 };
                let s = next[i];
                let gap = gaps[s];
                let mut may = vec![raw[i].token, raw[gap].token];
                if e.end.map_or(false, |x| x > raw[s].start) {
                    may.push(raw[s].token);
                }
                if !may.iter().any(|k| first.contains(k)) {
                    c.viol(
                        "first raw token is not in the declared first set",
                        format!("{}\nexpression {} at {} began with one of {:?}, declared {:?}", cs.show(&t), e.id, e.at, may, first),
                    );
                    return;
                }
            }
        }
        if evs.len() > 60 {
            c.sample(|| format!("{}\nevents {}", cs.show(&t), evs.len()));
        }
    }
    for (id, q) in &sys.built.by_id {
        if facts(q).ok().as_ref() != before.get(id) {
            c.viol("declarations change", format!("{}\nexpression {}", cs.g.show(), id));
        }
    }
    c.count("productions checked", before.len() as u64);
}
