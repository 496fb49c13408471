//! C10, C14, C17, C22, C24.
use crate::c_parse::{case, either, line_col, printed_position};
use crate::ctx::*;
use crate::gen::*;
use crate::gram::*;
use crate::lexg::*;
use crate::refi::*;
use crate::rng::*;
use crate::sys::*;
use lang_pt::lexeme::{
    Action, Constants, Mapper, Middleware, Pattern, Punctuations, StateMixin, ThunkMapper,
    ThunkStateMixin,
};
use lang_pt::production::{
    Cacheable, Concat, ConstantField, ConstantFieldSet, EOFProd, Hidden, List, Lookahead, Node,
    NonStructural, NullProd, Nullable, PunctuationsField, RegexField, SeparatedList, Structural,
    Suffixes, TokenField, TokenFieldSet, Union, Validator,
};
use lang_pt::{
    ASTNode, Cache, CacheKey, Code, CombinedTokenizer, DefaultParser, FltrPtr, ILexeme, IProduction,
    Lex, LexerlessParser, Log, Position, ProductionError, TokenPtr, TokenStream,
};

use std::rc::Rc;

/// Verdict on one root of an already built graph.
fn verdict_of(p: &dyn IProduction<Node = N, Token = i8>) -> Result<Result<(), String>, String> {
    guard(|| {
        p.validate(Default::default(), &mut Default::default())
            .map_err(|e| e.to_string())
    })
}

pub fn c10(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if c.cases == 1 {
        nonstr_recursion(c);
    }
    if r.pct(6) {
        return late_symbols(c, r);
    }
    let (g, label) = if r.pct(4) { (ladder(r), "ladder") } else { wild(r) };
    let style = r.pct(30) && label != "ladder";
    let opt = BuildOpt { log: 0, no_memo: false, style };
    let bad = defects(&g);
    let built = match guard(|| Builder::new(&g, opt).build()) {
        Ok(b) => b,
        Err(p) => return c.viol("building blocks panic", format!("{}\n{}", g.show(), p)),
    };
    c.count(&format!("grammars: {}", label), 1);
    c.count(
        match bad.first() {
            None => "usable",
            Some(Defect::LeftRecursive(_)) => "left recursive",
            Some(Defect::Unset(_)) => "symbols missing",
        },
        1,
    );
    c.max("most non-terminals", g.nts.len() as u64);
    c.eval(if g.nts.len() > 1 { Some(hash(g.show().as_bytes())) } else { None });
    let detail = |what: &str| format!("{}\noracle: {:?}\nobserved: {}", g.show(), bad, what);
    let wrong = |c: &mut Ctx, got: &Result<Result<(), String>, String>, bad: &[Defect], d: String| {
        match got {
            Err(p) => c.viol("validation panics", format!("{}\n{}", d, p)),
            Ok(Ok(())) if !bad.is_empty() => c.viol("unusable grammar accepted", d),
            Ok(Err(m)) if bad.is_empty() => c.viol("usable grammar rejected", format!("{}\n{}", d, m)),
            _ => return false,
        }
        true
    };
    // Sub-grammars first in some cases: what they leave behind must not matter.
    let mut order: Vec<usize> = (0..g.nts.len()).collect();
    r.shuffle(&mut order);
    order.truncate(4);
    let before = r.pct(40);
    let subs = |c: &mut Ctx, order: &[usize]| -> bool {
        for i in order {
            let mut sub = g.clone();
            sub.root = G::new(K::Ref(*i));
            let b = defects(&sub);
            let got = verdict_of(&*built.nts[*i]);
            c.eval(None);
            c.count("sub-grammars judged", 1);
            if wrong(c, &got, &b, format!("{}\nas root: {}\noracle: {:?}\nobserved {:?}", g.show(), g.names[*i], b, got)) {
                return false;
            }
        }
        true
    };
    if before && !subs(c, &order) {
        return;
    }
    let first = verdict_of(&*built.root);
    if wrong(c, &first, &bad, detail(&format!("{:?}", first))) {
        return;
    }
    if let Ok(Err(m)) = &first {
        if let Some(w) = wrong_reason(&g, &bad, m) {
            return c.viol("refusal names what is not there", detail(&format!("{}: {}", w, m)));
        }
        c.count("refusals with a reason checked", 1);
    }
    for _ in 0..2 {
        let again = verdict_of(&*built.root);
        if again.as_ref().map(|x| x.is_ok()) != first.as_ref().map(|x| x.is_ok()) {
            return c.viol("second validation differs", detail(&format!("{:?} then {:?}", first, again)));
        }
    }
    let made = guard(|| LexerlessParser::new(built.root.clone()).map(|_| ()).map_err(|e| e.to_string()));
    if wrong(c, &made, &bad, detail(&format!("LexerlessParser::new {:?}", made))) {
        return;
    }
    let lexers = lang(r.below(60));
    let made = guard(|| {
        DefaultParser::new(lexers.build(0, false).tok, built.root.clone())
            .map(|_| ())
            .map_err(|e| e.to_string())
    });
    if wrong(c, &made, &bad, detail(&format!("DefaultParser::new {:?}", made))) {
        return;
    }
    if !before && !subs(c, &order) {
        return;
    }
    if bad.is_empty() && label != "ladder" {
        // An accepted grammar must not recurse without consuming.
        let (mut less, mut raw) = (false, false);
        g.each(&mut |x| {
            less |= matches!(x.k, K::Const(..) | K::ConstSet(..) | K::Punct(..) | K::Regex(..));
            raw |= matches!(x.k, K::NonStr(..));
        });
        if raw {
            return;
        }
        let l = if less { None } else { Some(lexers) };
        let sys = match Sys::new(&g, l.as_ref(), opt) {
            Ok(s) => s,
            Err(e) => return c.viol("second construction differs", detail(&e)),
        };
        let f = Facts::new(&g);
        let p = if less { Profile::less() } else { Profile::token() };
        for mut t in inputs(r, &g, &f, &p, 3, false) {
            t.truncate(60);
            let o = sys.parse(&t, 50_000, false);
            c.count("parses with accepted grammars", 1);
            c.max("deepest nesting of attempts", sys.built.mon.attempts.borrow().len() as u64);
            if let Out::Panic(m) = o {
                if !m.contains(BUDGET) {
                    return c.viol("accepted grammar recurses without end", format!("{}\ninput {}\n{}", g.show(), text(&t), m));
                }
            }
        }
    }
    if !bad.is_empty() && g.nts.len() < 6 {
        c.sample(|| detail("rejected"));
    }
}

/// What is wrong with the text of a refusal: it has to name a production that is at fault, and a chain it shows
/// has to be a cycle of the grammar.
fn wrong_reason(g: &Grammar, bad: &[Defect], m: &str) -> Option<String> {
    let words: Vec<&str> = m.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect();
    let named = bad.iter().any(|d| match d {
        Defect::LeftRecursive(i) | Defect::Unset(i) => words.contains(&g.names[*i]),
    });
    if !named {
        return Some("no production at fault is named".into());
    }
    if m.contains("<-") {
        let e = edges(g);
        let ids: Vec<Option<usize>> = m
            .split("<-")
            .map(|p| {
                let p = p.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).last().unwrap_or("");
                g.names.iter().position(|n| *n == p)
            })
            .collect();
        if ids.iter().any(|i| i.is_none()) {
            return Some("the chain names an unknown production".into());
        }
        let ids: Vec<usize> = ids.into_iter().flatten().collect();
        if ids[0] != ids[ids.len() - 1] {
            return Some("the chain is not closed".into());
        }
        for w in ids.windows(2) {
            if !e[w[1]].iter().any(|x| x.0 == w[0] && x.1) {
                return Some(format!("{} does not start with {}", g.names[w[1]], g.names[w[0]]));
            }
        }
    }
    None
}

/// Layers of productions that share the next layer, where plain exploration of all paths would never end;
/// sometimes with one edge back to an earlier layer.
fn ladder(r: &mut Rng) -> Grammar {
    let (layers, width) = (r.range(2, 28), r.range(1, 3));
    let n = layers * width;
    let tok = || G::new(K::Tok(0, Some(1)));
    let mut nts = vec![];
    for l in 0..layers {
        for _ in 0..width {
            let next: Vec<G> = (0..width)
                .map(|k| {
                    if l + 1 == layers {
                        return tok();
                    }
                    let x = G::new(K::Ref((l + 1) * width + k));
                    G::new(match r.below(8) {
                        0 => K::Opt(Box::new(x), true),
                        1 => K::Node(Box::new(x), 3),
                        2 => K::List(Box::new(x)),
                        _ => return x,
                    })
                })
                .collect();
            nts.push(if r.pct(60) { NT::Union(next) } else { NT::Concat(next) });
        }
    }
    if r.pct(60) {
        let (from, to) = (r.below(n), r.below(n));
        let lead = r.pct(50);
        if let NT::Union(v) | NT::Concat(v) = &mut nts[from] {
            if lead {
                v.insert(0, G::new(K::Ref(to)));
            } else {
                v.push(G::new(K::Ref(to)));
            }
        }
    }
    let mut unset = vec![false; n];
    if r.pct(20) {
        unset[r.below(n)] = true;
    }
    let names = (0..n).map(|i| -> &'static str { LADDER.get_or_init(|| (0..100).map(|k| -> &'static str { Box::leak(format!("step{}", k).into_boxed_str()) }).collect())[i] }).collect();
    let mut g = Grammar { nts, root: G::new(K::Ref(0)), unset, names, rules: Default::default(), ids: 0 };
    g.number();
    g
}
static LADDER: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();

/// A production that was refused for missing symbols is judged again once it has them.
fn late_symbols(c: &mut Ctx, r: &mut Rng) {
    let a = Rc::new(TokenField::<N, i8>::new(0, None));
    let kind = r.below(3);
    let depth = r.below(4);
    let u = Rc::new(Union::<N, i8>::init("late"));
    let k = Rc::new(Concat::<N, i8>::init("late"));
    let s = Rc::new(Suffixes::init("late", &a, true));
    let mut top: Prod = match kind {
        0 => u.clone(),
        1 => k.clone(),
        _ => s.clone(),
    };
    let mut seq = false;
    for i in 0..depth {
        let first = r.pct(40);
        seq |= first;
        top = match first {
            true => Rc::new(Concat::new(NAMES[i], vec![a.clone() as Prod, top])),
            false => Rc::new(Union::new(NAMES[i], vec![top, a.clone() as Prod])),
        };
    }
    let v = |c: &mut Ctx| {
        c.eval(None);
        verdict_of(&*top).map(|x| x.is_ok())
    };
    let first = v(c);
    let second = v(c);
    let rec = r.pct(40);
    let symbols: Vec<Prod> = if rec { vec![top.clone()] } else { vec![a.clone()] };
    let _ = match kind {
        0 => u.set_symbols(symbols).is_ok(),
        1 => k.set_symbols(symbols).is_ok(),
        _ => s.set_suffixes(symbols.into_iter().map(|p| (p, 1)).collect()).is_ok(),
    };
    // A chain through a sequence or a suffix consumes first.
    let third = v(c);
    let consumed = kind == 2 || !rec || seq;
    c.count("grammars completed after a refusal", 1);
    if first != Ok(false) || second != Ok(false) || third != Ok(consumed) {
        c.viol(
            "validation before and after symbols are set",
            format!("kind {} depth {} recursive {}: {:?} {:?} then {:?}, expected refusal twice, then {}", kind, depth, rec, first, second, third, consumed),
        );
    }
}

/// Recursion that leaves the structural stream and returns to the same structural token.
fn nonstr_recursion(c: &mut Ctx) {
    let mut g = Grammar {
        nts: vec![
            NT::Concat(vec![
                G::new(K::NonStr(Box::new(G::new(K::Ref(1))), false)),
                G::new(K::Tok(0, Some(1))),
            ]),
            NT::Concat(vec![
                G::new(K::Tok(-1, None)),
                G::new(K::Struc(Box::new(G::new(K::Ref(0))))),
            ]),
        ],
        root: G::new(K::Ref(0)),
        unset: vec![false; 2],
        names: NAMES.to_vec(),
        rules: Default::default(),
        ids: 0,
    };
    g.number();
    let sys = match Sys::new(&g, Some(&lang(0)), BuildOpt::default()) {
        Ok(s) => s,
        Err(_) => return,
    };
    let o = sys.parse(b" a", 30_000, false);
    if let Out::Panic(m) = &o {
        if m.contains(BUDGET) || m.contains(DEPTH) {
            c.known.insert(
                "nonstr-struc-recursion".into(),
                "a production that enters a non-structural production and from there, after raw non-structural tokens only, a structural production around itself is accepted and recurses without end (alpha = NonStr(bravo) a; bravo = ws Struc(alpha); input \" a\")".into(),
            );
        }
    }
}

/// A text with many kinds of line ends.
fn lines(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 3, 10, 40, 200]);
    let mut v = vec![];
    if r.pct(15) {
        v.extend(r.pick(&SPECIAL).bytes());
    }
    for _ in 0..r.below(n + 1) {
        match r.below(10) {
            9 => v.extend(r.pick(&SPECIAL).bytes()),
            0 | 1 => v.push(b'\n'),
            2 => v.extend(b"\r\n"),
            3 => v.extend("é".bytes()),
            4 => v.extend("😀x".bytes()),
            5 => v.push(r.below(256) as u8),
            6 => {
                let k = r.below(30);
                v.extend((0..k).map(|_| b'a'))
            }
            7 => v.push(b'\r'),
            _ => v.push(*r.pick(b"ab \t;")),
        }
    }
    v
}

pub fn c14(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    for _ in 0..6 {
        let mut t = lines(r);
        // A text of some size, asked in few places.
        let mut big = r.pct(6);
        if r.below(400) == 0 {
            big = true;
            let k = *r.pick(&[33_000, 66_000, 140_000]);
            t.extend(std::iter::repeat(b'\n').take(k));
            let l = lines(r);
            t.extend(l);
        } else if big {
            let k = *r.pick(&[700usize, 5_000, 20_000, 70_000]);
            while t.len() < k {
                let l = lines(r);
                t.extend(l);
                t.extend((0..r.below(400)).map(|_| b'x'));
            }
        }
        let around = amid(&t);
        let code = if r.pct(50) || std::str::from_utf8(&t).is_err() {
            Code::new(&around)
        } else if r.pct(50) {
            Code::from(&around[..])
        } else {
            Code::from(std::str::from_utf8(&around).unwrap())
        };
        let brk: Vec<usize> = (0..t.len()).filter(|i| t[*i] == b'\n').collect();
        let early = r.pct(50);
        if early && code.obtain_line_breaks() != &brk {
            c.viol("line breaks", format!("{}\n{:?}", text(&t), code.obtain_line_breaks()));
        }
        let mut offs: Vec<usize> = (0..=t.len()).collect();
        r.shuffle(&mut offs);
        if big {
            offs.truncate(40);
            match r.below(3) {
                0 => offs.sort(),
                1 => offs.sort_by(|a, b| b.cmp(a)),
                _ => {
                    offs.sort();
                    let k = r.below(40);
                    offs.rotate_left(k);
                }
            }
            c.count("long texts", 1);
        }
        offs.push(offs[r.below(offs.len())]);
        offs.push(0);
        offs.push(t.len());
        for p in offs {
            let want = line_col(&t, p);
            c.eval(if t.len() > 1 { Some(hash(&t) ^ mix(p as u64)) } else { None });
            c.count("offsets queried", 1);
            c.max("most lines", want.0 as u64);
            let got = guard(|| {
                let q = code.obtain_position(p);
                let f = Position::from(&t[..p]);
                ((q.line, q.column), (f.line, f.column), format!("{}", q))
            });
            match got {
                Ok((a, b, s)) if a == want && b == want => {
                    if printed_position(&s) != Some(want) {
                        c.viol("printed position", format!("{}\noffset {} prints {}", text(&t), p, s));
                    }
                }
                g => {
                    c.viol(
                        "line and column",
                        format!("{}\noffset {} expected {:?}; (obtain_position, from prefix, printed) = {:?}", text(&t), p, want, g),
                    );
                    break;
                }
            }
        }
        if code.obtain_line_breaks() != &brk {
            c.viol("line breaks", format!("{}\n{:?}", text(&t), code.obtain_line_breaks()));
        }
        if t.len() > 8 {
            c.sample(|| format!("{} => end at {:?}", text(&t), line_col(&t, t.len())));
        }
    }
    // A validator may point anywhere.
    for _ in 0..4 {
        let mut t = b"a".to_vec();
        t.extend(lines(r));
        let at = r.below(t.len() + 1);
        let less = r.pct(50);
        let judge = move |_: &Vec<ASTNode<u16>>, _: &[u8]| Err(ProductionError::Validation(at, "no".into()));
        let got = guard(|| {
            if less {
                let p = ConstantField::<u16, i8>::new("a", Some(1));
                LexerlessParser::new(Rc::new(Validator::new(&Rc::new(p), judge))).map(|p| p.parse(&t))
            } else {
                let l: Rc<dyn ILexeme<Token = i8, State = u8>> = Rc::new(lang_pt::lexeme::Pattern::new(1i8, r"^(?s-u:.)").unwrap());
                let p = TokenField::<u16, i8>::new(1, Some(1));
                let t0 = Rc::new(lang_pt::Tokenizer::new(vec![l]));
                DefaultParser::new(t0, Rc::new(Validator::new(&Rc::new(p), judge))).map(|p| p.parse(&t))
            }
        });
        c.eval(Some(hash(&t) ^ mix(at as u64)));
        c.count("validation errors at arbitrary offsets", 1);
        match got {
            Ok(Ok(Err(e))) if e.pointer == at && printed_position(&e.message) == Some(line_col(&t, at)) => {}
            g => c.viol(
                "position of a validation error",
                format!("{}\nlexerless {} offset {}: {:?}", text(&t), less, at, g.map(|x| x.map(|y| y.map_err(|e| (e.pointer, e.message)).err()).ok())),
            ),
        }
    }
    // Positions inside error texts: tokenizer, parser, validators.
    let mut p = either(r, 60);
    p.trivia = false;
    if r.pct(50) {
        p.errors = true;
        p.valid = 20;
    }
    if let Some((cs, sys, f)) = case(r, &p, 0, c) {
        for mut t in inputs(r, &cs.g, &f, &p, 8, true) {
            if r.pct(40) {
                let k = r.below(t.len() + 1);
                let l = lines(r);
                t.splice(k..k, l);
            }
            if let Out::Err(q, m) = sys.parse(&t, 200_000, false) {
                c.eval(Some(cs.key(&t)));
                c.count("error messages checked", 1);
                if q > t.len() || printed_position(&m) != Some(line_col(&t, q)) {
                    c.viol("position in the message", format!("{}\npointer {} message {:?}", cs.show(&t), q, m));
                }
            }
        }
    }
}

fn utf8(c: &mut Ctx, what: &str, s: &str, d: &dyn Fn() -> String) {
    c.count("strings checked", 1);
    c.count("bytes checked", s.len() as u64);
    if std::str::from_utf8(s.as_bytes()).is_err() {
        c.viol("ill-formed text handed out", format!("{}\n{}: {:?}", d(), what, s.as_bytes()));
    }
}

/// Bytes around character boundaries.
fn hostile(r: &mut Rng, b: &mut Vec<u8>) {
    const BITS: [&[u8]; 16] = [
        "é".as_bytes(),
        "😀".as_bytes(),
        "\u{7ff}".as_bytes(),
        "\u{ffff}".as_bytes(),
        "\u{10ffff}".as_bytes(),
        "\u{301}".as_bytes(),
        b"\xff",
        b"\xc3",
        b"\xe2\x82",
        b"\xf0\x9f\x98",
        b"\x80",
        b"\xed\xa0\x80",
        b"\xc0\xaf",
        b"\0",
        "ü\n".as_bytes(),
        b"\xf4\x90\x80\x80",
    ];
    for _ in 0..r.range(1, 3) {
        let i = if r.pct(40) { b.len() } else { r.below(b.len() + 1) };
        b.splice(i..i, r.pick(&BITS).iter().copied());
    }
}

/// Everything random lexemes show of themselves.
fn utf8_lexers(c: &mut Ctx, r: &mut Rng) {
    let states = *r.pick(&[1, 4]);
    let x = crate::lexgen::lexers(r, &crate::lexgen::LexProfile { states, actions: if states > 1 { 25 } else { 0 }, catch_all: 60 });
    let b = x.build(0, r.pct(30));
    match guard(|| b.tok.build_grammar()) {
        Ok(Ok(s)) => utf8(c, "tokenizer text", &s, &|| x.show()),
        o => c.viol("tokenizer text", format!("{}\n{:?}", x.show(), o)),
    }
    for _ in 0..4 {
        let mut t = crate::lexgen::lex_text(r, &x);
        if r.pct(60) {
            hostile(r, &mut t);
        }
        c.eval(if t.iter().any(|b| *b >= 0x80) { Some(hash(&t) ^ hash(x.show().as_bytes())) } else { None });
        let d = || format!("{}\n{}", x.show(), text(&t));
        match crate::c_lex::run_tok(&b, &t) {
            Ok(Ok(v)) => {
                for k in v.iter().take(30) {
                    utf8(c, "token", &format!("{} {:?}", k, k), &d);
                }
            }
            Ok(Err((_, m))) => utf8(c, "message", &m, &d),
            Err(m) => c.viol("panic", format!("{}\n{}", d(), m)),
        }
    }
}

pub fn c17(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    if !cfg!(miri) && r.pct(30) {
        utf8_lexers(c, r);
    }
    // Stdout of this check is captured and judged by the driver.
    let log = if r.pct(12) { 1 + r.below(5) as u8 } else { 0 };
    let mut p = either(r, 50);
    p.trivia = p.mode == Mode::Token && r.pct(20);
    if p.trivia {
        p.memo = 0;
    }
    p.names = r.pct(50);
    let (cs, sys, f) = match if cfg!(miri) { small(r, c) } else { case(r, &p, log, c) } {
        Some(x) => x,
        None => return,
    };
    match sys.grammar() {
        Ok(Ok(s)) => utf8(c, "grammar text", &s, &|| cs.g.show()),
        Ok(Err(_)) => {}
        Err(m) => c.viol("grammar text panics", format!("{}\n{}", cs.g.show(), m)),
    }
    for q in sys.built.by_id.values() {
        match guard(|| format!("{}", q)) {
            Ok(s) => utf8(c, "production", &s, &|| cs.g.show()),
            Err(m) => c.viol("display panics", format!("{}\n{}", cs.g.show(), m)),
        }
    }
    let mut ins = if cfg!(miri) {
        vec![b"a".to_vec(), "é".into(), "aé".into(), b"bb\xc3".to_vec(), "a😀".into(), b"\xff".to_vec(), vec![]]
    } else {
        inputs(r, &cs.g, &f, &p, 8, true)
    };
    if !cfg!(miri) {
        for t in ins.iter_mut() {
            if r.pct(75) {
                hostile(r, t);
            }
        }
        ins.push((0..r.below(20)).map(|_| r.below(256) as u8).collect());
    }
    for t in ins {
        if log > 0 && t.len() > 200 {
            continue;
        }
        let o = sys.parse(&t, 60_000, false);
        c.eval(if t.iter().any(|b| *b >= 0x80) { Some(cs.key(&t)) } else { None });
        if std::str::from_utf8(&t).is_err() {
            c.count("inputs that are not UTF-8", 1);
        }
        let d = || cs.show(&t);
        match o {
            Out::Panic(m) if m.contains(BUDGET) || m.contains(DEPTH) => {}
            Out::Panic(m) => c.viol("panic", format!("{}\n{}", d(), m)),
            Out::Ok(tr) => {
                c.count("accepted", 1);
                for n in &tr {
                    match guard(|| (format!("{:?}", n), format!("{}", n))) {
                        Ok((a, b)) => {
                            utf8(c, "tree", &a, &d);
                            utf8(c, "tree", &b, &d);
                        }
                        Err(m) => c.viol("tree display panics", format!("{}\n{}", d(), m)),
                    }
                }
            }
            Out::Err(q, m) => {
                c.count("rejected", 1);
                utf8(c, "message", &m, &d);
                match guard(|| format!("{} {:?}", lang_pt::ParseError::new(q, m.clone()), lang_pt::ParseError::new(q, m.clone()))) {
                    Ok(s) => utf8(c, "error", &s, &d),
                    Err(m) => c.viol("error display panics", format!("{}\n{}", d(), m)),
                }
                if q < t.len() && t[q] >= 0x80 {
                    c.count("failures at a byte outside ASCII", 1);
                }
                // The offending character or token, when well-formed, is named whole.
                if q > t.len() {
                    c.viol("pointer beyond the input", format!("{}\n{} {}", d(), q, m));
                } else if m.contains("Unexpected") && !m.contains("Unexpected end of file") {
                    let s: Option<&[u8]> = match cs.mode {
                        Mode::Less => (1..=4.min(t.len() - q))
                            .find(|n| std::str::from_utf8(&t[q..q + n]).is_ok())
                            .map(|n| &t[q..q + n]),
                        Mode::Token => sys.tokens(&t).ok().and_then(|v| {
                            v.iter().find(|k| k.token >= 0 && k.start == q).map(|k| (k.start, k.end))
                        }).map(|(a, b)| &t[a..b]),
                    };
                    if let Some(s) = s.and_then(|s| std::str::from_utf8(s).ok()) {
                        let esc = format!("{:?}", s);
                        let first = m.split("Failed to parse").next().unwrap_or("");
                        c.count("quotations checked", 1);
                        if !first.contains(s) && !first.contains(&esc[1..esc.len() - 1]) {
                            c.viol("offending text not named whole", format!("{}\n{:?} not in {:?}", d(), s, m));
                        }
                        if s.len() > 1 && !s.is_ascii() {
                            c.sample(|| format!("{} => {:?}", d(), m));
                        }
                    }
                }
            }
        }
        if cs.lexers.is_some() {
            if let Ok(v) = sys.tokens(&t) {
                for k in v.iter().take(50) {
                    utf8(c, "token", &format!("{} {:?}", k, k), &d);
                }
                if let (Ok(s), true) = (std::str::from_utf8(&t), v.len() < 50) {
                    // Tokens may split characters only if a lexeme asks for bytes; these lexemes do not.
                    let pairs = guard(|| {
                        TokenStream::from(&v).token_pair(s).iter().map(|x| x.1.to_string()).collect::<Vec<_>>()
                    });
                    match pairs {
                        Ok(x) if x.concat() == s => c.count("token texts checked", x.len() as u64),
                        o => c.viol("token texts", format!("{}\n{:?}", d(), o)),
                    }
                }
            }
        }
    }
}

/// Cases without regular expressions, for the interpreter.
fn small(r: &mut Rng, c: &mut Ctx) -> Option<(Case, Sys, Facts)> {
    let set = || vec![("a".to_string(), Some(1)), ("é".to_string(), Some(2)), ("bb".to_string(), None), ("b".to_string(), Some(4))];
    let less = r.pct(60);
    let atom = |r: &mut Rng| -> G {
        G::new(match (less, r.below(5)) {
            (true, 0) => K::Const("é".into(), Some(3)),
            (true, 1) => K::ConstSet(set()),
            (true, 2) => K::Const("a".into(), None),
            (true, _) => K::Punct(set()),
            (false, 0) => K::TokSet(vec![(0, Some(1)), (3, None)]),
            (false, 1) => K::Tok(3, Some(2)),
            (false, _) => K::Tok(*r.pick(&[0, 1, 3]), Some(4)),
        })
    };
    let b = |x: G| Box::new(x);
    let wrap = |r: &mut Rng, x: G| -> G {
        G::new(match r.below(9) {
            0 => K::List(b(x)),
            1 => K::Opt(b(x), false),
            2 => K::Node(b(x), 9),
            3 => K::Sep(b(x), b(atom(r)), true),
            4 => K::Valid(b(x), VKind::ErrByte(0xc3)),
            5 => K::Memo(1, b(x)),
            6 => K::Hidden(b(x)),
            _ => return x,
        })
    };
    let (x, y, z) = (atom(r), atom(r), atom(r));
    let (x, y) = (wrap(r, x), wrap(r, y));
    let nt = match r.below(3) {
        0 => NT::Concat(vec![x, y, G::new(K::Eof(None))]),
        1 => NT::Union(vec![x, y]),
        _ => NT::Suf(z, true, vec![(x, 7), (y, 8)]),
    };
    let mut names: Vec<&'static str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let mut g = Grammar {
        nts: vec![nt],
        root: G::new(K::Node(b(G::new(K::Ref(0))), 5)),
        unset: vec![false],
        names,
        rules: Default::default(),
        ids: 0,
    };
    g.number();
    let lexers = if less {
        None
    } else {
        let fx = |v: &[usize]| -> Vec<(String, i8)> { v.iter().map(|i| (FIXED[*i].1.to_string(), FIXED[*i].0)).collect() };
        Some(Lexers {
            states: vec![(0, if r.pct(50) { vec![L::Punct(fx(&[0, 1, 2, 3]))] } else { vec![L::Consts(fx(&[1, 0, 3]))] })],
            combined: r.pct(30),
        })
    };
    let log = if r.pct(50) { 5 } else { 0 };
    let sys = Sys::new(&g, lexers.as_ref(), BuildOpt { log, no_memo: false, style: false }).ok()?;
    let f = Facts::new(&g);
    c.count("grammars", 1);
    Some((Case { g, lexers, mode: if less { Mode::Less } else { Mode::Token } }, sys, f))
}

pub fn c22(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    // A token list, synthetic or tokenized.
    let mut code: Vec<u8> = vec![];
    let toks: Vec<Lex<i8>> = if r.pct(40) {
        let l = lang(r.below(60));
        let g = pool_text(r);
        code = g;
        match l.build(0, false).tok.tokenize(&Code::new(&code)) {
            Ok(v) => v,
            Err(_) => return,
        }
    } else {
        let n = match r.below(600) {
            0 => r.range(200, 700),
            1 => *r.pick(&[1100, 4200, 33_000, 70_000]),
            _ => r.size(12, 80),
        };
        let mut v = vec![];
        let mut at = 0;
        let dens = *r.pick(&[0usize, 20, 50, 80, 100]);
        // Text between the tokens.
        let gap = *r.pick(&[0, 0, 10, 60]);
        for _ in 0..n {
            let k = r.range(1, 4);
            let t = if r.pct(dens) { r.below(6) as i8 } else { -1 - r.below(3) as i8 };
            if r.pct(gap) {
                code.extend(b"~~");
                at += 2;
            }
            v.push(Lex::new(t, at, at + k));
            code.extend((0..k).map(|i| b'a' + i as u8));
            at += k;
        }
        v.push(Lex::new(i8::MAX, at, at));
        v
    };
    let len = code.len();
    let show = || format!("tokens: {}", show_lex(&toks));
    let usual: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].token >= 0).collect();
    // The structural positions may be chosen by the caller.
    let chosen = r.pct(25);
    let want: Vec<usize> = if chosen {
        let k = *r.pick(&[5, 30, 50, 90, 100]);
        (0..toks.len()).filter(|i| i + 1 == toks.len() || r.pct(k)).collect()
    } else {
        usual.clone()
    };
    let s = if chosen {
        c.count("streams with chosen positions", 1);
        TokenStream::new(&toks, want.iter().map(|i| TokenPtr::from(*i)).collect())
    } else {
        TokenStream::from(&toks)
    };
    c.eval(if want.len() > 1 && want.len() < toks.len() { Some(hash(show().as_bytes())) } else { None });
    c.count("token lists", 1);
    c.count("tokens", toks.len() as u64);
    c.max("longest list", toks.len() as u64);
    let same = |a: &Lex<i8>, b: &Lex<i8>| a.token == b.token && a.start == b.start && a.end == b.end;
    let fp = |i: usize| if i == 0 { FltrPtr::default() } else { FltrPtr::default() + i };
    let num = |x: FltrPtr| format!("{}", x).parse::<usize>().unwrap();
    let tnum = |x: TokenPtr| format!("{}", x).parse::<usize>().unwrap();
    let res = |x: Result<FltrPtr, FltrPtr>| match x {
        Ok(i) => (true, num(i)),
        Err(i) => (false, num(i)),
    };
    let mut checks = 0u64;
    let out = guard(|| -> Result<(), String> {
        macro_rules! ck {
            ($e:expr, $($m:tt)*) => {{ checks += 1; if !$e { return Err(format!($($m)*)); } }};
        }
        ck!(s.length() == want.len(), "length {}", s.length());
        ck!(s.get_segments().len() == toks.len(), "segments");
        ck!(s.eos_pointer() == len, "eos pointer {}", s.eos_pointer());
        let it: Vec<&Lex<i8>> = s.iter_lex().collect();
        ck!(it.len() == want.len() && it.iter().zip(&want).all(|(a, i)| same(a, &toks[*i])), "iter_lex");
        // Long lists are asked in some places only.
        let some = |r: &mut Rng, n: usize| -> Vec<usize> {
            if n < 800 {
                (0..n).collect()
            } else {
                (0..24).map(|_| r.below(n)).chain([0, 1, n - 2, n - 1]).collect()
            }
        };
        for i in some(r, want.len() + 3) {
            ck!(s.has_stream(fp(i)) == (i < want.len()), "has_stream({})", i);
            ck!(s.get(fp(i)).map(|t| (t.token, t.start, t.end)) == want.get(i).map(|k| (toks[*k].token, toks[*k].start, toks[*k].end)), "get({})", i);
        }
        for i in some(r, want.len()) {
            let p = fp(i);
            let k = want[i];
            ck!(same(&s[p], &toks[k]), "index {}", i);
            ck!(s.pointer(p) == toks[k].start, "pointer {}", i);
            ck!(tnum(s.get_token_ptr(p)) == k, "get_token_ptr {}", i);
            ck!(s.is_eos(p) == (toks[k].token == i8::MAX), "is_eos {}", i);
            ck!(s.last_segment_index(&p).map(tnum) == if i == 0 { None } else { Some(want[i - 1]) }, "last_segment_index {}", i);
            let v: Vec<&Lex<i8>> = s.iter_lex_at(p).collect();
            ck!(v.len() == want.len() - i && v.iter().zip(&want[i..]).all(|(a, k)| same(a, &toks[*k])), "iter_lex_at {}", i);
            // Inverse of each other.
            ck!(res(s.find_filter_ptr(s.get_token_ptr(p))) == (true, i), "find_filter_ptr of {}", i);
            let j = i + r.below(want.len() - i);
            let v: Vec<&Lex<i8>> = s.iter_lex_range(p, fp(j)).collect();
            ck!(v.len() == j - i && v.iter().zip(&want[i..]).all(|(a, k)| same(a, &toks[*k])), "iter_lex_range {} {}", i, j);
            if i < want.len() {
                let kids: Vec<_> = (0..r.below(4))
                    .map(|q| {
                        let a = r.below(toks.len());
                        let b = r.range(a, toks.len());
                        let bound = if r.pct(25) { None } else { Some((TokenPtr::from(a), TokenPtr::from(b))) };
                        ASTNode::leaf(q as u16, toks[a].start, toks[a].end, bound)
                    })
                    .collect();
                let given = kids.clone();
                let sd = s.create_node(p, 9u16, lang_pt::SuccessData::new(fp(j), kids));
                let n = &sd.children[0];
                ck!(
                    num(sd.consumed_index) == j && sd.children.len() == 1 && n.node == 9 && n.start == toks[k].start
                        && n.end == toks[want[j]].start
                        && n.children.len() == given.len()
                        && n.children.iter().zip(&given).all(|(a, b)| (a.node, a.start, a.end, a.bound) == (b.node, b.start, b.end, b.bound))
                        && n.bound.map(|b| (tnum(b.0), tnum(b.1))) == Some((k, want[j])),
                    "create_node {} {}", i, j
                );
            }
        }
        for i in some(r, toks.len()) {
            let p = TokenPtr::from(i);
            let lower = want.iter().filter(|k| **k < i).count();
            let e = (want.contains(&i), lower);
            ck!(res(s.find_filter_ptr(p)) == e, "find_filter_ptr {} is {:?} in place of {:?}", i, s.find_filter_ptr(p), e);
            ck!(res(s.find_filtered_index(&p)) == e, "find_filtered_index {} is {:?} in place of {:?}", i, s.find_filtered_index(&p), e);
            ck!(same(&s[p], &toks[i]), "raw index {}", i);
            ck!(s.is_eos_segment(p) == (toks[i].token == i8::MAX), "is_eos_segment {}", i);
            let v: Vec<&Lex<i8>> = s.iter_at(i).collect();
            ck!(v.len() == toks.len() - i && v.iter().zip(&toks[i..]).all(|(a, b)| same(a, b)), "iter_at {}", i);
            let j = i + r.below(toks.len() - i + 1);
            let v: Vec<&Lex<i8>> = s.iter_range(i, j).collect();
            ck!(v.len() == j - i && v.iter().zip(&toks[i..j]).all(|(a, b)| same(a, b)), "iter_range {} {}", i, j);
        }
        for p in some(r, len + 1) {
            let f = want.iter().filter(|k| toks[**k].start < p).count();
            let e = (f < want.len() && toks[want[f]].start == p, f);
            let g = res(s.filtered_index_at(p));
            ck!(g == e, "filtered_index_at({}) is {:?} in place of {:?}", p, g, e);
            let t = &toks[want[f]];
            let g = match s.filtered_data_at(p) {
                Ok(x) => (true, x),
                Err(x) => (false, x),
            };
            ck!(g.0 == (t.start == p) && same(g.1, t), "filtered_data_at({})", p);
            let t = toks.iter().find(|t| t.start >= p).unwrap();
            let g = match s.lex_data_at(p) {
                Ok(x) => (true, x),
                Err(x) => (false, x),
            };
            ck!(g.0 == (t.start == p) && same(g.1, t), "lex_data_at({})", p);
        }
        if let Ok(x) = std::str::from_utf8(&code) {
            let v = s.token_pair(x);
            ck!(v.len() == toks.len() && v.iter().zip(&toks).all(|(a, b)| *a.0 == b.token && a.1 == &x[b.start..b.end]), "token_pair");
        }
        // Pointer arithmetic.
        for _ in 0..4 {
            let (a, b) = (r.below(1000), r.range(1, 1000));
            let x = TokenPtr::from(a);
            ck!(tnum(x + b) == a + b && tnum((x + b) - b) == a && (x + b) > x && x.is_origin() == (a == 0), "token pointer arithmetic");
            ck!(num((fp(a) + b) - b) == a && fp(a) + b > fp(a), "filtered pointer arithmetic");
            ck!(TokenPtr::origin().is_origin() && tnum(TokenPtr::default()) == 0, "origin");
        }
        // A list may lack the end of file token.
        if toks.len() > 1 {
            let cut = r.range(1, toks.len() - 1);
            let part = toks[..cut].to_vec();
            let s = TokenStream::from(&part);
            ck!(s.eos_pointer() == part[cut - 1].end, "eos pointer {} of the first {}", s.eos_pointer(), cut);
            ck!(s.length() == usual.iter().filter(|k| **k < cut).count(), "length of the first {}", cut);
        }
        // A stream given its filtered positions explicitly.
        let own = TokenStream::new(&toks, want.iter().map(|i| TokenPtr::from(*i)).collect());
        ck!(own.length() == s.length(), "new");
        // The other ready-made token types.
        ck!(filtered(&toks, |t| t as i16, i16::MAX) == usual, "filtered positions of i16 tokens");
        ck!(filtered(&toks, |t| t as isize, isize::MAX) == usual, "filtered positions of isize tokens");
        Ok(())
    });
    c.count("lookups compared", checks);
    match out {
        Ok(Ok(())) => {
            if toks.len() > 6 {
                c.sample(show)
            }
        }
        Ok(Err(e)) => c.viol("lookup disagrees with the token list", format!("{}\n{}", show(), e)),
        Err(p) => c.viol("lookup panics", format!("{}\n{}", show(), p)),
    }
}
/// Raw positions of the filtered tokens after giving the tokens another type.
fn filtered<T: lang_pt::TokenImpl>(toks: &[Lex<i8>], to: impl Fn(i8) -> T, eof: T) -> Vec<usize> {
    let v: Vec<Lex<T>> = toks.iter().map(|t| Lex::new(if t.token == i8::MAX { eof } else { to(t.token) }, t.start, t.end)).collect();
    if T::eof() != eof {
        return vec![usize::MAX];
    }
    let s = TokenStream::from(&v);
    (0..s.length())
        .map(|i| if i == 0 { FltrPtr::default() } else { FltrPtr::default() + i })
        .map(|i| format!("{}", s.get_token_ptr(i)).parse().unwrap())
        .collect()
}
fn pool_text(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..r.size(12, 60) {
        let k = *r.pick(&[0i8, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, -2, -3, -1, -2]);
        s += &tok_text(r, k);
    }
    s.into_bytes()
}

type Pun = Punctuations<i8, u8>;

pub fn c24(c: &mut Ctx) {
    let r = &mut Rng::new(c.seed);
    // Lists of strings with and without defects.
    for _ in 0..6 {
        let mut v = crate::lexgen::fixed_set(r);
        v.truncate(r.range(0, 12));
        let mut defect = "none";
        match r.below(4) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                let s = v[i].0.clone();
                let k = r.below(v.len() + 1);
                let t = if r.pct(50) { v[i].1 } else { 99 };
                v.insert(k, (s, t));
                defect = "repeated";
            }
            1 => {
                let k = r.below(v.len() + 1);
                v.insert(k, (String::new(), 98));
                defect = "empty";
            }
            _ => {}
        }
        let shown = format!("{:?}", v);
        let refs: Vec<(&str, i8)> = v.iter().map(|x| (x.0.as_str(), x.1)).collect();
        let opts: Vec<(&str, Option<N>)> = v.iter().map(|x| (x.0.as_str(), Some(x.1 as N))).collect();
        let inner = || Pattern::<i8, u8>::new(50, r"^[a-zéè<>={}()]+").unwrap();
        let judge = |c: &mut Ctx, what: &str, ok: Result<bool, String>, want: bool| {
            c.eval(if v.len() > 1 { Some(hash(shown.as_bytes()) ^ hash(what.as_bytes())) } else { None });
            c.count(&format!("{}: {}", what, if want { "valid" } else { "invalid" }), 1);
            if ok != Ok(want) {
                c.viol("definition judged wrongly", format!("{} {} expected {} got {:?}", what, shown, if want { "accepted" } else { "refused" }, ok));
            }
        };
        judge(c, "punctuation lexeme", guard(|| Pun::new(refs.clone()).is_ok()), defect == "none");
        judge(c, "keyword mapper", guard(|| Mapper::new(inner(), refs.clone()).is_ok()), defect != "repeated");
        judge(
            c,
            "lexerless punctuation",
            guard(|| PunctuationsField::<N, i8>::new(opts.clone()).is_ok()),
            defect != "repeated" && !v.is_empty(),
        );
        if defect != "repeated" {
            judge(c, "constants lexeme", guard(|| { Constants::<i8, u8>::new(refs.clone()); true }), true);
            judge(c, "lexerless constant set", guard(|| { ConstantFieldSet::<N, i8>::new(opts.clone()); true }), true);
        }
        judge(
            c,
            "lexerless constant",
            guard(|| match opts.first() {
                Some((s, n)) => { ConstantField::<N, i8>::new(s, *n); true }
                None => true,
            })
            .or_else(|_| Ok(false)),
            opts.first().map_or(true, |x| !x.0.is_empty()),
        );
        // Extending a mapper: the first definition stays.
        if defect != "repeated" && !v.is_empty() {
            let k = r.below(v.len());
            let mut m = Mapper::new(inner(), refs.clone()).unwrap();
            let extra = "<<<zzz";
            let dup = r.pct(60);
            let add = if dup { vec![(refs[k].0, 97i8)] } else { vec![(extra, 97i8)] };
            let known = refs.iter().any(|x| x.0 == add[0].0);
            judge(c, "extending a mapper", guard(|| m.extend_fields(add.clone()).is_ok()), !known);
            let probe = |m: &Mapper<Pattern<i8, u8>>, s: &str| {
                m.consume(&Code::new(s.as_bytes()), 0, &vec![], &mut vec![]).filter(|t| t.end == s.len()).map(|t| t.token)
            };
            for (s, t) in refs.iter().filter(|x| !x.0.is_empty()) {
                if let Some(got) = probe(&m, s) {
                    c.count("definitions still in force", 1);
                    if got != *t {
                        c.viol("a refused redefinition changes the first", format!("mapper {} extended by {:?}: {:?} maps to {}", shown, add, s, got));
                    }
                }
            }
            if !known && probe(&m, extra) != Some(97) {
                c.viol("an accepted keyword is not in force", format!("mapper {} extended by {:?}", shown, add));
            }
        }
        if v.len() > 3 && defect != "none" {
            c.sample(|| format!("{}: {}", defect, shown));
        }
    }
    // Patterns.
    const GOOD: [&str; 10] = ["^a", "^[0-9]+", "^a+b?", "^(if|ab)", "^.", r"^\s+", "^(a|b)c*", "^(?-u:\\xff)", "^a{2,3}", "^(?i:AB)"];
    const EMPTY: [&str; 12] = ["", "^", "^a*", "^(a|)", "^(a?b?)", "^$", r"^\s*", "^(?:)", "(a*)|b", "^a{0,2}", "^(x|y)*$", "^\\B"];
    const BROKEN: [&str; 9] = ["^(", "^[a", "^a**[", "(?<", "^a{3,1}", "^\\p{Nope}", "^(?P<n>a)(?P<n>b)", "*a", "^[z-a]"];
    for _ in 0..3 {
        let (s, k) = match r.below(3) {
            0 => (*r.pick(&GOOD), 0),
            1 => (*r.pick(&EMPTY), 1),
            _ => (*r.pick(&BROKEN), 2),
        };
        // "^\B" matches the empty text only where the engine says so.
        let null = k == 1 && regex::bytes::Regex::new(s).unwrap().is_match(b"");
        c.eval(Some(hash(s.as_bytes())));
        c.count("patterns", 1);
        let lexeme = guard(|| Pattern::<i8, u8>::new(1, s).is_ok());
        if lexeme != Ok(k == 0 || (k == 1 && !null)) {
            c.viol("pattern judged wrongly", format!("Pattern {:?} accepted: {:?}", s, lexeme));
        }
        let field = guard(|| RegexField::<N, i8>::new(s, Some(1)).is_ok());
        if field != Ok(k != 2) {
            c.viol("pattern judged wrongly", format!("RegexField {:?} accepted: {:?}", s, field));
        }
    }
    second_settings(c, r);
}

/// Symbols, suffixes, names and labels can be given once.
fn second_settings(c: &mut Ctx, r: &mut Rng) {
    let a = Rc::new(ConstantField::<N, i8>::new("a", Some(1)));
    let b = Rc::new(ConstantField::<N, i8>::new("b", Some(2)));
    let once = |c: &mut Ctx, what: &str, first: bool, second: bool| {
        c.eval(None);
        c.count("settings given twice", 1);
        if !first || second {
            c.viol("second setting", format!("{}: first accepted {}, second accepted {}", what, first, second));
        }
    };
    let parse = |p: Prod, s: &str| -> Option<String> {
        guard(|| LexerlessParser::new(p).ok().and_then(|p| p.parse(s.as_bytes()).ok()).map(|t| show_a(&t))).ok().flatten()
    };
    // Symbols: through init, or given to new.
    let made = r.pct(50);
    let (pa, pb): (Vec<Prod>, Vec<Prod>) = (vec![a.clone()], vec![b.clone()]);
    let k = Rc::new(if made { Concat::new("k", pa.clone()) } else { Concat::init("k") });
    let f = made || k.set_symbols(pa.clone()).is_ok();
    let used = r.pct(50);
    if used {
        let _ = parse(k.clone(), "a");
    }
    once(c, "Concat symbols", f, k.set_symbols(pb.clone()).is_ok());
    if parse(k.clone(), "a").is_none() || parse(k.clone(), "b").is_some() {
        c.viol("first definition not in force", "Concat".into());
    }
    let u = Rc::new(if made { Union::new("u", pa.clone()) } else { Union::init("u") });
    let f = made || u.set_symbols(pa.clone()).is_ok();
    if used {
        let _ = parse(u.clone(), "a");
    }
    once(c, "Union symbols", f, u.set_symbols(pb.clone()).is_ok());
    if parse(u.clone(), "a").is_none() || parse(u.clone(), "b").is_some() {
        c.viol("first definition not in force", "Union".into());
    }
    let s1 = || vec![(a.clone() as Prod, 5u16)];
    let s2 = || vec![(b.clone() as Prod, 6u16)];
    let s = Rc::new(if made { Suffixes::new("s", &a, false, s1()) } else { Suffixes::init("s", &a, false) });
    let f = made || s.set_suffixes(s1()).is_ok();
    if used {
        let _ = parse(s.clone(), "aa");
    }
    once(c, "Suffixes suffixes", f, s.set_suffixes(s2()).is_ok());
    if parse(s.clone(), "aa").is_none() || parse(s.clone(), "ab").is_some() {
        c.viol("first definition not in force", "Suffixes".into());
    }
    // Rule names show in the grammar text.
    macro_rules! name {
        ($p:expr, $w:expr) => {{
            let p = $p;
            let f = p.set_rule_name("first_name").is_ok();
            once(c, $w, f, p.set_rule_name(if r.pct(50) { "second_name" } else { "first_name" }).is_ok());
            if format!("{}", p) != "first_name" {
                c.viol("first definition not in force", format!("{}: {}", $w, p));
            }
        }};
    }
    name!(Node::new(&a, 3), "Node rule name");
    name!(Hidden::new(&a), "Hidden rule name");
    name!(SeparatedList::new(&a, &b, true), "SeparatedList rule name");
    // Log labels.
    let label = |r: &mut Rng| match r.below(5) {
        0 => Log::None,
        1 => Log::Default("l"),
        2 => Log::Success("l"),
        3 => Log::Result("l"),
        _ => Log::Verbose("l"),
    };
    macro_rules! log {
        ($p:expr, $m:ident, $w:expr) => {{
            let p = $p;
            let f = p.$m(label(r)).is_ok();
            once(c, $w, f, p.$m(label(r)).is_ok());
        }};
    }
    let t = Rc::new(TokenField::<N, i8>::new(1, None));
    log!(&*t, set_log, "TokenField log");
    log!(NullProd::<N, i8>::new(), set_log, "NullProd log");
    log!(Nullable::new(&a), set_log, "Nullable log");
    log!(Node::new(&a, 1), set_log, "Node log");
    log!(Hidden::new(&a), set_log, "Hidden log");
    log!(NonStructural::new(&t, true), set_log, "NonStructural log");
    log!(Structural::new(&t), set_log, "Structural log");
    log!(&*k, set_log, "Concat log");
    log!(&*u, set_log, "Union log");
    log!(&*s, set_log, "Suffixes log");
    log!(TokenFieldSet::<N, i8>::new(vec![(1, None)]), assign_debugger, "TokenFieldSet log");
    log!(RegexField::<N, i8>::new("^a", None).unwrap(), assign_debugger, "RegexField log");
    log!(&*a, assign_debugger, "ConstantField log");
    log!(ConstantFieldSet::<N, i8>::new(vec![("a", None)]), assign_debugger, "ConstantFieldSet log");
    log!(PunctuationsField::<N, i8>::new(vec![("a", None)]).unwrap(), assign_debugger, "PunctuationsField log");
    log!(EOFProd::<N, i8>::new(None), assign_debugger, "EOFProd log");
    log!(List::new(&a), assign_debugger, "List log");
    log!(SeparatedList::new(&a, &b, false), assign_debugger, "SeparatedList log");
    log!(Validator::new(&a, |_: &Vec<ASTNode<N>>, _: &[u8]| Ok(())), assign_debugger, "Validator log");
    log!(Lookahead::new(&a, None), assign_debugger, "Lookahead log");
    log!(Cacheable::new(CacheKey::verif_new(1), &a), assign_debugger, "Cacheable log");
    let pat = || Pattern::<i8, u8>::new(1, "^a").unwrap();
    log!(pat(), set_log, "Pattern log");
    log!(Constants::<i8, u8>::new(vec![("a", 1)]), set_log, "Constants log");
    log!(Pun::new(vec![("a", 1)]).unwrap(), set_log, "Punctuations log");
    log!(Mapper::new(pat(), vec![("a", 1)]).unwrap(), set_log, "Mapper log");
    log!(ThunkMapper::new(pat(), |_: &Lex<i8>, _: &[u8], _: &Vec<Lex<i8>>| None), set_log, "ThunkMapper log");
    log!(Middleware::new(pat(), |_: &[u8], _: &Vec<Lex<i8>>| true), set_log, "Middleware log");
    log!(StateMixin::new(pat(), vec![(1, Action::remove(false))]), set_log, "StateMixin log");
    log!(
        ThunkStateMixin::new(pat(), |_: &Lex<i8>, _: &[u8], _: &Vec<Lex<i8>>| Action::remove(false)),
        set_log,
        "ThunkStateMixin log"
    );
    let mut ct = CombinedTokenizer::<i8, u8>::new(0, vec![Rc::new(pat())]);
    let f = ct.set_log(label(r)).is_ok();
    once(c, "CombinedTokenizer log", f, ct.set_log(label(r)).is_ok());
    let _ = Cache::<usize, N>::root();
}

/// Errors made straight from a state of the parse: any furthest position, any token list.
pub fn direct_error(c: &mut Ctx, r: &mut Rng) {
    use lang_pt::ProductionError as PE;
    for _ in 0..20 {
        let mut code = pool_text(r);
        code.truncate(300);
        if r.pct(20) {
            for _ in 0..3 {
                let at = r.below(code.len() + 1);
                code.insert(at, *r.pick(&[0xffu8, 0xc3, 0x80, 0xe2, 0xf0]));
            }
        }
        // Tokens of one to a few bytes, in the middle of characters also.
        let eof = r.pct(70);
        let gap = *r.pick(&[0, 0, 20, 50]);
        let mut toks: Vec<Lex<i8>> = vec![];
        let mut at = 0;
        while at < code.len() {
            if r.pct(gap) {
                at += 1;
                continue;
            }
            let e = code.len().min(at + r.range(1, 5));
            toks.push(Lex::new(if r.pct(60) { r.below(7) as i8 } else { -1 - r.below(3) as i8 }, at, e));
            at = e;
        }
        if eof {
            toks.push(Lex::new(i8::MAX, at, at));
        }
        let odd = r.pct(25);
        let chosen: Vec<usize> = (0..toks.len()).filter(|i| if odd { r.pct(50) } else { toks[*i].token >= 0 }).collect();
        let stream = if odd {
            TokenStream::new(&toks, chosen.iter().map(|i| TokenPtr::from(*i)).collect())
        } else {
            TokenStream::from(&toks)
        };
        let mut far = 0;
        let mut tok = lang_pt::Cache::<FltrPtr, N>::root();
        let mut less = lang_pt::Cache::<usize, N>::root();
        for _ in 0..r.range(0, 4) {
            let p = match r.below(4) {
                0 => code.len(),
                1 if !toks.is_empty() => r.pick(&toks).start,
                _ => r.below(code.len() + 1),
            };
            far = far.max(p);
            tok.update_index(p);
            less.update_index(p);
        }
        let message = if r.pct(30) { Some(*r.pick(&["müssen", "", "a\nb", "Unexpected"])) } else { None };
        let vat = r.below(code.len() + 1);
        let err = || message.map_or(PE::Unparsed, |m| PE::Validation(vat, m.to_string()));
        let src = lang_pt::Code::new(&code);
        for tokenized in [true, false] {
            let got = guard(|| if tokenized { tok.create_error(&src, &stream, err()) } else { less.create_error(&src, err()) });
            c.eval(Some(hash(&code) ^ hash(format!("{} {} {:?}", far, vat, message).as_bytes())));
            c.count("errors made from a given state", 1);
            let next = chosen.iter().map(|i| &toks[*i]).find(|k| k.start >= far);
            let (want, word): (usize, Option<&[u8]>) = match (message, tokenized, next) {
                (Some(_), ..) => (vat, None),
                (_, true, Some(k)) => (k.start, Some(&code[k.start..k.end])),
                (_, true, None) => (code.len(), Some(&[])),
                (_, false, _) => {
                    let n = (1..=4.min(code.len() - far)).find(|n| std::str::from_utf8(&code[far..far + n]).is_ok());
                    (far, Some(&code[far..code.len().min(far + n.unwrap_or(1))]))
                }
            };
            let bad = match &got {
                Err(p) => Some(format!("panic {}", p)),
                Ok(e) => {
                    let first = e.message.split("Failed to parse").next().unwrap_or("");
                    let named = match (message, word) {
                        (Some(m), _) => first.trim_end_matches('\n') == m,
                        (_, Some(w)) => {
                            let s = String::from_utf8_lossy(w);
                            let esc = format!("{:?}", s);
                            first.contains("Unexpected end of file") == (want == code.len())
                                && (w.is_empty() || first.contains(&*s) || first.contains(esc.trim_matches('"')))
                        }
                        _ => true,
                    };
                    if e.pointer != want {
                        Some(format!("pointer {} in place of {}", e.pointer, want))
                    } else if !named {
                        Some(format!("message {:?}", e.message))
                    } else if printed_position(&e.message) != Some(line_col(&code, want)) {
                        Some(format!("position {:?} in place of {:?}", printed_position(&e.message), line_col(&code, want)))
                    } else {
                        None
                    }
                }
            };
            if let Some(b) = bad {
                c.viol(
                    "error made from a given state",
                    format!(
                        "input: {}\ntokens: {}\nfurthest {} tokenized {} validation {:?}\n{}",
                        text(&code),
                        show_lex(&toks),
                        far,
                        tokenized,
                        message.map(|m| (vat, m)),
                        b
                    ),
                );
            }
        }
    }
}
