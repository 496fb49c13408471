//! Reference semantics: a direct interpreter of grammar descriptions as parsing expression grammars
//! over bytes or tokens. It shares no code with lang_pt.
use crate::gram::*;
use lang_pt::{ASTNode, ProductionError, TokenPtr};
use regex::bytes::Regex;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub n: N,
    pub s: usize,
    pub e: usize,
    pub b: Option<(usize, usize)>,
    pub c: Vec<T>,
}

pub fn same(a: &ASTNode<N>, t: &T) -> bool {
    a.node == t.n
        && a.start == t.s
        && a.end == t.e
        && a.bound == t.b.map(|(x, y)| (TokenPtr::from(x), TokenPtr::from(y)))
        && a.children.len() == t.c.len()
        && a.children.iter().zip(&t.c).all(|(a, t)| same(a, t))
}
pub fn same_list(a: &[ASTNode<N>], t: &[T]) -> bool {
    a.len() == t.len() && a.iter().zip(t).all(|(a, t)| same(a, t))
}
pub fn show_t(t: &[T]) -> String {
    t.iter()
        .map(|t| {
            let b = t.b.map_or(String::new(), |(x, y)| format!("<{},{}>", x, y));
            format!("{}#{}-{}{}[{}]", t.n, t.s, t.e, b, show_t(&t.c))
        })
        .collect::<Vec<_>>()
        .join(" ")
}
pub fn show_a(t: &[ASTNode<N>]) -> String {
    t.iter()
        .map(|t| {
            let b = t
                .bound
                .map_or(String::new(), |(x, y)| format!("<{},{}>", x, y));
            format!("{}#{}-{}{}[{}]", t.node, t.start, t.end, b, show_a(&t.children))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub t: i8,
    pub s: usize,
    pub e: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Unparsed,
    Invalid(usize, String),
    /// The reference itself ran out of its step budget; no verdict.
    Budget,
}
pub type R = Result<(usize, Vec<T>), Fail>;

thread_local! {
    static REGEXES: RefCell<HashMap<&'static str, Rc<Regex>>> = RefCell::new(HashMap::new());
}
pub fn regex(s: &'static str) -> Rc<Regex> {
    REGEXES.with(|r| {
        r.borrow_mut()
            .entry(s)
            .or_insert_with(|| Rc::new(Regex::new(s).unwrap()))
            .clone()
    })
}

pub struct Ref<'a> {
    pub g: &'a Grammar,
    pub code: &'a [u8],
    pub toks: &'a [Tok],
    pub flt: Vec<usize>,
    pub far: usize,
    pub steps: u64,
    pub limit: u64,
    pub depth: u64,
    pub max_depth: u64,
    pub record: bool,
    pub attempts: HashMap<(u32, M, usize), u32>,
    pub validator_calls: Vec<(u32, usize, u64)>,
}

impl<'a> Ref<'a> {
    pub fn new(g: &'a Grammar, code: &'a [u8], toks: &'a [Tok], limit: u64) -> Self {
        Ref {
            g,
            code,
            toks,
            flt: toks
                .iter()
                .enumerate()
                .filter(|(_, t)| t.t >= 0)
                .map(|(i, _)| i)
                .collect(),
            far: 0,
            steps: 0,
            limit,
            depth: 0,
            max_depth: 0,
            record: false,
            attempts: HashMap::new(),
            validator_calls: Vec::new(),
        }
    }
    pub fn start(&self, m: M, p: usize) -> usize {
        match m {
            M::B => p,
            M::F => self.toks[self.flt[p]].s,
            M::R => self.toks[p].s,
        }
    }
    fn bnd(&self, m: M, p: usize) -> usize {
        match m {
            M::B => 0,
            M::F => self.flt[p],
            M::R => p,
        }
    }
    fn bound(&self, m: M, p: usize, q: usize) -> Option<(usize, usize)> {
        match m {
            M::B => None,
            _ => Some((self.bnd(m, p), self.bnd(m, q))),
        }
    }
    fn zero(&self, m: M, p: usize, n: N) -> T {
        T {
            n,
            s: self.start(m, p),
            e: self.start(m, p),
            b: self.bound(m, p, p),
            c: vec![],
        }
    }
    fn text(&mut self, p: usize, len: usize, n: &Option<N>) -> R {
        self.far = self.far.max(p + len);
        Ok((
            p + len,
            n.map(|n| T {
                n,
                s: p,
                e: p + len,
                b: None,
                c: vec![],
            })
            .into_iter()
            .collect(),
        ))
    }
    fn token(&mut self, m: M, p: usize, n: &Option<N>) -> R {
        let i = self.bnd(m, p);
        let t = &self.toks[i];
        self.far = self.far.max(t.e);
        // The end of file token is matched but stays in the stream.
        let w = (t.t != i8::MAX) as usize;
        Ok((
            p + w,
            n.map(|n| T {
                n,
                s: t.s,
                e: t.e,
                b: Some((i, i + w)),
                c: vec![],
            })
            .into_iter()
            .collect(),
        ))
    }
    pub fn ev(&mut self, g: &G, m: M, p: usize) -> R {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(Fail::Budget);
        }
        self.depth += 1;
        if self.depth > 4000 {
            self.depth -= 1;
            return Err(Fail::Budget);
        }
        self.max_depth = self.max_depth.max(self.depth);
        if self.record {
            let at = self.start(m, p);
            *self.attempts.entry((g.id, m, at)).or_insert(0) += 1;
        }
        let r = self.ev1(g, m, p);
        self.depth -= 1;
        r
    }
    fn longest(&self, v: &'a [(String, Option<N>)], p: usize) -> Option<&'a (String, Option<N>)> {
        let rest = &self.code[p..];
        let mut best: Option<&(String, Option<N>)> = None;
        for x in v {
            if rest.len() >= x.0.len()
                && &rest[..x.0.len()] == x.0.as_bytes()
                && best.map_or(true, |b| x.0.len() > b.0.len())
            {
                best = Some(x);
            }
        }
        best
    }
    fn ev1(&mut self, g: &G, m: M, p: usize) -> R {
        // The grammar outlives the interpreter.
        let g: &'a G = unsafe { &*(g as *const G) };
        match &g.k {
            K::Tok(t, n) => {
                if self.toks[self.bnd(m, p)].t == *t {
                    self.token(m, p, n)
                } else {
                    Err(Fail::Unparsed)
                }
            }
            K::TokSet(v) => {
                let t = self.toks[self.bnd(m, p)].t;
                match v.iter().find(|x| x.0 == t) {
                    Some(x) => self.token(m, p, &x.1),
                    None => Err(Fail::Unparsed),
                }
            }
            K::Const(s, n) => {
                if self.code[p..].len() >= s.len() && &self.code[p..p + s.len()] == s.as_bytes() {
                    self.text(p, s.len(), n)
                } else {
                    Err(Fail::Unparsed)
                }
            }
            K::ConstSet(v) | K::Punct(v) => match self.longest(v, p) {
                Some((s, n)) => self.text(p, s.len(), n),
                None => Err(Fail::Unparsed),
            },
            K::Regex(s, n) => match regex(s).find(&self.code[p..]) {
                Some(f) => self.text(p, f.end(), n),
                None => Err(Fail::Unparsed),
            },
            K::Null(h) => Ok((p, if *h { vec![] } else { vec![self.zero(m, p, 0)] })),
            K::Eof(n) => {
                let at_end = match m {
                    M::B => p == self.code.len(),
                    _ => self.toks[self.bnd(m, p)].t == i8::MAX,
                };
                if at_end {
                    let e = self.code.len();
                    self.far = self.far.max(e);
                    Ok((p, n.map(|n| self.zero(m, p, n)).into_iter().collect()))
                } else {
                    Err(Fail::Unparsed)
                }
            }
            K::List(x) => {
                let (mut q, mut c) = self.ev(x, m, p)?;
                if q == p {
                    return Ok((q, c));
                }
                loop {
                    match self.ev(x, m, q) {
                        Ok((r, d)) => {
                            c.extend(d);
                            if r == q {
                                return Ok((q, c));
                            }
                            q = r;
                        }
                        Err(Fail::Unparsed) => return Ok((q, c)),
                        Err(e) => return Err(e),
                    }
                }
            }
            K::Sep(x, s, inclusive) => {
                let (mut q, mut c) = self.ev(x, m, p)?;
                loop {
                    match self.ev(s, m, q) {
                        Ok((r, sc)) => match self.ev(x, m, r) {
                            Ok((t, d)) => {
                                c.extend(sc);
                                c.extend(d);
                                if t == q {
                                    return Ok((q, c));
                                }
                                q = t;
                            }
                            Err(Fail::Unparsed) => {
                                return if *inclusive {
                                    c.extend(sc);
                                    Ok((r, c))
                                } else {
                                    Ok((q, c))
                                }
                            }
                            Err(e) => return Err(e),
                        },
                        Err(Fail::Unparsed) => return Ok((q, c)),
                        Err(e) => return Err(e),
                    }
                }
            }
            K::Opt(x, hidden) => match self.ev(x, m, p) {
                Err(Fail::Unparsed) => {
                    Ok((p, if *hidden { vec![] } else { vec![self.zero(m, p, 0)] }))
                }
                r => r,
            },
            K::Node(x, n) => {
                let (q, c) = self.ev(x, m, p)?;
                Ok((
                    q,
                    vec![T {
                        n: *n,
                        s: self.start(m, p),
                        e: self.start(m, q),
                        b: self.bound(m, p, q),
                        c,
                    }],
                ))
            }
            K::Hidden(x) => self.ev(x, m, p).map(|(q, _)| (q, vec![])),
            K::Valid(x, v) => {
                let (q, c) = self.ev(x, m, p)?;
                let spans: Vec<(usize, usize)> = c.iter().map(|t| (t.s, t.e)).collect();
                if self.record {
                    self.validator_calls
                        .push((g.id, self.code.len(), spans_hash(&spans)));
                }
                match verdict(v, &spans, self.code) {
                    Ok(()) => Ok((q, c)),
                    Err(ProductionError::Unparsed) => Err(Fail::Unparsed),
                    Err(ProductionError::Validation(p, s)) => Err(Fail::Invalid(p, s)),
                }
            }
            K::Look(x, n) => {
                self.ev(x, m, p)?;
                Ok((p, n.map(|n| self.zero(m, p, n)).into_iter().collect()))
            }
            K::NonStr(x, fill) => match m {
                M::F => {
                    let gap = if p == 0 { 0 } else { self.flt[p - 1] + 1 };
                    let (q, c) = self.ev(x, M::R, gap)?;
                    if *fill && q != self.flt[p] {
                        Err(Fail::Unparsed)
                    } else {
                        Ok((p, c))
                    }
                }
                _ => self.ev(x, m, p),
            },
            K::Struc(x) => match m {
                M::R => {
                    let f = self.flt.iter().position(|i| *i >= p).unwrap();
                    let (q, c) = self.ev(x, M::F, f)?;
                    Ok((if q > f { self.flt[q - 1] + 1 } else { p }, c))
                }
                _ => self.ev(x, m, p),
            },
            K::Memo(_, x) => self.ev(x, m, p),
            K::Ref(i) => {
                let i = *i;
                match &self.g.nts[i] {
                    NT::Concat(v) => {
                        let mut q = p;
                        let mut c = vec![];
                        for x in v {
                            let (r, d) = self.ev(x, m, q)?;
                            q = r;
                            c.extend(d);
                        }
                        Ok((q, c))
                    }
                    NT::Union(v) => {
                        for x in v {
                            match self.ev(x, m, p) {
                                Err(Fail::Unparsed) => {}
                                r => return r,
                            }
                        }
                        Err(Fail::Unparsed)
                    }
                    NT::Suf(l, standalone, v) => {
                        let (q, mut c) = self.ev(l, m, p)?;
                        for (x, n) in v {
                            match self.ev(x, m, q) {
                                Ok((r, d)) => {
                                    c.extend(d);
                                    return Ok((
                                        r,
                                        vec![T {
                                            n: *n,
                                            s: self.start(m, p),
                                            e: self.start(m, r),
                                            b: self.bound(m, p, r),
                                            c,
                                        }],
                                    ));
                                }
                                Err(Fail::Unparsed) => {}
                                Err(e) => return Err(e),
                            }
                        }
                        if *standalone {
                            Ok((q, c))
                        } else {
                            Err(Fail::Unparsed)
                        }
                    }
                }
            }
        }
    }
}

/// Static facts about a grammar, by least fixpoint.
pub struct Facts {
    pub nullable: Vec<bool>,
    /// Smallest derivation height, for sentence generation.
    pub height: Vec<u32>,
}

pub fn nullable(g: &G, nt: &[bool]) -> bool {
    match &g.k {
        K::Tok(t, _) => *t == i8::MAX,
        K::TokSet(v) => v.iter().any(|x| x.0 == i8::MAX),
        K::Const(s, _) => s.is_empty(),
        K::ConstSet(v) | K::Punct(v) => v.iter().any(|x| x.0.is_empty()),
        K::Regex(s, _) => regex(s).is_match(b""),
        K::Null(_) | K::Eof(_) | K::Opt(..) | K::Look(..) | K::NonStr(..) => true,
        K::List(x)
        | K::Node(x, _)
        | K::Hidden(x)
        | K::Valid(x, _)
        | K::Struc(x)
        | K::Memo(_, x)
        | K::Sep(x, _, _) => nullable(x, nt),
        K::Ref(i) => nt[*i],
    }
}

fn height(g: &G, nt: &[u32]) -> u32 {
    match &g.k {
        K::Tok(..) | K::TokSet(_) | K::Const(..) | K::ConstSet(_) | K::Punct(_)
        | K::Regex(..) | K::Null(_) | K::Eof(_) => 1,
        K::Opt(..) => 1,
        K::List(x)
        | K::Node(x, _)
        | K::Hidden(x)
        | K::Valid(x, _)
        | K::Look(x, _)
        | K::NonStr(x, _)
        | K::Struc(x)
        | K::Memo(_, x)
        | K::Sep(x, _, _) => height(x, nt).saturating_add(1),
        K::Ref(i) => nt[*i].saturating_add(1),
    }
}
pub fn expr_height(g: &G, f: &Facts) -> u32 {
    height(g, &f.height)
}

impl Facts {
    pub fn new(g: &Grammar) -> Facts {
        let n = g.nts.len();
        let mut nl = vec![false; n];
        let mut h = vec![u32::MAX; n];
        loop {
            let mut changed = false;
            for (i, nt) in g.nts.iter().enumerate() {
                if g.unset[i] {
                    continue;
                }
                let v = match nt {
                    NT::Concat(v) => v.iter().all(|x| nullable(x, &nl)),
                    NT::Union(v) => v.iter().any(|x| nullable(x, &nl)),
                    NT::Suf(l, st, v) => {
                        nullable(l, &nl) && (*st || v.iter().any(|x| nullable(&x.0, &nl)))
                    }
                };
                if v && !nl[i] {
                    nl[i] = true;
                    changed = true;
                }
                let k = match nt {
                    NT::Concat(v) => v.iter().map(|x| height(x, &h)).max().unwrap_or(0),
                    NT::Union(v) => v.iter().map(|x| height(x, &h)).min().unwrap_or(u32::MAX),
                    NT::Suf(l, st, v) => {
                        let s = v.iter().map(|x| height(&x.0, &h)).min().unwrap_or(u32::MAX);
                        height(l, &h).max(if *st { 0 } else { s })
                    }
                }
                .saturating_add(1);
                if k < h[i] {
                    h[i] = k;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        Facts {
            nullable: nl,
            height: h,
        }
    }
}

/// Why a grammar cannot be used, by graph search over the description (C10 oracle).
#[derive(Debug, PartialEq, Clone)]
pub enum Defect {
    LeftRecursive(usize),
    Unset(usize),
}

/// Non terminals an expression may enter without consuming input first; all others in `later`.
fn left(g: &G, nl: &[bool], first: bool, out: &mut Vec<(usize, bool)>) {
    match &g.k {
        K::Ref(i) => out.push((*i, first)),
        K::List(x)
        | K::Opt(x, _)
        | K::Node(x, _)
        | K::Hidden(x)
        | K::Valid(x, _)
        | K::Look(x, _)
        | K::NonStr(x, _)
        | K::Struc(x)
        | K::Memo(_, x) => left(x, nl, first, out),
        K::Sep(p, s, _) => {
            left(p, nl, first, out);
            left(s, nl, first && nullable(p, nl), out);
        }
        _ => {}
    }
}

/// Per non-terminal what it evaluates and whether that can happen before input is consumed.
pub fn edges(g: &Grammar) -> Vec<Vec<(usize, bool)>> {
    let nl = Facts::new(g).nullable;
    let n = g.nts.len();
    let mut edges: Vec<Vec<(usize, bool)>> = vec![vec![]; n];
    for (i, nt) in g.nts.iter().enumerate() {
        // The left part of a suffix form is given at construction; suffixes may be missing.
        match nt {
            NT::Concat(v) if !g.unset[i] => {
                let mut first = true;
                for x in v {
                    left(x, &nl, first, &mut edges[i]);
                    first = first && nullable(x, &nl);
                }
            }
            NT::Union(v) if !g.unset[i] => {
                for x in v {
                    left(x, &nl, true, &mut edges[i]);
                }
            }
            NT::Suf(l, _, v) if !g.unset[i] => {
                left(l, &nl, true, &mut edges[i]);
                let first = nullable(l, &nl);
                for (x, _) in v {
                    left(x, &nl, first, &mut edges[i]);
                }
            }
            _ => {}
        }
    }
    edges
}

pub fn defects(g: &Grammar) -> Vec<Defect> {
    let nl = Facts::new(g).nullable;
    let n = g.nts.len();
    let edges = edges(g);
    let mut roots = vec![];
    left(&g.root, &nl, true, &mut roots);
    let mut reach = vec![false; n];
    let mut todo: Vec<usize> = roots.iter().map(|x| x.0).collect();
    while let Some(i) = todo.pop() {
        if !reach[i] {
            reach[i] = true;
            todo.extend(edges[i].iter().map(|x| x.0));
        }
    }
    let mut out = vec![];
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        if g.unset[i] {
            out.push(Defect::Unset(i));
            continue;
        }
        // Can i come back to itself over first edges only?
        let mut seen = vec![false; n];
        let mut todo: Vec<usize> = edges[i].iter().filter(|e| e.1).map(|e| e.0).collect();
        while let Some(j) = todo.pop() {
            if j == i {
                out.push(Defect::LeftRecursive(i));
                break;
            }
            if !seen[j] {
                seen[j] = true;
                todo.extend(edges[j].iter().filter(|e| e.1).map(|e| e.0));
            }
        }
    }
    out
}
