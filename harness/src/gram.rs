//! Grammar descriptions, their translation to lang_pt productions (every production is wrapped in a
//! recording probe) and the event monitor shared by the probes.
use lang_pt::production::{
    Cacheable, Concat, ConstantField, ConstantFieldSet, EOFProd, Hidden, List, Lookahead, Node,
    NonStructural, NullProd, Nullable, ProductionBuilder, PunctuationsField, RegexField, SeparatedList, Structural,
    Suffixes, TokenField, TokenFieldSet, Union, Validator,
};
use lang_pt::{
    ASTNode, Cache, CacheKey, Code, FltrPtr, IProduction, ImplementationError, Log, ParsedResult,
    ProductionError, TokenPtr, TokenStream,
};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::{Display, Write};
use std::rc::Rc;

pub type N = u16;
pub type Prod = Rc<dyn IProduction<Node = N, Token = i8>>;

/// What a user validator does with the nodes it is given.
#[derive(Clone, Debug, PartialEq)]
pub enum VKind {
    Accept,
    /// Ordinary mismatch when the number of nodes satisfies n % m == r.
    UnparsedMod(usize, usize),
    /// Validation error for matches of at least the given number of bytes.
    ErrLen(usize),
    /// Validation error when the first matched byte is the given one.
    ErrByte(u8),
    /// The same, reported at so many eighths of the source.
    ErrAt(u8, usize),
}

/// Expression of a grammar.
#[derive(Clone, Debug)]
pub enum K {
    Tok(i8, Option<N>),
    TokSet(Vec<(i8, Option<N>)>),
    Const(String, Option<N>),
    ConstSet(Vec<(String, Option<N>)>),
    Punct(Vec<(String, Option<N>)>),
    Regex(&'static str, Option<N>),
    Null(bool),
    Eof(Option<N>),
    List(Box<G>),
    Sep(Box<G>, Box<G>, bool),
    Opt(Box<G>, bool),
    Node(Box<G>, N),
    Hidden(Box<G>),
    Valid(Box<G>, VKind),
    Look(Box<G>, Option<N>),
    NonStr(Box<G>, bool),
    Struc(Box<G>),
    Memo(usize, Box<G>),
    Ref(usize),
}

#[derive(Clone, Debug)]
pub struct G {
    pub id: u32,
    pub k: K,
}

#[derive(Clone, Debug)]
pub enum NT {
    Concat(Vec<G>),
    Union(Vec<G>),
    Suf(G, bool, Vec<(G, N)>),
}

#[derive(Clone, Debug)]
pub struct Grammar {
    pub nts: Vec<NT>,
    pub root: G,
    /// Never given their symbols (C10).
    pub unset: Vec<bool>,
    /// Rule names by non terminal.
    pub names: Vec<&'static str>,
    /// Rule names for Node/Hidden/SeparatedList wrappers by expression id.
    pub rules: HashMap<u32, &'static str>,
    pub ids: u32,
}

/// Names of non-terminals: some begin like others, differ in case only, are long or not ASCII.
pub static NAMES: std::sync::LazyLock<Vec<&'static str>> = std::sync::LazyLock::new(|| {
    let mut v: Vec<String> = [
        "alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliet",
        "kilo", "lima", "mike", "november", "oscar", "papa", "quebec", "romeo", "sierra", "tango",
        "uniform", "victor", "whiskey", "xray", "yankee", "zulu", "a", "ab", "abc", "abcdefgh", "abcdefghi",
        "Alpha", "ALPHA", "alpha_", "alpha1", "_", "é", "ébène", "日本", "日本語", "Ωx",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("n".repeat(40));
    v.push("n".repeat(41));
    v.push("long_name_".repeat(30));
    v.push("日".repeat(30));
    v.extend((0..350).map(|i| format!("N{}", i)));
    v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
});
pub static RULES: [&str; 24] = [
    "r_one", "r_two", "r_three", "r_four", "r_five", "r_six", "r_seven", "r_eight", "r_nine",
    "r_ten", "r_eleven", "r_twelve", "r_13", "r_14", "r_15", "r_16", "r_17", "r_18", "r_19",
    "r_20", "r_21", "r_22", "r_23", "r_24",
];

impl Grammar {
    /// Visit every expression.
    pub fn each<'g>(&'g self, f: &mut dyn FnMut(&'g G)) {
        self.root.each(f);
        for nt in &self.nts {
            match nt {
                NT::Concat(v) | NT::Union(v) => v.iter().for_each(|g| g.each(f)),
                NT::Suf(l, _, v) => {
                    l.each(f);
                    v.iter().for_each(|(g, _)| g.each(f));
                }
            }
        }
    }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut G)) {
        self.root.each_mut(f);
        for nt in &mut self.nts {
            match nt {
                NT::Concat(v) | NT::Union(v) => v.iter_mut().for_each(|g| g.each_mut(f)),
                NT::Suf(l, _, v) => {
                    l.each_mut(f);
                    v.iter_mut().for_each(|(g, _)| g.each_mut(f));
                }
            }
        }
    }
    /// Give every expression its own id.
    pub fn number(&mut self) {
        let mut n = 0;
        self.each_mut(&mut |g| {
            g.id = n;
            n += 1;
        });
        self.ids = n;
    }
    /// Equal expressions get one id and become one object. The left side of a suffix form is built first.
    pub fn merge_ids(&mut self) {
        let rules = self.rules.clone();
        let mut seen: HashMap<String, u32> = HashMap::new();
        let me = self.clone();
        self.each_mut(&mut |g| {
            let mut key = me.sg(g);
            g.each(&mut |x| {
                if let Some(n) = rules.get(&x.id) {
                    key += n;
                }
                key += ";";
            });
            g.id = *seen.entry(key).or_insert(g.id);
        });
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, nt) in self.nts.iter().enumerate() {
            let _ = match nt {
                _ if self.unset[i] => writeln!(s, "{} = (symbols never set)", self.names[i]),
                NT::Concat(v) => writeln!(
                    s,
                    "{} = Concat[{}]",
                    self.names[i],
                    v.iter().map(|g| self.sg(g)).collect::<Vec<_>>().join(" ")
                ),
                NT::Union(v) => writeln!(
                    s,
                    "{} = Union[{}]",
                    self.names[i],
                    v.iter().map(|g| self.sg(g)).collect::<Vec<_>>().join(" / ")
                ),
                NT::Suf(l, st, v) => writeln!(
                    s,
                    "{} = Suffixes({}, standalone={}) [{}]",
                    self.names[i],
                    self.sg(l),
                    st,
                    v.iter()
                        .map(|(g, n)| format!("{}@{}", self.sg(g), n))
                        .collect::<Vec<_>>()
                        .join(" / ")
                ),
            };
        }
        let _ = write!(s, "root = {}", self.sg(&self.root));
        s
    }
    pub fn sg(&self, g: &G) -> String {
        let set = |v: &Vec<(String, Option<N>)>| format!("{:?}", v);
        match &g.k {
            K::Tok(t, n) => format!("Tok({},{:?})", t, n),
            K::TokSet(v) => format!("TokSet({:?})", v),
            K::Const(s, n) => format!("Const({:?},{:?})", s, n),
            K::ConstSet(v) => format!("ConstSet({})", set(v)),
            K::Punct(v) => format!("Punct({})", set(v)),
            K::Regex(s, n) => format!("Regex(/{}/,{:?})", s, n),
            K::Null(h) => if *h { "NullHidden".into() } else { "Null".into() },
            K::Eof(n) => format!("Eof({:?})", n),
            K::List(g) => format!("List({})", self.sg(g)),
            K::Sep(p, s, i) => format!("Sep({},{},inclusive={})", self.sg(p), self.sg(s), i),
            K::Opt(g, h) => format!("Opt({},hidden={})", self.sg(g), h),
            K::Node(g, n) => format!("Node({},{})", self.sg(g), n),
            K::Hidden(g) => format!("Hidden({})", self.sg(g)),
            K::Valid(g, v) => format!("Valid({},{:?})", self.sg(g), v),
            K::Look(g, n) => format!("Look({},{:?})", self.sg(g), n),
            K::NonStr(g, f) => format!("NonStr({},fill={})", self.sg(g), f),
            K::Struc(g) => format!("Struc({})", self.sg(g)),
            K::Memo(k, g) => format!("Memo({},{})", k, self.sg(g)),
            K::Ref(i) => self.names[*i].to_string(),
        }
    }
}

impl G {
    pub fn new(k: K) -> G {
        G { id: 0, k }
    }
    pub fn each<'g>(&'g self, f: &mut dyn FnMut(&'g G)) {
        f(self);
        match &self.k {
            K::List(g)
            | K::Opt(g, _)
            | K::Node(g, _)
            | K::Hidden(g)
            | K::Valid(g, _)
            | K::Look(g, _)
            | K::NonStr(g, _)
            | K::Struc(g)
            | K::Memo(_, g) => g.each(f),
            K::Sep(p, s, _) => {
                p.each(f);
                s.each(f)
            }
            _ => {}
        }
    }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut G)) {
        f(self);
        match &mut self.k {
            K::List(g)
            | K::Opt(g, _)
            | K::Node(g, _)
            | K::Hidden(g)
            | K::Valid(g, _)
            | K::Look(g, _)
            | K::NonStr(g, _)
            | K::Struc(g)
            | K::Memo(_, g) => g.each_mut(f),
            K::Sep(p, s, _) => {
                p.each_mut(f);
                s.each_mut(f)
            }
            _ => {}
        }
    }
}

/// Parsing mode of one attempt: bytes, structural tokens, raw tokens.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum M {
    B,
    F,
    R,
}

/// One production attempt, observed at the IProduction boundary. Positions are byte offsets.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub id: u32,
    pub m: M,
    pub at: usize,
    /// None: mismatch. Some(consumed byte offset): match.
    pub end: Option<usize>,
    pub invalid: bool,
    /// Token under the cursor when the attempt started (tokenized modes).
    pub tok: i8,
    pub advanced: bool,
}

/// Result of a watched expression.
pub struct Seen {
    pub id: u32,
    pub m: M,
    pub at: usize,
    pub res: Option<Vec<ASTNode<N>>>,
}

thread_local! {
    /// How many more productions and lexemes are tried before the armed action runs; 0: nothing is armed.
    static NEST: Cell<u64> = const { Cell::new(0) };
    static ACTION: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}
/// Runs the action from within the library, after so many attempts.
pub fn arm(after: u64, f: Rc<dyn Fn()>) {
    ACTION.with(|a| *a.borrow_mut() = Some(f));
    NEST.with(|n| n.set(after));
}
/// Says whether the action has run.
pub fn disarm() -> bool {
    NEST.with(|n| n.set(0));
    ACTION.with(|a| a.borrow_mut().take()).is_none()
}
#[inline]
pub fn tick() {
    NEST.with(|n| {
        if n.get() > 0 {
            n.set(n.get() - 1);
            if n.get() == 0 {
                if let Some(f) = ACTION.with(|a| a.borrow_mut().take()) {
                    f();
                }
            }
        }
    })
}

pub const BUDGET: &str = "VH-BUDGET-EXCEEDED";
pub const DEPTH: &str = "VH-DEPTH-EXCEEDED";

#[derive(Default)]
pub struct Mon {
    pub steps: Cell<u64>,
    pub limit: Cell<u64>,
    pub depth: Cell<u64>,
    pub depth_limit: Cell<u64>,
    pub record: Cell<bool>,
    pub events: RefCell<Vec<Ev>>,
    pub validator_calls: RefCell<Vec<(u32, usize, u64)>>,
    /// Number of attempts by (expression, mode, position), when recording.
    pub attempts: RefCell<HashMap<(u32, M, usize), u32>>,
    pub watch: RefCell<HashSet<u32>>,
    pub seen: RefCell<Vec<Seen>>,
    /// First result whose own description of itself is wrong.
    pub odd: RefCell<Option<String>>,
}

impl Mon {
    pub fn reset(&self, limit: u64, depth_limit: u64, record: bool) {
        self.steps.set(0);
        self.limit.set(limit);
        self.depth.set(0);
        self.depth_limit.set(depth_limit);
        self.record.set(record);
        self.events.borrow_mut().clear();
        self.validator_calls.borrow_mut().clear();
        self.attempts.borrow_mut().clear();
    }
    fn enter(&self, id: u32, m: M, at: usize) {
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > self.limit.get() {
            panic!("{}", BUDGET);
        }
        self.depth.set(self.depth.get() + 1);
        if self.depth.get() > self.depth_limit.get() {
            panic!("{}", DEPTH);
        }
        if self.record.get() {
            *self.attempts.borrow_mut().entry((id, m, at)).or_insert(0) += 1;
        }
        tick();
    }
    fn exit(&self, ev: Ev, res: &dyn Fn() -> Option<Vec<ASTNode<N>>>) {
        if self.record.get() && self.watch.borrow().contains(&ev.id) {
            let mut s = self.seen.borrow_mut();
            if s.len() < 300 {
                s.push(Seen {
                    id: ev.id,
                    m: ev.m,
                    at: ev.at,
                    res: res(),
                });
            }
        }
        self.depth.set(self.depth.get() - 1);
        if self.record.get() && self.events.borrow().len() < 200_000 {
            self.events.borrow_mut().push(ev);
        }
    }
}

/// What a result says about itself.
fn describe<I>(mon: &Mon, r: &ParsedResult<I, N>) {
    let bad = match r {
        Ok(d) => {
            let want = match (d.children.first(), d.children.last()) {
                (Some(a), Some(b)) => Some((a.start, b.end)),
                _ => None,
            };
            if d.range() == want {
                return;
            }
            format!("range {:?} in place of {:?}", d.range(), want)
        }
        Err(e) => {
            let want = matches!(e, lang_pt::ProductionError::Validation(..));
            if e.is_invalid() == want && e.is_unparsed() != want {
                return;
            }
            format!("{:?} is invalid: {}, unparsed: {}", e, e.is_invalid(), e.is_unparsed())
        }
    };
    mon.odd.borrow_mut().get_or_insert(bad);
}

/// Forwards everything to the wrapped production and reports attempts to the monitor.
#[derive(Clone)]
pub struct Probe {
    pub id: u32,
    pub inner: Prod,
    pub mon: Rc<Mon>,
}

impl Display for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Display::fmt(&self.inner, f)
    }
}

impl IProduction for Probe {
    type Node = N;
    type Token = i8;
    fn is_nullable(&self) -> bool {
        self.inner.is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.inner.is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(
        &'id self,
        visited: HashMap<&'id str, usize>,
    ) -> Result<bool, ImplementationError> {
        self.inner.obtain_nullability(visited)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<i8>) {
        self.inner.impl_first_set(first_set)
    }
    fn impl_grammar(
        &self,
        writer: &mut dyn Write,
        added_rules: &mut HashSet<&'static str>,
    ) -> Result<(), std::fmt::Error> {
        self.inner.impl_grammar(writer, added_rules)
    }
    fn validate<'id>(
        &'id self,
        connected_sets: HashMap<&'id str, usize>,
        visited_prod: &mut HashSet<&'id str>,
    ) -> Result<(), ImplementationError> {
        self.inner.validate(connected_sets, visited_prod)
    }
    fn advance_fltr_ptr(
        &self,
        code: &Code,
        index: FltrPtr,
        stream: &TokenStream<i8>,
        cache: &mut Cache<FltrPtr, N>,
    ) -> ParsedResult<FltrPtr, N> {
        let at = stream[index].start;
        self.mon.enter(self.id, M::F, at);
        let r = self.inner.advance_fltr_ptr(code, index, stream, cache);
        describe(&self.mon, &r);
        self.mon.exit(Ev {
            id: self.id,
            m: M::F,
            at,
            end: r.as_ref().ok().map(|d| stream[d.consumed_index].start),
            invalid: r.as_ref().err().map_or(false, |e| e.is_invalid()),
            tok: stream[index].token,
            advanced: r.as_ref().ok().map_or(false, |d| d.consumed_index > index),
        }, &|| r.as_ref().ok().map(|d| d.children.clone()));
        r
    }
    fn advance_token_ptr(
        &self,
        code: &Code,
        index: TokenPtr,
        stream: &TokenStream<i8>,
        cache: &mut Cache<FltrPtr, N>,
    ) -> ParsedResult<TokenPtr, N> {
        let at = stream[index].start;
        self.mon.enter(self.id, M::R, at);
        let r = self.inner.advance_token_ptr(code, index, stream, cache);
        describe(&self.mon, &r);
        self.mon.exit(Ev {
            id: self.id,
            m: M::R,
            at,
            end: r.as_ref().ok().map(|d| stream[d.consumed_index].start),
            invalid: r.as_ref().err().map_or(false, |e| e.is_invalid()),
            tok: stream[index].token,
            advanced: r.as_ref().ok().map_or(false, |d| d.consumed_index > index),
        }, &|| r.as_ref().ok().map(|d| d.children.clone()));
        r
    }
    fn advance_ptr(
        &self,
        code: &Code,
        index: usize,
        cache: &mut Cache<usize, N>,
    ) -> ParsedResult<usize, N> {
        self.mon.enter(self.id, M::B, index);
        let r = self.inner.advance_ptr(code, index, cache);
        describe(&self.mon, &r);
        self.mon.exit(Ev {
            id: self.id,
            m: M::B,
            at: index,
            end: r.as_ref().ok().map(|d| d.consumed_index),
            invalid: r.as_ref().err().map_or(false, |e| e.is_invalid()),
            tok: 0,
            advanced: r.as_ref().ok().map_or(false, |d| d.consumed_index > index),
        }, &|| r.as_ref().ok().map(|d| d.children.clone()));
        r
    }
}

/// The verdict of a validator as a pure function of shape and text; shared by both sides.
/// Distinct keys that agree in their lower bits, or differ in them only.
fn key(k: usize) -> usize {
    match k % 3 {
        0 => k,
        1 => k << 32,
        _ => usize::MAX - k,
    }
}

/// Messages of all kinds: the text itself, with line ends, quotes and braces, long, empty.
fn phrase(k: usize, s: String) -> String {
    match k % 11 {
        0 => format!("{}\nand \"more\" {{}} \\ {{0}}\t", s),
        1 => format!("  {} ", s.repeat(40)),
        2 => String::new(),
        3 => format!("日本語 {}😀", s),
        4 => format!("{}\r\n", s),
        5 => format!("unexpected {}", s),
        6 if k % 3 == 0 => format!("{} é", s.repeat(1 + k % 700)),
        _ => s,
    }
}

pub fn verdict(v: &VKind, spans: &[(usize, usize)], code: &[u8]) -> Result<(), ProductionError> {
    let wide = spans.iter().any(|(s, e)| e > s);
    match v {
        VKind::Accept => Ok(()),
        VKind::UnparsedMod(m, r) => {
            if spans.len() % m == *r {
                Err(ProductionError::Unparsed)
            } else {
                Ok(())
            }
        }
        VKind::ErrLen(l) => {
            if wide {
                let (s, e) = (spans[0].0, spans[spans.len() - 1].1);
                if e.saturating_sub(s) >= *l {
                    return Err(ProductionError::Validation(
                        s,
                        phrase(s + e, format!("too long é {}..{}", s, e)),
                    ));
                }
            }
            Ok(())
        }
        VKind::ErrAt(b, k) => {
            if wide && code.get(spans[0].0) == Some(b) {
                return Err(ProductionError::Validation(
                    code.len() * k / 8,
                    phrase(spans[0].1, format!("see {}/8 for {}", k, b)),
                ));
            }
            Ok(())
        }
        VKind::ErrByte(b) => {
            if wide && code.get(spans[0].0) == Some(b) {
                return Err(ProductionError::Validation(
                    spans[spans.len() - 1].1,
                    phrase(spans[0].0, format!("bad byte {}", b)),
                ));
            }
            Ok(())
        }
    }
}

pub fn spans_hash(spans: &[(usize, usize)]) -> u64 {
    let mut h = 7u64;
    for (s, e) in spans {
        h = crate::rng::mix(h ^ (*s as u64) ^ ((*e as u64) << 32));
    }
    h
}

/// Options for the translation.
#[derive(Clone, Copy, Default)]
pub struct BuildOpt {
    /// Attach log labels of this level everywhere (0: none).
    pub log: u8,
    /// Leave out Memo wrappers.
    pub no_memo: bool,
    /// Use the builder methods (into_list ...) in place of the constructors.
    pub style: bool,
}

pub struct Built {
    pub root: Rc<Probe>,
    pub mon: Rc<Mon>,
    pub by_id: HashMap<u32, Rc<Probe>>,
    pub nts: Vec<Prod>,
}

pub enum Nt {
    Concat(Rc<Concat<N, i8>>),
    Union(Rc<Union<N, i8>>),
    Suf(Rc<Suffixes<Probe>>),
}

pub struct Builder<'g> {
    pub g: &'g Grammar,
    pub mon: Rc<Mon>,
    pub opt: BuildOpt,
    pub nts: Vec<Option<Nt>>,
    pub by_id: HashMap<u32, Rc<Probe>>,
    pub errors: Vec<String>,
}

thread_local! {
    static LABELS: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
}
/// Labels live as long as the process.
pub fn label(s: String) -> &'static str {
    LABELS.with(|l| *l.borrow_mut().entry(s.clone()).or_insert_with(|| Box::leak(s.into_boxed_str()) as &'static str))
}
/// From 100 on each label has its own level.
pub fn own_level(log: u8, s: &str) -> u8 {
    if log < 100 {
        return log;
    }
    1 + (crate::rng::mix(crate::rng::hash(s.as_bytes()) ^ log as u64) % 5) as u8
}

pub fn log_label(level: u8, s: &'static str) -> Option<Log<&'static str>> {
    match own_level(level, s) {
        0 => None,
        1 => Some(Log::None),
        2 => Some(Log::Default(s)),
        3 => Some(Log::Success(s)),
        4 => Some(Log::Result(s)),
        _ => Some(Log::Verbose(s)),
    }
}

impl<'g> Builder<'g> {
    pub fn new(g: &'g Grammar, opt: BuildOpt) -> Self {
        Builder {
            g,
            mon: Rc::new(Mon::default()),
            opt,
            nts: g.nts.iter().map(|_| None).collect(),
            by_id: HashMap::new(),
            errors: Vec::new(),
        }
    }
    fn nt_prod(&self, i: usize) -> Prod {
        match self.nts[i].as_ref().expect("suffixes order") {
            Nt::Concat(c) => c.clone(),
            Nt::Union(c) => c.clone(),
            Nt::Suf(c) => c.clone(),
        }
    }
    pub fn build(mut self) -> Built {
        let g = self.g;
        for (i, nt) in g.nts.iter().enumerate() {
            match nt {
                NT::Concat(_) => {
                    self.nts[i] = Some(Nt::Concat(Rc::new(Concat::init(g.names[i]))));
                }
                NT::Union(_) => {
                    self.nts[i] = Some(Nt::Union(Rc::new(Union::init(g.names[i]))));
                }
                NT::Suf(..) => {}
            }
        }
        // The left side of a suffix form may refer to sequences, choices and suffix forms of higher index only.
        for i in (0..g.nts.len()).rev() {
            if let NT::Suf(l, st, _) = &g.nts[i] {
                let left = self.expr(l);
                let s = if self.opt.style {
                    (*left).clone().into_suffixes::<Probe>(g.names[i], *st)
                } else {
                    Suffixes::init(g.names[i], &left, *st)
                };
                self.nts[i] = Some(Nt::Suf(Rc::new(s)));
            }
        }
        for i in 0..g.nts.len() {
            let lab = log_label(self.opt.log, g.names[i]);
            match &self.nts[i] {
                Some(Nt::Concat(c)) => lab.map(|l| c.set_log(l)),
                Some(Nt::Union(c)) => lab.map(|l| c.set_log(l)),
                Some(Nt::Suf(c)) => lab.map(|l| c.set_log(l)),
                None => None,
            };
            if g.unset[i] {
                continue;
            }
            match &g.nts[i] {
                NT::Concat(v) => {
                    let s: Vec<Prod> = v.iter().map(|x| self.expr(x) as Prod).collect();
                    if let Some(Nt::Concat(c)) = &self.nts[i] {
                        c.set_symbols(s).unwrap();
                    }
                }
                NT::Union(v) => {
                    let s: Vec<Prod> = v.iter().map(|x| self.expr(x) as Prod).collect();
                    if let Some(Nt::Union(c)) = &self.nts[i] {
                        c.set_symbols(s).unwrap();
                    }
                }
                NT::Suf(_, _, v) => {
                    let s: Vec<(Prod, N)> =
                        v.iter().map(|(x, n)| (self.expr(x) as Prod, *n)).collect();
                    if let Some(Nt::Suf(c)) = &self.nts[i] {
                        c.set_suffixes(s).unwrap();
                    }
                }
            }
        }
        let root = self.expr(&g.root);
        let nts = (0..g.nts.len()).map(|i| self.nt_prod(i)).collect();
        Built {
            root,
            mon: self.mon,
            by_id: self.by_id,
            nts,
        }
    }
    fn expr(&mut self, e: &G) -> Rc<Probe> {
        if let Some(p) = self.by_id.get(&e.id) {
            return p.clone();
        }
        let log = log_label(self.opt.log, if self.opt.log < 100 { "log é" } else { label(format!("e{}", e.id)) });
        let rule = self.g.rules.get(&e.id).copied();
        let st = self.opt.style && e.id % 3 != 0;
        macro_rules! lg {
            ($p:expr, $m:ident) => {{
                let p = $p;
                if let Some(l) = log {
                    p.$m(l).unwrap();
                }
                Rc::new(p) as Prod
            }};
        }
        macro_rules! rn {
            ($p:expr, $m:ident) => {{
                let p = $p;
                if let Some(r) = rule {
                    p.set_rule_name(r).unwrap();
                }
                lg!(p, $m)
            }};
        }
        fn refs(v: &[(String, Option<N>)]) -> Vec<(&str, Option<N>)> {
            v.iter().map(|(s, n)| (s.as_str(), *n)).collect()
        }
        let inner: Prod = match &e.k {
            K::Tok(t, n) => lg!(TokenField::new(*t, *n), set_log),
            K::TokSet(v) => {
                let first = v.first().map(|x| x.1);
                if v.len() > 1 && e.id % 2 == 0 && v.iter().all(|x| Some(x.1) == first) {
                    lg!(
                        TokenFieldSet::with_value(v[0].1, v.iter().map(|x| x.0).collect()),
                        assign_debugger
                    )
                } else {
                    lg!(TokenFieldSet::new(v.clone()), assign_debugger)
                }
            }
            K::Const(s, n) => lg!(ConstantField::new(s, *n), assign_debugger),
            K::ConstSet(v) => lg!(ConstantFieldSet::new(refs(v)), assign_debugger),
            K::Punct(v) => lg!(PunctuationsField::new(refs(v)).unwrap(), assign_debugger),
            K::Regex(s, n) => lg!(RegexField::new(s, *n).unwrap(), assign_debugger),
            K::Null(h) => lg!(
                if *h { NullProd::hidden() } else { NullProd::new() },
                set_log
            ),
            K::Eof(n) => lg!(EOFProd::new(*n), assign_debugger),
            K::List(p) => {
                let p = self.expr(p);
                lg!(
                    if st { (*p).clone().into_list() } else { List::new(&p) },
                    assign_debugger
                )
            }
            K::Sep(p, s, i) => {
                let p = self.expr(p);
                let s = self.expr(s);
                rn!(
                    if st {
                        (*p).clone().into_separated_list(&s, *i)
                    } else {
                        SeparatedList::new(&p, &s, *i)
                    },
                    assign_debugger
                )
            }
            K::Opt(p, h) => {
                let p = self.expr(p);
                lg!(
                    match (*h, st) {
                        (true, false) => Nullable::hidden(&p),
                        (false, false) => Nullable::new(&p),
                        (true, true) => (*p).clone().into_null_hidden(),
                        (false, true) => (*p).clone().into_nullable(),
                    },
                    set_log
                )
            }
            K::Node(p, n) => {
                let p = self.expr(p);
                rn!(
                    if st { (*p).clone().into_node(*n) } else { Node::new(&p, *n) },
                    set_log
                )
            }
            K::Hidden(p) => {
                let p = self.expr(p);
                rn!(
                    match (st, e.id % 2) {
                        (true, _) => (*p).clone().into_hidden(),
                        (_, 0) => Hidden::new(&p),
                        _ => Hidden::hidden(&p),
                    },
                    set_log
                )
            }
            K::Valid(p, v) => {
                let p = self.expr(p);
                let v = v.clone();
                let mon = self.mon.clone();
                let id = e.id;
                let f = move |c: &Vec<ASTNode<N>>, code: &[u8]| {
                    let spans: Vec<(usize, usize)> = c.iter().map(|n| (n.start, n.end)).collect();
                    if mon.record.get() {
                        mon.validator_calls.borrow_mut().push((
                            id,
                            code.len(),
                            spans_hash(&spans),
                        ));
                    }
                    verdict(&v, &spans, code)
                };
                lg!(
                    if st {
                        (*p).clone().validate_with(f)
                    } else {
                        Validator::new(&p, f)
                    },
                    assign_debugger
                )
            }
            K::Look(p, n) => {
                let p = self.expr(p);
                lg!(
                    if st {
                        (*p).clone().into_lookahead(*n)
                    } else {
                        Lookahead::new(&p, *n)
                    },
                    assign_debugger
                )
            }
            K::NonStr(p, f) => lg!(NonStructural::new(&self.expr(p), *f), set_log),
            K::Struc(p) => lg!(Structural::new(&self.expr(p)), set_log),
            K::Memo(k, p) => {
                let p = self.expr(p);
                if self.opt.no_memo {
                    p
                } else {
                    lg!(Cacheable::new(CacheKey::verif_new(key(*k)), &p), assign_debugger)
                }
            }
            K::Ref(i) => self.nt_prod(*i),
        };
        let p = Rc::new(Probe {
            id: e.id,
            inner,
            mon: self.mon.clone(),
        });
        self.by_id.insert(e.id, p.clone());
        p
    }
}
