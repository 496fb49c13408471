//! The system under test: parsers built from descriptions, and guarded calls into them.
use crate::ctx::PANIC;
use crate::gen::Mode;
use crate::gram::*;
use crate::lexg::*;
use crate::refi::*;
use crate::rng::hash;
use lang_pt::{
    ASTNode, Code, DefaultParser, IProduction, Lex, LexerlessParser, ParseError, TokenPtr,
    TokenStream,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok(Vec<ASTNode<N>>),
    Err(usize, String),
    Panic(String),
}
impl Out {
    pub fn from(r: Result<Result<Vec<ASTNode<N>>, ParseError>, String>) -> Out {
        match r {
            Ok(Ok(t)) => Out::Ok(t),
            Ok(Err(e)) => Out::Err(e.pointer, e.message),
            Err(p) => Out::Panic(p),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(t) => format!("accepted {}", show_a(t)),
            Out::Err(p, m) => format!("error at {}: {:?}", p, m),
            Out::Panic(p) => format!("panic {}", p),
        }
    }
    /// Same tree or same error with message.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => eq_list(a, b),
            (Out::Err(p, m), Out::Err(q, n)) => p == q && m == n,
            _ => false,
        }
    }
    pub fn digest(&self) -> u64 {
        match self {
            Out::Ok(t) => hash(show_a(t).as_bytes()),
            // Messages name the token kind in debug builds.
            Out::Err(p, _) => hash(format!("E{}", p).as_bytes()),
            Out::Panic(_) => 3,
        }
    }
}
pub fn eq_list(a: &[ASTNode<N>], b: &[ASTNode<N>]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| {
            a.node == b.node
                && a.start == b.start
                && a.end == b.end
                && a.bound == b.bound
                && eq_list(&a.children, &b.children)
        })
}

pub struct Sys {
    pub built: Built,
    pub tok: Option<DefaultParser<N, i8>>,
    pub less: Option<LexerlessParser<N, i8>>,
    pub lex: Option<BuiltLex>,
}

/// A text as part of a larger buffer. What lies around it must not matter and changes from call to call.
pub struct Amid {
    buf: Vec<u8>,
    from: usize,
    to: usize,
}
impl std::ops::Deref for Amid {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.buf[self.from..self.to]
    }
}
const AROUND: [&[u8]; 9] = [b"", b"\n", b"a", b"\"}", b"\0\0\0", b"1 )]", b"\x80\xbf", b" \r\n,", b"*/ x"];
pub fn amid(text: &[u8]) -> Amid {
    thread_local! {
        static CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0);
    }
    // With memory checkers nothing lies around it.
    let n = if cfg!(any(vh_exact, miri)) {
        0
    } else {
        CALLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        })
    };
    let (a, b) = (AROUND[n / 9 % 9], AROUND[n % 9]);
    let mut buf = Vec::with_capacity(a.len() + text.len() + b.len());
    buf.extend_from_slice(a);
    buf.extend_from_slice(text);
    buf.extend_from_slice(b);
    Amid { from: a.len(), to: a.len() + text.len(), buf }
}

pub const HUGE: u64 = u64::MAX / 4;
pub const DEEP: u64 = 60_000;

impl Sys {
    pub fn new(g: &Grammar, lexers: Option<&Lexers>, opt: BuildOpt) -> Result<Sys, String> {
        let r = guard(|| {
            let built = Builder::new(g, opt).build();
            built.mon.reset(HUGE, DEEP, false);
            match lexers {
                Some(l) => {
                    let lex = l.build(opt.log, opt.style);
                    let p = DefaultParser::new(lex.tok.clone(), built.root.clone())
                        .map_err(|e| e.to_string())?;
                    Ok(Sys {
                        built,
                        tok: Some(p),
                        less: None,
                        lex: Some(lex),
                    })
                }
                None => {
                    let p = LexerlessParser::new(built.root.clone()).map_err(|e| e.to_string())?;
                    Ok(Sys {
                        built,
                        tok: None,
                        less: Some(p),
                        lex: None,
                    })
                }
            }
        });
        match r {
            Ok(x) => x,
            Err(p) => Err(format!("panic {}", p)),
        }
    }
    pub fn parse(&self, text: &[u8], limit: u64, record: bool) -> Out {
        self.built.mon.reset(limit, DEEP, record);
        let text = &amid(text)[..];
        Out::from(guard(|| match (&self.tok, &self.less) {
            (Some(p), _) => p.parse(text),
            (_, Some(p)) => p.parse(text),
            _ => unreachable!(),
        }))
    }
    pub fn tokens(&self, text: &[u8]) -> Result<Vec<Lex<i8>>, usize> {
        match self.tok.as_ref().unwrap().tokenize(&Code::new(&amid(text))) {
            Ok(t) => Ok(t),
            Err(e) => Err(e.pointer),
        }
    }
    pub fn grammar(&self) -> Result<Result<String, std::fmt::Error>, String> {
        guard(|| match (&self.tok, &self.less) {
            (Some(p), _) => p.grammar(),
            (_, Some(p)) => p.grammar(),
            _ => unreachable!(),
        })
    }
    pub fn parse_stream(&self, text: &[u8], toks: &Vec<Lex<i8>>, limit: u64) -> Out {
        self.parse_chosen(text, toks, None, limit)
    }
    /// Parses a stream whose structural tokens are the chosen ones.
    pub fn parse_chosen(&self, text: &[u8], toks: &Vec<Lex<i8>>, chosen: Option<&[usize]>, limit: u64) -> Out {
        self.built.mon.reset(limit, DEEP, false);
        let text = &amid(text)[..];
        let stream = match chosen {
            Some(v) => TokenStream::new(toks, v.iter().map(|i| TokenPtr::from(*i)).collect()),
            None => TokenStream::from(toks),
        };
        Out::from(guard(|| self.tok.as_ref().unwrap().parse_stream(&Code::new(text), stream)))
    }
}

pub fn refused(p: &dyn IProduction<Node = N, Token = i8>) -> bool {
    p.validate(Default::default(), &mut Default::default()).is_err()
}

/// Outcome by the reference.
#[derive(Clone, Debug)]
pub enum Want {
    Ok(Vec<T>),
    /// Rejected by the tokenizer.
    Lex(usize),
    /// Rejected by the grammar; position by the furthest failure rule.
    Unparsed(usize),
    Invalid(usize, String),
    Budget,
}
impl Want {
    pub fn show(&self) -> String {
        match self {
            Want::Ok(t) => format!("accepted {}", show_t(t)),
            w => format!("{:?}", w),
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            Want::Ok(_) => "accepted",
            Want::Lex(_) => "rejected by the tokenizer",
            Want::Unparsed(_) => "rejected by the grammar",
            Want::Invalid(..) => "validation error",
            Want::Budget => "over the reference budget",
        }
    }
}
pub struct Reference {
    pub want: Want,
    pub steps: u64,
    pub depth: u64,
    pub far: usize,
    pub toks: Vec<Tok>,
    pub attempts: std::collections::HashMap<(u32, M, usize), u32>,
    pub validator_calls: Vec<(u32, usize, u64)>,
}

pub fn reference(
    g: &Grammar,
    lexers: Option<&Lexers>,
    text: &[u8],
    limit: u64,
    record: bool,
) -> Reference {
    let toks = match lexers {
        Some(l) => match tokenize(l, text).result {
            Ok(t) => t,
            Err(p) => {
                return Reference {
                    want: Want::Lex(p),
                    steps: 0,
                    depth: 0,
                    far: 0,
                    toks: vec![],
                    attempts: Default::default(),
                    validator_calls: vec![],
                }
            }
        },
        None => vec![],
    };
    let m = if lexers.is_some() { M::F } else { M::B };
    reference_on(g, m, text, toks, None, limit, record)
}

/// The reference over given tokens, of which `chosen` make the structural stream if given.
pub fn reference_on(
    g: &Grammar,
    m: M,
    text: &[u8],
    toks: Vec<Tok>,
    chosen: Option<&[usize]>,
    limit: u64,
    record: bool,
) -> Reference {
    let mut r = Ref::new(g, text, &toks, limit);
    r.record = record;
    if let Some(v) = chosen {
        r.flt = v.to_vec();
    }
    let flt = r.flt.clone();
    let res = r.ev(&g.root, m, 0);
    let want = match res {
        Ok((_, t)) => Want::Ok(t),
        Err(Fail::Budget) => Want::Budget,
        Err(Fail::Invalid(p, s)) => Want::Invalid(p, s),
        Err(Fail::Unparsed) => Want::Unparsed(match m {
            M::B => r.far,
            _ => flt
                .iter()
                .map(|i| toks[*i].s)
                .find(|s| *s >= r.far)
                .unwrap_or(text.len()),
        }),
    };
    let (steps, depth, far) = (r.steps, r.max_depth, r.far);
    let (attempts, validator_calls) = (
        std::mem::take(&mut r.attempts),
        std::mem::take(&mut r.validator_calls),
    );
    drop(r);
    Reference {
        want,
        steps,
        depth,
        far,
        toks,
        attempts,
        validator_calls,
    }
}

/// What one expression does at an offset: from the first structural token at or behind it.
pub fn reference_at(cs: &Case, text: &[u8], e: &G, at: usize, limit: u64) -> Want {
    let toks = match &cs.lexers {
        Some(l) => match tokenize(l, text).result {
            Ok(t) => t,
            Err(p) => return Want::Lex(p),
        },
        None => vec![],
    };
    let mut r = Ref::new(&cs.g, text, &toks, limit);
    r.far = at;
    let (m, p) = match cs.lexers {
        Some(_) => match r.flt.iter().position(|i| toks[*i].s >= at) {
            Some(i) => (M::F, i),
            None => return Want::Budget,
        },
        None => (M::B, at),
    };
    match r.ev(e, m, p) {
        Ok((_, t)) => Want::Ok(t),
        Err(Fail::Budget) => Want::Budget,
        Err(Fail::Invalid(p, s)) => Want::Invalid(p, s),
        Err(Fail::Unparsed) => Want::Unparsed(match m {
            M::B => r.far,
            _ => toks.iter().find(|t| t.t >= 0 && t.s >= r.far).map_or(text.len(), |t| t.s),
        }),
    }
}

/// One parsing case.
pub struct Case {
    pub g: Grammar,
    pub lexers: Option<Lexers>,
    pub mode: Mode,
}
impl Case {
    pub fn show(&self, text: &[u8]) -> String {
        format!(
            "{}\n{}input: {}",
            self.g.show(),
            self.lexers
                .as_ref()
                .map_or(String::new(), |l| format!("{}\n", l.show())),
            crate::ctx::text(text)
        )
    }
    pub fn key(&self, text: &[u8]) -> u64 {
        hash(self.g.show().as_bytes()) ^ hash(text).rotate_left(17)
    }
}

pub fn nodes(t: &[T]) -> u64 {
    t.iter().map(|t| 1 + nodes(&t.c)).sum()
}
pub fn anodes(t: &[ASTNode<N>]) -> u64 {
    t.iter().map(|t| 1 + anodes(&t.children)).sum()
}
