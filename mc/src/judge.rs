//! What each property says about one case: the code under test is run on it,
//! the reference model (or the code itself on a related text) says what the
//! result has to be, and only the aspect the property speaks about is compared.

use crate::imp::{causes, kind};
use crate::model_parse::{self, Mode};
use crate::model_resolve::Session;
use crate::model_scan::{self, K, Scan};
use crate::node::*;
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use whitespace::ast::{Expr, ResolvedCode, Stmt};
use whitespace::error::ParseError;
use whitespace::resolver::Resolver;
use whitespace::scanner::Scanner;
use whitespace::token::Token;
use whitespace::{parser, resolver};

thread_local! {
    static IN_CODE: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        if !IN_CODE.get() {
            eprintln!("harness panic: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs the code under test; a panic inside is the code's fault.
pub fn code<X>(f: impl FnOnce() -> X) -> X {
    IN_CODE.set(true);
    let r = f();
    IN_CODE.set(false);
    r
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Violation(String),
    Harness(String),
}
pub type V = Result<(), Bad>;

fn bad<X>(s: String) -> Result<X, Bad> {
    Err(Bad::Violation(s))
}

/// Counters a judgement adds to.
#[derive(Default, Clone)]
pub struct Cx {
    pub accepted: u64,
    pub rejected: u64,
    pub compared: u64,
    a: Vec<u8>,
    b: Vec<u8>,
}

pub const SEP: char = '\u{1}';

pub fn judge(prop: u32, text: &str, cx: &mut Cx) -> V {
    let r = catch_unwind(AssertUnwindSafe(|| judge_in(prop, text, cx)));
    match r {
        Ok(v) => v,
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            if IN_CODE.get() {
                IN_CODE.set(false);
                bad(format!("the code panicked: {msg}"))
            } else {
                Err(Bad::Harness(msg))
            }
        }
    }
}

fn judge_in(prop: u32, text: &str, cx: &mut Cx) -> V {
    match prop {
        1 => total(text, cx),
        2 => lexing(text, cx),
        3 => literals(text, cx),
        4 => layout(text, cx, true),
        5 => layout(text, cx, false),
        6 => trivia(text, cx),
        7 => positions(text, cx),
        8..=12 => tree(prop, text, cx),
        13 => acceptance(text, cx),
        14 => jumps(text, cx),
        15..=17 => bindings(prop, text, cx),
        18 => all_errors(text, cx),
        19 if text.starts_with(crate::cli::SESSION) => crate::cli::judge(text, cx),
        19 => session(text, cx),
        20 => modes(text, cx),
        21 => crate::cli::judge(text, cx),
        22 => crate::wasm::judge(text, cx),
        23 => crate::pure::judge(text, cx),
        24 => crate::wasm::judge_page(text, cx),
        25 => crate::fault::judge(text, cx),
        _ => Err(Bad::Harness(format!("no judgement for C{prop:02}"))),
    }
}

// ---- running the code ---------------------------------------------------

/// Scans with the real scanner and hands the result to `f`.
fn real_scan<X>(text: &str, f: impl FnOnce(Result<&[Token], &ParseError>) -> X) -> X {
    let mut s = code(|| Scanner::new(text));
    let r = code(|| s.scan_tokens());
    match &r {
        Ok(t) => f(Ok(t)),
        Err(e) => f(Err(e)),
    }
}
fn real_parse(text: &str) -> Result<Vec<Stmt>, ParseError> {
    code(|| parser::parse(text))
}
fn real_repl(text: &str) -> Result<Vec<Stmt>, ParseError> {
    code(|| parser::parse_repl_line(text))
}
fn real_expr(text: &str) -> Result<Expr, ParseError> {
    code(|| parser::parse_expression(text))
}
/// The text as a file, were there a line end after its last token.
fn real_ended(text: &str) -> Result<Vec<Stmt>, ParseError> {
    let mut s = code(|| Scanner::new(text));
    let mut tokens = code(|| s.scan_tokens())?;
    if let Some(t) = tokens.last_mut() {
        let eof = t.clone();
        t.token_type = whitespace::token::TokenType::Terminator;
        tokens.push(eof);
    }
    code(|| parser::Parser::new(tokens).parse())
}
fn real_run(text: &str) -> Result<ResolvedCode, ParseError> {
    code(|| parser::parse(text).and_then(resolver::resolve))
}

fn ser_stmts(v: &[Stmt], flags: u32, out: &mut Vec<u8>) {
    out.clear();
    Ser { flags, out }.program(v);
}
fn ser_node(n: &Node, flags: u32, out: &mut Vec<u8>) {
    out.clear();
    n.ser(flags, out);
}

// ---- running the model --------------------------------------------------

pub enum Stage {
    Scan,
    Parse,
    Resolve,
}

pub fn model_parse_text(text: &str, mode: Mode) -> Result<Node, (Stage, Vec<MErr>)> {
    let s = model_scan::scan(text);
    if !s.errs.is_empty() {
        return Err((Stage::Scan, s.errs));
    }
    model_parse::parse(text, &s.toks, mode).map_err(|e| (Stage::Parse, e))
}

pub fn model_run(text: &str) -> Result<Node, (Stage, Vec<MErr>)> {
    let mut n = model_parse_text(text, Mode::File)?;
    match Session::new().resolve(&mut n) {
        Ok(()) => Ok(n),
        Err(e) => Err((Stage::Resolve, e)),
    }
}

fn tally<A, B>(cx: &mut Cx, m: &Result<A, B>) {
    match m {
        Ok(_) => cx.accepted += 1,
        Err(_) => cx.rejected += 1,
    }
}

fn show(e: &[MErr]) -> String {
    e.iter()
        .map(|e| format!("{}:{} {:?} {}", e.line, e.col, e.token, e.msg))
        .collect::<Vec<_>>()
        .join("; ")
}
fn show_real(e: &ParseError) -> String {
    show(&causes(e))
}

fn too_strict<X>(e: &ParseError) -> Result<X, Bad> {
    bad(format!("rejected, but it is a program: {}", show_real(e)))
}
fn too_lax<X>(e: &[MErr]) -> Result<X, Bad> {
    bad(format!("accepted, but expected the errors {}", show(e)))
}

// ---- C01 ----------------------------------------------------------------

/// The processor time of this thread, in seconds.
fn thread_time() -> f64 {
    unsafe extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// What a text of no more than 64 KiB may take, in seconds of processor time:
/// some thousand times of what such texts take.
const PROMPT: f64 = 8.0;

fn total(text: &str, cx: &mut Cx) -> V {
    let t0 = thread_time();
    verdicts(text, cx)?;
    let t = thread_time() - t0;
    if text.len() <= 1 << 16 && t > PROMPT {
        return bad(format!("the analysis takes {t:.1} s of processor time for {} bytes", text.len()));
    }
    Ok(())
}

fn verdicts(text: &str, cx: &mut Cx) -> V {
    fn check<X>(what: &str, r: &Result<X, ParseError>) -> V {
        match r {
            Err(e) if e.causes.is_empty() => bad(format!("{what}: rejected without any error")),
            _ => Ok(()),
        }
    }
    let file = real_parse(text);
    tally(cx, &file);
    check("file", &file)?;
    let resolved = file.and_then(|s| code(|| resolver::resolve(s)));
    check("resolve", &resolved)?;
    drop(resolved);
    let repl = real_repl(text);
    check("REPL line", &repl)?;
    let resolved = repl.and_then(|s| code(|| resolver::resolve(s)));
    check("resolve REPL line", &resolved)?;
    check("expression", &real_expr(text))
}

// ---- C02 ----------------------------------------------------------------

fn is_layout(k: K) -> bool {
    matches!(k, K::Indent | K::Outdent | K::Terminator | K::Eof)
}

fn lexing(text: &str, cx: &mut Cx) -> V {
    let m = model_scan::scan(text);
    real_scan(text, |r| {
        match r {
            Ok(real) => {
                cx.accepted += 1;
                if !m.errs.is_empty() {
                    return too_lax(&m.errs);
                }
                let base = text.as_ptr() as usize;
                let mut at = 0;
                let mut mi = m.toks.iter().filter(|t| !is_layout(t.k));
                for t in real {
                    let k = kind(t.token_type);
                    if is_layout(k) {
                        continue;
                    }
                    let start = (t.lexeme.as_ptr() as usize).wrapping_sub(base);
                    let end = start.wrapping_add(t.lexeme.len());
                    if start < at || end > text.len() || start >= end {
                        return bad(format!(
                            "token {:?} overlaps the one before it or lies \
                             outside of the text",
                            t.lexeme
                        ));
                    }
                    if !only_trivia(&text[at..start]) {
                        return bad(format!("{:?} belongs to no token", &text[at..start]));
                    }
                    at = end;
                    match mi.next() {
                        Some(x)
                            if x.k == k && x.start as usize == start && x.end as usize == end => {}
                        Some(x) => {
                            return bad(format!(
                                "token {k:?} {:?}, expected {:?} {:?}",
                                t.lexeme,
                                x.k,
                                &text[x.start as usize..x.end as usize]
                            ));
                        }
                        None => {
                            return bad(format!("token {k:?} {:?} too many", t.lexeme));
                        }
                    }
                }
                if let Some(x) = mi.next() {
                    return bad(format!("token {:?} at {} is missing", x.k, x.start));
                }
                if !only_trivia(&text[at..]) {
                    return bad(format!("{:?} belongs to no token", &text[at..]));
                }
                if real.last().map(|t| kind(t.token_type)) != Some(K::Eof) {
                    return bad("no end-of-file token".to_owned());
                }
            }
            Err(e) => {
                cx.rejected += 1;
                if m.errs.is_empty() {
                    return too_strict(e);
                }
                if e.causes.len() != m.errs.len() {
                    return bad(format!(
                        "errors {}; expected {}",
                        show_real(e),
                        show(&m.errs)
                    ));
                }
            }
        }
        cx.compared += 1;
        Ok(())
    })
}

/// Spaces, line breaks, comments and line continuations only.
fn only_trivia(s: &str) -> bool {
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            ' ' | '\r' | '\n' => rest = &rest[1..],
            '/' if rest.starts_with("//") => {
                let n = rest.find('\n').unwrap_or(rest.len());
                rest = &rest[n..];
            }
            '\\' => {
                let t = rest[1..].trim_start_matches(' ');
                // One optional carriage return, or CR LF, or both.
                let t = t.strip_prefix('\r').unwrap_or(t);
                let t = t.strip_prefix('\r').unwrap_or(t);
                match t.strip_prefix('\n') {
                    Some(t) => rest = t,
                    None => return false,
                }
            }
            _ => return false,
        }
    }
    true
}

// ---- C03 ----------------------------------------------------------------

fn literals(text: &str, cx: &mut Cx) -> V {
    let m = model_scan::scan(text);
    if !m.errs.is_empty() {
        cx.rejected += 1;
        // The code has to survive it; other properties judge the rejection.
        let _ = real_parse(text);
        return Ok(());
    }
    real_scan(text, |r| match r {
        Err(e) => too_strict(e),
        Ok(real) => {
            let want = m
                .toks
                .iter()
                .filter(|t| matches!(t.k, K::Str | K::Num | K::Ident));
            let got = real
                .iter()
                .filter(|t| matches!(kind(t.token_type), K::Str | K::Num | K::Ident));
            let mut got = got.peekable();
            for w in want {
                let Some(g) = got.next() else {
                    return bad("a literal is missing".to_owned());
                };
                let lit = w.lit.map(|(a, b)| &text[a as usize..b as usize]);
                let lexeme = &text[w.start as usize..w.end as usize];
                if g.lexeme != lexeme
                    || g.string_literal != lit
                    || g.float_literal.map(f64::to_bits) != w.num.map(f64::to_bits)
                {
                    return bad(format!(
                        "literal {:?} {:?} {:?}, expected {:?} {:?} {:?}",
                        g.lexeme, g.string_literal, g.float_literal, lexeme, lit, w.num
                    ));
                }
            }
            if got.next().is_some() {
                return bad("a literal too many".to_owned());
            }
            cx.compared += 1;
            Ok(())
        }
    })?;
    let want = model_parse::parse(text, &m.toks, Mode::File);
    tally(cx, &want);
    compare_tree(text, want, LIT, false, cx)
}

/// Parses as a file and compares the tree's aspects `flags`.
fn compare_tree(
    text: &str,
    want: Result<Node, Vec<MErr>>,
    flags: u32,
    judge_rejected: bool,
    cx: &mut Cx,
) -> V {
    let got = real_parse(text);
    compare_result(got, want, flags, judge_rejected, cx)
}

fn compare_result(
    got: Result<Vec<Stmt>, ParseError>,
    want: Result<Node, Vec<MErr>>,
    flags: u32,
    judge_rejected: bool,
    cx: &mut Cx,
) -> V {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ser_stmts(&g, flags, &mut cx.a);
            ser_node(&w, flags, &mut cx.b);
            cx.compared += 1;
            if cx.a != cx.b {
                return bad(format!("tree {g:?}, expected {}", w.pretty()));
            }
            resolved_alike(g, flags, cx)
        }
        (Err(e), Ok(_)) => too_strict(&e),
        (Ok(_), Err(e)) if judge_rejected => too_lax(&e),
        (Err(_), Err(_)) => {
            cx.compared += 1;
            Ok(())
        }
        _ => Ok(()),
    }
}

/// What the tree says (in cx.b) is still what it says when it is resolved.
fn resolved_alike(g: Vec<Stmt>, flags: u32, cx: &mut Cx) -> V {
    if let Ok(r) = code(|| resolver::resolve(g)) {
        ser_stmts(&r.statements, flags, &mut cx.a);
        if cx.a != cx.b {
            return bad(format!(
                "the resolved tree is {:?}, the parsed one was different",
                r.statements
            ));
        }
    }
    Ok(())
}

// ---- C04, C05 -----------------------------------------------------------

fn layout(text: &str, cx: &mut Cx, blocks: bool) -> V {
    let m = model_scan::scan(text);
    let class = |k: K| match k {
        K::Indent => Some(b'>'),
        K::Outdent => Some(b'<'),
        K::Terminator if !blocks => Some(b';'),
        K::Terminator => None,
        K::Eof => Some(b'$'),
        _ => Some(b'x'),
    };
    let accepted = real_scan(text, |r| match r {
        Ok(real) => {
            if !m.errs.is_empty() {
                return too_lax(&m.errs);
            }
            let got = real.iter().filter_map(|t| class(kind(t.token_type)));
            let want = m.toks.iter().filter_map(|t| class(t.k));
            if !got.clone().eq(want.clone()) {
                let s = |v: Vec<u8>| String::from_utf8(v).unwrap();
                return bad(format!(
                    "layout {}, expected {}",
                    s(got.collect()),
                    s(want.collect())
                ));
            }
            let mut depth = 0i32;
            for c in real.iter().filter_map(|t| class(kind(t.token_type))) {
                depth += (c == b'>') as i32 - (c == b'<') as i32;
                if depth < 0 {
                    return bad("closes more blocks than are open".to_owned());
                }
            }
            if depth != 0 {
                return bad("leaves blocks open".to_owned());
            }
            Ok(true)
        }
        Err(e) => {
            if m.errs.is_empty() {
                return too_strict(e);
            }
            Ok(false)
        }
    })?;
    cx.compared += 1;
    if !accepted {
        cx.rejected += 1;
        return Ok(());
    }
    cx.accepted += 1;
    let want = model_parse::parse(text, &m.toks, Mode::File);
    compare_tree(text, want, SHAPE, false, cx)
}

// ---- C06 ----------------------------------------------------------------

/// A verdict without positions and without the way line breaks are written.
#[derive(PartialEq)]
enum Meaning {
    Tree(Vec<u8>),
    Errors(Vec<(Option<String>, String)>),
}

fn meaning(text: &str) -> (Meaning, String) {
    match real_run(text) {
        Ok(c) => {
            let mut out = vec![];
            ser_stmts(&c.statements, ALL & !LOC, &mut out);
            (Meaning::Tree(out), format!("{:?}", c.statements))
        }
        Err(e) => {
            let v = e
                .causes
                .iter()
                .map(|c| {
                    (
                        c.token
                            .as_ref()
                            .map(|t| if t == "\r\n" { "\n" } else { t }.to_owned()),
                        c.message.clone(),
                    )
                })
                .collect();
            (Meaning::Errors(v), show_real(&e))
        }
    }
}

/// base SEP edited: both must mean the same.
fn trivia(text: &str, cx: &mut Cx) -> V {
    let Some((a, b)) = text.split_once(SEP) else {
        return Err(Bad::Harness("no pair".to_owned()));
    };
    let (ma, sa) = meaning(a);
    let (mb, sb) = meaning(b);
    match ma {
        Meaning::Tree(_) => cx.accepted += 1,
        _ => cx.rejected += 1,
    }
    cx.compared += 1;
    if ma != mb {
        return bad(format!("{a:?} means {sa}, but {b:?} means {sb}"));
    }
    Ok(())
}

// ---- C07 ----------------------------------------------------------------

fn positions(text: &str, cx: &mut Cx) -> V {
    let m = model_scan::scan(text);
    if m.errs.is_empty() {
        let same = real_scan(text, |r| match r {
            // Another property's business.
            Err(_) => Ok(()),
            Ok(real) => {
                for (g, w) in real.iter().zip(&m.toks) {
                    if kind(g.token_type) != w.k {
                        break;
                    }
                    if (g.line, g.column) != (w.line, w.col) {
                        return bad(format!(
                            "token {:?} at {}:{}, expected {}:{}",
                            g.lexeme, g.line, g.column, w.line, w.col
                        ));
                    }
                }
                Ok(())
            }
        });
        same?;
    }
    // As a file.
    let want = model_run(text).map_err(|(_, e)| e);
    tally(cx, &want);
    match (real_run(text), want) {
        (Ok(g), Ok(w)) => {
            ser_stmts(&g.statements, LOC, &mut cx.a);
            ser_node(&w, LOC, &mut cx.b);
            cx.compared += 1;
            if cx.a != cx.b {
                return bad(format!(
                    "positions in {:?}, expected {}",
                    g.statements,
                    w.pretty()
                ));
            }
        }
        (Err(g), Err(w)) => {
            let g = causes(&g);
            cx.compared += 1;
            let differ = if g.len() == w.len() {
                g.iter()
                    .zip(&w)
                    .any(|(a, b)| (a.line, a.col) != (b.line, b.col))
            } else {
                // Another property's business, but the first error counts.
                g.first().map(|e| (e.line, e.col)) != w.first().map(|e| (e.line, e.col))
            };
            if differ {
                return bad(format!("errors at {}; expected {}", show(&g), show(&w)));
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- C08 .. C12 ---------------------------------------------------------

fn tree(prop: u32, text: &str, cx: &mut Cx) -> V {
    let flags = match prop {
        12 => SHAPE | LIT | KIND,
        _ => SHAPE | LIT,
    };
    let want = model_parse_text(text, Mode::File).map_err(|(_, e)| e);
    tally(cx, &want);
    compare_tree(text, want, flags, true, cx)
}

// ---- C13 ----------------------------------------------------------------

fn acceptance(text: &str, cx: &mut Cx) -> V {
    let want = model_parse_text(text, Mode::File).map_err(|(_, e)| e);
    tally(cx, &want);
    cx.compared += 1;
    match (real_parse(text), want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(e), Ok(_)) => too_strict(&e),
        (Ok(_), Err(w)) => too_lax(&w),
        (Err(g), Err(w)) => {
            let g = causes(&g);
            let key = |e: &MErr| (e.line, e.col, e.token.clone());
            if g.first().map(key) != w.first().map(key) {
                return bad(format!(
                    "first error {}; expected {}",
                    show(&g[..g.len().min(1)]),
                    show(&w[..1])
                ));
            }
            Ok(())
        }
    }
}

// ---- C14 ----------------------------------------------------------------

fn jumps(text: &str, cx: &mut Cx) -> V {
    let want = model_parse_text(text, Mode::File).map_err(|(_, e)| e);
    tally(cx, &want);
    cx.compared += 1;
    let about = |e: &[MErr]| -> Vec<(u32, u16, Option<String>)> {
        e.iter()
            .filter(|e| matches!(e.token.as_deref(), Some("break") | Some("continue")))
            .map(|e| (e.line, e.col, e.token.clone()))
            .collect()
    };
    match (real_parse(text), want) {
        (Ok(g), Ok(w)) => {
            ser_stmts(&g, SHAPE, &mut cx.a);
            ser_node(&w, SHAPE, &mut cx.b);
            if cx.a != cx.b {
                return bad(format!("tree {g:?}, expected {}", w.pretty()));
            }
            resolved_alike(g, SHAPE, cx)
        }
        (Err(e), Ok(_)) => too_strict(&e),
        (Ok(_), Err(w)) => too_lax(&w),
        (Err(g), Err(w)) => {
            let g = causes(&g);
            if about(&g) != about(&w) {
                return bad(format!("errors {}; expected {}", show(&g), show(&w)));
            }
            Ok(())
        }
    }
}

// ---- C15 .. C17 ---------------------------------------------------------

fn bindings(prop: u32, text: &str, cx: &mut Cx) -> V {
    let mut n = match model_parse_text(text, Mode::File) {
        Ok(n) => n,
        Err(_) => {
            cx.rejected += 1;
            let _ = real_run(text);
            return Ok(());
        }
    };
    let want = Session::new().resolve(&mut n);
    tally(cx, &want);
    let got = match real_parse(text) {
        // Not parsed: nothing was resolved; other properties' business,
        // unless the model says the program is resolvable.
        Err(e) => return too_strict(&e),
        Ok(s) => code(|| resolver::resolve(s)),
    };
    cx.compared += 1;
    match (got, want) {
        (Ok(g), Ok(())) => {
            if prop == 17 {
                return Ok(());
            }
            let flags = RES | SHAPE;
            ser_stmts(&g.statements, flags, &mut cx.a);
            ser_node(&n, flags, &mut cx.b);
            if cx.a != cx.b {
                return bad(format!(
                    "bindings {:?}, expected {}",
                    g.statements,
                    n.pretty()
                ));
            }
            Ok(())
        }
        (Err(e), Ok(())) => too_strict(&e),
        (Ok(_), Err(e)) if prop != 15 => too_lax(&e),
        (Err(g), Err(w)) if prop == 17 => {
            let g = causes(&g);
            if g != w {
                return bad(format!("errors {}; expected {}", show(&g), show(&w)));
            }
            Ok(())
        }
        (Err(g), Err(w)) if prop == 16 => {
            let full = |v: &[MErr]| -> Vec<(u32, u16, Option<String>)> {
                v.iter()
                    .filter(|e| e.msg.starts_with("Too many"))
                    .map(|e| (e.line, e.col, e.token.clone()))
                    .collect()
            };
            let g = causes(&g);
            if full(&g) != full(&w) {
                return bad(format!("errors {}; expected {}", show(&g), show(&w)));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

// ---- C18 ----------------------------------------------------------------

fn all_errors(text: &str, cx: &mut Cx) -> V {
    let want = model_run(text).map_err(|(_, e)| e);
    tally(cx, &want);
    cx.compared += 1;
    match (real_run(text), want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(e), Ok(_)) => too_strict(&e),
        (Ok(_), Err(w)) => too_lax(&w),
        (Err(g), Err(w)) => {
            let g = causes(&g);
            if g != w {
                return bad(format!("errors {}; expected {}", show(&g), show(&w)));
            }
            Ok(())
        }
    }
}

// ---- C19 ----------------------------------------------------------------

fn repl_step(r: &mut Resolver, line: &str) -> Result<Vec<Stmt>, ParseError> {
    let p = real_repl(line)?;
    code(|| r.resolve(p)).map(|c| c.statements)
}

/// The lines of one session, separated by SEP.
fn session(text: &str, cx: &mut Cx) -> V {
    let mut model = Session::new();
    let mut real = code(Resolver::new);
    // The same session without the rejected lines.
    let mut clean = code(Resolver::new);
    let mut rejected_before = false;
    // The accepted lines, and their statements before and after resolution.
    let mut program = String::new();
    let mut statements: Vec<Stmt> = vec![];
    let mut trees: Vec<u8> = vec![];
    for line in text.split(SEP) {
        let want = match model_parse_text(line, Mode::Repl) {
            Ok(mut n) => match model.resolve(&mut n) {
                Ok(()) => Ok(n),
                Err(e) => Err(e),
            },
            Err((_, e)) => Err(e),
        };
        tally(cx, &want);
        let got = repl_step(&mut real, line);
        if rejected_before {
            let mut probe = code(|| clean.clone());
            let alone = repl_step(&mut probe, line);
            if alone != got {
                return bad(format!(
                    "line {line:?} gives {got:?}, but {alone:?} without the \
                     rejected lines before it"
                ));
            }
            if alone.is_ok() {
                clean = probe;
            }
        } else {
            let _ = repl_step(&mut clean, line);
        }
        cx.compared += 1;
        match (got, want) {
            (Ok(g), Ok(w)) => {
                ser_stmts(&g, RES | SHAPE | LIT, &mut cx.a);
                ser_node(&w, RES | SHAPE | LIT, &mut cx.b);
                if cx.a != cx.b {
                    return bad(format!(
                        "line {line:?} gives {g:?}, expected {}",
                        w.pretty()
                    ));
                }
                // Inner bytes: all but the program's own brackets.
                trees.extend_from_slice(&cx.a[2..cx.a.len() - 1]);
                if let Ok(s) = real_repl(line) {
                    statements.extend(s);
                }
                if real_parse(line).is_ok() {
                    program.push_str(line);
                } else {
                    program.push_str(line);
                    program.push('\n');
                }
            }
            (Err(e), Err(_)) => {
                if e.causes.is_empty() {
                    return bad("rejected without any error".to_owned());
                }
                rejected_before = true;
            }
            (Err(e), Ok(_)) => {
                return bad(format!(
                    "line {line:?} is rejected ({}), but is a program here",
                    show_real(&e)
                ));
            }
            (Ok(_), Err(w)) => {
                return bad(format!(
                    "line {line:?} is accepted, but expected {}",
                    show(&w)
                ));
            }
        }
    }
    // The accepted lines' statements as one program.
    let inner = |s: &[Stmt], flags: u32, out: &mut Vec<u8>| {
        ser_stmts(s, flags, out);
        out.pop();
        out.drain(..2);
    };
    let one = |s: Vec<Stmt>, cx: &mut Cx| match code(|| resolver::resolve(s)) {
        Ok(c) => {
            inner(&c.statements, RES | SHAPE | LIT, &mut cx.a);
            if cx.a != trees {
                return bad(format!(
                    "as one program the accepted lines give {:?}",
                    c.statements
                ));
            }
            Ok(())
        }
        Err(e) => bad(format!(
            "as one program the accepted lines are rejected: {}",
            show_real(&e)
        )),
    };
    inner(&statements, SHAPE | LIT, &mut cx.b);
    one(statements, cx)?;
    // The lines one after the other in a file may have another meaning: a
    // comment swallows the next line, and entries of maps make one map.
    if let Ok(s) = real_parse(&program) {
        inner(&s, SHAPE | LIT, &mut cx.a);
        if cx.a == cx.b {
            one(s, cx)?;
        }
    }
    Ok(())
}

// ---- C20 ----------------------------------------------------------------

fn modes(text: &str, cx: &mut Cx) -> V {
    let file = real_parse(text);
    let repl = real_repl(text);
    let expr = real_expr(text);
    tally(cx, &repl);
    cx.compared += 1;
    match (&file, &repl) {
        (Ok(f), Ok(r)) if f == r => {}
        (Ok(_), _) => {
            return bad(format!("accepted as a file, but as a REPL line {repl:?}"));
        }
        (Err(_), Ok(r)) => {
            let ended = real_ended(text);
            if ended.as_ref() != Ok(r) {
                return bad(format!(
                    "REPL line gives {r:?}, with its line end {ended:?}"
                ));
            }
            if !ends_in_expression(r.last()) {
                return bad(format!("REPL line accepted without a line end: {r:?}"));
            }
        }
        _ => {}
    }
    let scan = model_scan::scan(text);
    let (mrepl, mexpr) = if scan.errs.is_empty() {
        (
            model_parse::parse(text, &scan.toks, Mode::Repl),
            model_parse::parse(text, &scan.toks, Mode::Expr),
        )
    } else {
        (Err(vec![]), Err(vec![]))
    };
    match (&repl, &mrepl) {
        (Ok(_), Err(e)) => return too_lax(e),
        (Err(e), Ok(_)) => return too_strict(e),
        (Ok(r), Ok(m)) => {
            ser_stmts(r, ALL & !RES & !LOC, &mut cx.a);
            ser_node(m, ALL & !RES & !LOC, &mut cx.b);
            if cx.a != cx.b {
                return bad(format!("REPL line gives {r:?}, expected {}", m.pretty()));
            }
        }
        _ => {}
    }
    match (&expr, &mexpr) {
        (Ok(_), Err(_)) => {
            return bad(format!(
                "accepted as a single expression, which it is not: {expr:?}"
            ));
        }
        (Err(e), Ok(_)) => {
            return bad(format!(
                "rejected as a single expression, which it is: {}",
                show_real(e)
            ));
        }
        (Ok(e), Ok(m)) => {
            cx.a.clear();
            Ser {
                flags: ALL & !RES & !LOC,
                out: &mut cx.a,
            }
            .single(e);
            ser_node(m, ALL & !RES & !LOC, &mut cx.b);
            if cx.a != cx.b {
                return bad(format!(
                    "single expression gives {e:?}, expected {}",
                    m.pretty()
                ));
            }
            // An expression is also a statement, unless it starts with a
            // brace, which opens a block there.
            if let Ok([Stmt::Expression(s)]) = repl.as_deref() {
                if s != e {
                    return bad(format!(
                        "single expression gives {e:?}, as a statement {s:?}"
                    ));
                }
            } else if !scan
                .toks
                .iter()
                .find(|t| !is_layout(t.k))
                .is_some_and(|t| t.k == K::LBrace)
            {
                return bad(format!("a single expression, but as a REPL line {repl:?}"));
            }
        }
        _ => {}
    }
    Ok(())
}

fn ends_in_expression(s: Option<&Stmt>) -> bool {
    match s {
        Some(Stmt::Expression(_)) => true,
        Some(Stmt::If(_, t, e)) => ends_in_expression(Some(e.as_ref().unwrap_or(t))),
        Some(Stmt::While(_, b)) | Some(Stmt::WhileIncrement(_, b, _)) => {
            ends_in_expression(Some(b))
        }
        Some(Stmt::Block(b)) => ends_in_expression(b.last()),
        _ => false,
    }
}

/// The scanner model's state after `text`, for counting.
pub fn scan_state(text: &str) -> Scan {
    let mut s = Scan::new();
    s.feed_all(text);
    s
}
