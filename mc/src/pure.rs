//! Purity: each analysis of a history is compared with the analysis of the
//! same text in a process that has analysed nothing else.

use crate::judge::{Bad, Cx, SEP, V, code};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::{Arc, Mutex, OnceLock};
use whitespace::scanner::Scanner;
use whitespace::{parser, resolver};

/// At the start of a case: every other text is analysed on a second thread.
pub const THREADS: char = '\u{3}';
/// The last text repeated so often.
pub const TIMES: char = '\u{4}';

/// Everything the library says about a text.
fn analyse(text: &str) -> String {
    code(|| {
        let mut s = Scanner::new(text);
        let tokens = s.scan_tokens();
        let file = parser::parse(text);
        let repl = parser::parse_repl_line(text);
        let expr = parser::parse_expression(text);
        let parsed = format!("{tokens:?}\n{file:?}\n{repl:?}\n{expr:?}\n");
        let a = file.and_then(resolver::resolve);
        let b = repl.and_then(resolver::resolve);
        format!("{parsed}{a:?}\n{b:?}\n")
    })
}

/// At the start of a case: two analyses on two threads, switching at the
/// allocations with the numbers that follow, up to the same character again.
pub const SCHEDULE: char = '\u{5}';
/// The same in a fresh process, so that nothing has been initialized.
pub const FIRST: char = '\u{6}';

/// The result of one analysis as a file.
fn short(text: &str) -> impl std::fmt::Debug + Send + use<> {
    parser::parse(text)
        .and_then(resolver::resolve)
        .map(|c| Tree(c.statements))
}
/// The tree has cells in it, but whoever has the tree has them alone.
#[derive(Debug)]
#[allow(dead_code)]
struct Tree(Vec<whitespace::ast::Stmt>);
unsafe impl Send for Tree {}

/// Both results under a schedule, and the number of its points.
fn scheduled(switches: &[u32], a: &str, b: &str) -> ([String; 2], u32) {
    let job = |t: &str| {
        let t = t.to_owned();
        Box::new(move || {
            let r = short(&t);
            (r, t)
        }) as Box<dyn FnOnce() -> _ + Send>
    };
    let (r, n) = crate::sched::two(switches, [job(a), job(b)]);
    let show = r.map(|r| match r {
        Some((r, _)) => format!("{r:?}"),
        None => "a panic".to_owned(),
    });
    (show, n)
}

/// The child: one text from standard input, or a schedule and two.
pub fn fresh(what: &str) -> i32 {
    let mut t = String::new();
    if std::io::stdin().read_to_string(&mut t).is_err() {
        return 2;
    }
    match what {
        "short" => print!("{:?}", short(&t)),
        "pair" => {
            let Some((sw, a, b)) = pair(&t) else { return 2 };
            let ([a, b], n) = scheduled(&sw, a, b);
            print!("{n}{SEP}{a}{SEP}{b}");
        }
        _ => print!("{}", analyse(&t)),
    }
    0
}

fn pair(case: &str) -> Option<(Vec<u32>, &str, &str)> {
    let (sw, texts) = case.split_once(SCHEDULE)?;
    let (a, b) = texts.split_once(SEP)?;
    let sw = sw.split(',').filter_map(|x| x.parse().ok()).collect();
    Some((sw, a, b))
}

fn schedule(case: &str, first: bool, cx: &mut Cx) -> V {
    let Some((sw, a, b)) = pair(case) else {
        return Err(Bad::Harness("no schedule".into()));
    };
    let want = [alone("short", a)?, alone("short", b)?];
    let got = if first {
        let out = in_child("pair", case)?;
        let mut i = out.splitn(3, SEP).map(str::to_owned);
        let mut next = || i.next().unwrap_or_default();
        POINTS.set(next().parse().unwrap_or(0));
        [next(), next()]
    } else {
        let (got, n) = code(|| scheduled(&sw, a, b));
        POINTS.set(n);
        got
    };
    for (i, t) in [a, b].into_iter().enumerate() {
        cx.compared += 1;
        if got[i] != *want[i] {
            return Err(Bad::Violation(format!(
                "while {:?} is analysed on another thread, with switches at \
                 the allocations {sw:?}, {t:?} gives {}, in a fresh process {}",
                [b, a][i], got[i], want[i]
            )));
        }
        if want[i].starts_with("Err") {
            cx.rejected += 1;
        } else {
            cx.accepted += 1;
        }
    }
    Ok(())
}
thread_local! {
    /// The number of points of the schedule judged last.
    pub static POINTS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// What a fresh process says.
fn in_child(what: &str, text: &str) -> Result<String, Bad> {
    let fail = |e: &str| Err(Bad::Harness(format!("fresh process: {e}")));
    let Ok(exe) = std::env::current_exe() else {
        return fail("current_exe");
    };
    let child = Command::new(exe)
        .args(["fresh", what])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut c) = child else {
        return fail("spawn");
    };
    let _ = c.stdin.take().unwrap().write_all(text.as_bytes());
    let Ok(out) = c.wait_with_output() else {
        return fail("wait");
    };
    if !out.status.success() {
        return Err(Bad::Violation(format!(
            "in a fresh process the analysis of {text:?} ends with {}",
            out.status
        )));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// The result in a fresh process that does nothing else.
fn alone(what: &'static str, text: &str) -> Result<Arc<String>, Bad> {
    type Known = Mutex<HashMap<(&'static str, String), Arc<String>>>;
    static KNOWN: OnceLock<Known> = OnceLock::new();
    let known = KNOWN.get_or_init(Default::default);
    let key = (what, text.to_owned());
    if let Some(r) = known.lock().unwrap().get(&key) {
        return Ok(r.clone());
    }
    let r = Arc::new(in_child(what, text)?);
    known.lock().unwrap().insert(key, r.clone());
    Ok(r)
}

struct Other {
    to: Sender<String>,
    from: Receiver<String>,
}
thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
    // One buffer, so that texts also share their address.
    static BUFFER: RefCell<String> = const { RefCell::new(String::new()) };
}

fn here(text: &str) -> String {
    BUFFER.with(|b| {
        let mut b = b.borrow_mut();
        b.clear();
        b.reserve(4096);
        b.push_str(text);
        analyse(&b)
    })
}

fn elsewhere(text: &str) -> Option<String> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let t = o.get_or_insert_with(|| {
            let (to, inner) = channel::<String>();
            let (reply, from) = channel();
            std::thread::spawn(move || {
                for t in inner {
                    let _ = reply.send(here(&t));
                }
            });
            Other { to, from }
        });
        t.to.send(text.to_owned()).ok()?;
        t.from.recv().ok()
    })
}

fn differs(text: &str, got: &str, want: &str) -> V {
    let at = got
        .lines()
        .zip(want.lines())
        .find(|(a, b)| a != b)
        .unwrap_or((got, want));
    Err(Bad::Violation(format!(
        "{text:?} gives {}, in a fresh process {}",
        at.0, at.1
    )))
}

pub fn judge(case: &str, cx: &mut Cx) -> V {
    for (mark, first) in [(SCHEDULE, false), (FIRST, true)] {
        if let Some(c) = case.strip_prefix(mark) {
            return schedule(c, first, cx);
        }
    }
    let mut case = case;
    let mut threads = false;
    let mut times = 1;
    if let Some(c) = case.strip_prefix(THREADS) {
        threads = true;
        case = c;
    }
    if let Some(c) = case.strip_prefix(TIMES) {
        let (n, c) = c.split_once(TIMES).unwrap_or(("", c));
        times = n.parse().unwrap_or(1);
        case = c;
    }
    let texts: Vec<&str> = case.split(SEP).collect();
    for (i, t) in texts.iter().enumerate() {
        let want = alone("all", t)?;
        let n = if i + 1 == texts.len() { times } else { 1 };
        for k in 0..n {
            let got = if threads && (i + k) % 2 == 1 {
                match elsewhere(t) {
                    Some(g) => g,
                    None => {
                        return Err(Bad::Violation(format!(
                            "the analysis of {t:?} panics on a second thread"
                        )));
                    }
                }
            } else {
                here(t)
            };
            cx.compared += 1;
            if got != *want {
                return differs(t, &got, &want);
            }
        }
        if want.contains("\nErr") {
            cx.rejected += 1;
        } else {
            cx.accepted += 1;
        }
    }
    Ok(())
}
