//! Families of texts nested a million levels deep, each analysed by a process
//! of its own with the stack a main thread has.

use crate::sup::{Coverage, brief, die, json, violation};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use whitespace::{parser, resolver};

const STACK: usize = 8 << 20;
const DEEP: usize = 1_000_000;
/// A depth that programs have, and that must pass.
const MODERATE: usize = 150;
const LIMIT: Duration = Duration::from_secs(120);

const FAMILIES: &[&str] = &[
    "parentheses",
    "unclosed-parentheses",
    "prefix-operators",
    "operator-chain",
    "comparison-chain",
    "and-chain",
    "assignment-chain",
    "property-chain",
    "index-chain",
    "call-chain",
    "argument-nesting",
    "argument-nesting-without-parentheses",
    "array-nesting",
    "map-nesting",
    "block-nesting",
    "unclosed-blocks",
    "if-nesting",
    "else-if-chain",
    "while-nesting",
    "for-nesting",
    "function-nesting",
    "function-expression-nesting",
    "class-nesting",
    "long-array",
    "long-string",
    "long-name",
    "long-number",
    "long-comment",
    "many-statements",
    "many-errors",
    "many-blank-lines",
    "many-continued-lines",
    "many-globals-mentioned",
];

fn text(family: &str, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match family {
        "parentheses" => format!("{}1{}\n", r("("), r(")")),
        "unclosed-parentheses" => r("("),
        "prefix-operators" => format!("{}1\n", r("-")),
        "operator-chain" => format!("1{}\n", r("+1")),
        "comparison-chain" => format!("1{}\n", r(" < 1")),
        "and-chain" => format!("a{}\n", r(" and a")),
        "assignment-chain" => format!("{}1\n", r("a = ")),
        "property-chain" => format!("a{}\n", r(".b")),
        "index-chain" => format!("a{}\n", r("[0]")),
        "call-chain" => format!("a{}\n", r("()")),
        "argument-nesting" => format!("{}{}\n", r("f("), r(")")),
        "argument-nesting-without-parentheses" => format!("{}1\n", r("f ")),
        "array-nesting" => format!("a = {}{}\n", r("["), r("]")),
        "map-nesting" => format!("a = {}1{}\n", r("{b: "), r("}")),
        "block-nesting" => format!("{}{}", r("{"), r("}")),
        "unclosed-blocks" => r("{"),
        "if-nesting" => format!("{}a\n", r("if (a) ")),
        "else-if-chain" => format!("{}a\n", r("if (a) a\nelse ")),
        "while-nesting" => format!("{}a\n", r("while (a) ")),
        "for-nesting" => format!("{}a\n", r("for (;;) ")),
        "function-nesting" => format!("{}{}", r("fun f() {"), r("}")),
        "function-expression-nesting" => {
            format!("a = {}{}\n", r("fun () { return "), r("}"))
        }
        "class-nesting" => format!("{}{}", r("class A { m() {"), r("}}")),
        "long-array" => format!("a = [{}]\n", r("1,")),
        "long-string" => format!("\"{}\"\n", r("é")),
        "long-name" => format!("{}\n", r("a")),
        "long-number" => format!("{}.{}\n", r("1"), r("1")),
        "long-comment" => format!("//{}\n", r("é")),
        "many-statements" => r("a\n"),
        "many-errors" => r(")\n"),
        "many-blank-lines" => r("\n"),
        "many-continued-lines" => format!("a{}\n", r(" \\\n")),
        "many-globals-mentioned" => {
            let mut s = String::new();
            for i in 0..n.min(100_000) {
                s += &format!("v{i}\n");
            }
            s
        }
        _ => die("no such family"),
    }
}

/// The child: analyses one text of a family on a stack of 8 MB.
pub fn run(family: &str, n: usize) -> i32 {
    crate::work::limit_memory(16 << 30);
    let t = text(family, n);
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let verdict = |e: &whitespace::error::ParseError| {
                if e.causes.is_empty() { 1 } else { 0 }
            };
            let a = match parser::parse(&t).and_then(resolver::resolve) {
                Ok(_) => 0,
                Err(e) => verdict(&e),
            };
            let b = match parser::parse_repl_line(&t) {
                Ok(_) => 0,
                Err(e) => verdict(&e),
            };
            let c = match parser::parse_expression(&t) {
                Ok(_) => 0,
                Err(e) => verdict(&e),
            };
            a | b | c
        })
        .unwrap()
        .join();
    r.unwrap_or(1)
}

fn outcome(family: &str, n: usize) -> Result<(), String> {
    let exe = std::env::current_exe().unwrap_or_else(|_| die("current_exe"));
    let mut c = Command::new(exe)
        .args(["deep", family, &n.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|_| die("cannot start"));
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) if st.code() == Some(0) => return Ok(()),
            Ok(Some(st)) => {
                use std::io::Read;
                use std::os::unix::process::ExitStatusExt;
                let mut e = String::new();
                if let Some(mut p) = c.stderr.take() {
                    let _ = p.read_to_string(&mut e);
                }
                if e.contains("overflowed its stack") {
                    return Err("overflows the stack".into());
                }
                return Err(match (st.code(), st.signal()) {
                    (Some(1), _) => {
                        "panics, or rejects without an error".into()
                    }
                    (_, Some(s)) => format!("is killed by signal {s}"),
                    _ => format!("ends with {st}"),
                });
            }
            _ if t0.elapsed() > LIMIT => {
                let _ = c.kill();
                let _ = c.wait();
                return Err(format!(
                    "does not end within {} s",
                    LIMIT.as_secs()
                ));
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

fn known() -> Vec<String> {
    std::fs::read_to_string("known-findings.txt")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: property=C01 family="))
        .map(|l| l.split(' ').next().unwrap_or("").to_owned())
        .collect()
}

/// Returns the number of violations.
pub fn explore(cov: &mut Coverage) -> u32 {
    let known = known();
    let t0 = Instant::now();
    let jobs: Vec<(&str, usize)> = FAMILIES
        .iter()
        .flat_map(|f| [(*f, MODERATE), (*f, DEEP)])
        .collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![None; jobs.len()]);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| {
                loop {
                    let i =
                        next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = outcome(jobs[i].0, jobs[i].1);
                    out.lock().unwrap()[i] = Some(r);
                }
            });
        }
    });
    let mut bad = 0;
    for ((f, n), r) in jobs.iter().zip(out.into_inner().unwrap()) {
        cov.traces += 1;
        if let Err(why) = r.unwrap() {
            // A stack overflow of a deep text is known; anything else is not.
            let overflow = why == "overflows the stack";
            if *n == DEEP && overflow && known.iter().any(|k| k == f) {
                println!(
                    "KNOWN-FINDING: property=C01 {f}: a text nested or chained \
                     {n} levels deep {why}"
                );
                cov.notes.push(format!("known finding: {f} at {n}: {why}"));
            } else if bad == 0 {
                bad += 1;
                violation(
                    1,
                    "deep",
                    &format!("mc deep {f} {n}: {}", brief(&text(f, 3))),
                    &format!("the analysis of the text {why}"),
                );
            }
        }
    }
    println!(
        "C01 {:44} traces {:9} {:6.1} s",
        "deep families",
        jobs.len(),
        t0.elapsed().as_secs_f64()
    );
    cov.parts.push(format!(
        "{{\"name\": \"deep families\", \"traces\": {}, \"depths\": \
         [{MODERATE}, {DEEP}], \"families\": {}, \"wall_s\": {:.2}}}",
        jobs.len(),
        json(&FAMILIES.join(" ")),
        t0.elapsed().as_secs_f64()
    ));
    bad
}
