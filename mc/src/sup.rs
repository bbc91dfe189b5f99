//! Command line and supervision: a check runs in a child process, because the
//! code under test may hang, abort or exhaust memory.

use crate::judge::{self, Bad, Cx};
use crate::work::{Board, Run, Tally, WORKERS, hash, limit_memory};
use std::collections::BTreeSet;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(25);
const CONFIRM: Duration = Duration::from_secs(90);

// ---- small helpers --------------------------------------------------------

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn number(prop: &str) -> u32 {
    prop.trim_start_matches('C')
        .parse()
        .unwrap_or_else(|_| die("property?"))
}

pub fn die(msg: &str) -> ! {
    eprintln!("mc: {msg}");
    std::process::exit(2)
}

pub fn brief(s: &str) -> String {
    if s.chars().count() > 600 {
        let a: String = s.chars().take(400).collect();
        format!("{a} … ({} characters)", s.chars().count())
    } else {
        s.to_owned()
    }
}

/// What a check covered.
pub struct Coverage {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub samples: Vec<String>,
    pub exhaustive: bool,
    /// name, JSON object
    pub parts: Vec<String>,
    pub notes: Vec<String>,
}

impl Coverage {
    pub fn new() -> Coverage {
        Coverage {
            states: 0,
            transitions: 0,
            traces: 0,
            accepted: 0,
            rejected: 0,
            samples: vec![],
            exhaustive: true,
            parts: vec![],
            notes: vec![],
        }
    }
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn write_evidence(
    prop: u32,
    c: &Coverage,
    t0: Instant,
    violations: u32,
) {
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let assumptions = [
        "the bounds of each space are those listed in coverage.spaces",
        "the reference model (mc/src/model_*.rs), written from the language \
         description and compared with the implementation on every case, is \
         the oracle for the aspect this property speaks about",
        "no random choice is made: the seed has no influence",
    ];
    let list = |v: &mut dyn Iterator<Item = String>| {
        v.collect::<Vec<_>>().join(",\n    ")
    };
    let text = format!(
        "{{\n  \"property\": \"C{prop:02}\",\n  \"tier\": {},\n  \"seed\": {seed},\n  \
         \"level\": \"model_checking\",\n  \"coverage\": {{\n   \
         \"states\": {},\n   \"transitions\": {},\n   \
         \"traces_validated_against_impl\": {},\n   \
         \"traces_accepted_by_impl\": {},\n   \
         \"traces_rejected_by_impl\": {},\n   \
         \"exhaustive\": {},\n   \"spaces\": [\n    {}\n   ],\n   \
         \"notes\": [{}],\n   \"samples\": [\n    {}\n   ]\n  }},\n  \
         \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json(&tier()),
        c.states,
        c.transitions,
        c.traces,
        c.accepted,
        c.rejected,
        c.exhaustive,
        list(&mut c.parts.iter().cloned()),
        list(&mut c.notes.iter().map(|s| json(s))),
        list(&mut c.samples.iter().map(|s| json(s))),
        list(&mut assumptions.iter().map(|s| json(s))),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::create_dir_all("evidence");
    let f = format!("evidence/C{prop:02}.json");
    if std::fs::write(&f, text).is_err() {
        die("cannot write the evidence file");
    }
}

/// Writes the replay file and prints the violation line.
pub fn violation(prop: u32, kind: &str, case: &str, why: &str) {
    let dir = std::env::current_dir().unwrap().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("C{prop:02}-{:016x}.json", hash(case)));
    let text = format!(
        "{{\n \"property\": \"C{prop:02}\",\n \"kind\": {},\n \"case\": {},\n \
         \"why\": {}\n}}\n",
        json(kind),
        json(case),
        json(why)
    );
    let _ = std::fs::write(&path, text);
    // The case itself, for `mc one`.
    let _ = std::fs::write(path.with_extension("txt"), case);
    println!("case: {:?}", brief(case));
    println!("why: {}", brief(why));
    println!("VIOLATION property=C{prop:02} replay={}", path.display());
}

// ---- the child: exploration ------------------------------------------------

fn cap(thorough: bool) -> Duration {
    let secs = std::env::var("MC_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3600 } else { 600 });
    Duration::from_secs(secs)
}

fn work(prop: u32, board: &str) -> i32 {
    if prop != 22 && prop != 24 { limit_memory(24 << 30); }
    let t0 = Instant::now();
    let thorough = tier() == "thorough";
    let board =
        Board::open(&board).unwrap_or_else(|_| die("cannot open the board"));
    let end = t0 + cap(thorough);
    let mut cov = Coverage::new();
    let spaces = crate::props::spaces(prop, thorough);
    let n = spaces.len();
    if n == 0 {
        die("nothing to explore for this property");
    }
    for (i, s) in spaces.into_iter().enumerate() {
        // A fair share of what is left, so that no space starves the others.
        let left = end.saturating_duration_since(Instant::now());
        let run = Run {
            prop,
            board,
            stop: false.into(),
            capped: false.into(),
            deadline: Instant::now() + left / (n - i) as u32,
            found: Default::default(),
            pairs: thorough,
        };
        let r = s.explore(&run);
        println!(
            "C{prop:02} {:44} traces {:9} edges {:9} states {:8} {:6.1} s {}{}",
            r.name,
            r.tally.cases,
            r.tally.edges,
            r.tally.states.len(),
            r.wall,
            r.note,
            if r.complete { "" } else { " (not completed)" }
        );
        add(&mut cov, &r.name, &r.tally, r.complete, &r.note, r.wall);
        if let Some((text, b)) = run.found.lock().unwrap().take() {
            match b {
                Bad::Harness(m) => {
                    die(&format!("the check itself failed: {m} on {text:?}"))
                }
                Bad::Violation(_) => {
                    let (text, why) = shrink(prop, board, text);
                    violation(prop, "judge", &text, &why);
                    write_evidence(prop, &cov, t0, 1);
                    return 1;
                }
            }
        }
    }
    if prop == 1 {
        let v = crate::deep::explore(&mut cov);
        write_evidence(prop, &cov, t0, v);
        return (v > 0) as i32;
    }
    write_evidence(prop, &cov, t0, 0);
    0
}

fn add(
    cov: &mut Coverage,
    name: &str,
    t: &Tally,
    complete: bool,
    note: &str,
    wall: f64,
) {
    cov.states += t.states.len() as u64;
    cov.transitions += t.edges;
    cov.traces += t.cases;
    cov.accepted += t.cx.accepted;
    cov.rejected += t.cx.rejected;
    cov.exhaustive &= complete;
    cov.parts.push(format!(
        "{{\"name\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \
         \"accepted\": {}, \"rejected\": {}, \"complete\": {complete}, \
         \"note\": {}, \"wall_s\": {wall:.2}}}",
        json(name),
        t.states.len(),
        t.edges,
        t.cases,
        t.cx.accepted,
        t.cx.rejected,
        json(note)
    ));
    let mut seen = BTreeSet::new();
    let mut s: Vec<&String> = t.samples.iter().rev().collect();
    s.sort_by_key(|x| std::cmp::Reverse(x.len().min(80)));
    for x in s.into_iter().filter(|x| seen.insert(x.as_str())).take(2) {
        cov.samples.push(format!("{name}: {x}"));
    }
}

/// Removes characters as long as the property stays violated.
fn shrink(prop: u32, board: Board, text: String) -> (String, String) {
    let why = |t: &str| -> Option<String> {
        board.begin(0, t);
        let v = judge::judge(prop, t, &mut Cx::default());
        board.end(0);
        match v {
            Err(Bad::Violation(w)) => Some(w),
            _ => None,
        }
    };
    let (mut best, mut reason) = match why(&text) {
        Some(w) => (text, w),
        None => {
            return (
                text,
                "violated once, but not when it was analysed again".into(),
            );
        }
    };
    // In the metamorphic property the two halves belong together.
    if prop == 6 {
        return (best, reason);
    }
    let end = Instant::now() + Duration::from_secs(10);
    let mut size = best.chars().count() / 2;
    while size > 0 && Instant::now() < end {
        let cs: Vec<char> = best.chars().collect();
        let mut at = 0;
        let mut shorter = None;
        while at + size <= cs.len() && Instant::now() < end {
            let t: String =
                cs[..at].iter().chain(&cs[at + size..]).collect();
            if let Some(w) = why(&t) {
                shorter = Some((t, w));
                break;
            }
            at += size.div_ceil(2);
        }
        match shorter {
            Some((t, w)) => {
                best = t;
                reason = w;
                size = size.min(best.chars().count());
            }
            None => size /= 2,
        }
    }
    (best, reason)
}

// ---- the parent: supervision -----------------------------------------------

fn myself() -> Command {
    Command::new(
        std::env::current_exe().unwrap_or_else(|_| die("current_exe")),
    )
}

/// Runs one case in a process of its own.  None: it ran to an end and the
/// property held.
fn confirm(prop: u32, text: &str) -> Option<String> {
    let f = format!("target/case-{}", std::process::id());
    std::fs::write(&f, text).unwrap_or_else(|_| die("cannot write the case"));
    let mut c = myself()
        .args(["one", &format!("C{prop:02}"), &f])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|_| die("cannot start"));
    let t0 = Instant::now();
    // A short text that holds up the explorer takes too long even if it is
    // analysed in the end.
    let limit = if prop <= 20 && text.len() <= 1 << 16 { CONFIRM / 8 } else { CONFIRM };
    let r = loop {
        match c.try_wait() {
            Ok(Some(st)) => match st.code() {
                Some(0) => break None,
                Some(1) => break Some("the property is violated".into()),
                Some(_) => break None,
                None => {
                    break Some(format!("the analysis dies: {st}"));
                }
            },
            _ if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break Some(format!(
                    "the analysis does not end within {} s",
                    limit.as_secs()
                ));
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    let _ = std::fs::remove_file(&f);
    r
}

fn check(prop: u32) -> i32 {
    let t0 = Instant::now();
    let _ = std::fs::create_dir_all("target");
    let board_file = format!("target/board-{}", std::process::id());
    let _ = std::fs::remove_file(format!("evidence/C{prop:02}.json"));
    let prepared = match prop {
        19 | 21 | 25 => crate::cli::build(),
        22 | 24 => crate::wasm::build(),
        _ => Ok(()),
    };
    if let Err(e) = prepared {
        die(&format!("cannot build what C{prop:02} runs: {e}"));
    }
    // A busy machine may stall or end the explorer as well as a fault does:
    // what no case explains is tried again.
    for again in (0..3).rev() {
        if let Some(code) = attempt(prop, &board_file, t0, again == 0) {
            return code;
        }
        println!("the explorer died or stalled; it is started again");
    }
    2
}

/// The exit status, or nothing if the explorer died or stalled and none of the
/// cases under way does so on its own.
fn attempt(prop: u32, board_file: &str, t0: Instant, last_one: bool) -> Option<i32> {
    let _ = std::fs::remove_file(board_file);
    let board = Board::open(board_file)
        .unwrap_or_else(|_| die("cannot open the board"));
    let mut child = myself()
        .args(["work", &format!("C{prop:02}"), board_file])
        .spawn()
        .unwrap_or_else(|_| die("cannot start the explorer"));
    let mut last = [(0u64, Instant::now()); WORKERS];
    let mut suspects: Vec<(usize, String)> = vec![];
    let status = loop {
        if let Ok(Some(st)) = child.try_wait() {
            break Some(st);
        }
        for (w, l) in last.iter_mut().enumerate() {
            let s = board.state(w);
            if s != l.0 {
                *l = (s, Instant::now());
            } else if s % 2 == 1 && l.1.elapsed() > HANG {
                suspects.push((w, board.text(w)));
            }
        }
        if !suspects.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    if let Some(st) = status {
        match st.code() {
            Some(c @ (0 | 1)) => {
                let _ = std::fs::remove_file(board_file);
                return Some(c);
            }
            Some(c) => {
                let _ = std::fs::remove_file(board_file);
                eprintln!("mc: the explorer failed with status {c}");
                return Some(2);
            }
            None => {
                println!("the explorer died: {st}");
                for w in 0..WORKERS {
                    if board.state(w) % 2 == 1 {
                        suspects.push((w, board.text(w)));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(board_file);
    suspects.sort_by_key(|s| s.1.len());
    for (_, text) in &suspects {
        if let Some(why) = confirm(prop, text) {
            violation(prop, "crash or hang", text, &why);
            let mut cov = Coverage::new();
            cov.exhaustive = false;
            cov.traces = 1;
            cov.samples.push(brief(text));
            cov.notes.push(why);
            write_evidence(prop, &cov, t0, 1);
            return Some(1);
        }
    }
    eprintln!(
        "mc: the explorer died or stalled, but none of the {} cases under way \
         does so on its own",
        suspects.len()
    );
    last_one.then_some(2)
}

// ---- command line -----------------------------------------------------------

/// On a thread with a stack like the explorer's.
fn one(prop: u32, file: &str) -> i32 {
    if prop != 22 && prop != 24 { limit_memory(8 << 30); }
    let text =
        std::fs::read_to_string(file).unwrap_or_else(|_| die("no such case"));
    let v = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || judge::judge(prop, &text, &mut Cx::default()))
        .unwrap()
        .join()
        .unwrap();
    match v {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(Bad::Violation(w)) => {
            println!("violated: {w}");
            1
        }
        Err(Bad::Harness(w)) => {
            println!("the check itself fails: {w}");
            2
        }
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).map_or("", |s| s.as_str());
    judge::install_panic_hook();
    let code = match a(0) {
        "check" => check(number(a(1))),
        "work" => work(number(a(1)), a(2)),
        "one" => one(number(a(1)), a(2)),
        "deep" => crate::deep::run(a(1), a(2).parse().unwrap_or(1)),
        "prepare" => {
            let r = crate::cli::build().and_then(|()| crate::wasm::build());
            match r {
                Ok(()) => 0,
                Err(e) => die(&e),
            }
        }
        "fresh" => crate::pure::fresh(a(1)),
        // What the analysis says about the texts the spaces are made of.
        "scaled" => {
            for t in crate::scaled::texts(3, 3).chunks(4).filter_map(|c| c.last()) {
                let r = whitespace::parser::parse(t).and_then(whitespace::resolver::resolve);
                if let Err(e) = r {
                    println!("{t}  {}", e.causes[0]);
                }
            }
            0
        }
        "menus" => {
            for (name, list) in crate::props::menus() {
                for t in list {
                    let r = whitespace::parser::parse_repl_line(&t)
                        .map_err(|e| format!("syntax: {}", e.causes[0]))
                        .and_then(|s| {
                            whitespace::resolver::resolve(s)
                                .map_err(|e| format!("static: {}", e.causes[0]))
                        });
                    println!("{name} {t:?}: {}", match r {
                        Ok(_) => "ok".to_owned(),
                        Err(e) => e.trim_end().to_owned(),
                    });
                }
            }
            0
        }
        // The size of each grammar's language, and some of it.
        "grammars" => {
            crate::props::grammars(a(1));
            0
        }
        "try" => {
            let v = judge::judge(
                number(a(1)),
                &a(2).replace("\\n", "\n"),
                &mut Cx::default(),
            );
            println!("{v:?}");
            0
        }
        _ => die(
            "usage: mc check <property> | one <property> <file> | \
             try <property> <text>",
        ),
    };
    std::process::exit(code)
}
