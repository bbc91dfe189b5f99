//! Faults of the command line program's input and output.
//!
//! A case is a text in which the characters U+F780 to U+F7FF stand for single
//! bytes.  Alone it is a file; `\u{2}` splits `\u{1}` input is a session, and
//! `\u{3}` fault `\u{1}` text is a file or a session that meets a fault.

use crate::cli::{Guard, errors, scratch, watch};
use crate::judge::{Bad, Cx, V, code};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::process::{ExitStatus, Stdio};
use std::time::{Duration, Instant};
use whitespace::parser;
use whitespace::resolver::Resolver;

pub const FAULT: char = '\u{3}';

unsafe extern "C" {
    fn ioctl(fd: i32, request: u64, ...) -> i32;
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}

/// The stand-in for a byte that is not ASCII.
pub fn byte(b: u8) -> char {
    assert!(b >= 0x80);
    char::from_u32(0xf700 + u32::from(b)).unwrap()
}

pub fn bytes(text: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in text.chars() {
        match u32::from(c) {
            n @ 0xf780..=0xf7ff => v.push((n - 0xf700) as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}

/// Waits until the program has taken everything that was written.
pub fn drained(pipe: &impl AsRawFd, g: &Guard) {
    let t0 = Instant::now();
    let mut pause = 5;
    loop {
        let mut n = 0i32;
        // FIONREAD
        if unsafe { ioctl(pipe.as_raw_fd(), 0x541b, &mut n) } != 0 || n == 0 {
            return;
        }
        let ended = !matches!(g.child.lock().unwrap().try_wait(), Ok(None));
        if ended || t0.elapsed() > Duration::from_secs(10) {
            return;
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(1000);
    }
}

fn bad<X>(s: String) -> Result<X, Bad> {
    Err(Bad::Violation(s))
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

/// What a program makes of a file: standard output, standard error, status.
fn of_file(text: &str, cx: &mut Cx) -> (Vec<u8>, Vec<u8>, i32) {
    let r = code(|| parser::parse(text).and_then(|p| Resolver::new().resolve(p)));
    match r {
        Ok(c) => {
            cx.accepted += 1;
            (format!("{:#?}\n", c.statements).into_bytes(), vec![], 0)
        }
        Err(e) => {
            cx.rejected += 1;
            (vec![], errors(&e).into_bytes(), 65)
        }
    }
}

/// What a session makes of its input: everything it prints, and what of this
/// goes to standard output; and whether a line is not UTF-8, before which the
/// answers end.  `cut`: the input ends in a failure, not an end.
fn of_session(input: &[u8], cut: bool, cx: &mut Cx) -> (String, String, bool) {
    let mut r = Resolver::new();
    let mut all = String::from("> ");
    let mut out = all.clone();
    let mut rest = input;
    while !rest.is_empty() {
        let end = rest.iter().position(|b| *b == b'\n');
        if cut && end.is_none() {
            break;
        }
        let (line, tail) = rest.split_at(end.map_or(rest.len(), |n| n + 1));
        rest = tail;
        let Ok(line) = std::str::from_utf8(line) else {
            return (all, out, true);
        };
        match code(|| parser::parse_repl_line(line).and_then(|p| r.resolve(p))) {
            Ok(c) => {
                cx.accepted += 1;
                let tree = format!("{:#?}\n", c.statements);
                all.push_str(&tree);
                out.push_str(&tree);
            }
            Err(e) => {
                cx.rejected += 1;
                all.push_str(&errors(&e));
            }
        }
        all.push_str("> ");
        out.push_str("> ");
    }
    (all, out, cut)
}

fn failed(st: Option<ExitStatus>) -> bool {
    st.is_some_and(|s| s.code().is_some_and(|c| c != 0))
}

type Ran = (Vec<u8>, Vec<u8>, Option<ExitStatus>);

/// Runs the program on a file, delivered whole or (a FIFO) in pieces.
fn run_file(arg: &std::path::Path, pieces: Option<&[&[u8]]>) -> Ran {
    let fifo = pieces.map(|_| {
        File::options().read(true).write(true).open(arg).expect("the FIFO")
    });
    let mut child = crate::cli::program()
        .arg(arg)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("starting the program");
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let g = watch(child);
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    if let Some(mut f) = fifo {
        for p in pieces.unwrap_or(&[]) {
            for part in p.chunks(4096) {
                let _ = f.write_all(part);
                drained(&f, &g);
            }
        }
    }
    let mut out = vec![];
    let _ = o.read_to_end(&mut out);
    (out, t.join().unwrap(), g.wait())
}

/// A file's result, or its failure if it is not UTF-8.
fn check_file(data: &[u8], pieces: Option<&[usize]>, cx: &mut Cx) -> V {
    cx.compared += 1;
    let want = std::str::from_utf8(data).ok().map(|t| of_file(t, cx));
    let path = scratch().join("program");
    let _ = std::fs::remove_file(&path);
    let got = match pieces {
        None => {
            std::fs::write(&path, data).expect("writing the file");
            run_file(&path, None)
        }
        Some(at) => {
            let name = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 {
                return Err(Bad::Harness("cannot make a FIFO".to_string()));
            }
            let mut parts = vec![];
            let mut from = 0;
            for a in at {
                let a = (*a).clamp(from, data.len());
                parts.push(&data[from..a]);
                from = a;
            }
            parts.push(&data[from..]);
            run_file(&path, Some(&parts))
        }
    };
    let _ = std::fs::remove_file(&path);
    match want {
        None => unreadable("program", got, cx),
        Some((out, err, status)) => {
            if got.2.and_then(|s| s.code()) != Some(status) || got.0 != out || got.1 != err {
                return bad(format!(
                    "file mode prints {}, reports {} and ends with {:?}; \
                     expected {}, {} and status {status}",
                    show(&got.0), show(&got.1), got.2, show(&out), show(&err)
                ));
            }
            Ok(())
        }
    }
}

fn unreadable(name: &str, got: Ran, cx: &mut Cx) -> V {
    cx.rejected += 1;
    let (out, err, st) = got;
    if !failed(st) {
        return bad(format!(
            "a file that cannot be read: ends with {st:?}, expected a failure"
        ));
    }
    if !out.is_empty() {
        return bad(format!("a file that cannot be read: prints {}", show(&out)));
    }
    if !String::from_utf8_lossy(&err).contains(name) {
        return bad(format!(
            "a file that cannot be read: the message {} does not name the file",
            show(&err)
        ));
    }
    Ok(())
}

enum Input<'a> {
    /// pieces, each taken before the next
    Pipe(&'a [u8], &'a [usize]),
    /// the input fails after so many bytes
    Reset(&'a [u8], usize),
    Directory,
}

/// A session that may meet a line or a state it cannot read.
fn check_session(input: &Input, cx: &mut Cx) -> V {
    cx.compared += 1;
    let (data, cut) = match input {
        Input::Pipe(d, _) => (*d, false),
        Input::Reset(d, n) => (&d[..(*n).min(d.len())], true),
        Input::Directory => (&b""[..], true),
    };
    let (all, _, fails) = of_session(data, cut, cx);
    let (mut rd, wr) = std::io::pipe().expect("pipe");
    let mut cmd = crate::cli::program();
    cmd.stdout(wr.try_clone().expect("pipe")).stderr(wr);
    let mut socket = None;
    match input {
        Input::Pipe(..) => {
            cmd.stdin(Stdio::piped());
        }
        Input::Reset(..) => {
            // Closing our end with a byte unread there makes the other end
            // fail, after everything that was sent to it.
            let (mine, theirs) = UnixStream::pair().expect("sockets");
            (&theirs).write_all(b"x").expect("sending");
            (&mine).write_all(data).expect("sending");
            cmd.stdin(OwnedFd::from(theirs));
            socket = Some(mine);
        }
        Input::Directory => {
            cmd.stdin(File::open(scratch()).expect("the directory"));
        }
    }
    let mut child = cmd.spawn().expect("starting the program");
    drop(cmd);
    drop(socket);
    let stdin = child.stdin.take();
    let g = watch(child);
    let reader = std::thread::spawn(move || {
        // Not without end: the program may report a failure for ever.
        let mut v = vec![];
        let _ = (&mut rd).take(4 << 20).read_to_end(&mut v);
        v
    });
    if let (Input::Pipe(d, at), Some(mut stdin)) = (input, stdin) {
        let mut from = 0;
        for a in *at {
            let a = (*a).clamp(from, d.len());
            let _ = stdin.write_all(&d[from..a]);
            drained(&stdin, &g);
            from = a;
        }
        let _ = stdin.write_all(&d[from..]);
    }
    let got = reader.join().unwrap();
    let st = g.wait();
    let end = match st.and_then(|s| s.code()) {
        Some(c) => c,
        None => {
            return bad(format!(
                "the session does not end by itself ({st:?}); it prints {}",
                crate::sup::brief(&show(&got))
            ));
        }
    };
    if !fails {
        if got != all.as_bytes() || end != 0 {
            return bad(format!(
                "the session prints {} and ends with {end}, expected {all:?} and 0",
                show(&got)
            ));
        }
        return Ok(());
    }
    let Some(rest) = got.strip_prefix(all.as_bytes()) else {
        return bad(format!(
            "before its input fails, the session prints {}, expected {all:?}",
            show(&got)
        ));
    };
    let rest = String::from_utf8_lossy(rest);
    if rest.trim().is_empty() || rest.trim() == ">" {
        return bad("the session does not report that its input failed".to_string());
    }
    if rest.contains("\n> ") {
        return bad(format!(
            "the session goes on after its input failed: {rest:?}"
        ));
    }
    Ok(())
}

enum Output {
    /// standard output accepts so many bytes
    Out(u64),
    /// standard error does
    Err(u64),
    /// standard output has no reader
    Closed,
    /// the device is full
    Full,
}

/// A file or session whose output cannot be written.
fn check_output(kind: &Output, text: &str, cx: &mut Cx) -> V {
    cx.compared += 1;
    let (out, err, status, input) = match text.strip_prefix(crate::cli::SESSION) {
        Some(i) => {
            let (_, out, _) = of_session(i.as_bytes(), false, cx);
            (out.into_bytes(), vec![], 0, Some(i.as_bytes().to_vec()))
        }
        None => {
            let (o, e, s) = of_file(text, cx);
            (o, e, s, None)
        }
    };
    let dir = scratch();
    let (path, to) = (dir.join("program"), dir.join("output"));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&to);
    let mut cmd = crate::cli::program();
    match &input {
        None => {
            std::fs::write(&path, text).expect("writing the file");
            cmd.arg(&path).stdin(Stdio::null());
        }
        Some(_) => {
            cmd.stdin(Stdio::piped());
        }
    }
    cmd.stdout(Stdio::null()).stderr(Stdio::null());
    let create = || File::create(&to).expect("the output");
    let limit = match kind {
        Output::Out(n) => {
            cmd.stdout(create());
            Some(*n)
        }
        Output::Err(n) => {
            cmd.stderr(create());
            Some(*n)
        }
        Output::Closed => {
            let (rd, wr) = std::io::pipe().expect("pipe");
            drop(rd);
            cmd.stdout(wr);
            None
        }
        Output::Full => {
            let f = File::options().write(true).open("/dev/full");
            cmd.stdout(f.expect("/dev/full"));
            None
        }
    };
    if let Some(n) = limit {
        let l = [n, n];
        unsafe {
            cmd.pre_exec(move || {
                // SIGXFSZ ignored: writing beyond the limit is an error.
                signal(25, 1);
                // RLIMIT_FSIZE
                setrlimit(1, &l);
                Ok(())
            });
        }
    }
    let mut child = cmd.spawn().expect("starting the program");
    drop(cmd);
    let stdin = child.stdin.take();
    let g = watch(child);
    if let (Some(mut s), Some(i)) = (stdin, input) {
        let _ = s.write_all(&i);
    }
    let st = g.wait();
    let written = std::fs::read(&to).unwrap_or_default();
    let (whole, name) = match kind {
        Output::Err(_) => (&err, "standard error"),
        _ => (&out, "standard output"),
    };
    let fits = limit.is_some_and(|n| n as usize >= whole.len())
        || (limit.is_none() && whole.is_empty());
    if limit.is_some() {
        let n = whole.len().min(limit.unwrap() as usize);
        if written != whole[..n] {
            return bad(format!(
                "{name} accepts {} bytes and gets {}, expected {}",
                limit.unwrap(), show(&written), show(&whole[..n])
            ));
        }
    }
    if fits {
        if st.and_then(|s| s.code()) != Some(status) {
            return bad(format!("ends with {st:?}, expected status {status}"));
        }
    } else if !failed(st) {
        return bad(format!(
            "{name} cannot be written, but the program ends with {st:?}"
        ));
    }
    Ok(())
}

/// What a plan for calls (see io.c) does to one stream.
#[derive(Default)]
struct Plan<'a> {
    text: &'a str,
    fails: bool,
}

fn plans(arg: &str) -> [Plan<'_>; 3] {
    let mut all: [Plan; 3] = Default::default();
    for one in arg.split(';') {
        let Some((which, text)) = one.split_once('=') else { continue };
        let i = ["in", "out", "err"].iter().position(|w| *w == which);
        // Interrupted calls can be repeated.
        let fails = text.split(',').any(|e| {
            e.split_once(':').is_some_and(|(_, w)| w == "0" || (w.starts_with('E') && w != "E4"))
        });
        if let Some(i) = i {
            all[i] = Plan { text, fails };
        }
    }
    all
}

/// How many bytes a plan of the form `*:K,N:…` or `*:K,N+:…` lets pass.
fn passed(plan: &str) -> Option<usize> {
    let (every, at) = plan.split_once(',')?;
    let k: usize = every.strip_prefix("*:")?.parse().ok()?;
    let n: usize = at.split_once(':')?.0.trim_end_matches('+').parse().ok()?;
    Some(k * n)
}

/// A file or session of which chosen system calls fail, are interrupted or
/// take only a part.
fn check_calls(arg: &str, text: &str, cx: &mut Cx) -> V {
    cx.compared += 1;
    let [input, output, error] = plans(arg);
    let dir = scratch();
    let (path, seen) = (dir.join("program"), dir.join("seen"));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&seen);
    let so = std::env::current_dir().unwrap().join("target/io.so");
    let mut cmd = crate::cli::program();
    cmd.env("LD_PRELOAD", so).env("MC_IO", arg).env("MC_IO_SEEN", &seen);
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    let session = text.strip_prefix(crate::cli::SESSION).map(bytes);
    let data = session.clone().unwrap_or_else(|| bytes(text));
    // Nothing is said about a failure after the last byte.
    if input.fails && passed(input.text).is_none_or(|n| n > data.len()) {
        return Err(Bad::Harness(format!("no plan: {arg}")));
    }
    std::fs::write(&path, &data).expect("writing the file");
    if session.is_some() {
        cmd.stdin(File::open(&path).expect("the input"));
    } else {
        cmd.stdin(Stdio::null()).arg(&path);
    }
    let mut child = cmd.spawn().expect("starting the program");
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let g = watch(child);
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = (&mut e).take(4 << 20).read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    let _ = (&mut o).take(4 << 20).read_to_end(&mut out);
    drop(o);
    let err = t.join().unwrap();
    let st = g.wait();
    let _ = std::fs::remove_file(&path);
    if std::fs::remove_file(&seen).is_err() {
        return Err(Bad::Harness("the program's calls are not met".to_string()));
    }
    let Some(end) = st.and_then(|s| s.code()) else {
        return bad(format!("does not end by itself ({st:?}); prints {}",
            crate::sup::brief(&show(&out))));
    };
    let (want, status) = match &session {
        None => {
            let (o, e, s) = match std::str::from_utf8(&data) {
                Ok(t) if !input.fails => of_file(t, cx),
                _ => return unreadable("program", (out, err, st), cx),
            };
            if !output.fails && !error.fails && err != e {
                return bad(format!("reports {}, expected {}", show(&err), show(&e)));
            }
            (o, s)
        }
        Some(data) => {
            let n = if input.fails { passed(input.text).unwrap() } else { data.len() };
            let (_, want, fails) = of_session(&data[..n], input.fails, cx);
            if fails && !output.fails {
                let Some(rest) = out.strip_prefix(want.as_bytes()) else {
                    return bad(format!(
                        "before its input fails, the session prints {}, expected {want:?}",
                        show(&out)
                    ));
                };
                let rest = String::from_utf8_lossy(rest);
                if rest.contains("\n> ") {
                    return bad(format!("the session goes on after its input failed: {rest:?}"));
                }
                if [&*rest, &String::from_utf8_lossy(&err)].concat().trim().is_empty() {
                    return bad("the session does not report that its input failed".to_string());
                }
                return Ok(());
            }
            (want.into_bytes(), 0)
        }
    };
    if output.fails {
        if !want.starts_with(&out) {
            return bad(format!(
                "standard output fails, but gets {}, which does not begin {}",
                show(&out), show(&want)
            ));
        }
        if out.len() < want.len() && end == 0 {
            return bad(format!(
                "standard output gets only {}, but the program ends with 0", show(&out)
            ));
        }
        return Ok(());
    }
    if out != want || end != status {
        return bad(format!(
            "prints {} and ends with {end}, expected {} and {status}",
            show(&out), show(&want)
        ));
    }
    Ok(())
}

fn numbers(s: &str) -> Option<Vec<usize>> {
    s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().ok()).collect()
}

pub fn judge(text: &str, cx: &mut Cx) -> V {
    if let Some(rest) = text.strip_prefix(crate::cli::SESSION) {
        let Some((at, input)) = rest.split_once('\u{1}') else { return Ok(()) };
        let Some(at) = numbers(at) else { return Ok(()) };
        return check_session(&Input::Pipe(&bytes(input), &at), cx);
    }
    let Some(rest) = text.strip_prefix(FAULT) else {
        return check_file(&bytes(text), None, cx);
    };
    let Some((fault, rest)) = rest.split_once('\u{1}') else { return Ok(()) };
    let (fault, arg) = fault.split_once(' ').unwrap_or((fault, ""));
    let n = || arg.parse::<usize>().unwrap_or(0);
    match fault {
        "pieces" => {
            let Some(at) = numbers(arg) else { return Ok(()) };
            check_file(&bytes(rest), Some(&at), cx)
        }
        "input-fails" => check_session(&Input::Reset(&bytes(rest), n()), cx),
        "input-directory" => check_session(&Input::Directory, cx),
        "output" => check_output(&Output::Out(n() as u64), rest, cx),
        "errors" => check_output(&Output::Err(n() as u64), rest, cx),
        "closed" => check_output(&Output::Closed, rest, cx),
        "calls" => check_calls(arg, rest, cx),
        "full" => check_output(&Output::Full, rest, cx),
        "path" => {
            cx.compared += 1;
            let dir = scratch();
            let made = dir.join("odd");
            let _ = std::fs::remove_file(&made);
            let _ = std::fs::remove_dir(&made);
            let link = |to: &str| std::os::unix::fs::symlink(to, &made).expect("a link");
            let (path, name) = match arg {
                "missing" => (made.clone(), "odd"),
                "missing-below" => (made.join("below"), "below"),
                "directory" => {
                    std::fs::create_dir(&made).expect("a directory");
                    (made.clone(), "odd")
                }
                "this-directory" => (dir.join("."), "."),
                "dangling" => {
                    link("nowhere");
                    (made.clone(), "odd")
                }
                "loop" => {
                    link("odd");
                    (made.clone(), "odd")
                }
                "below-file" => {
                    std::fs::write(&made, rest).expect("a file");
                    (made.join("below"), "below")
                }
                "long" => (dir.join("n".repeat(300)), "nnn"),
                "link" => {
                    let target = dir.join("target");
                    std::fs::write(&target, rest).expect("a file");
                    link(target.to_str().unwrap());
                    let got = run_file(&made, None);
                    let (o, e, s) = of_file(rest, cx);
                    if got.0 != o || got.1 != e || got.2.and_then(|s| s.code()) != Some(s) {
                        return bad(format!("through a link: {}", show(&got.0)));
                    }
                    return Ok(());
                }
                "device" => {
                    let got = run_file(std::path::Path::new("/dev/null"), None);
                    let (o, e, s) = of_file("", cx);
                    if got.0 != o || got.1 != e || got.2.and_then(|s| s.code()) != Some(s) {
                        return bad(format!("an empty device: {}", show(&got.0)));
                    }
                    return Ok(());
                }
                _ => return Ok(()),
            };
            unreadable(name, run_file(&path, None), cx)
        }
        _ => Ok(()),
    }
}
