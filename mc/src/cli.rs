//! The command line program, run for real: a text is a file; `\u{2}` followed
//! by split offsets, `\u{1}` and the input is a session.

use crate::judge::{Bad, Cx, V};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use whitespace::error::ParseError;
use whitespace::parser;
use whitespace::resolver::Resolver;

pub const SESSION: char = '\u{2}';
const LIMIT: Duration = Duration::from_secs(20);

pub fn build() -> Result<(), String> {
    let root = std::env::current_dir().unwrap().join("target/cli");
    // Always recompile: modification times do not tell.
    if let Ok(d) = std::fs::read_dir(root.join("debug/.fingerprint")) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with("whitespace-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let out = Command::new("cargo")
        .args(["build", "--locked", "--offline", "--bins"])
        .args(["--manifest-path", "/repo/Cargo.toml", "--target-dir"])
        .arg(&root)
        .env("RUSTFLAGS", "-Copt-level=1")
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    }
}

/// A stack trace takes a hundred times as long as the run.
pub fn program() -> Command {
    let mut c = Command::new(binary());
    c.env("RUST_BACKTRACE", "0");
    c
}

fn binary() -> PathBuf {
    std::env::current_dir()
        .unwrap()
        .join("target/cli/debug/whitespace")
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static DIR: RefCell<Option<Scratch>> = const { RefCell::new(None) };
}
pub fn scratch() -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let id = format!(
                    "target/scratch/{}-{:?}",
                    std::process::id(),
                    std::thread::current().id()
                );
                let p = std::env::current_dir().unwrap().join(id);
                std::fs::create_dir_all(&p).expect("scratch directory");
                Scratch(p)
            })
            .0
            .clone()
    })
}

pub fn errors(e: &ParseError) -> String {
    let mut out = String::new();
    for c in &e.causes {
        let l = &c.source_loc;
        match &c.token {
            None => out.push_str(&format!(
                "[line {}:{}] Error: {}\n",
                l.line, l.column, c.message
            )),
            Some(t) => out.push_str(&format!(
                "[line {}:{}] Error at '{t}': {}\n",
                l.line, l.column, c.message
            )),
        }
    }
    out
}

fn bad<X>(s: String) -> Result<X, Bad> {
    Err(Bad::Violation(s))
}

/// Kills a process that takes too long.
pub struct Guard {
    pub child: Arc<Mutex<Child>>,
    done: Arc<Mutex<bool>>,
}

pub fn watch(child: Child) -> Guard {
    let g = Guard {
        child: Arc::new(Mutex::new(child)),
        done: Arc::new(Mutex::new(false)),
    };
    let (c, d) = (g.child.clone(), g.done.clone());
    std::thread::spawn(move || {
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if *d.lock().unwrap() {
                break;
            }
            if t0.elapsed() > LIMIT {
                let _ = c.lock().unwrap().kill();
                break;
            }
        }
    });
    g
}

impl Guard {
    /// Polls, so that the watcher can kill the process meanwhile.
    pub fn wait(self) -> Option<std::process::ExitStatus> {
        let mut pause = 200;
        let st = loop {
            match self.child.lock().unwrap().try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) => {}
                Err(_) => break None,
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 2).min(5000);
        };
        *self.done.lock().unwrap() = true;
        st
    }
}

/// At the start of a case: the name of the file, up to `\u{1}`, then its text.
pub const NAMED: char = '\u{7}';

/// At the start of a case: the arguments, separated by `\u{1}`; settings of
/// the environment begin with `\u{5}`.
pub const ARGUMENTS: char = '\u{6}';

pub fn judge(text: &str, cx: &mut Cx) -> V {
    if let Some(rest) = text.strip_prefix(ARGUMENTS) {
        return arguments(rest, cx);
    }
    if let Some(rest) = text.strip_prefix(NAMED) {
        let Some((name, text)) = rest.split_once('\u{1}') else { return Ok(()) };
        return named(name, text, cx);
    }
    match text.strip_prefix(SESSION) {
        None => file(text, cx),
        Some(rest) => {
            let Some((at, input)) = rest.split_once('\u{1}') else {
                return Ok(());
            };
            if let Some(how) = at.strip_prefix('t') {
                return terminal(how == "f", input, cx);
            }
            let Ok(at) = at
                .split(',')
                .filter(|s| !s.is_empty())
                .map(|s| s.parse())
                .collect::<Result<Vec<usize>, _>>()
            else {
                return Ok(());
            };
            session(input.as_bytes(), &at, cx)
        }
    }
}

fn file(text: &str, cx: &mut Cx) -> V {
    let path = scratch().join("program");
    file_at(&path, path.as_os_str(), text, cx)
}

/// A name that begins with a slash is made absolute.
fn named(name: &str, text: &str, cx: &mut Cx) -> V {
    let dir = scratch().join("named");
    let r = match name.strip_prefix('/') {
        _ if std::fs::create_dir_all(dir.join("s")).is_err() => {
            return Err(Bad::Harness("cannot make a directory".to_string()));
        }
        Some(below) => {
            let path = dir.join(below);
            file_at(&path, path.as_os_str(), text, cx)
        }
        None => file_at(&dir.join(name), name.as_ref(), text, cx),
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// What arguments ask for.
enum Asked<'a> {
    Version,
    Usage,
    /// the argument that is wrong
    Nothing(&'a str),
    File(&'a str),
    Session,
}

fn asked<'a>(arguments: &[&'a str]) -> Asked<'a> {
    let mut options = true;
    let mut names = vec![];
    for a in arguments.iter().copied() {
        match a {
            "--" if options => options = false,
            "--version" if options => return Asked::Version,
            "--help" | "-h" if options => return Asked::Usage,
            _ if options && a.starts_with('-') => return Asked::Nothing(a),
            _ => names.push(a),
        }
    }
    match names[..] {
        [] => Asked::Session,
        [name] => Asked::File(name),
        [_, second, ..] => Asked::Nothing(second),
    }
}

/// Runs the program where `good` and `bad` are files, with other input.
fn arguments(case: &str, cx: &mut Cx) -> V {
    const GOOD: &str = "var g = 1\ng\n";
    const BAD: &str = "@ )\nx\n  = \n";
    const INPUT: &str = "s\n) \n";
    let items: Vec<&str> = case.split('\u{1}').filter(|s| !s.is_empty()).collect();
    let (settings, given): (Vec<&str>, Vec<&str>) = items.iter().partition(|i| i.starts_with('\u{5}'));
    let dir = scratch().join("arguments");
    let made = std::fs::create_dir_all(&dir)
        .and_then(|()| std::fs::write(dir.join("good"), GOOD))
        .and_then(|()| std::fs::write(dir.join("bad"), BAD))
        .and_then(|()| std::fs::write(dir.join("input"), INPUT));
    let input = match made.and_then(|()| std::fs::File::open(dir.join("input"))) {
        Ok(f) => f,
        Err(e) => return Err(Bad::Harness(format!("files for arguments: {e}"))),
    };
    let mut p = program();
    for s in &settings {
        let (k, v) = s[1..].split_once('=').unwrap_or((&s[1..], ""));
        p.env(k, v);
    }
    let mut child = p
        .args(&given)
        .current_dir(&dir)
        .stdin(input)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("starting the program");
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let g = watch(child);
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    let _ = o.read_to_end(&mut out);
    let (out, err) = (String::from_utf8_lossy(&out).into_owned(), String::from_utf8_lossy(&t.join().unwrap()).into_owned());
    let status = g.wait().and_then(|s| s.code());
    cx.compared += 1;
    let fails = |about: &str| status != Some(0) && out.is_empty() && err.contains(about);
    let right = match asked(&given) {
        Asked::Version => {
            let version = std::fs::read_to_string("/repo/Cargo.toml").ok().and_then(|t| {
                let l = t.lines().find(|l| l.starts_with("version"))?;
                Some(l.split('"').nth(1)?.to_owned())
            });
            let Some(version) = version else { return Ok(()) };
            status == Some(0) && out.trim_end() == version && err.is_empty()
        }
        Asked::Usage => status == Some(0) && out.contains("--version") && err.is_empty(),
        Asked::Nothing(about) => fails(about.trim_start_matches('-').split('=').next().unwrap_or("")),
        Asked::File(name @ ("good" | "bad")) => {
            let text = if name == "good" { GOOD } else { BAD };
            let r = crate::judge::code(|| parser::parse(text).and_then(|p| Resolver::new().resolve(p)));
            match r {
                Ok(c) => status == Some(0) && out == format!("{:#?}\n", c.statements) && err.is_empty(),
                Err(x) => status == Some(65) && out.is_empty() && err == errors(&x),
            }
        }
        Asked::File(name) => fails(name),
        Asked::Session => {
            // Standard output alone, then standard error alone.
            let mut r = Resolver::new();
            let (mut o, mut e) = ("> ".to_string(), String::new());
            for line in INPUT.split_inclusive('\n') {
                match crate::judge::code(|| parser::parse_repl_line(line).and_then(|p| r.resolve(p))) {
                    Ok(c) => o.push_str(&format!("{:#?}\n", c.statements)),
                    Err(x) => e.push_str(&errors(&x)),
                }
                o.push_str("> ");
            }
            status == Some(0) && out == o && err == e
        }
    };
    if right {
        Ok(())
    } else {
        bad(format!("with the arguments {given:?} and the settings {settings:?} the program ends with {status:?}, prints {out:?} and reports {err:?}"))
    }
}

/// Analyses a file that is named so, from the directory it is in.
fn file_at(path: &std::path::Path, name: &std::ffi::OsStr, text: &str, cx: &mut Cx) -> V {
    let result = crate::judge::code(|| {
        parser::parse(text).and_then(|p| Resolver::new().resolve(p))
    });
    let (out, err, status) = match &result {
        Ok(c) => {
            cx.accepted += 1;
            (format!("{:#?}\n", c.statements), String::new(), 0)
        }
        Err(e) => {
            cx.rejected += 1;
            (String::new(), errors(e), 65)
        }
    };
    cx.compared += 1;
    std::fs::write(path, text).expect("writing the file");
    let mut command = program();
    if name != path.as_os_str() {
        command.current_dir(scratch().join("named"));
    }
    let mut child = command
        .arg(name)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("starting the program");
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let g = watch(child);
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let mut got_out = vec![];
    let _ = o.read_to_end(&mut got_out);
    let got_err = t.join().unwrap();
    let st = g.wait();
    let code = st.and_then(|s| s.code());
    if code != Some(status) {
        return bad(format!(
            "file mode ends with {st:?}, expected status {status}; standard \
             error is {:?}",
            String::from_utf8_lossy(&got_err)
        ));
    }
    if got_out != out.as_bytes() {
        return bad(format!(
            "file mode prints {:?}, expected {out:?}",
            String::from_utf8_lossy(&got_out)
        ));
    }
    if got_err != err.as_bytes() {
        return bad(format!(
            "file mode reports {:?}, expected {err:?}",
            String::from_utf8_lossy(&got_err)
        ));
    }
    Ok(())
}

/// What the session has to have printed after each complete line, and at the
/// end of the input: (bytes of input consumed, output so far).
fn expected(input: &[u8], cx: &mut Cx) -> (Vec<(usize, String)>, String) {
    let mut r = Resolver::new();
    let mut out = String::from("> ");
    let mut at = vec![(0, out.clone())];
    let mut from = 0;
    while from < input.len() {
        let to = input[from..]
            .iter()
            .position(|b| *b == b'\n')
            .map_or(input.len(), |n| from + n + 1);
        let line = std::str::from_utf8(&input[from..to]).expect("a text");
        let v = crate::judge::code(|| {
            parser::parse_repl_line(line).and_then(|p| r.resolve(p))
        });
        match v {
            Ok(c) => {
                cx.accepted += 1;
                out.push_str(&format!("{:#?}\n", c.statements));
            }
            Err(e) => {
                cx.rejected += 1;
                out.push_str(&errors(&e));
            }
        }
        out.push_str("> ");
        if input[to - 1] == b'\n' {
            at.push((to, out.clone()));
        }
        from = to;
    }
    (at, out)
}

/// Standard output and standard error arrive in one pipe, so their order shows.
fn session(input: &[u8], splits: &[usize], cx: &mut Cx) -> V {
    let (at, whole) = expected(input, cx);
    cx.compared += 1;
    let (mut rd, wr) = std::io::pipe().expect("pipe");
    let mut child = program()
        .stdin(Stdio::piped())
        .stdout(wr.try_clone().expect("pipe"))
        .stderr(wr)
        .spawn()
        .expect("starting the program");
    let mut stdin = child.stdin.take().unwrap();
    let g = watch(child);
    let mut got: Vec<u8> = vec![];
    let mut from = 0;
    for s in splits {
        let s = (*s).clamp(from, input.len());
        // A program that has ended early shows in its output.
        let _ = stdin.write_all(&input[from..s]);
        let _ = stdin.flush();
        crate::fault::drained(&stdin, &g);
        from = s;
        let (_, want) =
            at.iter().rev().find(|(n, _)| *n <= s).expect("an answer");
        // Every complete line is answered before more input arrives.
        let mut buf = [0u8; 4096];
        while got.len() < want.len() {
            match rd.read(&mut buf) {
                Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                _ => break,
            }
        }
        if got != want.as_bytes() {
            let got = String::from_utf8_lossy(&got).into_owned();
            let _ = g.child.lock().unwrap().kill();
            g.wait();
            return bad(format!(
                "after {s} bytes of input the session has printed {got:?}, \
                 expected {want:?}"
            ));
        }
    }
    let rest = input[from..].to_vec();
    // In a thread: both pipes have a limited capacity.
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&rest);
        drop(stdin);
    });
    let _ = rd.read_to_end(&mut got);
    let _ = t.join();
    let st = g.wait();
    if got != whole.as_bytes() {
        return bad(format!(
            "the session prints {:?}, expected {whole:?}; it ended with {st:?}",
            String::from_utf8_lossy(&got)
        ));
    }
    if st.and_then(|s| s.code()) != Some(0) {
        return bad(format!("the session ends with {st:?}, expected status 0"));
    }
    Ok(())
}

unsafe extern "C" {
    fn openpty(m: *mut i32, s: *mut i32, name: *mut u8, t: *const u32, w: *const u16) -> i32;
    fn tcgetattr(fd: i32, t: *mut u32) -> i32;
    fn tcsetattr(fd: i32, how: i32, t: *const u32) -> i32;
}

/// A terminal that neither echoes nor changes what is written to it.
fn open_terminal() -> Option<(std::fs::File, std::os::fd::OwnedFd)> {
    use std::os::fd::FromRawFd;
    let (mut m, mut s) = (-1, -1);
    let mut t = [0u32; 32];
    let size = [50u16, 132, 0, 0];
    unsafe {
        if openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), size.as_ptr()) != 0 {
            return None;
        }
        // Until exec, another thread's child may inherit the descriptors.
        let pair = (std::fs::File::from_raw_fd(m), std::os::fd::OwnedFd::from_raw_fd(s));
        if tcgetattr(s, t.as_mut_ptr()) != 0 {
            return None;
        }
        // c_iflag: nothing; c_oflag: nothing; c_lflag: ICANON.
        (t[0], t[1], t[3]) = (0, 0, 2);
        (tcsetattr(s, 0, t.as_ptr()) == 0).then_some(pair)
    }
}

/// A file, or a session, whose every stream is a terminal.
fn terminal(is_file: bool, input: &str, cx: &mut Cx) -> V {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap();
    let Some((mut here, there)) = open_terminal() else {
        return Ok(());
    };
    let (at, whole, status) = if is_file {
        let v = crate::judge::code(|| parser::parse(input).and_then(|p| Resolver::new().resolve(p)));
        match v {
            Ok(c) => (vec![], format!("{:#?}\n", c.statements), 0),
            Err(e) => (vec![], errors(&e), 65),
        }
    } else {
        let (at, whole) = expected(input.as_bytes(), cx);
        (at, whole, 0)
    };
    cx.compared += 1;
    let mut p = program();
    if is_file {
        let path = scratch().join("program");
        std::fs::write(&path, input).expect("writing the file");
        p.arg(&path);
    }
    p.env("TERM", "xterm-256color").env("COLUMNS", "80").env("COLORTERM", "truecolor");
    let copy = || Stdio::from(there.try_clone().expect("a descriptor"));
    let child = p.stdin(copy()).stdout(copy()).stderr(copy()).spawn().expect("starting the program");
    drop((p, there));
    let g = watch(child);
    let mut got: Vec<u8> = vec![];
    let mut buf = [0u8; 4096];
    let mut from = 0;
    for (n, want) in &at {
        let _ = here.write_all(&input.as_bytes()[from..*n]);
        from = *n;
        while got.len() < want.len() {
            match here.read(&mut buf) {
                Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                _ => break,
            }
        }
        if got != want.as_bytes() {
            let got = String::from_utf8_lossy(&got).into_owned();
            let _ = g.child.lock().unwrap().kill();
            g.wait();
            return bad(format!(
                "at a terminal, after {n} bytes of input the session has printed {got:?}, expected {want:?}"
            ));
        }
    }
    if !is_file {
        // What is not a line, and the end of input.
        let _ = here.write_all(&input.as_bytes()[from..]);
        let _ = here.write_all(if from < input.len() { b"\x04\x04\x04" } else { b"\x04" });
    }
    while let Ok(n) = here.read(&mut buf) {
        if n == 0 {
            break;
        }
        got.extend_from_slice(&buf[..n]);
    }
    let st = g.wait();
    if got != whole.as_bytes() {
        return bad(format!(
            "at a terminal, the program prints {:?}, expected {whole:?}; it ended with {st:?}",
            String::from_utf8_lossy(&got)
        ));
    }
    if st.and_then(|s| s.code()) != Some(status) {
        return bad(format!("at a terminal, the program ends with {st:?}, expected status {status}"));
    }
    Ok(())
}
