//! The WebAssembly module, built from the working tree and run by Node: what
//! parseString returns is compared with what the native library returns.

use crate::imp::distance;
use crate::judge::{Bad, Cx, V, code};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use whitespace::ast::*;
use whitespace::environment::VarLoc;
use whitespace::source_loc::SourceLoc;
use whitespace::{parser, resolver};

const MODULE: &str =
    "target/wasm/wasm32-unknown-unknown/release/whitespace.wasm";

unsafe extern "C" {
    fn prctl(op: i32, a: u64) -> i32;
}

/// A toolchain that has the WebAssembly target.
fn toolchain() -> Option<String> {
    let home = std::env::var("RUSTUP_HOME").unwrap_or_else(|_| {
        format!("{}/.rustup", std::env::var("HOME").unwrap_or_default())
    });
    let mut names: Vec<String> =
        std::fs::read_dir(format!("{home}/toolchains"))
            .ok()?
            .flatten()
            .filter(|e| {
                e.path().join("lib/rustlib/wasm32-unknown-unknown/lib").exists()
            })
            .map(|e| e.file_name().to_string_lossy().into_owned())
            .collect();
    names.sort();
    names.pop()
}

pub fn build() -> Result<(), String> {
    let root = std::env::current_dir().unwrap().join("target/wasm");
    for d in [
        "wasm32-unknown-unknown/release/.fingerprint",
        "release/.fingerprint",
    ] {
        if let Ok(d) = std::fs::read_dir(root.join(d)) {
            for e in d.flatten() {
                if e.file_name().to_string_lossy().starts_with("whitespace-") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
    let mut c = Command::new("cargo");
    c.args(["build", "--locked", "--offline", "--lib", "--release"])
        .args(["--target", "wasm32-unknown-unknown"])
        .args(["--manifest-path", "/repo/Cargo.toml", "--target-dir"])
        .arg(&root);
    if let Some(t) = toolchain() {
        c.env("RUSTUP_TOOLCHAIN", t);
    }
    let out = c.output().map_err(|e| e.to_string())?;
    if out.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    }
}

struct Node {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
    static PAGE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

/// `page`: the web page that runs on top of the module.
fn start(page: Option<&str>) -> Node {
    let mut c = Command::new("node");
    c.arg("mc/wasm.mjs")
        .arg(MODULE)
        .args(page)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped());
    // Ends when this thread ends.
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("starting node");
    Node {
        to: child.stdin.take().unwrap(),
        from: child.stdout.take().unwrap(),
        child,
    }
}

fn ask(page: bool, text: &str) -> Result<Vec<u8>, String> {
    let which = if page { &PAGE } else { &NODE };
    which.with(|n| {
        let mut n = n.borrow_mut();
        let node =
            n.get_or_insert_with(|| start(page.then_some("/repo/index.html")));
        let r = (|| -> std::io::Result<Vec<u8>> {
            let mut m = (text.len() as u32).to_le_bytes().to_vec();
            m.extend_from_slice(text.as_bytes());
            node.to.write_all(&m)?;
            let mut len = [0; 4];
            node.from.read_exact(&mut len)?;
            let mut out = vec![0; u32::from_le_bytes(len) as usize];
            node.from.read_exact(&mut out)?;
            Ok(out)
        })();
        if r.is_err() {
            let st = node.child.wait();
            *n = None;
            return Err(format!("{st:?}"));
        }
        Ok(r.unwrap())
    })
}

pub fn judge(text: &str, cx: &mut Cx) -> V {
    let mut want = String::new();
    match code(|| parser::parse(text).and_then(resolver::resolve)) {
        Ok(c) => {
            cx.accepted += 1;
            Enc(&mut want).list(&c.statements, |e, s| e.stmt(s));
        }
        Err(e) => {
            cx.rejected += 1;
            want.push('E');
            for c in &e.causes {
                let l = &c.source_loc;
                match &c.token {
                    Some(t) => want.push_str(&format!(
                        "{}:{} at {t:?}: {}\n\n",
                        l.line, l.column, c.message
                    )),
                    None => want.push_str(&format!(
                        "{}:{}: {}\n\n",
                        l.line, l.column, c.message
                    )),
                }
            }
        }
    }
    cx.compared += 1;
    match ask(false, text) {
        Ok(got) if got == want.as_bytes() => Ok(()),
        Ok(got) => Err(Bad::Violation(format!(
            "parseString gives {:?}, expected {want:?}",
            String::from_utf8_lossy(&got)
        ))),
        Err(e) if e.contains("768") => {
            Err(Bad::Harness("the module imports what the glue lacks".into()))
        }
        Err(e) => Err(Bad::Violation(format!("the module dies: {e}"))),
    }
}

/// A sequence of events in the web page: see page.mjs.
pub fn judge_page(events: &str, cx: &mut Cx) -> V {
    cx.compared += 1;
    for e in events.split('\u{1}') {
        if let Some(t) = e.strip_prefix('I') {
            match code(|| parser::parse(t).and_then(resolver::resolve)) {
                Ok(_) => cx.accepted += 1,
                Err(_) => cx.rejected += 1,
            }
        }
    }
    match ask(true, events) {
        Ok(got) if got == b"ok" => Ok(()),
        Ok(got) => {
            Err(Bad::Violation(String::from_utf8_lossy(&got).into_owned()))
        }
        Err(e) => Err(Bad::Harness(format!("the page's stand-in ends: {e}"))),
    }
}

/// The value serde gives, in the canonical form of wasm.mjs.
struct Enc<'a>(&'a mut String);

impl Enc<'_> {
    fn raw(&mut self, s: &str) {
        self.0.push_str(s)
    }
    fn num(&mut self, n: f64) {
        if n.fract() == 0.0 && n < 1e9 && (n > 0.0 || n.to_bits() == 0) {
            self.raw(&format!("{}", n as u64))
        } else {
            self.raw(&format!("x{:x}", n.to_bits()))
        }
    }
    /// As JSON.stringify does.
    fn str(&mut self, s: &str) {
        self.raw("s\"");
        for c in s.chars() {
            match c {
                '"' => self.raw("\\\""),
                '\\' => self.raw("\\\\"),
                '\n' => self.raw("\\n"),
                '\r' => self.raw("\\r"),
                '\t' => self.raw("\\t"),
                '\u{8}' => self.raw("\\b"),
                '\u{c}' => self.raw("\\f"),
                c if (c as u32) < 32 => {
                    self.raw(&format!("\\u{:04x}", c as u32))
                }
                c => self.0.push(c),
            }
        }
        self.raw("\"");
    }
    fn list<X>(&mut self, v: &[X], f: impl Fn(&mut Self, &X)) {
        self.raw("[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.raw(",");
            }
            f(self, x);
        }
        self.raw("]");
    }
    fn loc(&mut self, l: &SourceLoc) {
        self.raw(&format!("{{column:{},line:{}}}", l.column, l.line))
    }
    fn var_loc(&mut self, v: &VarLoc) {
        self.raw(&format!(
            "{{distance:{},index:{}}}",
            distance(v),
            v.index()
        ))
    }
    /// An enum variant; `f` writes its contents.
    fn tag(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        self.raw("{args:");
        f(self);
        self.raw(",type:");
        self.str(name);
        self.raw("}");
    }
    fn sep(&mut self) {
        self.raw(",")
    }
    fn named(&mut self, f: &NamedFunctionDefinition) {
        self.raw("{fun_def:");
        self.fun(&f.fun_def);
        self.raw(",name:");
        self.str(&f.name);
        self.raw("}");
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        self.raw("{body:");
        self.list(&f.body, |e, s| e.stmt(s));
        self.raw(",fun_type:");
        self.str(match f.fun_type {
            FunctionType::PlainFunction => "PlainFunction",
            FunctionType::Method => "Method",
            FunctionType::Initializer => "Initializer",
            FunctionType::ClassMethod => "ClassMethod",
        });
        self.raw(",parameters:");
        self.list(&f.parameters, |e, p| {
            e.raw("{name:");
            e.str(&p.name);
            e.raw(",source_loc:");
            e.loc(&p.source_loc);
            e.raw("}");
        });
        self.raw(",source_loc:");
        self.loc(&f.source_loc);
        self.raw("}");
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(b) => {
                self.tag("Block", |e| e.list(b, |e, s| e.stmt(s)))
            }
            Stmt::Break(l) => self.tag("Break", |e| e.loc(l)),
            Stmt::Class(c) => self.tag("Class", |e| {
                e.raw("{methods:");
                e.list(&c.methods, |e, m| e.named(m));
                e.raw(",name:");
                e.str(&c.name);
                e.raw(",source_loc:");
                e.loc(&c.source_loc);
                e.raw(",superclass:");
                match &c.superclass {
                    None => e.raw("u"),
                    Some(x) => e.expr(x),
                }
                e.raw("}");
            }),
            Stmt::Continue(l) => self.tag("Continue", |e| e.loc(l)),
            Stmt::Expression(x) => self.tag("Expression", |e| e.expr(x)),
            Stmt::Fun(f) => self.tag("Fun", |e| e.named(f)),
            Stmt::If(c, t, x) => self.tag("If", |e| {
                e.raw("[");
                e.expr(c);
                e.sep();
                e.stmt(t);
                e.sep();
                match x {
                    None => e.raw("u"),
                    Some(x) => e.stmt(x),
                }
                e.raw("]");
            }),
            Stmt::Print(x) => self.tag("Print", |e| e.expr(x)),
            Stmt::Return(x, l) => self.tag("Return", |e| {
                e.raw("[");
                e.expr(x);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Stmt::Var(n, i, x, l) => self.tag("Var", |e| {
                e.raw("[");
                e.str(n);
                e.raw(&format!(",{},", i.get().index()));
                e.expr(x);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Stmt::While(c, b) => self.tag("While", |e| {
                e.raw("[");
                e.expr(c);
                e.sep();
                e.stmt(b);
                e.raw("]");
            }),
            Stmt::WhileIncrement(c, b, i) => {
                self.tag("WhileIncrement", |e| {
                    e.raw("[");
                    e.expr(c);
                    e.sep();
                    e.stmt(b);
                    e.sep();
                    e.expr(i);
                    e.raw("]");
                })
            }
        }
    }
    fn exprs(&mut self, v: &[&Expr], l: Option<&SourceLoc>) {
        self.raw("[");
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            self.expr(x);
        }
        if let Some(l) = l {
            self.sep();
            self.loc(l);
        }
        self.raw("]");
    }
    fn expr(&mut self, x: &Expr) {
        match x {
            Expr::Assign(n, v, x, l) => self.tag("Assign", |e| {
                e.raw("[");
                e.str(n);
                e.sep();
                e.var_loc(&v.get());
                e.sep();
                e.expr(x);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::Call(f, a, l) => self.tag("Call", |e| {
                e.raw("[");
                e.expr(f);
                e.sep();
                e.list(a, |e, x| e.expr(x));
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::Binary(a, op, b, l) => self.tag("Binary", |e| {
                e.raw("[");
                e.expr(a);
                e.sep();
                e.str(match op {
                    BinaryOperator::Plus => "Plus",
                    BinaryOperator::Minus => "Minus",
                    BinaryOperator::Multiply => "Multiply",
                    BinaryOperator::Divide => "Divide",
                    BinaryOperator::Equal => "Equal",
                    BinaryOperator::NotEqual => "NotEqual",
                    BinaryOperator::Less => "Less",
                    BinaryOperator::LessEqual => "LessEqual",
                    BinaryOperator::Greater => "Greater",
                    BinaryOperator::GreaterEqual => "GreaterEqual",
                });
                e.sep();
                e.expr(b);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::Function(f) => self.tag("Function", |e| e.fun(f)),
            Expr::Get(o, n, l) => self.tag("Get", |e| {
                e.raw("[");
                e.expr(o);
                e.sep();
                e.str(n);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::GetIndex(o, i, l) => {
                self.tag("GetIndex", |e| e.exprs(&[o, i], Some(l)))
            }
            Expr::Grouping(x) => self.tag("Grouping", |e| e.expr(x)),
            Expr::LiteralArray(a) => {
                self.tag("LiteralArray", |e| e.list(a, |e, x| e.expr(x)))
            }
            Expr::LiteralBool(b) => self.tag("LiteralBool", |e| {
                e.raw(if *b { "t" } else { "f" })
            }),
            Expr::LiteralMap(m) => self.tag("LiteralMap", |e| {
                e.raw("M{");
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        e.sep();
                    }
                    e.str(k);
                    e.raw(":");
                    e.expr(v);
                }
                e.raw("}");
            }),
            Expr::LiteralNumber(n) => {
                self.tag("LiteralNumber", |e| e.num(*n))
            }
            Expr::LiteralNil => self.raw("{type:s\"LiteralNil\"}"),
            Expr::LiteralString(s) => {
                self.tag("LiteralString", |e| e.str(s))
            }
            Expr::Logical(a, op, b) => self.tag("Logical", |e| {
                e.raw("[");
                e.expr(a);
                e.sep();
                e.str(match op {
                    LogicalOperator::And => "And",
                    LogicalOperator::Or => "Or",
                });
                e.sep();
                e.expr(b);
                e.raw("]");
            }),
            Expr::Set(o, n, v, l) => self.tag("Set", |e| {
                e.raw("[");
                e.expr(o);
                e.sep();
                e.str(n);
                e.sep();
                e.expr(v);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::SetIndex(o, i, v, l) => {
                self.tag("SetIndex", |e| e.exprs(&[o, i, v], Some(l)))
            }
            Expr::Super(v, n, l) => self.tag("Super", |e| {
                e.raw("[");
                e.var_loc(&v.get());
                e.sep();
                e.str(n);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::Variable(n, v, l) => self.tag("Variable", |e| {
                e.raw("[");
                e.str(n);
                e.sep();
                e.var_loc(&v.get());
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
            Expr::Unary(op, x, l) => self.tag("Unary", |e| {
                e.raw("[");
                e.str(match op {
                    UnaryOperator::Minus => "Minus",
                    UnaryOperator::Not => "Not",
                });
                e.sep();
                e.expr(x);
                e.sep();
                e.loc(l);
                e.raw("]");
            }),
        }
    }
}
