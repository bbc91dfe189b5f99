//! Reference resolver: scopes are plain vectors of names; a name's slot is its
//! position.  Also the state of a REPL session.

use crate::node::{MErr, Node, Res, T};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum St {
    /// mentioned, but never declared (globals only)
    Mentioned,
    /// its initializer is being evaluated
    Pending,
    Ready,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Scope {
    pub names: Vec<(String, St)>,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Fn_ {
    None,
    Plain,
    Init,
    Method,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum Cl {
    None,
    Base,
    Sub,
}

/// Number of names a scope can hold.
pub const SCOPE_LIMIT: usize = 255;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Session {
    pub globals: Scope,
}

struct Ctx {
    scopes: Vec<Scope>,
    f: Fn_,
    c: Cl,
}

type R<X> = Result<X, MErr>;

fn err<X>(loc: (u32, u16), tok: &str, msg: &str) -> R<X> {
    Err(MErr {
        line: loc.0,
        col: loc.1,
        token: Some(tok.to_owned()),
        msg: msg.to_owned(),
    })
}

const FULL: &str = "Too many local variables in function.";
const TWICE: &str = "Variable with this name already declared in this scope.";

impl Scope {
    fn find(&self, n: &str) -> Option<usize> {
        self.names.iter().position(|(m, _)| m == n)
    }
    fn add(&mut self, n: &str, st: St, loc: (u32, u16)) -> R<usize> {
        if self.names.len() >= SCOPE_LIMIT {
            return err(loc, n, FULL);
        }
        self.names.push((n.to_owned(), st));
        Ok(self.names.len() - 1)
    }
}

impl Session {
    pub fn new() -> Session {
        Session {
            globals: Scope::default(),
        }
    }

    /// Resolves a program in place.  On errors the session is unchanged.
    pub fn resolve(&mut self, prog: &mut Node) -> Result<(), Vec<MErr>> {
        let mut cx = Ctx {
            scopes: vec![self.globals.clone()],
            f: Fn_::None,
            c: Cl::None,
        };
        let mut errs = vec![];
        for s in &mut prog.kids {
            if let Err(e) = cx.stmt(s) {
                errs.push(e);
                cx.scopes.truncate(1);
                cx.f = Fn_::None;
                cx.c = Cl::None;
            }
        }
        if errs.is_empty() {
            self.globals = cx.scopes.pop().unwrap();
            Ok(())
        } else {
            Err(errs)
        }
    }
}

impl Ctx {
    fn global(&self) -> bool {
        self.scopes.len() == 1
    }
    fn top(&mut self) -> &mut Scope {
        self.scopes.last_mut().unwrap()
    }

    /// A function, class, parameter, this or super: declared and ready.
    fn introduce(&mut self, n: &str, loc: (u32, u16)) -> R<()> {
        let g = self.global();
        let s = self.top();
        match s.find(n) {
            None => {
                s.add(n, St::Ready, loc)?;
            }
            Some(i) => {
                if s.names[i].1 == St::Ready && !g {
                    return err(loc, n, TWICE);
                }
                s.names[i].1 = St::Ready;
            }
        }
        Ok(())
    }

    fn lookup(&mut self, n: &str, loc: (u32, u16)) -> R<Res> {
        let top = self.scopes.len() - 1;
        for d in 0..=top {
            if let Some(i) = self.scopes[top - d].find(n) {
                return Ok(Res::Use(d as u16, i as u8));
            }
        }
        let i = self.scopes[0].add(n, St::Mentioned, loc)?;
        Ok(Res::Use(top as u16, i as u8))
    }

    fn scoped<X>(&mut self, f: impl FnOnce(&mut Ctx) -> R<X>) -> R<X> {
        self.scopes.push(Scope::default());
        let r = f(self);
        self.scopes.pop();
        r
    }

    fn all(&mut self, ns: &mut [Node]) -> R<()> {
        for n in ns {
            self.any(n)?;
        }
        Ok(())
    }

    fn any(&mut self, n: &mut Node) -> R<()> {
        self.stmt(n)
    }

    /// Statements and expressions alike: children are visited in evaluation
    /// order, which is their order in the tree.
    fn stmt(&mut self, n: &mut Node) -> R<()> {
        let loc = n.loc.unwrap_or((0, 0));
        match n.t {
            T::Block => self.scoped(|c| c.all(&mut n.kids)),
            T::Class => self.class(n),
            T::Fun => {
                let l = n.kids[0].loc.unwrap();
                self.introduce(&n.text, l)?;
                self.function(&mut n.kids[0], Fn_::Plain)
            }
            T::FunDef => self.function(n, Fn_::Plain),
            T::Return => {
                if self.f == Fn_::None {
                    return err(loc, "return", "Cannot return from top-level code.");
                }
                if self.f == Fn_::Init && n.kids[0].t != T::Nil {
                    return err(loc, "return", "Cannot return a value from an initializer.");
                }
                self.all(&mut n.kids)
            }
            T::Var => self.var(n, loc),
            T::Assign => {
                self.all(&mut n.kids)?;
                n.res = self.lookup(&n.text, loc)?;
                Ok(())
            }
            T::Super => {
                match self.c {
                    Cl::None => {
                        return err(loc, "super", "Cannot use 'super' outside of a class.");
                    }
                    Cl::Base => {
                        return err(
                            loc,
                            "super",
                            "Cannot use 'super' in a class with no superclass.",
                        );
                    }
                    Cl::Sub => {}
                }
                n.res = self.lookup("super", loc)?;
                Ok(())
            }
            T::Variable => {
                self.probed(&n.text);
                if n.text == "this" && self.c == Cl::None {
                    return err(loc, "this", "Cannot use 'this' outside of a class.");
                }
                let s = self.top();
                if let Some(i) = s.find(&n.text) {
                    if s.names[i].1 == St::Pending {
                        return err(
                            loc,
                            &n.text,
                            "Cannot read local variable in its own initializer.",
                        );
                    }
                }
                n.res = self.lookup(&n.text, loc)?;
                Ok(())
            }
            _ => self.all(&mut n.kids),
        }
    }

    fn var(&mut self, n: &mut Node, loc: (u32, u16)) -> R<()> {
        let g = self.global();
        let s = self.top();
        let slot = match s.find(&n.text) {
            None => s.add(&n.text, St::Pending, loc)?,
            Some(i) => {
                match s.names[i].1 {
                    St::Mentioned => s.names[i].1 = St::Pending,
                    // A defined global stays readable.
                    _ if g => {}
                    _ => return err(loc, &n.text, TWICE),
                }
                i
            }
        };
        n.res = Res::Slot(slot as u8);
        let r = self.all(&mut n.kids);
        let s = self.top();
        // Ready again, also when the initializer was wrong.
        if s.names[slot].1 == St::Ready && !g {
            // Only reachable when the initializer itself declared the name,
            // which no expression does in its own scope.
            return err(loc, &n.text, TWICE);
        }
        s.names[slot].1 = St::Ready;
        r
    }

    fn function(&mut self, n: &mut Node, f: Fn_) -> R<()> {
        let outer = std::mem::replace(&mut self.f, f);
        let r = self.scoped(|c| {
            for k in &mut n.kids {
                if k.t == T::Param {
                    c.introduce(&k.text, k.loc.unwrap())?;
                } else {
                    c.any(k)?;
                }
            }
            Ok(())
        });
        self.f = outer;
        r
    }

    fn class(&mut self, n: &mut Node) -> R<()> {
        let loc = n.loc.unwrap();
        let sub = n.kids[0].t != T::Absent;
        let outer = std::mem::replace(&mut self.c, if sub { Cl::Sub } else { Cl::Base });
        let r = self.class_in(n, loc, sub);
        self.c = outer;
        r
    }

    fn class_in(&mut self, n: &mut Node, loc: (u32, u16), sub: bool) -> R<()> {
        self.introduce(&n.text, loc)?;
        if !sub {
            return self.methods(n, loc);
        }
        if n.kids[0].text == n.text {
            let l = n.kids[0].loc.unwrap();
            return err(l, &n.text, "A class cannot inherit from itself.");
        }
        self.stmt(&mut n.kids[0])?;
        self.scoped(|c| {
            c.introduce("super", loc)?;
            c.methods(n, loc)
        })
    }

    fn methods(&mut self, n: &mut Node, loc: (u32, u16)) -> R<()> {
        self.scoped(|c| {
            c.introduce("this", loc)?;
            for m in &mut n.kids[1..] {
                let f = &mut m.kids[0];
                let kind = if f.text == "init" {
                    Fn_::Init
                } else {
                    Fn_::Method
                };
                c.function(f, kind)?;
            }
            Ok(())
        })
    }
}

/// The state in which the variable `name` is used, as seen there: every scope's
/// names in order with their states, and the innermost function and class.
pub fn probe(s: &mut Session, prog: &mut Node, name: &str) -> Option<String> {
    let mut cx = Ctx {
        scopes: vec![s.globals.clone()],
        f: Fn_::None,
        c: Cl::None,
    };
    PROBE.with(|p| *p.borrow_mut() = (name.to_owned(), None));
    for st in &mut prog.kids {
        if cx.stmt(st).is_err() {
            cx.scopes.truncate(1);
            cx.f = Fn_::None;
            cx.c = Cl::None;
        }
    }
    PROBE.with(|p| std::mem::take(&mut *p.borrow_mut()).1)
}

thread_local! {
    static PROBE: std::cell::RefCell<(String, Option<String>)> =
        const { std::cell::RefCell::new((String::new(), None)) };
}

impl Ctx {
    fn probed(&self, n: &str) {
        PROBE.with(|p| {
            let mut p = p.borrow_mut();
            if !p.0.is_empty() && p.0 == n {
                p.1 = Some(format!("{:?}{:?}{:?}", self.scopes, self.f, self.c));
            }
        })
    }
}
