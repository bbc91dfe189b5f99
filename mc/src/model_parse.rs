//! Reference parser: a table-driven precedence parser over the reference
//! scanner's tokens.  Produces the tree, or the complete list of errors.
//!
//! In prefix mode the token list is a beginning of a text: when the parser
//! wants a token that is not there yet it stops with `Stop::More`, and
//! `config()` describes the parser configuration at that point (the stack of
//! open constructs and what is known about the innermost operand).

use crate::model_scan::{K, Tok};
use crate::node::{MErr, Node, T};
use std::panic::Location;

pub enum Stop {
    More(u32),
    Err(MErr),
}
type R<X> = Result<X, Stop>;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    File,
    Repl,
    Expr,
}

pub struct P<'a> {
    src: &'a str,
    toks: &'a [Tok],
    i: usize,
    loops: u32,
    trailing: bool,
    prefix: bool,
    path: Vec<u32>,
}

pub enum Prefix {
    /// Still a beginning of some program; the configuration.
    Open(Vec<u32>),
    /// No continuation is a program.
    Dead,
}

fn bin_op(k: K) -> Option<(u8, &'static str, bool)> {
    Some(match k {
        K::Or => (1, "or", true),
        K::And => (2, "and", true),
        K::EqEq => (3, "==", false),
        K::BangEq => (3, "!=", false),
        K::Lt => (4, "<", false),
        K::LtEq => (4, "<=", false),
        K::Gt => (4, ">", false),
        K::GtEq => (4, ">=", false),
        K::Plus => (5, "+", false),
        K::Minus => (5, "-", false),
        K::Star => (6, "*", false),
        K::Slash => (6, "/", false),
        _ => return None,
    })
}

fn starts_argument(k: K) -> bool {
    matches!(
        k,
        K::False
            | K::True
            | K::Nil
            | K::Num
            | K::Str
            | K::Ident
            | K::Fun
            | K::LParen
            | K::LBrace
            | K::Super
    )
}

fn sort(n: &Node) -> u32 {
    match n.t {
        T::Variable if n.text == "this" => 4,
        T::Variable => 1,
        T::Get => 2,
        T::GetIndex => 3,
        _ => 0,
    }
}

const MAX_LIST: usize = 255;

impl<'a> P<'a> {
    pub fn new(src: &'a str, toks: &'a [Tok], mode: Mode) -> P<'a> {
        P {
            src,
            toks,
            i: 0,
            loops: 0,
            trailing: mode == Mode::Repl,
            prefix: false,
            path: vec![],
        }
    }

    // ---- tokens -------------------------------------------------------

    #[track_caller]
    fn k(&self, ahead: usize) -> R<K> {
        match self.toks.get(self.i + ahead) {
            Some(t) => Ok(t.k),
            None if self.prefix => Err(Stop::More(Location::caller().line())),
            None => Ok(K::None),
        }
    }
    fn text(&self, i: usize) -> &'a str {
        let t = &self.toks[i];
        &self.src[t.start as usize..t.end as usize]
    }
    fn loc(&self) -> (u32, u16) {
        let t = &self.toks[self.i];
        (t.line, t.col)
    }
    fn step(&mut self) {
        self.i += 1;
    }
    #[track_caller]
    fn eat(&mut self, k: K) -> R<bool> {
        let y = self.k(0)? == k;
        if y {
            self.i += 1;
        }
        Ok(y)
    }
    fn err_here(&self, msg: &str) -> Stop {
        self.err_tok(self.i, msg)
    }
    fn err_tok(&self, i: usize, msg: &str) -> Stop {
        let t = &self.toks[i];
        Stop::Err(MErr {
            line: t.line,
            col: t.col,
            token: Some(self.text(i).to_owned()),
            msg: msg.to_owned(),
        })
    }
    fn err_at(&self, loc: (u32, u16), tok: &str, msg: &str) -> Stop {
        Stop::Err(MErr {
            line: loc.0,
            col: loc.1,
            token: Some(tok.to_owned()),
            msg: msg.to_owned(),
        })
    }
    fn err_prev(&self, msg: &str) -> Stop {
        if self.i == 0 {
            Stop::Err(MErr {
                line: 1,
                col: 1,
                token: None,
                msg: msg.to_owned(),
            })
        } else {
            self.err_tok(self.i - 1, msg)
        }
    }
    #[track_caller]
    fn want(&mut self, k: K, msg: &str) -> R<()> {
        match self.k(0)? {
            x if x == k => {
                self.i += 1;
                Ok(())
            }
            _ => Err(self.err_here(msg)),
        }
    }
    #[track_caller]
    fn want_name(&mut self, msg: &str) -> R<(String, (u32, u16))> {
        match self.k(0)? {
            K::Ident => {
                let r = (self.text(self.i).to_owned(), self.loc());
                self.i += 1;
                Ok(r)
            }
            _ => Err(self.err_here(msg)),
        }
    }
    #[track_caller]
    fn want_paren(&mut self, msg: &str) -> R<()> {
        match self.k(0)? {
            K::LParen | K::LParenAbut => {
                self.i += 1;
                Ok(())
            }
            _ => Err(self.err_here(msg)),
        }
    }
    fn sub<X>(&mut self, label: u32, f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        self.path.push(label);
        let r = f(self)?;
        self.path.pop();
        Ok(r)
    }

    // ---- programs -----------------------------------------------------

    pub fn program(&mut self) -> Result<Node, Vec<MErr>> {
        let mut stmts = vec![];
        let mut errs = vec![];
        while self.toks[self.i].k != K::Eof {
            match self.declaration() {
                Ok(s) => stmts.push(s),
                Err(Stop::Err(e)) => {
                    errs.push(e);
                    self.recover();
                }
                Err(Stop::More(_)) => unreachable!(),
            }
        }
        if errs.is_empty() {
            Ok(Node::new(T::Program).kids(stmts))
        } else {
            Err(errs)
        }
    }

    pub fn single(&mut self) -> Result<Node, Vec<MErr>> {
        let r = self.expression().and_then(|e| {
            self.want(K::Eof, "Expected end of file")?;
            Ok(e)
        });
        match r {
            Ok(e) => Ok(Node::new(T::Program).kid(e)),
            Err(Stop::Err(e)) => Err(vec![e]),
            Err(Stop::More(_)) => unreachable!(),
        }
    }

    pub fn prefix(mut self) -> Prefix {
        self.prefix = true;
        loop {
            let r = match self.k(0) {
                Ok(_) => self.declaration().map(|_| ()),
                Err(e) => Err(e),
            };
            match r {
                Ok(()) => {}
                Err(Stop::More(line)) => {
                    let mut c = self.path;
                    c.push(line);
                    c.push(self.loops.min(2));
                    for t in &self.toks[self.i.min(self.toks.len())..] {
                        c.push(t.k as u32);
                    }
                    return Prefix::Open(c);
                }
                Err(Stop::Err(_)) => return Prefix::Dead,
            }
        }
    }

    fn recover(&mut self) {
        self.path.clear();
        loop {
            if self.toks[self.i].k == K::Eof {
                return;
            }
            self.i += 1;
            if self.toks[self.i].k == K::Eof {
                return;
            }
            if matches!(
                self.toks[self.i - 1].k,
                K::Class | K::Fun | K::Var | K::For | K::If | K::While | K::Print | K::Return
            ) {
                return;
            }
        }
    }

    // ---- statements ---------------------------------------------------

    fn declaration(&mut self) -> R<Node> {
        match self.k(0)? {
            K::Class => {
                self.step();
                self.sub(100, |p| p.class())
            }
            K::Fun if self.k(1)? == K::Ident => {
                self.step();
                self.sub(101, |p| p.named_function())
            }
            K::Var => {
                self.step();
                self.sub(102, |p| p.var(false))
            }
            _ => self.statement(),
        }
    }

    fn statement(&mut self) -> R<Node> {
        let k = self.k(0)?;
        let loc = self.loc();
        match k {
            K::Break | K::Continue => {
                self.step();
                let (t, name) = if k == K::Break {
                    (T::Break, "break")
                } else {
                    (T::Continue, "continue")
                };
                if self.loops == 0 {
                    return Err(
                        self.err_prev(&format!("Found {name} statement outside of loop body"))
                    );
                }
                self.want(K::Terminator, &format!("Expect newline after {name}."))?;
                Ok(Node::new(t).at(loc))
            }
            K::For => {
                self.step();
                self.sub(103, |p| p.for_loop())
            }
            K::If => {
                self.step();
                self.want_paren("Expect '(' after if.")?;
                let c = self.sub(104, |p| p.expression())?;
                self.want(K::RParen, "Expect ')' after if condition.")?;
                let then = self.sub(105, |p| p.body("if"))?;
                let other = if self.eat(K::Else)? {
                    self.sub(106, |p| p.body("else"))?
                } else {
                    Node::new(T::Absent)
                };
                Ok(Node::new(T::If).kid(c).kid(then).kid(other))
            }
            K::LBrace => {
                self.step();
                let b = self.sub(107, |p| p.block_rest(K::RBrace))?;
                Ok(Node::new(T::Block).kids(b))
            }
            K::Print => {
                self.step();
                let e = self.sub(108, |p| p.expression())?;
                self.want(K::Terminator, "Expect newline after print value.")?;
                Ok(Node::new(T::Print).kid(e))
            }
            K::Return => {
                self.step();
                let e = if self.k(0)? == K::Terminator {
                    Node::new(T::Nil)
                } else {
                    self.sub(109, |p| p.expression())?
                };
                self.want(K::Terminator, "Expect newline after return expression.")?;
                Ok(Node::new(T::Return).at(loc).kid(e))
            }
            K::While => {
                self.step();
                self.want_paren("Expect '(' after while.")?;
                let c = self.sub(110, |p| p.expression())?;
                self.want(K::RParen, "Expect ')' after while condition.")?;
                let b = self.loop_body()?;
                Ok(Node::new(T::While).kid(c).kid(b))
            }
            _ => {
                let e = self.sub(111, |p| p.expression())?;
                let open_end = self.trailing && self.k(0)? == K::Eof;
                if !open_end {
                    self.want(K::Terminator, "Expect newline after expression.")?;
                }
                Ok(Node::new(T::ExprStmt).kid(e))
            }
        }
    }

    /// A braced block, an indented block, or a single statement.
    fn body(&mut self, what: &str) -> R<Node> {
        match self.k(0)? {
            K::Terminator | K::LBrace => {
                let b = self.block(&format!("Expect '{{' or indent before {what} body."))?;
                Ok(Node::new(T::Block).kids(b))
            }
            _ => self.statement(),
        }
    }

    fn loop_body(&mut self) -> R<Node> {
        let outer = self.loops;
        self.loops += 1;
        let r = self.sub(112, |p| p.body("loop"));
        if !matches!(r, Err(Stop::More(_))) {
            self.loops = outer;
        }
        r
    }

    fn block(&mut self, msg: &str) -> R<Vec<Node>> {
        match self.k(0)? {
            K::Terminator => {
                self.step();
                self.want(K::Indent, "Expect indent to begin block")?;
                self.sub(113, |p| p.block_rest(K::Outdent))
            }
            K::LBrace => {
                self.step();
                self.sub(114, |p| p.block_rest(K::RBrace))
            }
            _ => Err(self.err_here(msg)),
        }
    }

    fn block_rest(&mut self, end: K) -> R<Vec<Node>> {
        let mut v = vec![];
        loop {
            let k = self.k(0)?;
            if k == end {
                self.step();
                return Ok(v);
            }
            if k == K::Eof {
                return Err(self.no_end(end, "block"));
            }
            v.push(self.declaration()?);
        }
    }

    fn no_end(&self, end: K, what: &str) -> Stop {
        let e = if end == K::Outdent { "outdent" } else { "'}'" };
        self.err_here(&format!("Expect {e} after {what}."))
    }

    fn var(&mut self, in_for: bool) -> R<Node> {
        let (name, loc) = self.want_name("Expect variable name.")?;
        let mut optional_end = false;
        let init = if self.eat(K::Eq)? {
            self.eat(K::Terminator)?;
            optional_end = matches!(self.k(0)?, K::Indent | K::LBrace);
            self.sub(120 + optional_end as u32, |p| p.expression())?
        } else {
            Node::new(T::Nil)
        };
        if in_for {
            self.want(K::Semicolon, "Expect ';' after var declaration.")?;
        } else if optional_end {
            self.eat(K::Terminator)?;
        } else {
            self.want(K::Terminator, "Expect newline after var declaration.")?;
        }
        Ok(Node::new(T::Var).text(&name).at(loc).kid(init))
    }

    fn for_loop(&mut self) -> R<Node> {
        self.want_paren("Expect '(' after for.")?;
        let init = match self.k(0)? {
            K::Semicolon => {
                self.step();
                None
            }
            K::Var => {
                self.step();
                Some(self.sub(122, |p| p.var(true))?)
            }
            _ => {
                let e = self.sub(123, |p| p.expression())?;
                self.want(K::Semicolon, "Expect ';' after for-loop initializer.")?;
                Some(Node::new(T::ExprStmt).kid(e))
            }
        };
        let cond = if self.k(0)? == K::Semicolon {
            Node::new(T::Bool).text("true")
        } else {
            self.sub(124, |p| p.expression())?
        };
        self.want(K::Semicolon, "Expect ';' after for-loop condition.")?;
        let inc = if self.k(0)? == K::RParen {
            None
        } else {
            Some(self.sub(125, |p| p.expression())?)
        };
        self.want(K::RParen, "Expect ')' after for-loop increment.")?;
        let body = self.loop_body()?;
        let lp = match inc {
            None => Node::new(T::While).kid(cond).kid(body),
            Some(i) => Node::new(T::WhileInc).kid(cond).kid(body).kid(i),
        };
        Ok(match init {
            None => lp,
            Some(i) => Node::new(T::Block).kid(i).kid(lp),
        })
    }

    fn class(&mut self) -> R<Node> {
        let (name, loc) = self.want_name("Expect identifier after 'class'.")?;
        let sup = if self.eat(K::Lt)? {
            let (s, l) = self.want_name("Expect superclass name.")?;
            Node::new(T::Variable).text(&s).at(l)
        } else {
            Node::new(T::Absent)
        };
        let end = match self.k(0)? {
            K::Terminator => {
                self.step();
                self.want(K::Indent, "Expect indent to begin block")?;
                K::Outdent
            }
            K::LBrace => {
                self.step();
                K::RBrace
            }
            _ => {
                return Err(self.err_here("Expect '{' or indent after class name."));
            }
        };
        let mut c = Node::new(T::Class).text(&name).at(loc).kid(sup);
        loop {
            let k = self.k(0)?;
            if k == end {
                self.step();
                return Ok(c);
            }
            if k == K::Eof {
                return Err(self.no_end(end, "class method body"));
            }
            let class_method = self.eat(K::Class)?;
            let mut m = self.sub(if end == K::Outdent { 126 } else { 127 }, |p| {
                p.named_function()
            })?;
            let kind = if class_method {
                "class"
            } else if m.text == "init" {
                "init"
            } else {
                "method"
            };
            m.kids[0].text = kind.to_owned();
            c.kids.push(m);
        }
    }

    fn named_function(&mut self) -> R<Node> {
        let (name, loc) = self.want_name("Expect identifier after 'fun'.")?;
        let f = self.function(loc)?;
        Ok(Node::new(T::Fun).text(&name).kid(f))
    }

    fn function(&mut self, loc: (u32, u16)) -> R<Node> {
        self.want_paren("Expect '(' after function name.")?;
        let mut params = vec![];
        if self.k(0)? != K::RParen {
            loop {
                let (p, l) = self.sub(130 + (params.len() > 0) as u32, |p| {
                    p.want_name("Expect identifier in function parameters.")
                })?;
                if params.len() >= MAX_LIST {
                    return Err(self.err_at(l, &p, "Cannot have more than 255 parameters."));
                }
                params.push(Node::new(T::Param).text(&p).at(l));
                if !self.eat(K::Comma)? {
                    break;
                }
            }
        }
        self.want(K::RParen, "Expect ')' after parameters.")?;
        // The end of the header is judged before the body's loops.
        let outer = self.loops;
        let body = self.sub(132, |p| {
            match p.k(0)? {
                K::Terminator | K::LBrace => {}
                _ => {
                    return Err(p.err_here("Expect '{' or indent before function body."));
                }
            }
            p.loops = 0;
            p.block("")
        });
        if !matches!(body, Err(Stop::More(_))) {
            self.loops = outer;
        }
        Ok(Node::new(T::FunDef)
            .text("plain")
            .at(loc)
            .kids(params)
            .kid(Node::new(T::Absent))
            .kids(body?))
    }

    // ---- expressions --------------------------------------------------

    fn expression(&mut self) -> R<Node> {
        let left = if self.eat(K::Indent)? {
            let e = self.sub(140, |p| p.binary(1))?;
            self.eat(K::Terminator)?;
            self.want(K::Outdent, "Expect outdent after indented expression.")?;
            e
        } else {
            self.sub(141, |p| p.binary(1))?
        };
        self.path.push(200 + sort(&left));
        let eq = self.k(0)? == K::Eq;
        self.path.pop();
        if !eq {
            return Ok(left);
        }
        let loc = self.loc();
        self.step();
        let value = self.sub(142 + (sort(&left) % 4 > 0) as u32, |p| p.expression())?;
        let text = left.text;
        match left.t {
            T::Get => Ok(Node::new(T::Set)
                .text(&text)
                .at(loc)
                .kids(left.kids)
                .kid(value)),
            T::GetIndex => Ok(Node::new(T::SetIndex).at(loc).kids(left.kids).kid(value)),
            T::Variable if text != "this" => {
                Ok(Node::new(T::Assign).text(&text).at(loc).kid(value))
            }
            _ => Err(self.err_at(loc, "=", "Invalid assignment target.")),
        }
    }

    fn binary(&mut self, min: u8) -> R<Node> {
        let mut left = self.unary()?;
        loop {
            self.path.push(210 + sort(&left));
            let k = self.k(0)?;
            self.path.pop();
            let Some((level, name, logical)) = bin_op(k) else {
                return Ok(left);
            };
            if level < min {
                return Ok(left);
            }
            let loc = self.loc();
            self.step();
            let right = self.sub(150 + level as u32, |p| p.binary(level + 1))?;
            left = if logical {
                Node::new(T::Logical).text(name).kid(left).kid(right)
            } else {
                Node::new(T::Binary).text(name).at(loc).kid(left).kid(right)
            };
        }
    }

    fn unary(&mut self) -> R<Node> {
        let name = match self.k(0)? {
            K::Bang => "!",
            K::Minus => "-",
            _ => return self.postfix(),
        };
        let loc = self.loc();
        self.step();
        let e = self.sub(160, |p| p.unary())?;
        Ok(Node::new(T::Unary).text(name).at(loc).kid(e))
    }

    fn postfix(&mut self) -> R<Node> {
        let mut e = self.primary()?;
        loop {
            self.path.push(220 + sort(&e));
            let k = self.k(0)?;
            self.path.pop();
            let loc = (self.toks[self.i].line, self.toks[self.i].col);
            match k {
                K::Dot => {
                    self.step();
                    let (n, _) = self.want_name("Expect property name after '.'.")?;
                    e = Node::new(T::Get).text(&n).at(loc).kid(e);
                }
                K::LBracket => {
                    self.step();
                    let i = self.sub(161, |p| p.expression())?;
                    self.want(K::RBracket, "Expect ']' after index.")?;
                    e = Node::new(T::GetIndex).at(loc).kid(e).kid(i);
                }
                K::LParenAbut => {
                    self.step();
                    let args = if self.k(0)? == K::RParen {
                        vec![]
                    } else {
                        self.arguments(162)?
                    };
                    self.want(K::RParen, "Expect ')' after arguments.")?;
                    e = Node::new(T::Call).at(loc).kid(e).kids(args);
                }
                k if starts_argument(k) => {
                    let args = self.arguments(164)?;
                    e = Node::new(T::Call).at(loc).kid(e).kids(args);
                }
                _ => return Ok(e),
            }
        }
    }

    fn arguments(&mut self, label: u32) -> R<Vec<Node>> {
        let mut v = vec![];
        loop {
            if v.len() >= MAX_LIST {
                self.k(0)?;
                return Err(self.err_here("Cannot have more than 255 arguments."));
            }
            let more = !v.is_empty();
            v.push(self.sub(label + more as u32, |p| p.expression())?);
            if !self.eat(K::Comma)? {
                return Ok(v);
            }
        }
    }

    fn primary(&mut self) -> R<Node> {
        let k = self.k(0)?;
        let here = self.i;
        match k {
            K::False | K::True => {
                self.step();
                Ok(Node::new(T::Bool).text(self.text(here)))
            }
            K::Nil => {
                self.step();
                Ok(Node::new(T::Nil))
            }
            K::Num => {
                self.step();
                let mut n = Node::new(T::Number);
                n.num = self.toks[here].num.unwrap();
                Ok(n)
            }
            K::Str | K::Ident | K::This => {
                if self.k(1)? == K::Colon {
                    return self.sub(170, |p| p.entries());
                }
                let loc = self.loc();
                self.step();
                Ok(if k == K::Str {
                    Node::new(T::Str).text(self.content(here))
                } else {
                    Node::new(T::Variable).text(self.text(here)).at(loc)
                })
            }
            K::Fun => {
                let loc = self.loc();
                self.step();
                if self.eat(K::Ident)? {
                    return Err(
                        self.err_prev("Expect function in expression context to not have a name.")
                    );
                }
                self.sub(171, |p| p.function(loc))
            }
            K::LParen | K::LParenAbut => {
                self.step();
                let e = self.sub(172, |p| p.expression())?;
                self.want(K::RParen, "Missing close parenthesis.")?;
                Ok(Node::new(T::Grouping).kid(e))
            }
            K::LBrace => {
                self.step();
                let m = self.sub(173, |p| p.entries())?;
                self.want(K::RBrace, "Expect '}' after map entries.")?;
                Ok(m)
            }
            K::LBracket => {
                self.step();
                let mut a = Node::new(T::Array);
                while self.k(0)? != K::RBracket {
                    let more = !a.kids.is_empty();
                    let e = self.sub(174 + more as u32, |p| p.expression())?;
                    a.kids.push(e);
                    if !self.eat(K::Comma)? {
                        break;
                    }
                }
                self.want(K::RBracket, "Expect ']' after array elements.")?;
                Ok(a)
            }
            K::Super => {
                let loc = self.loc();
                self.step();
                self.want(K::Dot, "Expect '.' after 'super'.")?;
                let (n, _) = self.want_name("Expect superclass method name.")?;
                Ok(Node::new(T::Super).text(&n).at(loc))
            }
            K::Eof => Err(self.err_prev("Expect expression.")),
            _ => {
                self.step();
                Err(self.err_prev("Expect expression."))
            }
        }
    }

    fn content(&self, i: usize) -> &'a str {
        let (a, b) = self.toks[i].lit.unwrap();
        &self.src[a as usize..b as usize]
    }

    /// Map entries: key ':' value, separated by commas, or by line breaks when
    /// another entry or the closing brace follows.
    fn entries(&mut self) -> R<Node> {
        let mut m = Node::new(T::Map);
        let mut many: std::collections::HashSet<&str> = Default::default();
        loop {
            let key = match self.k(0)? {
                K::Ident if self.k(1)? == K::Colon => self.text(self.i),
                K::Str if self.k(1)? == K::Colon => self.content(self.i),
                _ => return Ok(m),
            };
            let loc = self.loc();
            self.i += 2;
            let more = !m.kids.is_empty();
            let v = self.sub(176 + more as u32, |p| p.expression())?;
            let known = if m.kids.len() < 40 {
                m.kids.iter().any(|e| e.text == key)
            } else {
                many.contains(key)
            };
            many.insert(key);
            if known {
                return Err(self.err_at(loc, key, "Duplicate key in literal map."));
            }
            m.kids.push(Node::new(T::Entry).text(key).kid(v));
            match self.k(0)? {
                K::Comma => self.step(),
                K::Terminator => {
                    let joined = match self.k(1)? {
                        K::RBrace => true,
                        K::Ident | K::Str => self.k(2)? == K::Colon,
                        _ => false,
                    };
                    if !joined {
                        return Ok(m);
                    }
                    self.step();
                }
                _ => return Ok(m),
            }
        }
    }
}

pub fn parse(src: &str, toks: &[Tok], mode: Mode) -> Result<Node, Vec<MErr>> {
    let mut p = P::new(src, toks, mode);
    if mode == Mode::Expr {
        p.single()
    } else {
        p.program()
    }
}
