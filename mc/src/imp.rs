//! The code under test, and its trees and errors in the reference's terms.

use crate::model_scan::K;
use crate::node::{MErr, Res, Ser, T};
use whitespace::ast::*;
use whitespace::environment::VarLoc;
use whitespace::error::{ParseError, ParseErrorCause};
use whitespace::source_loc::SourceLoc;
use whitespace::token::TokenType as TT;

pub fn kind(t: TT) -> K {
    match t {
        TT::Indent => K::Indent,
        TT::Outdent => K::Outdent,
        TT::Terminator => K::Terminator,
        TT::LeftParen => K::LParen,
        TT::LeftParenAbutting => K::LParenAbut,
        TT::RightParen => K::RParen,
        TT::LeftBrace => K::LBrace,
        TT::RightBrace => K::RBrace,
        TT::LeftBracket => K::LBracket,
        TT::RightBracket => K::RBracket,
        TT::Colon => K::Colon,
        TT::Comma => K::Comma,
        TT::Dot => K::Dot,
        TT::Minus => K::Minus,
        TT::Plus => K::Plus,
        TT::Semicolon => K::Semicolon,
        TT::Slash => K::Slash,
        TT::Star => K::Star,
        TT::Bang => K::Bang,
        TT::BangEqual => K::BangEq,
        TT::Equal => K::Eq,
        TT::EqualEqual => K::EqEq,
        TT::Greater => K::Gt,
        TT::GreaterEqual => K::GtEq,
        TT::Less => K::Lt,
        TT::LessEqual => K::LtEq,
        TT::Identifier => K::Ident,
        TT::String => K::Str,
        TT::Number => K::Num,
        TT::And => K::And,
        TT::Break => K::Break,
        TT::Class => K::Class,
        TT::Continue => K::Continue,
        TT::Else => K::Else,
        TT::False => K::False,
        TT::Fun => K::Fun,
        TT::For => K::For,
        TT::If => K::If,
        TT::Nil => K::Nil,
        TT::Or => K::Or,
        TT::Print => K::Print,
        TT::Return => K::Return,
        TT::Super => K::Super,
        TT::This => K::This,
        TT::True => K::True,
        TT::Var => K::Var,
        TT::While => K::While,
        TT::Eof => K::Eof,
    }
}

pub fn cause(c: &ParseErrorCause) -> MErr {
    MErr {
        line: c.source_loc.line,
        col: c.source_loc.column,
        token: c.token.clone(),
        msg: c.message.clone(),
    }
}

pub fn causes(e: &ParseError) -> Vec<MErr> {
    e.causes.iter().map(cause).collect()
}

/// `VarLoc`'s distance has no accessor; equality finds it.
pub fn distance(v: &VarLoc) -> u16 {
    let i = v.index();
    for d in 0..=u16::MAX {
        if *v == VarLoc::new(d, i) {
            return d;
        }
    }
    unreachable!()
}

impl<'a> Ser<'a> {
    fn at(&mut self, l: &SourceLoc) {
        self.loc(l.line, l.column)
    }
    fn uses(&mut self, v: &VarLoc) {
        if self.flags & crate::node::RES != 0 {
            self.res(Res::Use(distance(v), v.index()))
        }
    }
    pub fn program(&mut self, p: &[Stmt]) {
        self.open(T::Program);
        self.stmts(p);
        self.close();
    }
    pub fn single(&mut self, e: &Expr) {
        self.open(T::Program);
        self.expr(e);
        self.close();
    }
    fn stmts(&mut self, p: &[Stmt]) {
        for s in p {
            self.stmt(s)
        }
    }
    fn absent(&mut self) {
        self.open(T::Absent);
        self.close();
    }
    fn named(&mut self, f: &NamedFunctionDefinition) {
        self.open(T::Fun);
        self.text(&f.name);
        self.fun(&f.fun_def);
        self.close();
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        self.open(T::FunDef);
        self.kind(match f.fun_type {
            FunctionType::PlainFunction => "plain",
            FunctionType::Method => "method",
            FunctionType::Initializer => "init",
            FunctionType::ClassMethod => "class",
        });
        self.at(&f.source_loc);
        for p in &f.parameters {
            self.open(T::Param);
            self.text(&p.name);
            self.at(&p.source_loc);
            self.close();
        }
        self.absent();
        self.stmts(&f.body);
        self.close();
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(b) => {
                self.open(T::Block);
                self.stmts(b);
            }
            Stmt::Break(l) => {
                self.open(T::Break);
                self.at(l);
            }
            Stmt::Class(c) => {
                self.open(T::Class);
                self.text(&c.name);
                self.at(&c.source_loc);
                match &c.superclass {
                    None => self.absent(),
                    Some(e) => self.expr(e),
                }
                for m in &c.methods {
                    self.named(m);
                }
            }
            Stmt::Continue(l) => {
                self.open(T::Continue);
                self.at(l);
            }
            Stmt::Expression(e) => {
                self.open(T::ExprStmt);
                self.expr(e);
            }
            Stmt::Fun(f) => return self.named(f),
            Stmt::If(c, t, e) => {
                self.open(T::If);
                self.expr(c);
                self.stmt(t);
                match e {
                    None => self.absent(),
                    Some(e) => self.stmt(e),
                }
            }
            Stmt::Print(e) => {
                self.open(T::Print);
                self.expr(e);
            }
            Stmt::Return(e, l) => {
                self.open(T::Return);
                self.at(l);
                self.expr(e);
            }
            Stmt::Var(n, slot, e, l) => {
                self.open(T::Var);
                self.text(n);
                self.at(l);
                self.res(Res::Slot(slot.get().index()));
                self.expr(e);
            }
            Stmt::While(c, b) => {
                self.open(T::While);
                self.expr(c);
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.open(T::WhileInc);
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
        self.close();
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Assign(n, v, e, l) => {
                self.open(T::Assign);
                self.text(n);
                self.at(l);
                self.uses(&v.get());
                self.expr(e);
            }
            Expr::Call(f, a, l) => {
                self.open(T::Call);
                self.at(l);
                self.expr(f);
                for x in a {
                    self.expr(x);
                }
            }
            Expr::Binary(a, op, b, l) => {
                self.open(T::Binary);
                self.op(match op {
                    BinaryOperator::Plus => "+",
                    BinaryOperator::Minus => "-",
                    BinaryOperator::Multiply => "*",
                    BinaryOperator::Divide => "/",
                    BinaryOperator::Equal => "==",
                    BinaryOperator::NotEqual => "!=",
                    BinaryOperator::Less => "<",
                    BinaryOperator::LessEqual => "<=",
                    BinaryOperator::Greater => ">",
                    BinaryOperator::GreaterEqual => ">=",
                });
                self.at(l);
                self.expr(a);
                self.expr(b);
            }
            Expr::Function(f) => return self.fun(f),
            Expr::Get(o, n, l) => {
                self.open(T::Get);
                self.text(n);
                self.at(l);
                self.expr(o);
            }
            Expr::GetIndex(o, i, l) => {
                self.open(T::GetIndex);
                self.at(l);
                self.expr(o);
                self.expr(i);
            }
            Expr::Grouping(e) => {
                self.open(T::Grouping);
                self.expr(e);
            }
            Expr::LiteralArray(a) => {
                self.open(T::Array);
                for x in a {
                    self.expr(x);
                }
            }
            Expr::LiteralBool(b) => {
                self.open(T::Bool);
                self.text(if *b { "true" } else { "false" });
            }
            Expr::LiteralMap(m) => {
                self.open(T::Map);
                for (k, v) in m.iter() {
                    self.open(T::Entry);
                    self.text(k);
                    self.expr(v);
                    self.close();
                }
            }
            Expr::LiteralNumber(n) => {
                self.open(T::Number);
                self.num(*n);
            }
            Expr::LiteralNil => self.open(T::Nil),
            Expr::LiteralString(s) => {
                self.open(T::Str);
                self.text(s);
            }
            Expr::Logical(a, op, b) => {
                self.open(T::Logical);
                self.op(match op {
                    LogicalOperator::And => "and",
                    LogicalOperator::Or => "or",
                });
                self.expr(a);
                self.expr(b);
            }
            Expr::Set(o, n, v, l) => {
                self.open(T::Set);
                self.text(n);
                self.at(l);
                self.expr(o);
                self.expr(v);
            }
            Expr::SetIndex(o, i, v, l) => {
                self.open(T::SetIndex);
                self.at(l);
                self.expr(o);
                self.expr(i);
                self.expr(v);
            }
            Expr::Super(v, n, l) => {
                self.open(T::Super);
                self.text(n);
                self.at(l);
                self.uses(&v.get());
            }
            Expr::Variable(n, v, l) => {
                self.open(T::Variable);
                self.text(n);
                self.at(l);
                self.uses(&v.get());
            }
            Expr::Unary(op, e, l) => {
                self.open(T::Unary);
                self.op(match op {
                    UnaryOperator::Minus => "-",
                    UnaryOperator::Not => "!",
                });
                self.at(l);
                self.expr(e);
            }
        }
        self.close();
    }
}
