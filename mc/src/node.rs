//! Tree shared by the reference model and the reports, and its canonical
//! serialisation, restricted to the aspects (flags) a property speaks about.

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum T {
    Program = 1,
    Block,
    Break,
    Class,
    Continue,
    ExprStmt,
    Fun,
    If,
    Print,
    Return,
    Var,
    While,
    WhileInc,
    Assign,
    Call,
    Binary,
    Function,
    Get,
    GetIndex,
    Grouping,
    Array,
    Bool,
    Map,
    Entry,
    Number,
    Nil,
    Str,
    Logical,
    Set,
    SetIndex,
    Super,
    Variable,
    Unary,
    FunDef,
    Param,
    Absent,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Res {
    None,
    Use(u16, u8),
    Slot(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub t: T,
    pub text: String,
    pub num: f64,
    pub loc: Option<(u32, u16)>,
    pub res: Res,
    pub kids: Vec<Node>,
}

pub const LOC: u32 = 1; // positions
pub const RES: u32 = 2; // distances and slots
pub const LIT: u32 = 4; // literal values and names
pub const KIND: u32 = 8; // function kinds
pub const SHAPE: u32 = 16; // node kinds, operators, children
pub const ALL: u32 = 31;

impl Node {
    pub fn new(t: T) -> Node {
        Node {
            t,
            text: String::new(),
            num: 0.0,
            loc: None,
            res: Res::None,
            kids: Vec::new(),
        }
    }
    pub fn text(mut self, s: &str) -> Node {
        self.text = s.to_owned();
        self
    }
    pub fn at(mut self, loc: (u32, u16)) -> Node {
        self.loc = Some(loc);
        self
    }
    pub fn kid(mut self, n: Node) -> Node {
        self.kids.push(n);
        self
    }
    pub fn kids(mut self, n: Vec<Node>) -> Node {
        self.kids.extend(n);
        self
    }
    pub fn ser(&self, flags: u32, out: &mut Vec<u8>) {
        let mut s = Ser { flags, out };
        s.open(self.t);
        match self.t {
            T::Binary | T::Logical | T::Unary => s.op(&self.text),
            T::FunDef => s.kind(&self.text),
            T::Number => s.num(self.num),
            T::Bool
            | T::Class
            | T::Fun
            | T::Var
            | T::Assign
            | T::Get
            | T::Str
            | T::Entry
            | T::Set
            | T::Super
            | T::Variable
            | T::Param => s.text(&self.text),
            _ => {}
        }
        if let Some(l) = self.loc {
            s.loc(l.0, l.1)
        }
        s.res(self.res);
        for k in &self.kids {
            k.ser(flags, out);
        }
        if flags & SHAPE != 0 {
            out.push(b')');
        }
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.pp(&mut o);
        o
    }
    fn pp(&self, o: &mut String) {
        use std::fmt::Write;
        let _ = write!(o, "({:?}", self.t);
        if self.t == T::Number {
            let _ = write!(o, " {:?}", self.num);
        }
        if !self.text.is_empty() || self.t == T::Str {
            let _ = write!(o, " {:?}", self.text);
        }
        if let Some((l, c)) = self.loc {
            let _ = write!(o, " @{l}:{c}");
        }
        match self.res {
            Res::None => {}
            Res::Use(d, i) => {
                let _ = write!(o, " ->{d}/{i}");
            }
            Res::Slot(i) => {
                let _ = write!(o, " slot{i}");
            }
        }
        for k in &self.kids {
            o.push(' ');
            k.pp(o);
        }
        o.push(')');
    }
}

/// Byte serialiser used for the model tree and for the implementation's tree.
pub struct Ser<'a> {
    pub flags: u32,
    pub out: &'a mut Vec<u8>,
}

impl<'a> Ser<'a> {
    pub fn open(&mut self, t: T) {
        if self.flags & SHAPE != 0 {
            self.out.push(b'(');
            self.out.push(t as u8);
        }
    }
    pub fn close(&mut self) {
        if self.flags & SHAPE != 0 {
            self.out.push(b')');
        }
    }
    pub fn op(&mut self, s: &str) {
        if self.flags & SHAPE != 0 {
            self.out.extend_from_slice(s.as_bytes());
            self.out.push(0xF0);
        }
    }
    pub fn kind(&mut self, s: &str) {
        if self.flags & KIND != 0 {
            self.out.extend_from_slice(s.as_bytes());
            self.out.push(0xF1);
        }
    }
    pub fn text(&mut self, s: &str) {
        if self.flags & LIT != 0 {
            self.out.extend_from_slice(s.as_bytes());
            self.out.push(0xF2);
        }
    }
    pub fn num(&mut self, n: f64) {
        if self.flags & LIT != 0 {
            self.out.extend_from_slice(&n.to_bits().to_le_bytes());
            self.out.push(0xF3);
        }
    }
    pub fn loc(&mut self, l: u32, c: u16) {
        if self.flags & LOC != 0 {
            self.out.push(b'@');
            self.out.extend_from_slice(&l.to_le_bytes());
            self.out.extend_from_slice(&c.to_le_bytes());
        }
    }
    pub fn res(&mut self, r: Res) {
        if self.flags & RES != 0 {
            match r {
                Res::None => {}
                Res::Use(d, i) => {
                    self.out.push(b'>');
                    self.out.extend_from_slice(&d.to_le_bytes());
                    self.out.push(i);
                }
                Res::Slot(i) => {
                    self.out.push(b'$');
                    self.out.push(i);
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MErr {
    pub line: u32,
    pub col: u16,
    pub token: Option<String>,
    pub msg: String,
}
