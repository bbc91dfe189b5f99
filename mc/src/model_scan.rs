//! Reference scanner: an explicit automaton fed one grapheme at a time.
//!
//! Control state: mode, stack of open block widths, begin-of-line flag, number
//! of leading spaces, "this line continues the previous one", "the last token
//! asks for continuation", "no whitespace since the last token".  Positions are
//! carried along but never influence a transition (see `canon`).

use crate::node::MErr;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    Indent,
    Outdent,
    Terminator,
    LParen,
    LParenAbut,
    RParen,
    LBrace,
    RBrace,
    LBracket,
    RBracket,
    Colon,
    Comma,
    Dot,
    Minus,
    Plus,
    Semicolon,
    Slash,
    Star,
    Bang,
    BangEq,
    Eq,
    EqEq,
    Gt,
    GtEq,
    Lt,
    LtEq,
    Ident,
    Str,
    Num,
    And,
    Break,
    Class,
    Continue,
    Else,
    False,
    Fun,
    For,
    If,
    Nil,
    Or,
    Print,
    Return,
    Super,
    This,
    True,
    Var,
    While,
    Eof,
    /// past the end of the token list
    None,
}

pub const RESERVED: [(&str, K); 18] = [
    ("and", K::And),
    ("break", K::Break),
    ("class", K::Class),
    ("continue", K::Continue),
    ("else", K::Else),
    ("false", K::False),
    ("for", K::For),
    ("fun", K::Fun),
    ("if", K::If),
    ("nil", K::Nil),
    ("or", K::Or),
    ("print", K::Print),
    ("return", K::Return),
    ("super", K::Super),
    ("this", K::This),
    ("true", K::True),
    ("var", K::Var),
    ("while", K::While),
];

pub fn reserved(s: &str) -> Option<K> {
    if s.len() < 2 || s.len() > 8 {
        return None;
    }
    RESERVED.iter().find(|(w, _)| *w == s).map(|(_, k)| *k)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub k: K,
    pub start: u32,
    pub end: u32,
    /// byte range of a string's content
    pub lit: Option<(u32, u32)>,
    pub num: Option<f64>,
    pub line: u32,
    pub col: u16,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Top,
    Ident,
    Num,
    NumDot,
    Frac,
    Str,
    Comment,
    /// one of ! = < > that may be followed by =
    MaybeEq(u8),
    Slash,
    Back(bool),
}

#[derive(Copy, Clone, Debug)]
struct Mark {
    at: usize,
    line: u32,
    col: u32,
}

#[derive(Clone)]
pub struct Scan {
    pub mode: Mode,
    pub stack: Vec<u32>,
    pub bol: bool,
    pub spaces: u32,
    pub cont: bool,
    pub trail: bool,
    pub abut: bool,
    line: u32,
    col: u32,
    tok: Mark,
    dot: Mark,
    pub toks: Vec<Tok>,
    pub errs: Vec<MErr>,
}

/// The part of the state that decides the future (positions dropped: no
/// transition reads them).  `spaces`/`cont` are only read while `bol` holds.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Canon {
    pub mode: Mode,
    pub stack: Vec<u32>,
    pub bol: bool,
    pub spaces: u32,
    pub cont: bool,
    pub trail: bool,
    pub abut: bool,
}

fn sat(c: u32) -> u16 {
    c.min(65535) as u16
}

fn base(cl: &str) -> char {
    cl.chars().next().unwrap()
}
fn digit(cl: &str) -> bool {
    cl.len() == 1 && cl.as_bytes()[0].is_ascii_digit()
}
fn letter(cl: &str) -> bool {
    let c = base(cl);
    c == '_' || c.is_alphabetic()
}
fn word(cl: &str) -> bool {
    let c = base(cl);
    c == '_' || c.is_alphanumeric()
}
fn newline(cl: &str) -> bool {
    cl == "\n" || cl == "\r\n"
}

impl Scan {
    pub fn new() -> Scan {
        let m = Mark {
            at: 0,
            line: 1,
            col: 1,
        };
        Scan {
            mode: Mode::Top,
            stack: vec![],
            bol: true,
            spaces: 0,
            cont: false,
            trail: false,
            abut: false,
            line: 1,
            col: 1,
            tok: m,
            dot: m,
            toks: vec![],
            errs: vec![],
        }
    }

    pub fn canon(&self) -> Canon {
        Canon {
            mode: self.mode,
            stack: self.stack.clone(),
            bol: self.bol,
            spaces: if self.bol { self.spaces } else { 0 },
            cont: self.bol && self.cont,
            trail: self.trail,
            abut: self.abut,
        }
    }

    fn err(&mut self, line: u32, col: u32, msg: &str) {
        self.errs.push(MErr {
            line,
            col: sat(col),
            token: None,
            msg: msg.to_owned(),
        });
    }

    fn put(&mut self, k: K, m: Mark, end: usize) {
        self.toks.push(Tok {
            k,
            start: m.at as u32,
            end: end as u32,
            lit: None,
            num: None,
            line: m.line,
            col: sat(m.col),
        });
    }

    /// A token of kind `k` from mark to `end`; `trail` = asks for continuation.
    fn emit(&mut self, k: K, m: Mark, end: usize, trail: bool) {
        self.put(k, m, end);
        self.trail = trail;
        self.abut = true;
    }

    /// The first code cluster of a line decides the blocks.
    fn layout(&mut self, m: Mark, end: usize) {
        if !self.bol {
            return;
        }
        self.bol = false;
        let here = self.spaces;
        let open = self.stack.last().copied().unwrap_or(0);
        if here > open {
            if !self.cont {
                self.put(K::Indent, m, end);
                self.stack.push(here);
            }
        } else if here < open {
            while self.stack.last().is_some_and(|w| *w > here) {
                self.stack.pop();
                self.put(K::Outdent, m, end);
            }
            if self.stack.last().copied().unwrap_or(0) != here {
                self.err(
                    m.line,
                    m.col,
                    "Outdent does not match any previous indentation level",
                );
            }
        }
    }

    fn next_line(&mut self) {
        if !self.bol {
            self.cont = self.trail;
        }
        self.trail = false;
        self.bol = true;
        self.spaces = 0;
        self.abut = false;
    }

    pub fn feed(&mut self, src: &str, cl: &str, at: usize) {
        self.step(src, cl, at);
        if newline(cl) {
            self.line = self.line.saturating_add(1);
            self.col = 1;
        } else {
            self.col += 1;
        }
    }

    fn step(&mut self, src: &str, cl: &str, at: usize) {
        let here = Mark {
            at,
            line: self.line,
            col: self.col,
        };
        let after = at + cl.len();
        match self.mode {
            Mode::Top => {}
            Mode::Ident => {
                if word(cl) {
                    return;
                }
                self.end_ident(src, at);
            }
            Mode::Num => {
                if digit(cl) {
                    return;
                }
                if cl == "." {
                    self.mode = Mode::NumDot;
                    self.dot = here;
                    return;
                }
                self.end_num(src, at);
            }
            Mode::NumDot => {
                if digit(cl) {
                    self.mode = Mode::Frac;
                    return;
                }
                self.end_num_dot(src);
            }
            Mode::Frac => {
                if digit(cl) {
                    return;
                }
                self.end_num(src, at);
            }
            Mode::Str => {
                if cl == "\"" {
                    let m = self.tok;
                    self.emit(K::Str, m, after, false);
                    self.toks.last_mut().unwrap().lit = Some((m.at as u32 + 1, at as u32));
                    self.mode = Mode::Top;
                }
                return;
            }
            Mode::Comment => {
                if !newline(cl) {
                    return;
                }
                self.mode = Mode::Top;
            }
            Mode::MaybeEq(c) => {
                self.mode = Mode::Top;
                if cl == "=" {
                    let m = self.tok;
                    let (k, t) = match c {
                        b'!' => (K::BangEq, false),
                        b'=' => (K::EqEq, false),
                        b'<' => (K::LtEq, true),
                        _ => (K::GtEq, true),
                    };
                    self.emit(k, m, after, t);
                    return;
                }
                self.end_maybe_eq(c, at);
            }
            Mode::Slash => {
                if cl == "/" {
                    self.mode = Mode::Comment;
                    self.abut = true;
                    return;
                }
                self.end_slash();
            }
            Mode::Back(cr) => {
                if cl == " " && !cr {
                    return;
                }
                if cl == "\r" && !cr {
                    self.mode = Mode::Back(true);
                    return;
                }
                self.mode = Mode::Top;
                if newline(cl) {
                    self.next_line();
                    self.cont = true;
                    return;
                }
                self.end_back();
            }
        }

        // A cluster that starts something new.
        match cl {
            " " => {
                if self.bol {
                    self.spaces = self.spaces.saturating_add(1);
                }
                self.abut = false;
                return;
            }
            "\r" => {
                self.abut = false;
                return;
            }
            "\t" => {
                self.err(
                    here.line,
                    here.col,
                    "Illegal tab character; all whitespace must be spaces",
                );
                self.trail = false;
                self.abut = false;
                return;
            }
            "\n" | "\r\n" => {
                if !self.bol && !self.trail {
                    self.put(K::Terminator, here, after);
                }
                self.next_line();
                return;
            }
            "/" => {
                self.tok = here;
                self.mode = Mode::Slash;
                return;
            }
            "\\" => {
                self.tok = here;
                self.mode = Mode::Back(false);
                return;
            }
            _ => {}
        }
        self.layout(here, after);
        let single = match cl {
            "(" => Some((if self.abut { K::LParenAbut } else { K::LParen }, true)),
            ")" => Some((K::RParen, false)),
            "{" => Some((K::LBrace, true)),
            "}" => Some((K::RBrace, false)),
            "[" => Some((K::LBracket, true)),
            "]" => Some((K::RBracket, false)),
            ":" => Some((K::Colon, true)),
            "," => Some((K::Comma, true)),
            "." => Some((K::Dot, true)),
            "-" => Some((K::Minus, true)),
            "+" => Some((K::Plus, true)),
            ";" => Some((K::Semicolon, false)),
            "*" => Some((K::Star, true)),
            _ => None,
        };
        if let Some((k, t)) = single {
            self.emit(k, here, after, t);
            return;
        }
        self.tok = here;
        match cl {
            "!" | "=" | "<" | ">" => {
                self.mode = Mode::MaybeEq(cl.as_bytes()[0]);
            }
            "\"" => self.mode = Mode::Str,
            _ if digit(cl) => self.mode = Mode::Num,
            _ if letter(cl) => self.mode = Mode::Ident,
            _ => {
                self.err(here.line, here.col, &format!("Unexpected token: {cl}"));
                self.trail = false;
                self.abut = true;
            }
        }
    }

    fn end_ident(&mut self, src: &str, end: usize) {
        let m = self.tok;
        let k = reserved(&src[m.at..end]).unwrap_or(K::Ident);
        self.emit(k, m, end, false);
        self.mode = Mode::Top;
    }

    fn end_num(&mut self, src: &str, end: usize) {
        let m = self.tok;
        self.emit(K::Num, m, end, false);
        self.toks.last_mut().unwrap().num = Some(src[m.at..end].parse().unwrap());
        self.mode = Mode::Top;
    }

    fn end_num_dot(&mut self, src: &str) {
        let d = self.dot;
        self.end_num(src, d.at);
        self.emit(K::Dot, d, d.at + 1, true);
    }

    fn end_maybe_eq(&mut self, c: u8, end: usize) {
        let m = self.tok;
        let (k, t) = match c {
            b'!' => (K::Bang, false),
            b'=' => (K::Eq, false),
            b'<' => (K::Lt, true),
            _ => (K::Gt, true),
        };
        self.emit(k, m, end, t);
        self.mode = Mode::Top;
    }

    fn end_slash(&mut self) {
        let m = self.tok;
        self.layout(m, m.at + 1);
        self.emit(K::Slash, m, m.at + 1, true);
        self.mode = Mode::Top;
    }

    fn end_back(&mut self) {
        let m = self.tok;
        self.err(m.line, m.col, "Unexpected character: '\\'");
        self.trail = false;
        self.abut = true;
        self.mode = Mode::Top;
    }

    pub fn finish(&mut self, src: &str) {
        let end = src.len();
        match self.mode {
            Mode::Top | Mode::Comment => {}
            Mode::Ident => self.end_ident(src, end),
            Mode::Num | Mode::Frac => self.end_num(src, end),
            Mode::NumDot => self.end_num_dot(src),
            Mode::Str => {
                let (l, c) = (self.line, self.col);
                self.err(l, c, "Unterminated string.");
            }
            Mode::MaybeEq(c) => self.end_maybe_eq(c, end),
            Mode::Slash => self.end_slash(),
            Mode::Back(_) => self.end_back(),
        }
        self.mode = Mode::Top;
        let here = Mark {
            at: end,
            line: self.line,
            col: self.col,
        };
        for _ in 0..self.stack.len() {
            self.put(K::Outdent, here, end);
        }
        self.put(K::Eof, here, end);
    }

    pub fn feed_all(&mut self, src: &str) {
        // Fast path: pure ASCII without carriage returns is one byte per
        // grapheme (control characters included).
        if src.is_ascii() && !src.contains('\r') {
            for i in 0..src.len() {
                self.feed(src, &src[i..i + 1], i);
            }
        } else {
            for (i, cl) in src.grapheme_indices(true) {
                self.feed(src, cl, i);
            }
        }
    }
}

pub fn scan(src: &str) -> Scan {
    let mut s = Scan::new();
    s.feed_all(src);
    s.finish(src);
    s
}
