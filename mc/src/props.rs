//! The spaces explored for each property, quick and thorough.

use crate::judge::SEP;
use unicode_segmentation::UnicodeSegmentation;
use crate::grammar::{self, Grammar, Parts};
use crate::space::{Space, What};

fn v(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| (*x).to_owned()).collect()
}
fn sp(name: &str, what: What) -> Space {
    Space {
        name: name.to_owned(),
        what,
    }
}
fn strings(name: &str, alpha: &[&str], max: usize) -> Space {
    strings_in(name, alpha, max, &[("", "")])
}
fn strings_in(name: &str, alpha: &[&str], max: usize, ctx: &[(&str, &str)]) -> Space {
    sp(
        name,
        What::Strings {
            alpha: v(alpha),
            max,
            ctx: ctx
                .iter()
                .map(|(a, b)| ((*a).to_owned(), (*b).to_owned()))
                .collect(),
        },
    )
}
fn viable(name: &str, alpha: &[&str], depth: usize, dead: usize, closers: &[&str]) -> Space {
    viable_from(name, "", alpha, depth, dead, closers)
}
fn viable_from(
    name: &str,
    start: &str,
    alpha: &[&str],
    depth: usize,
    dead: usize,
    closers: &[&str],
) -> Space {
    sp(
        name,
        What::Viable {
            alpha: v(alpha),
            depth,
            dead,
            closers: v(closers),
            start: start.to_owned(),
        },
    )
}
/// Line forms at indentation levels 0..levels (two spaces each).
fn lines(forms: &[&str], levels: usize) -> Vec<String> {
    let mut out = vec![];
    for f in forms {
        for l in 0..levels {
            out.push(format!("{}{f}\n", "  ".repeat(l)));
        }
    }
    out
}
fn block_lines(name: &str, forms: &[&str], levels: usize, depth: usize, dead: usize) -> Space {
    sp(
        name,
        What::Viable {
            alpha: lines(forms, levels),
            depth,
            dead,
            closers: v(&[""]),
            start: String::new(),
        },
    )
}

/// Every lexeme of the language.  A leading backspace means that it touches
/// what comes before.
pub const LEX: &[&str] = &[
    "a ",
    "b ",
    "1 ",
    "\"s\" ",
    "nil ",
    "true ",
    "false ",
    "this ",
    "super ",
    "fun ",
    "class ",
    "var ",
    "if ",
    "else ",
    "for ",
    "while ",
    "print ",
    "return ",
    "break ",
    "continue ",
    "and ",
    "or ",
    "\u{8}( ",
    "( ",
    ") ",
    "{ ",
    "} ",
    "[ ",
    "] ",
    ": ",
    ", ",
    ". ",
    "- ",
    "+ ",
    "; ",
    "/ ",
    "* ",
    "! ",
    "!= ",
    "= ",
    "== ",
    "> ",
    ">= ",
    "< ",
    "<= ",
    "\n",
    "\n  ",
    "\n    ",
];

/// Lexemes sufficient for every construct, one per role.
pub const ROLES: &[&str] = &[
    "a ", "b ", "1 ", "\"s\" ", "this ", "super ", "fun ", "class ", "var ", "if ", "else ",
    "for ", "while ", "print ", "return ", "break ", "and ", "\u{8}( ", "( ", ") ", "{ ", "} ",
    "[ ", "] ", ": ", ", ", ". ", "- ", "; ", "! ", "= ", "< ", "\n", "\n  ", "\n    ",
];

pub const CORPUS: &[&str] = &[
    "a + 1 * b - -2 / c == !d and e or f != g < h <= i > j >= k\n",
    "a = b.c = d[1] = e(2)(3).f[4]\n",
    "f a, b, (c), d e, 3\nf(1, 2)(3) 4\nf (1), 2\n",
    "if (a)\n  b\n  c\nelse if (d) e\nelse\n  g\n",
    "if (a) { b\n} else c\nif (d) {} else { e\n} f\n",
    "while (a)\n  if (b) break\n  for (var i = 0; i < 3; i = i + 1)\n    \
     print i\n    continue\n  c\nd\n",
    "for (;;) a\nfor (i = 0;; i = i + 1) b\nfor (;a;) c\n",
    "fun f(a, b)\n  return a + b\nfun g()\n  return\nf(g(), fun (x) { return \
     x\n})\n",
    "class A\n  init(x)\n    this.x = x\n  get()\n    return this.x\n  class \
     make(y)\n    return A(y)\nclass B < A\n  get()\n    return super.get() + \
     1\nB(2).get()\n",
    "var m =\n  a: 1\n  b: \"x\"\n  \"c d\": [1, 2, 3,]\nvar n = {a: 1, b: {c: \
     2}}\nx = {}\n",
    "f: 1, g: 2,\nh: 3\n\"i\": 4\nvar x\n",
    "var a = 1 +\n  2\nvar b = a \\\n  .c\nprint [1,\n  2]\n",
    "var s = \"one\ntwo\"\nprint s // comment\n\n// more\n  // and more\nprint \
     nil\n",
    "fun f(x)\n  var y = x\n  fun g(z)\n    return x + y + z\n  return g\nvar \
     w = f(1)(2)\n",
    "{ a\n{ b\n} } while (c) { for (;;) { break\n} } d\n",
    "var f = fun (a, b) { print a\nprint b\n}\n",
    "class A { m(a) { this.x = a\nreturn this\n} init() {} class n() { return 1\n\
     } } class B < A {} A().m(1).x\n",
    "f(fun ()\n    return 1\n)\nvar g = (fun (a)\n    fun h()\n      return g\n    a\n)\n",
];

pub const EXPR: &[&str] = &[
    "a ", "this ", "1 ", "or ", "and ", "== ", "!= ", "< ", "<= ", "> ", ">= ", "+ ", "- ", "* ",
    "/ ", "! ", "( ", ") ", "= ", ". ", "[ ", "] ", "\u{8}( ",
];

fn configs(alpha: &[&str], nest: usize, depth: usize, closers: &[&str], two: bool) -> Space {
    sp(
        "parser configurations",
        What::Configs {
            alpha: v(alpha),
            nest,
            depth,
            closers: v(closers),
            two,
        },
    )
}
fn family(name: &str, n: usize, f: impl Fn(usize) -> String + Send + Sync + 'static) -> Space {
    sp(name, What::Family(n, Box::new(f)))
}
fn list(name: &str, v: Vec<String>) -> Space {
    sp(name, What::List(v))
}
fn mutations(two: bool) -> Space {
    sp(
        "mutated programs",
        What::Mutations {
            corpus: v(CORPUS),
            alpha: v(LEX),
            two,
        },
    )
}

/// All scalar values; `f` gives the context.
fn scalars(name: &str, f: impl Fn(char) -> String + Send + Sync + 'static) -> Space {
    family(name, 0x110000 - 0x800, move |i| {
        let u = if i < 0xd800 { i } else { i + 0x800 };
        f(char::from_u32(u as u32).unwrap())
    })
}

/// Reserved words with every character that joins the one before it, anywhere
/// after the first letter.
fn joined_words(name: &str, f: impl Fn(String) -> String + Send + Sync + 'static) -> Space {
    use unicode_segmentation::UnicodeSegmentation;
    let joiners: Vec<char> = ('\u{80}'..=char::MAX)
        .filter(|c| format!("a{c}").graphemes(true).count() == 1)
        .collect();
    let places: Vec<(&str, usize)> = crate::model_scan::RESERVED
        .iter()
        .flat_map(|(w, _)| (1..=w.len()).map(move |i| (*w, i)))
        .collect();
    family(name, joiners.len() * places.len(), move |i| {
        let (w, at) = places[i % places.len()];
        let c = joiners[i / places.len()];
        f(format!("{}{c}{}", &w[..at], &w[at..]))
    })
}

/// Graphemes of many kinds and sizes.
fn clusters() -> Vec<String> {
    let mut out = v(&[
        "\u{1F1E9}\u{1F1EA}",
        "\u{1F468}\u{200d}\u{1F469}",
        "\u{1F468}\u{200d}\u{1F469}\u{200d}\u{1F467}\u{200d}\u{1F466}",
        "\u{1F44D}\u{1F3FD}",
        "\u{1F3F3}\u{FE0F}\u{200D}\u{1F308}",
        "\u{1100}\u{1161}\u{11a8}",
        "\u{AC01}",
        "\u{915}\u{94d}\u{937}",
        "\u{915}\u{93f}",
        "\u{e01}\u{e33}",
        "\u{600}a",
        "\u{1d11e}",
        "\u{ff21}",
        "\u{200b}",
        "\u{ad}",
        "\u{feff}",
        "\u{85}",
        "\u{2028}",
        "\u{1f}",
        "\u{7f}",
        "\u{10ffff}",
        "\r",
        "\n\r",
        "\t",
    ]);
    for base in ["a", "é", "日", "1", " ", "_", "\u{1F468}"] {
        for k in (0..=20).chain([31, 32, 63, 64, 127, 128, 255, 256]) {
            for mark in ["\u{301}", "\u{200d}", "\u{fe0f}"] {
                out.push(format!("{base}{}", mark.repeat(k)));
            }
        }
    }
    for k in [1000, 4095, 32_768, 65_535, 65_536] {
        out.push(format!("a{}", "\u{301}".repeat(k)));
        out.push(format!("\u{1F468}{}", "\u{200d}\u{1F469}".repeat(k)));
    }
    out
}

/// What a text, or a line, may begin or end with that could be taken for
/// something else: marks, magic lines, commands, control characters.
fn odd_beginnings(pairs: bool) -> Vec<String> {
    let mut out: Vec<String> = (0..=0xa0_u32)
        .filter(|c| *c != 1)
        .filter_map(char::from_u32)
        .chain("\u{feff}\u{2028}\u{2029}\u{fffe}\u{ffff}\u{200b}\u{202e}\u{301}\u{10ffff}".chars())
        .map(String::from)
        .collect();
    out.extend(v(&[
        "\u{feff}\u{feff}", "#!", "#!/bin/sh\n", "#!x", "#!x\n", "#\n", "# x\n", "// \u{feff}\n", "---\n", "%YAML\n",
        "<?xml ?>", "<!--", "/* */", "-- ", ":q", ":q\n", "%!", "'use strict'", "\"use strict\"\n", "\u{1b}[A", "\u{1b}[200~",
        "$ ", "> ", ">>> ", "\r\n", "\n\r", "\n\n", "\r\r", "\t\t", "  ", "\\\n", "\\\r\n", "\u{4}", "\u{1a}", "\u{3}",
        "{", "{\n", "(", "\"", "\"\"", "//", "//\n", "1", "a", "a\n", "if", "-", "--", "--version\n", "-h\n", "--help\n",
    ]));
    if pairs {
        let c = [
            "a", "1", "#", "!", "/", "\"", "\\", "\n", "\r", "\t", " ", "\0", "\u{feff}", "%", "-", ":", "<", "$", "@",
            ".", "=", "(", "{", "é", "\u{1a}", "\u{4}", "\u{1b}", "?", "*", "~", ";", "&", "'", "`",
        ];
        for a in c {
            for b in c {
                out.push(format!("{a}{b}"));
            }
        }
    }
    out
}
fn edges(few: bool) -> Vec<String> {
    let mut all = vec![];
    for o in odd_beginnings(!few) {
        for t in ["%1\n", "%\n1\n", "%", "print 1\n%", "print 1\n%\n", "print 1%\n", "\n%a\n", "if (a)\n  %b\n", "if (a)\n  b\n%  c\n"] {
            all.push(t.replace('%', &o));
        }
    }
    all
}
fn edge_sessions() -> Vec<String> {
    let mut all = vec![];
    for o in odd_beginnings(true) {
        for t in ["%\nx\n", "var x = 1\n%x\nx\n", "var x = 1\nx%\nx\n", "%"] {
            all.push(a_session(&t.replace('%', &o), &[]));
        }
    }
    all
}

/// The clusters in texts with something to point at after them.
fn clustered(name: &str) -> Space {
    let all = clusters();
    let contexts = [
        "\"%\" + @\n",
        "\"%%\" + a\n",
        "\"%\n%\" + b.c\n",
        "a% = b(c)\n",
        "a%(b) @\n",
        "var a% = this\n",
        "x = f {a%: 1} - y\n",
        "x = {\"%\": 1, \"%\": 2}\n",
        "x + \\\n  a% + )\n",
        "// %\n)",
        "% + @\n",
    ];
    family(name, all.len() * contexts.len(), move |i| {
        contexts[i % contexts.len()].replace('%', &all[i / contexts.len()])
    })
}

/// All texts within one edit of a reserved word.
/// Words with a meaning elsewhere, none here.
const ORDINARY: &[&str] = &[
    "exit", "quit", "q", "bye", "help", "clear", "reset", "load", "let", "const", "def", "func",
    "function", "fn", "do", "in", "is", "not", "xor", "null", "none", "None", "True", "False",
    "undefined", "void", "self", "Self", "new", "delete", "import", "export", "from", "as", "async",
    "await", "yield", "try", "catch", "throw", "finally", "switch", "case", "default", "match",
    "when", "then", "end", "begin", "elif", "elseif", "elsif", "unless", "until", "loop", "repeat",
    "foreach", "of", "static", "public", "private", "extends", "enum", "struct", "trait", "impl",
    "interface", "type", "typeof", "instanceof", "with", "using", "where", "goto", "pass", "assert",
    "del", "global", "nonlocal", "lambda", "raise", "except", "mod", "div", "init", "clock", "main",
    "length", "constructor", "prototype", "toString", "__proto__", "hasOwnProperty", "NaN",
    "Infinity", "inf", "nan", "_", "__", "e", "E", "e1", "x1", "b0", "o7",
];

fn ordinary() -> Space {
    list(
        "ordinary words",
        ORDINARY
            .iter()
            .flat_map(|w| {
                [
                    format!("{w}\n"),
                    format!("{w} 1\n"),
                    format!("1 {w}\n"),
                    format!("{w}: {w}\n"),
                    format!("{{{w}: {w}, b: {w}.{w}}}\n"),
                    format!("var {w} = {w}\nprint {w}\n"),
                    format!("fun {w}({w}) {{ {w}({w})\n}} {w}\n"),
                    format!("class {w}\n  {w}({w})\n    return this.{w}\n  class {w}()\n    {w} = 1\n"),
                    format!("class A < {w}\n  {w}()\n    super.{w}\n"),
                    format!("if ({w}) {w}\nelse {w}\nwhile ({w}) {w}\n"),
                    format!("for (var {w} = 1; {w}; {w}) {w}\n"),
                ]
            })
            .collect(),
    )
}

fn near_words() -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    let letters: Vec<String> = ('a'..='z')
        .chain(['_', '0', 'A', 'é', ' ', '.', '\u{301}'])
        .map(|c| c.to_string())
        .collect();
    for (w, _) in crate::model_scan::RESERVED {
        let mut near = vec![w.to_owned(), w.to_uppercase()];
        for i in 0..=w.len() {
            for l in &letters {
                near.push(format!("{}{l}{}", &w[..i], &w[i..]));
                if i < w.len() {
                    near.push(format!("{}{l}{}", &w[..i], &w[i + 1..]));
                }
            }
            if i < w.len() {
                near.push(format!("{}{}", &w[..i], &w[i + 1..]));
                near.push(format!(
                    "{}{}{}",
                    &w[..i],
                    w[i..=i].to_uppercase(),
                    &w[i + 1..]
                ));
            }
        }
        for n in near {
            out.insert(n);
        }
    }
    for w in ORDINARY {
        out.insert(w.to_string());
        out.insert(format!("{w}(1).{w}"));
    }
    // Every pair of reserved words, run together and apart.
    for (a, _) in crate::model_scan::RESERVED {
        for (b, _) in crate::model_scan::RESERVED {
            out.insert(format!("{a}{b}"));
            out.insert(format!("{a} {b}"));
            out.insert(format!("{a}({b}"));
        }
    }
    out.into_iter().collect()
}

const STATEMENTS: &[&str] = &[
    "a",
    "if (a)",
    "if (a) b",
    "else",
    "else b",
    "else if (b)",
    "while (a)",
    "while (a) b",
    "for (;;)",
    "for (var i = 0; i < 1; i = i + 1)",
    "for (i = 0; a; b) c",
    "fun f(x)",
    "class A",
    "m()",
    "return a",
    "print a",
    "var v = 1",
    "{ a",
    "}",
    "if (a) {",
    "} else {",
    "f = fun () {",
];
const MEMBERS: &[&str] = &[
    "class A",
    "class B < A",
    "class A {",
    "}",
    "m()",
    "init()",
    "init(a) {",
    "class s(a, b)",
    "class init()",
    "fun f(a)",
    "fun init(a, b)",
    "a = fun (a, b) { nil",
    "nil",
    "class",
    "m(a",
    ")",
    "class C < 1",
];
const JUMPS: &[&str] = &[
    "while (a)",
    "for (;;)",
    "for (var i = 0; a; b)",
    "if (a)",
    "else",
    "break",
    "continue",
    "fun f()",
    "nil",
    "while (a) break",
    "if (a) continue",
    "while (b",
    "for (;;",
    "class A",
    "m()",
    "while (a) while (b) break",
    "x = fun () { break",
    "}",
    "{ a",
    "while (a) {",
    "for (var f = fun () { continue",
    "break a",
    "while (fun () { break",
    "for (;;) nil",
    "}) break",
];
const SCOPED: &[&str] = &[
    "var a = a",
    "var a",
    "var b = a",
    "a = b",
    "b",
    "fun a(b)",
    "fun f(a)",
    "fun f(a, a)",
    "if (a)",
    "class a",
    "class A < a",
    "A = super.b",
    "m(a)",
    "init()",
    "class b()",
    "return",
    "return a",
    "this",
    "while (var_ = b)",
    "for (var a = b; a; b = a)",
];
const RULES: &[&str] = &[
    "var a = a",
    "var a",
    "a = a",
    "fun f(a)",
    "fun f(a, a)",
    "fun a()",
    "if (a)",
    "class A",
    "class A < A",
    "class B < A",
    "super.m",
    "this",
    "m(a)",
    "init()",
    "class init()",
    "class s()",
    "return",
    "return nil",
    "return 1",
    "return this",
    "this.x = super.m",
    "var this_ = fun (this_) { this",
    "for (var a = a;;)",
];
const ERRONEOUS: &[&str] = &[
    "a",
    "a b c",
    "a +",
    "var",
    "var a = a",
    "fun f(",
    "fun f(a, a) { a",
    "class A < A",
    "class A",
    "  m(",
    "  m()",
    "    return 1",
    "if (",
    "print",
    "print a b = 1 2",
    "return",
    "return 1",
    "while (a) this",
    "  break",
    "break",
    "for (;;",
    "1 = 2",
    "super.x",
    "{ var b",
    "}",
    "var b = fun (c, c) { nil",
    "a.1",
    "f: 1, f: 2",
    "@",
    "\t",
    "\"x",
    "  a",
    "x \\ y",
];

pub const MENU: &[&str] = &[
    "var a = 1\n",
    "var b = a\n",
    "var a = a\n",
    "a\n",
    "c = a\n",
    "a",
    "fun f(x) { return a + x\n}",
    "fun a() { return b\n}",
    "f(a)\n",
    "class a {}",
    "class c < a { m() { return super.m() + this.b\n} }",
    "class a < a {}",
    "class d < b { d(c, c) {} }",
    "class d < b { init() { return 1\n} }",
    "class d { e() { super.e\n} }",
    "fun g(a, a) {}",
    "fun g(a) { { var b\nvar b\n} }",
    "while (a) { var b = b\n}",
    "{ var a = b\nvar b = a\nc = b\n}",
    "{ b = fun (b) { return c + b\n}\n{ var d = b\n} }",
    "var h = fun (a) { return h\n}\n",
    "this\n",
    "return\n",
    "super.m\n",
    "a +\n",
    "var = 1\n",
    "\n",
    "break\n",
    "@\n",
    "for (var i = a; i < b; i = i + j) k(i)\n",
    "var e = 1\nreturn e\nvar f = e\n",
    "if (a) b = 1",
];

/// What comes before a text, `n` times.
const BEFORE: &[&str] = &["\n", "a\n", "// c\n", "x +\n"];

/// Small texts of every kind after many lines.
fn later(most: usize) -> Space {
    let mut texts: Vec<String> = v(CORPUS);
    texts.extend(ERRONEOUS.iter().map(|l| format!("{l}\n")));
    texts.extend(STATEMENTS.iter().map(|l| format!("{l}\n  b\nc\n")));
    for l in LASTS {
        texts.push(format!("x {l}\n  b\nc\n"));
        texts.push(format!("if (x)\n  {l}\n    b\n\n  c\nd\n"));
    }
    let sizes = [
        100, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1024, 4096, 9999, 10_000, 10_001,
        32_768, 65_535, 65_536, 70_000,
    ];
    let mut all = vec![];
    for n in sizes {
        for k in 0..BEFORE.len() {
            // Of the longest, each kind of text once.
            if n <= most || k == 0 && most > 300 {
                all.extend((0..texts.len()).map(|i| (n, k, i)));
            }
        }
    }
    family("texts after many lines", all.len(), move |i| {
        let (n, k, i) = all[i];
        format!("{}{}", BEFORE[k].repeat(n), texts[i])
    })
}

pub fn spaces(prop: u32, thorough: bool) -> Vec<Space> {
    let t = thorough;
    let pick = move |q: usize, th: usize| if t { th } else { q };
    let mut all = particular(prop, t);
    let more = match prop {
        1..=5 | 7..=18 | 20 => {
            all.push(ordinary());
            all.push(later(pick(1001, 70_000)));
            all.push(list("names alike", names_alike()));
            all.push(list("huge texts", huge()));
            all.push(keyboard());
            all.push(strings_everywhere(pick(4, 5)));
            all.push(after_many());
            all.push(parameter_lists());
            all.push(forms_everywhere(1 + t as usize));
            all.push(pairs_apart());
            all.push(names_after_others());
            all.push(errors_by_lines());
            if !matches!(prop, 20) {
                all.push(list("widths of blank lines", blank_widths(pick(20, 70))));
            }
            all.push(list("long lexemes out of place", long_unexpected()));
            if matches!(prop, 1 | 4 | 5 | 7 | 11 | 13 | 18) {
                all.push(list("widths of indentation", widths(pick(34, 70))));
                all.push(list("wide indentations", wide_indentations()));
                all.push(list("runs of blank lines", blank_runs()));
            }
            Some(scaled(pick(2049, 65_537), pick(260, 1026)))
        }
        6 => Some(scaled(pick(17, 66), pick(10, 40))),
        21 => Some(scaled(pick(66, 513), pick(40, 130))),
        22 => {
            all.push(ordinary());
            all.push(list("names alike", names_alike()));
            all.push(list("long lexemes out of place", long_unexpected()));
            all.push(keyboard());
            all.push(strings_everywhere(pick(3, 4)));
            Some(scaled(pick(300, 5000), pick(66, 130)))
        }
        24 => {
            all.push(shown(ordinary()));
            all.push(shown(forms_everywhere(t as usize)));
            all.push(shown(list("names alike", names_alike())));
            all.push(shown(strings_everywhere(pick(2, 3))));
            all.push(shown(list("long lexemes out of place", long_unexpected())));
            Some(shown(scaled(pick(66, 514), pick(24, 66))))
        }
        _ => None,
    };
    all.extend(more);
    all
}

fn particular(prop: u32, t: bool) -> Vec<Space> {
    let pick = move |q: usize, th: usize| if t { th } else { q };
    match prop {
        1 => vec![
            strings(
                "texts",
                &[
                    "a", " ", "\n", "+", "\\", "/", "(", ")", "\"", "\r", "\t", "1", ".", "é", "{",
                    ":", "=",
                ],
                pick(5, 6),
            ),
            sp(
                "scanner automaton",
                What::Automaton {
                    alpha: v(&[
                        " ", "a", "1", ".", "\n", "\r", "\\", "/", "\"", "(", "=", "+", "\t", "@",
                        "é",
                    ]),
                    suffix: pick(1, 3),
                    depth: pick(12, 16),
                    max_stack: 3,
                    max_spaces: pick(5, 6) as u32,
                    closers: v(&["", "\na\n"]),
                },
            ),
            viable("lexemes", LEX, pick(3, 4), 2, &["", "\n"]),
            configs(ROLES, pick(7, 9), pick(7, 9), &["", "\n"], false),
            block_lines("lines", ERRONEOUS, 1, pick(3, 4), 9),
            block_lines("statements", STATEMENTS, 3, pick(3, 4), 1),
            mutations(t),
            scalars("scalar values", |c| format!("{c}")),
            scalars("scalar values in context", |c| {
                format!("a{c}\n  {c} \"{c}\"\n")
            }),
            family("sizes", SIZES, size),
            derived("derived programs", programs(4)),
            derived("derived rule violations", violations(pick(5, 6))),
            derived("derived expressions", expressions(CONTEXTS, pick(4, 5))),
            mutated_programs(2),
            family("long lexemes", LONG * 12, long_lexeme),
            clustered("clusters in texts"),
            list("how texts begin and end", edges(false)),
        ],
        2 => vec![
            strings(
                "operators and words",
                &[
                    "a", "1", ".", "(", "/", "=", "!", "<", "\"", " ", "\n", "+", "_", "é", "@",
                    ";",
                ],
                pick(5, 6),
            ),
            strings(
                "all punctuation",
                &[
                    "(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "/", "*", "!", "=",
                    ">", "<", "a", "1", " ", "\n", "\"", "\\", "or", "%", "&", "'",
                ],
                pick(4, 5),
            ),
            strings(
                "clusters",
                &[
                    "a",
                    "e\u{301}",
                    "\u{301}",
                    "👨\u{200d}👩",
                    "1",
                    "_",
                    "٣",
                    "日",
                    "\"",
                    " ",
                    "(",
                    "\r\n",
                    "½",
                    "ª",
                ],
                pick(5, 6),
            ),
            list("words near reserved ones", near_words()),
            strings_in(
                "letters of reserved words",
                &["i", "f", "o", "r", "n", "d", "a", "u", "s", "e", "l", "t"],
                pick(5, 6),
                &[("", "")],
            ),
            sp(
                "scanner automaton",
                What::Automaton {
                    alpha: v(&[
                        " ", "a", "1", ".", "\n", "\r", "\\", "/", "\"", "(", "=", "!", "+", "@",
                        "é",
                    ]),
                    suffix: pick(2, 3),
                    depth: 12,
                    max_stack: 2,
                    max_spaces: pick(2, 3) as u32,
                    closers: v(&["", "a\n"]),
                },
            ),
            scalars("scalar values", |c| format!("{c}")),
            scalars("scalar values after a letter", |c| format!("a{c}(b {c}9")),
            scalars("scalar values after a digit and a quote", |c| {
                format!("1{c}.5 \"{c}\"{c}")
            }),
            joined_words("reserved words with joined characters", |w| format!("a {w}.{w}(1")),
            scalars("scalar values around a reserved word", |c| format!("or{c} {c}or nil{c}nil")),
            clustered("clusters in texts"),
            family("long lexemes", LONG * 12, long_lexeme),
        ],
        3 => vec![
            strings_in(
                "numbers",
                &["0", "1", "9", "5", "."],
                pick(7, 9),
                &[("x = 1", "\n")],
            ),
            strings_in(
                "string contents",
                &[
                    "a",
                    " ",
                    "é",
                    "e\u{301}",
                    "👨\u{200d}👩",
                    "\n",
                    "\r\n",
                    "\\",
                    "//",
                    "'",
                    "\\n",
                    "\u{0}",
                    "\t",
                    "{",
                ],
                pick(4, 5),
                &[
                    ("\"", "\"\n"),
                    ("f a, \"", "\", b\n"),
                    ("var m = {\"", "\": \"k\"}\n"),
                    ("日\"\" + \"", "\"(x)\n"),
                ],
            ),
            strings_in(
                "names",
                &["a", "Z", "_", "0", "é", "e\u{301}", "日", "x\u{200d}", "if"],
                pick(5, 6),
                &[
                    ("a", "\n"),
                    ("fun f_", "(a, b) { a.b\n} b\n"),
                    ("class _", " < A { m() { super._x\n} } b\n"),
                    ("_", ": 1\n"),
                    ("a.k", " = 1\n"),
                ],
            ),
            viable(
                "literals in expressions",
                &[
                    "a ",
                    "1.5 ",
                    "02 ",
                    "\"\" ",
                    "\"é\n\" ",
                    "true ",
                    "false ",
                    "nil ",
                    "this ",
                    "super.b ",
                    "\u{8}( ",
                    ") ",
                    "[ ",
                    "] ",
                    "{ ",
                    "} ",
                    ": ",
                    ", ",
                    ". ",
                    "= ",
                    "+ ",
                    "fun (p, q) { ",
                    "\n",
                    "var v = ",
                    "class C { m(x) { ",
                ],
                pick(4, 6),
                0,
                &["", "\n"],
            ),
            configs(ROLES, pick(6, 8), pick(6, 8), &["\n"], false),
            scalars("scalar values in strings", |c| {
                format!("x = \"{c}\" + \"a{c}b\"\n")
            }),
            scalars("scalar values in names", |c| format!("a{c} = 1\nb.a{c}z\n")),
            joined_words("reserved words with joined characters", |w| {
                format!("var {w} = {{{w}: a.{w}}}\nfun {w}_({w}) {{ {w}\n}} {w}\n")
            }),
            clustered("clusters in texts"),
            family("long digit strings", 1200, |i| {
                let n = i % 400;
                let d = ["9", "1", "0"][(i / 400) % 3];
                format!(
                    "a = {}.{} + {}\n",
                    d.repeat(n + 1),
                    "7".repeat(n % 60 + 1),
                    "3".repeat(n + 1)
                )
            }),
            family("integers near powers of two", 4 * 128, |i| {
                // Exact powers of two and their neighbours.
                let p = 1u128 << (i / 4).min(127);
                let n = (p - 1).wrapping_add((i % 4) as u128);
                format!("print {n} + {n}.5 + 0.{n}\n")
            }),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived("derived programs", programs(4)),
            family("long lexemes", LONG * 12, long_lexeme),
        ],
        4 => vec![
            sp(
                "scanner automaton",
                What::Automaton {
                    alpha: v(&[" ", "a", "\n", "+", "\\", "/", "\"", "}", "(", "\r\n", "1"]),
                    suffix: pick(2, 3),
                    depth: pick(14, 18),
                    max_stack: pick(3, 4),
                    max_spaces: pick(4, 6) as u32,
                    closers: v(&["", "\na\n", "\n  a\n"]),
                },
            ),
            sp(
                "indentation sequences",
                What::Strings {
                    alpha: (0..pick(6, 7))
                        .map(|n| format!("{}a\n", " ".repeat(n)))
                        .collect(),
                    max: pick(7, 8),
                    ctx: vec![(String::new(), String::new())],
                },
            ),
            sp(
                "line forms at all indentations",
                What::Strings {
                    alpha: lines(
                        &["if (a)", "b", "// c", "", "c +", "d \\", "( \"\n\")"],
                        pick(3, 4),
                    ),
                    max: pick(4, 5),
                    ctx: vec![
                        (String::new(), String::new()),
                        (String::new(), "   z".to_owned()),
                    ],
                },
            ),
            block_lines("statements", STATEMENTS, pick(3, 4), pick(3, 4), 0),
            family("deep nesting", 700, |i| {
                let n = i + 1;
                let mut s = String::new();
                for l in 0..n {
                    s.push_str(&" ".repeat(l));
                    s.push_str("if (a)\n");
                }
                s.push_str(&" ".repeat(n));
                s.push_str("b\n");
                s.push_str(&" ".repeat(n / 2));
                s.push_str("c\n");
                s
            }),
            family("wide indentation", 64, |i| {
                let w = [1usize, 254, 255, 256, 257, 32767, 32768, 65534][i % 8];
                let x = i / 8;
                format!(
                    "if (a)\n{}b\n{}c\n{}d\n",
                    " ".repeat(w),
                    " ".repeat(if x & 1 == 0 { w } else { 0 }),
                    " ".repeat(if x & 2 == 0 { 0 } else { w - (x & 4) / 4 })
                )
            }),
            derived("derived blocks", indented(pick(7, 8))),
            derived("derived programs", programs(4)),
        ],
        5 => vec![
            sp(
                "scanner automaton",
                What::Automaton {
                    alpha: v(&[
                        " ", "a", "\n", "\\", "/", "\"", "(", "+", "=", "<", "\r\n", ";", "1",
                    ]),
                    suffix: pick(2, 3),
                    depth: pick(14, 18),
                    max_stack: pick(2, 3),
                    max_spaces: pick(3, 4) as u32,
                    closers: v(&["", "\na\n"]),
                },
            ),
            list("every last token with every next line", last_tokens()),
            sp(
                "line forms at all indentations",
                What::Strings {
                    alpha: lines(&["a", "b +", "c \\", "+ d", "", "(e", "// f", "\\"], 3),
                    max: pick(4, 5),
                    ctx: vec![(String::new(), String::new())],
                },
            ),
            strings(
                "layout texts",
                &["a", " ", "\n", "+", "\\", "//", "\"", "\r\n", "(", "\r"],
                pick(6, 7),
            ),
            viable("lexemes", LEX, pick(3, 4), 0, &["", "\na", "\n  a\nb\n"]),
        ],
        6 => vec![
            strings(
                "layout texts",
                &["a", " ", "\n", "+", "\\", "//", "\"", "("],
                pick(4, 5),
            ),
            sp(
                "line forms at all indentations",
                What::Strings {
                    alpha: lines(
                        &[
                            "if (a)", "b", "c +", "d \\", "e: 1", "else", "var f =", "fun g(h,",
                            "// i", "\"j", "this",
                        ],
                        2,
                    ),
                    max: pick(3, 4),
                    ctx: vec![(String::new(), String::new())],
                },
            ),
            viable("lexemes", LEX, 2, 1, &["", "\n"]),
            configs(ROLES, pick(5, 6), pick(4, 5), &["", "\n"], false),
            list("programs", v(CORPUS)),
            sp(
                "mutated programs",
                What::Mutations {
                    corpus: v(CORPUS),
                    alpha: v(if t { LEX } else { &[] }),
                    two: false,
                },
            ),
            block_lines("statements", STATEMENTS, pick(2, 3), 3, 0),
            derived("derived programs", programs(2)),
            derived("derived blocks", indented(pick(3, 5))),
            derived("derived blocks and braces", control(pick(3, 4))),
            derived("derived expressions", expressions(&CONTEXTS[..1], pick(2, 3))),
            derived("derived rule violations", violations(pick(2, 3))),
            list("what comments say", comments()),
            list("much space", much_space(pick(70_000, 1 << 20))),
        ],
        7 => vec![
            strings(
                "texts",
                &[
                    "a", " ", "\n", "\"", "//", "é", "+", "\r\n", "\\", "(", "@", "e\u{301}", ".",
                ],
                pick(5, 6),
            ),
            viable("lexemes", LEX, pick(3, 4), 1, &["", "\n"]),
            viable(
                "positions after multi-line lexemes",
                &[
                    "a ",
                    "\"x\ny\" ",
                    "\"é\r\n\" ",
                    "// c\n",
                    "+ \n",
                    "\\\n",
                    "\n",
                    "\r\n",
                    "  ",
                    "\u{8}( ",
                    ") ",
                    ". ",
                    "[ ",
                    "] ",
                    "= ",
                    "- ",
                    "this ",
                    "fun (p) { ",
                    "} ",
                    "e\u{301} ",
                    "print ",
                    "super.",
                    "class A < B { m() { ",
                    ", ",
                ],
                pick(4, 5),
                1,
                &["", "\n"],
            ),
            configs(ROLES, pick(6, 8), pick(6, 8), &["\n"], false),
            block_lines("rule violations", RULES, 3, pick(3, 4), 1),
            block_lines("erroneous lines", ERRONEOUS, 1, 3, 9),
            mutations(t),
            clustered("clusters in texts"),
            family("long lines", 80, |i| {
                let n = [255, 256, 32768, 65530][i / 20] + i % 20;
                format!(
                    "x = \"{}\" + a.b(c)[1]\ny = @\n\"{}\n",
                    "é".repeat(n),
                    "z".repeat(n)
                )
            }),
            family("long accepted lines", 80, |i| {
                let n = [255, 256, 32768, 65520][i / 20] + i % 20;
                format!("x = f(\"{}\", -a.b(c)[1]).d = e + 2 - g h\ny\n", "é".repeat(n))
            }),
            family("many lines", 6, |i| {
                let n = [255, 256, 257, 65535, 65536, 70000][i];
                format!("{}a = b\n\"{}\" + @\n", "\n".repeat(n), "\n".repeat(n))
            }),
            family("many accepted lines", 6, |i| {
                let n = [255, 256, 257, 65535, 65536, 70000][i];
                format!("{}a = b\nc\"{}\" + d\n", "\n".repeat(n), "\n".repeat(n))
            }),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived("derived programs", programs(4)),
            derived("derived rule violations", violations(pick(5, 6))),
            derived("derived classes", class_rules(pick(3, 5))),
        ],
        8 => vec![
            viable("expressions", EXPR, pick(6, 7), 0, &["\n"]),
            viable(
                "operators",
                &[
                    "a ", "or ", "and ", "== ", "!= ", "< ", "<= ", "> ", ">= ", "+ ", "- ", "* ",
                    "/ ", "= ",
                ],
                pick(9, 10),
                0,
                &["\n"],
            ),
            viable(
                "grouping and prefixes",
                &[
                    "a ", "or ", "and ", "== ", "< ", "- ", "* ", "! ", "( ", ") ", "= ", ". ",
                ],
                pick(7, 9),
                1,
                &["\n"],
            ),
            viable(
                "assignment targets",
                &[
                    "a ", "this ", "1 ", "= ", ". ", "[ ", "] ", "\u{8}( ", "( ", ") ", "- ", "f ",
                    "{ ", "} ", ": ", "super.",
                ],
                pick(6, 7),
                1,
                &["\n"],
            ),
            viable_from(
                "expressions in an argument",
                "f((1 + ",
                EXPR,
                pick(4, 5),
                0,
                &["))\n"],
            ),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived("derived operations", grammar::expressions(OPERATIONS, &["%E\n"], pick(8, 9))),
        ],
        9 => vec![
            viable(
                "calls",
                &[
                    "f ",
                    "1 ",
                    "\"s\" ",
                    "nil ",
                    "true ",
                    "this ",
                    "super.m ",
                    "\u{8}( ",
                    "( ",
                    ") ",
                    ", ",
                    "[ ",
                    "] ",
                    ". ",
                    "{ ",
                    "} ",
                    "fun (a) { ",
                    "- ",
                    "+ ",
                    "= ",
                ],
                pick(6, 7),
                1,
                &["\n"],
            ),
            viable(
                "nested argument lists",
                &["f ", "\u{8}( ", "( ", ") ", ", ", ". ", "[ ", "] "],
                pick(8, 10),
                0,
                &["\n"],
            ),
            viable(
                "continued calls",
                &[
                    "f ", "\u{8}( ", "( ", ") ", ", ", "\n", "\n  ", "\\\n", "// c\n", "g: ", "1 ",
                ],
                pick(6, 7),
                0,
                &["\n"],
            ),
            family("argument counts", 2 * 301, |i| {
                let n = i / 2;
                let args = vec!["a"; n].join(", ");
                if i % 2 == 0 {
                    format!("f({args})\n")
                } else {
                    format!("f {args}\n")
                }
            }),
            family("argument counts, nested", 2 * 12, |i| {
                let n = 250 + i / 2;
                let args = vec!["g(b)"; n].join(", ");
                if i % 2 == 0 {
                    format!("a({args}, f {args}) c\n")
                } else {
                    format!("x = f {args}\ny\n")
                }
            }),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived("derived calls", grammar::expressions(CALLS, &["%E\n"], pick(7, 8))),
        ],
        10 => vec![
            viable(
                "literals",
                &[
                    "a ", "b ", "\"a\" ", "\"\" ", "1 ", "[ ", "] ", "{ ", "} ", ": ", ", ", "\n",
                    "\n  ", "x = ", "\u{8}( ", ") ",
                ],
                pick(6, 7),
                1,
                &["\n", ""],
            ),
            viable(
                "entries",
                &[
                    "a: ", "b: ", "\"a\": ", "c: ", "1 ", "[ ", "] ", "{ ", "} ", ", ", "\n",
                    "\n  ", "\n    ", "var x = ",
                ],
                pick(7, 8),
                0,
                &["\n"],
            ),
            viable_from(
                "indented maps",
                "var m =\n",
                &[
                    "  a: 1\n",
                    "  b: 2,\n",
                    "  \"a\": c\n",
                    "  d:\n",
                    "    e: 1\n",
                    "    f: g\n",
                    "  h: [1,\n",
                    "  2]\n",
                    "x\n",
                    "  i: {j: 1}\n",
                    "\n",
                    "  y\n",
                    "  // c\n",
                    "  k: fun () { l: 1\n",
                    "}\n",
                ],
                pick(5, 6),
                1,
                &["", "z\n"],
            ),
            family("entry counts", 2 * 301, |i| {
                let n = i / 2;
                let e: Vec<String> = (0..n)
                    .map(|k| {
                        if i % 2 == 0 {
                            format!("k{k}: {k}")
                        } else {
                            format!("\"{k} k\": [{k}, {k}]")
                        }
                    })
                    .collect();
                let a = vec!["1"; n].join(", ");
                format!("x = {{{}}}\ny = [{a}]\n", e.join(", "))
            }),
            list("keys repeated at a distance", far_keys(pick(2100, 70_000))),
            family("very many keys", 4, |i| {
                // Enough for two hashes of 32 bits to agree.
                let n = 250_000u32;
                let e: Vec<String> = (1..=n)
                    .map(|k| {
                        // Different for all k, and spread.
                        let k = k.wrapping_mul(0x9e37_79b1) ^ 0x5bd1_e995;
                        if i % 2 == 0 { format!("k{k}: 1") } else { format!("\"{k:x}\": 1") }
                    })
                    .collect();
                let e = e.join(if i < 2 { ", " } else { ",\n" });
                format!("x = {{{e}}}\n")
            }),
            family("repeated keys", 40 * 40, |i| {
                let (p, q) = (i / 40, i % 40);
                let e: Vec<String> = (0..40)
                    .map(|k| {
                        let n = if k == q { p } else { k };
                        if k % 2 == 0 {
                            format!("k{n}: {k}")
                        } else {
                            format!("\"k{n}\": {{k0: 1, k{n}: 2}}")
                        }
                    })
                    .collect();
                format!("x = {{{}}}\n", e.join(", "))
            }),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived("derived literals", grammar::expressions(LITERALS, LITERAL_CONTEXTS, pick(6, 7))),
        ],
        11 => vec![
            block_lines("statements", STATEMENTS, 3, pick(4, 5), 0),
            block_lines(
                "conditionals",
                &["if (a)", "else", "else if (b)", "c", "if (d) e", "else f"],
                3,
                pick(5, 7),
                0,
            ),
            block_lines(
                "loops",
                &[
                    "while (a)",
                    "for (;;)",
                    "for (var i = 0;; i)",
                    "for (i;j;)",
                    "for (;a;b) c",
                    "b",
                    "if (c)",
                    "else",
                    "{ d",
                    "}",
                ],
                3,
                pick(4, 5),
                0,
            ),
            viable(
                "loop headers",
                &[
                    "for ( ", "while ( ", "var i ", "= ", "a ", "1 ", "; ", ") ", "{ ", "} ", "\n",
                    "\n  ", "fun () ", "if ( ",
                ],
                pick(8, 9),
                1,
                &["\n"],
            ),
            viable(
                "blocks",
                &[
                    "{ ",
                    "} ",
                    "a ",
                    "\n",
                    "if (a) ",
                    "else ",
                    "while (b) ",
                    "print ",
                    "return ",
                    "var c = ",
                    "fun f() ",
                ],
                pick(7, 8),
                0,
                &["", "\n", "}\n"],
            ),
            configs(ROLES, pick(6, 8), pick(7, 9), &["\n"], false),
            derived("derived programs", programs(pick(4, 4))),
            derived("derived blocks and braces", control(pick(7, 8))),
            derived("derived blocks", indented(pick(7, 9))),
            derived("derived loops", for_loops(pick(4, 5))),
        ],
        12 => vec![
            block_lines("members", MEMBERS, 3, pick(4, 5), 0),
            block_lines(
                "methods",
                &[
                    "class A",
                    "class B < A",
                    "m(x)",
                    "init()",
                    "class s()",
                    "class init(y)",
                    "nil",
                    "fun init()",
                    "fun g(x, y)",
                ],
                3,
                pick(5, 6),
                0,
            ),
            viable(
                "headers",
                &[
                    "class ", "A ", "init ", "< ", "fun ", "\u{8}( ", "( ", ") ", ", ", "{ ", "} ",
                    "\n", "\n  ", "\n    ", "= ",
                ],
                pick(7, 9),
                1,
                &["\n", "}\n"],
            ),
            viable_from(
                "class bodies",
                "class A {",
                &[
                    "m() ",
                    "init() ",
                    "class ",
                    "s(a, b) ",
                    "{ ",
                    "} ",
                    "\n",
                    "nil ",
                    "fun g() ",
                    "class B < A ",
                    "x ",
                ],
                pick(8, 9),
                0,
                &["}\n", "\n"],
            ),
            family("parameter counts", 3 * 301, |i| {
                let n = i / 3;
                let p: Vec<String> = (0..n).map(|k| format!("p{k}")).collect();
                let p = p.join(", ");
                match i % 3 {
                    0 => format!("fun f({p})\n  nil\n"),
                    1 => format!("class A\n  m({p})\n    nil\n"),
                    _ => format!("x = fun ({p}) {{ nil\n}}\n"),
                }
            }),
            family("method counts", 301, |i| {
                let mut s = "class A < B\n".to_owned();
                for k in 0..i {
                    s.push_str(&format!(
                        "  {}m{k}(a{k})\n    nil\n",
                        if k % 3 == 1 { "class " } else { "" }
                    ));
                }
                s.push_str("  init()\n    nil\nx\n");
                s
            }),
            derived("derived programs", programs(pick(4, 4))),
            derived("derived classes", class_rules(pick(5, 6))),
        ],
        13 => vec![
            viable("lexemes", LEX, pick(4, 5), 0, &["", "\n"]),
            configs(ROLES, pick(7, 9), pick(7, 9), &["", "\n"], false),
            mutations(t),
            block_lines("statements", STATEMENTS, 3, pick(3, 4), 0),
            block_lines("members", MEMBERS, 3, pick(3, 4), 0),
            strings(
                "texts",
                &[
                    "a", " ", "\n", "(", ")", "=", ".", "{", "}", ":", ",", "fun", "\\\n",
                ],
                pick(5, 6),
            ),
            derived("derived programs", programs(pick(4, 4))),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            mutated_programs(pick(2, 3)),
        ],
        14 => vec![
            block_lines("loops and jumps", JUMPS, 3, pick(3, 4), 9),
            block_lines(
                "nested loops and jumps",
                &[
                    "while (a)",
                    "for (;;)",
                    "if (a)",
                    "break",
                    "continue",
                    "fun f()",
                    "nil",
                    "while (b",
                    "class A",
                    "m()",
                ],
                pick(4, 5),
                pick(4, 5),
                0,
            ),
            viable(
                "one-line nesting",
                &[
                    "while (a) ",
                    "for (;;) ",
                    "if (b) ",
                    "else ",
                    "break\n",
                    "continue\n",
                    "nil\n",
                    "{ ",
                    "} ",
                    "fun f() ",
                    "x = ",
                    "fun () ",
                    "while ( ",
                    ") ",
                    "while (a) b c ( ",
                ],
                pick(6, 7),
                2,
                &["", "\nbreak\n", "\n}\ncontinue\n"],
            ),
            family("nesting depth", 600, |i| {
                let n = i / 2;
                let mut s = String::new();
                for l in 0..n {
                    s.push_str(&" ".repeat(l));
                    s.push_str(["while (a)\n", "if (a)\n", "for (;;)\n"][l % 3]);
                }
                if i % 2 == 0 {
                    format!("{s}{}break\n", " ".repeat(n))
                } else {
                    format!("{s}{}nil\nbreak\ncontinue\n", " ".repeat(n))
                }
            }),
            family("loops in sequence", 400, |i| {
                let bad = "while (a\n".repeat(i % 20);
                let good = "while (a) nil\n".repeat(i / 20);
                format!("{bad}{good}break\nwhile (b) break\ncontinue\n")
            }),
            derived("derived loops and jumps", jumps(pick(6, 6))),
        ],
        15 => vec![
            sp(
                "resolver states",
                What::Scopes {
                    alpha: lines(SCOPED, 4),
                    depth: pick(5, 7),
                    nest: 3,
                    max_states: pick(20_000, 300_000),
                },
            ),
            block_lines("declarations and uses", SCOPED, 3, pick(3, 4), 1),
            block_lines(
                "blocks",
                &["var a = b", "b = a", "if (a)", "fun f(b)", "fun b(a)"],
                pick(4, 5),
                pick(5, 6),
                0,
            ),
            block_lines(
                "classes",
                &[
                    "class A",
                    "class B < A",
                    "m(a)",
                    "this.a = a",
                    "super.m(B)",
                    "var a = this",
                    "fun A(B)",
                ],
                pick(5, 6),
                pick(5, 6),
                0,
            ),
            viable(
                "expressions",
                &[
                    "a ",
                    "b ",
                    "= ",
                    "+ ",
                    "\u{8}( ",
                    ") ",
                    "[ ",
                    "] ",
                    "fun (a) { ",
                    "} ",
                    "\n",
                    "var a = ",
                    "var b = ",
                    "{ ",
                    "x: ",
                    ", ",
                    "and ",
                    ".a ",
                    "! ",
                ],
                pick(5, 6),
                0,
                &["\n", "}\n", "\n}\na + b\n"],
            ),
            family("nesting depth", 2 * 620, |i| {
                let n = i / 2;
                let mut s = "var g = 1\n".to_owned();
                for l in 0..n {
                    s.push_str(&" ".repeat(l));
                    if i % 2 == 0 {
                        s.push_str("if (g)\n");
                    } else {
                        s.push_str(&format!("fun f{l}(p{l})\n"));
                    }
                }
                s.push_str(&" ".repeat(n));
                s.push_str(&format!("h = g + p{} + p0 + f3 + h\n", n / 2));
                s
            }),
            derived("derived bindings", bindings(pick(5, 6))),
            derived("derived loops", loop_bindings(pick(5, 6))),
            derived("derived for loops", for_loops(pick(4, 5))),
            derived("derived expressions", grammar::expressions(BINDING, BINDING_CONTEXTS, pick(6, 7))),
            derived("derived programs", programs(4)),
        ],
        16 => vec![
            sp(
                "resolver states",
                What::Scopes {
                    alpha: lines(
                        &[
                            "var a = b",
                            "var b",
                            "a = b",
                            "c",
                            "fun a(c)",
                            "fun f(b, a)",
                            "if (c)",
                            "class c < a",
                            "m(b)",
                            "for (var a = c; b; c = d)",
                            "d = a",
                        ],
                        4,
                    ),
                    depth: pick(5, 7),
                    nest: 3,
                    max_states: pick(20_000, 300_000),
                },
            ),
            block_lines(
                "declarations",
                &[
                    "var a = b",
                    "var b = a",
                    "c = a",
                    "var c",
                    "fun d(a, b)",
                    "class b",
                    "if (d)",
                    "for (var e = a; f; g = e) h",
                    "while (i) j = k",
                    "x.y = z[w] = v",
                    "class e < f",
                ],
                2,
                pick(4, 5),
                0,
            ),
            family("names in one scope", 8 * 301, |i| fill(i % 8, i / 8, 0)),
            family("names near the limit, then more", 8 * 12 * 8, |i| {
                fill(i % 8, 248 + (i / 8) % 12, 1 + i / 96)
            }),
            family("names far beyond the limit", 8 * 4, |i| {
                fill(i % 8, [511, 512, 65536, 65537][i / 8], 0)
            }),
            family("two scopes near the limit", 8 * 8 * 64, |i| {
                let (a, b, n) = (i % 8, (i / 8) % 8, i / 64);
                format!("{}{}", fill(a, 250 + n % 8, 0), fill(b, 250 + n / 8, 0))
            }),
            derived("derived bindings", bindings(pick(5, 6))),
            derived("derived loops", loop_bindings(pick(5, 6))),
            derived("derived for loops", for_loops(pick(4, 5))),
            derived("derived expressions", grammar::expressions(BINDING, BINDING_CONTEXTS, pick(6, 7))),
            derived("derived programs", programs(pick(4, 4))),
        ],
        17 => vec![
            block_lines("rules", RULES, 3, pick(3, 4), 0),
            sp(
                "resolver states",
                What::Scopes {
                    alpha: lines(RULES, 5),
                    depth: pick(5, 7),
                    nest: 4,
                    max_states: pick(15_000, 250_000),
                },
            ),
            block_lines(
                "contexts",
                &[
                    "class A",
                    "class B < A",
                    "init()",
                    "class init()",
                    "m()",
                    "fun f()",
                    "return 1",
                    "return",
                    "super.m",
                    "this",
                ],
                5,
                pick(5, 6),
                0,
            ),
            block_lines(
                "redeclarations",
                &[
                    "var a = a",
                    "fun a(a)",
                    "if (a)",
                    "class a",
                    "var b = a",
                    "m(a, b)",
                    "a = b",
                ],
                pick(4, 5),
                pick(5, 6),
                0,
            ),
            viable(
                "initializers",
                &[
                    "var a = ",
                    "a ",
                    "a = ",
                    "b ",
                    "+ ",
                    "fun (a) { ",
                    "fun () { ",
                    "} ",
                    "\n",
                    "{ ",
                    "[ ",
                    "] ",
                    "x: ",
                    "this ",
                    "super.m ",
                    "return ",
                    "class A { init() { ",
                    "class A < b { m() { ",
                ],
                pick(5, 6),
                0,
                &["\n", "\n}\n", "\n}\n}\n"],
            ),
            derived("derived classes", class_rules(pick(5, 6))),
            derived("derived bindings", bindings(pick(5, 6))),
            derived("derived rule violations", violations(pick(6, 7))),
            derived("derived expressions", grammar::expressions(BINDING, BINDING_CONTEXTS, pick(6, 7))),
        ],
        18 => vec![
            block_lines("faulty and correct lines", ERRONEOUS, 1, pick(4, 5), 9),
            block_lines("faulty and correct blocks", ERRONEOUS, 3, pick(3, 3), 9),
            block_lines(
                "faulty loops and later jumps",
                &[
                    "while (a)",
                    "while (a) )",
                    "while (",
                    "for (;;)",
                    "for (;",
                    "fun f()",
                    "fun (",
                    "  break",
                    "break",
                    "if (a) break",
                    "print continue",
                    "a",
                    "var",
                ],
                1,
                pick(4, 5),
                9,
            ),
            block_lines("rules", RULES, 3, pick(3, 4), 2),
            viable("lexemes", LEX, pick(3, 4), 3, &["", "\n"]),
            configs(
                ROLES,
                pick(6, 8),
                pick(6, 8),
                &["\nvar\nprint", "\n"],
                false,
            ),
            strings(
                "lexical errors",
                &["@", "\t", "\"", "\\", "a", "\n", " ", "  b\n", "%"],
                pick(6, 7),
            ),
            mutations(t),
            derived("derived rule violations", violations(pick(6, 7))),
            derived("derived classes", class_rules(pick(5, 6))),
            mutated_programs(pick(2, 3)),
        ],
        19 => vec![
            sp(
                "histories",
                What::Histories {
                    menu: v(MENU),
                    all: pick(4, 5),
                    bfs: pick(4, 6),
                    max_states: pick(3_000, 40_000),
                },
            ),
            list("long sessions", long_sessions()),
            list("sessions with names alike", names_alike_sessions()),
            list("rejected lines", rejected_lines(true)),
            // The same on the command line.
            list("typed sessions", session_histories(pick(2, 3), &["a + b + f + A + B + c\n"])),
            list(
                "rejected typed lines",
                rejected_lines(false)
                    .iter()
                    .filter(|s| !s.contains("{ "))
                    .map(|s| a_session(&s.replace('\u{1}', ""), &[]))
                    .collect(),
            ),
            list(
                "long typed sessions",
                long_sessions().iter().map(|s| a_session(&s.replace('\u{1}', ""), &[])).collect(),
            ),
        ],
        20 => vec![
            viable("lexemes", LEX, pick(4, 5), 0, &["", "\n"]),
            configs(ROLES, pick(7, 8), pick(7, 8), &["", "\n"], false),
            block_lines("statements", STATEMENTS, 3, pick(3, 4), 0),
            strings(
                "texts",
                &[
                    "a", " ", "\n", "//", "\\", "{", "}", "(", ")", ":", "1", ",", "if (a)",
                    "fun ()", "\"", "-", "print ",
                ],
                pick(5, 6),
            ),
            mutations(t),
            derived("derived programs", programs(4)),
            derived("derived expressions", expressions(CONTEXTS, pick(5, 6))),
            derived_open("derived programs without their last line end", programs(4)),
            derived_open("derived expressions without their line end", expressions(CONTEXTS, pick(5, 6))),
        ],
        21 => vec![
            list("programs", v(CORPUS)),
            block_lines("statements", STATEMENTS, 2, 2, 1),
            block_lines("erroneous lines", ERRONEOUS, 1, pick(2, 3), 9),
            viable("lexemes", LEX, pick(2, 3), 1, &["\n"]),
            list("truncated programs", truncations(1)),
            family("sizes", SIZES, size),
            list("sessions", session_histories(3, &[])),
            list("input arriving in pieces", session_splits(t)),
            list("input ending anywhere", session_ends()),
            list("lines that are a word", session_words()),
            list("how texts begin and end", edges(false)),
            list("how lines begin", edge_sessions()),
            list("file names", file_names(pick(2, 3))),
            list("at a terminal", at_terminals(2)),
            list("big files", big_files()),
            list("command lines", command_lines(pick(3, 4))),
            list("much typed", much_typed(pick(5000, 70_000))),
            derived("derived programs", programs(2)),
        ],
        22 => vec![
            list("programs", v(CORPUS)),
            viable("lexemes", LEX, pick(3, 4), 1, &["\n"]),
            configs(ROLES, pick(5, 7), pick(5, 7), &["\n"], false),
            block_lines("statements", STATEMENTS, 2, pick(2, 3), 1),
            block_lines("erroneous lines", ERRONEOUS, 1, pick(2, 3), 9),
            mutations(false),
            strings_in(
                "strings",
                &["a", "é", "\u{1f44d}\u{1f3fd}", "\n", "\\", "\u{0}", "\u{7f}", "\u{2028}"],
                pick(4, 5),
                &[("\"", "\"\n"), ("x = {\"", "\": 1}\n"), ("\"", "\" @\n")],
            ),
            strings_in("numbers", &["0", "1", "9", ".", "5"], pick(5, 7), &[("", "\n"), ("-", "\n")]),
            list("bindings", nested_bindings()),
            family("sizes", SIZES - 2, |i| size(i / 2 * 2 + 1)),
            family("entry counts", 60, |i| {
                let e: Vec<String> = (0..i).map(|k| format!("k{}: {k}", k * 7 % 60)).collect();
                format!("x = {{{}}}\n", e.join(", "))
            }),
            derived("derived programs", programs(pick(3, 4))),
            derived("derived expressions", expressions(CONTEXTS, pick(4, 5))),
            derived("derived rule violations", violations(pick(3, 5))),
            derived("derived bindings", bindings(pick(3, 4))),
            list("long lists", long_lists()),
            list("how texts begin and end", edges(false)),
        ],
        23 => {
            let all = probes();
            let n = all.len();
            let some: Vec<String> =
                all.iter().filter(|p| p.len() <= pick(24, 60)).cloned().collect();
            let m = some.len();
            let join = |v: Vec<&str>| v.join("\u{1}");
            let (a, b, c) = (all.clone(), all.clone(), all.clone());
            vec![
                family("probes", n, {
                    let a = a.clone();
                    move |i| a[i].clone()
                }),
                family("pairs", n * n, move |i| join(vec![&a[i / n], &a[i % n]])),
                family("pairs on two threads", n * n, move |i| {
                    format!("{}{}", crate::pure::THREADS, join(vec![&b[i / n], &b[i % n]]))
                }),
                family("triples", m * m * m, move |i| {
                    join(vec![&some[i / m / m], &some[i / m % m], &some[i % m]])
                }),
                family("a pair, then the first again", n * n, move |i| {
                    join(vec![&c[i / n], &c[i % n], &c[i / n]])
                }),
                list("nearly equal texts", nearly_equal(pick(2, 1))),
                family("repetitions", n, {
                    let all = all.clone();
                    move |i| {
                        let k = if all[i].len() < 20 { 70_000 } else { 1000 };
                        format!("{0}{1}{0}{2}", crate::pure::TIMES, pick(k / 10, k), all[i])
                    }
                }),
                family("repetitions on two threads", n, {
 let all = all.clone();
 move |i| {
                    format!("{0}{1}300{1}{2}", crate::pure::THREADS, crate::pure::TIMES, all[i])
                }}),
                sp("schedules", What::Schedules {
                    texts: all.iter().step_by(pick(3, 1)).cloned().collect(),
                    bound: 1,
                    fresh: false,
                }),
                sp("schedules with more preemptions", What::Schedules {
                    texts: v(if t { RACING } else { &RACING[..6] }),
                    bound: 2,
                    fresh: false,
                }),
                sp("schedules with the most preemptions", What::Schedules {
                    texts: v(&RACING[..pick(1, 3)]),
                    bound: pick(3, 4),
                    fresh: false,
                }),
                sp("schedules of the first analyses", What::Schedules {
                    texts: v(if t { RACING } else { &RACING[..3] }),
                    bound: 1,
                    fresh: true,
                }),
                family("wrapping counters", 2, move |i| {
                    format!("{0}{1}{0}{2}", crate::pure::TIMES, 66_000, ["a\n", "@"][i])
                }),
            ]
        }
        25 => vec![
            list("bytes", byte_texts(pick(2, 3))),
            list("bad bytes anywhere", bad_anywhere(pick(2, 1))),
            list("sessions with bad lines", bad_sessions(pick(3, 4))),
            list("bad lines arriving in pieces", bad_session_pieces(t)),
            list("files arriving in pieces", file_pieces(t)),
            family("file sizes", 6 * 40, file_size),
            list("paths", odd_paths()),
            list("input failing anywhere", input_failures(pick(3, 1))),
            list("system calls", calls(pick(3, 1))),
            list("output failing anywhere", output_failures(pick(7, 1))),
        ],
        24 => vec![
            list("events in every order", page_events(pick(3, 4))),
            shown(list("programs", v(CORPUS))),
            shown(list("probes", probes())),
            shown(derived("derived programs", programs(pick(2, 3)))),
            shown(derived("derived expressions", expressions(CONTEXTS, pick(3, 4)))),
            shown(derived("derived rule violations", violations(pick(3, 4)))),
            shown(strings_list(
                &["a", "é", "\u{1f44d}", "\n", "\\", "\u{0}", "\u{7f}", "\u{2028}", "'", "&lt;", "<", "{", ","],
                pick(3, 4),
                &[("\"", "\"\n"), ("x = {\"", "\": 1}\n"), ("\"", "\" @\n")],
            )),
            shown(strings_list(&["0", "1", "9", ".", "5"], pick(5, 6), &[("", "\n"), ("-", "\n")])),
            shown(family("long numbers", 3 * 340, |i| {
                let n = i / 3;
                match i % 3 {
                    0 => format!("0.{}123\n", "0".repeat(n)),
                    1 => format!("1{}\n", "0".repeat(n)),
                    _ => format!("x = -{}.{}\n", "7".repeat(n / 10 + 1), "3".repeat(n % 30 + 1)),
                }
            })),
            shown(clustered("clusters in texts")),
            shown(list("map keys", page_keys())),
            shown(list("truncated programs", truncations(pick(3, 1)))),
            shown(family("sizes", SIZES, |i| size(i / 2 * 2 + 1))),
            shown(list("long lists", long_lists())),
        ],
        _ => vec![],
    }
}

/// Long lists of every kind, and long strings, names, numbers and messages.
fn long_lists() -> Vec<String> {
    let mut out = vec![];
    for n in [
        99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 499, 500, 501, 511, 512,
        513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 4095, 4096, 4097, 5000, 5001, 9999,
        10_000, 10_001,
    ] {
        let some = |f: fn(usize) -> String, by: &str| (0..n).map(f).collect::<Vec<_>>().join(by);
        out.push(format!("[{}]\n", some(|i| i.to_string(), ", ")));
        out.push(format!("x = {{{}}}\n", some(|i| format!("k{i}: {i}"), ", ")));
        out.push(format!("x = {{{}}}\n", some(|i| format!("\"{i}\": {i}"), ", ")));
        out.push(format!("{}\n", some(|i| i.to_string(), "\n")));
        out.push(format!("class A\n{}", some(|i| format!("  m{i}()\n    {i}\n"), "")));
        out.push(format!("fun f()\n{}\n", some(|i| format!("  f({i})"), "\n")));
        out.push(format!("\"{}\"\n", some(|i| (i % 10).to_string(), "")));
        out.push(format!("\"{}\"\n", some(|_| "é".into(), "")));
        out.push(format!("a{}\n", some(|i| (i % 10).to_string(), "")));
        out.push(format!("x = {{a{}: 1}}\n", some(|i| (i % 10).to_string(), "")));
        out.push(format!("{}\n", some(|_| "@".into(), "\n")));
        out.push(format!("{}\n", some(|i| format!("print ) {i}"), "\n")));
    }
    out
}

/// Short texts of different kinds, for schedules.
const RACING: &[&str] = &[
    "a = b\n",
    "if (a)\n  @\n",
    "while (a) {",
    "var a = a\n",
    "fun f(a) { this\n} f\n",
    "break\n",
    "a = {b: \"c\"}\n",
    "class A < B { m() { super.m\n} } A\n",
];

/// Events in the web page: it is ready, and the text is typed.
fn shown(s: Space) -> Space {
    let to = |t: &str| format!("L\u{1}R\u{1}I{t}");
    let what = match s.what {
        What::List(v) => What::List(v.iter().map(|t| to(t)).collect()),
        What::Family(n, f) => What::Family(n, Box::new(move |i| to(&f(i)))),
        w => w,
    };
    sp(&s.name, what)
}
fn strings_list(alpha: &[&str], max: usize, ctx: &[(&str, &str)]) -> Space {
    let mut all = vec![String::new()];
    let mut level = all.clone();
    for _ in 0..max {
        level = level
            .iter()
            .flat_map(|s| alpha.iter().map(move |a| format!("{s}{a}")))
            .collect();
        all.extend(level.iter().cloned());
    }
    let all = all
        .iter()
        .flat_map(|s| ctx.iter().map(move |(a, b)| format!("{a}{s}{b}")))
        .collect();
    list("strings and numbers", all)
}
/// Every order of loading, readiness and some edits.
fn page_events(inputs: usize) -> Vec<String> {
    const TEXTS: &[&str] = &[
        "",
        "a\n",
        "a = {b: true}\n",
        "@\n",
        "a +\n",
        "{ var b\nvar b\n} c\n",
    ];
    let mut out = vec![];
    for n in 0..=inputs {
        for k in 0..TEXTS.len().pow(n as u32) {
            let texts: Vec<String> = (0..n)
                .map(|i| format!("I{}", TEXTS[k / TEXTS.len().pow(i as u32) % TEXTS.len()]))
                .collect();
            // The places of the two other events among the n + 2.
            for a in 0..n + 2 {
                for b in 0..n + 2 {
                    if a == b {
                        continue;
                    }
                    let mut t = texts.iter();
                    let e: Vec<&str> = (0..n + 2)
                        .map(|i| {
                            if i == a {
                                "L"
                            } else if i == b {
                                "R"
                            } else {
                                t.next().unwrap()
                            }
                        })
                        .collect();
                    out.push(e.join("\u{1}"));
                }
            }
        }
    }
    out
}
fn page_keys() -> Vec<String> {
    let words = [
        "a", "A9_", "_", "9", "09", "1.5", "-1", "", " ", "a b", "é", "a-b", "true", "null",
        "undefined", "__proto__", "constructor", "toString", "length", "break", "class", "if",
        "new", "var", "with", "await", "'", "\\", "\n", "{", "}", ":", ",", "//", "$", "a:",
    ];
    let mut out = vec![];
    for a in words {
        for b in words {
            out.push(format!(
                "x = {{\"{a}\": \"{b}\", \"{b} \": {{\"{a}\": true}}}}\n"
            ));
        }
    }
    out
}

// ---- grammars ------------------------------------------------------------------

fn derived(name: &str, g: Grammar) -> Space {
    family(name, g.total(), move |i| g.unrank(i))
}
/// Without the last line end, and with something else in its place.
fn derived_open(name: &str, g: Grammar) -> Space {
    const ENDS: &[&str] = &["", " ", " \\\n", "// c"];
    family(name, g.total() * ENDS.len(), move |i| {
        let t = g.unrank(i / ENDS.len());
        format!("{}{}", t.trim_end(), ENDS[i % ENDS.len()])
    })
}
/// Every single-lexeme mutation of every derived program of a weight.
fn mutated_programs(weight: usize) -> Space {
    let g = programs(weight);
    sp(
        "mutated derived programs",
        What::Mutations {
            corpus: (0..g.total()).map(|i| g.unrank(i)).collect(),
            alpha: v(if weight < 3 { LEX } else { &["( ", ") ", "\n", "x ", "{ "] }),
            two: false,
        },
    )
}

/// Where comments can be: `¤` is a comment and the line end after it, `¶` and
/// `§` are lines of their own.
const COMMENTED: &[&str] = &[
    "a¤b\n",
    "¶a\n",
    "a\n¶",
    "if (a)¤  b¤c\n",
    "if (a)\n  b\n§  c\n¶d\n",
    "a +¤  b\n",
    "a,¤b\n",
    "m = [¤1,¤2,¤]\n",
    "var m =¤  k: 1¤  l: 2¤b\n",
    "class A < B¤  m()¤    super.m()¤c\n",
    "for (;;)¤  break¤@\n",
    "a \\\n  b¤c\n",
    "\"s\nt\"¤)¤",
];
fn commented(text: &str, comment: Option<&str>) -> String {
    match comment {
        Some(c) => text.replace('¤', &format!(" {c}\n")).replace('¶', &format!("{c}\n")).replace('§', &format!("    {c}\n")),
        None => text.replace('¤', "\n").replace(['¶', '§'], ""),
    }
}
/// Every character, every reserved word, every pair of characters that mean
/// something elsewhere, in a comment.
fn comments() -> Vec<String> {
    let mut said: Vec<String> = (0..=0x17f_u32)
        .filter(|c| !matches!(c, 1 | 10))
        .filter_map(char::from_u32)
        .chain("\u{301}\u{200d}\u{2028}\u{2029}\u{feff}\u{fffd}日🇩🇪👩\u{10ffff}".chars())
        .map(String::from)
        .collect();
    let odd = [
        "a", " ", "1", "/", "\"", "\\", "(", ")", "{", "}", "[", ":", ",", "+", "*", "!", "#", "@", "\r", "\t", "é",
        "=", ".", "-", "<", ">", ";", "'", "`", "$", "%", "&", "|", "?", "~", "^", "_",
    ];
    for a in odd {
        for b in odd {
            said.push(format!("{a}{b}"));
        }
    }
    said.extend(near_words());
    for w in ["eslint-disable", "#region", "TODO", "@ts-ignore", "!shebang", "*/", "/* */", "\r\r", "éé\u{301}", "end", "pragma once", "a\rb = (", "\"a\rb"] {
        said.push(w.to_owned());
    }
    for n in (2..70).chain([127, 128, 129, 254, 255, 256, 257, 1000, 65_534, 65_535, 65_536, 65_537]) {
        said.push("x".repeat(n));
        said.push("é ".repeat(n));
    }
    let mut all = vec![];
    for c in said {
        for before in ["//", "// "] {
            // A mark joins the slash before it.
            let comment = format!("{before}{c}");
            if comment.graphemes(true).nth(1) != Some("/") {
                continue;
            }
            for t in COMMENTED {
                all.push(format!("{}{SEP}{}", commented(t, None), commented(t, Some(&comment))));
            }
        }
    }
    all
}
/// Many spaces, blank lines and comment lines.
fn much_space(most: usize) -> Vec<String> {
    let sizes = (2..300)
        .chain([511, 512, 513, 999, 1000, 1001, 1024, 4096, 10_000])
        .chain([32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 65_538, 70_000, 1 << 20]);
    let mut all = vec![];
    for n in sizes.filter(|n| *n <= most) {
        let s = " ".repeat(n);
        for (t, one) in [
            ("a§+§b§\n", " "),
            ("if§(a)§\n  b§\n    c§.d§\n§\ne\n", " "),
            ("if (a)\n  f§b,§c§\n  d§=§{k:§1}§\ne\n", " "),
            ("m = [§1,§2]§\n§)§\n", " "),
            ("a +§\n§b\n", " "),
            ("f§(1),§2\n", " "),
            ("a.b§(c)§d§(e)\n", " "),
            ("if§(a)§(b)\n  fun§g§(h)\n    i\n", " "),
        ] {
            let base = t.replace("§\n", "\n").replace("\n§", "\n").replace('§', one);
            let more = t.replace("\n§b", "\n  b").replace('§', &s);
            all.push(format!("{base}{SEP}{more}"));
        }
        for line in ["\n", "\r\n", "// c\n", "  // c\n", "      \n", "\n   // é\r\n"] {
            let l = line.repeat(n.min(most / 8));
            for t in ["§a\n§b\n§", "if (a)\n§  b +\n§    c\n§  d\n§else\n§  e\n§", "a \\\n§  b\n§  c\n§"] {
                all.push(format!("{}{SEP}{}", t.replace('§', ""), t.replace('§', &l)));
            }
        }
    }
    all
}

/// Groups of spellings that are easily taken for one another.
const ALIKE: &[&[&str]] = &[
    &[
        "a", "A", "_a", "a_", "__a", "_", "__", "a0", "a1", "a00", "a01", "aa", "aA", "Aa", "ab", "ba", "aB", "Ab", "AB",
        "a_b", "aab", "abb", "b", "B", "BB", "_0", "_1", "a_0", "é", "e\u{301}", "e", "è", "É", "init", "Init", "inits",
        "this_", "super_", "nil0", "main", "constructor", "prototype", "__proto__", "toString", "self", "length",
    ],
    // Composed, decomposed, folded, and of another script.
    &["Å", "Å", "A\u{30a}", "å", "A", "А", "Ａ", "Α"],
    &["ﬁ", "fi", "ﬀ", "ff"],
    &["ß", "ss", "ẞ", "SS", "ſ", "s", "S"],
    &["ı", "i", "I", "İ", "i\u{307}", "Ｉ"],
    &["σ", "ς", "Σ"],
    &["ǆ", "ǅ", "Ǆ", "dž"],
    &["K", "k", "K"],
    &["aة", "aه", "aة\u{64b}"],
    &["日", "曰", "日\u{fe00}", "日\u{e0100}"],
    &["a\u{301}\u{316}", "a\u{316}\u{301}", "á", "á\u{316}"],
    &["a\u{200d}", "a", "a\u{200c}", "a\u{ad}", "a\u{fe0f}"],
    &["한", "한", "하"],
    // The same hash, for hashes in wide use.
    &["Aa", "BB"],
    &["AaAa", "BBBB", "AaBB", "BBAa"],
    &["plumless", "buckeroo"],
    &["codding", "gnu"],
    &["costarring", "liquid"],
    &["declinate", "macallums"],
    &["altarage", "zinke"],
    &["hetairas", "mentioner"],
    &["heliotropes", "neurospora"],
    &["stylist", "subgenera"],
    &["abc", "acb", "bac", "bca", "cab", "cba"],
    &["ad", "bc", "cb", "da"],
];
/// Programs in which two names mean different things.
const TWO_NAMES: &[&str] = &[
    "var P = 1\nvar Q = 2\nQ + P\n",
    "P = Q\nvar P = Q\nP = Q\n",
    "{ var P = 1\nvar Q = P\nQ = P\n} P + Q\n",
    "fun f(P, Q) { return Q + P\n} f\n",
    "fun P()\n  var P = 1\n  fun Q(x)\n    return P + Q\n  P(Q)\nQ\n",
    "fun P(Q) { var r = P\nfun h(P) { Q = P\n} r\n} Q\n",
    "fun f()\n  var P = 1\n  if (P)\n    var Q = P\n    P = Q\n  Q = P\n",
    "class P\n  Q()\n    P\nclass Q < P\n  P()\n    super.Q\n",
    "class A\n  P(Q)\n    this.Q = P\n  Q(P)\n    this.P = Q\n  class P()\n    return P\n  class Q()\n    return Q\n",
    "x = {P: Q, Q: P}.P.Q\n",
    "x = {\"P\": Q, Q: \"P\"}\n",
    "P: 1, Q: P\n",
    "x.P = x.Q\n",
    "for (var P = Q; P; Q = P) Q\n",
    "fun f(x, P)\n  for (var Q = P; Q; P = Q)\n    var P = Q\n  P\n",
];
/// Every program with every two names that are alike.
fn names_alike() -> Vec<String> {
    let mut groups: Vec<Vec<String>> = ALIKE.iter().map(|g| v(g)).collect();
    for n in (2..36).chain([47, 48, 62, 63, 64, 65, 79, 80, 99, 100, 126, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 65_536]) {
        let x = "x".repeat(n);
        groups.push(vec![x.clone(), format!("{x}x")]);
        groups.push(vec![format!("{x}a"), format!("{x}b")]);
        groups.push(vec![format!("a{x}"), format!("b{x}")]);
        groups.push(vec![format!("{}a{}", &x[..n / 2], &x[n / 2..]), format!("{}b{}", &x[..n / 2], &x[n / 2..])]);
    }
    let mut all = vec![];
    for g in groups {
        for (i, p) in g.iter().enumerate() {
            for (k, q) in g.iter().enumerate() {
                if i == k || p.len() > 2000 && i > k {
                    continue;
                }
                for t in TWO_NAMES {
                    all.push(t.replace('P', "\u{1}").replace('Q', q).replace('\u{1}', p));
                }
            }
        }
    }
    all
}
/// The same in sessions, one statement in each part.
fn names_alike_sessions() -> Vec<String> {
    let mut all = vec![];
    for g in ALIKE {
        for p in *g {
            for q in *g {
                if p != q {
                    all.push(format!("var {p} = 1\n\u{1}var {q} = 2\n\u{1}{q} = {p}\n\u{1}{{ var {p} = {q}\n}} {p}\n\u{1}fun f({q}) {{ {p}\n}} f\n"));
                }
            }
        }
    }
    all
}

/// Sessions in which lines of every form mention or declare names before an
/// error, or before none; then lines that show what was kept.
fn rejected_lines(two: bool) -> Vec<String> {
    const FORMS: &[&str] = &[
        "U\nE\n",
        "print [U, E]\n",
        "print U + E\n",
        "U = E\n",
        "var w = [U, E]\n",
        "var U = E\n",
        "var U\nE\n",
        "var U = 1\nvar w = U\nE\n",
        "if (U) E\n",
        "if (x) U\nelse E\n",
        "while (U) E\n",
        "for (U; E; w) x\n",
        "for (var i = U; w; E) x\n",
        "for (i; w; U) E\n",
        "U(w, E)\n",
        "x = {a: U, b: E}\n",
        "x[U] = E\n",
        "U.x = E\n",
        "!U or E\n",
        "{ U\nE\n} 0\n",
        "{ var w = U\n{ U = w\nE\n} 0\n} 0\n",
        "fun U() { E\n} 0\n",
        "fun k(w) { U\nreturn E\n} 0\n",
        "class U { m() { E\n} } 0\n",
        "class k < U { m() { w\n} init() { E\n} } 0\n",
        "class U < U { } 0\n",
        "y = fun (w) { return [U, E]\n} 0\n",
        "U\nU\nreturn U\n",
        "U\nbreak\n",
        "U = U\nw = E\nvar U = E\n",
    ];
    const ERRORS: &[&str] = &["this", "super.m", "fun (p, p) { }", ")", "@", "v", "fun () { var p = p\n}"];
    const BEFORE: &[&str] = &["", "var u = 1\n\u{1}", "u\n\u{1}", "var r\n\u{1}class u { } 0\n\u{1}"];
    const AFTER: &[&str] = &["var n = 1\n\u{1}[n, u, w, k, v, x]\n", "var u = u\n\u{1}u = q\n", "fun h() { return [u, q]\n} h()\n\u{1}q\n"];
    let mut lines = vec![];
    for f in FORMS {
        for e in ERRORS {
            lines.push(f.replace('U', "u").replace('E', e));
        }
    }
    let mut all = vec![];
    for b in BEFORE {
        for a in AFTER {
            for l in &lines {
                all.push(format!("{b}{l}\u{1}{a}"));
                if two {
                    for m in &lines {
                        all.push(format!("{b}{l}\u{1}{m}\u{1}{a}"));
                    }
                }
            }
        }
    }
    all
}

/// Blocks within blocks, indented by every two widths, and what comes back to
/// every third.
fn widths(most: usize) -> Vec<String> {
    let mut all = vec![];
    let s = |n: usize| " ".repeat(n);
    for a in 1..=most {
        for b in a + 1..=most {
            for c in 0..=most + 1 {
                all.push(format!("if (a)\n{}if (b)\n{}c\n{}d\ne\n", s(a), s(b), s(c)));
            }
        }
        for b in 0..=most {
            for c in 0..=most {
                all.push(format!("if (a)\n{}b +\n{}c\n{}d\n", s(a), s(b), s(c)));
            }
        }
    }
    all
}

/// Every two kinds of lexemes with everything that can stand between them.
fn pairs_apart() -> Space {
    const LEXEMES: &[&str] = &[
        "a", "1", "1.5", "\"s\"", "\"s\n\"", "nil", "true", "this", "super.m", "fun (p)", "(", ")", "{", "}", "[", "]",
        ":", ",", ".", "-", "+", ";", "/", "*", "!", "!=", "=", "==", "<", "<=", ">", ">=", "and", "or", "if (a)", "else",
        "while (a)", "for (a; b; c)", "break", "print", "return", "var x =", "class A", "é", "@", "b", "{ }", "()", "[]",
    ];
    const APART: &[&str] = &[
        "", " ", "  ", "\n", "\r\n", "\n  ", "\r\n  ", "\n\n", "\\\n", "\\\r\n", "\\ \r\n", " \\\n  ", " \\\r\n  ",
        "\\\n\\\r\n", "//c\n", " //c\r\n  ", "\n//c\n", "\n    //c\r\n  ", "\r", "\r\r\n", "\t", "\u{a0}", "\n \n   ",
        "\\\n\n", "\\\n//c\n  ",
    ];
    const AT: &[&str] = &["§", "§\n", "a §\nb\n", "if (a)\n  §\nb\n", "x = [§]\n", "f(§)\n", "x =\n   §\n", "class A\n  m()\n    a §\nb\n", "while (a) §\nb"];
    let (n, k) = (LEXEMES.len(), APART.len());
    family("pairs of lexemes and what is between them", n * n * k * AT.len(), move |i| {
        let pair = format!("{}{}{}", LEXEMES[i % n], APART[i / n / n % k], LEXEMES[i / n % n]);
        AT[i / n / n / k].replace('§', &pair)
    })
}

/// Every form of expression around every other one, at every place that takes
/// an expression.
fn forms_everywhere(depth: usize) -> Space {
    const LEAVES: &[&str] =
        &["a", "b", "nil", "true", "false", "0", "1", "1.5", "\"\"", "\"s\"", "this", "super.m", "[]", "{}", "x.y"];
    const FORMS: &[&str] = &[
        "-§", "!§", "(§)", "§()", "§(§)", "§(b, §)", "§[§]", "§.m", "§ + §", "§ - §", "§ * §", "§ / §",
        "§ == §", "§ != §", "§ < §", "§ >= §", "§ and §", "§ or §", "a = §", "§.b = §", "§[§] = §", "[§]",
        "[§, §]", "{k: §}", "{k: §, j: §}", "{\"k\": §}", "fun (p) { return §\n}", "fun () { §\n}", "§.m(§)", "§ = §",
    ];
    const AT: &[&str] = &[
        "§\n", "§", "a\n§\nb\n", "print §\n", "var x = §\n", "var x = §\nx\n", "(§)\n", "f §\n", "f §, 1\n",
        "f 1, §\n", "o.f §\n", "return §\n", "if (§) c\n", "if (§) c\nelse d\n", "if (a) b\nelse if (§) c\n",
        "if (a) b\nelse if (§) c\nelse d\n", "if (a) §\n", "if (a) b\nelse §\n", "if (a)\n  §\nelse\n  b\nc\n",
        "if (a)\n  b\nelse\n  §\nc\n", "while (§) c\n", "while (a) §\n", "while (a)\n  §\n  break\nc\n", "for (§; b; c) d\n",
        "for (var i = §; b; c) d\n", "for (; §; ) d\n", "for (; b; §) d\n", "for (a; b; c) §\n",
        "for (a; b; c)\n  §\nd\n", "fun f(p)\n  §\nc\n", "fun f(p)\n  return §\nc\n", "{ var y = §\n} 0\n", "{ §\n} 0\n",
        "class A < B\n  m(p)\n    §\nc\n", "class A\n  init()\n    §\nc\n", "class A < B\n  class m()\n    return §\n",
        "class A < B\n  m(p)\n    if (§)\n      this.a = §\nc\n", "x = [§, §]\n", "x = {a: §, b: §}\n", "f(§, §)[§] = §\n",
        "if (§) §\nelse if (§) §\nelse §\n", "for (§; §; §) §\n", "while (§)\n  while (§) §\n  §\n", "§ + § * §\n", "f §, §, §\n",
    ];
    // A form around leaves: any leaf at one place and one at all others.
    let one = |inner: &[String]| -> Vec<String> {
        let mut out = vec![];
        for f in FORMS {
            let n = f.matches('§').count();
            for k in 0..n {
                for e in inner {
                    let mut place = 0;
                    let mut t = String::new();
                    for (i, part) in f.split('§').enumerate() {
                        if i > 0 {
                            t.push_str(if place == k { e } else { "w" });
                            place += 1;
                        }
                        t.push_str(part);
                    }
                    out.push(t);
                }
            }
        }
        out
    };
    let leaves: Vec<String> = LEAVES.iter().map(|s| s.to_string()).collect();
    let mut all = leaves.clone();
    let first = one(&leaves);
    all.extend(first.clone());
    // Two levels, at first with the inner one around some leaves only.
    let inner: Vec<String> = match depth {
        0 => vec![],
        1 => one(&["c".into(), "nil".into()]),
        _ => first,
    };
    all.extend(one(&inner));
    let n = all.len();
    family("forms of expressions in every place", n * AT.len(), move |i| AT[i / n].replace('§', &all[i % n]))
}

/// Lines of nothing but spaces or a comment, at every indentation, between
/// the lines of a continued or a plain statement.
fn blank_widths(most: usize) -> Vec<String> {
    let mut all = vec![];
    let s = |n: usize| " ".repeat(n);
    for blank in ["// c\n", "\n", "//\n  // d\n", "\\\n", "// c\r\n"] {
        for a in 0..=most {
            for b in [0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17] {
                let (x, y) = (s(a), s(b));
                for t in [
                    "a +\nX#Yb\n",
                    "a\nX#Y+ b\n",
                    "a \\\nX#Yb\n",
                    "(a,\nX#Yb)\n",
                    "f(a,\nX#Yb)\n",
                    "a\nX#Yb\n",
                    "if (a)\n  b +\nX#Yc\nd\n",
                    "if (a)\n    b\nX#Yc\nd\n",
                    "if (a)\nX#Yb\nc\n",
                    "if (a)\n    b\nX#Yelse\n  c\nd\n",
                    "class A\n   m()\n      b\nX#Yn()\n       c\nd\n",
                    "x =\nX#Ya: 1\n   b: 2\n",
                    "x = {a: 1,\nX#Yb: 2\n}\n",
                    "if (a)\n  if (b)\n     c = 1 +\nX#Y2\n  d\n",
                    "a. \nX#Yb\n",
                    "a +\nX#Yb +\nX#Yc\nd\n",
                ] {
                    all.push(t.replace('#', blank).replace('X', &x).replace('Y', &y));
                }
            }
        }
    }
    all
}

/// Indentations whose widths are far apart, or wide and nearly the same.
fn wide_indentations() -> Vec<String> {
    let mut all = vec![];
    let s = |n: usize| " ".repeat(n);
    for a in [1usize, 2, 3, 4, 8, 100] {
        for k in [64usize, 100, 127, 128, 255, 256, 512, 999, 1000, 1024, 4096, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000] {
            for b in [a + k - 1, a + k, a + k + 1] {
                let mut third = vec![0, a, b, b + 1, b - 1, k, b + k];
                third.dedup();
                for c in third {
                    if k > 4096 && (a > 2 || c > 65_540 && c != b && c != b + 1) {
                        continue;
                    }
                    all.push(format!("if (a)\n{}if (b)\n{}c\n{}d\ne\n", s(a), s(b), s(c)));
                    all.push(format!("if (a)\n{}b\n{}c\n", s(b), s(c)));
                }
                all.push(format!("if (a)\n{}b +\n{}c\n{}d\n", s(a), s(b), s(a)));
                all.push(format!("if (a)\n{}b +\n{}c\n{}d\n", s(b), s(a), s(b)));
            }
        }
    }
    all
}

/// Many lines of nothing but spaces or a comment between two lines.
fn blank_runs() -> Vec<String> {
    let sizes: Vec<usize> = (0..=34).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 1000, 1024, 5000]).collect();
    let mut all = vec![];
    for blank in ["\n", "\r\n", "// c\n", "   \n", "          // c\r\n", "//\n\n", "\\\n"] {
        for around in [
            "a +\n#b\n", "a\n#+ b\n", "a \\\n#b\n", "(a,\n#b)\n", "f(\n#a,\n#b)\n", "a\n#b\n", "a.\n#b.c\n#d\n",
            "if (a)\n  b +\n#  c\n#d\n", "if (a)\n#  b\n#c\n", "if (a)\n  b\n#else\n#  c\n#d\n", "class A\n#  m()\n#    b\n#  n()\n#    c\nd\n",
            "x =\n#  a: 1\n#  b: 2\n#c\n", "x = {a: 1,\n#  b:\n# 2}\n#y\n", "fun f(a,\n#b)\n#  c\n#d\n", "if (a)\n    b\n#   c\n", "#a\n@\n#)\n", "a\n#", "if (a)\n  b\n#",
        ] {
            for n in &sizes {
                all.push(around.replace('#', &blank.repeat(*n)));
            }
        }
    }
    all
}

/// Names of all shapes after some other names.
fn names_after_others() -> Space {
    const SHAPES: &[&str] = &[
        "_", "__", "___", "_a", "a_", "__a", "a__", "__x__", "_x_", "a_b", "a__b", "A", "AB", "Ab", "aB", "a1", "a10", "A1", "_1", "_0_",
        "é", "É", "日", "ß", "e\u{301}", "aa", "aaa", "x", "i", "l", "O", "nil_", "this_", "_this", "thisx", "superx", "This", "Nil", "TRUE",
        "v0", "v1", "v2", "v3", "v00", "v_1", "V1",
    ];
    const MODES: &[&str] = &[
        "§\n", "§ = 1\n", "var § = 1\n", "§\nvar § = 2\n§\n", "fun §(p)\n  §\n§\n", "class §\n  m()\n    §\n§\n", "fun f(§, p)\n  § = p\n§\n",
        "if (a)\n  var § = v0\n  §\n§\n", "fun f()\n  §\n  var § = 1\n  §\nf\n", "for (var § = 1; §; § = v1) §\n", "{ § = v0\n} var § = §\n",
        "class A < §\n  §()\n    this.§ = §\n",
    ];
    const OTHERS: &[&str] = &["v#\n", "var v# = 1\n", "v# = 1\n", "fun v#() { v#\n} v#\n"];
    let names: Vec<String> = SHAPES.iter().chain(ORDINARY).map(|s| s.to_string()).collect();
    let (n, m, o) = (names.len(), MODES.len(), OTHERS.len());
    family("names after others", n * m * o * 7, move |i| {
        let mut t = String::new();
        for k in 0..i / n / m / o {
            t.push_str(&OTHERS[i / n / m % o].replace('#', &k.to_string()));
        }
        t + &MODES[i / n % m].replace('§', &names[i % n])
    })
}

/// Every number of errors of some kinds on each of three lines.
fn errors_by_lines() -> Space {
    const KINDS: &[&str] = &["@", "#", "\t", "@ ", "\\ a", "a@", ") ", "this\n"];
    let k = KINDS.len();
    family("numbers of errors on each line", k * k * k * 9 * 9 * 9, move |i| {
        let (kinds, counts) = (i % (k * k * k), i / (k * k * k));
        let mut t = String::new();
        for (kind, n) in [(kinds % k, counts % 9), (kinds / k % k, counts / 9 % 9), (kinds / k / k, counts / 81)] {
            t.push_str(&KINDS[kind].repeat(n));
            t.push('\n');
        }
        t
    })
}

/// Every one and every two of the characters of a keyboard, wherever they may
/// have a meaning, perhaps in another language.
fn keyboard() -> Space {
    let keys: Vec<String> = (' '..='~').chain(['\t', '\r', '\n', 'é', '\u{301}']).map(String::from).collect();
    let mut two = keys.clone();
    for a in &keys {
        for b in &keys {
            two.push(format!("{a}{b}"));
        }
    }
    // Numbers of other languages have a sign or several letters.
    for a in ('a'..='z').chain('A'..='Z').chain(['_', '\'', '.']) {
        for b in ["+", "-", "_", "."] {
            two.push(format!("{a}{b}1"));
        }
    }
    const AT: &[&str] = &[
        "§",
        "§\n",
        "a§b\n",
        "a § b\n",
        "f(§a)\n",
        "a§(b)\n",
        "1§1\n",
        "0§1F\n",
        "1.5§2\n",
        "x = 1§\ny\n",
        "\"§\"\n",
        "§\"a\"§\"b\"\n",
        "x.§ = 1\n",
        "x = {§: 1, §: 2}\n",
        "x = [1§2]\n",
        "var §a = 1\n",
        "a §\n  b\nc\n",
        "if (a)\n §b\n  c\nd\n",
        "if (a) §b\n§else c\n",
        "a // §\nb\n",
        "for (§;§;§) a\n",
        "fun f§(b) { §c\n}§ d\n",
        "class A§B\n  m()\n    §a\n",
        "while (a)§\n  break§\n",
        "print §a\n",
    ];
    let n = two.len();
    family("keys in every place", n * AT.len(), move |i| AT[i / n].replace('§', &two[i % n]))
}

/// Strings of one or several lines with all contents up to a length, at every
/// place for one, in every kind of block.
fn strings_everywhere(n: usize) -> Space {
    const AROUND: &[&str] = &[
        "§",
        "if (a)\n  §b\nc\n",
        "class A\n    m()\n      §      b\nc\n",
        "while (a)\n if (b)\n   c\n §d\n",
        "fun f() { §} g\n",
        "  §",
    ];
    const AT: &[&str] = &[
        "§\n",
        "x = §\n",
        "var x = § + 1\n",
        "f §, 1\n",
        "f(§, 1)[2]\n",
        "x = {a: §, §: b}\n",
        "x = [§,\n§]\n",
        "print § // §\n",
        "var m =\n              a: §\n              §: 1\n",
        "x.§ = §\n",
        "§",
    ];
    let some = ["b", " ", "\n", "  ", "\r\n", "\\", "//", "\"\""];
    let mut contents = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = contents.len();
        for i in from..to {
            for c in some {
                contents.push(format!("{}{c}", contents[i]));
            }
        }
        from = to;
    }
    let (k, m) = (contents.len(), AT.len());
    family("strings in every place", k * m * AROUND.len(), move |i| {
        let string = format!("\"{}\"", contents[i % k]);
        AROUND[i / k / m].replace('§', &AT[i / k % m].replace('§', &string))
    })
}

/// Two texts that differ at one place: in a character, or in a statement.
fn nearly_equal(step: usize) -> Vec<String> {
    let mut out = vec![];
    let join = |v: &[&str]| v.join("\u{1}");
    let long: String = (0..40).map(|i| format!("var v{i} = f(v{}, \"{i}\")\n", i / 2)).collect();
    let texts = [
        "var a = 1\nvar b = a + 1\nprint [a, b, \"a b\"]\nif (a < b)\n  b = {a: a, \"b\": 2.5}\nelse\n  f b, a\nb.c(a)[1] = a\n",
        "class A < B\n  init(x)\n    this.x = x\n  class m(y)\n    return super.m(y)\nwhile (a)\n  break\na\n",
        "fun f(a, b)\n  var c = fun (d)\n    return a + d\n  return c\nfor (var i = 0; i < 9; i = i + 1)\n  continue\nf(1, 2)\n",
        "// " ,
        long.as_str(),
    ];
    let comment = format!("// {}\na\n", "word ".repeat(60));
    for t in texts {
        let t = if t == "// " { comment.as_str() } else { t };
        let step = if t.len() > 400 { 7 * step } else { step };
        for (n, (i, c)) in t.char_indices().enumerate() {
            for (k, r) in ["q", " ", "@", ")", "1", "\n", "\"", ""].into_iter().enumerate() {
                if (n + k) % step == 0 && r.chars().next() != Some(c) {
                    let other = format!("{}{r}{}", &t[..i], &t[i + c.len_utf8()..]);
                    out.push(join(&[&other, t]));
                    out.push(join(&[t, &other]));
                }
            }
        }
    }
    let menu = [
        "a\n", "return\n", "print 1\n", "break\n", "var a = 1\n", "a = this\n", "@\n", "a b = 1\n",
        "fun f() { return a\n} f\n", "if (a)\n  b\n", "class A { m() { super.m\n} } 1\n",
    ];
    for n in 1..10 {
        for at in 0..n {
            for x in menu {
                for y in menu {
                    let make = |s: &str| {
                        (0..n).map(|i| if i == at { s.to_string() } else { format!("g{i}\n") }).collect::<String>()
                    };
                    if x != y {
                        out.push(join(&[&make(x), &make(y)]));
                    }
                }
            }
        }
    }
    out
}

/// So many members of a kind in each kind of block, and then, in it or in its
/// sibling, what may be judged wrongly after them.
fn after_many() -> Space {
    const UNITS: &[&str] = &["g#", "var v# = 1", "f(#)", "{ var a\n", "a = #", "// c", "", "if (a) b", "h# a, fun () { a = b\n"];
    const PROBES: &[&str] = &[
        "var a = a", "return 1", "this", "break", "super.x", "{ var b\n%var b\n%} a", ")", "@",
        "fun k(p, p) { } 0", "class K < K { } 0", "x = {a: 1, a: 2}", "a b, c", "var q = g0 + v0", "continue",
    ];
    // Before, the indentation of both, between.
    const AROUND: &[(&str, usize, &str)] = &[
        ("", 0, ""),
        ("class A\n  m()\n    nil\n", 4, "  n()\n"),
        ("class A < B\n  init()\n    nil\n", 4, "    nil\n"),
        ("class A < B\n  class m()\n    nil\n", 4, "  init(x)\n"),
        ("fun f()\n  nil\n", 2, ""),
        ("fun f()\n  nil\n", 2, "fun g()\n"),
        ("if (x)\n  nil\n", 2, "else\n"),
        ("while (x)\n  nil\n", 2, ""),
        ("for (var i = 0; i; i)\n  nil\n", 2, "while (y)\n"),
    ];
    let sizes: Vec<usize> = (0..=34).chain([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 253, 254, 255, 256, 257]).collect();
    let (u, p, a) = (UNITS.len(), PROBES.len(), AROUND.len());
    family("after many members", u * p * a * sizes.len(), move |i| {
        let (unit, probe) = (UNITS[i % u], PROBES[i / u % p]);
        let (before, width, between) = AROUND[i / u / p % a];
        let spaces = " ".repeat(width);
        let line = |s: &str| {
            if s.is_empty() {
                return "\n".to_string();
            }
            // A brace block ends on a line of its own.
            let end = if s.contains("fun () {") || s.starts_with("{ var a") {
                format!("{spaces}}} 0\n")
            } else {
                String::new()
            };
            format!("{spaces}{}\n{end}", s.trim_end_matches('\n'))
        };
        let mut t = before.to_string();
        for k in 0..sizes[i / u / p / a] {
            t.push_str(&line(&unit.replace('#', &k.to_string())));
        }
        t.push_str(between);
        t.push_str(&line(&probe.replace('%', &spaces)));
        t.push_str("z\n");
        t
    })
}

/// Parameter lists of every length, with a repetition or without, before
/// every kind of body.
fn parameter_lists() -> Space {
    const HEADS: &[(&str, &str)] = &[
        ("", "fun f"),
        ("", "var x = fun "),
        ("class A\n", "  m"),
        ("class A < B\n", "  init"),
        ("class A\n", "  class m"),
        ("fun g(p0)\n  p1\n", "  fun h"),
    ];
    const BODIES: &[&str] = &[
        " { }",
        " { return p0\n}",
        "\n      p0 = p1\n",
        " { var p0\n}",
        "\n      return fun () { return p1\n      }\n",
        "\n      { var p1 = p0\n      } q\n",
    ];
    let sizes: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300]).collect();
    let (h, b) = (HEADS.len(), BODIES.len());
    family("parameter lists", h * b * 5 * sizes.len(), move |i| {
        let (head, body, n) = (HEADS[i % h], BODIES[i / h % b], sizes[i / h / b / 5]);
        let mut names: Vec<String> = (0..n).map(|k| format!("p{k}")).collect();
        match i / h / b % 5 {
            0 => {}
            1 => names.push("p0".to_string()),
            2 => names.push(format!("p{}", n / 2)),
            3 => names.insert(n / 2, format!("p{}", n.saturating_sub(1))),
            _ => names.push("f".to_string()),
        }
        let end = if body.starts_with(" {") { " 1\n" } else { "z\n" };
        format!("{}{}({}){body}{end}", head.0, head.1, names.join(", "))
    })
}

/// Few kinds of texts so large that small counters overflow.
fn huge() -> Vec<String> {
    let mut all = vec![];
    for n in [32_768, 65_535, 65_536, 65_537, 70_000] {
        for (head, unit, tail) in [
            ("", "a\n", "b + @\nc.d\n"),
            ("", "var a = #\n", "var b = a\nb = this\n"),
            ("", "f(1)\n", "while (a) break\n"),
            ("fun f()\n", "  a\n", "  return b\nfun g(h) { return h\n} g\n"),
            ("while (a)\n", "  b\n", "  break\nbreak\n"),
            ("class A < B\n", "  m()\n    a\n", "  init()\n    return 1\n"),
            ("x = [", "1, ", "a]\ny = {b: c, b: d}\n"),
            ("x = {", "k#: 1, ", "z: a}\ny = {b: c, b: d}\n"),
            ("f(", "a, ", "b)\nf(a) b = c\n"),
            ("a", " + b", "\nc = d e f\n"),
            ("", "@ ", "\na\n"),
            ("", "if (a)\n  b\n", "c\n"),
            ("", "{ var a = b\n} ", "c\n"),
            ("", "fun f(a) { return a\n} ", "f\n"),
        ] {
            // One more or one less token matters where a counter overflows.
            all.push(format!("{head}{}{tail}", (0..n).map(|i| unit.replace('#', &i.to_string())).collect::<String>()));
        }
    }
    all
}

/// Long lexemes of every kind where they are not expected.
fn long_unexpected() -> Vec<String> {
    let mut all = vec![];
    for n in (1..140).chain([199, 200, 201, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 4096, 65_535, 65_536]) {
        let lexemes = [
            "x".repeat(n),
            "9".repeat(n),
            format!("1.{}", "5".repeat(n)),
            format!("\"{}\"", "s".repeat(n)),
            format!("\"{}\"", "é\n".repeat(n)),
            format!("é{}", "\u{301}z".repeat(n)),
        ];
        for l in lexemes {
            for t in ["var §", "a.§", ") §", "class A < § b", "fun f(a §", "[a, b: §", "(f §", "@§", "var a = §:", "if § a", "{ a\n}§"] {
                all.push(format!("{}\nz\n", t.replace('§', &l)));
            }
        }
    }
    all
}

/// A key that comes again after n others, alone or as one of several.
fn far_keys(most: usize) -> Vec<String> {
    let mut all = vec![];
    let sizes = (0..140).chain([
        150, 199, 200, 250, 254, 255, 256, 257, 299, 300, 400, 499, 500, 511, 512, 513, 600, 700, 767, 768, 900, 999, 1000,
        1001, 1023, 1024, 1025, 1500, 1792, 2000, 2047, 2048, 4095, 4096, 5000, 8192, 10_000, 16_384, 32_768, 65_535, 65_536,
    ]);
    for n in sizes.filter(|n| *n <= most) {
        let between: String = (0..n).map(|i| format!("k{i}: {i}, ")).collect();
        for (p, q) in [("a", "a"), ("\"a\"", "a"), ("a", "\"a\""), ("\"a b\"", "\"a b\""), ("a", "b"), ("\"\"", "\"\"")] {
            all.push(format!("x = {{{p}: 1, {between}{q}: 2}}\ny\n"));
            all.push(format!("x = {{b: 0, {between}{p}: 1, {q}: {{{p}: 1}}}}\ny\n"));
            all.push(format!("{p}: 1\n{}{q}: 2\ny\n", between.replace(", ", "\n")));
            all.push(format!("x = {{{p}: {{{between}{q}: 1}}, c: {{{q}: 1}}}}\ny\n"));
        }
    }
    all
}

const LONG: usize = 300;
/// Numbers, names, strings and comments of every length.
/// Constructs repeated and nested to sizes around every limit.
fn scaled(flat: usize, deep: usize) -> Space {
    list("repeated and nested constructs", crate::scaled::texts(flat, deep))
}

fn long_lexeme(i: usize) -> String {
    let n = i % LONG + 1;
    let n = if n > 260 { (n - 259) * 1700 } else { n };
    match i / LONG {
        0 => format!("x = {}\ny\n", "9".repeat(n)),
        1 => format!("x = {}.5\ny\n", "1".repeat(n)),
        2 => format!("x = 0.{}\ny\n", "7".repeat(n)),
        3 => format!("x = {}1\ny\n", "0".repeat(n)),
        4 => format!("x = {}\ny\n", "z".repeat(n)),
        5 => format!("x = {}\ny\n", "é".repeat(n)),
        6 => format!("x.{} = 1\ny\n", "_".repeat(n)),
        7 => format!("x = \"{}\"\ny\n", "k".repeat(n)),
        8 => format!("x = {{{}: 1}}\ny\n", "k".repeat(n)),
        9 => format!("x // {}\ny\n", "k".repeat(n)),
        10 => format!("x = {}y\n", "(".repeat(n.min(300))),
        _ => format!("x = -{}.25.5\n{}\n", "4".repeat(n), "8".repeat(n)),
    }
}

/// The operators, with every shape of operands.
const OPERATIONS: &[(usize, &str)] = &[
    (1, "#"),
    (1, "%E or %E"),
    (1, "%E and %E"),
    (1, "%E == %E"),
    (1, "%E <= %E"),
    (1, "%E + %E"),
    (1, "%E / %E"),
    (1, "-%E"),
    (1, "!%E"),
    (1, "(%E)"),
    (1, "# = %E"),
    (1, "%E.#"),
];
const CALLS: &[(usize, &str)] = &[
    (1, "#"),
    (1, "%E()"),
    (1, "%E(%E)"),
    (1, "%E(%E, %E)"),
    (1, "# %E"),
    (1, "# (%E)"),
    (1, "# %E, %E"),
    (1, "%E %E"),
    (1, "%E.#"),
    (1, "%E[%E]"),
    (1, "fun () { %E\n} "),
    (1, "1"),
];
const LITERALS: &[(usize, &str)] = &[
    (1, "#"),
    (1, "[]"),
    (1, "{}"),
    (1, "[%E]"),
    (1, "[%E,]"),
    (1, "[%E, %E]"),
    (1, "[%E,\n%E, %E]"),
    (1, "{#: %E}"),
    (1, "{a: %E, a: %E}"),
    (1, "{\"a\": %E, b: %E,}"),
    (1, "{c: %E\n\"c\": %E}"),
    (1, "{b: %E\na: %E}"),
    (1, "#(%E)"),
];
const LITERAL_CONTEXTS: &[&str] = &[
    "x = %E\n",
    "a: %E, b: %E\n",
    "var m =\n⇥a: %E\nb: %E\n⇤y\n",
    "var m =\n⇥a: %E\n\"a\": %E\n⇤y\n",
];

const ALL_FORS: &[&str] = &["%I;%C;%C"];

/// Everything nested in everything, each part told apart by its names.
fn programs(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["#", "var # = #", "print #", "return #"],
            exprs: &["#"],
            names: &["#"],
            params: &["", "#, #"],
            supers: &["", " < #"],
            members: &["#(#)", "init()", "class #(#)"],
            fors: ALL_FORS,
            braces: true,
            loops: true,
            ifs: true,
        },
        weight,
    )
}
/// Only blocks, conditionals and loops, deeper.
fn control(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["#"],
            exprs: &["#"],
            names: &["#"],
            params: &[],
            supers: &[""],
            members: &[],
            fors: &["#; #; #"],
            braces: true,
            loops: true,
            ifs: true,
        },
        weight,
    )
}
/// Only indented blocks, deeper still.
fn indented(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["#"],
            exprs: &["#"],
            names: &["#"],
            params: &[""],
            supers: &[""],
            members: &["#()"],
            fors: &["#; #; #"],
            braces: false,
            loops: true,
            ifs: true,
        },
        weight,
    )
}
fn for_loops(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["#", "var #", "break"],
            exprs: &["#"],
            names: &["#"],
            params: &[],
            supers: &[""],
            members: &[],
            fors: ALL_FORS,
            braces: true,
            loops: true,
            ifs: false,
        },
        weight,
    )
}
fn jumps(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["a", "break", "continue"],
            exprs: &["b"],
            names: &["f"],
            params: &[""],
            supers: &[""],
            members: &["m()"],
            fors: &[";;"],
            braces: true,
            loops: true,
            ifs: true,
        },
        weight,
    )
}
/// Few names, declared and used everywhere.
fn bindings(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["a = b", "var a = b", "var b = a"],
            exprs: &["a"],
            names: &["a", "b"],
            params: &["", "a", "b, a"],
            supers: &["", " < a"],
            members: &["m(a)"],
            fors: &[";;"],
            braces: true,
            loops: false,
            ifs: false,
        },
        weight,
    )
}
/// The same with loops, by indentation only.
fn loop_bindings(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["a = b", "var a = c", "b"],
            exprs: &["a", "c = b"],
            names: &["a", "b"],
            params: &["a"],
            supers: &[""],
            members: &[],
            fors: &["var a = b; c; a = b", "; b;", "a; c = a;", "var b; a; a = c", "var c;; b"],
            braces: false,
            loops: true,
            ifs: true,
        },
        weight,
    )
}
fn class_rules(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["return", "return nil", "return 1", "this", "super.m"],
            exprs: &["a"],
            names: &["A", "B"],
            params: &["", "a, a"],
            supers: &["", " < A"],
            members: &["m()", "init()", "class s()", "class init()"],
            fors: &[";;"],
            braces: true,
            loops: false,
            ifs: false,
        },
        weight,
    )
}
/// Statements that violate each static rule, and ones that do not, nested.
fn violations(weight: usize) -> Grammar {
    grammar::statements(
        &Parts {
            leaves: &["a", "var a = a", "return 1", "this", "super.m", "{ var b\nvar b\n} a"],
            exprs: &["a"],
            names: &["a"],
            params: &["", "a, a"],
            supers: &["", " < a"],
            members: &["init()", "class s()"],
            fors: &[";;"],
            braces: false,
            loops: false,
            ifs: true,
        },
        weight,
    )
}

/// Every form of expression in every operand position.
const FORMS: &[(usize, &str)] = &[
    (1, "#"),
    (1, "1"),
    (1, "\"s\""),
    (1, "this"),
    (1, "super.#"),
    (1, "# = %E"),
    (1, "%E = %E"),
    (1, "%E or %E"),
    (1, "%E and %E"),
    (1, "%E == %E"),
    (1, "%E < %E"),
    (1, "%E - %E"),
    (1, "%E * %E"),
    (1, "!%E"),
    (1, "-%E"),
    (1, "(%E)"),
    (1, "%E.#"),
    (1, "%E[%E]"),
    (1, "%E()"),
    (1, "%E(%E)"),
    (1, "%E(%E, %E)"),
    (1, "# %E"),
    (1, "%E %E, %E"),
    (1, "[%E]"),
    (1, "[%E, %E]"),
    (1, "{#: %E}"),
    (1, "{#: %E, \"#\": %E}"),
    (1, "fun (#) { return %E\n} "),
];
const CONTEXTS: &[&str] = &[
    "%E\n",
    "var # = %E\n",
    "print %E\n#\n",
    "if (%E)\n⇥%E\n⇤#\n",
    "fun #(#)\n⇥return %E\n⇤#\n",
];
fn expressions(contexts: &[&str], size: usize) -> Grammar {
    grammar::expressions(FORMS, contexts, size)
}
const BINDING: &[(usize, &str)] = &[
    (1, "a"),
    (1, "b"),
    (1, "a = %E"),
    (1, "b = %E"),
    (1, "%E + %E"),
    (1, "%E(%E)"),
    (1, "%E[%E] = %E"),
    (1, "{x: %E, y: %E}"),
    (1, "fun (a) { return %E\n} "),
    (1, "fun () { var b = %E\nreturn %E\n} "),
];

const BINDING_CONTEXTS: &[&str] = &[
    "%E\n",
    "var a = %E\nb\n",
    "fun f(b)\n⇥a = %E\n⇤a\n",
    "{ var a = 1\nvar b = %E\n} a + b\n",
];

/// For development: the sizes of the grammars' languages, and samples.
pub fn grammars(which: &str) {
    let all: [(&str, fn(usize) -> Grammar); 9] = [
        ("programs", programs),
        ("control", control),
        ("indented", indented),
        ("for", for_loops),
        ("jumps", jumps),
        ("bindings", bindings),
        ("loop_bindings", loop_bindings),
        ("class_rules", class_rules),
        ("violations", violations),
    ];
    for (n, g) in all {
        if !which.is_empty() && which != n {
            continue;
        }
        for w in 1..=9 {
            let g = g(w);
            let total = g.total();
            println!("{n} {w}: {total}");
            if total > 100_000_000 {
                break;
            }
            if n == which && w == 4 {
                for i in 0..30 {
                    println!("--\n{}", g.unrank(total / 30 * i));
                }
            }
        }
    }
    for w in 1..=7 {
        println!("expressions {w}: {}", expressions(CONTEXTS, w).total());
        println!(
            "binding {w}: {}",
            grammar::expressions(BINDING, BINDING_CONTEXTS, w).total()
        );
        println!(
            "operations {}, calls {}, literals {}",
            grammar::expressions(OPERATIONS, &["%E\n"], w).total(),
            grammar::expressions(CALLS, &["%E\n"], w).total(),
            grammar::expressions(LITERALS, LITERAL_CONTEXTS, w).total()
        );
    }
}

/// The texts the spaces are made of, by name.
pub fn menus() -> Vec<(&'static str, Vec<String>)> {
    vec![
        ("corpus", v(CORPUS)),
        ("menu", v(MENU)),
        ("typed", v(TYPED)),
        ("probe", probes()),
    ]
}

/// Texts that together have every kind of token, node and error.
fn probes() -> Vec<String> {
    let mut out = v(CORPUS);
    out.extend(v(TYPED));
    out.extend(v(&[
        "",
        "abc = 1\n",
        "abc = 2\n",
        "abd = 1\n",
        "abc + 1\n",
        "ABC = 1\n",
        "if (a)\n  b\n",
        "if (a)\n    b\n",
        "if (a)\n    b\n  c\n",
        "while (a) break\n",
        "while (a)\n  break\n",
        "break\n",
        "continue\n",
        "while (a) {",
        "while (a) { break",
        "for (;;) fun () {",
        "return\n",
        "return 1\n",
        "fun f() { return 1\n} f\n",
        "fun f(a) { var a }",
        "fun f(a) { this\n} f\n",
        "fun f() { return",
        "class A { init() { return 1\n} } A\n",
        "class A { init() { return\n} } A\n",
        "class A < A {} A\n",
        "class A < B {} A\n",
        "class A { m() { super.m\n} } A\n",
        "class A < B { m() { super.m\n} } A\n",
        "class A < B { m(a, a) {} } A\n",
        "class A {",
        "class A < B { m() {",
        "class A { class m() { return 1\n} m() {} } A\n",
        "if (a)\n  class A < A\n    m()\n      return 1\n",
        "while (a)\n  fun f()\n    return )\n",
        "super.m()\n",
        "this\n",
        "a = {b: 1, b: 2}\n",
        "a = {b: 1, c: 2}\n",
        "a = {c: 1, b: 2}\n",
        "f = fun (x, x) {}\n",
        "{ var a\n} a\n",
        "{ var a = a\n} a\n",
        "{ { var a\nvar a\n} } a\n",
        "{\n  var a = a\n",
        "v0\nv1\nv2\nv3\nv4\nv5\n",
        "v5\nv4\nv3\nv2\nv1\nv0\n",
        "é = \"é\"\n",
        "a\u{301}\u{302} = 1.5\n",
        "1.5 + 1.25\n",
        "\"a\nb\" c\n",
        "a \\\n  b\n",
        "\\",
        "@ $ #\n",
        "1 = 2\n",
        "a +\n",
        "(((((\n",
        ")))))\n",
        "orchid or or\n",
        "x\r\ny\r\n",
        "  a\n b\n",
        "\n\n\n",
        "// c",
    ]));
    out
}

/// Uses at every distance up to 300, and slots up to the limit.
fn nested_bindings() -> Vec<String> {
    let mut out = vec![];
    for n in [0, 1, 2, 3, 100, 126, 127, 128, 129, 253, 254, 255, 256, 257, 290] {
        out.push(format!(
            "fun f(a) {{ {}print a\n{}}} f\n",
            "{ ".repeat(n),
            "} ".repeat(n)
        ));
        let d: String = (0..n).map(|i| format!("var v{i} = {i}\n")).collect();
        out.push(format!("{d}v0 = v{}\n", n.max(1) - 1));
    }
    out
}

// ---- the command line --------------------------------------------------------

fn truncations(step: usize) -> Vec<String> {
    let mut out = vec![];
    for p in CORPUS {
        let ends: Vec<usize> = p.char_indices().map(|x| x.0).collect();
        for e in ends.into_iter().step_by(step) {
            out.push(p[..e].to_owned());
        }
    }
    out
}

fn a_session(input: &str, splits: &[usize]) -> String {
    let at: Vec<String> = splits.iter().map(|n| n.to_string()).collect();
    format!("{}{}\u{1}{input}", crate::cli::SESSION, at.join(","))
}

/// Lines as a user types them.
const TYPED: &[&str] = &[
    "1 + 2\n",
    "var a = 1\n",
    "var b = a\n",
    "a = b\n",
    "b\n",
    "fun f(x) { var y = {a: x} } f\n",
    "fun f(x) { return x }\n",
    "f(a)\n",
    "class A { init(a) { var x = {a: this} } } A(1)\n",
    "class B < A { m(a, a) {} } B(1)\n",
    "class C < b { m() { var x = {a: super.m} } } C\n",
    "super.m\n",
    "this\n",
    "return 1 @ 2\n",
    "\n",
    "   // nothing\n",
    "print \"é\"\n",
    "print (1\n",
    ") )\r\n",
    "{ var c = {d: c} } 1\n",
    "{ a: 1, a: 2 }\n",
    "a, b: 1\r\n",
    "if (a) b else c\n",
    "\"open\n",
    "@ # @ # @\n",
    "print ) var ) if ( while )\n",
];

/// All sequences of lines, each answered before the next one is typed, and
/// then the last lines.
fn session_histories(n: usize, last: &[&str]) -> Vec<String> {
    let mut out = vec![];
    let mut level = vec![(String::new(), vec![])];
    out.push(a_session("", &[]));
    for k in 1..=n {
        let mut next = vec![];
        for (p, at) in &level {
            for l in TYPED {
                let t = format!("{p}{l}");
                let mut at = at.clone();
                at.push(t.len());
                out.push(a_session(&format!("{t}{}", last.concat()), &at));
                if k == 1 {
                    // The last line may lack its line end.
                    out.push(a_session(t.trim_end(), &[]));
                }
                next.push((t, at));
            }
        }
        level = next;
    }
    out
}

/// Sessions of many lines and of long ones.
fn much_typed(most: usize) -> Vec<String> {
    let mut out = vec![];
    for n in [1001, 1025, 2049, 4097, 5000, 10_001, 65_537] {
        if n <= most {
            for l in ["1\n", "@\n", "\n", "var a = a\n"] {
                out.push(a_session(&l.repeat(n), &[]));
            }
        }
    }
    for n in [
        100, 126, 127, 128, 254, 255, 256, 511, 512, 1000, 1022, 1023, 1024, 2047, 2048, 4093, 4094, 4095, 4096, 5000, 8190,
        8191, 8192, 10_000, 16_384, 32_768, 65_534, 65_535, 65_536, 100_000, 131_072, 1 << 20,
    ] {
        for (head, unit, tail) in [("\"", "x", "\"\n"), ("", "y", "\n"), ("a", " ", "b\n"), ("// ", "é", "\n"), ("", "é", " @ @\n"), ("\"", "z", "\n"), ("[", "1, ", "]\n")] {
            let line = format!("{head}{}{tail}", unit.repeat(n / unit.len()));
            out.push(a_session(&format!("{line}a b\n"), &[]));
            out.push(a_session(line.trim_end(), &[]));
        }
    }
    out
}

/// Every list of arguments up to a length, and settings of the environment.
fn command_lines(most: usize) -> Vec<String> {
    const ARGUMENTS: &[&str] =
        &["good", "bad", "missing", "--version", "--help", "-h", "--", "-x", "--foo", "--versio", "--version=1", "--good", "version", "-v", "-V"];
    const SETTINGS: &[&str] = &[
        "LANG=C", "LANG=de_DE.UTF-8", "LC_ALL=C", "LC_ALL=tr_TR.UTF-8", "LC_NUMERIC=de_DE", "TERM=dumb", "TERM=xterm-256color",
        "TERM=", "NO_COLOR=1", "CLICOLOR_FORCE=1", "FORCE_COLOR=1", "COLUMNS=1", "COLUMNS=20", "LINES=1", "HOME=/nonexistent", "HOME=", "TZ=X",
        "RUST_LOG=trace", "DEBUG=1", "VERBOSE=1", "QUIET=1", "CI=1", "WHITESPACE=1", "WHITESPACE_DEBUG=1", "COFFEE=1", "PROMPT=x",
        "PS1=$", "EDITOR=vi", "PAGER=less", "PWD=/", "PATH=", "USER=root", "SHELL=/bin/false", "POSIXLY_CORRECT=1", "POSIX_ME_HARDER=1",
        "TMPDIR=/nonexistent", "INPUTRC=/nonexistent", "HISTFILE=/nonexistent", "EMACS=t", "INSIDE_EMACS=1", "RUST_MIN_STACK=9000000",
    ];
    let mut level = vec![String::new()];
    let mut out = level.clone();
    for _ in 0..most {
        level = level.iter().flat_map(|l| ARGUMENTS.iter().map(move |a| format!("{l}\u{1}{a}"))).collect();
        out.extend(level.iter().cloned());
    }
    for s in SETTINGS {
        for a in ["", "good", "bad", "missing", "--version", "-x"] {
            out.push(format!("\u{5}{s}\u{1}{a}"));
        }
    }
    out.iter().map(|t| format!("{}{t}", crate::cli::ARGUMENTS)).collect()
}

/// Files of many lines, of one long line, and with characters of several
/// bytes wherever a buffer may end.
fn big_files() -> Vec<String> {
    let mut out = vec![];
    for n in [1000, 1023, 4096, 9000, 20_000] {
        for unit in ["a\n", "@\n", "var a = a\nbreak\n", "if (a)\n  b\n", "// é\n", "this\n"] {
            out.push(unit.repeat(n));
            out.push(format!("{}this", unit.repeat(n)));
        }
    }
    for n in [512, 1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072, 1 << 20] {
        for k in n - 3..=n + 1 {
            out.push(format!("\"{}日é\"\n", "x".repeat(k - 1)));
            out.push(format!("//{}é\na\n", " ".repeat(k - 2)));
            out.push(format!("{}é @", " ".repeat(k)));
            out.push(format!("\"{}\"\n)", "\n".repeat(k)));
        }
    }
    out
}

/// Files and sessions with a terminal for every stream.
fn at_terminals(n: usize) -> Vec<String> {
    let mut out = vec![];
    for t in CORPUS {
        out.push(format!("{}tf\u{1}{t}", crate::cli::SESSION));
    }
    for l in ERRONEOUS {
        out.push(format!("{}tf\u{1}{l}\n", crate::cli::SESSION));
    }
    for s in session_histories(n, &["a + b\n", "(é"]) {
        let (_, input) = s.split_once('\u{1}').expect("a session");
        out.push(format!("{}t\u{1}{input}", crate::cli::SESSION));
    }
    out
}

const SESSIONS: &[&str] = &[
    "var é = \"ü\"\né\nprint é + 1\n",
    "var a = 1\n@ # a\nvar b = b\na = b\nfun f() { var y = {a: a} } f\nf()\n",
    "class A { init() { var x = {a: 1} } } A\nvar x = this\n\nreturn\nclass A {} A\r\nA()\r\n",
    "print\n(\n{\n\"\n  a\n    b\n a\n",
];

fn session_splits(two: bool) -> Vec<String> {
    let mut out = vec![];
    for s in SESSIONS {
        for i in 0..=s.len() {
            out.push(a_session(s, &[i]));
            if two {
                for j in i..=s.len() {
                    out.push(a_session(s, &[i, j]));
                }
            }
        }
        // Byte by byte.
        out.push(a_session(s, &(0..=s.len()).collect::<Vec<_>>()));
    }
    let many: String = (0..300)
        .map(|i| format!("var v{i} = v{}\n", i / 2))
        .collect();
    out.push(a_session(&many, &[]));
    out.push(a_session(&"@\n".repeat(3000), &[]));
    out.push(a_session(&format!("{}\n1\n", "1 + ".repeat(500)), &[]));
    out.push(a_session(
        &format!("\"{}\"\n1\n", "é".repeat(100_000)),
        &[],
    ));
    out
}

fn session_words() -> Vec<String> {
    let mut out = vec![];
    for w in ORDINARY {
        for l in [
            format!("{w}\n"), format!(":{w}\n"), format!(".{w}\n"), format!("\\{w}\n"),
            format!("{w}()\n"), format!("  {w}\n"), format!("{w}"), format!("!{w}\n"), format!("/{w}\n"),
            format!("{w} a\n"), format!("?{w}\n"), format!("#{w}\n"), format!("// {w}\n"),
        ] {
            out.push(a_session(&format!("var a = 1\n{l}a\n"), &[]));
        }
    }
    for b in 0..128u8 {
        out.push(a_session(&format!("a\n{}\nb\n", char::from(b)), &[]));
        out.push(a_session(&format!("a\n{}c{0}\nb\n", char::from(b)), &[]));
    }
    out
}

fn session_ends() -> Vec<String> {
    let mut out = vec![];
    for s in SESSIONS.iter().chain(CORPUS.iter().take(4)) {
        for (i, _) in s.char_indices() {
            out.push(a_session(&s[..i], &[]));
        }
    }
    out
}

/// Bytes that are no UTF-8 wherever they are, in the notation of `fault`.
fn bad_bytes() -> Vec<String> {
    [
        &[0x80][..],
        &[0xbf],
        &[0xff],
        &[0xfe],
        &[0xc3],
        &[0xc0, 0x80],
        &[0xc1, 0xbf],
        &[0xe2, 0x82],
        &[0xe0, 0x80, 0x80],
        &[0xed, 0xa0, 0x80],
        &[0xf0, 0x9f],
        &[0xf0, 0x9f, 0x98],
        &[0xf0, 0x80, 0x80, 0x80],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xf8, 0x88, 0x80, 0x80, 0x80],
    ]
    .iter()
    .map(|b| b.iter().map(|b| crate::fault::byte(*b)).collect())
    .collect()
}

/// All sequences of bytes, one or two of every class that UTF-8 distinguishes.
fn byte_texts(n: usize) -> Vec<String> {
    let some: Vec<char> = "\0\n\r a1\"\\/\u{7f}"
        .chars()
        .chain(
            [
                0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1,
                0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff,
            ]
            .map(crate::fault::byte),
        )
        .collect();
    let mut out = vec![];
    let mut level = vec![String::new()];
    for _ in 0..=n {
        let mut next = vec![];
        for t in &level {
            out.push(t.clone());
            out.push(format!("\"{t}\"\n"));
            out.push(format!("a // {t}\n"));
            next.extend(some.iter().map(|c| format!("{t}{c}")));
        }
        level = next;
    }
    // Every byte.
    for b in 0x80..=0xff {
        out.push(format!("a\n\"{}\"\n", crate::fault::byte(b)));
        for c in [0x80, 0xbf] {
            let (b, c) = (crate::fault::byte(b), crate::fault::byte(c));
            out.push(format!("\"{b}{c}\"\n"));
            out.push(format!("\"{b}{c}{c}\"\n"));
            out.push(format!("\"{b}{c}{c}{c}\"\n"));
        }
    }
    out
}

fn bad_anywhere(step: usize) -> Vec<String> {
    let bad = bad_bytes();
    let mut out = vec![];
    for p in SESSIONS.iter().chain(CORPUS.iter().skip(6).take(3)) {
        for (k, b) in bad.iter().enumerate() {
            for (i, _) in p.char_indices().skip(k % step).step_by(step) {
                out.push(format!("{}{b}{}", &p[..i], &p[i..]));
            }
            out.push(format!("{p}{b}"));
        }
        // Every character cut short.
        for (i, c) in p.char_indices().filter(|x| x.1.len_utf8() > 1) {
            let mut b = [0; 4];
            let b = c.encode_utf8(&mut b).as_bytes();
            for n in 1..b.len() {
                let cut: String = b[..n].iter().map(|b| crate::fault::byte(*b)).collect();
                out.push(format!("{}{cut}{}", &p[..i], &p[i + c.len_utf8()..]));
                out.push(format!("{}{cut}", &p[..i]));
            }
        }
    }
    out
}

/// All sessions of lines some of which are no UTF-8.
fn bad_sessions(n: usize) -> Vec<String> {
    let bad = bad_bytes();
    let mut menu: Vec<String> =
        v(&["1 + 2\n", "var a = 1\n", "a = a\n", "return @ a\n", "\n", "print \"é\"\r\n", "a"]);
    menu.push(format!("{}\n", bad[0]));
    menu.push(format!("a{}\n", bad[7]));
    menu.push(format!("// {} b\r\n", bad[2]));
    menu.push(format!("\"{}", bad[4]));
    let mut out = vec![];
    let mut level = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for t in &level {
            for l in &menu {
                let t = format!("{t}{l}");
                out.push(a_session(&t, &[]));
                if l.ends_with('\n') {
                    next.push(t);
                }
            }
        }
        level = next;
    }
    for s in SESSIONS {
        for b in &bad {
            for (i, _) in s.char_indices() {
                out.push(a_session(&format!("{}{b}{}", &s[..i], &s[i..]), &[]));
            }
        }
    }
    out
}

fn bad_session_pieces(two: bool) -> Vec<String> {
    let mut out = vec![];
    let bad = bad_bytes();
    let inputs = [
        "\"é\u{1f44d}€\"\nvar ü = 1\n// é\r\nü\n".to_string(),
        format!("var a = 1\na\n{}\nb\n", bad[9]),
        format!("1\n\"é{}", bad[11]),
    ];
    for s in &inputs {
        let n = crate::fault::bytes(s).len();
        for i in 0..=n {
            out.push(a_session(s, &[i]));
            for j in i + 1..=n {
                if two || j == i + 1 {
                    out.push(a_session(s, &[i, j]));
                }
            }
        }
        out.push(a_session(s, &(0..=n).collect::<Vec<_>>()));
    }
    out
}

fn fault(what: &str, text: &str) -> String {
    format!("{}{what}\u{1}{text}", crate::fault::FAULT)
}

fn file_pieces(two: bool) -> Vec<String> {
    let mut out = vec![];
    let bad = bad_bytes();
    let mut texts = v(SESSIONS);
    texts.extend(v(&["\"é\u{1f44d}€\"\nvar ü = 1\n", "a", "a\r\nb\r\n", "if (a)\n  b\nc\n"]));
    texts.push(format!("a\n{}\n", bad[9]));
    for s in &texts {
        let n = crate::fault::bytes(s).len();
        for i in 1..=n {
            out.push(fault(&format!("pieces {i}"), s));
            for j in i + 1..=n {
                if j == i + 1 || (two && n < 40) {
                    out.push(fault(&format!("pieces {i},{j}"), s));
                }
            }
        }
        let all: Vec<String> = (1..=n).map(|n| n.to_string()).collect();
        out.push(fault(&format!("pieces {}", all.join(",")), s));
    }
    out
}

/// Files around the sizes of buffers, whole and in pieces, with a character
/// of several bytes, or a piece of one, at the boundary.
fn file_size(i: usize) -> String {
    let size = [512, 4096, 8192, 16384, 32768, 65536][i / 40];
    let (k, form) = (i % 40 / 4, i % 4);
    let end = ["a\n", "é\"\n", "\u{1f44d}\"\n", "\"\nb @\n"];
    let head = if form == 0 { "// " } else { "\"" };
    let line = "x".repeat(size + k - 5 - head.len());
    let line = if form == 0 { format!("{head}{line}\n{}", end[0]) } else { format!("{head}{line}{}", end[form]) };
    match k {
        8 => fault(&format!("pieces {}", size - 1), &line),
        9 => format!("{line}{}", crate::fault::byte(0xff)),
        _ => line,
    }
}

fn odd_paths() -> Vec<String> {
    let mut out = vec![];
    for p in [
        "missing", "missing-below", "directory", "this-directory", "dangling", "loop",
        "below-file", "long", "link", "device",
    ] {
        for t in ["a\n", "@\n", "1 + é\n"] {
            out.push(fault(&format!("path {p}"), t));
        }
    }
    out
}

fn input_failures(step: usize) -> Vec<String> {
    let mut out = vec![fault("input-directory", "")];
    for s in SESSIONS.iter().chain(CORPUS.iter().take(4)) {
        for i in 0..=s.len() {
            out.push(fault(&format!("input-fails {i}"), s));
        }
    }
    let bad = bad_bytes();
    for s in [format!("1\n{}\n2\n", bad[9]), format!("\"é{}", bad[11])] {
        for i in 0..=crate::fault::bytes(&s).len() {
            out.push(fault(&format!("input-fails {i}"), &s));
        }
    }
    // After each history of lines.
    let typed: Vec<&str> = TYPED.iter().copied().step_by(step).collect();
    for a in &typed {
        for b in TYPED {
            let t = format!("{a}{b}c");
            out.push(fault(&format!("input-fails {}", t.len()), &t));
            out.push(fault(&format!("input-fails {}", t.len() - 1), &t));
        }
    }
    out
}

/// Names of files, relative to the working directory, below it and absolute;
/// the text each holds differs.
fn file_names(n: usize) -> Vec<String> {
    let some = ["a", "b", " ", ".", "é", "\"", "'", "\\", "*", "?", "~", "$", "%", "#", "-", "_", "=", "@", ":", "\n", "\t", "0", "&", "A"];
    let mut names: Vec<String> = vec![];
    let mut level = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for t in &level {
            next.extend(some.iter().map(|c| format!("{t}{c}")));
        }
        names.extend(next.iter().cloned());
        level = next;
    }
    for w in [
        "repl", "REPL", "stdin", "/dev/stdin", "help", "version", "test", "run", "main", "whitespace", "con", "nul",
        "null", "none", "true", "stdout", "script", "program", "in", "console", "shell", "eval", "check", "debug",
        "quit", "exit", "script_filename", "Coffee", "coffee", "file", "default",
    ] {
        names.push(w.to_string());
        for e in ["", ".ws", ".txt", ".cf", ".coffee", ".lox", ".js", ".json", ".md", ".html", ".rs", ".bak", "~", ".", " "] {
            names.push(format!("{w}{e}"));
        }
    }
    for n in [63, 64, 65, 100, 127, 128, 129, 200, 254, 255] {
        names.push("n".repeat(n));
        names.push(format!("{}.ws", "n".repeat(n - 3)));
        names.push("é".repeat(n / 2));
    }
    names.retain(|n| n != "." && n != ".." && !n.starts_with('/'));
    names.sort();
    names.dedup();
    let mut out = vec![];
    for (i, name) in names.iter().enumerate() {
        for (j, dir) in ["", "./", "/", "s/", "s/../"].into_iter().enumerate() {
            // What begins with a dash and no directory is an option.
            if !(dir.is_empty() && name.starts_with('-')) {
                let text = ["a = 1\n", "@\n", "f(1)\nreturn\n"][(i + j) % 3];
                out.push(format!("{}{dir}{name}\u{1}{text}", crate::cli::NAMED));
            }
        }
    }
    out
}

/// Plans for the program's system calls (see io.c): interrupted, partial and
/// failing ones, at every place.
fn calls(step: usize) -> Vec<String> {
    let programs = [
        "a + 1\n", "f(é, \"ü\")\nvar x = 1\n", "", "@\n", "return\na\nbreak\nü = = 1\n",
        "if (a)\n  b\nc\n",
    ];
    let mut texts = v(&programs);
    texts.extend(SESSIONS.iter().map(|s| format!("{}{s}", crate::cli::SESSION)));
    texts.push(format!("{}1\n", crate::cli::SESSION));
    texts.push(format!("{}var a = é\na = this\n@\na\n\n1", crate::cli::SESSION));
    texts.push(crate::cli::SESSION.to_string());
    let mut out = vec![];
    let mut plan = |p: String, t: &str| out.push(fault(&format!("calls {p}"), t));
    for t in &texts {
        let session = t.starts_with(crate::cli::SESSION);
        let len = t.len() - usize::from(session);
        for k in [1, 2, 3, 5, 4096] {
            plan(format!("in=*:{k}"), t);
            plan(format!("out=*:{k}"), t);
            plan(format!("err=*:{k}"), t);
            plan(format!("in=*:{k};out=*:{k};err=*:{k}"), t);
            for n in (0..=len / k + 1).step_by(step) {
                plan(format!("in=*:{k},{n}:E4"), t);
                plan(format!("in=*:{k},{n}:E4;out=*:{k},{n}:E4;err=*:{k},{n}:E4"), t);
                if n * k < len || (session && n * k == len) {
                    for e in [5, 11, 22] {
                        plan(format!("in=*:{k},{n}+:E{e}"), t);
                        if session && e != 11 {
                            plan(format!("in=*:{k},{n}:E{e}"), t);
                        }
                    }
                }
            }
        }
        for n in 0..12 {
            plan(format!("in={n}:E4;out={n}:E4;err={n}:E4"), t);
            for (k, e) in [(1, "E5"), (3, "E28"), (7, "E32"), (4096, "E5"), (4096, "E11"), (11, "0")] {
                plan(format!("out=*:{k},{n}+:{e}"), t);
                if e != "0" {
                    plan(format!("out=*:{k},{n}:{e}"), t);
                }
            }
        }
        for n in (12..120).step_by(step) {
            for k in [1, 5, 20] {
                plan(format!("out=*:{k},{n}:E4"), t);
                plan(format!("err=*:{k},{n}:E4"), t);
                plan(format!("out=*:{k},{n}+:E5"), t);
                plan(format!("out=*:{k},{n}:E28"), t);
            }
        }
    }
    out
}

fn output_failures(step: usize) -> Vec<String> {
    let mut out = vec![];
    let programs = ["a + 1\n", "f(é, \"ü\")\nvar x = 1\n", "", "@\n", "return\na\nbreak\nü = = 1\n"];
    let mut texts = v(&programs);
    texts.extend(SESSIONS.iter().map(|s| format!("{}{s}", crate::cli::SESSION)));
    texts.push(format!("{}1\n", crate::cli::SESSION));
    texts.push(format!("{}", crate::cli::SESSION));
    for t in texts {
        let short = t.len() < 24;
        for k in ["closed", "full"] {
            out.push(fault(k, &t));
        }
        let n = if t.starts_with(crate::cli::SESSION) || short { 2500 } else { 1200 };
        for i in (0..n).step_by(step) {
            out.push(fault(&format!("output {i}"), &t));
        }
        for i in [1 << 20, n] {
            out.push(fault(&format!("output {i}"), &t));
        }
        if !t.starts_with(crate::cli::SESSION) {
            for i in (0..150).step_by(if step > 1 { 2 } else { 1 }) {
                out.push(fault(&format!("errors {i}"), &t));
            }
        }
    }
    out
}

const SIZES: usize = 26;

/// Texts of a size, one construct each.
fn size(i: usize) -> String {
    let n = 70_000;
    let k = i / 2;
    let r = |s: &str| s.repeat(if i % 2 == 0 { n } else { 300 });
    match k {
        0 => r("a\n"),
        1 => r("\n"),
        2 => r(" "),
        3 => r("+ "),
        4 => r("a"),
        5 => format!("\"{}", r("\n")),
        6 => format!("\"{}\"\n", r("é")),
        7 => r("@"),
        8 => r("\\"),
        9 => r("// x\n"),
        10 => format!("a = [{}1]\n", r("1, ")),
        11 => format!("{}b\n", r("a\n  ")),
        _ => (0..if i % 2 == 0 { 3000 } else { 300 })
            .map(|k| format!("var v{k} = v{}\n", k / 2))
            .collect(),
    }
}

const LASTS: &[&str] = &[
    "a", "1", "1.5", "\"s\"", "and", "break", "class", "continue", "else", "false", "fun",
    "for", "if", "nil", "or", "print", "return", "super", "this", "true", "var", "while", "(",
    ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "/", "*", "!", "!=", "=", "==", ">",
    ">=", "<", "<=", "f(", "\\", "a \\", "+ \\", "@", "1.", "", "\"s\nt\"",
];

/// Every token as the last one of a line, crossed with what follows it, what
/// the next line looks like, and the block around.
fn last_tokens() -> Vec<String> {
    let lasts = LASTS;
    let afters = ["", " ", "   ", " // c", "// c", "\r", "\t"];
    let breaks = ["\n", "\r\n", "\n\n", "\n   \n", "\n// d\n", "\n\\\n"];
    let nexts = [
        "",
        "b\n",
        "  b\n",
        "    b\n",
        "  b\n  c\n",
        "  b\nc\n",
        "  )\n",
        "  // e\n  b\nc\n",
        " +\n  b\n",
    ];
    let befores = ["", "if (x)\n  "];
    let mut out = vec![];
    for l in lasts {
        for a in afters {
            for br in breaks {
                for n in nexts {
                    for be in befores {
                        out.push(format!("{be}x {l}{a}{br}{n}"));
                        out.push(format!("{be}{l}{a}{br}{n}d\n"));
                    }
                }
            }
        }
    }
    out
}

/// A text with `n` names in one scope, introduced in one of eight ways, and a
/// use of the last one; `more` adds a redeclaration or one name more.
fn fill(way: usize, n: usize, more: usize) -> String {
    let mut s = String::new();
    let names = |p: &str| -> Vec<String> { (0..n).map(|k| format!("{p}{k}")).collect() };
    let last = n.saturating_sub(1);
    match way {
        // Globals.
        0 => {
            for k in 0..n {
                s.push_str(&format!("var g{k}\n"));
            }
        }
        // Forward references to globals.
        1 => {
            for k in 0..n {
                s.push_str(&format!("g{k} = 1\n"));
            }
        }
        // From within a function.
        2 => {
            s.push_str("fun f()\n  nil\n");
            for k in 1..n {
                s.push_str(&format!("  g{k}\n"));
            }
        }
        // Locals.
        3 => {
            s.push_str("if (x)\n  nil\n");
            for k in 0..n {
                s.push_str(&format!("  var g{k}\n"));
            }
            s.push_str(&format!("  g{last} = g0\n"));
        }
        // Local functions and classes.
        4 => {
            s.push_str("fun f()\n  nil\n");
            for k in 0..n {
                if k % 2 == 0 {
                    s.push_str(&format!("  fun g{k}()\n    nil\n"));
                } else {
                    s.push_str(&format!("  class g{k}\n    m()\n      nil\n"));
                }
            }
            s.push_str(&format!("  g{last} = g0\n"));
        }
        // Parameters (at most 255) and locals of a function.
        5 => {
            let m = n.min(200);
            s.push_str(&format!("fun f({})\n  nil\n", names("g")[..m].join(", ")));
            for k in m..n {
                s.push_str(&format!("  var g{k} = g{}\n", k / 2));
            }
            s.push_str(&format!("  g{last} = g0\n"));
        }
        // Global functions and classes, half of them mentioned before.
        6 => {
            for k in 0..n {
                if k % 2 == 0 {
                    s.push_str(&format!("g{}\n", k + 1));
                }
                if k % 3 == 0 {
                    s.push_str(&format!("class g{k} {{}} "));
                } else {
                    s.push_str(&format!("fun g{k}() {{ g{k}\n}} "));
                }
            }
        }
        // Locals of a method, with this and super around it.
        _ => {
            s.push_str("class A < B\n  m(p)\n    nil\n");
            for k in 1..n {
                s.push_str(&format!("    var g{k} = this\n"));
            }
            s.push_str(&format!("    super.x(g{last})\n"));
        }
    }
    match more {
        1 => s.push_str("var g0 = g1\n"),
        2 => s.push_str("g0 = g1\n"),
        3 => s.push_str("var last\ng0\n"),
        4 => s.push_str("fun last(a) { last\n} g0\n"),
        5 => s.push_str(&format!("class g{last} < g0 {{}} last\n")),
        6 => s.push_str("fun g0() { new1 = g0\nnew2\n} var g2 = g0\n"),
        7 => s.push_str("{ var new1\nnew2 = g0\n} var g2 = new1\n"),
        8 => s.push_str("var g1 = last1\nvar last1 = last2\n"),
        _ => {}
    }
    s
}

fn long_sessions() -> Vec<String> {
    let mut out = vec![];
    for bad in [
        "",
        "var x{} = this\n",
        "var\n",
        "{ y{}\nreturn\n} z\n",
        "@\n",
    ] {
        for n in [3usize, 100, 250, 253, 254, 255, 256, 300] {
            let mut lines = vec![];
            for k in 0..n {
                lines.push(format!("var g{k} = g{}\n", k / 2));
                if !bad.is_empty() {
                    lines.push(bad.replace("{}", &k.to_string()));
                }
            }
            lines.push("fun f() { new = g0\n} f\n".to_owned());
            lines.push("var g1 = g2\n".to_owned());
            out.push(lines.join("\u{1}"));
        }
    }
    out
}
