//! Every repeatable and every nestable construct, at every small size and
//! around the sizes where counters and tables of programs have their limits.

/// What is before, repeated, and after.  `#` becomes the number of the
/// repetition.
const REPEATED: &[(&str, &str, &str)] = &[
    // statements
    ("", "a\n", ""),
    ("", "var v# = #\n", "v0\n"),
    ("", "print # + a\n", ""),
    ("", "fun f#(x) { return x\n} a\n", ""),
    ("", "class A# { m() { a\n} } a\n", ""),
    ("", "if (a) b\n", ""),
    ("", "if (a)\n  b\nelse\n  c\n", ""),
    ("", "while (a) break\n", ""),
    ("", "for (var i# = 0; i# < 2; i# = i# + 1)\n  continue\n", ""),
    ("", "{ var b = #\n} b\n", ""),
    ("", "if (a)\n  b\n    + c\n  d\n", ""),
    ("fun f()\n", "  a\n", "  return b\n"),
    ("fun f()\n", "  var v# = #\n", "  return v1\n"),
    ("fun f(x) { ", "a = x\n", "} b\n"),
    ("while (a)\n", "  b #\n", "  break\n"),
    ("class A\n", "  m#(x)\n    return this.m#\n", ""),
    ("class A < B\n", "  class m#()\n    super.m#()\n", "  init()\n    a\n"),
    ("class A { ", "m#(x) { return #\n} ", "} a\n"),
    ("class A\n", "  m()\n    a\n", "  class m()\n    b\n"),
    // chains
    ("a", " + b#", "\n"),
    ("a", " - b", " * c\n"),
    ("a * 2", " / b", " + c\n"),
    ("a", " == b", " != c\n"),
    ("a", " < b", " >= c\n"),
    ("a", " and b", " or c\n"),
    ("a", " or b", " and c\n"),
    ("x = a", " + b * c", " < d\n"),
    ("", "a = ", "1\n"),
    ("", "a.b# = ", "1\n"),
    ("", "a[#] = ", "1\n"),
    ("a", ".b#", "\n"),
    ("a", "()", "\n"),
    ("a", "(#)", " b\n"),
    ("a", "[#]", ".c\n"),
    ("a", ".b[1](c)", ".d = 2\n"),
    ("f ", "g ", "1\n"),
    ("f ", "g(1) ", "2\n"),
    ("x = ", "!", "a\n"),
    ("x = ", "- ", "a * b\n"),
    ("if (a) b\n", "else if (a) c#\n", "else d\n"),
    ("if (a)\n  b\n", "else if (a)\n  c#\n", "else\n  d\n"),
    ("", "if (a) ", "b\nelse c\n"),
    ("", "while (a) ", "break\n"),
    ("", "for (;;) ", "continue\n"),
    ("", "for (var i = 0;; i) ", "if (i) b\n"),
    // entries
    ("x = [", "#, ", "a]\n"),
    ("x = [", "[#],\n", "]\n"),
    ("x = {", "k#: #, ", "z: a}\n"),
    ("x = {", "\"k #\": {k: #},\n", "}\n"),
    ("k: 1", ", k#: #", "\n"),
    ("var x =\n", "  k#: [#]\n", "y\n"),
    ("var x =\n", "  k#: {a: 1},\n", "  k0: 1\n"),
    ("f(", "#, ", "a)\n"),
    ("f ", "#, ", "a\n"),
    ("fun f(", "p#, ", "q) { return p0\n} a\n"),
    ("fun f(a)\n  f ", "a, ", "b\n"),
    // layout
    ("a", " +\n  b", "\n"),
    ("if (a)\n  b", " \\\n", "  + c\nd\n"),
    ("if (a)\n  b", " \\\n    . c", "\n  d\n"),
    ("if (a)\n  b\n", "\n", "  c\nd\n"),
    ("if (a)\n  b\n", "// c #\n", "  c\nd\n"),
    ("if (a)\n  b +\n", "   \n", "  c\nd\n"),
    ("a\r\n", "  // c\r\n\r\n", "b\r\n"),
    ("a ", " ", "b\n"),
    ("a", " ", "\nb\n"),
    ("a // ", "é", "\nb\n"),
    ("\"", "b#\n", "\" + c\nd\n"),
    ("\"", "é", "\" + c(d)\n"),
    ("a", "bé", ".c = d\n"),
    ("x = 1", "0", " + a\n"),
    ("x = 0.", "0", "5 + a\n"),
    ("f(", "\n", "a) + b\n"),
    // errors
    ("a\n", "@ ", "b\n"),
    ("a\n", "@\n", "b\n"),
    ("a\n", "print )\n", "b\n"),
    ("a\n", "if (a) )\n", "b\n"),
    ("a\n", "this\n", "b\n"),
    ("a\n", "return\n", "b\n"),
    ("a\n", "break\nprint a\n", "b\n"),
    ("a\n", "fun f(a, a) { b\n} a\n", "b\n"),
    ("a\n", "class A { m() { return super.b\n} } a\n", "b\n"),
    ("var a = 1\n", "{ var b = b\n} a\n", "b\n"),
    ("", "1 = ", "a\n"),
    ("x = {a: 1", ", a: #", "}\n"),
    ("", "} ", "\n"),
    ("", ") ", "a\n"),
    ("", "\\ ", "\n"),
    ("", "\t", "a\n"),
];

/// What opens a level, what is innermost, and what closes a level.
const NESTED: &[(&str, &str, &str)] = &[
    ("(", "a", ")"),
    ("(1 + ", "a", ") * 2"),
    ("f(", "a", ")"),
    ("f(1, ", "a", ", 2)"),
    ("f (", "a", "), b"),
    ("a[", "b", "]"),
    ("x[", "1", "] = y"),
    ("[", "", "]"),
    ("[a, ", "b", ", c]"),
    ("{k#: ", "1", "}"),
    ("{a: 1, b: ", "2", ", c: 3}"),
    ("fun () { return ", "a", "\n}"),
    ("fun (p#) { var v# = ", "p0", "\n}"),
    ("f(fun (a) { a = b\n", "c", "\n})"),
    ("!(", "a", ")"),
    ("a = (", "b", ")"),
    ("a.b(", "c", ").d"),
];
const NESTED_BRACES: &[(&str, &str, &str)] = &[
    ("{ ", "a\n", "} b\n"),
    ("{ var v# = a\n", "v0 = a\n", "} b\n"),
    ("{ var a = b\n", "a\n", "var b = a\n} b\n"),
    ("if (a) { ", "b\n", "} else c\n"),
    ("while (a) { ", "break\n", "continue\n} b\n"),
    ("for (var i = 0; i; i) { ", "break\n", "} b\n"),
    ("fun f#(x) { ", "x\n", "return f#\n} a\n"),
    ("class A { m() { ", "this\n", "return this.a\n} } a\n"),
    ("class A < B { init() { ", "super.m()\n", "return\n} } a\n"),
    ("fun f() { while (a) { ", "return 1\n", "break\n} b\n} c\n"),
];
/// A head line and what follows the deeper levels at the head's own level.
const INDENTED: &[(&[&str], &str, &[&str])] = &[
    (&["if (a)"], "b", &[]),
    (&["if (a)"], "b", &["else c"]),
    (&["if (a)"], "b", &["else", "  c"]),
    (&["while (a)"], "break", &["b"]),
    (&["b", "while (a)"], "continue", &[]),
    (&["for (var i# = 0; i#; i#)"], "i0", &[]),
    (&["fun f#(x)"], "return x", &["f#(1)"]),
    (&["var a = 1", "fun f()"], "a", &["a"]),
    (&["if (a)", "  b", "else"], "c", &["d"]),
    (&["while (a)", "  fun f()"], "return", &["  break"]),
    (&["class A#", "  m(x)"], "this", &["  k()", "    b"]),
];

const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
    26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 48, 49, 50, 51, 60, 62, 63, 64, 65,
    66, 96, 98, 99, 100, 101, 102, 120, 126, 127, 128, 129, 130, 150, 192, 198, 199, 200, 201, 240,
    250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 384, 500, 510, 511, 512, 513, 514,
    600, 750, 768, 998, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1500, 2000, 2047, 2048,
    2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_000, 32_767, 32_768, 32_769, 65_534, 65_535,
    65_536, 65_537,
];

fn numbered(s: &str, i: usize) -> String {
    if s.contains('#') { s.replace('#', &i.to_string()) } else { s.to_owned() }
}

/// All texts with at most `flat` repetitions and `deep` levels.
pub fn texts(flat: usize, deep: usize) -> Vec<String> {
    let upto = |m: usize| SIZES.iter().copied().filter(move |n| *n <= m);
    let mut out = vec![];
    for (head, unit, tail) in REPEATED {
        for n in upto(flat) {
            let mut s = (*head).to_owned();
            for i in 0..n {
                s.push_str(&numbered(unit, i));
            }
            s.push_str(tail);
            s.push_str("z.y\n");
            out.push(s);
        }
    }
    let expressions = NESTED.iter().map(|x| (x, "x = ", "\nz.y\n"));
    let statements = NESTED_BRACES.iter().map(|x| (x, "", "z.y\n"));
    for ((open, inner, close), head, tail) in expressions.chain(statements) {
        for n in upto(deep) {
            let mut s = head.to_owned();
            for i in 0..n {
                s.push_str(&numbered(open, i));
            }
            s.push_str(inner);
            for i in (0..n).rev() {
                s.push_str(&numbered(close, i));
            }
            s.push_str(tail);
            out.push(s);
        }
    }
    for (heads, inner, tails) in INDENTED {
        for n in upto(deep.min(600)) {
            for width in [1, 2, 3] {
                let mut s = String::new();
                // Heads may themselves indent what follows.
                let extra = heads.last().map_or(0, |h| h.len() - h.trim_start().len());
                let at = |l: usize| l * (width + extra);
                for l in 0..n {
                    for h in *heads {
                        s.push_str(&" ".repeat(at(l)));
                        s.push_str(&numbered(h, l));
                        s.push('\n');
                    }
                }
                s.push_str(&" ".repeat(at(n)));
                s.push_str(inner);
                s.push('\n');
                for l in (0..n).rev() {
                    for t in *tails {
                        s.push_str(&" ".repeat(at(l)));
                        s.push_str(&numbered(t, l));
                        s.push('\n');
                    }
                }
                s.push_str("z.y\n");
                out.push(s);
            }
        }
    }
    out
}
