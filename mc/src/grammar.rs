//! All derivations of a grammar up to a weight, by index: programs that are
//! (mostly) accepted, with every construct nested in every other one.

use std::collections::HashMap;

/// A rule's template: characters, `%X` for a nonterminal, `⇥` and `⇤` for a
/// deeper and a shallower level.  Indentation (two spaces a level) is written
/// before the first character of a line, so a level's end takes effect there.
/// `#` is a name that occurs nowhere else in the text.
pub struct Grammar {
    rules: HashMap<char, Vec<Rule>>,
    /// ways of deriving each nonterminal with an exact weight
    counts: HashMap<char, Vec<u64>>,
    start: char,
    max: usize,
}
struct Rule {
    weight: usize,
    /// text before each nonterminal, and at the end
    texts: Vec<String>,
    slots: Vec<char>,
    /// ways[i][w]: of deriving slots i.. with weight w together
    ways: Vec<Vec<u64>>,
}

impl Grammar {
    pub fn new(rules: &[(char, usize, String)], start: char, max: usize) -> Grammar {
        let mut g = Grammar {
            rules: HashMap::new(),
            counts: HashMap::new(),
            start,
            max,
        };
        for (n, weight, t) in rules {
            let mut texts = vec![String::new()];
            let mut slots = vec![];
            let mut cs = t.chars();
            while let Some(c) = cs.next() {
                if c == '%' {
                    slots.push(cs.next().expect("nonterminal"));
                    texts.push(String::new());
                } else {
                    texts.last_mut().unwrap().push(c);
                }
            }
            let ways = vec![vec![0; max + 1]; slots.len() + 1];
            g.rules.entry(*n).or_default().push(Rule {
                weight: *weight,
                texts,
                slots,
                ways,
            });
        }
        for r in g.rules.values() {
            for s in r.iter().flat_map(|r| &r.slots) {
                assert!(g.rules.contains_key(s), "no rule for {s}");
            }
        }
        g.count();
        g
    }

    /// The least solution, by iteration to a fixpoint for each weight.
    fn count(&mut self) {
        let max = self.max;
        for n in self.rules.keys() {
            self.counts.insert(*n, vec![0; max + 1]);
        }
        for w in 0..=max {
            loop {
                let mut changed = false;
                let keys: Vec<char> = self.rules.keys().copied().collect();
                for n in keys {
                    let mut total = 0u64;
                    for r in self.rules.get_mut(&n).unwrap() {
                        let k = r.slots.len();
                        r.ways[k][0] = 1;
                        for i in (0..k).rev() {
                            let c = &self.counts[&r.slots[i]];
                            r.ways[i][w] =
                                (0..=w).map(|v| c[v] * r.ways[i + 1][w - v]).sum();
                        }
                        if w >= r.weight {
                            total += r.ways[0][w - r.weight];
                        }
                    }
                    let c = &mut self.counts.get_mut(&n).unwrap()[w];
                    if *c != total {
                        *c = total;
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
            }
        }
    }

    pub fn total(&self) -> usize {
        self.counts[&self.start].iter().sum::<u64>() as usize
    }

    pub fn unrank(&self, i: usize) -> String {
        let mut i = i as u64;
        let mut w = 0;
        loop {
            let c = self.counts[&self.start][w];
            if i < c {
                break;
            }
            i -= c;
            w += 1;
        }
        let mut raw = String::new();
        self.write(self.start, w, i, &mut raw);
        render(&raw)
    }

    fn write(&self, n: char, w: usize, mut i: u64, out: &mut String) {
        for r in &self.rules[&n] {
            if w < r.weight {
                continue;
            }
            let c = r.ways[0][w - r.weight];
            if i >= c {
                i -= c;
                continue;
            }
            let mut left = w - r.weight;
            for (k, s) in r.slots.iter().enumerate() {
                out.push_str(&r.texts[k]);
                for v in 0..=left {
                    let rest = r.ways[k + 1][left - v];
                    let c = self.counts[s][v] * rest;
                    if i >= c {
                        i -= c;
                        continue;
                    }
                    self.write(*s, v, i / rest, out);
                    i %= rest;
                    left -= v;
                    break;
                }
            }
            out.push_str(r.texts.last().unwrap());
            return;
        }
        unreachable!("rank beyond the count")
    }
}

fn render(raw: &str) -> String {
    let mut out = String::new();
    let mut level = 0;
    let mut fresh = true;
    let mut next = 0;
    for c in raw.chars() {
        match c {
            // A name of its own.
            '#' => {
                if fresh {
                    for _ in 0..level {
                        out.push_str("  ");
                    }
                }
                fresh = false;
                out.push(char::from(b'a' + next % 26));
                if next >= 26 {
                    out.push_str(&(next / 26).to_string());
                }
                next += 1;
            }
            '⇥' => level += 1,
            '⇤' => level -= 1,
            '\n' => {
                while out.ends_with(' ') {
                    out.pop();
                }
                out.push('\n');
                fresh = true;
            }
            ' ' if fresh => {}
            c => {
                if fresh {
                    for _ in 0..level {
                        out.push_str("  ");
                    }
                }
                fresh = false;
                out.push(c);
            }
        }
    }
    out
}

/// Bodies in all their forms around the given statements and expressions.
/// `leaves` are statements (without their line end), `exprs` expressions;
/// `names`, `params`, `supers` and `kinds` fill declarations.
pub struct Parts<'a> {
    pub leaves: &'a [&'a str],
    pub exprs: &'a [&'a str],
    pub names: &'a [&'a str],
    pub params: &'a [&'a str],
    pub supers: &'a [&'a str],
    pub members: &'a [&'a str],
    pub fors: &'a [&'a str],
    /// braced forms too
    pub braces: bool,
    pub loops: bool,
    pub ifs: bool,
}

pub fn statements(p: &Parts, max: usize) -> Grammar {
    let mut r: Vec<(char, usize, String)> = vec![];
    let mut add = |n: char, w: usize, t: &str| r.push((n, w, t.to_owned()));
    // T: a whole text; M: what a brace block has; L: an indented list; A: a
    // statement that ends with its line; B: one that ends with a brace.
    add('T', 0, "%M");
    for m in ["%L"].iter().chain(if p.braces { &["%B", "%B%M"][..] } else { &[] }) {
        add('M', 0, m);
    }
    add('L', 0, "%A");
    add('L', 0, "%A%L");
    if p.braces {
        add('L', 0, "%B%L");
    }
    for l in p.leaves {
        add('A', 1, &format!("{l}\n"));
    }
    for e in p.exprs {
        add('E', 0, e);
    }
    for n in p.names {
        add('V', 0, n);
    }
    for n in p.params {
        add('R', 0, n);
    }
    for n in p.supers {
        add('U', 0, n);
    }
    // P: a body that ends with its line; Q: one that ends with a brace.
    add('P', 0, "%A");
    add('P', 0, "\n⇥%L⇤");
    let ends: &[(char, char)] = if p.braces {
        add('Q', 0, "{ %M} ");
        add('Q', 0, "%W");
        add('B', 1, "{ %M} ");
        add('B', 0, "%W");
        &[('A', 'P'), ('W', 'Q')]
    } else {
        &[('A', 'P')]
    };
    for (s, b) in ends {
        if p.ifs {
            add(*s, 1, &format!("if (%E) %{b}"));
            add(*s, 1, &format!("if (%E) %Pelse %{b}"));
            if p.braces {
                add(*s, 1, &format!("if (%E) %Qelse %{b}"));
            }
        }
        if p.loops {
            add(*s, 1, &format!("while (%E) %{b}"));
            for f in p.fors {
                add(*s, 1, &format!("for ({f}) %{b}"));
            }
        }
    }
    for i in ["", "var %V", "var %V = %E", "%E"] {
        add('I', 0, i);
    }
    for c in ["", " %E"] {
        add('C', 0, c);
    }
    if !p.params.is_empty() {
        add('A', 1, "fun %V(%R)\n⇥%L⇤");
        if p.braces {
            add('W', 1, "fun %V(%R) { %M} ");
            add('A', 1, "%V = fun (%R) { %M} \n");
        }
    }
    if !p.members.is_empty() {
        add('A', 1, "class %V%U\n⇥%D⇤");
        add('D', 0, "%F");
        add('D', 0, "%F%D");
        for m in p.members {
            add('F', 1, &format!("{m}\n⇥%L⇤"));
        }
        if p.braces {
            add('W', 1, "class %V%U { %G} ");
            add('G', 0, "");
            add('G', 0, "%H%G");
            for m in p.members {
                add('H', 1, &format!("{m} {{ %M}} "));
            }
        }
    }
    Grammar::new(&r, 'T', max)
}

/// Expressions by their size, one to a line.
pub fn expressions(forms: &[(usize, &str)], contexts: &[&str], max: usize) -> Grammar {
    let mut r: Vec<(char, usize, String)> = vec![];
    for c in contexts {
        r.push(('T', 0, (*c).to_owned()));
    }
    for (w, f) in forms {
        r.push(('E', *w, (*f).to_owned()));
    }
    Grammar::new(&r, 'T', max)
}
