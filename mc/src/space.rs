//! Bounded spaces of texts, each enumerated completely.

use crate::model_parse::{Mode, P, Prefix, parse};
use crate::model_resolve;
use crate::model_scan::{Scan, scan};
use crate::work::{Run, Tally, Worker, hash, parallel};
use std::collections::{HashMap, HashSet, VecDeque};

pub struct Space {
    pub name: String,
    pub what: What,
}

pub enum What {
    /// All strings over an alphabet up to a length, in each of the contexts
    /// (text before, text after).
    Strings {
        alpha: Vec<String>,
        max: usize,
        ctx: Vec<(String, String)>,
    },
    /// All sequences of lexemes up to a depth that are beginnings of programs,
    /// and every extension of them by up to `dead` lexemes that makes them none.
    Viable {
        alpha: Vec<String>,
        depth: usize,
        dead: usize,
        closers: Vec<String>,
        start: String,
    },
    /// Breadth-first search over the scanner automaton's states: every state
    /// with every symbol, followed by every suffix up to a length.
    Automaton {
        alpha: Vec<String>,
        suffix: usize,
        depth: usize,
        max_stack: usize,
        max_spaces: u32,
        closers: Vec<String>,
    },
    /// Breadth-first search over the parser's configurations up to a nesting:
    /// every configuration with every lexeme, alone and completed to a whole
    /// program where that is possible.
    Configs {
        alpha: Vec<String>,
        nest: usize,
        depth: usize,
        closers: Vec<String>,
        /// follow each transition by every lexeme
        two: bool,
    },
    /// Breadth-first search over the resolver's states: every state with every
    /// line form.
    Scopes {
        alpha: Vec<String>,
        depth: usize,
        nest: usize,
        max_states: usize,
    },
    /// All sequences of REPL lines up to a length, and breadth-first search over
    /// session states beyond it.
    Histories {
        menu: Vec<String>,
        all: usize,
        bfs: usize,
        max_states: usize,
    },
    /// Two analyses on two threads, for each ordered pair of texts: all
    /// schedules with at most `bound` preemptions, each at an allocation.
    Schedules {
        texts: Vec<String>,
        bound: usize,
        fresh: bool,
    },
    /// A finite list.
    List(Vec<String>),
    /// A finite family given by index.
    Family(usize, Box<dyn Fn(usize) -> String + Send + Sync>),
    /// Every truncation, and every deletion, duplication, replacement and
    /// insertion of one token (thorough: of two), of each program of a corpus.
    Mutations {
        corpus: Vec<String>,
        alpha: Vec<String>,
        two: bool,
    },
}

pub struct Report {
    pub name: String,
    pub tally: Tally,
    pub complete: bool,
    pub wall: f64,
    pub note: String,
}

/// Appends a lexeme.  A leading backspace removes a space before it.
pub fn push(text: &mut String, sym: &str) {
    if let Some(rest) = sym.strip_prefix('\u{8}') {
        if text.ends_with(' ') && !text.ends_with("\n ") {
            text.pop();
        }
        text.push_str(rest);
    } else {
        text.push_str(sym);
    }
}
fn with(text: &str, sym: &str) -> String {
    let mut s = String::with_capacity(text.len() + sym.len());
    s.push_str(text);
    push(&mut s, sym);
    s
}

/// The configuration of scanner and parser after a beginning of a text, or
/// None if no continuation is a program.
pub fn config(text: &str) -> Option<(Vec<u32>, u64, usize)> {
    let mut s = Scan::new();
    s.feed_all(text);
    if !s.errs.is_empty() {
        return None;
    }
    match P::new(text, &s.toks, Mode::File).prefix() {
        Prefix::Dead => None,
        Prefix::Open(c) => {
            let h = hash((&c, s.canon()));
            let n = s.stack.len();
            Some((c, h, n))
        }
    }
}

impl Space {
    pub fn explore(&self, run: &Run) -> Report {
        let t0 = std::time::Instant::now();
        let mut note = String::new();
        let tally = match &self.what {
            What::Strings { alpha, max, ctx } => strings(run, alpha, *max, ctx),
            What::Viable {
                alpha,
                depth,
                dead,
                closers,
                start,
            } => viable(run, alpha, *depth, *dead, closers, start),
            What::Automaton {
                alpha,
                suffix,
                depth,
                max_stack,
                max_spaces,
                closers,
            } => automaton(
                run,
                alpha,
                *suffix,
                *depth,
                *max_stack,
                *max_spaces,
                closers,
                &mut note,
            ),
            What::Configs {
                alpha,
                nest,
                depth,
                closers,
                two,
            } => configs(run, alpha, *nest, *depth, closers, *two, &mut note),
            What::Scopes {
                alpha,
                depth,
                nest,
                max_states,
            } => scopes(run, alpha, *depth, *nest, *max_states, &mut note),
            What::Histories {
                menu,
                all,
                bfs,
                max_states,
            } => histories(run, menu, *all, *bfs, *max_states, &mut note),
            What::Schedules {
                texts,
                bound,
                fresh,
            } => schedules(run, texts, *bound, *fresh, &mut note),
            What::List(v) => parallel(run, v, |w, _, t| {
                w.t.edges += 1;
                w.t.states.insert(hash(t));
                w.case(t)
            }),
            What::Family(n, f) => {
                // In small portions: neighbours cost about the same.
                let step = (*n / 4096).clamp(1, 512);
                let from: Vec<usize> = (0..*n).step_by(step).collect();
                parallel(run, &from, |w, _, from| {
                    for i in *from..(*from + step).min(*n) {
                        if w.stopped() {
                            return;
                        }
                        w.t.edges += 1;
                        let t = f(i);
                        // Distinct texts, as far as memory allows.
                        if *n <= 20_000_000 {
                            w.t.states.insert(hash(&t));
                        }
                        w.case(&t)
                    }
                })
            }
            What::Mutations { corpus, alpha, two } => mutations(run, corpus, alpha, *two),
        };
        Report {
            name: self.name.clone(),
            tally,
            complete: !run.stop.load(std::sync::atomic::Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
            note,
        }
    }
}

// ---- strings --------------------------------------------------------------

fn strings(run: &Run, alpha: &[String], max: usize, ctx: &[(String, String)]) -> Tally {
    // Work items: all strings of length at most 2.
    let mut items = vec![(String::new(), max == 0)];
    let split = max.min(2);
    let mut level = vec![String::new()];
    for n in 1..=split {
        level = level
            .iter()
            .flat_map(|p| alpha.iter().map(move |a| format!("{p}{a}")))
            .collect();
        items.extend(level.iter().map(|s| (s.clone(), n == split)));
    }
    fn go(
        w: &mut Worker,
        text: &mut String,
        buf: &mut String,
        alpha: &[String],
        left: usize,
        ctx: &[(String, String)],
    ) {
        if w.stopped() {
            return;
        }
        for (a, b) in ctx {
            buf.clear();
            buf.push_str(a);
            buf.push_str(text);
            let mut s = Scan::new();
            s.feed_all(buf);
            w.t.states.insert(hash(s.canon()));
            buf.push_str(b);
            w.case(buf);
        }
        if left > 0 {
            for a in alpha {
                let n = text.len();
                text.push_str(a);
                w.t.edges += 1;
                go(w, text, buf, alpha, left - 1, ctx);
                text.truncate(n);
            }
        }
    }
    parallel(run, &items, |w, _, (s, deep)| {
        let left = if *deep { max - split } else { 0 };
        w.t.edges += 1;
        go(w, &mut s.clone(), &mut String::new(), alpha, left, ctx);
    })
}

// ---- viable lexeme sequences ----------------------------------------------

fn viable(
    run: &Run,
    alpha: &[String],
    depth: usize,
    dead: usize,
    closers: &[String],
    start: &str,
) -> Tally {
    struct E<'e> {
        alpha: &'e [String],
        closers: &'e [String],
    }
    // Visits text·a for each a; calls `deeper` for those to expand.
    fn expand(
        w: &mut Worker,
        e: &E,
        text: &str,
        left: usize,
        dead: usize,
        deeper: &mut dyn FnMut(&mut Worker, String, usize, usize),
    ) {
        for a in e.alpha {
            if w.stopped() {
                return;
            }
            let t = with(text, a);
            w.t.edges += 1;
            for c in e.closers {
                w.case(&with(&t, c));
            }
            match config(&t) {
                Some((_, h, _)) => {
                    w.t.states.insert(h);
                    if left > 1 {
                        deeper(w, t, left - 1, dead);
                    }
                }
                None => {
                    if dead > 0 && left > 1 {
                        // From here on only that many lexemes.
                        deeper(w, t, (left - 1).min(dead), dead - 1);
                    }
                }
            }
        }
    }
    fn go(w: &mut Worker, e: &E, text: String, left: usize, dead: usize) {
        expand(w, e, &text, left, dead, &mut |w, t, l, d| go(w, e, t, l, d))
    }
    let e = E { alpha, closers };
    // The first two levels sequentially, to make work items.
    let mut items = vec![(start.to_owned(), depth, dead)];
    let mut total = Tally::default();
    for _ in 0..2 {
        let next = std::sync::Mutex::new(vec![]);
        let t = parallel(run, &items, |w, i, (text, l, d)| {
            let mut mine = vec![];
            expand(w, &e, text, *l, *d, &mut |_, t, l, d| mine.push((t, l, d)));
            next.lock().unwrap().push((i, mine));
        });
        total.merge(t);
        let mut n = next.into_inner().unwrap();
        n.sort_by_key(|x| x.0);
        items = n.into_iter().flat_map(|x| x.1).collect();
    }
    let t = parallel(run, &items, |w, _, (text, l, d)| {
        go(w, &e, text.clone(), *l, *d)
    });
    total.merge(t);
    total
}

// ---- scanner automaton ----------------------------------------------------

#[allow(clippy::too_many_arguments)]
fn automaton(
    run: &Run,
    alpha: &[String],
    suffix: usize,
    depth: usize,
    max_stack: usize,
    max_spaces: u32,
    closers: &[String],
    note: &mut String,
) -> Tally {
    let canon = |t: &str| {
        let mut s = Scan::new();
        s.feed_all(t);
        s.canon()
    };
    let mut seen = HashSet::new();
    let mut access = vec![String::new()];
    seen.insert(canon(""));
    let mut frontier = access.clone();
    let mut edges = 0u64;
    let mut fixpoint = false;
    for _ in 0..depth {
        let mut next = vec![];
        for t in &frontier {
            for a in alpha {
                edges += 1;
                let u = format!("{t}{a}");
                let c = canon(&u);
                if c.stack.len() > max_stack
                    || c.spaces > max_spaces
                    || c.stack.iter().any(|w| *w > max_spaces)
                {
                    continue;
                }
                if seen.insert(c) {
                    next.push(u);
                }
            }
        }
        if next.is_empty() {
            fixpoint = true;
            break;
        }
        access.extend(next.iter().cloned());
        frontier = next;
    }
    *note = format!(
        "{} automaton states, {edges} transitions{}",
        access.len(),
        if fixpoint { ", all reachable ones" } else { "" }
    );
    // All suffixes up to the length.
    let mut suffixes = vec![String::new()];
    let mut level = suffixes.clone();
    for _ in 0..suffix {
        level = level
            .iter()
            .flat_map(|p| alpha.iter().map(move |a| format!("{p}{a}")))
            .collect();
        suffixes.extend(level.iter().cloned());
    }
    let mut t = parallel(run, &access, |w, _, t| {
        for a in alpha {
            w.t.edges += 1;
            for s in &suffixes {
                for c in closers {
                    if w.stopped() {
                        return;
                    }
                    w.case(&format!("{t}{a}{s}{c}"));
                }
            }
        }
    });
    t.states.extend(seen.iter().map(hash));
    t
}

// ---- parser configurations --------------------------------------------------

fn configs(
    run: &Run,
    alpha: &[String],
    nest: usize,
    depth: usize,
    closers: &[String],
    two: bool,
    note: &mut String,
) -> Tally {
    let mut total = Tally::default();
    let mut texts: Vec<String> = vec![String::new()];
    let mut index: HashMap<u64, usize> = HashMap::new();
    index.insert(config("").unwrap().1, 0);
    let mut edges: Vec<(usize, usize, usize)> = vec![];
    let mut from = 0;
    let mut fixpoint = false;
    for _ in 0..depth {
        let frontier: Vec<usize> = (from..texts.len()).collect();
        if frontier.is_empty() {
            fixpoint = true;
            break;
        }
        from = texts.len();
        let out = std::sync::Mutex::new(vec![]);
        let t = parallel(run, &frontier, |w, _, i| {
            let mut mine = vec![];
            for (ai, a) in alpha.iter().enumerate() {
                if w.stopped() {
                    return;
                }
                let t = with(&texts[*i], a);
                w.t.edges += 1;
                for c in closers {
                    w.case(&with(&t, c));
                }
                if two {
                    for b in alpha {
                        let u = with(&t, b);
                        for c in closers {
                            w.case(&with(&u, c));
                        }
                    }
                }
                if let Some((c, h, blocks)) = config(&t) {
                    if c.len() <= nest + 2 && blocks <= 3 {
                        mine.push((ai, h, t));
                    }
                }
            }
            out.lock().unwrap().push((*i, mine));
        });
        total.merge(t);
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|x| x.0);
        for (i, mine) in out {
            for (ai, h, t) in mine {
                let n = texts.len();
                let j = *index.entry(h).or_insert(n);
                if j == n {
                    texts.push(t);
                }
                edges.push((i, ai, j));
            }
        }
    }
    total.states.extend(index.keys());
    // Shortest completions: backwards from the configurations whose text is a
    // whole program.
    let mut rev: Vec<Vec<(usize, usize)>> = vec![vec![]; texts.len()];
    for (i, a, j) in &edges {
        rev[*j].push((*i, *a));
    }
    let mut rest: Vec<Option<String>> = vec![None; texts.len()];
    let mut q = VecDeque::new();
    for (i, t) in texts.iter().enumerate() {
        let s = scan(t);
        if s.errs.is_empty() && parse(t, &s.toks, Mode::File).is_ok() {
            rest[i] = Some(String::new());
            q.push_back(i);
        }
    }
    while let Some(j) = q.pop_front() {
        for (i, a) in &rev[j] {
            if rest[*i].is_none() {
                // Kept as symbols: joined by `push` below.
                let r = format!("{}\u{2}{}", alpha[*a], rest[j].as_deref().unwrap());
                rest[*i] = Some(r);
                q.push_back(*i);
            }
        }
    }
    let completed = rest.iter().filter(|r| r.is_some()).count();
    *note = format!(
        "{} configurations, {} transitions between them{}, {} completed",
        texts.len(),
        edges.len(),
        if fixpoint {
            " (all reachable ones)".to_owned()
        } else {
            format!(" (all reachable by {depth} lexemes)")
        },
        completed
    );
    let t = parallel(run, &edges, |w, _, (i, a, j)| {
        if w.stopped() {
            return;
        }
        if let Some(r) = &rest[*j] {
            let mut t = with(&texts[*i], &alpha[*a]);
            for s in r.split('\u{2}') {
                push(&mut t, s);
            }
            w.case(&t);
        }
    });
    total.merge(t);
    total
}

// ---- resolver states --------------------------------------------------------

/// The resolver's state at the end of a beginning of a program: what a line
/// there would see.
fn scope_state(text: &str) -> Option<u64> {
    let mut s = Scan::new();
    s.feed_all(text);
    if !s.errs.is_empty() {
        return None;
    }
    let top = s.stack.last().copied().unwrap_or(0) as usize;
    let pad = |n: usize| " ".repeat(n);
    let probes = [
        format!("{}{PROBE}\n", pad(top)),
        format!("{}{PROBE}\n", pad(top + 2)),
        format!("{}zz()\n{}{PROBE}\n", pad(top), pad(top + 2)),
        format!("{}zz()\n{}{PROBE}\n", pad(top + 2), pad(top + 4)),
    ];
    for (i, p) in probes.iter().enumerate() {
        let t = format!("{text}{p}");
        let s2 = scan(&t);
        if !s2.errs.is_empty() {
            continue;
        }
        if let Ok(mut n) = parse(&t, &s2.toks, Mode::File) {
            let mut ses = model_resolve::Session::new();
            return match model_resolve::probe(&mut ses, &mut n, PROBE) {
                Some(h) => Some(hash((i, h, &s.stack))),
                None => None,
            };
        }
    }
    None
}
const PROBE: &str = "zz_probe";

fn scopes(
    run: &Run,
    alpha: &[String],
    depth: usize,
    nest: usize,
    max_states: usize,
    note: &mut String,
) -> Tally {
    let mut total = Tally::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut frontier = vec![String::new()];
    seen.insert(scope_state("").unwrap());
    let mut edges = 0u64;
    let mut done = 0;
    let mut fixpoint = false;
    for level in 0..depth {
        let out = std::sync::Mutex::new(vec![]);
        let t = parallel(run, &frontier, |w, i, text| {
            let mut mine = vec![];
            for a in alpha {
                if w.stopped() {
                    return;
                }
                let t = format!("{text}{a}");
                w.t.edges += 1;
                w.case(&t);
                let mut s = Scan::new();
                s.feed_all(&t);
                if s.stack.len() > nest || !s.errs.is_empty() {
                    continue;
                }
                if let Some(h) = scope_state(&t) {
                    mine.push((h, t));
                }
            }
            out.lock().unwrap().push((i, mine));
        });
        edges += t.edges;
        total.merge(t);
        let mut out = out.into_inner().unwrap();
        out.sort_by_key(|x| x.0);
        let mut next = vec![];
        let mut full = false;
        for (_, mine) in out {
            for (h, t) in mine {
                if seen.contains(&h) {
                    continue;
                }
                if seen.len() >= max_states {
                    full = true;
                    continue;
                }
                seen.insert(h);
                next.push(t);
            }
        }
        done = level + 1;
        if next.is_empty() {
            fixpoint = !full;
            break;
        }
        frontier = next;
    }
    *note = format!(
        "{} resolver states, {edges} transitions, {done} lines deep{}",
        seen.len(),
        if fixpoint {
            " (all reachable ones)"
        } else {
            ""
        }
    );
    total.states.extend(seen);
    total
}

// ---- REPL histories ---------------------------------------------------------

fn histories(
    run: &Run,
    menu: &[String],
    all: usize,
    bfs: usize,
    max_states: usize,
    note: &mut String,
) -> Tally {
    use crate::judge::{SEP, model_parse_text};
    fn go(w: &mut Worker, menu: &[String], text: &mut String, left: usize) {
        if w.stopped() {
            return;
        }
        // Shorter histories are beginnings of longer ones.
        if left == 0 {
            w.case(text);
            return;
        }
        for m in menu {
            let n = text.len();
            if n > 0 {
                text.push(SEP);
            }
            text.push_str(m);
            w.t.edges += 1;
            go(w, menu, text, left - 1);
            text.truncate(n);
        }
    }
    let mut total = parallel(run, menu, |w, _, m| {
        w.t.edges += 1;
        go(w, menu, &mut m.clone(), all - 1)
    });
    // Session states.
    let mut seen = HashSet::new();
    let mut frontier = vec![(model_resolve::Session::new(), String::new())];
    seen.insert(hash(&frontier[0].0));
    let mut edges = 0u64;
    let mut done = 0;
    let mut fixpoint = false;
    for level in 0..bfs {
        let t = parallel(run, &frontier, |w, _, (_, h)| {
            for m in menu {
                for n in menu {
                    if w.stopped() {
                        return;
                    }
                    w.t.edges += 1;
                    let mut t = h.clone();
                    if !t.is_empty() {
                        t.push(SEP);
                    }
                    t.push_str(m);
                    t.push(SEP);
                    t.push_str(n);
                    w.case(&t);
                }
            }
        });
        edges += t.edges;
        total.merge(t);
        let mut next = vec![];
        for (s, h) in &frontier {
            for m in menu {
                let mut s2 = s.clone();
                if let Ok(mut n) = model_parse_text(m, Mode::Repl) {
                    let _ = s2.resolve(&mut n);
                }
                if seen.len() < max_states && seen.insert(hash(&s2)) {
                    let mut t = h.clone();
                    if !t.is_empty() {
                        t.push(SEP);
                    }
                    t.push_str(m);
                    next.push((s2, t));
                }
            }
        }
        done = level + 1;
        if next.is_empty() {
            fixpoint = seen.len() < max_states;
            break;
        }
        frontier = next;
    }
    *note = format!(
        "all histories of {all} lines; {} session states, {edges} transitions, \
         {done} lines deep{}",
        seen.len(),
        if fixpoint {
            " (all reachable ones)"
        } else {
            ""
        }
    );
    total.states.extend(seen);
    total
}

// ---- schedules --------------------------------------------------------------

fn schedules(
    run: &Run,
    texts: &[String],
    bound: usize,
    fresh: bool,
    note: &mut String,
) -> Tally {
    use crate::judge::SEP;
    use crate::pure::{FIRST, POINTS, SCHEDULE};
    let mark = if fresh { FIRST } else { SCHEDULE };
    fn go(w: &mut Worker, case: &dyn Fn(&[u32]) -> String, sw: &mut Vec<u32>, left: usize) {
        if w.stopped() {
            return;
        }
        w.t.edges += 1;
        let c = case(sw);
        w.t.states.insert(hash(&c));
        w.case(&c);
        if left > 0 {
            let n = POINTS.get();
            for p in sw.last().copied().unwrap_or(0) + 1..=n {
                sw.push(p);
                go(w, case, sw, left - 1);
                sw.pop();
            }
        }
    }
    let pairs: Vec<(&String, &String)> = texts
        .iter()
        .flat_map(|a| texts.iter().map(move |b| (a, b)))
        .collect();
    let t = parallel(run, &pairs, |w, _, (a, b)| {
        let case = |sw: &[u32]| {
            let sw: Vec<String> = sw.iter().map(u32::to_string).collect();
            format!("{mark}{}{SCHEDULE}{a}{SEP}{b}", sw.join(","))
        };
        go(w, &case, &mut vec![], bound)
    });
    *note = format!(
        "{} schedules of {} pairs of analyses, all with at most {bound} \
         preemptions at any allocation",
        t.cases,
        pairs.len()
    );
    t
}

// ---- mutations --------------------------------------------------------------

/// The lexemes of a text with the trivia before each.
fn pieces(text: &str) -> Vec<String> {
    use crate::model_scan::K;
    let s = scan(text);
    let mut v = vec![];
    let mut at = 0;
    for t in &s.toks {
        if matches!(t.k, K::Indent | K::Outdent | K::Eof) {
            continue;
        }
        v.push(text[at..t.end as usize].to_owned());
        at = t.end as usize;
    }
    if at < text.len() {
        v.push(text[at..].to_owned());
    }
    v
}

fn single_mutations(text: &str, alpha: &[String], f: &mut dyn FnMut(String)) {
    let p = pieces(text);
    let join = |a: &[String], m: &str, b: &[String]| {
        let mut s = a.concat();
        push(&mut s, m);
        for x in b {
            s.push_str(x);
        }
        s
    };
    for i in 0..p.len() {
        f(p[..i].concat());
        f(join(&p[..i], "", &p[i + 1..]));
        f(join(&p[..i], &p[i], &p[i..]));
        if i + 1 < p.len() {
            f(join(&p[..i], &format!("{}{}", p[i + 1], p[i]), &p[i + 2..]));
        }
        for a in alpha {
            f(join(&p[..i], &format!(" {a}"), &p[i + 1..]));
            f(join(&p[..i], &format!(" {a}"), &p[i..]));
        }
    }
}

fn mutations(run: &Run, corpus: &[String], alpha: &[String], two: bool) -> Tally {
    let mut items = vec![];
    for c in corpus {
        items.push(c.clone());
        single_mutations(c, alpha, &mut |t| items.push(t));
    }
    items.sort();
    items.dedup();
    parallel(run, &items, |w, _, t| {
        w.t.edges += 1;
        w.t.states.insert(hash(t));
        w.case(t);
        if two {
            let mut v = vec![];
            single_mutations(t, &[], &mut |u| v.push(u));
            for u in v {
                if w.stopped() {
                    return;
                }
                w.t.edges += 1;
                w.case(&u);
            }
        }
    })
}
