//! The meaning-preserving edits of the trivia property, computed from the
//! reference scanner's tokens.

use crate::model_scan::{K, Mode, Scan};
use std::collections::BTreeSet;
use unicode_segmentation::UnicodeSegmentation;

/// Places in a text where edits are possible.
struct Places {
    /// Byte offsets where a line starts (outside of strings).
    starts: Vec<usize>,
    /// Byte offsets of line ends (or the end of the text), with: a comment may
    /// be appended (no backslash at the end).
    ends: Vec<(usize, bool)>,
    /// Byte offsets of tokens that follow another one on the same line.
    gaps: Vec<usize>,
    /// Byte offsets of LF clusters outside of strings.
    lfs: Vec<usize>,
}

fn places(src: &str) -> Places {
    let mut s = Scan::new();
    let mut p = Places {
        starts: vec![0],
        ends: vec![],
        gaps: vec![],
        lfs: vec![],
    };
    for (i, cl) in src.grapheme_indices(true) {
        let in_string = s.mode == Mode::Str;
        let back = matches!(s.mode, Mode::Back(_));
        if !in_string && (cl == "\n" || cl == "\r\n") {
            // A carriage return of its own may not get separated from its LF.
            if !src[..i].ends_with('\r') {
                p.ends.push((i, !back));
            }
            p.starts.push(i + cl.len());
            if cl == "\n" && !src[..i].ends_with('\r') {
                p.lfs.push(i);
            }
        }
        s.feed(src, cl, i);
    }
    let ends_in_newline = src.is_empty() || src.ends_with('\n');
    match s.mode {
        Mode::Str => {}
        m => {
            if !ends_in_newline {
                p.ends.push((src.len(), !matches!(m, Mode::Back(_))));
            }
        }
    }
    if s.mode == Mode::Str {
        // An unterminated string swallows the rest.
    }
    s.finish(src);
    let mut last_line = 0;
    for t in &s.toks {
        match t.k {
            K::Indent | K::Outdent | K::Terminator | K::Eof => continue,
            _ => {}
        }
        let line_of = |at: usize| src[..at].rfind('\n').map_or(0, |x| x + 1);
        let l = line_of(t.start as usize);
        let first = last_line != l + 1;
        // The line on which the token ends.
        last_line = line_of(t.end as usize) + 1;
        if !first && !matches!(t.k, K::LParen | K::LParenAbut) {
            p.gaps.push(t.start as usize);
        }
    }
    p
}

fn insert(src: &str, at: usize, what: &str) -> String {
    let mut s = String::with_capacity(src.len() + what.len());
    s.push_str(&src[..at]);
    s.push_str(what);
    s.push_str(&src[at..]);
    s
}

fn singles(src: &str) -> BTreeSet<String> {
    let p = places(src);
    let mut out = BTreeSet::new();
    for &at in &p.starts {
        for what in [
            "// c\n",
            "  // c\n",
            "       //\n",
            "\n",
            "   \n",
            "\r\n",
            "// é\r\n",
        ] {
            out.insert(insert(src, at, what));
        }
    }
    for &(at, comment) in &p.ends {
        out.insert(insert(src, at, " "));
        out.insert(insert(src, at, "   "));
        if comment {
            out.insert(insert(src, at, " // c"));
            out.insert(insert(src, at, " //"));
            out.insert(insert(src, at, "  // \"( \\"));
        }
    }
    for &at in &p.gaps {
        out.insert(insert(src, at, " "));
        out.insert(insert(src, at, "   "));
    }
    for &at in &p.lfs {
        out.insert(insert(src, at, "\r"));
    }
    // All of them.
    if p.lfs.len() > 1 {
        let mut s = src.to_owned();
        for &at in p.lfs.iter().rev() {
            s.insert(at, '\r');
        }
        out.insert(s);
    }
    // Two comment lines, and everything at once.
    if let Some(&at) = p.starts.last() {
        out.insert(insert(src, at, "// c\n\n    // d\n"));
    }
    out.remove(src);
    out
}

pub fn edits(src: &str, pairs: bool) -> BTreeSet<String> {
    let one = singles(src);
    if !pairs {
        return one;
    }
    let mut all = one.clone();
    for e in &one {
        all.extend(singles(e));
    }
    all.remove(src);
    all
}
