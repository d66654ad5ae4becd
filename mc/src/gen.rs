//! Bounded grammars of program texts, with an exact count and an unranking in order of size, so that every text up to a bound is
//! visited exactly once and any part of the space can be visited independently.
//!
//! A grammar is text: one rule per line, `NAME = cost: template | cost: template ...` with alternatives also on following lines
//! that start with `|`. `<NAME>` in a template is a hole. `@` stands for the next number of the program (1, 2, ..), `$` for the
//! last number given, `^` for `|` itself, U+0002 for a space that is not trimmed.

use std::collections::HashMap;

enum Piece {
    Text(String),
    Hole(usize),
}

struct Alt {
    cost: usize,
    pieces: Vec<Piece>,
    holes: Vec<usize>,
}

pub struct Grammar {
    names: Vec<String>,
    rules: Vec<Vec<Alt>>,
    /// count[nt][k]: texts of nt of size exactly k.
    count: Vec<Vec<u64>>,
    /// seq[nt][alt][h][k]: ways to fill the holes from h on with total size exactly k.
    seq: Vec<Vec<Vec<Vec<u64>>>>,
    pub bound: usize,
    /// cumulative count of the start symbol.
    cum: Vec<u64>,
}

impl Grammar {
    pub fn new(text: &str, bound: usize) -> Grammar {
        let mut index = HashMap::new();
        let mut names = Vec::new();
        let mut bodies: Vec<String> = Vec::new();
        for line in text.lines() {
            let l = line.trim();
            if l.is_empty() || l.starts_with("//") {
                continue;
            }
            if let Some(rest) = l.strip_prefix('|') {
                let b: &mut String = bodies.last_mut().unwrap();
                b.push('|');
                b.push_str(rest);
                continue;
            }
            let (n, b) = l.split_once(" = ").unwrap_or_else(|| panic!("rule {l:?}"));
            index.insert(n.trim().to_string(), names.len());
            names.push(n.trim().to_string());
            bodies.push(b.to_string());
        }
        let mut rules: Vec<Vec<Alt>> = Vec::new();
        for b in &bodies {
            let mut alts = Vec::new();
            for alt in b.split('|') {
                let alt = alt.trim();
                let (c, t) = alt.split_once(':').unwrap_or_else(|| panic!("alternative {alt:?}"));
                let cost = c.trim().parse().unwrap_or_else(|_| panic!("alternative {alt:?}"));
                let mut pieces = Vec::new();
                let mut rest = t.trim();
                let mut cur = String::new();
                while let Some(p) = rest.find('<') {
                    let hole = rest[p + 1..].find('>').and_then(|e| {
                        let n = &rest[p + 1..p + 1 + e];
                        index.get(n).map(|i| (*i, p + 2 + e))
                    });
                    match hole {
                        Some((i, e)) => {
                            cur.push_str(&rest[..p]);
                            pieces.push(Piece::Text(std::mem::take(&mut cur)));
                            pieces.push(Piece::Hole(i));
                            rest = &rest[e..];
                        }
                        None => {
                            assert!(
                                !rest[p + 1..].starts_with(|c: char| c.is_ascii_uppercase()),
                                "unknown rule in {alt:?}"
                            );
                            cur.push_str(&rest[..=p]);
                            rest = &rest[p + 1..];
                        }
                    }
                }
                cur.push_str(rest);
                pieces.push(Piece::Text(cur));
                let pieces: Vec<Piece> = pieces
                    .into_iter()
                    .map(|p| match p {
                        Piece::Text(t) => Piece::Text(t.replace('^', "|")),
                        p => p,
                    })
                    .collect();
                let holes = pieces.iter().filter_map(|p| if let Piece::Hole(h) = p { Some(*h) } else { None }).collect();
                alts.push(Alt { cost, pieces, holes });
            }
            rules.push(alts);
        }
        let n = rules.len();
        let mut g = Grammar { names, rules, count: vec![vec![0; bound + 1]; n], seq: vec![], bound, cum: vec![] };
        g.seq = g.rules.iter().map(|alts| alts.iter().map(|a| vec![vec![0; bound + 1]; a.holes.len() + 1]).collect()).collect();
        // Sizes grow strictly along every recursion (checked), so iterate size by size, to a fixpoint within each.
        for k in 0..=bound {
            let mut rounds = 0;
            loop {
                let mut changed = false;
                for nt in 0..n {
                    let mut total = 0u64;
                    for a in 0..g.rules[nt].len() {
                        for h in (0..=g.rules[nt][a].holes.len()).rev() {
                            let v = if h == g.rules[nt][a].holes.len() {
                                (k == 0) as u64
                            } else {
                                let hole = g.rules[nt][a].holes[h];
                                (0..=k).map(|i| g.count[hole][i].saturating_mul(g.seq[nt][a][h + 1][k - i])).fold(0, u64::saturating_add)
                            };
                            if g.seq[nt][a][h][k] != v {
                                g.seq[nt][a][h][k] = v;
                                changed = true;
                            }
                        }
                        let c = g.rules[nt][a].cost;
                        if c <= k {
                            total = total.saturating_add(g.seq[nt][a][0][k - c]);
                        }
                    }
                    if g.count[nt][k] != total {
                        g.count[nt][k] = total;
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
                rounds += 1;
                assert!(rounds < 100, "a recursion without cost in {:?}", g.names);
            }
        }
        let mut t = 0u64;
        g.cum = g.count[0]
            .iter()
            .map(|c| {
                t = t.saturating_add(*c);
                t
            })
            .collect();
        g
    }

    pub fn total(&self) -> u64 {
        *self.cum.last().unwrap()
    }

    pub fn text(&self, mut i: u64) -> String {
        let k = self.cum.iter().position(|c| i < *c).expect("index in range");
        if k > 0 {
            i -= self.cum[k - 1];
        }
        let mut raw = String::new();
        self.unrank(0, k, i, &mut raw);
        let mut out = String::with_capacity(raw.len() + 8);
        let mut n = 0;
        for c in raw.chars() {
            match c {
                '@' => {
                    n += 1;
                    out.push_str(&n.to_string());
                }
                '$' => out.push_str(&n.to_string()),
                '\u{2}' => out.push(' '),
                c => out.push(c),
            }
        }
        out
    }

    fn unrank(&self, nt: usize, k: usize, mut i: u64, out: &mut String) {
        for (a, alt) in self.rules[nt].iter().enumerate() {
            if alt.cost > k {
                continue;
            }
            let n = self.seq[nt][a][0][k - alt.cost];
            if i >= n {
                i -= n;
                continue;
            }
            let mut k = k - alt.cost;
            let mut h = 0;
            for p in &alt.pieces {
                match p {
                    Piece::Text(t) => out.push_str(t),
                    Piece::Hole(hole) => {
                        let mut j = 0;
                        loop {
                            let rest = self.seq[nt][a][h + 1][k - j];
                            let here = self.count[*hole][j].saturating_mul(rest);
                            if i < here {
                                self.unrank(*hole, j, i / rest, out);
                                i %= rest;
                                k -= j;
                                break;
                            }
                            i -= here;
                            j += 1;
                        }
                        h += 1;
                    }
                }
            }
            return;
        }
        unreachable!("rank out of range");
    }
}
