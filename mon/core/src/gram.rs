//! Source grammars: generation, classic families, analysis, and translation to a `Cfg`.

use cfg::{Cfg, Symbol, SymbolName};
use common::Rng;

#[derive(Clone, Debug, Hash)]
pub struct Gr {
    /// Symbols are `0..nsyms` in order of declaration; those without rules are terminals.
    pub nsyms: usize,
    pub start: usize,
    pub rules: Vec<(usize, Vec<usize>)>,
}

/// Facts about a grammar, computed from the rules alone.
#[derive(Clone, Debug)]
pub struct An {
    pub is_term: Vec<bool>,
    pub productive: Vec<bool>,
    /// Occurs in some derivation of a sentence.
    pub useful: Vec<bool>,
    pub useful_rule: Vec<bool>,
    pub nullable: Vec<bool>,
    /// Derives some nonempty string.
    pub nonempty: Vec<bool>,
    pub cyclic: bool,
    /// Length of a shortest derived string.
    pub min_len: Vec<usize>,
    /// Height of a lowest derivation.
    pub height: Vec<usize>,
    pub by_lhs: Vec<Vec<usize>>,
}

impl An {
    pub fn new(g: &Gr) -> An {
        let n = g.nsyms;
        let mut is_term = vec![true; n];
        for (l, _) in &g.rules {
            is_term[*l] = false;
        }
        let big = usize::MAX / 4;
        let mut min_len: Vec<usize> = is_term.iter().map(|&t| if t { 1 } else { big }).collect();
        let mut height: Vec<usize> = is_term.iter().map(|&t| if t { 0 } else { big }).collect();
        let mut nullable = vec![false; n];
        let mut nonempty = is_term.clone();
        let mut productive = is_term.clone();
        loop {
            let mut ch = false;
            for (l, r) in &g.rules {
                let len = r.iter().map(|&s| min_len[s]).fold(0usize, |a, b| (a + b).min(big));
                if len < min_len[*l] {
                    min_len[*l] = len;
                    ch = true;
                }
                let h = 1 + r.iter().map(|&s| height[s]).max().unwrap_or(0);
                if h < height[*l] {
                    height[*l] = h;
                    ch = true;
                }
                if !productive[*l] && r.iter().all(|&s| productive[s]) {
                    productive[*l] = true;
                    ch = true;
                }
                if !nullable[*l] && r.iter().all(|&s| nullable[s]) {
                    nullable[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        loop {
            let mut ch = false;
            for (l, r) in &g.rules {
                if !nonempty[*l] && r.iter().all(|&s| productive[s]) && r.iter().any(|&s| nonempty[s]) {
                    nonempty[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut useful = vec![false; n];
        let mut useful_rule = vec![false; g.rules.len()];
        useful[g.start] = productive[g.start];
        loop {
            let mut ch = false;
            for (i, (l, r)) in g.rules.iter().enumerate() {
                if useful[*l] && !useful_rule[i] && r.iter().all(|&s| productive[s]) {
                    useful_rule[i] = true;
                    for &s in r {
                        useful[s] = true;
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // A -> B when A derives B.
        let mut edge = vec![vec![false; n]; n];
        for (i, (l, r)) in g.rules.iter().enumerate() {
            if !useful_rule[i] {
                continue;
            }
            for (k, &s) in r.iter().enumerate() {
                let rest_null = r.iter().enumerate().all(|(m, &t)| m == k || nullable[t]);
                if rest_null {
                    edge[*l][s] = true;
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                if edge[i][k] {
                    for j in 0..n {
                        if edge[k][j] {
                            edge[i][j] = true;
                        }
                    }
                }
            }
        }
        // A cycle through symbols that only derive the empty string multiplies nothing.
        let cyclic = (0..n).any(|i| edge[i][i] && nonempty[i]);
        let mut by_lhs = vec![vec![]; n];
        for (i, (l, _)) in g.rules.iter().enumerate() {
            by_lhs[*l].push(i);
        }
        An { is_term, productive, useful, useful_rule, nullable, nonempty, cyclic, min_len, height, by_lhs }
    }

    pub fn terms(&self) -> Vec<usize> {
        (0..self.is_term.len()).filter(|&s| self.is_term[s]).collect()
    }
    pub fn useful_terms(&self) -> Vec<usize> {
        (0..self.is_term.len()).filter(|&s| self.is_term[s] && self.useful[s]).collect()
    }
    pub fn any_nullable(&self) -> bool {
        (0..self.nullable.len()).any(|s| self.useful[s] && self.nullable[s])
    }
}

impl Gr {
    pub fn name(&self, s: usize, an: &An) -> String {
        if an.is_term[s] {
            format!("t{}", s)
        } else {
            format!("N{}", s)
        }
    }

    pub fn show(&self) -> String {
        let an = An::new(self);
        let mut out = format!("start N{}; {} symbols;", self.start, self.nsyms);
        let n = self.rules.len();
        for (i, (l, r)) in self.rules.iter().enumerate() {
            if n > 10_000 && (60..n - 60).contains(&i) {
                if i == 60 {
                    out.push_str(" ...");
                }
                continue;
            }
            out.push_str(&format!(" [{}] N{} ::=", i, l));
            for &s in r {
                out.push(' ');
                out.push_str(&self.name(s, &an));
            }
            out.push(';');
        }
        out
    }

    /// The same grammar for gearley. Symbol `i` of the result is the `i`-th symbol of the `Cfg`, and
    /// rule `i` has the origin id `i`.
    pub fn cfg(&self) -> (Cfg, Vec<Symbol>) {
        let an = An::new(self);
        let mut cfg = Cfg::new();
        let syms: Vec<Symbol> = (0..self.nsyms)
            .map(|s| {
                let name = self.name(s, &an);
                cfg.next_sym(Some(SymbolName::from(&name[..])))
            })
            .collect();
        for (l, r) in &self.rules {
            let rhs: Vec<Symbol> = r.iter().map(|&s| syms[s]).collect();
            cfg.rule(syms[*l]).rhs(&rhs[..]);
        }
        cfg.set_roots([syms[self.start]]);
        (cfg, syms)
    }

    /// Renumbers symbols: symbol `s` becomes `to[s]`.
    pub fn permuted(&self, to: &[usize]) -> Gr {
        Gr {
            nsyms: self.nsyms,
            start: to[self.start],
            rules: self.rules.iter().map(|(l, r)| (to[*l], r.iter().map(|&s| to[s]).collect())).collect(),
        }
    }

    /// No empty rules, and unit rules lead to symbols declared later.
    pub fn is_ordered(&self) -> bool {
        self.rules.iter().all(|(l, r)| !r.is_empty() && !(r.len() == 1 && r[0] <= *l))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// Anything without cycles.
    Any,
    /// No empty rules.
    NoEmpty,
    /// Many empty rules.
    Nulls,
    /// `is_ordered`.
    Ordered,
}

/// Grammars written in a small notation: uppercase letters are nonterminals (the first one is the
/// start symbol), lowercase letters terminals, `|` separates alternatives.
pub fn parse_gr(text: &str) -> Gr {
    let mut names: Vec<char> = vec![];
    let id = |c: char, names: &mut Vec<char>| -> usize {
        if let Some(i) = names.iter().position(|&x| x == c) {
            i
        } else {
            names.push(c);
            names.len() - 1
        }
    };
    let mut rules = vec![];
    for rule in text.split(';') {
        let rule: Vec<char> = rule.chars().filter(|c| !c.is_whitespace()).collect();
        if rule.is_empty() {
            continue;
        }
        let lhs = id(rule[0], &mut names);
        assert_eq!(rule[1], '=');
        for alt in rule[2..].split(|&c| c == '|') {
            let rhs: Vec<usize> = alt.iter().map(|&c| id(c, &mut names)).collect();
            rules.push((lhs, rhs));
        }
    }
    Gr { nsyms: names.len(), start: 0, rules }
}

pub const FAMILIES: &[(&str, &str)] = &[
    ("left list", "S=Sa|a"),
    ("right list", "S=aS|a"),
    ("left list with separator", "S=Ssa|a"),
    ("nullable left list", "S=Sa|"),
    ("nullable right list", "S=aS|"),
    ("middle recursion", "S=aSa|b"),
    ("palindromes", "S=aSa|bSb|a|b|"),
    ("even palindromes", "S=aSa|bSb|"),
    ("dyck", "S=aSbS|"),
    ("dyck nonempty", "S=SS|ab|aSb"),
    ("binary trees", "S=SS|a"),
    ("ternary and binary trees", "S=SSS|SS|a"),
    ("ambiguous expressions", "S=SpS|SmS|n"),
    ("expressions", "E=EpT|T;T=TmF|F;F=oEc|n"),
    ("expressions with unary", "E=EpT|T;T=TmF|F;F=dF|oEc|n"),
    ("anbncm", "S=AC;A=aAb|;C=Cc|"),
    ("ambiguous union", "S=X|Y;X=XXx|;Y=a"),
    ("two splits", "S=AC|DB;A=aAb|ab;C=cC|c;D=aD|a;B=bBc|bc"),
    ("dangling else", "S=iS|iSeS|a"),
    ("nested unit chain", "S=A;A=B|a;B=C|b;C=D|c;D=oSc|d"),
    ("long rule", "S=aBcDeFgH;B=b|;D=d|;F=f|;H=h|"),
    ("all nullable long rule", "S=ABCDE;A=a|;B=b|;C=c|;D=d|;E=e|"),
    ("hidden left recursion", "S=NSx|y;N=n|"),
    ("hidden right recursion", "S=xSN|y;N=n|"),
    ("nullable tail", "S=aAB;A=b|;B=c|"),
    ("json like", "V=oPc|lAr|n|s;P=M|;M=MkQ|Q;Q=sdV;A=L|;L=LkV|V"),
    ("statements", "P=PS|;S=iwS|ixSeS|bPd|Et;E=EpF|F;F=n|oEc"),
    ("nullable pair", "S=AA;A=a|"),
    ("nullable triple", "S=AAA;A=a|aa|"),
    ("mutual left recursion", "S=Aa|b;A=Sc|d"),
    ("mutual right recursion", "S=aA|b;A=cS|d"),
    ("equal rules", "S=AB|CD;A=a;B=b;C=a;D=b"),
    ("unary over nullable", "S=AB;A=C|;C=c|;B=S|"),
];

/// Grammars of the domain: productive start symbol, no cycles.
pub fn in_domain(g: &Gr) -> bool {
    let an = An::new(g);
    an.productive[g.start] && !an.is_term[g.start] && !an.cyclic
}

fn random_rules(rng: &mut Rng, style: Style) -> Gr {
    let nn = rng.range(1, 6);
    let nt = rng.range(1, 4);
    let mut rules = vec![];
    // Nonterminals 0..nn, terminals nn..nn+nt, before permutation.
    let w: [u64; 7] = match style {
        Style::Any => [8, 25, 34, 20, 8, 3, 2],
        Style::Nulls => [26, 16, 28, 18, 7, 3, 2],
        Style::NoEmpty | Style::Ordered => [0, 26, 40, 20, 8, 4, 2],
    };
    let term_bias = rng.range(25, 75) as u64;
    for a in 0..nn {
        for _ in 0..rng.weighted(&[3, 4, 3, 1]) + 1 {
            let len = rng.weighted(&w);
            let rhs = (0..len)
                .map(|_| if rng.chance(term_bias, 100) { nn + rng.below(nt) } else { rng.below(nn) })
                .collect::<Vec<_>>();
            rules.push((a, rhs));
        }
    }
    // Sometimes a token that no rule mentions, a symbol that derives nothing, an unreachable one.
    let mut nsyms = nn + nt;
    if rng.chance(1, 4) {
        nsyms += 1;
    }
    if rng.chance(1, 8) {
        let u = nsyms;
        nsyms += 1;
        rules.push((u, vec![u, rng.below(nsyms)]));
        if rng.chance(1, 2) {
            rules.push((rng.below(nn), vec![u, nn]));
        }
    }
    if rng.chance(1, 8) {
        let u = nsyms;
        nsyms += 1;
        rules.push((u, vec![nn]));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut rules);
    }
    let g = Gr { nsyms, start: if rng.chance(3, 4) { 0 } else { rng.below(nn) }, rules };
    permute(rng, &g)
}

pub fn permute(rng: &mut Rng, g: &Gr) -> Gr {
    let mut to: Vec<usize> = (0..g.nsyms).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut to);
    }
    g.permuted(&to)
}

/// Appends a grammar to another; returns where its symbols begin.
fn append(g: &mut Gr, h: &Gr) -> usize {
    let at = g.nsyms;
    g.nsyms += h.nsyms;
    g.rules.extend(h.rules.iter().map(|(l, r)| (l + at, r.iter().map(|s| s + at).collect())));
    at
}

/// Grammars of a large size: many tokens, many nonterminals, long rules or many alternatives.
pub fn widen(rng: &mut Rng, style: Style, base: &Gr) -> (Gr, &'static str) {
    let mut g = base.clone();
    let name = match rng.below(5) {
        0 => {
            // Many tokens, each in one alternative.
            let an = An::new(&g);
            let nts: Vec<usize> = (0..g.nsyms).filter(|&s| !an.is_term[s] && an.useful[s]).collect();
            let pads = *rng.pick(&[20usize, 40, 70, 140, 300]);
            for _ in 0..pads {
                let p = g.nsyms;
                g.nsyms += 1;
                let lhs = *rng.pick(&nts);
                g.rules.push((lhs, vec![p; rng.range(1, 2)]));
            }
            "many tokens"
        }
        1 => {
            // Many grammars side by side, or one after another.
            let mut starts = vec![g.start];
            for _ in 0..rng.range(3, 16) {
                let h = random_rules(rng, style);
                if in_domain(&h) {
                    let at = append(&mut g, &h);
                    starts.push(h.start + at);
                }
            }
            let (top, item) = (g.nsyms, g.nsyms + 1);
            g.nsyms += 2;
            g.start = top;
            if rng.chance(1, 2) {
                for &s in &starts {
                    g.rules.push((top, vec![s]));
                }
                g.nsyms -= 1;
            } else {
                let sep = g.nsyms;
                g.nsyms += 1;
                g.rules.push((top, vec![item]));
                g.rules.push((top, vec![top, sep, item]));
                for &s in &starts {
                    g.rules.push((item, vec![s]));
                }
            }
            "many grammars"
        }
        2 => {
            // One or two long rules.
            let an = An::new(&g);
            let nts: Vec<usize> = (0..g.nsyms).filter(|&s| !an.is_term[s] && an.useful[s]).collect();
            let terms = an.useful_terms();
            for _ in 0..rng.range(1, 2) {
                let len = *rng.pick(&[8usize, 12, 20, 40, 90]);
                let first = g.nsyms;
                g.nsyms += 1;
                let calm = *rng.pick(&nts);
                let mut rhs = vec![first];
                for _ in 0..len {
                    rhs.push(match rng.below(10) {
                        0 => calm,
                        1..=3 if style != Style::NoEmpty && style != Style::Ordered => {
                            // Always empty, or empty or a token.
                            let e = g.nsyms;
                            g.nsyms += 1;
                            g.rules.push((e, vec![]));
                            if rng.chance(1, 2) {
                                let t = g.nsyms;
                                g.nsyms += 1;
                                g.rules.push((e, vec![t]));
                            }
                            e
                        }
                        _ if !terms.is_empty() => *rng.pick(&terms),
                        _ => first,
                    });
                }
                g.rules.push((*rng.pick(&nts), rhs));
            }
            "long rules"
        }
        3 => {
            // A token that many symbols derive, all of them alternatives of one symbol.
            let top = g.nsyms;
            let t = g.nsyms + 1;
            g.nsyms += 2;
            for i in 0..*rng.pick(&[9usize, 17, 33, 70, 130, 260, 300]) {
                if i % 3 == 0 {
                    let m = g.nsyms;
                    g.nsyms += 1;
                    g.rules.push((top, vec![m]));
                    g.rules.push((m, vec![t]));
                } else if i % 3 == 1 {
                    g.rules.push((top, vec![t]));
                } else {
                    let m = g.nsyms;
                    g.nsyms += 1;
                    g.rules.push((top, vec![m, t]));
                    g.rules.push((m, vec![t]));
                }
            }
            let old = g.start;
            g.start = g.nsyms;
            g.nsyms += 1;
            g.rules.push((g.start, vec![top]));
            g.rules.push((g.start, vec![old]));
            if rng.chance(1, 2) {
                g.rules.push((g.start, vec![old, top]));
            }
            "many alternatives"
        }
        _ => {
            // A long way of unit rules, or of nesting, above the start symbol.
            let depth = *rng.pick(&[20usize, 34, 66, 130, 260]);
            let kind = rng.below(3);
            for i in 0..depth {
                let s = g.nsyms;
                g.nsyms += 1;
                g.rules.push((s, vec![g.start]));
                match kind {
                    1 => {
                        let t = g.nsyms;
                        g.nsyms += 1;
                        g.rules.push((s, vec![g.start, t, s]));
                    }
                    2 if i % 8 == 0 => {
                        let t = g.nsyms;
                        g.nsyms += 1;
                        g.rules.push((s, vec![t]));
                    }
                    _ => {}
                }
                g.start = s;
            }
            "many levels"
        }
    };
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.rules);
    }
    (permute(rng, &g), name)
}

/// Turns unit rules around, or drops them, until the grammar is ordered.
fn make_ordered(g: &mut Gr) {
    g.rules.retain(|(l, r)| !r.is_empty() && !(r.len() == 1 && r[0] <= *l));
}

/// A large grammar: C, or the part of C below one of its symbols.
/// The C grammar and the names of its symbols.
fn c_grammar() -> (Vec<&'static str>, Vec<(usize, Vec<usize>)>) {
    let mut names: Vec<&str> = vec![];
    let mut sym = |x: &'static str| match names.iter().position(|&n| n == x) {
        Some(i) => i,
        None => {
            names.push(x);
            names.len() - 1
        }
    };
    let mut rules = vec![];
    for line in include_str!("c_grammar.txt").lines() {
        let (lhs, rhs) = line.split_once(':').unwrap();
        let l = sym(lhs);
        rules.push((l, rhs.split_whitespace().map(|x| sym(x)).collect::<Vec<_>>()));
    }
    (names, rules)
}

fn of_c(rng: &mut Rng) -> (Gr, String) {
    let (names, rules) = c_grammar();
    let start = if rng.chance(1, 2) { 0 } else { rng.pick(&rules).0 };
    let g = Gr { nsyms: names.len(), start, rules };
    (permute(rng, &g), format!("C from {}", names[start]))
}

/// The C grammar and about `n` tokens of a C program, from the beginning of some function on. The text is the
/// benchmark of the repository (a part of GCC), made by `tools/clex.py`.
pub fn c_program(rng: &mut Rng, n: usize) -> (Gr, Vec<usize>) {
    let (names, rules) = c_grammar();
    let text = include_str!("c_program.txt");
    let (terms, text) = text.split_once('\n').unwrap();
    let of: Vec<usize> = terms.split_whitespace().map(|t| names.iter().position(|n| *n == t).unwrap()).collect();
    let chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+,-./:;<=>?@[]^_`{|}~";
    let toks: Vec<usize> = text.chars().filter(|c| *c != '\n').map(|c| of[chars.find(c).unwrap()]).collect();
    let (open, close) = (names.iter().position(|n| *n == "lbrace").unwrap(), names.iter().position(|n| *n == "rbrace").unwrap());
    let semi = names.iter().position(|n| *n == "semicolon").unwrap();
    // Ends of functions.
    let (mut depth, mut ends) = (0i32, vec![0]);
    for (i, &t) in toks.iter().enumerate() {
        depth += (t == open) as i32 - (t == close) as i32;
        if t == close && depth == 0 && toks.get(i + 1) != Some(&semi) {
            ends.push(i + 1);
        }
    }
    let from = *rng.pick(&ends[..ends.len() / 2]);
    let to = if rng.chance(1, 2) { ends.iter().copied().filter(|&e| e <= from + n).max().unwrap() } else { (from + n).min(toks.len()) };
    let to = if to == from { (from + n).min(toks.len()) } else { to };
    let g = Gr { nsyms: names.len(), start: 0, rules };
    (g, toks[from..to].to_vec())
}

pub fn random_gr(rng: &mut Rng, style: Style) -> (Gr, String) {
    // The interpreter is slow, so it gets no large grammars.
    let large = !cfg!(miri);
    for _ in 0..1000 {
        let (mut g, name) = if large && rng.chance(1, 250) {
            of_c(rng)
        } else if rng.chance(1, 4) {
            let (name, text) = *rng.pick(FAMILIES);
            let g = permute(rng, &parse_gr(text));
            (g, name.to_string())
        } else {
            (random_rules(rng, style), "random".to_string())
        };
        let mut name = name;
        if large && rng.chance(1, 40) && in_domain(&g) {
            let (w, how) = widen(rng, style, &g);
            g = w;
            name = format!("{}, {}", name, how);
        }
        if large && rng.chance(1, 300) && in_domain(&g) {
            let n = rng.range(240, 540);
            g = pad(rng, &g, n);
            name = format!("{}, and {} rules more", name, n);
        }
        match style {
            Style::Ordered => make_ordered(&mut g),
            Style::NoEmpty => {
                if g.rules.iter().any(|(_, r)| r.is_empty()) {
                    g.rules.retain(|(_, r)| !r.is_empty());
                }
            }
            Style::Nulls => {
                if !An::new(&g).any_nullable() {
                    continue;
                }
            }
            Style::Any => {}
        }
        if in_domain(&g) {
            let an = An::new(&g);
            // A grammar of nothing but the empty string is rarely interesting.
            if an.nonempty[g.start] || rng.chance(1, 10) {
                return (g, name);
            }
        }
    }
    (parse_gr("S=Sa|a"), "left list".into())
}

/// Adds so many rules of tokens of their own, which move the numbers of the others apart.
pub fn pad(rng: &mut Rng, g: &Gr, n: usize) -> Gr {
    let an = An::new(g);
    let nts: Vec<usize> = (0..g.nsyms).filter(|&s| !an.is_term[s] && an.useful[s]).collect();
    let side = (1..).find(|k| k * k >= n).unwrap();
    let some: Vec<usize> = (0..if n > 10_000 { 1 } else { rng.range(1, 3) }).map(|_| *rng.pick(&nts)).collect();
    // A longer one takes a symbol more, and the preparation is quadratic in those.
    let len = if n < 1000 && rng.chance(1, 4) { 3 } else { 2 };
    let mut more = vec![];
    for i in 0..n {
        let (a, b) = (g.nsyms + i / side, g.nsyms + side + i % side);
        let mut rhs = vec![a, b];
        if len == 3 {
            rhs.push(a);
        }
        more.push((some[i * some.len() / n], rhs));
    }
    let mut rules = g.rules.clone();
    match rng.below(2) {
        0 => rules.extend(more),
        _ => {
            more.extend(rules);
            rules = more;
        }
    }
    Gr { nsyms: g.nsyms + 2 * side, start: g.start, rules }
}

/// One of the rules. When there are very many, those with nonterminals at the ends are preferred.
fn pick_rule(rng: &mut Rng, g: &Gr, an: &An, rules: &[usize]) -> usize {
    let n = rules.len();
    if n > 200 && !rng.chance(1, 16) {
        let mut r = rules[0];
        for _ in 0..6 {
            let k = rng.below(12);
            r = if rng.chance(1, 2) { rules[k] } else { rules[n - 1 - k] };
            if g.rules[r].1.iter().any(|&s| !an.is_term[s]) {
                break;
            }
        }
        return r;
    }
    *rng.pick(rules)
}

/// A random sentence of about the wanted length, when the grammar has long ones.
pub fn long_sentence(rng: &mut Rng, g: &Gr, an: &An, target: usize) -> Option<Vec<usize>> {
    // How much a rule grows: it leads back to its symbol, and to something else besides.
    let n = g.nsyms;
    let mut reach = vec![vec![false; n]; n];
    for (i, (l, r)) in g.rules.iter().enumerate() {
        if an.useful_rule[i] {
            for &s in r {
                reach[*l][s] = true;
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    let grows = |r: usize| {
        let (l, rhs) = &g.rules[r];
        rhs.len() > 1 && rhs.iter().any(|&s| s == *l || reach[s][*l])
    };
    let hopeful = |r: usize| grows(r) || g.rules[r].1.iter().any(|&s| (0..n).any(|x| (x == s || reach[s][x]) && reach[x][x]));
    let mut out = vec![];
    let mut stack = vec![g.start];
    let mut pending = 0usize;
    let mut steps = 0;
    pending += an.min_len[g.start];
    while let Some(s) = stack.pop() {
        pending -= an.min_len[s];
        steps += 1;
        if out.len() > target * 2 || steps > target * 60 {
            return None;
        }
        if an.is_term[s] {
            out.push(s);
            continue;
        }
        let rules: Vec<usize> = an.by_lhs[s].iter().copied().filter(|&r| an.useful_rule[r]).collect();
        let r = if out.len() + pending + an.min_len[s] < target {
            let growing: Vec<usize> = rules.iter().copied().filter(|&r| hopeful(r)).collect();
            if !growing.is_empty() && rng.chance(3, 4) {
                *rng.pick(&growing)
            } else {
                *rng.pick(&rules)
            }
        } else {
            *rules.iter().min_by_key(|&&r| g.rules[r].1.iter().map(|&x| an.height[x]).max().unwrap_or(0)).unwrap()
        };
        for &x in g.rules[r].1.iter().rev() {
            stack.push(x);
            pending += an.min_len[x];
        }
    }
    Some(out)
}

/// Are the sentences of this grammar of few derivations? Long ones are too much otherwise.
fn mild(rng: &mut Rng, g: &Gr, an: &An) -> bool {
    (0..4).all(|_| match long_sentence(rng, g, an, 60) {
        Some(v) => {
            let lat = crate::refr::plain(&v, &(0..v.len() as u32).collect::<Vec<_>>());
            let mut d = crate::refr::Derivs::new(g, an, &lat);
            // What is remembered grows with the square of the length.
            d.sym(g.start, 0, v.len()).sat <= 16 && d.remembered() <= 60_000
        }
        None => false,
    })
}

/// A random sentence, at least when one of about the wanted length comes up.
pub fn sentence(rng: &mut Rng, g: &Gr, an: &An, max: usize) -> Option<Vec<usize>> {
    let max = if g.rules.len() > 10_000 { max.min(24) } else { max };
    if max > 150 {
        return if mild(rng, g, an) { long_sentence(rng, g, an, max) } else { sentence(rng, g, an, 30) };
    }
    for _ in 0..8 {
        let mut out = vec![];
        let mut stack = vec![g.start];
        let mut budget = rng.range(1, 1 + max * 4);
        let mut ok = true;
        while let Some(s) = stack.pop() {
            if an.is_term[s] {
                out.push(s);
                if out.len() > max {
                    ok = false;
                    break;
                }
                continue;
            }
            let pending: usize = stack.iter().map(|&s| an.min_len[s]).sum();
            if out.len() + pending + an.min_len[s] > max {
                ok = false;
                break;
            }
            let rules: Vec<usize> = an.by_lhs[s].iter().copied().filter(|&r| an.useful_rule[r]).collect();
            let r = if budget > 0 {
                budget -= 1;
                pick_rule(rng, g, an, &rules)
            } else {
                *rules.iter().min_by_key(|&&r| g.rules[r].1.iter().map(|&x| an.height[x]).max().unwrap_or(0)).unwrap()
            };
            stack.extend(g.rules[r].1.iter().rev());
        }
        if ok {
            return Some(out);
        }
    }
    None
}

/// A sentence, a sentence with a few errors, or random tokens. `extra` allows tokens that no useful
/// rule mentions.
pub fn input(rng: &mut Rng, g: &Gr, an: &An, max: usize, extra: bool) -> Vec<usize> {
    let terms = if extra { an.terms() } else { an.useful_terms() };
    if terms.is_empty() {
        return vec![];
    }
    let mut v = match rng.below(10) {
        0 => (0..rng.below(max.min(60) + 1)).map(|_| *rng.pick(&terms)).collect(),
        _ => sentence(rng, g, an, max).unwrap_or_default(),
    };
    if rng.chance(4, 10) {
        for _ in 0..rng.range(1, 2) {
            match rng.below(4) {
                0 if !v.is_empty() => {
                    let i = rng.below(v.len());
                    v.remove(i);
                }
                1 if v.len() < max => {
                    let i = rng.below(v.len() + 1);
                    v.insert(i, *rng.pick(&terms));
                }
                2 if !v.is_empty() => {
                    let i = rng.below(v.len());
                    v[i] = *rng.pick(&terms);
                }
                3 if v.len() > 1 => {
                    let i = rng.below(v.len() - 1);
                    v.swap(i, i + 1);
                }
                _ => {}
            }
        }
    }
    v
}
