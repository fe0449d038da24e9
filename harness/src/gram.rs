//! Independent model of grammars: the reference every monitor compares the library with.
//! Nothing in this file calls the library.
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Lookahead: a character, or None for the end of the script.
pub type La = Option<char>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
    T(String),
    N(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ov {
    Inherit,
    Off,
    Use(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nt {
    pub name: String,
    pub alts: Vec<Vec<Sym>>,
    /// False: the name is referred to but there is no rule for it.
    pub defined: bool,
    /// Text between the braces.
    pub action: Option<String>,
    pub ov: Ov,
    /// `$IGNORE: x;` in force where the rule stands.
    pub inherited: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Gram {
    pub nts: Vec<Nt>,
    pub start: usize,
}

impl Gram {
    pub fn nt(name: &str, alts: Vec<Vec<Sym>>) -> Nt {
        Nt {
            name: name.to_string(),
            alts,
            defined: true,
            action: None,
            ov: Ov::Inherit,
            inherited: None,
        }
    }
    pub fn size(&self) -> usize {
        self.nts
            .iter()
            .map(|n| n.alts.iter().map(|a| a.len() + 1).sum::<usize>())
            .sum()
    }
    pub fn ignore_of(&self, i: usize) -> Option<usize> {
        match self.nts[i].ov {
            Ov::Inherit => self.nts[i].inherited,
            Ov::Off => None,
            Ov::Use(x) => Some(x),
        }
    }
    /// Nonterminals reachable from `from`, itself included.
    pub fn reach(&self, from: usize) -> HashSet<usize> {
        let mut seen = HashSet::from([from]);
        let mut todo = vec![from];
        while let Some(i) = todo.pop() {
            for a in &self.nts[i].alts {
                for s in a {
                    if let Sym::N(j) = s
                        && seen.insert(*j)
                    {
                        todo.push(*j);
                    }
                }
            }
        }
        seen
    }
    /// The grammar with ignored productions woven between neighbouring elements.
    pub fn woven(&self) -> Gram {
        let mut g = self.clone();
        let mut reach: BTreeMap<usize, HashSet<usize>> = BTreeMap::new();
        for i in 0..self.nts.len() {
            let Some(x) = self.ignore_of(i) else { continue };
            let r = reach.entry(x).or_insert_with(|| self.reach(x));
            if r.contains(&i) {
                continue;
            }
            for a in &mut g.nts[i].alts {
                let mut out = Vec::new();
                for (k, s) in a.iter().enumerate() {
                    if k > 0 {
                        out.push(Sym::N(x));
                    }
                    out.push(s.clone());
                }
                *a = out;
            }
        }
        for n in &mut g.nts {
            n.ov = Ov::Inherit;
            n.inherited = None;
        }
        g
    }
    pub fn has_undefined(&self) -> bool {
        let refd = self
            .nts
            .iter()
            .flat_map(|n| n.alts.iter().flatten())
            .any(|s| matches!(s, Sym::N(j) if !self.nts[*j].defined));
        refd || !self.nts[self.start].defined
    }
}

pub struct An {
    pub nullable: Vec<bool>,
    pub first: Vec<BTreeSet<char>>,
    pub follow: Vec<BTreeSet<La>>,
    pub predict: Vec<Vec<BTreeSet<La>>>,
    pub left_recursive: Vec<bool>,
    /// (nonterminal, alternative, other alternative, lookahead)
    pub conflict: Option<(usize, usize, usize, La)>,
    pub undefined: bool,
    pub productive: Vec<bool>,
    pub reachable: Vec<bool>,
}

impl An {
    pub fn ll1(&self) -> bool {
        !self.undefined && self.conflict.is_none() && !self.left_recursive.iter().any(|x| *x)
    }
    pub fn all_productive(&self) -> bool {
        self.productive.iter().all(|x| *x)
    }
    pub fn first_of(&self, syms: &[Sym]) -> (BTreeSet<char>, bool) {
        let mut set = BTreeSet::new();
        for s in syms {
            match s {
                Sym::T(t) => {
                    if let Some(c) = t.chars().next() {
                        set.insert(c);
                        return (set, false);
                    }
                }
                Sym::N(j) => {
                    set.extend(self.first[*j].iter().copied());
                    if !self.nullable[*j] {
                        return (set, false);
                    }
                }
            }
        }
        (set, true)
    }
}

/// Textbook analysis by fixpoints, of a grammar without ignores (see `woven`).
pub fn analyse(g: &Gram) -> An {
    let n = g.nts.len();
    let mut a = An {
        nullable: vec![false; n],
        first: vec![BTreeSet::new(); n],
        follow: vec![BTreeSet::new(); n],
        predict: vec![vec![]; n],
        left_recursive: vec![false; n],
        conflict: None,
        undefined: g.has_undefined(),
        productive: vec![false; n],
        reachable: vec![false; n],
    };
    let mut back = false;
    loop {
        let mut ch = false;
        back = !back;
        for i in 0..n {
            // in both directions by turns: long chains settle at once
            let i = if back { n - 1 - i } else { i };
            if !g.nts[i].defined {
                continue;
            }
            for alt in &g.nts[i].alts {
                if !a.productive[i]
                    && alt.iter().all(|s| match s {
                        Sym::T(_) => true,
                        Sym::N(j) => a.productive[*j],
                    })
                {
                    a.productive[i] = true;
                    ch = true;
                }
                let (set, nul) = a.first_of(alt);
                let l = a.first[i].len();
                a.first[i].extend(set);
                ch |= a.first[i].len() != l;
                if nul && !a.nullable[i] {
                    a.nullable[i] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    a.follow[g.start].insert(None);
    loop {
        let mut ch = false;
        for i in 0..n {
            for alt in &g.nts[i].alts {
                for (k, s) in alt.iter().enumerate() {
                    let Sym::N(j) = s else { continue };
                    let (set, nul) = a.first_of(&alt[k + 1..]);
                    let l = a.follow[*j].len();
                    a.follow[*j].extend(set.into_iter().map(Some));
                    if nul && i != *j {
                        let f = a.follow[i].clone();
                        a.follow[*j].extend(f);
                    }
                    ch |= a.follow[*j].len() != l;
                }
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        let mut owner: BTreeMap<La, usize> = BTreeMap::new();
        for (k, alt) in g.nts[i].alts.iter().enumerate() {
            let (set, nul) = a.first_of(alt);
            let mut p: BTreeSet<La> = set.into_iter().map(Some).collect();
            if nul {
                p.extend(a.follow[i].iter().copied());
            }
            for c in &p {
                if let Some(o) = owner.insert(*c, k)
                    && a.conflict.is_none()
                {
                    a.conflict = Some((i, o, k, *c));
                }
            }
            a.predict[i].push(p);
        }
    }
    // left corners
    let mut lc: Vec<HashSet<usize>> = vec![HashSet::new(); n];
    for i in 0..n {
        for alt in &g.nts[i].alts {
            for s in alt {
                match s {
                    Sym::T(t) => {
                        if !t.is_empty() {
                            break;
                        }
                    }
                    Sym::N(j) => {
                        lc[i].insert(*j);
                        if !a.nullable[*j] {
                            break;
                        }
                    }
                }
            }
        }
    }
    for i in 0..n {
        let mut seen = HashSet::new();
        let mut todo: Vec<usize> = lc[i].iter().copied().collect();
        while let Some(j) = todo.pop() {
            if seen.insert(j) {
                todo.extend(lc[j].iter().copied());
            }
        }
        a.left_recursive[i] = seen.contains(&i);
    }
    for i in g.reach(g.start) {
        a.reachable[i] = true;
    }
    a
}

// ---------------------------------------------------------------- Earley

/// Recognises the language of a grammar (without ignores) from the definition of derivation.
pub struct Earley {
    /// rules: (lhs, symbols) with terminals split into characters
    rules: Vec<(usize, Vec<ES>)>,
    by_lhs: Vec<Vec<usize>>,
    nullable: Vec<bool>,
    start: usize,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum ES {
    C(char),
    N(usize),
}

impl Earley {
    pub fn new(g: &Gram, a: &An) -> Earley {
        let mut rules = Vec::new();
        let mut by_lhs = vec![vec![]; g.nts.len()];
        for (i, nt) in g.nts.iter().enumerate() {
            for alt in &nt.alts {
                // unproductive alternatives derive nothing: leave them out so that a non-empty
                // item set means a viable prefix
                if !alt.iter().all(|s| match s {
                    Sym::T(_) => true,
                    Sym::N(j) => a.productive[*j],
                }) {
                    continue;
                }
                let mut v = Vec::new();
                for s in alt {
                    match s {
                        Sym::T(t) => v.extend(t.chars().map(ES::C)),
                        Sym::N(j) => v.push(ES::N(*j)),
                    }
                }
                by_lhs[i].push(rules.len());
                rules.push((i, v));
            }
        }
        Earley {
            rules,
            by_lhs,
            nullable: a.nullable.clone(),
            start: g.start,
        }
    }

    /// (script in language, length of the longest prefix of the script that is a prefix of a
    /// sentence)
    pub fn run(&self, text: &[char]) -> (bool, usize) {
        let mut sets: Vec<Vec<(usize, usize, usize)>> = vec![vec![]];
        let mut seen: HashSet<(usize, usize, usize)> = HashSet::new();
        for &r in &self.by_lhs[self.start] {
            if seen.insert((r, 0, 0)) {
                sets[0].push((r, 0, 0));
            }
        }
        let mut longest = 0;
        for pos in 0..=text.len() {
            let mut next: Vec<(usize, usize, usize)> = vec![];
            let mut next_seen = HashSet::new();
            let mut k = 0;
            while k < sets[pos].len() {
                let (r, dot, from) = sets[pos][k];
                k += 1;
                let (lhs, syms) = &self.rules[r];
                if dot == syms.len() {
                    let mut add = vec![];
                    for &(r2, d2, f2) in &sets[from] {
                        if self.rules[r2].1.get(d2) == Some(&ES::N(*lhs)) {
                            add.push((r2, d2 + 1, f2));
                        }
                    }
                    for it in add {
                        if seen.insert(it) {
                            sets[pos].push(it);
                        }
                    }
                } else {
                    match syms[dot] {
                        ES::C(c) => {
                            if text.get(pos) == Some(&c) {
                                let it = (r, dot + 1, from);
                                if next_seen.insert(it) {
                                    next.push(it);
                                }
                            }
                        }
                        ES::N(j) => {
                            for &r2 in &self.by_lhs[j] {
                                let it = (r2, 0, pos);
                                if seen.insert(it) {
                                    sets[pos].push(it);
                                }
                            }
                            if self.nullable[j] {
                                let it = (r, dot + 1, from);
                                if seen.insert(it) {
                                    sets[pos].push(it);
                                }
                            }
                        }
                    }
                }
            }
            if sets[pos].is_empty() {
                return (false, longest);
            }
            longest = pos;
            if pos < text.len() {
                if next.is_empty() {
                    return (false, longest);
                }
                sets.push(next);
                seen = next_seen;
            }
        }
        let ok = sets[text.len()].iter().any(|&(r, d, f)| {
            f == 0 && self.rules[r].0 == self.start && d == self.rules[r].1.len()
        });
        (ok, longest)
    }
}

// ---------------------------------------------------------------- reference LL(1) parse

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RTree {
    Leaf(String),
    Node(usize, Vec<RTree>),
}

impl RTree {
    pub fn text(&self, out: &mut String) {
        match self {
            RTree::Leaf(t) => out.push_str(t),
            RTree::Node(_, c) => c.iter().for_each(|x| x.text(out)),
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            RTree::Leaf(_) => 1,
            RTree::Node(_, c) => 1 + c.iter().map(RTree::nodes).sum::<usize>(),
        }
    }
    /// Number of rule applications.
    pub fn rules(&self) -> usize {
        match self {
            RTree::Leaf(_) => 0,
            RTree::Node(_, c) => 1 + c.iter().map(RTree::rules).sum::<usize>(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            RTree::Leaf(_) => 1,
            RTree::Node(_, c) => 1 + c.iter().map(RTree::depth).max().unwrap_or(0),
        }
    }
    /// Same shape as the library's trees: a rule is "()" around its children, a leaf its text.
    pub fn shape(&self) -> Shape {
        match self {
            RTree::Leaf(t) => Shape {
                data: t.clone(),
                kids: vec![],
            },
            RTree::Node(_, c) => Shape {
                data: String::new(),
                kids: c.iter().map(RTree::shape).collect(),
            },
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Shape {
    pub data: String,
    pub kids: Vec<Shape>,
}

impl Shape {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }
    fn show_to(&self, s: &mut String) {
        if self.kids.is_empty() && !self.data.is_empty() {
            s.push_str(&format!("{:?}", self.data));
        } else {
            if !self.data.is_empty() {
                s.push_str(&format!("{:?}", self.data));
            }
            s.push('(');
            for (i, k) in self.kids.iter().enumerate() {
                if i > 0 {
                    s.push(' ');
                }
                k.show_to(s);
            }
            s.push(')');
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fail {
    pub pos: usize,
    /// Character at `pos`, None at the end of the script.
    pub chr: La,
    /// What would have been fitting there: the lookahead set of the rule being selected, or the
    /// next character of a terminal. None: nothing (leftover text after a complete derivation).
    pub expected: Option<BTreeSet<La>>,
    /// Failure inside a terminal.
    pub in_terminal: bool,
}

/// What a predictive parse does: completed nonterminals in order, with their subtrees.
pub struct RefRun {
    pub result: Result<RTree, Fail>,
    /// (nonterminal, completed subtree) in completion order
    pub completed: Vec<(usize, RTree)>,
    /// (nonterminal, lookahead, alternative) at each expansion
    pub expansions: Vec<(usize, La, usize)>,
    pub terminals: usize,
}

pub struct RefParser<'g> {
    pub g: &'g Gram,
    table: Vec<BTreeMap<La, usize>>,
    a: &'g An,
    pub keep_subtrees: bool,
}

struct RefState<'t> {
    text: &'t [char],
    pos: usize,
    completed: Vec<(usize, RTree)>,
    expansions: Vec<(usize, La, usize)>,
    terminals: usize,
}

impl<'g> RefParser<'g> {
    /// `g` woven and LL(1).
    pub fn new(g: &'g Gram, a: &'g An) -> RefParser<'g> {
        let table = a
            .predict
            .iter()
            .map(|alts| {
                let mut m = BTreeMap::new();
                for (k, p) in alts.iter().enumerate() {
                    for c in p {
                        m.insert(*c, k);
                    }
                }
                m
            })
            .collect();
        RefParser {
            g,
            table,
            a,
            keep_subtrees: true,
        }
    }
    pub fn run(&self, text: &[char]) -> RefRun {
        let mut st = RefState {
            text,
            pos: 0,
            completed: vec![],
            expansions: vec![],
            terminals: 0,
        };
        let mut result = self.nonterminal(self.g.start, &mut st);
        if result.is_ok() && st.pos < text.len() {
            result = Err(Fail {
                pos: st.pos,
                chr: Some(text[st.pos]),
                expected: None,
                in_terminal: false,
            });
        }
        RefRun {
            result,
            completed: st.completed,
            expansions: st.expansions,
            terminals: st.terminals,
        }
    }
    fn nonterminal(&self, i: usize, st: &mut RefState) -> Result<RTree, Fail> {
        let la = st.text.get(st.pos).copied();
        let Some(&alt) = self.table[i].get(&la) else {
            return Err(Fail {
                pos: st.pos,
                chr: la,
                expected: Some(self.table[i].keys().copied().collect()),
                in_terminal: false,
            });
        };
        st.expansions.push((i, la, alt));
        let mut kids = Vec::new();
        for s in &self.g.nts[i].alts[alt] {
            match s {
                Sym::T(t) => {
                    for c in t.chars() {
                        let la = st.text.get(st.pos).copied();
                        if la != Some(c) {
                            return Err(Fail {
                                pos: st.pos,
                                chr: la,
                                expected: Some(BTreeSet::from([Some(c)])),
                                in_terminal: true,
                            });
                        }
                        st.pos += 1;
                    }
                    st.terminals += 1;
                    kids.push(RTree::Leaf(t.clone()));
                }
                Sym::N(j) => kids.push(self.nonterminal(*j, st)?),
            }
        }
        let t = RTree::Node(i, kids);
        if self.keep_subtrees {
            st.completed.push((i, t.clone()));
        } else {
            st.completed.push((i, RTree::Node(i, vec![])));
        }
        let _ = self.a;
        Ok(t)
    }
}

/// What `RefParser::walk` finds.
pub struct Walk {
    /// Err((position, inside a terminal))
    pub result: Result<(), (usize, bool)>,
    pub max_depth: usize,
    pub completed: usize,
    /// completions per nonterminal
    pub per_rule: Vec<usize>,
    pub nodes: usize,
}

impl RefParser<'_> {
    /// As `run`, but without recursion and without building a tree.
    pub fn walk(&self, text: &[char]) -> Walk {
        let mut w = Walk {
            result: Ok(()),
            max_depth: 0,
            completed: 0,
            per_rule: vec![0; self.g.nts.len()],
            nodes: 0,
        };
        let mut pos = 0;
        // (nonterminal, alternative, symbols done)
        let mut stack: Vec<(usize, usize, usize)> = vec![];
        let mut next = Some(self.g.start);
        loop {
            if let Some(i) = next.take() {
                let la = text.get(pos).copied();
                let Some(&alt) = self.table[i].get(&la) else {
                    w.result = Err((pos, false));
                    return w;
                };
                stack.push((i, alt, 0));
                w.nodes += 1;
                w.max_depth = w.max_depth.max(stack.len());
            }
            let Some((i, alt, dot)) = stack.last_mut() else {
                break;
            };
            match self.g.nts[*i].alts[*alt].get(*dot) {
                None => {
                    w.completed += 1;
                    w.per_rule[*i] += 1;
                    stack.pop();
                }
                Some(Sym::N(j)) => {
                    next = Some(*j);
                    *dot += 1;
                }
                Some(Sym::T(t)) => {
                    *dot += 1;
                    w.nodes += 1;
                    for c in t.chars() {
                        if text.get(pos) != Some(&c) {
                            w.result = Err((pos, true));
                            return w;
                        }
                        pos += 1;
                    }
                }
            }
        }
        if pos < text.len() {
            w.result = Err((pos, false));
        }
        w
    }
}

// ---------------------------------------------------------------- sentences

/// Height of the lowest derivation tree of each nonterminal (usize::MAX if it derives nothing).
pub fn heights(g: &Gram) -> Vec<usize> {
    let mut h = vec![usize::MAX; g.nts.len()];
    loop {
        let mut ch = false;
        for i in 0..g.nts.len() {
            for alt in &g.nts[i].alts {
                let x = alt_height(alt, &h);
                if x != usize::MAX && x + 1 < h[i] {
                    h[i] = x + 1;
                    ch = true;
                }
            }
        }
        if !ch {
            return h;
        }
    }
}
fn alt_height(alt: &[Sym], h: &[usize]) -> usize {
    alt.iter()
        .map(|s| match s {
            Sym::T(_) => 0,
            Sym::N(j) => h[*j],
        })
        .max()
        .unwrap_or(0)
}

/// Nonterminals that can come to derive themselves again.
pub fn growing(g: &Gram) -> Vec<bool> {
    let n = g.nts.len();
    let mut grow: Vec<bool> = (0..n)
        .map(|i| {
            g.nts[i].alts.iter().flatten().any(|s| match s {
                Sym::N(j) => g.reach(*j).contains(&i),
                Sym::T(_) => false,
            })
        })
        .collect();
    loop {
        let mut ch = false;
        for i in 0..n {
            if !grow[i]
                && g.nts[i]
                    .alts
                    .iter()
                    .flatten()
                    .any(|s| matches!(s, Sym::N(j) if grow[*j]))
            {
                grow[i] = true;
                ch = true;
            }
        }
        if !ch {
            return grow;
        }
    }
}

/// Random sentence of the (woven) grammar; about `budget` expansions before it closes.
pub fn sentence(g: &Gram, h: &[usize], rng: &mut Rng, budget: usize) -> Option<String> {
    if h[g.start] == usize::MAX {
        return None;
    }
    let grow = if budget > 12 && rng.chance(3, 4) {
        growing(g)
    } else {
        vec![]
    };
    let mut out = String::new();
    let mut stack = vec![Sym::N(g.start)];
    let mut left = budget;
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => out.push_str(&t),
            Sym::N(i) => {
                let usable: Vec<&Vec<Sym>> = g.nts[i]
                    .alts
                    .iter()
                    .filter(|a| alt_height(a, h) != usize::MAX)
                    .collect();
                let alt = if left == 0 || stack.len() > 400 {
                    usable.into_iter().min_by_key(|a| alt_height(a, h))?
                } else {
                    left -= 1;
                    let more: Vec<&Vec<Sym>> =
                        if grow.is_empty() || rng.chance(1, (budget / 2).max(6)) {
                            vec![]
                        } else {
                            usable
                                .iter()
                                .copied()
                                .filter(|a| a.iter().any(|s| matches!(s, Sym::N(j) if grow[*j])))
                                .collect()
                        };
                    *rng.pick(if more.is_empty() { &usable } else { &more })
                };
                stack.extend(alt.iter().rev().cloned());
            }
        }
        if out.len() > 400_000 {
            return None;
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- rule text

/// Layout choices when a grammar is written down.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Plain,
    Tight,
    Wild,
    /// As Tight, with a part of its own for every alternative.
    Parts,
}

const WS: &[char] = &[
    ' ', ' ', ' ', '\n', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}',
    '\u{2003}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn wild_ws(rng: &mut Rng) -> String {
    let n = match rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => rng.range(0, 5),
        _ => rng.range(0, 12),
    };
    (0..n).map(|_| *rng.pick(WS)).collect()
}

struct W<'r> {
    out: String,
    layout: Layout,
    rng: &'r mut Rng,
    /// White space to be put in one place (Wild only).
    vast: usize,
}
impl W<'_> {
    fn ws(&mut self, plain: &str) {
        match self.layout {
            Layout::Plain => self.out.push_str(plain),
            Layout::Tight | Layout::Parts => {}
            Layout::Wild => {
                let s = wild_ws(self.rng);
                self.out.push_str(&s);
                if self.vast > 0 && self.rng.chance(1, 12) {
                    let c = *self.rng.pick(WS);
                    self.out.extend(std::iter::repeat_n(c, self.vast));
                    self.vast = 0;
                }
            }
        }
    }
    fn need(&mut self) {
        match self.layout {
            Layout::Plain | Layout::Tight | Layout::Parts => self.out.push(' '),
            Layout::Wild => {
                let c = *self.rng.pick(WS);
                self.out.push(c);
                self.ws("");
            }
        }
    }
}

/// Where the action text of each rule begins: (rule name, character position after the stripped
/// whitespace, text without it).
pub struct Rendered {
    pub text: String,
    pub actions: Vec<(String, usize, String)>,
}

pub fn render(g: &Gram, layout: Layout, rng: &mut Rng) -> Rendered {
    render_with(g, layout, rng, 0)
}

/// As `render`, with `vast` characters of white space in one place.
pub fn render_with(g: &Gram, layout: Layout, rng: &mut Rng, vast: usize) -> Rendered {
    let mut w = W {
        out: String::new(),
        layout,
        rng,
        vast,
    };
    let mut actions = vec![];
    let mut cur_dir: Option<usize> = None;
    w.ws("");
    // now and then a rule is given in two parts
    let mut pieces: Vec<Nt> = vec![];
    let mut later: Vec<Nt> = vec![];
    let no_dirs = g.nts.iter().all(|n| n.inherited.is_none());
    for nt in &g.nts {
        if !nt.defined {
            continue;
        }
        let mut nt = nt.clone();
        if layout == Layout::Parts
            && no_dirs
            && nt.ov == Ov::Inherit
            && nt.action.is_none()
            && nt.alts.len() > 1
        {
            for a in nt.alts.split_off(1) {
                let mut part = nt.clone();
                part.alts = vec![a];
                later.push(part);
            }
        }
        if layout == Layout::Wild
            && no_dirs
            && nt.ov == Ov::Inherit
            && nt.action.is_none()
            && nt.alts.len() > 1
            && w.rng.chance(1, 8)
        {
            let k = w.rng.range(1, nt.alts.len() - 1);
            let mut second = nt.clone();
            second.alts = nt.alts.split_off(k);
            later.push(second);
        }
        pieces.push(nt);
    }
    pieces.append(&mut later);
    for nt in &pieces {
        // a rule that inherits needs the right directive in force
        if nt.ov == Ov::Inherit && nt.inherited != cur_dir {
            let x = nt
                .inherited
                .expect("a directive cannot be switched off again");
            w.out.push_str("$IGNORE");
            w.ws("");
            w.out.push(':');
            w.ws(" ");
            w.out.push_str(&g.nts[x].name.clone());
            w.ws("");
            w.out.push(';');
            w.ws("\n");
            cur_dir = nt.inherited;
        }
        w.out.push_str(&nt.name);
        w.ws(" ");
        w.out.push_str("->");
        w.ws(" ");
        match nt.ov {
            Ov::Inherit => {}
            Ov::Off => {
                w.out.push_str("$[");
                w.ws("");
                w.out.push_str("IGNORE");
                w.ws("");
                w.out.push(':');
                w.ws("");
                w.out.push('#');
                w.ws("");
                w.out.push(']');
                w.ws(" ");
            }
            Ov::Use(x) => {
                w.out.push_str("$[");
                w.ws("");
                w.out.push_str("IGNORE");
                w.ws("");
                w.out.push(':');
                w.ws("");
                w.out.push_str(&g.nts[x].name.clone());
                w.ws("");
                w.out.push(']');
                w.ws(" ");
            }
        }
        for (k, alt) in nt.alts.iter().enumerate() {
            if k > 0 {
                w.ws(" ");
                w.out.push('|');
                w.ws(" ");
            }
            if alt.is_empty() {
                w.out.push('#');
            }
            let mut prev_name = false;
            for (j, s) in alt.iter().enumerate() {
                match s {
                    Sym::T(t) => {
                        if j > 0 {
                            w.ws(" ");
                        }
                        w.out.push('"');
                        w.out.push_str(t);
                        w.out.push('"');
                        prev_name = false;
                    }
                    Sym::N(x) => {
                        if prev_name {
                            w.need();
                        } else if j > 0 {
                            w.ws(" ");
                        }
                        w.out.push_str(&g.nts[*x].name.clone());
                        prev_name = true;
                    }
                }
            }
        }
        w.ws("");
        if let Some(act) = &nt.action {
            w.ws(" ");
            w.out.push('{');
            let stripped = act.trim_start().to_string();
            w.out.push_str(&act[..act.len() - stripped.len()]);
            actions.push((nt.name.clone(), w.out.chars().count(), stripped.clone()));
            w.out.push_str(&stripped);
            w.out.push('}');
            w.ws("");
        }
        w.out.push(';');
        w.ws("\n");
    }
    if w.vast > 0 {
        w.out.extend(std::iter::repeat_n(' ', w.vast));
    }
    Rendered {
        text: w.out,
        actions,
    }
}

/// Can this text stand between the quotes of a terminal?
pub fn terminal_writable(t: &str) -> bool {
    let mut esc = false;
    for c in t.chars() {
        if c == '"' && !esc {
            return false;
        }
        esc = c == '\\' && !esc;
    }
    !esc
}

/// Can this text stand between the braces of an action section?
pub fn action_writable(t: &str) -> bool {
    let mut prev = ' ';
    for c in t.trim_start().chars() {
        if c == '}' && prev != '\\' {
            return false;
        }
        prev = c;
    }
    prev != '\\'
}

// ---------------------------------------------------------------- reading rule text

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ReadErr {
    /// Not in the notation; the position is where the text stops being a prefix of rule text.
    Malformed(usize),
    /// Something the notation's description leaves open.
    Open(&'static str),
}

struct R<'t> {
    t: &'t [char],
    p: usize,
}
impl R<'_> {
    fn peek(&self) -> Option<char> {
        self.t.get(self.p).copied()
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(char::is_whitespace) {
            self.p += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let r = self.peek() == Some(c);
        if r {
            self.p += 1;
        }
        r
    }
    fn need(&mut self, c: char) -> Result<(), ReadErr> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(ReadErr::Malformed(self.p))
        }
    }
    fn name(&mut self) -> Result<String, ReadErr> {
        let b = self.p;
        if !self.peek().is_some_and(char::is_alphabetic) {
            return Err(ReadErr::Malformed(self.p));
        }
        while self.peek().is_some_and(|c| c.is_alphanumeric() || c == '_') {
            self.p += 1;
        }
        Ok(self.t[b..self.p].iter().collect())
    }
}

/// Rule text as the documentation describes it. `start` is the rule named "start", or an
/// undefined nonterminal of that name.
pub fn read(text: &str) -> Result<Gram, ReadErr> {
    let chars: Vec<char> = text.chars().collect();
    let mut r = R { t: &chars, p: 0 };
    let mut g = Gram::default();
    let mut ix: BTreeMap<String, usize> = BTreeMap::new();
    fn get(g: &mut Gram, ix: &mut BTreeMap<String, usize>, n: &str) -> usize {
        *ix.entry(n.to_string()).or_insert_with(|| {
            let mut nt = Gram::nt(n, vec![]);
            nt.defined = false;
            g.nts.push(nt);
            g.nts.len() - 1
        })
    }
    let mut dir: Option<usize> = None;
    loop {
        r.ws();
        if r.peek().is_none() {
            break;
        }
        if r.eat('$') {
            if r.name()? != "IGNORE" {
                return Err(ReadErr::Malformed(r.p));
            }
            r.ws();
            r.need(':')?;
            r.ws();
            let n = r.name()?;
            r.ws();
            r.need(';')?;
            dir = Some(get(&mut g, &mut ix, &n));
            continue;
        }
        let name = r.name()?;
        let i = get(&mut g, &mut ix, &name);
        r.ws();
        r.need('-')?;
        r.need('>')?;
        r.ws();
        let mut ov = Ov::Inherit;
        if r.eat('$') {
            r.need('[')?;
            r.ws();
            let n = r.name()?;
            r.ws();
            r.need(':')?;
            r.ws();
            if n != "IGNORE" {
                // it says nothing about ignoring, so nothing can follow
                if r.peek() != Some(']') {
                    return Err(ReadErr::Malformed(r.p));
                }
                return Err(ReadErr::Open("override other than IGNORE"));
            }
            if r.eat('#') {
                ov = Ov::Off;
            } else {
                let n = r.name()?;
                ov = Ov::Use(get(&mut g, &mut ix, &n));
            }
            r.ws();
            r.need(']')?;
        }
        let mut alts = vec![];
        loop {
            let mut alt = vec![];
            loop {
                r.ws();
                match r.peek() {
                    Some('#') => {
                        if !alt.is_empty() {
                            return Err(ReadErr::Malformed(r.p));
                        }
                        r.p += 1;
                        break;
                    }
                    Some('"') => {
                        r.p += 1;
                        let mut t = String::new();
                        loop {
                            match r.peek() {
                                None => return Err(ReadErr::Malformed(r.p)),
                                Some('"') => {
                                    r.p += 1;
                                    break;
                                }
                                Some('\\') => {
                                    t.push('\\');
                                    r.p += 1;
                                    match r.peek() {
                                        None => return Err(ReadErr::Malformed(r.p)),
                                        Some(c) => {
                                            t.push(c);
                                            r.p += 1;
                                        }
                                    }
                                }
                                Some(c) => {
                                    t.push(c);
                                    r.p += 1;
                                }
                            }
                        }
                        alt.push(Sym::T(t));
                    }
                    Some(c) if c.is_alphabetic() => {
                        let n = r.name()?;
                        alt.push(Sym::N(get(&mut g, &mut ix, &n)));
                    }
                    _ => {
                        if alt.is_empty() {
                            return Err(ReadErr::Malformed(r.p));
                        }
                        break;
                    }
                }
            }
            alts.push(alt);
            r.ws();
            if !r.eat('|') {
                break;
            }
        }
        let mut action = None;
        if r.eat('{') {
            r.ws();
            let mut t = String::new();
            let mut prev = ' ';
            loop {
                match r.peek() {
                    None => return Err(ReadErr::Malformed(r.p)),
                    Some('}') if prev != '\\' => {
                        r.p += 1;
                        break;
                    }
                    Some(c) => {
                        t.push(c);
                        prev = c;
                        r.p += 1;
                    }
                }
            }
            action = Some(t);
        }
        r.ws();
        r.need(';')?;
        if g.nts[i].defined {
            // a second rule for the same name adds its alternatives
            if action.is_some() || g.nts[i].action.is_some() {
                return Err(ReadErr::Open("actions of a rule given in parts"));
            }
            let same = g.nts[i].ov == ov && (ov != Ov::Inherit || g.nts[i].inherited == dir);
            if !same {
                return Err(ReadErr::Open("ignores of a rule given in parts"));
            }
            g.nts[i].alts.extend(alts);
        } else {
            let nt = &mut g.nts[i];
            nt.alts = alts;
            nt.defined = true;
            nt.action = action;
            nt.ov = ov;
            nt.inherited = dir;
        }
    }
    g.start = get(&mut g, &mut ix, "start");
    Ok(g)
}
