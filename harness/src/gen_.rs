//! Generators: grammars, scripts, texts.
use crate::gram::*;
use crate::util::{Rng, near};
use std::collections::BTreeSet;

pub const ODD: &[char] = &[
    'é',
    'ß',
    'ı',
    'İ',
    '漢',
    '字',
    'Ω',
    'ǅ',
    '😀',
    '🦀',
    '\u{301}',
    '\u{200d}',
    '\u{feff}',
    '\u{5d0}',
    '\u{0}',
    '\u{1}',
    '\u{7f}',
    '\u{80}',
    '\u{ff}',
    '\u{7ff}',
    '\u{800}',
    '\u{d7ff}',
    '\u{e000}',
    '\u{fffd}',
    '\u{ffff}',
    '\u{10000}',
    '\u{10ffff}',
    '\u{a0}',
    '\u{2028}',
    '\u{3000}',
];
pub const PUNCT: &[char] = &[
    '+', '-', '*', '/', '(', ')', '[', ']', '{', '}', '<', '>', '|', '#', '$', ':', ';', ',', '.',
    '=', '!', '?', '&', '%', '@', '^', '~', '`', '\'', '_', '"', '\\',
];

pub fn any_char(rng: &mut Rng) -> char {
    match rng.below(10) {
        0..=3 => char::from(b'a' + rng.below(26) as u8),
        4 => char::from(b'A' + rng.below(26) as u8),
        5 => char::from(b'0' + rng.below(10) as u8),
        6 => *rng.pick(PUNCT),
        7 => *rng.pick(&[' ', '\n', '\t', '\r']),
        8 => *rng.pick(ODD),
        _ => loop {
            let hi = *rng.pick(&[0x80, 0x800, 0x3000, 0x10000, 0x110000]);
            if let Some(c) = char::from_u32(rng.below(hi) as u32) {
                break c;
            }
        },
    }
}

/// A character that careless code may take for this one: equal in all but one bit or in its low bits,
/// of the other case, full width, or with the same value as a digit.
pub fn kin(rng: &mut Rng, c: char) -> char {
    let n = c as u32;
    for _ in 0..12 {
        let k = match rng.below(8) {
            0..=2 => Some(n ^ (1 << rng.below(21))),
            3 => Some(n & 0xff),
            4 => Some(n & 0xffff),
            5 => c.to_uppercase().next().map(|c| c as u32),
            6 => c.to_lowercase().next().map(|c| c as u32),
            _ => Some(n.wrapping_add(*rng.pick(&[0xfee0, 0x630, 0x100, 0x10000, 0x80]))),
        };
        if let Some(k) = k.and_then(char::from_u32)
            && k != c
        {
            return k;
        }
    }
    '\u{301}'
}

/// A number a careless comparison could take for `n`: equal in all but a bit, or in the low bits.
pub fn kin_num(rng: &mut Rng, n: usize) -> usize {
    match rng.below(6) {
        0 => n ^ (1 << rng.below(64)),
        1 => n ^ (1 << *rng.pick(&[8, 16, 31, 32, 63])),
        2 => n.wrapping_add(*rng.pick(&[
            1 << 8,
            1 << 16,
            1 << 24,
            1 << 31,
            1 << 32,
            1 << 48,
            1 << 63,
        ])),
        3 => n & *rng.pick(&[0x7f, 0xff, 0xffff, 0x7fff_ffff, 0xffff_ffff]),
        4 => !n,
        _ => n.rotate_left(32),
    }
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub chars: Vec<char>,
}

impl Pool {
    /// A pool of characters to build terminals from.
    pub fn new(rng: &mut Rng) -> Pool {
        let chars = match rng.below(9) {
            8 => {
                let mut v: Vec<char> = (0..rng.range(2, 5)).map(|_| any_char(rng)).collect();
                for i in 0..rng.range(2, 12) {
                    let c = kin(rng, v[i % v.len()]);
                    v.push(c);
                }
                v
            }
            0 | 1 => "abc".chars().collect(),
            2 => "abcdefghijklmnopqrstuvwxyz".chars().collect(),
            3 => "ab01 +-(){};|#$".chars().collect(),
            4 => {
                let mut v: Vec<char> = PUNCT.to_vec();
                v.extend("abxyz019 \n\t".chars());
                v
            }
            5 => {
                let mut v: Vec<char> = ODD.to_vec();
                v.extend("ab".chars());
                v
            }
            _ => {
                let n = rng.range(3, 30);
                (0..n).map(|_| any_char(rng)).collect()
            }
        };
        Pool { chars }
    }
    pub fn pick(&self, rng: &mut Rng) -> char {
        *rng.pick(&self.chars)
    }
}

/// A terminal text that begins with `first` and can be written in rule text.
pub fn terminal_from(rng: &mut Rng, pool: &Pool, first: char, long: bool) -> String {
    let n = match rng.below(12) {
        0..=5 => 0,
        6..=8 => 1,
        9 => 2,
        10 => rng.range(2, 6),
        _ => {
            if long {
                *rng.pick(&[7, 15, 16, 17, 31, 33, 64, 65, 100, 255, 256, 257, 300])
            } else {
                rng.range(1, 4)
            }
        }
    };
    let mut t = String::from(first);
    for _ in 0..n {
        t.push(pool.pick(rng));
    }
    writable(&t)
}

/// The nearest text that can be written as a terminal.
pub fn writable(t: &str) -> String {
    let mut o = String::new();
    let mut esc = false;
    for c in t.chars() {
        if c == '"' && !esc {
            o.push('\\');
        }
        o.push(c);
        esc = c == '\\' && !esc;
    }
    if esc {
        o.push('\\');
    }
    o
}

pub fn names(rng: &mut Rng, n: usize) -> Vec<String> {
    let style = rng.below(6);
    let mut out: Vec<String> = vec![];
    let mut seen = BTreeSet::from(["start".to_string()]);
    while out.len() < n {
        let i = out.len();
        let s = match style {
            0 => format!("n{i}"),
            1 => format!("rule_{i}"),
            2 => {
                let base = ["start", "Start", "starts", "sta", "s"];
                format!("{}_{}", base[i % 5], i)
            }
            3 => {
                // prefixes of each other
                "x".repeat(i % 40 + 1) + &"1".repeat(i / 40)
            }
            4 => {
                const A: &[char] = &['é', 'ß', '漢', 'Ω', 'a', 'Z', 'ж', 'ñ', 'ǅ', 'ª'];
                const B: &[char] = &['é', '漢', 'a', 'Z', '_', '0', '9', '٣', 'ж', '²', '½'];
                let k = rng.range(0, 4);
                let mut s = String::from(*rng.pick(A));
                for _ in 0..k {
                    s.push(*rng.pick(B));
                }
                s
            }
            _ => {
                let k = rng.range(1, 3);
                let mut s = String::new();
                for _ in 0..k {
                    s.push(char::from(b'a' + rng.below(6) as u8));
                }
                if rng.chance(1, 4) {
                    s.push('_');
                }
                s
            }
        };
        let s = if seen.contains(&s) {
            format!("{s}_{i}")
        } else {
            s
        };
        if seen.insert(s.clone()) {
            out.push(s);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nts: usize,
    pub alts: usize,
    pub len: usize,
    /// of 100
    pub eps: usize,
    pub empty_terminals: bool,
    pub productive: bool,
    pub long_terminals: bool,
}

impl Cfg {
    pub fn random(rng: &mut Rng) -> Cfg {
        let (nts, alts, len) = match rng.below(20) {
            0..=7 => (rng.range(1, 4), 3, 3),
            8..=14 => (rng.range(3, 8), 4, 4),
            15..=17 => (rng.range(6, 16), 5, 6),
            18 => (rng.range(1, 3), rng.range(10, 60), 2),
            _ => (rng.range(20, 60), 3, 4),
        };
        Cfg {
            nts,
            alts,
            len,
            eps: *rng.pick(&[0, 15, 30, 30, 50, 70]),
            empty_terminals: rng.chance(1, 6),
            productive: true,
            long_terminals: rng.chance(1, 5),
        }
    }
}

/// Any grammar at all (without ignores): may be left recursive, ambiguous, ...
pub fn raw_grammar(rng: &mut Rng, cfg: &Cfg, pool: &Pool) -> Gram {
    let mut ns = names(rng, cfg.nts);
    let start = rng.below(cfg.nts);
    ns[start] = "start".to_string();
    let mut nts = vec![];
    for (i, name) in ns.iter().enumerate() {
        let k = rng.range(1, cfg.alts);
        let mut alts: Vec<Vec<Sym>> = vec![];
        let mut firsts: Vec<char> = pool.chars.clone();
        rng.shuffle(&mut firsts);
        for _ in 0..k {
            if rng.chance(cfg.eps, 100) && !alts.iter().any(Vec::is_empty) {
                alts.push(vec![]);
                continue;
            }
            let len = rng.range(1, cfg.len);
            let mut alt = vec![];
            for p in 0..len {
                let nonterminal = rng.chance(if p == 0 { 40 } else { 55 }, 100);
                if nonterminal && p == 0 {
                    // mostly later rules first, so that left recursion is rare
                    let lo = if rng.chance(9, 10) { i + 1 } else { 0 };
                    if lo < cfg.nts {
                        alt.push(Sym::N(rng.range(lo, cfg.nts - 1)));
                        continue;
                    }
                } else if nonterminal {
                    alt.push(Sym::N(rng.below(cfg.nts)));
                    continue;
                }
                if cfg.empty_terminals && rng.chance(1, 8) {
                    alt.push(Sym::T(String::new()));
                    continue;
                }
                let first = if p == 0 {
                    firsts.pop().unwrap_or_else(|| pool.pick(rng))
                } else {
                    pool.pick(rng)
                };
                // sometimes the text of a terminal is the name of a rule
                let t = if rng.chance(1, 25) {
                    rng.pick(&ns).clone()
                } else {
                    terminal_from(rng, pool, first, cfg.long_terminals)
                };
                alt.push(Sym::T(t));
            }
            alts.push(alt);
        }
        nts.push(Gram::nt(name, alts));
    }
    Gram { nts, start }
}

fn fresh(rng: &mut Rng, a: &An, i: usize, pool: &Pool) -> char {
    let used: BTreeSet<char> = a.predict[i].iter().flatten().filter_map(|c| *c).collect();
    for _ in 0..8 {
        let c = pool.pick(rng);
        if !used.contains(&c) {
            return c;
        }
    }
    let mut c = 'a';
    loop {
        if !used.contains(&c) {
            return c;
        }
        c = char::from_u32(c as u32 + 1).unwrap_or('\u{1000}');
    }
}

/// Changes a grammar until it is LL(1) (and, if asked, every rule derives something).
pub fn repair(mut g: Gram, rng: &mut Rng, pool: &Pool, productive: bool) -> Option<Gram> {
    for _ in 0..400 {
        let a = analyse(&g);
        if let Some(i) = a.left_recursive.iter().position(|x| *x) {
            let alts = &mut g.nts[i].alts;
            let cands: Vec<usize> = (0..alts.len())
                .filter(|k| {
                    alts[*k]
                        .iter()
                        .take_while(|s| match s {
                            Sym::T(t) => t.is_empty(),
                            Sym::N(_) => true,
                        })
                        .count()
                        > 0
                })
                .collect();
            let k = *rng.pick(&cands);
            let c = fresh(rng, &a, i, pool);
            g.nts[i].alts[k].insert(0, Sym::T(writable(&c.to_string())));
            continue;
        }
        if let Some((i, o, k, _)) = a.conflict {
            let which = if rng.chance(1, 2) { o } else { k };
            let alts = &mut g.nts[i].alts;
            if alts.len() > 1 && (alts[which].is_empty() || rng.chance(1, 3)) {
                alts.remove(which);
            } else {
                let c = fresh(rng, &a, i, pool);
                let t = writable(&c.to_string());
                match alts[which].first_mut() {
                    Some(Sym::T(s)) if rng.chance(1, 2) => *s = t,
                    _ => alts[which].insert(0, Sym::T(t)),
                }
            }
            continue;
        }
        if productive && let Some(i) = a.productive.iter().position(|x| !*x) {
            let c = fresh(rng, &a, i, pool);
            let alt = if rng.chance(1, 3) {
                vec![]
            } else {
                vec![Sym::T(writable(&c.to_string()))]
            };
            g.nts[i].alts.push(alt);
            continue;
        }
        return Some(g);
    }
    None
}

pub fn ll1_grammar(rng: &mut Rng) -> Gram {
    loop {
        if rng.chance(1, 4) {
            return shaped(rng);
        }
        if rng.chance(1, 8) {
            let mut g = curated_gram(rng);
            g = g.woven();
            return g;
        }
        let cfg = Cfg::random(rng);
        let pool = Pool::new(rng);
        let g = raw_grammar(rng, &cfg, &pool);
        if let Some(g) = repair(g, rng, &pool, cfg.productive) {
            return g;
        }
    }
}

fn t(s: &str) -> Sym {
    Sym::T(s.to_string())
}

/// Grammars of particular shapes, each LL(1).
pub fn shaped(rng: &mut Rng) -> Gram {
    let mut cs: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
    if rng.chance(1, 3) {
        let mut extra: Vec<char> = (0x4e00..0x4e00 + 300u32)
            .filter_map(char::from_u32)
            .collect();
        cs.append(&mut extra);
    }
    rng.shuffle(&mut cs);
    let c = |i: usize| cs[i % cs.len()].to_string();
    let g = match rng.below(9) {
        0 => {
            // nullable rules in a row
            let n = rng.range(2, 30);
            let mut nts = vec![Gram::nt(
                "start",
                (0..1).map(|_| (1..=n).map(Sym::N).collect()).collect(),
            )];
            for i in 1..=n {
                let mut alts = vec![vec![t(&c(i))], vec![]];
                if rng.chance(1, 3) {
                    alts[0].push(Sym::N(i));
                }
                if rng.chance(1, 2) {
                    alts.swap(0, 1);
                }
                nts.push(Gram::nt(&format!("n{i}"), alts));
            }
            Gram { nts, start: 0 }
        }
        1 => {
            // chain of single references
            let n = rng.range(2, 120);
            let mut nts = vec![];
            for i in 0..n {
                let alt = if i + 1 < n {
                    vec![Sym::N(i + 1)]
                } else {
                    vec![t("x")]
                };
                let name = if i == 0 {
                    "start".into()
                } else {
                    format!("n{i}")
                };
                let mut alts = vec![alt];
                if rng.chance(1, 20) && i + 1 < n {
                    alts.push(vec![t(&format!("{}!", cs[i % cs.len()]))]);
                }
                nts.push(Gram::nt(&name, alts));
            }
            Gram { nts, start: 0 }
        }
        2 => {
            // many alternatives
            let n = rng.range(10, 62.min(cs.len()));
            let alts = (0..n).map(|i| vec![t(&(c(i) + &c(i + 1)))]).collect();
            let mut nts = vec![
                Gram::nt("start", vec![vec![Sym::N(1), Sym::N(2)]]),
                Gram::nt("word", alts),
                Gram::nt("rest", vec![vec![t(" "), Sym::N(1), Sym::N(2)], vec![]]),
            ];
            if rng.chance(1, 2) {
                nts.swap(0, 2);
                for nt in &mut nts {
                    for s in nt.alts.iter_mut().flatten() {
                        if let Sym::N(j) = s {
                            *j = [2, 1, 0][*j];
                        }
                    }
                }
                return fix(Gram { nts, start: 2 }, rng);
            }
            Gram { nts, start: 0 }
        }
        3 => {
            // one long alternative
            let n = rng.range(20, 150);
            let alt = (0..n)
                .map(|i| if i % 3 == 2 { Sym::N(1) } else { t(&c(i)) })
                .collect();
            Gram {
                nts: vec![
                    Gram::nt("start", vec![alt]),
                    Gram::nt("o", vec![vec![t("?")], vec![]]),
                ],
                start: 0,
            }
        }
        4 => {
            // rules that end in each other: FOLLOW travels around a cycle
            let n = rng.range(3, 25);
            let mut nts = vec![];
            for i in 0..n {
                let mut alts = vec![vec![t(&c(2 * i)), Sym::N((i + 1) % n)]];
                if rng.chance(2, 3) || i == n - 1 {
                    alts.push(vec![]);
                }
                if rng.chance(1, 4) {
                    alts.push(vec![
                        t(&c(2 * i + 1)),
                        Sym::N(rng.below(n)),
                        t("."),
                        Sym::N(rng.below(n)),
                    ]);
                }
                let name = if i == 0 {
                    "start".into()
                } else {
                    format!("n{i}")
                };
                nts.push(Gram::nt(&name, alts));
            }
            Gram { nts, start: 0 }
        }
        5 => {
            // nested brackets of several kinds
            let k = rng.range(1, 6);
            let mut alts: Vec<Vec<Sym>> = (0..k)
                .map(|i| {
                    let open = c(2 * i);
                    let close = if rng.chance(1, 4) {
                        open.clone() + &open
                    } else {
                        c(2 * i + 1)
                    };
                    vec![t(&open), Sym::N(0), t(&close), Sym::N(0)]
                })
                .collect();
            if alts.iter().any(|a| a[0] == a[2]) || k == 0 {
                alts.truncate(1);
            }
            alts.push(vec![]);
            let g = Gram {
                nts: vec![Gram::nt("start", alts)],
                start: 0,
            };
            return fix(g, rng);
        }
        6 => {
            // lists of lists with separators
            let d = rng.range(1, 6);
            let mut nts = vec![Gram::nt("start", vec![vec![Sym::N(1)]])];
            for i in 0..d {
                let item = nts.len();
                let next = item + 2;
                nts.push(Gram::nt(
                    &format!("list{i}"),
                    vec![vec![Sym::N(next), Sym::N(item + 1)]],
                ));
                nts.push(Gram::nt(
                    &format!("more{i}"),
                    vec![vec![t(&c(i)), Sym::N(next), Sym::N(item + 1)], vec![]],
                ));
            }
            nts.push(Gram::nt("leaf", vec![vec![t("_")], vec![t("__x")]]));
            let last = nts.len() - 1;
            nts[last].alts.truncate(1);
            Gram { nts, start: 0 }
        }
        7 => {
            // alternatives that begin with rules, some of them nullable in front
            let n = rng.range(2, 10);
            let mut nts = vec![Gram::nt("start", vec![])];
            for i in 0..n {
                let base = nts.len();
                nts[0].alts.push(vec![Sym::N(base), Sym::N(base + 1)]);
                nts.push(Gram::nt(
                    &format!("opt{i}"),
                    vec![vec![t(&c(2 * i))], vec![]],
                ));
                nts.push(Gram::nt(
                    &format!("must{i}"),
                    vec![vec![t(&c(2 * i + 1)), Sym::N(base)]],
                ));
            }
            if rng.chance(1, 3) {
                nts[0].alts.push(vec![]);
            }
            Gram { nts, start: 0 }
        }
        _ => {
            // alternatives made of nullable rules only
            let n = rng.range(1, 5);
            let mut nts = vec![Gram::nt("start", vec![vec![Sym::N(1), t(".")]])];
            nts.push(Gram::nt("sel", vec![]));
            for i in 0..n {
                let x = nts.len();
                nts.push(Gram::nt(
                    &format!("p{i}"),
                    vec![vec![t(&c(3 * i)), Sym::N(x)], vec![]],
                ));
                let mut alt = vec![t(&c(3 * i + 1)), Sym::N(x)];
                if rng.chance(1, 2) {
                    alt.push(Sym::N(x + 0));
                    alt.push(t(&c(3 * i + 2)));
                }
                nts[1].alts.push(alt);
            }
            let x = nts.len();
            nts.push(Gram::nt("na", vec![vec![t("<")], vec![]]));
            nts.push(Gram::nt("nb", vec![vec![t(">")], vec![]]));
            nts[1].alts.push(vec![Sym::N(x), Sym::N(x + 1)]);
            Gram { nts, start: 0 }
        }
    };
    fix(g, rng)
}

fn fix(g: Gram, rng: &mut Rng) -> Gram {
    let pool = Pool {
        chars: "abcdefghijklmnopqrstuvwxyz".chars().collect(),
    };
    let backup = Gram {
        nts: vec![Gram::nt("start", vec![vec![t("x"), Sym::N(0)], vec![]])],
        start: 0,
    };
    repair(g, rng, &pool, true).unwrap_or(backup)
}

pub const CURATED: &[(&str, &str, &[&str])] = &[
    (
        "json",
        r##"$IGNORE: ws;
start -> value;
value -> object | array | string | number | "true" | "false" | "null";
object -> "{" members;
members -> pair more_members | "}";
more_members -> "," pair more_members | "}";
pair -> string ":" value;
array -> "[" elements;
elements -> value more_elements | "]";
more_elements -> "," value more_elements | "]";
string -> $[IGNORE:#] "'" chars "'";
chars -> $[IGNORE:#] char chars | #;
char -> "a"|"b"|"c"|"0"|"1"|" "|"é"|"😀";
number -> $[IGNORE:#] sign digit digits;
sign -> "-" | #;
digits -> $[IGNORE:#] digit digits | #;
digit -> "0"|"1"|"2"|"3"|"4"|"5"|"6"|"7"|"8"|"9";
ws -> " " ws | "
" ws | #;
"##,
        &[
            "{'a':[1,2,{'b':null}],'c':-10}",
            "[ ]",
            "[1 , 2 ]",
            "{'a' : 'é😀' , 'b':true}",
        ],
    ),
    (
        "json_plain",
        r##"start -> value;
value -> object | array | string | number | "true" | "false" | "null";
object -> "{" members "}";
members -> pair more_members | #;
more_members -> "," pair more_members | #;
pair -> string ":" value;
array -> "[" elements "]";
elements -> value more_elements | #;
more_elements -> "," value more_elements | #;
string -> "'" chars "'";
chars -> char chars | #;
char -> "a"|"b"|"c"|"0"|"1"|" "|"é"|"😀";
number -> sign digit digits;
sign -> "-" | #;
digits -> digit digits | #;
digit -> "0"|"1"|"2"|"3"|"4"|"5"|"6"|"7"|"8"|"9";
"##,
        &[
            "{'a':[1,2,{'b':null}],'c':-10}",
            "[]",
            "[1,2]",
            "true",
            "-0",
        ],
    ),
    (
        "arith",
        r##"start -> expr;
expr -> term expr_s;
expr_s -> "+" term expr_s | "-" term expr_s | #;
term -> factor term_s;
term_s -> "*" factor term_s | "/" factor term_s | #;
factor -> "(" expr ")" | number;
number -> digit number_s;
number_s -> digit number_s | #;
digit -> "0"|"1"|"2"|"3"|"4"|"5"|"6"|"7"|"8"|"9";
"##,
        &["1+2*(3-4)/5", "((((1))))", "12345", "1+", "(1"],
    ),
    (
        "sexpr",
        r##"start -> sp forms;
forms -> form forms | #;
form -> "(" sp forms ")" sp | letter sp | "'" form;
letter -> "a"|"b"|"c"|"+"|"-";
sp -> " " sp | "
" sp | #;
"##,
        &["(a (b c) 'd)", "(a (b c) '(+ a b))", "a b c", "((()))", "'"],
    ),
    (
        "statements",
        r##"$IGNORE: blank;
start -> "begin" stmts;
stmts -> stmt stmts | "end";
stmt -> "if" cond block "else" block | "while" cond block | "let" name "=" sum | block;
block -> "{" block_rest;
block_rest -> stmt block_rest | "}";
cond -> "(" sum rel;
rel -> "<" sum ")" | "==" sum ")" | ")";
sum -> prod sum_s;
sum_s -> "+" prod sum_s | ";";
prod -> $[IGNORE:#] atom prod_s;
prod_s -> $[IGNORE:#] "*" atom prod_s | #;
atom -> name | num | "(" sum ")";
name -> $[IGNORE:#] "x" name_s | "y" name_s;
name_s -> $[IGNORE:#] "x" name_s | "y" name_s | "_" name_s | #;
num -> $[IGNORE:#] "0" num_s | "1" num_s;
num_s -> $[IGNORE:#] "0" num_s | "1" num_s | #;
blank -> " " blank | "	" blank | "
" blank | #;
"##,
        &[
            "begin let x = 1 + y*(0;) ; end",
            "beginif (x;) {} else {let y=1;}end",
            "begin while(x;==10;){ {} } end",
            "beginend",
        ],
    ),
    (
        "xmlish",
        r##"start -> node;
node -> "<" name rest;
rest -> "/>" | ">" body "</" ;
body -> text body | "[" node "]" body | #;
text -> "a" | "ä" | "𝄞" | " ";
name -> "x" | "y" name | "z" name;
"##,
        &["<x/>", "<yx>aä𝄞</", "<x>[<x/>]a</", "<>"],
    ),
    (
        "kv",
        r##"start -> line lines;
lines -> "\n" line lines | #;
line -> key "=" val | ";" comment | #;
key -> "k" key_s;
key_s -> "k" key_s | "1" key_s | #;
val -> "v" val | "=" val | " " val | #;
comment -> "c" comment | ";" comment | #;
"##,
        &["k=v\\nk1=vv =", ";cc;\\n\\nk=", "", "\\n\\n"],
    ),
    (
        "dangling_prefix",
        r##"start -> "p" s1 | "q" s2;
s1 -> x "c" | "d";
s2 -> x "d";
x -> "e" | #;
"##,
        &["pc", "pec", "pd", "qd", "qed", "ped", "qc"],
    ),
    (
        "palindromic",
        r##"start -> "(" start ")" | "[" start "]" | "m";
"##,
        &["m", "([m])", "(((m)))", "([m)]"],
    ),
    (
        "bits",
        r##"start -> b b b b opt;
b -> "0" | "1";
opt -> b b b b opt | #;
"##,
        &["0000", "01010101", "000", "010101011"],
    ),
];

/// A curated grammar with its ignores still in place.
pub fn curated_gram(rng: &mut Rng) -> Gram {
    let (name, text, _) = rng.pick(CURATED);
    read(text).unwrap_or_else(|e| panic!("curated grammar {name}: {e:?}"))
}

pub fn alphabet(g: &Gram) -> Vec<char> {
    let mut s = BTreeSet::new();
    for x in g.nts.iter().flat_map(|n| n.alts.iter().flatten()) {
        if let Sym::T(t) = x {
            s.extend(t.chars());
        }
    }
    s.into_iter().collect()
}

/// Changes a text in one to a few places.
pub fn mutate(rng: &mut Rng, s: &str, alpha: &[char]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let pickc = |rng: &mut Rng| {
        if alpha.is_empty() || rng.chance(1, 8) {
            any_char(rng)
        } else {
            *rng.pick(alpha)
        }
    };
    let times = *rng.pick(&[1, 1, 1, 2, 3]);
    for _ in 0..times {
        let n = v.len();
        match rng.below(11) {
            9 if n > 0 => {
                let i = rng.below(n);
                v[i] = kin(rng, v[i]);
            }
            10 if n > 0 => {
                // what is not seen when shown
                let c = *rng.pick(&[
                    '\u{301}', '\u{ad}', '\u{200b}', '\u{200d}', '\u{fe0f}', '\u{feff}', '\u{0}',
                ]);
                v.insert(rng.below(n + 1), c);
            }
            0 if n > 0 => {
                v.remove(rng.below(n));
            }
            1 => {
                let c = pickc(rng);
                v.insert(rng.below(n + 1), c);
            }
            2 if n > 0 => {
                let c = pickc(rng);
                v[rng.below(n)] = c;
            }
            3 if n > 1 => {
                let i = rng.below(n - 1);
                v.swap(i, i + 1);
            }
            4 if n > 0 => v.truncate(rng.below(n)),
            5 => {
                let c = pickc(rng);
                v.push(c);
            }
            6 if n > 0 => {
                let i = rng.below(n);
                let j = rng.range(i, n - 1);
                let part: Vec<char> = v[i..=j].to_vec();
                let at = rng.below(n + 1);
                for (k, c) in part.into_iter().enumerate() {
                    v.insert(at + k, c);
                }
            }
            7 if n > 0 => {
                let i = rng.below(n);
                let j = rng.range(i, n - 1);
                v.drain(i..=j);
            }
            8 if n > 0 => {
                // change case or look-alike
                let i = rng.below(n);
                let c = v[i];
                let u: Vec<char> = if c.is_lowercase() {
                    c.to_uppercase().collect()
                } else {
                    c.to_lowercase().collect()
                };
                v.splice(i..=i, u);
            }
            _ => {
                let c = pickc(rng);
                v.push(c);
            }
        }
    }
    v.into_iter().collect()
}

/// Scripts for a woven grammar: sentences, near misses, noise.
pub fn scripts(rng: &mut Rng, g: &Gram, n: usize, budget: usize) -> Vec<String> {
    let h = heights(g);
    let alpha = alphabet(g);
    let mut out = vec![];
    let mut last = String::new();
    for i in 0..n {
        let s = match rng.below(10) {
            0..=4 => {
                let b = rng_budget(rng, budget, i);
                sentence(g, &h, rng, b).unwrap_or_default()
            }
            5..=7 => {
                let base = if rng.chance(1, 3) {
                    last.clone()
                } else {
                    {
                        let b = rng_budget(rng, budget, i);
                        sentence(g, &h, rng, b).unwrap_or_default()
                    }
                };
                mutate(rng, &base, &alpha)
            }
            8 => {
                let k = rng.range(0, 8);
                (0..k)
                    .map(|_| {
                        if alpha.is_empty() || rng.chance(1, 15) {
                            any_char(rng)
                        } else {
                            *rng.pick(&alpha)
                        }
                    })
                    .collect()
            }
            _ => match rng.below(4) {
                0 => String::new(),
                1 => {
                    // two sentences in a row
                    let b = rng_budget(rng, budget, i);
                    let a = sentence(g, &h, rng, b).unwrap_or_default();
                    let c = sentence(g, &h, rng, 3).unwrap_or_default();
                    a + &c
                }
                2 => {
                    let b = rng_budget(rng, budget, i);
                    let mut a = sentence(g, &h, rng, b).unwrap_or_default();
                    a.push(*rng.pick(&[' ', '\n', '\0', 'x', '\r', '\u{a0}']));
                    a
                }
                _ => {
                    let b = rng_budget(rng, budget, i);
                    let a = sentence(g, &h, rng, b).unwrap_or_default();
                    let n = a.chars().count();
                    a.chars().take(n.saturating_sub(1)).collect()
                }
            },
        };
        last = s.clone();
        out.push(s);
    }
    out
}

fn rng_budget(rng: &mut Rng, budget: usize, i: usize) -> usize {
    match (i + rng.below(3)) % 5 {
        0 => rng.range(0, 3),
        1 | 2 => rng.range(1, budget.max(2) / 2 + 1),
        _ => rng.range(1, budget.max(2)),
    }
}

/// Adds ignores and action sections to an LL(1) grammar.
pub fn action_text(rng: &mut Rng) -> String {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 | 3 => rng.range(1, 8),
        4 => rng.range(5, 30),
        _ => rng.range(0, 200),
    };
    let mut s = String::new();
    if rng.chance(1, 3) {
        s.push_str(&wild_ws(rng));
    }
    for _ in 0..n {
        match rng.below(12) {
            0 => s.push_str("\\}"),
            1 => s.push('{'),
            2 => s.push_str("\\\\"),
            3 => s.push('"'),
            4 => s.push(';'),
            5 => s.push('\\'),
            6 => s.push(*rng.pick(&['\n', ' ', '\t', '#', '|', '$', '\u{3000}'])),
            7 => s.push(*rng.pick(ODD)),
            _ => s.push(any_char(rng)),
        }
    }
    // make it writable
    let lead: String = s.chars().take_while(|c| c.is_whitespace()).collect();
    let mut o = lead;
    let mut prev = ' ';
    for c in s.trim_start().chars() {
        if c == '}' && prev != '\\' {
            o.push('\\');
        }
        o.push(c);
        prev = c;
    }
    if prev == '\\' {
        o.push('.');
    }
    o
}

/// An LL(1) grammar with ignores still in place: what they weave in keeps it LL(1).
pub fn ignored_grammar(rng: &mut Rng) -> Gram {
    loop {
        if rng.chance(1, 6) {
            let g = curated_gram(rng);
            if g.nts.iter().any(|n| n.inherited.is_some()) {
                return g;
            }
        }
        let mut g = ll1_grammar(rng);
        if g.nts.len() > 25 {
            continue;
        }
        let n0 = g.nts.len();
        let used: BTreeSet<char> = alphabet(&g).into_iter().collect();
        let mut free: Vec<char> = [
            ' ', '\n', '\t', '\r', '_', '~', '.', ',', '%', '\u{a0}', '漢', '-', '0', 'z',
        ]
        .into_iter()
        .filter(|c| !used.contains(c))
        .collect();
        rng.shuffle(&mut free);
        if free.len() < 4 {
            continue;
        }
        let taken: BTreeSet<String> = g.nts.iter().map(|n| n.name.clone()).collect();
        let kinds = rng.range(1, 3);
        for k in 0..kinds {
            let x = g.nts.len();
            let name = ["ws", "blank", "ign_2"][k].to_string();
            let name = if taken.contains(&name) {
                format!("{name}_{x}")
            } else {
                name
            };
            let c = free.pop().unwrap_or('\u{1}').to_string();
            let alts = match rng.below(6) {
                0 | 1 => vec![vec![t(&c), Sym::N(x)], vec![]],
                2 => vec![vec![t(&c)], vec![]],
                3 => vec![vec![t(&c)]],
                4 => {
                    // through other rules
                    let y = x + 1;
                    g.nts
                        .push(Gram::nt(&name, vec![vec![Sym::N(y), Sym::N(x)], vec![]]));
                    let d = free.pop().unwrap_or('\u{2}').to_string();
                    g.nts.push(Gram::nt(
                        &format!("{name}_char"),
                        vec![vec![t(&c), t(&c)], vec![t(&d)]],
                    ));
                    continue;
                }
                _ => {
                    // a comment
                    let y = x + 1;
                    let d = free.pop().unwrap_or('\u{2}').to_string();
                    g.nts.push(Gram::nt(
                        &name,
                        vec![vec![t(&c), Sym::N(y), t(&d), Sym::N(x)], vec![]],
                    ));
                    g.nts.push(Gram::nt(
                        &format!("{name}_body"),
                        vec![vec![t("a"), Sym::N(y)], vec![t("b"), Sym::N(y)], vec![]],
                    ));
                    continue;
                }
            };
            g.nts.push(Gram::nt(&name, alts));
        }
        // the order of the rules decides which ones a directive reaches
        let n = g.nts.len();
        if rng.chance(1, 2) {
            let mut perm: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut perm);
            g = permuted(&g, &perm);
        }
        let pos_of: Vec<usize> = {
            let mut v: Vec<usize> = (0..n).collect();
            v.retain(|i| {
                let name = &g.nts[*i].name;
                !taken.contains(name)
            });
            v
        };
        let candidates: Vec<usize> = if rng.chance(1, 8) {
            (0..n).collect()
        } else {
            pos_of
        };
        let mut dir: Option<usize> = None;
        let from = if rng.chance(1, 2) { 0 } else { rng.below(n) };
        for i in 0..n {
            if i == from || (i > from && rng.chance(1, 12)) {
                dir = Some(*rng.pick(&candidates));
            }
            g.nts[i].inherited = dir;
            g.nts[i].ov = match rng.below(8) {
                0 => Ov::Off,
                1 => Ov::Use(*rng.pick(&candidates)),
                _ => Ov::Inherit,
            };
        }
        for _ in 0..3 * n + 10 {
            let w = g.woven();
            let a = analyse(&w);
            if a.ll1() && a.all_productive() {
                if g.nts.iter().any(|n| n.alts.iter().any(|a| a.len() > 1)) && w.size() > g.size() {
                    return g;
                }
                break;
            }
            let on: Vec<usize> = (0..n).filter(|i| g.ignore_of(*i).is_some()).collect();
            if on.is_empty() {
                break;
            }
            // the rule in conflict first
            let i = *rng.pick(&on);
            g.nts[i].ov = Ov::Off;
        }
        let _ = n0;
    }
}

/// The same grammar with its rules in another order: rule `k` of the result is `perm[k]`.
pub fn permuted(g: &Gram, perm: &[usize]) -> Gram {
    let mut inv = vec![0; perm.len()];
    for (k, i) in perm.iter().enumerate() {
        inv[*i] = k;
    }
    let mut nts: Vec<Nt> = perm.iter().map(|i| g.nts[*i].clone()).collect();
    for nt in &mut nts {
        for s in nt.alts.iter_mut().flatten() {
            if let Sym::N(j) = s {
                *j = inv[*j];
            }
        }
        if let Ov::Use(x) = &mut nt.ov {
            *x = inv[*x];
        }
        if let Some(x) = &mut nt.inherited {
            *x = inv[*x];
        }
    }
    Gram {
        nts,
        start: inv[g.start],
    }
}

// ---------------------------------------------------------------- giants

/// Sizes around which implementations tend to have limits.
pub fn giant_size(rng: &mut Rng, max: usize) -> usize {
    let n = *rng.pick(&[
        100, 127, 128, 130, 200, 255, 256, 257, 300, 512, 520, 1000, 1024, 1030, 2049, 4000, 4096,
        4100, 8192, 8200, 10_000, 32_768, 65_534, 65_536, 65_540, 100_000, 100_000, 300_000,
        300_000,
    ]);
    let n = if n > max {
        rng.range(100, max.max(101))
    } else {
        n
    };
    n + rng.below(3)
}

/// LL(1) grammars in which one dimension is blown up.
pub fn giant(rng: &mut Rng, max: usize) -> (Gram, &'static str) {
    let han = |i: usize| char::from_u32(0x4e00 + i as u32).expect("a character");
    let start = |alts: Vec<Vec<Sym>>| Gram::nt("start", alts);
    let long = |rng: &mut Rng, n: usize, first: char| {
        let pool = Pool::new(rng);
        let one = rng.chance(1, 3);
        let c = pool.pick(rng);
        let mut s = String::from(first);
        for _ in 1..n {
            s.push(if one { c } else { pool.pick(rng) });
        }
        writable(&s)
    };
    let (nts, kind) = match rng.below(12) {
        0 | 1 => {
            let n = giant_size(rng, max);
            let a = long(rng, n, 'a');
            let b = if rng.chance(1, 2) {
                long(rng, 5, 'b')
            } else {
                long(rng, n, 'b')
            };
            (
                vec![
                    start(vec![vec![Sym::T(a), Sym::N(1)], vec![Sym::T(b), Sym::N(1)]]),
                    Gram::nt("more", vec![vec![t("!"), Sym::N(0)], vec![]]),
                ],
                "long_terminals",
            )
        }
        2 | 3 => {
            let n = giant_size(rng, max);
            let dense = rng.chance(1, 3);
            let mut alt = vec![];
            while alt.len() < n {
                match rng.below(3) {
                    0 if !dense => alt.extend([Sym::N(1), t("y")]),
                    1 => alt.push(Sym::N(2)),
                    _ => alt.push(t("y")),
                }
            }
            let mut alts = vec![alt];
            let repeated = n < 5000 && rng.chance(1, 2);
            if repeated {
                alts[0].insert(0, t("["));
                alts[0].push(Sym::N(0));
                alts.push(vec![]);
            }
            (
                vec![
                    start(alts),
                    Gram::nt("opt", vec![vec![t("x")], vec![]]),
                    Gram::nt("one", vec![vec![t("1")], vec![t("22")]]),
                ],
                "wide_alternatives",
            )
        }
        4 => {
            let n = giant_size(rng, max.min(20_000));
            let mut alts: Vec<Vec<Sym>> = (0..n)
                .map(|i| {
                    let mut v = vec![Sym::T(han(i).to_string())];
                    if rng.chance(1, 10) {
                        v.push(Sym::N(1));
                    }
                    v
                })
                .collect();
            if rng.chance(1, 2) {
                alts.push(vec![]);
            }
            (
                vec![
                    start(alts),
                    Gram::nt("again", vec![vec![t("-"), Sym::N(0)], vec![t("."), t("e")]]),
                ],
                "many_alternatives",
            )
        }
        5 => {
            // every rule leads to a few others, none deep
            let n = giant_size(rng, max.min(3000));
            let mut nts = vec![start(
                (0..n)
                    .step_by(3)
                    .map(|i| vec![Sym::T(han(i).to_string()), Sym::N(1 + i)])
                    .collect(),
            )];
            for i in 0..n {
                let mut alt = vec![Sym::T(han(i).to_string())];
                for k in 1..3 {
                    if i + k < n && i % 3 != 2 && (i + k) % 3 != 0 {
                        alt.push(Sym::N(1 + i + k));
                    }
                }
                nts.push(Gram::nt(&format!("r{i}"), vec![alt, vec![t("z")]]));
            }
            (nts, "many_rules")
        }
        6 => {
            let n = giant_size(rng, max.min(100_000));
            let a = "n".repeat(n) + "a";
            let b = "n".repeat(n) + "b";
            let c = "n".repeat(n);
            (
                vec![
                    start(vec![vec![Sym::N(1), Sym::N(2)], vec![Sym::N(3)]]),
                    Gram::nt(&a, vec![vec![t("a"), t("x")]]),
                    Gram::nt(&b, vec![vec![t("b")], vec![]]),
                    Gram::nt(&c, vec![vec![t("c"), Sym::N(1)]]),
                ],
                "long_names",
            )
        }
        7 => {
            // twice as many ways through at every step
            let n = rng.range(20, 60);
            let mut nts = vec![start(vec![vec![Sym::N(1), t(".")]])];
            for i in 0..n {
                let alts = match i % 4 {
                    0 => vec![vec![t("b"), Sym::N(2 + i)], vec![t("c"), Sym::N(2 + i)]],
                    1 => vec![
                        vec![Sym::N(2 + i)],
                        vec![Sym::T(han(i).to_string()), Sym::N(2 + i)],
                    ],
                    2 => vec![
                        vec![t("d"), Sym::N(2 + i)],
                        vec![t("e"), Sym::N(2 + i), t("e")],
                    ],
                    _ => vec![
                        vec![t("f"), Sym::N(2 + i)],
                        vec![Sym::T(han(i).to_string())],
                    ],
                };
                nts.push(Gram::nt(&format!("d{i}"), alts));
            }
            nts.push(Gram::nt("last", vec![vec![t("l")], vec![t("m")]]));
            (nts, "diamonds")
        }
        8 => {
            let n = giant_size(rng, max.min(300));
            let mut nts = vec![start(vec![(0..n).map(|i| Sym::N(1 + i)).collect()])];
            for i in 0..n {
                nts.push(Gram::nt(
                    &format!("o{i}"),
                    vec![vec![Sym::T(han(i).to_string())], vec![]],
                ));
            }
            (nts, "wide_optional")
        }
        9 => {
            // rules that begin (or end) with each other, in any order of definition
            let style = rng.below(4);
            let most = if style == 0 { 1500 } else { 250 };
            let n = giant_size(rng, max.min(most));
            let mut order: Vec<usize> = (2..n + 2).collect();
            match rng.below(3) {
                0 => {}
                1 => order.reverse(),
                _ => rng.shuffle(&mut order),
            }
            let mut nts = vec![Gram::nt("start", vec![vec![Sym::N(order[0]), t(".")]])];
            nts.push(Gram::nt("opt", vec![vec![t("?")], vec![]]));
            nts.extend((2..n + 2).map(|i| Gram::nt(&format!("c{i}"), vec![])));
            for k in 0..n {
                let next = order.get(k + 1).map_or_else(|| t("l"), |j| Sym::N(*j));
                nts[order[k]].alts = match style {
                    0 => vec![vec![next]],
                    1 => vec![vec![next], vec![Sym::T(han(k).to_string()), Sym::N(1)]],
                    2 => vec![
                        vec![next, Sym::T(han(k).to_string())],
                        vec![Sym::T(han(k).to_string())],
                    ],
                    _ => vec![vec![Sym::T(han(k).to_string()), next], vec![]],
                };
            }
            (nts, "chains")
        }
        _ => {
            let n = giant_size(rng, max.min(300));
            let m = rng.range(50, 1000);
            let mut alts = vec![];
            for i in 0..n {
                let l = long(rng, m, han(i));
                alts.push(vec![Sym::T(l), Sym::N(1)]);
            }
            (
                vec![
                    start(alts),
                    Gram::nt("more", vec![vec![t("-"), Sym::N(0)], vec![]]),
                ],
                "many_long_terminals",
            )
        }
    };
    (Gram { nts, start: 0 }, kind)
}

/// Grammars and scripts whose terminals, alternatives or lists have exactly as many parts as fill
/// the numbers of one or two bytes.
pub fn exact(rng: &mut Rng, kind: u64, max: usize) -> (Gram, &'static str, Vec<String>) {
    let sizes: Vec<usize> = (8..=16)
        .map(|b| 1usize << b)
        .filter(|n| *n <= max)
        .collect();
    let first = |k: usize| char::from_u32(0x4e00 + k as u32).expect("a character");
    let end = || Gram::nt("more", vec![vec![t("!"), Sym::N(0)], vec![]]);
    let (nts, scripts, kind): (Vec<Nt>, Vec<String>, _) = match kind % 4 {
        0 => {
            let texts: Vec<String> = sizes
                .iter()
                .enumerate()
                .map(|(k, n)| {
                    let c = *rng.pick(&['a', 'é', '漢', ' ']);
                    let mut s = String::from(first(k));
                    s.extend((1..*n).map(|i| if i % 97 == 0 { 'x' } else { c }));
                    s
                })
                .collect();
            let alts = texts
                .iter()
                .map(|s| vec![Sym::T(s.clone()), Sym::N(1)])
                .collect();
            (
                vec![Gram::nt("start", alts), end()],
                texts,
                "exact_terminals",
            )
        }
        1 => {
            // the first element counts as well
            let mut alts = vec![];
            let mut scripts = vec![];
            for (k, n) in sizes.iter().enumerate() {
                let f = first(k).to_string();
                let mut alt = vec![Sym::T(f.clone())];
                alt.extend(vec![t("y"); n - 1]);
                scripts.push(f + &"y".repeat(n - 1));
                alts.push(alt);
            }
            (
                vec![
                    Gram::nt("start", vec![vec![Sym::N(1), Sym::N(2)]]),
                    Gram::nt("wide", alts),
                    end(),
                ],
                scripts,
                "exact_alternatives",
            )
        }
        2 => {
            let mut alts = vec![];
            let mut scripts = vec![];
            for (k, n) in sizes.iter().enumerate() {
                let f = first(k).to_string();
                let mut alt = vec![Sym::T(f.clone())];
                alt.extend(vec![Sym::N(2); n - 1]);
                alts.push(alt);
                scripts.push(f.clone());
                scripts.push(f + &"o".repeat(n - 1));
            }
            (
                vec![
                    Gram::nt("start", vec![vec![Sym::N(1), t(".")], vec![t("-")]]),
                    Gram::nt("wide", alts),
                    Gram::nt("one", vec![vec![t("o")], vec![t("p")]]),
                ],
                scripts.into_iter().map(|s| s + ".").collect(),
                "exact_rules",
            )
        }
        _ => {
            let mut scripts = vec![];
            for n in &sizes {
                for n in [n - 1, *n, n + 1] {
                    scripts.push("l".repeat(n));
                }
            }
            (
                vec![
                    Gram::nt("start", vec![vec![Sym::N(1)]]),
                    Gram::nt("list", vec![vec![t("l"), Sym::N(1)], vec![]]),
                ],
                scripts,
                "exact_lists",
            )
        }
    };
    let mut out = vec![];
    for s in scripts {
        let mut w: Vec<char> = s.chars().collect();
        match rng.below(3) {
            0 => {
                w.pop();
            }
            1 => w.push(any_char(rng)),
            _ => {
                let at = w.len() - 1;
                w[at] = any_char(rng);
            }
        }
        out.push(s);
        if rng.chance(1, 2) {
            out.push(w.into_iter().collect());
        }
    }
    (Gram { nts, start: 0 }, kind, out)
}

/// Scripts for a giant: sentences and texts that differ from one in one place.
pub fn giant_scripts(rng: &mut Rng, g: &Gram) -> Vec<String> {
    let h = heights(g);
    let alpha = alphabet(g);
    let mut out = vec![];
    for budget in [1, 10] {
        let Some(s) = sentence(g, &h, rng, budget) else {
            continue;
        };
        let v: Vec<char> = s.chars().collect();
        let n = v.len();
        out.push(s);
        let other = |rng: &mut Rng, c: char| loop {
            let x = if rng.chance(1, 2) {
                any_char(rng)
            } else {
                *rng.pick(&alpha)
            };
            if x != c {
                break x;
            }
        };
        let mut change = |rng: &mut Rng, at: usize| {
            let mut w = v.clone();
            w[at] = other(rng, w[at]);
            out.push(w.into_iter().collect());
        };
        if n > 0 {
            change(rng, n - 1);
            let at = rng.below(n);
            change(rng, at);
            // around powers of two
            let mut k = 128;
            let mut places = vec![];
            while k < n {
                places.extend([k - 1, k, k + 1]);
                k *= 2;
            }
            places.retain(|x| *x < n);
            if !places.is_empty() {
                let at = *rng.pick(&places);
                change(rng, at);
            }
            out.push(v[..n - 1].iter().collect());
            out.push(v[1..].iter().collect());
            let at = rng.below(n);
            out.push(v[..at].iter().collect());
        }
        let mut w = v.clone();
        w.push(any_char(rng));
        out.push(w.into_iter().collect());
    }
    out
}

/// Action sections out of the ordinary: very long, or with many instructions (see `instrs_for`).
pub fn giant_action(rng: &mut Rng, max: usize) -> String {
    let n = giant_size(rng, max);
    if rng.chance(1, 2) {
        format!("*{}", n.min(1000))
    } else {
        "long ".repeat(n / 5 + 1)
    }
}

/// A grammar in which every one of these characters begins an alternative, stands in its middle
/// and at its end, and may follow; and scripts that have each of them in its place and each
/// replaced by one that might be taken for it.
/// Every ASCII character right after this one: within terminals and across their borders, and
/// this one in front of, behind and instead of each of them where it does not belong.
pub fn pair_grammar(rng: &mut Rng, c: char, seconds: &[char]) -> (Gram, Vec<String>) {
    let mut seconds = seconds.to_vec();
    rng.shuffle(&mut seconds);
    let z = *['a', 'M', '5', '~', '\n']
        .iter()
        .find(|z| **z != c)
        .unwrap();
    let t = |s: String| Sym::T(s);
    // what stands before and after the two
    let (pre, post) = match rng.below(4) {
        0 => (String::new(), String::new()),
        1 => (z.to_string(), String::new()),
        2 => (String::new(), z.to_string()),
        _ => (z.to_string(), z.to_string()),
    };
    let head = format!("{pre}{c}");
    let mut scripts = vec![];
    let (nts, words) = match rng.below(4) {
        form @ (0 | 1) => {
            let alt = if form == 0 {
                // one after the other
                seconds
                    .iter()
                    .map(|d| t(format!("{head}{d}{post}")))
                    .collect()
            } else {
                // cut between the two
                seconds
                    .iter()
                    .flat_map(|d| [t(head.clone()), t(format!("{d}{post}"))])
                    .collect()
            };
            let words: Vec<String> = seconds.iter().map(|d| format!("{head}{d}{post}")).collect();
            (vec![Gram::nt("start", vec![alt])], words)
        }
        form => {
            // the second one decides
            let body = |d: &char| {
                if form == 2 {
                    format!("{d}{post}")
                } else {
                    format!("{d}{z}{d}{post}")
                }
            };
            for d in &seconds {
                let lead = match rng.below(4) {
                    0 => format!("{head}{}", body(rng.pick(&seconds))),
                    _ => String::new(),
                };
                let wrong = if form == 2 {
                    [
                        format!("{head}{c}{d}{post}"),
                        format!("{head}{d}{c}{post}"),
                        format!("{head}{c}{post}"),
                    ]
                } else {
                    [
                        format!("{head}{d}{z}{c}{d}{post}"),
                        format!("{head}{d}{z}{d}{c}{post}"),
                        format!("{head}{d}{z}{c}{post}"),
                    ]
                };
                scripts.extend(wrong.map(|w| format!("{lead}{w}")));
            }
            let nts = vec![
                Gram::nt(
                    "start",
                    vec![vec![], vec![t(head.clone()), Sym::N(1), Sym::N(0)]],
                ),
                Gram::nt("second", seconds.iter().map(|d| vec![t(body(d))]).collect()),
            ];
            let words = seconds
                .iter()
                .map(|d| format!("{head}{}", body(d)))
                .collect();
            (nts, words)
        }
    };
    let all = words.concat();
    let n = all.chars().count();
    scripts.extend([all.clone(), format!("{all}{z}"), format!("{all}{c}")]);
    for _ in 0..10 {
        // one more, one less, another one
        let k = rng.below(n);
        let mut v: Vec<char> = all.chars().collect();
        match rng.below(3) {
            0 => {
                v.remove(k);
            }
            1 => v.insert(k, c),
            _ => v[k] = *rng.pick(&seconds),
        }
        scripts.push(v.into_iter().collect());
        scripts.push(all.chars().take(k).collect());
    }
    (Gram { nts, start: 0 }, scripts)
}

/// Several characters that might be taken for this one.
fn spelled_out(c: char) -> Vec<String> {
    let mut v = vec![];
    for s in [
        c.to_uppercase().collect::<String>(),
        c.to_lowercase().collect(),
        c.to_uppercase().flat_map(char::to_lowercase).collect(),
    ] {
        if s.chars().count() > 1 {
            v.push(s);
        }
    }
    const PARTS: &[(char, &str)] = &[
        ('é', "e\u{301}"),
        ('è', "e\u{300}"),
        ('ä', "a\u{308}"),
        ('ö', "o\u{308}"),
        ('ü', "u\u{308}"),
        ('Å', "A\u{30a}"),
        ('ñ', "n\u{303}"),
        ('ç', "c\u{327}"),
        ('ガ', "カ\u{3099}"),
        ('각', "\u{1100}\u{1161}\u{11a8}"),
        ('ä', "ae"),
        ('ö', "oe"),
        ('æ', "ae"),
        ('œ', "oe"),
        ('ﬁ', "fi"),
        ('…', "..."),
        ('½', "1/2"),
        ('\n', "\r\n"),
        ('\n', "\n\r"),
        ('\r', "\r\n"),
        ('\t', "    "),
        ('\t', "        "),
        ('"', "''"),
        ('<', "&lt;"),
        ('&', "&amp;"),
        ('\\', "\\\\"),
        ('\n', "\\n"),
        ('\t', "\\t"),
        ('→', "->"),
        ('\0', "\\0"),
        ('😀', "\u{d7ff}"),
    ];
    v.extend(
        PARTS
            .iter()
            .filter(|(p, _)| *p == c)
            .map(|(_, s)| s.to_string()),
    );
    v
}

pub fn sweep_grammar(rng: &mut Rng, chars: &[char]) -> (Gram, Vec<String>) {
    let z = *['a', 'M', '5', '~', 'é', '中']
        .iter()
        .find(|z| !chars.contains(z))
        .unwrap();
    let t = |s: &[char]| Sym::T(s.iter().collect());
    let split = rng.chance(1, 2);
    let alts = chars
        .iter()
        .enumerate()
        .map(|(i, c)| match i % 3 {
            0 if split => vec![t(&[*c]), t(&[z]), t(&[*c])],
            1 => vec![t(&[*c, z]), t(&[*c])],
            _ => vec![t(&[*c, z, *c])],
        })
        .collect();
    let mut g = Gram {
        nts: vec![
            Gram::nt("start", vec![vec![Sym::N(1), Sym::N(0)], vec![]]),
            Gram::nt("e", alts),
        ],
        start: 0,
    };
    if rng.chance(1, 3) {
        // what follows may also be told from nothing
        g.nts[0].alts = vec![vec![Sym::N(1), Sym::N(2)]];
        g.nts
            .push(Gram::nt("more", vec![vec![], vec![Sym::N(1), Sym::N(2)]]));
    }
    let word = |c: char| -> String { [c, z, c].iter().collect() };
    let mut order = chars.to_vec();
    rng.shuffle(&mut order);
    let all: String = order.iter().map(|c| word(*c)).collect();
    let mut scripts = vec![all.clone(), format!("{all}{z}")];
    for c in order {
        let lead = match rng.below(3) {
            0 => word(*rng.pick(chars)),
            _ => String::new(),
        };
        for x in near(c) {
            scripts.push(format!("{lead}{c}{z}{x}"));
            scripts.push(format!("{lead}{x}{z}{c}"));
        }
        if rng.chance(1, 12) {
            // what marks how a character is shown
            scripts.push(format!("{lead}{c}{z}{c}\u{fe0f}"));
        }
        // written in several characters
        for x in spelled_out(c) {
            scripts.push(format!("{lead}{c}{z}{x}"));
            scripts.push(format!("{lead}{x}{z}{c}"));
        }
        scripts.push(match rng.below(3) {
            0 => format!("{lead}{c}{z}"),
            1 => format!("{lead}{c}{c}"),
            _ => format!("{lead}{c}{z}{c}{z}"),
        });
    }
    (g, scripts)
}
