//! C10 character streams, C18 lexical helpers, C21 program text of the stack VM.
use crate::gen_::*;
use crate::gram::wild_ws;
use crate::lab::*;
use crate::props::parse::giant_max;
use crate::props::rules::disordered;
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::parser_data::ElementType;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::{RuleParser, parse_terminal};
use henriks_parsing_project::vms::stack_vm::{Instruction, StackVm};
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::Cell;
use std::rc::Rc;

/// A source that counts how far it was read.
struct CountingSource {
    chars: Vec<char>,
    at: usize,
    taken: Rc<Cell<usize>>,
}
impl Iterator for CountingSource {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.chars.get(self.at).copied();
        if c.is_some() {
            self.at += 1;
            self.taken.set(self.at);
        }
        c
    }
}
impl TPeekable for CountingSource {
    fn peek(&mut self) -> Option<&char> {
        self.chars.get(self.at)
    }
    fn peek_mut(&mut self) -> Option<&mut char> {
        self.chars.get_mut(self.at)
    }
    fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
        if func(self.chars.get(self.at)?) {
            self.next()
        } else {
            None
        }
    }
    fn next_if_eq(&mut self, expected: &char) -> Option<char> {
        self.next_if(|c| c == expected)
    }
}

#[derive(Clone)]
struct Level {
    pos: usize,
    stop: Option<char>,
    esc: Option<char>,
    escaped: bool,
}

/// What a stack of nested sections over one source must show.
struct Model {
    src: Vec<char>,
    at: usize,
    levels: Vec<Level>,
    mutations: u64,
    stops: u64,
    escapes: u64,
}
impl Model {
    fn visible(&self) -> Option<char> {
        let c = *self.src.get(self.at)?;
        for l in &self.levels {
            if l.stop == Some(c) && !l.escaped {
                return None;
            }
        }
        Some(c)
    }
    fn take(&mut self) {
        let c = self.src[self.at];
        self.at += 1;
        for l in &mut self.levels {
            if l.stop == Some(c) && l.escaped {
                self.escapes += 1;
            }
            l.pos += 1;
            l.escaped = l.esc == Some(c);
        }
    }
}

fn ops<T: TPeekable<Item = char>>(
    p: &mut ParseProcess<T>,
    m: &mut Model,
    rng: &mut Rng,
    n: usize,
    pool: &[char],
    log: &mut Vec<String>,
) -> Check {
    let mut refused = 0;
    for _ in 0..n {
        let want = m.visible();
        let op = rng.below(9);
        if want.is_none() {
            if m.at < m.src.len() {
                m.stops += 1;
            }
            refused += 1;
            if refused > 4 && rng.chance(1, 2) {
                break;
            }
        }
        match op {
            0 | 1 => {
                let got = p.next();
                log.push(format!("next={got:?}"));
                ensure!(got == want, "next gave {got:?} instead of {want:?}");
                if want.is_some() {
                    m.take();
                }
            }
            2 | 3 => {
                let got = p.peek().copied();
                log.push(format!("peek={got:?}"));
                ensure!(got == want, "peek gave {got:?} instead of {want:?}");
            }
            4 => {
                let change = rng.chance(1, 3);
                let to = *rng.pick(pool);
                let got = p.peek_mut().map(|c| {
                    let old = *c;
                    if change {
                        *c = to;
                    }
                    old
                });
                log.push(format!(
                    "peek_mut={got:?}{}",
                    if change {
                        format!(":={to:?}")
                    } else {
                        String::new()
                    }
                ));
                ensure!(got == want, "peek_mut gave {got:?} instead of {want:?}");
                if change && got.is_some() {
                    m.src[m.at] = to;
                    m.mutations += 1;
                }
            }
            5 | 6 => {
                let yes = rng.chance(1, 2);
                let mut asked = vec![];
                let got = p.next_if(|c| {
                    asked.push(*c);
                    yes
                });
                log.push(format!("next_if({yes})={got:?}"));
                let asks: Vec<char> = want.into_iter().collect();
                ensure!(
                    asked == asks,
                    "next_if asked about {asked:?} instead of {asks:?}"
                );
                let w = if yes { want } else { None };
                ensure!(got == w, "next_if({yes}) gave {got:?} instead of {w:?}");
                if w.is_some() {
                    m.take();
                }
            }
            7 => {
                let c = match want {
                    Some(c) if rng.chance(2, 3) => c,
                    _ => *rng.pick(pool),
                };
                let got = p.next_if_eq(&c);
                log.push(format!("next_if_eq({c:?})={got:?}"));
                let w = if want == Some(c) { want } else { None };
                ensure!(got == w, "next_if_eq({c:?}) gave {got:?} instead of {w:?}");
                if w.is_some() {
                    m.take();
                }
            }
            _ => {
                // a run of characters through the iterator interface
                let k = rng.below(5);
                let got: Vec<char> = p.by_ref().take(k).collect();
                log.push(format!("take({k})={got:?}"));
                let mut w = vec![];
                for _ in 0..k {
                    let Some(c) = m.visible() else { break };
                    w.push(c);
                    m.take();
                }
                ensure!(got == w, "{k} characters gave {got:?} instead of {w:?}");
            }
        }
        let l = m.levels.last().unwrap();
        ensure!(
            p.cur_pos() == l.pos,
            "the position is {} instead of {}",
            p.cur_pos(),
            l.pos
        );
    }
    Ok(())
}

/// Where a part of a text can be said to begin: nearly always near, sometimes far.
fn any_position(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => (1usize << rng.range(7, 62)).wrapping_add(rng.below(4)) - rng.below(4),
        1 => u32::MAX as usize - rng.below(50),
        _ => rng.below(1000),
    }
}

fn level(rng: &mut Rng, pool: &[char], pos: usize) -> Level {
    let stop = rng.chance(3, 4).then(|| {
        if rng.chance(1, 3) {
            '}'
        } else {
            *rng.pick(pool)
        }
    });
    let mut esc = rng.chance(2, 3).then(|| {
        if rng.chance(1, 2) {
            '\\'
        } else {
            *rng.pick(pool)
        }
    });
    if esc == stop {
        esc = None;
    }
    Level {
        pos,
        stop,
        esc,
        escaped: false,
    }
}

fn run_levels<T: TPeekable<Item = char>>(
    src: &mut T,
    m: &mut Model,
    rng: &mut Rng,
    pool: &[char],
    log: &mut Vec<String>,
    scale: usize,
) -> Check {
    let mut l0 = level(rng, pool, 0);
    if rng.chance(1, 2) {
        l0.stop = None;
    }
    log.push(format!("new({:?},{:?})", l0.stop, l0.esc));
    let mut p0 = ParseProcess::new(src, l0.stop, l0.esc);
    m.levels.push(l0);
    let rounds = rng.range(1, 4);
    for _ in 0..rounds {
        let n = scale * rng.range(0, 25);
        ops(&mut p0, m, rng, n, pool, log)?;
        if rng.chance(1, 3) {
            continue;
        }
        let base = if rng.chance(1, 2) {
            p0.cur_pos()
        } else {
            any_position(rng)
        };
        let l1 = level(rng, pool, base);
        log.push(format!("nested({:?},{:?},{base})", l1.stop, l1.esc));
        let mut p1 = ParseProcess::new_nested(&mut p0, l1.stop, l1.esc, base);
        m.levels.push(l1);
        let n = scale * rng.range(0, 25);
        ops(&mut p1, m, rng, n, pool, log)?;
        if rng.chance(1, 2) {
            let base = if rng.chance(2, 3) {
                p1.cur_pos()
            } else {
                any_position(rng)
            };
            let l2 = level(rng, pool, base);
            log.push(format!("nested({:?},{:?},{base})", l2.stop, l2.esc));
            let mut p2 = ParseProcess::new_nested(&mut p1, l2.stop, l2.esc, base);
            m.levels.push(l2);
            let n = scale * rng.range(0, 20);
            ops(&mut p2, m, rng, n, pool, log)?;
            m.levels.pop();
            let n = scale * rng.range(0, 8);
            ops(&mut p1, m, rng, n, pool, log)?;
        }
        m.levels.pop();
        let want = m.levels[0].pos;
        ensure!(
            p0.cur_pos() == want,
            "after a nested section the outer position is {} instead of {want}",
            p0.cur_pos()
        );
    }
    // the rest
    let n = scale * rng.range(0, 60);
    ops(&mut p0, m, rng, n, pool, log)?;
    m.levels.clear();
    Ok(())
}

fn c10(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let mut pool: Vec<char> = match rng.below(4) {
        0 => vec!['a', '}', '\\', '{'],
        1 => vec!['a', 'b', '}', '\\', ';', '"', ' '],
        2 => {
            let mut v = ODD.to_vec();
            v.extend(['}', '\\', 'a']);
            v
        }
        _ => vec!['}', '\\'],
    };
    pool.push(any_char(rng));
    let giant = ctx.idx >= GIANT;
    // all the characters there are, a few in each case
    let chars = if giant { vec![] } else { swept(ctx.idx, 4) };
    if !chars.is_empty() {
        pool.clear();
        pool.extend(&chars);
        pool.extend(if rng.chance(1, 2) {
            ['}', '\\']
        } else {
            ['a', 'b']
        });
        ctx.st.add("characters_swept", chars.len() as u64);
    }
    let scale = if giant {
        *rng.pick(&[100, 1000, 3000])
    } else {
        1
    };
    let n = match rng.below(8) {
        _ if giant => {
            // stops are rare, or every section ends at once
            pool.push('b');
            pool.retain(|c| *c != '}' && *c != '\\');
            pool.extend(['c', 'd']);
            giant_size(rng, giant_max())
        }
        _ if !chars.is_empty() => rng.range(20, 60),
        0 => rng.range(0, 2),
        7 => rng.range(50, 400),
        _ => rng.range(1, 60),
    };
    let pairs = !giant && rng.chance(1, 2);
    let mut text = String::new();
    for _ in 0..n {
        if pairs && rng.chance(1, 3) {
            text.push_str(*rng.pick(&["\\}", "\\}", "\\\\}", "}\\"]));
        } else {
            text.push(*rng.pick(&pool));
        }
    }
    let chars: Vec<char> = text.chars().collect();
    let mut m = Model {
        src: chars.clone(),
        at: 0,
        levels: vec![],
        mutations: 0,
        stops: 0,
        escapes: 0,
    };
    let mut log = vec![];
    let kind = rng.below(4);
    let mut rng2 = rng.clone();
    let taken = Rc::new(Cell::new(0));
    let r = lib(|| match kind {
        0 | 1 => {
            let mut s = PeekableWrapper::from_str(&text);
            run_levels(&mut s, &mut m, &mut rng2, &pool, &mut log, scale)?;
            let rest: String = s.collect();
            let want: String = m.src[m.at..].iter().collect();
            ensure!(
                rest == want,
                "the source has {rest:?} left instead of {want:?}"
            );
            Ok(())
        }
        2 => {
            let mut s = PeekableWrapper::new(chars.clone().into_iter().peekable());
            run_levels(&mut s, &mut m, &mut rng2, &pool, &mut log, scale)?;
            let rest: String = s.collect();
            let want: String = m.src[m.at..].iter().collect();
            ensure!(
                rest == want,
                "the source has {rest:?} left instead of {want:?}"
            );
            Ok(())
        }
        _ => {
            let mut s = CountingSource {
                chars: chars.clone(),
                at: 0,
                taken: taken.clone(),
            };
            run_levels(&mut s, &mut m, &mut rng2, &pool, &mut log, scale)?;
            ensure!(
                taken.get() == m.at,
                "{} characters were taken from the source instead of {}",
                taken.get(),
                m.at
            );
            Ok(())
        }
    })
    .unwrap_or_else(|e| Err(format!("panicked: {e}")));
    *rng = rng2;
    if let Err(e) = r {
        let last = log.len().saturating_sub(40);
        return Err(format!(
            "text {}\noperations: {}\nthe last ones: {}\n{e}",
            short(&format!("{text:?}")),
            short(&log.join(" ")),
            short(&log[last..].join(" "))
        ));
    }
    ctx.st.add("operations", log.len() as u64);
    ctx.st.add("refused_at_a_stop", m.stops);
    ctx.st.add("escaped_stops_passed", m.escapes);
    ctx.st.add("characters_replaced_in_place", m.mutations);
    ctx.st.eval(hash_of(&(&text, &log)), log.len() > 5);
    ctx.st
        .sample(|| format!("{}: {}", short(&format!("{text:?}")), short(&log.join(" "))));
    ctx.st.max("position", m.at as u64);
    // other items than characters
    let rng = &mut ctx.rng;
    let v: Vec<u16> = (0..rng.below(20)).map(|_| rng.below(4) as u16).collect();
    let mut w = PeekableWrapper::new(v.clone().into_iter().peekable());
    let mut at = 0;
    for _ in 0..30 {
        let want = v.get(at).copied();
        let (got, exp, took) = match rng.below(4) {
            0 => (w.peek().copied(), want, false),
            1 => (w.next(), want, true),
            2 => {
                let k = rng.below(4) as u16;
                (w.next_if(|x| *x == k), want.filter(|x| *x == k), true)
            }
            _ => {
                let k = rng.below(4) as u16;
                (w.next_if_eq(&k), want.filter(|x| *x == k), true)
            }
        };
        if got != exp {
            return Err(format!(
                "a stream over {v:?} gave {got:?} instead of {exp:?} at {at}"
            ));
        }
        if took && exp.is_some() {
            at += 1;
        }
    }
    Ok(())
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "One case is one text (dense in stop and escape characters, or Unicode) and a random sequence of next, peek, peek_mut, next_if, next_if_eq and iterator reads on up to three nested sections with their own stop and escape characters, over a string, another iterator or a counting source. Every result and position is compared with a model of the nested sections; at the end the source must have given exactly what was consumed. Non-trivial with more than five operations, distinct by text and operations.",
    assumptions: &[
        "an escape character that is also the stop character is not covered",
        "the character after an escape character is content, also when both are escape characters: only the character directly before counts",
    ],
    quick: 4_000_000,
    thorough: 15_000_000,
    run: c10,
    stack_mb: 64,
    floor: &[
        ("operations", 30_000),
        ("refused_at_a_stop", 2_000),
        ("escaped_stops_passed", 60),
        ("characters_replaced_in_place", 300),
    ],
    extra: None,
    giants: 240,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C18

#[derive(Debug, PartialEq, Eq)]
enum Lex {
    Unit,
    Text(String),
    U(usize),
    I(isize),
    Unexpected(char, usize),
    End(usize),
    /// a number that does not fit
    Range,
    Empty,
    T(String),
    N(String),
}

fn lex<R>(r: Result<R, ParserError>, f: impl FnOnce(R) -> Lex) -> Lex {
    match r {
        Ok(x) => f(x),
        Err(ParserError::UnexpectedCharError { chr, pos, .. }) => Lex::Unexpected(chr, pos),
        Err(ParserError::EndOfCharsError { pos }) => Lex::End(pos),
        Err(_) => Lex::Range,
    }
}

/// (result, characters consumed: at least, at most)
fn lex_model(f: usize, v: &[char], base: usize, sym: char) -> (Lex, usize, usize) {
    let run = |from: usize, ok: &dyn Fn(char) -> bool| {
        v[from.min(v.len())..]
            .iter()
            .take_while(|c| ok(**c))
            .count()
    };
    let missing = |at: usize| match v.get(at) {
        Some(c) => Lex::Unexpected(*c, base + at),
        None => Lex::End(base + at),
    };
    let digit = |c: char| c.is_ascii_digit();
    let name = |c: char| c.is_alphanumeric() || c == '_';
    match f {
        0 => {
            let n = run(0, &char::is_whitespace);
            (Lex::Unit, n, n)
        }
        1 => {
            let n = run(0, &digit);
            (Lex::Text(v[..n].iter().collect()), n, n)
        }
        2 => {
            let n = run(0, &digit);
            if n == 0 {
                return (missing(0), 0, 0);
            }
            let mut x: u128 = 0;
            for c in &v[..n] {
                x = (x * 10 + u128::from(*c as u32 - 48)).min(1 << 100);
            }
            match usize::try_from(x) {
                Ok(x) => (Lex::U(x), n, n),
                Err(_) => (Lex::Range, 0, n),
            }
        }
        3 => {
            let neg = v.first() == Some(&'-');
            let k = usize::from(neg);
            let n = run(k, &digit);
            if n == 0 {
                return (missing(k), 0, k);
            }
            let mut x: i128 = 0;
            for c in &v[k..k + n] {
                x = (x * 10 + i128::from(*c as u32 - 48)).min(1 << 100);
            }
            if neg {
                x = -x;
            }
            match isize::try_from(x) {
                Ok(x) => (Lex::I(x), k + n, k + n),
                Err(_) => (Lex::Range, 0, k + n),
            }
        }
        4 => {
            if v.first() == Some(&sym) {
                (Lex::Unit, 1, 1)
            } else {
                (missing(0), 0, 0)
            }
        }
        5 => {
            if !v.first().is_some_and(|c| c.is_alphabetic()) {
                return (missing(0), 0, 0);
            }
            let n = run(0, &name);
            (Lex::Text(v[..n].iter().collect()), n, n)
        }
        6 | 7 => {
            // a terminal; 7: any element
            if f == 7 {
                match v.first() {
                    Some('#') => return (Lex::Empty, 1, 1),
                    Some(c) if c.is_alphabetic() => {
                        let n = run(0, &name);
                        return (Lex::N(v[..n].iter().collect()), n, n);
                    }
                    _ => {}
                }
            }
            if v.first() != Some(&'"') {
                return (missing(0), 0, 0);
            }
            let mut t = String::new();
            let mut i = 1;
            loop {
                match v.get(i) {
                    None => return (Lex::End(base + v.len()), 0, v.len()),
                    Some('"') => return (Lex::T(t), i + 1, i + 1),
                    Some('\\') => {
                        t.push('\\');
                        if let Some(c) = v.get(i + 1) {
                            t.push(*c);
                        }
                        i += 2;
                    }
                    Some(c) => {
                        t.push(*c);
                        i += 1;
                    }
                }
            }
        }
        _ => unreachable!(),
    }
}

const LEX_NAMES: &[&str] = &[
    "parse_whitespace",
    "parse_digits",
    "parse_usize",
    "parse_isize",
    "parse_symbol",
    "parse_var_name",
    "parse_terminal",
    "parse_element",
];

fn number_text(rng: &mut Rng) -> String {
    let big: i128 = match rng.below(7) {
        0 => i128::from(u64::MAX),
        1 => i128::from(i64::MAX),
        2 => 1 << 32,
        3 => 10_i128.pow(rng.below(22) as u32),
        4 => 1 << rng.below(70),
        5 => i128::from(rng.next()),
        _ => rng.below(1000) as i128,
    };
    let x = big + rng.below(5) as i128 - 2;
    let mut s = x.abs().to_string();
    if rng.chance(1, 6) {
        s = "0".repeat(rng.below(25)) + &s;
    }
    s
}

fn c18(ctx: &mut Ctx) -> Check {
    if ctx.idx < 0x10_f800u64.div_ceil(SWEPT) {
        return sweep(ctx);
    }
    let rng = &mut ctx.rng;
    let f = rng.below(8);
    let mut text = String::new();
    // what stands before, to be consumed first
    let before = rng.below(4);
    for _ in 0..before {
        text.push(*rng.pick(&['x', '7', ' ', '漢', '-', '\\']));
    }
    for _ in 0..rng.range(0, 3) {
        match rng.below(12) {
            0 | 1 => text.push_str(&number_text(rng)),
            2 => {
                text.push('-');
                text.push_str(&number_text(rng));
            }
            3 => text.push_str(&wild_ws(rng)),
            4 => {
                let n = rng.range(1, 3);
                let v = names(rng, n);
                text.push_str(&v[0]);
            }
            5 => {
                text.push('"');
                for _ in 0..rng.below(6) {
                    text.push(*rng.pick(&['a', '"', '\\', '漢', ';', '\n']));
                }
                text.push('"');
            }
            6 => text.push('#'),
            7 => text.push(*rng.pick(&[
                '٣', '²', '０', '½', 'ª', '_', 'Ⅷ', '\u{200b}', '\u{85}', '\u{feff}', '+', '.',
            ])),
            8 => text.push('-'),
            9 => text.push_str(&number_text(rng)),
            _ => text.push(any_char(rng)),
        }
    }
    if matches!(f, 6 | 7) && rng.chance(1, 2) {
        text.truncate(
            text.char_indices()
                .nth(before)
                .map_or(text.len(), |(i, _)| i),
        );
        text.push('"');
        for _ in 0..rng.below(8) {
            text.push(*rng.pick(&['a', '"', '\\', '漢', ';', '\n', '"']));
        }
    }
    if ctx.idx >= GIANT {
        let n = giant_size(rng, giant_max()) * *rng.pick(&[1, 1, 10]);
        text.truncate(
            text.char_indices()
                .nth(before)
                .map_or(text.len(), |(i, _)| i),
        );
        match f {
            0 => {
                let c = *rng.pick(&[' ', '\n', '\u{3000}', '\t']);
                text.extend((0..n).map(|_| c));
                text.push(any_char(rng));
            }
            1..=3 => {
                if f == 3 && rng.chance(1, 2) {
                    text.push('-');
                }
                if rng.chance(1, 2) {
                    text.extend((0..n).map(|_| '0'));
                    text.push_str(&number_text(rng));
                } else {
                    text.extend((0..n).map(|i| char::from(b'1' + (i % 9) as u8)));
                }
                text.push_str(*rng.pick(&["", " ", "a", "-", ";"]));
            }
            4 | 5 => {
                let c = *rng.pick(&['a', '漢', 'é', 'Z']);
                text.extend((0..n).map(|i| if i % 100 == 99 { '_' } else { c }));
                text.push_str(*rng.pick(&["", " ", "\"", "->"]));
            }
            _ => {
                if rng.chance(1, 3) && f == 7 {
                    text.extend((0..n).map(|_| 'n'));
                } else {
                    text.push('"');
                    let unit = *rng.pick(&["a", "漢", "\\\"", "\\\\", "a b\n"]);
                    text.push_str(&unit.repeat(n));
                    text.push_str(*rng.pick(&["\"", "\" ", "", "\\"]));
                }
            }
        }
        ctx.st.max("giant_text", text.len() as u64);
    }
    let chars: Vec<char> = text.chars().collect();
    let before = before.min(chars.len());
    let sym = match chars.get(before) {
        Some(c) if rng.chance(1, 2) => *c,
        _ => *rng.pick(&[';', '-', '>', '"', '漢', '\0']),
    };
    let stop = rng.chance(1, 3).then(|| match chars.last() {
        Some(c) if rng.chance(1, 2) => *c,
        _ => *rng.pick(&['}', ';', '5', ' ']),
    });
    let esc = (stop.is_some() && stop != Some('\\') && rng.chance(1, 2)).then_some('\\');
    let base = if rng.chance(1, 2) {
        0
    } else {
        any_position(rng)
    };
    lex_check(ctx, f, &text, before, sym, stop, esc, base, true)
}

/// Every character there is, in the hands of every helper.
fn sweep(ctx: &mut Ctx) -> Check {
    for c in swept(ctx.idx, SWEPT) {
        let (b, e) = (ctx.idx as usize % 100, Some('\\'));
        for (f, text) in [
            (0, format!(" {c} ")),
            (1, format!("1{c}2")),
            (2, format!("{c}1")),
            (2, format!("1{c}")),
            (3, format!("{c}1")),
            (3, format!("-{c}1")),
            (3, format!("1{c}")),
            (5, format!("{c}a")),
            (5, format!("a{c}b")),
            (6, format!("{c}a\"")),
            (6, format!("\"{c}\"")),
            (7, format!("{c}a\"")),
            (7, format!("\"a{c}\"a\"")),
            (7, format!("a{c}b")),
        ] {
            lex_check(ctx, f, &text, 0, ';', None, None, b, false)?;
        }
        // symbols are this character and no other
        for sym in near(c).into_iter().chain([c]) {
            lex_check(ctx, 4, &format!("{c}a"), 0, sym, None, None, b, false)?;
            lex_check(ctx, 4, &format!("{sym}{c}"), 0, c, None, None, b, false)?;
        }
        // and so are those that end and hide
        lex_check(ctx, 5, &format!("a{c}b"), 0, ';', Some(c), None, b, false)?;
        lex_check(
            ctx,
            6,
            &format!("\"{c}\""),
            0,
            ';',
            Some('}'),
            Some(c),
            b,
            false,
        )?;
        lex_check(
            ctx,
            5,
            &format!("a{c}b"),
            0,
            ';',
            Some('b'),
            e.filter(|e| *e != c),
            b,
            false,
        )?;
        ctx.st.inc("characters_swept");
        ctx.st.eval(hash_of(&c), true);
    }
    for s in phrases(ctx.idx) {
        for f in 0..8 {
            for text in [
                s.clone(),
                format!("{s}1"),
                format!("1{s}"),
                format!("1{s}2"),
                format!("-{s}1"),
                format!("{s}a\""),
                format!("a{s}b"),
                format!("\"{s}\"a\""),
                format!(" {s} "),
            ] {
                lex_check(ctx, f, &text, 0, ';', None, None, 0, false)?;
            }
        }
        ctx.st.inc("phrases");
    }
    Ok(())
}

const SWEPT: u64 = 64;

#[allow(clippy::too_many_arguments)]
fn lex_check(
    ctx: &mut Ctx,
    f: usize,
    text: &str,
    before: usize,
    sym: char,
    stop: Option<char>,
    esc: Option<char>,
    base: usize,
    note: bool,
) -> Check {
    let chars: Vec<char> = text.chars().collect();
    // what the helper can see after the first characters
    let mut l = Model {
        src: chars.clone(),
        at: 0,
        levels: vec![Level {
            pos: base,
            stop,
            esc,
            escaped: false,
        }],
        mutations: 0,
        stops: 0,
        escapes: 0,
    };
    let mut skipped = 0;
    while skipped < before && l.visible().is_some() {
        l.take();
        skipped += 1;
    }
    let pos0 = l.levels[0].pos;
    let mut seen = vec![];
    while let Some(c) = l.visible() {
        seen.push(c);
        l.take();
    }
    let (want, lo, hi) = lex_model(f, &seen, pos0, sym);
    let mut wrapper = PeekableWrapper::from_str(text);
    let r = lib(|| {
        let mut p = ParseProcess::new_nested(&mut wrapper, stop, esc, base);
        for _ in 0..skipped {
            p.next();
        }
        let got = match f {
            0 => {
                parse_whitespace(&mut p);
                Lex::Unit
            }
            1 => lex(parse_digits(&mut p), Lex::Text),
            2 => lex(parse_usize(&mut p), Lex::U),
            3 => lex(parse_isize(&mut p), Lex::I),
            4 => lex(parse_symbol(&mut p, sym), |()| Lex::Unit),
            5 => lex(parse_var_name(&mut p), Lex::Text),
            6 => lex(parse_terminal(&mut p), Lex::T),
            _ => lex(RuleParser::<NullVm>::parse_element(&mut p), |e| match e {
                None => Lex::Empty,
                Some(e) if e.et == ElementType::Terminal => Lex::T(e.name),
                Some(e) => Lex::N(e.name),
            }),
        };
        let used = p.cur_pos() - pos0;
        let rest: String = p.collect();
        (got, used, rest)
    });
    ctx.st.inc(LEX_NAMES[f]);
    ctx.st.inc(match &want {
        Lex::Unexpected(..) => "unexpected_character",
        Lex::End(_) => "unexpected_end",
        Lex::Range => "number_out_of_range",
        Lex::U(_) | Lex::I(_) => "numbers",
        _ => "other_results",
    });
    if stop.is_some() {
        ctx.st.inc("inside_a_section");
    }
    if note {
        ctx.st
            .eval(hash_of(&(f, text, stop, base, before, sym)), hi > 0);
    }
    let what = || {
        format!(
            "{} (symbol {sym:?}) at character {skipped} of {}, stop {stop:?}, escape {esc:?}, counting from {base}",
            LEX_NAMES[f],
            short(&format!("{text:?}"))
        )
    };
    if note {
        ctx.st
            .sample(|| format!("{}: {}", what(), short(&format!("{want:?}"))));
    }
    match r {
        Err(m) => Err(format!("{}: panicked: {m}", what())),
        Ok((got, used, rest)) => {
            ensure!(
                got == want,
                "{}: gave {} instead of {}",
                what(),
                short(&format!("{got:?}")),
                short(&format!("{want:?}"))
            );
            ensure!(
                (lo..=hi).contains(&used),
                "{}: consumed {used} characters instead of {lo}..={hi}",
                what()
            );
            let w: String = seen[used..].iter().collect();
            ensure!(
                rest == w,
                "{}: left {} instead of {}",
                what(),
                short(&format!("{rest:?}")),
                short(&format!("{w:?}"))
            );
            Ok(())
        }
    }
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "One case is one call of one lexical helper (white space, digits, unsigned and signed numbers, symbol, name, terminal, element) at some place of a text, inside or outside a section with stop and escape characters. Result, error place, characters consumed and what is left are compared with a model; numbers cluster around the limits of the machine types. The first 17,376 cases of a run sweep over all characters of Unicode, each put before every helper, as symbol, stop and escape character. Non-trivial when something can be consumed, distinct by input.",
    assumptions: &[
        "how much an unsuccessful number or terminal consumes is open, as long as it is part of what it looked at",
    ],
    quick: 5_000_000,
    thorough: 40_000_000,
    run: c18,
    stack_mb: 64,
    floor: &[
        ("numbers", 30),
        ("number_out_of_range", 5),
        ("unexpected_character", 100),
        ("unexpected_end", 50),
        ("inside_a_section", 200),
        ("parse_terminal", 80),
        ("parse_element", 80),
        ("characters_swept", 180),
    ],
    extra: None,
    giants: 240,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C21

pub fn describe(i: &Instruction) -> String {
    match i {
        Instruction::Add => "Add".into(),
        Instruction::RegAddConst(c) => format!("RegAddConst {c}"),
        Instruction::Sub => "Sub".into(),
        Instruction::Digit => "Digit".into(),
        Instruction::PopToReg => "PopToReg".into(),
        Instruction::PopToReg2 => "PopToReg2".into(),
        Instruction::PopDiscard => "PopDiscard".into(),
        Instruction::PushConst(c) => format!("PushConst {c}"),
        Instruction::PushFromTree => "PushFromTree".into(),
        Instruction::PushReg => "PushReg".into(),
        Instruction::PushReg2 => "PushReg2".into(),
        Instruction::PrintReg => "PrintReg".into(),
        Instruction::PrintReg2 => "PrintReg2".into(),
        Instruction::PrintError => "PrintError".into(),
        Instruction::Pow(c) => format!("Pow {c}"),
    }
}

const PLAIN: &[&str] = &[
    "Add",
    "Sub",
    "Digit",
    "PopToReg",
    "PopToReg2",
    "PopDiscard",
    "PushFromTree",
    "PushReg",
    "PushReg2",
    "PrintReg",
    "PrintReg2",
    "PrintError",
];
const WITH_NUMBER: &[&str] = &["RegAddConst", "PushConst", "Pow"];

#[derive(Debug)]
enum Prog {
    Ok(Vec<String>),
    Bad(Lex),
    /// a constant that is out of range
    Const,
    /// with an instruction the VM does not have: an error, or these, the others left out
    Open(Option<Vec<String>>),
}

/// Independent reader of program text (what a section shows, from position `base` on).
fn program(v: &[char], base: usize) -> Prog {
    let mut at = 0;
    let ws = |at: &mut usize| {
        while v.get(*at).is_some_and(|c| c.is_whitespace()) {
            *at += 1;
        }
    };
    let mut out = vec![];
    let mut open = false;
    let bad = |at: usize, open: bool| {
        if open {
            return Prog::Open(None);
        }
        Prog::Bad(match v.get(at) {
            Some(c) => Lex::Unexpected(*c, base + at),
            None => Lex::End(base + at),
        })
    };
    ws(&mut at);
    while at < v.len() {
        if !v[at].is_alphabetic() {
            return bad(at, open);
        }
        let b = at;
        while v.get(at).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
            at += 1;
        }
        let name: String = v[b..at].iter().collect();
        if WITH_NUMBER.contains(&name.as_str()) {
            ws(&mut at);
            let b = at;
            let mut x: u128 = 0;
            while v.get(at).is_some_and(char::is_ascii_digit) {
                x = (x * 10 + u128::from(v[at] as u32 - 48)).min(1 << 100);
                at += 1;
            }
            if b == at {
                return bad(at, open);
            }
            let limit = if name == "Pow" {
                usize::MAX as u128
            } else {
                isize::MAX as u128
            };
            if x > limit {
                return if open { Prog::Open(None) } else { Prog::Const };
            }
            out.push(format!("{name} {x}"));
        } else if PLAIN.contains(&name.as_str()) {
            out.push(name);
        } else {
            open = true;
        }
        ws(&mut at);
        if v.get(at) != Some(&';') {
            return bad(at, open);
        }
        at += 1;
        ws(&mut at);
    }
    if open {
        Prog::Open(Some(out))
    } else {
        Prog::Ok(out)
    }
}

pub fn program_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    let n = match rng.below(5) {
        0 => 0,
        1 => 1,
        2 => rng.range(10, 60),
        _ => rng.range(1, 8),
    };
    let tidy = rng.chance(1, 2);
    let strange = rng.chance(1, 6);
    let ws = |rng: &mut Rng, s: &mut String| {
        if !tidy {
            s.push_str(&wild_ws(rng));
        }
    };
    ws(rng, &mut s);
    for _ in 0..n {
        if rng.chance(1, 3) {
            s.push_str(*rng.pick(WITH_NUMBER));
            s.push(' ');
            ws(rng, &mut s);
            s.push_str(&number_text(rng));
        } else if strange && rng.chance(1, 3) {
            // almost an instruction
            let names = if rng.chance(1, 4) { WITH_NUMBER } else { PLAIN };
            let name = *rng.pick(names);
            let n = name.chars().count();
            let name = match rng.below(7) {
                0 | 1 => format!(
                    "{name}{}",
                    rng.pick(&["0", "1", "2", "3", "_", "s", "é", "A"])
                ),
                2 => name.chars().take(rng.range(1, n)).collect(),
                3 => name.chars().skip(rng.below(n)).collect(),
                4 => name.to_uppercase(),
                5 => name.to_lowercase(),
                _ => format!("{name}{}", rng.pick(PLAIN)),
            };
            s.push_str(&name);
        } else {
            s.push_str(*rng.pick(PLAIN));
        }
        if rng.chance(1, 4) {
            ws(rng, &mut s);
        }
        s.push(';');
        ws(rng, &mut s);
    }
    match rng.below(8) {
        0 | 1 => mutate(
            rng,
            &s,
            &[';', ' ', '1', '9', 'A', 'P', '-', '_', 'é', '\n', '2'],
        ),
        2 => {
            let n = s.chars().count();
            s.chars().take(rng.below(n + 1)).collect()
        }
        3 => {
            let name = rng.pick(PLAIN).to_lowercase();
            s + &name + ";"
        }
        _ => s,
    }
}

fn c21(ctx: &mut Ctx) -> Check {
    if ctx.idx < GIANT {
        for c in swept(ctx.idx, 1).into_iter().filter(|c| *c != '\\') {
            for text in [
                format!("{c}Add;"),
                format!("A{c}d;"),
                format!("Add{c};"),
                format!("Add{c}"),
                format!("Add;{c}Sub;"),
                format!("Add;Sub;{c}"),
                format!("PushConst{c}5;"),
                format!("PushConst {c};"),
                format!("PushConst 5{c};"),
                format!("PushConst 5{c}5;"),
                format!("PushConst 5;Add{c};{c}Sub{c};"),
            ] {
                let direct = ctx.rng.chance(1, 2);
                judge_program(ctx, &text, direct)?;
            }
            ctx.st.inc("characters_swept");
        }
        for s in phrases(ctx.idx).iter().filter(|s| !s.contains('\\')) {
            for text in [
                format!("{s}Add;"),
                format!("Add{s};"),
                format!("Add;{s}Sub;"),
                format!("Add;Sub;{s}"),
                format!("PushConst {s};"),
                format!("PushConst {s}5;"),
                format!("PushConst 5{s};"),
                format!("PushConst 5;Add{s};{s}Sub{s};"),
            ] {
                let direct = ctx.rng.chance(1, 2);
                judge_program(ctx, &text, direct)?;
            }
            ctx.st.inc("phrases");
        }
    }
    let rng = &mut ctx.rng;
    let mut text = program_text(rng).replace('\\', "");
    if ctx.idx >= GIANT {
        // a long program, made of pieces
        let n = giant_size(rng, giant_max() / 3);
        let pieces: Vec<String> = (0..rng.range(1, 4))
            .map(|_| {
                loop {
                    let s = program_text(rng).replace('\\', "");
                    if let Prog::Ok(_) = program(&s.chars().collect::<Vec<_>>(), 0) {
                        break s + " ";
                    }
                }
            })
            .collect();
        let mut long = String::new();
        match rng.below(4) {
            0 => long.push_str(&" ".repeat(n * 5)),
            1 => {
                long.push_str("PushConst ");
                long.push_str(&"0".repeat(n));
                long.push_str("7; ");
            }
            _ => {
                for i in 0..n {
                    let p = &pieces[i % pieces.len()];
                    if long.len() > 3_000_000 {
                        break;
                    }
                    long.push_str(if p.len() < 2 { "Add;" } else { p });
                }
            }
        }
        text = match rng.below(3) {
            0 => long,
            1 => long + &text,
            _ => text + &long,
        };
        ctx.st.max("giant_text", text.len() as u64);
    }
    if ctx.idx < GIANT {
        let near = disordered(&mut ctx.rng, &text, FOREIGN).replace('\\', "");
        let direct = ctx.rng.chance(1, 2);
        judge_program(ctx, &near, direct)?;
        ctx.st.inc("disordered");
    }
    let direct = ctx.rng.chance(1, 2);
    judge_program(ctx, &text, direct)
}

/// What can stand in the place of a part of a program.
const FOREIGN: &[&str] = &[
    ";",
    ";;",
    ",",
    ":",
    ".",
    "\u{37e}",
    "；",
    "(",
    ")",
    "(5)",
    "=5",
    "$5",
    "#5",
    "0x5",
    "0b1",
    "5_0",
    "5'0",
    "5.0",
    "5,0",
    "1e3",
    "+5",
    "-5",
    "--5",
    "5 5",
    "005",
    "５",
    "٥",
    "Ⅴ",
    "five",
    "\"5\"",
    "5usize",
    "5i64",
    "9223372036854775807",
    "9223372036854775808",
    "-9223372036854775808",
    "18446744073709551615",
    "Add",
    "add",
    "ADD",
    "Add5",
    "Add 5",
    "PushConst",
    "PushConst5",
    "PushConst(5)",
    "Pow",
    "Pow10",
    "Reg",
    "Pop",
    "Push",
    "Print",
    "//x\n",
    "/*x*/",
    "#x\n",
    "_",
    "A",
    "\u{feff}",
    "\u{200b}",
    "\0",
];

/// The instructions made of a text, or its error, are those of the independent reader.
fn judge_program(ctx: &mut Ctx, text: &str, direct: bool) -> Check {
    let vm = StackVm {};
    let chars: Vec<char> = text.chars().collect();
    let (base, seen): (usize, Vec<char>) = if direct {
        (0, chars)
    } else {
        // as the action of a rule; braces would end it
        let v: Vec<char> = chars.into_iter().filter(|c| *c != '}').collect();
        let lead = v.iter().take_while(|c| c.is_whitespace()).count();
        (
            "start -> \"x\" {".chars().count() + lead,
            v[lead..].to_vec(),
        )
    };
    let want = program(&seen, base);
    let shown = format!(
        "program text {} ({})",
        short(&format!("{text:?}")),
        if direct {
            "read directly"
        } else {
            "as an action"
        }
    );
    let got = if direct {
        let r = lib(|| {
            let mut w = PeekableWrapper::from_str(text);
            let mut p = ParseProcess::new(&mut w, None, None);
            vm.parse_instructions("start", &mut p)
        });
        match r {
            Err(m) => return Err(format!("{shown}: panicked: {m}")),
            Ok(r) => r.map(|v| v.iter().map(describe).collect::<Vec<_>>()),
        }
    } else {
        let body: String = text.chars().filter(|c| *c != '}').collect();
        match read_rules(&format!("start -> \"x\" {{{body}}};"), &vm) {
            Err(BuildErr::Panic(m)) => return Err(format!("{shown}: panicked: {m}")),
            Err(BuildErr::Rules(e)) => Err(e),
            Err(e) => return Err(format!("{shown}: {e:?}")),
            Ok(d) => Ok(d
                .get_rule_by_element_verbose("start")
                .map(|r| r.instruction.iter().map(describe).collect::<Vec<_>>())
                .unwrap_or_default()),
        }
    };
    ctx.st.eval(hash_of(&(text, direct)), seen.len() > 4);
    ctx.st
        .sample(|| format!("{shown}: {}", short(&format!("{want:?}"))));
    match (want, got) {
        (Prog::Open(w), g) => {
            ctx.st.inc("unknown_instruction");
            if let (Some(w), Ok(g)) = (w, g) {
                ensure!(
                    w == g,
                    "{shown}: gave {} instead of {}",
                    short(&format!("{g:?}")),
                    short(&format!("{w:?}"))
                );
                ctx.st.inc("unknown_instruction_skipped");
            }
        }
        (Prog::Ok(w), Ok(g)) if w == g => {
            ctx.st.inc("programs");
            ctx.st.add("instructions", w.len() as u64);
        }
        (Prog::Const, Err(e)) => {
            let shown_e = format!("{e:?}");
            ensure!(
                matches!(lex(Err::<(), _>(e), |()| Lex::Unit), Lex::Range),
                "{shown}: the error is {shown_e}, not about the number"
            );
            ctx.st.inc("constants_out_of_range");
        }
        (Prog::Bad(w), Err(e)) => {
            let shown_e = format!("{e:?}");
            let g = lex(Err::<(), _>(e), |()| Lex::Unit);
            // inside a rule file the end of the section is an end to the VM
            ensure!(g == w, "{shown}: the error is {shown_e} instead of {w:?}");
            ctx.st.inc("malformed_programs");
        }
        (w, g) => {
            return Err(format!(
                "{shown}: gave {} instead of {}",
                short(&format!("{g:?}")),
                short(&format!("{w:?}"))
            ));
        }
    }
    Ok(())
}

pub const C21: Prop = Prop {
    id: "C21",
    rule: "One case is one program text for the stack VM (all instructions, constants around the limits, any white space; possibly cut or changed, and once more with a few parts left out, doubled, exchanged or replaced), read directly or as an action in a rule file. The instructions, or the error and its place, are compared with an independent reader. Non-trivial above four characters, distinct by text and way. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "an instruction name the VM does not have may be an error or be skipped; nothing else may come of it",
    ],
    quick: 4_000_000,
    thorough: 15_000_000,
    run: c21,
    stack_mb: 64,
    floor: &[
        ("characters_swept", 10),
        ("programs", 300),
        ("instructions", 500),
        ("malformed_programs", 50),
        ("constants_out_of_range", 20),
        ("unknown_instruction_skipped", 10),
    ],
    extra: None,
    giants: 240,
    dev: (0, 0),
};
