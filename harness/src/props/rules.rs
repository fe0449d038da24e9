//! C07 rule notation, C08 ignores, C11 action sections, C19 arbitrary rule text.
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::{giant_max, layout};
use crate::props::sets::any_grammar;
use crate::runner::{Extra, GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::parse_funcs::{
    parse_isize, parse_symbol, parse_usize, parse_var_name, parse_whitespace,
};
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;

/// Characters tried in a case, before anything else.
const SWEPT: u64 = 4;

/// What a rule text defines, compared with the (woven) model.
fn same_data(d: &ParserData<TraceVm>, g: &Gram) -> Check {
    let verbose = d.get_elements_verbose();
    let mut have: BTreeSet<(bool, String)> = BTreeSet::new();
    for e in &verbose {
        ensure!(
            have.insert((e.et == ElementType::Terminal, e.name.clone())),
            "{:?} {:?} is registered twice",
            e.et,
            e.name
        );
    }
    let mut required: BTreeSet<(bool, String)> = BTreeSet::new();
    let mut allowed: BTreeSet<(bool, String)> =
        g.nts.iter().map(|n| (false, n.name.clone())).collect();
    let mut defined = 0;
    for nt in g.nts.iter().filter(|n| n.defined) {
        defined += 1;
        required.insert((false, nt.name.clone()));
        for s in nt.alts.iter().flatten() {
            required.insert(match s {
                Sym::T(t) => (true, t.clone()),
                Sym::N(j) => (false, g.nts[*j].name.clone()),
            });
        }
    }
    allowed.extend(required.iter().cloned());
    ensure!(
        required.is_subset(&have) && have.is_subset(&allowed),
        "the names and terminals read are {have:?} instead of {required:?}"
    );
    ensure!(
        d.parse_rules.rules.len() == defined,
        "{} rules were read instead of {defined}",
        d.parse_rules.rules.len()
    );
    for nt in g.nts.iter().filter(|n| n.defined) {
        let Some(rule) = d.get_rule_by_element_verbose(&nt.name) else {
            return Err(format!("there is no rule {:?}", nt.name));
        };
        let got: Vec<Vec<String>> = rule
            .possible_productions
            .iter()
            .map(|p| match &**p {
                Production::Empty => vec![],
                Production::NotEmpty(v) => v
                    .iter()
                    .map(|ix| match verbose.get(*ix) {
                        Some(e) if e.et == ElementType::Terminal => format!("{:?}", e.name),
                        Some(e) => e.name.clone(),
                        None => format!("?{ix}"),
                    })
                    .collect(),
            })
            .collect();
        let want: Vec<Vec<String>> = nt
            .alts
            .iter()
            .map(|a| {
                a.iter()
                    .map(|s| match s {
                        Sym::T(t) => format!("{t:?}"),
                        Sym::N(j) => g.nts[*j].name.clone(),
                    })
                    .collect()
            })
            .collect();
        ensure!(
            got == want,
            "the alternatives of {:?} are {got:?} instead of {want:?}",
            nt.name
        );
        let ins = nt
            .action
            .as_ref()
            .map(|t| instrs_for(&nt.name, t.trim_start()))
            .unwrap_or_default();
        ensure!(
            rule.instruction == ins,
            "the instructions of {:?} are {:?} instead of {ins:?}",
            nt.name,
            rule.instruction
        );
    }
    Ok(())
}

const NOTATION: &[char] = &[
    ';', '|', '#', '"', '-', '>', '{', '}', '$', ':', '[', ']', '\\', ' ', '\n', 'a', 'b', '_',
    '1', 'é', '漢', '\u{a0}',
];

/// Text that is rule text, nearly rule text, or made of its pieces.
pub fn rule_like(ctx: &mut Ctx) -> (String, &'static str) {
    let kind = ctx.rng.below(10);
    if kind < 2 {
        let rng = &mut ctx.rng;
        let n = rng.range(0, 12);
        const TOK: &[&str] = &[
            "a",
            "b",
            "start",
            "x_1",
            "->",
            " -> ",
            ";",
            ";\n",
            "|",
            " | ",
            "#",
            "\"q\"",
            "\"\"",
            "\"\\\"\"",
            "{",
            "}",
            "{x}",
            "$",
            "$IGNORE: a;",
            "$[IGNORE:#]",
            "$[IGNORE:a]",
            "$[",
            "IGNORE",
            ":",
            "]",
            " ",
            "\n",
            "-",
            ">",
            "\"",
            "\\",
            "é",
            "1",
            "_",
            "\u{3000}",
            "start -> \"x\";",
            "b->#;",
            "\u{feff}",
            "//",
            "\r\n",
            "\0",
        ];
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(rng.pick(TOK));
        }
        return (s, "pieces");
    }
    if kind == 2 {
        let rng = &mut ctx.rng;
        let n = rng.range(0, 40);
        return (
            (0..n)
                .map(|_| {
                    if rng.chance(1, 2) {
                        *rng.pick(NOTATION)
                    } else {
                        any_char(rng)
                    }
                })
                .collect(),
            "noise",
        );
    }
    let mut g = if ctx.rng.chance(1, 4) {
        ignored_grammar(&mut ctx.rng)
    } else {
        any_grammar(ctx, true)
    };
    let rng = &mut ctx.rng;
    for nt in &mut g.nts {
        if rng.chance(1, 3) {
            nt.action = Some(action_text(rng));
        }
    }
    let lay = layout(rng);
    let text = render(&g, lay, rng).text;
    match kind {
        3 => {
            let n = text.chars().count();
            let k = rng.below(n + 1);
            (text.chars().take(k).collect(), "prefix")
        }
        4..=7 => {
            let a = if rng.chance(2, 3) {
                NOTATION.to_vec()
            } else {
                alphabet(&g)
            };
            if rng.chance(1, 4)
                && let Some(text) = other_word(rng, &text)
            {
                return (text, "changed");
            }
            (mutate(rng, &text, &a), "changed")
        }
        8 if rng.chance(2, 3) => (disordered(rng, &text, FOREIGN), "disordered"),
        _ => (text, "intact"),
    }
}

/// The text with one of its key words changed.
fn other_word(rng: &mut Rng, text: &str) -> Option<String> {
    let count = text.matches("IGNORE").count();
    if count == 0 {
        return None;
    }
    let word = match rng.below(3) {
        0 => rng
            .pick(&[
                "IGNOR",
                "IGNORES",
                "ignore",
                "Ignore",
                "iGNORE",
                "IGNORED",
                "IGNORE_",
                "IGNORE1",
                "IGNOREIGNORE",
                "I",
                "WHITESPACE",
                "LEAVE",
                "\u{2160}GNORE",
                "ＩＧＮＯＲＥ",
                "İGNORE",
                "ıgnore",
            ])
            .to_string(),
        _ => mutate(
            rng,
            "IGNORE",
            &['I', 'G', 'N', 'O', 'R', 'E', 'i', '_', '0', ' '],
        ),
    };
    let (at, _) = text.match_indices("IGNORE").nth(rng.below(count)).unwrap();
    Some(format!("{}{word}{}", &text[..at], &text[at + 6..]))
}

/// What rule text is made of: names, terminals, sections, white space and symbols.
fn tokens(text: &str) -> Vec<String> {
    let v: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let start = i;
        let c = v[i];
        i += 1;
        if c == '"' || c == '{' {
            let end = if c == '"' { '"' } else { '}' };
            while i < v.len() && v[i] != end {
                i += if v[i] == '\\' { 2 } else { 1 };
            }
            i = (i + 1).min(v.len());
        } else if c == '-' && v.get(i) == Some(&'>') {
            i += 1;
        } else if c.is_alphanumeric() {
            while i < v.len() && (v[i].is_alphanumeric() || v[i] == '_') {
                i += 1;
            }
        } else if c.is_whitespace() {
            while i < v.len() && v[i].is_whitespace() {
                i += 1;
            }
        }
        out.push(v[start..i].iter().collect());
    }
    out
}

/// What can stand in the place of a part of the notation.
const FOREIGN: &[&str] = &[
    "→",
    "⇒",
    "=>",
    "-->",
    "<-",
    "::=",
    ":=",
    "=",
    ":",
    "->",
    ">",
    ">-",
    "- >",
    "||",
    "/",
    ",",
    ".",
    ";;",
    "\u{37e}",
    "；",
    "｜",
    "‖",
    "＃",
    "##",
    "ε",
    "\u{3b5}",
    "()",
    "(",
    ")",
    "*",
    "+",
    "?",
    "'x'",
    "`x`",
    "“x”",
    "\"x\"",
    "\"\"",
    "{}",
    "{x}",
    "{{x}}",
    "[x]",
    "<x>",
    "$",
    "$$",
    "$[]",
    "$[IGNORE:#]",
    "$IGNORE:#;",
    "[",
    "]",
    "|",
    ";",
    "#",
    "\\",
    "%",
    "@",
    "!",
    "~",
    "&",
    "_",
    "1",
    "start",
    "IGNORE",
    "//x\n",
    "/*x*/",
    "\u{feff}",
    "\u{200b}",
    "\0",
];

/// The text with a few of the things it is made of left out, doubled, exchanged or moved, or with
/// others in their place.
pub fn disordered(rng: &mut Rng, text: &str, foreign: &[&str]) -> String {
    let mut v = tokens(text);
    for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
        let n = v.len();
        if n == 0 {
            break;
        }
        // often next to, or in the place of, what is rare
        let mut at = rng.below(n);
        if rng.chance(1, 2) {
            let rare: Vec<usize> = (0..n)
                .filter(|i| {
                    matches!(
                        v[*i].chars().next(),
                        Some('{' | '$' | '[' | ']' | ':' | '#' | '|')
                    )
                })
                .collect();
            if !rare.is_empty() {
                at = *rng.pick(&rare);
            }
        }
        let from = rng.below(n);
        match rng.below(8) {
            0 => {
                v.remove(at);
            }
            1 => {
                let t = v[at].clone();
                v.insert(at, t);
            }
            2 => {
                // doubled, with white space between
                let t = v[at].clone();
                v.insert(at, " ".to_string());
                v.insert(at, t);
            }
            3 => v.swap(at, from),
            4 if at + 1 < n => v.swap(at, at + 1),
            5 => {
                let t = v[from].clone();
                v.insert(at, t);
            }
            6 => v.insert(at, rng.pick(foreign).to_string()),
            _ => v[at] = rng.pick(foreign).to_string(),
        }
    }
    v.concat()
}

/// A text of rules with this in each place.
fn with_this(c: &str) -> Vec<String> {
    vec![
        format!("a{c}b -> \"x\";"),
        format!("{c}a -> \"x\";"),
        format!("a -> \"{c}\";"),
        format!("a -> \"x\" {c} \"y\";"),
        format!("a {c}-> \"x\";"),
        format!("a -{c} \"x\";"),
        format!("a ->{c}\"x\";"),
        format!("a -> \"x\" {c}b; b{c}-> \"y\";"),
        format!("a -> \"\\{c}\";"),
        format!("a -> \"x\" {{ {c} }};"),
        format!("a -> \"x\" {{ \\{c} }};"),
        format!("a -> #{c};"),
        format!("a -> \"x\" |{c};"),
        format!("a -> \"x\";{c}"),
        format!("$IGNORE:{c}b;a -> \"x\"; b -> \"y\";"),
        format!("$IGNORE{c}:b;a -> \"x\"; b -> \"y\";"),
        format!("$IGNOR{c}:b;a -> \"x\"; b -> \"y\";"),
        format!("$IGNORE:b{c};a -> \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->$[IGNORE{c}:#] \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->$[IGNORE:{c}] \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->$[IGNORE:b{c}] \"x\"; b -> \"y\";"),
        format!("${c};a -> \"x\";"),
        // in the place of a part of the notation
        format!("a {c} \"x\";"),
        format!("a -> \"x\"{c}"),
        format!("a -> {c}x{c};"),
        format!("a -> {c}x\";"),
        format!("a -> \"x\" {c} | \"y\";"),
        format!("a -> {c} | \"y\";"),
        format!("{c}IGNORE:b;a -> \"x\"; b -> \"y\";"),
        format!("$IGNORE{c}b;a -> \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->{c}[IGNORE:#] \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->${c}IGNORE:#] \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->$[IGNORE:#{c} \"x\"; b -> \"y\";"),
        format!("$IGNORE:b;a ->$[IGNORE{c}#] \"x\"; b -> \"y\";"),
        format!("a -> \"x\" {c}x}};"),
        format!("a -> \"x\" {{x{c};"),
    ]
}

fn c07(ctx: &mut Ctx) -> Check {
    let vm = TraceVm::new(ctx.rng.below(6));
    if ctx.idx < GIANT {
        for c in swept(ctx.idx, SWEPT) {
            for text in with_this(&c.to_string()) {
                judge_reading(ctx, &text, "swept", &vm)?;
            }
            ctx.st.inc("characters_swept");
        }
        for s in phrases(ctx.idx) {
            for text in with_this(&s) {
                judge_reading(ctx, &text, "phrase", &vm)?;
            }
        }
    }
    if ctx.rng.chance(1, 2) {
        // a grammar written down
        let mut g = any_grammar(ctx, false);
        let rng = &mut ctx.rng;
        let big = ctx.idx >= GIANT;
        for nt in &mut g.nts {
            if rng.chance(1, 2) {
                nt.action = Some(action_text(rng));
            }
        }
        let mut lay = layout(rng);
        let mut vast = 0;
        if big {
            if rng.chance(1, 2) {
                lay = Layout::Wild;
                vast = rng.range(1000, giant_max());
            } else if rng.chance(1, 2) {
                lay = Layout::Parts;
                g.nts.iter_mut().for_each(|n| n.action = None);
            } else {
                g.nts[0].action = Some(giant_action(rng, giant_max()));
            }
        }
        let text = render_with(&g, lay, rng, vast).text;
        ctx.st.inc("written_grammars");
        ctx.st.inc(&format!("layout_{lay:?}"));
        ctx.st.add("rules", g.nts.len() as u64);
        ctx.st.max("text_chars", text.chars().count() as u64);
        ctx.st.eval(hash_of(&text), g.nts.len() > 1);
        let d = match read_rules(&text, &vm) {
            Ok(d) => d,
            Err(e) => {
                return Err(format!("rule text:\n{}\nwas not read: {e:?}", short(&text)));
            }
        };
        ctx.st.sample(|| short(&text));
        let say = |m: String| format!("rule text:\n{}\n{m}", short(&text));
        same_data(&d, &g).map_err(say)?;
        if ctx.rng.chance(1, 3) {
            let (d, parts) = one_by_one(&text, &vm).map_err(say)?;
            same_data(&d, &g).map_err(|m| say(format!("read rule by rule: {m}")))?;
            if let Some((name, ignore)) = parts.iter().find(|(_, i)| i.is_some()) {
                return Err(say(format!("the rule {name:?} ignores {ignore:?}")));
            }
            ctx.st.add("rules_read_one_by_one", parts.len() as u64);
        }
        return Ok(());
    }
    let (text, kind) = rule_like(ctx);
    judge_reading(ctx, &text, kind, &vm)
}

/// The rules read one by one, with the ignored rule that is in force for each part of a rule.
fn one_by_one(
    text: &str,
    vm: &TraceVm,
) -> Result<(ParserData<TraceVm>, Vec<(String, Option<String>)>), String> {
    let chars: Vec<char> = text.chars().collect();
    let r = lib(|| -> Result<_, String> {
        let mut source = PeekableWrapper::from_str(text);
        let mut rp = RuleParser::new(&mut source, vm);
        let mut parts = vec![];
        loop {
            parse_whitespace(&mut rp.parse_process);
            let at = rp.parse_process.cur_pos();
            if rp.parse_process.peek().is_none() {
                ensure!(
                    at == chars.len(),
                    "the text of {} characters ends at {at}",
                    chars.len()
                );
                break;
            }
            let before = vm.reads.borrow().len();
            let (ix, rule) = rp
                .parse_rule()
                .map_err(|e| format!("the rule at {at} was not read: {e}"))?;
            let after = rp.parse_process.cur_pos();
            ensure!(
                chars[at..after.clamp(at, chars.len())]
                    .iter()
                    .rfind(|c| !c.is_whitespace())
                    == Some(&';'),
                "reading the rule at {at} ended at {after}, not behind its end"
            );
            let name = |ix: usize| {
                rp.parser_data
                    .get_element_verbose(ix)
                    .map(|e| e.name)
                    .unwrap_or_default()
            };
            let head: String = chars[at..].iter().take(name(ix).chars().count()).collect();
            ensure!(
                head == name(ix),
                "the rule at {at} is named {:?} instead of {head:?}",
                name(ix)
            );
            ensure!(
                vm.reads.borrow().len() <= before + 1,
                "the VM was asked more than once for the rule at {at}"
            );
            parts.push((name(ix), rule.ignore.map(name)));
            let rules = &mut rp.parser_data.parse_rules.rules;
            match rules.get_mut(&ix) {
                Some(r) => r.possible_productions.extend(rule.possible_productions),
                None => {
                    rules.insert(ix, rule);
                }
            }
        }
        Ok((rp.parser_data, parts))
    });
    match r {
        Ok(r) => r,
        Err(m) => Err(format!("reading rule by rule panicked: {m}")),
    }
}

/// What is made of a text is what the independent reader makes of it.
fn judge_reading(ctx: &mut Ctx, text: &str, kind: &str, vm: &TraceVm) -> Check {
    let want = read(text);
    let got = read_rules(text, vm);
    ctx.st.eval(hash_of(text), text.len() > 3);
    let say = |m: String| Err(format!("rule text:\n{}\n{m}", short(text)));
    if let Err(BuildErr::Panic(m)) = &got {
        return say(format!("reading it panicked: {m}"));
    }
    match want {
        Ok(g) => {
            let ignores = (0..g.nts.len()).any(|i| g.ignore_of(i).is_some());
            if ignores && (g.has_undefined() || g.nts.iter().any(|n| !n.defined)) {
                ctx.st.inc("not_compared");
                return Ok(());
            }
            ctx.st.inc(&format!("{kind}_wellformed"));
            match got {
                Err(e) => say(format!("is rule text, but was not read: {e:?}")),
                Ok(d) => same_data(&d, &g.woven()).or_else(say),
            }
        }
        Err(ReadErr::Open(_)) => {
            ctx.st.inc("not_compared");
            Ok(())
        }
        Err(ReadErr::Malformed(p)) => {
            ctx.st.inc(&format!("{kind}_malformed"));
            match got {
                Ok(_) => say(format!(
                    "was read, though it is no rule text from character {p} on"
                )),
                Err(_) => Ok(()),
            }
        }
    }
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "One case is one rule text: a random grammar of any kind written down in a random layout (plain, without any optional space, or with any Unicode white space in any optional place; Unicode names; terminals with any characters and escapes; rules given in two parts; action sections), or such a text cut, changed in a few places, with parts of it left out, doubled, exchanged or replaced by others, assembled from pieces, or noise. What the rule reader makes of it is compared with the grammar it was written from, or with an independent reader of the notation (both whether it is rule text and what it says); every third one written down is also read rule by rule through `RuleParser::parse_rule`, which must read one rule each time and lead to the same. Non-trivial: more than one rule or more than three bytes, distinct by text. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "the notation is the one of the readme and the tests: a backslash in a terminal keeps the character after it from ending the terminal, and stays",
        "left open and not compared: overrides other than IGNORE that say nothing (`$[X:]`), actions or ignores of a rule given in parts, ignores together with undefined names",
    ],
    quick: 350_000,
    thorough: 3_000_000,
    run: c07,
    stack_mb: 256,
    floor: &[
        ("characters_swept", 100),
        ("written_grammars", 300),
        ("changed_malformed", 50),
        ("changed_wellformed", 20),
        ("intact_wellformed", 30),
        ("pieces_malformed", 20),
        ("disordered_malformed", 10),
        ("layout_Wild", 100),
        ("rules_read_one_by_one", 200),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C08

/// A giant with optional blanks between all elements.
fn giant_ignores(ctx: &mut Ctx) -> Gram {
    let rng = &mut ctx.rng;
    loop {
        let (mut g, kind) = giant(rng, giant_max().min(20_000));
        let ws = g.nts.len();
        g.nts.push(Gram::nt(
            "ws",
            vec![vec![Sym::T(" ".into()), Sym::N(ws)], vec![]],
        ));
        let from = if rng.chance(1, 2) { 0 } else { rng.below(ws) };
        for (i, nt) in g.nts.iter_mut().enumerate() {
            if i == ws {
                nt.ov = Ov::Off;
            } else if i >= from {
                nt.inherited = Some(ws);
            }
        }
        g.nts[ws].inherited = Some(ws);
        if analyse(&g.woven()).ll1() {
            ctx.st.inc(&format!("giants_{kind}"));
            return g;
        }
    }
}

fn c08(ctx: &mut Ctx) -> Check {
    let mut g = if ctx.idx >= GIANT {
        giant_ignores(ctx)
    } else {
        ignored_grammar(&mut ctx.rng)
    };
    let rng = &mut ctx.rng;
    for nt in &mut g.nts {
        if rng.chance(1, 4) {
            nt.action = Some(action_text(rng));
        }
    }
    let lay = layout(rng);
    let text = render(&g, lay, rng).text;
    if ctx.idx < GIANT && rng.chance(1, 4) {
        // nearly the same: only the notation itself directs what is ignored
        let near = match other_word(rng, &text) {
            Some(t) if rng.chance(1, 2) => t,
            _ => disordered(rng, &text, FOREIGN),
        };
        let vm = TraceVm::new(ctx.rng.below(6));
        judge_reading(ctx, &near, "near", &vm)?;
    }
    let rng = &mut ctx.rng;
    let w = g.woven();
    let a = analyse(&w);
    let vm = TraceVm::new(rng.below(6));
    let say = |m: String| Err(format!("rule text:\n{}\n{m}", short(&text)));
    let d = match read_rules(&text, &vm) {
        Ok(d) => d,
        Err(e) => return say(format!("was not read: {e:?}")),
    };
    if let Err(m) = same_data(&d, &w) {
        return say(m);
    }
    let woven = (0..g.nts.len())
        .filter(|i| g.nts[*i].alts != w.nts[*i].alts)
        .count();
    let exempt = (0..g.nts.len())
        .filter(|i| {
            g.ignore_of(*i).is_some()
                && g.nts[*i].alts.iter().any(|a| a.len() > 1)
                && g.nts[*i].alts == w.nts[*i].alts
        })
        .count();
    ctx.st.add("rules_woven_into", woven as u64);
    ctx.st
        .add("rules_of_ignored_text_left_alone", exempt as u64);
    for nt in &g.nts {
        match nt.ov {
            Ov::Inherit if nt.inherited.is_some() => ctx.st.inc("rules_under_a_directive"),
            Ov::Inherit => ctx.st.inc("rules_before_any_directive"),
            Ov::Off => ctx.st.inc("rules_switched_off"),
            Ov::Use(_) => ctx.st.inc("rules_with_their_own"),
        }
    }
    ctx.st.eval(hash_of(&text), woven > 0);
    ctx.st.sample(|| short(&text));
    let mut p = if ctx.rng.chance(1, 2) {
        match text_parser(&text, &vm) {
            Ok(p) => p,
            Err(e) => return say(format!("no parser could be built: {e:?}")),
        }
    } else {
        match stages(d, None) {
            Ok(s) => Parser::new(s.maps, s.elements, &vm),
            Err(e) => return say(format!("no parser could be built: {e:?}")),
        }
    };
    let mut rp = RefParser::new(&w, &a);
    rp.keep_subtrees = false;
    let scripts = scripts(&mut ctx.rng, &w, 10, 40);
    // a sentence of the grammar without ignores is one with them when all ignored text is optional
    let nullable_all = (0..g.nts.len()).all(|i| g.ignore_of(i).is_none_or(|x| a.nullable[x]));
    let mut bare = g.clone();
    for nt in &mut bare.nts {
        nt.ov = Ov::Off;
    }
    let h = heights(&bare);
    let mut all: Vec<(String, bool)> = scripts.into_iter().map(|s| (s, false)).collect();
    for _ in 0..4 {
        if let Some(s) = sentence(&bare, &h, &mut ctx.rng, 20) {
            all.push((s, true));
        }
    }
    for (s, plain) in &all {
        let chars: Vec<char> = s.chars().collect();
        let want = rp.run(&chars).result;
        if *plain && nullable_all {
            assert!(want.is_ok(), "oracle");
            ctx.st.inc("sentences_without_ignored_text");
        }
        let mut state = TraceVm::create_new_state();
        match (want, parse(&mut p, s, &mut state)) {
            (Ok(t), Out::Ok(shape)) if shape == t.shape() => ctx.st.inc("scripts_accepted"),
            (Err(_), Out::Unexpected { .. } | Out::End { .. }) => ctx.st.inc("scripts_rejected"),
            (want, got) => {
                return say(format!(
                    "script {s:?}\nparse gave {}\ninstead of {}",
                    got.short(),
                    short(&format!("{:?}", want.map(|t| t.shape().show())))
                ));
            }
        }
    }
    Ok(())
}

pub const C08: Prop = Prop {
    id: "C08",
    rule: "One case is one grammar with ignored rules (directives at any place in the file, overrides per rule, several ignored rules, optional or not, some with rules of their own), LL(1) after weaving. The productions read are compared with the model's weaving, and scripts with and without ignored text with the reference parse of the woven grammar. A quarter of the texts is also tried with a key word or a few other parts changed, against the independent reader. Non-trivial when something was woven in, distinct by text.",
    assumptions: &[
        "ignored text is allowed between neighbouring elements of an alternative, not before the first or after the last, and appears in the tree",
        "rules the ignored rule itself uses are not woven into",
    ],
    quick: 80_000,
    thorough: 2_000_000,
    run: c08,
    stack_mb: 256,
    floor: &[
        ("rules_woven_into", 500),
        ("rules_of_ignored_text_left_alone", 200),
        ("rules_switched_off", 200),
        ("rules_with_their_own", 100),
        ("rules_before_any_directive", 100),
        ("scripts_accepted", 1500),
        ("scripts_rejected", 1000),
        ("sentences_without_ignored_text", 300),
        ("near_malformed", 50),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C11

/// Reads `take` characters of each section (all if None) and then fails if told to.
struct PartVm {
    take: Vec<Option<usize>>,
    fail_at: Option<(usize, u8)>,
    calls: Cell<usize>,
    reads: RefCell<Vec<ReadCall>>,
    problems: RefCell<Vec<String>>,
}
impl VM for PartVm {
    type Tstate = ();
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let start = to_parse.cur_pos();
        let mut text = String::new();
        match self.take.get(n).copied().flatten() {
            None => text = drain(to_parse, 4, n, &self.problems),
            Some(k) => {
                for _ in 0..k {
                    match to_parse.next() {
                        Some(c) => text.push(c),
                        None => break,
                    }
                }
            }
        }
        self.reads.borrow_mut().push(ReadCall {
            rule: prod_name.to_string(),
            text,
            start,
            end: to_parse.cur_pos(),
        });
        if let Some((k, kind)) = self.fail_at
            && k == n
        {
            return Err(vm_error(kind, to_parse.cur_pos()));
        }
        Ok(vec![n])
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &usize, _: &mut ()) {}
    fn create_new_state() {}
}

fn vm_error(kind: u8, pos: usize) -> ParserError {
    match kind {
        0 => ParserError::VmError {
            message: format!("no such instruction at {pos}"),
        },
        1 => ParserError::EndOfCharsError { pos },
        2 => ParserError::UnexpectedCharError {
            chr: '?',
            pos,
            expected: "something else".into(),
        },
        3 => ParserError::Impossible,
        _ => ParserError::GramError {
            err: GrammarError::MissingProduction { index: pos },
        },
    }
}

fn c11(ctx: &mut Ctx) -> Check {
    let big = ctx.idx >= GIANT;
    let chars = if ctx.idx % 11 == 10 {
        swept(ctx.idx / 11, 64)
    } else {
        vec![]
    };
    let mut g = if big && ctx.rng.chance(1, 3) {
        giant(&mut ctx.rng, giant_max().min(20_000)).0
    } else if ctx.rng.chance(1, 4) {
        ignored_grammar(&mut ctx.rng)
    } else {
        ll1_grammar(&mut ctx.rng)
    };
    let rng = &mut ctx.rng;
    for nt in &mut g.nts {
        if rng.chance(2, 3) {
            nt.action = Some(action_text(rng));
        }
    }
    if big {
        let k = rng.below(g.nts.len());
        g.nts[k].action = Some(giant_action(rng, giant_max()));
    }
    if !chars.is_empty() {
        // every character, plain and behind a backslash, in the sections of a few rules
        for (k, part) in chars.chunks(chars.len().div_ceil(g.nts.len())).enumerate() {
            let mut t = String::new();
            for c in part {
                match c {
                    '\\' => t.push_str("\\\\."),
                    '}' => t.push_str("\\}"),
                    c => t.extend([*c, '\\', *c]),
                }
            }
            ctx.st.add("characters_swept", part.len() as u64);
            g.nts[k].action = Some(t);
        }
    }
    if ctx.idx % 11 == 9 {
        // what other notations have for remarks, quotes and the like
        let mut k = 0;
        for n in 0..4 {
            for s in phrases(ctx.idx / 11 * 4 + n) {
                let mut t = s.replace('}', "\\}");
                if t.ends_with('\\') {
                    t.push('.');
                }
                if rng.chance(1, 2) {
                    t.insert_str(0, "x ");
                }
                ctx.st.inc("phrases");
                let count = g.nts.len();
                let a = &mut g.nts[k % count].action;
                match a {
                    Some(a) if k >= count => a.push_str(&t),
                    _ => *a = Some(t),
                }
                k += 1;
            }
        }
    }
    let lay = layout(rng);
    let r = render(&g, lay, rng);
    let text = &r.text;
    if !big && rng.chance(1, 4) {
        // nearly the same, with other things about the sections
        let near = disordered(rng, text, FOREIGN);
        let vm = TraceVm::new(ctx.rng.below(6));
        judge_reading(ctx, &near, "near", &vm)?;
    }
    let rng = &mut ctx.rng;
    let say = |m: String| Err(format!("rule text:\n{}\n{m}", short(text)));
    // everything is handed over, rule by rule
    let vm = TraceVm::new(rng.below(6));
    let d = match read_rules(text, &vm) {
        Ok(d) => d,
        Err(e) => return say(format!("was not read: {e:?}")),
    };
    let want: Vec<ReadCall> = r
        .actions
        .iter()
        .map(|(rule, start, text)| ReadCall {
            rule: rule.clone(),
            text: text.clone(),
            start: *start,
            end: start + text.chars().count(),
        })
        .collect();
    ctx.st.eval(hash_of(text), !want.is_empty());
    ctx.st.add("sections", want.len() as u64);
    ctx.st
        .sample(|| format!("{}\nsections {want:?}", short(text)));
    if let Some(m) = vm.problems.borrow().first() {
        return say(m.clone());
    }
    {
        let got = vm.reads.borrow();
        for k in 0..got.len().max(want.len()) {
            if got.get(k) != want.get(k) {
                return say(format!(
                    "section {k} was handed to the VM as {:?} instead of {:?}",
                    got.get(k),
                    want.get(k)
                ));
            }
        }
    }
    if let Err(m) = same_data(&d, &g.woven()) {
        return say(m);
    }
    for (rule, _, t) in &r.actions {
        if t.contains("\\}") {
            ctx.st.inc("sections_with_escaped_braces");
        }
        if t.is_empty() {
            ctx.st.inc("empty_sections");
        }
        let _ = rule;
    }
    if want.is_empty() {
        return Ok(());
    }
    // a VM that fails, or leaves text unread, in one of them
    let rng = &mut ctx.rng;
    let k = rng.below(want.len());
    let len = want[k].text.chars().count();
    let mut take = vec![None; want.len()];
    let fails = rng.chance(1, 2);
    let part = if fails && rng.chance(1, 2) {
        None
    } else {
        Some(rng.below(len + 2))
    };
    take[k] = part;
    let kind = rng.below(5) as u8;
    let vm = PartVm {
        take,
        fail_at: fails.then_some((k, kind)),
        calls: Cell::new(0),
        reads: RefCell::new(vec![]),
        problems: RefCell::new(vec![]),
    };
    let got = read_rules(text, &vm);
    if let Some(m) = vm.problems.borrow().first() {
        return say(m.clone());
    }
    let read_to = want[k].start + part.unwrap_or(len).min(len);
    let what = format!(
        "a VM that reads {part:?} characters of section {k} ({:?}){}",
        want[k].text,
        if fails { " and fails there" } else { "" }
    );
    let calls = vm.calls.get();
    if fails {
        ctx.st.inc("failing_vms");
        let e = vm_error(kind, read_to);
        match got {
            Err(BuildErr::Rules(x)) if format!("{x:?}") == format!("{e:?}") => {}
            Err(x) => return say(format!("{what}: reported as {x:?} instead of {e:?}")),
            Ok(_) => return say(format!("{what}: its error was swallowed")),
        }
        if calls != k + 1 {
            return say(format!(
                "{what}: reading went on, {calls} sections were handed out"
            ));
        }
    } else if read_to < want[k].end {
        ctx.st.inc("sections_left_unread");
        let c = want[k].text.chars().nth(read_to - want[k].start);
        if c == Some('}') {
            // to the reader the escaped brace now looks like the end: the VM broke its contract
            ctx.st.inc("stopped_between_backslash_and_brace");
            return Ok(());
        }
        match got {
            Ok(_) => return say(format!("{what}: the unread text was dropped silently")),
            Err(BuildErr::Rules(ParserError::UnexpectedCharError { chr, pos, .. }))
                if Some(chr) == c && pos == read_to => {}
            Err(e) => {
                return say(format!(
                    "{what}: the unread {c:?} at {read_to} is reported as {e:?}"
                ));
            }
        }
    } else {
        ctx.st.inc("sections_read_by_count");
        match got {
            Ok(d) => {
                // the instructions of the k-th section are [k]
                for (k, (rule, _, _)) in r.actions.iter().enumerate() {
                    let ins = d.get_rule_by_element_verbose(rule).map(|r| &r.instruction);
                    if ins != Some(&vec![k]) {
                        return say(format!(
                            "{what}: rule {rule:?} has the instructions {ins:?} instead of [{k}]"
                        ));
                    }
                }
            }
            Err(e) => return say(format!("{what}: {e:?}")),
        }
    }
    Ok(())
}

pub const C11: Prop = Prop {
    id: "C11",
    rule: "One case is one LL(1) grammar in rule text whose rules carry action sections of arbitrary text (escaped braces, quotes, nested openings, Unicode, white space). A recording VM that reads each section in one of six ways logs rule name, text and positions of every call; the log is compared with the sections written. A second VM reads only part of one section, or fails there with one of five errors. A quarter of the texts is also tried with a few parts left out, doubled, exchanged or replaced, against the independent reader. Non-trivial with at least one section, distinct by text. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "white space directly after the opening brace is not part of what the VM gets, as the reader has always skipped it",
        "a closing brace directly after a backslash belongs to the section",
        "not judged: a VM that stops reading between a backslash and the brace it escapes",
    ],
    quick: 200_000,
    thorough: 2_500_000,
    run: c11,
    stack_mb: 256,
    floor: &[
        ("near_malformed", 50),
        ("characters_swept", 100),
        ("sections", 1500),
        ("sections_with_escaped_braces", 100),
        ("empty_sections", 50),
        ("failing_vms", 200),
        ("sections_left_unread", 100),
        ("sections_read_by_count", 50),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C19

fn err_pos(e: &ParserError) -> Option<usize> {
    match e {
        ParserError::UnexpectedCharError { pos, .. }
        | ParserError::EndOfCharsError { pos }
        | ParserError::UnknownSpecialOperation { pos, .. } => Some(*pos),
        ParserError::GramError {
            err: GrammarError::UnexpectedElementError { pos, .. },
        } => Some(*pos),
        _ => None,
    }
}

fn c19(ctx: &mut Ctx) -> Check {
    if ctx.idx < GIANT {
        for c in swept(ctx.idx, SWEPT) {
            for text in with_this(&c.to_string()) {
                judge_any(ctx, &text, "swept")?;
            }
            ctx.st.inc("characters_swept");
        }
        for s in phrases(ctx.idx) {
            for text in with_this(&s) {
                judge_any(ctx, &text, "phrase")?;
            }
        }
    }
    let (text, kind) = if ctx.idx >= GIANT {
        giant_rules(ctx)
    } else if ctx.idx % 50 == 3 {
        (large_rules(&mut ctx.rng), "large")
    } else {
        rule_like(ctx)
    };
    if text.contains('{') {
        judge_sections(ctx, &text)?;
    }
    judge_any(ctx, &text, kind)
}

/// Reads some of each section and then asks for what may not be there.
struct AskVm {
    take: usize,
    how: u8,
}
impl VM for AskVm {
    type Tstate = ();
    type Tinstrution = ();
    fn parse_instructions<'a, T>(
        &'a self,
        _: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<()>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        for _ in 0..self.take {
            if to_parse.next().is_none() {
                break;
            }
        }
        match self.how {
            0 => parse_symbol(to_parse, '\u{10fffe}')?,
            1 => drop(parse_usize(to_parse)?),
            2 => drop(parse_isize(to_parse)?),
            _ => drop(parse_var_name(to_parse)?),
        }
        while to_parse.next().is_some() {}
        Ok(vec![])
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &(), _: &mut ()) {}
    fn create_new_state() {}
}

/// A fault that a machine finds in a section is reported with its place in the whole text.
fn judge_sections(ctx: &mut Ctx, text: &str) -> Check {
    let rng = &mut ctx.rng;
    let how = rng.below(6) as u8;
    let take = *rng.pick(&[0, 0, 1, 2, 5, 40]);
    let (by, got) = match how {
        4 => ("StackVm", read_rules(text, &StackVm {}).err()),
        5 => ("SimpleStackVm", read_rules(text, &SimpleStackVm {}).err()),
        how => (
            "a machine of its own",
            read_rules(text, &AskVm { take, how }).err(),
        ),
    };
    ctx.st.inc("read_for_machines");
    let chars = || text.chars();
    let wrong = match &got {
        Some(BuildErr::Panic(m)) => Some(format!("reading it panicked: {m}")),
        Some(BuildErr::Rules(e)) => {
            if lib(|| (e.to_string(), format!("{e:?}"))).is_err() {
                return Err(format!(
                    "rule text:\n{}\nan error cannot be shown",
                    short(text)
                ));
            }
            match e {
                ParserError::UnexpectedCharError { chr, pos, .. } => {
                    ctx.st.inc("faults_in_place");
                    (chars().nth(*pos) != Some(*chr)).then(|| format!("{e:?}"))
                }
                ParserError::EndOfCharsError { pos } => match chars().nth(*pos) {
                    Some('}') => {
                        ctx.st.inc("sections_that_end");
                        None
                    }
                    None if *pos == chars().count() => None,
                    _ => Some(format!("{e:?}")),
                },
                _ => None,
            }
        }
        _ => None,
    };
    match wrong {
        None => Ok(()),
        Some(m) => Err(format!(
            "rule text:\n{}\nread for {by} (take {take}, {how}): not in its place: {m}",
            short(text)
        )),
    }
}

/// Reading a text, and building and using what it defines, ends with a value or an error that
/// points into the text.
fn judge_any(ctx: &mut Ctx, text: &str, kind: &str) -> Check {
    let chars: Vec<char> = text.chars().collect();
    let vm = NullVm::new();
    ctx.st.eval(hash_of(text), text.len() > 3);
    ctx.st.inc(kind);
    ctx.st.max("text_chars", chars.len() as u64);
    let say = |m: String| Err(format!("rule text:\n{}\n{m}", short(text)));
    let d = match read_rules(text, &vm) {
        Err(BuildErr::Panic(m)) => return say(format!("reading it panicked: {m}")),
        Err(BuildErr::Rules(e)) => {
            ctx.st.inc("errors");
            let shown = lib(|| (e.to_string(), format!("{e:?}")));
            match shown {
                Ok((s, d)) if !s.is_empty() && !d.is_empty() => {}
                x => return say(format!("the error cannot be shown: {x:?}")),
            }
            if let Some(p) = err_pos(&e) {
                ctx.st.inc("errors_with_position");
                if p > chars.len() {
                    return say(format!(
                        "the error names position {p} of {}: {e:?}",
                        chars.len()
                    ));
                }
                match &e {
                    ParserError::UnexpectedCharError { chr, .. } if chars.get(p) != Some(chr) => {
                        return say(format!(
                            "the error names {chr:?} at {p}, where {:?} stands",
                            chars.get(p)
                        ));
                    }
                    ParserError::EndOfCharsError { .. } if p != chars.len() => {
                        return say(format!(
                            "the end is reported at {p}, but the text has {} characters",
                            chars.len()
                        ));
                    }
                    _ => {}
                }
                if let Err(ReadErr::Malformed(q)) = read(text) {
                    ctx.st.inc("places_compared");
                    let ok = match &e {
                        // the word itself is at fault
                        ParserError::UnknownSpecialOperation { operation, .. } => {
                            p + operation.chars().count() == q
                        }
                        // the place of a misplaced '#', or the one after it
                        ParserError::GramError { .. } => p == q || p == q + 1,
                        _ => p == q,
                    };
                    if !ok {
                        return say(format!(
                            "the text stops being rule text at {q}, but the error names {p}: {e:?}"
                        ));
                    }
                }
            }
            ctx.st.sample(|| format!("{}\n-> {e:?}", short(text)));
            return Ok(());
        }
        Err(e) => return say(format!("{e:?}")),
        Ok(d) => d,
    };
    match stages(d, None) {
        Err(BuildErr::Panic(m)) => return say(format!("building a parser panicked: {m}")),
        Err(BuildErr::First(e) | BuildErr::Follow(e) | BuildErr::Map(e)) => {
            ctx.st.inc("read_but_refused");
            if lib(|| (e.to_string(), format!("{e:?}"))).is_err() {
                return say("the error cannot be shown".into());
            }
        }
        Err(_) => ctx.st.inc("read_without_start"),
        Ok(s) => {
            ctx.st.inc("parsers_built");
            let mut p = Parser::new(s.maps, s.elements, &vm);
            let n = ctx.rng.below(6);
            let script: String = (0..n).map(|_| *ctx.rng.pick(NOTATION)).collect();
            let mut state = 0;
            if let Out::Panic(m) = parse(&mut p, &script, &mut state) {
                return say(format!("parsing {script:?} with it panicked: {m}"));
            }
        }
    }
    Ok(())
}

/// Long texts: many rules, chains of references, long alternatives, long names.
fn large_rules(rng: &mut Rng) -> String {
    let n = *rng.pick(&[10, 50, 200, 600]);
    let mut s = String::new();
    match rng.below(7) {
        0 => {
            for i in 0..n {
                s.push_str(&format!("n{i} -> n{};\n", i + 1));
            }
            s.push_str(&format!("n{n} -> \"x\"; start -> n0;"));
        }
        1 => {
            // ignored text that reaches far
            s.push_str("$IGNORE: n0;\nstart -> \"a\" \"b\";\n");
            for i in 0..n {
                s.push_str(&format!("n{i} -> n{} \"{i}\" | #;\n", i + 1));
            }
            s.push_str(&format!("n{n} -> #;"));
        }
        2 => {
            s.push_str("start -> ");
            for i in 0..n {
                s.push_str(&format!("\"{i}\" "));
            }
            s.push(';');
        }
        3 => {
            s.push_str("start -> \"a\"");
            for i in 0..n {
                s.push_str(&format!(
                    " | \"{}\"",
                    char::from_u32(0x4e00 + i as u32).unwrap()
                ));
            }
            s.push(';');
        }
        4 => {
            let name = "x".repeat(n * 20);
            s.push_str(&format!(
                "start -> {name}; {name} -> \"{name}\" {{{name}}};"
            ));
        }
        5 => {
            s.push_str(&"start -> # ; ".repeat(n));
        }
        _ => {
            s.push_str(&" \n".repeat(n));
            s.push_str("start -> #;");
            s.push_str(&"\t".repeat(n));
        }
    }
    if rng.chance(1, 2) {
        s = mutate(rng, &s, NOTATION);
    }
    s
}

/// Rule text with one vast run of something inside.
fn giant_rules(ctx: &mut Ctx) -> (String, &'static str) {
    const RUN: &[&str] = &[
        " ",
        " ",
        " ",
        "\n",
        "\u{3000}",
        "a",
        "a",
        "漢",
        "_",
        "\\",
        "\"",
        "{",
        "}",
        "|",
        "#",
        ";",
        "$",
        "->",
        "| # ",
        "\"x\" ",
        " a",
        "\\}",
        "\\\"",
        "{x}",
        "b->#;",
        "start->\"x\";",
        "$IGNORE:start;",
        "$[IGNORE:#]",
        "$IGNORE:#;",
        "q -> \"q\" {q};",
    ];
    let rng = &mut ctx.rng;
    if rng.chance(1, 5) {
        return rule_like(ctx);
    }
    let mut g = if rng.chance(1, 2) {
        ignored_grammar(rng)
    } else {
        ll1_grammar(rng)
    };
    g.nts.truncate(g.nts.len().max(1));
    if rng.chance(1, 2) {
        g.nts[0].action = Some(action_text(rng));
    }
    let lay = layout(rng);
    let text = render(&g, lay, rng).text;
    let run = *rng.pick(RUN);
    let most = match run.trim() {
        "" => 10 * giant_max(),
        r if r.contains(';') => giant_max() / 30,
        _ => giant_max(),
    };
    let n = match rng.below(3) {
        0 => most,
        1 => rng.range(most / 2, most),
        _ => giant_size(rng, most),
    };
    let v: Vec<char> = text.chars().collect();
    let mut places: Vec<usize> = (0..=v.len()).collect();
    if run.trim().is_empty() && rng.chance(2, 3) {
        // where white space is allowed
        places.retain(|i| *i == 0 || v[i - 1].is_whitespace() || ";|{".contains(v[i - 1]));
    }
    if run.contains(';') && rng.chance(2, 3) {
        places.retain(|i| *i == 0 || *i == v.len() || v[i - 1] == ';');
    }
    let at = *rng.pick(&places);
    let mut s: String = v[..at].iter().collect();
    s.push_str(&run.repeat(n));
    s.extend(&v[at..]);
    (s, "giant_runs")
}

/// `harness sub chain KIND N`: reads (and analyses) a chain of N rules on an 8 MB stack.
pub fn chain(kind: &str, n: usize) -> i32 {
    let mut s = String::new();
    match kind {
        "read" => {
            s.push_str("$IGNORE: r0; start -> \"x\" \"y\"; ");
            for i in 0..n {
                s.push_str(&format!("r{i} ->$[IGNORE:#] \"a\" r{}; ", i + 1));
            }
            s.push_str(&format!("r{n} ->$[IGNORE:#] \"a\";"));
        }
        _ => {
            s.push_str("start -> r0; ");
            for i in 0..n {
                s.push_str(&format!("r{i} -> r{}; ", i + 1));
            }
            s.push_str(&format!("r{n} -> \"a\";"));
        }
    }
    let analyse = kind == "analyse";
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let vm = NullVm::new();
            match read_rules(&s, &vm) {
                Err(e) => Some(format!("{e:?}")),
                Ok(d) if analyse => {
                    lib(|| henriks_parsing_project::first_sets::get_first_sets(&d).map(|_| ()))
                        .map_err(|m| format!("{m:?}"))
                        .and_then(|r| r.map_err(|e| format!("{e:?}")))
                        .err()
                }
                Ok(_) => None,
            }
        })
        .expect("thread");
    match h.join() {
        Ok(None) => 0,
        Ok(Some(m)) => {
            println!("{m}");
            3
        }
        Err(_) => 3,
    }
}

fn c19_chains(x: &mut Extra) {
    for (key, n) in [("chain-read-500", 500), ("chain-read-100000", 100_000)] {
        let r = x.sub(&["chain", "read", &n.to_string()]);
        x.judge_fixed(
            key,
            &format!("reading an ignored rule that leads over {n} further rules, on an 8 MB stack"),
            r,
        );
    }
}

pub const C19: Prop = Prop {
    id: "C19",
    rule: "One case is one text given to the rule reader: rule text, rule text cut or changed, pieces of the notation, noise, or long texts (hundreds of rules, chains, alternatives, long names). Reading and building a parser must end with a value or an error, within the time limit, on a thread of ordinary stack size; errors must be showable and name the place where the text stops being rule text (found by an independent reader), with the character that stands there; texts with sections are also read for the shipped machines and for one that asks for what is not there, whose errors must name places of the whole text. Non-trivial above three bytes, distinct by text. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "building a parser is tried with chains of at most 1,500 rules, reading with 100,000",
        "the constructors without a Result panic on what the staged interface reports as an error",
    ],
    quick: 300_000,
    thorough: 3_000_000,
    run: c19,
    stack_mb: 8,
    floor: &[
        ("characters_swept", 100),
        ("errors_with_position", 150),
        ("places_compared", 100),
        ("read_but_refused", 50),
        ("parsers_built", 50),
        ("noise", 50),
        ("large", 10),
        ("read_for_machines", 100),
        ("faults_in_place", 50),
        ("sections_that_end", 5),
    ],
    extra: Some(c19_chains),
    giants: 160,
    dev: (1500, 60),
};
