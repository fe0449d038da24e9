//! C15 arbitrary scripts, C16 independence of the history.
use super::parse::{Setup, setup};
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- C15

/// Grammars whose derivations nest as deep as the script is long, with the parts of the script:
/// head, repeated, middle, repeated, tail.
pub const DEEP: &[(&str, [&str; 5])] = &[
    ("start -> l; l -> \"a\" l | #;", ["", "a", "", "", ""]),
    (
        "start -> \"(\" start \")\" | \"x\";",
        ["", "(", "x", ")", ""],
    ),
    (
        "start -> \"(\" in \")\"; in -> start | \"é\" rest; rest -> \",\" \"é\" rest | #;",
        ["", "(", "é", ")", ""],
    ),
    (
        "start -> a; a -> \"x\" b | #; b -> \"y\" c | #; c -> n \"z\" a; n -> \"w\" | #;",
        ["", "xyz", "", "", "x"],
    ),
    (
        "start -> e; e -> t es; es -> \"+\" t es | #; t -> f ts; ts -> \"*\" f ts | #; f -> \"(\" e \")\" | \"1\";",
        ["1+", "(1*", "1", ")", "+1"],
    ),
    (
        "start -> item start | #; item -> \"漢字\" ws; ws -> \" \" ws | #;",
        ["", "漢字 ", "漢字", " ", ""],
    ),
    (
        "$IGNORE: ws; start -> \"b\" list \"e\"; list -> \"i\" list | \";\"; ws ->$[IGNORE:#] \" \" ws | #;",
        ["b ", "i  ", ";", " ", "e"],
    ),
];

/// At the end of the start rule it counts, and may prune, what is below the root.
struct DeepVm {
    prune: bool,
}
#[derive(Default)]
struct DeepState {
    executed: usize,
    descendants: usize,
    problem: Option<String>,
}
impl VM for DeepVm {
    type Tstate = DeepState;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(
        &'a self,
        rule: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<String>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        for _ in to_parse.by_ref() {}
        Ok(vec![rule.to_string()])
    }
    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        node: NodeId,
        _rule: &String,
        state: &mut DeepState,
    ) {
        state.executed += 1;
        if node == ROOT {
            let d = tree.get_descendants(node);
            state.descendants = d.len();
            if self.prune {
                // one branch: a lookup scans the list of removed nodes, which is long after this
                if let Some(k) = tree.get_children(node).last() {
                    if let Err(e) = tree.remove_branch(*k) {
                        state.problem = Some(format!("a child of the root cannot be removed: {e}"));
                    }
                    if tree.get_children(node).contains(k) || tree.node_exists(*k) {
                        state.problem = Some("a removed child is still there".to_string());
                    }
                }
            }
        }
    }
    fn create_new_state() -> DeepState {
        DeepState::default()
    }
}

/// What an error says must not crash either.
fn shown(e: &ParserError) -> Result<(), String> {
    let (a, b) = lib(|| (format!("{e}"), format!("{e:?}")))
        .map_err(|m| format!("showing an error panicked: {m}"))?;
    ensure!(!a.is_empty() && !b.is_empty(), "an error shows as nothing");
    Ok(())
}

fn compare(
    got: Result<Result<Tree<String>, ParserError>, String>,
    w: &Walk,
    what: &str,
) -> Result<bool, String> {
    match (got, &w.result) {
        (Err(m), _) => Err(format!("{what}the parse panicked: {m}")),
        (Ok(Ok(_)), Ok(())) => Ok(true),
        (Ok(Err(e)), Err((pos, _))) => {
            shown(&e)?;
            let at = match &e {
                ParserError::UnexpectedCharError { pos, .. } => *pos,
                ParserError::EndOfCharsError { pos } => *pos,
                e => {
                    return Err(format!("{what}the parse failed with {e:?}"));
                }
            };
            ensure!(
                at == *pos,
                "{what}the error is reported at {at}, the script goes wrong at {pos}"
            );
            Ok(false)
        }
        (Ok(Ok(_)), Err(p)) => Err(format!(
            "{what}the script was accepted, but it goes wrong at {p:?}"
        )),
        (Ok(Err(e)), Ok(())) => Err(format!("{what}a sentence was rejected: {e:?}")),
    }
}

fn noise(rng: &mut Rng, alpha: &[char], len: usize) -> String {
    let style = rng.below(5);
    let one = if alpha.is_empty() || rng.chance(1, 4) {
        any_char(rng)
    } else {
        *rng.pick(alpha)
    };
    let period: Vec<char> = (0..rng.range(1, 5))
        .map(|_| {
            if alpha.is_empty() || rng.chance(1, 6) {
                any_char(rng)
            } else {
                *rng.pick(alpha)
            }
        })
        .collect();
    (0..len)
        .map(|i| match style {
            0 => any_char(rng),
            1 if !alpha.is_empty() => *rng.pick(alpha),
            2 => one,
            3 => period[i % period.len()],
            _ => {
                if alpha.is_empty() || rng.chance(1, 10) {
                    *rng.pick(ODD)
                } else {
                    *rng.pick(alpha)
                }
            }
        })
        .collect()
}

fn c15_deep(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let (rules, parts) = rng.pick(DEEP);
    let n = if rng.chance(1, 12) {
        rng.range(100_000, 300_000)
    } else {
        *rng.pick(&[1000, 5000, 20_000, 50_000])
    };
    let mut script = parts[0].to_string();
    script.push_str(&parts[1].repeat(n));
    script.push_str(parts[2]);
    script.push_str(&parts[3].repeat(n));
    script.push_str(parts[4]);
    match rng.below(4) {
        0 => {
            let k = script.chars().count();
            let at = rng.below(k);
            script = script.chars().take(at).collect();
        }
        1 => script.push(any_char(rng)),
        _ => {}
    }
    let g = read(rules).expect("deep grammar").woven();
    let a = analyse(&g);
    assert!(a.ll1(), "deep grammar {rules}");
    let chars: Vec<char> = script.chars().collect();
    let rp = RefParser::new(&g, &a);
    let w = rp.walk(&chars);
    let what = format!(
        "grammar: {rules}\nscript of {} chars: {}\n",
        chars.len(),
        short(&script.chars().take(200).collect::<String>())
    );
    // an action for every rule
    let with_actions = rules.replace(';', " {x};");
    let with_actions = with_actions
        .replace("$IGNORE: ws {x};", "$IGNORE: ws;")
        .replace("\" {x};\"", "\";\"");
    let vm = DeepVm {
        prune: rng.chance(1, 2),
    };
    let mut state = DeepVm::create_new_state();
    let mut p = text_parser(&with_actions, &vm)
        .map_err(|e| format!("{what}no parser could be built: {e:?}"))?;
    let got = lib(|| p.parse(&script, &mut state));
    if let Ok(Ok(t)) = &got
        && !vm.prune
    {
        walk_down(t).map_err(|e| format!("{what}{e}"))?;
        ctx.st.inc("deep_trees_walked");
    }
    let ok = compare(got, &w, &what)?;
    if let Some(m) = state.problem {
        return Err(format!("{what}{m}"));
    }
    ensure!(
        state.executed == w.completed,
        "{what}{} actions ran, {} rules were completed",
        state.executed,
        w.completed
    );
    if ok {
        ensure!(
            state.descendants == w.nodes - 1,
            "{what}the root has {} descendants, the derivation {}",
            state.descendants,
            w.nodes - 1
        );
    }
    ctx.st
        .inc(if ok { "deep_accepted" } else { "deep_rejected" });
    ctx.st.max("depth", w.max_depth as u64);
    ctx.st.max("script_chars", chars.len() as u64);
    ctx.st.eval(hash_of(&script), true);
    Ok(())
}

/// Follows the first, second and third children down to the bottom, step by step and by one path.
fn walk_down(t: &Tree<String>) -> Result<(), String> {
    let got = lib(|| {
        for k in 0..3 {
            let mut at = ROOT;
            let mut steps = 0;
            while let Some(&c) = t.get_children(at).get(k) {
                at = c;
                steps += 1;
            }
            let by = |n: usize| t.get_by_path_or_none(ROOT, std::iter::repeat_n(k, n));
            match (by(steps), t.get_node(at)) {
                (Ok(Some(x)), Ok(y)) if std::ptr::eq(x, y) => {}
                _ => return Err(format!("a path of {steps} steps does not lead to the node")),
            }
            if !matches!(by(steps + 1), Ok(None)) {
                return Err(format!("a path of {} steps leads somewhere", steps + 1));
            }
        }
        Ok(())
    });
    got.map_err(|m| format!("walking down the tree panicked: {m}"))?
}

/// Looks at the far ends of a tree: nothing of this may crash, however large the tree is.
fn inspect(t: &Tree<String>, w: &Walk) -> Result<(), String> {
    let got = lib(|| {
        let kids = t.get_children(ROOT);
        let d = t.get_descendants(ROOT);
        if d.len() != w.nodes - 1 {
            return Err(format!(
                "the root has {} descendants, the derivation {}",
                d.len(),
                w.nodes - 1
            ));
        }
        if let Some(last) = kids.last() {
            let n = kids.len();
            let at = |k: usize| t.get_by_path_or_none(ROOT, vec![k].into_iter());
            let node = t.get_node(*last);
            match (at(n - 1), &node) {
                (Ok(Some(x)), Ok(y)) if std::ptr::eq(x, *y) => {}
                _ => return Err("the last child of the root is not found by its path".to_string()),
            }
            if !matches!(at(n), Ok(None)) {
                return Err("there is one child too many by its path".to_string());
            }
        }
        if let Some(last) = d.last()
            && !t.node_exists(*last)
        {
            return Err("the last descendant does not exist".to_string());
        }
        Ok(())
    });
    got.map_err(|m| format!("looking at the tree panicked: {m}"))?
}

fn c15(ctx: &mut Ctx) -> Check {
    if ctx.idx % 50 == 13 {
        return c15_deep(ctx);
    }
    let mut s = loop {
        // the generator's long scripts are for other checks
        let s = setup(ctx, false);
        if s.g.nts.len() <= 60 || ctx.idx >= GIANT {
            break s;
        }
    };
    let rng = &mut ctx.rng;
    let alpha = alphabet(&s.g);
    let giant = ctx.idx >= GIANT;
    s.scripts.truncate(20);
    for _ in 0..if giant { 3 } else { 10 } {
        let len = match rng.below(40) {
            0 => rng.range(2000, 40_000),
            1 if rng.chance(1, 10) => rng.range(100_000, 500_000),
            2..=12 => rng.range(0, 300),
            _ => rng.range(0, 20),
        };
        let mut t = noise(rng, &alpha, len);
        if rng.chance(1, 4) {
            // a proper beginning, then noise
            let h = heights(&s.g);
            let mut b = sentence(&s.g, &h, rng, 20).unwrap_or_default();
            b.push_str(&t);
            t = b;
        }
        s.scripts.push(t);
    }
    if rng.chance(1, 20) {
        // a sentence many times over
        let h = heights(&s.g);
        let k = rng.range(10, 2000);
        let b = sentence(&s.g, &h, rng, 20).unwrap_or_default();
        s.scripts.push(b.repeat(k).chars().take(300_000).collect());
    }
    let rp = RefParser::new(&s.g, &s.a);
    let gh = hash_of(&s.g);
    let vm = NullVm::new();
    let mut state = NullVm::create_new_state();
    let p = match s.route {
        Route::Text => text_parser(&s.rules, &vm),
        Route::Staged => staged_parser(&s.rules, &vm),
        Route::Data => {
            let (d, ix) = build_data(&s.g, &mut ctx.rng, |_, _| vec![0])?;
            data_parser(d, ix[s.g.start], &vm)
        }
    };
    let mut p = p.map_err(|e| format!("{}no parser could be built: {e:?}", s.describe("")))?;
    for script in &s.scripts {
        let chars: Vec<char> = script.chars().collect();
        let w = rp.walk(&chars);
        let got = lib(|| p.parse(script, &mut state));
        if let Ok(Ok(t)) = &got
            && (giant || ctx.rng.chance(1, 8))
        {
            inspect(t, &w).map_err(|e| format!("{}{e}", s.describe(script)))?;
            ctx.st.inc("trees_inspected");
        }
        let ok = compare(got, &w, &s.describe(script))?;
        ctx.st.inc(if ok { "accepted" } else { "rejected" });
        if !script.is_ascii() {
            ctx.st.inc("scripts_with_unicode");
        }
        if script.contains('\0') {
            ctx.st.inc("scripts_with_nul");
        }
        if chars.len() > 1000 {
            ctx.st.inc("long_scripts");
        }
        ctx.st.max("depth", w.max_depth as u64);
        ctx.st.max("script_chars", chars.len() as u64);
        let progress = match w.result {
            Ok(()) => true,
            Err((pos, _)) => pos > 0,
        };
        ctx.st.eval(hash_of(&(gh, script)), progress);
        ctx.st
            .sample(|| format!("{}-> {:?}", s.describe(script), w.result));
    }
    Ok(())
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "One case is a random LL(1) grammar (built by any of the three routes) run on sentences, near misses and noise: any Unicode, NUL, byte order marks, long runs, repetitions, up to 500,000 characters; every fiftieth case instead is a grammar whose derivations nest as deep as the script is long, run to a nesting of up to 300,000 on a 2 MB stack, with VMs that walk and prune the resulting tree; the other trees are walked down to the bottom by paths. Every parse must end, without a panic or abort, in a tree or in an error that can be shown, as a non-recursive reference recogniser says. One evaluation is one parse; non-trivial when at least one character was consumed, distinct by (grammar, script).",
    assumptions: &[
        "grammars are LL(1), with at most 60 rules in ordinary cases and 100,000 in giant ones",
        "2 MB of stack, the default of a Rust thread, and 5 GB of address space",
        "40 s of processor time per case stand for 'ends'",
    ],
    quick: 60_000,
    thorough: 1_500_000,
    run: c15,
    stack_mb: 2,
    floor: &[
        ("accepted", 1000),
        ("rejected", 5000),
        ("scripts_with_unicode", 2000),
        ("long_scripts", 50),
        ("deep_accepted", 3),
        ("deep_rejected", 3),
        ("deep_trees_walked", 2),
    ],
    extra: None,
    giants: 240,
    dev: (800, 160),
};

// ---------------------------------------------------------------- C16

/// Everything that can be observed of one parse.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Seen {
    out: Out,
    events: Vec<Event>,
    /// handles of all nodes, depth first
    handles: Vec<(usize, usize)>,
}

fn handles(tree: &Tree<String>) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    v.extend(
        tree.get_descendants(ROOT)
            .iter()
            .map(|i| (i.node_ptr, i.node_pk)),
    );
    v
}

fn observe<'a, V: VM>(
    p: &mut henriks_parsing_project::script_parser::Parser<'a, V>,
    script: &'a str,
    state: &mut V::Tstate,
) -> (Out, Vec<(usize, usize)>) {
    match lib(|| p.parse(script, state)) {
        Err(m) => (Out::Panic(m), vec![]),
        Ok(Err(e)) => (err_out(&e), vec![]),
        Ok(Ok(t)) => (
            match lib(|| shape_of(&t, ROOT)) {
                Ok(Ok(s)) => Out::Ok(s),
                Ok(Err(e)) => Out::Other(e),
                Err(m) => Out::Panic(m),
            },
            lib(|| handles(&t)).unwrap_or_default(),
        ),
    }
}

fn seen_by_trace<'a, V: VM<Tinstrution = Instr, Tstate = TraceState>>(
    p: &mut henriks_parsing_project::script_parser::Parser<'a, V>,
    script: &'a str,
) -> Seen {
    let mut st = TraceVm::create_new_state();
    st.shapes = script.len() < 60;
    let (out, handles) = observe(p, script, &mut st);
    Seen {
        out,
        events: st.events,
        handles,
    }
}

fn diff(a: &Seen, b: &Seen) -> String {
    if a.out != b.out {
        format!("outcomes {} and {}", a.out.short(), b.out.short())
    } else if a.handles != b.handles {
        "node handles differ".to_string()
    } else {
        let k = a
            .events
            .iter()
            .zip(&b.events)
            .take_while(|(x, y)| x == y)
            .count();
        format!(
            "{} and {} actions, the first different one is number {k}: {:?} and {:?}",
            a.events.len(),
            b.events.len(),
            a.events.get(k),
            b.events.get(k)
        )
    }
}

fn trace_parser<'a, V: VM<Tinstrution = Instr>>(
    s: &Setup,
    rng: &mut Rng,
    vm: &'a V,
) -> Result<henriks_parsing_project::script_parser::Parser<'a, V>, String> {
    let p = match s.route {
        Route::Text => text_parser(&s.rules, vm),
        Route::Staged => staged_parser(&s.rules, vm),
        Route::Data => {
            let (d, ix) = build_data(&s.g, rng, instrs_for)?;
            data_parser(d, ix[s.g.start], vm)
        }
    };
    p.map_err(|e| format!("{}no parser could be built: {e:?}", s.describe("")))
}

/// A recording VM that gives up, or builds and runs other parsers, in the middle of a parse or of
/// the reading of rules.
struct MeddleVm<'s> {
    trace: TraceVm,
    /// actions and sections still to go
    left: Cell<Option<usize>>,
    panics: Cell<bool>,
    side: &'s Setup,
    /// what the scripts of the other grammar do on their own
    want: &'s [Seen],
    rng: RefCell<Rng>,
    problem: RefCell<Option<String>>,
    meddled: Cell<u64>,
}

const GAVE_UP: &str = "the VM gave up";

impl MeddleVm<'_> {
    fn meddle(&self) {
        match self.left.get() {
            None => return,
            Some(0) => self.left.set(None),
            Some(n) => return self.left.set(Some(n - 1)),
        }
        self.meddled.set(self.meddled.get() + 1);
        if self.panics.get() {
            panic!("{GAVE_UP}");
        }
        if let Err(e) = self.run_other() {
            self.problem.borrow_mut().get_or_insert(e);
        }
    }
    fn run_other(&self) -> Check {
        let vm = TraceVm::new(0);
        let mut rng = self.rng.borrow_mut();
        let mut p = trace_parser(self.side, &mut rng, &vm)?;
        for (script, want) in self.side.scripts.iter().zip(self.want).take(3) {
            let got = seen_by_trace(&mut p, script);
            ensure!(
                got == *want,
                "{}a parser run in the middle of another's work disagrees with the same parser on its own: {}",
                self.side.describe(script),
                diff(want, &got)
            );
        }
        Ok(())
    }
}

impl VM for MeddleVm<'_> {
    type Tstate = TraceState;
    type Tinstrution = Instr;
    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Instr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        to_parse.peek();
        self.meddle();
        let r = self.trace.parse_instructions(prod_name, to_parse);
        self.meddle();
        r
    }
    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        i: &Instr,
        state: &mut TraceState,
    ) {
        self.meddle();
        self.trace.execute_instruction(tree, cur_node, i, state);
    }
    fn create_new_state() -> TraceState {
        TraceState::default()
    }
}

/// Parses that an action interrupts by a panic, and parsers built and run in the middle of a parse
/// or of the reading of rules.
fn c16_meddled(ctx: &mut Ctx, s: &Setup, fresh: &[Seen], other: &Setup) -> Check {
    let tvm = TraceVm::new(0);
    let mut want = vec![];
    for script in other.scripts.iter().take(3) {
        let mut p = trace_parser(other, &mut ctx.rng, &tvm)?;
        want.push(seen_by_trace(&mut p, script));
    }
    let vm = MeddleVm {
        trace: TraceVm::new(0),
        left: Cell::new(None),
        panics: Cell::new(false),
        side: other,
        want: &want,
        rng: RefCell::new(Rng::new(ctx.rng.next(), "meddle", 0)),
        problem: RefCell::new(None),
        meddled: Cell::new(0),
    };
    let rng = &mut ctx.rng;
    // while the rules are read
    let mut p = None;
    if s.route != Route::Data {
        vm.left.set(Some(rng.below(6)));
        vm.panics.set(rng.chance(1, 2));
        let before = vm.meddled.get();
        let got = trace_parser(s, rng, &vm);
        let hit = vm.meddled.get() > before;
        vm.left.set(None);
        if hit {
            ctx.st.inc(if vm.panics.get() {
                "readings_given_up"
            } else {
                "readings_with_others_inside"
            });
        }
        match got {
            Ok(got) => p = Some(got),
            Err(e) if hit && vm.panics.get() && e.contains(GAVE_UP) => {}
            Err(e) => return Err(e),
        }
    }
    let mut p = match p {
        Some(p) => p,
        None => trace_parser(s, rng, &vm)?,
    };
    for step in 0..rng.range(4, 16) {
        let k = rng.below(s.scripts.len());
        let total = fresh[k].events.len();
        let at = if rng.chance(1, 3) || total == 0 {
            None
        } else {
            Some(rng.below(total))
        };
        vm.left.set(at);
        vm.panics.set(rng.chance(1, 2));
        let got = seen_by_trace(&mut p, &s.scripts[k]);
        vm.left.set(None);
        let mut expected = fresh[k].clone();
        match at {
            Some(at) if vm.panics.get() => {
                expected.out = Out::Panic(got_panic(&got.out, GAVE_UP));
                expected.events.truncate(at);
                expected.handles.clear();
                ctx.st.inc("parses_given_up");
            }
            Some(_) => ctx.st.inc("parses_with_others_inside"),
            None => ctx.st.inc("parses_after_meddling"),
        }
        ensure!(
            got == expected,
            "{}step {step}, {}: the outcome is not that of a fresh parser: {}",
            s.describe(&s.scripts[k]),
            match at {
                Some(n) if vm.panics.get() => format!("action {n} panics"),
                Some(n) => format!("action {n} runs another parser"),
                None => "after panics of the VM and parsers run by it".to_string(),
            },
            diff(&expected, &got)
        );
    }
    match vm.problem.take() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// The panic itself if it is the one that was raised.
fn got_panic(out: &Out, raised: &str) -> String {
    match out {
        Out::Panic(m) if m.contains(raised) => m.clone(),
        _ => raised.to_string(),
    }
}

/// One parser that has run tens of thousands of scripts.
fn c16_long(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let rules = *rng.pick(&[
        "start -> \"a\" start | \"b\" | # {x};",
        "$IGNORE: ws; start -> \"k\" \"v\" | \"l\" in \"]\" {kv}; in -> \"k\" in | \";\" {i}; ws ->$[IGNORE:#] \" \" ws | #;",
        "start -> in {s}; in -> \"(\" in \")\" | \"é\" {p};",
    ]);
    let scripts: &[&str] = &[
        "", "a", "b", "ab", "aab", "c", "é", "(é)", "((é))", "(é", "kv", "k v ", "lk k;]", "lkx",
        "\0",
    ];
    let vm = TraceVm::new(0);
    let build = || {
        text_parser(rules, &vm).map_err(|e| format!("no parser could be built of {rules}: {e:?}"))
    };
    let mut want = vec![];
    for s in scripts {
        want.push(seen_by_trace(&mut build()?, s));
    }
    let mut p = build()?;
    let n = rng.range(66_000, 90_000);
    // one script again and again for long stretches, or all of them mixed
    let mut k = rng.below(scripts.len());
    let stretch = *rng.pick(&[1, 10, 100_000]);
    for i in 0..n {
        if rng.chance(1, stretch) {
            k = rng.below(scripts.len());
        }
        let got = seen_by_trace(&mut p, scripts[k]);
        ensure!(
            got == want[k],
            "grammar: {rules}\nparse {i} of one parser, of {:?}, is not as with a fresh one: {}",
            scripts[k],
            diff(&want[k], &got)
        );
    }
    ctx.st.add("parses_of_long_histories", n as u64);
    ctx.st.max("longest_history", n as u64);
    Ok(())
}

fn c16(ctx: &mut Ctx) -> Check {
    if ctx.idx >= GIANT && ctx.idx % 5 == 0 {
        return c16_long(ctx);
    }
    if ctx.idx % 16 == 5 {
        return c16_threads(ctx);
    }
    let mut s = setup(ctx, true);
    if s.big {
        s.scripts.truncate(3);
    }
    let keep = ctx.rng.range(3, 10);
    ctx.rng.shuffle(&mut s.scripts);
    s.scripts.truncate(keep);
    let gh = hash_of(&s.g);
    // what a fresh parser does, twice, each time built anew
    let vm = TraceVm::new(ctx.rng.below(6));
    let mut fresh = vec![];
    for script in &s.scripts {
        let mut p = trace_parser(&s, &mut ctx.rng, &vm)?;
        let a = seen_by_trace(&mut p, script);
        let vm2 = TraceVm::new(0);
        let mut p2 = trace_parser(&s, &mut ctx.rng, &vm2)?;
        let b = seen_by_trace(&mut p2, script);
        ensure!(
            a == b,
            "{}two fresh parsers of the same grammar disagree: {}",
            s.describe(script),
            diff(&a, &b)
        );
        if let Out::Panic(m) = &a.out {
            return Err(format!("{}the parse panicked: {m}", s.describe(script)));
        }
        ctx.st.inc("rebuilt_and_compared");
        fresh.push(a);
    }
    if s.route == Route::Text && ctx.rng.chance(1, 3) {
        // the other way to build it
        let vm2 = TraceVm::new(0);
        let mut p = staged_parser(&s.rules, &vm2)
            .map_err(|e| format!("{}no parser could be built: {e:?}", s.describe("")))?;
        for (script, want) in s.scripts.iter().zip(&fresh) {
            let got = seen_by_trace(&mut p, script);
            ensure!(
                got == *want,
                "{}a parser built step by step disagrees: {}",
                s.describe(script),
                diff(want, &got)
            );
        }
    }
    // several parsers of this and of another grammar, used in turn
    let mut other = setup(ctx, true);
    if other.big {
        other.scripts.truncate(3);
    }
    let vm_b = TraceVm::new(1);
    let rng = &mut ctx.rng;
    let mut ps = vec![
        trace_parser(&s, rng, &vm)?,
        trace_parser(&s, rng, &vm)?,
        trace_parser(&s, rng, &vm_b)?,
    ];
    let mut po = trace_parser(&other, rng, &vm)?;
    let mut history = String::new();
    let steps = if s.big { 8 } else { rng.range(5, 40) };
    let mut after_failure = false;
    for step in 0..steps {
        if rng.chance(1, 5) {
            let k = rng.below(other.scripts.len());
            let _ = seen_by_trace(&mut po, &other.scripts[k]);
            history.push_str("other ");
            continue;
        }
        let which = rng.below(ps.len());
        let k = rng.below(s.scripts.len());
        let got = seen_by_trace(&mut ps[which], &s.scripts[k]);
        history.push_str(&format!("{which}:{k} "));
        ensure!(
            got == fresh[k],
            "{}step {step} of the history {history}: the parser used before disagrees with a fresh one: {}",
            s.describe(&s.scripts[k]),
            diff(&fresh[k], &got)
        );
        ctx.st.inc("parses_compared");
        if after_failure {
            ctx.st.inc("parses_after_a_failed_one");
        }
        after_failure = !got.out.is_ok();
        ctx.st.eval(hash_of(&(gh, &s.scripts[k], step)), step > 0);
    }
    if !vm.problems.borrow().is_empty() {
        return Err(format!(
            "{}{}",
            s.describe(""),
            vm.problems.borrow().join("; ")
        ));
    }
    if !s.big && !other.big && ctx.idx % 3 == 0 {
        c16_meddled(ctx, &s, &fresh, &other)?;
    }
    // a state handed from parse to parse is touched by the actions only
    let cvm = CountingVm {};
    let d: Result<ParserData<CountingVm>, _> = read_rules(&s.rules, &cvm);
    if s.route != Route::Data
        && let Ok(d) = d
    {
        let st = stages(d, None).map_err(|e| format!("{}{e:?}", s.describe("")))?;
        let mut p = henriks_parsing_project::script_parser::Parser::new(st.maps, st.elements, &cvm);
        let mut state = CountingVm::create_new_state();
        let mut want = 0;
        for script in &s.scripts {
            let mut one = CountingVm::create_new_state();
            let mut q = text_parser(&s.rules, &cvm).map_err(|e| format!("{e:?}"))?;
            let a = parse(&mut q, script, &mut one);
            let b = parse(&mut p, script, &mut state);
            want += one;
            ensure!(a == b, "{}outcomes differ", s.describe(script));
            ensure!(
                state == want,
                "{}the count went on to {state}, it should be {want}",
                s.describe(script)
            );
            ctx.st.inc("accumulated_states_compared");
        }
    }
    ctx.st
        .sample(|| format!("{}history (parser:script): {history}", s.describe("")));
    Ok(())
}

fn null_parser<'a>(
    s: &Setup,
    vm: &'a NullVm,
) -> Result<henriks_parsing_project::script_parser::Parser<'a, NullVm>, String> {
    let p = match s.route {
        Route::Staged => staged_parser(&s.rules, vm),
        Route::Text => text_parser(&s.rules, vm),
        Route::Data => {
            let (d, ix) = build_data(&s.g, &mut Rng::new(1, "t", 1), |_, _| vec![0])?;
            data_parser(d, ix[s.g.start], vm)
        }
    };
    p.map_err(|e| format!("no parser could be built: {e:?}"))
}

/// Parsers of one grammar in several threads, and one tree read by several threads.
fn c16_threads(ctx: &mut Ctx) -> Check {
    let mut s = setup(ctx, false);
    s.scripts.truncate(if s.big { 2 } else { 8 });
    let s = s;
    let vm = NullVm::new();
    let mut want = vec![];
    for script in &s.scripts {
        let mut p = null_parser(&s, &vm)?;
        let mut st = NullVm::create_new_state();
        want.push(observe(&mut p, script, &mut st));
    }
    let threads = 4;
    let barrier = std::sync::Barrier::new(threads);
    let order: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut v: Vec<usize> = (0..s.scripts.len()).cycle().take(12).collect();
            ctx.rng.shuffle(&mut v);
            v
        })
        .collect();
    let (s2, want2, vm2, barrier2) = (&s, &want, &vm, &barrier);
    let results: Vec<Check> = std::thread::scope(|scope| {
        let hs: Vec<_> = order
            .iter()
            .enumerate()
            .map(|(t, order)| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, move || -> Check {
                        barrier2.wait();
                        let mut p = null_parser(s2, vm2)?;
                        let mut st = NullVm::create_new_state();
                        for k in order {
                            let got = observe(&mut p, &s2.scripts[*k], &mut st);
                            ensure!(
                                got == want2[*k],
                                "{}thread {t} of {threads}: {} instead of {}",
                                s2.describe(&s2.scripts[*k]),
                                got.0.short(),
                                want2[*k].0.short()
                            );
                        }
                        Ok(())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .collect()
    });
    for r in results {
        r?;
    }
    ctx.st.add("parses_in_threads", (threads * 12) as u64);
    // one tree, many readers
    for (script, w) in s.scripts.iter().zip(&want) {
        let Out::Ok(shape) = &w.0 else { continue };
        let mut p = null_parser(&s, &vm)?;
        let mut st = NullVm::create_new_state();
        let Ok(Ok(tree)) = lib(|| p.parse(script, &mut st)) else {
            return Err(format!("{}the outcome changed", s.describe(script)));
        };
        let tree = &tree;
        let ok: Vec<bool> = std::thread::scope(|scope| {
            let hs: Vec<_> = (0..3)
                .map(|_| {
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(scope, move || {
                            matches!(shape_of(tree, ROOT), Ok(x) if x == *shape)
                                && handles(tree) == w.1
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
        });
        ensure!(
            ok.iter().all(|x| *x),
            "{}a thread that only reads the tree sees another tree",
            s.describe(script)
        );
        ctx.st.inc("trees_read_by_several_threads");
        ctx.st.eval(hash_of(&(hash_of(&s.g), script)), true);
    }
    Ok(())
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "One case is a random LL(1) grammar with action sections. Each of its scripts is run by two freshly built parsers, then in random histories (5 to 40 parses, sentences and failures in any order) by three parsers that share VMs with each other and with a parser of another grammar; all that can be observed of a parse (outcome, tree, node handles, executed actions with node and subtree, a state handed from parse to parse) must be as with the fresh parser. In every third case the VM panics at some action or while it reads a section (caught, and the parser used on), or builds and runs a parser of the other grammar there; all else must be as with the fresh parser. Every sixteenth case runs parsers of the grammar in four threads at once, and reads trees from three threads. One evaluation is one parse of a history; non-trivial when other parses came before it, distinct by (grammar, script, place in the history).",
    assumptions: &[
        "VMs are deterministic and keep no state of their own",
        "the order in which expected characters are listed is open (it depends on hash seeds)",
        "a parser cannot be shared by threads (the compiler sees to it), a tree can",
    ],
    quick: 40_000,
    thorough: 1_000_000,
    run: c16,
    stack_mb: 512,
    floor: &[
        ("parses_compared", 5000),
        ("parses_after_a_failed_one", 2000),
        ("rebuilt_and_compared", 2000),
        ("parses_in_threads", 1000),
        ("trees_read_by_several_threads", 50),
        ("accumulated_states_compared", 1000),
        ("parses_given_up", 300),
        ("parses_with_others_inside", 300),
        ("parses_after_meddling", 300),
        ("readings_given_up", 20),
        ("readings_with_others_inside", 20),
    ],
    extra: None,
    giants: 40,
    dev: (0, 0),
};
