//! C23: what errors say when they are shown.
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::setup_or_sweep;
use crate::props::rules::rule_like;
use crate::props::sets::any_grammar;
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::named_graph::{GraphError, GraphNamedNodes};
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree, TreeError};
use henriks_parsing_project::vms::{NullVm, VM};
use std::error::Error;

#[derive(Debug, Clone, PartialEq)]
enum Fact {
    Num(usize),
    Text(String),
}
use Fact::*;

fn tree_facts(e: &TreeError) -> Vec<Fact> {
    match e {
        TreeError::NodeDoesNotExist { node_id } | TreeError::NodeWasRemoved { node_id } => {
            vec![Num(node_id.node_ptr), Num(node_id.node_pk)]
        }
        TreeError::ChildDoesNotExists { child_nth } => vec![Num(*child_nth)],
    }
}

fn grammar_facts(e: &GrammarError) -> Vec<Fact> {
    match e {
        GrammarError::MissingFollowSet { index }
        | GrammarError::MissingElementForIndex { index }
        | GrammarError::MissingFirstSet { index }
        | GrammarError::MissingSteuerSet { index }
        | GrammarError::MissingProduction { index }
        | GrammarError::LeftRecursion { index }
        | GrammarError::GraphIndexOutOfBounds { index } => vec![Num(*index)],
        GrammarError::SteuerSetsNotDistinct {
            steuer_char,
            rule_name,
            ..
        } => vec![Text(steuer_char.to_string()), Text(rule_name.clone())],
        GrammarError::UnexpectedElementError { reason, pos } => {
            vec![Text(reason.clone()), Num(*pos)]
        }
        GrammarError::GraphNodeAlreadyExistsError { node_name }
        | GrammarError::GraphNodeDoesNotExistsError { node_name } => vec![Num(*node_name)],
    }
}

fn parser_facts(e: &ParserError) -> Vec<Fact> {
    match e {
        ParserError::UnexpectedCharError { chr, pos, expected } => {
            vec![Text(chr.to_string()), Num(*pos), Text(expected.clone())]
        }
        ParserError::EndOfCharsError { pos } => vec![Num(*pos)],
        ParserError::GramError { err } => grammar_facts(err),
        ParserError::UnknownSpecialOperation { operation, pos } => {
            vec![Text(operation.clone()), Num(*pos)]
        }
        ParserError::Impossible => vec![],
        ParserError::InternalError { message } | ParserError::VmError { message } => {
            vec![Text(message.clone())]
        }
        ParserError::TreeError { err } => tree_facts(err),
    }
}

fn graph_facts(e: &GraphError) -> Vec<Fact> {
    match e {
        GraphError::NodeAlreadyExistsError { node_name }
        | GraphError::NodeDoesNotExistsError { node_name } => vec![Text(node_name.clone())],
        GraphError::IndexOutOfBounds { index } => vec![Num(*index)],
    }
}

/// Whether the text states the fact: a number as a whole number.
fn states(text: &str, f: &Fact) -> bool {
    match f {
        Text(t) => text.contains(t.as_str()),
        Num(n) => {
            let n = n.to_string();
            let b = text.as_bytes();
            text.match_indices(&n).any(|(i, _)| {
                (i == 0 || !b[i - 1].is_ascii_digit())
                    && b.get(i + n.len()).is_none_or(|c| !c.is_ascii_digit())
            })
        }
    }
}

fn says(shown: &str, facts: &[Fact]) -> Check {
    for f in facts {
        ensure!(
            states(shown, f),
            "shown as {:?}, which does not say {f:?}",
            short(shown)
        );
    }
    Ok(())
}

/// Shows an error in every way and judges the text.
fn judge(ctx: &mut Ctx, e: &(dyn Error + 'static), facts: &[Fact], what: &str) -> Check {
    let r = lib(|| {
        let s = e.to_string();
        (s, e.to_string(), format!("{e:?}"))
    });
    let (s, again, debug) = r.map_err(|m| format!("{what}: showing the error panicked: {m}"))?;
    ensure!(
        !s.trim().is_empty(),
        "{what}: the error is shown as nothing"
    );
    ensure!(!debug.is_empty(), "{what}: the error is printed as nothing");
    ensure!(
        s == again,
        "{what}: shown twice, the error reads {s:?} and {again:?}"
    );
    says(&s, facts).map_err(|m| format!("{what}: the error {} is {m}", short(&debug)))?;
    // what unwrap and the command line tool print
    let nums: Vec<Fact> = facts
        .iter()
        .filter(|f| matches!(f, Num(_)))
        .cloned()
        .collect();
    says(&debug, &nums).map_err(|m| format!("{what}: the printed error is {m}"))?;
    ctx.st
        .add("facts_found_in_shown_errors", facts.len() as u64);
    ctx.st.eval(hash_of(&s), !facts.is_empty());
    ctx.st
        .sample(|| format!("{} -> {:?}, stating {facts:?}", short(what), short(&s)));
    Ok(())
}

fn some_text(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0, 1, 1, 2, 5, 20, 200]);
    (0..n).map(|_| any_char(rng)).collect()
}
fn some_num(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => rng.below(10),
        1 => rng.below(1000),
        2 => *rng.pick(&[
            255,
            256,
            65_535,
            65_536,
            usize::MAX,
            usize::MAX - 1,
            1 << 32,
            1 << 31,
        ]),
        3 => 1 << rng.below(63),
        _ => rng.next() as usize,
    }
}

fn some_tree_error(rng: &mut Rng) -> TreeError {
    let node_id = NodeId {
        node_ptr: some_num(rng),
        node_pk: some_num(rng),
    };
    match rng.below(3) {
        0 => TreeError::NodeDoesNotExist { node_id },
        1 => TreeError::NodeWasRemoved { node_id },
        _ => TreeError::ChildDoesNotExists {
            child_nth: some_num(rng),
        },
    }
}
fn some_grammar_error(rng: &mut Rng) -> GrammarError {
    let index = some_num(rng);
    match rng.below(11) {
        0 => GrammarError::MissingFollowSet { index },
        1 => GrammarError::MissingElementForIndex { index },
        2 => GrammarError::MissingFirstSet { index },
        3 => GrammarError::MissingSteuerSet { index },
        4 => GrammarError::MissingProduction { index },
        5 => GrammarError::LeftRecursion { index },
        6 => GrammarError::SteuerSetsNotDistinct {
            steuer_terminal: some_text(rng),
            steuer_char: any_char(rng),
            rule_name: some_text(rng),
        },
        7 => GrammarError::UnexpectedElementError {
            reason: some_text(rng),
            pos: index,
        },
        8 => GrammarError::GraphNodeAlreadyExistsError { node_name: index },
        9 => GrammarError::GraphNodeDoesNotExistsError { node_name: index },
        _ => GrammarError::GraphIndexOutOfBounds { index },
    }
}
fn some_parser_error(rng: &mut Rng) -> ParserError {
    let pos = some_num(rng);
    match rng.below(8) {
        0 | 1 => ParserError::UnexpectedCharError {
            chr: any_char(rng),
            pos,
            expected: some_text(rng),
        },
        2 => ParserError::EndOfCharsError { pos },
        3 => ParserError::GramError {
            err: some_grammar_error(rng),
        },
        4 => ParserError::UnknownSpecialOperation {
            operation: some_text(rng),
            pos,
        },
        5 => ParserError::InternalError {
            message: some_text(rng),
        },
        6 => ParserError::VmError {
            message: some_text(rng),
        },
        _ => ParserError::TreeError {
            err: some_tree_error(rng),
        },
    }
}

fn made_up(ctx: &mut Ctx) -> Check {
    for _ in 0..20 {
        match ctx.rng.below(4) {
            0 => {
                let e = some_tree_error(&mut ctx.rng);
                let f = tree_facts(&e);
                judge(ctx, &e, &f, "a made-up error")?;
                let e: ParserError = e.into();
                judge(ctx, &e, &f, "a made-up error of a tree, passed on")?;
            }
            1 => {
                let e = some_grammar_error(&mut ctx.rng);
                let f = grammar_facts(&e);
                judge(ctx, &e, &f, "a made-up error")?;
                let e: ParserError = e.into();
                judge(ctx, &e, &f, "a made-up error of a grammar, passed on")?;
            }
            2 => {
                let e = match ctx.rng.below(3) {
                    0 => GraphError::NodeAlreadyExistsError {
                        node_name: some_text(&mut ctx.rng),
                    },
                    1 => GraphError::NodeDoesNotExistsError {
                        node_name: some_text(&mut ctx.rng),
                    },
                    _ => GraphError::IndexOutOfBounds {
                        index: some_num(&mut ctx.rng),
                    },
                };
                let f = graph_facts(&e);
                judge(ctx, &e, &f, "a made-up error")?;
            }
            _ => {
                let e = some_parser_error(&mut ctx.rng);
                let f = parser_facts(&e);
                judge(ctx, &e, &f, "a made-up error")?;
            }
        }
        ctx.st.inc("made_up_errors");
    }
    Ok(())
}

/// Errors of parses: what the reference knows of the place has to be in the text.
fn of_scripts(ctx: &mut Ctx) -> Check {
    let sweeps = ctx.st.count("characters_swept");
    let s = setup_or_sweep(ctx, false);
    let sweeps = ctx.st.count("characters_swept") > sweeps;
    let vm = NullVm::new();
    if s.route == Route::Data && !(sweeps && ctx.idx > 10) {
        return Ok(()); // the grammar may have no rule text
    }
    let Ok(mut p) = text_parser(&s.rules, &vm) else {
        return Ok(());
    };
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    for script in s.scripts.iter().take(if sweeps { usize::MAX } else { 8 }) {
        let chars: Vec<char> = script.chars().collect();
        let Err(f) = rp.run(&chars).result else {
            continue;
        };
        let mut state = NullVm::create_new_state();
        let Ok(Err(e)) = lib(|| p.parse(script, &mut state)) else {
            continue; // C04 and C15 judge that
        };
        let mut facts = vec![Num(f.pos)];
        facts.extend(f.chr.map(|c| Text(c.to_string())));
        if matches!(e, ParserError::UnexpectedCharError { .. }) {
            for x in f.expected.iter().flatten().flatten() {
                facts.push(Text(x.to_string()));
            }
        }
        let what = format!("{}rejected at {} ({:?})", s.describe(script), f.pos, f.chr);
        let e: Box<dyn Error> = Box::new(e);
        judge(ctx, &*e, &facts, &what)?;
        ctx.st.inc("errors_of_scripts");
    }
    Ok(())
}

fn of_rules(ctx: &mut Ctx) -> Check {
    let text = if ctx.rng.chance(1, 3) {
        let g = any_grammar(ctx, true);
        render(&g, Layout::Plain, &mut ctx.rng).text
    } else {
        rule_like(ctx).0
    };
    let vm = NullVm::new();
    let what = format!("rule text:\n{}\n", short(&text));
    let d = match read_rules(&text, &vm) {
        Err(BuildErr::Rules(e)) => {
            let mut facts = parser_facts(&e);
            // the independent reader's place, where it has one
            if let (ParserError::UnexpectedCharError { .. }, Err(ReadErr::Malformed(q))) =
                (&e, read(&text))
            {
                facts = vec![Num(q)];
                facts.extend(text.chars().nth(q).map(|c| Text(c.to_string())));
            }
            ctx.st.inc("errors_of_rule_texts");
            return judge(ctx, &e, &facts, &what);
        }
        Err(_) => return Ok(()),
        Ok(d) => d,
    };
    match stages(d, None) {
        Err(BuildErr::First(e) | BuildErr::Follow(e) | BuildErr::Map(e)) => {
            ctx.st.inc("errors_of_grammars");
            let facts = grammar_facts(&e);
            judge(ctx, &e, &facts, &what)?;
            let e: ParserError = e.into();
            judge(ctx, &e, &facts, &what)
        }
        Ok(s) => {
            drop(Parser::new(s.maps, s.elements, &vm));
            Ok(())
        }
        _ => Ok(()),
    }
}

/// A VM that refuses a section with a message of its own.
struct Refuser(String);
impl VM for Refuser {
    type Tstate = ();
    type Tinstrution = ();
    fn parse_instructions<'a, T>(
        &'a self,
        _: &str,
        _: &mut ParseProcess<T>,
    ) -> Result<Vec<()>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        Err(ParserError::VmError {
            message: self.0.clone(),
        })
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &(), _: &mut ()) {}
    fn create_new_state() {}
}

fn of_others(ctx: &mut Ctx) -> Check {
    let vm = Refuser(some_text(&mut ctx.rng));
    match read_rules("start->\"a\"{x};", &vm) {
        Err(BuildErr::Rules(e)) => {
            let f = [Text(vm.0.clone())];
            judge(ctx, &e, &f, "the message of a VM")?;
        }
        _ => return Err("the error of a VM is not passed on".into()),
    }
    // nodes that are no more, or never were
    let mut t: Tree<u8> = Tree::new();
    let n = ctx.rng.range(1, 40);
    let mut ids = vec![];
    for i in 0..n {
        let up = if i == 0 {
            None
        } else {
            Some(*ctx.rng.pick(&ids))
        };
        ids.push(t.add_node(0, up).map_err(|e| e.to_string())?);
    }
    let gone = *ctx.rng.pick(&ids);
    let other = NodeId {
        node_ptr: some_num(&mut ctx.rng),
        node_pk: some_num(&mut ctx.rng),
    };
    let _ = t.remove_branch(gone);
    for id in [gone, other] {
        let f = [Num(id.node_ptr), Num(id.node_pk)];
        let what = format!("a node that is not there ({id:?})");
        if let Err(e) = lib(|| t.get_node(id).map(|_| ()))? {
            judge(ctx, &e, &f, &what)?;
        }
        if let Err(e) = lib(|| t.get_node_mut(id).map(|_| ()))? {
            judge(ctx, &e, &f, &what)?;
        }
        if let Err(e) = lib(|| t.add_node(0, Some(id)).map(|_| ()))? {
            judge(ctx, &e, &f, &what)?;
        }
        if let Err(e) = lib(|| t.remove_branch(id))? {
            judge(ctx, &e, &f, &what)?;
        }
        if let Err(e) = lib(|| t.get_by_path_or_none(id, [0].into_iter()).map(|_| ()))? {
            judge(ctx, &e, &f, &what)?;
        }
    }
    if let Ok(root) = t.get_node(ids[0]) {
        let nth = some_num(&mut ctx.rng).max(n);
        match lib(|| t.get_nth_child(root, nth).map(|_| ()))? {
            Err(e) => judge(ctx, &e, &[Num(nth)], "a child that is not there")?,
            Ok(()) => return Err(format!("there is a child {nth} of {n} nodes")),
        }
    }
    // named graphs
    let mut g: GraphNamedNodes<u8> = GraphNamedNodes::new();
    let name = some_num(&mut ctx.rng);
    let other = name ^ (1 << ctx.rng.below(60));
    let _ = g.add_node(name, 0);
    if let Err(e) = lib(|| g.add_node(name, 1).map(|_| ()))? {
        judge(ctx, &e, &[Num(name)], "a name that is taken")?;
    }
    if let Err(e) = lib(|| g.get_node(other).map(|_| ()))? {
        judge(ctx, &e, &[Num(other)], "a name that is not there")?;
    }
    let ix = some_num(&mut ctx.rng).max(1);
    if let Err(e) = lib(|| g.get_node_by_index(ix).map(|_| ()))? {
        judge(ctx, &e, &[Num(ix)], "an index that is not there")?;
    }
    ctx.st.inc("errors_of_trees_graphs_and_vms");
    Ok(())
}

fn c23(ctx: &mut Ctx) -> Check {
    if ctx.idx < GIANT && ctx.idx % 5 == 4 {
        return of_scripts(ctx);
    }
    match ctx.rng.below(16) {
        0 => made_up(ctx),
        1 => of_others(ctx),
        2..=7 => of_rules(ctx),
        _ => of_scripts(ctx),
    }
}

pub const C23: Prop = Prop {
    id: "C23",
    rule: "One case shows errors, as text and as printed by unwrap: errors of every kind with random contents, errors of rejected scripts (place, character and expectation known from the reference parser), of rejected rule texts (place known from the independent reader), of grammars that are not LL(1), and of trees, graphs and VMs. Every fact an error holds has to be found in its text, numbers as whole numbers, and showing it twice has to give the same text. One evaluation is one error shown; non-trivial when it holds a fact, distinct by text. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "the wording and the order of the facts are open",
        "the constant word in steuer_terminal is no fact",
    ],
    quick: 150_000,
    thorough: 4_000_000,
    run: c23,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 100),
        ("made_up_errors", 500),
        ("errors_of_scripts", 500),
        ("errors_of_rule_texts", 50),
        ("errors_of_grammars", 20),
        ("errors_of_trees_graphs_and_vms", 30),
    ],
    extra: None,
    giants: 0,
    dev: (0, 0),
};
