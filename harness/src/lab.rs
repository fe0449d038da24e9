//! The library under test: recording VMs, ways to build a parser, outcomes.
use crate::gram::{Gram, La, Shape, Sym};
use crate::util::{Rng, hash_of, lib};
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementIndex, ElementVerbose, ParserData};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::sets::{NamedSets, NamedSetsNoEmpty};
use henriks_parsing_project::steuer_map::{NTRules, get_steuermaps};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

// ---------------------------------------------------------------- recording VM

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Instr {
    pub rule: String,
    pub no: usize,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ReadCall {
    pub rule: String,
    pub text: String,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Event {
    pub rule: String,
    pub no: usize,
    pub text: String,
    pub ptr: usize,
    pub pk: usize,
    pub shape: Option<Shape>,
}

#[derive(Default)]
pub struct TraceState {
    pub events: Vec<Event>,
    pub shapes: bool,
    pub problems: Vec<String>,
}

/// Records what the library hands to a VM, and executes nothing.
pub struct TraceVm {
    pub reads: RefCell<Vec<ReadCall>>,
    /// How the section is read: 0 next, 1 peek and next, 2 next_if, 3 next_if_eq, 4 mixed,
    /// 5 mixed with repeated peeks
    pub mode: usize,
    calls: Cell<usize>,
    pub problems: RefCell<Vec<String>>,
}

impl TraceVm {
    pub fn new(mode: usize) -> TraceVm {
        TraceVm {
            reads: RefCell::new(vec![]),
            mode,
            calls: Cell::new(0),
            problems: RefCell::new(vec![]),
        }
    }
}

/// The instructions the recording VM makes of a section.
pub fn instrs_for(rule: &str, text: &str) -> Vec<Instr> {
    let k = if text.starts_with('0') {
        0
    } else if let Some(n) = text.strip_prefix('*') {
        n.trim_end().parse::<usize>().unwrap_or(n.len()).min(10_000)
    } else {
        1 + text.chars().count() % 3
    };
    // long ones by their digest
    let keep = |s: &str| {
        if s.len() > 1000 {
            format!("{} bytes, {:x}", s.len(), hash_of(s))
        } else {
            s.to_string()
        }
    };
    let (rule, text) = (keep(rule), keep(text));
    (0..k)
        .map(|no| Instr {
            rule: rule.clone(),
            no,
            text: text.clone(),
        })
        .collect()
}

/// Everything that is left, read in one of several ways.
pub fn drain<T: TPeekable<Item = char>>(
    p: &mut ParseProcess<T>,
    mode: usize,
    salt: usize,
    problems: &RefCell<Vec<String>>,
) -> String {
    let mut out = String::new();
    let mut k = salt;
    loop {
        k = k
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        let m = match mode {
            0..=3 => mode,
            _ => (k >> 33) % 4,
        };
        let before = p.cur_pos();
        if mode == 5 {
            let a = p.peek().copied();
            let b = p.peek().copied();
            if a != b {
                problems
                    .borrow_mut()
                    .push(format!("peek gave {a:?} and then {b:?}"));
            }
        }
        let peeked = if m == 0 { None } else { p.peek().copied() };
        let got = match m {
            0 => p.next(),
            1 => {
                if peeked.is_none() {
                    None
                } else {
                    p.next()
                }
            }
            2 => {
                if p.next_if(|_| false).is_some() {
                    problems
                        .borrow_mut()
                        .push("next_if(false) gave a char".into());
                }
                p.next_if(|_| true)
            }
            _ => match peeked {
                None => None,
                Some(c) => {
                    let other = if c == 'x' { 'y' } else { 'x' };
                    if p.next_if_eq(&other).is_some() {
                        problems
                            .borrow_mut()
                            .push("next_if_eq of another char gave a char".into());
                    }
                    p.next_if_eq(&c)
                }
            },
        };
        if m != 0 && got != peeked {
            problems
                .borrow_mut()
                .push(format!("peeked {peeked:?} but consumed {got:?}"));
        }
        let moved = p.cur_pos() - before;
        if moved != usize::from(got.is_some()) {
            problems
                .borrow_mut()
                .push(format!("position moved by {moved} on {got:?}"));
        }
        match got {
            Some(c) => out.push(c),
            None => break,
        }
    }
    if p.next().is_some() {
        problems
            .borrow_mut()
            .push("a section went on after its end".into());
    }
    out
}

impl VM for TraceVm {
    type Tstate = TraceState;
    type Tinstrution = Instr;

    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Instr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let start = to_parse.cur_pos();
        let text = drain(to_parse, self.mode, n + self.mode, &self.problems);
        let end = to_parse.cur_pos();
        self.reads.borrow_mut().push(ReadCall {
            rule: prod_name.to_string(),
            text: text.clone(),
            start,
            end,
        });
        Ok(instrs_for(prod_name, &text))
    }

    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur_node: NodeId,
        i: &Instr,
        state: &mut TraceState,
    ) {
        let shape = if state.shapes {
            match shape_of(tree, cur_node) {
                Ok(s) => Some(s),
                Err(e) => {
                    state.problems.push(e);
                    None
                }
            }
        } else {
            None
        };
        state.events.push(Event {
            rule: i.rule.clone(),
            no: i.no,
            text: i.text.clone(),
            ptr: cur_node.node_ptr,
            pk: cur_node.node_pk,
            shape,
        });
    }

    fn create_new_state() -> TraceState {
        TraceState::default()
    }
}

/// Has instructions for every action, which do nothing.
pub struct QuietVm(pub TraceVm);

impl QuietVm {
    pub fn new(mode: usize) -> QuietVm {
        QuietVm(TraceVm::new(mode))
    }
}

impl VM for QuietVm {
    type Tstate = usize;
    type Tinstrution = Instr;

    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Instr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        self.0.parse_instructions(prod_name, to_parse)
    }

    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &Instr, n: &mut usize) {
        *n += 1;
    }

    fn create_new_state() -> usize {
        0
    }
}

// ---------------------------------------------------------------- trees

pub const ROOT: NodeId = NodeId {
    node_ptr: 0,
    node_pk: 0,
};

pub fn shape_of(tree: &Tree<String>, id: NodeId) -> Result<Shape, String> {
    let node = tree
        .get_node(id)
        .map_err(|e| format!("node {id} of the tree cannot be looked up: {e}"))?;
    if !tree.node_exists(id) {
        return Err(format!("node {id} is in the tree but does not exist"));
    }
    let mut kids = vec![];
    for k in tree.get_children(id) {
        kids.push(shape_of(tree, k)?);
    }
    Ok(Shape {
        data: node.data.clone(),
        kids,
    })
}

// ---------------------------------------------------------------- outcomes

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok(Shape),
    Unexpected {
        chr: char,
        pos: usize,
        /// characters of the message, sorted
        expected: String,
    },
    End {
        pos: usize,
    },
    Other(String),
    Panic(String),
}

impl Out {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn short(&self) -> String {
        let s = match self {
            Out::Ok(s) => format!("Ok {}", s.show()),
            x => format!("{x:?}"),
        };
        crate::util::short(&s)
    }
}

pub fn sorted(s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    v.sort_unstable();
    v.into_iter().collect()
}

/// The library's way to list lookahead symbols, sorted by character.
pub fn expected_text<'i>(it: impl Iterator<Item = &'i La>) -> String {
    let v: Vec<String> = it
        .map(|c| match c {
            Some(c) => c.to_string(),
            None => "terminate".to_string(),
        })
        .collect();
    sorted(&v.join(";"))
}

pub fn err_out(e: &ParserError) -> Out {
    match e {
        ParserError::UnexpectedCharError { chr, pos, expected } => Out::Unexpected {
            chr: *chr,
            pos: *pos,
            expected: sorted(expected),
        },
        ParserError::EndOfCharsError { pos } => Out::End { pos: *pos },
        e => Out::Other(format!("{e:?}")),
    }
}

/// One parse, with panics caught.
pub fn parse<'a, V: VM>(p: &mut Parser<'a, V>, script: &'a str, state: &mut V::Tstate) -> Out {
    match lib(|| p.parse(script, state)) {
        Err(m) => Out::Panic(m),
        Ok(Err(e)) => err_out(&e),
        Ok(Ok(tree)) => match lib(|| shape_of(&tree, ROOT)) {
            Ok(Ok(s)) => Out::Ok(s),
            Ok(Err(e)) => Out::Other(e),
            Err(m) => Out::Panic(m),
        },
    }
}

// ---------------------------------------------------------------- building

#[derive(Debug)]
pub enum BuildErr {
    Rules(ParserError),
    First(GrammarError),
    Follow(GrammarError),
    Map(GrammarError),
    NoStart,
    Panic(String),
}

pub type Maps<V> = HashMap<ElementIndex, NTRules<V>>;

pub fn text_parser<'a, V: VM>(rules: &str, vm: &'a V) -> Result<Parser<'a, V>, BuildErr> {
    lib(|| Parser::new_from_text(rules, vm)).map_err(BuildErr::Panic)
}

pub fn read_rules<V: VM>(rules: &str, vm: &V) -> Result<ParserData<V>, BuildErr> {
    let r = lib(|| {
        let mut peekable = PeekableWrapper::from_str(rules);
        let mut rp = RuleParser::new(&mut peekable, vm);
        rp.parse_rules().map_err(BuildErr::Rules)?;
        let RuleParser { parser_data, .. } = rp;
        Ok(parser_data)
    });
    r.unwrap_or_else(|m| Err(BuildErr::Panic(m)))
}

pub struct Stages<V: VM> {
    pub first: NamedSets,
    pub follow: NamedSetsNoEmpty,
    pub maps: Maps<V>,
    pub elements: Vec<ElementVerbose>,
}

/// `start`: None for the nonterminal named "start".
pub fn stages<V: VM>(
    data: ParserData<V>,
    start: Option<ElementIndex>,
) -> Result<Stages<V>, BuildErr> {
    let r = lib(|| {
        let start = match start {
            Some(s) => s,
            None => data
                .get_element_nt_index("start")
                .ok_or(BuildErr::NoStart)?,
        };
        let elements = data.get_elements_verbose();
        let first = get_first_sets(&data).map_err(BuildErr::First)?;
        let follow = get_follow_sets(start, &first, &data).map_err(BuildErr::Follow)?;
        let maps = get_steuermaps(&first, &follow, data).map_err(BuildErr::Map)?;
        Ok(Stages {
            first,
            follow,
            maps,
            elements,
        })
    });
    r.unwrap_or_else(|m| Err(BuildErr::Panic(m)))
}

pub fn staged_parser<'a, V: VM>(rules: &str, vm: &'a V) -> Result<Parser<'a, V>, BuildErr> {
    let data = read_rules(rules, vm)?;
    let s = stages(data, None)?;
    Ok(Parser::new(s.maps, s.elements, vm))
}

pub fn data_parser<'a, V: VM>(
    data: ParserData<V>,
    start: ElementIndex,
    vm: &'a V,
) -> Result<Parser<'a, V>, BuildErr> {
    lib(|| Parser::new_from_parser_data(data, start, vm)).map_err(BuildErr::Panic)
}

/// Builds the (woven) grammar through the programmatic interface, in a random order of calls.
/// Returns the data and the index of each nonterminal.
pub fn build_data<V: VM>(
    g: &Gram,
    rng: &mut Rng,
    instrs: impl Fn(&str, &str) -> Vec<V::Tinstrution>,
) -> Result<(ParserData<V>, Vec<ElementIndex>), String> {
    lib(|| {
        let mut d = ParserData::<V>::new();
        // part of the elements in advance, in any order
        let mut pre: Vec<Sym> = (0..g.nts.len()).map(Sym::N).collect();
        for s in g.nts.iter().flat_map(|n| n.alts.iter().flatten()) {
            if matches!(s, Sym::T(_)) && rng.chance(1, 2) {
                pre.push(s.clone());
            }
        }
        rng.shuffle(&mut pre);
        if rng.chance(1, 2) {
            let k = rng.below(pre.len() + 1);
            pre.truncate(k);
        }
        for s in &pre {
            let _ = elem(&mut d, g, s);
        }
        let mut order: Vec<usize> = (0..g.nts.len()).filter(|i| g.nts[*i].defined).collect();
        rng.shuffle(&mut order);
        let mut steps: Vec<(usize, usize)> = vec![];
        // (rule, step): 0 instructions first, 1 productions, 2 instructions last
        for i in &order {
            if g.nts[*i].action.is_some() {
                steps.push((*i, if rng.chance(1, 3) { 0 } else { 2 }));
            }
            steps.push((*i, 1));
        }
        steps.sort_by_key(|(_, s)| *s);
        for (i, step) in steps {
            let ix = elem(&mut d, g, &Sym::N(i));
            let nt = &g.nts[i];
            if step == 1 {
                let prods: Vec<Vec<ElementIndex>> = nt
                    .alts
                    .iter()
                    .map(|a| a.iter().map(|s| elem(&mut d, g, s)).collect())
                    .collect();
                if rng.chance(1, 3) {
                    if rng.chance(1, 2) && !prods.is_empty() {
                        d.add_production(ix, prods[0].clone());
                    }
                    d.set_productions(ix, prods);
                } else {
                    for p in prods {
                        d.add_production(ix, p);
                    }
                }
            } else if let Some(text) = &nt.action {
                if rng.chance(1, 4) {
                    d.add_instructions(ix, vec![]);
                }
                d.add_instructions(ix, instrs(&nt.name, text.trim_start()));
            }
        }
        let ixs = (0..g.nts.len())
            .map(|i| elem(&mut d, g, &Sym::N(i)))
            .collect();
        (d, ixs)
    })
    .map_err(|m| format!("building the grammar through ParserData panicked: {m}"))
}

fn elem<V: VM>(d: &mut ParserData<V>, g: &Gram, s: &Sym) -> ElementIndex {
    match s {
        Sym::T(t) => d.get_or_add_terminal(t),
        Sym::N(i) => d.get_or_add_non_terminal(&g.nts[*i].name),
    }
}

/// How a case builds its parser.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    Text,
    Staged,
    Data,
}

pub fn route(rng: &mut Rng) -> Route {
    *rng.pick(&[Route::Text, Route::Text, Route::Staged, Route::Data])
}
