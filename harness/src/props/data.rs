//! C09 grammars made through the programmatic interface.
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::{giant_max, layout};
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::parser_data::{
    Element, ElementType, ElementVerbose, NonTerminalRules, ParserData, Production,
};
use henriks_parsing_project::vms::VM;
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
struct MRule {
    prods: Vec<Vec<usize>>,
    ins: Vec<Instr>,
}

fn same_rule(ix: usize, r: Option<&NonTerminalRules<TraceVm>>, want: Option<&MRule>) -> Check {
    let (r, want) = match (r, want) {
        (None, None) => return Ok(()),
        (Some(r), Some(w)) => (r, w),
        (r, w) => {
            return Err(format!(
                "rule {ix} is there: {}, instead of {}",
                r.is_some(),
                w.is_some()
            ));
        }
    };
    let got: Vec<Vec<usize>> = r
        .possible_productions
        .iter()
        .map(|p| match &**p {
            Production::Empty => vec![],
            Production::NotEmpty(v) => v.clone(),
        })
        .collect();
    ensure!(
        got == want.prods,
        "the productions of {ix} are {got:?} instead of {:?}",
        want.prods
    );
    ensure!(
        r.possible_productions
            .iter()
            .all(|p| !matches!(&**p, Production::NotEmpty(v) if v.is_empty())),
        "an empty production of {ix} is not registered as empty"
    );
    ensure!(
        r.instruction == want.ins,
        "the instructions of {ix} are {:?} instead of {:?}",
        r.instruction,
        want.ins
    );
    Ok(())
}

fn registry(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let mut d = ParserData::<TraceVm>::new();
    let mut els: Vec<(bool, String)> = vec![];
    let mut rules: BTreeMap<usize, MRule> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let k = rng.range(1, 8);
    let mut pool = names(rng, k);
    pool.push(String::new());
    pool.push("start".into());
    pool.push(any_char(rng).to_string());
    for _ in 0..rng.range(1, 50) {
        let name = rng.pick(&pool).clone();
        match rng.below(10) {
            0..=4 => {
                let t = rng.chance(1, 2);
                let et = if t {
                    ElementType::Terminal
                } else {
                    ElementType::NonTerminal
                };
                let got = match rng.below(3) {
                    0 => d.get_or_add_element_key(&ElementVerbose::new(name.clone(), et)),
                    1 => d.get_or_add_element_key(&if t {
                        ElementVerbose::new_t(name.clone())
                    } else {
                        ElementVerbose::new_nt(name.clone())
                    }),
                    _ if t => d.get_or_add_terminal(&name),
                    _ => d.get_or_add_non_terminal(&name),
                };
                log.push(format!("{et:?} {name:?}"));
                let key = (t, name);
                let want = els.iter().position(|e| *e == key).unwrap_or_else(|| {
                    els.push(key);
                    els.len() - 1
                });
                ensure!(
                    got == want,
                    "{}\nthe element got index {got} instead of {want}",
                    log.join("; ")
                );
            }
            op => {
                let nts: Vec<usize> = (0..els.len()).filter(|i| !els[*i].0).collect();
                if nts.is_empty() {
                    continue;
                }
                let ix = *rng.pick(&nts);
                let some = |rng: &mut Rng| -> Vec<usize> {
                    (0..rng.below(4)).map(|_| rng.below(els.len())).collect()
                };
                match op {
                    5 | 6 => {
                        let v = some(rng);
                        log.push(format!("add {ix} {v:?}"));
                        d.add_production(ix, v.clone());
                        rules.entry(ix).or_default().prods.push(v);
                    }
                    7 => {
                        let v: Vec<Vec<usize>> = (0..rng.below(4)).map(|_| some(rng)).collect();
                        log.push(format!("set {ix} {v:?}"));
                        d.set_productions(ix, v.clone());
                        if !v.is_empty() || rules.contains_key(&ix) {
                            rules.entry(ix).or_default().prods = v;
                        }
                    }
                    _ => {
                        let text = action_text(rng);
                        let v = if rng.chance(1, 5) {
                            vec![]
                        } else {
                            instrs_for("x", &text)
                        };
                        log.push(format!("instructions {ix} {}", v.len()));
                        d.add_instructions(ix, v.clone());
                        rules.entry(ix).or_default().ins = v;
                    }
                }
            }
        }
        let r = lib(|| {
            let all = d.get_elements_verbose();
            ensure!(
                all.len() == els.len(),
                "{} elements instead of {}",
                all.len(),
                els.len()
            );
            for (i, (t, n)) in els.iter().enumerate() {
                let et = if *t {
                    ElementType::Terminal
                } else {
                    ElementType::NonTerminal
                };
                let v = ElementVerbose::new(n.clone(), et);
                ensure!(
                    all[i] == v
                        && d.get_element_verbose(i).as_ref() == Some(&v)
                        && d.get_element(i) == Some(Element::new(i, et))
                        && d.get_element_data(i).map(|x| &x.name) == Some(n),
                    "element {i} is {:?}, {:?}, {:?}, {:?} instead of {v:?}",
                    all[i],
                    d.get_element_verbose(i),
                    d.get_element(i),
                    d.get_element_data(i).map(|x| &x.name)
                );
                ensure!(
                    d.get_element_index(&v) == Some(i),
                    "{v:?} is found at {:?} instead of {i}",
                    d.get_element_index(&v)
                );
            }
            for n in &pool {
                let find = |t: bool| els.iter().position(|e| e.0 == t && e.1 == *n);
                ensure!(
                    d.get_element_t_index(n) == find(true)
                        && d.get_element_nt_index(n) == find(false),
                    "{n:?} is found at {:?} (terminal) and {:?} (nonterminal)",
                    d.get_element_t_index(n),
                    d.get_element_nt_index(n)
                );
                let w = find(false).and_then(|i| rules.get(&i));
                same_rule(0, d.get_rule_by_element_verbose(n), w)?;
            }
            for i in [els.len(), els.len() + 1, usize::MAX] {
                ensure!(
                    d.get_element(i).is_none()
                        && d.get_element_verbose(i).is_none()
                        && d.get_element_data(i).is_none()
                        && d.get_rule_by_key(i).is_none(),
                    "there is an element {i}"
                );
            }
            for i in 0..els.len() {
                same_rule(i, d.get_rule_by_key(i), rules.get(&i))?;
                let e = d.get_element(i).ok_or("no element")?;
                same_rule(i, d.get_rule_by_element(e), rules.get(&i))?;
            }
            Ok(())
        })
        .unwrap_or_else(|e| Err(format!("panicked: {e}")));
        if let Err(e) = r {
            return Err(format!("{}\n{e}", log.join("; ")));
        }
    }
    ctx.st.inc("registries");
    ctx.st.add("registered_elements", els.len() as u64);
    ctx.st.eval(hash_of(&log), log.len() > 2);
    ctx.st.sample(|| log.join("; "));
    Ok(())
}

/// What a run shows: outcome and executed instructions.
type Seen = (Out, Vec<(String, usize, String)>);

fn seen<'a>(
    p: &mut henriks_parsing_project::script_parser::Parser<'a, TraceVm>,
    script: &'a str,
) -> Seen {
    let mut st = TraceVm::create_new_state();
    let o = parse(p, script, &mut st);
    (
        o,
        st.events
            .into_iter()
            .map(|e| (e.rule, e.no, e.text))
            .collect(),
    )
}

/// What it must show.
fn due(g: &Gram, rp: &RefParser, script: &str) -> Seen {
    let chars: Vec<char> = script.chars().collect();
    let run = rp.run(&chars);
    let out = match run.result {
        Ok(t) => Out::Ok(t.shape()),
        Err(f) => {
            let exp = match &f.expected {
                Some(e) if !f.in_terminal => expected_text(e.iter()),
                Some(e) => expected_text(e.iter()),
                None => sorted("end of input"),
            };
            match f.chr {
                None if f.in_terminal => Out::End { pos: f.pos },
                c => Out::Unexpected {
                    chr: c.unwrap_or('#'),
                    pos: f.pos,
                    expected: exp,
                },
            }
        }
    };
    let mut ev = vec![];
    for (i, _) in &run.completed {
        if let Some(t) = &g.nts[*i].action {
            for ins in instrs_for(&g.nts[*i].name, t.trim_start()) {
                ev.push((ins.rule, ins.no, ins.text));
            }
        }
    }
    (out, ev)
}

fn same_seen(got: &Seen, want: &Seen) -> Check {
    let ok = match (&got.0, &want.0) {
        (
            Out::Unexpected { chr, pos, expected },
            Out::Unexpected {
                chr: c,
                pos: p,
                expected: e,
            },
        ) => chr == c && pos == p && expected == e,
        (a, b) => a == b,
    };
    ensure!(ok, "gave {} instead of {}", got.0.short(), want.0.short());
    ensure!(
        got.1 == want.1,
        "executed {} instead of {}",
        short(&format!("{:?}", got.1)),
        short(&format!("{:?}", want.1))
    );
    Ok(())
}

fn equivalence(ctx: &mut Ctx) -> Check {
    let big = ctx.idx >= GIANT;
    let rng = &mut ctx.rng;
    let mut g = if big {
        giant(rng, giant_max().min(20_000)).0
    } else if rng.chance(1, 4) {
        ignored_grammar(rng)
    } else {
        ll1_grammar(rng)
    };
    for nt in &mut g.nts {
        nt.action = rng.chance(1, 2).then(|| action_text(rng));
    }
    let lay = layout(rng);
    let text = render(&g, lay, rng).text;
    let w = g.woven();
    let vm = TraceVm::new(0);
    let mut starts: Vec<usize> = (0..w.nts.len()).collect();
    rng.shuffle(&mut starts);
    starts.truncate(3);
    starts.insert(0, w.start);
    for (no, start) in starts.into_iter().enumerate() {
        let mut w = w.clone();
        w.start = start;
        let a = analyse(&w);
        if !a.ll1() {
            continue;
        }
        let rng = &mut ctx.rng;
        let (d, ix) = build_data(&w, rng, |n, t| instrs_for(n, t))?;
        let describe = || {
            format!(
                "grammar, starting at {:?}:\n{}\n",
                w.nts[start].name,
                short(&text)
            )
        };
        let mut by_data = data_parser(d, ix[start], &vm)
            .map_err(|e| format!("{}ParserData gives no parser: {e:?}", describe()))?;
        // the rules read from text, with a start of one's own
        let d = read_rules(&text, &vm)
            .map_err(|e| format!("{}the rules cannot be read: {e:?}", describe()))?;
        let Some(six) = d.get_element_nt_index(&w.nts[start].name) else {
            return Err(format!("{}the start has no index", describe()));
        };
        let mut mixed = data_parser(d, six, &vm)
            .map_err(|e| format!("{}the read rules give no parser: {e:?}", describe()))?;
        let mut by_text = if no == 0 {
            Some(
                text_parser(&text, &vm)
                    .map_err(|e| format!("{}the text gives no parser: {e:?}", describe()))?,
            )
        } else {
            ctx.st.inc("other_starts");
            None
        };
        let rp = RefParser::new(&w, &a);
        let scripts = if big {
            giant_scripts(&mut ctx.rng, &w)
        } else {
            scripts(&mut ctx.rng, &w, 6, 25)
        };
        for s in &scripts {
            let want = due(&w, &rp, s);
            let mut ways = vec![("through ParserData", seen(&mut by_data, s))];
            ways.push(("read from text, given the start", seen(&mut mixed, s)));
            if let Some(p) = &mut by_text {
                ways.push(("from text", seen(p, s)));
            }
            ctx.st.inc(if want.0.is_ok() {
                "accepted"
            } else {
                "rejected"
            });
            ctx.st.eval(hash_of(&(&w, s)), !s.is_empty());
            for (way, got) in &ways {
                same_seen(got, &want).map_err(|e| {
                    format!("{}script {s:?}: the parser made {way} {e}", describe())
                })?;
            }
        }
    }
    Ok(())
}

/// Many elements and rules, looked up at the end.
fn large_registry(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let n = rng.range(1000, giant_max() / 2);
    let mut d = ParserData::<TraceVm>::new();
    let mut els: Vec<(bool, String)> = vec![];
    let mut known: BTreeMap<(bool, String), usize> = BTreeMap::new();
    let mut rules: BTreeMap<usize, MRule> = BTreeMap::new();
    let style = rng.below(3);
    for i in 0..n {
        let k = if rng.chance(1, 10) {
            rng.below(i + 1)
        } else {
            i
        };
        let name = match style {
            0 => format!("n{k}"),
            1 => format!("{}{}", "x".repeat(k % 7), k / 7),
            _ => format!("{k:x}é"),
        };
        let t = rng.chance(1, 2);
        let got = if t {
            d.get_or_add_terminal(&name)
        } else {
            d.get_or_add_non_terminal(&name)
        };
        let want = *known.entry((t, name.clone())).or_insert_with(|| {
            els.push((t, name.clone()));
            els.len() - 1
        });
        ensure!(
            got == want,
            "element {i} ({name:?}) of many got index {got} instead of {want}"
        );
        if !t && rng.chance(1, 2) {
            let v: Vec<usize> = (0..rng.below(4)).map(|_| rng.below(els.len())).collect();
            d.add_production(want, v.clone());
            rules.entry(want).or_default().prods.push(v);
        }
    }
    // one rule with many, long alternatives and instructions
    if let Some(ix) = els.iter().position(|e| !e.0) {
        for _ in 0..rng.range(1, 2000) {
            let v: Vec<usize> = (0..rng.below(40)).map(|_| rng.below(els.len())).collect();
            d.add_production(ix, v.clone());
            rules.entry(ix).or_default().prods.push(v);
        }
        let v = instrs_for("x", &format!("*{}", rng.range(0, 5000)));
        d.add_instructions(ix, v.clone());
        rules.entry(ix).or_default().ins = v;
    }
    let all = d.get_elements_verbose();
    ensure!(
        all.len() == els.len(),
        "{} elements instead of {}",
        all.len(),
        els.len()
    );
    for (i, (t, name)) in els.iter().enumerate() {
        let et = if *t {
            ElementType::Terminal
        } else {
            ElementType::NonTerminal
        };
        let find = |t: bool| known.get(&(t, name.clone())).copied();
        ensure!(
            all[i] == ElementVerbose::new(name.clone(), et)
                && d.get_element(i) == Some(Element::new(i, et))
                && d.get_element_t_index(name) == find(true)
                && d.get_element_nt_index(name) == find(false),
            "of {} elements, number {i} ({name:?}) is looked up wrongly",
            els.len()
        );
        same_rule(i, d.get_rule_by_key(i), rules.get(&i))?;
    }
    ctx.st.inc("large_registries");
    ctx.st.max("registered_at_once", els.len() as u64);
    ctx.st.eval(hash_of(&(els.len(), style)), true);
    Ok(())
}

fn c09(ctx: &mut Ctx) -> Check {
    if ctx.idx >= GIANT && ctx.idx % 4 == 2 {
        large_registry(ctx)
    } else if ctx.idx >= GIANT {
        equivalence(ctx)
    } else if ctx.idx % 3 == 2 {
        equivalence(ctx)
    } else {
        registry(ctx)
    }
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "One case is a random history of registrations, productions and instructions in one ParserData, with every lookup compared with a model after each step; or one LL(1) grammar made through ParserData (random call order), read from text, and both, started at its start and at other rules, with the outcomes and executed instructions on 6 scripts compared with the reference parser. Non-trivial above two calls, or with a script that is not empty; distinct by content.",
    assumptions: &["productions are only given to nonterminals, with registered elements"],
    quick: 150_000,
    thorough: 4_000_000,
    run: c09,
    stack_mb: 512,
    floor: &[
        ("registered_elements", 2000),
        ("other_starts", 200),
        ("accepted", 500),
        ("rejected", 500),
    ],
    extra: None,
    giants: 80,
    dev: (0, 0),
};
