//! C05 which grammars are admitted, C06 lookahead sets and tables.
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::{giant_max, layout};
use crate::runner::{Extra, GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ParserData, Production};
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// One step away from a good grammar.
fn spoil(g: &mut Gram, rng: &mut Rng) -> &'static str {
    let n = g.nts.len();
    let i = rng.below(n);
    let a = analyse(g);
    match rng.below(12) {
        0 => {
            // an alternative that begins like another one
            let p: Vec<char> = a.predict[i].iter().flatten().filter_map(|c| *c).collect();
            let c = if p.is_empty() { 'x' } else { *rng.pick(&p) };
            let mut alt = vec![Sym::T(writable(&c.to_string()))];
            if rng.chance(1, 2) {
                alt.push(Sym::N(rng.below(n)));
            }
            let k = rng.below(g.nts[i].alts.len() + 1);
            g.nts[i].alts.insert(k, alt);
            "alternative with a taken first character"
        }
        1 => {
            g.nts[i].alts.push(vec![]);
            "one more empty alternative"
        }
        2 => {
            let k = rng.below(g.nts[i].alts.len());
            let alt = g.nts[i].alts[k].clone();
            g.nts[i].alts.push(alt);
            "an alternative twice"
        }
        3 => {
            let k = rng.below(g.nts[i].alts.len());
            g.nts[i].alts[k].insert(0, Sym::N(rng.below(n)));
            "a rule put in front of an alternative"
        }
        4 => {
            let k = rng.below(g.nts[i].alts.len());
            g.nts[i].alts[k].push(Sym::N(rng.below(n)));
            "a rule put behind an alternative"
        }
        5 => {
            if i == g.start && rng.chance(2, 3) {
                return "nothing";
            }
            g.nts[i].defined = false;
            g.nts[i].alts.clear();
            "a rule taken away"
        }
        6 => {
            let mut nt = Gram::nt("nowhere", vec![]);
            nt.defined = false;
            g.nts.push(nt);
            let k = rng.below(g.nts[i].alts.len());
            let alt = &mut g.nts[i].alts[k];
            let at = rng.below(alt.len() + 1);
            alt.insert(at, Sym::N(n));
            "a reference to no rule"
        }
        7 => {
            let k = rng.below(g.nts[i].alts.len());
            if !g.nts[i].alts[k].is_empty() {
                let at = rng.below(g.nts[i].alts[k].len());
                g.nts[i].alts[k].remove(at);
            }
            "an element taken away"
        }
        8 => {
            let k = rng.below(g.nts[i].alts.len());
            if let Some(s) = g.nts[i].alts[k].first_mut() {
                *s = Sym::T(String::new());
            }
            "a first element made empty"
        }
        9 => {
            // a rule that never ends, or that nothing uses
            let m = g.nts.len();
            let alt = match rng.below(3) {
                0 => vec![Sym::T("x".into()), Sym::N(m)],
                1 => vec![Sym::T("x".into()), Sym::N(i)],
                _ => vec![Sym::N(i)],
            };
            g.nts.push(Gram::nt("unused", vec![alt]));
            if rng.chance(1, 2) {
                let k = rng.below(g.nts[i].alts.len());
                g.nts[i].alts[k].push(Sym::N(m));
            }
            "a rule that is unused or never ends"
        }
        10 => {
            // left recursion through several rules
            let mut at = i;
            for _ in 0..rng.range(1, 4) {
                let to = rng.below(n);
                let k = rng.below(g.nts[at].alts.len());
                g.nts[at].alts[k].insert(0, Sym::N(to));
                at = to;
            }
            let k = rng.below(g.nts[at].alts.len());
            g.nts[at].alts[k].insert(0, Sym::N(i));
            "left recursion over several rules"
        }
        _ => {
            let j = rng.below(n);
            let k = rng.below(g.nts[i].alts.len());
            let t = g.nts[j]
                .alts
                .iter()
                .flatten()
                .find(|s| matches!(s, Sym::T(_)))
                .cloned()
                .unwrap_or(Sym::T("z".into()));
            if g.nts[i].alts[k].is_empty() {
                g.nts[i].alts[k].push(t);
            } else {
                g.nts[i].alts[k][0] = t;
            }
            "a first element replaced by a terminal of another rule"
        }
    }
}

/// Any grammar, without or with ignores.
/// As `any_grammar`; every eleventh case has a block of all the characters there are.
pub fn any_or_sweep(ctx: &mut Ctx, ignores: bool) -> Gram {
    if ctx.idx < GIANT && ctx.idx % 11 == 10 {
        let chars = swept(ctx.idx / 11, 48);
        if !chars.is_empty() {
            ctx.st.add("characters_swept", chars.len() as u64);
            let mut all = chars.clone();
            for c in chars {
                all.extend(near(c));
            }
            all.sort_unstable();
            all.dedup();
            all.retain(|c| *c != '"' && *c != '\\'); // not written as they are
            let rng = &mut ctx.rng;
            let mut g = sweep_grammar(rng, &all).0;
            if rng.chance(1, 3) {
                // one of them twice
                let alts = &mut g.nts[1].alts;
                let mut again = rng.pick(alts).clone();
                again.push(Sym::T("!".into()));
                alts.push(again);
            }
            return g;
        }
    }
    any_grammar(ctx, ignores)
}

pub fn any_grammar(ctx: &mut Ctx, ignores: bool) -> Gram {
    let rng = &mut ctx.rng;
    let mut g = if ctx.idx >= GIANT {
        let (mut g, kind) = giant(rng, giant_max().min(100_000));
        let what = if rng.chance(1, 3) {
            spoil(&mut g, rng)
        } else {
            "nothing"
        };
        ctx.st.inc(&format!("giants_{kind}"));
        ctx.st.inc(&format!("spoiled: {what}"));
        ctx.st.max("giant_elements", g.size() as u64);
        g
    } else {
        small_grammar(ctx)
    };
    let rng = &mut ctx.rng;
    if ignores && rng.chance(1, 4) {
        let n = g.nts.len();
        let dir = rng.below(n);
        let from = rng.below(n + 1);
        for i in 0..n {
            if i >= from {
                g.nts[i].inherited = Some(dir);
            }
            if rng.chance(1, 5) {
                g.nts[i].ov = if rng.chance(1, 2) {
                    Ov::Off
                } else {
                    Ov::Use(rng.below(n))
                };
            }
        }
    }
    g
}

fn small_grammar(ctx: &mut Ctx) -> Gram {
    let rng = &mut ctx.rng;
    match rng.below(10) {
        0..=3 => {
            let cfg = Cfg::random(rng);
            let pool = Pool::new(rng);
            raw_grammar(rng, &cfg, &pool)
        }
        4 => {
            // tiny, over two characters: every kind of clash is frequent
            let cfg = Cfg {
                nts: rng.range(1, 4),
                alts: 3,
                len: 3,
                eps: 30,
                empty_terminals: rng.chance(1, 4),
                productive: false,
                long_terminals: false,
            };
            let pool = Pool {
                chars: vec!['a', 'b', 'c', 'd', 'e', 'f'],
            };
            raw_grammar(rng, &cfg, &pool)
        }
        5..=7 => {
            let mut g = ll1_grammar(rng);
            let what = spoil(&mut g, rng);
            ctx.st.inc(&format!("spoiled: {what}"));
            g
        }
        _ => ll1_grammar(rng),
    }
}

fn nt_name<V: henriks_parsing_project::vms::VM>(d: &ParserData<V>, ix: usize) -> String {
    d.get_element_verbose(ix)
        .map(|e| e.name)
        .unwrap_or_default()
}

fn c05(ctx: &mut Ctx) -> Check {
    let g = any_or_sweep(ctx, true);
    let lay = layout(&mut ctx.rng);
    let rules = render(&g, lay, &mut ctx.rng).text;
    let bad_ignore = (0..g.nts.len())
        .any(|i| g.nts[i].defined && g.ignore_of(i).is_some_and(|x| !g.nts[x].defined));
    let w = g.woven();
    let a = analyse(&w);
    let good = a.ll1() && !bad_ignore;
    let leftrec = a.left_recursive.iter().any(|x| *x);
    ctx.st
        .inc(match (a.undefined || bad_ignore, leftrec, &a.conflict) {
            (false, false, None) => "ll1",
            (false, false, Some(_)) => "only_conflicts",
            (false, true, None) => "only_left_recursion",
            (true, false, None) => "only_undefined",
            _ => "several_defects",
        });
    ctx.st.eval(hash_of(&g), g.nts.len() > 1);
    let vm = NullVm::new();
    let say = |m: String| {
        Err(format!(
            "grammar:\n{}\nreference: LL(1) {good}, undefined names {}, left recursive {:?}, conflict {:?}\n{m}",
            short(&rules),
            a.undefined || bad_ignore,
            a.left_recursive
                .iter()
                .position(|x| *x)
                .map(|i| &g.nts[i].name),
            a.conflict.map(|(i, x, y, c)| (&g.nts[i].name, x, y, c)),
        ))
    };
    let sample = format!("{}\n-> LL(1): {good}", short(&rules));
    ctx.st.sample(|| sample);

    // staged, from text
    let data = read_rules(&rules, &vm);
    let mut names = vec![];
    let staged = data.and_then(|d| {
        names = d.get_elements_verbose();
        stages(d, None)
    });
    match &staged {
        Ok(_) if !good => return say("the staged interface accepted it".into()),
        Ok(_) => {}
        Err(BuildErr::Panic(m)) => return say(format!("the staged interface panicked: {m}")),
        Err(e) if good => return say(format!("the staged interface rejected it: {e:?}")),
        Err(e) => {
            let name = |ix: usize| names.get(ix).map(|e| e.name.clone()).unwrap_or_default();
            let find = |n: &str| g.nts.iter().position(|x| x.name == n);
            // a report that names a place must name a guilty one
            match e {
                BuildErr::First(GrammarError::LeftRecursion { index }) => {
                    ctx.st.inc("reports_of_left_recursion");
                    if !find(&name(*index)).is_some_and(|i| a.left_recursive[i]) {
                        return say(format!(
                            "left recursion reported of {:?}, which has none",
                            name(*index)
                        ));
                    }
                }
                BuildErr::First(GrammarError::MissingProduction { index })
                | BuildErr::First(GrammarError::MissingFirstSet { index })
                | BuildErr::First(GrammarError::MissingElementForIndex { index })
                | BuildErr::Follow(GrammarError::MissingProduction { index })
                | BuildErr::Follow(GrammarError::MissingFirstSet { index })
                | BuildErr::Follow(GrammarError::MissingFollowSet { index })
                | BuildErr::Follow(GrammarError::GraphNodeDoesNotExistsError {
                    node_name: index,
                })
                | BuildErr::Map(GrammarError::MissingProduction { index })
                | BuildErr::Map(GrammarError::MissingFirstSet { index })
                | BuildErr::Map(GrammarError::MissingFollowSet { index })
                | BuildErr::Map(GrammarError::MissingSteuerSet { index }) => {
                    ctx.st.inc("reports_of_missing_rules");
                    if find(&name(*index)).is_some_and(|i| g.nts[i].defined) {
                        return say(format!(
                            "{:?} reported missing, which is there",
                            name(*index)
                        ));
                    }
                }
                BuildErr::Map(GrammarError::SteuerSetsNotDistinct {
                    steuer_char,
                    rule_name,
                    ..
                }) => {
                    ctx.st.inc("reports_of_conflicts");
                    let rule = match rule_name.parse::<usize>() {
                        Ok(ix) if find(rule_name).is_none() => name(ix),
                        _ => rule_name.clone(),
                    };
                    let c = *steuer_char;
                    let guilty = find(&rule).is_some_and(|i| {
                        let n = |la: La| a.predict[i].iter().filter(|p| p.contains(&la)).count();
                        n(Some(c)) > 1 || (c == '#' && n(None) > 1)
                    });
                    if !guilty {
                        return say(format!(
                            "a conflict on {c:?} reported of {rule:?}, where there is none"
                        ));
                    }
                }
                BuildErr::Rules(ParserError::InternalError { .. }) if bad_ignore || a.undefined => {
                    ctx.st.inc("reports_of_missing_rules");
                }
                BuildErr::NoStart => {}
                e => return say(format!("rejected, but with an unrelated report: {e:?}")),
            }
        }
    }
    drop(staged);
    // constructors
    let text = text_parser(&rules, &vm).is_ok();
    if text != good {
        return say(format!(
            "Parser::new_from_text {} it",
            if text { "accepted" } else { "rejected" }
        ));
    }
    if !bad_ignore && ctx.rng.chance(1, 2) {
        let (d, ix) = build_data::<NullVm>(&w, &mut ctx.rng, |_, _| vec![0])?;
        let ok = data_parser(d, ix[w.start], &vm).is_ok();
        if ok != good {
            return say(format!(
                "Parser::new_from_parser_data {} it",
                if ok { "accepted" } else { "rejected" }
            ));
        }
        ctx.st.inc("also_programmatic");
    }
    Ok(())
}

fn c05_chains(x: &mut Extra) {
    for (key, n) in [
        ("chain-analyse-500", 500),
        ("chain-analyse-100000", 100_000),
    ] {
        let r = x.sub(&["chain", "analyse", &n.to_string()]);
        x.judge_fixed(
            key,
            &format!("analysing a chain of {n} rules that begin with each other, on an 8 MB stack"),
            r,
        );
    }
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "One case is one grammar: random (often not LL(1)), LL(1), or an LL(1) grammar with one realistic mistake, a quarter with ignore directives. Textbook fixpoints decide whether it is LL(1); the staged interface, the text constructor and the programmatic constructor must agree, rejecting by error (staged) or catchable panic (constructors), and a report that names a rule must name a guilty one. Non-trivial with at least two rules, distinct by grammar. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "LL(1) is decided over all rules, whether the start reaches them or not; left recursion is rejected even in rules that derive nothing",
        "a constructor without a Result rejects by panicking",
    ],
    quick: 300_000,
    thorough: 4_000_000,
    run: c05,
    stack_mb: 256,
    floor: &[
        ("characters_swept", 100),
        ("ll1", 150),
        ("only_conflicts", 50),
        ("only_left_recursion", 1),
        ("only_undefined", 5),
        ("reports_of_left_recursion", 5),
        ("reports_of_conflicts", 50),
    ],
    extra: Some(c05_chains),
    giants: 160,
    dev: (0, 0),
};

fn no_empty(s: &HashSet<SetMember>) -> BTreeSet<La> {
    s.iter()
        .map(|m| match m {
            SetMember::Char(c) => Some(*c),
            SetMember::Terminate => None,
        })
        .collect()
}
/// (lookaheads, whether empty is a member)
fn with_empty(s: &HashSet<SetMemberWithEmpty>) -> (BTreeSet<La>, bool) {
    let mut out = BTreeSet::new();
    let mut empty = false;
    for m in s {
        match m {
            SetMemberWithEmpty::Char(c) => {
                out.insert(Some(*c));
            }
            SetMemberWithEmpty::Terminate => {
                out.insert(None);
            }
            SetMemberWithEmpty::Empty => empty = true,
        }
    }
    (out, empty)
}

fn c06(ctx: &mut Ctx) -> Check {
    let mut g = any_or_sweep(ctx, false);
    let from_text = ctx.rng.chance(1, 2);
    if !from_text && ctx.rng.chance(1, 2) {
        g.start = ctx.rng.below(g.nts.len());
    }
    let a = analyse(&g);
    if a.undefined || a.left_recursive.iter().any(|x| *x) {
        ctx.st.inc("grammars_without_sets");
        return Ok(());
    }
    let lay = layout(&mut ctx.rng);
    let rules = render(&g, lay, &mut ctx.rng).text;
    let vm = NullVm::new();
    let (data, start) = if from_text {
        match read_rules(&rules, &vm) {
            Ok(d) => {
                let s = d.get_element_nt_index("start");
                (d, s)
            }
            Err(e) => return Err(format!("grammar:\n{rules}\nwas not read: {e:?}")),
        }
    } else {
        let (d, ix) = build_data::<NullVm>(&g, &mut ctx.rng, |_, _| vec![0])?;
        let s = ix[g.start];
        (d, Some(s))
    };
    let start = start.ok_or("no start")?;
    ctx.st.eval(hash_of(&g), g.nts.len() > 1);
    ctx.st.inc(if a.conflict.is_some() {
        "not_ll1"
    } else {
        "ll1"
    });
    let say = |m: String| {
        Err(format!(
            "grammar:\n{}\nstart {}\n{m}",
            short(&rules),
            g.nts[g.start].name
        ))
    };
    let defined = g.nts.iter().filter(|n| n.defined).count();
    let mut ix_of = vec![];
    for nt in &g.nts {
        if !nt.defined {
            // nothing refers to it
            ix_of.push(usize::MAX);
            continue;
        }
        match data.get_element_nt_index(&nt.name) {
            Some(i) => ix_of.push(i),
            None => return say(format!("{} has no index", nt.name)),
        }
    }
    let first = match lib(|| get_first_sets(&data)) {
        Ok(Ok(f)) => f,
        x => return say(format!("FIRST sets failed: {:?}", x.map(|r| r.map(|_| ())))),
    };
    let follow = match lib(|| get_follow_sets(start, &first, &data)) {
        Ok(Ok(f)) => f,
        x => {
            return say(format!(
                "FOLLOW sets failed: {:?}",
                x.map(|r| r.map(|_| ()))
            ));
        }
    };
    let steuer = match lib(|| get_steuer_sets(&first, &follow)) {
        Ok(Ok(f)) => f,
        x => {
            return say(format!(
                "lookahead sets failed: {:?}",
                x.map(|r| r.map(|_| ()))
            ));
        }
    };
    if first.len() != defined || follow.len() != defined || steuer.len() != defined {
        return say(format!(
            "{} rules, but {} FIRST, {} FOLLOW and {} lookahead sets",
            defined,
            first.len(),
            follow.len(),
            steuer.len()
        ));
    }
    for (i, nt) in g.nts.iter().enumerate().filter(|(_, n)| n.defined) {
        let ix = ix_of[i];
        let want_first: BTreeSet<La> = a.first[i].iter().map(|c| Some(*c)).collect();
        let got = first.get(&ix).map(with_empty);
        if got != Some((want_first.clone(), a.nullable[i])) {
            return say(format!(
                "FIRST({}) is {got:?}, the fixpoint is {want_first:?}, empty {}",
                nt.name, a.nullable[i]
            ));
        }
        let got = follow.get(&ix).map(no_empty);
        if got.as_ref() != Some(&a.follow[i]) {
            return say(format!(
                "FOLLOW({}) is {got:?}, the fixpoint is {:?}",
                nt.name, a.follow[i]
            ));
        }
        let mut want = want_first;
        if a.nullable[i] {
            want.extend(a.follow[i].iter().copied());
        }
        let got = steuer.get(&ix).map(no_empty);
        if got.as_ref() != Some(&want) {
            return say(format!(
                "the lookahead set of {} is {got:?} instead of {want:?}",
                nt.name
            ));
        }
        ctx.st
            .add("set_members", (a.first[i].len() + a.follow[i].len()) as u64);
        ctx.st.inc("rules_compared");
        if a.nullable[i] {
            ctx.st.inc("nullable_rules");
        }
    }
    // FIRST of parts of alternatives
    for _ in 0..6 {
        let nt = ctx.rng.pick(&g.nts);
        if !nt.defined {
            continue;
        }
        let alt = ctx.rng.pick(&nt.alts).clone();
        let from = ctx.rng.below(alt.len() + 1);
        let part = &alt[from..];
        if part.is_empty() {
            continue;
        }
        let ixs: Option<Vec<usize>> = part
            .iter()
            .map(|s| match s {
                Sym::N(j) => Some(ix_of[*j]),
                Sym::T(t) => data.get_element_t_index(t),
            })
            .collect();
        let Some(ixs) = ixs else {
            return say(format!("a terminal of {part:?} has no index"));
        };
        let (f, nul) = a.first_of(part);
        let want: BTreeSet<La> = f.into_iter().map(Some).collect();
        match lib(|| first_set_of_partial(&ixs, &first, &data)) {
            Ok(Ok(s)) if with_empty(&s) == (want.clone(), nul) => ctx.st.inc("parts_compared"),
            x => {
                return say(format!(
                    "FIRST of {part:?} is {x:?} instead of {want:?}, empty {nul}"
                ));
            }
        }
    }
    // tables
    let name_of: BTreeMap<usize, String> = data
        .get_elements_verbose()
        .into_iter()
        .enumerate()
        .map(|(i, e)| (i, format!("{:?}:{}", e.et, e.name)))
        .collect();
    let maps = match lib(|| get_steuermaps(&first, &follow, data)) {
        Ok(Ok(m)) => {
            if a.conflict.is_some() {
                return say(format!(
                    "a table was made in spite of the conflict {:?}",
                    a.conflict
                ));
            }
            m
        }
        Ok(Err(_)) if a.conflict.is_some() => return Ok(()),
        x => return say(format!("tables failed: {:?}", x.map(|r| r.map(|_| ())))),
    };
    for (i, nt) in g.nts.iter().enumerate().filter(|(_, n)| n.defined) {
        let Some(rule) = maps.get(&ix_of[i]) else {
            return say(format!("no table for {}", nt.name));
        };
        let want: BTreeMap<La, Vec<String>> = nt
            .alts
            .iter()
            .enumerate()
            .flat_map(|(k, alt)| {
                let v: Vec<String> = alt
                    .iter()
                    .map(|s| match s {
                        Sym::T(t) => format!("Terminal:{t}"),
                        Sym::N(j) => format!("NonTerminal:{}", g.nts[*j].name),
                    })
                    .collect();
                a.predict[i][k]
                    .iter()
                    .map(move |c| (*c, v.clone()))
                    .collect::<Vec<_>>()
            })
            .collect();
        let got: BTreeMap<La, Vec<String>> = rule
            .steuermap
            .iter()
            .map(|(m, p)| {
                let la = match m {
                    SetMember::Char(c) => Some(*c),
                    SetMember::Terminate => None,
                };
                let v = match &**p {
                    Production::Empty => vec![],
                    Production::NotEmpty(e) => e
                        .iter()
                        .map(|x| name_of.get(x).cloned().unwrap_or_default())
                        .collect(),
                };
                (la, v)
            })
            .collect();
        if got != want {
            return say(format!(
                "the table of {} is {got:?} instead of {want:?}",
                nt.name
            ));
        }
        ctx.st.add("table_entries", got.len() as u64);
    }
    let sample = format!(
        "{}\nFIRST/FOLLOW of {}: {:?} / {:?}",
        short(&rules),
        g.nts[g.start].name,
        a.first[g.start],
        a.follow[g.start]
    );
    ctx.st.sample(|| sample);
    let _ = nt_name::<NullVm>;
    Ok(())
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "One case is one grammar without undefined names or left recursion (random, LL(1), or LL(1) with a mistake; from text or ParserData, any start symbol). FIRST, FOLLOW and lookahead sets of every rule, FIRST of random parts of alternatives and the prediction tables are compared with fixpoints computed from the textbook definitions. Non-trivial with at least two rules, distinct by grammar. Besides, every character there is takes each of its places in turn.",
    assumptions: &["FOLLOW is taken over all rules, also those the start does not reach"],
    quick: 300_000,
    thorough: 4_000_000,
    run: c06,
    stack_mb: 256,
    floor: &[
        ("characters_swept", 100),
        ("rules_compared", 1500),
        ("nullable_rules", 300),
        ("table_entries", 2000),
        ("not_ll1", 50),
        ("parts_compared", 1500),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};
