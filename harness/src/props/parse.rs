//! C01 acceptance, C02 tree, C03 actions, C04 error reports.
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::collections::BTreeSet;

/// A grammar to build a parser of, and scripts to run.
pub struct Setup {
    pub g: Gram,
    pub a: An,
    pub rules: String,
    pub route: Route,
    pub scripts: Vec<String>,
    pub big: bool,
}

impl Setup {
    pub fn describe(&self, script: &str) -> String {
        format!(
            "grammar ({:?}):\n{}\nscript: {}\n",
            self.route,
            short(&self.rules),
            short(&format!("{script:?}"))
        )
    }
}

pub fn layout(rng: &mut Rng) -> Layout {
    *rng.pick(&[
        Layout::Plain,
        Layout::Plain,
        Layout::Tight,
        Layout::Wild,
        Layout::Wild,
    ])
}

/// Replaces the tails of some terminals by text that cannot be written in rule files.
fn wild_terminals(g: &mut Gram, rng: &mut Rng) {
    for s in g.nts.iter_mut().flat_map(|n| n.alts.iter_mut().flatten()) {
        if let Sym::T(t) = s
            && !t.is_empty()
            && rng.chance(1, 4)
        {
            let first = t.chars().next().unwrap();
            let k = rng.range(0, 4);
            *t = String::from(first);
            for _ in 0..k {
                t.push(*rng.pick(&['"', '\\', '}', '\n', ';', 'a', '\u{0}', '😀']));
            }
        }
    }
}

/// The largest size of a giant: an unoptimised build gets smaller ones.
pub fn giant_max() -> usize {
    if option_env!("HARNESS_UNOPTIMISED").is_some() {
        30_000
    } else {
        300_000
    }
}

fn giant_setup(ctx: &mut Ctx, actions: bool, max: usize) -> Setup {
    let rng = &mut ctx.rng;
    let (mut g, kind, scripts) = match ctx.idx - GIANT {
        k @ 0..8 => exact(rng, k, max),
        _ => {
            let (g, kind) = giant(rng, max);
            let scripts = giant_scripts(rng, &g);
            (g, kind, scripts)
        }
    };
    let route = route(rng);
    if actions {
        // about as many events as the script has characters, or 300,000
        let longest = scripts.iter().map(String::len).max().unwrap_or(0);
        let most = (300_000 / (longest + 1)).clamp(1, 5000);
        for nt in g.nts.iter_mut().take(5) {
            nt.action = match rng.below(4) {
                0 => None,
                1 => Some(action_text(rng)),
                2 if longest < 1000 => Some(giant_action(rng, max.min(100_000))),
                _ => Some(format!("*{}", rng.range(0, most))),
            };
        }
    }
    let lay = if kind == "many_alternatives" && rng.chance(1, 2) && !actions {
        Layout::Parts
    } else {
        layout(rng)
    };
    let rules = render(&g, lay, rng).text;
    let a = analyse(&g);
    assert!(a.ll1(), "generator: {kind}");
    ctx.st.inc(&format!("giants_{kind}"));
    ctx.st.max("giant_rule_chars", rules.chars().count() as u64);
    ctx.st.max("giant_elements", g.size() as u64);
    ctx.st.inc(&format!("route_{route:?}"));
    Setup {
        g,
        a,
        rules,
        route,
        scripts,
        big: true,
    }
}

/// Derivations as deep as the script is long.
fn deep_setup(ctx: &mut Ctx, actions: bool) -> Setup {
    let rng = &mut ctx.rng;
    let (rules, parts) = rng.pick(super::life::DEEP);
    let mut g = read(rules).expect("deep grammar");
    let route = route(rng);
    if route == Route::Data {
        g = g.woven();
    }
    let n = if rng.chance(1, 2) {
        giant_size(rng, giant_max())
    } else {
        rng.range(giant_max() / 3, giant_max())
    };
    if actions {
        for nt in g.nts.iter_mut() {
            if rng.chance(1, 3) {
                nt.action = Some(action_text(rng));
            }
        }
    }
    let lay = layout(rng);
    let rules = render(&g, lay, rng).text;
    let g = g.woven();
    let a = analyse(&g);
    assert!(a.ll1(), "generator: deep");
    let make = |k: usize, m: usize| {
        let mut v: Vec<char> = parts[0].chars().collect();
        v.extend(parts[1].repeat(k).chars());
        v.extend(parts[2].chars());
        v.extend(parts[3].repeat(m).chars());
        v.extend(parts[4].chars());
        v
    };
    let whole = make(n, n);
    let mut scripts = vec![whole.clone()];
    for _ in 0..2 {
        let mut w = whole.clone();
        let at = match rng.below(4) {
            0 => w.len() - 1,
            1 => rng.below(w.len().min(50)),
            _ => rng.below(w.len()),
        };
        match rng.below(4) {
            0 => w.truncate(at),
            1 => w.insert(at, any_char(rng)),
            2 => drop(w.remove(at)),
            _ => w[at] = kin(rng, w[at]),
        }
        scripts.push(w);
    }
    scripts.push(if rng.chance(1, 2) {
        make(n + 1, n)
    } else {
        make(n, n + 1)
    });
    ctx.st.inc("giants_deep");
    ctx.st.max("levels", n as u64);
    ctx.st.inc(&format!("route_{route:?}"));
    Setup {
        g,
        a,
        rules,
        route,
        scripts: scripts.into_iter().map(String::from_iter).collect(),
        big: true,
    }
}

pub fn setup(ctx: &mut Ctx, actions: bool) -> Setup {
    if ctx.idx >= GIANT {
        return giant_setup(ctx, actions, giant_max());
    }
    let rng = &mut ctx.rng;
    let huge = ctx.idx % 2003 == 1001;
    let mut g = if rng.chance(1, 4) {
        ignored_grammar(rng)
    } else {
        ll1_grammar(rng)
    };
    for _ in 0..60 {
        // long scripts need a grammar that can produce them
        if !huge || growing(&g)[g.start] && g.nts.len() < 20 {
            break;
        }
        g = ll1_grammar(rng);
    }
    let route = route(rng);
    if route == Route::Data {
        g = g.woven();
    }
    if route == Route::Data && rng.chance(1, 3) {
        wild_terminals(&mut g, rng);
    }
    if route == Route::Data && rng.chance(1, 2) {
        // any rule may be the start here, if the grammar stays LL(1)
        let old = g.start;
        g.start = rng.below(g.nts.len());
        if !analyse(&g).ll1() {
            g.start = old;
        }
    }
    for nt in &mut g.nts {
        nt.action = None;
        if actions && rng.chance(2, 3) {
            nt.action = Some(action_text(rng));
        }
    }
    let lay = layout(rng);
    let rules = render(&g, lay, rng).text;
    let woven = g
        .nts
        .iter()
        .enumerate()
        .any(|(i, _)| g.ignore_of(i).is_some());
    let g = g.woven();
    let a = analyse(&g);
    assert!(a.ll1(), "generator");
    if woven {
        ctx.st.inc("with_ignores");
    }
    let rng = &mut ctx.rng;
    let big = ctx.idx % 40 == 7 || huge;
    let scripts = if huge {
        ctx.st.inc("huge");
        scripts(rng, &g, 2, 70_000)
    } else if big {
        let b = *rng.pick(&[200, 500, 1000, 4000]);
        scripts(rng, &g, 4, b)
    } else {
        let b = *rng.pick(&[4, 8, 15, 30, 60]);
        let mut v = scripts(rng, &g, 14, b);
        // all short scripts over a small alphabet
        let mut al = alphabet(&g);
        if rng.chance(1, 3) && !al.is_empty() {
            rng.shuffle(&mut al);
            al.truncate(4);
            if al.len() < 4 {
                al.push('~');
            }
            let mut level = vec![String::new()];
            for _ in 0..3 {
                let mut next = vec![];
                for s in &level {
                    for c in &al {
                        next.push(format!("{s}{c}"));
                    }
                }
                v.extend(next.iter().cloned());
                level = next;
            }
        }
        v
    };
    ctx.st.inc(&format!("route_{route:?}"));
    ctx.st.max("rules", g.nts.len() as u64);
    ctx.st.max(
        "alternatives",
        g.nts.iter().map(|n| n.alts.len()).max().unwrap_or(0) as u64,
    );
    Setup {
        g,
        a,
        rules,
        route,
        scripts,
        big,
    }
}

fn swept_setup(ctx: &mut Ctx, actions: bool, mut g: Gram, scripts: Vec<String>) -> Setup {
    let rng = &mut ctx.rng;
    for nt in &mut g.nts {
        if actions && rng.chance(2, 3) {
            nt.action = Some(action_text(rng));
        }
    }
    let a = analyse(&g);
    assert!(a.ll1(), "generator: sweep");
    let quoted = g
        .nts
        .iter()
        .flat_map(|n| n.alts.iter().flatten())
        .any(|s| matches!(s, Sym::T(t) if t.contains(['"', '\\'])));
    let lay = layout(rng);
    let rules = render(&g, lay, rng).text;
    let route = if quoted {
        Route::Data // a backslash and a quote are not written as they are
    } else {
        route(rng)
    };
    Setup {
        g,
        a,
        rules,
        route,
        scripts,
        big: true,
    }
}

/// As `setup`; every fifth case has a block of all the characters there are, and every fourth
/// giant is deep.
pub fn setup_or_sweep(ctx: &mut Ctx, actions: bool) -> Setup {
    if ctx.idx >= GIANT + 8 && ctx.rng.chance(1, 4) {
        return deep_setup(ctx, actions);
    }
    if ctx.idx < GIANT && ctx.idx % 5 == 4 {
        let chars = swept(ctx.idx / 5, 72);
        if !chars.is_empty() {
            let (g, scripts) = sweep_grammar(&mut ctx.rng, &chars);
            ctx.st.add("characters_swept", chars.len() as u64);
            return swept_setup(ctx, actions, g, scripts);
        }
    }
    if ctx.idx % 5 == 3 && ctx.idx / 5 < 8 * 128 {
        let c = char::from((ctx.idx / 5 % 128) as u8);
        let mut seconds: Vec<char> = (0..128_u8).map(char::from).collect();
        if !"\"\\".contains(c) && ctx.rng.chance(1, 2) {
            seconds.retain(|d| !"\"\\".contains(*d));
        }
        let (g, scripts) = pair_grammar(&mut ctx.rng, c, &seconds);
        ctx.st
            .add("pairs_of_characters_swept", seconds.len() as u64);
        return swept_setup(ctx, actions, g, scripts);
    }
    setup(ctx, actions)
}

macro_rules! make_parser {
    ($s:expr, $vm:expr, $rng:expr, $instr:expr) => {{
        match $s.route {
            Route::Text => text_parser(&$s.rules, $vm),
            Route::Staged => staged_parser(&$s.rules, $vm),
            Route::Data => {
                let (d, ix) = build_data(&$s.g, $rng, $instr)?;
                let start = ix[$s.g.start];
                data_parser(d, start, $vm)
            }
        }
    }};
}

/// Every LL(1) grammar makes a parser.
fn admitted<T>(r: Result<T, BuildErr>, s: &Setup) -> Result<T, String> {
    r.map_err(|e| {
        format!(
            "{}no parser could be built of this LL(1) grammar: {e:?}",
            s.describe("")
        )
    })
}

fn c01(ctx: &mut Ctx) -> Check {
    let actions = ctx.rng.chance(1, 2);
    let s = setup_or_sweep(ctx, actions);
    let vm = QuietVm::new(ctx.rng.below(6));
    let p = make_parser!(s, &vm, &mut ctx.rng, instrs_for);
    let mut p = admitted(p, &s)?;
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    let earley = Earley::new(&s.g, &s.a);
    let gh = hash_of(&s.g);
    let mut state = QuietVm::create_new_state();
    for script in &s.scripts {
        let chars: Vec<char> = script.chars().collect();
        let want = rp.walk(&chars).result;
        if chars.len() <= 80 && s.g.size() < 200 {
            let (ok, _) = earley.run(&chars);
            assert_eq!(
                ok,
                want.is_ok(),
                "oracles disagree on {:?}\n{}",
                script,
                s.rules
            );
            ctx.st.inc("scripts_judged_by_two_oracles");
        }
        let out = parse(&mut p, script, &mut state);
        ctx.st
            .inc(if want.is_ok() { "accepted" } else { "rejected" });
        ctx.st.max("script_chars", chars.len() as u64);
        ctx.st.eval(hash_of(&(gh, script)), !chars.is_empty());
        ctx.st
            .sample(|| format!("{}-> in language: {}", s.describe(script), want.is_ok()));
        let got = out.is_ok();
        if got != want.is_ok() || matches!(out, Out::Panic(_)) {
            return Err(format!(
                "{}the script {} in the language, but parse gave {}",
                s.describe(script),
                if want.is_ok() { "is" } else { "is not" },
                out.short()
            ));
        }
    }
    Ok(())
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "One case: a random, shaped or curated LL(1) grammar (model independent of the library) given to the library as rule text, through the staged interface or as ParserData, in half of the cases with actions (which do nothing), and 4 to 100 scripts: sampled sentences, mutated sentences, noise, all strings up to length 3. The parser's verdict on every script is compared with a predictive reference parser and (short scripts) an Earley recogniser. One evaluation is one script; it counts as non-trivial when it is not empty, distinct by (grammar, script). Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "grammars are LL(1) and every rule derives some text",
        "derivations up to 300,000 levels deep, on a 512 MB stack (see C15 for the default stack)",
    ],
    quick: 100_000,
    thorough: 2_000_000,
    run: c01,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 500),
        ("accepted", 2000),
        ("rejected", 2000),
        ("route_Data", 100),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

/// Compares a tree of the library with the reference, node by node, by all ways to look at it.
fn same_tree(
    tree: &Tree<String>,
    id: NodeId,
    want: &RTree,
    seen: &mut BTreeSet<(usize, usize)>,
    deep: bool,
) -> Check {
    ensure!(
        seen.insert((id.node_ptr, id.node_pk)),
        "node {id} appears twice in the tree"
    );
    ensure!(
        tree.node_exists(id),
        "node {id} is a child but does not exist"
    );
    let node = tree.get_node(id).map_err(|e| format!("node {id}: {e}"))?;
    let kids = tree.get_children(id);
    match want {
        RTree::Leaf(t) => {
            ensure!(
                node.data == *t,
                "a leaf holds {:?} where {t:?} was matched",
                node.data
            );
            ensure!(kids.is_empty(), "a leaf for {t:?} has children");
        }
        RTree::Node(_, ks) => {
            ensure!(
                node.data.is_empty(),
                "a node of a rule holds text {:?}",
                node.data
            );
            ensure!(
                kids.len() == ks.len(),
                "a node has {} children where the derivation has {}",
                kids.len(),
                ks.len()
            );
            for (i, (k, w)) in kids.iter().zip(ks).enumerate() {
                if deep || ks.len() > 100 && (i == 0 || i + 1 == ks.len()) {
                    let by_path = tree
                        .get_by_path_or_none(id, vec![i].into_iter())
                        .map_err(|e| format!("child {i} of {id}: {e}"))?;
                    let direct = tree.get_node(*k).map_err(|e| format!("{e}"))?;
                    ensure!(
                        by_path.is_some_and(|n| std::ptr::eq(n, direct)),
                        "child {i} of {id} by path is another node than child {i} in the list"
                    );
                }
                same_tree(tree, *k, w, seen, deep)?;
            }
        }
    }
    Ok(())
}

fn c02(ctx: &mut Ctx) -> Check {
    let actions = ctx.rng.chance(1, 2);
    let s = setup_or_sweep(ctx, actions);
    let vm = QuietVm::new(ctx.rng.below(6));
    let p = make_parser!(s, &vm, &mut ctx.rng, instrs_for);
    let mut p = admitted(p, &s)?;
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    let gh = hash_of(&s.g);
    let mut state = QuietVm::create_new_state();
    for script in &s.scripts {
        let chars: Vec<char> = script.chars().collect();
        let Ok(want) = rp.run(&chars).result else {
            continue;
        };
        let r = lib(|| p.parse(script, &mut state));
        let tree = match r {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => {
                return Err(format!(
                    "{}a sentence gave no tree but {:?}",
                    s.describe(script),
                    err_out(&e)
                ));
            }
            Err(m) => {
                return Err(format!("{}parse panicked: {m}", s.describe(script)));
            }
        };
        let mut text = String::new();
        want.text(&mut text);
        assert_eq!(text, *script);
        let nodes = want.nodes();
        ctx.st.inc("trees");
        if actions {
            ctx.st.inc("trees_of_grammars_with_actions");
        }
        ctx.st.add("nodes", nodes as u64);
        ctx.st.max("tree_nodes", nodes as u64);
        ctx.st.max("tree_depth", want.depth() as u64);
        ctx.st.eval(hash_of(&(gh, script)), nodes > 2);
        ctx.st.sample(|| {
            format!(
                "{}-> tree {}",
                s.describe(script),
                short(&want.shape().show())
            )
        });
        let r = lib(|| {
            let mut seen = BTreeSet::new();
            same_tree(&tree, ROOT, &want, &mut seen, nodes < 3000)?;
            ensure!(
                seen.len() == nodes,
                "the tree has {} nodes, the derivation {nodes}",
                seen.len()
            );
            if nodes < 3000 {
                let d = tree.get_descendants(ROOT).len();
                ensure!(
                    d + 1 == nodes,
                    "the root has {d} descendants, not {}",
                    nodes - 1
                );
            }
            // nothing else in it
            for ptr in [nodes, nodes + 1] {
                let id = NodeId {
                    node_ptr: ptr,
                    node_pk: ptr,
                };
                ensure!(
                    !tree.node_exists(id),
                    "the tree has a further node {id} that the derivation has not"
                );
            }
            Ok(())
        })
        .unwrap_or_else(|m| Err(format!("looking at the tree panicked: {m}")));
        if let Err(m) = r {
            let got = lib(|| shape_of(&tree, ROOT).map(|x| x.show()));
            return Err(format!(
                "{}{m}\nderivation: {}\ntree:       {}",
                s.describe(script),
                short(&want.shape().show()),
                short(&format!("{got:?}"))
            ));
        }
    }
    Ok(())
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "Cases as in C01. Every tree returned for a sentence is walked through the public interface (children, lookup, path, descendants) and compared node by node with the one derivation the reference parser finds; the leaves must spell the script. One evaluation is one tree; non-trivial with more than two nodes, distinct by (grammar, script). Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "the root of a returned tree is its first node, as VM instructions see it",
        "grammars are LL(1), so that the derivation is unique",
    ],
    quick: 100_000,
    thorough: 2_000_000,
    run: c02,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 500),
        ("trees", 2500),
        ("nodes", 20_000),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

fn ids_postorder(
    tree: &Tree<String>,
    id: NodeId,
    want: &RTree,
    out: &mut Vec<(usize, NodeId)>,
) -> Check {
    if let RTree::Node(i, ks) = want {
        let kids = tree.get_children(id);
        ensure!(kids.len() == ks.len(), "tree and derivation differ");
        for (k, w) in kids.iter().zip(ks) {
            ids_postorder(tree, *k, w, out)?;
        }
        out.push((*i, id));
    }
    Ok(())
}

fn c03(ctx: &mut Ctx) -> Check {
    if ctx.idx < GIANT && ctx.idx % 8 == 5 && ctx.idx % 5 != 4 {
        return super::arena::in_parse(ctx);
    }
    let s = setup_or_sweep(ctx, true);
    let mode = ctx.rng.below(6);
    let vm = TraceVm::new(mode);
    let p = make_parser!(s, &vm, &mut ctx.rng, |n, t| instrs_for(n, t));
    let mut p = admitted(p, &s)?;
    let gh = hash_of(&s.g);
    let one_state = ctx.rng.chance(1, 4);
    let mut kept = TraceVm::create_new_state();
    for script in &s.scripts {
        let chars: Vec<char> = script.chars().collect();
        let mut rp = RefParser::new(&s.g, &s.a);
        let shapes = chars.len() < 60;
        rp.keep_subtrees = shapes;
        let want = rp.run(&chars);
        let mut fresh = TraceVm::create_new_state();
        let state = if one_state { &mut kept } else { &mut fresh };
        let base = state.events.len();
        state.shapes = shapes;
        let r = lib(|| p.parse(script, state));
        let r = match r {
            Ok(r) => r,
            Err(m) => return Err(format!("{}parse panicked: {m}", s.describe(script))),
        };
        let complete = want.result.is_ok();
        let got = &state.events[base..];
        // expected
        let mut exp: Vec<(usize, Instr, usize)> = vec![];
        for (k, (i, _)) in want.completed.iter().enumerate() {
            if let Some(t) = &s.g.nts[*i].action {
                for ins in instrs_for(&s.g.nts[*i].name, t.trim_start()) {
                    exp.push((*i, ins, k));
                }
            }
        }
        ctx.st.add("events", got.len() as u64);
        ctx.st.inc(if complete {
            "complete_runs"
        } else {
            "failed_runs"
        });
        if !complete && !got.is_empty() {
            ctx.st.inc("failed_runs_with_events");
        }
        ctx.st.max("events_in_a_run", got.len() as u64);
        ctx.st.eval(hash_of(&(gh, script)), exp.len() > 1);
        ctx.st.sample(|| {
            format!(
                "{}-> events {}",
                s.describe(script),
                got.iter()
                    .map(|e| format!("{}.{}@{}", e.rule, e.no, e.ptr))
                    .collect::<Vec<_>>()
                    .join(" ")
            )
        });
        let bad = |m: String| {
            format!(
                "{}{m}\nexpected: {}\nobserved: {}",
                s.describe(script),
                short(
                    &exp.iter()
                        .map(|(_, e, _)| format!("{}.{}", e.rule, e.no))
                        .collect::<Vec<_>>()
                        .join(" ")
                ),
                short(
                    &got.iter()
                        .map(|e| format!("{}.{}@{}/{}", e.rule, e.no, e.ptr, e.pk))
                        .collect::<Vec<_>>()
                        .join(" ")
                )
            )
        };
        if let Some(m) = state.problems.first() {
            return Err(bad(format!("while an action ran: {m}")));
        }
        if got.len() != exp.len() {
            return Err(bad(format!(
                "{} instructions were executed instead of {}",
                got.len(),
                exp.len()
            )));
        }
        let mut node_of: Vec<Option<(usize, usize)>> = vec![None; want.completed.len()];
        let mut used = BTreeSet::new();
        for (e, (_, ins, k)) in got.iter().zip(&exp) {
            if e.rule != ins.rule || e.no != ins.no || e.text != ins.text {
                return Err(bad(format!(
                    "instruction {}.{} ({:?}) was executed where {}.{} ({:?}) was due",
                    e.rule, e.no, e.text, ins.rule, ins.no, ins.text
                )));
            }
            match node_of[*k] {
                None => {
                    if !used.insert((e.ptr, e.pk)) {
                        return Err(bad(format!(
                            "two nodes' actions ran at node {}/{}",
                            e.ptr, e.pk
                        )));
                    }
                    node_of[*k] = Some((e.ptr, e.pk));
                }
                Some(id) => {
                    if id != (e.ptr, e.pk) {
                        return Err(bad(
                            "the instructions of one node ran at different nodes".into()
                        ));
                    }
                }
            }
            if shapes {
                let w = want.completed[*k].1.shape();
                if e.shape.as_ref() != Some(&w) {
                    return Err(bad(format!(
                        "the action of {} saw the subtree {} instead of the finished {}",
                        e.rule,
                        e.shape.as_ref().map(Shape::show).unwrap_or_default(),
                        w.show()
                    )));
                }
                ctx.st.inc("subtrees_compared");
            }
        }
        if let (Ok(tree), Ok(want_tree)) = (&r, &want.result) {
            let mut ids = vec![];
            // C02 decides the tree itself
            if lib(|| ids_postorder(tree, ROOT, want_tree, &mut ids)) == Ok(Ok(())) {
                for (k, (_, id)) in ids.iter().enumerate() {
                    if let Some(x) = node_of[k]
                        && x != (id.node_ptr, id.node_pk)
                    {
                        return Err(bad(format!(
                            "an action ran at node {}/{} but its rule's node is {id}",
                            x.0, x.1
                        )));
                    }
                }
                ctx.st.add("nodes_identified", ids.len() as u64);
            }
        }
    }
    Ok(())
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "Cases as in C01, with action sections on two thirds of the rules and a VM that records every instruction executed (which, at which node, what subtree it sees), in every eighth case one that also prunes and extends its subtree, or removes its own node. The recorded event log of each parse, successful or not, is compared with the completion order of the reference derivation. One evaluation is one parse; non-trivial with at least two expected events, distinct by (grammar, script). Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "grammars are LL(1)",
        "instructions change only the node they run on and what is below it",
    ],
    quick: 80_000,
    thorough: 1_600_000,
    run: c03,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 500),
        ("events", 20_000),
        ("failed_runs_with_events", 500),
        ("subtrees_compared", 5_000),
        ("nodes_identified", 5_000),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};

fn c04(ctx: &mut Ctx) -> Check {
    let actions = ctx.rng.chance(1, 2);
    let s = setup_or_sweep(ctx, actions);
    let vm = QuietVm::new(ctx.rng.below(6));
    let p = make_parser!(s, &vm, &mut ctx.rng, instrs_for);
    let mut p = admitted(p, &s)?;
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    let earley = Earley::new(&s.g, &s.a);
    let gh = hash_of(&s.g);
    let mut state = QuietVm::create_new_state();
    for script in &s.scripts {
        let chars: Vec<char> = script.chars().collect();
        let Err(f) = rp.run(&chars).result else {
            continue;
        };
        if chars.len() <= 80 && s.g.size() < 200 {
            let (ok, len) = earley.run(&chars);
            assert!(
                !ok && len == f.pos,
                "oracles disagree on {:?}: {len} {f:?}\n{}",
                script,
                s.rules
            );
            ctx.st.inc("positions_judged_by_two_oracles");
        }
        let out = parse(&mut p, script, &mut state);
        if out.is_ok() {
            return Err(format!(
                "{}the script is not in the language, but no error was reported; the reference fails with {f:?}",
                s.describe(script)
            ));
        }
        ctx.st.inc(match (&f.chr, f.in_terminal) {
            (None, true) => "end_inside_terminal",
            (None, false) => "end_at_rule",
            (Some(_), true) => "char_inside_terminal",
            (Some(_), false) if f.expected.is_none() => "char_after_the_sentence",
            (Some(_), false) => "char_at_rule",
        });
        ctx.st.max("error_position", f.pos as u64);
        ctx.st.eval(hash_of(&(gh, script)), f.pos > 0);
        ctx.st
            .sample(|| format!("{}-> {} (reference {f:?})", s.describe(script), out.short()));
        let bad = |m: &str| {
            Err(format!(
                "{}{m}\nreported: {}\nthe longest prefix that some sentence begins with has {} chars, then {:?}",
                s.describe(script),
                out.short(),
                f.pos,
                f.chr
            ))
        };
        match (&out, f.chr) {
            (Out::End { pos }, None) => {
                if *pos != f.pos {
                    return bad("the end of the script is reported at the wrong position");
                }
            }
            (Out::Unexpected { chr, pos, expected }, c) => {
                if *pos != f.pos {
                    return bad("the error is reported at the wrong position");
                }
                match c {
                    Some(c) if *chr != c => return bad("the error names the wrong character"),
                    None if *chr != '#' => {
                        return bad(
                            "the end of the script is reported as a character that is not there",
                        );
                    }
                    _ => {}
                }
                match &f.expected {
                    Some(set) => {
                        if *expected != expected_text(set.iter()) {
                            return bad(&format!(
                                "the error does not name what was expected there: {set:?}"
                            ));
                        }
                    }
                    None => {
                        if expected.is_empty() {
                            return bad("the error says nothing about what was expected");
                        }
                    }
                }
            }
            _ => return bad("this is not a report about a place in the script"),
        }
    }
    Ok(())
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "Cases as in C01; every rejected script's error is compared with the length of the longest prefix that begins some sentence (reference parser, for short scripts also Earley sets), the character standing there (or the end), and the set of characters that could have come. One evaluation is one rejected script; non-trivial when the error is not at position 0, distinct by (grammar, script). Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "positions count characters; every rule derives some text",
        "the end of the script is reported either as an end error or as an unexpected '#', both of which the library uses",
        "the order in which the expected characters are listed is open",
    ],
    quick: 100_000,
    thorough: 2_000_000,
    run: c04,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 500),
        ("end_inside_terminal", 100),
        ("end_at_rule", 100),
        ("char_inside_terminal", 300),
        ("char_at_rule", 1000),
        ("char_after_the_sentence", 300),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};
