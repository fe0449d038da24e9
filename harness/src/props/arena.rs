//! C12 trees, C13 graphs.
use crate::gen_::kin_num;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::{giant_max, setup};
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::simple_graph::Graph;
use henriks_parsing_project::tree::{NodeId, Tree, TreeError};
use henriks_parsing_project::vms::VM;
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug)]
struct MNode {
    parent: Option<usize>,
    kids: Vec<usize>,
    data: String,
    live: bool,
    id: Option<NodeId>,
}

/// What a tree must hold: nodes in order of creation.
#[derive(Default)]
struct MTree {
    nodes: Vec<MNode>,
    live: usize,
    peak: usize,
    removed: u64,
}
impl MTree {
    fn add(&mut self, parent: Option<usize>, data: String) -> usize {
        let n = self.nodes.len();
        self.nodes.push(MNode {
            parent,
            kids: vec![],
            data,
            live: true,
            id: None,
        });
        if let Some(p) = parent {
            self.nodes[p].kids.push(n);
        }
        self.live += 1;
        self.peak = self.peak.max(self.live);
        n
    }
    fn below(&self, n: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = self.nodes[n].kids.clone();
        while let Some(k) = todo.pop() {
            out.push(k);
            todo.extend(&self.nodes[k].kids);
        }
        out
    }
    fn remove(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent {
            self.nodes[p].kids.retain(|k| *k != n);
        }
        let mut v = self.below(n);
        v.push(n);
        self.live -= v.len();
        self.removed += v.len() as u64;
        for k in v {
            self.nodes[k].live = false;
            self.nodes[k].kids.clear();
        }
    }
}

fn err_names(e: &TreeError, id: NodeId) -> Check {
    match e {
        TreeError::NodeDoesNotExist { node_id } | TreeError::NodeWasRemoved { node_id }
            if *node_id == id =>
        {
            Ok(())
        }
        e => Err(format!("the error about {id} is {e:?}")),
    }
}

/// All ways to look at one live node.
fn look(t: &Tree<String>, m: &MTree, n: usize) -> Check {
    let id = m.nodes[n].id.unwrap();
    ensure!(t.node_exists(id), "node {id} is gone");
    let node = t.get_node(id).map_err(|e| format!("node {id}: {e}"))?;
    ensure!(
        node.data == m.nodes[n].data,
        "node {id} holds {:?} instead of {:?}",
        node.data,
        m.nodes[n].data
    );
    let want: Vec<NodeId> = m.nodes[n]
        .kids
        .iter()
        .map(|k| m.nodes[*k].id.unwrap())
        .collect();
    let got = t.get_children(id);
    ensure!(
        got == want,
        "the children of {id} are {got:?} instead of {want:?}"
    );
    for i in [0, want.len() / 2, want.len().saturating_sub(1), want.len()] {
        let w = m.nodes[n].kids.get(i).map(|k| &m.nodes[*k].data);
        let a = t.get_nth_child(node, i);
        let b = t.get_nth_child_or_none(node, i);
        let c = t
            .get_by_path_or_none(id, [i].into_iter())
            .map_err(|e| format!("path [{i}] from {id}: {e}"))?;
        ensure!(
            a.as_ref().ok().map(|x| &x.data) == w
                && b.map(|x| &x.data) == w
                && c.map(|x| &x.data) == w,
            "child {i} of {id}: {:?}, {:?}, by path {:?} instead of {w:?}",
            a.map(|x| &x.data),
            b.map(|x| &x.data),
            c.map(|x| &x.data)
        );
        if let (Ok(a), Some(b), Some(c)) = (t.get_nth_child(node, i), b, c) {
            let d = t.get_node(want[i]).map_err(|e| e.to_string())?;
            ensure!(
                std::ptr::eq(a, b) && std::ptr::eq(b, c) && std::ptr::eq(c, d),
                "child {i} of {id} is not the same node by all ways"
            );
        }
        if w.is_none()
            && !matches!(t.get_nth_child(node, i), Err(TreeError::ChildDoesNotExists { child_nth }) if child_nth == i)
        {
            return Err(format!("no error about child {i} of {id}"));
        }
    }
    Ok(())
}

/// A removed or made-up handle.
fn look_dead(t: &mut Tree<String>, id: NodeId) -> Check {
    ensure!(!t.node_exists(id), "node {id} exists");
    match t.get_node(id) {
        Ok(n) => return Err(format!("node {id} is found, with {:?}", n.data)),
        Err(e) => err_names(&e, id)?,
    }
    match t.get_node_mut(id) {
        Ok(n) => return Err(format!("node {id} is found to change, with {:?}", n.data)),
        Err(e) => err_names(&e, id)?,
    }
    ensure!(
        t.get_children(id).is_empty() && t.get_descendants(id).is_empty(),
        "node {id}, which does not exist, has children"
    );
    match t.get_by_path_or_none(id, std::iter::empty()) {
        Ok(_) => {
            return Err(format!(
                "a path from {id}, which does not exist, leads somewhere"
            ));
        }
        Err(e) => err_names(&e, id)?,
    }
    Ok(())
}

fn arena(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let mut t: Tree<String> = Tree::new();
    let mut m = MTree::default();
    let mut issued: HashSet<NodeId> = HashSet::new();
    let mut log: Vec<String> = vec![];
    let n = match rng.below(40) {
        0 => rng.range(500, 2500),
        1..=5 => rng.range(60, 300),
        _ => rng.range(1, 60),
    };
    // how much is removed, and how deep the tree gets
    let removal = *rng.pick(&[1, 10, 25, 40, 48]);
    let focus = rng.below(4);
    let mut live: Vec<usize> = vec![];
    let mut paths_out = 0;
    for step in 0..n {
        let op = rng.below(100);
        if op < removal && !live.is_empty() {
            let k = match focus {
                0 => *live.last().unwrap(),
                1 => live[rng.below(live.len().min(4))],
                _ => *rng.pick(&live),
            };
            let id = m.nodes[k].id.unwrap();
            log.push(format!("remove {id}"));
            let r = lib(|| t.remove_branch(id)).map_err(|e| format!("{log:?}\npanicked: {e}"))?;
            if let Err(e) = r {
                return Err(format!("{log:?}\nremoving a node failed: {e}"));
            }
            m.remove(k);
            live.retain(|x| m.nodes[*x].live);
        } else if op < 90 {
            let parent = match rng.below(10) {
                0 => None,
                _ if live.is_empty() => None,
                1..=3 => live.last().copied(),
                4 | 5 => live.first().copied(),
                _ => Some(*rng.pick(&live)),
            };
            let data = format!("d{step}");
            let pid = parent.map(|p| m.nodes[p].id.unwrap());
            log.push(format!("add {data} to {pid:?}"));
            let r = lib(|| t.add_node(data.clone(), pid))
                .map_err(|e| format!("{log:?}\npanicked: {e}"))?;
            let id = match r {
                Ok(id) => id,
                Err(e) => return Err(format!("{log:?}\nadding a node failed: {e}")),
            };
            ensure!(
                issued.insert(id),
                "{log:?}\nthe new node got the handle {id}, which was given out before"
            );
            let k = m.add(parent, data);
            m.nodes[k].id = Some(id);
            live.push(k);
            ensure!(
                id.node_ptr < m.peak,
                "{log:?}\nthe new node takes place {}, though there never were more than {} nodes: the room of removed nodes is not used again",
                id.node_ptr,
                m.peak
            );
        } else if op < 94 && !live.is_empty() {
            let k = *rng.pick(&live);
            let id = m.nodes[k].id.unwrap();
            let data = format!("e{step}");
            log.push(format!("set {id} {data}"));
            match lib(|| t.get_node_mut(id).map(|n| n.data = data.clone())) {
                Ok(Ok(())) => m.nodes[k].data = data,
                r => return Err(format!("{log:?}\nchanging a node failed: {r:?}")),
            }
        } else {
            // a handle that is not one (any more)
            let id = if rng.chance(2, 3) && !m.nodes.is_empty() {
                let k = rng.below(m.nodes.len());
                if m.nodes[k].live {
                    continue;
                }
                m.nodes[k].id.unwrap()
            } else {
                let id = if !m.nodes.is_empty() && rng.chance(1, 3) {
                    let k = rng.below(m.nodes.len());
                    let id = m.nodes[k].id.unwrap();
                    match rng.below(3) {
                        0 => NodeId {
                            node_ptr: kin_num(rng, id.node_ptr),
                            ..id
                        },
                        1 => NodeId {
                            node_pk: kin_num(rng, id.node_pk),
                            ..id
                        },
                        _ => NodeId {
                            node_ptr: id.node_pk,
                            node_pk: id.node_ptr,
                        },
                    }
                } else {
                    NodeId {
                        node_ptr: rng.below(m.peak + 3),
                        node_pk: rng.below(m.nodes.len() + 3),
                    }
                };
                if issued.contains(&id) {
                    continue;
                }
                id
            };
            log.push(format!("use dead {id}"));
            let r = lib(|| {
                match t.add_node("x".into(), Some(id)) {
                    Ok(_) => return Err(format!("a node was added to {id}, which does not exist")),
                    Err(e) => err_names(&e, id)?,
                }
                match t.remove_branch(id) {
                    Ok(()) => return Err(format!("{id}, which does not exist, was removed")),
                    Err(e) => err_names(&e, id)?,
                }
                look_dead(&mut t, id)
            })
            .unwrap_or_else(|e| Err(format!("panicked: {e}")));
            if let Err(e) = r {
                return Err(format!("{log:?}\n{e}"));
            }
            ctx.st.inc("dead_handles_used");
        }
        let full = n <= 60 || step + 1 == n || step % 101 == 100;
        let r = lib(|| {
            if full {
                for k in &live {
                    look(&t, &m, *k)?;
                    let mut got: Vec<NodeId> = t.get_descendants(m.nodes[*k].id.unwrap());
                    let mut want: Vec<NodeId> = m
                        .below(*k)
                        .iter()
                        .map(|x| m.nodes[*x].id.unwrap())
                        .collect();
                    let key = |x: &NodeId| (x.node_ptr, x.node_pk);
                    got.sort_by_key(key);
                    want.sort_by_key(key);
                    ensure!(
                        got == want,
                        "the descendants of {} are {got:?} instead of {want:?}",
                        m.nodes[*k].id.unwrap()
                    );
                }
                for x in m.nodes.iter().filter(|x| !x.live) {
                    look_dead(&mut t, x.id.unwrap())?;
                }
                // a path down
                if let Some(&k) = live.first() {
                    let mut path = vec![];
                    let mut at = k;
                    while !m.nodes[at].kids.is_empty() && path.len() < 50 {
                        let i = (step + path.len()) % m.nodes[at].kids.len();
                        path.push(i);
                        at = m.nodes[at].kids[i];
                    }
                    let from = m.nodes[k].id.unwrap();
                    let got = t
                        .get_by_path_or_none(from, path.iter().copied())
                        .map_err(|e| e.to_string())?
                        .map(|x| x.data.clone());
                    ensure!(
                        got.as_ref() == Some(&m.nodes[at].data),
                        "the path {path:?} from {from} leads to {got:?} instead of {:?}",
                        m.nodes[at].data
                    );
                    // and paths that lead out of the tree, here or there
                    for _ in 0..3 {
                        let mut path = vec![];
                        let from = live[rng.below(live.len())];
                        let mut at = Some(from);
                        let mut beyond = 0;
                        while beyond < 3 && path.len() < 50 && !rng.chance(1, 12) {
                            let n = at.map_or(0, |x| m.nodes[x].kids.len());
                            let i = match rng.below(8) {
                                0 => n,
                                1 => n + rng.below(3),
                                2 => 0,
                                3 if rng.chance(1, 4) => usize::MAX - rng.below(3),
                                4 if rng.chance(1, 2) => {
                                    let i = rng.below(n + 1);
                                    kin_num(rng, i)
                                }
                                _ if n > 0 => rng.below(n),
                                _ => rng.below(4),
                            };
                            path.push(i);
                            at = at.and_then(|x| m.nodes[x].kids.get(i).copied());
                            beyond += usize::from(at.is_none());
                        }
                        let from = m.nodes[from].id.unwrap();
                        let got = t
                            .get_by_path_or_none(from, path.iter().copied())
                            .map_err(|e| e.to_string())?;
                        let want = at.map(|x| &m.nodes[x].data);
                        ensure!(
                            got.map(|x| &x.data) == want,
                            "the path {path:?} from {from} leads to {:?} instead of {want:?}",
                            got.map(|x| &x.data)
                        );
                        if at.is_none() {
                            paths_out += 1;
                        }
                    }
                }
            } else if !live.is_empty() {
                look(&t, &m, live[step % live.len()])?;
                look(&t, &m, *live.last().unwrap())?;
            }
            Ok(())
        })
        .unwrap_or_else(|e| Err(format!("panicked: {e}")));
        if let Err(e) = r {
            return Err(format!("{}\n{e}", short(&log.join("; "))));
        }
    }
    ctx.st.add("paths_out_of_the_tree", paths_out);
    ctx.st.add("nodes_added", m.nodes.len() as u64);
    ctx.st.add("nodes_removed", m.removed);
    ctx.st.max("nodes_at_once", m.peak as u64);
    let reused = m.nodes.len().saturating_sub(m.peak);
    ctx.st.add("places_used_again", reused as u64);
    ctx.st
        .eval(hash_of(&log), m.nodes.len() > 2 && m.removed > 0);
    ctx.st.sample(|| short(&log.join("; ")));
    Ok(())
}

/// A tree that instructions change while it is built.
trait Edit {
    type Id: Copy;
    fn alive(&self, id: Self::Id) -> bool;
    fn kids(&self, id: Self::Id) -> Vec<Self::Id>;
    fn data(&self, id: Self::Id) -> String;
    fn set(&mut self, id: Self::Id, s: String);
    fn add(&mut self, id: Self::Id, s: String) -> Self::Id;
    fn del(&mut self, id: Self::Id);
    fn shape(&self, id: Self::Id) -> String {
        if !self.alive(id) {
            return "gone".into();
        }
        let k: Vec<String> = self.kids(id).into_iter().map(|k| self.shape(k)).collect();
        format!("{:?}({})", self.data(id), k.join(" "))
    }
    fn leaves(&self, id: Self::Id, out: &mut String) {
        let k = self.kids(id);
        if k.is_empty() {
            out.push_str(&self.data(id));
        }
        for x in k {
            self.leaves(x, out);
        }
    }
}

struct Real<'t> {
    t: &'t mut Tree<String>,
    problems: &'t mut Vec<String>,
    issued: &'t mut HashSet<NodeId>,
    dead: &'t mut HashSet<NodeId>,
}
impl Edit for Real<'_> {
    type Id = NodeId;
    fn alive(&self, id: NodeId) -> bool {
        self.t.node_exists(id)
    }
    fn kids(&self, id: NodeId) -> Vec<NodeId> {
        self.t.get_children(id)
    }
    fn data(&self, id: NodeId) -> String {
        match self.t.get_node(id) {
            Ok(n) => n.data.clone(),
            Err(e) => format!("error {e}"),
        }
    }
    fn set(&mut self, id: NodeId, s: String) {
        match self.t.get_node_mut(id) {
            Ok(n) => n.data = s,
            Err(e) => self
                .problems
                .push(format!("node {id} cannot be changed: {e}")),
        }
    }
    fn add(&mut self, id: NodeId, s: String) -> NodeId {
        match self.t.add_node(s, Some(id)) {
            Ok(n) => {
                if !self.issued.insert(n) {
                    self.problems
                        .push(format!("the handle {n} was given out twice"));
                }
                n
            }
            Err(e) => {
                self.problems
                    .push(format!("no node can be added to {id}: {e}"));
                id
            }
        }
    }
    fn del(&mut self, id: NodeId) {
        let mut v = self.t.get_descendants(id);
        v.push(id);
        if let Err(e) = self.t.remove_branch(id) {
            self.problems
                .push(format!("node {id} cannot be removed: {e}"));
        }
        for x in v {
            if self.t.node_exists(x) {
                self.problems
                    .push(format!("node {x} is still there after its removal"));
            }
            self.dead.insert(x);
        }
    }
}

impl Edit for MTree {
    type Id = usize;
    fn alive(&self, id: usize) -> bool {
        self.nodes[id].live
    }
    fn kids(&self, id: usize) -> Vec<usize> {
        self.nodes[id].kids.clone()
    }
    fn data(&self, id: usize) -> String {
        self.nodes[id].data.clone()
    }
    fn set(&mut self, id: usize, s: String) {
        self.nodes[id].data = s;
    }
    fn add(&mut self, id: usize, s: String) -> usize {
        MTree::add(self, Some(id), s)
    }
    fn del(&mut self, id: usize) {
        self.remove(id);
    }
}

/// One change, the same for both kinds of trees.
fn change<E: Edit>(e: &mut E, id: E::Id, no: usize, seed: u64, own: bool, log: &mut Vec<String>) {
    if !e.alive(id) {
        log.push(format!("{no}: gone"));
        return;
    }
    log.push(format!("{no}: {}", e.shape(id)));
    let h = hash_of(&(seed, no));
    let pick = (h >> 20) as usize;
    let kids = e.kids(id);
    match h % 12 {
        0 => {}
        1 => e.set(id, format!("#{no}")),
        2 => kids.into_iter().for_each(|k| e.del(k)),
        3 | 4 => {
            if !kids.is_empty() {
                e.del(kids[pick % kids.len()]);
            }
        }
        5 => {
            for i in 0..=pick % 3 {
                e.add(id, format!("+{no}.{i}"));
            }
        }
        6 => {
            let mut s = String::new();
            e.leaves(id, &mut s);
            e.set(id, format!("={s}"));
            kids.into_iter().for_each(|k| e.del(k));
        }
        7 => {
            if own {
                e.del(id);
            }
        }
        8 => {
            // somewhere below
            let mut at = id;
            for i in 0..6 {
                let k = e.kids(at);
                if k.is_empty() || i > 0 && (pick >> i) % 3 == 0 {
                    break;
                }
                at = k[(pick >> (2 * i)) % k.len()];
                if (pick >> i) % 5 == 0 || i == 5 {
                    e.del(at);
                    break;
                }
            }
        }
        9 => {
            let mut at = id;
            for i in 0..=pick % 4 {
                at = e.add(at, format!(">{no}.{i}"));
            }
        }
        10 => {
            // reorder: the first goes to the end, as text
            if let Some(&k) = kids.first() {
                let mut s = String::new();
                e.leaves(k, &mut s);
                e.del(k);
                e.add(id, format!("~{s}"));
            }
        }
        _ => {
            for k in kids.into_iter().rev().step_by(2) {
                e.del(k);
            }
        }
    }
}

struct EditVm {
    seed: u64,
    own: bool,
}
#[derive(Default)]
struct EditState {
    no: usize,
    log: Vec<String>,
    problems: Vec<String>,
    issued: HashSet<NodeId>,
    dead: HashSet<NodeId>,
}
impl VM for EditVm {
    type Tstate = EditState;
    type Tinstrution = Instr;
    fn parse_instructions<'a, T>(
        &'a self,
        prod_name: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<Instr>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let text: String = to_parse.collect();
        Ok(instrs_for(prod_name, &text))
    }
    fn execute_instruction(
        &self,
        tree: &mut Tree<String>,
        cur: NodeId,
        _: &Instr,
        s: &mut EditState,
    ) {
        let no = s.no;
        s.no += 1;
        if s.dead.contains(&cur) && tree.node_exists(cur) {
            s.problems.push(format!("the removed node {cur} is back"));
        }
        let mut r = Real {
            t: tree,
            problems: &mut s.problems,
            issued: &mut s.issued,
            dead: &mut s.dead,
        };
        change(&mut r, cur, no, self.seed, self.own, &mut s.log);
    }
    fn create_new_state() -> EditState {
        EditState::default()
    }
}

/// The tree a parse must leave behind, given the derivation.
fn replay_edits(
    g: &Gram,
    d: &RTree,
    parent: Option<usize>,
    m: &mut MTree,
    no: &mut usize,
    vm: &EditVm,
    log: &mut Vec<String>,
) -> usize {
    match d {
        RTree::Leaf(t) => m.add(parent, t.clone()),
        RTree::Node(i, kids) => {
            let id = m.add(parent, String::new());
            for k in kids {
                replay_edits(g, k, Some(id), m, no, vm, log);
            }
            if let Some(a) = &g.nts[*i].action {
                for _ in instrs_for(&g.nts[*i].name, a.trim_start()) {
                    change(m, id, *no, vm.seed, vm.own, log);
                    *no += 1;
                }
            }
            id
        }
    }
}

pub fn in_parse(ctx: &mut Ctx) -> Check {
    let s = setup(ctx, true);
    let vm = EditVm {
        seed: ctx.rng.next(),
        own: ctx.rng.chance(1, 2),
    };
    let rules = if s.route == Route::Data {
        None
    } else {
        Some(&s.rules)
    };
    let p = match rules {
        Some(r) => text_parser(r, &vm),
        None => {
            let (d, ix) = build_data(&s.g, &mut ctx.rng, |n, t| instrs_for(n, t))?;
            data_parser(d, ix[s.g.start], &vm)
        }
    };
    let mut p = p.map_err(|e| format!("{}no parser: {e:?}", s.describe("")))?;
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    for script in s.scripts.iter().filter(|s| s.len() < 3000) {
        let chars: Vec<char> = script.chars().collect();
        rp.keep_subtrees = false;
        let d = rp.run(&chars).result;
        let mut m = MTree::default();
        let mut log = vec![];
        let want = match d {
            Ok(d) => {
                if d.nodes() > 4000 {
                    continue;
                }
                let root = replay_edits(&s.g, &d, None, &mut m, &mut 0, &vm, &mut log);
                Some(m.shape(root))
            }
            // the actions of what was completed, as seen from inside
            Err(_) => {
                if chars.len() > 300 {
                    continue;
                }
                rp.keep_subtrees = true;
                let done = rp.run(&chars).completed;
                let mut whole = vec![];
                let mut k = done.len();
                while k > 0 {
                    let t = &done[k - 1].1;
                    whole.push(t);
                    k -= t.rules();
                }
                let mut no = 0;
                for t in whole.into_iter().rev() {
                    replay_edits(&s.g, t, None, &mut m, &mut no, &vm, &mut log);
                }
                ctx.st.inc("failing_parses_with_edits");
                None
            }
        };
        let mut st = EditState::default();
        let r = lib(|| {
            let mut tree = match p.parse(script, &mut st) {
                Ok(t) => t,
                Err(e) if want.is_some() => return Err(format!("parse gave {e:?}")),
                Err(_) => return Ok(None),
            };
            ensure!(
                want.is_some(),
                "a script that is not in the language was accepted"
            );
            let mut problems = vec![];
            let r = Real {
                t: &mut tree,
                problems: &mut problems,
                issued: &mut HashSet::new(),
                dead: &mut HashSet::new(),
            };
            let got = r.shape(ROOT);
            for x in &st.dead {
                ensure!(
                    !tree.node_exists(*x),
                    "the removed node {x} is in the result"
                );
            }
            Ok(Some(got))
        })
        .unwrap_or_else(|e| Err(format!("panicked: {e}")));
        let context = || {
            format!(
                "{}edits {} of a VM that changes the tree while parsing\n",
                s.describe(script),
                vm.seed
            )
        };
        if let Some(x) = st.problems.first() {
            return Err(format!("{}{x}", context()));
        }
        if st.log != log {
            let i = st.log.iter().zip(&log).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "{}instruction {i} saw {:?} instead of {:?} ({} instead of {} instructions; {r:?})",
                context(),
                st.log.get(i).map(|x| short(x)),
                log.get(i).map(|x| short(x)),
                st.log.len(),
                log.len()
            ));
        }
        match r {
            Err(e) => return Err(format!("{}{e}", context())),
            Ok(got) => ensure!(
                got == want,
                "{}the tree is {} instead of {}",
                context(),
                short(&format!("{got:?}")),
                short(&format!("{want:?}"))
            ),
        }
        ctx.st.inc("parses_with_edits");
        ctx.st.add("edits", log.len() as u64);
        ctx.st.add("nodes_removed_in_parses", m.removed);
        ctx.st
            .eval(hash_of(&(vm.seed, script, &s.rules)), m.removed > 0);
        ctx.st
            .sample(|| format!("{}-> {}", context(), short(&format!("{want:?}"))));
    }
    Ok(())
}

/// Runs on a thread with the ordinary stack of one.
fn on_small_stack(f: impl FnOnce() -> Check + Send) -> Check {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                lib(f).unwrap_or_else(|e| Err(format!("panicked: {e}")))
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err("panicked".into()))
    })
}

/// Large trees: very wide, very deep, grown at random, or with very many changes.
fn arena_giant(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let n = match rng.below(4) {
        0 => rng.range(1000, giant_max() / 10),
        _ => rng.range(giant_max() / 5, giant_max() / 2),
    };
    let kind = ["wide", "deep", "random", "cycles"][rng.below(4)];
    let mut t: Tree<String> = Tree::new();
    let mut m = MTree::default();
    let what = format!("a {kind} tree of {n} nodes");
    let mut issued: HashSet<NodeId> = HashSet::new();
    let mut add =
        |t: &mut Tree<String>, m: &mut MTree, p: Option<usize>| -> Result<usize, String> {
            let data = format!("d{}", m.nodes.len());
            let id = t
                .add_node(data.clone(), p.map(|p| m.nodes[p].id.unwrap()))
                .map_err(|e| format!("adding a node failed: {e}"))?;
            let k = m.add(p, data);
            m.nodes[k].id = Some(id);
            ensure!(issued.insert(id), "the handle {id} was given out twice");
            ensure!(
                id.node_ptr < m.peak,
                "a new node takes place {}, though there never were more than {} nodes",
                id.node_ptr,
                m.peak
            );
            Ok(k)
        };
    let r = on_small_stack(|| {
        add(&mut t, &mut m, None)?;
        if kind == "cycles" {
            // few nodes, very many additions and removals
            let mut last = vec![0];
            for i in 0..n {
                if last.len() > 12 {
                    let at = rng.range(1, last.len() - 1);
                    let k = last[at];
                    let id = m.nodes[k].id.unwrap();
                    t.remove_branch(id)
                        .map_err(|e| format!("removing {id}: {e}"))?;
                    ensure!(!t.node_exists(id), "{id} was removed and is still there");
                    // the same as MTree::remove, without looking at all nodes
                    m.remove(k);
                    last.retain(|x| m.nodes[*x].live);
                }
                let p = last[rng.below(last.len())];
                let k = add(&mut t, &mut m, Some(p))?;
                last.push(k);
                if i % 997 == 0 {
                    for k in &last {
                        look(&t, &m, *k)?;
                    }
                }
            }
            // handles of long ago
            for _ in 0..50 {
                let k = rng.below(m.nodes.len());
                if !m.nodes[k].live {
                    look_dead(&mut t, m.nodes[k].id.unwrap())?;
                }
            }
        } else {
            for i in 1..n {
                let p = match kind {
                    "wide" => 0,
                    "deep" => i - 1,
                    _ => rng.below(i),
                };
                add(&mut t, &mut m, Some(p))?;
            }
        }
        let check = |t: &Tree<String>, m: &MTree, rng: &mut Rng| -> Check {
            let key = |x: &NodeId| (x.node_ptr, x.node_pk);
            for round in 0..30 {
                let k = match round {
                    0 => 0,
                    1 => m.nodes.len() - 1,
                    _ => rng.below(m.nodes.len()),
                };
                let id = m.nodes[k].id.unwrap();
                if !m.nodes[k].live {
                    ensure!(!t.node_exists(id), "{id} was removed and is still there");
                    continue;
                }
                look(t, m, k)?;
                if round < 3 {
                    let mut got = t.get_descendants(id);
                    let mut want: Vec<NodeId> =
                        m.below(k).iter().map(|x| m.nodes[*x].id.unwrap()).collect();
                    got.sort_by_key(key);
                    want.sort_by_key(key);
                    ensure!(
                        got == want,
                        "{id} has {} descendants instead of {}, or others",
                        got.len(),
                        want.len()
                    );
                }
            }
            // all the way down
            let mut path = vec![];
            let mut at = 0;
            while !m.nodes[at].kids.is_empty() {
                let i = if rng.chance(1, 2) {
                    m.nodes[at].kids.len() - 1
                } else {
                    rng.below(m.nodes[at].kids.len())
                };
                path.push(i);
                at = m.nodes[at].kids[i];
            }
            let got = t
                .get_by_path_or_none(m.nodes[0].id.unwrap(), path.iter().copied())
                .map_err(|e| format!("a path of {} steps: {e}", path.len()))?;
            ensure!(
                got.map(|x| &x.data) == Some(&m.nodes[at].data),
                "a path of {} steps leads to {got:?} instead of {:?}",
                path.len(),
                m.nodes[at].data
            );
            Ok(())
        };
        check(&t, &m, rng)?;
        // take some away, put some in again
        if kind != "cycles" {
            for round in 0..3 {
                let k = match kind {
                    "deep" => m.nodes.len() - 1 - rng.below(200.min(m.nodes.len() - 1)),
                    _ => rng.range(1, m.nodes.len() - 1),
                };
                if !m.nodes[k].live || m.below(k).len() > 500 {
                    continue;
                }
                let id = m.nodes[k].id.unwrap();
                t.remove_branch(id)
                    .map_err(|e| format!("removing {id}: {e}"))?;
                m.remove(k);
                ensure!(!t.node_exists(id), "{id} was removed and is still there");
                if round == 1 {
                    for _ in 0..20 {
                        add(&mut t, &mut m, Some(0))?;
                    }
                }
            }
            check(&t, &m, rng)?;
        }
        // all of it
        let root = m.nodes[0].id.unwrap();
        t.remove_branch(root)
            .map_err(|e| format!("removing the root: {e}"))?;
        for k in [0, 1, m.nodes.len() / 2, m.nodes.len() - 1] {
            let id = m.nodes[k.min(m.nodes.len() - 1)].id.unwrap();
            ensure!(!t.node_exists(id), "{id} outlived the root");
        }
        Ok(())
    });
    r.map_err(|e| format!("{what}: {e}"))?;
    ctx.st.inc(&format!("giant_trees_{kind}"));
    ctx.st.max("giant_tree_nodes", m.nodes.len() as u64);
    ctx.st.eval(hash_of(&what), true);
    Ok(())
}

fn c12(ctx: &mut Ctx) -> Check {
    if ctx.idx >= GIANT {
        return arena_giant(ctx);
    }
    if ctx.idx % 4 == 3 {
        in_parse(ctx)
    } else {
        arena(ctx)
    }
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "One case is either a random history of additions, removals, changes and lookups (with live, removed and made-up handles) on one tree, or the parses of one grammar with a VM whose instructions prune, replace and extend the tree while it is built. After every step the nodes are looked at by every public way and compared with a model tree. Non-trivial when something was removed, distinct by history.",
    assumptions: &[
        "which of the two errors a missing node gives is open",
        "instructions change only the node they run on and what is below it",
    ],
    quick: 120_000,
    thorough: 4_000_000,
    run: c12,
    stack_mb: 512,
    floor: &[
        ("nodes_removed", 4000),
        ("places_used_again", 3000),
        ("dead_handles_used", 800),
        ("parses_with_edits", 500),
        ("nodes_removed_in_parses", 1000),
    ],
    extra: None,
    giants: 60,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C13

#[derive(Clone, Default)]
struct MGraph {
    data: Vec<u64>,
    /// per node: edge number to target
    out: Vec<BTreeMap<usize, usize>>,
}

fn same_graph(g: &Graph<u64>, m: &MGraph, rng: &mut Rng) -> Check {
    ensure!(
        g.nodes.len() == m.data.len(),
        "{} nodes instead of {}",
        g.nodes.len(),
        m.data.len()
    );
    for n in 0..m.data.len() {
        ensure!(
            g.nodes[n].data == m.data[n],
            "node {n} holds {} instead of {}",
            g.nodes[n].data,
            m.data[n]
        );
        let want: Vec<usize> = m.out[n].values().rev().copied().collect();
        let got: Vec<usize> = g.successors(n).take(want.len() + 2).collect();
        ensure!(
            got == want,
            "the successors of {n} are {got:?} instead of {want:?}"
        );
        let ids: Vec<usize> = g
            .connected_edges(n)
            .take(want.len() + 2)
            .map(|e| g.edges[e].id)
            .collect();
        let wids: Vec<usize> = m.out[n].keys().rev().copied().collect();
        ensure!(
            ids == wids,
            "the edges of {n} have the numbers {ids:?} instead of {wids:?}"
        );
        for (id, to) in &m.out[n] {
            let kin = kin_num(rng, *id);
            for q in [*id, id.wrapping_add(1), id.wrapping_sub(1), kin] {
                let w = m.out[n].get(&q).copied();
                let got = g.find_node_index(n, q);
                ensure!(
                    got == w,
                    "edge {q} of {n} leads to {got:?} instead of {w:?}"
                );
                let d = g.find_node(n, q).map(|x| x.data);
                ensure!(
                    d == w.map(|x| m.data[x]),
                    "edge {q} of {n} leads to data {d:?}"
                );
            }
            let _ = to;
        }
        ensure!(
            m.out[n].contains_key(&7) || g.find_node_index(n, 7).is_none(),
            "edge 7 of {n} is found and was never added"
        );
    }
    let edges: usize = m.out.iter().map(BTreeMap::len).sum();
    ensure!(
        g.edges.len() == edges,
        "{} edges instead of {edges}",
        g.edges.len()
    );
    // paths
    if !m.data.is_empty() {
        for _ in 0..3 {
            let from = rng.below(m.data.len());
            let mut at = Some(from);
            let mut path = vec![];
            for _ in 0..rng.below(6) {
                let id =
                    match at.and_then(|a| m.out[a].keys().nth(rng.below(m.out[a].len().max(1)))) {
                        Some(id) if rng.chance(9, 10) => *id,
                        Some(id) if rng.chance(1, 2) => {
                            let id = *id;
                            kin_num(rng, id)
                        }
                        _ => rng.below(4),
                    };
                path.push(id);
                at = at.and_then(|a| m.out[a].get(&id).copied());
            }
            let got = g.find_node_index_by_path(from, path.iter().copied());
            ensure!(
                got == at,
                "the path {path:?} from {from} leads to {got:?} instead of {at:?}"
            );
            let d = g
                .find_node_by_path(from, path.iter().copied())
                .map(|x| x.data);
            ensure!(
                d == at.map(|x| m.data[x]),
                "the path {path:?} from {from} leads to data {d:?}"
            );
        }
    }
    Ok(())
}

/// The number of the edge that was just added at `a` without one.
fn automatic(g: &Graph<u64>, m: &MGraph, a: usize, st: &mut Stats) -> Result<usize, String> {
    match m.out[a].keys().next_back() {
        None => Ok(0),
        Some(&usize::MAX) => {
            // none is left above, so any that is free will do
            st.inc("automatic_beyond_the_greatest");
            g.connected_edges(a)
                .take(m.out[a].len() + 1)
                .map(|e| g.edges[e].id)
                .find(|id| !m.out[a].contains_key(id))
                .ok_or(format!("a new edge of {a} got no number of its own"))
        }
        Some(x) => Ok(x + 1),
    }
}

fn random_graph(
    rng: &mut Rng,
    steps: usize,
    log: &mut Vec<String>,
    whole: usize,
    st: &mut Stats,
) -> Result<(Graph<u64>, MGraph), String> {
    let mut g: Graph<u64> = if rng.chance(1, 2) {
        Graph::new()
    } else {
        Graph::default()
    };
    let mut m = MGraph::default();
    let hub = rng.chance(1, 2);
    for step in 0..steps {
        let n = m.data.len();
        let node = |rng: &mut Rng| {
            if hub && rng.chance(1, 2) {
                0
            } else {
                rng.below(n)
            }
        };
        match rng.below(12) {
            0..=2 => {
                let d = rng.next() % 1000;
                log.push(format!("node {d}"));
                let i = g.add_node(d);
                ensure!(i == n, "the new node has index {i} instead of {n}");
                m.data.push(d);
                m.out.push(BTreeMap::new());
            }
            3..=5 if n > 0 => {
                let (a, b) = (node(rng), rng.below(n));
                log.push(format!("edge {a} {b}"));
                g.add_edge(a, b);
                let id = automatic(&g, &m, a, st)?;
                m.out[a].insert(id, b);
            }
            6..=10 if n > 0 => {
                let (a, b) = (node(rng), rng.below(n));
                let id = match rng.below(12) {
                    0 => usize::MAX - rng.below(2),
                    1 | 2 => rng.below(1000),
                    3 if !m.out[a].is_empty() => {
                        let k = rng.below(m.out[a].len());
                        let old = *m.out[a].keys().nth(k).unwrap();
                        kin_num(rng, old)
                    }
                    _ => rng.below(12),
                };
                log.push(format!("edge {a} {b} number {id}"));
                let got = g.try_add_edge_with_id(a, b, id);
                let want = !m.out[a].contains_key(&id);
                ensure!(
                    got == want,
                    "adding edge number {id} at {a} gave {got} instead of {want}"
                );
                if want {
                    m.out[a].insert(id, b);
                } else {
                    st.inc("numbers_taken");
                }
            }
            11 if n > 0 && whole > 0 && rng.chance(1, 3) => {
                let k = rng.range(1, 10);
                let mut l2 = vec![];
                let (g2, m2) = random_graph(rng, k, &mut l2, whole - 1, st)?;
                if m2.data.is_empty() {
                    continue;
                }
                let (a, b) = (node(rng), rng.below(m2.data.len()));
                log.push(format!("join [{}] from {a} to its {b}", l2.join("; ")));
                g.add_graph_at_node(g2, a, b);
                let off = m.data.len();
                m.data.extend(&m2.data);
                for o in m2.out {
                    m.out
                        .push(o.into_iter().map(|(k, v)| (k, v + off)).collect());
                }
                let id = automatic(&g, &m, a, st)?;
                m.out[a].insert(id, off + b);
                st.inc("graphs_joined");
            }
            _ => continue,
        }
        if steps <= 40 || step % 37 == 0 || step + 1 == steps {
            same_graph(&g, &m, rng)?;
        }
    }
    Ok((g, m))
}

fn named(ctx: &mut Ctx, log: &mut Vec<String>) -> Check {
    let rng = &mut ctx.rng;
    let mut g: GraphNamedNodes<u64> = if rng.chance(1, 2) {
        GraphNamedNodes::new()
    } else {
        GraphNamedNodes::default()
    };
    // names in order of addition
    let mut order: Vec<usize> = vec![];
    let mut index: HashMap<usize, usize> = HashMap::new();
    let mut data: Vec<u64> = vec![];
    let mut out: Vec<Vec<usize>> = vec![];
    let steps = rng.range(0, 60);
    let range = *rng.pick(&[3, 10, 40, 100_000]);
    for _ in 0..steps {
        let name = |rng: &mut Rng, order: &[usize]| {
            if !order.is_empty() && rng.chance(3, 4) {
                *rng.pick(order)
            } else {
                rng.below(range)
            }
        };
        let missing = |n: usize, r: &GrammarError| match r {
            GrammarError::GraphNodeDoesNotExistsError { node_name } if *node_name == n => Ok(()),
            e => Err(format!("the error about the missing node {n} is {e:?}")),
        };
        match rng.below(8) {
            0 | 1 => {
                let n = if rng.chance(2, 3) {
                    rng.below(range)
                } else {
                    name(rng, &order)
                };
                let d = rng.next() % 1000;
                log.push(format!("named node {n} {d}"));
                match (g.add_node(n, d), index.contains_key(&n)) {
                    (Ok(i), false) => {
                        ensure!(i == data.len(), "the new node has index {i}");
                        index.insert(n, i);
                        order.push(n);
                        data.push(d);
                        out.push(vec![]);
                    }
                    (Err(GrammarError::GraphNodeAlreadyExistsError { node_name }), true)
                        if node_name == n =>
                    {
                        ctx.st.inc("names_taken");
                    }
                    (r, there) => {
                        return Err(format!("adding node {n} (there: {there}) gave {r:?}"));
                    }
                }
            }
            2..=4 => {
                let (a, b) = (name(rng, &order), name(rng, &order));
                log.push(format!("named edge {a} {b}"));
                match (g.add_edge(a, b), index.get(&a), index.get(&b)) {
                    (Ok(()), Some(&x), Some(&y)) => out[x].push(y),
                    (Err(e), x, _) if x.is_none() => missing(a, &e)?,
                    (Err(e), _, None) => missing(b, &e)?,
                    (r, x, y) => return Err(format!("edge {a} ({x:?}) to {b} ({y:?}) gave {r:?}")),
                }
            }
            5 => {
                let n = name(rng, &order);
                let d = rng.next() % 1000;
                log.push(format!("set {n} {d}"));
                match (g.get_node_mut(n), index.get(&n)) {
                    (Ok(x), Some(&i)) => {
                        x.data = d;
                        data[i] = d;
                    }
                    (Err(e), None) => missing(n, &e)?,
                    (r, i) => return Err(format!("node {n} ({i:?}) gave {:?}", r.map(|x| x.data))),
                }
            }
            6 => {
                let i = rng.below(data.len() + 2);
                log.push(format!("set at {i}"));
                match g.get_node_mut_by_index(i) {
                    Ok(x) if i < data.len() => {
                        x.data = i as u64;
                        data[i] = i as u64;
                    }
                    Err(GrammarError::GraphIndexOutOfBounds { index })
                        if index == i && i >= data.len() => {}
                    r => return Err(format!("index {i} gave {:?}", r.map(|x| x.data))),
                }
            }
            _ => {
                let n = name(rng, &order);
                if !index.contains_key(&n) {
                    log.push(format!("look at {n}"));
                    match (
                        g.get_node(n),
                        g.successors(n).err(),
                        g.successor_indices(n).err(),
                    ) {
                        (Err(a), Some(b), Some(c)) => {
                            missing(n, &a)?;
                            missing(n, &b)?;
                            missing(n, &c)?;
                        }
                        _ => return Err(format!("the missing node {n} is found")),
                    }
                    ctx.st.inc("missing_names");
                }
            }
        }
        for n in &order {
            let i = index[n];
            let a = g.get_node(*n).map_err(|e| format!("node {n}: {e:?}"))?.data;
            let b = g
                .get_node_by_index(i)
                .map_err(|e| format!("index {i}: {e:?}"))?
                .data;
            ensure!(
                a == data[i] && b == a,
                "node {n} holds {a}, {b} instead of {}",
                data[i]
            );
            let want: Vec<usize> = out[i].iter().rev().copied().collect();
            let got: Vec<usize> = g
                .successor_indices(*n)
                .map_err(|e| format!("{e:?}"))?
                .take(want.len() + 2)
                .collect();
            ensure!(
                got == want,
                "the successors of {n} are {got:?} instead of {want:?}"
            );
            let got: Vec<(usize, u64)> = g
                .successors(*n)
                .map_err(|e| format!("{e:?}"))?
                .take(want.len() + 2)
                .map(|(i, d)| (i, d.data))
                .collect();
            let want: Vec<(usize, u64)> = want.iter().map(|i| (*i, data[*i])).collect();
            ensure!(
                got == want,
                "the successors of {n} are {got:?} instead of {want:?}"
            );
        }
        for i in [data.len(), data.len() + 1, usize::MAX] {
            ensure!(
                g.get_node_by_index(i).is_err(),
                "index {i} is found among {} nodes",
                data.len()
            );
        }
    }
    ctx.st.add("named_nodes", data.len() as u64);
    Ok(())
}

/// Large graphs: many edges at a node, long chains, large graphs joined, many names.
fn graph_giant(ctx: &mut Ctx) -> Check {
    let rng = &mut ctx.rng;
    let kind = ["star", "numbered_star", "chain", "joined", "named"][rng.below(5)];
    let most = giant_max() / 3;
    let n = match kind {
        "star" | "numbered_star" => rng.range(200, most.min(8000)),
        _ => rng.range(most / 10, most),
    };
    let what = format!("graph giant ({kind}) of {n}");
    let mut seen = 0;
    let r = on_small_stack(|| {
        if kind == "named" {
            let mut g: GraphNamedNodes<u64> = GraphNamedNodes::new();
            let name = |i: usize| i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            for i in 0..n {
                let got = g
                    .add_node(name(i), i as u64)
                    .map_err(|e| format!("{e:?}"))?;
                ensure!(got == i, "node {i} got index {got}");
                if i > 0 {
                    let to = rng.below(i);
                    g.add_edge(name(i), name(to))
                        .map_err(|e| format!("{e:?}"))?;
                    if i < 2000 {
                        g.add_edge(name(0), name(i)).map_err(|e| format!("{e:?}"))?;
                    }
                }
            }
            for _ in 0..2000 {
                let i = rng.below(n);
                let a = g.get_node(name(i)).map_err(|e| format!("{e:?}"))?.data;
                let b = g.get_node_by_index(i).map_err(|e| format!("{e:?}"))?.data;
                ensure!(a == i as u64 && b == a, "node {i} of {n} holds {a}, {b}");
                ensure!(
                    g.add_node(name(i), 0).is_err(),
                    "name {i} of {n} was taken twice"
                );
                seen += 1;
            }
            ensure!(
                g.get_node(name(n)).is_err(),
                "a name that was never given is found"
            );
            let k = g
                .successor_indices(name(0))
                .map_err(|e| format!("{e:?}"))?
                .count();
            ensure!(k == n.min(2000) - 1, "the first node has {k} successors");
            return Ok(());
        }
        let mut g: Graph<u64> = Graph::new();
        let mut m = MGraph::default();
        let add = |g: &mut Graph<u64>, m: &mut MGraph, d: u64| -> Result<usize, String> {
            let i = g.add_node(d);
            ensure!(
                i == m.data.len(),
                "the new node has index {i} instead of {}",
                m.data.len()
            );
            m.data.push(d);
            m.out.push(BTreeMap::new());
            Ok(i)
        };
        add(&mut g, &mut m, 0)?;
        match kind {
            "star" | "numbered_star" => {
                add(&mut g, &mut m, 1)?;
                add(&mut g, &mut m, 2)?;
                for i in 0..n {
                    let to = 1 + i % 2;
                    if kind == "star" || rng.chance(1, 5) {
                        let id = m.out[0].keys().next_back().map_or(0, |x| x + 1);
                        g.add_edge(0, to);
                        m.out[0].insert(id, to);
                    } else {
                        let id = rng.below(4 * n);
                        let want = !m.out[0].contains_key(&id);
                        let got = g.try_add_edge_with_id(0, to, id);
                        ensure!(
                            got == want,
                            "adding edge number {id} gave {got} instead of {want}"
                        );
                        if want {
                            m.out[0].insert(id, to);
                        }
                    }
                }
                seen += n;
            }
            _ => {
                let mut other: Graph<u64> = Graph::new();
                let mut om = MGraph::default();
                let joined = kind == "joined";
                if joined {
                    for i in 0..n {
                        add(&mut other, &mut om, i as u64)?;
                        if i > 0 {
                            other.add_edge(i - 1, i);
                            om.out[i - 1].insert(0, i);
                        }
                    }
                }
                for i in 1..n {
                    add(&mut g, &mut m, i as u64)?;
                    g.add_edge(i - 1, i);
                    m.out[i - 1].insert(0, i);
                }
                if joined {
                    g.add_graph_at_node(other, n - 1, 0);
                    let off = m.data.len();
                    m.data.extend(om.data);
                    m.out.extend(om.out.into_iter().map(|o| {
                        o.into_iter()
                            .map(|(k, v)| (k, v + off))
                            .collect::<BTreeMap<_, _>>()
                    }));
                    m.out[n - 1].insert(0, off);
                }
                let end = m.data.len() - 1;
                let got = g.find_node_index_by_path(0, std::iter::repeat_n(0, end));
                ensure!(got == Some(end), "a path of {end} steps leads to {got:?}");
                let got = g.find_node_index_by_path(0, std::iter::repeat_n(0, end + 1));
                ensure!(got.is_none(), "a path beyond the end leads to {got:?}");
                let got = g
                    .find_node_by_path(0, std::iter::repeat_n(0, end))
                    .map(|x| x.data);
                ensure!(
                    got == Some(m.data[end]),
                    "a path of {end} steps leads to data {got:?}"
                );
                seen += end;
            }
        }
        if kind == "numbered_star" && n > 2000 {
            // looking at each edge in turn is quadratic
            let want: Vec<usize> = m.out[0].values().rev().copied().collect();
            let got: Vec<usize> = g.successors(0).take(want.len() + 2).collect();
            ensure!(
                got == want,
                "the successors are {} instead of {}, or others",
                got.len(),
                want.len()
            );
            for _ in 0..300 {
                let id = rng.below(4 * n);
                let got = g.find_node_index(0, id);
                ensure!(
                    got == m.out[0].get(&id).copied(),
                    "edge {id} leads to {got:?}"
                );
            }
            return Ok(());
        }
        same_graph(&g, &m, rng)
    });
    r.map_err(|e| short(&format!("{what}: {e}")))?;
    ctx.st.inc(&format!("giant_graphs_{kind}"));
    ctx.st.max("giant_graph", n as u64);
    ctx.st.add("giant_graph_steps", seen as u64);
    ctx.st.eval(hash_of(&what), true);
    Ok(())
}

fn c13(ctx: &mut Ctx) -> Check {
    if ctx.idx >= GIANT {
        return graph_giant(ctx);
    }
    let mut log = vec![];
    let steps = match ctx.rng.below(30) {
        0 => ctx.rng.range(100, 600),
        _ => ctx.rng.range(1, 40),
    };
    let mut st = std::mem::take(&mut ctx.st);
    let r = lib(|| random_graph(&mut ctx.rng, steps, &mut log, 2, &mut st).map(|(_, m)| m));
    ctx.st = st;
    let m = match r {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return Err(format!("{}\n{e}", short(&log.join("; ")))),
        Err(e) => return Err(format!("{}\npanicked: {e}", short(&log.join("; ")))),
    };
    let edges: usize = m.out.iter().map(BTreeMap::len).sum();
    ctx.st.add("edges", edges as u64);
    ctx.st.add("nodes", m.data.len() as u64);
    ctx.st.eval(hash_of(&log), edges > 1);
    ctx.st.sample(|| short(&log.join("; ")));
    let mut log = vec![];
    let r = lib(|| named(ctx, &mut log)).unwrap_or_else(|e| Err(format!("panicked: {e}")));
    ctx.st.eval(hash_of(&log), log.len() > 2);
    r.map_err(|e| format!("{}\n{e}", short(&log.join("; "))))
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "One case is a random history on a plain graph (nodes, edges, edges with chosen numbers, taken numbers, whole graphs joined in) and one on a graph with named nodes (taken and missing names, foreign indices). After every step nodes, edge numbers, successors, lookups and paths are compared with a model. Non-trivial with more than one edge (plain) or two steps (named), distinct by history.",
    assumptions: &[
        "edges are added without a number only while a higher number exists",
        "indices given to the plain graph are those of its nodes",
    ],
    quick: 1_000_000,
    thorough: 25_000_000,
    run: c13,
    stack_mb: 64,
    floor: &[
        ("edges", 4000),
        ("numbers_taken", 300),
        ("graphs_joined", 100),
        ("names_taken", 100),
        ("missing_names", 50),
    ],
    extra: None,
    giants: 60,
    dev: (0, 0),
};
