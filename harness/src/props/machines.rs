//! C14 the shipped virtual machines.
use crate::gen_::*;
use crate::gram::RefParser;
use crate::lab::*;
use crate::props::parse::setup;
use crate::runner::{GIANT, Prop};
use crate::util::*;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm as simple;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm as full;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::cell::RefCell;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};

unsafe extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

thread_local! {
    static CAPTURE: RefCell<Option<File>> = const { RefCell::new(None) };
}

/// What `f` prints. The first call takes over standard output of this (worker) process.
pub fn printed<R>(f: impl FnOnce() -> R) -> (R, String) {
    use std::os::fd::AsRawFd;
    CAPTURE.with(|c| {
        let mut c = c.borrow_mut();
        let file = c.get_or_insert_with(|| {
            let path = std::env::temp_dir().join(format!(
                "hpp-out-{}-{:?}",
                std::process::id(),
                std::thread::current().id()
            ));
            let f = File::options()
                .read(true)
                .write(true)
                .append(true)
                .create(true)
                .truncate(false)
                .open(&path)
                .expect("capture file");
            std::fs::remove_file(&path).ok();
            std::io::stdout().flush().ok();
            assert!(unsafe { dup2(f.as_raw_fd(), 1) } == 1);
            f
        });
        file.set_len(0).expect("capture");
        let r = f();
        std::io::stdout().flush().expect("flush");
        let mut s = Vec::new();
        file.seek(SeekFrom::Start(0)).expect("seek");
        file.read_to_end(&mut s).expect("capture");
        (r, String::from_utf8_lossy(&s).into_owned())
    })
}

/// The machine's state as exact numbers.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct MState {
    stack: Vec<i128>,
    reg: i128,
    reg2: i128,
    error: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Add,
    RegAddConst(i128),
    Sub,
    Digit,
    PopToReg,
    PopToReg2,
    PopDiscard,
    PushConst(i128),
    PushFromTree,
    PushReg,
    PushReg2,
    PrintReg,
    PrintReg2,
    PrintError,
    Pow(u64),
}

/// base^exp, or None when it is certainly beyond every machine number.
fn power(base: u64, exp: i128) -> Option<i128> {
    if exp < 0 {
        return None;
    }
    if base == 0 {
        return Some(i128::from(exp == 0));
    }
    if base == 1 {
        return Some(1);
    }
    let mut r: i128 = 1;
    for _ in 0..exp {
        r = r.checked_mul(i128::from(base))?;
        if r > 1 << 70 {
            return None;
        }
    }
    Some(r)
}

enum Step {
    Fine,
    /// the error code; whether it may also go through, as numbers beyond the range only come up
    /// on the way
    Fault(usize),
    /// not specified
    Open,
}

/// One instruction on a machine without an error so far.
fn step(
    s: &mut MState,
    op: &Op,
    child: &Option<String>,
    lo: i128,
    hi: i128,
    out: &mut String,
) -> Step {
    let fits = |x: i128| x >= lo && x <= hi;
    let keep = s.clone();
    let r = match op {
        Op::Digit => Step::Fine,
        Op::Add | Op::Sub => match s.stack.pop() {
            None => Step::Fault(1),
            Some(v) => {
                let r = if *op == Op::Add { v + s.reg } else { v - s.reg };
                if fits(r) {
                    s.stack.push(r);
                    Step::Fine
                } else {
                    Step::Fault(3)
                }
            }
        },
        Op::PopToReg | Op::PopToReg2 | Op::PopDiscard => match s.stack.pop() {
            None => Step::Fault(1),
            Some(v) => {
                match op {
                    Op::PopToReg => s.reg = v,
                    Op::PopToReg2 => s.reg2 = v,
                    _ => {}
                }
                Step::Fine
            }
        },
        Op::PushConst(c) => {
            s.stack.push(*c);
            Step::Fine
        }
        Op::PushReg => {
            s.stack.push(s.reg);
            Step::Fine
        }
        Op::PushReg2 => {
            s.stack.push(s.reg2);
            Step::Fine
        }
        Op::RegAddConst(c) => {
            if fits(s.reg + c) {
                s.reg += c;
                Step::Fine
            } else {
                Step::Fault(3)
            }
        }
        Op::PrintReg => {
            out.push_str(&format!("{}\n", s.reg));
            Step::Fine
        }
        Op::PrintReg2 => {
            out.push_str(&format!("{}\n", s.reg2));
            Step::Fine
        }
        Op::PrintError => {
            out.push_str(&format!("{}\n", s.error));
            Step::Fine
        }
        Op::PushFromTree => match child {
            None => Step::Fault(1),
            Some(t) => {
                let plain = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
                if plain {
                    match t.parse::<i128>() {
                        Ok(v) if fits(v) => {
                            s.stack.push(v);
                            Step::Fine
                        }
                        _ => Step::Fault(2),
                    }
                } else if t.starts_with(['+', '-']) {
                    // signs: not specified
                    Step::Open
                } else {
                    Step::Fault(2)
                }
            }
        },
        Op::Pow(base) => match s.stack.pop() {
            None => Step::Fault(1),
            Some(v) => match power(*base, s.reg) {
                None if s.reg < 0 => Step::Fault(3),
                None => {
                    if v == 0 {
                        Step::Open
                    } else {
                        Step::Fault(3)
                    }
                }
                Some(p) => {
                    let r = v.checked_mul(p).and_then(|x| x.checked_add(s.reg2));
                    match r {
                        Some(r) if fits(r) => {
                            // beyond the range only on the way
                            if fits(p) && fits(v * p) && s.reg <= i128::from(u32::MAX) {
                                s.stack.push(r);
                                Step::Fine
                            } else {
                                Step::Open
                            }
                        }
                        _ => Step::Fault(3),
                    }
                }
            },
        },
    };
    if matches!(r, Step::Fault(_)) {
        *s = keep;
    }
    r
}

fn number(rng: &mut Rng, lo: i128, hi: i128) -> i128 {
    let x = match rng.below(9) {
        8 => {
            let edge = 1_i128 << *rng.pick(&[7, 8, 15, 16, 31, 32, 52, 53, 62]);
            let x = edge + rng.below(4) as i128 - 2;
            if rng.chance(1, 4) { -x } else { x }
        }
        0 => hi - rng.below(4) as i128,
        1 => lo + rng.below(4) as i128,
        2 => i128::from(rng.next()) % (hi - 1),
        3 => 10_i128.pow(rng.below(20) as u32),
        4 => hi / 2 + rng.below(3) as i128,
        5 => -(rng.below(1000) as i128),
        _ => rng.below(50) as i128,
    };
    x.clamp(lo, hi)
}

fn random_op(rng: &mut Rng, lo: i128, hi: i128) -> Op {
    match rng.below(22) {
        0..=2 => Op::Add,
        3..=5 => Op::Sub,
        6 | 7 => Op::PopToReg,
        8 => Op::PopToReg2,
        9 => Op::PopDiscard,
        10..=12 => Op::PushConst(number(rng, lo, hi)),
        13 => Op::PushFromTree,
        14 => Op::PushReg,
        15 => Op::PushReg2,
        16 => Op::PrintReg,
        17 => Op::PrintReg2,
        18 => Op::PrintError,
        19 => {
            let c = number(rng, 0, hi);
            Op::RegAddConst(if rng.chance(1, 3) { c } else { c % 5 })
        }
        20 => Op::Pow(match rng.below(5) {
            0 => rng.below(3) as u64,
            1 => number(rng, 0, i128::from(u64::MAX)) as u64,
            _ => 10,
        }),
        _ => Op::Digit,
    }
}

/// One instruction again and again, with operands that might be taken for each other.
fn kin_ops(rng: &mut Rng, lo: i128, hi: i128) -> Vec<Op> {
    let first = rng.below(12) as i128 + i128::from(lo >= 0 || rng.chance(1, 2)) * 2;
    let exponent = rng.below(4) as i128;
    let kind = rng.below(4);
    let mut ops = vec![Op::PushConst(exponent), Op::PopToReg];
    let mut last = first;
    for _ in 0..rng.range(2, 8) {
        let c = match rng.below(6) {
            0 => last,
            1 => first,
            2 => last + 1,
            _ => first + (1_i128 << *rng.pick(&[7, 8, 15, 16, 31, 32])) * rng.range(1, 3) as i128,
        };
        let c = c.clamp(0.max(lo), hi);
        last = c;
        match kind {
            0 => ops.extend([Op::PushConst(c), Op::Add]),
            1 => ops.extend([Op::PushConst(c), Op::Sub]),
            2 => ops.push(Op::RegAddConst(c)),
            _ => ops.extend([Op::PushConst(1 + rng.below(2) as i128), Op::Pow(c as u64)]),
        }
        if rng.chance(1, 3) {
            ops.push(if rng.chance(1, 2) {
                Op::PrintReg
            } else {
                Op::PopDiscard
            });
        }
    }
    ops
}

trait Machine: VM {
    const LO: i128;
    const HI: i128;
    fn make() -> Self;
    fn op(o: &Op) -> Self::Tinstrution;
    fn get(s: &Self::Tstate) -> MState;
    fn put(s: &mut Self::Tstate, m: &MState);
}
macro_rules! ops {
    ($t:ident, $o:expr, $n:ty) => {
        match $o {
            Op::Add => $t::Instruction::Add,
            Op::RegAddConst(c) => $t::Instruction::RegAddConst(*c as $n),
            Op::Sub => $t::Instruction::Sub,
            Op::Digit => $t::Instruction::Digit,
            Op::PopToReg => $t::Instruction::PopToReg,
            Op::PopToReg2 => $t::Instruction::PopToReg2,
            Op::PopDiscard => $t::Instruction::PopDiscard,
            Op::PushConst(c) => $t::Instruction::PushConst(*c as $n),
            Op::PushFromTree => $t::Instruction::PushFromTree,
            Op::PushReg => $t::Instruction::PushReg,
            Op::PushReg2 => $t::Instruction::PushReg2,
            Op::PrintReg => $t::Instruction::PrintReg,
            Op::PrintReg2 => $t::Instruction::PrintReg2,
            Op::PrintError => $t::Instruction::PrintError,
            Op::Pow(b) => $t::Instruction::Pow(*b as usize),
        }
    };
}
macro_rules! machine {
    ($vm:ident, $m:ident, $n:ty) => {
        impl Machine for $vm {
            const LO: i128 = <$n>::MIN as i128;
            const HI: i128 = <$n>::MAX as i128;
            fn make() -> Self {
                $vm {}
            }
            fn op(o: &Op) -> Self::Tinstrution {
                ops!($m, o, $n)
            }
            fn get(s: &Self::Tstate) -> MState {
                MState {
                    stack: s.stack.iter().map(|x| *x as i128).collect(),
                    reg: s.reg as i128,
                    reg2: s.reg2 as i128,
                    error: s.error,
                }
            }
            fn put(s: &mut Self::Tstate, m: &MState) {
                s.stack = m.stack.iter().map(|x| *x as $n).collect();
                s.reg = m.reg as $n;
                s.reg2 = m.reg2 as $n;
                s.error = m.error;
            }
        }
    };
}
machine!(SimpleStackVm, simple, usize);
machine!(StackVm, full, isize);

/// What the instructions that read the tree make of a text with this character.
fn swept_leaf<M: Machine>(ctx: &mut Ctx, c: char) -> Check {
    let vm = M::make();
    for text in [c.to_string(), format!("1{c}"), format!("{c}1")] {
        for op in [Op::Digit, Op::PushFromTree] {
            let mut tree: Tree<String> = Tree::new();
            let root = tree
                .add_node(String::new(), None)
                .map_err(|e| e.to_string())?;
            tree.add_node(text.clone(), Some(root))
                .map_err(|e| e.to_string())?;
            let mut st = M::create_new_state();
            let mut m = MState::default();
            let child = Some(text.clone());
            let sp = step(&mut m, &op, &child, M::LO, M::HI, &mut String::new());
            let i = M::op(&op);
            if let Err(e) = lib(|| vm.execute_instruction(&mut tree, root, &i, &mut st)) {
                return Err(format!("{op:?} of {text:?} panicked: {e}"));
            }
            let got = M::get(&st);
            let fine = match sp {
                Step::Fine => got == m,
                Step::Open => true,
                Step::Fault(code) => got.error == code && got.stack.is_empty(),
            };
            ensure!(
                fine,
                "{op:?} of {text:?} gives {got:?}, where {m:?} {} is due",
                if let Step::Fault(code) = sp {
                    format!("with error {code}")
                } else {
                    String::new()
                }
            );
            ctx.st
                .eval(hash_of(&(&text, M::LO == 0, matches!(op, Op::Digit))), true);
        }
    }
    Ok(())
}

fn instructions<M: Machine>(ctx: &mut Ctx) -> Check {
    let giant = ctx.idx >= GIANT;
    let rng = &mut ctx.rng;
    let mut tree: Tree<String> = Tree::new();
    let root = tree
        .add_node(String::new(), None)
        .map_err(|e| e.to_string())?;
    let mut nodes: Vec<(NodeId, Option<String>)> = vec![(root, None)];
    for _ in 0..rng.below(6) {
        let k = rng.below(nodes.len());
        let text = match rng.below(8) {
            0 => String::new(),
            1 => "x".to_string(),
            2 => any_char(rng).to_string(),
            3 => format!("{}", number(rng, M::LO, M::HI)),
            4 => format!("{}", M::HI + 1),
            5 => format!("{}", u128::MAX),
            6 => " 1".to_string(),
            _ => rng.below(10).to_string(),
        };
        let id = tree
            .add_node(text.clone(), Some(nodes[k].0))
            .map_err(|e| e.to_string())?;
        nodes[k].1.get_or_insert(text);
        nodes.push((id, None));
    }
    let vm = M::make();
    let mut st = M::create_new_state();
    let mut m = MState::default();
    ensure!(
        M::get(&st) == m,
        "a new state is {:?}, not empty",
        M::get(&st)
    );
    if rng.chance(1, 2) {
        m.reg = number(rng, M::LO, M::HI);
        m.reg2 = number(rng, M::LO, M::HI);
        let most = if giant { giant_size(rng, 5000) } else { 6 };
        for _ in 0..rng.below(most) {
            m.stack.push(number(rng, M::LO, M::HI));
        }
        if rng.chance(1, 3) {
            m.reg = rng.below(22) as i128;
        }
        if rng.chance(1, 4) {
            m.error = if rng.chance(1, 2) {
                rng.range(1, 4)
            } else {
                number(rng, 1, i128::from(u64::MAX)) as usize
            };
        }
        M::put(&mut st, &m);
    }
    let start = m.clone();
    let n = if giant {
        giant_size(rng, 4000)
    } else {
        rng.range(1, 25)
    };
    let ops: Vec<Op> = (0..n)
        .map(|_| match random_op(rng, M::LO, M::HI) {
            // long sequences of what cannot fail: pushes, more or less
            Op::Add | Op::Sub | Op::Pow(_) | Op::Digit | Op::PopDiscard if giant => Op::PushReg,
            Op::PushFromTree | Op::RegAddConst(_) if giant => Op::PushReg2,
            o => o,
        })
        .collect();
    let ops = if !giant && rng.chance(1, 6) {
        kin_ops(rng, M::LO, M::HI)
    } else {
        ops
    };
    let which = if M::LO == 0 {
        "simple stack VM"
    } else {
        "stack VM"
    };
    let mut log: Vec<String> = vec![];
    let mut prints = false;
    for op in &ops {
        let (id, child) = nodes[rng.below(nodes.len())].clone();
        log.push(format!("{op:?}"));
        let describe = |log: &[String]| {
            short(&format!(
                "{which} from {start:?}, child {child:?}: {}\n",
                log.join("; ")
            ))
        };
        let print_op = matches!(op, Op::PrintReg | Op::PrintReg2 | Op::PrintError);
        let i = M::op(op);
        let mut want_out = String::new();
        let before = m.clone();
        let sp = step(&mut m, op, &child, M::LO, M::HI, &mut want_out);
        let (r, out) = if print_op {
            prints = true;
            printed(|| lib(|| vm.execute_instruction(&mut tree, id, &i, &mut st)))
        } else {
            (
                lib(|| vm.execute_instruction(&mut tree, id, &i, &mut st)),
                String::new(),
            )
        };
        if let Err(e) = r {
            return Err(format!("{}panicked: {e}", describe(&log)));
        }
        let got = M::get(&st);
        ctx.st.inc("instructions");
        match sp {
            Step::Fine => {
                ensure!(
                    got == m,
                    "{}the state is {} instead of {}",
                    describe(&log),
                    short(&format!("{got:?}")),
                    short(&format!("{m:?}"))
                );
                ensure!(
                    out == want_out,
                    "{}printed {out:?} instead of {want_out:?}",
                    describe(&log)
                );
            }
            Step::Open => {
                ctx.st.inc("open");
                break;
            }
            Step::Fault(code) => {
                ctx.st
                    .inc(["", "underflows", "no_numbers", "out_of_range"][code]);
                ensure!(
                    got.error == code,
                    "{}the error is {} instead of {code} (state before {before:?}, after {got:?})",
                    describe(&log),
                    got.error
                );
                ensure!(
                    before.stack.starts_with(&got.stack)
                        && got.reg == before.reg
                        && got.reg2 == before.reg2,
                    "{}after the error {code} the state is {got:?}, before it was {before:?}",
                    describe(&log)
                );
                // goes on, with the error kept
                let id = nodes[0].0;
                for op in ops.iter().rev() {
                    let i = M::op(op);
                    if matches!(op, Op::PrintReg | Op::PrintReg2 | Op::PrintError) {
                        let before = M::get(&st);
                        let (r, out) =
                            printed(|| lib(|| vm.execute_instruction(&mut tree, id, &i, &mut st)));
                        if let Err(e) = r {
                            return Err(format!("{}then {op:?} panicked: {e}", describe(&log)));
                        }
                        let want = match op {
                            Op::PrintReg => before.reg,
                            Op::PrintReg2 => before.reg2,
                            _ => before.error as i128,
                        };
                        ctx.st.inc("printed_after_error");
                        ensure!(
                            out == format!("{want}\n"),
                            "{}then {op:?} printed {out:?} instead of {want}",
                            describe(&log)
                        );
                        ensure!(
                            M::get(&st) == before,
                            "{}then {op:?} changed the state from {before:?} to {:?}",
                            describe(&log),
                            M::get(&st)
                        );
                        continue;
                    }
                    if let Err(e) = lib(|| vm.execute_instruction(&mut tree, id, &i, &mut st)) {
                        return Err(format!("{}then {op:?} panicked: {e}", describe(&log)));
                    }
                    ensure!(
                        M::get(&st).error != 0,
                        "{}then {op:?} cleared the error",
                        describe(&log)
                    );
                }
                break;
            }
        }
    }
    let _ = prints;
    ctx.st
        .eval(hash_of(&(M::LO == 0, &ops, &log)), log.len() > 1);
    ctx.st.max("stack", m.stack.len() as u64);
    ctx.st.sample(|| {
        short(&format!(
            "{which} from {start:?}: {} -> {m:?}",
            log.join("; ")
        ))
    });
    Ok(())
}

// ---------------------------------------------------------------- calculators

const BY_NAME: &str = include_str!("../../grammars/simple_stack_based_math.txt");
const BY_CODE: &str = include_str!("../../grammars/stack_based_math.txt");

/// The calculator made through ParserData, as in the example.
pub fn calculator_data() -> (ParserData<StackVm>, usize) {
    use full::Instruction as I;
    let mut d = ParserData::<StackVm>::new();
    let start = d.get_or_add_non_terminal("start");
    let rules: &[(&str, &[&[&str]])] = &[
        ("start", &[&["terms"]]),
        ("terms", &[&["term", "terms_s"]]),
        ("terms_s", &[&["whitespace", "term", "terms_s"], &[]]),
        ("term", &[&["add"], &["sub"], &["number"], &["print"]]),
        ("print", &[&["\"print"]]),
        ("add", &[&["\"+"]]),
        ("sub", &[&["\"-"]]),
        ("number", &[&["digit", "number_s"]]),
        ("number_s", &[&["number_s_"], &[]]),
        ("number_s_", &[&["digit", "number_s"]]),
        (
            "digit",
            &[
                &["\"0"],
                &["\"1"],
                &["\"2"],
                &["\"3"],
                &["\"4"],
                &["\"5"],
                &["\"6"],
                &["\"7"],
                &["\"8"],
                &["\"9"],
            ],
        ),
        ("whitespace", &[&["\" "]]),
    ];
    for (n, alts) in rules {
        let ix = d.get_or_add_non_terminal(n);
        for a in *alts {
            let v = a
                .iter()
                .map(|e| match e.strip_prefix('"') {
                    Some(t) => d.get_or_add_terminal(t),
                    None => d.get_or_add_non_terminal(e),
                })
                .collect();
            d.add_production(ix, v);
        }
    }
    let mut act = |n: &str, v: Vec<I>| {
        let ix = d.get_or_add_non_terminal(n);
        d.add_instructions(ix, v);
    };
    act("print", vec![I::PopToReg, I::PrintReg]);
    act("add", vec![I::PopToReg, I::Add]);
    act("sub", vec![I::PopToReg, I::Sub]);
    act("number", vec![I::PopDiscard]);
    act(
        "number_s_",
        vec![
            I::PopToReg,
            I::PopToReg2,
            I::PopDiscard,
            I::Pow(10),
            I::RegAddConst(1),
            I::PushReg,
        ],
    );
    act("digit", vec![I::PushFromTree, I::PushConst(1)]);
    (d, start)
}

/// Postfix calculation with exact numbers.
struct Exact {
    stack: Vec<i128>,
    out: String,
    /// a term that cannot be calculated
    fault: bool,
    /// a number of so many digits that it is open
    open: bool,
}
fn exact(terms: &[String], lo: i128, hi: i128) -> Exact {
    let mut e = Exact {
        stack: vec![],
        out: String::new(),
        fault: false,
        open: false,
    };
    for t in terms {
        match t.as_str() {
            "+" | "-" => {
                let (Some(b), Some(a)) = (e.stack.pop(), e.stack.pop()) else {
                    e.fault = true;
                    return e;
                };
                let r = if t == "+" { a + b } else { a - b };
                if r < lo || r > hi {
                    e.fault = true;
                    return e;
                }
                e.stack.push(r);
            }
            "print" => {
                let Some(a) = e.stack.pop() else {
                    e.fault = true;
                    return e;
                };
                e.out.push_str(&format!("{a}\n"));
            }
            n => {
                let v = n.parse::<i128>();
                let v = v.ok().filter(|v| *v <= hi);
                match v {
                    None => {
                        e.fault = true;
                        return e;
                    }
                    Some(v) => {
                        if n.len() > hi.to_string().len() {
                            e.open = true;
                            return e;
                        }
                        e.stack.push(v);
                    }
                }
            }
        }
    }
    e
}

/// Thousands of terms: as many as the stack can take, or a little at a time.
fn calc_giant(rng: &mut Rng, hi: i128) -> Vec<String> {
    let n = giant_size(rng, 30_000);
    let mut v = vec![];
    let mut depth = 0;
    // the stack gets deep, or stays flat
    let deep = rng.chance(1, 2);
    for i in 0..n {
        let push = if deep {
            i * 2 < n
        } else {
            depth < 2 || rng.chance(1, 3)
        };
        if push {
            let most = if rng.chance(1, 2) { 10 } else { 1_000_000 };
            v.push(rng.below(most).to_string());
            depth += 1;
        } else if depth >= 2 && rng.chance(3, 4) {
            // with + only, what must not get negative does not
            v.push("+".to_string());
            depth -= 1;
        } else if depth >= 1 && rng.chance(1, 2) {
            v.push("print".to_string());
            depth -= 1;
        } else {
            v.push("1".to_string());
            depth += 1;
        }
    }
    match rng.below(6) {
        0 => v.push((hi + 1).to_string()),
        1 => v.extend(std::iter::repeat_n("+".to_string(), depth + 1)),
        2 => v.extend(std::iter::repeat_n("print".to_string(), depth)),
        _ => {}
    }
    v
}

fn calc_terms(rng: &mut Rng, hi: i128) -> Vec<String> {
    let n = match rng.below(10) {
        0 => rng.range(20, 120),
        _ => rng.range(1, 12),
    };
    let sane = rng.chance(3, 4);
    let mut depth = 0usize;
    let mut v = vec![];
    for _ in 0..n {
        let k = rng.below(10);
        if k < 5 || sane && depth == 0 {
            let x = match rng.below(8) {
                0 => hi - rng.below(3) as i128,
                1 => hi / 2 + rng.below(3) as i128,
                2 => 10_i128.pow(rng.below(20) as u32),
                3 if !sane => hi + 1 + rng.below(9) as i128,
                4 => i128::from(rng.next()) % (hi + 1),
                _ => rng.below(1000) as i128,
            };
            let mut s = x.min(hi + 10).to_string();
            if rng.chance(1, 6) && (s.len() < 12 || rng.chance(1, 8)) {
                s = "0".repeat(rng.range(1, 6)) + &s;
            }
            v.push(s);
            depth += 1;
        } else if k < 9 && (!sane || depth >= 2) {
            v.push(if rng.chance(1, 2) { "+" } else { "-" }.into());
            depth = depth.saturating_sub(1);
        } else {
            v.push("print".into());
            depth = depth.saturating_sub(1);
        }
    }
    v
}

fn calc_run<M: Machine>(
    ctx: &mut Ctx,
    p: &mut Result<Parser<'_, M>, BuildErr>,
    way: &str,
) -> Check {
    let Ok(p) = p else {
        return Err(format!("the calculator ({way}) cannot be built"));
    };
    for _ in 0..6 {
        let terms = if ctx.idx >= GIANT {
            calc_giant(&mut ctx.rng, M::HI)
        } else {
            calc_terms(&mut ctx.rng, M::HI)
        };
        let script = terms.join(" ");
        let want = exact(&terms, M::LO, M::HI);
        let mut st = M::create_new_state();
        // the parser keeps the script's lifetime; small, so let it be
        let leaked: &'static str = unleak::keep(&script);
        let (out, text) = printed(|| parse_static(p, leaked, &mut st));
        let what = short(&format!("calculator ({way}), script {script:?}: "));
        ensure!(out.is_ok(), "{what}parse gave {}", out.short());
        let got = M::get(&st);
        ctx.st.inc("scripts");
        ctx.st.eval(hash_of(&(way, &script)), terms.len() > 1);
        ctx.st.sample(|| {
            short(&format!(
                "{what}prints {:?}, leaves {:?}",
                want.out, want.stack
            ))
        });
        ctx.st.max("terms", terms.len() as u64);
        ctx.st.max("stack", want.stack.len() as u64);
        if want.fault {
            ctx.st.inc("faulty_scripts");
            ensure!(
                got.error != 0,
                "{what}something cannot be calculated, but there is no error; the state is {got:?}"
            );
            ensure!(
                text.starts_with(&want.out),
                "{what}printed {text:?}, which does not begin with {:?}",
                want.out
            );
        } else if want.open {
            ctx.st.inc("open");
            ensure!(
                text.starts_with(&want.out),
                "{what}printed {text:?}, which does not begin with {:?}",
                want.out
            );
        } else {
            ctx.st.inc("exact_scripts");
            ensure!(
                got.error == 0,
                "{what}error {} in a script that can be calculated",
                got.error
            );
            ensure!(
                got.stack == want.stack,
                "{what}the stack is {} instead of {}",
                short(&format!("{:?}", got.stack)),
                short(&format!("{:?}", want.stack))
            );
            ensure!(
                text == want.out,
                "{what}printed {} instead of {}",
                short(&format!("{text:?}")),
                short(&format!("{:?}", want.out))
            );
        }
    }
    Ok(())
}

mod unleak {
    /// The parser borrows its scripts for as long as it lives itself.
    pub fn keep(s: &str) -> &'static str {
        Box::leak(s.to_string().into_boxed_str())
    }
}

fn parse_static<V: VM>(p: &mut Parser<'_, V>, s: &'static str, st: &mut V::Tstate) -> Out {
    parse(p, s, st)
}

fn counting(ctx: &mut Ctx) -> Check {
    let s = setup(ctx, true);
    let vm = CountingVm {};
    let null = NullVm::new();
    let (p, q) = match s.route {
        Route::Data => {
            let (d, ix) = build_data(&s.g, &mut ctx.rng, |_, _| vec![0])?;
            let (d2, ix2) = build_data(&s.g, &mut ctx.rng, |_, _| vec![0])?;
            (
                data_parser(d, ix[s.g.start], &vm),
                data_parser(d2, ix2[s.g.start], &null),
            )
        }
        _ => (text_parser(&s.rules, &vm), text_parser(&s.rules, &null)),
    };
    let mut p = p.map_err(|e| format!("{}no counting parser: {e:?}", s.describe("")))?;
    let mut q = q.map_err(|e| format!("{}no parser: {e:?}", s.describe("")))?;
    let mut rp = RefParser::new(&s.g, &s.a);
    rp.keep_subtrees = false;
    for script in s.scripts.iter().take(12) {
        let chars: Vec<char> = script.chars().collect();
        let run = rp.run(&chars);
        let want = run
            .completed
            .iter()
            .filter(|(i, _)| s.g.nts[*i].action.is_some())
            .count();
        let mut st = CountingVm::create_new_state();
        let base = ctx.rng.below(3);
        st += base;
        let a = parse(&mut p, script, &mut st);
        let mut st2 = NullVm::create_new_state();
        let b = parse(&mut q, script, &mut st2);
        ensure!(
            a.is_ok() == run.result.is_ok() && a == b,
            "{}the counting VM's parse gave {}, the null VM's {}",
            s.describe(script),
            a.short(),
            b.short()
        );
        ensure!(
            st == base + want,
            "{}the counter went from {base} to {st}, though {want} actions ran",
            s.describe(script)
        );
        ensure!(
            st2 == 0,
            "{}the null VM changed its state",
            s.describe(script)
        );
        ctx.st.inc("counted_parses");
        ctx.st.add("counted_actions", want as u64);
        ctx.st.eval(hash_of(&(&s.rules, script)), want > 0);
    }
    Ok(())
}

/// The rule-name calculator: the names decide, the text in the braces does not matter.
fn renamed_code(rng: &mut Rng) -> String {
    let mut s = BY_NAME.to_string();
    if rng.chance(1, 2) {
        s = s.replace(
            "{}",
            *rng.pick(&["{ }", "{Add;}", "{x y}", "{\\}}", "{PopToReg;}"]),
        );
    }
    s
}

fn c14(ctx: &mut Ctx) -> Check {
    if ctx.idx < GIANT {
        for c in swept(ctx.idx, 6) {
            swept_leaf::<SimpleStackVm>(ctx, c)?;
            swept_leaf::<StackVm>(ctx, c)?;
            ctx.st.inc("characters_swept");
        }
    }
    match ctx.idx % 16 {
        0..=5 => {
            instructions::<SimpleStackVm>(ctx)?;
            instructions::<StackVm>(ctx)
        }
        6..=8 => {
            let vm = SimpleStackVm {};
            let mut p = text_parser(&renamed_code(&mut ctx.rng), &vm);
            calc_run(ctx, &mut p, "by rule names")
        }
        9..=11 => {
            let vm = StackVm {};
            let mut p = text_parser(BY_CODE, &vm);
            calc_run(ctx, &mut p, "by code")
        }
        12 | 13 => {
            let vm = StackVm {};
            let (d, start) = calculator_data();
            let mut p = data_parser(d, start, &vm);
            calc_run(ctx, &mut p, "by data")
        }
        _ => counting(ctx),
    }
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "One case is a random instruction sequence on each stack VM (states and constants around the limits, trees with and without numbers), or random scripts for the shipped calculators (three ways to define them), or a grammar with actions run by the counting VM. States, error codes, printed lines and counts are compared with exact arithmetic in wider numbers. Non-trivial with more than one instruction, term or action, distinct by content. Besides, every character there is takes each of its places in turn.",
    assumptions: &[
        "after the first error only that the error stays and nothing panics is judged",
        "a power whose factor or product leaves the range only on the way, and numbers written with more digits than the largest one has, may go either way",
        "standard output is the process's file descriptor 1",
    ],
    quick: 200_000,
    thorough: 4_000_000,
    run: c14,
    stack_mb: 512,
    floor: &[
        ("characters_swept", 100),
        ("instructions", 2500),
        ("underflows", 50),
        ("no_numbers", 10),
        ("out_of_range", 30),
        ("exact_scripts", 800),
        ("faulty_scripts", 200),
        ("counted_actions", 500),
    ],
    extra: None,
    giants: 160,
    dev: (0, 0),
};
