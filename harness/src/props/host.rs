//! C17 command line, C20 memory, C22 effort.
use super::parse::setup;
use super::sets::any_grammar;
use crate::alloc::{heap, reset_peak};
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::parse::layout;
use crate::runner::{Extra, Prop, verif_dir};
use crate::util::*;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::{NullVm, VM};
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::time::Instant;

// ---------------------------------------------------------------- C17

fn cli() -> PathBuf {
    verif_dir().join("target/cli/debug/henriks-parsing-project")
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("hpp-{tag}-{}", std::process::id()));
        fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}

/// What some files begin with that does not belong to their contents for some programs.
const FILE_HEADS: &[&str] = &[
    "\u{feff}",
    "#!x\n",
    "#! /usr/bin/x -\n",
    "#\n",
    "# x\n",
    "// x\n",
    "/* x */",
    "--\n",
    "---\n",
    "%!\n",
    "\\\n",
    " ",
    "\n",
    "\r\n",
    "\t",
    "\0",
    "\u{c}",
    "\u{1b}[0m",
    "\u{200b}",
    "\u{2060}",
    "\u{fffe}",
];

fn tool(dir: &Path, args: &[OsString], input: Option<&[u8]>) -> Output {
    let mut c = Command::new(cli());
    c.args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    match input {
        None => c.stdin(Stdio::null()),
        Some(_) => c.stdin(Stdio::piped()),
    };
    let mut child = c.spawn().expect("the command line tool was not built");
    if let (Some(bytes), Some(mut to)) = (input, child.stdin.take()) {
        // (it may end without reading them)
        to.write_all(bytes).ok();
    }
    child
        .wait_with_output()
        .expect("the command line tool runs")
}

fn c17(ctx: &mut Ctx) -> Check {
    let dir = Scratch::new("cli");
    let d = &dir.0;
    let write = |name: &str, b: &[u8]| fs::write(d.join(name), b).expect("scratch file");
    let judge_os = |ctx: &mut Ctx,
                    args: &[OsString],
                    want: Option<bool>,
                    what: &dyn Fn() -> String|
     -> Check {
        let o = tool(d, args, None);
        let Some(code) = o.status.code() else {
            return Err(format!(
                "{}the tool was killed: {} {}",
                what(),
                o.status,
                short(&String::from_utf8_lossy(&o.stderr))
            ));
        };
        ensure!(
            want.is_none_or(|w| (code == 0) == w),
            "{}the tool exited with {code}: {}",
            what(),
            short(&String::from_utf8_lossy(&o.stderr))
        );
        if code != 0 {
            ensure!(
                !o.stderr.is_empty(),
                "{}the tool failed without a word",
                what()
            );
        }
        ctx.st.inc(if code == 0 { "exit_0" } else { "exit_not_0" });
        Ok(())
    };
    let judge = |ctx: &mut Ctx, args: &[&str], want: bool, what: &dyn Fn() -> String| {
        let args: Vec<OsString> = args.iter().map(OsString::from).collect();
        judge_os(ctx, &args, Some(want), what)
    };
    match ctx.idx % 8 {
        0..=4 => {
            let mut s = setup(ctx, true);
            while s.route == Route::Data {
                s = setup(ctx, true);
            }
            let rng = &mut ctx.rng;
            rng.shuffle(&mut s.scripts);
            s.scripts.truncate(5);
            if rng.chance(1, 3) {
                // what editors do to files
                let k = rng.below(s.scripts.len());
                let x = *rng.pick(&[
                    "\n", "\r\n", " ", "\u{1a}", "\0", "\t\n", "\n\n", ";", "\n#\n", "\n//",
                ]);
                let t = format!("{}{x}", s.scripts[k]);
                s.scripts.push(t);
                let x = *rng.pick(FILE_HEADS);
                let t = format!("{x}{}", s.scripts[k]);
                s.scripts.push(t);
                let x = *rng.pick(&["\"", "'", "`", "/*\n*/"]);
                let t = format!("{x}{}{x}", s.scripts[k]);
                s.scripts.push(t);
            }
            let name = |rng: &mut Rng, plain: &str| {
                let mut n: Vec<u8> = match rng.below(6) {
                    0 => b"a b".to_vec(),
                    1 => "gr\u{f6}\u{df}e \u{89c4}".into(),
                    2 => b"x\xff\xfe".to_vec(),
                    3 => b"$IGNORE; *?'\"\\ \n".to_vec(),
                    _ => vec![],
                };
                n.extend(plain.as_bytes());
                OsString::from_vec(n)
            };
            let (mut rname, mut sname) = (name(rng, "rules.txt"), name(rng, "script.txt"));
            // names that mean something else to other tools
            let mut odd = [
                "-",
                "--",
                "-h",
                "--help",
                "-V",
                "--version",
                "-e",
                "@x",
                "~",
                "...",
                "x.gz",
                "%s",
                "$HOME",
                "*",
                "x.rs",
                "null",
                "stdin",
                "0",
                "1",
                "\u{feff}",
                " ",
                "\n",
                "a=b",
                "x:y",
            ];
            rng.shuffle(&mut odd);
            if rng.chance(1, 4) {
                rname = odd[0].into();
            }
            if rng.chance(1, 4) {
                sname = odd[1].into();
                ctx.st.inc("odd_script_names");
            }
            let (rpath, spath) = (d.join(&rname), d.join(&sname));
            let put = |at: &Path, b: &[u8]| fs::write(at, b).expect("scratch file");
            let both = [rname.clone(), sname.clone()];
            put(&rpath, s.rules.as_bytes());
            let rp = RefParser::new(&s.g, &s.a);
            let mut verdicts = vec![];
            for script in &s.scripts {
                let chars: Vec<char> = script.chars().collect();
                let w = rp.walk(&chars);
                verdicts.push(w.result.is_ok());
                put(&spath, script.as_bytes());
                judge_os(ctx, &both, Some(w.result.is_ok()), &|| s.describe(script))?;
                ensure!(
                    fs::read(&spath).ok().as_deref() == Some(script.as_bytes())
                        && fs::read(&rpath).ok().as_deref() == Some(s.rules.as_bytes()),
                    "the tool changed its input files"
                );
                if ctx.rng.chance(1, 4) {
                    // a file need not be a plain one
                    let pipe: OsString = "/dev/stdin".into();
                    let (args, input) = match ctx.rng.below(3) {
                        0 => ([rname.clone(), pipe], Some(script.as_bytes())),
                        1 => ([pipe, sname.clone()], Some(s.rules.as_bytes())),
                        _ => {
                            let link = d.join("link");
                            fs::remove_file(&link).ok();
                            std::os::unix::fs::symlink(&spath, &link).expect("scratch file");
                            ([rname.clone(), "link".into()], None)
                        }
                    };
                    let o = tool(d, &args, input);
                    ensure!(
                        o.status
                            .code()
                            .is_some_and(|c| (c == 0) == w.result.is_ok()),
                        "{}called with {args:?} (/dev/stdin a pipe with the contents, link a link to the script file) the tool ends with {}: {}",
                        s.describe(script),
                        o.status,
                        short(&String::from_utf8_lossy(&o.stderr))
                    );
                    ctx.st.inc("pipes_and_links");
                }
                ctx.st
                    .eval(hash_of(&(&s.rules, script)), !script.is_empty());
                ctx.st
                    .sample(|| format!("{}-> exit 0: {}", s.describe(script), w.result.is_ok()));
            }
            // more arguments than two: the tool may refuse, but not look elsewhere
            if let (Some(good), Some(bad)) = (
                verdicts.iter().position(|x| *x),
                verdicts.iter().position(|x| !*x),
            ) && ctx.rng.chance(1, 2)
            {
                put(&d.join("good"), s.scripts[good].as_bytes());
                put(&spath, s.scripts[bad].as_bytes());
                let mut args = both.to_vec();
                for _ in 0..ctx.rng.range(1, 2) {
                    args.push("good".into());
                }
                let o = tool(d, &args, None);
                ensure!(
                    o.status.code().is_some_and(|c| c != 0),
                    "{}with another argument, a file whose contents are in the language, the tool ends with {}",
                    s.describe(&s.scripts[bad]),
                    o.status
                );
                ctx.st.inc("more_arguments");
            }
            // a rule file with one character too many
            if let Some(good) = verdicts.iter().position(|x| *x)
                && ctx.rng.chance(1, 2)
            {
                let x = *ctx.rng.pick(&[
                    "\u{feff}", "\u{1a}", "\0", "x", "\"", "\u{200b}", "->", ";", "#", "#!x\n",
                    "// x\n", "/* x */", "-- x\n", "%", "---\n", "\\\n", "{}", "<x>", "'",
                ]);
                let rules = if ctx.rng.chance(1, 2) {
                    format!("{x} {}", s.rules)
                } else {
                    format!("{}{x}", s.rules)
                };
                // a letter before a name that begins the text makes two names of it, at the end it is a rule cut short
                put(&rpath, rules.as_bytes());
                put(&spath, s.scripts[good].as_bytes());
                judge_os(ctx, &both, Some(false), &|| {
                    format!("rules that begin or end with {x:?}:\n{}\n", short(&rules))
                })?;
                ctx.st.inc("rules_with_too_much");
            }
        }
        5 | 6 => {
            // rule files that may define no LL(1) grammar
            let g = any_grammar(ctx, true);
            let lay = layout(&mut ctx.rng);
            let rules = render(&g, lay, &mut ctx.rng).text;
            let bad_ignore = (0..g.nts.len())
                .any(|i| g.nts[i].defined && g.ignore_of(i).is_some_and(|x| !g.nts[x].defined));
            let w = g.woven();
            let a = analyse(&w);
            write("rules.txt", rules.as_bytes());
            let good = a.ll1() && !bad_ignore;
            let script = {
                let h = heights(&w);
                if good {
                    sentence(&w, &h, &mut ctx.rng, 10)
                } else {
                    Some(String::new())
                }
            };
            let Some(script) = script else {
                return Ok(());
            };
            write("script.txt", script.as_bytes());
            judge(ctx, &["rules.txt", "script.txt"], good, &|| {
                format!("rules:\n{}\nscript {script:?}\n", short(&rules))
            })?;
            ctx.st.inc(if good { "rules_good" } else { "rules_bad" });
            ctx.st.eval(hash_of(&rules), true);
        }
        _ => {
            // calls that cannot work
            let mut g = ll1_grammar(&mut ctx.rng);
            if ctx.rng.chance(1, 2) {
                g = Gram {
                    nts: vec![Gram::nt("start", vec![vec![Sym::T("a".into())], vec![]])],
                    start: 0,
                };
            }
            let rules = render(&g, Layout::Plain, &mut ctx.rng).text;
            let script = sentence(&g, &heights(&g), &mut ctx.rng, 5).unwrap_or_default();
            write("rules.txt", rules.as_bytes());
            write("script.txt", script.as_bytes());
            write("empty.txt", b"");
            let mut bad = script.clone().into_bytes();
            let at = ctx.rng.below(bad.len() + 1);
            bad.insert(at, *ctx.rng.pick(&[0xff, 0xc0, 0xfe, 0x80]));
            write("bad_script.txt", &bad);
            let mut bad = rules.clone().into_bytes();
            let at = ctx.rng.below(bad.len() + 1);
            bad.insert(at, 0xff);
            write("bad_rules.txt", &bad);
            let what = |m: &'static str| move || format!("{m}: ");
            judge(ctx, &[], false, &what("no arguments"))?;
            judge(ctx, &["rules.txt"], false, &what("one argument"))?;
            judge(
                ctx,
                &["rules.txt", "none.txt"],
                false,
                &what("no script file"),
            )?;
            judge(
                ctx,
                &["none.txt", "script.txt"],
                false,
                &what("no rule file"),
            )?;
            judge(
                ctx,
                &["empty.txt", "script.txt"],
                false,
                &what("empty rule file"),
            )?;
            judge(ctx, &["rules.txt", "."], false, &what("a folder as script"))?;
            judge(
                ctx,
                &["rules.txt", "bad_script.txt"],
                false,
                &what("a script that is not UTF-8"),
            )?;
            judge(
                ctx,
                &["bad_rules.txt", "script.txt"],
                false,
                &what("rules that are not UTF-8"),
            )?;
            // text in which the wrong bytes would read as one of the grammar's characters
            let c = *ctx
                .rng
                .pick(&['\u{fffd}', '?', '\u{e9}', '\u{20ac}', '\u{ff}']);
            let old = script
                .chars()
                .nth(ctx.rng.below(script.chars().count().max(1)));
            let (mut g2, mut script2) = (g.clone(), script.clone());
            // (a backslash and the quote it hides belong together)
            if let Some(old) = old.filter(|c| !matches!(c, '\\' | '"')) {
                for t in g2.nts.iter_mut().flat_map(|n| &mut n.alts).flatten() {
                    if let Sym::T(t) = t {
                        *t = t.replace(old, &c.to_string());
                    }
                }
                script2 = script2.replace(old, &c.to_string());
            }
            let rules2 = render(&g2, Layout::Plain, &mut ctx.rng).text;
            if script2.contains(c) && !script.contains(c) && !rules.contains(c) {
                let swap = |text: &str, by: &[u8]| {
                    let mut out = vec![];
                    for (i, part) in text.split(c).enumerate() {
                        if i > 0 {
                            out.extend(by);
                        }
                        out.extend(part.as_bytes());
                    }
                    out
                };
                let wrong: &[u8] = match c {
                    '\u{e9}' => b"\xe9",
                    '\u{20ac}' => b"\x80",
                    '\u{ff}' => b"\xff",
                    _ => *ctx.rng.pick(&[
                        &b"\xff"[..],
                        b"\x80",
                        b"\xc3",
                        b"\xed\xa0\x80",
                        b"\xf4\x90\x80\x80",
                        b"\xc0\x80",
                    ]),
                };
                write("rules2.txt", rules2.as_bytes());
                write("script2.txt", script2.as_bytes());
                write("wrong_script.txt", &swap(&script2, wrong));
                write("wrong_rules.txt", &swap(&rules2, wrong));
                let what = |m: &'static str| {
                    let t =
                        format!("{m}, {c:?} as {wrong:?}, rules:\n{rules2}\nscript {script2:?}\n");
                    move || short(&t)
                };
                judge(
                    ctx,
                    &["rules2.txt", "script2.txt"],
                    true,
                    &what("as it should be"),
                )?;
                judge(
                    ctx,
                    &["rules2.txt", "wrong_script.txt"],
                    false,
                    &what("a script in another encoding"),
                )?;
                judge(
                    ctx,
                    &["wrong_rules.txt", "script2.txt"],
                    false,
                    &what("rules in another encoding"),
                )?;
                let wide = |t: &str| -> Vec<u8> {
                    [0xfeff]
                        .into_iter()
                        .chain(t.encode_utf16())
                        .flat_map(u16::to_le_bytes)
                        .collect()
                };
                write("wide_script.txt", &wide(&script2));
                write("wide_rules.txt", &wide(&rules2));
                judge(
                    ctx,
                    &["rules2.txt", "wide_script.txt"],
                    false,
                    &what("a script in UTF-16"),
                )?;
                judge(
                    ctx,
                    &["wide_rules.txt", "script2.txt"],
                    false,
                    &what("rules in UTF-16"),
                )?;
                ctx.st.inc("other_encodings");
            }
            let abs = d.join("rules.txt");
            judge(
                ctx,
                &[abs.to_str().unwrap(), "script.txt"],
                true,
                &what("a call that works"),
            )?;
            ctx.st.inc("impossible_calls");
            ctx.st.eval(hash_of(&(rules, script, at)), true);
        }
    }
    Ok(())
}

/// The examples of the repository.
fn c17_examples(x: &mut Extra) {
    for (name, out) in [
        ("stack_based_math", "2\nok\n"),
        ("simple_stack_based_math", "2\nok\n"),
        ("rust_defined_rules", "2\nParsing successful!\nok\n"),
    ] {
        let exe = verif_dir().join("target/cli/debug/examples").join(name);
        match Command::new(&exe)
            .current_dir("/repo")
            .stdin(Stdio::null())
            .output()
        {
            Err(e) => x.errors.push(format!("{}: {e}", exe.display())),
            Ok(o) => {
                let s = String::from_utf8_lossy(&o.stdout);
                if !o.status.success() || s != out {
                    x.violation(
                        name,
                        format!(
                            "the example {name} printed {s:?} instead of {out:?} and ended with {}: {}",
                            o.status,
                            short(&String::from_utf8_lossy(&o.stderr))
                        ),
                    );
                }
                x.st.inc("examples_run");
                x.st.eval(hash_of(name), true);
            }
        }
    }
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "One case writes a rule file and scripts into a scratch folder and runs the built command line tool on them: LL(1) grammars with sentences and near misses, grammars that are not LL(1) or incomplete, rule files with a character too many, missing, unreadable and non-UTF-8 files (also such as a lenient decoder would take for the text), files of all sorts of names, pipes and links, missing and further arguments. The exit status must be 0 exactly when the reference says that the whole script is derived. At the end the repository's examples run and must print what their comments promise. One evaluation is one run with a rule file and a script; distinct by file contents.",
    assumptions: &[
        "a failure is a non-zero exit status with something on standard error, not a signal",
        "files contain exactly the script: a final line break belongs to it",
    ],
    quick: 6_000,
    thorough: 60_000,
    run: c17,
    stack_mb: 256,
    floor: &[
        ("exit_0", 500),
        ("exit_not_0", 1000),
        ("rules_bad", 50),
        ("impossible_calls", 80),
        ("more_arguments", 100),
        ("rules_with_too_much", 150),
        ("pipes_and_links", 200),
        ("other_encodings", 15),
    ],
    extra: Some(c17_examples),
    giants: 64,
    dev: (0, 0),
};

// ---------------------------------------------------------------- C20

/// A VM that panics at one of the actions of a script.
struct GivesUp {
    at: usize,
    times: std::cell::Cell<u64>,
}

const GAVE_UP: &str = "the VM gives up";

impl VM for GivesUp {
    type Tstate = usize;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(
        &'a self,
        _: &str,
        to_parse: &mut ParseProcess<T>,
    ) -> Result<Vec<String>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut v = vec![String::new()];
        while let Some(c) = to_parse.next() {
            v[0].push(c);
        }
        Ok(v)
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &String, n: &mut usize) {
        if *n == self.at {
            self.times.set(self.times.get() + 1);
            panic!("{GAVE_UP}");
        }
        *n += 1;
    }
    fn create_new_state() -> usize {
        0
    }
}

/// Builds a parser, runs the scripts `rounds` times, and reports the heap use after each round.
fn rounds<V: VM>(
    rules: &str,
    vm: &V,
    scripts: &[String],
    rounds: usize,
) -> Result<Vec<i64>, String> {
    let mut used = Vec::with_capacity(rounds);
    let mut p = text_parser(rules, vm).map_err(|e| format!("no parser could be built: {e:?}"))?;
    for _ in 0..rounds {
        for s in scripts {
            let mut st = V::create_new_state();
            match lib(|| p.parse(s, &mut st).map(drop).map_err(drop)) {
                Err(m) if !m.starts_with(GAVE_UP) => {
                    return Err(format!("script {s:?}: the parse panicked: {m}"));
                }
                _ => {}
            }
        }
        used.push(heap().live);
    }
    drop(p);
    Ok(used)
}

fn kept_vm<V: VM>(rules: &str, vm: &V, scripts: &[String], what: &str, st: &mut Stats) -> Check {
    // once for whatever is set up on first use
    let _ = rounds(rules, vm, scripts, 1)?;
    let before = heap();
    let used = rounds(rules, vm, scripts, 6)?;
    let last = *used.last().unwrap();
    let grown = used[5] - used[1];
    let n = scripts.len();
    drop(used);
    let after = heap();
    ensure!(
        grown <= 0,
        "{what}the parser keeps {grown} bytes more after {n} scripts were run four more times"
    );
    ensure!(
        after.live == before.live && after.blocks == before.blocks,
        "{what}{} bytes in {} blocks remain after the parser is gone",
        after.live - before.live,
        after.blocks - before.blocks
    );
    st.add("parses_watched", 7 * n as u64);
    st.max("parser_bytes", (last - before.live).max(0) as u64);
    st.inc("parsers_dropped");
    Ok(())
}

fn c20(ctx: &mut Ctx) -> Check {
    match ctx.idx % 4 {
        0 | 1 => {
            let acts = ctx.idx % 8 >= 4;
            let mut s = setup(ctx, acts);
            while s.route == Route::Data || s.scripts.is_empty() {
                s = setup(ctx, acts);
            }
            s.scripts.truncate(if s.big { 3 } else { 10 });
            let what = s.describe(&s.scripts[0]);
            if !acts {
                kept_vm(&s.rules, &NullVm::new(), &s.scripts, &what, &mut ctx.st)?;
            } else {
                kept_vm(&s.rules, &CountingVm {}, &s.scripts, &what, &mut ctx.st)?;
                let vm = GivesUp {
                    at: ctx.rng.below(6),
                    times: std::cell::Cell::new(0),
                };
                let what = format!("{what}the VM panics at action {}\n", vm.at);
                kept_vm(&s.rules, &vm, &s.scripts, &what, &mut ctx.st)?;
                ctx.st.add("parses_given_up", vm.times.get());
            }
            ctx.st.eval(hash_of(&(&s.rules, &s.scripts)), true);
            ctx.st.sample(|| what.clone());
        }
        2 => {
            // the shipped machines, and grammars that are rejected
            let rng = &mut ctx.rng;
            let words = ["1", "22", "+", "-", "print", "333", "x", ""];
            let scripts: Vec<String> = (0..6)
                .map(|_| {
                    let k = rng.range(1, 12);
                    let v: Vec<&str> = (0..k).map(|_| *rng.pick(&words)).collect();
                    v.join(" ")
                })
                .collect();
            let what = format!("the example grammar, scripts {scripts:?}\n");
            kept_vm(
                include_str!("../../grammars/stack_based_math.txt"),
                &StackVm {},
                &scripts,
                &what,
                &mut ctx.st,
            )?;
            kept_vm(
                include_str!("../../grammars/simple_stack_based_math.txt"),
                &SimpleStackVm {},
                &scripts,
                &what,
                &mut ctx.st,
            )?;
            ctx.st.eval(hash_of(&scripts), true);
            for _ in 0..4 {
                let g = any_grammar(ctx, true);
                let mut rules = render(&g, Layout::Plain, &mut ctx.rng).text;
                if ctx.rng.chance(1, 3) {
                    rules = mutate(&mut ctx.rng, &rules, &[';', '"', '|', '{', '}', '\\', '$']);
                }
                let vm = NullVm::new();
                let build = || {
                    let _ = read_rules(&rules, &vm).map(|d| stages(d, None).map(drop));
                };
                build();
                let before = heap();
                build();
                let after = heap();
                ensure!(
                    before.live == after.live && before.blocks == after.blocks,
                    "rules:\n{}\n{} bytes remain of reading and analysing them",
                    short(&rules),
                    after.live - before.live
                );
                ctx.st.inc("grammars_watched");
                ctx.st.eval(hash_of(&rules), true);
            }
        }
        _ => {
            // trees: what was removed is made room of again, and nothing outlives the tree
            let rng = &mut ctx.rng;
            let k = rng.range(1, 40);
            let depth = rng.range(1, 6);
            let before = heap();
            {
                let mut t: Tree<String> = Tree::new();
                let root = t.add_node("r".into(), None).map_err(|e| format!("{e}"))?;
                let mut sizes = Vec::with_capacity(12);
                for round in 0..12 {
                    let mut made = vec![root];
                    for i in 0..k {
                        let p = if i % depth == 0 {
                            root
                        } else {
                            *made.last().unwrap()
                        };
                        made.push(
                            t.add_node("x".into(), Some(p))
                                .map_err(|e| format!("{e}"))?,
                        );
                    }
                    for kid in t.get_children(root) {
                        t.remove_branch(kid).map_err(|e| format!("{e}"))?;
                    }
                    drop(made);
                    sizes.push((round, heap().live));
                }
                let (first, last) = (sizes[3].1, sizes[11].1);
                ensure!(
                    last <= first,
                    "{k} nodes are added below a root and removed again, 12 times: {} bytes more after 12 than after 4 rounds",
                    last - first
                );
            }
            let after = heap();
            ensure!(
                before.live == after.live,
                "{} bytes outlive a tree",
                after.live - before.live
            );
            ctx.st.inc("trees_watched");
            ctx.st.eval(hash_of(&(k, depth, ctx.idx)), true);
        }
    }
    let _ = PeekableWrapper::from_str("");
    Ok(())
}

/// The same cases under AddressSanitizer, and a small workload under Miri.
fn c20_sanitizers(x: &mut Extra) {
    let v = verif_dir();
    let run = |name: &str, x: &mut Extra| {
        let o = Command::new("bash")
            .arg(v.join("sanitize.sh"))
            .arg(name)
            .arg(if x.tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            })
            .arg(x.seed.to_string())
            .stdin(Stdio::null())
            .output();
        let o = match o {
            Ok(o) => o,
            Err(e) => {
                x.errors.push(format!("{name}: {e}"));
                return;
            }
        };
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        for l in out.lines() {
            if let Some(r) = l.strip_prefix("count ") {
                let (k, n) = r.rsplit_once(' ').unwrap_or((r, "0"));
                x.st.add(&format!("{name}_{k}"), n.parse().unwrap_or(0));
            }
        }
        match o.status.code() {
            Some(0) => {}
            Some(1) => x.violation(
                name,
                format!("{name} reports: {}", short(&format!("{out}\n{err}"))),
            ),
            c => x.errors.push(format!(
                "{name} gave no answer ({c:?}): {}",
                short(&format!("{out}\n{err}"))
            )),
        }
    };
    run("asan", x);
    run("miri", x);
}

pub const C20: Prop = Prop {
    id: "C20",
    rule: "A counting allocator watches cases of four kinds: parsers of random grammars with recording-free VMs, the shipped machines, rule texts that are rejected, and trees that grow and are pruned. Running the same scripts again must not raise the heap use, and after everything is dropped exactly the bytes and blocks from before are in use. Then the harness, rebuilt with AddressSanitizer, repeats cases of C01, C12, C13, C15 and C16, and Miri interprets a small workload with threads. One evaluation is one watched parser, grammar or tree; distinct by its input.",
    assumptions: &[
        "leaks are judged for whole lifetimes of parsers and trees; memory of panicking constructors is not judged",
        "what only appears in a run without AddressSanitizer or Miri is found through the bytes in use only",
    ],
    quick: 16_000,
    thorough: 400_000,
    run: c20,
    stack_mb: 512,
    floor: &[
        ("parses_watched", 5000),
        ("parsers_dropped", 300),
        ("parses_given_up", 100),
        ("grammars_watched", 300),
        ("trees_watched", 200),
    ],
    extra: Some(c20_sanitizers),
    giants: 0,
    dev: (0, 0),
};

/// What Miri interprets: everything once, small.
pub fn miri_workload(seed: u64, n: u64) -> Result<u64, String> {
    let mut evals = 0;
    // interpreted code is slow: the smallest grammars, with the answers written down
    const TINY: &[(&str, &[(&str, bool)])] = &[
        (
            "start -> l {x}; l -> \"ab\" l | # {};",
            &[("", true), ("abab", true), ("aba", false), ("é", false)],
        ),
        (
            "start -> \"(\" start \")\" | \"x\";",
            &[("((x))", true), ("((x)", false), ("x)", false)],
        ),
        (
            "$IGNORE: ws; start -> \"a\" \"é\"; ws ->$[IGNORE:#] \" \" ws | #;",
            &[("a  é", true), ("aé", true), ("a e", false)],
        ),
    ];
    for (text, scripts) in TINY {
        let vm = CountingVm {};
        let r: Vec<Check> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..2)
                .map(|_| {
                    let vm = &vm;
                    sc.spawn(move || -> Check {
                        let mut p = text_parser(text, vm).map_err(|e| format!("{e:?}"))?;
                        let mut st = CountingVm::create_new_state();
                        for (s, ok) in *scripts {
                            let o = parse(&mut p, s, &mut st);
                            ensure!(o.is_ok() == *ok, "{text} on {s:?}: {}", o.short());
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err("panic".into())))
                .collect()
        });
        for x in r {
            x?;
            evals += scripts.len() as u64;
        }
        // one tree, two readers
        let mut p = text_parser(text, &vm).map_err(|e| format!("{e:?}"))?;
        let mut st = CountingVm::create_new_state();
        let tree = p
            .parse(scripts[0].0, &mut st)
            .map_err(|e| format!("{e:?}"))?;
        let shapes: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..2).map(|_| sc.spawn(|| shape_of(&tree, ROOT))).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        ensure!(
            matches!((&shapes[0], &shapes[1]), (Ok(Ok(a)), Ok(Ok(b))) if a == b),
            "{text}: two threads read different trees"
        );
        evals += 2;
    }
    let t0 = Instant::now();
    for idx in 0..n {
        for p in crate::props::ALL
            .iter()
            .filter(|p| ["C10", "C12", "C13", "C18"].contains(&p.id))
        {
            if t0.elapsed().as_secs() > 15 * n {
                continue;
            }
            // (the first cases of some are long sweeps)
            let idx = idx + 1_000_000;
            let mut ctx = Ctx {
                rng: Rng::new(seed, p.id, idx),
                st: Stats::default(),
                tier: Tier::Quick,
                seed,
                idx,
            };
            (p.run)(&mut ctx).map_err(|m| format!("{} case {idx}: {m}", p.id))?;
            evals += ctx.st.evals;
        }
    }
    Ok(evals)
}

// ---------------------------------------------------------------- C22

/// Scripts of any length: head, repeated, middle, repeated, tail.
const LINEAR: &[(&str, &str, [&str; 5])] = &[
    (
        "list",
        "start -> l; l -> \"a\" l | #;",
        ["", "a", "", "", ""],
    ),
    (
        "nest",
        "start -> \"(\" start \")\" | \"x\";",
        ["", "(", "x", ")", ""],
    ),
    (
        "words",
        "start -> w r; r -> \" \" w r | #; w -> \"a\" w1 | \"key\" ; w1 -> \"b\" w1 | \"c\" w1 | #;",
        ["key", " abc key", "", "", ""],
    ),
    (
        "unicode",
        "start -> \"漢字\" start | \"é\" start | #;",
        ["", "漢字é", "", "", ""],
    ),
    (
        "nullable",
        "start -> a b c start | \".\"; a -> \"a\" | #; b -> \"b\" | #; c -> \"c\";",
        ["", "cabc", ".", "", ""],
    ),
    (
        "expression",
        "start -> e; e -> t es; es -> \"+\" t es | #; t -> f ts; ts -> \"*\" f ts | #; f -> \"(\" e \")\" | \"1\";",
        ["1", "+1*1", "", "", ""],
    ),
    (
        "flat",
        "start -> \"x\" t; t -> k t | #; k -> \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\";",
        [
            "x",
            "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
            "",
            "",
            "",
        ],
    ),
    (
        "ignored",
        "$IGNORE: ws; start -> \"b\" list \"e\"; list -> \"i\" list | \";\"; ws ->$[IGNORE:#] \" \" ws | #;",
        ["b ", "i  ", ";", " ", "e"],
    ),
];

/// Processor time of this thread in seconds.
pub fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

struct Cost {
    calls: u64,
    bytes: u64,
    peak: i64,
    cpu: f64,
}

/// What a parse costs that is to succeed, or to fail.
fn cost<V: VM>(
    p: &mut Parser<'static, V>,
    script: &'static str,
    times: usize,
    good: bool,
) -> Result<Cost, String> {
    let mut best = f64::MAX;
    let mut c = Cost {
        calls: 0,
        bytes: 0,
        peak: 0,
        cpu: 0.0,
    };
    for _ in 0..times {
        let mut st = V::create_new_state();
        let h0 = heap();
        reset_peak();
        let t0 = thread_cpu();
        let r = lib(|| p.parse(script, &mut st).map(drop))?;
        best = best.min(thread_cpu() - t0);
        let h1 = heap();
        match (r, good) {
            (Err(e), true) => return Err(short(&format!("{e:?}"))),
            (Ok(()), false) => return Err(format!("accepted {}", short(script))),
            _ => {}
        }
        c.calls = h1.calls - h0.calls;
        c.bytes = h1.bytes - h0.bytes;
        c.peak = reset_peak() - h0.live;
    }
    c.cpu = best;
    Ok(c)
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Rejecting a script takes no more than accepting one of its length.
fn dear<V: VM>(
    ctx: &mut Ctx,
    p: &mut Parser<'static, V>,
    good: &'static str,
    accept: &Cost,
    bad: &'static str,
) -> Check {
    let c = cost(p, bad, 1, false)?;
    ensure!(
        c.calls <= 2 * accept.calls + 1000,
        "{} allocations to reject, {} to accept",
        c.calls,
        accept.calls
    );
    ensure!(
        c.bytes <= 3 * accept.bytes + 100_000,
        "{} bytes asked for to reject, {} to accept",
        c.bytes,
        accept.bytes
    );
    ensure!(
        c.peak <= 3 * accept.peak + 100_000,
        "{} bytes at once to reject, {} to accept",
        c.peak,
        accept.peak
    );
    let (mut x, mut y) = (c.cpu, accept.cpu);
    let mut again = 0;
    while x > 6.0 * y.max(2e-4) && again < 6 {
        again += 1;
        ctx.st.inc("times_measured_again");
        std::thread::sleep(std::time::Duration::from_millis(200 * again));
        x = x.min(cost(p, bad, 2, false)?.cpu);
        y = y.max(cost(p, good, 2, true)?.cpu);
    }
    ensure!(
        x <= 6.0 * y.max(2e-4),
        "{x:.4} s to reject, {y:.4} s to accept, measured {again} times again"
    );
    ctx.st.inc("rejections_compared");
    Ok(())
}

/// Sentences of any grammar, of which one has a much larger derivation than the other.
fn any_lengths(ctx: &mut Ctx) -> Check {
    let s = setup(ctx, true);
    let vm: &'static CountingVm = &CountingVm {};
    let h = heights(&s.g);
    let rp = RefParser::new(&s.g, &s.a);
    // what is done for a derivation: its nodes, their names and the characters read
    let effort = |script: &str| -> usize {
        let chars: Vec<char> = script.chars().collect();
        let w = rp.walk(&chars);
        let names: usize = (0..s.g.nts.len())
            .map(|i| w.per_rule[i] * (20 + s.g.nts[i].name.len() / 8))
            .sum();
        names + w.nodes * 20 + script.len() / 4
    };
    let mut ends: Vec<(usize, String)> = vec![];
    for budget in [300, 300, 300, 20_000, 20_000, 20_000] {
        if let Some(t) = sentence(&s.g, &h, &mut ctx.rng, budget) {
            ends.push((effort(&t), t));
        }
    }
    ends.sort();
    let small = ends.iter().find(|x| x.0 >= 2000).cloned();
    let (Some((x, small)), Some((y, large))) = (small, ends.pop()) else {
        ctx.st.inc("no_lengths");
        return Ok(());
    };
    if y < 16 * x {
        ctx.st.inc("no_lengths");
        return Ok(());
    }
    let (small, large) = (leak(small), leak(large));
    let mut p = match s.route {
        Route::Text => text_parser(&s.rules, vm),
        Route::Staged => staged_parser(&s.rules, vm),
        Route::Data => {
            let (d, ix) = build_data(&s.g, &mut ctx.rng, |_, _| vec![])?;
            let start = ix[s.g.start];
            data_parser(d, start, vm)
        }
    }
    .map_err(|e| format!("{}{e:?}", s.describe("")))?;
    let fail = |m: String| {
        format!(
            "{}derivations of sizes {x} and {y}: {m}\nthe larger begins with {}",
            s.describe(small),
            short(large)
        )
    };
    let a = cost(&mut p, small, 3, true).map_err(fail)?;
    let b = cost(&mut p, large, 2, true).map_err(fail)?;
    let times = y as f64 / x as f64;
    let grows = |u: f64, v: f64, free: f64| (v - free).max(0.0) / u.max(1.0) / times;
    let (calls, bytes, peak) = (
        grows(a.calls as f64, b.calls as f64, 1000.0),
        grows(a.bytes as f64, b.bytes as f64, 1e5),
        grows(a.peak as f64, b.peak as f64, 1e5),
    );
    ctx.st
        .max("any_allocations_growth_percent", (calls * 100.0) as u64);
    ctx.st
        .max("any_bytes_growth_percent", (bytes * 100.0) as u64);
    ctx.st.max("any_peak_growth_percent", (peak * 100.0) as u64);
    ensure!(
        calls <= 5.0,
        "{}",
        fail(format!("{} and {} allocations", a.calls, b.calls))
    );
    ensure!(
        bytes <= 8.0,
        "{}",
        fail(format!("{} and {} bytes asked for", a.bytes, b.bytes))
    );
    ensure!(
        peak <= 8.0,
        "{}",
        fail(format!("{} and {} bytes at once", a.peak, b.peak))
    );
    let (mut u, mut v) = (a.cpu.max(2e-5), b.cpu);
    let mut again = 0;
    while v > 8.0 * times * u && again < 6 {
        again += 1;
        ctx.st.inc("times_measured_again");
        std::thread::sleep(std::time::Duration::from_millis(200 * again));
        u = u.max(cost(&mut p, small, 5, true).map_err(fail)?.cpu);
        v = v.min(cost(&mut p, large, 3, true).map_err(fail)?.cpu);
    }
    ensure!(
        v <= 8.0 * times * u,
        "{}",
        fail(format!(
            "{u:.6} s and {v:.6} s, measured {again} times again"
        ))
    );
    ctx.st
        .max("any_time_growth_percent", (v / u / times * 100.0) as u64);
    ctx.st.inc("pairs_of_any_grammar");
    ctx.st
        .add("chars_parsed", (small.len() * 3 + large.len() * 2) as u64);
    ctx.st.eval(hash_of(&(&s.rules, small, large)), true);
    // rejected
    let cut: String = large.chars().take(large.chars().count() - 1).collect();
    for bad in [cut, format!("{large}\u{1}")] {
        let chars: Vec<char> = bad.chars().collect();
        if rp.walk(&chars).result.is_err() {
            dear(ctx, &mut p, large, &b, leak(bad)).map_err(fail)?;
        }
    }
    Ok(())
}

fn c22(ctx: &mut Ctx) -> Check {
    if ctx.idx % 4 != 0 {
        return any_lengths(ctx);
    }
    ctx.idx /= 4;
    let (name, rules, parts) = LINEAR[ctx.idx as usize % LINEAR.len()];
    let unit = parts[1].chars().count() + parts[3].chars().count();
    let n = ctx.rng.range(20_000, 24_000) / unit;
    let make = |k: usize| -> &'static str {
        Box::leak(
            format!(
                "{}{}{}{}{}",
                parts[0],
                parts[1].repeat(k),
                parts[2],
                parts[3].repeat(k),
                parts[4]
            )
            .into_boxed_str(),
        )
    };
    let mut rules: &'static str = rules;
    let mut acting = false;
    if ctx.idx as usize / LINEAR.len() % 2 == 1 {
        // an action for every rule
        let t = rules
            .replace(';', " {x};")
            .replace("$IGNORE: ws {x};", "$IGNORE: ws;")
            .replace("\" {x};\"", "\";\"");
        rules = Box::leak(t.into_boxed_str());
        acting = true;
        ctx.st.inc("pairs_with_actions");
    }
    let vm: &'static CountingVm = &CountingVm {};
    let mut p = text_parser(rules, vm).map_err(|e| format!("{rules}\n{e:?}"))?;
    let (s1, s8) = (make(n), make(8 * n));
    let fail = |m: String| {
        format!(
            "grammar {name}: {rules}\nscripts of {} and {} chars: {m}",
            s1.chars().count(),
            s8.chars().count()
        )
    };
    let a = cost(&mut p, s1, 3, true).map_err(fail)?;
    let b = cost(&mut p, s8, 2, true).map_err(fail)?;
    // eight times the script: 64 times the effort if that were quadratic
    ensure!(
        b.calls <= 12 * a.calls + 1000,
        "{}",
        fail(format!("{} and {} allocations", a.calls, b.calls))
    );
    ensure!(
        b.bytes <= 24 * a.bytes + 100_000,
        "{}",
        fail(format!("{} and {} bytes asked for", a.bytes, b.bytes))
    );
    ensure!(
        b.peak <= 24 * a.peak + 100_000,
        "{}",
        fail(format!("{} and {} bytes at once", a.peak, b.peak))
    );
    let mut ratio = b.cpu / a.cpu.max(1e-6);
    let mut again = 0;
    while ratio > 28.0 && again < 6 {
        // a busy machine is no proof
        again += 1;
        ctx.st.inc("times_measured_again");
        std::thread::sleep(std::time::Duration::from_millis(200 * again));
        let a = cost(&mut p, s1, 5, true).map_err(fail)?;
        let b = cost(&mut p, s8, 3, true).map_err(fail)?;
        ratio = ratio.min(b.cpu / a.cpu.max(1e-6));
    }
    ensure!(
        ratio <= 28.0,
        "{}",
        fail(format!(
            "the second takes {ratio:.1} times as long, measured {again} times again"
        ))
    );
    ctx.st.max("time_ratio_percent", (ratio * 100.0) as u64);
    ctx.st
        .max("allocation_ratio_percent", b.calls * 100 / a.calls.max(1));
    ctx.st.max("script_chars", s8.chars().count() as u64);
    ctx.st
        .add("chars_parsed", (s1.len() * 3 + s8.len() * 2) as u64);
    ctx.st.eval(hash_of(&(name, n, acting)), true);
    ctx.st.sample(|| {
        format!(
            "{name}: {} chars: {} allocations, {:.1} ms; {} chars: {} allocations, {:.1} ms",
            s1.chars().count(),
            a.calls,
            a.cpu * 1e3,
            s8.chars().count(),
            b.calls,
            b.cpu * 1e3
        )
    });
    // failures cost no more than successes
    let half = s8.chars().count() / 2;
    let (front, back): (String, String) = (
        s8.chars().take(half).collect(),
        s8.chars().skip(half).collect(),
    );
    for (what, bad) in [
        ("at its end", format!("{s8}\u{1}")),
        ("in its middle", format!("{front}\u{1}{back}")),
        ("in its middle, where it ends", format!("{front}\u{1}")),
        ("at its start", format!("\u{1}{s8}")),
    ] {
        dear(ctx, &mut p, s8, &b, leak(bad)).map_err(|m| {
            fail(format!(
                "rejecting the second with a control character {what}: {m}"
            ))
        })?;
    }
    // and a script that is much longer
    if ctx.idx as usize / LINEAR.len() % 8 == 0 {
        let s64 = make(64 * n);
        let far = |b: &Cost, c: &Cost| {
            let m = if c.calls > 12 * b.calls + 1000 {
                format!("{} and {} allocations", b.calls, c.calls)
            } else if c.bytes > 24 * b.bytes {
                format!("{} and {} bytes asked for", b.bytes, c.bytes)
            } else if c.peak > 24 * b.peak {
                format!("{} and {} bytes at once", b.peak, c.peak)
            } else if c.cpu > 28.0 * b.cpu {
                format!("{:.4} s and {:.4} s", b.cpu, c.cpu)
            } else {
                return None;
            };
            Some(format!("{m} for eight and 64 times the first"))
        };
        let mut tries = 0;
        while let Some(m) = far(
            &cost(&mut p, s8, 2, true).map_err(fail)?,
            &cost(&mut p, s64, 1, true).map_err(fail)?,
        ) {
            tries += 1;
            ctx.st.inc("times_measured_again");
            ensure!(tries < 5, "{}", fail(m));
            std::thread::sleep(std::time::Duration::from_millis(300 * tries));
        }
        ctx.st.inc("much_longer_scripts");
        ctx.st.max("script_chars", s64.chars().count() as u64);
    }
    let _: Option<RuleParser<'_, '_, NullVm>> = None;
    Ok(())
}

pub const C22: Prop = Prop {
    id: "C22",
    rule: "A quarter of the cases take one of eight grammars whose sentences can be pumped, with an action at every rule in half of the cases, and a length around 20,000 characters, and compares a sentence of that length with one eight times as long: allocator calls and bytes, peak heap use and processor time of the parse must grow about eightfold (limits 12, 24, 24 and 28; quadratic growth would be 64), the time only after up to six repeated measurements; some are also compared at 8 and 64 times the length. The others take a random grammar and two of its sentences, one with a derivation at least 16 times as large as the other: the cost of a node must not grow (limits 5 for calls, 8 for the others). Scripts rejected at their start, in the middle and at the end may cost little more than accepted ones. One evaluation is one pair of lengths; distinct by (grammar, actions, length).",
    assumptions: &[
        "processor time is the least of several runs on a machine that may be busy",
        "actions do not prune the tree",
    ],
    quick: 512,
    thorough: 8000,
    run: c22,
    stack_mb: 64,
    floor: &[
        ("chars_parsed", 1000),
        ("pairs_of_any_grammar", 150),
        ("rejections_compared", 700),
        ("much_longer_scripts", 10),
    ],
    extra: None,
    giants: 0,
    dev: (0, 0),
};
