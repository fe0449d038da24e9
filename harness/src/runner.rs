//! Parent and worker processes, evidence, violations, replay.
use crate::util::*;
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    /// What one case is, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Check,
    /// Stack of the thread that runs the cases, in MB.
    pub stack_mb: usize,
    /// Counters that must reach these values in every run, per 1000 cases: otherwise the monitors
    /// saw too little and the run is an error of the check.
    pub floor: &'static [(&'static str, u64)],
    /// Extra work of the parent, after the cases.
    pub extra: Option<fn(&mut Extra)>,
    /// Cases in which one dimension of the input is blown up (quick; eight times as many thorough).
    pub giants: u64,
    /// Ordinary cases and giants that are run by an unoptimised build, too (quick; eight times as
    /// many thorough).
    pub dev: (u64, u64),
}

/// Case numbers from here on are giants.
pub const GIANT: u64 = 1 << 40;
/// This bit marks cases of the unoptimised build.
pub const DEV: u64 = 1 << 41;

/// What the parent's extra work reports.
pub struct Extra {
    pub st: Stats,
    pub tier: Tier,
    pub seed: u64,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
    pub errors: Vec<String>,
    pub findings: Vec<String>,
}

impl Extra {
    /// A violation outside the numbered cases; `key` names the replay.
    pub fn violation(&mut self, key: &str, msg: String) {
        self.violations.push((key.to_string(), msg));
    }
}

impl Extra {
    /// Runs `harness sub ARGS` in a process of its own; Err(how it died).
    pub fn sub(&mut self, args: &[&str]) -> Result<(), String> {
        let o = Command::new(std::env::current_exe().expect("exe"))
            .arg("sub")
            .args(args)
            .stdin(Stdio::null())
            .output()
            .expect("subprocess");
        if o.status.success() {
            return Ok(());
        }
        if o.status.code() == Some(2) {
            self.errors.push(format!(
                "harness sub {args:?}: {}",
                String::from_utf8_lossy(&o.stderr)
            ));
            return Ok(());
        }
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let line = err.lines().find(|l| l.contains("overflowed")).unwrap_or("");
        Err(format!("{} {}", o.status, short(line)))
    }
    /// A failure of a fixed input: known if the findings file lists it under `key`.
    pub fn judge_fixed(&mut self, key: &str, what: &str, r: Result<(), String>) {
        self.st.inc("fixed_inputs_run");
        if let Err(m) = r {
            match self
                .findings
                .iter()
                .find(|f| f.starts_with(&format!("[{key}]")))
            {
                Some(f) => self.known.push(f.clone()),
                None => self.violation(key, format!("{what}: {m}")),
            }
        }
    }
}

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");
pub fn verif_dir() -> PathBuf {
    Path::new(VERIF).parent().unwrap().to_path_buf()
}

/// Limits of one case.
const HANG: &str = "the library did not finish this case within its time limit";
const CASE_CPU_S: f64 = 40.0;
const CASE_WALL_S: u64 = 240;
const MEM_MB: u64 = 3500;

unsafe extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(mb: u64) {
    if std::env::var_os("HARNESS_NOLIMIT").is_some() {
        return;
    }
    let v = [mb << 20, mb << 20];
    // RLIMIT_AS
    unsafe {
        setrlimit(9, &v);
        // RLIMIT_CORE
        setrlimit(4, &[0, 0]);
    }
}

fn cpu_seconds() -> f64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect();
    String::from_utf8_lossy(&b).into_owned()
}

pub fn run_case(p: &Prop, seed: u64, tier: Tier, idx: u64, st: Stats) -> (Check, Stats) {
    let mut st = st;
    if idx & DEV != 0 {
        st.inc("cases_of_the_unoptimised_build");
    }
    let idx = idx & !DEV;
    if idx >= GIANT {
        st.inc("giant_cases");
    }
    let mut ctx = Ctx {
        rng: Rng::new(seed, p.id, idx),
        st,
        tier,
        seed,
        idx,
    };
    let r = (p.run)(&mut ctx);
    // mostly ordinary cases serve as samples
    if idx > GIANT {
        ctx.st.samples.clear();
    }
    (r, ctx.st)
}

/// Runs cases lo, lo+stride, ... below hi; writes what it observed to `out`.
pub fn worker(p: &'static Prop, seed: u64, tier: Tier, lo: u64, hi: u64, stride: u64, out: &str) {
    limit_memory(MEM_MB.max(p.stack_mb as u64 + 3000));
    let out = out.to_string();
    static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
    {
        let out = out.clone();
        std::thread::spawn(move || {
            let mut seen = u64::MAX;
            let mut cpu0 = 0.0;
            let mut t0 = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = CUR.load(Ordering::SeqCst);
                if c != seen {
                    seen = c;
                    cpu0 = cpu_seconds();
                    t0 = Instant::now();
                } else if c != u64::MAX
                    && (cpu_seconds() - cpu0 > CASE_CPU_S || t0.elapsed().as_secs() > CASE_WALL_S)
                {
                    let _ = fs::write(format!("{out}.hang"), c.to_string());
                    std::process::exit(97);
                }
            }
        });
    }
    let journal = fs::File::create(format!("{out}.j")).expect("journal");
    let h = std::thread::Builder::new()
        .stack_size(p.stack_mb << 20)
        .spawn(move || {
            use std::os::unix::fs::FileExt;
            let mut st = Stats::default();
            let mut viols: Vec<(u64, String)> = vec![];
            let mut i = lo;
            while i < hi {
                journal.write_all_at(&i.to_le_bytes(), 0).expect("journal");
                CUR.store(i, Ordering::SeqCst);
                let st_in = std::mem::take(&mut st);
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    run_case(p, seed, tier, i, st_in)
                }));
                let r = match got {
                    Ok((r, s)) => {
                        st = s;
                        r
                    }
                    Err(_) => {
                        let m = last_panic();
                        if !m.contains("[/repo/src/") {
                            std::process::exit(2);
                        }
                        Err(format!("the library panicked: {m}"))
                    }
                };
                if let Err(m) = r {
                    viols.push((i, m));
                    if viols.len() >= 2 {
                        break;
                    }
                }
                i += stride;
            }
            (st, viols)
        })
        .expect("thread");
    let Ok((st, viols)) = h.join() else {
        std::process::exit(2);
    };
    CUR.store(u64::MAX, Ordering::SeqCst);
    let mut s = String::new();
    s.push_str(&format!("E {}\n", st.evals));
    for (k, v) in &st.counts {
        s.push_str(&format!("C {v} {k}\n"));
    }
    for d in &st.distinct {
        s.push_str(&format!("D {d:x}\n"));
    }
    for x in &st.samples {
        s.push_str(&format!("S {}\n", hex(x)));
    }
    for (i, m) in &viols {
        s.push_str(&format!("V {i} {}\n", hex(m)));
    }
    s.push_str("END\n");
    fs::write(&out, s).expect("results");
}

fn spawn_worker(
    p: &Prop,
    seed: u64,
    tier: Tier,
    lo: u64,
    hi: u64,
    stride: u64,
    out: &Path,
) -> Child {
    let _ = fs::remove_file(out);
    let _ = fs::remove_file(format!("{}.hang", out.display()));
    let _ = fs::remove_file(format!("{}.j", out.display()));
    let err = fs::File::create(format!("{}.err", out.display())).expect("stderr file");
    let exe = if lo & DEV != 0 {
        std::env::var_os("HARNESS_DEV")
            .map(PathBuf::from)
            .unwrap_or_else(|| verif_dir().join("target/dev/debug/harness"))
    } else {
        std::env::current_exe().expect("exe")
    };
    Command::new(exe)
        .args([
            "worker",
            p.id,
            &seed.to_string(),
            if tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            },
            &lo.to_string(),
            &hi.to_string(),
            &stride.to_string(),
        ])
        .arg(out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(err)
        .spawn()
        .expect("worker")
}

fn merge(st: &mut Stats, viols: &mut Vec<(u64, String)>, out: &Path) -> bool {
    let Ok(s) = fs::read_to_string(out) else {
        return false;
    };
    if !s.ends_with("END\n") {
        return false;
    }
    for l in s.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "E" => st.evals += rest.parse::<u64>().unwrap_or(0),
            "C" => {
                let (n, key) = rest.split_once(' ').unwrap_or(("0", rest));
                let n: u64 = n.parse().unwrap_or(0);
                if key.starts_with("max_") {
                    let c = st.counts.entry(key.to_string()).or_insert(0);
                    *c = (*c).max(n);
                } else {
                    st.add(key, n);
                }
            }
            "D" => {
                st.distinct
                    .insert(u64::from_str_radix(rest, 16).unwrap_or(0));
            }
            "S" => {
                if st.samples.len() < 4 {
                    st.samples.push(unhex(rest));
                }
            }
            "V" => {
                let (i, m) = rest.split_once(' ').unwrap_or(("0", ""));
                viols.push((i.parse().unwrap_or(0), unhex(m)));
            }
            _ => {}
        }
    }
    true
}

fn death(out: &Path, status: ExitStatus) -> (u64, String) {
    let hang = fs::read_to_string(format!("{}.hang", out.display())).ok();
    if let Some(h) = hang {
        return (h.trim().parse().unwrap_or(u64::MAX), HANG.to_string());
    }
    let j = fs::read(format!("{}.j", out.display())).unwrap_or_default();
    let idx = j
        .get(..8)
        .map_or(u64::MAX, |b| u64::from_le_bytes(b.try_into().unwrap()));
    let err = fs::read_to_string(format!("{}.err", out.display())).unwrap_or_default();
    let tail: String = err.lines().rev().take(4).collect::<Vec<_>>().join(" | ");
    (
        idx,
        format!("the process died ({status}) in this case: {}", short(&tail)),
    )
}

fn rlimited(status: ExitStatus) -> bool {
    status.code() == Some(2)
}

pub fn scratch(id: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("hpp-check-{id}-{}", std::process::id()));
    fs::create_dir_all(&d).expect("scratch");
    d
}

/// Runs all cases of a property over 8 processes; returns the exit code.
pub fn check(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let n = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick {
            p.quick
        } else {
            p.thorough
        });
    let dir = scratch(p.id);
    let procs = 8u64.min(n.max(1));
    let mut st = Stats::default();
    let mut viols: Vec<(u64, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    struct Slot {
        child: Child,
        out: PathBuf,
        restarts: u32,
        hi: u64,
        stride: u64,
    }
    // what is to be run: (first, end, stride)
    let times = if tier == Tier::Quick { 1 } else { 8 };
    let part = |x: u64| match std::env::var_os("VERIF_CASES") {
        Some(_) => x.min(n),
        None => x * times,
    };
    let mut jobs: Vec<(u64, u64, u64)> = vec![];
    for (base, n) in [
        (DEV | GIANT, part(p.dev.1)),
        (DEV, part(p.dev.0)),
        (GIANT, part(p.giants)),
        (0, n),
    ] {
        let k = procs.min(n);
        jobs.extend((0..k).map(|w| (base + w, base + n, k)));
    }
    jobs.reverse();
    let mut gen_no = 0u64;
    let mut slots: Vec<Slot> = vec![];
    while !slots.is_empty() || !jobs.is_empty() {
        while slots.len() < 8
            && let Some((lo, hi, stride)) = jobs.pop()
        {
            let out = dir.join(format!("w{gen_no}"));
            gen_no += 1;
            slots.push(Slot {
                child: spawn_worker(p, seed, tier, lo, hi, stride, &out),
                out,
                restarts: 0,
                hi,
                stride,
            });
        }
        let mut i = 0;
        let mut progressed = false;
        while i < slots.len() {
            let Ok(Some(status)) = slots[i].child.try_wait() else {
                i += 1;
                continue;
            };
            progressed = true;
            let s = &mut slots[i];
            if status.success() && merge(&mut st, &mut viols, &s.out) {
                slots.swap_remove(i);
                continue;
            }
            if rlimited(status) {
                let e = fs::read_to_string(format!("{}.err", s.out.display())).unwrap_or_default();
                errors.push(format!("harness error: {}", short(&e)));
                slots.swap_remove(i);
                continue;
            }
            let (idx, msg) = death(&s.out, status);
            if idx == u64::MAX || s.restarts >= 4 {
                errors.push(format!("worker lost: {msg}"));
                slots.swap_remove(i);
                continue;
            }
            // How long an extreme input may take is not what this property is about: left undecided.
            // (That ordinary inputs end, and that any does where the property says so, is checked.)
            if msg == HANG && idx & GIANT != 0 && !matches!(p.id, "C15" | "C19") {
                st.inc("giant_cases_left_undecided");
                let s = &mut slots[i];
                s.restarts += 1;
                if s.restarts > 2 || idx + s.stride >= s.hi {
                    slots.swap_remove(i);
                } else {
                    s.child = spawn_worker(p, seed, tier, idx + s.stride, s.hi, s.stride, &s.out);
                    i += 1;
                }
                continue;
            }
            // confirm on its own, up to three times
            let out = dir.join(format!("confirm{gen_no}"));
            gen_no += 1;
            let mut confirmed = 0;
            let mut last = msg.clone();
            for _ in 0..3 {
                let mut c = spawn_worker(p, seed, tier, idx, idx + 1, 1, &out);
                let stat = c.wait().expect("wait");
                let mut v2 = vec![];
                let mut dummy = Stats::default();
                if stat.success() && merge(&mut dummy, &mut v2, &out) {
                    continue;
                }
                if rlimited(stat) {
                    errors.push("harness error while confirming".to_string());
                    break;
                }
                confirmed += 1;
                last = death(&out, stat).1;
                if confirmed == 1 {
                    break;
                }
            }
            if confirmed > 0 {
                viols.push((idx, last));
                slots.swap_remove(i);
            } else {
                eprintln!("note: case {idx} ended its process once but not again ({msg})");
                st.inc("unconfirmed_process_deaths");
                let s = &mut slots[i];
                s.restarts += 1;
                s.child = spawn_worker(p, seed, tier, idx, s.hi, s.stride, &s.out);
                i += 1;
            }
        }
        if !viols.is_empty() && t0.elapsed() > Duration::from_secs(3) {
            // enough: the rest would only repeat it
            for s in &mut slots {
                let _ = s.child.kill();
                let _ = s.child.wait();
            }
            break;
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(20));
        }
    }

    let mut extra = Extra {
        st: Stats::default(),
        tier,
        seed,
        violations: vec![],
        known: vec![],
        errors: vec![],
        findings: findings(p.id),
    };
    if let Some(f) = p.extra
        && viols.is_empty()
    {
        f(&mut extra);
    }
    errors.append(&mut extra.errors);
    st.evals += extra.st.evals;
    st.distinct.extend(&extra.st.distinct);
    for (k, v) in &extra.st.counts {
        let c = st.counts.entry(k.clone()).or_insert(0);
        if k.starts_with("max_") {
            *c = (*c).max(*v);
        } else {
            *c += v;
        }
    }
    st.samples.append(&mut extra.st.samples);
    fs::remove_dir_all(&dir).ok();

    viols.sort();
    viols.dedup();
    let nviol = viols.len() + extra.violations.len();
    if nviol == 0 {
        for (k, per_mille) in p.floor {
            let have = st.counts.get(*k).copied().unwrap_or(0);
            let want = per_mille * n / 1000;
            if have < want {
                errors.push(format!(
                    "the monitors saw too little: {k} = {have}, wanted {want}"
                ));
            }
        }
    }
    write_evidence(p, tier, seed, &st, nviol, t0.elapsed().as_secs_f64());
    for k in &extra.known {
        println!("KNOWN-FINDING: property={} {k}", p.id);
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} cases, {:.1} s, {} violation(s)",
        p.id,
        st.evals,
        st.distinct.len(),
        n,
        t0.elapsed().as_secs_f64(),
        nviol
    );
    if nviol > 0 {
        let rd = verif_dir().join("replay");
        fs::create_dir_all(&rd).ok();
        let mut lines = vec![];
        for (idx, m) in viols.iter().take(5) {
            let f = rd.join(format!("{}-{seed}-{idx}.txt", p.id));
            let tiername = if tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            };
            let _ = fs::write(
                &f,
                format!(
                    "property={}\nseed={seed}\ntier={tiername}\ncase={idx}\nto repeat: bash /verif/check.sh replay {}\n\n{m}\n",
                    p.id,
                    f.display()
                ),
            );
            lines.push((f, m.clone()));
        }
        for (key, m) in extra.violations.iter().take(5) {
            let f = rd.join(format!("{}-{seed}-{key}.txt", p.id));
            let _ = fs::write(
                &f,
                format!("property={}\nseed={seed}\nkey={key}\n\n{m}\n", p.id),
            );
            lines.push((f, m.clone()));
        }
        for (f, m) in lines {
            println!("{}", short(&m));
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        errors.dedup();
        for e in errors.iter().take(6) {
            eprintln!("ERROR {}: {e}", p.id);
        }
        return 2;
    }
    0
}

fn findings(id: &str) -> Vec<String> {
    fs::read_to_string(verif_dir().join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            l.strip_prefix(&format!("finding: property={id} "))
                .map(str::to_string)
        })
        .collect()
}

fn write_evidence(p: &Prop, tier: Tier, seed: u64, st: &Stats, violations: usize, wall: f64) {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", json_str(p.id)));
    s.push_str(&format!(
        " \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n",
        if tier == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    ));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n", st.evals));
    s.push_str(&format!(
        "  \"distinct_nontrivial\": {},\n",
        st.distinct.len()
    ));
    let mut rule = p.rule.to_string();
    let times = if tier == Tier::Quick { 1 } else { 8 };
    if p.giants > 0 {
        rule.push_str(&format!(
            " Besides, {} giant cases put inputs of extreme size or length before the same monitor.",
            p.giants * times
        ));
    }
    if p.dev.0 > 0 {
        rule.push_str(&format!(
            " An unoptimised build with overflow checks repeats {} ordinary and {} giant cases.",
            p.dev.0 * times,
            p.dev.1 * times
        ));
    }
    s.push_str(&format!("  \"rule\": {},\n", json_str(&rule)));
    s.push_str("  \"observed\": {");
    let c: Vec<String> = st
        .counts
        .iter()
        .map(|(k, v)| format!("\n   {}: {v}", json_str(k)))
        .collect();
    s.push_str(&c.join(","));
    s.push_str("\n  },\n  \"samples\": [");
    let c: Vec<String> = st
        .samples
        .iter()
        .map(|x| format!("\n   {}", json_str(x)))
        .collect();
    s.push_str(&c.join(","));
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    let c: Vec<String> = p
        .assumptions
        .iter()
        .map(|x| format!("\n  {}", json_str(x)))
        .collect();
    s.push_str(&c.join(","));
    s.push_str(&format!(
        "\n ],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n"
    ));
    let d = verif_dir().join("evidence");
    fs::create_dir_all(&d).ok();
    let f = d.join(format!("{}.json", p.id));
    if let Err(e) = fs::File::create(&f).and_then(|mut x| x.write_all(s.as_bytes())) {
        eprintln!("cannot write {}: {e}", f.display());
    }
}

/// Runs the case a replay file names, repeatedly (hash orders differ from run to run).
pub fn replay(file: &str, props: &'static [Prop]) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .map(str::to_string)
    };
    let id = get("property").expect("property");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no such property");
        return 2;
    };
    let Some(idx) = get("case").and_then(|x| x.parse::<u64>().ok()) else {
        println!("this violation is not a numbered case; run the check again:\n{s}");
        return 2;
    };
    let seed: u64 = get("seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = if get("tier").as_deref() == Some("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let dir = scratch("replay");
    let mut code = 0;
    let mut seen: HashSet<String> = HashSet::new();
    for k in 0..20 {
        let out = dir.join(format!("r{k}"));
        let mut c = spawn_worker(p, seed, tier, idx, idx + 1, 1, &out);
        let status = c.wait().expect("wait");
        let mut st = Stats::default();
        let mut v = vec![];
        let m = if status.success() && merge(&mut st, &mut v, &out) {
            v.pop().map(|x| x.1)
        } else {
            Some(death(&out, status).1)
        };
        if let Some(m) = m {
            if seen.insert(m.clone()) {
                println!("{m}");
            }
            if code == 0 {
                println!("VIOLATION property={} replay={file}", p.id);
            }
            code = 1;
        }
    }
    fs::remove_dir_all(&dir).ok();
    if code == 0 {
        println!("case {idx} of {id} holds");
    }
    code
}
