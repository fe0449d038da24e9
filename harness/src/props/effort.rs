//! C24: the effort of reading rules and of building a parser.
use crate::alloc::{heap, reset_peak};
use crate::gen_::*;
use crate::gram::*;
use crate::lab::*;
use crate::props::host::thread_cpu;
use crate::runner::Prop;
use crate::util::*;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::vms::counting_vm::CountingVm;

#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    calls: u64,
    bytes: u64,
    peak: i64,
    cpu: f64,
}
const PHASES: [&str; 4] = ["reading", "FIRST", "FOLLOW", "tables"];

/// Rules of a size given by `n`, with a fixed alphabet unless it says otherwise.
struct Family<'a> {
    name: &'a str,
    make: &'a dyn Fn(usize) -> String,
    size: usize,
    /// the largest growth with the size of reading, FIRST, FOLLOW and tables: 1 linear, 2 quadratic
    grows: [u32; 4],
    /// whether the rules are LL(1), so that tables can be made
    ll1: bool,
}

fn rules(n: usize, f: impl Fn(usize) -> String, last: &str) -> String {
    let mut s = String::from("start -> \"s\" n0;\n");
    for i in 0..n {
        s.push_str(&f(i));
        s.push('\n');
    }
    s.push_str(&format!("n{n} -> {last};\n"));
    s
}

const FAMILIES: &[Family<'static>] = &[
    Family {
        name: "rules that end with the next one",
        make: &|n| rules(n, |i| format!("n{i} -> \"a\" n{} | \"b\";", i + 1), "\"c\""),
        size: 500,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "rules that begin with the next one",
        make: &|n| rules(n, |i| format!("n{i} -> n{} \"a\";", i + 1), "\"c\" | \"d\""),
        size: 500,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "optional rules one after the other",
        make: &|n| {
            rules(
                n,
                |i| format!("n{i} -> \"a\" o{i} n{} | \"b\"; o{i} -> \"c\" | #;", i + 1),
                "\"e\"",
            )
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "rules used twice by the one before",
        make: &|n| {
            rules(
                n,
                |i| format!("n{i} -> n{} \"x\" | n{} \"y\";", i + 1, i + 1),
                "\"e\" | \"f\"",
            )
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: false,
    },
    Family {
        name: "optional rules used twice by the one before",
        make: &|n| {
            rules(
                n,
                |i| format!("n{i} -> n{} n{} | \"y\";", i + 1, i + 1),
                "\"e\" | #",
            )
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: false,
    },
    Family {
        name: "one long alternative",
        make: &|n| format!("start -> {};\nx -> \"a\" | \"b\";\n", "x \"c\" ".repeat(n)),
        size: 4000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "one long terminal",
        make: &|n| {
            format!(
                "start -> x \"{}\" x;\nx -> \"a\" | \"b\";\n",
                "漢b\\\"".repeat(n)
            )
        },
        size: 8000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "long names",
        make: &|n| {
            let (a, b) = ("Ä_b1".repeat(n), "x_ß2".repeat(n));
            format!(
                "$IGNORE: {a};\nstart -> {b} \"c\";\n{b} ->$[IGNORE:{a}] \"a\" | \"b\";\n{a} -> \" \" | #;\n"
            )
        },
        size: 4000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "one long action",
        make: &|n| {
            format!(
                "start -> x \"c\" {{{}}};\nx -> \"a\" | \"b\";\n",
                "do \\} it; ".repeat(n)
            )
        },
        size: 4000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "much white space",
        make: &|n| {
            format!(
                "start{} ->{}x \"c\"{}|{}\"d\"{};\nx -> \"a\" | \"b\";\n",
                " \n".repeat(n),
                "\t\u{3000}".repeat(n),
                "  ".repeat(n),
                "\n".repeat(n),
                "\r\n".repeat(n)
            )
        },
        size: 4000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "a rule given in many parts",
        make: &|n| {
            let mut s = String::from("start -> \"s\";\n");
            for i in 0..n {
                let c = nth_char(i);
                s.push_str(&format!("start -> \"{c}\";\n"));
            }
            s
        },
        size: 1500,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "many alternatives of keywords",
        make: &|n| {
            let mut s = String::from("start -> \"s\"");
            for i in 0..n {
                let c = nth_char(i);
                s.push_str(&format!(" | \"{c}w{i}\" x"));
            }
            s + ";\nx -> \"a\" | #;\n"
        },
        size: 1500,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "blanks allowed in many rules",
        make: &|n| {
            let mut s = String::from("$IGNORE: ws;\n");
            s.push_str(&rules(
                n,
                |i| format!("n{i} -> \"a\" \"b\" n{} | \"b\";", i + 1),
                "\"c\"",
            ));
            s + "ws ->$[IGNORE:#] \" \" ws | #;\n"
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "blanks made of rules used twice",
        make: &|n| {
            // only the first rule asks for the blanks: which rules they are made of is found once
            let mut s = String::from("start ->$[IGNORE:n0] \"a\" \"b\";\n");
            for i in 0..n {
                s.push_str(&format!("n{i} -> n{} \"x\" | \"y\" n{};\n", i + 1, i + 1));
            }
            s + &format!("n{n} -> \"z\";\n")
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: false,
    },
    Family {
        name: "many names and terminals",
        make: &|n| {
            rules(
                n,
                |i| {
                    format!(
                        "n{i} -> \"a{i}\" some_name_{i} n{} | \"b{i}\"; some_name_{i} -> \"t{i}\";",
                        i + 1
                    )
                },
                "\"c\"",
            )
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "many directives",
        make: &|n| {
            let mut s = String::from("start -> \"s\" \"t\";\na -> \" \" | #;\nb -> \"_\" | #;\n");
            for i in 0..n {
                let (x, c) = (
                    ["a", "b"][i % 2],
                    ["\"x\" \"y\" \"z\"", "\"x\" | #"][i / 2 % 2],
                );
                s.push_str(&format!("$IGNORE: {x};\nn{i} -> {c};\n"));
            }
            s
        },
        size: 400,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "many overrides and actions",
        make: &|n| {
            let mut s = String::from("start -> \"s\" \"t\";\na -> \" \" | #;\nb -> \"_\" | #;\n");
            for i in 0..n {
                let x = ["a", "b", "#"][i % 3];
                s.push_str(&format!(
                    "n{i} ->$[IGNORE:{x}] \"x\" n{} \"z\" | \"q\" {{do}};\n",
                    (i + 1) % n
                ));
            }
            s
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "many optional elements",
        make: &|n| format!("start -> {}\"e\";\nx -> \"a\" | #;\n", "x ".repeat(n)),
        size: 500,
        grows: [1, 1, 2, 1],
        ll1: false,
    },
    Family {
        name: "a circle of rules",
        make: &|n| {
            let mut s = String::from("start -> \"s\" n0;\n");
            for i in 0..n {
                s.push_str(&format!(
                    "n{i} -> \"a\" n{} | \"b\" | \"c\" n{} \"d\";\n",
                    (i + 1) % n,
                    (i + n / 2) % n
                ));
            }
            s
        },
        size: 300,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
    Family {
        name: "rules that nothing refers to",
        make: &|n| {
            let mut s = String::from("start -> \"s\";\n");
            for i in 0..n {
                s.push_str(&format!("n{i} -> \"a\" \"b\" | \"c\";\n"));
            }
            s
        },
        size: 1000,
        grows: [1, 1, 1, 1],
        ll1: true,
    },
    Family {
        name: "one rule used everywhere",
        make: &|n| {
            rules(
                n,
                |i| format!("n{i} -> \"a\" x n{} x \"a\" | \"b\" x \"b\";", i + 1),
                "\"c\"; x -> \"x\" | \"y\"",
            )
        },
        size: 400,
        grows: [1, 1, 2, 1],
        ll1: true,
    },
];

/// Different characters, from the Chinese ones on.
fn nth_char(i: usize) -> char {
    let n = 0x4e00 + i as u32;
    char::from_u32(if n < 0xd800 { n } else { n + 0x800 }).expect("character")
}

/// What reading costs.
fn reading_cost(text: &str, times: usize) -> Result<Cost, String> {
    let vm = CountingVm {};
    let mut best = Cost {
        cpu: f64::MAX,
        ..Cost::default()
    };
    for _ in 0..times {
        reset_peak();
        let (h0, t0) = (heap(), thread_cpu());
        let d = read_rules(text, &vm).map_err(|e| format!("reading failed: {e:?}"))?;
        let h = heap();
        best = Cost {
            calls: h.calls - h0.calls,
            bytes: h.bytes - h0.bytes,
            peak: reset_peak() - h0.live,
            cpu: best.cpu.min(thread_cpu() - t0),
        };
        drop(d);
    }
    Ok(best)
}

/// Reading alone is compared at greater sizes too: it is linear whatever the rules look like.
fn long_reading(ctx: &mut Ctx, f: &Family, n: usize) -> Check {
    let (small, large) = ((f.make)(n * TIMES), (f.make)(n * TIMES * TIMES));
    let fail = |m: String| {
        format!(
            "{}: rules of {} and of {} characters: {m}\nthe first begin with:\n{}",
            f.name,
            small.chars().count(),
            large.chars().count(),
            small.chars().take(300).collect::<String>()
        )
    };
    let mut x = reading_cost(&small, 2).map_err(fail)?;
    let mut y = reading_cost(&large, 1).map_err(fail)?;
    ensure!(
        y.calls <= 12 * x.calls + 2000,
        "{}",
        fail(format!("reading: {} and {} allocations", x.calls, y.calls))
    );
    ensure!(
        y.bytes <= 16 * x.bytes + 200_000,
        "{}",
        fail(format!(
            "reading: {} and {} bytes asked for",
            x.bytes, y.bytes
        ))
    );
    ensure!(
        y.peak <= 16 * x.peak + 200_000,
        "{}",
        fail(format!("reading: {} and {} bytes at once", x.peak, y.peak))
    );
    let mut again = 0;
    while y.cpu / x.cpu.max(2e-4) > 40.0 && again < 5 {
        again += 1;
        ctx.st.inc("times_measured_again");
        std::thread::sleep(std::time::Duration::from_millis(200 * again));
        x.cpu = x.cpu.max(reading_cost(&small, 4).map_err(fail)?.cpu);
        y.cpu = y.cpu.min(reading_cost(&large, 2).map_err(fail)?.cpu);
    }
    let r = y.cpu / x.cpu.max(2e-4);
    ensure!(
        r <= 40.0,
        "{}",
        fail(format!(
            "reading takes {:.4} s and {:.4} s, {r:.1} times as long, measured {again} times again",
            x.cpu, y.cpu
        ))
    );
    ctx.st
        .max("time_ratio_percent_long_reading", (r * 100.0) as u64);
    ctx.st
        .max("byte_ratio_percent_long_reading", y.bytes * 100 / x.bytes);
    ctx.st.max(
        "peak_ratio_percent_long_reading",
        (y.peak * 100 / x.peak) as u64,
    );
    ctx.st.inc("long_readings");
    ctx.st.max("rule_chars", large.chars().count() as u64);
    Ok(())
}

/// What each phase costs.
fn costs(text: &str, ll1: bool, times: usize) -> Result<[Cost; 4], String> {
    let vm = CountingVm {};
    let mut best = [Cost {
        cpu: f64::MAX,
        ..Cost::default()
    }; 4];
    for _ in 0..times {
        let mut i = 0;
        let mut take = |h0: crate::alloc::Heap, t0: f64| {
            let h = heap();
            best[i] = Cost {
                calls: h.calls - h0.calls,
                bytes: h.bytes - h0.bytes,
                peak: reset_peak() - h0.live,
                cpu: best[i].cpu.min(thread_cpu() - t0),
            };
            i += 1;
        };
        let now = || {
            reset_peak();
            (heap(), thread_cpu())
        };
        let (h, t) = now();
        let d = read_rules(text, &vm).map_err(|e| format!("reading failed: {e:?}"))?;
        take(h, t);
        let (h, t) = now();
        let first = lib(|| get_first_sets(&d).map_err(|e| e.to_string()))?
            .map_err(|e| format!("no FIRST sets: {e}"))?;
        take(h, t);
        let start = d
            .get_element_nt_index("start")
            .ok_or("there is no rule start")?;
        let (h, t) = now();
        let follow = lib(|| get_follow_sets(start, &first, &d).map_err(|e| e.to_string()))?
            .map_err(|e| format!("no FOLLOW sets: {e}"))?;
        take(h, t);
        let (h, t) = now();
        let maps = lib(|| {
            get_steuermaps(&first, &follow, d)
                .map(drop)
                .map_err(|e| e.to_string())
        })?;
        take(h, t);
        if ll1 {
            maps.map_err(|e| format!("no tables: {e}"))?;
        }
    }
    Ok(best)
}

const TIMES: usize = 8;

/// A grammar written down again and again, each time with names of its own.
fn copies(g: &Gram, n: usize, rng: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..n {
        let mut g = g.clone();
        for nt in &mut g.nts {
            if i > 0 {
                nt.name = format!("{}_copy_{i}", nt.name);
            }
        }
        s.push_str(&render(&g, Layout::Plain, rng).text);
        s.push('\n');
    }
    s
}

fn c24(ctx: &mut Ctx) -> Check {
    let k = ctx.idx as usize % (FAMILIES.len() + 6);
    if k < FAMILIES.len() {
        return judge_family(ctx, &FAMILIES[k]);
    }
    let g = loop {
        let mut g = ll1_grammar(&mut ctx.rng).woven();
        if g.nts.len() > 40 {
            continue;
        }
        for nt in &mut g.nts {
            if ctx.rng.chance(1, 3) {
                nt.action = Some(action_text(&mut ctx.rng));
            }
        }
        break g;
    };
    let seed = ctx.rng.next();
    let f = Family {
        name: "copies of a random grammar",
        make: &|n| copies(&g, n, &mut Rng::new(seed, "copies", n as u64)),
        size: 300 / g.nts.len() + 1,
        grows: [1, 1, 1, 1],
        ll1: true,
    };
    judge_family(ctx, &f)
}

fn judge_family(ctx: &mut Ctx, f: &Family) -> Check {
    let n = f.size + ctx.rng.below(f.size / 10 + 1);
    let (small, large) = ((f.make)(n), (f.make)(n * TIMES));
    let fail = |m: String| {
        format!(
            "{}: rules of {} and of {} characters: {m}\nthe first begin with:\n{}",
            f.name,
            small.chars().count(),
            large.chars().count(),
            small.chars().take(300).collect::<String>()
        )
    };
    let a = costs(&small, f.ll1, 2).map_err(fail)?;
    let mut b = costs(&large, f.ll1, 1).map_err(fail)?;
    let mut a = a;
    for (i, phase) in PHASES.iter().enumerate() {
        if i == 3 && !f.ll1 {
            continue;
        }
        let (x, y) = (a[i], b[i]);
        // linear: 8 times, quadratic: 64, cubic: 512
        let (calls, bytes, time) = if f.grows[i] == 1 {
            (12, 24, 40.0)
        } else {
            (150, 200, 230.0)
        };
        ensure!(
            y.calls <= calls * x.calls + 2000,
            "{}",
            fail(format!("{phase}: {} and {} allocations", x.calls, y.calls))
        );
        ensure!(
            y.bytes <= bytes * x.bytes + 200_000,
            "{}",
            fail(format!(
                "{phase}: {} and {} bytes asked for",
                x.bytes, y.bytes
            ))
        );
        ensure!(
            y.peak <= bytes as i64 * x.peak + 200_000,
            "{}",
            fail(format!("{phase}: {} and {} bytes at once", x.peak, y.peak))
        );
        let ratio = |a: &[Cost; 4], b: &[Cost; 4]| b[i].cpu / a[i].cpu.max(2e-4);
        let mut r = ratio(&a, &b);
        let mut again = 0;
        while r > time && again < 5 {
            // a busy machine is no proof
            again += 1;
            ctx.st.inc("times_measured_again");
            std::thread::sleep(std::time::Duration::from_millis(200 * again));
            let a2 = costs(&small, f.ll1, 4).map_err(fail)?;
            let b2 = costs(&large, f.ll1, 2).map_err(fail)?;
            for k in 0..4 {
                a[k].cpu = a[k].cpu.max(a2[k].cpu);
                b[k].cpu = b[k].cpu.min(b2[k].cpu);
            }
            r = ratio(&a, &b);
        }
        ensure!(
            r <= time,
            "{}",
            fail(format!(
                "{phase} takes {:.4} s and {:.4} s, {r:.1} times as long, measured {again} times again",
                a[i].cpu, b[i].cpu
            ))
        );
        ctx.st.add("phases_compared", 1);
        ctx.st.max(
            &format!(
                "time_ratio_percent_{phase}_{}",
                ["linear", "quadratic"][f.grows[i] as usize - 1]
            ),
            (r * 100.0) as u64,
        );
        ctx.st.max(
            &format!(
                "allocation_ratio_percent_{phase}_{}",
                ["linear", "quadratic"][f.grows[i] as usize - 1]
            ),
            y.calls * 100 / x.calls.max(100),
        );
    }
    long_reading(ctx, f, n)?;
    ctx.st.max("rule_chars", large.chars().count() as u64);
    ctx.st.inc(f.name);
    ctx.st.eval(hash_of(&(f.name, n)), true);
    ctx.st.sample(|| {
        let show = |c: &[Cost; 4]| -> String {
            (0..4)
                .map(|i| {
                    format!(
                        "{} {} allocations {:.2} ms; ",
                        PHASES[i],
                        c[i].calls,
                        c[i].cpu * 1e3
                    )
                })
                .collect()
        };
        format!(
            "{}: {} chars: {}and {} chars: {}",
            f.name,
            small.chars().count(),
            show(&a),
            large.chars().count(),
            show(&b)
        )
    });
    Ok(())
}

pub const C24: Prop = Prop {
    id: "C24",
    rule: "One case takes one of 21 families of rule texts, or a random LL(1) grammar written down many times under different names, and a size, and compares the rules of that size with those of eight times the size: allocator calls and bytes, peak heap use and processor time of reading, of the FIRST sets, of the FOLLOW sets and of the tables must grow about eightfold (limits 12, 24, 24 and 40), for the FOLLOW sets of families whose rules depend on each other in a chain at most with the square (limits 150, 200, 200 and 230; the cube would be 512), the time only after up to five repeated measurements; reading, which is linear for all families, also between eight and 64 times the size. One evaluation is one pair of sizes; distinct by (family, size).",
    assumptions: &[
        "processor time is the least of several runs on a machine that may be busy; the smaller size counts with at least 0.2 ms",
        "each rule, but for a few that are used a few times, has a bounded number of characters that can begin or follow it",
    ],
    quick: 135,
    thorough: 1400,
    run: c24,
    stack_mb: 64,
    floor: &[("phases_compared", 2000)],
    extra: None,
    giants: 0,
    dev: (0, 0),
};
