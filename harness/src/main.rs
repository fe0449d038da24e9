#[macro_use]
mod util;
mod alloc;
mod gen_;
mod gram;
mod lab;
mod props;
mod runner;
use runner::*;
use util::Tier;

#[global_allocator]
static HEAP: alloc::Counting = alloc::Counting;

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::ALL;
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let p = props.iter().find(|p| p.id == args[2]).unwrap_or_else(|| {
                eprintln!("no property {:?}", args.get(2));
                std::process::exit(2)
            });
            check(p)
        }
        Some("worker") => {
            let p = props.iter().find(|p| p.id == args[2]).unwrap_or_else(|| {
                eprintln!("no property {:?}", args.get(2));
                std::process::exit(2)
            });
            let num = |i: usize| args[i].parse::<u64>().expect("number");
            let tier = if args[4] == "quick" {
                Tier::Quick
            } else {
                Tier::Thorough
            };
            worker(p, num(3), tier, num(5), num(6), num(7), &args[8]);
            0
        }
        Some("replay") => replay(&args[2], props),
        Some("sub") => props::sub(&args[2..]),
        Some("selfcheck") => {
            for (name, text, scripts) in gen_::CURATED {
                let g = gram::read(text).expect(name).woven();
                let a = gram::analyse(&g);
                println!(
                    "{name}: ll1 {} conflict {:?} undefined {} leftrec {:?}",
                    a.ll1(),
                    a.conflict.map(|(i, x, y, c)| (&g.nts[i].name, x, y, c)),
                    a.undefined,
                    a.left_recursive.iter().position(|x| *x)
                );
                let e = gram::Earley::new(&g, &a);
                for s in *scripts {
                    println!("   {s:?} {:?}", e.run(&s.chars().collect::<Vec<_>>()));
                }
            }
            0
        }
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
