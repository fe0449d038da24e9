//! One module per group of properties.
use crate::runner::Prop;
mod arena;
mod data;
mod effort;
mod host;
mod life;
mod machines;
mod parse;
mod rules;
mod sets;
mod shown;
mod stream;

pub const ALL: &[Prop] = &[
    parse::C01,
    parse::C02,
    parse::C03,
    parse::C04,
    sets::C05,
    sets::C06,
    rules::C07,
    rules::C08,
    data::C09,
    stream::C10,
    rules::C11,
    arena::C12,
    arena::C13,
    machines::C14,
    life::C15,
    life::C16,
    host::C17,
    stream::C18,
    rules::C19,
    host::C20,
    stream::C21,
    host::C22,
    shown::C23,
    effort::C24,
];

/// Entry points of subprocesses.
pub fn sub(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("chain") => rules::chain(&args[1], args[2].parse().expect("number")),
        Some("miri") => match host::miri_workload(
            args[1].parse().expect("seed"),
            args[2].parse().expect("number"),
        ) {
            Ok(n) => {
                println!("count evaluations {n}");
                0
            }
            Err(m) => {
                println!("{m}");
                1
            }
        },
        _ => 2,
    }
}
