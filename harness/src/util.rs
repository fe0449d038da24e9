//! Random numbers, guarded library calls, statistics.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, tag: &str, idx: u64) -> Rng {
        let mut x = seed ^ 0x5851_F42D_4C95_7F2D;
        for b in tag.bytes() {
            x = splitmix(&mut x) ^ u64::from(b);
        }
        x = splitmix(&mut x) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        Rng([
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_LIB: RefCell<u32> = const { RefCell::new(0) };
}

/// Panics inside `lib` are recorded silently; panics of the harness itself are printed.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let loc = if loc.is_empty() { "?".to_string() } else { loc };
        let in_lib = IN_LIB.with(|c| *c.borrow()) > 0;
        if msg.contains("unsafe precondition") {
            // the process is aborted next
            eprintln!("{msg} at {loc}");
        } else if !in_lib {
            eprintln!("HARNESS PANIC at {loc}: {msg}");
        }
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}

/// Runs code of the library under test; Err(message) when it panics.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| LAST_PANIC.with(|c| c.borrow().clone()))
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(key) {
            *c += n;
        } else {
            self.counts.insert(key.to_string(), n);
        }
    }
    pub fn inc(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn count(&self, key: &str) -> u64 {
        self.counts.get(key).copied().unwrap_or(0)
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let key = format!("max_{key}");
        let c = self.counts.entry(key).or_insert(0);
        *c = (*c).max(n);
    }
    /// One evaluation; `nontrivial` is counted by distinct `hash`.
    pub fn eval(&mut self, hash: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            let mut s = f();
            if s.chars().count() > 1200 {
                s = s.chars().take(1200).collect::<String>() + "...";
            }
            self.samples.push(s);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 4000 {
        let n = s.chars().count();
        s.chars().take(4000).collect::<String>() + &format!("... ({n} chars)")
    } else {
        s.to_string()
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub st: Stats,
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}

/// The characters of the n-th block when all there are come in blocks of that length.
pub fn swept(n: u64, block: u64) -> Vec<char> {
    const ALL: u64 = 0x110000 - 0x800;
    let from = n.saturating_mul(block).min(ALL);
    (from..(from + block).min(ALL))
        .map(|i| if i < 0xd800 { i } else { i + 0x800 })
        .filter_map(|i| char::from_u32(i as u32))
        .collect()
}

/// What other notations have for remarks, groups and the like, made of the n-th two signs.
pub fn phrases(n: u64) -> Vec<String> {
    let signs: Vec<char> = ('!'..='~').filter(|c| !c.is_alphanumeric()).collect();
    let k = signs.len() as u64;
    if n >= k * k {
        return vec![];
    }
    let (c, d) = (signs[(n / k) as usize], signs[(n % k) as usize]);
    vec![
        format!("{c}{d}"),
        format!("{c}{d} x\n"),
        format!("{c}{d} x {d}{c}"),
    ]
}

/// Characters that might be taken for this one: its other cases and what shares them, its width
/// variants, those with the same low bits, and its neighbours.
pub fn near(c: char) -> Vec<char> {
    type Kin = HashMap<char, Vec<char>>;
    static KIN: OnceLock<Kin> = OnceLock::new();
    let fold = |c: char| -> Option<char> {
        let mut up = c.to_uppercase();
        let (first, more) = (up.next()?, up.next());
        let mut low = first.to_lowercase();
        let key = low.next()?;
        (more.is_none() && low.next().is_none()).then_some(key)
    };
    let kin = KIN.get_or_init(|| {
        let mut m: Kin = HashMap::new();
        for c in swept(0, 0x110000) {
            if let Some(k) = fold(c) {
                m.entry(k).or_default().push(c);
            }
        }
        m.retain(|_, v| v.len() > 1);
        m
    });
    let n = c as u32;
    let mut v: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).collect();
    if let Some(x) = fold(c).and_then(|k| kin.get(&k)) {
        v.extend(x);
    }
    v.extend(
        [
            n & 0x7f,
            n & 0xff,
            n & 0xffff,
            n.wrapping_add(0xfee0),
            n.wrapping_sub(0xfee0),
            n + 1,
            n.wrapping_sub(1),
            n ^ 0x20,
        ]
        .into_iter()
        .filter_map(char::from_u32),
    );
    v.retain(|x| *x != c);
    v.sort_unstable();
    v.dedup();
    v
}
