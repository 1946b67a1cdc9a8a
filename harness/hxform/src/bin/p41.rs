//! P41: a result depends on the arguments alone: not on what was computed
//! before, on the thread, or on the debug assertions of the build.
use approx_cmp::{abs_diff_eq, relative_eq, ulps_eq};
use hxform::*;
use pbt::{ck, Res, Src, Suite};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// an expression, and its result or None for a panic
type Results = Vec<(&'static str, Option<String>)>;
thread_local! {
    static SEEN: RefCell<Results> = const { RefCell::new(Vec::new()) };
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
fn seen<T: Debug>(what: &'static str, f: impl FnOnce() -> T) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = f();
        format!("{r:?}")
    }));
    SEEN.with(|s| s.borrow_mut().push((what, r.ok())));
}
macro_rules! no {
    ($($e:expr),* $(,)?) => {{ $( seen(stringify!($e), || $e); )* }};
}
fn print<T: Display>(x: &T) -> String {
    x.to_string()
}
include!("../p40_exact.rs");
mod f32s {
    use super::*;
    type S = f32;
    include!("../p40_reals.rs");
}
mod f64s {
    use super::*;
    type S = f64;
    include!("../p40_reals.rs");
}
type Catalogue = fn(&mut Src) -> Res;
const KINDS: [(&str, Catalogue); 5] =
    [("i32", exact::<i32>), ("u8", exact::<u8>), ("i128", exact::<i128>), ("f32", f32s::reals), ("f64", f64s::reals)];

/// the results of one part of the catalogue
fn results(kind: usize, s: &mut Src) -> Results {
    SEEN.with(|r| r.borrow_mut().clear());
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| KINDS[kind].1(s))) {
        // what is computed between the recorded expressions panics
        drop(e);
        SEEN.with(|r| r.borrow_mut().push(("the preparation", None)));
    }
    SEEN.with(|r| std::mem::take(&mut *r.borrow_mut()))
}
struct Peer {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
/// the results of the same part in the other build
fn elsewhere(kind: usize, choices: &[u64]) -> Option<Vec<Option<String>>> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = std::env::var_os("P41_PEER")?;
            let mut child = Command::new(exe).arg("--peer").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("the peer starts");
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *p = Some(Peer { _child: child, to, from });
        }
        let p = p.as_mut()?;
        let mut l = kind.to_string();
        for c in choices {
            l.push(' ');
            l.push_str(&c.to_string());
        }
        l.push('\n');
        p.to.write_all(l.as_bytes()).expect("the peer reads");
        p.to.flush().expect("the peer reads");
        let mut out = vec![];
        loop {
            let mut l = String::new();
            assert!(p.from.read_line(&mut l).expect("the peer answers") > 0, "the other build crashed");
            match l.trim_end().split_at(1) {
                ("=", v) => out.push(Some(v.to_string())),
                ("!", _) => out.push(None),
                _ => return Some(out),
            }
        }
    })
}
fn flat(s: &str) -> String {
    s.replace('\n', "\\n")
}
fn be_peer() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for l in std::io::stdin().lines() {
        let l = l.expect("a line");
        let mut w = l.split_whitespace().map(|x| x.parse::<u64>().expect("a number"));
        let kind = w.next().expect("a kind") as usize;
        let choices: Vec<u64> = w.collect();
        for (_, r) in results(kind, &mut Src::given(&choices)) {
            match r {
                Some(r) => writeln!(out, "={}", flat(&r)),
                None => writeln!(out, "!"),
            }
            .expect("the caller reads");
        }
        writeln!(out, ".").and_then(|_| out.flush()).expect("the caller reads");
    }
}
fn same(when: &str, want: &Results, got: &Results) -> Res {
    ck!(want.len() == got.len(), "{when}: {} results, then {}", want.len(), got.len());
    for (w, g) in want.iter().zip(got) {
        ck!(w.1 == g.1, "{when}: {} gave {:?} first, then {:?}", w.0, w.1, g.1);
    }
    Ok(())
}
/// a part of the catalogue with its arguments, and its results when first computed
struct Step {
    kind: usize,
    choices: Vec<u64>,
    first: Results,
}
impl Step {
    fn again(&self) -> Results {
        results(self.kind, &mut Src::given(&self.choices))
    }
}
fn history(s: &mut Src, kinds: &[usize], builds: bool) -> Res {
    let n = 1 + s.draw(3) as usize + !builds as usize;
    let mut steps: Vec<Step> = vec![];
    while steps.len() < n {
        let near = if steps.is_empty() || builds { 0 } else { s.draw(2) };
        if near > 0 {
            // an earlier step with one of its numbers a little, or wholly, different
            let i = s.below(steps.len());
            let (kind, mut choices) = (steps[i].kind, steps[i].choices.clone());
            if choices.len() > 1 {
                let j = 1 + s.below(choices.len() - 1);
                choices[j] = if near == 1 { choices[j] ^ 1 } else { s.draw(u64::MAX) };
            }
            let mut t = Src::given(&choices);
            let first = results(kind, &mut t);
            let (_, choices) = (0, t.choices().to_vec());
            steps.push(Step { kind, choices, first });
        } else {
            let kind = kinds[s.below(kinds.len())];
            let (first, choices) = s.part(|s| results(kind, s));
            steps.push(Step { kind, choices, first });
        }
    }
    s.note("steps", &steps.iter().map(|t| (KINDS[t.kind].0, t.first.len())).collect::<Vec<_>>());
    if builds {
        for t in &steps {
            let Some(there) = elsewhere(t.kind, &t.choices) else { return Err("no other build to compare with: set P41_PEER".into()) };
            ck!(there.len() == t.first.len() || t.first.iter().any(|f| f.0 == "the preparation"), "the other build: {} results, not {}", there.len(), t.first.len());
            for (w, g) in t.first.iter().zip(&there) {
                // where this build finds an overflow, the other need not
                let Some(v) = &w.1 else { continue };
                ck!(Some(flat(v)) == *g, "{} gives {:?}, without debug assertions {:?}", w.0, v, g);
            }
        }
        return Ok(());
    }
    // in the same order again, backwards, and shuffled
    for t in &steps {
        same("computed again", &t.first, &t.again())?;
    }
    for t in steps.iter().rev() {
        same("computed again, in reverse order", &t.first, &t.again())?;
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, s.below(i + 1));
    }
    for &i in &order {
        same("computed again, in another order", &steps[i].first, &steps[i].again())?;
    }
    // and on two other threads at once
    std::thread::scope(|sc| {
        let run = |order: Vec<usize>| {
            let steps = &steps;
            sc.spawn(move || order.iter().try_for_each(|&i| same("computed on another thread", &steps[i].first, &steps[i].again())))
        };
        let (a, b) = (run((0..n).collect()), run(order.clone()));
        a.join().expect("a thread ends").and(b.join().expect("a thread ends"))
    })
}
fn main() {
    if std::env::args().any(|a| a == "--peer") {
        return be_peer();
    }
    let mut suite = Suite::new("P41", "a component other than 0 and 1 was drawn");
    suite.quick = 2_000;
    suite.thorough = 30_000;
    suite.add_w("histories of integers", 0.5, |s: &mut Src| history(s, &[0, 1, 2], false));
    suite.add_w("histories of f32", 1.0, |s: &mut Src| history(s, &[3], false));
    suite.add_w("histories of f64", 1.0, |s: &mut Src| history(s, &[4], false));
    suite.add_w("histories of everything", 1.0, |s: &mut Src| history(s, &[0, 1, 2, 3, 4], false));
    suite.add_w("builds: integers", 1.0, |s: &mut Src| history(s, &[0, 1, 2], true));
    suite.add_w("builds: f32", 1.0, |s: &mut Src| history(s, &[3], true));
    suite.add_w("builds: f64", 1.0, |s: &mut Src| history(s, &[4], true));
    pbt::main(suite);
}
