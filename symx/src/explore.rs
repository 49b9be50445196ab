//! Worklist exploration of scenarios over all feasible paths, in parallel.
use crate::engine::*;
use crate::solver::MVal;
use crate::sym::*;
use crate::z::Q;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub trait Scenario: Sync + Send {
    fn name(&self) -> String;
    fn inputs(&self) -> Vec<(&'static str, Q, Q)>;
    fn run<T: Dom>(&self, p: &[T]);
}
pub trait DynScenario: Sync + Send {
    fn name(&self) -> String;
    fn inputs(&self) -> Vec<(&'static str, Q, Q)>;
    fn run_sym(&self, p: &[Sym]);
    fn run_f64(&self, p: &[f64]);
}
impl<S: Scenario> DynScenario for S {
    fn name(&self) -> String {
        Scenario::name(self)
    }
    fn inputs(&self) -> Vec<(&'static str, Q, Q)> {
        Scenario::inputs(self)
    }
    fn run_sym(&self, p: &[Sym]) {
        self.run(p)
    }
    fn run_f64(&self, p: &[f64]) {
        self.run(p)
    }
}
#[macro_export]
macro_rules! scenario {
    ($(#[$m:meta])* $N:ident { $($f:ident : $t:ty),* $(,)? } |$s:ident, $p:ident, $T:ident| $b:block) => {
        $(#[$m])*
        pub struct $N {
            pub name: String,
            pub pars: Vec<$crate::fam::Par>,
            $(pub $f: $t),*
        }
        impl $crate::explore::Scenario for $N {
            fn name(&self) -> String {
                self.name.clone()
            }
            fn inputs(&self) -> Vec<(&'static str, $crate::z::Q, $crate::z::Q)> {
                $crate::fam::inputs(&self.pars)
            }
            fn run<$T: $crate::sym::Dom>(&self, $p: &[$T]) {
                let $s = self;
                let full = $crate::fam::fill(&self.pars, $p);
                let $p: &[$T] = &full;
                $b
            }
        }
    };
}
pub type Scen = Box<dyn DynScenario>;

#[derive(Default, Clone, Debug)]
pub struct ScenRes {
    pub paths: u64,
    pub aborted: BTreeMap<String, u64>,
    pub stats: Stats,
    pub queries: u64,
    pub solver_time: f64,
    pub cpu_time: f64,
    pub incomplete: BTreeMap<String, u64>,
    pub unreproduced: Vec<String>,
    pub witnesses: u64,
    pub agree: u64,
    /// values compared between symbolic and native runs
    pub values: u64,
    pub differ: Vec<String>,
    pub native_checks: u64,
    pub notes: std::collections::BTreeSet<u64>,
    pub slow_max: f64,
    pub samples: Vec<(Vec<f64>, u64)>,
    pub left: u64,
}
#[derive(Clone)]
pub struct Opts {
    pub threads: usize,
    pub budget: Duration,
    pub path_limit: Duration,
    pub timeout_ms: u64,
    pub stop_on_violation: bool,
    /// directory for the in-flight journal (read by the supervisor if this process dies)
    pub journal: Option<std::path::PathBuf>,
    pub seed: u64,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub what: String,
    pub inputs: Vec<f64>,
    pub names: Vec<String>,
    pub source: String,
}
pub struct Outcome {
    pub per: Vec<(String, ScenRes)>,
    pub violations: Vec<Violation>,
    pub timed_out: bool,
    pub wall: f64,
}

struct Shared {
    queue: Vec<(usize, Item)>,
    active: usize,
    res: Vec<ScenRes>,
    viol: Vec<Violation>,
    running: Vec<u32>,
    pinned: std::collections::BTreeSet<(usize, String)>,
}

pub struct NativeRun {
    pub failures: Vec<String>,
    pub note: u64,
    pub watch: Vec<f64>,
    pub assumed_away: bool,
    pub panicked: Option<String>,
    pub checks: u64,
}

fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn run_native(s: &dyn DynScenario, p: &[f64]) -> NativeRun {
    NATIVE.with(|n| *n.borrow_mut() = Native::default());
    let r = catch_unwind(AssertUnwindSafe(|| s.run_f64(p)));
    let mut assumed = false;
    let mut panicked = None;
    if let Err(e) = r {
        if e.downcast_ref::<Abort>().is_some() {
            assumed = true;
        } else {
            panicked = Some(panic_text(&e));
        }
    }
    NATIVE.with(|n| {
        let n = n.borrow();
        NativeRun {
            failures: if assumed { vec![] } else { n.failures.clone() },
            note: n.note,
            watch: n.watch.clone(),
            assumed_away: assumed,
            panicked,
            checks: n.checks,
        }
    })
}

pub fn model_f64(m: &[MVal]) -> Vec<f64> {
    m.iter()
        .map(|v| match v {
            MVal::Exact(q) => q.to_f64(),
            MVal::Approx(f) => *f,
        })
        .collect()
}

fn journal(o: &Opts, k: usize, scen: &dyn DynScenario, item: &Item) {
    let Some(d) = &o.journal else { return };
    let p = if item.model.is_empty() {
        scen.inputs()
            .iter()
            .map(|x| (x.1.to_f64() + x.2.to_f64()) / 2.0)
            .collect()
    } else {
        model_f64(&item.model)
    };
    let mut t = scen.name();
    for v in p {
        t.push_str(&format!("\n{}", v.to_bits()));
    }
    let _ = std::fs::write(d.join(format!("w{k}")), t);
}

pub fn explore(scens: &[Scen], o: &Opts) -> Outcome {
    let t0 = Instant::now();
    let sh = Mutex::new(Shared {
        queue: (0..scens.len())
            .rev()
            .map(|i| {
                (
                    i,
                    Item {
                        trace: vec![],
                        model: vec![],
                        fix: BTreeMap::new(),
                    },
                )
            })
            .collect(),
        active: 0,
        res: vec![ScenRes::default(); scens.len()],
        viol: vec![],
        running: vec![0; scens.len()],
        pinned: Default::default(),
    });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let timed = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let slots: Vec<Mutex<Option<Instant>>> = (0..o.threads).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for k in 0..o.threads {
            let (sh, cv, stop, timed, slots) = (&sh, &cv, &stop, &timed, &slots);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        ENG.with(|e| {
                            let mut g = Eng::new(o.timeout_ms);
                            g.path_limit = o.path_limit;
                            *e.borrow_mut() = Some(g)
                        });
                        loop {
                            let job = {
                                let mut g = sh.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break None;
                                    }
                                    if t0.elapsed() > o.budget {
                                        timed.store(true, Ordering::Relaxed);
                                        stop.store(true, Ordering::Relaxed);
                                        break None;
                                    }
                                    if let Some(j) = pick(&mut g) {
                                        g.active += 1;
                                        break Some(j);
                                    }
                                    if g.active == 0 {
                                        break None;
                                    }
                                    g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                                }
                            };
                            let Some((si, item)) = job else {
                                cv.notify_all();
                                break;
                            };
                            journal(o, k, scens[si].as_ref(), &item);
                            *slots[k].lock().unwrap() = Some(Instant::now());
                            let (r, newi, viols) = one_path(scens[si].as_ref(), &item);
                            *slots[k].lock().unwrap() = None;
                            let mut g = sh.lock().unwrap();
                            merge(&mut g.res[si], r);
                            if !viols.is_empty() {
                                g.viol.extend(viols);
                                if o.stop_on_violation {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            for i in newi {
                                if i.trace.is_empty() && !i.fix.is_empty() && !g.pinned.insert((si, format!("{:?}", i.fix))) {
                                    continue;
                                }
                                g.queue.push((si, i));
                            }
                            g.active -= 1;
                            g.running[si] -= 1;
                            drop(g);
                            cv.notify_all();
                        }
                        if let Some(d) = &o.journal {
                            let _ = std::fs::remove_file(d.join(format!("w{k}")));
                        }
                        ENG.with(|e| *e.borrow_mut() = None);
                    })
                    .unwrap(),
            );
        }
        let (done, slots) = (&done, &slots);
        sc.spawn(move || {
            let limit = o.path_limit * 2 + Duration::from_secs(20);
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for s in slots {
                    let g = *s.lock().unwrap();
                    if let Some(t) = g {
                        if t.elapsed() > limit {
                            eprintln!("a path is stuck; giving up");
                            std::process::exit(4);
                        }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut g = sh.into_inner().unwrap();
    for (si, _) in &g.queue {
        g.res[*si].left += 1;
    }
    Outcome {
        per: scens
            .iter()
            .zip(g.res)
            .map(|(s, r)| (s.name(), r))
            .collect(),
        violations: g.viol,
        timed_out: timed.load(Ordering::Relaxed),
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// the next path of the scenario that has had the least time so far
fn pick(g: &mut Shared) -> Option<(usize, Item)> {
    let mut best: Option<(usize, f64)> = None;
    for (k, (si, _)) in g.queue.iter().enumerate() {
        let t = g.res[*si].cpu_time + g.running[*si] as f64 * 0.5;
        if best.is_none_or(|b| t <= b.1) {
            best = Some((k, t));
        }
    }
    let j = g.queue.remove(best?.0);
    g.running[j.0] += 1;
    Some(j)
}
fn merge(a: &mut ScenRes, b: ScenRes) {
    a.paths += b.paths;
    for (k, v) in b.aborted {
        *a.aborted.entry(k).or_default() += v;
    }
    for (k, v) in b.incomplete {
        *a.incomplete.entry(k).or_default() += v;
    }
    a.queries += b.queries;
    a.solver_time += b.solver_time;
    a.cpu_time += b.cpu_time;
    a.unreproduced.extend(b.unreproduced);
    a.witnesses += b.witnesses;
    a.agree += b.agree;
    a.values += b.values;
    a.differ.extend(b.differ);
    a.native_checks += b.native_checks;
    a.notes.extend(b.notes);
    a.slow_max = a.slow_max.max(b.slow_max);
    for x in b.samples {
        if a.samples.len() < 3 {
            a.samples.push(x);
        }
    }
    a.left += b.left;
    let (x, y) = (&mut a.stats, b.stats);
    x.branches += y.branches;
    x.implied += y.implied;
    x.splits += y.splits;
    x.interval += y.interval;
    x.checks += y.checks;
    x.checks_interval += y.checks_interval;
    x.check_queries += y.check_queries;
    x.max_vars = x.max_vars.max(y.max_vars);
    x.unknown += y.unknown;
    x.spurious += y.spurious;
    x.icp_queries += y.icp_queries;
    x.icp_sat += y.icp_sat;
    x.icp_unsat += y.icp_unsat;
    x.icp_time += y.icp_time;
    x.slivers += y.slivers;
    x.sliver_width = x.sliver_width.max(y.sliver_width);
}

fn one_path(s: &dyn DynScenario, item: &Item) -> (ScenRes, Vec<Item>, Vec<Violation>) {
    let t = Instant::now();
    let mut r = ScenRes::default();
    let (q0, st0) = with(|e| {
        e.stats = Stats::default();
        (e.solver.queries, e.solver.time)
    });
    with(|e| e.start(item));
    let out = catch_unwind(AssertUnwindSafe(|| {
        let p: Vec<Sym> = s
            .inputs()
            .iter()
            .map(|(n, lo, hi)| input(n, lo.clone(), hi.clone()))
            .collect();
        s.run_sym(&p);
    }));
    let mut viols = vec![];
    let mut ended = false;
    let mut redirect = None;
    match out {
        Ok(()) => {
            r.paths = 1;
            ended = true;
        }
        Err(e) => {
            if let Some(a) = e.downcast_ref::<Abort>() {
                if a.0 != "assume" && !a.0.starts_with("infeasible") && a.0 != "operation limit" {
                    // a path that pins an input: start over with that input constant
                    let pins = catch_unwind(AssertUnwindSafe(|| with(|e| e.pinned()))).unwrap_or_default();
                    if pins.len() > item.fix.len() {
                        redirect = Some(Item { trace: vec![], model: with(|e| e.model.clone()), fix: pins });
                    }
                }
                *r.aborted.entry(a.0.clone()).or_default() += 1;
                if redirect.is_none() && a.0 != "assume" && !a.0.starts_with("infeasible") {
                    *r.incomplete.entry(a.0.clone()).or_default() += 1;
                }
            } else {
                r.paths = 1;
                let txt = panic_text(&e);
                let m = catch_unwind(AssertUnwindSafe(|| with(|e| e.path_model())))
                    .unwrap_or_default();
                with(|e| {
                    e.cexs.push(Cex {
                        what: format!("panic: {txt}"),
                        model: m,
                        panic: true,
                    })
                });
            }
        }
    }
    let names: Vec<String> = s.inputs().iter().map(|x| x.0.to_string()).collect();
    let watch: Vec<f64> = catch_unwind(AssertUnwindSafe(|| with(|e| e.watched()))).unwrap_or_default();
    let (cexs, model, note, mut pushed, stats, q1, st1, inc) = with(|e| {
        (
            std::mem::take(&mut e.cexs),
            e.model.clone(),
            e.note,
            std::mem::take(&mut e.pushed),
            e.stats.clone(),
            e.solver.queries,
            e.solver.time,
            std::mem::take(&mut e.incomplete),
        )
    });
    pushed.extend(redirect);
    r.queries = q1 - q0;
    r.solver_time = st1 - st0;
    r.stats = stats;
    for i in inc {
        *r.incomplete.entry(i).or_default() += 1;
    }
    for c in cexs {
        let p = model_f64(&c.model);
        let n = run_native(s, &p);
        let bad = !n.failures.is_empty() || n.panicked.is_some();
        if bad {
            let w = n
                .panicked
                .clone()
                .map(|x| format!("panic: {x}"))
                .unwrap_or_else(|| n.failures.join("; "));
            viols.push(Violation {
                scenario: s.name(),
                what: w,
                inputs: p,
                names: names.clone(),
                source: format!("solver counterexample to: {}", c.what),
            });
        } else {
            r.unreproduced.push(format!(
                "{}: {} at {:?} (assumed away natively: {})",
                s.name(),
                c.what,
                p,
                n.assumed_away
            ));
        }
    }
    if ended {
        // replay the path's witness on the real f64 code
        let p = model_f64(&model);
        let n = run_native(s, &p);
        if !n.assumed_away {
            r.witnesses = 1;
            r.samples.push((p.clone(), n.note));
            r.native_checks = n.checks;
            if n.note == note {
                r.agree = 1;
                if n.watch.len() == watch.len() && !watch.is_empty() {
                    r.values = watch.len() as u64;
                    for (a, b) in watch.iter().zip(&n.watch) {
                        if !((a - b).abs() <= 1e-4 * (1.0 + b.abs())) {
                            r.differ.push(format!("{}: symbolic {a} native {b} at {p:?}", s.name()));
                            break;
                        }
                    }
                }
            }
            if !n.failures.is_empty() || n.panicked.is_some() {
                let w = n
                    .panicked
                    .clone()
                    .map(|x| format!("panic: {x}"))
                    .unwrap_or_else(|| n.failures.join("; "));
                viols.push(Violation {
                    scenario: s.name(),
                    what: w,
                    inputs: p,
                    names: names.clone(),
                    source: "native replay of a path witness".into(),
                });
            }
        }
        r.notes.insert(note);
    }
    r.cpu_time = t.elapsed().as_secs_f64();
    r.slow_max = r.cpu_time;
    (r, pushed, viols)
}
