//! Command line: check / replay / list, the supervising process, evidence files.
use crate::explore::*;
use crate::json::J;
use crate::props::{self, Prop};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
fn limit_as(bytes: u64) {
    let l = [bytes, bytes];
    unsafe {
        setrlimit(9, &l);
    }
}
fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough")
}
fn opts(p: &Prop, th: bool, jd: Option<PathBuf>) -> Opts {
    Opts {
        threads: env_u64("SYMX_THREADS", std::thread::available_parallelism().map_or(8, |x| x.get().min(8)) as u64) as usize,
        budget: Duration::from_secs(env_u64("BUD", if th { 780 } else { p.quick_budget })),
        path_limit: Duration::from_secs(env_u64("SYMX_PATH", if th { 150 } else { 40 })),
        timeout_ms: if th { 20000 } else { 4000 },
        stop_on_violation: std::env::var("SYMX_ALL").is_err(),
        journal: jd,
        seed: env_u64("VERIF_SEED", 1),
    }
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        "check" => check(&a[2], &a[3]),
        "worker" => worker(&a[2], Path::new(&a[3])),
        "replay" => replay(Path::new(&a[2]), true),
        "run" => dev(&a[2], a.get(3).map(|x| x.as_str()).unwrap_or("")),
        _ => {
            eprintln!("usage: symx list | check ID VERIFDIR | replay FILE | run ID [scenario substring]");
            2
        }
    }
}

fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

/// developer mode: in-process run of selected scenarios
fn dev(id: &str, sub: &str) -> i32 {
    let p = find(id).expect("property");
    let th = thorough();
    let sc: Vec<Scen> = (p.scens)(th).into_iter().filter(|s| s.name().contains(sub)).collect();
    let mut o = opts(&p, th, None);
    o.stop_on_violation = std::env::var("STOP").is_ok();
    let out = explore(&sc, &o);
    for (n, r) in &out.per {
        println!(
            "{n}: paths {} q {} st {:.1} icp {}/{}+{} {:.1}s cpu {:.1} max {:.1} checks {} cq {} agree {}/{} left {} inc {:?} unrep {} sl {} ab {:?}",
            r.paths, r.queries, r.solver_time, r.stats.icp_queries, r.stats.icp_sat, r.stats.icp_unsat,
            r.stats.icp_time, r.cpu_time, r.slow_max, r.stats.checks, r.stats.check_queries, r.agree, r.witnesses,
            r.left, r.incomplete, r.unreproduced.len(), r.stats.slivers, r.aborted
        );
        for u in r.differ.iter().take(3) {
            println!("   differ {u}");
        }
        for u in r.unreproduced.iter().take(3) {
            println!("   unrep {u}");
        }
    }
    for v in out.violations.iter().take(10) {
        println!("{v:?}");
    }
    println!("wall {:.1} timeout {}", out.wall, out.timed_out);
    0
}

fn viol_json(id: &str, scen: &str, what: &str, inputs: &[f64], names: &[String], source: &str) -> J {
    J::O(vec![
        ("property".into(), J::s(id)),
        ("scenario".into(), J::s(scen)),
        ("what".into(), J::s(what)),
        ("names".into(), J::strs(names)),
        ("inputs".into(), J::A(inputs.iter().map(|x| J::N(*x)).collect())),
        (
            "inputs_bits".into(),
            J::A(inputs.iter().map(|x| J::s(format!("{:016x}", x.to_bits()))).collect()),
        ),
        ("source".into(), J::s(source)),
    ])
}

/// Runs in the supervised child: explore and write the outcome as JSON.
fn worker(id: &str, dir: &Path) -> i32 {
    limit_as(20 << 30);
    let p = find(id).expect("property");
    let th = thorough();
    let sc = (p.scens)(th);
    let o = opts(&p, th, Some(dir.to_path_buf()));
    let out = explore(&sc, &o);
    let mut tot = ScenRes::default();
    let mut per = vec![];
    let mut samples = vec![];
    let mut vacuous = vec![];
    let mut unrep = vec![];
    for ((n, r), s) in out.per.iter().zip(&sc) {
        if r.witnesses == 0 && r.left == 0 {
            vacuous.push(J::s(n.clone()));
        }
        let ins: Vec<J> = s
            .inputs()
            .iter()
            .map(|(k, lo, hi)| J::s(format!("{k} in [{}, {}]", lo.to_f64(), hi.to_f64())))
            .collect();
        per.push(J::O(vec![
            ("scenario".into(), J::s(n.clone())),
            ("symbolic_inputs".into(), J::A(ins)),
            ("paths".into(), J::I(r.paths as i64)),
            ("paths_unexplored".into(), J::I(r.left as i64)),
            ("branch_decisions".into(), J::I(r.stats.branches as i64)),
            ("assertions".into(), J::I(r.stats.checks as i64)),
            ("assertion_queries".into(), J::I(r.stats.check_queries as i64)),
            ("solver_queries".into(), J::I((r.queries + r.stats.icp_queries) as i64)),
            ("solver_s".into(), J::N(r.solver_time + r.stats.icp_time)),
            ("undecided".into(), J::map(&r.incomplete)),
            ("slivers".into(), J::I(r.stats.slivers as i64)),
            ("native_witnesses".into(), J::I(r.witnesses as i64)),
            ("native_agree".into(), J::I(r.agree as i64)),
            ("outcome_classes".into(), J::I(r.notes.len() as i64)),
        ]));
        for (x, note) in r.samples.iter().take(1) {
            samples.push(J::O(vec![
                ("scenario".into(), J::s(n.clone())),
                ("path_witness".into(), J::A(x.iter().map(|v| J::N(*v)).collect())),
                ("outcome_class".into(), J::s(format!("{note:x}"))),
            ]));
        }
        unrep.extend(r.unreproduced.iter().take(5).map(|x| J::s(x.chars().take(400).collect::<String>())));
        tot.paths += r.paths;
        tot.left += r.left;
        tot.queries += r.queries;
        tot.solver_time += r.solver_time;
        tot.cpu_time += r.cpu_time;
        tot.witnesses += r.witnesses;
        tot.agree += r.agree;
        tot.values += r.values;
        tot.differ.extend(r.differ.iter().map(|x| x.chars().take(400).collect::<String>()));
        tot.native_checks += r.native_checks;
        for (k, v) in &r.incomplete {
            *tot.incomplete.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.aborted {
            *tot.aborted.entry(k.clone()).or_default() += v;
        }
        let (x, y) = (&mut tot.stats, &r.stats);
        x.branches += y.branches;
        x.checks += y.checks;
        x.check_queries += y.check_queries;
        x.icp_queries += y.icp_queries;
        x.icp_time += y.icp_time;
        x.slivers += y.slivers;
        x.sliver_width = x.sliver_width.max(y.sliver_width);
        tot.unreproduced.extend(r.unreproduced.iter().cloned());
    }
    let und: u64 = tot.incomplete.values().sum::<u64>() + tot.unreproduced.len() as u64 + tot.left;
    let j = J::O(vec![
        ("paths".into(), J::I(tot.paths as i64)),
        ("branches".into(), J::I(tot.stats.branches as i64)),
        ("assertions".into(), J::I(tot.stats.checks as i64)),
        ("assertion_queries".into(), J::I(tot.stats.check_queries as i64)),
        ("z3_queries".into(), J::I(tot.queries as i64)),
        ("z3_s".into(), J::N(tot.solver_time)),
        ("interval_queries".into(), J::I(tot.stats.icp_queries as i64)),
        ("interval_s".into(), J::N(tot.stats.icp_time)),
        ("slivers".into(), J::I(tot.stats.slivers as i64)),
        ("sliver_width".into(), J::N(tot.stats.sliver_width)),
        ("undecided".into(), J::I(und as i64)),
        ("undecided_by_reason".into(), J::map(&tot.incomplete)),
        ("path_ends".into(), J::map(&tot.aborted)),
        ("unexplored".into(), J::I(tot.left as i64)),
        ("unreproduced".into(), J::I(tot.unreproduced.len() as i64)),
        ("unreproduced_samples".into(), J::A(unrep)),
        ("witnesses".into(), J::I(tot.witnesses as i64)),
        ("agree".into(), J::I(tot.agree as i64)),
        ("values".into(), J::I(tot.values as i64)),
        ("differ".into(), J::I(tot.differ.len() as i64)),
        ("differ_samples".into(), J::strs(&tot.differ.iter().take(5).cloned().collect::<Vec<_>>())),
        ("native_checks".into(), J::I(tot.native_checks as i64)),
        ("timed_out".into(), J::B(out.timed_out)),
        ("vacuous".into(), J::A(vacuous)),
        ("per".into(), J::A(per)),
        ("samples".into(), J::A(samples)),
        (
            "violations".into(),
            J::A(
                out.violations
                    .iter()
                    .map(|v| viol_json(id, &v.scenario, &v.what, &v.inputs, &v.names, &v.source))
                    .collect(),
            ),
        ),
    ]);
    std::fs::write(dir.join("out.json"), j.text()).unwrap();
    0
}

fn wait_for(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn load_replay(f: &Path) -> Option<(String, String, Vec<f64>)> {
    let j = J::parse(&std::fs::read_to_string(f).ok()?)?;
    let inputs = j
        .get("inputs_bits")?
        .arr()
        .iter()
        .map(|x| u64::from_str_radix(x.str(), 16).map(f64::from_bits).ok())
        .collect::<Option<Vec<_>>>()?;
    Some((j.get("property")?.str().into(), j.get("scenario")?.str().into(), inputs))
}

/// Native replay of one input on the real f64 code. Exit 1 when it fails, 0 when it passes.
fn replay(f: &Path, show: bool) -> i32 {
    limit_as(4 << 30);
    let Some((id, scen, inputs)) = load_replay(f) else {
        eprintln!("unreadable replay file");
        return 2;
    };
    let Some(p) = find(&id) else { return 2 };
    let s = (p.scens)(false)
        .into_iter()
        .chain((p.scens)(true))
        .chain((p.findings)())
        .find(|s| s.name() == scen);
    let Some(s) = s else {
        eprintln!("unknown scenario {scen}");
        return 2;
    };
    let n = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run_native(s.as_ref(), &inputs))
        .unwrap()
        .join()
        .unwrap();
    if show {
        println!(
            "{scen}: failures {:?} panic {:?} outside precondition {}",
            n.failures, n.panicked, n.assumed_away
        );
    }
    if !n.failures.is_empty() || n.panicked.is_some() {
        1
    } else {
        0
    }
}

enum Nat {
    Fails(String),
    Passes,
    Error,
}
fn native_child(exe: &Path, file: &Path) -> Nat {
    let c = Command::new(exe)
        .arg("replay")
        .arg(file)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut c) = c else { return Nat::Error };
    match wait_for(&mut c, Duration::from_secs(20)) {
        None => Nat::Fails("does not terminate (native run exceeded 20 s)".into()),
        Some(s) => match s.code() {
            Some(0) => Nat::Passes,
            Some(1) => {
                let mut t = String::new();
                use std::io::Read;
                let _ = c.stdout.take().map(|mut o| o.read_to_string(&mut t));
                Nat::Fails(t.trim().into())
            }
            Some(2) => Nat::Error,
            c => Nat::Fails(format!("native run died ({c:?}): abort, stack overflow or out of memory")),
        },
    }
}

fn check(id: &str, verif: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = find(id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let th = thorough();
    let exe = std::env::current_exe().unwrap();
    let verif = Path::new(verif);
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let work = std::env::temp_dir().join(format!("symx-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    let mut viols: Vec<J> = vec![];
    // known findings
    let known = std::fs::read_to_string(verif.join("known_findings.json"))
        .ok()
        .and_then(|t| J::parse(&t))
        .unwrap_or(J::A(vec![]));
    let mut known_here: Vec<(String, String, Vec<(f64, f64)>)> = vec![];
    let mut known_lines = vec![];
    for k in known.arr() {
        let g = |n: &str| k.get(n).map(|x| x.str().to_string()).unwrap_or_default();
        if g("property") != id || g("status") != "finding" {
            continue;
        }
        if g("scenario").is_empty() {
            continue;
        }
        let region: Vec<(f64, f64)> = k
            .get("region")
            .map(|r| r.arr().iter().map(|x| (x.arr()[0].num(), x.arr()[1].num())).collect())
            .unwrap_or_default();
        let ins: Vec<f64> = k
            .get("inputs")
            .map(|r| r.arr().iter().map(|x| x.num()).collect())
            .unwrap_or_default();
        let f = work.join("known.json");
        let _ = std::fs::write(&f, viol_json(id, &g("scenario"), "", &ins, &[], "").text());
        if let Nat::Fails(_) = native_child(&exe, &f) {
            known_lines.push(format!("KNOWN-FINDING: property={id} {}", g("describe")));
        }
        known_here.push((g("scenario"), g("check"), region));
    }
    let mut c = Command::new(&exe)
        .arg("worker")
        .arg(id)
        .arg(&work)
        .spawn()
        .expect("spawn worker");
    let o = opts(&p, th, None);
    let st = wait_for(&mut c, o.budget + o.path_limit * 2 + Duration::from_secs(40));
    let out = std::fs::read_to_string(work.join("out.json")).ok().and_then(|t| J::parse(&t));
    let mut error = None;
    if out.is_none() {
        // the worker died or hung: find out natively whether the code under test is to blame
        error = Some(format!("exploration ended abnormally ({st:?})"));
        let mut n = 0;
        if let Ok(rd) = std::fs::read_dir(&work) {
            for e in rd.flatten() {
                let nm = e.file_name().to_string_lossy().to_string();
                if !nm.starts_with('w') {
                    continue;
                }
                let Ok(t) = std::fs::read_to_string(e.path()) else { continue };
                let mut l = t.lines();
                let scen = l.next().unwrap_or("").to_string();
                let ins: Vec<f64> = l.filter_map(|x| x.parse().ok().map(f64::from_bits)).collect();
                n += 1;
                let f = work.join(format!("inflight{n}.json"));
                let _ = std::fs::write(&f, viol_json(id, &scen, "", &ins, &[], "").text());
                if let Nat::Fails(w) = native_child(&exe, &f) {
                    viols.push(viol_json(id, &scen, &w, &ins, &[], "input in flight when the exploration died"));
                }
            }
        }
    }
    if let Some(j) = &out {
        viols.extend(j.get("violations").map(|x| x.arr().to_vec()).unwrap_or_default());
    }
    // split into known and new
    let mut fresh = vec![];
    for v in viols {
        let scen = v.get("scenario").unwrap().str().to_string();
        let what = v.get("what").unwrap().str().to_string();
        let ins: Vec<f64> = v.get("inputs").unwrap().arr().iter().map(|x| x.num()).collect();
        let k = known_here.iter().any(|(s, c, r)| {
            *s == scen
                && what.split("; ").all(|w| w == c)
                && r.len() == ins.len()
                && r.iter().zip(&ins).all(|((lo, hi), x)| lo <= x && x <= hi)
        });
        if !k {
            fresh.push(v);
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    let mut paths = vec![];
    for (i, v) in fresh.iter().enumerate().take(5) {
        let f = ev.join(format!("replay-{id}-{i}.json"));
        let _ = std::fs::write(&f, v.text());
        println!(
            "{}: {} at {:?}",
            v.get("scenario").unwrap().str(),
            v.get("what").unwrap().str(),
            v.get("inputs").unwrap().arr().iter().map(|x| x.num()).collect::<Vec<_>>()
        );
        println!("VIOLATION property={id} replay={}", f.display());
        paths.push(f);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = if fresh.is_empty() { 0 } else { 1 };
    if let Some(j) = &out {
        write_evidence(&p, th, j, fresh.len(), wall, &ev);
        let i = |k: &str| j.get(k).map(|x| x.num()).unwrap_or(0.0);
        println!(
            "{id}: {} paths, {} branch decisions, {} assertion queries, {} solver queries ({:.1} s), {} witnesses replayed natively ({} took the same outcome), undecided {} {}, {:.1} s",
            i("paths"), i("branches"), i("assertion_queries"), i("z3_queries") + i("interval_queries"),
            i("z3_s") + i("interval_s"), i("witnesses"), i("agree"), i("undecided"),
            j.get("undecided_by_reason").map(|x| { let mut s = String::new(); x.show(0, &mut s); s.replace('\n', "") }).unwrap_or_default(),
            wall
        );
        if code == 0 {
            if i("paths") < 1.0 || i("witnesses") < 1.0 {
                error = Some("nothing was explored".into());
            } else if i("undecided") > 0.8 * (i("paths") + i("undecided")) {
                error = Some("too much was left undecided".into());
            } else if j.get("vacuous").is_some_and(|v| !v.arr().is_empty()) {
                println!("note: scenarios without a native witness: {:?}", j.get("vacuous").unwrap().arr().iter().map(|x| x.str().to_string()).collect::<Vec<_>>());
            }
        }
    }
    if code == 0 {
        if let Some(e) = error {
            println!("ERROR {id}: {e}");
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn write_evidence(p: &Prop, th: bool, j: &J, nv: usize, wall: f64, ev: &Path) {
    let g = |k: &str| j.get(k).cloned().unwrap_or(J::Null);
    let mut asm: Vec<String> = vec![
        "f64 is modelled as the exact reals; every path witness and counterexample is replayed on the f64 build".into(),
        "the leaf order of a spatial index of more than 16 boxes is fixed rather than derived from the symbolic boxes".into(),
        "tolerances in assertions are twice the native replay tolerance on the symbolic side".into(),
        "an interval query whose remaining boxes are narrower than the resolution counts as refuted and is reported under slivers".into(),
    ];
    asm.extend(p.assumptions.iter().map(|x| x.to_string()));
    let cov = J::O(vec![
        ("states".into(), g("paths")),
        ("transitions".into(), g("branches")),
        ("traces_validated_against_impl".into(), g("agree")),
        ("native_witnesses".into(), g("witnesses")),
        ("values_compared_with_native".into(), g("values")),
        ("values_differing".into(), g("differ")),
        ("values_differing_samples".into(), g("differ_samples")),
        ("native_assertions".into(), g("native_checks")),
        ("samples".into(), g("samples")),
        ("meaning".into(), J::s("states = feasible execution paths of the library code explored symbolically (each a region of the input space); transitions = branch decisions on symbolic values")),
        ("functions_encoded".into(), J::strs(p.functions)),
        ("bounds".into(), J::s(p.bounds)),
        ("assertions".into(), g("assertions")),
        ("assertion_queries".into(), g("assertion_queries")),
        ("z3_queries".into(), g("z3_queries")),
        ("z3_s".into(), g("z3_s")),
        ("interval_solver_queries".into(), g("interval_queries")),
        ("interval_solver_s".into(), g("interval_s")),
        ("slivers".into(), g("slivers")),
        ("sliver_width".into(), g("sliver_width")),
        ("undecided".into(), g("undecided")),
        ("undecided_by_reason".into(), g("undecided_by_reason")),
        ("path_ends".into(), g("path_ends")),
        ("unexplored_paths".into(), g("unexplored")),
        ("counterexamples_not_reproduced".into(), g("unreproduced")),
        ("not_reproduced_samples".into(), g("unreproduced_samples")),
        ("scenarios_without_witness".into(), g("vacuous")),
        ("scenarios".into(), g("per")),
    ]);
    let e = J::O(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(if th { "thorough" } else { "quick" })),
        ("seed".into(), J::I(env_u64("VERIF_SEED", 1) as i64)),
        ("level".into(), J::s("model_checking")),
        ("coverage".into(), cov),
        ("assumptions".into(), J::strs(&asm)),
        ("wall_s".into(), J::N(wall)),
        ("violations".into(), J::I(nv as i64)),
    ]);
    let _ = std::fs::write(ev.join(format!("{}.json", p.id)), e.text());
    let _: BTreeMap<(), ()> = BTreeMap::new();
}
