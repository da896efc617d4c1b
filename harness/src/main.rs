//! `elv check C01`       runs the check of a property (VERIF_SEED, VERIF_TIER)
//! `elv replay FILE`     runs one saved case again: exit 0 it passes, 1 it fails
//! `elv list`            prints the properties and their sections
//! `elv porter`           the reference English stems of the words on standard input
//! `elv exporter`        exports the cases on standard input (for C06)
//! `elv probes`          builds what C24 needs besides the crate itself
//! `elv dict`            prints the literals of /repo/src (data/base_literals.txt)

use elv::engine::*;
use elv::props;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, ExitStatus};
use std::time::{Duration, Instant};

/// Address space of a worker: 8 stacks of half a gigabyte, and plenty for the cases.
const MEMORY: u64 = 16 << 30;

const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

fn root() -> PathBuf {
    std::fs::canonicalize(ROOT).unwrap_or_else(|_| PathBuf::from(ROOT))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => check(arg(2)),
        "worker" => worker(arg(2), a.get(3).map(PathBuf::from)),
        "replay" => replay(Path::new(arg(2))),
        "demo-stack" => demo_stack(arg(2).parse().unwrap()),
        "porter" => {
            for l in std::io::stdin().lines() {
                println!("{}", elv::oracle::porter::stem(&l.unwrap()));
            }
        }
        "exporter" => {
            install_panic_hook();
            props::index::exporter()
        }
        "dict" => elv::dict::dump(),
        "probes" => props::registry::warm(),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
                for s in (p.sections)() {
                    println!("  {}: {}", s.name, s.rule);
                }
            }
        }
        _ => {
            eprintln!("usage: elv check ID | replay FILE | list | dict");
            exit(2);
        }
    }
}

fn find(id: &str) -> props::Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id:?}");
        exit(2)
    })
}

fn findings() -> Vec<Value> {
    let p = root().join("known_findings.json");
    let t = std::fs::read_to_string(&p).unwrap_or_else(|e| {
        eprintln!("HARNESS-ERROR: {}: {e}", p.display());
        exit(3)
    });
    let v: Value = serde_json::from_str(&t).unwrap_or_else(|e| {
        eprintln!("HARNESS-ERROR: {}: {e}", p.display());
        exit(3)
    });
    v["findings"].as_array().cloned().unwrap_or_default()
}

fn known_for(id: &str) -> Vec<(String, String)> {
    findings()
        .iter()
        .filter(|f| f["property"] == id && f["status"] == "known")
        .map(|f| (f["id"].as_str().unwrap().to_string(), f["what"].as_str().unwrap().to_string()))
        .collect()
}

/// How a process went down, if it did.
fn crashed(s: &ExitStatus) -> Option<String> {
    if s.code() == Some(HUNG) {
        return Some(format!("a case does not end within {} s", HANG.as_secs()));
    }
    s.signal()
        .filter(|n| [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(n))
        .map(|n| format!("the process is ended by signal {n}"))
}

fn run(cmd: &mut Command, limit: Duration) -> ExitStatus {
    let mut ch = cmd.spawn().unwrap_or_else(|e| {
        eprintln!("HARNESS-ERROR: {e}");
        exit(3)
    });
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return s;
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            eprintln!("INCONCLUSIVE: no answer within {} s", limit.as_secs());
            exit(4);
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

/// Runs the worker in a process of its own, so that a crash of the code under test is seen
/// from outside and can be tied to the case that causes it.
fn check(id: &str) {
    find(id);
    let me = std::env::current_exe().unwrap();
    let start = Instant::now();
    let limit = Duration::from_secs(if tier() == Tier::Quick { 780 } else { 6 * 3600 });
    let s = run(Command::new(&me).args(["worker", id]), limit);
    let Some(what) = crashed(&s) else {
        exit(s.code().unwrap_or(3));
    };
    if s.code() == Some(HUNG) && id != "C16" {
        // only C16 says that processing ends
        eprintln!("INCONCLUSIVE: {what}");
        exit(4);
    }
    eprintln!("{what}; running again to find the case");
    let dir = root().join("replays").join(format!("crumbs-{id}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let s = run(Command::new(&me).args(["worker", id]).arg(&dir), limit.saturating_sub(start.elapsed()).max(Duration::from_secs(60)));
    if crashed(&s).is_none() {
        eprintln!("HARNESS-ERROR: the crash did not come back");
        exit(3);
    }
    let mut crumbs: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    // the newest cases first
    crumbs.sort_by_key(|p| std::cmp::Reverse(p.metadata().and_then(|m| m.modified()).ok()));
    for c in crumbs {
        let section = c.file_stem().unwrap().to_string_lossy().to_string();
        let Ok(case) = std::fs::read_to_string(&c).map_err(|_| ()).and_then(|t| serde_json::from_str::<Value>(&t).map_err(|_| ())) else { continue };
        let path = replay_path(id, &section);
        write_json(&path, &json!({"property": id, "section": section, "case": case, "message": what}));
        let s = run(Command::new(&me).arg("replay").arg(&path).stdout(std::process::Stdio::null()), HANG + Duration::from_secs(100));
        if let Some(what) = crashed(&s) {
            write_json(&path, &json!({"property": id, "section": section, "case": case, "message": what}));
            write_json(
                &root().join("evidence").join(format!("{id}.json")),
                &json!({
                    "property": id, "tier": tier().name(), "seed": seed(), "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the worker crashed; the one case counted is the crashing one", "samples": [case]},
                    "wall_s": start.elapsed().as_secs_f64(), "violations": 1
                }),
            );
            let _ = std::fs::remove_dir_all(&dir);
            println!("{id} {section}: {what}");
            println!("VIOLATION property={id} replay={}", path.display());
            exit(1);
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("HARNESS-ERROR: no single case crashes the process");
    exit(3);
}

fn replay_path(id: &str, section: &str) -> PathBuf {
    root().join("replays").join(format!("{id}-{section}.json"))
}

fn regressions(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root().join("regress").join(id))
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn fuzz_bin() -> PathBuf {
    root().join("fuzz/target/release/elv-fuzz")
}

fn load_json(p: &Path) -> Value {
    std::fs::read_to_string(p)
        .map_err(|e| e.to_string())
        .and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string()))
        .unwrap_or_else(|e| {
            eprintln!("HARNESS-ERROR: {}: {e}", p.display());
            exit(3)
        })
}

fn load_case(p: &Path) -> (String, String, Value) {
    let v = load_json(p);
    (v["property"].as_str().unwrap_or("").into(), v["section"].as_str().unwrap_or("").into(), v["case"].clone())
}

fn run_case(id: &str, section: &str, case: Value) -> Result<Obs, String> {
    let (id, section) = (id.to_string(), section.to_string());
    with_stack(STACK, move || {
        let s = (find(&id).sections)();
        let Some(s) = s.iter().find(|s| s.name == section) else {
            eprintln!("HARNESS-ERROR: property {id} has no section {section:?}");
            exit(3);
        };
        (s.replay)(&case)
    })
}

fn replay(p: &Path) {
    install_panic_hook();
    limit_memory(MEMORY);
    watch_for_hangs();
    let (id, section, case) = load_case(p);
    let known: Vec<String> = known_for(&id).into_iter().map(|x| x.0).collect();
    set_listed(known.clone());
    let guided = load_json(p)["guided"] == true;
    match run_case(&id, &section, case.clone()) {
        Ok(_) if guided && elv::fuzz::replay(&fuzz_bin(), &id, &section, &case, &known).is_some() => {
            let why = elv::fuzz::replay(&fuzz_bin(), &id, &section, &case, &known).unwrap_or_default();
            println!("{id} {section} (without debug assertions): {why}");
            println!("VIOLATION property={id} replay={}", p.display());
            exit(1);
        }
        Ok(o) => {
            for k in o.known {
                println!("KNOWN-FINDING: property={id} {k}");
            }
            println!("{id} {section}: holds");
        }
        Err(e) => {
            println!("{id} {section}: {e}");
            println!("VIOLATION property={id} replay={}", p.display());
            exit(1);
        }
    }
}

fn worker(id: &str, crumbs: Option<PathBuf>) {
    let start = Instant::now();
    install_panic_hook();
    limit_memory(MEMORY);
    watch_for_hangs();
    let prop = find(id);
    let known = known_for(id);
    set_listed(known.iter().map(|x| x.0.clone()).collect());
    let ctx = RunCtx { prop: id.into(), tier: tier(), seed: seed(), breadcrumbs: crumbs, shards: SHARDS };
    let mut violation: Option<(PathBuf, String)> = None;
    let mut sections = vec![];
    let mut report = Report::default();
    let mut guided = 0;

    // for measuring what the coverage-guided search alone finds (tools/catch.sh -g)
    let guided_only = std::env::var_os("ELV_GUIDED_ONLY").is_some();

    // saved inputs first
    let saved = regressions(id);
    for p in saved.iter().filter(|_| !guided_only) {
        let (_, section, case) = load_case(p);
        if let Some(d) = &ctx.breadcrumbs {
            std::fs::write(d.join(format!("{section}.saved")), case.to_string()).unwrap();
        }
        report.evaluations += 1;
        if let Err(e) = run_case(id, &section, case) {
            violation = Some((p.clone(), format!("{section} (saved input): {e}")));
            break;
        }
    }
    sections.push(json!({"section": "saved inputs", "evaluations": report.evaluations}));

    if violation.is_none() && !guided_only {
        let out = run_sections(&ctx, &(prop.sections)());
        sections.extend(out.sections);
        report.evaluations += out.report.evaluations;
        report.nontrivial = out.report.nontrivial;
        report.known = out.report.known;
        report.samples = out.report.samples;
        if let Some(f) = out.report.failure {
            let p = replay_path(id, &f.section);
            write_json(&p, &json!({"property": id, "section": f.section, "case": f.case, "message": f.message, "seed": ctx.seed, "tier": ctx.tier.name()}));
            violation = Some((p, format!("{}: {}", f.section, f.message)));
        }
    }
    if violation.is_none() && ctx.breadcrumbs.is_none() && !elv::fuzz::of(id).is_empty() {
        let scratch = root().join("replays").join(format!("fuzz-{id}-{}", std::process::id()));
        let listed: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
        let out = elv::fuzz::run(&fuzz_bin(), &ctx, &scratch, &listed);
        report.evaluations += out.runs;
        guided = out.nontrivial;
        sections.extend(out.sections);
        for k in out.known {
            *report.known.entry(k).or_default() += 1;
        }
        if let Some(f) = out.failure {
            let p = replay_path(id, &f.section);
            write_json(&p, &json!({"property": id, "section": f.section, "case": f.case, "message": f.message, "guided": true, "seed": ctx.seed, "tier": ctx.tier.name()}));
            violation = Some((p, format!("{} (coverage-guided): {}", f.section, f.message)));
        } else if let Some((section, case, how)) = out.crash {
            // the same case in a process of its own decides
            let p = replay_path(id, &section);
            write_json(&p, &json!({"property": id, "section": section, "case": case, "message": how, "guided": true}));
            let me = std::env::current_exe().unwrap();
            let s = run(Command::new(me).arg("replay").arg(&p).stdout(std::process::Stdio::null()), HANG + Duration::from_secs(100));
            match (crashed(&s), s.code()) {
                (Some(what), Some(HUNG)) if id != "C16" => {
                    eprintln!("INCONCLUSIVE: {what}");
                    exit(4);
                }
                (Some(what), _) => violation = Some((p, format!("{section} (coverage-guided): {what}"))),
                (None, Some(1)) => violation = Some((p, format!("{section} (coverage-guided): {how}"))),
                _ => {
                    eprintln!("HARNESS-ERROR: a process of the coverage-guided search ended with {how}, and its case alone does not");
                    exit(3);
                }
            }
        }
    }
    if id == "C16" && violation.is_none() && known.iter().any(|k| k.0 == "long-word-stack") {
        let me = std::env::current_exe().unwrap();
        let r = Command::new(me).args(["demo-stack", "300000"]).stderr(std::process::Stdio::null()).status().unwrap();
        report.evaluations += 1;
        if crashed(&r).is_some() {
            report.known.insert("long-word-stack".into(), 1);
        }
    }

    let rule = "see `sections`: each section's rule says how its cases are made and what makes one non-trivial; distinct_nontrivial counts distinct serialized cases (coverage-guided ones per process)";
    write_json(
        &root().join("evidence").join(format!("{id}.json")),
        &json!({
            "property": id,
            "tier": ctx.tier.name(),
            "seed": ctx.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": report.evaluations,
                "distinct_nontrivial": report.nontrivial.len() + guided,
                "rule": rule,
                "samples": report.samples,
                "sections": sections,
                "known_findings_met": report.known,
            },
            "assumptions": prop.assumptions,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": violation.is_some() as u32,
        }),
    );
    for (k, what) in &known {
        if let Some(n) = report.known.get(k) {
            println!("KNOWN-FINDING: property={id} {k}: {what} (met {n} times)");
        }
    }
    println!("{id}: {} evaluations, {} distinct non-trivial, {:.1} s", report.evaluations, report.nontrivial.len() + guided, start.elapsed().as_secs_f64());
    if let Some((p, why)) = violation {
        let why: String = why.chars().take(3000).collect();
        println!("{id} {why}");
        println!("VIOLATION property={id} replay={}", p.display());
        exit(1);
    }
}

/// The known finding long-word-stack: one word of `n` letters, on a stack of 2 MB.
fn demo_stack(n: usize) {
    with_stack(2 << 20, move || {
        let mut i = elasticlunr::Index::new(["body"]);
        i.add_doc("1", ["k".repeat(n)]);
        println!("{}", i.to_json().len());
    });
}
