mod alloc;
mod cards;
mod engine;
mod model;
mod props;
mod readers;
mod tiles;
mod util;

use engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, ExitStatus};
use std::time::Instant;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Opts {
    property: String,
    tier: Tier,
    seed: u64,
    replay: Option<PathBuf>,
    child: bool,
    trace: Option<PathBuf>,
    out: Option<PathBuf>,
    only: Option<String>,
    /// a failing input of the coverage-guided search
    artifact: Option<PathBuf>,
    /// divides the number of cases, to try things quickly
    divide: u64,
}

fn parse_args() -> Opts {
    let mut o = Opts {
        property: String::new(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        replay: None,
        child: false,
        trace: None,
        out: None,
        only: None,
        artifact: None,
        divide: 1,
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().expect("missing value");
        match a.as_str() {
            "--tier" => {
                o.tier = match val().as_str() {
                    "thorough" => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--seed" => o.seed = val().parse().expect("seed"),
            "--replay" => o.replay = Some(val().into()),
            "--child" => o.child = true,
            "--trace" => o.trace = Some(val().into()),
            "--out" => o.out = Some(val().into()),
            "--only" => o.only = Some(val()),
            "--artifact" => o.artifact = Some(val().into()),
            "--divide" => o.divide = val().parse().expect("number"),
            _ => o.property = a,
        }
    }
    o
}

fn find_check<'a>(checks: &'a [Box<dyn Check>], name: &str) -> &'a dyn Check {
    checks
        .iter()
        .find(|c| c.name() == name)
        .unwrap_or_else(|| panic!("no check named {name}"))
        .as_ref()
}

/// Runs the checks of the property; the result goes to a file
fn child(o: &Opts) -> ! {
    install_panic_hook();
    // memory that grows without end is refused too
    let lim = libc::rlimit {
        rlim_cur: alloc::ADDRESS_SPACE,
        rlim_max: alloc::ADDRESS_SPACE,
    };
    assert_eq!(unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) }, 0);
    let checks = props::checks(&o.property);
    if let Some(r) = &o.replay {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(r).unwrap()).unwrap();
        let check = find_check(&checks, v["check"].as_str().unwrap());
        let case = v["case"].to_string();
        // the same stack as the workers
        let res = with_deadline(|| check.replay(&case)).expect("the replay died");
        match res {
            Ok(()) => exit(0),
            Err(m) => {
                println!("{m}");
                exit(1)
            }
        }
    }
    if let Some(a) = &o.artifact {
        let check = find_check(&checks, o.only.as_deref().unwrap());
        let choices = choices_of_bytes(&std::fs::read(a).unwrap());
        let out = o.out.as_ref().unwrap();
        let write = |message: &str, choices: &[u64]| {
            let case: Value = serde_json::from_str(&check.case_json(choices, true)).unwrap();
            let f = json!({"check": check.name(), "message": message, "case": case});
            std::fs::write(out, f.to_string()).unwrap();
        };
        // in case it kills the process
        write("the process died", &choices);
        let ok = with_deadline(|| check.run_choices(&choices, true, None).is_ok());
        if ok.expect("the case died") {
            exit(0);
        }
        let choices = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || shrink(check, choices, true))
                .unwrap()
                .join()
                .unwrap()
        });
        let res = with_deadline(|| check.run_choices(&choices, true, None));
        let (message, _) = res.unwrap().expect_err("the failure was lost");
        write(&message, &choices);
        exit(1)
    }
    let mut parts = vec![];
    let mut failure = None;
    for c in &checks {
        if o.only.as_deref().is_some_and(|n| n != c.name()) {
            continue;
        }
        let t = Instant::now();
        let on_hang = |f: Failure| {
            let case: Value = serde_json::from_str(&f.case).unwrap();
            let failure = json!({"check": f.check, "message": f.message, "case": case});
            let res = json!({"parts": [], "failure": failure});
            std::fs::write(o.out.as_ref().unwrap(), res.to_string()).unwrap();
            exit(1)
        };
        let (col, fail) = explore(
            c.as_ref(),
            o.tier,
            o.seed,
            o.divide,
            o.trace.as_deref(),
            &on_hang,
        );
        parts.push(json!({
            "check": c.name(),
            "rule": c.rule(),
            "evaluations": col.evaluations,
            "nontrivial": col.nontrivial,
            "distinct_nontrivial": col.distinct_nontrivial.len(),
            "classes": col.classes,
            "samples": col.samples,
            "wall_s": t.elapsed().as_secs_f64(),
        }));
        if let Some(f) = fail {
            let case: Value = serde_json::from_str(&f.case).unwrap();
            failure = Some(json!({"check": f.check, "message": f.message, "case": case}));
            break;
        }
    }
    let res = json!({"parts": parts, "failure": failure});
    std::fs::write(o.out.as_ref().unwrap(), res.to_string()).unwrap();
    exit(if failure.is_some() { 1 } else { 0 })
}

fn died(st: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn spawn(args: &[&str]) -> ExitStatus {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .status()
        .expect("cannot start the checks")
}

fn violation(property: &str, replay: &Path, message: &str) -> ! {
    println!("{message}");
    println!("VIOLATION property={property} replay={}", replay.display());
    exit(1)
}

fn write_replay(o: &Opts, f: &Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{}-{}.json", o.property, f["check"].as_str().unwrap()));
    std::fs::write(&p, serde_json::to_string_pretty(f).unwrap()).unwrap();
    p
}

fn main() {
    let o = parse_args();
    if o.property == "--list" || o.property.is_empty() {
        for p in props::ALL {
            println!("{p}");
        }
        return;
    }
    if o.child {
        child(&o);
    }
    let t0 = Instant::now();
    let seed = o.seed.to_string();
    let tier = o.tier.name();

    if let Some(r) = &o.replay {
        let st = spawn(&[&o.property, "--child", "--replay", r.to_str().unwrap()]);
        match (st.code(), died(&st)) {
            (Some(0), _) => {
                println!("the property holds on this case");
                exit(0)
            }
            (Some(1), _) => violation(&o.property, r, "replayed"),
            (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGSEGV)) => {
                violation(&o.property, r, "the process died")
            }
            _ => exit(2),
        }
    }

    let scratch = std::env::temp_dir().join(format!("fitscheck-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("FITSCHECK_SCRATCH", &scratch);
    let code = supervise(&o, tier, &seed, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    exit(code)
}

fn supervise(o: &Opts, tier: &str, seed: &str, scratch: &Path, t0: Instant) -> i32 {
    let out = scratch.join("out.json");
    let outs = out.to_str().unwrap();
    let mut args = vec![
        &o.property[..],
        "--child",
        "--tier",
        tier,
        "--seed",
        seed,
        "--out",
        outs,
    ];
    if let Some(n) = &o.only {
        args.extend(["--only", n]);
    }
    let divide = o.divide.to_string();
    args.extend(["--divide", &divide]);
    let st = spawn(&args);
    match (st.code(), died(&st)) {
        (Some(0) | Some(1), _) => {}
        (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGSEGV)) => {
            // An allocation that was refused, or a stack overflow. Which case was it?
            let trace = scratch.join("trace");
            std::fs::create_dir_all(&trace).unwrap();
            let mut targs = args.clone();
            let ts = trace.to_str().unwrap().to_owned();
            targs.extend(["--trace", &ts]);
            let _ = spawn(&targs);
            for w in 0..WORKERS {
                let p = trace.join(format!("{w}.json"));
                if !p.exists() {
                    continue;
                }
                let st = spawn(&[&o.property, "--child", "--replay", p.to_str().unwrap()]);
                if matches!(died(&st), Some(libc::SIGABRT) | Some(libc::SIGSEGV)) {
                    let v: Value =
                        serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
                    let r = write_replay(o, &v);
                    let _ = std::fs::remove_dir_all(scratch);
                    violation(
                        &o.property,
                        &r,
                        "the process died: an allocation of more than 2 GiB, memory exhausted, or a stack overflow",
                    );
                }
            }
            eprintln!("the checks died and no case explains it");
            return 3;
        }
        _ => {
            eprintln!("the checks ended abnormally: {st:?}");
            return 3;
        }
    }
    let res: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
    let parts = res["parts"].as_array().unwrap();
    let sum = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap()).sum::<u64>();
    let rule: Vec<String> = parts
        .iter()
        .map(|p| format!("[{}] {}", p["check"].as_str().unwrap(), p["rule"].as_str().unwrap()))
        .collect();
    let mut samples = vec![];
    for p in parts {
        for s in p["samples"].as_array().unwrap().iter().take(2) {
            samples.push(json!({"check": p["check"], "case": s}));
        }
    }
    let breakdown: Vec<Value> = parts
        .iter()
        .map(|p| {
            let mut p = p.clone();
            p.as_object_mut().unwrap().remove("samples");
            p
        })
        .collect();
    let mut failure = res["failure"].clone();
    let guided = match std::env::var_os("FITSFUZZ_BIN") {
        Some(bin) if o.tier == Tier::Thorough && failure.is_null() => {
            let names: Vec<&str> = parts.iter().map(|p| p["check"].as_str().unwrap()).collect();
            guided(o, Path::new(&bin), &names, scratch, &mut failure)
        }
        _ => json!([]),
    };
    let evidence = json!({
        "property": o.property,
        "tier": tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("distinct_nontrivial"),
            "rule": rule.join(" "),
            "samples": samples,
            "breakdown": breakdown,
            "coverage_guided": guided,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join(format!("{}.json", o.property)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();
    println!(
        "{} {tier} seed={}: {} cases, {} distinct non-trivial, {:.1} s",
        o.property,
        o.seed,
        sum("evaluations"),
        sum("distinct_nontrivial"),
        t0.elapsed().as_secs_f64()
    );
    if !failure.is_null() {
        let f = &failure;
        let r = write_replay(o, f);
        println!("[{}] {}", f["check"].as_str().unwrap(), f["message"].as_str().unwrap());
        println!("VIOLATION property={} replay={}", o.property, r.display());
        return 1;
    }
    0
}

/// Processor time is shared between the checks of the property
const GUIDED_SECONDS: u64 = 240;

/// The coverage-guided search: libFuzzer over the choices of each check, 8 processes at a time.
/// What it reports is run again here, and believed when it fails again.
fn guided(o: &Opts, bin: &Path, names: &[&str], scratch: &Path, failure: &mut Value) -> Value {
    let seconds = std::env::var("FITSFUZZ_SECONDS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(GUIDED_SECONDS);
    let mut out = vec![];
    for name in names {
        let dir = scratch.join(format!("guided-{name}"));
        let corpus = dir.join("corpus");
        let artifacts = dir.join("artifacts");
        std::fs::create_dir_all(&corpus).unwrap();
        std::fs::create_dir_all(&artifacts).unwrap();
        let max = 8 * props::checks(&o.property)
            .iter()
            .find(|c| c.name() == *name)
            .unwrap()
            .num_choices();
        let mut x = o.seed;
        for i in 0..64 {
            let n = splitmix(&mut x) as usize % max;
            let bytes: Vec<u8> = (0..n).map(|_| splitmix(&mut x) as u8).collect();
            std::fs::write(corpus.join(format!("{i}")), bytes).unwrap();
        }
        let log = Command::new(bin)
            .arg(&corpus)
            .arg(format!("-artifact_prefix={}/", artifacts.display()))
            .arg(format!("-max_total_time={}", seconds / names.len() as u64))
            .arg(format!("-max_len={max}"))
            .arg(format!("-seed={}", o.seed))
            .args(["-fork=8", "-len_control=0", "-rss_limit_mb=3500", "-timeout=100"])
            .env("FITSFUZZ_PROPERTY", &o.property)
            .env("FITSFUZZ_CHECK", name)
            .current_dir(&dir)
            .output()
            .expect("cannot start the coverage-guided search");
        let log = String::from_utf8_lossy(&log.stderr).into_owned();
        // #4242: cov: 1912 ft: 6390 corp: 631 exec/s ...
        let last = log.lines().rfind(|l| l.starts_with('#') && l.contains(" cov: "));
        let number = |key: &str| {
            last.and_then(|l| l.split_once(key))
                .and_then(|(_, r)| r.trim_start().split(|c: char| !c.is_ascii_digit()).next())
                .and_then(|n| n.parse::<u64>().ok())
                .unwrap_or(0)
        };
        out.push(json!({
            "check": name,
            "executions": number("#"),
            "edges_of_the_library": number("cov:"),
            "features": number("ft:"),
            "corpus": number("corp:"),
        }));
        let mut found: Vec<PathBuf> = std::fs::read_dir(&artifacts)
            .unwrap()
            .map(|e| e.unwrap().path())
            .collect();
        found.sort();
        for a in found {
            let f = dir.join("failure.json");
            let st = spawn(&[
                &o.property,
                "--child",
                "--artifact",
                a.to_str().unwrap(),
                "--only",
                name,
                "--out",
                f.to_str().unwrap(),
            ]);
            if st.code() == Some(1) || matches!(died(&st), Some(libc::SIGABRT | libc::SIGSEGV)) {
                *failure = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                return json!(out);
            }
            eprintln!("{}: not reproduced", a.display());
        }
    }
    json!(out)
}
