//! C34: the same results without debug assertions and overflow checks.
//!
//! The drivers of the other checks, with the library and the specifications under test, built the way users build them
//! (release profile), run as children; each makes all calls that are within the contract and judges their results.
use mc::*;
use std::process::{Command, Stdio};

fn main() {
    let mc = Mc::new("C34");
    mc.budget(560);
    let dir = std::env::var("C34_RELEASE").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("release"));
    let tmp = std::env::temp_dir().join(format!("mc-c34-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    // (driver, what its refusals rest on)
    let drivers: Vec<String> = (1..=30).filter(|k| *k != 4).map(|k| format!("c{k:02}")).collect();
    let run = |d: &str, env: &[(&str, &str)]| {
        let _ = std::fs::remove_dir_all(tmp.join("replays"));
        let mut c = Command::new(dir.join(d));
        c.env("VERIF_DIR", &tmp).env_remove("VERIF_ONLY").env_remove("VERIF_VERBOSE").env_remove("VERIF_QUIET").stdin(Stdio::null()).stderr(Stdio::piped());
        for (k, v) in env {
            c.env(k, v);
        }
        let o = c.output().expect("driver");
        (o.status.code(), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
    };
    mc.selftest("the drivers are built without debug assertions and overflow checks", run("ndebug", &[]).1 == "without\n");
    mc.bound("every call within its contract that the drivers of the other checks make (C01 to C03, C05 to C30, quick bounds; C29 every 11th history in the quick tier), executed by a release build (opt-level 3, no debug assertions, no overflow checks)");
    mc.bound("refusals are judged too where they do not rest on debug assertions or overflow checks: C02, C03, C07, C12, C13, C15 to C17, C19 to C30");
    for d in &drivers {
        mc.phase(&format!("driver {d}"), 1, |_, t| {
            let id = d.to_uppercase();
            let mut env = vec![];
            if !mc.thorough() {
                env.push(("VERIF_BUDGET", "60"));
                if d == "c29" { env.push(("VERIF_EVERY", "11")); }
            }
            let mut done = 0;
            let mut out = String::new();
            t.eq(&format!("{id} in a release build"), || format!("all calls of the driver {d}"), "every result as specified".to_string(), || {
                let (code, o, e) = run(d, &env);
                match code {
                    Some(0) => {
                        out = o.lines().last().unwrap_or("").to_string();
                        done = out.split(' ').nth(3).and_then(|x| x.parse().ok()).unwrap_or(0);
                        "every result as specified".into()
                    }
                    Some(1) => {
                        let r = std::fs::read_to_string(tmp.join(format!("replays/{id}.txt"))).unwrap_or_default();
                        r.lines().skip(3).take(4).collect::<Vec<_>>().join(" | ")
                    }
                    _ => {
                        eprintln!("ERROR: driver {d} ended with {code:?}: {}", e.lines().last().unwrap_or(""));
                        let _ = std::fs::remove_dir_all(&tmp);
                        std::process::exit(2)
                    }
                }
            });
            t.steps(done);
            t.sample(|| out);
        });
    }
    let _ = std::fs::remove_dir_all(&tmp);
    mc.assume("calls outside the contract (whose refusal rests on debug assertions or overflow checks) have no specified outcome in release builds");
    mc.finish()
}
