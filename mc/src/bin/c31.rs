//! C31: library calls print nothing.
#[path = "../shared/calls.rs"]
mod calls;
use calls::{menu, plain, world};
use mc::*;
use std::io::Read;
use std::process::{Command, Stdio};

/// Run this program (or a sibling) as a child and return the first output it produces on stdout or
/// stderr, and its exit code.
fn listen(bin: &str, env: &[(&str, String)]) -> (String, Option<i32>) {
    let exe = std::env::current_exe().unwrap();
    let path = if bin.is_empty() { exe.clone() } else { exe.with_file_name(bin) };
    let mut c = Command::new(path);
    c.env("VERIF_QUIET", "1").env_remove("VERIF_ONLY").env_remove("VERIF_VERBOSE").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("child");
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let (tx, rx) = std::sync::mpsc::channel::<Option<String>>();
    let tx2 = tx.clone();
    fn first(r: &mut dyn Read, what: &str) -> Option<String> {
        let mut b = vec![0; 300];
        let mut n = 0;
        while n < b.len() {
            match r.read(&mut b[n..]) {
                Ok(0) | Err(_) => break,
                Ok(k) => n += k,
            }
            if b[..n].contains(&b'\n') {
                break;
            }
        }
        if n > 0 { Some(format!("{what}: {}", String::from_utf8_lossy(&b[..n]))) } else { None }
    }
    std::thread::spawn(move || { let _ = tx.send(first(&mut o, "stdout")); });
    std::thread::spawn(move || { let _ = tx2.send(first(&mut e, "stderr")); });
    let mut out = String::new();
    for _ in 0..2 {
        if let Ok(Some(s)) = rx.recv() {
            out = s;
            let _ = ch.kill();
            break;
        }
    }
    (out, ch.wait().ok().and_then(|s| s.code()))
}

const WORLDS: usize = 6;
fn child(i: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    match i {
        "out" => println!("x"),
        "err" => eprintln!("x"),
        "none" => {}
        i => {
            let c = &menu()[i.parse::<usize>().unwrap()];
            for k in 0..if c.slow { 2 } else { WORLDS } {
                let w = world(&plain(k));
                let _ = attempt(|| (c.run)(&w));
            }
        }
    }
    std::process::exit(0)
}

fn main() {
    if let Ok(i) = std::env::var("C31_CALL") {
        child(&i);
    }
    let mc = Mc::new("C31");
    mc.budget(560);
    let call = |x: &str| listen("", &[("C31_CALL", x.to_string())]);
    mc.selftest("listener hears stdout", call("out").0 == "stdout: x\n");
    mc.selftest("listener hears stderr", call("err").0 == "stderr: x\n");
    mc.selftest("listener hears nothing", call("none") == (String::new(), Some(0)));
    let m = menu();
    mc.bound(format!("each of {} calls across the library on {WORLDS} worlds of arguments, each in a process of its own with stdout and stderr captured", m.len()));
    mc.phase("calls", m.len(), |i, t| {
        t.eq(m[i].name, || "a process that makes this call only".into(), String::new(), || listen("", &[("C31_CALL", i.to_string())]).0);
        t.steps(WORLDS as u64);
    });
    // every behaviour that the other checks explore
    let drivers: Vec<String> = (1..=29).filter(|k| *k != 4).map(|k| format!("c{k:02}")).collect();
    mc.bound("every call that the drivers of the other checks make (C01 to C03, C05 to C29, within the bounds stated there; C16 without its message of 2^29 bytes; of C29 every 11th history in the quick tier), refused calls included");
    let every = mc.q(11, 1);
    let stats = std::env::temp_dir().join(format!("mc-c31-{}", std::process::id()));
    let stats = &stats;
    for d in &drivers {
        mc.phase(&format!("driver {d}"), 1, |_, t| {
            t.eq(d, || format!("all calls made by the driver {d}"), String::new(), || {
                let mut env = vec![("VERIF_STATS", stats.to_str().unwrap().to_string())];
                if every != 1 {
                    env.push(("VERIF_BUDGET", "120".into()));
                }
                if d == "c29" || d == "c16" {
                    env.push(("VERIF_EVERY", if d == "c29" { every } else { 1 }.to_string()));
                }
                let (o, code) = listen(d, &env);
                if o.is_empty() && code == Some(2) {
                    return "".to_string();
                }
                o
            });
            if let Ok(x) = std::fs::read_to_string(stats) {
                t.steps(x.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0));
                t.sample(|| format!("driver {d}: {x} states, transitions, traces"));
                let _ = std::fs::remove_file(stats);
            }
        });
    }
    mc.assume("output goes through file descriptors 1 and 2 of the process (safe Rust has no other console)");
    mc.assume("the panic message of a refused call is not judged: the panic hook is silenced");
    mc.finish()
}
