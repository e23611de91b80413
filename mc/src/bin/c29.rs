//! C29: every call is a pure function of its arguments, whatever was called before it.
#[path = "../shared/calls.rs"]
mod calls;
use calls::{menu, near, plain, world, Call, Plain, World};
use mc::*;

fn main() {
    let mc = Mc::new("C29");
    mc.selftest("reference models", refs::selftest().is_ok());
    mc.selftest("polynomial reference", polyref::selftest());
    let m = menu();
    let ps: Vec<Plain> = (0..3).map(plain).collect();
    let want: Vec<Vec<Option<String>>> = ps.iter().map(|p| m.iter().map(|c| (c.want)(p)).collect()).collect();
    // one step of a history: the result, and the arguments afterwards
    let step = |t: &mut Tr, w: &World, c: &Call, want: &Option<String>, past: &dyn Fn() -> String| {
        t.opt(c.name, || past(), want.clone(), || (c.run)(w));
    };
    let fast: Vec<usize> = (0..m.len()).filter(|i| !m[*i].slow).collect();
    let slow: Vec<usize> = (0..m.len()).filter(|i| m[*i].slow).collect();
    let (f, nw) = (fast.len(), ps.len());
    // every history of three calls; the calls of a history draw their arguments from different worlds
    let d3 = mc.q(1, 3);
    mc.bound(format!("every history of three calls out of {f} (worlds of arguments 0, then 0/1/2, then 0; other world orders in the thorough tier), argument objects shared by the calls and compared afterwards"));
    mc.phase("histories", f * f, |i, t| {
        let (a, b) = (fast[i / f], fast[i % f]);
        let ws: Vec<World> = ps.iter().map(world).collect();
        for k in 0..d3 {
            for &c in &fast {
                let mid = (a + b + c) % nw;
                for (n, (call, x)) in [(a, k), (b, (mid + k) % nw), (c, k)].into_iter().enumerate() {
                    step(t, &ws[x], &m[call], &want[x][call], &|| format!("call {} of: {} | {} | {}", n + 1, m[a].name, m[b].name, m[c].name));
                }
            }
        }
        t.eq("arguments unchanged", || format!("{} | {} | *", m[a].name, m[b].name), ps.clone(), || ws.iter().map(|w| w.read()).collect::<Vec<_>>());
    });
    // histories that include the slow calls
    mc.bound(format!("every pair of calls in which at least one is one of the {} public-key operations, in every pair of argument worlds", slow.len()));
    let pairs: Vec<(usize, usize)> = (0..m.len()).flat_map(|a| (0..m.len()).map(move |b| (a, b))).filter(|(a, b)| m[*a].slow || m[*b].slow).collect();
    mc.phase("slow-pairs", pairs.len(), |i, t| {
        let (a, b) = pairs[i];
        let ws: Vec<World> = ps.iter().map(world).collect();
        let ks: Vec<(usize, usize)> = if mc.thorough() { (0..nw).flat_map(|x| (0..nw).map(move |y| (x, y))).collect() } else { vec![(0, 0), (0, 2)] };
        for (x, y) in ks {
            step(t, &ws[x], &m[a], &want[x][a], &|| format!("first of {} | {}", m[a].name, m[b].name));
            step(t, &ws[y], &m[b], &want[y][b], &|| format!("second of {} | {}", m[a].name, m[b].name));
        }
        t.eq("arguments unchanged", || format!("{} | {}", m[a].name, m[b].name), ps.clone(), || ws.iter().map(|w| w.read()).collect::<Vec<_>>());
    });
    // calls whose arguments almost agree
    let nears = near(&ps[0]);
    mc.bound(format!("every history \"call, same call with one of {} near-identical arguments (one bit of any byte or element changed, or a text one byte longer or shorter), first call again\"", nears.len()));
    // what the models say about each of them; the slow calls read k32 and the head of long only
    let wants: Vec<Vec<Option<String>>> = std::thread::scope(|s| {
        let (m, ps, want, nears) = (&m, &ps, &want, &nears);
        let hs: Vec<_> = (0..nears.len()).step_by(nears.len() / 8 + 1).map(|a| s.spawn(move || {
            nears[a..(a + nears.len() / 8 + 1).min(nears.len())].iter().map(|(_, q)| m.iter().enumerate().map(|(k, c)| {
                if c.slow && q.k32 == ps[0].k32 && q.long[..32] == ps[0].long[..32] { want[0][k].clone() } else { (c.want)(q) }
            }).collect::<Vec<_>>()).collect::<Vec<_>>()
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    mc.phase("near-arguments", nears.len(), |i, t| {
        let (w0, w1) = (world(&ps[0]), world(&nears[i].1));
        for (k, c) in m.iter().enumerate() {
            let (x0, x1) = (want[0][k].clone(), wants[i][k].clone());
            if c.slow && x0 == x1 && i % 16 != 0 && !mc.thorough() {
                continue;
            }
            for (n, (w, x)) in [(&w0, &x0), (&w1, &x1), (&w0, &x0)].into_iter().enumerate() {
                step(t, w, c, x, &|| format!("call {} of {} with arguments 0, 0 with {} changed, 0", n + 1, c.name, nears[i].0));
            }
        }
    });
    // the same argument objects, rewritten in place between the calls
    mc.bound("every history \"call, the argument objects rewritten in place, call, restored in place, call\" over the same changes");
    mc.phase("rewritten-arguments", nears.len(), |i, t| {
        let q = &nears[i].1;
        if q.msg.len() != ps[0].msg.len() || q.long.len() != ps[0].long.len() {
            return;
        }
        let mut w = world(&ps[0]);
        for (k, c) in m.iter().enumerate().filter(|(_, c)| !c.slow || mc.thorough() || i % 16 == 0) {
            for (n, p) in [&ps[0], q, &ps[0]].into_iter().enumerate() {
                w.assign(p);
                step(t, &w, c, if n == 1 { &wants[i][k] } else { &want[0][k] }, &|| format!("call {} of {} with the same objects, {} changed and restored", n + 1, c.name, nears[i].0));
            }
        }
    });
    // the same across two calls, for every element of each argument and the lengths
    let ends = &nears;
    mc.bound(format!("every pair of different fast calls, the second with one of {} near-identical arguments", ends.len()));
    mc.phase("near-pairs", f * ends.len(), |i, t| {
        let (a, e) = (fast[i / ends.len()], i % ends.len());
        let (w0, w1) = (world(&ps[0]), world(&ends[e].1));
        for &b in &fast {
            for (n, (c, w, x)) in [(a, &w0, &want[0]), (b, &w1, &wants[e])].into_iter().enumerate() {
                step(t, w, &m[c], &x[c], &|| format!("call {} of {} | {} with {} changed", n + 1, m[a].name, m[b].name, ends[e].0));
            }
        }
    });
    // long histories of one call, and of two calls in turn
    let n = mc.q(1200, 5000);
    mc.bound(format!("{n} repetitions of every fast call over alternating arguments (80 of the slow ones)"));
    mc.phase("repetition", m.len(), |i, t| {
        let ws: Vec<World> = ps.iter().map(world).collect();
        let c = &m[i];
        for k in 0..if c.slow { 80 } else { n } {
            let x = k % nw;
            step(t, &ws[x], c, &want[x][i], &|| format!("repetition {k} of {}", c.name));
        }
    });
    mc.assume("one thread at a time (interleavings: C35)");
    mc.finish()
}
