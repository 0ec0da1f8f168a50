//! C25: the counting semaphore, and the thread helpers built on it.
use bpharness::util::*;
use backpak::{concurrently, semaphored};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// run `f` on its own thread; false if it is still running after `t`
fn within(t: Duration, f: impl FnOnce() + Send + 'static) -> bool {
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    std::thread::spawn(move || {
        f();
        d.store(true, SeqCst);
    });
    let e = Instant::now() + t;
    while Instant::now() < e {
        if done.load(SeqCst) {
            return true;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    done.load(SeqCst)
}

fn run(c: &mut Ctx) {
    c.rule = "random limits, thread counts and hold times on the real semaphore; nontrivial if more threads than permits contended".into();
    let mut rng = Rng::new(c.seed);
    let mut round = 0u64;
    std::panic::set_hook(Box::new(|_| {}));
    while c.time_left() && (round < 400 || c.thorough) {
        round += 1;
        let limit = rng.range(1, 4) as u32;
        let threads = rng.range(2, 9) as usize;
        let ops = rng.range(1, 12) as usize;
        let hold_all = rng.chance(1, 2);
        let hold_us = *rng.pick(&[0u64, 0, 30, 200, 1000]);
        let panics = rng.chance(1, 4);
        let count = Arc::new(AtomicU32::new(limit));
        let running = Arc::new(AtomicUsize::new(0));
        let peak = Arc::new(AtomicUsize::new(0));
        let done = Arc::new(AtomicUsize::new(0));
        let case = json!({"limit": limit, "threads": threads, "ops_each": ops, "hold_us": hold_us, "all_permits_released_at_once": hold_all, "some_holders_panic": panics});
        let (cc, rr, pp, dd) = (count.clone(), running.clone(), peak.clone(), done.clone());
        let ok = within(Duration::from_secs(8), move || {
            let held: Vec<_> = if hold_all { (0..limit).map(|_| semaphored::dec(&cc)).collect() } else { vec![] };
            std::thread::scope(|s| {
                let mut hs = vec![];
                for t in 0..threads {
                    let (cc, rr, pp, dd) = (&cc, &rr, &pp, &dd);
                    hs.push(s.spawn(move || {
                        for k in 0..ops {
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                let _g = semaphored::dec(cc);
                                let n = rr.fetch_add(1, SeqCst) + 1;
                                pp.fetch_max(n, SeqCst);
                                if hold_us > 0 {
                                    std::thread::sleep(Duration::from_micros(hold_us));
                                }
                                rr.fetch_sub(1, SeqCst);
                                if panics && (t + k) % 3 == 0 {
                                    panic!("holder fails");
                                }
                            }));
                            dd.fetch_add(1, SeqCst);
                        }
                    }));
                }
                if hold_all {
                    std::thread::sleep(Duration::from_millis(3));
                    drop(held);
                }
                for h in hs {
                    let _ = h.join();
                }
            });
        });
        c.case(&(limit, threads, ops, hold_all, hold_us, panics), threads > limit as usize);
        c.sample(case.clone());
        if !ok {
            c.violate(&["C25", "C33"], format!("only {} of {} operations finished: a waiter was never woken although permits were returned (count now {})", done.load(SeqCst), threads * ops, count.load(SeqCst)), case);
            break;
        }
        if peak.load(SeqCst) > limit as usize {
            c.violate(&["C25"], format!("{} operations ran at once with a limit of {}", peak.load(SeqCst), limit), case.clone());
        }
        if count.load(SeqCst) != limit {
            c.violate(&["C25"], format!("count is {} after all guards of a semaphore of {} were dropped", count.load(SeqCst), limit), case.clone());
        }
        // the thread helpers
        if round % 4 == 0 {
            let n = rng.range(0, 40) as usize;
            let cores = num_cpus::get_physical();
            let running = Arc::new(AtomicUsize::new(0));
            let peak = Arc::new(AtomicUsize::new(0));
            let calls: Arc<Vec<AtomicUsize>> = Arc::new((0..n).map(|_| AtomicUsize::new(0)).collect());
            let got: Arc<std::sync::Mutex<Vec<usize>>> = Default::default();
            let which = rng.below(3);
            let (r2, p2, c2, g2) = (running.clone(), peak.clone(), calls.clone(), got.clone());
            let ok = within(Duration::from_secs(10), move || {
                let fs = (0..n).map(|i| {
                    let (r2, p2, c2) = (&r2, &p2, &c2);
                    move || -> anyhow::Result<usize> {
                        let k = r2.fetch_add(1, SeqCst) + 1;
                        p2.fetch_max(k, SeqCst);
                        c2[i].fetch_add(1, SeqCst);
                        std::thread::sleep(Duration::from_micros(100));
                        r2.fetch_sub(1, SeqCst);
                        Ok(i)
                    }
                });
                match which {
                    0 => concurrently::concurrently(fs.map(|f| move || f().map(|_| ()))),
                    1 => *g2.lock().unwrap() = concurrently::map_concurrently(fs),
                    _ => concurrently::named_concurrently(fs.map(|f| ("x".to_string(), move || f().map(|_| ())))),
                }
            });
            let what = ["concurrently", "map_concurrently", "named_concurrently"][which as usize];
            let case = json!({"helper": what, "functions": n, "cores": cores});
            c.case(&(which, n, 7u8), n > 1);
            if !ok {
                c.violate(&["C33", "C25"], format!("{what} of {n} functions did not finish"), case);
                break;
            }
            if calls.iter().any(|x| x.load(SeqCst) != 1) {
                c.violate(&["C25", "C33"], format!("{what} did not run every function exactly once"), case.clone());
            }
            if which < 2 && peak.load(SeqCst) > cores {
                c.violate(&["C25"], format!("{what} ran {} functions at once with {} permits", peak.load(SeqCst), cores), case.clone());
            }
            if which == 1 {
                let mut g = got.lock().unwrap().clone();
                g.sort();
                if g != (0..n).collect::<Vec<_>>() {
                    c.violate(&["C25", "C33"], format!("map_concurrently returned {g:?} for {n} functions"), case);
                }
            }
        }
    }
}

fn main() {
    bpharness::main_of(run)
}
