//! Several encoders at once: in threads that take turns by a schedule, in threads running freely,
//! or one inside a callback (image row, sink write) of another.
use crate::json::*;
use crate::{scenario, Ctx};
use std::cell::RefCell;
use std::sync::{Arc, Barrier, Condvar, Mutex};

thread_local!(static HOOK: RefCell<Option<Box<dyn FnMut(u8)>>> = const { RefCell::new(None) });

/// called at every setter call (0), row request (1) and sink write (2)
pub fn point(kind: u8) {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f(kind);
        HOOK.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_none() {
                *h = Some(f)
            }
        });
    }
}

fn set(f: Option<Box<dyn FnMut(u8)>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}

struct Turns {
    sched: Vec<usize>,
    pos: usize,
    done: Vec<bool>,
}
impl Turns {
    /// whose turn it is: the schedule, then the lowest thread still running
    fn who(&mut self) -> usize {
        while self.pos < self.sched.len() && self.done[self.sched[self.pos]] {
            self.pos += 1;
        }
        if self.pos < self.sched.len() {
            self.sched[self.pos]
        } else {
            self.done.iter().position(|d| !d).unwrap_or(usize::MAX)
        }
    }
}

fn record(text: &str, scratch: &str, tag: u64) -> String {
    let sc = P::parse(text);
    let r = scenario(&sc, &mut Ctx { scratch: scratch.to_string(), count: tag * 1_000_000 });
    let mut s = String::new();
    r.write(&mut s);
    s
}

pub fn together(sc: &J, scratch: &str) -> J {
    let runs: Vec<String> = sc
        .arr("runs")
        .iter()
        .map(|r| {
            let mut s = String::new();
            r.write(&mut s);
            s
        })
        .collect();
    let n = runs.len();
    let mut out: Vec<String> = vec![];
    match sc.s("how") {
        // runs[0] does everything; the others run inside it, at the given points, on the same thread
        "nest" => {
            let inner = Arc::new(Mutex::new(vec![]));
            let at: Vec<i64> = sc.ints("at");
            // count the points of one kind only
            let on = sc.int("on", -1);
            let (mut k, i2, s2, rest) = (0i64, inner.clone(), scratch.to_string(), runs[1..].to_vec());
            set(Some(Box::new(move |kind| {
                if on >= 0 && on != kind as i64 {
                    return;
                }
                for (j, r) in rest.iter().enumerate() {
                    if at[j] == k {
                        let x = record(r, &s2, j as u64 + 1);
                        i2.lock().unwrap().push(x);
                    }
                }
                k += 1;
            })));
            let a = record(&runs[0], scratch, 0);
            set(None);
            out.push(a);
            out.extend(inner.lock().unwrap().drain(..));
        }
        "turns" => {
            let grain: Vec<i64> = sc.ints("grain");
            let t = Arc::new((
                Mutex::new(Turns { sched: sc.ints("sched").iter().map(|&x| x as usize).collect(), pos: 0, done: vec![false; n] }),
                Condvar::new(),
            ));
            let hs: Vec<_> = runs
                .into_iter()
                .enumerate()
                .map(|(i, text)| {
                    let (t, scratch, g) = (t.clone(), scratch.to_string(), grain[i % grain.len()].max(1));
                    std::thread::spawn(move || {
                        let wait = move |t: &Arc<(Mutex<Turns>, Condvar)>| {
                            let mut l = t.0.lock().unwrap();
                            while l.who() != i {
                                l = t.1.wait(l).unwrap();
                            }
                        };
                        wait(&t);
                        let (t2, mut k) = (t.clone(), 0);
                        set(Some(Box::new(move |_| {
                            k += 1;
                            if k % g == 0 {
                                t2.0.lock().unwrap().pos += 1;
                                t2.1.notify_all();
                                wait(&t2);
                            }
                        })));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| record(&text, &scratch, i as u64)));
                        set(None);
                        let mut l = t.0.lock().unwrap();
                        l.done[i] = true;
                        t.1.notify_all();
                        drop(l);
                        r.unwrap()
                    })
                })
                .collect();
            out.extend(hs.into_iter().map(|h| h.join().unwrap()));
        }
        "free" => {
            let rounds = sc.int("rounds", 1);
            let b = Arc::new(Barrier::new(n));
            let hs: Vec<_> = runs
                .into_iter()
                .enumerate()
                .map(|(i, text)| {
                    let (b, scratch) = (b.clone(), scratch.to_string());
                    std::thread::spawn(move || {
                        let mut v: Vec<String> = vec![];
                        for _ in 0..rounds {
                            b.wait();
                            let r = record(&text, &scratch, i as u64);
                            if !v.contains(&r) {
                                v.push(r);
                            }
                        }
                        v
                    })
                })
                .collect();
            for h in hs {
                out.extend(h.join().unwrap());
            }
        }
        k => panic!("harness: how {}", k),
    }
    obj(vec![("id", st(sc.s("id"))), ("runs", J::Arr(out.iter().map(|x| P::parse(x)).collect()))])
}
