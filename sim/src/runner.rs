//! Runs plans, and makes failing ones smaller.
use crate::disk::Disk;
use crate::epoch::{self, Opts, World};
use crate::mval::MVal;
use crate::oracle::{self, Judgement, Viol};
use crate::plan::*;
use crate::raw;
use crate::result::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

fn damage(d: &mut Disk, base: &str, x: &Damage, stash: &mut BTreeMap<String, Vec<u8>>) {
    let path = format!("{base}/{}.sdb", x.name());
    if let Damage::Restore { name } = x {
        if let Some(b) = stash.remove(name) {
            d.put_file(&path, &b);
        }
        return;
    }
    let Some(mut b) = d.read_file(&path) else { return };
    stash.entry(x.name().to_string()).or_insert_with(|| b.clone());
    match x {
        Damage::Truncate { keep, .. } => b.truncate(*keep as usize),
        Damage::Zero { .. } => b.iter_mut().for_each(|x| *x = 0),
        Damage::Flip { bits, .. } => {
            let n = b.len() as u64 * 8;
            if n > 0 {
                for i in bits {
                    let i = i % n;
                    b[(i / 8) as usize] ^= 1 << (i % 8);
                }
            }
        }
        Damage::Garbage { data, .. } => b = data.0.clone(),
        Damage::Append { data, .. } => b.extend_from_slice(&data.0),
        Damage::Restore { .. } => {}
        Damage::Delete { .. } => {
            let _ = d.unlink(&path);
            d.sync_everything();
            return;
        }
    }
    d.put_file(&path, &b);
}

pub fn run_plan(p: &Plan, trace: bool) -> Vec<EpochResult> {
    let mut disk = Disk::new();
    if let Some(pre) = &p.preset {
        let mut at = String::new();
        for c in crate::disk::components(p.base.path()) {
            at = format!("{at}/{c}");
            let _ = disk.mkdir(&at, 0o755);
        }
        for (n, b) in &pre.files {
            disk.put_file(&format!("{}/{n}", p.base.path()), &b.0);
        }
        disk.sync_everything();
    }
    let mut w = World { disk, now: 1_000_000_000, wall_off: p.wall as i64, rng: Rng::new(p.k.seed) };
    let mut out = vec![];
    let mut stash = BTreeMap::new();
    for (i, e) in p.epochs.iter().enumerate() {
        for x in &e.damage {
            damage(&mut w.disk, p.base.path(), x, &mut stash);
        }
        let r = epoch::run_epoch(p, i, &w, &Opts { trace, limit_s: 60.0 });
        let go = match r.outcome {
            Outcome::Killed | Outcome::PowerLost => true,
            Outcome::Exited(_) => r.signal_seq > 0 || (e.may_refuse && !r.started),
            _ => false,
        };
        w = World { disk: r.disk.clone(), now: r.now + 1_000_000_000, wall_off: r.wall_off, rng: r.rng.clone() };
        if r.started {
            // what was there before is history
            stash.clear();
        }
        out.push(r);
        if !go {
            break;
        }
    }
    out
}

pub fn run_judged(p: &Plan, trace: bool) -> (Vec<EpochResult>, Judgement) {
    let r = run_plan(p, trace);
    let j = oracle::judge(p, &r);
    (r, j)
}

///runs something in a process of its own, so that every run starts from the same state of this process
pub fn isolated<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Option<T> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            let r = f();
            let mut b = vec![];
            let ok = ciborium::into_writer(&r, &mut b).is_ok();
            let mut o = std::fs::File::from_raw_fd(fds[1]);
            let ok = ok && o.write_all(&b).is_ok();
            drop(o);
            raw::exit_now(i32::from(!ok));
        }
        libc::close(fds[1]);
        let mut b = vec![];
        let mut i = std::fs::File::from_raw_fd(fds[0]);
        let ok = i.read_to_end(&mut b).is_ok();
        drop(i);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !ok || st != 0 {
            return None;
        }
        ciborium::de::from_reader_with_recursion_limit(&b[..], 100_000).ok()
    }
}

pub fn first_of<'a>(j: &'a Judgement, property: &str) -> Option<&'a Viol> {
    j.viols.iter().find(|v| oracle::concerns(property, &v.tag))
}

pub struct Shrunk {
    pub plan: Plan,
    pub tried: u64,
}

///smaller plans which fail in the same way
pub fn minimise(p: &Plan, tag: &str, seconds: f64) -> Shrunk {
    let end = raw::real_now() + seconds;
    let mut best = p.clone();
    let at_terminal = p.epochs.iter().flat_map(|e| &e.clients).any(|c| c.kind == ClientKind::Mouse);
    let mut tried = 0;
    let mut rng = Rng::new(p.k.seed ^ 0x5eed);
    let mut test = |c: &mut Plan, seeds: u64| -> bool {
        for s in 0..seeds {
            if raw::real_now() > end {
                return false;
            }
            if s > 0 {
                c.k.seed = rng.next();
            }
            tried += 1;
            let c = &*c;
            let hit = isolated(|| {
                let (_, j) = run_judged(c, false);
                j.harness.is_empty() && j.viols.iter().any(|v| v.tag == tag)
            });
            if hit == Some(true) {
                return true;
            }
        }
        false
    };
    macro_rules! attempt {
        ($seeds:expr, $f:expr) => {{
            let mut c = best.clone();
            #[allow(clippy::redundant_closure_call)]
            let changed: bool = ($f)(&mut c);
            // what somebody at a terminal is asked depends on these
            let same = |f: fn(&Plan) -> Vec<String>| {
                let (a, b) = (f(&best), f(&c));
                (a.len() == 1) == (b.len() == 1) && crate::mouse::PINNED.iter().all(|x| a.iter().any(|y| y == x) == b.iter().any(|y| y == x))
            };
            let changed = changed && (!at_terminal || same(crate::mouse::databases));
            if changed && test(&mut c, $seeds) {
                best = c;
                true
            } else {
                false
            }
        }};
    }
    let mut round = 0;
    loop {
        let before = serde_json::to_string(&best).map_or(0, |s| s.len());
        // epochs
        let mut i = best.epochs.len();
        while i > 0 {
            i -= 1;
            if best.epochs.len() > 1 {
                attempt!(3, |c: &mut Plan| {
                    c.epochs.remove(i);
                    true
                });
            }
        }
        for e in 0..best.epochs.len() {
            // clients
            let mut i = best.epochs[e].clients.len();
            while i > 0 {
                i -= 1;
                attempt!(3, |c: &mut Plan| {
                    c.epochs[e].clients.remove(i);
                    true
                });
            }
            // faults and damage
            let mut i = best.epochs[e].faults.len();
            while i > 0 {
                i -= 1;
                attempt!(3, |c: &mut Plan| {
                    c.epochs[e].faults.remove(i);
                    true
                });
            }
            let mut i = best.epochs[e].damage.len();
            while i > 0 {
                i -= 1;
                attempt!(1, |c: &mut Plan| {
                    c.epochs[e].damage.remove(i);
                    true
                });
            }
            // steps: halves, then single ones
            for cl in 0..best.epochs[e].clients.len() {
                let mut size = best.epochs[e].clients[cl].steps.len() / 2;
                while size >= 1 {
                    let mut at = 0;
                    while at < best.epochs[e].clients[cl].steps.len() {
                        let ok = attempt!(2, |c: &mut Plan| {
                            let s = &mut c.epochs[e].clients[cl].steps;
                            let to = (at + size).min(s.len());
                            s.drain(at..to);
                            true
                        });
                        if !ok {
                            at += size;
                        }
                    }
                    size /= 2;
                }
            }
        }
        // simpler surroundings
        attempt!(6, |c: &mut Plan| {
            let x = c.k.strategy != Strategy::Sticky || c.k.alloc_period != 0;
            c.k.strategy = Strategy::Sticky;
            c.k.alloc_period = 0;
            x
        });
        attempt!(3, |c: &mut Plan| std::mem::replace(&mut c.k.alloc_period, 0) != 0);
        attempt!(3, |c: &mut Plan| std::mem::replace(&mut c.k.stall_num, 0) != 0);
        attempt!(3, |c: &mut Plan| std::mem::replace(&mut c.k.net.frag, 0) != 0);
        attempt!(1, |c: &mut Plan| c.log.take().is_some());
        attempt!(3, |c: &mut Plan| {
            let x = c.workers != 1 || c.cpus != 1;
            c.workers = 1;
            c.cpus = 1;
            x
        });
        attempt!(1, |c: &mut Plan| std::mem::replace(&mut c.base, BaseKind::Env) != BaseKind::Env);
        for e in 0..best.epochs.len() {
            for cl in 0..best.epochs[e].clients.len() {
                attempt!(2, |c: &mut Plan| {
                    let mut x = false;
                    for s in &mut c.epochs[e].clients[cl].steps {
                        x |= !s.net.is_default() && s.net.abort == Abort::No;
                        if s.net.abort == Abort::No {
                            s.net = NetOpts::default();
                        }
                    }
                    x
                });
                for st in 0..best.epochs[e].clients[cl].steps.len() {
                    attempt!(1, |c: &mut Plan| {
                        let s = &mut c.epochs[e].clients[cl].steps[st];
                        let x = !s.net.is_default();
                        s.net = NetOpts::default();
                        x
                    });
                    attempt!(1, |c: &mut Plan| std::mem::replace(&mut c.epochs[e].clients[cl].steps[st].delay, 0) != 0);
                    attempt!(1, |c: &mut Plan| simpler(&mut c.epochs[e].clients[cl].steps[st].op));
                    // fewer keys
                    let keys: Vec<String> = match &best.epochs[e].clients[cl].steps[st].op {
                        Op::AddContent { content, .. } => content.keys().take(12).cloned().collect(),
                        _ => vec![],
                    };
                    for k in keys {
                        attempt!(1, |c: &mut Plan| {
                            if let Op::AddContent { content, .. } = &mut c.epochs[e].clients[cl].steps[st].op {
                                content.remove(&k);
                            }
                            true
                        });
                    }
                }
            }
        }
        round += 1;
        let after = serde_json::to_string(&best).map_or(0, |s| s.len());
        if after >= before || round > 4 || raw::real_now() > end {
            break;
        }
    }
    Shrunk { plan: best, tried }
}

fn simpler(op: &mut Op) -> bool {
    match op {
        Op::AddKv { val, .. } => {
            if matches!(val, MVal::Int(_) | MVal::Null) {
                return false;
            }
            *val = MVal::Int("7".into());
            true
        }
        Op::AddContent { content, .. } => {
            let mut x = false;
            for v in content.values_mut() {
                if !matches!(v, MVal::Int(_) | MVal::Null) {
                    *v = MVal::Int("8".into());
                    x = true;
                }
            }
            x
        }
        _ => false,
    }
}
