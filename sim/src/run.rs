//! Runs. Every simulated run happens in a process of its own, forked from a pristine copy of this
//! program, so that nothing one run leaves in memory can reach another run or a replay.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use serde::{Deserialize, Serialize};

use crate::env;
use crate::gen::Gen;
use crate::ops::{Op, Schedule, Step};
use crate::rng::mix;
use crate::sim::{has_migrate, Ledger, Sim};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// generate run `run` of batch `seed` and execute it
    Gen {
        seed: u64,
        run: u64,
        focus: String,
        replica: u64,
        trace: bool,
    },
    /// execute a given schedule
    Sched {
        sched: Schedule,
        focus: String,
        replica: u64,
        trace: bool,
        /// keep the ledger from this block on (C19)
        keep: Option<usize>,
    },
    /// another node executes committed blocks
    Replica { ledger: Ledger, replica: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V {
    pub step: usize,
    pub props: Vec<String>,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Reply {
    /// the run could not be completed: how its process ended
    pub lost: Option<String>,
    pub viols: Vec<V>,
    pub digest: u64,
    pub path: u64,
    pub evals: u64,
    pub sigs: Vec<u64>,
    pub stats: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub secs: u64,
    pub steps: usize,
    pub looked: u64,
    pub sched: Option<Schedule>,
    pub trace: Option<Vec<String>>,
    pub ledger: Option<Ledger>,
    pub diverged: Option<String>,
}

impl Reply {
    pub fn hit(&self, focus: &str) -> Option<&V> {
        self.viols.iter().find(|v| v.props.iter().any(|p| p == focus))
    }
}

/// a schedule without migrations, otherwise the same
pub fn without_migrations(s: &Schedule) -> Schedule {
    let mut t = s.clone();
    t.steps = t
        .steps
        .into_iter()
        .filter_map(|st| match st {
            Step::Tx { by, ops, fault } => {
                let ops: Vec<Op> = ops.into_iter().filter(|o| !has_migrate(std::slice::from_ref(o))).collect();
                if ops.is_empty() {
                    None
                } else {
                    Some(Step::Tx { by, ops, fault })
                }
            }
            x => Some(x),
        })
        .collect();
    t
}

fn set_env(seed: u64, replica: u64) {
    let e = mix(mix(seed, 0x5eed), replica);
    env::simulate(e, 1_700_000_000_000_000_000 + (mix(e, 1) % 1_000_000_000) * 1_000_000_000 * (replica + 1));
}

/// Execute the history's twin and compare.
fn judge_twin(s: &mut Sim, focus: &str, sched: &Schedule) {
    let o = crate::twin::compare(focus, sched, s);
    s.evals += o.compared;
    s.sigs.extend(o.sigs);
    s.stat_n("steps compared with a twin history", o.compared);
    s.stat("twin histories");
    if o.extra.2 > 0 {
        s.stat_n("pools of other people", o.extra.0);
        s.stat_n("transactions of other people that succeeded", o.extra.1);
        s.stat_n("transactions of other people", o.extra.2);
    }
    if let Some((step, class, text)) = o.viol {
        s.step_no = step;
        let p = crate::props::find(focus).map(|p| p.id).unwrap_or("C28");
        s.viol(&[p], class, text);
    }
}

fn pack(s: Sim, sched: Option<Schedule>, steps: usize) -> Reply {
    let mut r = Reply {
        digest: s.digest,
        path: s.path,
        evals: s.evals,
        sigs: s.sigs.iter().copied().collect(),
        stats: s.stats.clone(),
        known: s.known.clone(),
        secs: s.sim_seconds(),
        steps,
        sched,
        ..Reply::default()
    };
    r.viols = s
        .viols
        .iter()
        .map(|v| V {
            step: v.step,
            props: v.props.iter().map(|p| p.to_string()).collect(),
            class: v.class.clone(),
            msg: v.msg.clone(),
        })
        .collect();
    if s.keep_from.is_some() {
        r.ledger = Some(s.ledger.clone());
    }
    r.trace = s.trace;
    r
}

/// Is it the migrations that made the difference? Then the violation is also one of C22.
fn attribute_migrations(r: &mut Reply, sched: &Schedule) {
    if r.viols.is_empty() || r.hit("C22").is_some() {
        return;
    }
    let plain = without_migrations(sched);
    if plain.steps.len() == sched.steps.len() && plain == *sched {
        return;
    }
    let mut b = Sim::new(&plain.genesis, None);
    b.stop_on_focus = false;
    for st in &plain.steps {
        if b.dead {
            break;
        }
        b.exec(st);
    }
    b.finish();
    if b.viols.is_empty() {
        let v = &mut r.viols[0];
        v.props.push("C22".into());
        v.class = format!("after-migration:{}", v.class);
    }
}

fn perform(job: Job) -> Reply {
    match job {
        Job::Gen {
            seed,
            run,
            focus,
            replica,
            trace,
        } => {
            set_env(mix(seed, run), replica);
            let mut g = Gen::new(seed, run, &focus);
            let mut s = Sim::new(&g.sched.genesis.clone(), Some(&focus));
            if trace {
                s.trace = Some(vec![]);
            }
            s.double = focus == "C19";
            if crate::twin::is_twin(&focus) {
                s.trail = Some(vec![]);
            }
            g.run(&mut s);
            s.finish();
            if crate::twin::is_twin(&focus) {
                judge_twin(&mut s, &focus, &g.sched);
            }
            let want = s.focus_viol().is_some() || trace || focus == "C19" || (focus == "C22" && !s.viols.is_empty());
            let sched = if want { Some(g.sched.clone()) } else { None };
            let n = g.sched.steps.len();
            let mut r = pack(s, sched, n);
            if focus == "C22" {
                if let Some(sc) = r.sched.clone() {
                    attribute_migrations(&mut r, &sc);
                }
            }
            r
        }
        Job::Sched {
            sched,
            focus,
            replica,
            trace,
            keep,
        } => {
            set_env(sched.genesis.salt, replica);
            let mut s = Sim::new(&sched.genesis, Some(&focus));
            if trace {
                s.trace = Some(vec![]);
            }
            if let Some(k) = keep {
                s.keep(k);
            }
            s.double = focus == "C19" && keep.is_none();
            let sched = if crate::twin::is_twin(&focus) {
                s.trail = Some(vec![]);
                crate::twin::prepare(&focus, &sched)
            } else {
                sched
            };
            for st in &sched.steps {
                if s.stopped() {
                    break;
                }
                s.exec(st);
            }
            s.finish();
            if crate::twin::is_twin(&focus) {
                judge_twin(&mut s, &focus, &sched);
            }
            let n = sched.steps.len();
            let mut r = pack(s, None, n);
            if focus == "C22" {
                attribute_migrations(&mut r, &sched);
            }
            r
        }
        Job::Replica { ledger, replica } => {
            set_env(ledger.salt, replica);
            Reply {
                diverged: Sim::replica(&ledger),
                ..Reply::default()
            }
        }
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn alarm(secs: u32) -> u32;
}

/// A pristine process: reads jobs, forks a child for each, passes the child's answer on.
pub fn zygote() {
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut inp = stdin.lock();
    let mut out = std::io::stdout();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let mut fds = [0i32; 2];
        unsafe {
            if pipe(fds.as_mut_ptr()) != 0 {
                return;
            }
        }
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                close(fds[0]);
                alarm(100);
            }
            let reply = match serde_json::from_str::<Job>(&line) {
                Ok(job) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(job))),
                Err(e) => Ok(Reply {
                    lost: Some(format!("bad job: {}", e)),
                    ..Reply::default()
                }),
            };
            let mut reply = reply.unwrap_or_else(|p| {
                let t = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Reply {
                    lost: Some(format!("harness panic: {}", t)),
                    ..Reply::default()
                }
            });
            reply.looked = env::LOOKED.load(std::sync::atomic::Ordering::SeqCst);
            let v = serde_json::to_vec(&reply).unwrap_or_default();
            let mut off = 0;
            while off < v.len() {
                let n = unsafe { write(fds[1], v[off..].as_ptr() as *const _, v.len() - off) };
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            unsafe { _exit(0) };
        }
        unsafe { close(fds[1]) };
        let mut got: Vec<u8> = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = unsafe { read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..n as usize]);
        }
        let mut st = 0i32;
        unsafe {
            close(fds[0]);
            waitpid(pid, &mut st, 0);
        }
        if st != 0 || got.is_empty() {
            let sig = st & 0x7f;
            let r = Reply {
                lost: Some(if sig == 14 {
                    "run exceeded its time".into()
                } else {
                    format!("process ended with status {:#x}", st)
                }),
                ..Reply::default()
            };
            got = serde_json::to_vec(&r).unwrap();
        }
        got.push(b'\n');
        if out.write_all(&got).is_err() || out.flush().is_err() {
            return;
        }
    }
}

pub struct Zygote {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Zygote {
    pub fn start() -> Zygote {
        let exe = std::env::current_exe().expect("own path");
        let mut child = Command::new(exe)
            .arg("zygote")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker process");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Zygote { child, inp, out }
    }
    pub fn ask(&mut self, job: &Job) -> Reply {
        let mut v = serde_json::to_vec(job).unwrap();
        v.push(b'\n');
        let mut line = String::new();
        let ok = self.inp.write_all(&v).is_ok() && self.inp.flush().is_ok() && self.out.read_line(&mut line).unwrap_or(0) > 0;
        if ok {
            if let Ok(r) = serde_json::from_str::<Reply>(&line) {
                return r;
            }
        }
        *self = Zygote::start();
        Reply {
            lost: Some("worker process lost".into()),
            ..Reply::default()
        }
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One run (generated or given) under a property's full judgement, C19's second node included.
pub struct Runner {
    a: Zygote,
    b: Option<Zygote>,
}

fn c19_from(salt: u64, steps: usize, blocks: u64) -> usize {
    // the first nodes sync right after genesis, others later
    let _ = steps;
    let h = mix(salt, 0xC19);
    1 + (mix(h, 1) % (blocks.max(1))) as usize
}

impl Runner {
    pub fn new(focus: &str) -> Runner {
        Runner {
            a: Zygote::start(),
            b: if focus == "C19" { Some(Zygote::start()) } else { None },
        }
    }
    pub fn generated(&mut self, seed: u64, run: u64, focus: &str, trace: bool) -> Reply {
        let mut r = self.a.ask(&Job::Gen {
            seed,
            run,
            focus: focus.into(),
            replica: 0,
            trace,
        });
        self.second_node(&mut r, focus, None);
        if focus != "C19" && !trace && r.hit(focus).is_none() {
            r.sched = None;
        }
        r
    }
    pub fn schedule(&mut self, s: &Schedule, focus: &str, trace: bool) -> Reply {
        let mut r = self.a.ask(&Job::Sched {
            sched: s.clone(),
            focus: focus.into(),
            replica: 0,
            trace,
            keep: None,
        });
        self.second_node(&mut r, focus, Some(s));
        r
    }
    /// Execute the run's schedule once more without the generator's looking around, hand the
    /// committed state after some block to a node in another process with another clock and other
    /// entropy, and let it execute the rest.
    fn second_node(&mut self, r: &mut Reply, focus: &str, given: Option<&Schedule>) {
        if focus != "C19" || r.lost.is_some() || r.hit(focus).is_some() {
            return;
        }
        let sched = match given.or(r.sched.as_ref()) {
            Some(s) => s.clone(),
            None => return,
        };
        let blocks = r.stats.get("blocks").copied().unwrap_or(1);
        let keep = c19_from(sched.genesis.salt, sched.steps.len(), blocks);
        let b = match &mut self.b {
            Some(b) => b,
            None => return,
        };
        let mut q = b.ask(&Job::Sched {
            sched: sched.clone(),
            focus: focus.into(),
            replica: 1,
            trace: false,
            keep: Some(keep),
        });
        if q.lost.is_some() {
            r.lost = q.lost;
            return;
        }
        let mut say = |m: String, step: usize| {
            r.viols.push(V {
                step,
                props: vec!["C19".into()],
                class: "another-node".into(),
                msg: m,
            })
        };
        if q.digest != r.digest {
            say(
                "executing the same blocks in another process with another clock and other entropy gives other outcomes or another state".into(),
                r.steps,
            );
            return;
        }
        if let Some(l) = q.ledger.take() {
            let n = l.blocks.iter().map(|b| b.ntx()).sum::<u64>();
            let d = self.a.ask(&Job::Replica { ledger: l, replica: 2 });
            if let Some(m) = d.diverged {
                say(m, r.steps);
                return;
            }
            if d.lost.is_some() {
                r.lost = d.lost;
                return;
            }
            *r.stats.entry("nodes that synced from a committed state".into()).or_insert(0) += 1;
            *r.stats.entry("transactions re-executed by another node".into()).or_insert(0) += n;
        }
    }
}

pub fn union(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_insert(0) += v;
    }
}

#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub lost: BTreeMap<String, u64>,
    pub steps: u64,
    pub secs: u64,
    pub evals: u64,
    pub looked: u64,
    pub sigs: BTreeSet<u64>,
    pub paths: BTreeSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
    pub found: Option<(u64, Reply)>,
}

pub fn slurp(path: &str) -> Option<String> {
    let mut s = String::new();
    std::fs::File::open(path).ok()?.read_to_string(&mut s).ok()?;
    Some(s)
}

/// `n` runs of batch `seed` on `threads` workers. The violation reported is the one of the lowest
/// run, whatever the workers' timing.
pub fn batch(seed: u64, n: u64, focus: &str, threads: usize, cap_s: u64) -> Batch {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::Mutex;
    let next = AtomicU64::new(0);
    let limit = AtomicU64::new(n);
    let total = Mutex::new(Batch::default());
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut z = Runner::new(focus);
                let mut mine = Batch::default();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= limit.load(SeqCst) {
                        break;
                    }
                    if t0.elapsed().as_secs() >= cap_s {
                        break;
                    }
                    let r = z.generated(seed, i, focus, false);
                    mine.runs += 1;
                    mine.steps += r.steps as u64;
                    mine.secs += r.secs;
                    mine.evals += r.evals;
                    mine.looked += r.looked;
                    mine.sigs.extend(r.sigs.iter());
                    mine.paths.insert(r.path);
                    union(&mut mine.stats, &r.stats);
                    union(&mut mine.known, &r.known);
                    if let Some(l) = &r.lost {
                        let k: String = l.chars().take(160).collect();
                        *mine.lost.entry(k).or_insert(0) += 1;
                        // the contracts themselves brought the process down
                        if focus == "C21" && !l.starts_with("harness") && !l.starts_with("worker") && !l.starts_with("bad") {
                            let mut r = r.clone();
                            r.viols.push(V {
                                step: 0,
                                props: vec!["C21".into()],
                                class: "process-ended".into(),
                                msg: l.clone(),
                            });
                            limit.fetch_min(i, SeqCst);
                            keep_lowest(&mut mine.found, i, r);
                        }
                        continue;
                    }
                    for v in &r.viols {
                        if !v.props.iter().any(|p| p == focus) {
                            *mine.other.entry(format!("{} {}", v.props.join("+"), v.class)).or_insert(0) += 1;
                        }
                    }
                    if r.hit(focus).is_some() {
                        limit.fetch_min(i, SeqCst);
                        keep_lowest(&mut mine.found, i, r);
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += mine.runs;
                t.steps += mine.steps;
                t.secs += mine.secs;
                t.evals += mine.evals;
                t.looked += mine.looked;
                t.sigs.extend(mine.sigs);
                t.paths.extend(mine.paths);
                union(&mut t.stats, &mine.stats);
                union(&mut t.known, &mine.known);
                union(&mut t.lost, &mine.lost);
                union(&mut t.other, &mine.other);
                if let Some((i, r)) = mine.found {
                    keep_lowest(&mut t.found, i, r);
                }
            });
        }
    });
    total.into_inner().unwrap()
}

fn keep_lowest(f: &mut Option<(u64, Reply)>, i: u64, r: Reply) {
    match f {
        Some((j, _)) if *j <= i => {}
        _ => *f = Some((i, r)),
    }
}
