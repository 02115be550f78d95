mod exec;
mod interpose;
mod json;
mod raw;
mod sched;
mod tsan;

use json::J;
use sched::{Cfg, Shared, St, Th, World, T0};
use std::collections::{HashSet, VecDeque};
use std::io::{BufRead, Write};
use std::sync::atomic::AtomicU32;

fn shared() -> *mut Shared {
    let n = std::mem::size_of::<Shared>();
    unsafe {
        libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared
    }
}

/// Runs one execution of the program in the current (child) process.
fn child(prog: &J, cfg: &Cfg, sh: *mut Shared) -> ! {
    let nth = prog.get("threads").i().max(1) as usize;
    let th = (0..nth)
        .map(|_| Th {
            st: St::Idle, deadline: None, word: AtomicU32::new(0), queue: VecDeque::new(), sig: false, woke: false,
            woken: false, steps: 0, solo: 0, spin_rounds: 0, spin_gen: 0, call: None, blk: false,
            faults: Vec::new(), fault_count: 0, ctl_count: 0, fault_names: Vec::new(), waited: false,
        })
        .collect();
    let w = World {
        th, cur: 0, now: T0, tick: prog.get("tick").i() as u128, ticked: 0, timers: Default::default(),
        phases: prog.get("phases").a().to_vec(), phase: 0, adv: None, final_adv: 0, gen: 0,
        cfg: cfg.clone(), rng: cfg.seed | 1, di: 0, prio: Vec::new(), change_at: Vec::new(), lowest: 1 << 50, sh, done: AtomicU32::new(0), atomic_op: false,
        on_quiesce: exec::on_quiesce,
    };
    exec::init(prog.get("audit").b());
    sched::set_world(Box::new(w));
    for i in 0..nth {
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || exec::worker(i)).unwrap();
    }
    sched::start();
    unsafe { (*sh).done = 1 };
    raw::sc3(libc::SYS_exit_group, 0, 0, 0);
    loop {}
}

struct Run {
    log: String,
    dec: Vec<[u8; 3]>,
    bad: bool,
}

/// Processor time of a child.
fn cpu_ms(pid: i32) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let clock = ((!pid) << 3) | 2;
    raw::sc3(libc::SYS_clock_gettime, clock as usize, &mut ts as *mut _ as usize, 0);
    ts.tv_sec * 1000 + ts.tv_nsec / 1_000_000
}

/// Whether every thread of a child sleeps.
fn asleep(pid: i32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    d.flatten().all(|t| {
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        s.rsplit(") ").next().map_or(false, |x| x.starts_with('S'))
    })
}

/// Waits for the end of an execution; whether it does not come.  The load of the machine does not matter:
/// an execution hangs if it computes without taking any step, or if all its threads sleep for good.
fn hangs(pid: i32, sh: *mut Shared, hang_ms: i32) -> bool {
    let pfd = raw::sc3(libc::SYS_pidfd_open, pid as usize, 0, 0) as i32;
    let mut p = [libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 }];
    let at = || unsafe {
        let s = &raw const (*sh);
        (std::ptr::read_volatile(&raw const (*s).steps) as u64, std::ptr::read_volatile(&raw const (*s).log_len), std::ptr::read_volatile(&raw const (*s).dec_len))
    };
    let (mut last, mut cpu, mut cpu_seen, mut quiet) = (at(), 0i64, 0i64, 0i32);
    let mut hung = false;
    while raw::poll(&mut p, 500) == 0 {
        let (now, c) = (at(), cpu_ms(pid));
        if now != last {
            (last, cpu, quiet) = (now, c, 0);
        } else if c != cpu_seen || !asleep(pid) {
            quiet = 0;
        } else {
            quiet += 1;
        }
        cpu_seen = c;
        if c - cpu > hang_ms as i64 || quiet * 500 > hang_ms || c > 120_000 {
            hung = true;
            break;
        }
    }
    raw::close(pfd);
    hung
}

fn execute(prog: &J, cfg: &Cfg, sh: *mut Shared, hang_ms: i32) -> Run {
    unsafe {
        (*sh).log_len = 0;
        (*sh).dec_len = 0;
        (*sh).done = 0;
        (*sh).steps = 0;
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child(prog, cfg, sh);
    }
    let hung = hangs(pid, sh, hang_ms);
    if hung {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let s = unsafe { &*sh };
    let mut log = String::from_utf8_lossy(&s.log[..s.log_len]).into_owned();
    let mut bad = false;
    if s.done == 0 {
        bad = true;
        let code = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) };
        log.push_str(&format!(
            "{{\"e\":\"crash\",\"k\":\"{}\",\"code\":{}}}\n",
            if hung { "hang" } else { "crash" }, code
        ));
    }
    Run { log, dec: s.dec[..s.dec_len].to_vec(), bad }
}

/// Next schedule of a depth-first enumeration with at most `pb` preemptions.
fn next_prefix(dec: &[[u8; 3]], pb: usize) -> Option<Vec<u8>> {
    let mut cum = Vec::with_capacity(dec.len());
    let mut c = 0;
    for d in dec {
        cum.push(c);
        if d[2] == 1 && d[1] != 0 {
            c += 1;
        }
    }
    for i in (0..dec.len()).rev() {
        let d = dec[i];
        if d[1] + 1 < d[0] {
            if d[2] == 1 && d[1] == 0 && cum[i] + 1 > pb {
                continue;
            }
            let mut v: Vec<u8> = dec[..i].iter().map(|x| x[1]).collect();
            v.push(d[1] + 1);
            return Some(v);
        }
    }
    None
}

fn emit(out: &mut dyn Write, prog: &J, mode: &str, r: &Run) {
    let sched: Vec<String> = r.dec.iter().map(|d| d[1].to_string()).collect();
    let evs: Vec<&str> = r.log.lines().collect();
    writeln!(
        out,
        "{{\"prog\":\"{}\",\"mode\":\"{}\",\"sched\":[{}],\"trace\":[{}]}}",
        prog.get("id").s(), mode, sched.join(","), evs.join(",")
    )
    .unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let progs = opt("--progs").expect("--progs FILE");
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let hang: i32 = opt("--hang-ms").and_then(|s| s.parse().ok()).unwrap_or(20_000);
    let part: usize = opt("--part").and_then(|s| s.parse().ok()).unwrap_or(0);
    let parts: usize = opt("--parts").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = opt("--budget-s").and_then(|s| s.parse().ok()).unwrap_or(1e9);
    let low = args.iter().any(|a| a == "--low");
    let fixed: Option<Vec<u8>> = opt("--sched").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect());
    let only = opt("--only");
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };

    let mut out: Box<dyn Write> = match opt("--out") {
        Some(f) => Box::new(std::io::BufWriter::new(std::fs::File::create(f).unwrap())),
        None => Box::new(std::io::stdout()),
    };
    let sh = shared();
    let t0 = std::time::Instant::now();
    let file = std::io::BufReader::new(std::fs::File::open(progs).unwrap());
    let (mut execs, mut steps, mut distinct, mut complete, mut nprog, mut cut) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for (n, line) in file.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() || n % parts != part {
            continue;
        }
        let prog = json::parse(&line).unwrap_or_else(|e| panic!("line {}: {}", n + 1, e));
        if let Some(o) = &only {
            if prog.get("id").s() != o {
                continue;
            }
        }
        if t0.elapsed().as_secs_f64() > budget {
            cut += 1;
            continue;
        }
        nprog += 1;
        let mut seen: HashSet<String> = HashSet::new();
        let x = prog.get("explore");
        let max_traces = if x.get("max").is_null() { 4000 } else { x.get("max").i() as usize };
        let mut stop = false;
        let mut go = |cfg: &Cfg, mode: &str, out: &mut dyn Write| -> (Vec<[u8; 3]>, bool) {
            let r = execute(&prog, cfg, sh, hang);
            execs += 1;
            steps += unsafe { (*sh).steps } as u64;
            let bad = r.bad;
            if seen.len() < max_traces && seen.insert(r.log.clone()) {
                distinct += 1;
                emit(out, &prog, mode, &r);
            }
            (r.dec, bad)
        };
        let salt = prog.get("id").s().bytes().fold(seed ^ 0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
        let base = Cfg { low, salt, ..Cfg::default() };
        if let Some(f) = &fixed {
            go(&Cfg { prefix: f.clone(), ..base }, "fixed", &mut out);
            continue;
        }
        let mut done_all = false;
        let mut horizon = 10;
        if x.get("dfs").i() > 0 {
            let mut left = (x.get("dfs").i() as f64 * scale).ceil() as i64;
            let pbmax = x.get("pb").i().max(0) as usize;
            for pb in 0..=pbmax {
                let mut prefix = Vec::new();
                done_all = false;
                while left > 0 {
                    left -= 1;
                    let (dec, bad) = go(&Cfg { prefix, ..base.clone() }, "dfs", &mut out);
                    horizon = horizon.max(dec.len() as u32);
                    if bad {
                        stop = true;
                        break;
                    }
                    match next_prefix(&dec, pb) {
                        Some(p) => prefix = p,
                        None => {
                            done_all = true;
                            break;
                        }
                    }
                }
                if stop || left <= 0 {
                    break;
                }
            }
        } else {
            let (dec, bad) = go(&base, "det", &mut out);
            stop = bad;
            done_all = dec.is_empty();
        }
        if done_all {
            complete += 1;
        }
        let mut k = 0;
        let rn = (x.get("rand").i() as f64 * scale).ceil() as u64;
        while !stop && k < rn {
            k += 1;
            let s = (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (n as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03)).wrapping_add(k.wrapping_mul(0x2545_F491_4F6C_DD1D));
            let cfg = match k % 6 {
                1 => Cfg { rand_pct: 8, ..base.clone() },
                3 => Cfg { rand_pct: 20, ..base.clone() },
                5 => Cfg { rand_pct: 45, ..base.clone() },
                m => Cfg { changes: 1 + m as u32 / 2, horizon, ..base.clone() },
            };
            let (dec, bad) = go(&Cfg { seed: s, ..cfg }, "rand", &mut out);
            horizon = horizon.max(dec.len() as u32);
            stop = bad;
        }
    }
    out.flush().unwrap();
    eprintln!(
        "{{\"programs\":{},\"executions\":{},\"steps\":{},\"distinct\":{},\"complete\":{},\"cut\":{},\"wall\":{:.2}}}",
        nprog, execs, steps, distinct, complete, cut, t0.elapsed().as_secs_f64()
    );
}
