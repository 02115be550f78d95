//! Deterministic scheduler: the worker threads of one execution run one at a time and hand a
//! baton over at scheduling points; blocking calls and time are virtual.
use crate::json::J;
use crate::raw;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const SEC: u128 = 1_000_000_000;
/// Virtual time origin (arbitrary, with a sub-millisecond part).
pub const T0: u128 = 5_000 * SEC + 300_200_100;

thread_local! {
    /// Index of the current worker, while it is inside a call of the API under test; else -1.
    static ACTIVE: Cell<i32> = const { Cell::new(-1) };
}
pub fn active() -> i32 {
    ACTIVE.with(|a| a.get())
}
pub fn set_active(i: i32) -> i32 {
    ACTIVE.with(|a| a.replace(i))
}

#[derive(Debug, Clone, PartialEq)]
pub enum St {
    /// Waiting for operations of a later phase.
    Idle,
    Run,
    /// Blocked in a system call until one of the descriptors is ready.
    Fds(Vec<(i32, i16)>),
    Futex(usize),
    Sleep,
    /// Runs without ever blocking or returning.
    Spin,
}
pub struct Th {
    pub st: St,
    pub deadline: Option<u128>,
    pub word: AtomicU32,
    pub queue: VecDeque<J>,
    pub sig: bool,
    /// A wait call of the system has ended without events and the clock has not been read since.
    pub woke: bool,
    pub woken: bool,
    pub steps: u32,
    pub solo: u32,
    pub spin_rounds: u32,
    pub spin_gen: u64,
    pub call: Option<(String, String)>,
    /// Whether the call has been seen blocked.
    pub blk: bool,
    /// Failures injected into the operation: name of the function, which of its calls.
    pub faults: Vec<(String, i64)>,
    pub fault_count: i64,
    pub ctl_count: i64,
    pub fault_names: Vec<String>,
    /// Whether a wait of the operation has ended, other than by a signal.
    pub waited: bool,
}

/// Memory shared with the parent process.
#[repr(C)]
pub struct Shared {
    pub log_len: usize,
    pub dec_len: usize,
    pub done: u32,
    pub steps: u32,
    pub dec: [[u8; 3]; 16384],
    pub log: [u8; 1 << 20],
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub prefix: Vec<u8>,
    /// 0: continue the current thread; otherwise random with this percentage of switches.
    pub rand_pct: u32,
    /// Above 0: run the thread with the highest of random priorities, one of which is lowered at
    /// each of as many random decisions (out of `horizon`).
    pub changes: u32,
    pub horizon: u32,
    pub seed: u64,
    /// What getrandom returns (the order of hash maps).
    pub salt: u64,
    pub low: bool,
}

pub struct World {
    pub th: Vec<Th>,
    pub cur: usize,
    pub now: u128,
    pub tick: u128,
    pub ticked: u128,
    pub timers: BTreeMap<i32, (u128, u128)>,
    pub phases: Vec<J>,
    pub phase: usize,
    pub adv: Option<u128>,
    pub final_adv: u32,
    pub gen: u64,
    pub cfg: Cfg,
    pub rng: u64,
    pub di: usize,
    pub prio: Vec<u64>,
    pub change_at: Vec<usize>,
    pub lowest: u64,
    pub sh: *mut Shared,
    pub done: AtomicU32,
    pub atomic_op: bool,
    pub on_quiesce: fn(&mut World, bool),
}

static mut WORLD: *mut World = std::ptr::null_mut();

pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn has_world() -> bool {
    unsafe { !WORLD.is_null() }
}
pub fn set_world(w: Box<World>) {
    unsafe { WORLD = Box::into_raw(w) }
}

static mut CAPTURE: Option<String> = None;
#[allow(static_mut_refs)]
pub fn capture(on: bool) {
    unsafe { CAPTURE = if on { Some(String::new()) } else { None } };
}
#[allow(static_mut_refs)]
pub fn captured() -> String {
    unsafe { CAPTURE.take().unwrap_or_default() }
}
pub fn log_raw(s: &str) {
    for l in s.lines() {
        log(l);
    }
}

#[allow(static_mut_refs)]
pub fn log(s: &str) {
    unsafe {
        if let Some(c) = CAPTURE.as_mut() {
            c.push_str(s);
            c.push('\n');
            return;
        }
    }
    let w = world();
    let sh = unsafe { &mut *w.sh };
    let b = s.as_bytes();
    if sh.log_len + b.len() + 1 > sh.log.len() {
        return;
    }
    sh.log[sh.log_len..sh.log_len + b.len()].copy_from_slice(b);
    sh.log[sh.log_len + b.len()] = b'\n';
    sh.log_len += b.len() + 1;
}

pub fn trip(t: u128) -> String {
    let s = t / SEC;
    format!("[{},{},{}]", s / SEC, s % SEC, t % SEC)
}
pub fn tnow() -> String {
    trip(world().now - T0)
}

/// Low-level event, only for the informational traces of the implementation.
pub fn low(k: &str, a: usize, v: u64) {
    let me = active();
    if me >= 0 && world().cfg.low {
        log(&format!("{{\"e\":\"low\",\"th\":{},\"k\":\"{}\",\"a\":\"{:x}\",\"v\":\"{:x}\"}}", me + 1, k, a, v));
    }
}

fn rnd(w: &mut World) -> u64 {
    w.rng ^= w.rng << 13;
    w.rng ^= w.rng >> 7;
    w.rng ^= w.rng << 17;
    w.rng
}

fn enabled(w: &World, i: usize) -> bool {
    let t = &w.th[i];
    match &t.st {
        St::Idle => !t.queue.is_empty(),
        St::Run => true,
        St::Fds(v) => {
            t.sig
                || t.deadline.map_or(false, |d| d <= w.now)
                || v.iter().any(|(fd, ev)| raw::poll1(*fd, *ev) != 0)
        }
        St::Futex(_) => t.woken || t.deadline.map_or(false, |d| d <= w.now),
        St::Sleep => t.deadline.map_or(false, |d| d <= w.now),
        St::Spin => t.spin_rounds < 12 && t.spin_gen != w.gen,
    }
}

/// The candidate with the highest priority.
fn by_priority(w: &mut World, c: &[usize]) -> usize {
    if w.prio.is_empty() {
        for i in 0..w.th.len() {
            let r = rnd(w) >> 8;
            w.prio.push((1 << 60) | (r << 8) | i as u64);
        }
        for _ in 0..w.cfg.changes {
            let x = (rnd(w) % w.cfg.horizon.max(1) as u64) as usize;
            w.change_at.push(x);
        }
    }
    let best = |w: &World| (0..c.len()).max_by_key(|k| w.prio[c[*k]]).unwrap();
    for _ in 0..w.change_at.iter().filter(|x| **x == w.di).count() {
        let k = best(w);
        w.lowest -= 1;
        w.prio[c[k]] = w.lowest;
    }
    best(w)
}

fn choose(w: &mut World, cand: &[usize], cur: bool) -> usize {
    let n = cand.len();
    if n == 1 {
        return 0;
    }
    let c = if w.cfg.changes > 0 {
        by_priority(w, cand)
    } else if w.di < w.cfg.prefix.len() {
        (w.cfg.prefix[w.di] as usize).min(n - 1)
    } else if w.cfg.rand_pct == 0 {
        0
    } else if cur {
        if rnd(w) % 100 < w.cfg.rand_pct as u64 { 1 + (rnd(w) as usize) % (n - 1) } else { 0 }
    } else {
        (rnd(w) as usize) % n
    };
    let sh = unsafe { &mut *w.sh };
    if sh.dec_len < sh.dec.len() {
        sh.dec[sh.dec_len] = [n as u8, c as u8, cur as u8];
        sh.dec_len += 1;
    }
    w.di += 1;
    c
}

/// Fires every timer descriptor whose deadline has passed.
pub fn fire_timers(w: &mut World) {
    let now = w.now;
    for (fd, (d, iv)) in w.timers.iter_mut() {
        if *d != 0 && *d <= now {
            let its = libc::itimerspec {
                it_interval: libc::timespec { tv_sec: 0, tv_nsec: 0 },
                it_value: libc::timespec { tv_sec: 0, tv_nsec: 1 },
            };
            raw::sc3(libc::SYS_timerfd_settime, *fd as usize, 0, &its as *const _ as usize);
            let mut p = [libc::pollfd { fd: *fd, events: libc::POLLIN, revents: 0 }];
            raw::poll(&mut p, 2000);
            *d = if *iv != 0 { now + *iv } else { 0 };
        }
    }
}

fn next_deadline(w: &World) -> Option<u128> {
    let mut m: Option<u128> = None;
    let mut up = |d: u128| m = Some(m.map_or(d, |x| x.min(d)));
    for t in &w.th {
        if t.st != St::Run && t.st != St::Idle {
            if let Some(d) = t.deadline {
                up(d)
            }
        }
    }
    for (d, _) in w.timers.values() {
        if *d != 0 {
            up(*d)
        }
    }
    // Deadlines further away than 10^18 seconds count as never.
    m.filter(|d| *d < SEC * SEC * SEC)
}

/// Nothing can run: log that, and make something happen, if the program has anything left.
fn quiesce(w: &mut World) -> bool {
    log_raw(&captured());
    let q = w.on_quiesce;
    q(w, false);
    loop {
        if (0..w.th.len()).any(|i| enabled(w, i)) {
            return true;
        }
        if let Some(target) = w.adv {
            match next_deadline(w) {
                Some(d) if d <= target => {
                    w.now = w.now.max(d);
                    w.gen += 1;
                    fire_timers(w);
                }
                _ => {
                    w.now = w.now.max(target);
                    w.gen += 1;
                    w.adv = None;
                    q(w, false);
                }
            }
        } else if w.phase < w.phases.len() {
            let ph = w.phases[w.phase].clone();
            w.phase += 1;
            w.gen += 1;
            if !ph.get("adv").is_null() {
                w.adv = Some(w.now + crate::exec::dur_ns(ph.get("adv")));
            } else {
                if let J::Obj(m) = ph.get("ops") {
                    for (k, v) in m {
                        let i: usize = k.parse().unwrap();
                        for o in v.a() {
                            w.th[i - 1].queue.push_back(o.clone());
                        }
                    }
                }
            }
        } else if w.final_adv < 64
            && w.th.iter().any(|t| t.st != St::Idle)
            && next_deadline(w).is_some()
        {
            w.final_adv += 1;
            w.now = w.now.max(next_deadline(w).unwrap());
            w.gen += 1;
            fire_timers(w);
        } else {
            q(w, true);
            return false;
        }
    }
}

/// Picks the next thread; `None` at the end of the execution.
fn pick(w: &mut World, me: Option<usize>, force_other: bool) -> Option<usize> {
    loop {
        let mut c: Vec<usize> = Vec::new();
        let mut cur = false;
        if let Some(m) = me {
            if enabled(w, m) {
                c.push(m);
                cur = true;
            }
        }
        for i in 0..w.th.len() {
            if Some(i) != me && enabled(w, i) {
                c.push(i);
            }
        }
        if c.is_empty() {
            if !quiesce(w) {
                return None;
            }
            continue;
        }
        if force_other && cur && c.len() > 1 {
            c.remove(0);
            cur = false;
        }
        let k = choose(w, &c, cur);
        return Some(c[k]);
    }
}

fn sleep_until_chosen(i: usize) {
    let word = &world().th[i].word as *const AtomicU32;
    let word = unsafe { &*word };
    while word.swap(0, SeqCst) == 0 {
        raw::futex_wait(word as *const _ as *const u32, 0);
    }
}

fn hand_over(w: &mut World, next: Option<usize>) {
    match next {
        Some(n) => {
            w.cur = n;
            let word = &w.th[n].word;
            word.store(1, SeqCst);
            raw::futex_wake(word as *const _ as *const u32);
        }
        None => {
            w.done.store(1, SeqCst);
            raw::futex_wake(&w.done as *const _ as *const u32);
        }
    }
}

fn reschedule(me: usize, force: bool) {
    let w = world();
    let next = pick(w, Some(me), force);
    if next != Some(me) {
        hand_over(w, next);
        sleep_until_chosen(me);
    }
}

/// Worker entry: wait for the first turn.
pub fn enter(i: usize) {
    sleep_until_chosen(i);
}

pub fn start() {
    let w = world();
    let next = pick(w, None, false);
    hand_over(w, next);
    let d = &w.done;
    while d.load(SeqCst) == 0 {
        raw::futex_wait(d as *const _ as *const u32, 0);
    }
}

/// A scheduling point of the calling worker, if it is inside the API under test.
pub fn point(k: &str, a: usize) {
    let me = active();
    if me < 0 {
        return;
    }
    point_(me as usize, k, a, false)
}
pub fn yield_point() {
    let me = active();
    if me >= 0 {
        point_(me as usize, "yield", 0, true)
    }
}
fn point_(me: usize, _k: &str, _a: usize, force: bool) {
    let w = world();
    if w.atomic_op {
        return;
    }
    w.gen += 1;
    unsafe { (*w.sh).steps += 1 };
    w.th[me].steps += 1;
    w.th[me].solo += 1;
    let solo = w.th[me].solo;
    let others = (0..w.th.len()).any(|i| i != me && enabled(w, i));
    let mut force = force;
    if solo > 300 && others {
        force = true;
    }
    if solo > 2500 && !others {
        // The thread makes no progress on its own: park it until something else happens.
        w.th[me].st = St::Spin;
        w.th[me].spin_gen = w.gen;
        w.th[me].spin_rounds += 1;
        w.th[me].solo = 0;
        reschedule(me, false);
        let w = world();
        w.th[me].st = St::Run;
        return;
    }
    let set = set_active(-1);
    reschedule(me, force);
    if force {
        world().th[me].solo = world().th[me].solo.min(300);
    }
    set_active(set);
}

/// A point between operations.
pub fn between(me: usize) {
    world().th[me].solo = 0;
    reschedule(me, false);
}

/// Blocks the calling worker until enabled again.
pub fn block(me: usize, st: St, deadline: Option<u128>) {
    let w = world();
    w.th[me].st = st;
    w.th[me].deadline = deadline;
    w.th[me].woken = false;
    w.th[me].solo = 0;
    w.gen += 1;
    let set = set_active(-1);
    reschedule(me, false);
    set_active(set);
    let w = world();
    w.th[me].st = St::Run;
    w.th[me].deadline = None;
}

/// The worker has no operation left: wait for the next phase.
pub fn idle(me: usize) {
    let w = world();
    w.th[me].st = St::Idle;
    w.th[me].solo = 0;
    reschedule(me, false);
    world().th[me].st = St::Run;
}
