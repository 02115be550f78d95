//! Executes the operations of a program against the real crate and logs what is observable.
use crate::json::J;
use crate::raw;
use crate::sched::{self, log, set_active, tnow, trip, world, World};
use polling::{Event, Events, PollMode, Poller};
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::os::unix::io::BorrowedFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub fn dur(j: &J) -> Option<Duration> {
    if j.is_null() {
        return None;
    }
    Some(Duration::new(j.get("s").s().parse::<u64>().unwrap_or(0), j.get("n").i() as u32))
}
pub fn dur_ns(j: &J) -> u128 {
    dur(j).map_or(0, |d| d.as_nanos())
}

pub struct Source {
    pub fd: i32,
    pub peer: i32,
    pub base: (isize, isize, i32, i32),
    pub cond: Vec<&'static str>,
    /// The descriptor of a poller.
    pub nested: bool,
}
pub struct PollerRec {
    pub p: *mut Poller,
    pub fds: Vec<i32>,
}
pub struct Ctx {
    pub pollers: BTreeMap<String, PollerRec>,
    pub sources: BTreeMap<String, Source>,
    pub conts: BTreeMap<String, *mut Events>,
    pub base_fds: Vec<i32>,
    pub audit: bool,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}
pub fn init(audit: bool) {
    let c = Ctx {
        pollers: BTreeMap::new(),
        sources: BTreeMap::new(),
        conts: BTreeMap::new(),
        base_fds: open_fds(),
        audit,
    };
    unsafe { CTX = Box::into_raw(Box::new(c)) };
}

pub fn open_fds() -> Vec<i32> {
    (0..300).filter(|fd| raw::fcntl(*fd, libc::F_GETFD, 0) >= 0).collect()
}

fn cond_of(fd: i32) -> Vec<&'static str> {
    let r = raw::poll1(fd, libc::POLLIN | libc::POLLPRI | libc::POLLOUT);
    let mut v = Vec::new();
    for (b, n) in [
        (libc::POLLIN, "I"),
        (libc::POLLPRI, "P"),
        (libc::POLLOUT, "O"),
        (libc::POLLHUP, "H"),
        (libc::POLLERR, "E"),
        (libc::POLLNVAL, "N"),
    ] {
        if r & b != 0 {
            v.push(n);
        }
    }
    v
}
/// The readiness of pollers used as sources changes without any operation on the source.
fn look_nested() {
    let mut lines = Vec::new();
    for (n, s) in ctx().sources.iter_mut().filter(|(_, s)| s.nested) {
        let after = cond_of(s.fd);
        if after == s.cond {
            continue;
        }
        let new: Vec<&'static str> = after.iter().filter(|b| !s.cond.contains(*b)).copied().collect();
        s.cond = after;
        lines.push(format!(
            "{{\"e\":\"env\",\"th\":0,\"t\":{},\"op\":\"look\",\"s\":\"{}\",\"cond\":{},\"new\":{}}}",
            tnow(), n, strs(&s.cond), strs(&new)
        ));
    }
    for l in lines {
        log(&l);
    }
}

fn base_of(s: &Source) -> (isize, isize, i32, i32) {
    (
        raw::fcntl(s.fd, libc::F_GETFL, 0),
        raw::fcntl(s.fd, libc::F_GETFD, 0),
        raw::fionread(s.fd),
        if s.peer >= 0 { raw::fionread(s.peer) } else { -1 },
    )
}

fn strs(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

/// Sources an API call changed although it must not.
fn touched() -> String {
    let mut t = Vec::new();
    for (n, s) in ctx().sources.iter_mut() {
        let b = base_of(s);
        if b != s.base {
            t.push(n.clone());
            s.base = b;
        }
    }
    format!("[{}]", t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}

pub fn on_quiesce(w: &mut World, fin: bool) {
    let mut bl = Vec::new();
    for (i, t) in w.th.iter().enumerate() {
        if t.st == sched::St::Idle {
            continue;
        }
        let st = match t.st {
            sched::St::Fds(_) => "fds",
            sched::St::Futex(_) => "futex",
            sched::St::Spin => "spin",
            sched::St::Sleep => "sleep",
            _ => "run",
        };
        let (o, p) = t.call.clone().unwrap_or_default();
        bl.push(format!("{{\"th\":{},\"op\":\"{}\",\"p\":\"{}\",\"st\":\"{}\"}}", i + 1, o, p, st));
    }
    look_nested();
    let c = ctx();
    #[allow(unused_mut)]
    let mut pol: Vec<String> = Vec::new();
    #[cfg(not(polling_test_poll_backend))]
    for (n, p) in &c.pollers {
        use std::os::unix::io::{AsFd, AsRawFd};
        let p = unsafe { &*p.p };
        let fd = p.as_raw_fd();
        if p.as_fd().as_raw_fd() != fd {
            pol.push(format!("[\"{}\",false]", n));
            pol.push(format!("[\"{}\",true]", n));
            continue;
        }
        pol.push(format!("[\"{}\",{}]", n, raw::poll1(fd, libc::POLLIN) & libc::POLLIN != 0));
    }
    let (mut unk, mut noclo) = (0, 0);
    if c.audit {
        for fd in open_fds() {
            if c.base_fds.contains(&fd) || c.sources.values().any(|s| s.fd == fd || s.peer == fd) {
                continue;
            }
            if raw::fcntl(fd, libc::F_GETFD, 0) & libc::FD_CLOEXEC as isize == 0 {
                noclo += 1;
            }
            if c.pollers.is_empty() {
                unk += 1;
            }
        }
    }
    log(&format!(
        "{{\"e\":\"q\",\"t\":{},\"final\":{},\"bl\":[{}],\"pol\":[{}],\"unk\":{},\"noclo\":{},\"tk\":{}}}",
        trip(w.now - sched::T0), fin, bl.join(","), pol.join(","), unk, noclo, trip(w.ticked)
    ));
}

fn res_str<T>(r: std::thread::Result<std::io::Result<T>>) -> (String, Option<T>) {
    match r {
        Err(_) => ("panic".into(), None),
        Ok(Err(e)) => (format!("{:?}", e.kind()), None),
        Ok(Ok(v)) => ("ok".into(), Some(v)),
    }
}

/// Failures of system calls during the next API call of worker `me`.
fn inject(me: usize, o: &J) {
    let t = &mut world().th[me];
    t.faults = o.get("faults").a().iter().map(|f| (f.a()[0].s().to_string(), f.a()[1].i())).collect();
    t.fault_count = 0;
    t.ctl_count = 0;
    t.fault_names.clear();
    t.waited = false;
}

/// Runs `f` as an API call of worker `me`.
fn api<T>(me: usize, f: impl FnOnce() -> std::io::Result<T>) -> (String, Option<T>) {
    let w = world();
    w.th[me].steps = 0;
    w.th[me].solo = 0;
    w.th[me].spin_rounds = 0;
    set_active(me as i32);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_active(-1);
    res_str(r)
}

fn ev_of(o: &J) -> Event {
    let key: usize = o.get("key").s().parse().unwrap_or(0);
    if !o.get("reuse").is_null() {
        // An event delivered earlier, changed into an interest.
        let k: usize = o.get("rkey").s().parse().unwrap_or(0);
        if let Some(mut e) = cont(o.get("reuse").s()).iter().find(|e| e.key == k) {
            e.key = key;
            e.readable = o.get("r").b();
            e.writable = o.get("w").b();
            e.set_priority(o.get("pri").b());
            return e;
        }
    }
    let mut e = match (o.get("r").b(), o.get("w").b(), o.get("ctor").b()) {
        (true, true, true) => Event::all(key),
        (true, false, true) => Event::readable(key),
        (false, true, true) => Event::writable(key),
        (false, false, true) => Event::none(key),
        (r, w, false) => Event::new(key, r, w),
    };
    if o.get("pri").b() {
        e = e.with_priority();
    }
    if o.get("hup").b() {
        e = e.with_interrupt();
    }
    e
}
fn mode_of(o: &J) -> PollMode {
    match o.get("mode").s() {
        "L" => PollMode::Level,
        "E" => PollMode::Edge,
        "EO" => PollMode::EdgeOneshot,
        _ => PollMode::Oneshot,
    }
}
#[allow(deprecated)]
fn ev_json(e: &Event) -> String {
    format!(
        "{{\"k\":\"{}\",\"rd\":{},\"wr\":{},\"pri\":{},\"hup\":{},\"err\":{},\"cf\":{}}}",
        e.key, e.readable, e.writable, e.is_priority(), e.is_interrupt(), e.is_err().unwrap_or(false),
        e.is_connect_failed().unwrap_or(false)
    )
}

fn poller(o: &J) -> &'static Poller {
    match ctx().pollers.get(o.get("p").s()) {
        Some(p) => unsafe { &*p.p },
        None => panic!("program error: no poller {}", o.get("p").s()),
    }
}
fn has_poller(o: &J) -> bool {
    ctx().pollers.contains_key(o.get("p").s())
}
fn cont(name: &str) -> &'static mut Events {
    let p = ctx().conts.entry(name.to_string()).or_insert_with(|| Box::into_raw(Box::new(Events::new())));
    unsafe { &mut **p }
}

pub fn worker(me: usize) {
    sched::enter(me);
    loop {
        let o = match world().th[me].queue.pop_front() {
            Some(o) => o,
            None => {
                sched::idle(me);
                continue;
            }
        };
        world().th[me].st = sched::St::Run;
        run_op(me, &o);
        sched::between(me);
    }
}

fn run_op(me: usize, o: &J) {
    let op = o.get("op").s().to_string();
    let th = me + 1;
    if o.get("quiet").b() {
        // Only while no other thread could be using what goes away.
        let w = world();
        let busy = (0..w.th.len()).any(|i| {
            let t = &w.th[i];
            let waiting = t.call.as_ref().map_or(false, |(c, p)| c == "wait" && (op != "drop" || p != o.get("p").s()));
            i != me && (!t.queue.is_empty() || (t.st != sched::St::Idle && !waiting))
        });
        if busy {
            return;
        }
    }
    match op.as_str() {
        "new" | "drop" | "evnew" | "evclear" | "ev" | "evfill" => {
            let t = tnow();
            world().atomic_op = true;
            let res = atomic_api(me, &op, o);
            world().atomic_op = false;
            if let Some(res) = res {
                log(&format!("{{\"e\":\"do\",\"th\":{},\"t\":{},\"o\":{},\"res\":{}}}", th, t, o.dump(), res));
            }
        }
        "add" | "mod" | "del" | "notify" | "wait" => {
            if !has_poller(o) {
                return;
            }
            if matches!(op.as_str(), "add" | "mod" | "del") && !ctx().sources.contains_key(o.get("s").s()) {
                return;
            }
            let p = poller(o);
            let fd = ctx().sources.get(o.get("s").s()).map_or(-1, |s| s.fd);
            let bfd = unsafe { BorrowedFd::borrow_raw(fd.max(0)) };
            let w = world();
            w.th[me].sig = false;
            w.th[me].call = Some((op.clone(), o.get("p").s().to_string()));
            w.th[me].blk = false;
            let tk0 = w.ticked;
            let mut extra = String::new();
            if op == "wait" {
                extra = match dur(o.get("to")) {
                    None => ",\"to\":[]".into(),
                    Some(d) => format!(",\"to\":{}", trip(d.as_nanos())),
                };
                let c = cont(o.get("c").s());
                extra += &format!(",\"cap\":{}", c.capacity().get().min(1 << 20));
            }
            log(&format!("{{\"e\":\"call\",\"th\":{},\"t\":{},\"o\":{}{}}}", th, tnow(), o.dump(), extra));
            inject(me, o);
            let r;
            let mut more = String::new();
            match op.as_str() {
                "add" => {
                    r = api(me, || unsafe {
                        match (o.get("plain").b(), o.get("ref").b()) {
                            (true, false) => p.add(fd, ev_of(o)),
                            (true, true) => p.add(&bfd, ev_of(o)),
                            (false, true) => p.add_with_mode(&bfd, ev_of(o), mode_of(o)),
                            _ => p.add_with_mode(fd, ev_of(o), mode_of(o)),
                        }
                    }).0
                }
                "mod" => {
                    r = api(me, || {
                        if o.get("plain").b() { p.modify(bfd, ev_of(o)) } else { p.modify_with_mode(bfd, ev_of(o), mode_of(o)) }
                    }).0
                }
                "del" => r = api(me, || p.delete(bfd)).0,
                "notify" => r = api(me, || p.notify()).0,
                _ => {
                    let c = cont(o.get("c").s());
                    let (rr, n) = api(me, || p.wait(c, dur(o.get("to"))));
                    r = rr;
                    let evs: Vec<String> = c.iter().take(600).map(|e| ev_json(&e)).collect();
                    more = format!(
                        ",\"n\":{},\"len\":{},\"emp\":{},\"evs\":[{}]",
                        n.map_or(-1, |n| n.min(1 << 30) as i64), c.len(), c.is_empty(), evs.join(",")
                    );
                }
            }
            let w = world();
            w.th[me].faults.clear();
            let tk = trip(w.ticked - tk0);
            w.th[me].call = None;
            w.th[me].sig = false;
            w.th[me].woke = false;
            look_nested();
            log(&format!(
                "{{\"e\":\"ret\",\"th\":{},\"t\":{},\"tk\":{},\"r\":\"{}\",\"touch\":{}{}}}",
                th, tnow(), tk, r, touched(), more
            ));
        }
        "rep" => {
            // Repeats operations that are observably idempotent: the first two rounds and every
            // round that looks different are logged.
            let mut first = String::new();
            for i in 0..o.get("n").i() {
                sched::capture(i >= 1);
                for x in o.get("ops").a() {
                    run_op(me, x);
                }
                let got = sched::captured();
                if i == 0 {
                    continue;
                }
                if i == 1 {
                    first = got.clone();
                }
                if i == 1 || got != first {
                    sched::log_raw(&got);
                    if i > 1 {
                        break;
                    }
                }
            }
        }
        "sig" => {
            let t = o.get("to").i() as usize;
            let w = world();
            if t >= 1 && t <= w.th.len() {
                if let sched::St::Fds(_) = w.th[t - 1].st {
                    w.th[t - 1].sig = true;
                    w.gen += 1;
                    log(&format!("{{\"e\":\"sig\",\"th\":{},\"t\":{},\"to\":{}}}", th, tnow(), t));
                }
            }
        }
        "tick" => {
            let w = world();
            let d = dur_ns(o.get("d"));
            w.now += d;
            w.ticked += d;
            w.gen += 1;
            sched::fire_timers(w);
        }
        // Descriptors below the number are taken from now on, or (0) the lowest one is free.
        "gap" => {
            let mut lim: libc::rlimit = unsafe { std::mem::zeroed() };
            unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) };
            let n = (o.get("n").i() as i32).min(lim.rlim_cur.min(1 << 20) as i32 - 200);
            if o.get("n").i() == 0 {
                raw::close(0);
            } else {
                while (0..n).contains(&(raw::sc3(libc::SYS_fcntl, 1, libc::F_DUPFD_CLOEXEC as usize, 0) as i32)) {}
            }
        }
        _ => env_op(me, &op, o),
    }
}

fn atomic_api(me: usize, op: &str, o: &J) -> Option<String> {
    match op {
        "new" => {
            if has_poller(o) {
                return None;
            }
            let before = open_fds();
            inject(me, o);
            let (r, p) = api(me, Poller::new);
            world().th[me].faults.clear();
            let calls = world().th[me].fault_count;
            let fds: Vec<i32> = open_fds().into_iter().filter(|f| !before.contains(f)).collect();
            let noclo = fds.iter().filter(|f| raw::fcntl(**f, libc::F_GETFD, 0) & libc::FD_CLOEXEC as isize == 0).count();
            let nfd = fds.len();
            let (mut lvl, mut edge) = (true, true);
            if let Some(p) = p {
                lvl = p.supports_level();
                edge = p.supports_edge();
                let p = Box::into_raw(Box::new(p));
                ctx().pollers.insert(o.get("p").s().to_string(), PollerRec { p, fds });
            }
            Some(format!(
                "{{\"r\":\"{}\",\"nfd\":{},\"noclo\":{},\"lvl\":{},\"edge\":{},\"touch\":{},\"calls\":{}}}",
                r, nfd, noclo, lvl, edge, touched(), calls
            ))
        }
        "drop" => {
            let rec = ctx().pollers.remove(o.get("p").s())?;
            let b = unsafe { Box::from_raw(rec.p) };
            let mut gone = true;
            let (r, _) = api(me, || {
                drop(b);
                Ok(())
            });
            let mut left = 0;
            for f in &rec.fds {
                if raw::fcntl(*f, libc::F_GETFD, 0) >= 0 {
                    left += 1;
                    gone = false;
                }
            }
            let _ = gone;
            Some(format!("{{\"r\":\"{}\",\"left\":{},\"touch\":{}}}", r, left, touched()))
        }
        "evnew" => {
            let cap = o.get("cap").i() as usize;
            let (r, e) = api(me, || {
                Ok(if cap == 0 { Events::new() } else { Events::with_capacity(NonZeroUsize::new(cap).unwrap()) })
            });
            let mut capr = 0;
            let mut len = 0;
            let mut emp = true;
            if let Some(e) = e {
                capr = e.capacity().get();
                len = e.len();
                emp = e.is_empty();
                ctx().conts.insert(o.get("c").s().to_string(), Box::into_raw(Box::new(e)));
            }
            Some(format!("{{\"r\":\"{}\",\"capr\":{},\"len\":{},\"emp\":{}}}", r, capr.min(1 << 20), len, emp))
        }
        "evclear" => {
            let c = cont(o.get("c").s());
            let cap0 = c.capacity().get();
            let (r, _) = api(me, || {
                c.clear();
                Ok(())
            });
            let c = cont(o.get("c").s());
            Some(format!(
                "{{\"r\":\"{}\",\"len\":{},\"emp\":{},\"it\":{},\"cap0\":{},\"capr\":{}}}",
                r, c.len(), c.is_empty(), c.iter().count(), cap0.min(1 << 20), c.capacity().get().min(1 << 20)
            ))
        }
        "ev" => {
            let mut out: Vec<String> = Vec::new();
            let (r, _) = api(me, || {
                let mut e = ev_of(o);
                out.push(ev_json(&e));
                for x in o.get("ops").a() {
                    match x.s() {
                        "si1" => e.set_interrupt(true),
                        "si0" => e.set_interrupt(false),
                        "sp1" => e.set_priority(true),
                        "sp0" => e.set_priority(false),
                        "wi" => e = e.with_interrupt(),
                        "wp" => e = e.with_priority(),
                        "clr" => e.clear_extra(),
                        "wne" => e = e.with_no_extra(),
                        "r1" => e.readable = true,
                        "r0" => e.readable = false,
                        "w1" => e.writable = true,
                        "w0" => e.writable = false,
                        _ => {}
                    }
                    out.push(ev_json(&e));
                }
                Ok(())
            });
            Some(format!("{{\"r\":\"{}\",\"st\":[{}]}}", r, out.join(",")))
        }
        _ => None,
    }
}

fn nonblock(fd: i32) {
    let f = raw::fcntl(fd, libc::F_GETFL, 0);
    raw::fcntl(fd, libc::F_SETFL, f as usize | libc::O_NONBLOCK as usize);
}

fn open_pair(kind: &str) -> (i32, i32) {
    let mut p = [0i32; 2];
    match kind {
        "us" | "ubs" => {
            raw::sc3(libc::SYS_socketpair, 1, 1, 0);
            unsafe { raw::sc(libc::SYS_socketpair, 1, 1, 0, p.as_mut_ptr() as usize, 0, 0) };
            if kind == "us" {
                nonblock(p[0]);
            }
            nonblock(p[1]);
            // Small buffers make filling cheap.
            for fd in p {
                let v: i32 = 4096;
                unsafe { raw::sc(libc::SYS_setsockopt, fd as usize, 1, 7, &v as *const _ as usize, 4, 0) };
            }
            (p[0], p[1])
        }
        "pr" | "pw" => {
            raw::sc3(libc::SYS_pipe2, p.as_mut_ptr() as usize, libc::O_NONBLOCK as usize, 0);
            raw::fcntl(p[1], libc::F_SETPIPE_SZ, 4096);
            if kind == "pr" { (p[0], p[1]) } else { (p[1], p[0]) }
        }
        "file" => (unsafe { raw::sc(libc::SYS_memfd_create, c"file".as_ptr() as usize, libc::MFD_CLOEXEC as usize, 0, 0, 0, 0) } as i32, -1),
        "efd" => {
            let fd = raw::sc3(libc::SYS_eventfd2, 0, libc::O_NONBLOCK as usize, 0) as i32;
            (fd, -1)
        }
        _ => (-1, -1),
    }
}

/// Operations on sources, done directly with the kernel; one event is logged for each, with the
/// readiness of the source afterwards as the kernel reports it.
fn env_op(me: usize, op: &str, o: &J) {
    let name = o.get("s").s().to_string();
    let c = ctx();
    let mut buf = [0u8; 65536];
    if op == "open" {
        if c.sources.contains_key(&name) {
            return;
        }
        let kind = o.get("kind").s();
        let (mut fd, peer);
        if kind == "poller" {
            #[cfg(not(polling_test_poll_backend))]
            {
                use std::os::unix::io::AsRawFd;
                if !has_poller(o) {
                    return;
                }
                fd = poller(o).as_raw_fd();
                peer = -1;
            }
            #[cfg(polling_test_poll_backend)]
            return;
        } else {
            let pr = open_pair(kind);
            fd = pr.0;
            peer = pr.1;
            let at = o.get("fd");
            if !at.is_null() && at.i() as i32 != fd && raw::sc3(libc::SYS_dup3, fd as usize, at.i() as usize, 0) >= 0 {
                raw::close(fd);
                fd = at.i() as i32;
            }
        }
        let mut s = Source { fd, peer, base: (0, 0, 0, 0), cond: cond_of(fd), nested: kind == "poller" };
        s.base = base_of(&s);
        log(&format!("{{\"e\":\"env\",\"th\":{},\"t\":{},\"op\":\"open\",\"s\":\"{}\",\"cond\":{},\"new\":[]}}", me + 1, tnow(), name, strs(&s.cond)));
        c.sources.insert(name, s);
        world().gen += 1;
        return;
    }
    let s = match c.sources.get_mut(&name) {
        Some(s) => s,
        None => return,
    };
    let n = o.get("n").i().max(1) as usize;
    let mut force: Vec<&'static str> = Vec::new();
    match op {
        "wr" => {
            let r = if s.peer >= 0 {
                raw::write(s.peer, &buf[..n.min(256)])
            } else {
                raw::write(s.fd, &1u64.to_ne_bytes())
            };
            if r > 0 {
                force.push("I");
            }
        }
        "oob" => {
            let r = unsafe { raw::sc(libc::SYS_sendto, s.peer.max(0) as usize, buf.as_ptr() as usize, 1, libc::MSG_OOB as usize, 0, 0) };
            if r > 0 {
                force.push("P");
                force.push("I");
            }
        }
        "rdoob" => {
            unsafe { raw::sc(libc::SYS_recvfrom, s.fd as usize, buf.as_mut_ptr() as usize, 1, (libc::MSG_OOB | libc::MSG_DONTWAIT) as usize, 0, 0) };
        }
        "rd" => {
            unsafe { rd(s.fd, &mut buf[..n.min(64)]) };
        }
        "drain" => {
            if s.peer < 0 {
                raw::read(s.fd, &mut buf[..8]);
            } else {
                while unsafe { rd(s.fd, &mut buf) } > 0 {}
            }
        }
        "fill" => {
            let mut i = if s.peer < 0 { 9000 } else { 0 };
            while i < 4000 && unsafe { wrn(s.fd, &buf[..4096]) } > 0 {
                i += 1;
            }
            while i < 8000 && unsafe { wrn(s.fd, &buf[..1]) } > 0 {
                i += 1;
            }
        }
        "unfill" => {
            if s.peer >= 0 {
                while unsafe { rd(s.peer, &mut buf) } > 0 {}
            }
        }
        "hup" => {
            if s.peer >= 0 {
                raw::close(s.peer);
                s.peer = -1;
            }
        }
        "shutw" => {
            if s.peer >= 0 {
                raw::sc3(libc::SYS_shutdown, s.peer as usize, 1, 0);
            }
        }
        "close" => {
            raw::close(s.fd);
            if s.peer >= 0 {
                raw::close(s.peer);
            }
            c.sources.remove(&name);
            log(&format!("{{\"e\":\"env\",\"th\":{},\"t\":{},\"op\":\"close\",\"s\":\"{}\",\"cond\":[],\"new\":[]}}", me + 1, tnow(), name));
            return;
        }
        "forget" => {
            c.sources.remove(&name);
            log(&format!("{{\"e\":\"env\",\"th\":{},\"t\":{},\"op\":\"close\",\"s\":\"{}\",\"cond\":[],\"new\":[]}}", me + 1, tnow(), name));
            return;
        }
        "look" => {}
        _ => panic!("program error: op {}", op),
    }
    let after = cond_of(s.fd);
    let new: Vec<&'static str> = after
        .iter()
        .filter(|b| !s.cond.contains(*b) || force.contains(*b))
        .copied()
        .collect();
    s.cond = after;
    s.base = base_of(s);
    world().gen += 1;
    log(&format!(
        "{{\"e\":\"env\",\"th\":{},\"t\":{},\"op\":\"{}\",\"s\":\"{}\",\"cond\":{},\"new\":{}}}",
        me + 1, tnow(), op, name, strs(&s.cond), strs(&new)
    ));
    look_nested();
}

unsafe fn rd(fd: i32, b: &mut [u8]) -> isize {
    // Sources may be blocking descriptors: never wait.
    if raw::poll1(fd, libc::POLLIN) & (libc::POLLIN | libc::POLLHUP | libc::POLLERR) == 0 {
        return -1;
    }
    raw::read(fd, b)
}
unsafe fn wrn(fd: i32, b: &[u8]) -> isize {
    let r = raw::sc(libc::SYS_sendto, fd as usize, b.as_ptr() as usize, b.len(), (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as usize, 0, 0);
    if r == -(libc::ENOTSOCK as isize) {
        if raw::poll1(fd, libc::POLLOUT) & libc::POLLOUT == 0 || raw::poll1(fd, libc::POLLOUT) & libc::POLLERR != 0 {
            return -1;
        }
        return raw::write(fd, b);
    }
    r
}
