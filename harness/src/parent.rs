//! Campaigns: workers, minimisation, replay and evidence.
use crate::coll;
use crate::props;
use crate::run;
use crate::scen::*;
use crate::sim::*;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

const NWORKER: usize = 8;
const SITU_CAP: usize = 1 << 18;

/// What a worker leaves in shared memory.
#[repr(C)]
struct Shared {
    idx: u64,
    busy: u64,
    runs: u64,
    seams: u64,
    switches: u64,
    faults: u64,
    faulted_runs: u64,
    switched_runs: u64,
    foreign: u64,
    nsitu: u64,
    quota: u64,
    st: Stats,
    situ: [u64; SITU_CAP],
}
#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Rec {
    digest: u64,
    swhash: u64,
    nontrivial: u64,
}

unsafe fn shm<T>(n: usize) -> *mut T {
    let p = libc::mmap(core::ptr::null_mut(), n * core::mem::size_of::<T>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut T
}

/// Forks; the child runs `f` with its standard output on the returned pipe.
fn spawn(f: impl FnOnce()) -> (i32, i32) {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::dup2(p[1], 1);
            init();
            install_signals();
            install_panic_hook();
            f();
            libc::_exit(0);
        }
        libc::close(p[1]);
        (pid, p[0])
    }
}
fn read_all(fd: i32, deadline: Option<Instant>, pid: i32) -> String {
    let mut v = Vec::new();
    let mut b = [0u8; 65536];
    loop {
        let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut pf, 1, 200) };
        if n > 0 {
            let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 { break }
            v.extend_from_slice(&b[..n as usize]);
        }
        if deadline.map_or(false, |d| Instant::now() > d) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
    }
    unsafe { libc::close(fd) };
    String::from_utf8_lossy(&v).to_string()
}
fn wait(pid: i32) -> i32 {
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    st
}
fn exited(st: i32) -> Option<i32> {
    if libc::WIFEXITED(st) { Some(libc::WEXITSTATUS(st)) } else { None }
}

/// The discrepancy a child died of: class, message line.
#[derive(Clone, Debug)]
struct Found {
    class: String,
    line: String,
}
fn parse(t: &str, st: i32) -> Option<Found> {
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("VIOL ") {
            let mut w = r.splitn(3, ' ');
            let _run = w.next();
            let class = w.next().unwrap_or("").to_string();
            return Some(Found { class: class.clone(), line: format!("{} {}", class, w.next().unwrap_or("")) });
        }
    }
    match exited(st) {
        Some(0) | Some(5) => None,
        _ => Some(Found { class: "Signal".into(), line: format!("Signal the process died (status {})", st) }),
    }
}

/// Runs one scenario in a child.
fn trial(sc: &Scenario, log: bool, trace: i32, secs: u64) -> (Option<Found>, String) {
    let (pid, fd) = spawn(|| {
        sim().trace_fd = trace;
        for j in &sc.pre {
            let p = generate(sc.prop, sc.seed, *j, sc.big);
            run::run(&p, crate::fns(p.world));
        }
        if log { sim().log = Some(Vec::new()) }
        run::run(sc, crate::fns(sc.world));
        if let Some(l) = &sim().log {
            for x in l { out(&format!("LOG {}\n", x)) }
        }
    });
    let t = read_all(fd, Some(Instant::now() + std::time::Duration::from_secs(secs)), pid);
    let st = wait(pid);
    (parse(&t, st), t)
}

/// Runs a seeded scenario once more and records its scheduling decisions, so that it can be replayed and cut down.
fn record(sc: &Scenario) -> Scenario {
    let mut r = sc.clone();
    unsafe {
        let fd = libc::memfd_create(c"trace".as_ptr(), 0);
        trial(sc, false, fd, 40);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let t = {
            let mut v = Vec::new();
            let mut b = [0u8; 65536];
            loop {
                let n = libc::read(fd, b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 { break }
                v.extend_from_slice(&b[..n as usize]);
            }
            libc::close(fd);
            String::from_utf8_lossy(&v).to_string()
        };
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() < 3 { continue }
            let (a, b) = (w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(0u64));
            match w[0] {
                "s" => r.sched.push((a, b as u8)),
                "c" => r.choices.push((a, b as u32)),
                _ => r.pends.push(a),
            }
        }
    }
    r.replay = true;
    r
}

fn half(n: &mut u32) {
    *n = *n & !0xffff | (*n & 0xffff) / 2
}

struct Mini {
    class: String,
    left: usize,
    until: Instant,
    best: Scenario,
}
impl Mini {
    fn ok(&mut self, sc: &Scenario) -> bool {
        if self.left == 0 || Instant::now() > self.until { return false }
        self.left -= 1;
        match trial(sc, false, -1, if sc.dom > 10_000 { 40 } else { 15 }).0 {
            Some(f) if f.class == self.class => {
                self.best = sc.clone();
                true
            }
            _ => false,
        }
    }
    fn attempt(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.ok(&c)
    }
    fn cut<T: Clone>(&mut self, get: impl Fn(&mut Scenario) -> &mut Vec<T>) {
        let mut n = get(&mut self.best.clone()).len();
        if n == 0 { return }
        if self.attempt(|c| get(c).clear()) { return }
        let mut chunk = (n + 1) / 2;
        loop {
            let mut i = 0;
            while i < n {
                let e = (i + chunk).min(n);
                if self.attempt(|c| { get(c).drain(i..e); }) { n -= e - i } else { i = e }
            }
            if chunk == 1 { break }
            chunk = (chunk + 1) / 2;
            if chunk == 0 || self.left == 0 { break }
        }
    }
    fn minimise(&mut self) {
        for pass in 0..2 {
            self.attempt(|c| c.verify_every = if c.verify_every > 0 { 0 } else { c.verify_every });
            // whole clients
            let mut i = self.best.clients.len();
            while i > 0 {
                i -= 1;
                if self.best.clients.len() > 1 {
                    // keep client numbers stable: empty it first
                    if !self.best.clients[i].is_empty() { self.attempt(|c| c.clients[i].clear()); }
                }
            }
            while self.best.clients.len() > 1 && self.best.clients.last().map_or(false, |c| c.is_empty()) {
                if !self.attempt(|c| { c.clients.pop(); }) { break }
            }
            for i in 0..self.best.clients.len() {
                self.cut(|c| &mut c.clients[i]);
            }
            self.cut(|c| &mut c.init);
            self.cut(|c| &mut c.sched);
            self.cut(|c| &mut c.pends);
            self.cut(|c| &mut c.choices);
            for i in 0..self.best.clients.len() {
                for j in 0..self.best.clients[i].len() {
                    if self.best.clients[i][j].fk != 0 { self.attempt(|c| { c.clients[i][j].fk = 0; c.clients[i][j].fat = 0 }); }
                    if self.best.clients[i][j].fk != 0 && self.best.clients[i][j].fat > 0 { self.attempt(|c| c.clients[i][j].fat = 0); }
                    if self.best.clients[i][j].f != 0 { self.attempt(|c| c.clients[i][j].f = 0); }
                    for b in 0..5 {
                        if self.best.clients[i][j].f & (1 << b) != 0 { self.attempt(|c| c.clients[i][j].f &= !(1 << b)); }
                    }
                    if matches!(self.best.clients[i][j].k, K_FILL | K_DRAIN) {
                        while self.best.clients[i][j].n & 0xffff > 1 && self.attempt(|c| half(&mut c.clients[i][j].n)) {}
                    }
                }
            }
            for i in 0..self.best.init.len() {
                while self.best.init[i].n & 0xffff > 1 && self.attempt(|c| half(&mut c.init[i].n)) {}
                while self.best.init[i].n & 0xffff > 1 && self.attempt(|c| c.init[i].n -= 1) {}
            }
            if pass == 0 {
                while self.best.dom > 3 && self.attempt(|c| { c.dom = c.dom * 3 / 4; for x in c.clients.iter_mut().flatten() { if matches!(x.k, K_INSERT | K_REMOVE | K_FIND) { x.n %= c.dom } } }) {}
            }
        }
    }
}

fn esc(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s += "\\\"",
            '\\' => s += "\\\\",
            '\n' => s += "\\n",
            c if (c as u32) < 32 => s += " ",
            c => s.push(c),
        }
    }
    s + "\""
}

struct Budget {
    runs: u64,
    secs: u64,
    big: bool,
}
fn budget(prop: u32, thorough: bool) -> Budget {
    let base: u64 = match prop {
        2 => 24_000,
        13 => 32_000,
        9 | 10 | 11 | 15 | 18 => 40_000,
        4 | 8 | 12 | 14 => 48_000,
        _ => 60_000,
    };
    let m: u64 = std::env::var("HTSIM_MULT").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 32 } else { 1 });
    Budget { runs: std::env::var("HTSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(base * m), secs: if thorough { 720 } else { 150 }, big: thorough }
}

struct Slot {
    pid: i32,
    fd: i32,
    buf: String,
    sh: *mut Shared,
    recs: *mut Rec,
    w: usize,
    first: u64,
    alive: bool,
}

fn worker_loop(prop: u32, seed: u64, w: usize, from: u64, b: &Budget, sh: *mut Shared, recs: *mut Rec) {
    let sh = unsafe { &mut *sh };
    // statistics survive the death of an earlier process of this slot
    sim().st = sh.st.clone();
    let mut i = from;
    while i < b.runs {
        sh.idx = i;
        sh.busy = 1;
        let sc = generate(prop, seed, i, b.big);
        let o = run::run(&sc, crate::fns(sc.world));
        unsafe { *recs.add(i as usize) = Rec { digest: o.digest, swhash: o.swhash, nontrivial: (o.switches > 0 || o.faults > 0 || o.pends > 0) as u64 } };
        sh.busy = 0;
        sh.runs += 1;
        sh.seams += o.seams;
        sh.switches += o.switches;
        sh.faults += o.faults;
        sh.faulted_runs += (o.faults > 0) as u64;
        sh.switched_runs += (o.switches > 0) as u64;
        sh.foreign += sim().foreign;
        sh.st = sim().st.clone();
        for x in coll::situ().drain() {
            let mut p = x as usize % SITU_CAP;
            let x = x | 1;
            while sh.situ[p] != 0 && sh.situ[p] != x { p = (p + 1) % SITU_CAP }
            if sh.situ[p] == 0 && sh.nsitu < SITU_CAP as u64 / 2 {
                sh.situ[p] = x;
                sh.nsitu += 1;
            }
        }
        i += NWORKER as u64;
    }
    let _ = w;
}

fn start(prop: u32, seed: u64, w: usize, from: u64, b: &Budget, sh: *mut Shared, recs: *mut Rec) -> (i32, i32) {
    unsafe { (*sh).idx = from };
    spawn(|| worker_loop(prop, seed, w, from, b, sh, recs))
}

pub fn check(prop: u32, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let b = budget(prop, thorough);
    let recs: *mut Rec = unsafe { shm(b.runs as usize) };
    let mut slots: Vec<Slot> = Vec::new();
    for w in 0..NWORKER {
        let sh: *mut Shared = unsafe { shm(1) };
        let (pid, fd) = start(prop, seed, w, w as u64, &b, sh, recs);
        slots.push(Slot { pid, fd, buf: String::new(), sh, recs, w, first: w as u64, alive: true });
    }
    let mut best: Option<(u64, Found, u64)> = None;
    let mut lost: Vec<String> = Vec::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut capped = false;
    while slots.iter().any(|s| s.alive) {
        let mut pf: Vec<libc::pollfd> = slots.iter().map(|s| libc::pollfd { fd: if s.alive { s.fd } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 100) };
        let late = t0.elapsed().as_secs() > b.secs;
        for k in 0..slots.len() {
            let s = &mut slots[k];
            if !s.alive { continue }
            let mut eof = false;
            if pf[k].revents != 0 {
                let mut buf = [0u8; 65536];
                let n = unsafe { libc::read(s.fd, buf.as_mut_ptr() as *mut _, buf.len()) };
                if n <= 0 { eof = true } else { s.buf += &String::from_utf8_lossy(&buf[..n as usize]) }
                if s.buf.len() > 1 << 20 { s.buf = s.buf.split_off(s.buf.len() - (1 << 16)) }
            }
            let idx = unsafe { core::ptr::read_volatile(&(*s.sh).idx) };
            if !eof && (late || best.as_ref().map_or(false, |x| idx > x.0)) {
                // nothing this worker may still find would matter
                if late { capped = true }
                unsafe { libc::kill(s.pid, libc::SIGKILL) };
                wait(s.pid);
                unsafe { libc::close(s.fd) };
                s.alive = false;
                continue;
            }
            if eof {
                unsafe { libc::close(s.fd) };
                let st = wait(s.pid);
                s.alive = false;
                for l in s.buf.lines() {
                    if let Some(r) = l.strip_prefix("FOREIGN ") {
                        let w: Vec<&str> = r.splitn(4, ' ').collect();
                        if w.len() == 4 { *foreign.entry(format!("{} {}", w[1], w[2])).or_default() += 1 }
                    }
                }
                if exited(st) == Some(0) { continue }
                match parse(&s.buf, st) {
                    Some(f) => {
                        if best.as_ref().map_or(true, |x| idx < x.0) { best = Some((idx, f, s.first)) }
                    }
                    None => {
                        let why = s.buf.lines().filter(|l| l.starts_with("GIVEUP")).last().unwrap_or("?").to_string();
                        lost.push(why);
                        if idx + (NWORKER as u64) < b.runs && !late && lost.len() < 400 {
                            let (pid, fd) = start(prop, seed, s.w, idx + NWORKER as u64, &b, s.sh, s.recs);
                            s.pid = pid;
                            s.first = idx + NWORKER as u64;
                            s.fd = fd;
                            s.buf.clear();
                            s.alive = true;
                        }
                    }
                }
            }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    let dir = std::env::var("HTSIM_OUT").unwrap_or_else(|_| "/verif/out".into());
    if let Some((idx, f, first)) = &best {
        code = 1;
        nviol = 1;
        let path = report(prop, seed, *idx, *first, f, b.big, &dir);
        println!("VIOLATION property=P{:02} replay={}", prop, path);
    }
    if !foreign.is_empty() {
        println!("note: discrepancies that belong to other properties were seen: {:?}", foreign);
    }
    if !lost.is_empty() {
        println!("note: {} runs were abandoned: {}", lost.len(), lost[0]);
    }
    evidence(prop, thorough, seed, &b, &slots, recs, search, t0.elapsed().as_secs_f64(), nviol, capped, lost.len() as u64, foreign.values().sum());
    code
}

fn report(prop: u32, seed: u64, idx: u64, first: u64, f: &Found, big: bool, dir: &str) -> String {
    let sc = generate(prop, seed, idx, big);
    println!("violation found in run {} of seed {}: {}", idx, seed, f.line);
    let rec = record(&sc);
    let mut m = Mini { class: f.class.clone(), left: 500, until: Instant::now() + std::time::Duration::from_secs(60), best: rec.clone() };
    let mut fin;
    let mut how = "";
    if m.ok(&rec) {
        m.minimise();
        fin = m.best.clone();
    } else {
        // the recorded decisions do not reproduce it: keep the seeded form
        fin = sc.clone();
        let same = |c: &Scenario, secs: u64| trial(c, false, -1, secs).0.map_or(false, |x| x.class == f.class);
        if !same(&sc, 40) {
            // something in the process outlives a run: find how many of the worker's earlier runs it takes
            let all: Vec<u64> = (first..idx).step_by(NWORKER).collect();
            let until = Instant::now() + std::time::Duration::from_secs(150);
            let mut n = 1;
            loop {
                let n2 = n.min(all.len());
                fin.pre = all[all.len() - n2..].to_vec();
                if same(&fin, 200) {
                    how = "; it needs the earlier runs listed in the file in the same process (state outlives a run)";
                    let mut chunk = fin.pre.len().div_ceil(2);
                    while chunk > 0 && Instant::now() < until {
                        let mut i = 0;
                        while i < fin.pre.len() && Instant::now() < until {
                            let mut c = fin.clone();
                            c.pre.drain(i..(i + chunk).min(fin.pre.len()));
                            if same(&c, 100) { fin = c } else { i += chunk }
                        }
                        if chunk == 1 { break }
                        chunk = chunk.div_ceil(2);
                    }
                    break;
                }
                if n >= all.len() || Instant::now() > until { break }
                n *= 4;
            }
        }
    }
    let (r, log) = trial(&fin, true, -1, 200);
    let line = r.as_ref().map_or(f.line.clone(), |x| x.line.clone());
    fin.expect = line.replace('\n', " ");
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/P{:02}-seed{}-run{}.replay", dir, prop, seed, idx);
    let mut t = fin.to_text();
    if !fin.replay { t = t.replace("htsim-replay 1\n", "htsim-replay 1\nmode seeded\n") }
    t += "# trace of the minimised run\n";
    for l in log.lines() { t += &format!("# {}\n", l) }
    let _ = std::fs::write(&path, t);
    let again = trial(&fin, false, -1, 200).0.map(|x| x.line);
    println!("minimised to {} clients, {} operations, {} context switches, {} suspensions; replays identically: {}{}", fin.clients.iter().filter(|c| !c.is_empty()).count(), fin.clients.iter().map(|c| c.len()).sum::<usize>(), fin.sched.len(), fin.pends.len(), again.as_deref() == Some(line.as_str()), how);
    println!("{}", line);
    path
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: u32, thorough: bool, seed: u64, b: &Budget, slots: &[Slot], recs: *mut Rec, search: f64, wall: f64, viol: u32, capped: bool, lost: u64, foreign: u64) {
    let mut st = Stats::default();
    let (mut runs, mut seams, mut switches, mut faults, mut fr, mut sr) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut situ: BTreeSet<u64> = BTreeSet::new();
    for s in slots {
        let h = unsafe { &*s.sh };
        runs += h.runs;
        seams += h.seams;
        switches += h.switches;
        faults += h.faults;
        fr += h.faulted_runs;
        sr += h.switched_runs;
        for x in h.situ.iter() { if *x != 0 { situ.insert(*x); } }
        for i in 0..NSEAM {
            st.seams[i] += h.st.seams[i];
            st.panics[i] += h.st.panics[i];
        }
        for i in 0..24 { st.ops[i] += h.st.ops[i] }
        st.cancels += h.st.cancels;
        st.crashes += h.st.crashes;
        st.pends += h.st.pends;
        st.vchecks += h.st.vchecks;
        st.armed_unfired += h.st.armed_unfired;
        st.refaulted += h.st.refaulted;
    }
    let mut dig: BTreeSet<u64> = BTreeSet::new();
    let mut sw: BTreeSet<u64> = BTreeSet::new();
    let mut nt: BTreeSet<u64> = BTreeSet::new();
    let mut all = 0u64;
    for i in 0..b.runs as usize {
        let r = unsafe { *recs.add(i) };
        if r.digest != 0 {
            dig.insert(r.digest);
            if r.nontrivial != 0 {
                nt.insert(r.digest);
                sw.insert(r.swhash);
            }
            all ^= mix(&[i as u64, r.digest]);
        }
    }
    let names: Vec<String> = (0..NSEAM).map(|i| format!("{:?}", unsafe { core::mem::transmute::<u8, Seam>(i as u8) })).collect();
    let pan: Vec<String> = (0..NSEAM).filter(|i| st.panics[*i] > 0).map(|i| format!("{}: {}", esc(&names[i]), st.panics[i])).collect();
    let sms: Vec<String> = (0..NSEAM).filter(|i| st.seams[*i] > 0).map(|i| format!("{}: {}", esc(&names[i]), st.seams[i])).collect();
    let ops: Vec<String> = (0..NK).filter(|i| st.ops[*i] > 0).map(|i| format!("{}: {}", esc(KNAMES[i]), st.ops[i])).collect();
    let mut samples: Vec<String> = Vec::new();
    for i in [0u64, 1] {
        let sc = generate(prop, seed, i, b.big);
        let (_, t) = trial(&sc, true, -1, 20);
        let l: Vec<&str> = t.lines().filter_map(|l| l.strip_prefix("LOG ")).take(14).collect();
        samples.push(esc(&format!("seed {} run {}: {} clients, {} keys, {}, hash mode {}: {}", seed, i, sc.clients.len(), sc.dom, WORLDS[sc.world as usize].2, sc.hmode, l.join(" | "))));
    }
    let h = search.max(0.001) / 3600.0;
    let t = format!(
        r#"{{
 "property": "P{:02}", "tier": "{}", "seed": {}, "level": "exploration",
 "coverage": {{
  "evaluations": {}, "distinct_nontrivial": {},
  "rule": "One evaluation is one simulated run: a scenario (hash function, widths, initial contents, 1-5 clients with their operations, faults) and a schedule, both drawn from VERIF_SEED and the run number. A run is non-trivial if at least one context switch, suspended poll or fault happened in it; distinct_nontrivial counts the different digests of such runs, over every seam event, scheduling decision, fault and final contents. distinct_schedules counts the different sequences of scheduling decisions alone (step number and client chosen, suspensions, poll order).",
  "samples": [{}],
  "runs_per_hour": {:.0}, "seeds_per_hour": {:.0}, "campaign_seed": {}, "runs_planned": {}, "stopped_by_time_cap": {}, "abandoned_runs": {}, "discrepancies_of_other_properties": {},
  "simulated_time_in_scheduler_steps": {}, "steps_by_seam": {{{}}},
  "operations_started": {{{}}},
  "faults_fired": {}, "runs_with_a_fault": {}, "faults": {{"panic_in_user_code": {{{}}}, "cancelled_asynchronous_operation": {}, "client_crash": {}, "suspended_poll": {}}}, "faults_armed_but_not_reached": {}, "retries_faulted_again": {},
  "context_switches": {}, "runs_with_context_switches": {}, "distinct_schedules": {}, "distinct_event_histories": {}, "distinct_operation_situations": {},
  "situation_measure": "operation kind, configuration and outcome profile, with the number of left and right entries in one hash group and the size of that group",
  "versions_reverified_in_flight": {},
  "campaign_digest": "{:016x}",
  "real_code": "all of /repo/src (map, set, trie, nodes, arrays, flags, transformations), alloc::sync::Arc, async-recursion, futures join",
  "simulated": "client scheduling (coroutines), executor and polling, hash function, user types and callbacks, allocator accounting; yield points inside asynchronous bulk operations come from the guarded hook"
 }},
 "assumptions": ["clients interleave at user-code callbacks, memory allocations and releases of the library, suspensions and operation boundaries (sequentially consistent)", "key equality, hashing and reductions are lawful", "key domains of up to 300 keys in most runs, of up to 2,060 in about one of 500 and of 66,000 to 70,000 in one of 2,000"],
 "wall_s": {:.2}, "violations": {}
}}
"#,
        prop, if thorough { "thorough" } else { "quick" }, seed, runs, nt.len(), samples.join(", "), runs as f64 / h, runs as f64 / h, seed, b.runs, capped, lost, foreign,
        seams, sms.join(", "), ops.join(", "), faults, fr, pan.join(", "), st.cancels, st.crashes, st.pends, st.armed_unfired, st.refaulted, switches, sr, sw.len(), dig.len(), situ.len(), st.vchecks, all, wall, viol
    );
    let dir = std::env::var("HTSIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/P{:02}.json", dir, prop), t);
    println!("P{:02}: {} runs, {} steps, {} switches, {} faults, {} distinct histories, {} situations, digest {:016x}, {:.1} s", prop, runs, seams, switches, faults, dig.len(), situ.len(), all, wall);
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|x| x.trim_start_matches('P').parse().ok()).unwrap_or(0) };
    match a.get(1).map(|x| x.as_str()) {
        Some("check") => {
            let p = n(2) as u32;
            if !props::CLAIMED.contains(&p) {
                println!("unknown property");
                return 2;
            }
            check(p, a.get(3).map_or(false, |t| t == "thorough"))
        }
        Some("replay") => {
            let Some(sc) = a.get(2).and_then(|f| std::fs::read_to_string(f).ok()).and_then(|t| Scenario::from_text(&t)) else {
                println!("cannot read the replay file");
                return 2;
            };
            let (f, t) = trial(&sc, true, -1, 300);
            for l in t.lines() { println!("{}", l.strip_prefix("LOG ").unwrap_or(l)) }
            match f {
                Some(f) => {
                    println!("{}", f.line);
                    println!("reproduced exactly: {}", f.line.replace('\n', " ").trim() == sc.expect.trim());
                    println!("VIOLATION property=P{:02} replay={}", sc.prop, a[2]);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        // htsim run PROP SEED RUN [big]: one seeded run, with its log
        Some("run") => {
            let sc = generate(n(2) as u32, n(3), n(4), a.len() > 5);
            print!("{}", sc.to_text());
            let (f, t) = trial(&sc, true, -1, 60);
            for l in t.lines() { println!("{}", l) }
            f.is_some() as i32
        }
        // htsim inproc PROP SEED RUNS: runs in this process, for coverage measurements
        Some("inproc") => {
            init();
            install_panic_hook();
            for i in 0..n(4) {
                let sc = generate(n(2) as u32, n(3), i, a.len() > 5);
                run::run(&sc, crate::fns(sc.world));
            }
            0
        }
        _ => {
            println!("usage: htsim check P01 quick|thorough | replay FILE | run PROP SEED RUN");
            2
        }
    }
}
