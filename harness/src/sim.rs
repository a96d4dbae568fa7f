//! Model-based histories against the real `ExecGraph::execute()`.
//!
//! The controller runs unmodified on a current-thread tokio runtime under the virtual clock.  The harness plays the
//! provisioner, every remote runner (HTTP/2 or HTTP/1.1 over loopback), the administrator (unix socket) and the
//! inside of every local task.  A reference model is stepped alongside and every response, every hand-out, the
//! result and the log on disk are judged against it.  Each judgement carries the id of the property it belongs to.
use crate::gen::Src;
use crate::vtime;
use execgraph::execgraph::{Cmd, ExecGraph, RemoteProvisionerSpec};
use execgraph::httpinterface::*;
use execgraph::logfile2::{LogEntry, LogFile, LogFileRW, RuncountStatus};
use hyper::{Body, Request};
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

// ---------------------------------------------------------------------------------------------- profile

#[derive(Clone, Debug)]
pub struct Profile {
    pub prop: String,
    pub max_tasks: u64,
    pub max_runners: u64,
    pub local_pct: u64,
    pub rate_pct: u64,
    pub budget_pct: u64,
    pub fail_pct: u64,
    pub target_pct: u64,
    pub max_execs: u64,
    pub max_sessions: u64,
    pub max_ops: u64,
    // op weights, in the order of the OP_* constants
    pub w: [u64; 18],
    pub multi_affinity_pct: u64,
}

pub const OP_START: usize = 0;
pub const OP_BEGUN: usize = 1;
pub const OP_END: usize = 2;
pub const OP_CHAIN: usize = 3;
pub const OP_PING: usize = 4;
pub const OP_ADVANCE: usize = 5;
pub const OP_STATUS: usize = 6;
pub const OP_MARK: usize = 7;
pub const OP_RATE: usize = 8;
pub const OP_SOFT: usize = 9;
pub const OP_HARD: usize = 10;
pub const OP_BAD: usize = 11;
pub const OP_ABORT: usize = 12;
pub const OP_DUP: usize = 13;
pub const OP_BURST: usize = 14;
pub const OP_AGENT: usize = 15;
pub const OP_INFO: usize = 16;
pub const OP_SILENCE: usize = 17;

impl Profile {
    pub fn base(prop: &str) -> Profile {
        Profile {
            prop: prop.to_string(),
            max_tasks: 10,
            max_runners: 4,
            local_pct: 25,
            rate_pct: 5,
            budget_pct: 25,
            fail_pct: 25,
            target_pct: 30,
            max_execs: 2,
            max_sessions: 1,
            max_ops: 40,
            //   st  be  en  ch  pi ad st mk rt so ha ba ab du bu ag in si
            w: [30, 20, 16, 12, 3, 5, 3, 1, 1, 1, 1, 2, 2, 2, 8, 25, 1, 1],
            multi_affinity_pct: 40,
        }
    }
    pub fn for_prop(prop: &str) -> Profile {
        let mut p = Profile::base(prop);
        match prop {
            "P01" => {
                p.max_tasks = 14;
                p.max_execs = 3;
                p.fail_pct = 30;
                p.budget_pct = 10;
                p.w = [30, 10, 16, 20, 1, 2, 0, 0, 0, 0, 0, 0, 1, 0, 14, 30, 0, 0];
            }
            "P02" => {
                p.multi_affinity_pct = 75;
                p.max_runners = 6;
                p.local_pct = 30;
                p.w = [34, 12, 14, 14, 2, 3, 0, 0, 0, 1, 0, 1, 4, 4, 18, 20, 0, 2];
            }
            "P03" => {
                p.max_tasks = 14;
                p.target_pct = 50;
                p.max_execs = 3;
                p.budget_pct = 5;
                p.w = [30, 14, 16, 18, 2, 3, 1, 0, 0, 0, 0, 1, 2, 1, 10, 30, 0, 2];
            }
            "P04" => {
                p.budget_pct = 95;
                p.fail_pct = 55;
                p.target_pct = 10;
                p.max_execs = 1;
                p.w = [30, 26, 20, 14, 2, 14, 1, 0, 0, 0, 0, 0, 1, 0, 8, 25, 0, 1];
            }
            "P05" => {
                p.multi_affinity_pct = 65;
                p.local_pct = 45;
                p.max_runners = 6;
                p.max_tasks = 14;
                p.fail_pct = 10;
                p.budget_pct = 0;
                p.w = [40, 10, 16, 16, 1, 3, 1, 0, 0, 0, 0, 1, 5, 0, 10, 30, 0, 0];
            }
            "P08" => {
                p.max_sessions = 3;
                p.w = [30, 22, 16, 14, 2, 8, 0, 0, 0, 2, 2, 1, 1, 2, 10, 25, 0, 4];
            }
            "P13" => {
                p.local_pct = 5;
                p.budget_pct = 10;
                p.w = [24, 18, 14, 10, 6, 5, 2, 2, 1, 0, 0, 40, 4, 14, 4, 8, 1, 1];
            }
            "P14" => {
                p.local_pct = 10;
                p.budget_pct = 15;
                p.max_ops = 45;
                p.w = [24, 16, 8, 6, 22, 26, 1, 0, 0, 1, 0, 0, 1, 1, 3, 6, 0, 12];
            }
            "P16" => {
                p.max_tasks = 12;
                p.w = [26, 14, 14, 10, 2, 12, 40, 1, 3, 1, 0, 0, 2, 0, 4, 14, 5, 1];
            }
            "P17" => {
                p.local_pct = 5;
                p.w = [34, 10, 14, 14, 2, 3, 0, 30, 0, 0, 0, 0, 3, 1, 14, 6, 0, 1];
            }
            "P18" => {
                p.rate_pct = 95;
                p.max_tasks = 24;
                p.max_runners = 6;
                p.fail_pct = 4;
                p.budget_pct = 0;
                p.local_pct = 30;
                p.w = [40, 4, 16, 16, 1, 24, 2, 0, 8, 0, 0, 0, 3, 0, 10, 25, 0, 0];
            }
            "P19" => {
                p.max_tasks = 10;
                p.w = [30, 22, 14, 10, 2, 6, 2, 0, 0, 7, 5, 0, 2, 1, 8, 25, 0, 2];
                p.local_pct = 40;
                p.budget_pct = 5;
            }
            _ => {}
        }
        p
    }
}

// ---------------------------------------------------------------------------------------------- outcome

#[derive(Debug, Clone, Serialize)]
pub struct Fail {
    pub tag: String,
    pub msg: String,
}
pub type R<T> = Result<T, Fail>;

#[derive(Default, Debug, Clone, Serialize)]
pub struct Stats {
    pub classes: BTreeMap<String, u64>,
}
impl Stats {
    fn hit(&mut self, k: &str) {
        *self.classes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.classes.get(k).copied().unwrap_or(0)
    }
}

pub struct CaseOut {
    pub fail: Option<Fail>,
    pub stats: Stats,
    pub trace: Vec<String>,
    pub shape: u64,
}

// ---------------------------------------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct Task {
    key: String,
    deps: Vec<usize>,
    affinity: u64,
    argv: Vec<String>,
    fd_input: Option<(i32, Vec<u8>)>,
    display: Option<String>,
    storage_root: u32,
    prio: u32,
    // session scoped
    runcount: u32,
    runcount_offset: u32,
    session_done: Option<bool>, // finished within this session (true = success)
    log_success: bool,
    log_failure: bool,
    ever_started: bool,
    // execute scoped
    in_run: bool,
    ready_seq: Option<u64>, // op number at which it certainly was ready
    handed: bool,
    ok_possible: bool,
    done: Option<i32>, // certain final status
    done_uncertain: bool,
    ghost: bool,
    exp_started: Option<(String, u32, String)>,
    values: Vec<HashMap<String, String>>,
    local: bool,
}

#[derive(Clone, Debug)]
struct Txn {
    task: usize,
    runner: usize,
    jobid: String,
    handed_us: i64,
    handed_req: u64,
    contact_us: i64,
    begun_us: Option<i64>,
    begun: Option<(String, u32, String)>,
    open: bool,
    maybe: bool,
    ending: bool,
    dmsg: String,
    session_exec: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Start { runner: usize, runnertype: u32 },
    Begun { tx: u32 },
    End { tx: u32, status: i32, chain: Option<usize> },
    Ping { tx: u32 },
    Status { etag: u64, tmin: u64, tout: u64, known_cur: Option<u64> },
    Mark { jobids: Vec<String> },
    Rate { r: u32 },
    Info { s: Option<String> },
    Soft,
    Hard,
    Bad { what: &'static str, expect: Vec<u16> },
}

struct Pending {
    id: u64,
    kind: Kind,
    sent_us: i64,
    sent_seq: u64,
    jobid: String,
    abort: Option<tokio::task::AbortHandle>,
    applied: bool,
}

enum Ev {
    Resp { id: u64, res: Result<(u16, hyper::HeaderMap, Vec<u8>), String>, at_us: i64 },
    Agent { idx: usize, pid: i32, console: bool, stream: tokio::net::UnixStream },
    Prov { url: String, token: String, pid: i32 },
}

#[derive(Default)]
struct Shared {
    evs: Mutex<Vec<Ev>>,
    activity: AtomicU64,
}
impl Shared {
    fn push(&self, e: Ev) {
        self.evs.lock().unwrap().push(e);
        self.activity.fetch_add(1, SeqCst);
    }
}

struct Runner {
    queue: u32,
    jobid: String,
    conn: Option<hyper::client::conn::SendRequest<Body>>,
    start_out: bool,
    json: bool,
    dmsg: String,
}

struct Agent {
    idx: usize,
    pid: i32,
    console: bool,
    stream: Option<tokio::net::UnixStream>,
    begun_us: i64,
    told: Option<i32>,
    gone: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Down {
    No,
    Soft,
    Budget,
    Hard,
}

type ExecResult = Result<(u32, Vec<String>), String>;

struct World<'s> {
    src: &'s mut Src,
    p: Profile,
    stats: Stats,
    trace: Vec<String>,
    tasks: Vec<Task>,
    by_key: HashMap<String, usize>,
    shared: Arc<Shared>,
    runners: Vec<Runner>,
    agents: Vec<Agent>,
    txns: BTreeMap<u32, Txn>,
    pend: Vec<Pending>,
    next_req: u64,
    seq: u64,
    down: Down,
    down_us: i64,
    down_certain: bool,
    budget: u32,
    n_fizz: u32,
    n_fizz_uncertain: bool,
    num_parallel: u32,
    rate: u32,
    rate_since_us: i64,
    exec_us: i64,
    raw: Vec<tokio::net::TcpStream>,
    rate_uncertain: bool,
    cancelled: BTreeSet<String>,
    maybe_cancelled: BTreeSet<String>,
    url: Option<String>,
    token: String,
    prov_pid: i32,
    info: Option<String>,
    result: Arc<Mutex<Option<ExecResult>>>,
    finish_order: Vec<usize>,
    order_uncertain: bool,
    ready_events: Vec<(i64, u64)>, // (time, seq) at which new tasks became ready
    last_etag: Option<(u64, usize)>, // (etag, ready_events.len() when it was read)
    runtimes: Vec<f64>,
    runtimes_fuzzy: bool,
    dir: PathBuf,
    sock: String,
    hostname: String,
    exec_no: u32,
    session_no: u32,
    hash: u64,
    sigint: bool,
    prov_exit: bool,
    disconnect_msgs: Vec<String>,
    saw_bad: bool,
    saw_dup: bool,
    saw_loss: bool,
    early_drop: bool,
    prio_checks: Vec<(usize, u32, u64, String)>, // (task, queue, asked at seq, who)
    slot_freed: [Option<u64>; 2], // op at which the only free local slot (normal, console) became free
    grants: Vec<(i64, i64)>, // (asked, handed out) of remote hand-outs
    starts_sent: u64,
    session_started: BTreeSet<usize>,
    hang_ms: u128,
    drained_expected: BTreeSet<usize>,
}

macro_rules! chk {
    ($c:expr, $tag:expr, $($a:tt)*) => {
        if !($c) { return Err(Fail { tag: $tag.to_string(), msg: format!($($a)*) }); }
    };
}

const TOL_US: i64 = 60_000;
// below the 5 ms that tokio tolerates before an interval counts as missed
const STEP_US: i64 = 4_000;

fn tlevels(tasks: &[Task]) -> Vec<u32> {
    let mut t = vec![0u32; tasks.len()];
    for i in 0..tasks.len() {
        t[i] = tasks[i].deps.iter().map(|&d| t[d] + 1).max().unwrap_or(0);
    }
    t
}

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

async fn read_all(mut body: Body) -> Result<Vec<u8>, String> {
    use hyper::body::HttpBody;
    let mut out = vec![];
    while let Some(c) = body.data().await {
        out.extend_from_slice(&c.map_err(|e| e.to_string())?);
    }
    Ok(out)
}

/// Encode a request body the way a client may: postcard or JSON, compressed or not.  Written here, independently of
/// the code under test, from the documented wire format.
fn encode<T: Serialize>(v: &T, json: bool, lz4: bool) -> (Vec<u8>, &'static str, bool) {
    let (b, ct) = if json {
        (serde_json::to_vec(v).unwrap(), "application/json")
    } else {
        (postcard::to_allocvec(v).unwrap(), "application/postcard")
    };
    if lz4 {
        let mut out = vec![];
        lzzzz::lz4f::compress_to_vec(&b, &mut out, &Default::default()).unwrap();
        (out, ct, true)
    } else {
        (b, ct, false)
    }
}

fn decode_postcard<T: serde::de::DeserializeOwned>(h: &hyper::HeaderMap, b: &[u8]) -> Result<T, String> {
    let body = match h.get("content-encoding").map(|v| v.as_bytes()) {
        Some(b"lz4") => {
            let mut out = vec![];
            lzzzz::lz4f::decompress_to_vec(b, &mut out).map_err(|e| e.to_string())?;
            out
        }
        None => b.to_vec(),
        x => return Err(format!("content-encoding {:?}", x)),
    };
    match h.get("content-type").map(|v| v.as_bytes()) {
        Some(b"application/postcard") => postcard::from_bytes(&body).map_err(|e| e.to_string()),
        x => Err(format!("content-type {:?}", x)),
    }
}

impl<'s> World<'s> {
    fn note(&mut self, s: String) {
        if std::env::var("XG_TRACE").is_ok() {
            eprintln!("[{:>9.3}] {}", vtime::now_us() as f64 / 1e6 - 100000., s);
        }
        self.hash = self.hash.wrapping_mul(0x100000001b3) ^ crate::gen::hash64(s.as_bytes());
        if self.trace.len() < 400 {
            self.trace.push(s);
        }
    }

    fn exec_done(&self) -> bool {
        self.result.lock().unwrap().is_some()
    }

    // ---------------------------------------------------------------- settling

    async fn settle(&mut self) {
        let mut idle = 0;
        let mut n = 0u32;
        let mut last = self.shared.activity.load(SeqCst);
        while idle < 24 && n < 5000 {
            tokio::task::yield_now().await;
            n += 1;
            let a = self.shared.activity.load(SeqCst);
            if a == last {
                idle += 1;
            } else {
                idle = 0;
                last = a;
            }
        }
    }

    async fn advance(&mut self, us: i64) -> R<()> {
        let mut left = us;
        while left > 0 {
            // fine steps only matter to the reaper of silent runners
            let s = left.min(if self.txns.values().any(|t| t.open) { STEP_US } else { 25_000 });
            vtime::advance_us(s);
            left -= s;
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
            if !self.shared.evs.lock().unwrap().is_empty() {
                self.settle().await;
                self.expire();
                self.pump().await?;
            }
            self.expire();
            if self.exec_done() {
                break;
            }
        }
        self.settle().await;
        self.expire();
        self.pump().await?;
        self.expire();
        Ok(())
    }

    /// settle and judge until every request that must be answered by now has been answered
    async fn quiesce(&mut self) -> R<()> {
        let t0 = vtime::real();
        loop {
            self.settle().await;
            self.pump().await?;
            self.apply_pending_ends();
            self.reap_cancelled_agents().await?;
            self.recompute_ready();
            match self.must_have() {
                None => {
                    self.judge_priority()?;
                    return Ok(());
                }
                Some(f) => {
                    if self.exec_done() {
                        self.prio_checks.clear();
                        return Ok(());
                    }
                    if (vtime::real() - t0).as_millis() > self.hang_ms {
                        let panics = take_panics();
                        return Err(Fail { tag: f.tag, msg: format!("{} (panics: {:?})", f.msg, panics) });
                    }
                    std::thread::sleep(std::time::Duration::from_micros(200));
                    // timers that are already due get a chance to fire
                    if !self.raw.is_empty() && (vtime::real() - t0).as_millis() > 400 {
                        // known: a connection without a complete request keeps execute() from returning
                        if f.msg.contains("did not return") {
                            self.stats.hit("silent_client_blocks_return");
                        }
                        self.raw.clear();
                    }
                    if (vtime::real() - t0).as_millis() > 50 {
                        // with a rate limit the idle local slots wait for a permit before they look up
                        let slow = self.rate == 0 && !self.rate_uncertain;
                        vtime::advance_us(if slow { 100 } else { 4000 });
                    }
                }
            }
        }
    }

    /// an /end that also asks for the next task is answered only when there is one, but it takes effect at once
    fn apply_pending_ends(&mut self) {
        let mut todo = vec![];
        for q in self.pend.iter_mut() {
            if let Kind::End { tx, status, chain: Some(_) } = q.kind {
                if !q.applied && self.txns.get(&tx).map_or(false, |t| t.open && !t.maybe) {
                    q.applied = true;
                    todo.push((tx, status, q.sent_us));
                }
            }
        }
        if todo.len() > 1 {
            self.order_uncertain = true;
        }
        for (tx, status, at) in todo {
            self.apply_end(tx, status, at);
        }
    }

    /// highest priority first: nothing that waited in the queue when the request was made may be passed over
    fn judge_priority(&mut self) -> R<()> {
        let checks = std::mem::take(&mut self.prio_checks);
        for (i, queue, asked, who) in checks {
            for u in 0..self.tasks.len() {
                let (x, t) = (&self.tasks[u], &self.tasks[i]);
                if x.in_run && !x.handed && (x.affinity >> queue) & 1 == 1 && x.prio > t.prio {
                    if self.rate > 0 || self.rate_uncertain {
                        // someone else may hold it already without having said so yet
                        let busy = (self.num_parallel > 0 && x.affinity & 3 != 0)
                            || self.pend.iter().any(|p| self.start_of(&p.kind).map_or(false, |(_, q)| q < 64 && (x.affinity >> q) & 1 == 1));
                        if busy {
                            continue;
                        }
                    }
                    if let Some(rs) = x.ready_seq {
                        chk!(rs >= asked, "P05", "task {:?} (level {}) was handed to {} before {:?} (level {}), which was already waiting in that queue", t.key, t.prio, who, x.key, x.prio);
                        continue;
                    }
                }
            }
            self.stats.hit("priority_judged");
        }
        Ok(())
    }

    // ---------------------------------------------------------------- model

    fn deps_ok_possible(&self, i: usize) -> bool {
        self.tasks[i].deps.iter().all(|&d| {
            let t = &self.tasks[d];
            if t.in_run { t.ok_possible } else { t.session_done == Some(true) || t.log_success }
        })
    }
    fn deps_ok_certain(&self, i: usize) -> bool {
        self.tasks[i].deps.iter().all(|&d| {
            let t = &self.tasks[d];
            if t.in_run { t.done == Some(0) } else { t.session_done == Some(true) || t.log_success }
        })
    }

    fn recompute_ready(&mut self) {
        if self.down != Down::No {
            return;
        }
        let mut any = false;
        for i in 0..self.tasks.len() {
            if self.tasks[i].in_run && self.tasks[i].ready_seq.is_none() && self.deps_ok_certain(i) {
                self.tasks[i].ready_seq = Some(self.seq);
                any = true;
            }
        }
        if any {
            self.ready_events.push((vtime::now_us(), self.seq));
        }
    }

    fn eligible(&self, queue: u32) -> Vec<usize> {
        if queue >= 64 {
            return vec![];
        }
        (0..self.tasks.len())
            .filter(|&i| {
                let t = &self.tasks[i];
                t.in_run && t.ready_seq.is_some() && !t.handed && (t.affinity >> queue) & 1 == 1
            })
            .collect()
    }

    fn slots_used(&self, console: bool) -> usize {
        self.agents.iter().filter(|a| !a.gone && a.console == console).count()
    }

    fn open_handed(&self) -> usize {
        self.txns.values().filter(|t| t.open).count() + self.agents.iter().filter(|a| !a.gone).count()
    }

    /// the run has ended or is ending, as far as can be told while answers are on their way
    fn may_be_over(&self) -> bool {
        if self.pend.iter().any(|p| matches!(p.kind, Kind::Soft | Kind::Hard)) {
            return true;
        }
        let ending: Vec<u32> = self.pend.iter().filter_map(|p| if let Kind::End { tx, .. } = p.kind { Some(tx) } else { None }).collect();
        // the failures on their way may exhaust the budget, and then what's ready doesn't run
        let exhausted = !ending.is_empty() && self.n_fizz.saturating_add(ending.len() as u32) >= self.budget;
        (self.remaining_ready() == 0 || exhausted)
            && self.agents.iter().all(|a| a.gone)
            && self.txns.iter().all(|(k, t)| !t.open || ending.contains(k))
    }

    fn remaining_ready(&self) -> usize {
        self.tasks.iter().filter(|t| t.in_run && t.ready_seq.is_some() && !t.handed).count()
    }

    fn ctx_tag(&self) -> &'static str {
        match self.down {
            Down::Budget => "P04",
            Down::Soft | Down::Hard => "P19",
            Down::No => {
                if self.p.prop == "P13" && (self.saw_bad || self.saw_dup) {
                    "P13"
                } else if self.p.prop == "P14" && self.saw_loss {
                    "P14"
                } else {
                    "P03"
                }
            }
        }
    }

    /// what must have happened by now and has not
    fn must_have(&self) -> Option<Fail> {
        let f = |tag: &str, msg: String| Some(Fail { tag: tag.to_string(), msg });
        let now = vtime::now_us();
        if self.url.is_none() {
            return f("P03", "provisioner was not started".into());
        }
        for q in &self.pend {
            match &q.kind {
                Kind::Start { .. } | Kind::End { chain: Some(_), .. } => {
                    if now - q.sent_us > 30_000_000 + TOL_US + 100_000 && !matches!(q.kind, Kind::End { .. }) {
                        return f("P13", format!("request #{} {:?} held for more than 30 s", q.id, q.kind));
                    }
                }
                Kind::Status { tmin, tout, .. } => {
                    if now - q.sent_us > (*tmin.max(tout) as i64) * 1000 + TOL_US + 100_000 {
                        return f("P16", format!("status request {:?} unanswered after {} us", q.kind, now - q.sent_us));
                    }
                }
                k => {
                    let tag = match k {
                        Kind::Mark { .. } => "P17",
                        Kind::Rate { .. } => "P18",
                        Kind::Soft | Kind::Hard => "P19",
                        Kind::Info { .. } => "P16",
                        _ => "P13",
                    };
                    return f(tag, format!("request #{} {:?} was never answered", q.id, q.kind));
                }
            }
        }
        let idle = self.open_handed() == 0;
        match self.down {
            Down::No => {
                if self.rate == 0 && !self.rate_uncertain {
                    for q in &self.pend {
                        if let Some((runner, rt)) = self.start_of(&q.kind) {
                            if self.cancelled.contains(&q.jobid) || self.maybe_cancelled.contains(&q.jobid) {
                                continue;
                            }
                            let e = self.eligible(rt);
                            if !e.is_empty() {
                                return f("P05", format!("runner {} waits on queue {} while task {:?} is ready for that queue", runner, rt, self.tasks[e[0]].key));
                            }
                        }
                    }
                    if self.num_parallel > 0 {
                        for (console, q, cap) in [(false, 0u32, self.num_parallel as usize), (true, 1, 1)] {
                            let e = self.eligible(q);
                            if !e.is_empty() && self.slots_used(console) < cap {
                                return f("P05", format!("local slot (console={}) idle, {} of {} used, while task {:?} is ready", console, self.slots_used(console), cap, self.tasks[e[0]].key));
                            }
                        }
                    }
                }
                if idle && self.remaining_ready() == 0 && !self.exec_done() {
                    return f(self.ctx_tag(), "every reachable task has finished but execute() did not return".into());
                }
            }
            Down::Soft | Down::Budget => {
                if idle && self.down_certain && !self.exec_done() {
                    return f(self.ctx_tag(), format!("{:?} shutdown with nothing running, but execute() did not return", self.down));
                }
            }
            Down::Hard => {
                if !self.exec_done() {
                    return f("P19", "hard shutdown, but execute() did not return".into());
                }
            }
        }
        None
    }

    fn start_of(&self, k: &Kind) -> Option<(usize, u32)> {
        match k {
            Kind::Start { runner, runnertype } => Some((*runner, *runnertype)),
            Kind::End { chain: Some(r), .. } => Some((*r, self.runners[*r].queue)),
            _ => None,
        }
    }

    fn finish_task(&mut self, i: usize, status: i32, certain_order: bool) {
        self.tasks[i].done = Some(status);
        self.finish_order.push(i);
        if !certain_order {
            self.order_uncertain = true;
        }
    }

    fn fizzle_check(&mut self, begun_us: Option<i64>, at_us: i64, status: i32) {
        if status == 0 {
            return;
        }
        if let Some(b) = begun_us {
            let el = at_us - b;
            if (el - 5_000_000).abs() < 2 * TOL_US {
                self.n_fizz_uncertain = true;
            } else if el < 5_000_000 {
                self.n_fizz += 1;
                self.stats.hit("fizzle");
            }
        }
        if self.n_fizz >= self.budget && self.down != Down::Hard {
            if self.down != Down::Budget {
                self.note(format!("model: failure budget {} exhausted", self.budget));
                self.stats.hit("budget_exhausted");
                self.down = Down::Budget;
                self.down_us = at_us;
                self.down_certain = true;
            }
            // every transaction handed out less than 5 s ago is cancelled at the next reap tick
            let mut n = 0;
            for t in self.txns.values_mut() {
                if t.open && !t.ending {
                    let age = at_us - t.handed_us;
                    if age < 5_000_000 + 2 * TOL_US {
                        t.maybe = true;
                        n += 1;
                    }
                }
            }
            if n > 0 {
                self.stats.hit("budget_with_inflight");
            }
        }
    }

    /// time passed: transactions silent for long are lost, those cancelled by an exhausted budget too
    fn expire(&mut self) {
        let now = vtime::now_us();
        let ids: Vec<u32> = self.txns.iter().filter(|(_, t)| t.open).map(|(k, _)| *k).collect();
        for id in ids {
            let (silent, handed, begun, task, maybe, begun_v, jobid) = {
                let t = &self.txns[&id];
                (now - t.contact_us, t.handed_us, t.begun_us, t.task, t.maybe, t.begun.clone(), t.jobid.clone())
            };
            let budget_gone = self.down == Down::Budget
                && now - self.down_us > 400_000
                && handed > self.down_us - 5_000_000 + 2 * TOL_US;
            if silent > 36_500_000 || budget_gone {
                let t = self.txns.get_mut(&id).unwrap();
                t.open = false;
                let d = t.dmsg.clone();
                self.disconnect_msgs.push(d);
                self.saw_loss = true;
                self.stats.hit(if budget_gone { "cancelled_by_budget" } else { "lost_silent" });
                let at = if budget_gone { self.down_us } else { now - silent + 35_000_000 };
                self.note(format!("model: task {} lost ({}){}", task, if budget_gone { "budget" } else { "silent" }, if maybe { " maybe" } else { "" }));
                self.tasks[task].exp_started = Some(if begun.is_some() { begun_v.unwrap() } else { (String::new(), 0, String::new()) });
                let _ = jobid;
                self.finish_task(task, -1, false);
                self.fizzle_check(begun, at, -1);
            } else if silent > 33_800_000 {
                self.txns.get_mut(&id).unwrap().maybe = true;
            }
        }
        self.recompute_ready();
    }

    // ---------------------------------------------------------------- events

    async fn pump(&mut self) -> R<()> {
        loop {
            let evs: Vec<Ev> = std::mem::take(&mut *self.shared.evs.lock().unwrap());
            if evs.is_empty() {
                return Ok(());
            }
            for e in evs {
                match e {
                    Ev::Prov { url, token, pid } => {
                        self.url = Some(url);
                        self.token = token;
                        self.prov_pid = pid;
                    }
                    Ev::Agent { idx, pid, console, stream } => self.on_agent(idx, pid, console, stream)?,
                    Ev::Resp { id, res, at_us } => {
                        let pos = match self.pend.iter().position(|q| q.id == id) {
                            Some(p) => p,
                            None => continue, // aborted
                        };
                        let q = self.pend.remove(pos);
                        self.on_resp(q, res, at_us)?;
                    }
                }
            }
        }
    }

    fn on_handout(&mut self, i: usize, queue: u32, sent_seq: u64, sent_us: i64, who: &str) -> R<()> {
        let t = &self.tasks[i];
        chk!(t.in_run, if t.session_done.is_some() { "P02" } else if t.log_success { "P06" } else { "P03" },
            "task {:?} (#{}) was handed to {} although it is not part of this run (done in session: {:?}, success in log: {})", t.key, i, who, t.session_done, t.log_success);
        chk!(!t.handed, "P02", "task {:?} was handed out a second time, to {}", t.key, who);
        chk!(self.deps_ok_possible(i), "P01", "task {:?} was handed to {} before its dependencies {:?} succeeded", t.key, who,
            t.deps.iter().filter(|&&d| !(if self.tasks[d].in_run { self.tasks[d].ok_possible } else { self.tasks[d].session_done == Some(true) || self.tasks[d].log_success })).collect::<Vec<_>>());
        chk!(queue < 64 && (t.affinity >> queue) & 1 == 1, "P05", "task {:?} with affinity {:#x} was handed to {} on queue {}", t.key, t.affinity, who, queue);
        if self.down != Down::No && self.down_certain && sent_us > self.down_us {
            let tag = if self.down == Down::Budget { "P04" } else { "P19" };
            chk!(false, tag, "task {:?} was handed to {} after {:?} shutdown", t.key, who, self.down);
        }
        self.prio_checks.push((i, queue, sent_seq, who.to_string()));
        let t = &self.tasks[i];
        if t.affinity.count_ones() > 1 {
            self.stats.hit("multi_queue_handout");
        }
        if !t.deps.is_empty() {
            self.stats.hit("dependent_handout");
        }
        self.stats.hit("handout");
        self.tasks[i].handed = true;
        self.tasks[i].ever_started = true;
        if self.rate > 0 {
            self.stats.hit("rate_limited_launch");
        }
        if sent_us != i64::MIN {
            self.grants.push((sent_us, vtime::now_us()));
            self.check_rate()?;
        }
        Ok(())
    }

    /// A task started for a request made at `s` and answered at `t` used one permit granted in [s, t].  The limiter
    /// grants at most r per second and stores at most one second's worth; it starts with none.
    fn check_rate(&mut self) -> R<()> {
        if self.rate == 0 || self.rate_uncertain {
            return Ok(());
        }
        let r = self.rate as f64;
        let slack = 2. * 25_000. / 1e6;
        let l: Vec<(i64, i64)> = self.grants.iter().copied().filter(|&(s, _)| s > self.rate_since_us).collect();
        let Some(&(_, end)) = l.last() else { return Ok(()) };
        let mut starts: Vec<i64> = l.iter().map(|x| x.0).collect();
        starts.sort();
        for &a in &starts {
            let cnt = l.iter().filter(|x| x.0 >= a).count() as f64;
            let win = (end - a) as f64 / 1e6 + slack;
            chk!(cnt <= r * (win + 1.0) * 1.001 + 1.0, "P18", "{} tasks were asked for and started within {:.3} s under a limit of {} per second", cnt, win, self.rate);
        }
        let since = (end - self.rate_since_us) as f64 / 1e6 + slack;
        chk!(l.len() as f64 <= r * since * 1.001 + 1.0, "P18", "{} tasks were started in the first {:.3} s of a limit of {} per second", l.len(), since, self.rate);
        Ok(())
    }

    fn on_agent(&mut self, idx: usize, pid: i32, console: bool, stream: tokio::net::UnixStream) -> R<()> {
        chk!(idx < self.tasks.len(), "P03", "unknown local task {}", idx);
        let queue = if console { 1 } else { 0 };
        self.note(format!("local task {} started (console={})", idx, console));
        let cap = if console { 1 } else { self.num_parallel as usize };
        // a slot that just became free asks right then; one that was idle has been asking for an unknown time
        let asked = if self.slots_used(console) + 1 == cap { self.slot_freed[console as usize].unwrap_or(0) } else { 0 };
        self.slot_freed[console as usize] = None;
        self.on_handout(idx, queue, asked, i64::MIN, "a local slot")?;
        self.agents.push(Agent { idx, pid, console, stream: Some(stream), begun_us: vtime::now_us(), told: None, gone: false });
        let used = self.slots_used(console);
        chk!(used <= cap, "P05", "{} local tasks run at once (console={}), the limit is {}", used, console, cap);
        self.tasks[idx].local = true;
        self.tasks[idx].exp_started = Some((self.hostname.clone(), pid as u32, String::new()));
        self.stats.hit("local_handout");
        if used > 1 {
            self.stats.hit("local_concurrent");
        }
        Ok(())
    }

    fn on_resp(&mut self, q: Pending, res: Result<(u16, hyper::HeaderMap, Vec<u8>), String>, at_us: i64) -> R<()> {
        let (code, headers, body) = match res {
            Ok(x) => x,
            Err(e) => {
                // the connection may drop only because execute() is over
                self.note(format!("#{} {:?} -> connection error", q.id, q.kind));
                if let Some((r, _)) = self.start_of(&q.kind) {
                    self.runners[r].start_out = false;
                }
                if let Kind::End { tx, status, .. } = &q.kind {
                    let (tx, status) = (*tx, *status);
                    self.end_unknown(tx, status);
                }
                let over = self.exec_done() || self.down != Down::No || self.any_maybe() || self.n_fizz_uncertain || self.may_be_over();
                if !over {
                    let panics = take_panics();
                    let tag = match &q.kind { Kind::Mark{..} => "P17", Kind::Status{..} => "P16", _ => "P13" };
                    return Err(Fail { tag: tag.into(), msg: format!("request {:?} got no response: {} panics={:?}", q.kind, e, panics) });
                }
                if self.down == Down::Soft || self.down == Down::Budget {
                    // fine only if execute() really is finishing
                }
                return Ok(());
            }
        };
        match q.kind.clone() {
            Kind::Start { runner, runnertype } => {
                self.runners[runner].start_out = false;
                self.on_start_resp(&q, runner, runnertype, code, &headers, &body, at_us)?;
            }
            Kind::Begun { tx } => {
                self.note(format!("#{} begun -> {}", q.id, code));
                let t = self.txns.get(&tx).cloned();
                match t {
                    Some(t) if t.open => match code {
                        200 => {
                            let tt = self.txns.get_mut(&tx).unwrap();
                            if tt.begun_us.is_none() {
                                tt.begun_us = Some(at_us);
                            }
                            let b = tt.begun.clone();
                            self.tasks[t.task].exp_started = b;
                        }
                        404 if t.maybe => {
                            self.lose_now(tx);
                        }
                        c => {
                            chk!(self.down == Down::Hard || self.exec_done(), if t.begun_us.is_some() { "P13" } else { "P14" }, "/begun for an open task got {} ({} us after the last contact)", c, at_us - t.contact_us);
                        }
                    },
                    _ => chk!(code == 404 || code == 410, "P13", "/begun for a closed transaction got {}", code),
                }
            }
            Kind::End { tx, status, chain } => {
                if let Some(r) = chain {
                    self.runners[r].start_out = false;
                }
                let t = self.txns.get(&tx).cloned();
                let Some(t) = t else { return Ok(()) };
                match (t.open, code) {
                    _ if q.applied => {
                        chk!(chain.is_none() || code != 404 || self.runners[chain.unwrap()].queue >= 64, "P14", "/end for an open task was refused with 404");
                    }
                    (true, 404) if t.maybe => {
                        self.note(format!("#{} end({}) -> 404 (lost before)", q.id, status));
                        self.lose_now(tx);
                        return Ok(());
                    }
                    (true, 404) => chk!(false, "P14", "/end for an open task was refused with 404, {} us after the last contact", q.sent_us - t.contact_us),
                    (false, 200) if chain.is_none() => {
                        chk!(t.maybe, "P13", "/end for a transaction that is no longer open was accepted");
                    }
                    (false, 404) => {
                        self.note(format!("#{} end -> 404", q.id));
                        return Ok(());
                    }
                    _ => {}
                }
                self.note(format!("#{} end(task {}, {}{}) -> {}", q.id, t.task, status, if chain.is_some() { ", chained" } else { "" }, code));
                if t.open {
                    self.apply_end(tx, status, at_us.min(q.sent_us.max(at_us)));
                }
                match chain {
                    None => {
                        chk!(code == 200, "P13", "/end got {}", code);
                        if let Ok(r) = decode_postcard::<EndResponse>(&headers, &body) {
                            chk!(r.start_response.is_none(), "P02", "/end without a start request was given a task");
                        }
                    }
                    Some(r) => {
                        let rt = self.runners[r].queue;
                        if code == 200 {
                            let er = decode_postcard::<EndResponse>(&headers, &body).map_err(|e| Fail { tag: "P15".into(), msg: format!("undecodable /end response: {}", e) })?;
                            match er.start_response {
                                Some(sr) => {
                                    self.stats.hit("chained_handout");
                                    self.take_start(&q, r, rt, sr, at_us)?;
                                }
                                None => chk!(false, "P13", "/end asked for another task and got 200 without one"),
                            }
                        } else {
                            self.judge_refusal(&q, r, rt, code, at_us)?;
                        }
                    }
                }
            }
            Kind::Ping { tx } => {
                chk!(code == 200, "P13", "/ping got {}", code);
                if let Some(t) = self.txns.get_mut(&tx) {
                    if t.open && !t.maybe {
                        t.contact_us = at_us;
                    } else if t.open && t.maybe && self.down != Down::Budget {
                        // it may have come too late; unknown until the next real contact
                    }
                }
            }
            Kind::Status { etag, tmin, tout, known_cur } => self.on_status(&q, etag, tmin, tout, known_cur, code, &body, at_us)?,
            Kind::Mark { jobids } => {
                chk!(code == 200, "P17", "/mark-slurm-job-cancelation got {}", code);
                let rep: MarkSlurmJobCancelationReply = serde_json::from_slice(&body).map_err(|e| Fail { tag: "P17".into(), msg: format!("bad reply: {}", e) })?;
                for j in &rep.jobids {
                    chk!(jobids.contains(j), "P17", "job {:?} reported cancelled without being asked for", j);
                    for t in self.txns.values() {
                        chk!(!(t.open && !t.maybe && !t.ending && &t.jobid == j && t.handed_req <= q.id), "P17", "job {:?} is running task {:?} and was reported as cancelled", j, self.tasks[t.task].key);
                    }
                    self.cancelled.insert(j.clone());
                    self.stats.hit("cancelled_job");
                    if self.pend.iter().any(|p| self.start_of(&p.kind).is_some() && &p.jobid == j) {
                        self.stats.hit("cancelled_while_asking");
                    }
                }
                for j in &jobids {
                    if !rep.jobids.contains(j) {
                        let busy = self.txns.values().any(|t| &t.jobid == j && (t.open || t.maybe))
                            || self.pend.iter().any(|p| self.start_of(&p.kind).is_some() && &p.jobid == j);
                        chk!(busy, "P17", "idle job {:?} could not be cancelled", j);
                        self.stats.hit("cancel_refused");
                    }
                }
                for j in &jobids {
                    self.maybe_cancelled.remove(j);
                }
                self.note(format!("#{} mark {:?} -> {:?}", q.id, jobids, rep.jobids));
            }
            Kind::Rate { r } => {
                chk!(code == 200, "P18", "admin /ratelimit got {}", code);
                let rep: StatusReply = serde_json::from_slice(&body).map_err(|e| Fail { tag: "P16".into(), msg: e.to_string() })?;
                chk!(rep.ratelimit == r, "P16", "rate limit set to {} but reported as {}", r, rep.ratelimit);
                self.rate = r;
                self.rate_uncertain = false;
                self.rate_since_us = at_us;
                self.grants.clear();
            }
            Kind::Info { s } => {
                chk!(code == 200, "P16", "admin /provisioner_info got {}", code);
                let rep: StatusReply = serde_json::from_slice(&body).map_err(|e| Fail { tag: "P16".into(), msg: e.to_string() })?;
                chk!(rep.provisioner_info == s, "P16", "provisioner info set to {:?} but reported as {:?}", s, rep.provisioner_info);
                self.info = s;
            }
            Kind::Soft | Kind::Hard => {
                chk!(code == 200, "P19", "admin /shutdown got {}", code);
            }
            Kind::Bad { what, expect } => {
                self.note(format!("#{} bad request {:?} -> {}", q.id, what, code));
                chk!(expect.contains(&code), "P13", "invalid request ({}) got {}, expected {:?}", what, code, expect);
            }
        }
        Ok(())
    }

    fn lose_now(&mut self, tx: u32) {
        let t = self.txns.get_mut(&tx).unwrap();
        t.open = false;
        let (task, begun_us, begun, d, contact) = (t.task, t.begun_us, t.begun.clone(), t.dmsg.clone(), t.contact_us);
        self.disconnect_msgs.push(d);
        self.saw_loss = true;
        self.tasks[task].exp_started = if begun_us.is_some() { begun } else { Some((String::new(), 0, String::new())) };
        self.finish_task(task, -1, false);
        self.stats.hit("lost_silent");
        let at = if self.down == Down::Budget { self.down_us } else { contact + 35_000_000 };
        self.fizzle_check(begun_us, at, -1);
    }

    fn end_unknown(&mut self, tx: u32, status: i32) {
        if let Some(t) = self.txns.get(&tx) {
            if t.open {
                let i = t.task;
                self.tasks[i].done_uncertain = true;
                let _ = status;
            }
        }
    }

    fn apply_end(&mut self, tx: u32, status: i32, at_us: i64) {
        let t = self.txns.get_mut(&tx).unwrap();
        if !t.open {
            return;
        }
        t.open = false;
        let (i, begun_us, begun) = (t.task, t.begun_us, t.begun.clone());
        self.tasks[i].exp_started = if begun_us.is_some() { begun } else { Some((String::new(), 0, String::new())) };
        if status == 0 {
            if let Some(b) = begun_us {
                self.runtimes.push((at_us - b) as f64 / 1e6);
            }
        }
        self.finish_task(i, status, true);
        self.fizzle_check(begun_us, at_us, status);
        self.recompute_ready();
    }

    #[allow(clippy::too_many_arguments)]
    fn on_start_resp(&mut self, q: &Pending, runner: usize, rt: u32, code: u16, h: &hyper::HeaderMap, body: &[u8], at_us: i64) -> R<()> {
        if code == 200 {
            let sr = decode_postcard::<StartResponse>(h, body).map_err(|e| Fail { tag: "P15".into(), msg: format!("undecodable /start response: {}", e) })?;
            self.take_start(q, runner, rt, sr, at_us)
        } else {
            self.note(format!("#{} start(runner {}, queue {}) -> {}", q.id, runner, rt, code));
            self.judge_refusal(q, runner, rt, code, at_us)
        }
    }

    fn judge_refusal(&mut self, q: &Pending, runner: usize, rt: u32, code: u16, at_us: i64) -> R<()> {
        match code {
            410 => {
                let cancelled = self.cancelled.contains(&q.jobid) || self.maybe_cancelled.contains(&q.jobid);
                let over = self.exec_done() || self.down != Down::No || self.may_be_over() || self.n_fizz_uncertain || self.any_maybe();
                chk!(cancelled || over, "P13", "runner {} was told to go away (410) while work remains", runner);
            }
            429 => {
                chk!(at_us - q.sent_us >= 30_000_000 - TOL_US, "P13", "runner {} was told 429 after {} us", runner, at_us - q.sent_us);
                self.stats.hit("held_30s");
            }
            404 => chk!(rt >= 64, "P13", "/start on queue {} got 404", rt),
            c => chk!(false, "P13", "/start got {}", c),
        }
        Ok(())
    }

    fn any_maybe(&self) -> bool {
        self.txns.values().any(|t| t.maybe)
    }

    fn take_start(&mut self, q: &Pending, runner: usize, rt: u32, sr: StartResponse, at_us: i64) -> R<()> {
        let argv: Vec<String> = sr.cmdline.iter().map(|s| s.to_string_lossy().to_string()).collect();
        // tasks carry their number in argv[2]
        let idx = argv.get(2).and_then(|s| s.parse::<usize>().ok()).filter(|&i| i < self.tasks.len());
        let Some(i) = idx else {
            return Err(Fail { tag: "P15".into(), msg: format!("handed out a command that is not in the graph: {:?}", argv) });
        };
        self.note(format!("#{} start(runner {}, queue {}) -> task {}", q.id, runner, rt, i));
        let t = &self.tasks[i];
        chk!(argv == t.argv, "P15", "task {:?} was handed out with command {:?}, not {:?}", t.key, argv, t.argv);
        chk!(sr.fd_input == t.fd_input, "P15", "task {:?} was handed out with the wrong fd_input", t.key);
        chk!(sr.ping_interval_msecs > 0 && sr.ping_interval_msecs <= 17_500, "P14", "ping interval {} ms is not safely below the timeout", sr.ping_interval_msecs);
        if self.cancelled.contains(&q.jobid) {
            chk!(false, "P17", "job {:?} was reported cancelled and then given task {:?}", q.jobid, self.tasks[i].key);
        }
        self.on_handout(i, rt, q.sent_seq, q.sent_us, &format!("runner {}", runner))?;
        chk!(!self.txns.contains_key(&sr.transaction_id), "P13", "transaction id {} reused", sr.transaction_id);
        let dmsg = self.runners[runner].dmsg.clone();
        self.txns.insert(
            sr.transaction_id,
            Txn { task: i, runner, jobid: q.jobid.clone(), handed_us: at_us, handed_req: self.next_req, contact_us: at_us, begun_us: None, begun: None, open: true, maybe: false, ending: false, dmsg, session_exec: self.exec_no },
        );
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn on_status(&mut self, q: &Pending, etag: u64, tmin: u64, tout: u64, known_cur: Option<u64>, code: u16, body: &[u8], at_us: i64) -> R<()> {
        chk!(code == 200, "P16", "/status got {}", code);
        let rep: StatusReply = serde_json::from_slice(body).map_err(|e| Fail { tag: "P16".into(), msg: format!("bad /status body: {}", e) })?;
        let el = at_us - q.sent_us;
        let (tmin_us, tout_us) = (tmin as i64 * 1000, tout as i64 * 1000);
        self.note(format!("#{} status(etag {}, min {}, timeout {}) -> etag {} after {} us", q.id, etag, tmin, tout, rep.etag, el / 100000));
        let ending = self.exec_done() || self.down != Down::No || self.may_be_over();
        if !ending {
            chk!(el >= tmin_us - TOL_US, "P16", "/status answered after {} us, minimum was {} us", el, tmin_us);
        }
        chk!(el <= tmin_us.max(tout_us) + TOL_US + 2 * 25_000, "P16", "/status answered after {} us, timeout was {} us", el, tout_us);
        let ends_out = self.pend.iter().any(|p| matches!(p.kind, Kind::End { .. }));
        if let (Some(cur), false) = (known_cur, ends_out) {
            // cur: the counter's value when the request was sent
            let first_inc = self.ready_events.iter().filter(|(_, s)| *s >= q.sent_seq).map(|(t, _)| *t).filter(|t| *t >= q.sent_us).next();
            if cur > etag {
                chk!(el <= tmin_us + TOL_US + 2 * 25_000, "P16", "/status with etag {} waited {} us although the counter stood at {}", etag, el, cur);
            } else if etag == cur && !ending {
                self.stats.hit("long_poll");
                match first_inc {
                    None => chk!(el >= tout_us.max(tmin_us) - TOL_US, "P16", "/status long poll (etag {}) returned after {} us without new ready tasks (timeout {} us)", etag, el, tout_us),
                    Some(ti) => {
                        let woke = (ti - q.sent_us).min(tout_us).max(tmin_us);
                        chk!((el - woke).abs() <= TOL_US + 4 * 25_000, "P16", "/status long poll returned after {} us; new tasks became ready after {} us (min {}, timeout {})", el, ti - q.sent_us, tmin_us, tout_us);
                        self.stats.hit("long_poll_woken");
                    }
                }
            }
        }
        if let Some((le, n)) = self.last_etag {
            if !self.any_maybe() {
                chk!(rep.etag >= le, "P16", "etag went back from {} to {}", le, rep.etag);
                if self.ready_events.len() > n && self.ready_events[n..].iter().any(|(t, _)| *t < at_us - TOL_US) && self.down == Down::No {
                    chk!(rep.etag > le, "P16", "tasks became ready since etag {} was read but it did not grow", le);
                }
            }
        }
        self.last_etag = Some((rep.etag, if ends_out { usize::MAX } else { self.ready_events.len() }));
        // counters, when the model is certain: quiescent before the request, and the answer immediate
        let quiet = self.pend.iter().all(|p| self.start_of(&p.kind).is_some() || matches!(p.kind, Kind::Status { .. }));
        if quiet && !self.any_maybe() && !self.n_fizz_uncertain && !ending && tmin == 0 && (tout == 0 || known_cur.map_or(false, |c| c > etag)) {
            let mut want: BTreeMap<u64, (u32, u32)> = BTreeMap::new();
            let mut unready = 0;
            let mut total = 0;
            for t in &self.tasks {
                if !t.in_run {
                    continue;
                }
                total += 1;
                if t.ready_seq.is_none() {
                    unready += 1;
                    continue;
                }
                let e = want.entry(t.affinity).or_insert((0, 0));
                if !t.handed {
                    e.0 += 1;
                } else if t.done.is_none() {
                    e.1 += 1;
                }
            }
            let got: BTreeMap<u64, (u32, u32)> = rep.queues.iter().map(|(k, v)| (*k, (v.num_ready, v.num_inflight))).collect();
            // a local slot may have taken a ready task whose process has not told us yet
            let mut want = want;
            if self.num_parallel > 0 {
                for (a, w) in want.iter_mut() {
                    if let (true, Some(g)) = (a & 3 != 0, got.get(a)) {
                        if g.0 < w.0 && g.0 + g.1 == w.0 + w.1 {
                            let moved = self.tasks.iter().filter(|t| t.affinity == *a && t.in_run && t.ready_seq.is_some() && !t.handed).count() as u32;
                            if w.0 - g.0 <= moved.min(self.num_parallel as u32 + 1) {
                                *w = *g;
                            }
                        }
                    }
                }
            }
            chk!(got == want, "P16", "/status reports queues {:?} (affinity -> ready, inflight), really {:?}", got, want);
            chk!(rep.num_total_tasks == total, "P16", "/status reports {} tasks in total, really {}", rep.num_total_tasks, total);
            chk!(rep.num_unready_tasks == unready, "P16", "/status reports {} unready tasks, really {}", rep.num_unready_tasks, unready);
            if !self.rate_uncertain && self.rate < 30_000 {
                let r = self.rate as i64;
                chk!((rep.ratelimit as i64 - r).abs() <= 0, "P16", "/status reports rate limit {}, set to {}", rep.ratelimit, self.rate);
            }
            chk!(rep.provisioner_info == self.info, "P16", "/status reports provisioner info {:?}, set to {:?}", rep.provisioner_info, self.info);
            if at_us > self.exec_us {
                chk!((rep.rate > 0.) == (self.tasks.iter().any(|t| t.handed)), "P16", "/status reports launch rate {}", rep.rate);
            }
            if !self.runtimes_fuzzy && self.agents.is_empty() {
                let n = self.runtimes.len();
                let m = if n == 0 { 0. } else { self.runtimes[n.saturating_sub(100)..].iter().sum::<f64>() / (n.min(100)) as f64 };
                chk!((rep.average_recent_task_runtime as f64 - m).abs() < 0.12, "P16", "/status reports mean runtime {}, really {} over {} tasks", rep.average_recent_task_runtime, m, n);
            }
            self.stats.hit("status_exact");
            if want.values().any(|v| v.0 > 0) && want.values().any(|v| v.1 > 0) {
                self.stats.hit("status_ready_and_inflight");
            }
        }
        Ok(())
    }
}

include!("sim2.rs");
include!("sim3.rs");
include!("sim4.rs");
