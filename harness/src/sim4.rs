// fourth part: one case from start to end.

fn accept_loop(path: String, shared: Arc<Shared>) -> std::io::Result<tokio::task::JoinHandle<()>> {
    let _ = std::fs::remove_file(&path);
    let l = tokio::net::UnixListener::bind(&path)?;
    Ok(tokio::spawn(async move {
        while let Ok((mut s, _)) = l.accept().await {
            let shared = shared.clone();
            tokio::spawn(async move {
                let mut buf = vec![];
                let mut b = [0u8; 1];
                while buf.len() < 2000 {
                    match s.read(&mut b).await {
                        Ok(1) if b[0] != b'\n' => buf.push(b[0]),
                        _ => break,
                    }
                }
                let line = String::from_utf8_lossy(&buf).to_string();
                let f: Vec<&str> = line.split(' ').collect();
                match (f.first().copied(), f.len()) {
                    (Some("A"), 4) => shared.push(Ev::Agent { idx: f[1].parse().unwrap_or(usize::MAX), pid: f[2].parse().unwrap_or(0), console: f[3] == "1", stream: s }),
                    (Some("P"), 4) => {
                        shared.push(Ev::Prov { url: f[1].into(), token: f[2].into(), pid: f[3].parse().unwrap_or(0) });
                        // keep the socket open as long as the provisioner lives
                        let _ = s.read(&mut b).await;
                    }
                    _ => {}
                }
            });
        }
    }))
}

struct Holder {
    rt: Option<tokio::runtime::Runtime>,
    eg: *mut ExecGraph,
}

/// drive execute() and the harness together; a panic inside execute() ends the case
fn drive<F: Future<Output = R<()>>>(rt: &tokio::runtime::Runtime, mut exec: Option<ExecFut>, result: Arc<Mutex<Option<ExecResult>>>, driver: F) -> (R<()>, bool) {
    let mut driver = Box::pin(driver);
    let mut broken = false;
    let out = rt.block_on(futures::future::poll_fn(|cx| {
        if let Some(e) = exec.as_mut() {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.as_mut().poll(cx))) {
                Ok(Poll::Ready(r)) => {
                    *result.lock().unwrap() = Some(r);
                    exec = None;
                }
                Ok(Poll::Pending) => {}
                Err(_) => {
                    broken = true;
                    return Poll::Ready(Err(Fail { tag: "PANIC".into(), msg: format!("execute() panicked: {:?}", take_panics()) }));
                }
            }
        }
        driver.as_mut().poll(cx)
    }));
    if exec.is_some() {
        // tasks on the runtime still point into it
        std::mem::forget(exec);
        broken = true;
    }
    (out, broken)
}

pub fn run_case(src: &mut Src, prop: &str, dir: &std::path::Path, hang_ms: u128) -> CaseOut {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("s")).unwrap();
    let agent = dir.parent().unwrap().join("agent");
    std::os::unix::fs::symlink(&agent, dir.join("prov")).unwrap();
    let _ = take_panics();
    let mut h = Holder { rt: None, eg: std::ptr::null_mut() };
    let p = Profile::for_prop(prop);
    let mut w = World::new(src, p, dir.to_path_buf());
    w.hang_ms = hang_ms;
    w.hostname = hostname();
    let mut broken = false;
    let r = run_history(&mut w, &mut h, &mut broken);
    let mut fail = r.err();
    if let Some(f) = fail.as_mut() {
        if f.tag == "PANIC" {
            f.tag = w.ctx_tag().to_string();
        }
    }
    // leave nothing behind
    for a in &w.agents {
        if alive(a.pid) && a.pid > 1 {
            unsafe { libc::kill(a.pid, libc::SIGKILL) };
        }
    }
    if w.prov_pid > 1 && alive(w.prov_pid) {
        unsafe { libc::kill(w.prov_pid, libc::SIGKILL) };
    }
    let stats = std::mem::take(&mut w.stats);
    let trace = std::mem::take(&mut w.trace);
    let shape = w.hash;
    w.pend.clear();
    w.runners.clear();
    w.agents.clear();
    drop(w);
    if broken {
        if let Some(rt) = h.rt.take() {
            std::mem::forget(rt);
        }
    } else {
        if !h.eg.is_null() {
            unsafe { drop(Box::from_raw(h.eg)) };
        }
        if let Some(rt) = h.rt.take() {
            rt.shutdown_background();
        }
    }
    let _ = std::fs::remove_dir_all(dir);
    CaseOut { fail, stats, trace, shape }
}

fn hostname() -> String {
    let mut b = [0u8; 256];
    unsafe { libc::gethostname(b.as_mut_ptr() as *mut libc::c_char, 255) };
    let n = b.iter().position(|&x| x == 0).unwrap_or(0);
    String::from_utf8_lossy(&b[..n]).to_string()
}

fn run_history(w: &mut World, h: &mut Holder, broken: &mut bool) -> R<()> {
    h.rt = Some(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    let n_sessions = 1 + w.src.below(w.p.max_sessions);
    let locals = w.src.pct(w.p.local_pct * 2);
    w.num_parallel = if locals { 1 + w.src.below(3) as u32 } else { 0 };
    w.gen_tasks();
    {
        let rt = h.rt.as_ref().unwrap();
        let _g = rt.enter();
        let _ = accept_loop(w.sock.clone(), w.shared.clone()).map_err(|e| Fail { tag: "HARNESS".into(), msg: e.to_string() })?;
    }
    for s in 0..n_sessions {
        w.session_no = s as u32 + 1;
        // a session: open the log, add the tasks as a client of the library does
        let path = w.dir.join("s").join("log");
        let mut log = LogFile::<LogFileRW>::new(&path).map_err(|e| Fail { tag: "P08".into(), msg: format!("log of a finished session cannot be opened: {}", e) })?;
        log.write(LogEntry::new_header("wk", vec![PathBuf::from(""), PathBuf::from("/x")]).unwrap()).unwrap();
        for t in w.tasks.iter_mut() {
            t.session_done = None;
            t.log_success = log.has_success(&t.key);
            t.log_failure = log.has_failure(&t.key);
            t.runcount = match log.runcount(&t.key) {
                None => 0,
                Some(RuncountStatus::Ready { runcount, .. }) => runcount,
                Some(RuncountStatus::Started { runcount, .. }) => runcount + 1,
                Some(RuncountStatus::Finished { runcount, success, .. }) => runcount + (!success) as u32,
            };
            t.done = None;
            t.handed = false;
            t.in_run = false;
        }
        if s > 0 {
            w.note(format!("session {}: {} succeeded before, {} failed", s + 1, w.tasks.iter().filter(|t| t.log_success).count(), w.tasks.iter().filter(|t| t.log_failure).count()));
            w.stats.hit("resumed_session");
        }
        let mut eg = ExecGraph::new(log);
        for (i, t) in w.tasks.iter().enumerate() {
            let id = eg
                .add_task(
                    Cmd {
                        cmdline: t.argv.iter().map(|s| s.into()).collect(),
                        key: t.key.clone(),
                        display: t.display.clone(),
                        affinity: bitvec::array::BitArray::<u64>::new(t.affinity),
                        runcount: t.runcount,
                        storage_root: t.storage_root,
                        fd_input: t.fd_input.clone(),
                        ..Default::default()
                    },
                    t.deps.iter().map(|&d| d as u32).collect(),
                )
                .map_err(|e| Fail { tag: "P23".into(), msg: e.to_string() })?;
            if id as usize != i {
                return Err(Fail { tag: "P23".into(), msg: format!("task {} got id {}", i, id) });
            }
        }
        h.eg = Box::into_raw(Box::new(eg));
        let n_exec = 1 + w.src.below(w.p.max_execs);
        for x in 0..n_exec {
            w.exec_no += 1;
            if x > 0 {
                w.stats.hit("second_execute");
            }
            one_execute(w, h, broken)?;
            if *broken {
                return Ok(());
            }
            if w.down == Down::Hard {
                break;
            }
        }
        unsafe { drop(Box::from_raw(h.eg)) };
        h.eg = std::ptr::null_mut();
    }
    Ok(())
}

fn one_execute(w: &mut World, h: &mut Holder, broken: &mut bool) -> R<()> {
    let n = w.tasks.len();
    let target = if w.src.pct(w.p.target_pct) { Some(w.src.below(n as u64) as usize) } else { None };
    let rerun = w.src.pct(70);
    w.budget = if w.src.pct(w.p.budget_pct) { 1 + w.src.below(3) as u32 } else { u32::MAX };
    w.rate = if w.src.pct(w.p.rate_pct) { *w.src.pick(&[1u32, 2, 3, 5, 10, 40, 1000]) } else { 0 };
    w.info = if w.src.pct(30) { Some(w.src.string(5)) } else { None };
    // which tasks belong to this run: what the target needs, not done yet, every dependency done or in the run
    let mut rel = vec![target.is_none(); n];
    if let Some(t) = target {
        rel[t] = true;
        for i in (0..n).rev() {
            if rel[i] {
                for &d in &w.tasks[i].deps.clone() {
                    rel[d] = true;
                }
            }
        }
        w.stats.hit("target_given");
    }
    let mut blocked = 0;
    for i in 0..n {
        let t = &w.tasks[i];
        let failed_before = t.session_done == Some(false) || (t.log_failure && !rerun && t.session_done.is_none());
        let ok = t.session_done == Some(true) || t.log_success;
        let deps_fine = t.deps.iter().all(|&d| {
            let t = &w.tasks[d];
            t.in_run || t.session_done == Some(true) || t.log_success
        });
        if rel[i] && !ok && !failed_before && !deps_fine {
            blocked += 1;
        }
        let skip_failure = rel[i] && !ok && deps_fine && t.log_failure && !rerun && t.session_done.is_none();
        let t = &mut w.tasks[i];
        t.in_run = rel[i] && !ok && !failed_before && deps_fine;
        if skip_failure {
            // remembered as failed for the rest of the session
            t.session_done = Some(false);
        }
        t.ready_seq = None;
        t.handed = false;
        t.ok_possible = false;
        t.done = None;
        t.done_uncertain = false;
        t.ghost = false;
        t.exp_started = None;
        t.values = vec![];
        t.local = false;
    }
    if blocked > 0 {
        w.stats.hit("blocked_by_earlier_failure");
    }
    w.note(format!("execute(target={:?}, rerun_failures={}, budget={}, rate={}): {} of {} tasks in the run", target, rerun, w.budget, w.rate, w.tasks.iter().filter(|t| t.in_run).count(), n));
    w.txns.clear();
    for a in &w.agents {
        let _ = a.pid;
    }
    w.agents.clear();
    w.pend.clear();
    w.down = Down::No;
    w.down_certain = false;
    w.n_fizz = 0;
    w.n_fizz_uncertain = false;
    w.rate_since_us = vtime::now_us() - 1;
    w.exec_us = vtime::now_us();
    w.raw.clear();
    w.rate_uncertain = false;
    w.grants.clear();
    w.starts_sent = 0;
    w.cancelled.clear();
    w.maybe_cancelled.clear();
    w.url = None;
    w.prov_pid = 0;
    *w.result.lock().unwrap() = None;
    w.finish_order.clear();
    w.order_uncertain = false;
    w.ready_events.clear();
    w.last_etag = None;
    w.runtimes.clear();
    w.runtimes_fuzzy = false;
    w.prio_checks.clear();
    w.slot_freed = [None, None];
    w.drained_expected.clear();
    w.gen_runners();
    let empty = !w.tasks.iter().any(|t| t.in_run);
    let eg: &'static mut ExecGraph = unsafe { &mut *h.eg };
    let spec = RemoteProvisionerSpec { cmd: w.dir.join("prov").to_string_lossy().to_string(), info: w.info.clone() };
    let (np, budget, rate) = (w.num_parallel, w.budget, w.rate);
    let tgt = target.map(|t| t as u32);
    let fut: ExecFut = Box::pin(async move { eg.execute(tgt, np, budget, rerun, Some(spec), rate).await.map_err(|e| e.to_string()) });
    let result = w.result.clone();
    let rt = h.rt.take().unwrap();
    let (r, b) = drive(&rt, Some(fut), result, async {
        if empty {
            let t0 = vtime::real();
            while !w.exec_done() {
                w.settle().await;
                w.pump().await?;
                if (vtime::real() - t0).as_millis() > w.hang_ms || w.url.is_some() {
                    return Err(Fail { tag: "P03".into(), msg: "nothing to run, but execute() did not return at once".into() });
                }
            }
            w.stats.hit("nothing_to_run");
            let r = w.result.lock().unwrap().clone();
            chk!(r == Some(Ok((0, vec![]))), "P03", "nothing to run, but execute() returned {:?}", r);
            return Ok(());
        }
        // the provisioner comes up
        let t0 = vtime::real();
        while w.url.is_none() && !w.exec_done() && (vtime::real() - t0).as_millis() < w.hang_ms {
            w.settle().await;
            w.pump().await?;
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
        w.quiesce().await?;
        let n_ops = w.src.below(w.p.max_ops + 1);
        for _ in 0..n_ops {
            if w.exec_done() {
                break;
            }
            w.op().await?;
        }
        w.finale().await?;
        w.settle().await;
        w.expire();
        w.pump().await?;
        w.judge_result()?;
        for q in w.pend.drain(..) {
            if let Some(a) = q.abort {
                a.abort();
            }
        }
        for r in w.runners.iter_mut() {
            r.conn = None;
        }
        for _ in 0..8 {
            tokio::task::yield_now().await;
        }
        let hard = w.down == Down::Hard;
        w.check_log(hard)?;
        w.absorb_execute()?;
        let ps = take_panics();
        chk!(ps.is_empty(), w.ctx_tag(), "something panicked during the run: {:?}", ps);
        Ok(())
    });
    h.rt = Some(rt);
    if b {
        *broken = true;
    }
    r
}

/// does this case count as exercising the property?
pub fn nontrivial(prop: &str, s: &Stats) -> bool {
    let g = |k: &str| s.get(k);
    match prop {
        "P01" => g("dependent_handout") >= 2,
        "P02" => g("multi_queue_handout") >= 2 && g("handout") >= 3,
        "P03" => g("handout") >= 3 && g("result_exact") >= 1,
        "P04" => g("budget_exhausted") >= 1,
        "P05" => g("priority_judged") >= 2 && (g("local_handout") >= 2 || g("multi_queue_handout") >= 2),
        "P08" => g("log_judged") >= 1 && g("handout") >= 3 && (g("lost_silent") + g("resumed_session") + g("soft_shutdown") + g("hard_admin") + g("hard_sigint") + g("hard_provisioner_exit") + g("fizzle") >= 1),
        "P13" => g("bad_request_on_open_txn") + g("duplicate_begun") + g("stale_request") + g("foreign_end") >= 2,
        "P14" => g("lost_silent") + g("kept_alive_by_ping") >= 2,
        "P16" => g("status_exact") + g("long_poll") >= 2,
        "P17" => g("cancelled_job") >= 1 && g("handout") >= 2,
        "P18" => g("rate_limited_launch") >= 4,
        "P19" => g("soft_shutdown") + g("hard_admin") + g("hard_sigint") + g("hard_provisioner_exit") >= 1 && g("handout") >= 1,
        _ => g("handout") >= 2,
    }
}
