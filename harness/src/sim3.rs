// third part of the simulator: choosing operations, running sessions, judging results and logs.

type ExecFut = Pin<Box<dyn Future<Output = ExecResult>>>;

fn alive(pid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => {
            let st = s.rsplit(") ").next().and_then(|x| x.chars().next()).unwrap_or('Z');
            st != 'Z' && st != 'X'
        }
        Err(_) => false,
    }
}

impl<'s> World<'s> {
    fn open_tx(&self) -> Vec<u32> {
        self.txns.iter().filter(|(_, t)| t.open && !t.maybe && !t.ending).map(|(k, _)| *k).collect()
    }
    fn unbegun_tx(&self) -> Vec<u32> {
        self.txns.iter().filter(|(_, t)| t.open && !t.maybe && !t.ending && t.begun_us.is_none() && t.begun.is_none()).map(|(k, _)| *k).collect()
    }
    fn idle_runners(&self) -> Vec<usize> {
        (0..self.runners.len()).filter(|&r| !self.runners[r].start_out && !self.txns.values().any(|t| t.open && t.runner == r)).collect()
    }

    /// move time on by about `us`, never stopping where a silent task may or may not be lost already
    async fn advance_safe(&mut self, us: i64) -> R<()> {
        let mut dt = us;
        loop {
            let now = vtime::now_us();
            let mut ext = dt;
            for t in self.txns.values().filter(|t| t.open) {
                let s = now + dt - t.contact_us;
                if s > 33_500_000 && s < 36_700_000 {
                    ext = ext.max(dt + 36_750_000 - s);
                }
            }
            if ext == dt {
                break;
            }
            dt = ext;
        }
        self.note(format!("time passes: {} ms", dt / 1000));
        self.advance(dt).await?;
        if self.p.prop == "P08" && dt > 300_000 && !self.exec_done() && !self.any_maybe() {
            self.check_midrun_durability()?;
        }
        Ok(())
    }

    /// end a remote task, keeping clear of the 5 s boundary that separates fast failures from slow ones
    async fn end_clear(&mut self, tx: u32, status: i32, chain: bool) -> R<()> {
        if status != 0 {
            if let Some(b) = self.txns[&tx].begun_us {
                let el = vtime::now_us() - b;
                if (el - 5_000_000).abs() < 3 * TOL_US {
                    self.advance_safe(400_000).await?;
                    if self.exec_done() || !self.txns.get(&tx).map_or(false, |t| t.open && !t.maybe) {
                        return Ok(());
                    }
                }
            }
        }
        self.do_end(tx, status, chain).await;
        Ok(())
    }

    async fn op(&mut self) -> R<()> {
        self.seq += 1;
        let w = self.p.w;
        // only operations that can do something now
        let idle = self.idle_runners();
        let open = self.open_tx();
        let unbegun = self.unbegun_tx();
        let live_agents: Vec<usize> = (0..self.agents.len()).filter(|&k| !self.agents[k].gone).collect();
        let waiting: Vec<usize> = self.pend.iter().enumerate().filter(|(_, p)| matches!(p.kind, Kind::Start { .. })).map(|(i, _)| i).collect();
        let mut ww = w;
        if idle.is_empty() {
            ww[OP_START] = 0;
            ww[OP_BURST] = 0;
        }
        if unbegun.is_empty() {
            ww[OP_BEGUN] = 0;
        }
        if open.is_empty() {
            ww[OP_END] = 0;
            ww[OP_CHAIN] = 0;
            ww[OP_PING] = 0;
            ww[OP_SILENCE] = 0;
        }
        if live_agents.is_empty() {
            ww[OP_AGENT] = 0;
        }
        if waiting.is_empty() {
            ww[OP_ABORT] = 0;
        }
        if self.txns.is_empty() {
            ww[OP_DUP] = 0;
        }
        if self.down != Down::No {
            ww[OP_SOFT] = 0;
            ww[OP_RATE] = 0;
        }
        if ww.iter().all(|&x| x == 0) {
            ww[OP_ADVANCE] = 1;
        }
        let op = self.src.weighted(&ww);
        match op {
            OP_START => {
                let r = *self.src.pick(&idle);
                self.do_start(r).await;
            }
            OP_BEGUN => {
                let tx = *self.src.pick(&unbegun);
                self.do_begun(tx).await;
            }
            OP_END | OP_CHAIN => {
                let tx = *self.src.pick(&open);
                if self.txns[&tx].begun.is_none() && !self.src.pct(12) {
                    self.do_begun(tx).await;
                    self.quiesce().await?;
                    if self.exec_done() || !self.open_tx().contains(&tx) {
                        return Ok(());
                    }
                }
                let st = self.gen_status();
                self.end_clear(tx, st, op == OP_CHAIN).await?;
            }
            OP_PING => {
                let tx = *self.src.pick(&open);
                self.note(format!("ping for task {}", self.txns[&tx].task));
                self.do_ping(tx).await;
            }
            OP_ADVANCE => {
                let dt = *self.src.pick(&[50i64, 300, 1000, 2500, 4000, 5300, 9000, 17000, 29000, 31000, 37000]);
                let jitter = self.src.below(900) as i64;
                self.advance_safe((dt + jitter) * 1000).await?;
            }
            OP_SILENCE => {
                // some runners keep pinging, the others fall silent
                let mut keep = vec![];
                for &t in &open {
                    if self.src.pct(50) {
                        keep.push(t);
                    }
                }
                let total = 40_000_000 + self.src.below(80) as i64 * 1_000_000;
                let step = *self.src.pick(&[15_000_000i64, 5_000_000, 29_000_000, 30_000_000]);
                let t0 = vtime::now_us();
                self.note(format!("{} tasks keep pinging every {} s, {} fall silent, for {} s", keep.len(), step / 1_000_000, open.len() - keep.len(), total / 1_000_000));
                // everyone who keeps going is heard from now, so that the spacing is what it says
                loop {
                    self.seq += 1;
                    for &tx in &keep {
                        if self.txns.get(&tx).map_or(false, |t| t.open && !t.maybe) {
                            self.do_ping(tx).await;
                        }
                    }
                    self.quiesce().await?;
                    if self.exec_done() || vtime::now_us() - t0 > total {
                        break;
                    }
                    self.advance(step).await?;
                    if self.exec_done() {
                        break;
                    }
                    for &tx in &keep {
                        if self.down == Down::No {
                            self.stats.hit("kept_alive_by_ping");
                        }
                        let _ = tx;
                    }
                }
                if !self.exec_done() {
                    self.advance_safe(10_000).await?;
                }
            }
            OP_STATUS => {
                let cur = self.last_etag.map(|x| x.0).unwrap_or(0);
                let etag = match self.src.below(4) {
                    0 => 0,
                    1 => cur,
                    2 => cur + 1 - (self.src.below(2)),
                    _ => self.src.below(cur + 3),
                };
                let tmin = *self.src.pick(&[0u64, 0, 0, 200, 1500]);
                let tout = *self.src.pick(&[0u64, 0, 500, 3000, 20000]);
                self.do_status(etag, tmin, tout).await;
            }
            OP_MARK => {
                let mut jobs = vec![];
                for r in 0..self.runners.len() {
                    if self.src.pct(40) {
                        jobs.push(self.runners[r].jobid.clone());
                    }
                }
                jobs.push(self.runners[self.src.below(self.runners.len() as u64) as usize].jobid.clone());
                if self.src.pct(20) {
                    jobs.push("777_7".into());
                }
                let race = self.src.pct(35) && !idle.is_empty();
                if race && self.src.pct(50) {
                    // the question races with a runner asking for work
                    let r = *self.src.pick(&idle);
                    self.do_start(r).await;
                    self.mark(jobs).await;
                } else {
                    self.mark(jobs).await;
                    if race {
                        let r = *self.src.pick(&idle);
                        self.do_start(r).await;
                    }
                }
            }
            OP_RATE => {
                let r = *self.src.pick(&[0u32, 1, 2, 3, 5, 10, 40, 1000]);
                self.note(format!("admin sets rate limit {}", r));
                self.rate_uncertain = true;
                let req = self.plain_json("POST", "/ratelimit", &UpdateRatelimitRequest { per_second: r });
                self.send(Kind::Rate { r }, None, req, String::new()).await;
            }
            OP_INFO => {
                let s = if self.src.pct(70) { Some(self.src.string(6)) } else { None };
                let req = self.plain_json("POST", "/provisioner_info", &UpdateRemoteProvisionerInfoRequest { provisioner_info: s.clone() });
                self.send(Kind::Info { s }, None, req, String::new()).await;
            }
            OP_SOFT => {
                self.note("admin soft shutdown".into());
                self.stats.hit("soft_shutdown");
                if self.open_handed() > 0 {
                    self.stats.hit("soft_shutdown_with_inflight");
                }
                if self.txns.values().any(|t| t.open && t.begun_us.is_none()) {
                    self.stats.hit("soft_shutdown_with_unbegun");
                }
                let req = self.plain_json("POST", "/shutdown", &ShutdownRequest { username: "me".into(), soft: true });
                self.send(Kind::Soft, None, req, String::new()).await;
                self.down = Down::Soft;
                self.down_us = vtime::now_us();
                self.down_certain = false;
                self.settle().await;
                self.pump().await?;
                if self.down == Down::Soft {
                    self.down_us = vtime::now_us();
                    self.down_certain = true;
                }
            }
            OP_HARD => {
                self.hard().await?;
            }
            OP_BAD => self.do_bad().await,
            OP_ABORT => {
                let k = *self.src.pick(&waiting);
                let p = self.pend.remove(k);
                self.note(format!("#{} client gives up", p.id));
                self.stats.hit("client_abort");
                if let Some(a) = p.abort {
                    a.abort();
                }
                if let Kind::Start { runner, .. } = p.kind {
                    self.runners[runner].start_out = false;
                }
                self.settle().await;
            }
            OP_DUP => {
                let all: Vec<u32> = self.txns.keys().copied().collect();
                let tx = *self.src.pick(&all);
                let (o, m, begun, runner, jobid, ending) = { let t = &self.txns[&tx]; (t.open, t.maybe, t.begun_us.is_some(), t.runner, t.jobid.clone(), t.ending) };
                if m || (o && (!begun || ending)) {
                    return Ok(());
                }
                self.saw_dup = true;
                if o {
                    self.stats.hit("duplicate_begun");
                    self.note("duplicate begun".into());
                    self.do_begun(tx).await;
                } else {
                    self.stats.hit("stale_request");
                    self.note("request for a closed transaction".into());
                    match self.src.below(2) {
                        0 => self.do_begun(tx).await,
                        _ => {
                            let req = self.request("POST", "/end", &EndRequest { transaction_id: tx, status: 0, stdout: String::new(), stderr: String::new(), values: vec![], start_request: None }, true, true, Some(&jobid));
                            self.send(Kind::Bad { what: "end of a closed transaction", expect: vec![404, 410] }, Some(runner), req, jobid).await;
                        }
                    }
                }
            }
            OP_BURST => {
                self.order_uncertain = true;
                self.stats.hit("burst");
                let n = 2 + self.src.below(4);
                for _ in 0..n {
                    let idle = self.idle_runners();
                    let open = self.open_tx();
                    match self.src.below(3) {
                        0 | 1 if !idle.is_empty() => {
                            let r = *self.src.pick(&idle);
                            self.do_start(r).await;
                        }
                        _ if !open.is_empty() => {
                            let tx = *self.src.pick(&open);
                            let st = self.gen_status();
                            let chain = self.src.pct(50);
                            if st != 0 {
                                if let Some(b) = self.txns[&tx].begun_us {
                                    if (vtime::now_us() - b - 5_000_000).abs() < 4 * TOL_US {
                                        continue;
                                    }
                                }
                            }
                            self.do_end(tx, st, chain).await;
                        }
                        _ => {}
                    }
                }
            }
            OP_AGENT => {
                let k = *self.src.pick(&live_agents);
                let (code, sig) = if self.src.pct(self.p.fail_pct) {
                    match self.src.below(4) {
                        0 => (*self.src.pick(&[9i32, 15, 6]), true),
                        _ => (*self.src.pick(&[1i32, 2, 77, 255]), false),
                    }
                } else {
                    (0, false)
                };
                self.finish_agent(k, code, sig).await?;
            }
            _ => {}
        }
        self.quiesce().await
    }

    async fn mark(&mut self, jobids: Vec<String>) {
        for j in &jobids {
            self.maybe_cancelled.insert(j.clone());
        }
        let req = self.plain_json("POST", "/mark-slurm-job-cancelation", &MarkSlurmJobCancelationRequest { jobids: jobids.clone() });
        self.send(Kind::Mark { jobids }, None, req, String::new()).await;
    }

    async fn hard(&mut self) -> R<()> {
        let how = self.src.below(3);
        self.note(format!("hard stop ({})", ["admin", "SIGINT", "provisioner exit"][how as usize]));
        self.stats.hit(["hard_admin", "hard_sigint", "hard_provisioner_exit"][how as usize]);
        if self.open_handed() > 0 {
            self.stats.hit("hard_with_inflight");
        }
        self.down = Down::Hard;
        self.down_us = vtime::now_us();
        match how {
            0 => {
                let req = self.plain_json("POST", "/shutdown", &ShutdownRequest { username: "me".into(), soft: false });
                self.send(Kind::Hard, None, req, String::new()).await;
            }
            1 => {
                self.sigint = true;
                unsafe { libc::kill(libc::getpid(), libc::SIGINT) };
            }
            _ => {
                self.prov_exit = true;
                unsafe { libc::kill(self.prov_pid, if self.seq % 2 == 0 { libc::SIGKILL } else { libc::SIGTERM }) };
            }
        }
        Ok(())
    }

    /// finish whatever is left, with runners that ask for what is ready
    async fn finale(&mut self) -> R<()> {
        self.note("finale".into());
        for _ in 0..400 {
            if self.exec_done() {
                return Ok(());
            }
            self.seq += 1;
            self.quiesce().await?;
            if self.exec_done() {
                return Ok(());
            }
            let live: Vec<usize> = (0..self.agents.len()).filter(|&k| !self.agents[k].gone).collect();
            if let Some(&k) = live.first() {
                let code = if self.src.pct(self.p.fail_pct / 2) { 3 } else { 0 };
                self.finish_agent(k, code, false).await?;
                continue;
            }
            if let Some(&tx) = self.open_tx().first() {
                if self.txns[&tx].begun.is_none() && !self.src.pct(10) {
                    self.do_begun(tx).await;
                } else {
                    let st = if self.src.pct(self.p.fail_pct / 2) { 3 } else { 0 };
                    self.end_clear(tx, st, false).await?;
                }
                continue;
            }
            if self.txns.values().any(|t| t.open) {
                // cancelled or lost tasks settle within their time
                self.advance_safe(500_000).await?;
                continue;
            }
            if self.down != Down::No {
                continue; // quiesce() insists that it returns
            }
            // which queue has something to do?
            let mut want = None;
            for i in 0..self.tasks.len() {
                let t = &self.tasks[i];
                if t.in_run && t.ready_seq.is_some() && !t.handed {
                    let q: Vec<u32> = (0..64).filter(|b| (t.affinity >> b) & 1 == 1 && *b >= 2).collect();
                    want = Some(q);
                    break;
                }
            }
            match want {
                Some(q) if !q.is_empty() && !self.pend.iter().any(|p| self.start_of(&p.kind).map_or(false, |(_, x)| q.contains(&x)) && !self.cancelled.contains(&p.jobid)) => {
                    let jobid = format!("fin_{}", self.runners.len());
                    self.runners.push(Runner { queue: *q.last().unwrap(), jobid, conn: None, start_out: false, json: false, dmsg: String::new() });
                    let r = self.runners.len() - 1;
                    self.do_start(r).await;
                }
                Some(_) => {
                    // only the rate limit can be in the way; must_have() says so otherwise
                    self.advance_safe(500_000).await?;
                }
                None => {}
            }
        }
        Err(Fail { tag: self.ctx_tag().to_string(), msg: "the run makes no progress: 400 rounds of finishing everything that can be finished did not end it".into() })
    }

    // ------------------------------------------------------------------------------- log

    fn read_log(&self) -> R<Vec<serde_json::Value>> {
        let p = self.dir.join("s").join("log");
        let s = std::fs::read_to_string(&p).map_err(|e| Fail { tag: "P08".into(), msg: format!("log unreadable: {}", e) })?;
        if !s.is_empty() && !s.ends_with('\n') {
            return Err(Fail { tag: "P08".into(), msg: "log does not end with a newline".into() });
        }
        let mut v = vec![];
        for l in s.lines() {
            v.push(serde_json::from_str(l).map_err(|e| Fail { tag: "P08".into(), msg: format!("log line is not JSON ({}): {:?}", e, l) })?);
        }
        Ok(v)
    }

    fn check_midrun_durability(&mut self) -> R<()> {
        // what is in the file while the run goes on may stop in the middle of a line
        let p = self.dir.join("s").join("log");
        let raw = std::fs::read(&p).map_err(|e| Fail { tag: "P08".into(), msg: e.to_string() })?;
        let text = String::from_utf8_lossy(&raw).to_string();
        let mut started: HashMap<String, u32> = HashMap::new();
        let mut finished: HashMap<String, u32> = HashMap::new();
        let mut sessions = 0;
        for l in text.split_inclusive('\n').filter(|l| l.ends_with('\n')) {
            let v: serde_json::Value = serde_json::from_str(l).map_err(|e| Fail { tag: "P08".into(), msg: format!("{}: {:?}", e, l) })?;
            if v.get("Header").is_some() {
                sessions += 1;
                started.clear();
                finished.clear();
            }
            if let Some(s) = v.get("Started") {
                *started.entry(s["key"].as_str().unwrap().to_string()).or_insert(0) += 1;
            }
            if let Some(s) = v.get("Finished") {
                *finished.entry(s["key"].as_str().unwrap().to_string()).or_insert(0) += 1;
            }
        }
        chk!(sessions == self.session_no, "P08", "log on disk has {} headers in session {}", sessions, self.session_no);
        for t in &self.tasks {
            if !t.in_run {
                continue;
            }
            if t.done.is_some() && !t.done_uncertain {
                chk!(finished.contains_key(&t.key), "P08", "task {:?} finished at least 300 ms ago but the log on disk does not say so", t.key);
            }
            if t.handed && self.txns.values().any(|x| self.tasks[x.task].key == t.key && x.begun_us.map_or(false, |b| vtime::now_us() - b > 300_000) && x.session_exec == self.exec_no) {
                chk!(started.contains_key(&t.key), "P08", "task {:?} started at least 300 ms ago but the log on disk does not say so", t.key);
            }
        }
        self.stats.hit("midrun_durability_checked");
        Ok(())
    }

    fn expect_display(t: &Task) -> String {
        match &t.display {
            Some(d) => d.clone(),
            None => t.argv.join(" ").replace("\\\n", " ").replace('\t', "\\t"),
        }
    }

    /// every session's log, from nothing but the file
    fn check_log(&mut self, hard: bool) -> R<()> {
        let log = self.read_log()?;
        // split into sessions
        let mut sessions: Vec<Vec<serde_json::Value>> = vec![];
        for v in log {
            if v.get("Header").is_some() {
                sessions.push(vec![]);
            }
            match sessions.last_mut() {
                Some(s) => s.push(v),
                None => return Err(Fail { tag: "P08".into(), msg: "first log line is not a header".into() }),
            }
        }
        chk!(sessions.len() as u32 == self.session_no, "P08", "{} headers after {} sessions", sessions.len(), self.session_no);
        // (key, runcount) of started tasks is unique over the whole history
        let mut used: HashSet<(String, u64)> = HashSet::new();
        for s in &sessions {
            let mut rc: HashMap<String, u64> = HashMap::new();
            for v in s {
                if let Some(r) = v.get("Ready") {
                    rc.insert(r["key"].as_str().unwrap().into(), r["runcount"].as_u64().unwrap());
                }
                if let Some(r) = v.get("Started") {
                    let k = r["key"].as_str().unwrap().to_string();
                    if let Some(c) = rc.get(&k) {
                        chk!(used.insert((k.clone(), *c)), "P07", "task {:?} was started twice with run count {}", k, c);
                    }
                }
            }
        }
        let last = sessions.pop().unwrap();
        let mut per: HashMap<String, Vec<&serde_json::Value>> = HashMap::new();
        for v in last.iter().skip(1) {
            let (kind, e) = v.as_object().unwrap().iter().next().unwrap();
            chk!(["Ready", "Started", "Finished", "Backref"].contains(&kind.as_str()), "P08", "unexpected log entry {}", v);
            per.entry(e["key"].as_str().unwrap().to_string()).or_default().push(v);
        }
        let name = |v: &serde_json::Value| v.as_object().unwrap().keys().next().unwrap().clone();
        for (k, vs) in &per {
            chk!(self.by_key.contains_key(k), "P08", "log mentions an unknown task {:?}", k);
            let names: Vec<String> = vs.iter().map(|v| name(v)).collect();
            let n: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let ok = matches!(n.as_slice(), ["Ready"] | ["Ready", "Started", "Finished"] | ["Backref"])
                // made ready, but the run was stopped before it was handed out, and a later run took it up
                || (n.len() > 1 && n.iter().take_while(|x| **x == "Ready").count() >= 1 && {
                    let r = n.iter().take_while(|x| **x == "Ready").count();
                    matches!(&n[r..], [] | ["Started", "Finished"])
                });
            chk!(ok, "P08", "log entries of task {:?} in this session are {:?}", k, n);
            chk!(n != ["Ready", "Started"], "P08", "task {:?} was started but never logged as finished", k);
        }
        // the last execute() in detail
        for i in 0..self.tasks.len() {
            let t = &self.tasks[i];
            if !t.in_run {
                continue;
            }
            let vs = per.get(&t.key).cloned().unwrap_or_default();
            let names: Vec<String> = vs.iter().map(|v| name(v)).collect();
            let fin = vs.iter().rev().find(|v| v.get("Finished").is_some());
            let sta = vs.iter().rev().find(|v| v.get("Started").is_some());
            let rea = vs.iter().rev().find(|v| v.get("Ready").is_some());
            if t.ready_seq.is_some() && self.down != Down::Hard {
                chk!(rea.is_some(), "P08", "task {:?} became ready but the log does not say so", t.key);
            }
            if let Some(r) = rea {
                let r = &r["Ready"];
                if !t.deps.iter().all(|&d| { let t = &self.tasks[d]; if t.in_run { t.ok_possible } else { t.session_done == Some(true) || t.log_success } }) {
                    chk!(false, "P01", "the log says task {:?} became ready although a dependency did not succeed", t.key);
                }
                chk!(r["runcount"].as_u64() == Some(t.runcount as u64), "P07", "task {:?} was logged with run count {}, expected {}", t.key, r["runcount"], t.runcount);
                chk!(r["command"].as_str() == Some(Self::expect_display(t).as_str()), "P08", "task {:?} was logged with command {}, expected {:?}", t.key, r["command"], Self::expect_display(t));
                chk!(r["r"].as_u64() == Some(t.storage_root as u64), "P07", "task {:?} was logged with storage root {}, expected {}", t.key, r["r"], t.storage_root);
            }
            if !t.handed && (sta.is_some() || fin.is_some()) && self.ghost(i) {
                continue;
            }
            let t = &self.tasks[i];
            if !t.handed {
                chk!(sta.is_none() && fin.is_none(), "P08", "task {:?} was never handed out but its log is {:?}", t.key, names);
                continue;
            }
            let drained = self.drained_expected.contains(&i);
            match (t.done, t.done_uncertain) {
                (Some(st), false) => {
                    chk!(fin.is_some(), "P08", "task {:?} finished with status {} but the log does not say so: {:?}", t.key, st, names);
                    let f = &fin.unwrap()["Finished"];
                    let got = f["status"].as_i64();
                    chk!(got == Some(st as i64), "P08", "task {:?} finished with status {} but was logged with {}", t.key, st, f["status"]);
                    if !t.values.is_empty() && st == 0 {
                        let want = serde_json::to_value(&t.values).unwrap();
                        chk!(f["values"] == want, "P08", "task {:?} reported values {} but was logged with {}", t.key, want, f["values"]);
                        self.stats.hit("values_logged");
                    }
                    if let Some((h, p, j)) = &t.exp_started {
                        let s = &sta.unwrap()["Started"];
                        chk!(s["host"].as_str() == Some(h) && s["pid"].as_u64() == Some(*p as u64) && s["slurm_jobid"].as_str() == Some(j), "P08", "task {:?} started on ({:?}, {}, {:?}) but was logged as {}", t.key, h, p, j, s);
                    }
                }
                (None, false) if drained => {
                    chk!(fin.is_some(), "P08", "task {:?} was running when the run was stopped and was not logged as finished: {:?}", t.key, names);
                    chk!(fin.unwrap()["Finished"]["status"].as_i64() == Some(-1), "P08", "task {:?}, killed by a hard stop, was logged with {}", t.key, fin.unwrap()["Finished"]);
                    self.stats.hit("drained");
                }
                _ => {
                    chk!(hard || t.done_uncertain, "P08", "task {:?} has no certain end", t.key);
                }
            }
        }
        self.stats.hit("log_judged");
        Ok(())
    }

    // ------------------------------------------------------------------------------- result

    /// a local task whose process was killed before it could tell us that it had started
    fn ghost(&mut self, i: usize) -> bool {
        let killing = self.down == Down::Budget || self.down == Down::Hard;
        let t = &self.tasks[i];
        let slots = if t.affinity & 1 != 0 { self.num_parallel } else { 0 } + if t.affinity & 2 != 0 && self.num_parallel > 0 { 1 } else { 0 };
        if !killing || t.handed || !t.in_run || slots == 0 || !self.deps_ok_possible(i) {
            return false;
        }
        let running = self.tasks.iter().filter(|t| t.ghost).count() as u32;
        if running > self.num_parallel as u32 {
            return false;
        }
        self.stats.hit("killed_before_seen");
        let t = &mut self.tasks[i];
        t.ghost = true;
        t.handed = true;
        t.done_uncertain = true;
        true
    }

    fn judge_result(&mut self) -> R<()> {
        let res = self.result.lock().unwrap().clone().unwrap();
        let tag = self.ctx_tag();
        let (nf, list) = match res {
            Ok(x) => x,
            Err(e) => return Err(Fail { tag: tag.into(), msg: format!("execute() failed: {}", e) }),
        };
        self.note(format!("execute() -> {} failed, {:?}", nf, list.len()));
        let hard = self.down == Down::Hard;
        // runners that may have been given up just before it returned, and with them the failure budget
        let now = vtime::now_us();
        let extra = self.txns.values().filter(|t| t.open && t.maybe && t.begun_us.map_or(false, |b| now - b < 5_000_000 + 4 * TOL_US)).count() as u32;
        if !hard && extra > 0 && self.n_fizz.saturating_add(extra) >= self.budget && self.down != Down::Budget {
            self.stats.hit("budget_maybe_exhausted");
            self.down = Down::Budget;
            self.down_us = now;
            self.n_fizz_uncertain = true;
            for t in self.txns.values_mut() {
                if t.open && now - t.handed_us < 5_000_000 + 4 * TOL_US {
                    t.maybe = true;
                }
            }
        }
        let mut uncertain = self.n_fizz_uncertain;
        for k in &list {
            if let Some(&i) = self.by_key.get(k) {
                self.ghost(i);
            }
        }
        // tasks still open when it returned
        let ids: Vec<u32> = self.txns.iter().filter(|(_, t)| t.open && t.session_exec == self.exec_no).map(|(k, _)| *k).collect();
        for id in ids {
            let t = self.txns[&id].clone();
            self.txns.get_mut(&id).unwrap().open = false;
            if hard {
                if t.begun_us.is_some() {
                    self.drained_expected.insert(t.task);
                } else {
                    self.tasks[t.task].done_uncertain = true;
                    uncertain = true;
                }
                continue;
            }
            if t.maybe || t.ending {
                // lost or cancelled
                self.tasks[t.task].done_uncertain = true;
                uncertain = true;
                continue;
            }
            chk!(false, if self.down == Down::No { "P03" } else { tag }, "execute() returned while task {:?}, handed to a runner {} us ago and alive, had not finished", self.tasks[t.task].key, vtime::now_us() - t.handed_us);
        }
        for k in 0..self.agents.len() {
            if !self.agents[k].gone {
                let idx = self.agents[k].idx;
                if hard {
                    self.drained_expected.insert(idx);
                } else if self.down == Down::Budget && self.down_us - self.agents[k].begun_us < 5_000_000 + 2 * TOL_US {
                    self.tasks[idx].done_uncertain = true;
                    uncertain = true;
                } else {
                    chk!(false, tag, "execute() returned while local task {:?} was running", self.tasks[idx].key);
                }
            }
        }
        // nothing may survive
        let t0 = vtime::real();
        for a in &self.agents {
            while alive(a.pid) {
                chk!((vtime::real() - t0).as_millis() < self.hang_ms, "P19", "local task {:?} (pid {}) outlives execute()", self.tasks[a.idx].key, a.pid);
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        if self.prov_pid > 0 {
            while alive(self.prov_pid) {
                chk!((vtime::real() - t0).as_millis() < self.hang_ms, "P19", "the provisioner outlives execute()");
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        let drained: Vec<usize> = self.drained_expected.iter().copied().collect();
        let mut want: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].in_run && (self.tasks[i].done.is_some())).collect();
        want.sort();
        let mut got = vec![];
        for k in &list {
            match self.by_key.get(k) {
                Some(&i) => got.push(i),
                None => return Err(Fail { tag: "P03".into(), msg: format!("execute() returned an unknown key {:?}", k) }),
            }
        }
        // dependencies come first
        for (p, &i) in got.iter().enumerate() {
            chk!(self.tasks[i].in_run, "P03", "execute() lists task {:?}, which was not part of this run", self.tasks[i].key);
            chk!(!got[..p].contains(&i), "P02", "execute() lists task {:?} twice", self.tasks[i].key);
            for &d in &self.tasks[i].deps {
                if self.tasks[d].in_run {
                    chk!(got[..p].contains(&d), "P01", "execute() lists task {:?} before its dependency {:?}", self.tasks[i].key, self.tasks[d].key);
                }
            }
        }
        let hard_racy = hard;
        for &i in &want {
            if !self.tasks[i].done_uncertain && !hard_racy {
                chk!(got.contains(&i), tag, "task {:?} finished with status {:?} but execute() does not list it", self.tasks[i].key, self.tasks[i].done);
            }
        }
        for &i in &got {
            chk!(self.tasks[i].handed, tag, "execute() lists task {:?} as finished though it was never handed out", self.tasks[i].key);
            chk!(self.tasks[i].done.is_some() || self.tasks[i].done_uncertain || drained.contains(&i), tag, "execute() lists task {:?} as finished though it was not", self.tasks[i].key);
        }
        let certain = !uncertain && !self.tasks.iter().any(|t| t.in_run && t.done_uncertain);
        if certain {
            let failed = want.iter().filter(|&&i| self.tasks[i].done != Some(0)).count() + drained.iter().filter(|i| self.tasks[**i].done.is_none()).count();
            chk!(nf as usize == failed, tag, "execute() reports {} failed tasks, really {}", nf, failed);
            if !self.order_uncertain && !hard {
                let fo: Vec<usize> = self.finish_order.clone();
                chk!(got == fo, tag, "execute() lists tasks in order {:?}, they finished in order {:?}", got, fo);
                self.stats.hit("order_exact");
            }
            self.stats.hit("result_exact");
        }
        // without shutdown or exhausted budget everything reachable ran
        if self.down == Down::No && !uncertain {
            for i in 0..self.tasks.len() {
                if self.tasks[i].in_run && self.deps_ok_certain(i) {
                    chk!(self.tasks[i].handed, "P03", "execute() returned without running task {:?}, all of whose dependencies succeeded", self.tasks[i].key);
                }
            }
        }
        // settle the uncertain ones from what was logged, so that later runs can be judged
        let log = self.read_log()?;
        let mut st: HashMap<String, i64> = HashMap::new();
        for v in &log {
            if v.get("Header").is_some() {
                st.clear();
            }
            if let Some(f) = v.get("Finished") {
                st.insert(f["key"].as_str().unwrap().into(), f["status"].as_i64().unwrap());
            }
        }
        for i in 0..self.tasks.len() {
            if self.tasks[i].in_run && self.tasks[i].done_uncertain {
                if let Some(s) = st.get(&self.tasks[i].key) {
                    let s = *s as i32;
                    chk!(s != 0 || self.tasks[i].ok_possible, "P08", "task {:?} was logged as successful though nobody said so", self.tasks[i].key);
                }
            }
        }
        let _ = hard;
        Ok(())
    }

    fn absorb_execute(&mut self) -> R<()> {
        // what later runs build on: the log
        let log = self.read_log()?;
        let mut st: HashMap<String, i64> = HashMap::new();
        let mut ready: BTreeSet<String> = BTreeSet::new();
        for v in &log {
            if let Some(f) = v.get("Finished") {
                st.insert(f["key"].as_str().unwrap().into(), f["status"].as_i64().unwrap());
            }
            if let Some(f) = v.get("Ready") {
                let k = f["key"].as_str().unwrap();
                st.remove(k);
                ready.insert(k.to_string());
            }
        }
        for t in self.tasks.iter_mut() {
            if t.log_failure && ready.contains(&t.key) && !st.contains_key(&t.key) {
                // made ready again but not run to its end: its last outcome is no longer a failure
                t.log_failure = false;
            }
            if t.in_run && t.handed {
                if let Some(s) = st.get(&t.key) {
                    t.session_done = Some(*s == 0);
                }
            }
        }
        Ok(())
    }
}
