// second half of the simulator: driving.  (included into sim.rs)

impl<'s> World<'s> {
    fn new(src: &'s mut Src, p: Profile, dir: PathBuf) -> World<'s> {
        let sock = dir.join("a.sock").to_string_lossy().to_string();
        World {
            src,
            p,
            stats: Stats::default(),
            trace: vec![],
            tasks: vec![],
            by_key: HashMap::new(),
            shared: Arc::new(Shared::default()),
            runners: vec![],
            agents: vec![],
            txns: BTreeMap::new(),
            pend: vec![],
            next_req: 0,
            seq: 1,
            down: Down::No,
            down_us: 0,
            down_certain: false,
            budget: u32::MAX,
            n_fizz: 0,
            n_fizz_uncertain: false,
            num_parallel: 0,
            rate: 0,
            rate_since_us: 0,
            exec_us: 0,
            raw: vec![],
            rate_uncertain: false,
            cancelled: BTreeSet::new(),
            maybe_cancelled: BTreeSet::new(),
            url: None,
            token: String::new(),
            prov_pid: 0,
            info: None,
            result: Arc::new(Mutex::new(None)),
            finish_order: vec![],
            order_uncertain: false,
            ready_events: vec![],
            last_etag: None,
            runtimes: vec![],
            runtimes_fuzzy: false,
            dir,
            sock,
            hostname: String::new(),
            exec_no: 0,
            session_no: 0,
            hash: 0xcbf29ce484222325,
            sigint: false,
            prov_exit: false,
            disconnect_msgs: vec![],
            saw_bad: false,
            saw_dup: false,
            saw_loss: false,
            early_drop: false,
            prio_checks: vec![],
            slot_freed: [None, None],
            grants: vec![],
            starts_sent: 0,
            session_started: BTreeSet::new(),
            hang_ms: 15_000,
            drained_expected: BTreeSet::new(),
        }
    }

    fn gen_tasks(&mut self) {
        let n = 1 + self.src.below(self.p.max_tasks);
        let locals = self.num_parallel > 0;
        let shape = self.src.below(4);
        for i in 0..n as usize {
            let mut deps: Vec<usize> = vec![];
            if i > 0 {
                match shape {
                    0 => {
                        let k = self.src.below(3).min(i as u64);
                        for _ in 0..k {
                            deps.push(self.src.below(i as u64) as usize);
                        }
                    }
                    1 => {
                        if self.src.pct(75) {
                            deps.push(i - 1);
                        }
                        if self.src.pct(20) {
                            deps.push(self.src.below(i as u64) as usize);
                        }
                    }
                    2 => {
                        // layers
                        let lo = i.saturating_sub(4);
                        for d in lo..i {
                            if self.src.pct(35) {
                                deps.push(d);
                            }
                        }
                    }
                    _ => {
                        if self.src.pct(30) {
                            deps.push(self.src.below(i as u64) as usize);
                        }
                    }
                }
                // the API accepts the same dependency twice
                if !deps.is_empty() && self.src.pct(6) {
                    deps.push(deps[0]);
                }
            }
            const QS: &[u32] = &[2, 3, 5, 63];
            let mut aff: u64 = 0;
            if locals && self.src.pct(60) {
                aff |= match self.src.below(5) { 0 | 1 | 2 => 1, 3 => 2, _ => 3 };
            }
            if aff == 0 || self.src.pct(self.p.multi_affinity_pct) {
                aff |= 1u64 << *self.src.pick(QS);
                while self.src.pct(self.p.multi_affinity_pct / 2) {
                    aff |= 1u64 << *self.src.pick(QS);
                }
            }
            let key = if self.src.pct(12) { format!("k{} {}", i, self.src.string(6)) } else { format!("k{}", i) };
            let mut argv = vec![format!("{}/agent", self.dir.parent().unwrap().to_string_lossy()), self.sock.clone(), i.to_string()];
            if self.src.pct(25) {
                for _ in 0..1 + self.src.below(3) {
                    let big = self.src_pct_big();
                    let s = self.src.string(if big { 200 } else { 12 }).replace('\0', "");
                    argv.push(s);
                }
            }
            let local = aff & 3 != 0;
            let fd_input = if self.src.pct(20) {
                let n = if local { 40 } else { 300 };
                Some((if local { 4 } else { self.src.range(4, 40) as i32 }, self.src.bytes(n)))
            } else {
                None
            };
            let display = if self.src.pct(30) { Some(self.src.string(10)) } else { None };
            let t = Task {
                key: key.clone(),
                deps,
                affinity: aff,
                argv,
                fd_input,
                display,
                storage_root: self.src.below(2) as u32,
                prio: 0,
                runcount: 0,
                runcount_offset: 0,
                session_done: None,
                log_success: false,
                log_failure: false,
                ever_started: false,
                in_run: false,
                ready_seq: None,
                handed: false,
                ok_possible: false,
                done: None,
                done_uncertain: false,
                ghost: false,
                exp_started: None,
                values: vec![],
                local: false,
            };
            self.by_key.insert(key, i);
            self.tasks.push(t);
        }
        let lv = tlevels(&self.tasks);
        for (t, l) in self.tasks.iter_mut().zip(lv) {
            t.prio = l;
        }
        let d: Vec<(Vec<usize>, u64)> = self.tasks.iter().map(|t| (t.deps.clone(), t.affinity)).collect();
        self.note(format!("tasks (deps, affinity): {:?} num_parallel={}", d, self.num_parallel));
    }
    fn src_pct_big(&mut self) -> bool {
        self.src.pct(10)
    }

    fn gen_runners(&mut self) {
        let n = 1 + self.src.below(self.p.max_runners);
        self.runners.clear();
        for i in 0..n {
            // mostly queues some task can use
            let queue = if self.src.pct(6) {
                *self.src.pick(&[64u32, 7, 100, u32::MAX])
            } else {
                let t = self.src.below(self.tasks.len() as u64) as usize;
                let bits: Vec<u32> = (0..64).filter(|b| (self.tasks[t].affinity >> b) & 1 == 1).collect();
                *self.src.pick(&bits)
            };
            let jobid = if i > 0 && self.src.pct(20) { self.runners[0].jobid.clone() } else { format!("{}_{}", 100 + i, self.src.below(3)) };
            let json = self.src.pct(25);
            let dmsg = if self.src.pct(70) { format!("lost<{}>\n", i) } else { String::new() };
            self.runners.push(Runner { queue, jobid, conn: None, start_out: false, json, dmsg });
        }
        let d: Vec<(u32, String)> = self.runners.iter().map(|r| (r.queue, r.jobid.clone())).collect();
        self.note(format!("runners (queue, job): {:?}", d));
    }

    // ------------------------------------------------------------------------------- requests

    fn addr(&self) -> String {
        self.url.as_ref().unwrap().trim_start_matches("http://").replace("0.0.0.0", "127.0.0.1")
    }

    async fn send(&mut self, kind: Kind, via: Option<usize>, req: Request<Body>, jobid: String) {
        let id = self.next_req;
        self.next_req += 1;
        let shared = self.shared.clone();
        let what = format!("{} {}", req.method(), req.uri().path());
        let addr = self.addr();
        let sent_us = vtime::now_us();
        let mut abort = None;
        match via {
            Some(r) => {
                // one HTTP/2 connection per runner, as reqwest with prior knowledge keeps it
                let mut conn = self.runners[r].conn.take();
                let mut ok = false;
                if let Some(c) = conn.as_mut() {
                    ok = futures::future::poll_fn(|cx| c.poll_ready(cx)).await.is_ok();
                }
                if !ok {
                    conn = None;
                    if let Ok(s) = tokio::net::TcpStream::connect(&addr).await {
                        let _ = s.set_nodelay(true);
                        if let Ok((c, h)) = hyper::client::conn::Builder::new().http2_only(true).handshake::<_, Body>(s).await {
                            tokio::spawn(async move {
                                let _ = h.await;
                            });
                            conn = Some(c);
                        }
                    }
                    if let Some(c) = conn.as_mut() {
                        let _ = futures::future::poll_fn(|cx| c.poll_ready(cx)).await;
                    }
                }
                match conn.as_mut() {
                    Some(c) => {
                        let f = c.send_request(req);
                        let h = tokio::spawn(async move {
                            let res = match f.await {
                                Ok(r) => {
                                    let (p, b) = r.into_parts();
                                    read_all(b).await.map(|b| (p.status.as_u16(), p.headers, b))
                                }
                                Err(e) => Err(e.to_string()),
                            };
                            shared.push(Ev::Resp { id, res, at_us: vtime::now_us() });
                        });
                        abort = Some(h.abort_handle());
                    }
                    None => shared.push(Ev::Resp { id, res: Err("cannot connect".into()), at_us: vtime::now_us() }),
                }
                self.runners[r].conn = conn;
            }
            None => {
                let unix = match &kind {
                    Kind::Rate { .. } | Kind::Info { .. } | Kind::Soft | Kind::Hard => true,
                    _ => false,
                };
                let path = format!("/run/user/{}/wrk-{}.sock", unsafe { libc::getuid() }, std::process::id());
                let h = tokio::spawn(async move {
                    async fn go<S: tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin + Send + 'static>(s: S, req: Request<Body>) -> Result<(u16, hyper::HeaderMap, Vec<u8>), String> {
                        let (mut c, h) = hyper::client::conn::Builder::new().handshake::<_, Body>(s).await.map_err(|e| e.to_string())?;
                        tokio::spawn(async move {
                            let _ = h.await;
                        });
                        let r = c.send_request(req).await.map_err(|e| e.to_string())?;
                        let (p, b) = r.into_parts();
                        let b = read_all(b).await?;
                        Ok((p.status.as_u16(), p.headers, b))
                    }
                    let res = if unix {
                        match tokio::net::UnixStream::connect(&path).await {
                            Ok(s) => go(s, req).await,
                            Err(e) => Err(format!("admin socket: {}", e)),
                        }
                    } else {
                        match tokio::net::TcpStream::connect(&addr).await {
                            Ok(s) => go(s, req).await,
                            Err(e) => Err(e.to_string()),
                        }
                    };
                    shared.push(Ev::Resp { id, res, at_us: vtime::now_us() });
                });
                abort = Some(h.abort_handle());
            }
        }
        if std::env::var("XG_TRACE").is_ok() {
            eprintln!("[{:>10}] #{} sent: {}", sent_us / 1000 % 10_000_000, id, what);
        }
        self.pend.push(Pending { id, kind, sent_us, sent_seq: self.seq, jobid, abort, applied: false });
    }

    fn request<T: Serialize>(&mut self, method: &str, path: &str, body: &T, json: bool, h2: bool, jobid: Option<&str>) -> Request<Body> {
        let lz4 = self.src.pct(25);
        let (b, ct, lz) = encode(body, json, lz4);
        let uri = if h2 { format!("http://{}{}", self.addr(), path) } else { path.to_string() };
        let mut rb = Request::builder()
            .method(method)
            .uri(uri)
            .header("content-type", ct)
            .header("authorization", format!("Bearer {}", self.token));
        if !h2 {
            rb = rb.header("host", "localhost");
        }
        if lz {
            rb = rb.header("content-encoding", "lz4");
        }
        if let Some(j) = jobid {
            rb = rb.header("X-EXECGRAPH-SLURM-JOB-ID", j);
        }
        rb.body(Body::from(b)).unwrap()
    }

    async fn do_start(&mut self, r: usize) {
        let (q, j, json, d) = { let x = &self.runners[r]; (x.queue, x.jobid.clone(), x.json, x.dmsg.clone()) };
        let req = self.request("GET", "/start", &StartRequest { runnertypeid: q, disconnect_error_message: d }, json, true, Some(&j));
        self.runners[r].start_out = true;
        self.starts_sent += 1;
        self.send(Kind::Start { runner: r, runnertype: q }, Some(r), req, j).await;
    }

    async fn do_begun(&mut self, tx: u32) {
        let (r, j, had) = { let t = &self.txns[&tx]; (t.runner, t.jobid.clone(), t.begun.is_some()) };
        let host = if self.src.pct(15) { self.src.string(6) } else { format!("node{}", self.src.below(3)) };
        let pid = self.src.below(70000) as u32;
        let json = self.runners[r].json;
        if !had {
            self.txns.get_mut(&tx).unwrap().begun = Some((host.clone(), pid, j.clone()));
        }
        let req = self.request("POST", "/begun", &BegunRequest { transaction_id: tx, host, pid }, json, true, Some(&j));
        self.send(Kind::Begun { tx }, Some(r), req, j).await;
    }

    fn gen_status(&mut self) -> i32 {
        if self.src.pct(self.p.fail_pct) {
            *self.src.pick(&[1, 2, 127, 255, -9, -15, 13, -1, -10, i32::MIN, i32::MAX])
        } else {
            0
        }
    }

    async fn do_end(&mut self, tx: u32, status: i32, chain: bool) {
        let (r, j, i) = { let t = &self.txns[&tx]; (t.runner, t.jobid.clone(), t.task) };
        let json = self.runners[r].json;
        let mut values = vec![];
        if self.src.pct(30) {
            for _ in 0..self.src.below(3) {
                let mut m = HashMap::new();
                for _ in 0..self.src.below(3) {
                    let k = self.src.string(4);
                    let v = self.src.string(6);
                    m.insert(k, v);
                }
                values.push(m);
            }
        }
        let stdout = if self.src.pct(20) { self.src.string(8) } else { String::new() };
        self.tasks[i].values = values.clone();
        if status == 0 {
            self.tasks[i].ok_possible = true;
        }
        self.txns.get_mut(&tx).unwrap().ending = true;
        let sr = if chain { Some(StartRequest { runnertypeid: self.runners[r].queue, disconnect_error_message: self.runners[r].dmsg.clone() }) } else { None };
        if chain {
            self.runners[r].start_out = true;
            self.starts_sent += 1;
        }
        let req = self.request("POST", "/end", &EndRequest { transaction_id: tx, status, stdout, stderr: String::new(), values, start_request: sr }, json, true, Some(&j));
        self.send(Kind::End { tx, status, chain: if chain { Some(r) } else { None } }, Some(r), req, j).await;
    }

    async fn do_ping(&mut self, tx: u32) {
        let (r, j) = { let t = &self.txns[&tx]; (t.runner, t.jobid.clone()) };
        let json = self.runners[r].json;
        let req = self.request("POST", "/ping", &Ping { transaction_id: tx }, json, true, Some(&j));
        self.send(Kind::Ping { tx }, Some(r), req, j).await;
    }

    async fn do_status(&mut self, etag: u64, tmin: u64, tout: u64) {
        let known_cur = match self.last_etag {
            Some((e, n)) if n == self.ready_events.len() && !self.any_maybe() && self.down == Down::No => Some(e),
            _ => None,
        };
        let none = etag == 0 && tmin == 0 && tout == 0 && self.src.pct(50);
        let req = if none {
            Request::builder().method("GET").uri("/status").header("host", "localhost").body(Body::empty()).unwrap()
        } else {
            let mut r = self.request("GET", "/status", &StatusRequest { etag, timemin_ms: tmin, timeout_ms: tout }, true, false, None);
            // /status takes plain JSON only
            let b = serde_json::to_vec(&StatusRequest { etag, timemin_ms: tmin, timeout_ms: tout }).unwrap();
            r.headers_mut().remove("content-encoding");
            *r.body_mut() = Body::from(b);
            r
        };
        self.send(Kind::Status { etag, tmin, tout, known_cur }, None, req, String::new()).await;
    }

    fn plain_json<T: Serialize>(&mut self, method: &str, path: &str, v: &T) -> Request<Body> {
        Request::builder()
            .method(method)
            .uri(path)
            .header("host", "localhost")
            .header("content-type", "application/json")
            .header("authorization", format!("Bearer {}", self.token))
            .body(Body::from(serde_json::to_vec(v).unwrap()))
            .unwrap()
    }

    /// a client that connects and then sends nothing, or only part of a request
    async fn do_silent(&mut self) {
        let what: &[u8] = match self.src.below(5) {
            0 => b"",
            1 => b"GET /sta",
            2 => b"POST /end HTTP/1.1\r\nhost: x\r\ncontent-length: 100\r\n",
            3 => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
            _ => b"\x16\x03\x01 garbage\r\n\r\n",
        };
        self.note(format!("a client connects and sends {:?}", String::from_utf8_lossy(what)));
        self.stats.hit("silent_client");
        if let Ok(mut s) = tokio::net::TcpStream::connect(&self.addr()).await {
            let _ = s.write_all(what).await;
            self.raw.push(s);
        }
        self.settle().await;
    }

    async fn do_bad(&mut self) {
        self.saw_bad = true;
        self.stats.hit("bad_request");
        if self.src.pct(2) {
            return self.do_silent().await;
        }
        const C4: &[u16] = &[400, 401, 403, 404, 405, 411, 413, 415, 422];
        let open: Vec<u32> = self.txns.iter().filter(|(_, t)| t.open && !t.maybe && !t.ending).map(|(k, _)| *k).collect();
        let real_tx = if !open.is_empty() && self.src.pct(80) { Some(*self.src.pick(&open)) } else { None };
        let tx = match real_tx { Some(t) => t, None => self.src.below(1 << 32) as u32 };
        let jobid = match real_tx { Some(t) => self.txns[&t].jobid.clone(), None => "9_9".to_string() };
        if real_tx.is_some() {
            self.stats.hit("bad_request_on_open_txn");
        }
        let (path, method) = *self.src.pick(&[("/end", "POST"), ("/start", "GET"), ("/begun", "POST"), ("/ping", "POST"), ("/mark-slurm-job-cancelation", "POST")]);
        let queue = self.runners[0].queue;
        let body: Vec<u8> = match path {
            "/start" => serde_json::to_vec(&StartRequest { runnertypeid: queue, disconnect_error_message: String::new() }).unwrap(),
            "/begun" => serde_json::to_vec(&BegunRequest { transaction_id: tx, host: "evil".into(), pid: 666 }).unwrap(),
            "/ping" => serde_json::to_vec(&Ping { transaction_id: tx }).unwrap(),
            "/end" => serde_json::to_vec(&EndRequest { transaction_id: tx, status: 0, stdout: "evil".into(), stderr: String::new(), values: vec![], start_request: None }).unwrap(),
            _ => serde_json::to_vec(&MarkSlurmJobCancelationRequest { jobids: self.runners.iter().map(|r| r.jobid.clone()).collect() }).unwrap(),
        };
        let mut rb = Request::builder().header("host", "localhost");
        let good = format!("Bearer {}", self.token);
        let variant = self.src.below(14);
        let (what, path, method, auth, ct, ce, job, body, expect): (&'static str, &str, &str, Option<String>, Option<&str>, Option<&str>, bool, Vec<u8>, Vec<u16>) = match variant {
            0 | 1 => ("wrong token", path, method, Some("Bearer AAAA".to_string()), Some("application/json"), None, true, body, C4.to_vec()),
            2 => ("no token", path, method, None, Some("application/json"), None, true, body, C4.to_vec()),
            3 => ("truncated token", path, method, Some(good[..good.len() - 1 - self.src.below(5) as usize].to_string()), Some("application/json"), None, true, body, C4.to_vec()),
            4 => ("wrong auth scheme", path, method, Some("Basic Zm9vOmJhcg==".to_string()), Some("application/json"), None, true, body, C4.to_vec()),
            5 | 6 => {
                if path == "/ping" || path.starts_with("/mark") {
                    ("no such path", "/nope", method, Some(good), Some("application/json"), None, true, body, C4.to_vec())
                } else {
                    ("no job id", path, method, Some(good), Some("application/json"), None, false, body, C4.to_vec())
                }
            }
            7 => {
                let mut b = body.clone();
                b.truncate(b.len() - 1 - self.src.below(3) as usize);
                ("truncated body", path, method, Some(good), Some("application/json"), None, true, b, C4.to_vec())
            }
            8 => {
                let b = self.src.bytes(40);
                // random bytes as lz4: never a valid frame
                ("garbage lz4", if path.starts_with("/mark") { "/end" } else { path }, if path == "/start" { "GET" } else { "POST" }, Some(good), Some("application/postcard"), Some("lz4"), true, b, C4.to_vec())
            }
            9 => ("unknown content type", if path.starts_with("/mark") { "/ping" } else { path }, if path == "/start" { "GET" } else { "POST" }, Some(good), Some("text/plain"), None, true, body, C4.to_vec()),
            10 => ("no content type", if path.starts_with("/mark") { "/ping" } else { path }, if path == "/start" { "GET" } else { "POST" }, Some(good), None, None, true, body, C4.to_vec()),
            11 => ("unknown encoding", if path.starts_with("/mark") { "/ping" } else { path }, if path == "/start" { "GET" } else { "POST" }, Some(good), Some("application/json"), Some("gzip"), true, body, C4.to_vec()),
            12 => ("wrong method", path, if method == "GET" { "PUT" } else { "DELETE" }, Some(good), Some("application/json"), None, true, body, C4.to_vec()),
            _ => {
                // a different slurm job tries to end someone's task
                if real_tx.is_some() {
                    self.stats.hit("foreign_end");
                }
                let b = serde_json::to_vec(&EndRequest { transaction_id: tx, status: 0, stdout: "evil".into(), stderr: String::new(), values: vec![], start_request: None }).unwrap();
                rb = rb.header("X-EXECGRAPH-SLURM-JOB-ID", "666_6");
                ("end from another job", "/end", "POST", Some(good), Some("application/json"), None, false, b, C4.to_vec())
            }
        };
        rb = rb.method(method).uri(path);
        if let Some(a) = auth {
            rb = rb.header("authorization", a);
        }
        if let Some(c) = ct {
            rb = rb.header("content-type", c);
        }
        if let Some(c) = ce {
            rb = rb.header("content-encoding", c);
        }
        if job {
            rb = rb.header("X-EXECGRAPH-SLURM-JOB-ID", jobid);
        }
        self.note(format!("bad request: {} {} ({})", method, path, what));
        let req = rb.body(Body::from(body)).unwrap();
        self.send(Kind::Bad { what, expect }, None, req, String::new()).await;
    }

    async fn finish_agent(&mut self, k: usize, code: i32, sig: bool) -> R<()> {
        let idx = self.agents[k].idx;
        let el = vtime::now_us() - self.agents[k].begun_us;
        if (code != 0 || sig) && (el - 5_000_000).abs() < 3 * TOL_US {
            self.advance(400_000).await?;
            if self.exec_done() || self.agents[k].gone {
                return Ok(());
            }
        }
        let status = if sig { -code } else { code };
        self.note(format!("local task {} told to end with {}", idx, status));
        self.agents[k].told = Some(status);
        if status == 0 {
            self.tasks[idx].ok_possible = true;
        }
        let line = format!("{}{}\n", if sig { "s" } else { "e" }, code);
        if let Some(s) = self.agents[k].stream.as_mut() {
            let _ = s.write_all(line.as_bytes()).await;
        }
        self.await_gone(k).await;
        let console = self.agents[k].console;
        if self.slots_used(console) == if console { 1 } else { self.num_parallel as usize } {
            self.slot_freed[console as usize] = Some(self.seq);
        } else {
            self.slot_freed[console as usize] = None;
        }
        self.agents[k].gone = true;
        self.agents[k].stream = None;
        let at = vtime::now_us();
        if status == 0 {
            self.runtimes.push((at - self.agents[k].begun_us) as f64 / 1e6);
        }
        let b = self.agents[k].begun_us;
        self.finish_task(idx, status, true);
        self.fizzle_check(Some(b), at, status);
        self.recompute_ready();
        Ok(())
    }

    async fn await_gone(&mut self, k: usize) {
        let pid = self.agents[k].pid;
        let t0 = vtime::real();
        // a zombie still counts as there: the process is gone once its parent has collected it
        while unsafe { libc::kill(pid, 0) } == 0 && (vtime::real() - t0).as_secs() < 20 {
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        self.settle().await;
    }

    // budget exhausted: young local tasks are killed
    async fn reap_cancelled_agents(&mut self) -> R<()> {
        if self.down != Down::Budget {
            return Ok(());
        }
        for k in 0..self.agents.len() {
            if self.agents[k].gone {
                continue;
            }
            let age = self.down_us - self.agents[k].begun_us;
            if age < 5_000_000 - 2 * TOL_US {
                let t0 = vtime::real();
                let pid = self.agents[k].pid;
                while unsafe { libc::kill(pid, 0) } == 0 && (vtime::real() - t0).as_millis() < self.hang_ms {
                    self.settle().await;
                    std::thread::sleep(std::time::Duration::from_micros(100));
                }
                chk!(unsafe { libc::kill(pid, 0) } != 0, "P04", "local task {:?} started {} us before the failure budget was exhausted is still running", self.tasks[self.agents[k].idx].key, age);
                self.agents[k].gone = true;
                self.agents[k].stream = None;
                let idx = self.agents[k].idx;
                self.stats.hit("cancelled_by_budget");
                self.finish_task(idx, -10, false);
            } else if age < 5_000_000 + 2 * TOL_US {
                self.n_fizz_uncertain = true;
                self.early_drop = true;
            }
        }
        Ok(())
    }
}
