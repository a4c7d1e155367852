//! Replays behaviours of the connection-level specifications on the real client.
use {
    crate::{
        bytes::{eval, int},
        mock::{item, MockOpts, MockStream, St},
        val,
    },
    mysql_connector::{
        pool::{AsyncPool, AsyncPoolTrait},
        error::{Error, ProtocolError, RuntimeError},
        types::{AuthPlugin, Column, Value},
        Connection, ConnectionOptions, Stream, TcpStreamOptions,
    },
    serde_json::{json, Value as J},
    std::{
        future::Future,
        pin::pin,
        sync::{Arc, Mutex},
        task::Poll,
        time::Duration,
    },
};

pub enum Ran<T> {
    Done(T),
    Cancelled,
}

pub struct Driver<'a> {
    pub ev: &'a [J],
    pub pos: usize,
    pub st: Arc<Mutex<St>>,
    pub errors: Vec<String>,
    pub elapsed: Duration,
    pub calls: usize,
    /// The transport is a real one: what the client wrote takes a while to arrive.
    pub real: bool,
}

/// What a call returned, in the words of the specification.
pub fn err_json(e: &Error) -> J {
    match e {
        Error::Server(p) => {
            let text = format!("{p:?}");
            json!({"err": "server", "dbg": text})
        }
        Error::Protocol(ProtocolError::OutOfSync) => json!({"err": "oos"}),
        Error::Protocol(ProtocolError::Io(e)) if e.kind() == std::io::ErrorKind::TimedOut => json!({"err": "timeout"}),
        Error::Protocol(ProtocolError::UnknownAuthPlugin(x)) => json!({"err": "unknown_plugin", "dbg": x}),
        Error::Protocol(ProtocolError::Io(e)) => json!({"err": "io", "dbg": format!("{e:?}")}),
        Error::Protocol(e) => json!({"err": "protocol", "dbg": format!("{e:?}").chars().take(300).collect::<String>()}),
        Error::Runtime(RuntimeError::ParameterCountMismatch) => json!({"err": "param"}),
        Error::Runtime(RuntimeError::InsecureAuth) => json!({"err": "insecure"}),
        Error::Runtime(RuntimeError::AuthPluginMismatch(_)) => json!({"err": "mismatch"}),
    }
}

fn err_matches(exp: &J, got: &J) -> bool {
    let (e, g) = (exp["err"].as_str().unwrap(), got["err"].as_str().unwrap());
    match e {
        "any" => true,
        // any error that does not claim to come from the server
        "local" => g != "server",
        "server" => {
            if g != "server" {
                return false;
            }
            let dbg = got["dbg"].as_str().unwrap();
            if !exp["code"].is_null() && !dbg.contains(&format!("code: {},", exp["code"])) {
                return false;
            }
            if !exp["state"].is_null() {
                let s = String::from_utf8(eval(&exp["state"])).unwrap();
                if !dbg.contains(&format!("state: {s:?}")) {
                    return false;
                }
            }
            if !exp["msg"].is_null() {
                let m = String::from_utf8(eval(&exp["msg"])).unwrap();
                if !dbg.contains(&format!("message: {m:?}")) {
                    return false;
                }
            }
            true
        }
        _ => e == g,
    }
}

fn strip_raw(s: &J) -> J {
    let text = s.to_string();
    if text.len() > 600 {
        J::String(format!("{}..", text.chars().take(600).collect::<String>()))
    } else {
        s.clone()
    }
}

impl<'a> Driver<'a> {
    pub fn new(ev: &'a [J], st: Arc<Mutex<St>>) -> Self {
        Self { ev, pos: 0, st, errors: Vec::new(), elapsed: Duration::ZERO, calls: 0, real: false }
    }

    pub fn failed(&self) -> bool {
        !self.errors.is_empty()
    }

    pub fn fail(&mut self, msg: String) {
        self.errors.push(format!("event {}: {msg}", self.pos));
    }

    /// The next call event, if there is one.
    pub fn next_call(&self) -> Option<&'a J> {
        if self.failed() {
            return None;
        }
        let mut p = self.pos;
        while p < self.ev.len() {
            match self.ev[p]["k"].as_str().unwrap() {
                "call" => return Some(&self.ev[p]),
                _ => p += 1,
            }
        }
        None
    }

    /// Starts the call at the current position: loads what the server does during it.
    fn load(&mut self) -> (&'a J, bool) {
        let ev = self.ev;
        let mut st = self.st.lock().unwrap();
        while ev[self.pos]["k"] != "call" {
            // what the server sent between calls
            if let Some(i) = item(&ev[self.pos]) {
                st.items.push_back(i);
            }
            self.pos += 1;
        }
        let mut p = self.pos + 1;
        while p < ev.len() {
            match item(&ev[p]) {
                Some(i) => st.items.push_back(i),
                None => break,
            }
            p += 1;
        }
        st.starved = false;
        self.pos = p;
        let cancelled = ev.get(p).map(|x| x["k"] == "cancel").unwrap_or(false);
        if !cancelled && (p >= ev.len() || ev[p]["k"] != "ret") {
            panic!("HARNESS: call without ret");
        }
        (&ev[p], cancelled)
    }

    pub async fn run<T, F: Future<Output = T>>(&mut self, fut: F) -> (Ran<T>, &'a J) {
        let (end, cancelled) = self.load();
        self.calls += 1;
        let written = {
            let mut st = self.st.lock().unwrap();
            st.last = Some(tokio::time::Instant::now());
            st.bytes_written
        };
        let st = self.st.clone();
        let mut fut = pin!(fut);
        let res = std::future::poll_fn(|cx| match fut.as_mut().poll(cx) {
            Poll::Ready(x) => Poll::Ready(Ran::Done(x)),
            Poll::Pending => {
                let starved = st.lock().unwrap().starved;
                if cancelled && starved {
                    Poll::Ready(Ran::Cancelled)
                } else {
                    Poll::Pending
                }
            }
        })
        .await;
        if self.real {
            for _ in 0..2000 {
                let st = self.st.lock().unwrap();
                if !st.errors.is_empty() || st.leftover().is_none() {
                    break;
                }
                drop(st);
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        let mut st = self.st.lock().unwrap();
        // since the last byte was transferred
        self.elapsed = st.last.unwrap().elapsed();
        let mut errs = std::mem::take(&mut st.errors);
        let exact = !end["lax"].as_bool().unwrap_or(false);
        if end["silent"] == true && st.bytes_written != written {
            errs.push(format!("{} bytes were written into a broken exchange", st.bytes_written - written));
        }
        if errs.is_empty() && exact {
            errs.extend(st.leftover());
        }
        if !exact {
            st.clear();
        }
        drop(st);
        for e in errs {
            self.fail(e);
        }
        if let Some(ms) = end["ms"].as_u64() {
            let got = self.elapsed.as_millis() as u64;
            if got < ms || got > ms + 5 {
                self.fail(format!("the call ended {got} ms after the last transfer instead of {ms} ms"));
            }
        }
        self.pos += 1;
        (res, end)
    }

    fn mismatch(&mut self, call: &J, exp: &J, got: String) {
        let exp = strip_raw(exp);
        self.errors.push(format!("event {}: {} returned {got}, expected {exp}", self.pos - 1, strip_raw(call)));
    }

    /// Compares the result of a call with the expected one. `ok` renders/compares a success.
    pub fn judge<T>(&mut self, call: &J, exp: &J, res: Ran<Result<T, Error>>, ok: impl FnOnce(&T, &J) -> Result<(), String>) -> Option<T> {
        match res {
            Ran::Cancelled => {
                if exp["k"] != "cancel" {
                    panic!("HARNESS: cancelled");
                }
                None
            }
            Ran::Done(res) => {
                if exp["k"] == "cancel" {
                    self.mismatch(call, exp, format!("{:?} instead of waiting", res.as_ref().map(|_| ()).map_err(err_json)));
                    return None;
                }
                match res {
                    Ok(x) => {
                        if !exp["err"].is_null() {
                            let got = match ok(&x, &J::Null) {
                                Err(e) => e,
                                Ok(()) => "success".into(),
                            };
                            self.mismatch(call, exp, got);
                            return Some(x);
                        }
                        if let Err(got) = ok(&x, exp) {
                            self.mismatch(call, exp, got);
                        }
                        Some(x)
                    }
                    Err(e) => {
                        let got = err_json(&e);
                        if exp["err"].is_null() || !err_matches(exp, &got) {
                            self.mismatch(call, exp, got.to_string());
                        }
                        None
                    }
                }
            }
        }
    }
}

pub fn plugin_name(p: AuthPlugin) -> &'static str {
    match p {
        AuthPlugin::Clear => "clear",
        AuthPlugin::Native => "native",
        #[cfg(feature = "caching")]
        AuthPlugin::Sha2 => "sha2",
    }
}

pub fn plugin(s: &str) -> Option<AuthPlugin> {
    match s {
        "clear" => Some(AuthPlugin::Clear),
        "native" => Some(AuthPlugin::Native),
        #[cfg(feature = "caching")]
        "sha2" => Some(AuthPlugin::Sha2),
        "none" => None,
        x => panic!("HARNESS: plugin {x}"),
    }
}

/// Compares the fields the specification gives.
macro_rules! ok_matches {
    ($ok:expr, $exp:expr) => {{
        let (ok, exp): (_, &J) = (&$ok, &$exp);
        let got = json!({
            "ar": ok.affected_rows(), "li": ok.last_insert_id(), "st": ok.status().bits(), "w": ok.warnings(),
            "msg": ok.message(), "ssi": ok.session_state_info(),
        });
        let mut same = true;
        for k in ["ar", "li", "st", "w"] {
            if !exp[k].is_null() && int(&exp[k]) != got[k].as_u64().unwrap() as i128 {
                same = false;
            }
        }
        if let Some(m) = exp.get("msg") {
            let m = String::from_utf8(eval(m)).expect("HARNESS: utf8");
            if ok.message().cloned().unwrap_or_default() != m {
                same = false;
            }
        }
        if exp.is_null() || !same { Err(format!("{got}")) } else { Ok(()) }
    }};
}

pub fn cols_match(cols: &[Column], exp: &J) -> Result<(), String> {
    let got: Vec<J> = cols
        .iter()
        .map(|c| json!({"n": c.name(), "on": c.org_name(), "t": c.table(), "ot": c.org_table(), "ty": c.r#type() as u8, "f": c.flags().bits()}))
        .collect();
    let text = || {
        let s = J::Array(got.clone()).to_string();
        if s.len() > 500 { format!("{}..", s.chars().take(500).collect::<String>()) } else { s }
    };
    let empty = Vec::new();
    let exp = match exp {
        J::Array(a) => a,
        J::Object(o) if o.is_empty() => &empty,
        J::Null => return Err(text()),
        x => panic!("HARNESS: cols {x}"),
    };
    // runs: {"rep": n, "col": {...}}
    let mut i = 0;
    for e in exp {
        let (n, e) = match e["rep"].as_u64() {
            Some(n) => (n as usize, &e["col"]),
            None => (1, e),
        };
        for _ in 0..n {
            let g = match got.get(i) {
                Some(g) => g,
                None => return Err(text()),
            };
            for k in ["n", "on", "t", "ot"] {
                if let Some(x) = e.get(k) {
                    if g[k].as_str().unwrap().as_bytes() != eval(x) {
                        return Err(text());
                    }
                }
            }
            for k in ["ty", "f"] {
                if let Some(x) = e.get(k) {
                    if int(x) != g[k].as_u64().unwrap() as i128 {
                        return Err(text());
                    }
                }
            }
            i += 1;
        }
    }
    if i != got.len() {
        return Err(text());
    }
    Ok(())
}

fn row_matches(row: &Option<Vec<Value>>, exp: &J) -> Result<(), String> {
    let got = match row {
        None => "no row".to_owned(),
        Some(r) => format!("row {}", val::show_row(r)),
    };
    match (row, exp.get("row")) {
        (None, Some(J::String(s))) if s == "none" => Ok(()),
        (Some(r), Some(e)) if !e.is_string() && val::same_row(r, &val::list(e)) => Ok(()),
        _ => Err(got),
    }
}

fn rows_match(rows: &[Vec<Value>], exp: &J) -> Result<(), String> {
    let e: Option<Vec<Vec<Value>>> = match exp.get("rows") {
        Some(J::Array(a)) => Some(a.iter().map(val::list).collect()),
        Some(J::Object(_)) => Some(Vec::new()),
        _ => None,
    };
    match e {
        Some(e) if e.len() == rows.len() && e.iter().zip(rows).all(|(a, b)| val::same_row(a, b)) => Ok(()),
        _ => Err(format!("rows {}", val::show_rows(rows))),
    }
}

/// Calls on a result set. `$rs` is a `ResultSet<_, Vec<Value>>` of either protocol.
macro_rules! rs_scope {
    ($d:expr, $rs:expr) => {{
        let d: &mut Driver<'_> = $d;
        let mut rs = $rs;
        loop {
            let call = match d.next_call() {
                Some(c) => c,
                None => break,
            };
            match call["op"].as_str().unwrap() {
                "next" => {
                    let (r, e) = d.run(rs.next()).await;
                    d.judge(call, e, r, row_matches);
                }
                "one" => {
                    let (r, e) = d.run(rs.one()).await;
                    d.judge(call, e, r, row_matches);
                }
                "collect" => {
                    let (r, e) = d.run(rs.collect()).await;
                    d.judge(call, e, r, |r, e| rows_match(r, e));
                }
                "columns" => {
                    let c: Vec<Column> = rs.columns().to_vec();
                    let (r, e) = d.run(async { Ok(c) }).await;
                    d.judge(call, e, r, |c, e| cols_match(c, &e["cols"]));
                }
                "finish" => {
                    let (r, e) = d.run(rs.finish()).await;
                    d.judge(call, e, r, |o, e| ok_matches!(o, e["ok"]));
                    break;
                }
                "finish_inner" => {
                    let (r, e) = d.run(rs.finish_into_inner()).await;
                    d.judge(call, e, r, |(o, c, m), e| {
                        ok_matches!(o, e["ok"])?;
                        if m.len() != c.len() {
                            return Err("mapping of another length".into());
                        }
                        cols_match(c, &e["cols"])
                    });
                    break;
                }
                "into_inner" => {
                    let (c, _) = rs.into_inner();
                    let (r, e) = d.run(async { Ok(c) }).await;
                    d.judge(call, e, r, |c, e| cols_match(c, &e["cols"]));
                    break;
                }
                "drop_rs" => {
                    drop(rs);
                    let (r, e) = d.run(async { Ok(()) }).await;
                    d.judge(call, e, r, |_, _| Ok(()));
                    break;
                }
                _ => {
                    // the result set is dropped implicitly by a call on something else
                    break;
                }
            }
        }
    }};
}

pub fn text(j: &J) -> String {
    String::from_utf8(eval(j)).expect("HARNESS: text")
}

pub async fn conn_scope(d: &mut Driver<'_>, conn: &mut Connection) -> bool {
    while let Some(call) = d.next_call() {
        match call["op"].as_str().unwrap() {
            "query" => {
                let sql = text(&call["sql"]);
                let (r, e) = d.run(conn.query::<Vec<Value>>(&sql)).await;
                let rs = d.judge(call, e, r, |rs, e| match e.get("cols") {
                    Some(c) => cols_match(rs.columns(), c),
                    None if e.is_null() => Err(format!("a result set of {} columns", rs.columns().len())),
                    None => Ok(()),
                });
                if let Some(rs) = rs {
                    rs_scope!(d, rs);
                }
            }
            "exec" => {
                let sql = text(&call["sql"]);
                let (r, e) = d.run(conn.execute_query(&sql)).await;
                d.judge(call, e, r, |o, e| ok_matches!(o, e["ok"]));
            }
            "cleanup" => {
                let (r, e) = d.run(conn.cleanup()).await;
                d.judge(call, e, r, |o, e| match o {
                    _ if !e["done"].is_null() => Ok(()),
                    None if !e["nothing"].is_null() => Ok(()),
                    None => Err("nothing".into()),
                    Some(o) => ok_matches!(o, e["ok"]),
                });
            }
            "prepare" => {
                let sql = text(&call["sql"]);
                let (r, e) = d.run(conn.prepare_statement(&sql)).await;
                let stmt = d.judge(call, e, r, |_, e| if e.is_null() { Err("a statement".into()) } else { Ok(()) });
                if let Some(mut stmt) = stmt {
                    loop {
                        let call = match d.next_call() {
                            Some(c) => c,
                            None => break,
                        };
                        match call["op"].as_str().unwrap() {
                            "squery" => {
                                let params = val::list(&call["params"]);
                                let (r, e) = d.run(stmt.query::<Value, Vec<Value>>(&params)).await;
                                let rs = d.judge(call, e, r, |rs, e| match e.get("cols") {
                                    Some(c) => cols_match(rs.columns(), c),
                                    None if e.is_null() => Err(format!("a result set of {} columns", rs.columns().len())),
                                    None => Ok(()),
                                });
                                if let Some(rs) = rs {
                                    rs_scope!(d, rs);
                                }
                            }
                            "sexec" => {
                                let params = val::list(&call["params"]);
                                let (r, e) = d.run(stmt.execute(&params)).await;
                                d.judge(call, e, r, |o, e| ok_matches!(o, e["ok"]));
                            }
                            "drop_stmt" => {
                                drop(stmt);
                                let (r, e) = d.run(async { Ok(()) }).await;
                                d.judge(call, e, r, |_, _| Ok(()));
                                break;
                            }
                            _ => break,
                        }
                    }
                }
            }
            "disconnect" | "connect" | "recycle" => return true,
            x => panic!("HARNESS: op {x}"),
        }
    }
    false
}

pub fn options<const S: bool>(o: &J, st: Arc<Mutex<St>>) -> ConnectionOptions<MockStream<S>> {
    options_for(o, MockOpts(Some(st)))
}

fn options_for<T: Stream>(o: &J, connection: T::Options) -> ConnectionOptions<T> {
    let mut opts = ConnectionOptions::<T> { connection, ..Default::default() };
    #[cfg(not(feature = "time"))]
    {
        opts.sleep = Some(&|d| Box::pin(tokio::time::sleep(d)));
    }
    if let Some(x) = o.get("user") {
        opts.user = text(x);
    }
    if let Some(x) = o.get("password") {
        opts.password = text(x);
    }
    if let Some(x) = o.get("db") {
        if x.as_str() != Some("-") {
            opts.db_name = Some(text(x));
        }
    }
    if let Some(x) = o.get("map") {
        let x = int(x);
        if x >= 0 {
            opts.max_allowed_packet = Some(x as usize);
        }
    }
    if let Some(x) = o.get("timeout") {
        opts.timeout = Duration::from_millis(x.as_u64().unwrap());
    }
    // what is not asked for is left as the client has it by default
    if o["clear"] == true {
        opts.allow_cleartext_password = true;
    }
    if let Some(x) = o.get("plugin") {
        opts.auth_plugin = plugin(x.as_str().unwrap());
    }
    #[cfg(feature = "caching")]
    if let Some(x) = o.get("key") {
        if x.as_str() != Some("-") {
            let pem = crate::crypto::pem(x.as_str().unwrap(), "pkcs8");
            opts.server_key = Some(Arc::new(mysql_connector::PublicKey::try_from_pem(&pem).expect("HARNESS: key")));
        }
    }
    opts
}

fn data_matches(conn: &Connection, e: &J) -> Result<(), String> {
    let d = conn.data();
    let v = d.version();
    let got = json!({
        "id": d.id(), "mariadb": d.is_mariadb(), "version": [v.0, v.1, v.2], "caps": d.capabilities().bits(),
        "plugin": plugin_name(d.auth_plugin()), "map": d.max_allowed_packet(),
    });
    if e.is_null() {
        return Err(format!("a connection {got}"));
    }
    let mut same = true;
    if let Some(d) = e.get("data") {
        for k in ["id", "caps", "map"] {
            if let Some(x) = d.get(k) {
                same &= int(x) == got[k].as_u64().unwrap() as i128;
            }
        }
        for k in ["mariadb", "plugin", "version"] {
            if let Some(x) = d.get(k) {
                same &= *x == got[k];
            }
        }
    }
    if same { Ok(()) } else { Err(got.to_string()) }
}

async fn session<T: Stream>(d: &mut Driver<'_>, opts: ConnectionOptions<T>) {
    let opts = Arc::new(opts);
    while let Some(call) = d.next_call() {
        assert!(call["op"] == "connect", "HARNESS: first call is {call}");
        let opts = opts.clone();
        let (r, e) = d.run(Connection::connect(opts)).await;
        let conn = d.judge(call, e, r, |c, e| data_matches(c, e));
        if let Some(mut conn) = conn {
            conn_scope(d, &mut conn).await;
            if let Some(call) = d.next_call() {
                if call["op"] == "disconnect" {
                    let (r, e) = d.run(conn.disconnect()).await;
                    d.judge(call, e, r, |_, _| Ok(()));
                }
            }
        }
    }
}

/// The same with a connection out of a pool of one, which is given back and taken again.
async fn pooled<const S: bool>(d: &mut Driver<'_>, o: &J) {
    let pool = AsyncPool::<Connection, MockStream<S>, 1>::new(Arc::new(options::<S>(o, d.st.clone())));
    while let Some(call) = d.next_call() {
        assert!(call["op"] == "connect" || call["op"] == "recycle", "HARNESS: call {call}");
        let (r, e) = d.run(pool.get()).await;
        let conn = d.judge(call, e, r, |c, e| data_matches(c, e));
        if let Some(mut conn) = conn {
            conn_scope(d, &mut conn).await;
        }
    }
}

/// Replays one behaviour; returns what differs from the specification.
pub fn replay(sc: &J) -> (Vec<String>, usize) {
    let st = Arc::new(Mutex::new(St::new(sc["frag"].as_u64().unwrap_or(0))));
    let ev = sc["ev"].as_array().expect("HARNESS: ev");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut d = Driver::new(ev, st.clone());
    rt.block_on(async {
        match sc["secure"].as_bool().unwrap_or(false) {
            _ if sc["opts"]["pool"] == true => pooled::<false>(&mut d, &sc["opts"]).await,
            true => session(&mut d, options::<true>(&sc["opts"], st)).await,
            false => session(&mut d, options::<false>(&sc["opts"], st)).await,
        }
    });
    (d.errors, d.calls)
}

/// The same with the TCP stream the client brings along: what arrives at a local port is handed on to the script.
pub fn replay_tcp(sc: &J) -> (Vec<String>, usize) {
    let st = Arc::new(Mutex::new(St::new(0)));
    let ev = sc["ev"].as_array().expect("HARNESS: ev");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut d = Driver::new(ev, st.clone());
    d.real = true;
    rt.block_on(async {
        let listener = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.expect("HARNESS: port");
        let port = listener.local_addr().expect("HARNESS: port").port();
        let server = async move {
            loop {
                let mut socket = listener.accept().await.expect("HARNESS: accept").0;
                let mut script = <MockStream<false> as Stream>::connect(&MockOpts(Some(st.clone()))).await.unwrap();
                let mut copy = pin!(tokio::io::copy_bidirectional(&mut socket, &mut script));
                // the script goes on with every call
                while tokio::time::timeout(Duration::from_millis(1), copy.as_mut()).await.is_err() {}
            }
        };
        let mut opts = options_for::<tokio::net::TcpStream>(&sc["opts"], TcpStreamOptions { host: "127.0.0.1".into(), port, nodelay: true });
        opts.timeout = Duration::from_secs(3);
        tokio::select! {
            _ = server => (),
            _ = session(&mut d, opts) => (),
        }
    });
    (d.errors, d.calls)
}
