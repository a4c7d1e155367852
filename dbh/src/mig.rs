//! Replays behaviours of Migrator.tla on the real migrator, against a server in memory.
mod db;
mod run;
mod sql;

use {
    db::{Backend, ColDef, DbOpts, DbStream, Reply},
    mysql_connector::{
        error::{ProtocolError, RuntimeError},
        pool::{AsyncPool, AsyncPoolTrait, PoolItem},
        simple_migration, Connection, ConnectionOptions, Error, Migration, MigrationList, Migrator, Version,
    },
    serde_json::Value as J,
    sql::{Stmt, Tok, Val},
    std::{
        cell::RefCell,
        collections::{HashMap, VecDeque},
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        time::Duration,
    },
};

type M = (usize, usize);
type Key = (u16, u16, u16, Vec<u8>);

struct Ev {
    e: String,
    m: M,
    o: String,
}

struct Server {
    /// What must happen next, and what comes of it
    queue: VecDeque<Ev>,
    keys: HashMap<Key, M>,
    names: HashMap<&'static str, M>,
    recs: Vec<Key>,
    tbl: bool,
    other: bool,
    errors: Vec<String>,
    stalled: bool,
    now: Option<String>,
}

impl Server {
    /// What comes of this.
    fn event(&mut self, e: &str, m: M) -> String {
        if let Some(x) = self.queue.front() {
            if x.e == e && x.m == m && x.o != "noget" {
                return self.queue.pop_front().unwrap().o;
            }
        }
        if e != "look" && e != "read" {
            let x = self.queue.front().map(|x| format!("{} {:?} {}", x.e, x.m, x.o));
            self.errors.push(format!("'{e}' of {m:?} where {} is due", x.as_deref().unwrap_or("nothing")));
        }
        "ok".into()
    }
    fn key(&self, row: &[(String, Val)]) -> Option<Key> {
        let get = |n: &str| row.iter().find(|x| x.0.eq_ignore_ascii_case(n)).map(|x| &x.1);
        let num = |n: &str| match get(n) {
            Some(Val::Int(i)) if (0..65536).contains(i) => Some(*i as u16),
            _ => None,
        };
        let name = match get("name") {
            Some(Val::Bytes(b)) if b.len() <= 255 => b.clone(),
            _ => return None,
        };
        Some((num("version_0")?, num("version_1")?, num("version_2")?, name))
    }
    fn matches(k: &Key, conds: &[(sql::ColRef, Val)]) -> Option<bool> {
        let mut all = true;
        for (c, v) in conds {
            let (i, n) = match (c.name.to_lowercase().as_str(), v) {
                ("version_0", Val::Int(x)) => (k.0 as i128, *x),
                ("version_1", Val::Int(x)) => (k.1 as i128, *x),
                ("version_2", Val::Int(x)) => (k.2 as i128, *x),
                ("name", Val::Bytes(b)) => ((*b == k.3) as i128, 1),
                _ => return None,
            };
            all &= i == n;
        }
        Some(all)
    }
    /// Lets something happen, or not, and answers.
    fn outcome(&mut self, o: &str, act: impl FnOnce(&mut Self) -> Reply) -> Reply {
        let made = matches!(o, "ok" | "late" | "losta" | "tmoa" | "cana");
        let r = if made { act(self) } else { Reply::Ok { affected: 0, id: 0 } };
        match o {
            "ok" => r,
            "late" => {
                self.now = Some("late".into());
                r
            }
            "err" => Reply::Err(3333, "no".into()),
            "fail" => {
                self.now = Some("late".into());
                r
            }
            "losta" | "lostb" => Reply::Reset,
            "tmoa" | "tmob" => Reply::Stall,
            "cana" | "canb" | "can" => {
                self.stalled = true;
                Reply::Stall
            }
            x => panic!("HARNESS: outcome {x}"),
        }
    }
    fn rec_of(&self, k: &Key) -> M {
        self.keys.get(k).copied().unwrap_or((0, 0))
    }
}

fn missing() -> Reply {
    Reply::Err(1146, "Table 'db.migrations' doesn't exist".into())
}

impl Backend for Server {
    fn bad(&mut self, what: String) {
        self.errors.push(what);
    }
    fn exec(&mut self, text: &str, st: Stmt) -> Reply {
        match st {
            Stmt::Other(w, rest) if w == "up" || w == "down" => {
                let m = match &rest[..] {
                    [Tok::Word(n)] => *self.names.get(n.as_str()).expect("HARNESS: name"),
                    [Tok::Num(a), Tok::Num(b)] => (a.parse().unwrap(), b.parse().unwrap()),
                    _ => panic!("HARNESS: step {text}"),
                };
                let o = self.event(&w, m);
                self.outcome(&o, |_| Reply::Ok { affected: 0, id: 0 })
            }
            Stmt::Insert { table, rows } if table == "migrations" => {
                if rows.len() != 1 {
                    self.errors.push(format!("{} records at once", rows.len()));
                }
                let k = match self.key(&rows[0]) {
                    Some(k) => k,
                    None => {
                        self.errors.push(format!("no record: {text}"));
                        return Reply::Err(1366, "Incorrect value".into());
                    }
                };
                let o = self.event("ins", self.rec_of(&k));
                self.outcome(&o, |s| {
                    if !s.tbl {
                        return missing();
                    }
                    if s.recs.contains(&k) {
                        return Reply::Err(1062, "Duplicate entry".into());
                    }
                    s.recs.push(k);
                    Reply::Ok { affected: 1, id: 0 }
                })
            }
            Stmt::Delete { table, conds } if table == "migrations" => {
                let mut hit = vec![];
                for k in &self.recs {
                    match Self::matches(k, &conds) {
                        Some(true) => hit.push(k.clone()),
                        Some(false) => (),
                        None => {
                            self.errors.push(format!("condition of {text}"));
                            break;
                        }
                    }
                }
                if hit.len() > 1 {
                    self.errors.push(format!("{} records removed at once: {text}", hit.len()));
                }
                let o = self.event("del", hit.first().map(|k| self.rec_of(k)).unwrap_or((0, 0)));
                self.outcome(&o, |s| {
                    s.recs.retain(|k| !hit.contains(k));
                    Reply::Ok { affected: hit.len() as u64, id: 0 }
                })
            }
            Stmt::Create { table, lenient, columns, .. } if table == "migrations" => {
                if self.tbl {
                    return if lenient { Reply::Ok { affected: 0, id: 0 } } else { Reply::Err(1050, "Table 'migrations' already exists".into()) };
                }
                for c in ["version_0", "version_1", "version_2", "name"] {
                    if !columns.iter().any(|x| x.eq_ignore_ascii_case(c)) {
                        self.errors.push(format!("the table has no column {c}"));
                    }
                }
                let o = self.event("create", (0, 0));
                self.outcome(&o, |s| {
                    s.tbl = true;
                    Reply::Ok { affected: 0, id: 0 }
                })
            }
            Stmt::Select { from: Some((Some(schema), _, _)), conds, limit, .. } if schema.eq_ignore_ascii_case("information_schema") => {
                let o = self.event("look", (0, 0));
                self.outcome(&o, |s| {
                    let mut tables = vec![("db", "user"), ("elsewhere", "address")];
                    if s.tbl {
                        tables.push(("db", "migrations"));
                    }
                    if s.other {
                        tables.push(("elsewhere", "migrations"));
                    }
                    let mut rows = vec![];
                    for (d, t) in tables {
                        let mut all = true;
                        for (c, v) in &conds {
                            let x = match c.name.to_lowercase().as_str() {
                                "table_name" => t,
                                "table_schema" => d,
                                _ => {
                                    s.errors.push(format!("condition of {text}"));
                                    ""
                                }
                            };
                            all &= match v {
                                Val::Bytes(b) => x.as_bytes() == &b[..],
                                Val::Call(f) if f == "database" || f == "schema" => x == "db",
                                _ => false,
                            };
                        }
                        if all {
                            rows.push(vec![Some(b"1".to_vec())]);
                        }
                    }
                    rows.truncate(limit);
                    let c = ColDef { table: String::new(), org_table: String::new(), name: "1".into(), org_name: String::new(), ty: db::T_LONG, flags: 0 };
                    Reply::Rows { cols: vec![c], rows }
                })
            }
            Stmt::Select { from: Some((None, table, alias)), items, conds, order, limit, .. } if table == "migrations" => {
                let o = self.event("read", (0, 0));
                self.outcome(&o, |s| {
                    if !s.tbl {
                        return missing();
                    }
                    let all = ["version_0", "version_1", "version_2", "name", "applied_at"];
                    let mut names: Vec<String> = vec![];
                    for i in items {
                        match i {
                            Val::Call(x) if x == "*" => names.extend(all.iter().map(|x| x.to_string())),
                            Val::Col(c) if all.contains(&c.name.to_lowercase().as_str()) => names.push(c.name.to_lowercase()),
                            x => s.errors.push(format!("cannot select {x:?}")),
                        }
                    }
                    let cols = names
                        .iter()
                        .map(|n| ColDef {
                            table: alias.clone(),
                            org_table: table.clone(),
                            name: n.clone(),
                            org_name: n.clone(),
                            ty: if n.starts_with('v') { db::T_LONG } else { db::T_STRING },
                            flags: if n.starts_with('v') { db::F_UNSIGNED } else { 0 },
                        })
                        .map(|mut c| {
                            // smallint
                            if c.ty == db::T_LONG {
                                c.ty = 2;
                            }
                            c
                        })
                        .collect();
                    let mut rows = vec![];
                    let mut recs = s.recs.clone();
                    for (c, down) in order.iter().rev() {
                        recs.sort_by(|a, b| {
                            let o = match c.to_lowercase().as_str() {
                                "version_0" => a.0.cmp(&b.0),
                                "version_1" => a.1.cmp(&b.1),
                                "version_2" => a.2.cmp(&b.2),
                                "name" => a.3.cmp(&b.3),
                                _ => std::cmp::Ordering::Equal,
                            };
                            if *down { o.reverse() } else { o }
                        });
                    }
                    for k in &recs {
                        match Self::matches(k, &conds) {
                            Some(true) => (),
                            Some(false) => continue,
                            None => {
                                s.errors.push(format!("condition of {text}"));
                                continue;
                            }
                        }
                        rows.push(
                            names
                                .iter()
                                .map(|n| {
                                    Some(match n.as_str() {
                                        "version_0" => k.0.to_string().into_bytes(),
                                        "version_1" => k.1.to_string().into_bytes(),
                                        "version_2" => k.2.to_string().into_bytes(),
                                        "name" => k.3.clone(),
                                        _ => b"2024-01-01 00:00:00".to_vec(),
                                    })
                                })
                                .collect(),
                        );
                    }
                    rows.truncate(limit);
                    Reply::Rows { cols, rows }
                })
            }
            _ => {
                self.errors.push(format!("statement {text:?}"));
                Reply::Err(1064, "no".into())
            }
        }
    }
}

/// The pool, which sometimes has no connection.
struct Pool {
    inner: Box<dyn AsyncPoolTrait<Connection>>,
    server: Arc<Mutex<Server>>,
}

impl AsyncPoolTrait<Connection> for Pool {
    fn get(&self) -> Pin<Box<dyn Future<Output = Result<PoolItem<'_, Connection>, Error>> + '_>> {
        let mut s = self.server.lock().unwrap();
        if s.queue.front().map(|x| x.o == "noget").unwrap_or(false) {
            s.queue.pop_front();
            return Box::pin(async { Err(Error::Runtime(RuntimeError::ParameterCountMismatch)) });
        }
        self.inner.get()
    }
}

struct Dyn {
    name: &'static str,
    m: M,
}

/// The server all of this process' migrations talk to.
static CURRENT: Mutex<Option<Arc<Mutex<Server>>>> = Mutex::new(None);

impl Dyn {
    async fn step(&self, dir: &str, pool: &dyn AsyncPoolTrait<Connection>) -> Result<(), Error> {
        let r = pool.get().await?.execute_query(&format!("{dir} {} {}", self.m.0, self.m.1)).await;
        r?;
        let s = CURRENT.lock().unwrap().clone().unwrap();
        let now = s.lock().unwrap().now.take();
        if now.is_some() {
            return Err(Error::Runtime(RuntimeError::InsecureAuth));
        }
        Ok(())
    }
}

impl Migration for Dyn {
    fn name(&self) -> &'static str {
        self.name
    }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.step("up", pool))
    }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.step("down", pool))
    }
}

simple_migration! { M1, "up M1", "down M1" }
simple_migration! { M2, "up M2", "down M2" }
simple_migration! { M3, "up M3", "down M3" }
simple_migration! { M4, "up M4", "down M4" }

fn real(n: &str) -> &'static str {
    match n {
        "q1" => "it's",
        "q2" => "say \"hi\"",
        "q3" => "back\\slash\\",
        "q4" => "'; drop table `migrations`; -- ",
        "q5" => "tick` (\"?\")",
        "q6" => "line\nbreak\r\ttab \u{0}zero é€😀",
        "q7" => "",
        "q8" => Box::leak("n\u{e4}me ".repeat(42).into_boxed_str()),
        x => Box::leak(x.to_string().into_boxed_str()),
    }
}

fn version(j: &J) -> Version {
    let n = |i: usize| j[i].as_u64().unwrap() as u16;
    Version(n(0), n(1), n(2))
}

struct Known {
    list: &'static [MigrationList],
    keys: HashMap<Key, M>,
    names: HashMap<&'static str, M>,
    at: HashMap<M, Key>,
}

fn known(sc: &J) -> &'static Known {
    thread_local!(static LISTS: RefCell<HashMap<String, &'static Known>> = Default::default());
    let id = format!("{} {}", sc["kind"], sc["list"]);
    LISTS.with(|all| *all.borrow_mut().entry(id).or_insert_with(|| {
        let (mut list, mut keys, mut names, mut at) = (vec![], HashMap::new(), HashMap::new(), HashMap::new());
        for (i, v) in sc["list"].as_array().unwrap().iter().enumerate() {
            let ver = version(&v["v"]);
            let mut ms: Vec<&'static dyn Migration> = vec![];
            for (j, n) in v["ms"].as_array().unwrap().iter().enumerate() {
                let name = real(n.as_str().unwrap());
                let m = (i + 1, j + 1);
                ms.push(match (sc["kind"].as_str(), name) {
                    (Some("macro"), "M1") => &M1,
                    (Some("macro"), "M2") => &M2,
                    (Some("macro"), "M3") => &M3,
                    (Some("macro"), "M4") => &M4,
                    _ => Box::leak(Box::new(Dyn { name, m })),
                });
                let k = (ver.0, ver.1, ver.2, name.as_bytes().to_vec());
                keys.insert(k.clone(), m);
                names.insert(name, m);
                at.insert(m, k);
            }
            list.push(MigrationList { version: ver, migrations: Box::leak(ms.into_boxed_slice()) });
        }
        Box::leak(Box::new(Known { list: Box::leak(list.into_boxed_slice()), keys, names, at }))
    }))
}

fn mig(j: &J) -> M {
    (j[0].as_u64().unwrap() as usize, j[1].as_u64().unwrap() as usize)
}

fn kind(e: &Error) -> &'static str {
    match e {
        Error::Server(_) => "err",
        Error::Protocol(ProtocolError::Io(e)) if e.kind() == io::ErrorKind::TimedOut => "tmo",
        Error::Protocol(_) => "lost",
        Error::Runtime(RuntimeError::ParameterCountMismatch) => "noget",
        Error::Runtime(_) => "fail",
    }
}

fn replay(sc: &J, h: u64) -> (Vec<String>, usize) {
    let k = known(sc);
    let mut recs: Vec<Key> = sc["start"]["rec"].as_array().unwrap().iter().map(|m| k.at[&mig(m)].clone()).collect();
    if !recs.is_empty() {
        let r = h as usize % recs.len();
        recs.rotate_left(r);
        if h & 64 != 0 {
            recs.reverse();
        }
    }
    let server = Arc::new(Mutex::new(Server {
        queue: VecDeque::new(),
        keys: k.keys.clone(),
        names: k.names.clone(),
        recs,
        tbl: sc["start"]["tbl"].as_bool().unwrap(),
        other: sc["start"]["other"].as_bool().unwrap(),
        errors: vec![],
        stalled: false,
        now: None,
    }));
    *CURRENT.lock().unwrap() = Some(server.clone());
    let dynserver: Arc<Mutex<dyn Backend>> = server.clone();
    let opts = Arc::new(ConnectionOptions::<DbStream> {
        user: "u".into(),
        connection: DbOpts(Some(dynserver)),
        max_allowed_packet: Some(1 << 22),
        timeout: Duration::from_millis(1000),
        auth_plugin: Some(mysql_connector::types::AuthPlugin::Native),
        ..Default::default()
    });
    let inner: Box<dyn AsyncPoolTrait<Connection>> = match sc["pool"].as_u64() {
        Some(1) => Box::new(AsyncPool::<Connection, DbStream, 1>::new(opts)),
        _ => Box::new(AsyncPool::<Connection, DbStream, 2>::new(opts)),
    };
    let pool = Pool { inner, server: server.clone() };
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut errors = vec![];
    let mut calls = 0;
    if !MigrationList::ordered(k.list) {
        errors.push("MigrationList::ordered says the list is not ordered".into());
        return (errors, 0);
    }
    rt.block_on(async {
        let mut migrator: Option<Migrator<'_>> = None;
        for (i, c) in sc["calls"].as_array().unwrap().iter().enumerate() {
            calls += 1;
            let expect: VecDeque<Ev> = c["ev"].as_array().unwrap().iter().map(|e| Ev { e: e["e"].as_str().unwrap().into(), m: mig(&e["m"]), o: e["o"].as_str().unwrap().into() }).collect();
            let bad = expect.back().map(|x| x.o.clone()).unwrap_or_default();
            {
                let mut s = server.lock().unwrap();
                s.queue = expect;
                s.stalled = false;
            }
            let op = c["op"].as_str().unwrap();
            let stalled = || server.lock().unwrap().stalled;
            let ret;
            {
                let fut = async {
                    Ok::<_, Error>(match op {
                        "new" => {
                            migrator = None;
                            migrator = Some(Migrator::new(&pool, k.list).await?);
                            "ok"
                        }
                        _ => {
                            let m = migrator.as_mut().expect("HARNESS: no migrator");
                            match op {
                                "up" => m.up().await.map(|_| "ok")?,
                                "upto" => m.up_to_version(Some(version(&c["t"]))).await.map(|_| "ok")?,
                                "down" => m.down_to_version(version(&c["t"])).await.map(|_| "ok")?,
                                "to" => m.to_version(version(&c["t"])).await.map(|_| "ok")?,
                                "down1" => {
                                    if m.one_down().await? {
                                        "true"
                                    } else {
                                        "false"
                                    }
                                }
                                x => panic!("HARNESS: op {x}"),
                            }
                        }
                    })
                };
                let mut fut = Box::pin(fut);
                let dead = tokio::time::Instant::now() + Duration::from_millis(5000);
                ret = std::future::poll_fn(|cx| {
                    use std::task::Poll;
                    match fut.as_mut().poll(cx) {
                        Poll::Ready(r) => Poll::Ready(Some(r)),
                        // the process ends here
                        Poll::Pending if stalled() => Poll::Ready(None),
                        Poll::Pending => Poll::Pending,
                    }
                });
                let ret = tokio::time::timeout_at(dead, ret).await;
                drop(fut);
                let want = c["ret"].as_str().unwrap();
                let got = match &ret {
                    Err(_) => "hangs".to_string(),
                    Ok(None) => "cancelled".into(),
                    Ok(Some(Ok(x))) => x.to_string(),
                    Ok(Some(Err(e))) => {
                        if want == "err" {
                            let w = match bad.as_str() {
                                "err" => "err",
                                "losta" | "lostb" => "lost",
                                "tmoa" | "tmob" => "tmo",
                                "noget" => "noget",
                                _ => "fail",
                            };
                            if kind(e) != w {
                                errors.push(format!("call {}: {op} returned another error than the one that happened ({w}): {e:?}", i + 1));
                            }
                        }
                        "err".into()
                    }
                };
                if got != want {
                    errors.push(format!("call {}: {op} {} must end with {want}, not {got} ({ret:?})", i + 1, c["t"]));
                }
                if want == "cancelled" {
                    migrator = None;
                }
            }
            let mut s = server.lock().unwrap();
            for e in std::mem::take(&mut s.errors) {
                errors.push(format!("call {}: {op}: {e}", i + 1));
            }
            if let Some(x) = s.queue.front() {
                errors.push(format!("call {}: {op} {}: missing '{}' of {:?} ({})", i + 1, c["t"], x.e, x.m, x.o));
            }
            let mut have: Vec<M> = s.recs.iter().map(|k| s.rec_of(k)).collect();
            have.sort();
            let want: Vec<M> = c["rec"].as_array().unwrap().iter().map(mig).collect();
            if have != want {
                errors.push(format!("call {}: {op} {}: records {have:?} instead of {want:?}", i + 1, c["t"]));
            }
            if !errors.is_empty() {
                break;
            }
        }
    });
    (errors, calls)
}

fn main() {
    run::main(replay)
}
