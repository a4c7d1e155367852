//! A server that sends anything: the client's calls must end with a value or an error, without a panic and without
//! demanding memory out of proportion.
use {
    crate::{
        bytes::eval,
        mock::MockOpts,
        wire,
    },
    mysql_connector::{
        error::Error,
        types::{Column, Hex, Value},
        Connection, ConnectionOptions, Stream,
    },
    serde_json::Value as J,
    std::{
        alloc::{GlobalAlloc, Layout, System},
        io,
        pin::Pin,
        sync::{
            atomic::{AtomicUsize, Ordering},
            Arc,
        },
        task::{Context, Poll},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncWrite, ReadBuf},
};

/// Counts what is allocated.
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// The sizes of the large allocations that are live.
static LARGE: [AtomicUsize; 1024] = [const { AtomicUsize::new(0) }; 1024];
fn swap_large(from: usize, to: usize) {
    if from.max(to) > 1 << 20 {
        let _ = LARGE.iter().any(|x| x.compare_exchange(from, to, Ordering::Relaxed, Ordering::Relaxed).is_ok());
    }
}

/// The live allocations of more than `keep` bytes.
pub fn larger(keep: usize) -> Vec<usize> {
    LARGE.iter().map(|x| x.load(Ordering::Relaxed)).filter(|x| *x > keep).collect()
}

/// Requests beyond this are refused, which ends the process.
const REFUSE: usize = 4 << 30;

fn up(n: usize) {
    let live = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    if live > PEAK.load(Ordering::Relaxed) {
        PEAK.fetch_max(live, Ordering::Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        up(l.size());
        swap_large(0, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        up(l.size());
        swap_large(0, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        swap_large(l.size(), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        // both may be there for a moment
        up(n);
        let r = System.realloc(p, l, n);
        LIVE.fetch_sub(if r.is_null() { n } else { l.size() }, Ordering::Relaxed);
        if !r.is_null() {
            swap_large(l.size(), 0);
            swap_large(0, n);
        }
        r
    }
}

#[derive(Debug, Default, Clone)]
pub struct FeedOpts(Arc<Vec<u8>>);
#[derive(Debug)]
pub struct Feed<const SECURE: bool>(Arc<Vec<u8>>, usize);

impl<const S: bool> Stream for Feed<S> {
    const SECURE: bool = S;
    type Options = FeedOpts;

    async fn connect(data: &FeedOpts) -> io::Result<Self> {
        Ok(Self(data.0.clone(), 0))
    }
}

impl<const S: bool> AsyncRead for Feed<S> {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = buf.remaining().min(self.0.len() - self.1);
        buf.put_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Poll::Ready(Ok(()))
    }
}

impl<const S: bool> AsyncWrite for Feed<S> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Everything a caller may do with what was delivered.
fn use_value(v: &Value) {
    use chrono::{NaiveDate, NaiveDateTime};
    macro_rules! conv {
        ($($t:ty),*) => { $(
            let r: Result<$t, _> = v.clone().try_into();
            std::hint::black_box(format!("{r:?}").len());
            let r: Result<Option<$t>, _> = v.clone().try_into();
            std::hint::black_box(format!("{r:?}").len());
        )* };
    }
    conv!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>, Hex, NaiveDate, NaiveDateTime, chrono::Duration);
    std::hint::black_box((v.to_string().len(), v.is_unsigned(), v.column_type()));
}

fn use_columns(cols: &[Column]) {
    for c in cols {
        std::hint::black_box(format!("{} {} {} {} {:?} {:?}", c.name(), c.org_name(), c.table(), c.org_table(), c.r#type(), c.flags()).len());
    }
}

struct Run<'a> {
    prog: &'a [J],
    pos: usize,
    /// What became of each call; skipped ones are missing.
    res: Vec<Option<bool>>,
    errs: Vec<String>,
}

impl<'a> Run<'a> {
    fn op(&self) -> Option<&'a str> {
        self.prog.get(self.pos).map(|o| o["op"].as_str().expect("HARNESS: op"))
    }

    fn note<T>(&mut self, r: Result<T, Error>) -> Option<T> {
        self.res[self.pos] = Some(r.is_ok());
        self.pos += 1;
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                let text = format!("{e:?}");
                if let Error::Server(p) = &e {
                    std::hint::black_box(format!("{p:?}").len());
                }
                if self.errs.len() < 8 {
                    self.errs.push(text.chars().take(200).collect());
                }
                None
            }
        }
    }

    fn skip(&mut self, ops: &[&str]) {
        while self.op().is_some_and(|o| ops.contains(&o)) {
            self.pos += 1;
        }
    }
}

const NESTED: [&str; 4] = ["next", "collect", "one", "finish"];

macro_rules! rows {
    ($run:expr, $rs:expr) => {{
        let run: &mut Run<'_> = $run;
        let mut rs = $rs;
        use_columns(rs.columns());
        loop {
            match run.op() {
                Some("next") => {
                    let r = rs.next().await;
                    if let Some(Some(row)) = run.note(r) {
                        row.iter().for_each(use_value);
                    }
                }
                Some("one") => {
                    let r = rs.one().await;
                    run.note(r);
                }
                Some("collect") => {
                    let r = rs.collect().await;
                    run.note(r);
                }
                Some("finish") => {
                    let r = rs.finish().await;
                    run.note(r);
                    break;
                }
                _ => break,
            }
        }
        run.skip(&NESTED);
    }};
}

async fn program(run: &mut Run<'_>, conn: &mut Connection) {
    while let Some(op) = run.op() {
        match op {
            "query" => {
                let r = conn.query::<Vec<Value>>("q").await;
                match run.note(r) {
                    Some(rs) => rows!(run, rs),
                    None => run.skip(&NESTED),
                }
            }
            "exec" => {
                let r = conn.execute_query("x").await;
                if let Some(ok) = run.note(r) {
                    std::hint::black_box(format!("{ok:?}").len());
                }
            }
            "prepare" => {
                let r = conn.prepare_statement("p").await;
                match run.note(r) {
                    None => run.skip(&["next", "collect", "one", "finish", "squery", "sexec"]),
                    Some(mut stmt) => loop {
                        match run.op() {
                            Some("squery") => {
                                let r = stmt.query::<Value, Vec<Value>>(&[Value::Int(1)]).await;
                                match run.note(r) {
                                    Some(rs) => rows!(run, rs),
                                    None => run.skip(&NESTED),
                                }
                            }
                            Some("sexec") => {
                                let r = stmt.execute(&[Value::Int(1)]).await;
                                run.note(r);
                            }
                            _ => break,
                        }
                    },
                }
            }
            x => panic!("HARNESS: op {x}"),
        }
    }
}

async fn session<const S: bool>(run: &mut Run<'_>, o: &J, bytes: Arc<Vec<u8>>) {
    let base = wire::options::<S>(o, Default::default());
    let MockOpts(_) = base.connection;
    let opts = ConnectionOptions::<Feed<S>> {
        user: base.user,
        password: base.password,
        db_name: base.db_name,
        auth_plugin: base.auth_plugin,
        max_allowed_packet: base.max_allowed_packet,
        timeout: Duration::from_secs(1),
        connection: FeedOpts(bytes),
        #[cfg(not(feature = "time"))]
        sleep: base.sleep,
        ..Default::default()
    };
    let r = Connection::connect(Arc::new(opts)).await;
    if let Some(mut conn) = run.note(r) {
        std::hint::black_box(format!("{:?}", conn.data().version()).len());
        program(run, &mut conn).await;
    }
}

pub fn replay(sc: &J) -> (Vec<String>, usize) {
    let mut bytes = Vec::new();
    for p in sc["pk"].as_array().map(|x| &x[..]).unwrap_or(&[]) {
        let b = eval(&p["b"]);
        if let Some(s) = p["s"].as_u64() {
            let mut h = (b.len() as u32).to_le_bytes();
            h[3] = s as u8;
            bytes.extend_from_slice(&h);
        }
        bytes.extend_from_slice(&b);
    }
    if let Some(z) = sc["zeros"].as_u64() {
        bytes.resize(bytes.len() + z as usize, 0);
    }
    let sent = bytes.len();
    let bytes = Arc::new(bytes);
    let prog = sc["prog"].as_array().expect("HARNESS: prog");
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let mut run = Run { prog, pos: 0, res: vec![None; prog.len()], errs: Vec::new() };
    let before = LIVE.load(Ordering::Relaxed);
    PEAK.store(before, Ordering::Relaxed);
    rt.block_on(async {
        match sc["secure"].as_bool().unwrap_or(false) {
            true => session::<true>(&mut run, &sc["opts"], bytes.clone()).await,
            false => session::<false>(&mut run, &sc["opts"], bytes.clone()).await,
        }
    });
    let used = PEAK.load(Ordering::Relaxed).saturating_sub(before);
    let mut errors = Vec::new();
    // a frame may announce 16 MB (once more while the buffer grows)
    let limit = (40 << 20) + 64 * sent;
    if used > limit {
        errors.push(format!("{used} bytes were allocated for {sent} bytes from the server"));
    }
    let call = sc["call"].as_u64().expect("HARNESS: call") as usize - 1;
    if !sc["anyway"].as_bool().unwrap_or(false) {
        for (i, r) in run.res.iter().enumerate().take(call) {
            if *r != Some(true) {
                errors.push(format!("call {} ({}) failed before anything was wrong: {:?}", i + 1, prog[i]["op"], run.errs));
                break;
            }
        }
    }
    if sc["must"] == "err" && run.res[call] == Some(true) {
        errors.push(format!("call {} ({}) succeeded with a packet that ends before its contents", call + 1, prog[call]["op"]));
    }
    (errors, run.pos)
}
