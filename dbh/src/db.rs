//! A server in memory that understands the protocol; what statements mean is up to a backend.
#![allow(dead_code)]
use {
    crate::sql::{self, Stmt, Val},
    mysql_connector::Stream,
    std::{
        collections::HashMap,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
    },
    tokio::io::{AsyncRead, AsyncWrite, ReadBuf},
};

#[derive(Debug, Clone)]
pub struct ColDef {
    pub table: String,
    pub org_table: String,
    pub name: String,
    pub org_name: String,
    pub ty: u8,
    pub flags: u16,
}

pub const T_LONG: u8 = 3;
pub const T_LONGLONG: u8 = 8;
pub const T_STRING: u8 = 253;
pub const F_UNSIGNED: u16 = 32;

pub enum Reply {
    Ok { affected: u64, id: u64 },
    Rows { cols: Vec<ColDef>, rows: Vec<Vec<Option<Vec<u8>>>> },
    Err(u16, String),
    /// The connection breaks.
    Reset,
    /// No answer.
    Stall,
}

pub trait Backend: Send {
    fn connect(&mut self) -> io::Result<()> {
        Ok(())
    }
    fn exec(&mut self, text: &str, st: Stmt) -> Reply;
    /// The client sent what no client should.
    fn bad(&mut self, what: String);
}

#[derive(Clone, Default)]
pub struct DbOpts(pub Option<Arc<Mutex<dyn Backend>>>);

impl std::fmt::Debug for DbOpts {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DbOpts")
    }
}

#[derive(PartialEq)]
enum Fate {
    Alive,
    Reset,
    Stalled,
}

pub struct DbStream {
    db: Arc<Mutex<dyn Backend>>,
    inp: Vec<u8>,
    out: Vec<u8>,
    pos: usize,
    login: bool,
    fate: Fate,
    stmts: HashMap<u32, (String, Stmt, usize, Vec<u8>, HashMap<usize, Vec<u8>>)>,
    next: u32,
}

impl std::fmt::Debug for DbStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DbStream")
    }
}

unsafe impl Sync for DbStream {}

const CAPS: u32 = 0x0200 | 0x8000 | 0x2000 | 0x0008_0000 | 0x0100_0000 | 0x0004_0000 | 0x0008;

fn lenenc(n: usize) -> Vec<u8> {
    if n < 251 {
        vec![n as u8]
    } else if n < 65536 {
        [&[252][..], &(n as u16).to_le_bytes()].concat()
    } else {
        [&[253][..], &(n as u32).to_le_bytes()[..3]].concat()
    }
}

fn lenenc64(n: u64) -> Vec<u8> {
    if n < 251 {
        vec![n as u8]
    } else {
        [&[254][..], &n.to_le_bytes()].concat()
    }
}

fn lenstr(b: &[u8]) -> Vec<u8> {
    [lenenc(b.len()), b.to_vec()].concat()
}

pub fn coldef(c: &ColDef) -> Vec<u8> {
    let mut d = lenstr(b"def");
    for s in ["db", &c.table, &c.org_table, &c.name, &c.org_name] {
        d.extend(lenstr(s.as_bytes()));
    }
    d.push(12);
    d.extend([45, 0, 255, 255, 0, 0, c.ty]);
    d.extend(c.flags.to_le_bytes());
    d.extend([0, 0, 0]);
    d
}

const OK: &[u8] = &[0, 0, 0, 2, 0, 0, 0];
const EOF: &[u8] = &[0xFE, 0, 0, 2, 0, 0, 0];

impl DbStream {
    fn new(db: Arc<Mutex<dyn Backend>>) -> Self {
        let mut this = DbStream { db, inp: vec![], out: vec![], pos: 0, login: false, fate: Fate::Alive, stmts: HashMap::new(), next: 1 };
        let mut g = vec![10];
        g.extend(b"8.0.36\0");
        g.extend(7u32.to_le_bytes());
        g.extend(b"abcdefgh\0");
        g.extend(&CAPS.to_le_bytes()[..2]);
        g.push(45);
        g.extend([2, 0]);
        g.extend(&CAPS.to_le_bytes()[2..]);
        g.push(21);
        g.extend([0; 10]);
        g.extend(b"ijklmnopqrst\0mysql_native_password\0");
        this.send(0, &g);
        this
    }

    fn send(&mut self, seq: u8, b: &[u8]) {
        let mut f = (b.len() as u32).to_le_bytes();
        f[3] = seq;
        self.out.extend(f);
        self.out.extend(b);
    }

    fn bad(&mut self, what: impl Into<String>) {
        self.db.lock().unwrap().bad(what.into());
        self.fate = Fate::Reset;
    }

    fn run(&mut self) {
        while self.fate == Fate::Alive && self.inp.len() >= 4 {
            let n = u32::from_le_bytes([self.inp[0], self.inp[1], self.inp[2], 0]) as usize;
            if self.inp.len() < 4 + n {
                return;
            }
            if n == 0xFF_FFFF {
                panic!("HARNESS: big packet");
            }
            let seq = self.inp[3];
            let b = self.inp[4..4 + n].to_vec();
            self.inp.drain(..4 + n);
            if !self.login {
                self.login = true;
                self.send(seq + 1, OK);
                continue;
            }
            if seq != 0 {
                self.bad(format!("command with number {seq}"));
                return;
            }
            self.command(&b);
        }
    }

    fn command(&mut self, b: &[u8]) {
        let text = || String::from_utf8(b[1..].to_vec());
        match b.first() {
            Some(3) => match text() {
                Err(_) => self.bad("statement is no UTF-8"),
                Ok(t) => match sql::parse(&t) {
                    Err(e) => self.syntax(&t, &e),
                    Ok((s, 0)) => self.exec(&t, s, false),
                    Ok(_) => self.syntax(&t, "? in a query"),
                },
            },
            Some(0x16) => match text() {
                Err(_) => self.bad("statement is no UTF-8"),
                Ok(t) => match sql::parse(&t) {
                    Err(e) => self.syntax(&t, &e),
                    Ok((s, n)) => {
                        let id = self.next;
                        self.next += 1;
                        let mut r = vec![0];
                        r.extend(id.to_le_bytes());
                        // nobody needs to know the columns now
                        r.extend(0u16.to_le_bytes());
                        r.extend((n as u16).to_le_bytes());
                        r.extend([0, 0, 0]);
                        self.send(1, &r);
                        let p = coldef(&ColDef { table: String::new(), org_table: String::new(), name: "?".into(), org_name: String::new(), ty: T_STRING, flags: 0 });
                        for i in 0..n {
                            self.send(2 + i as u8, &p);
                        }
                        self.stmts.insert(id, (t, s, n, vec![], HashMap::new()));
                    }
                },
            },
            Some(0x17) if b.len() >= 10 => {
                let id = u32::from_le_bytes(b[1..5].try_into().unwrap());
                let (t, s, n, types, long) = match self.stmts.get_mut(&id) {
                    None => return self.bad(format!("unknown statement {id}")),
                    Some(x) => x,
                };
                match params(&b[10..], *n, types, long) {
                    Err(e) => {
                        let e = format!("parameters: {e}");
                        self.bad(e)
                    }
                    Ok(p) => {
                        long.clear();
                        let (t, s) = (t.clone(), sql::bind(s.clone(), &p));
                        self.exec(&t, s, true)
                    }
                }
            }
            Some(0x18) if b.len() >= 7 => {
                let id = u32::from_le_bytes(b[1..5].try_into().unwrap());
                let i = u16::from_le_bytes([b[5], b[6]]) as usize;
                match self.stmts.get_mut(&id) {
                    None => self.bad(format!("unknown statement {id}")),
                    Some(x) => x.4.entry(i).or_default().extend(&b[7..]),
                }
            }
            Some(0x19) if b.len() == 5 => {
                let id = u32::from_le_bytes(b[1..5].try_into().unwrap());
                if self.stmts.remove(&id).is_none() {
                    self.bad(format!("unknown statement {id}"));
                }
            }
            Some(1) => self.fate = Fate::Reset,
            Some(0x0E) | Some(0x1F) => self.send(1, OK),
            _ => self.bad(format!("command {b:?}")),
        }
    }

    fn syntax(&mut self, t: &str, e: &str) {
        self.db.lock().unwrap().bad(format!("the server does not understand {t:?}: {e}"));
        self.err(1064, "You have an error in your SQL syntax");
    }

    fn err(&mut self, code: u16, text: &str) {
        let mut b = vec![0xFF];
        b.extend(code.to_le_bytes());
        b.extend(b"#42000");
        b.extend(text.as_bytes());
        self.send(1, &b);
    }

    fn exec(&mut self, text: &str, s: Stmt, bin: bool) {
        let r = self.db.lock().unwrap().exec(text, s);
        match r {
            Reply::Ok { affected, id } => {
                let mut b = vec![0];
                b.extend(lenenc64(affected));
                b.extend(lenenc64(id));
                b.extend([2, 0, 0, 0]);
                self.send(1, &b);
            }
            Reply::Err(c, t) => self.err(c, &t),
            Reply::Reset => self.fate = Fate::Reset,
            Reply::Stall => self.fate = Fate::Stalled,
            Reply::Rows { cols, rows } => {
                let mut seq = 1u8;
                self.send(seq, &lenenc(cols.len()));
                for c in &cols {
                    seq = seq.wrapping_add(1);
                    self.send(seq, &coldef(c));
                }
                for r in rows {
                    seq = seq.wrapping_add(1);
                    let mut b = vec![];
                    if bin {
                        b.resize(1 + (r.len() + 9) / 8, 0);
                        for (i, v) in r.iter().enumerate() {
                            match v {
                                None => b[1 + (i + 2) / 8] |= 1 << ((i + 2) % 8),
                                Some(v) => match cols[i].ty {
                                    T_LONG => b.extend((String::from_utf8_lossy(v).parse::<i64>().expect("HARNESS: number") as i32).to_le_bytes()),
                                    T_LONGLONG => b.extend((String::from_utf8_lossy(v).parse::<i128>().expect("HARNESS: number") as i64).to_le_bytes()),
                                    T_STRING => b.extend(lenstr(v)),
                                    _ => panic!("HARNESS: binary column"),
                                },
                            }
                        }
                    } else {
                        for v in r {
                            match v {
                                None => b.push(0xFB),
                                Some(v) => b.extend(lenstr(&v)),
                            }
                        }
                    }
                    self.send(seq, &b);
                }
                self.send(seq.wrapping_add(1), EOF);
            }
        }
    }
}

fn params(b: &[u8], n: usize, types: &mut Vec<u8>, long: &HashMap<usize, Vec<u8>>) -> Result<Vec<Val>, String> {
    if n == 0 {
        return Ok(vec![]);
    }
    let mut pos = (n + 7) / 8;
    let nulls = b.get(..pos).ok_or("short bitmap")?;
    match b.get(pos) {
        Some(1) => {
            *types = b.get(pos + 1..pos + 1 + 2 * n).ok_or("short types")?.to_vec();
            pos += 1 + 2 * n;
        }
        Some(0) if types.len() == 2 * n => pos += 1,
        x => return Err(format!("no types ({x:?})")),
    }
    let mut out = vec![];
    fn take<'a>(b: &'a [u8], pos: &mut usize, n: usize) -> Result<&'a [u8], String> {
        let r = b.get(*pos..*pos + n).ok_or("short parameter")?;
        *pos += n;
        Ok(r)
    }
    for i in 0..n {
        if let Some(x) = long.get(&i) {
            out.push(Val::Bytes(x.clone()));
            continue;
        }
        if nulls[i / 8] & (1 << (i % 8)) != 0 {
            out.push(Val::Null);
            continue;
        }
        let (t, uns) = (types[2 * i], types[2 * i + 1] & 0x80 != 0);
        let int = |x: &[u8]| -> Val {
            let mut a = [0u8; 16];
            a[..x.len()].copy_from_slice(x);
            let mut v = i128::from_le_bytes(a);
            if !uns && x[x.len() - 1] & 0x80 != 0 {
                v -= 1i128 << (8 * x.len());
            }
            Val::Int(v)
        };
        out.push(match t {
            1 => int(take(b, &mut pos, 1)?),
            2 | 13 => int(take(b, &mut pos, 2)?),
            3 | 9 => int(take(b, &mut pos, 4)?),
            8 => int(take(b, &mut pos, 8)?),
            4 => Val::F32(u32::from_le_bytes(take(b, &mut pos, 4)?.try_into().unwrap())),
            5 => Val::F64(u64::from_le_bytes(take(b, &mut pos, 8)?.try_into().unwrap())),
            6 => Val::Null,
            7 | 10 | 12 => {
                let l = take(b, &mut pos, 1)?[0] as usize;
                let x = take(b, &mut pos, l)?;
                let g = |i: usize| x.get(i).copied().unwrap_or(0);
                let y = u16::from_le_bytes([g(0), g(1)]);
                if t == 10 {
                    Val::Date(y, g(2), g(3))
                } else {
                    Val::Datetime(y, g(2), g(3), g(4), g(5), g(6), u32::from_le_bytes([g(7), g(8), g(9), g(10)]))
                }
            }
            11 => {
                let l = take(b, &mut pos, 1)?[0] as usize;
                let x = take(b, &mut pos, l)?;
                let g = |i: usize| x.get(i).copied().unwrap_or(0);
                let d = u32::from_le_bytes([g(1), g(2), g(3), g(4)]) as i64;
                let us = (((d * 24 + g(5) as i64) * 60 + g(6) as i64) * 60 + g(7) as i64) * 1_000_000 + u32::from_le_bytes([g(8), g(9), g(10), g(11)]) as i64;
                Val::Time(if g(0) != 0 { -us } else { us })
            }
            15 | 249..=254 => {
                let l = match take(b, &mut pos, 1)?[0] {
                    252 => u16::from_le_bytes(take(b, &mut pos, 2)?.try_into().unwrap()) as usize,
                    253 => {
                        let x = take(b, &mut pos, 3)?;
                        u32::from_le_bytes([x[0], x[1], x[2], 0]) as usize
                    }
                    254 => u64::from_le_bytes(take(b, &mut pos, 8)?.try_into().unwrap()) as usize,
                    x => x as usize,
                };
                Val::Bytes(take(b, &mut pos, l)?.to_vec())
            }
            t => return Err(format!("type {t}")),
        });
    }
    if pos != b.len() {
        return Err("bytes after the parameters".into());
    }
    Ok(out)
}

impl Stream for DbStream {
    const SECURE: bool = false;
    type Options = DbOpts;

    async fn connect(data: &DbOpts) -> io::Result<Self> {
        let db = data.0.clone().expect("HARNESS: no backend");
        db.lock().unwrap().connect()?;
        Ok(Self::new(db))
    }
}

impl AsyncRead for DbStream {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        if self.pos < self.out.len() {
            let n = (self.out.len() - self.pos).min(buf.remaining());
            buf.put_slice(&self.out[self.pos..self.pos + n]);
            self.pos += n;
            if self.pos == self.out.len() {
                self.out.clear();
                self.pos = 0;
            }
            return Poll::Ready(Ok(()));
        }
        match self.fate {
            Fate::Reset => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            _ => Poll::Pending,
        }
    }
}

impl AsyncWrite for DbStream {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.fate == Fate::Reset {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        self.inp.extend(buf);
        self.run();
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
