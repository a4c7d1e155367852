//! Scripted transport: the server's side of a behaviour of the specification.
use {
    crate::bytes::{pats, short, Pat},
    mysql_connector::Stream,
    serde_json::Value as J,
    std::{
        collections::VecDeque,
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncWrite, ReadBuf},
};

#[derive(Debug)]
pub enum Item {
    /// The client must write exactly this.
    W(Vec<Pat>),
    /// The server sends this.
    R(Vec<u8>),
    /// Nothing is delivered/accepted for this time; who waits is woken this much later.
    Delay(u64, u64),
    /// Nothing is delivered/accepted/flushed anymore.
    Stall,
    /// Flushing never completes.
    FStall,
    /// The transport ends (reads return 0, writes fail).
    Eof,
    /// The transport fails.
    Reset,
}

#[derive(Default)]
pub struct St {
    pub items: VecDeque<Item>,
    rbuf: Vec<u8>,
    rpos: usize,
    wbuf: Vec<u8>,
    unflushed: bool,
    /// The client waits for something the script does not provide.
    pub starved: bool,
    pub errors: Vec<String>,
    sleep: Option<(tokio::time::Instant, Pin<Box<tokio::time::Sleep>>)>,
    pub frag: u64,
    rng: u64,
    pend: bool,
    pub reads: u64,
    pub writes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub wlog: Vec<u8>,
    pub keep_log: bool,
    /// When something was transferred last.
    pub last: Option<tokio::time::Instant>,
}

impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("St")
    }
}

unsafe impl Send for St {}

pub fn item(j: &J) -> Option<Item> {
    Some(match j["k"].as_str().expect("HARNESS: event kind") {
        "w" => Item::W(pats(&j["b"])),
        "r" => Item::R(crate::bytes::eval(&j["b"])),
        // a packet whose length the specification does not know
        "rf" => {
            let body = crate::bytes::eval(&j["b"]);
            let mut f = (body.len() as u32).to_le_bytes();
            f[3] = j["s"].as_u64().unwrap() as u8;
            Item::R([&f[..], &body].concat())
        }
        "delay" => Item::Delay(j["ms"].as_u64().unwrap(), j["late"].as_u64().unwrap_or(0)),
        "stall" => Item::Stall,
        "fstall" => Item::FStall,
        "eof" => Item::Eof,
        "reset" => Item::Reset,
        _ => return None,
    })
}

fn plen(p: &[Pat]) -> usize {
    p.iter().map(|x| x.len()).sum()
}

fn check(p: &[Pat], got: &[u8]) -> Result<(), String> {
    let mut pos = 0;
    for x in p {
        let part = &got[pos..pos + x.len()];
        match x {
            Pat::Bytes(b) => {
                if b[..] != *part {
                    let at = b.iter().zip(part).position(|(a, b)| a != b).unwrap();
                    let from = at.saturating_sub(6);
                    return Err(format!(
                        "client sent wrong bytes at offset {}: expected ..{} got ..{}",
                        pos + at,
                        short(&b[from..]),
                        short(&part[from..])
                    ));
                }
            }
            Pat::Rsa { key, plain, .. } => match crate::crypto::oaep_decrypt(key, part) {
                Ok(m) if m == *plain => (),
                Ok(m) => return Err(format!("encrypted password decrypts to {} instead of {}", short(&m), short(plain))),
                Err(e) => return Err(format!("encrypted password: {e}")),
            },
        }
        pos += x.len();
    }
    Ok(())
}

impl St {
    pub fn new(frag: u64) -> Self {
        St { frag, ..Default::default() }
    }

    fn rnd(&mut self) -> u64 {
        self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 ^ self.frag);
        self.rng >> 33
    }

    /// How many of `n` bytes pass now; None: not ready yet (woken at once).
    fn pass(&mut self, n: usize) -> Option<usize> {
        if n == 0 {
            return Some(0);
        }
        let big = n > 70_000;
        let m = match self.frag % 6 {
            0 => n,
            1 => 1,
            2 => {
                self.pend = !self.pend;
                if self.pend {
                    return None;
                }
                1
            }
            3 => {
                let r = self.rnd();
                if r % 3 == 0 {
                    return None;
                }
                1 + (r / 3 % 17) as usize
            }
            4 => 3,
            _ => {
                let r = self.rnd();
                1 + (r % 5) as usize
            }
        };
        Some(if big && m < n { 65_521 } else { m.min(n) })
    }

    fn advance_w(&mut self) {
        loop {
            let len = match self.items.front() {
                Some(Item::W(p)) => plen(p),
                _ => return,
            };
            if self.wbuf.len() < len || (len == 0) {
                if len == 0 {
                    self.items.pop_front();
                    continue;
                }
                return;
            }
            let p = match self.items.pop_front() {
                Some(Item::W(p)) => p,
                _ => unreachable!(),
            };
            let rest = self.wbuf.split_off(len);
            let got = std::mem::replace(&mut self.wbuf, rest);
            if let Err(e) = check(&p, &got) {
                self.errors.push(e);
            }
        }
    }

    fn starve<T>(&mut self) -> Poll<T> {
        self.starved = true;
        Poll::Pending
    }

    /// Everything of the current call was consumed?
    pub fn leftover(&self) -> Option<String> {
        if self.rpos < self.rbuf.len() {
            return Some(format!("{} bytes the server sent were not read", self.rbuf.len() - self.rpos));
        }
        if !self.wbuf.is_empty() {
            return Some(format!("client sent an incomplete or unexpected packet: {}", short(&self.wbuf)));
        }
        if let Some(i) = self.items.front() {
            return Some(match i {
                Item::W(p) => format!("client did not send the expected {} bytes", plen(p)),
                Item::R(b) => format!("client did not read what the server sent: {}", short(b)),
                x => format!("client did not reach {x:?}"),
            });
        }
        if self.unflushed {
            return Some("written bytes were not flushed".into());
        }
        None
    }

    pub fn clear(&mut self) {
        self.items.clear();
        self.rbuf.clear();
        self.rpos = 0;
        self.wbuf.clear();
        self.unflushed = false;
        self.sleep = None;
    }

    fn delay(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            let (ms, late) = match self.items.front() {
                Some(Item::Delay(ms, late)) => (*ms, *late),
                _ => return Poll::Ready(()),
            };
            let (start, sleep) = self
                .sleep
                .get_or_insert_with(|| (tokio::time::Instant::now(), Box::pin(tokio::time::sleep(Duration::from_millis(ms + late)))));
            if sleep.as_mut().poll(cx).is_pending() && start.elapsed() < Duration::from_millis(ms) {
                return Poll::Pending;
            }
            self.sleep = None;
            self.items.pop_front();
            self.last = Some(tokio::time::Instant::now());
        }
    }

    fn read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.reads += 1;
        self.starved = false;
        loop {
            if self.rpos < self.rbuf.len() {
                let n = (self.rbuf.len() - self.rpos).min(buf.remaining());
                return match self.pass(n) {
                    None => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                    Some(n) => {
                        buf.put_slice(&self.rbuf[self.rpos..self.rpos + n]);
                        self.rpos += n;
                        self.bytes_read += n as u64;
                        self.last = Some(tokio::time::Instant::now());
                        if self.rpos == self.rbuf.len() {
                            self.rbuf = Vec::new();
                            self.rpos = 0;
                        }
                        Poll::Ready(Ok(()))
                    }
                };
            }
            self.advance_w();
            if self.unflushed || !self.wbuf.is_empty() {
                return self.starve();
            }
            match self.items.front() {
                Some(Item::R(_)) => {
                    if let Some(Item::R(b)) = self.items.pop_front() {
                        self.rbuf = b;
                        self.rpos = 0;
                    }
                }
                Some(Item::Delay(..)) => {
                    if self.delay(cx).is_pending() {
                        return Poll::Pending;
                    }
                }
                Some(Item::Eof) => {
                    self.items.pop_front();
                    return Poll::Ready(Ok(()));
                }
                Some(Item::Reset) => {
                    self.items.pop_front();
                    return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
                }
                // stays stalled: nothing follows within this call
                Some(Item::Stall) | Some(Item::W(_)) | Some(Item::FStall) | None => return self.starve(),
            }
        }
    }

    fn write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.writes += 1;
        self.starved = false;
        self.advance_w();
        loop {
            let room = match self.items.front() {
                Some(Item::W(p)) => plen(p) - self.wbuf.len(),
                Some(Item::Delay(..)) => {
                    if self.delay(cx).is_pending() {
                        return Poll::Pending;
                    }
                    continue;
                }
                Some(Item::Eof) | Some(Item::Reset) => {
                    self.items.pop_front();
                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                }
                Some(Item::Stall) => return self.starve(),
                // not expected, reported when the call ends
                Some(Item::R(_)) | Some(Item::FStall) | None => buf.len(),
            };
            let n = room.min(buf.len());
            return match self.pass(n) {
                None => {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
                Some(n) => {
                    self.wbuf.extend_from_slice(&buf[..n]);
                    self.bytes_written += n as u64;
                    if self.keep_log {
                        self.wlog.extend_from_slice(&buf[..n]);
                    }
                    self.unflushed = true;
                    self.last = Some(tokio::time::Instant::now());
                    self.advance_w();
                    Poll::Ready(Ok(n))
                }
            };
        }
    }

    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.starved = false;
        self.advance_w();
        if matches!(self.items.front(), Some(Item::FStall)) {
            return self.starve();
        }
        if self.frag % 6 == 2 || self.frag % 6 == 3 {
            self.pend = !self.pend;
            if self.pend {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        self.unflushed = false;
        self.last = Some(tokio::time::Instant::now());
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug, Default, Clone)]
pub struct MockOpts(pub Option<Arc<Mutex<St>>>);

#[derive(Debug)]
pub struct MockStream<const SECURE: bool>(Arc<Mutex<St>>);

impl<const S: bool> Stream for MockStream<S> {
    const SECURE: bool = S;
    type Options = MockOpts;

    async fn connect(data: &MockOpts) -> io::Result<Self> {
        Ok(Self(data.0.clone().expect("HARNESS: no script")))
    }
}

impl<const S: bool> AsyncRead for MockStream<S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().read(cx, buf)
    }
}

impl<const S: bool> AsyncWrite for MockStream<S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.lock().unwrap().write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
