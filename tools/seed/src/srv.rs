#![allow(dead_code)]
//! A scripted MySQL server at the other end of an in-memory stream.
use {
    mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions, Stream},
    std::{
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf},
};

/// Nothing is accepted while this is set.
pub static STALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Srv(pub DuplexStream);

impl Srv {
    /// A frame: its number and contents.
    pub async fn frame(&mut self) -> io::Result<(u8, Vec<u8>)> {
        let mut h = [0; 4];
        self.0.read_exact(&mut h).await?;
        let mut b = vec![0; u32::from_le_bytes([h[0], h[1], h[2], 0]) as usize];
        self.0.read_exact(&mut b).await?;
        Ok((h[3], b))
    }
    /// A whole packet: the number of its last frame and its contents.
    pub async fn packet(&mut self) -> io::Result<(u8, Vec<u8>)> {
        let mut all = vec![];
        loop {
            let (q, b) = self.frame().await?;
            all.extend_from_slice(&b);
            if b.len() < 0xFF_FFFF {
                return Ok((q, all));
            }
        }
    }
    pub async fn send(&mut self, seq: u8, b: &[u8]) {
        let mut f = (b.len() as u32).to_le_bytes();
        f[3] = seq;
        let _ = self.0.write_all(&f).await;
        let _ = self.0.write_all(b).await;
    }
    pub async fn greet(&mut self, plugin: &str, caps: u32) {
        let mut g = vec![10];
        g.extend(b"8.0.1\0");
        g.extend(7u32.to_le_bytes());
        g.extend(b"abcdefgh\0");
        g.extend(&caps.to_le_bytes()[..2]);
        g.push(33);
        g.extend([2, 0]);
        g.extend(&caps.to_le_bytes()[2..]);
        g.push(21);
        g.extend([0; 10]);
        g.extend(b"ijklmnopqrst\0");
        g.extend(plugin.as_bytes());
        g.push(0);
        self.send(0, &g).await;
    }
    /// The usual login.
    pub async fn login(&mut self) {
        self.greet("mysql_native_password", CAPS).await;
        self.frame().await.unwrap();
        self.send(2, OK).await;
    }
    pub async fn coldef(&mut self, seq: u8, name: &str, ty: u8, flags: u16) {
        let mut d = vec![];
        for s in ["def", "db", "t", "t", name, name] {
            d.push(s.len() as u8);
            d.extend(s.as_bytes());
        }
        d.push(12);
        d.extend([33, 0, 255, 0, 0, 0, ty]);
        d.extend(flags.to_le_bytes());
        d.extend([0, 0, 0]);
        self.send(seq, &d).await;
    }
    /// Answers a query with a set of text rows.
    pub async fn text_rows(&mut self, cols: &[(&str, u8, u16)], rows: &[&[Option<&[u8]>]]) {
        let mut seq = 1;
        self.send(seq, &[cols.len() as u8]).await;
        for c in cols {
            seq += 1;
            self.coldef(seq, c.0, c.1, c.2).await;
        }
        for r in rows {
            seq += 1;
            let mut b = vec![];
            for v in r.iter() {
                match v {
                    None => b.push(0xFB),
                    Some(v) => {
                        b.push(v.len() as u8);
                        b.extend(*v);
                    }
                }
            }
            self.send(seq, &b).await;
        }
        self.send(seq + 1, EOF).await;
    }
}

pub const CAPS: u32 = 0x0000_0200 | 0x8000 | 0x0000_2000 | 0x0008_0000 | 0x0100_0000 | 0x0004_0000 | 0x0008;
pub const OK: &[u8] = &[0, 0, 0, 2, 0, 0, 0];
pub const EOF: &[u8] = &[0xFE, 0, 0, 2, 0, 0, 0];

pub fn err(code: u16, text: &str) -> Vec<u8> {
    let mut b = vec![0xFF];
    b.extend(code.to_le_bytes());
    b.extend(b"#42000");
    b.extend(text.as_bytes());
    b
}

pub fn ok(affected: u8) -> Vec<u8> {
    vec![0, affected, 0, 2, 0, 0, 0]
}

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
type Start = Arc<dyn Fn(Srv) -> Task + Send + Sync>;

#[derive(Clone, Default)]
pub struct Opt(pub Option<Start>);

impl std::fmt::Debug for Opt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Opt")
    }
}

#[derive(Debug)]
pub struct Plain(DuplexStream, #[allow(dead_code)] Mutex<()>);
#[derive(Debug)]
pub struct Secure(DuplexStream);

macro_rules! stream {
    ($t:ident, $secure:expr, $new:expr) => {
        impl AsyncRead for $t {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_read(cx, buf)
            }
        }
        impl AsyncWrite for $t {
            fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                if STALL.load(std::sync::atomic::Ordering::SeqCst) {
                    return Poll::Pending;
                }
                Pin::new(&mut self.0).poll_write(cx, buf)
            }
            fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_flush(cx)
            }
            fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut self.0).poll_shutdown(cx)
            }
        }
        impl Stream for $t {
            const SECURE: bool = $secure;
            type Options = Opt;
            async fn connect(data: &Opt) -> Result<Self, io::Error> {
                let (a, b) = tokio::io::duplex(1 << 26);
                tokio::spawn(data.0.clone().expect("no server")(Srv(b)));
                Ok($new(a))
            }
        }
    };
}
stream!(Plain, false, |a| Plain(a, Mutex::new(())));
stream!(Secure, true, |a| Secure(a));

pub fn options<T: Stream<Options = Opt>, F>(f: impl Fn(Srv) -> F + Send + Sync + 'static) -> ConnectionOptions<T>
where
    F: Future<Output = ()> + Send + 'static,
{
    ConnectionOptions {
        user: "user".into(),
        password: "secret".into(),
        db_name: None,
        connection: Opt(Some(Arc::new(move |s| Box::pin(f(s)) as Task))),
        max_allowed_packet: Some(1 << 26),
        timeout: Duration::from_secs(20),
        allow_cleartext_password: false,
        auth_plugin: Some(AuthPlugin::Native),
        server_key: None,
    }
}

pub async fn connect<F>(f: impl Fn(Srv) -> F + Send + Sync + 'static) -> Connection
where
    F: Future<Output = ()> + Send + 'static,
{
    Connection::connect(Arc::new(options::<Plain, F>(f))).await.expect("connect")
}
