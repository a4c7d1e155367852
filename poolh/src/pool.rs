//! Runs programs of tasks on the real `AsyncPool` and `SyncPool`.
use {
    crate::sched::{self, block, clear_woken, event, me, over, point, Th},
    mysql_connector::pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
    std::{
        cell::RefCell,
        panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
        future::Future,
        pin::Pin,
        sync::{
            atomic::{AtomicUsize, Ordering},
            Arc, Mutex,
        },
        task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    },
};

/// A scheduling point that is only needed where the pool itself has none.
fn soft(name: &'static str) {
    if !cfg!(vp_hooks) {
        point(name)
    }
}

// ------------------------------------------------------------------------------- wakers
struct W {
    task: usize,
    valid: Mutex<bool>,
}

fn vt() -> &'static RawWakerVTable {
    static VT: RawWakerVTable = RawWakerVTable::new(
        |p| unsafe {
            soft("waker clone");
            Arc::increment_strong_count(p as *const W);
            RawWaker::new(p, vt())
        },
        |p| unsafe {
            let w = Arc::from_raw(p as *const W);
            wake(&w);
        },
        |p| unsafe {
            wake(&*(p as *const W));
        },
        |p| unsafe { drop(Arc::from_raw(p as *const W)) },
    );
    &VT
}

fn wake(w: &W) {
    point("wake");
    if *w.valid.lock().unwrap() {
        sched::wake(w.task);
    }
}

fn waker(w: &Arc<W>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(Arc::clone(w)) as *const (), vt())) }
}

// ------------------------------------------------------------------------------- items
#[derive(Debug)]
pub struct Ctx {
    ids: AtomicUsize,
}

pub struct Item {
    id: usize,
    broken: bool,
}

#[derive(Debug)]
pub struct Failure(usize);

thread_local! {
    /// How a creation by this task goes: (its end, number of times it isn't done yet)
    static MAKE: RefCell<(End, usize)> = const { RefCell::new((End::Well, 0)) };
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Well,
    Fails,
    /// panics while it is polled
    Panics,
    /// panics before there is a future
    PanicsAtOnce,
}

/// A panic of the user's code.
struct Deliberate;

struct Make<'a> {
    ctx: &'a Ctx,
    end: End,
    slow: usize,
    task: usize,
}

impl Future for Make<'_> {
    type Output = Result<Item, Failure>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        point("make");
        if self.slow > 0 {
            self.slow -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.end == End::Panics {
            std::panic::resume_unwind(Box::new(Deliberate));
        } else if self.end == End::Fails {
            event("failed", self.task, 0);
            Poll::Ready(Err(Failure(self.task)))
        } else {
            let id = self.ctx.ids.fetch_add(1, Ordering::SeqCst) + 1;
            event("made", self.task, id);
            Poll::Ready(Ok(Item { id, broken: false }))
        }
    }
}

impl AsyncPoolContentError for Item {
    type Error = Failure;
}

impl AsyncPoolContent<()> for Item {
    type Ctx = Ctx;

    fn new<'a>(ctx: &'a Ctx) -> Pin<Box<dyn Future<Output = Result<Self, Failure>> + 'a>> {
        event("create", me(), 0);
        let (end, slow) = MAKE.with(|m| *m.borrow());
        if end == End::PanicsAtOnce {
            std::panic::resume_unwind(Box::new(Deliberate));
        }
        Box::pin(Make { ctx, end, slow, task: me() })
    }

    fn is_reusable(&self) -> bool {
        soft("is_reusable");
        !self.broken
    }
}

impl Drop for Item {
    fn drop(&mut self) {
        point("item drop");
        event("gone", me(), self.id);
        soft("item dropped");
    }
}

// ------------------------------------------------------------------------------- async pool
/// A get: "g" and letters: s a slow creation, f a failing one, x one that panics, X one that panics at once, c abandoned when it has to wait,
/// p polled once more (with another waker) when it has to wait, y: yields (is polled twice more).
fn get<'a>(pool: &'a dyn AsyncPoolTrait<Item>, how: &str) -> Option<PoolItem<'a, Item>> {
    let t = me();
    let end = match how {
        _ if how.contains('f') => End::Fails,
        _ if how.contains('x') => End::Panics,
        _ if how.contains('X') => End::PanicsAtOnce,
        _ => End::Well,
    };
    // at which Pending it is abandoned
    let mut cancel = how.split('c').nth(1).map(|x| x.parse::<usize>().expect("HARNESS: number after c")).unwrap_or(0);
    let mut again = if how.contains('p') { 1 } else { 0 };
    MAKE.with(|m| *m.borrow_mut() = (end, how.matches('s').count()));
    let mut fut = Some(pool.get());
    let mut w = Arc::new(W { task: t, valid: Mutex::new(true) });
    loop {
        if over() {
            return None;
        }
        clear_woken();
        event("poll", t, 0);
        soft("poll");
        let wk = waker(&w);
        let res = match catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&wk)))) {
            Ok(res) => res,
            Err(p) if p.is::<Deliberate>() => {
                // what polled it caught the panic, and gives the getter up
                event("pend", t, 0);
                soft("panicked");
                event("drop", t, 0);
                drop(fut.take());
                event("dropped", t, 0);
                soft("dropped");
                return None;
            }
            Err(p) => resume_unwind(p),
        };
        drop(wk);
        match res {
            Poll::Ready(Ok(item)) => {
                event("got", t, item.id);
                soft("got");
                drop(fut);
                return Some(item);
            }
            Poll::Ready(Err(f)) => {
                event("err", t, f.0 + 1);
                soft("err");
                drop(fut);
                return None;
            }
            Poll::Pending => {
                event("pend", t, 0);
                if again > 0 {
                    again -= 1;
                    // the future was moved to another task: only the new waker counts
                    *w.valid.lock().unwrap() = false;
                    w = Arc::new(W { task: t, valid: Mutex::new(true) });
                    soft("again");
                    continue;
                }
                if cancel > 0 {
                    cancel -= 1;
                }
                if cancel == 0 && how.contains('c') {
                    soft("cancel");
                    event("drop", t, 0);
                    drop(fut);
                    event("dropped", t, 0);
                    soft("cancelled");
                    return None;
                }
                block(Th::Asleep);
            }
        }
    }
}

fn put(item: PoolItem<'_, Item>) {
    let (t, id) = (me(), item.id);
    event(if item.broken { "putbad" } else { "put" }, t, id);
    soft("put");
    drop(item);
    event("putend", t, id);
    soft("putend");
}

fn program(pool: &dyn AsyncPoolTrait<Item>, ops: &[String]) {
    let mut held: Vec<PoolItem<'_, Item>> = Vec::new();
    for op in ops {
        if over() {
            break;
        }
        match op.as_bytes()[0] {
            b'g' => {
                if let Some(i) = get(pool, op) {
                    held.push(i)
                }
            }
            b'r' | b'b' => {
                if !held.is_empty() {
                    let mut i = held.remove(0);
                    i.broken = op.starts_with('b');
                    put(i);
                }
            }
            b'q' => block(Th::Quiet),
            b'l' => block(Th::Last),
            _ => panic!("HARNESS: op {op}"),
        }
    }
    for i in held {
        put(i);
    }
}

fn exec_n<const N: usize>(progs: &[Vec<String>], plan: sched::Plan, w: &sched::Workers) -> sched::Inner {
    let pool: AsyncPool<Item, (), N> = AsyncPool::new(Ctx { ids: AtomicUsize::new(0) });
    let p: &(dyn AsyncPoolTrait<Item>) = &pool;
    let p: usize = &p as *const _ as usize;
    let tasks = progs
        .iter()
        .map(|ops| {
            Box::new(move || {
                // a shared reference to the pool, which is Sync
                let pool: &dyn AsyncPoolTrait<Item> = unsafe { *(p as *const &dyn AsyncPoolTrait<Item>) };
                program(pool, ops)
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    sched::run(tasks, plan, w)
}

/// The pool is used from several threads, as its types allow.
#[allow(dead_code)]
fn is_sync(p: &AsyncPool<Item, (), 1>) -> &(dyn Sync + '_) {
    p
}

pub fn exec(n: usize, progs: &[Vec<String>], plan: sched::Plan, w: &sched::Workers) -> sched::Inner {
    match n {
        1 => exec_n::<1>(progs, plan, w),
        2 => exec_n::<2>(progs, plan, w),
        3 => exec_n::<3>(progs, plan, w),
        4 => exec_n::<4>(progs, plan, w),
        5 => exec_n::<5>(progs, plan, w),
        8 => exec_n::<8>(progs, plan, w),
        _ => panic!("HARNESS: pool size {n}"),
    }
}

// ------------------------------------------------------------------------------- sync pool
pub struct Buf {
    id: usize,
    v: Vec<u8>,
}

pub struct BufCtx {
    ids: AtomicUsize,
    vec: VecPoolCtx,
}

impl std::fmt::Debug for BufCtx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("BufCtx")
    }
}

thread_local! {
    static NEW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl SyncPoolContent for Buf {
    type Ctx = BufCtx;

    fn new(ctx: &BufCtx) -> Self {
        let id = ctx.ids.fetch_add(1, Ordering::SeqCst) + 1;
        event("create", me(), id);
        NEW.with(|n| n.set(true));
        Self { id, v: <Vec<u8> as SyncPoolContent>::new(&ctx.vec) }
    }

    fn reset(&mut self, ctx: &BufCtx) {
        soft("reset");
        self.v.reset(&ctx.vec);
        soft("reset done");
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        soft("buf drop");
        event("gone", me(), self.id);
    }
}

fn buf_program<const N: usize>(pool: &SyncPool<Buf, N>, ops: &[String], cap: usize) {
    let t = me();
    let mut held: Vec<PoolItem<'_, Buf>> = Vec::new();
    let give = |i: PoolItem<'_, Buf>| {
        let id = i.id;
        event("put", t, id);
        soft("put");
        drop(i);
        event("putend", t, id);
        soft("putend");
    };
    for op in ops {
        if over() {
            break;
        }
        match op.as_bytes()[0] {
            b't' => {
                event("take", t, 0);
                soft("take");
                NEW.with(|n| n.set(false));
                let mut b = pool.get();
                let limit = if NEW.with(|n| n.get()) { usize::MAX } else { cap };
                event("took", t, b.id);
                if !b.v.is_empty() {
                    event("dirty", t, b.id);
                }
                if b.v.capacity() > limit {
                    event("big", t, b.id);
                }
                // used as a buffer of the number of bytes that follow
                let n: usize = op[1..].parse().unwrap_or(0);
                let l = b.v.len();
                b.v.resize(l + n, t as u8);
                soft("took");
                held.push(b);
            }
            b'w' => {
                let n: usize = op[1..].parse().unwrap();
                if let Some(b) = held.last_mut() {
                    b.v.extend(std::iter::repeat(7).take(n));
                }
            }
            b'r' => {
                if !held.is_empty() {
                    give(held.remove(0));
                }
            }
            b'l' => block(Th::Last),
            _ => panic!("HARNESS: op {op}"),
        }
    }
    for i in held {
        give(i);
    }
}

fn exec_buf_n<const N: usize>(progs: &[Vec<String>], cap: usize, init: usize, plan: sched::Plan, w: &sched::Workers) -> sched::Inner {
    let pool: SyncPool<Buf, N> = SyncPool::new(BufCtx { ids: AtomicUsize::new(0), vec: VecPoolCtx { size_cap: cap, init_size: init } });
    let pool = &pool;
    let tasks = progs
        .iter()
        .map(|ops| Box::new(move || buf_program(pool, ops, cap)) as Box<dyn FnOnce() + Send + '_>)
        .collect();
    sched::run(tasks, plan, w)
}

pub fn exec_buf(n: usize, progs: &[Vec<String>], cap: usize, init: usize, plan: sched::Plan, w: &sched::Workers) -> sched::Inner {
    match n {
        1 => exec_buf_n::<1>(progs, cap, init, plan, w),
        2 => exec_buf_n::<2>(progs, cap, init, plan, w),
        3 => exec_buf_n::<3>(progs, cap, init, plan, w),
        4 => exec_buf_n::<4>(progs, cap, init, plan, w),
        _ => panic!("HARNESS: pool size {n}"),
    }
}
