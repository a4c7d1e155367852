//! Runs threads one at a time; at every scheduling point the schedule decides who goes on.
use std::{
    cell::Cell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Condvar, Mutex, MutexGuard},
    time::Duration,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Th {
    Ready,
    Asleep,
    /// Waits until nobody else can go on.
    Quiet,
    /// As Quiet, but after all others.
    Last,
    Done,
    /// Was chosen, but waits for a lock that one of the others has (a lock the scheduler does not know of).
    Stuck,
}

/// An event of the trace: what, task, item.
pub type Ev = (&'static str, usize, usize);

#[derive(Clone)]
pub enum Plan {
    /// The choices of a systematic search; continued by running on whoever runs.
    Choices(Vec<usize>),
    /// Who goes on at every point, as far as possible.
    Tasks(Vec<usize>),
    Random(u64),
}

pub struct Inner {
    pub th: Vec<Th>,
    pub woken: Vec<bool>,
    pub current: usize,
    plan: Plan,
    pos: usize,
    /// For every choice point: (options, chosen, whether staying was possible)
    pub taken: Vec<(usize, usize, bool)>,
    pub trace: Vec<Ev>,
    pub points: usize,
    /// Number of the point at which the last event was recorded.
    last: usize,
    in_row: usize,
    /// Who waits here, not elsewhere.
    parked: Vec<bool>,
    /// Where the system tells about the threads.
    stat: Vec<String>,
    /// Grows with everything that happens.
    steps: u64,
    /// Somebody was stuck: what happens then depends on the system, and it takes long.
    pub stuck: bool,
    pub over: bool,
    pub spin: bool,
    pub panicked: Option<String>,
    rng: u64,
}

pub struct Sched {
    pub inner: Mutex<Inner>,
    cv: Vec<Condvar>,
}

thread_local! {
    static STAT: String = std::fs::read_link("/proc/thread-self").map_or(String::new(), |p| format!("/proc/{}/stat", p.display()));
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

thread_local! {
    static MY_SCHED: std::cell::RefCell<Option<Arc<Sched>>> = const { std::cell::RefCell::new(None) };
}

pub fn me() -> usize {
    ME.with(|m| m.get())
}

fn lock(s: &Sched) -> MutexGuard<'_, Inner> {
    s.inner.lock().unwrap_or_else(|e| e.into_inner())
}

fn with<R>(f: impl FnOnce(&Sched) -> R) -> Option<R> {
    if me() == usize::MAX {
        return None;
    }
    let s = MY_SCHED.with(|m| m.borrow().clone())?;
    Some(f(&s))
}

/// Waits until the calling thread is the current one.
fn wait<'a>(s: &'a Sched, mut g: MutexGuard<'a, Inner>, me: usize) -> MutexGuard<'a, Inner> {
    while g.current != me && !g.over {
        g.parked[me] = true;
        let before = (g.steps, g.current);
        let (h, t) = s.cv[me].wait_timeout(g, LONG).unwrap_or_else(|e| e.into_inner());
        g = h;
        g.parked[me] = false;
        if t.timed_out() && g.current != me && !g.over && before == (g.steps, g.current) && g.current < g.th.len() {
            // nothing has happened for a while: does the current one wait for one of us?
            let c = g.current;
            if g.parked[c] || g.th[c] != Th::Ready || g.stat[c].is_empty() || !g.th.iter().enumerate().any(|(i, t)| i != c && *t == Th::Ready) {
                continue;
            }
            let stat = g.stat[c].clone();
            g.parked[me] = true;
            drop(g);
            let mut waits = true;
            for _ in 0..3 {
                waits &= std::fs::read_to_string(&stat).map_or(false, |t| t.rsplit(") ").next().map_or(false, |t| t.starts_with('S')));
                std::thread::sleep(Duration::from_micros(200));
            }
            g = lock(s);
            g.parked[me] = false;
            if waits && before == (g.steps, g.current) && !g.over && !g.parked[c] && g.th[c] == Th::Ready {
                g.th[c] = Th::Stuck;
                g.stuck = true;
                if choose(&mut g) {
                    s.cv[g.current].notify_one();
                } else {
                    finish(s, &mut g);
                }
            }
        }
    }
    g
}

/// The lock; someone who was stuck waits for their turn first.
fn enter(s: &Sched) -> MutexGuard<'_, Inner> {
    let mut g = lock(s);
    let m = me();
    g.steps += 1;
    if !g.over && g.th[m] == Th::Stuck {
        g.th[m] = Th::Ready;
        g = wait(s, g, m);
    }
    g
}

/// Records an event of the calling task's execution.
pub fn event(e: &'static str, t: usize, i: usize) {
    with(|s| {
        let mut g = enter(s);
        if !g.over {
            g.trace.push((e, t + 1, i));
            g.last = g.points;
        }
    });
}

pub fn over() -> bool {
    with(|s| lock(s).over).unwrap_or(true)
}

const MAX_POINTS: usize = 2500;
const MAX_ROW: usize = 100;
const LONG: Duration = Duration::from_millis(3);

/// Chooses the next thread. Returns false if nobody is left.
fn choose(g: &mut Inner) -> bool {
    let k = g.th.len();
    let mut ready: Vec<usize> = (0..k).filter(|i| g.th[*i] == Th::Ready).collect();
    g.steps += 1;
    if ready.is_empty() {
        // the lock must be free now
        if let Some(i) = (0..k).find(|i| g.th[*i] == Th::Stuck) {
            g.points += 1;
            g.th[i] = Th::Ready;
            g.current = i;
            return true;
        }
        g.trace.push(("quiet", 0, 0));
        let q: Vec<usize> = (0..k).filter(|i| g.th[*i] == Th::Quiet).collect();
        let l: Vec<usize> = (0..k).filter(|i| g.th[*i] == Th::Last).collect();
        ready = if !q.is_empty() { q } else { l };
        if ready.is_empty() {
            return false;
        }
    }
    let cur = g.current;
    let can_stay = ready.contains(&cur) && g.th[cur] == Th::Ready;
    g.points += 1;
    if g.points > MAX_POINTS {
        g.spin = true;
        if g.points - g.last > MAX_POINTS / 3 {
            // not even a poll ended for a long time
            g.trace.push(("hang", g.current + 1, 0));
        }
        return false;
    }
    g.in_row += 1;
    let forced = can_stay && g.in_row > MAX_ROW && ready.len() > 1;
    // the current one first, so that choice 0 is to run on
    if can_stay {
        ready.retain(|i| *i != cur);
        if !forced {
            ready.insert(0, cur);
        }
    }
    let n = ready.len();
    let c = match &g.plan {
        Plan::Choices(v) => {
            if n > 1 {
                let c = v.get(g.pos).copied().unwrap_or(0).min(n - 1);
                g.pos += 1;
                c
            } else {
                0
            }
        }
        Plan::Tasks(v) => {
            let c = v.get(g.pos).and_then(|t| ready.iter().position(|i| i == t)).unwrap_or(0);
            g.pos += 1;
            c
        }
        Plan::Random(_) => {
            g.rng ^= g.rng << 13;
            g.rng ^= g.rng >> 7;
            g.rng ^= g.rng << 17;
            if can_stay && !forced && g.rng % 3 != 0 {
                0
            } else {
                (g.rng >> 20) as usize % n
            }
        }
    };
    if n > 1 {
        g.taken.push((n, c, can_stay && !forced));
    }
    let next = ready[c];
    if next != cur {
        g.in_row = 0;
    }
    g.th[next] = Th::Ready;
    g.current = next;
    true
}

fn finish(s: &Sched, g: &mut Inner) {
    g.over = true;
    for c in &s.cv {
        c.notify_all();
    }
}

fn go_on<'a>(s: &'a Sched, mut g: MutexGuard<'a, Inner>, me: usize) {
    if g.over {
        return;
    }
    if g.th.contains(&Th::Stuck) {
        // it may be able to go on
        drop(g);
        std::thread::sleep(Duration::from_micros(200));
        g = lock(s);
        if g.over {
            return;
        }
    }
    if !choose(&mut g) {
        finish(s, &mut g);
        return;
    }
    if g.current != me {
        s.cv[g.current].notify_one();
        if g.th[me] != Th::Done {
            drop(wait(s, g, me));
        }
    }
}

/// A point at which another thread may go on.
pub fn point(_: &'static str) {
    if std::thread::panicking() {
        return;
    }
    with(|s| {
        let g = enter(s);
        if g.over && g.spin {
            drop(g);
            panic!("endless");
        }
        go_on(s, g, me());
    });
}

/// The calling thread stops until it is chosen again.
pub fn block(how: Th) {
    with(|s| {
        let mut g = enter(s);
        if g.over {
            return;
        }
        if how == Th::Asleep && g.woken[me()] {
            drop(g);
            point("");
            return;
        }
        let m = me();
        g.th[m] = how;
        go_on(s, g, m);
    });
}

/// Wakes a task (its number is the thread's).
pub fn wake(t: usize) {
    with(|s| {
        let mut g = enter(s);
        if g.over {
            return;
        }
        g.trace.push(("wake", t + 1, 0));
        g.woken[t] = true;
        if g.th[t] == Th::Asleep {
            g.th[t] = Th::Ready;
        }
    });
}

pub fn clear_woken() {
    with(|s| {
        let m = me();
        lock(s).woken[m] = false;
    });
}

/// Runs the tasks under a plan.
pub fn run(tasks: Vec<Box<dyn FnOnce() + Send + '_>>, plan: Plan, pool: &Workers) -> Inner {
    let k = tasks.len();
    let rng = match &plan {
        Plan::Random(s) => s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
        _ => 1,
    };
    let s = Arc::new(Sched {
        inner: Mutex::new(Inner {
            th: vec![Th::Ready; k],
            woken: vec![false; k],
            current: usize::MAX,
            plan,
            pos: 0,
            taken: vec![],
            trace: vec![],
            points: 0,
            last: 0,
            in_row: 0,
            parked: vec![false; k],
            stat: vec![String::new(); k],
            steps: 0,
            stuck: false,
            over: false,
            spin: false,
            panicked: None,
            rng,
        }),
        cv: (0..k).map(|_| Condvar::new()).collect(),
    });
    pool.run(tasks, &s);
    Arc::try_unwrap(s).ok().expect("HARNESS: schedule still used").inner.into_inner().unwrap_or_else(|e| e.into_inner())
}

type Job = Box<dyn FnOnce() + Send + 'static>;

/// Threads that are kept between executions.
pub struct Workers {
    tx: Vec<std::sync::mpsc::Sender<Job>>,
}

impl Workers {
    pub fn new(n: usize) -> Self {
        Self {
            tx: (0..n)
                .map(|_| {
                    let (tx, rx) = std::sync::mpsc::channel::<Job>();
                    std::thread::spawn(move || {
                        for j in rx {
                            j();
                        }
                    });
                    tx
                })
                .collect(),
        }
    }

    fn run(&self, tasks: Vec<Box<dyn FnOnce() + Send + '_>>, s: &Arc<Sched>) {
        let (tx, rx) = std::sync::mpsc::channel();
        let k = tasks.len();
        {
            let mut g = lock(s);
            choose(&mut g);
        }
        for (n, t) in tasks.into_iter().enumerate() {
            // the jobs end before this function does
            let t: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(t) };
            let s = Arc::clone(s);
            let tx = tx.clone();
            self.tx[n]
                .send(Box::new(move || {
                    ME.with(|m| m.set(n));
                    MY_SCHED.with(|m| *m.borrow_mut() = Some(Arc::clone(&s)));
                    {
                        let mut g = lock(&s);
                        g.stat[n] = STAT.with(|t| t.clone());
                        drop(wait(&s, g, n));
                    }
                    let res = catch_unwind(AssertUnwindSafe(t));
                    {
                        let mut g = enter(&s);
                        if let Err(e) = res {
                            let text = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                                .unwrap_or_default();
                            g.panicked = Some(text);
                            finish(&s, &mut g);
                        }
                        g.th[n] = Th::Done;
                        go_on(&s, g, n);
                    }
                    ME.with(|m| m.set(usize::MAX));
                    MY_SCHED.with(|m| *m.borrow_mut() = None);
                    drop(s);
                    let _ = tx.send(());
                }))
                .unwrap();
        }
        for _ in 0..k {
            rx.recv().unwrap();
        }
    }
}
