//! Deterministic single-threaded executor with virtual time and seeded scheduling.

use std::{
    collections::BTreeMap,
    error::Error as StdError,
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant, SystemTime},
};

use fusio::{
    MaybeSend, MaybeSync,
    dynamic::MaybeSendFuture,
    executor::{Executor, JoinHandle, NoopMutex, NoopRwLock, Timer},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    fut: Option<BoxFut>,
    flag: Arc<Flag>,
}

struct State {
    tasks: Vec<Option<Task>>,
    timers: BTreeMap<(Duration, u64), Waker>,
    timer_seq: u64,
    vnow: Duration,
    rng: u64,
    base_sys: SystemTime,
}

#[derive(Clone)]
pub struct SimExec {
    st: Arc<Mutex<State>>,
    base: Instant,
    /// Bias: 0 = always run the first ready task (FIFO), otherwise random.
    random: bool,
}

pub struct SimJoin<R>(Arc<Mutex<(Option<R>, Option<Waker>)>>);

impl<R: MaybeSend> JoinHandle<R> for SimJoin<R> {
    fn join(self) -> impl Future<Output = Result<R, Box<dyn StdError + Send + Sync>>> + MaybeSend {
        std::future::poll_fn(move |cx| {
            let mut g = self.0.lock().unwrap();
            match g.0.take() {
                Some(v) => Poll::Ready(Ok(v)),
                None => {
                    g.1 = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}

struct Sleep {
    st: Arc<Mutex<State>>,
    deadline: Duration,
    key: Option<(Duration, u64)>,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let st = self.st.clone();
        let mut g = st.lock().unwrap();
        if let Some(k) = self.key.take() {
            g.timers.remove(&k);
        }
        if g.vnow >= self.deadline {
            return Poll::Ready(());
        }
        g.timer_seq += 1;
        let k = (self.deadline, g.timer_seq);
        g.timers.insert(k, cx.waker().clone());
        self.key = Some(k);
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            let st = self.st.clone();
            let w = st.lock().unwrap().timers.remove(&k);
            drop(w);
        }
    }
}

thread_local! {
    /// Tokio runtime of this thread: parts of the engine spawn onto the ambient runtime.
    static RT: std::cell::OnceCell<tokio::runtime::Runtime> = const { std::cell::OnceCell::new() };
}

/// Run `f` with an ambient single-threaded tokio runtime.
pub fn with_rt<T>(f: impl FnOnce() -> T) -> T {
    RT.with(|rt| {
        let rt = rt.get_or_init(|| tokio::runtime::Builder::new_current_thread().build().unwrap());
        let _g = rt.enter();
        f()
    })
}

/// Give the ambient runtime's tasks a few turns; true once `done` holds.
fn tokio_turns(done: &dyn Fn() -> bool) -> bool {
    RT.with(|rt| {
        let Some(rt) = rt.get() else { return false };
        for _ in 0..64 {
            rt.block_on(async {
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
            });
            if done() {
                return true;
            }
        }
        false
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stuck {
    /// No task can ever run again.
    Deadlock,
    /// The step budget ran out.
    Livelock,
}

impl SimExec {
    pub fn new(seed: u64, random: bool, start: Duration) -> Self {
        Self {
            st: Arc::new(Mutex::new(State {
                tasks: Vec::new(),
                timers: BTreeMap::new(),
                timer_seq: 0,
                vnow: start,
                rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
                base_sys: SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000),
            })),
            base: Instant::now(),
            random,
        }
    }

    pub fn vnow(&self) -> Duration {
        self.st.lock().unwrap().vnow
    }

    fn next_rng(g: &mut State) -> u64 {
        g.rng ^= g.rng << 13;
        g.rng ^= g.rng >> 7;
        g.rng ^= g.rng << 17;
        g.rng
    }

    fn ready(&self) -> Vec<usize> {
        let g = self.st.lock().unwrap();
        g.tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| {
                t.as_ref()
                    .is_some_and(|t| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))
            })
            .map(|(i, _)| i)
            .collect()
    }

    fn pick(&self, n: usize) -> usize {
        if !self.random || n <= 1 {
            return 0;
        }
        let mut g = self.st.lock().unwrap();
        (Self::next_rng(&mut g) % n as u64) as usize
    }

    fn poll_task(&self, i: usize) {
        let (mut fut, flag) = {
            let mut g = self.st.lock().unwrap();
            let Some(t) = g.tasks[i].as_mut() else { return };
            let Some(fut) = t.fut.take() else { return };
            (fut, t.flag.clone())
        };
        flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(flag);
        let mut cx = Context::from_waker(&waker);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            fut.as_mut().poll(&mut cx)
        }));
        match res {
            Ok(Poll::Pending) => {
                let mut g = self.st.lock().unwrap();
                if let Some(t) = g.tasks[i].as_mut() {
                    t.fut = Some(fut);
                }
            }
            _ => {
                let old = self.st.lock().unwrap().tasks[i].take();
                drop(fut);
                drop(old);
            }
        }
    }

    /// Add a task that never leaves this thread (no `Send` bound: nothing here uses another one).
    pub fn spawn_here<F: Future<Output = ()> + 'static>(&self, fut: F) {
        let boxed: Pin<Box<dyn Future<Output = ()>>> = Box::pin(fut);
        // SAFETY: tasks are polled and dropped by the thread that drives the executor, this one.
        let boxed: BoxFut = unsafe { std::mem::transmute(boxed) };
        let task = Task { fut: Some(boxed), flag: Arc::new(Flag(AtomicBool::new(true))) };
        self.st.lock().unwrap().tasks.push(Some(task));
    }

    /// Advance virtual time to the next timer; false if there is none.
    fn advance(&self, limit: Option<Duration>) -> bool {
        let wakers = {
            let mut g = self.st.lock().unwrap();
            let Some((&(d, _), _)) = g.timers.iter().next() else { return false };
            if let Some(l) = limit
                && d > l
            {
                return false;
            }
            if d > g.vnow {
                g.vnow = d;
            }
            let now = g.vnow;
            let keys: Vec<_> =
                g.timers.keys().take_while(|(dl, _)| *dl <= now).cloned().collect();
            keys.into_iter().filter_map(|k| g.timers.remove(&k)).collect::<Vec<_>>()
        };
        for w in wakers {
            w.wake();
        }
        true
    }

    /// Drive `fut` to completion together with the spawned tasks.
    pub fn block_on<F: Future>(&self, fut: F) -> Result<F::Output, Stuck> {
        let mut fut = std::pin::pin!(fut);
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let waker = Waker::from(flag.clone());
        let mut steps: u64 = 0;
        loop {
            steps += 1;
            if steps > 20_000_000 {
                return Err(Stuck::Livelock);
            }
            let ready = self.ready();
            let main_ready = flag.0.load(Ordering::SeqCst);
            let n = ready.len() + usize::from(main_ready);
            if n == 0 {
                if tokio_turns(&|| flag.0.load(Ordering::SeqCst) || !self.ready().is_empty()) {
                    continue;
                }
                if !self.advance(None) {
                    return Err(Stuck::Deadlock);
                }
                continue;
            }
            let c = self.pick(n);
            if main_ready && c == 0 {
                flag.0.store(false, Ordering::SeqCst);
                let mut cx = Context::from_waker(&waker);
                if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                    return Ok(v);
                }
            } else {
                self.poll_task(ready[c - usize::from(main_ready)]);
            }
        }
    }

    /// Run tasks until `done` holds or `budget` scheduling steps are used; returns the steps used.
    pub fn run_until(&self, done: impl Fn() -> bool, budget: u64) -> Result<u64, Stuck> {
        let mut steps = 0u64;
        while !done() && steps < budget {
            let ready = self.ready();
            if ready.is_empty() {
                if tokio_turns(&|| !self.ready().is_empty()) || self.advance(None) {
                    continue;
                }
                return Err(Stuck::Deadlock);
            }
            steps += 1;
            if steps > 20_000_000 {
                return Err(Stuck::Livelock);
            }
            let c = self.pick(ready.len());
            self.poll_task(ready[c]);
        }
        Ok(steps)
    }

    /// Run every task that can run without time passing.
    pub fn run_ready(&self) {
        let mut steps = 0u64;
        loop {
            let ready = self.ready();
            if steps > 5_000_000 {
                return;
            }
            if ready.is_empty() {
                if tokio_turns(&|| !self.ready().is_empty()) {
                    continue;
                }
                return;
            }
            steps += 1;
            let c = self.pick(ready.len());
            self.poll_task(ready[c]);
        }
    }

    /// Let `dur` of virtual time pass, running whatever becomes ready.
    pub fn run_for(&self, dur: Duration) {
        let end = self.vnow() + dur;
        loop {
            self.run_ready();
            if !self.advance(Some(end)) {
                break;
            }
        }
        self.st.lock().unwrap().vnow = end;
    }

    /// Crash: every task disappears without running any further.
    pub fn kill(&self, leak: bool) {
        let tasks = {
            let mut g = self.st.lock().unwrap();
            std::mem::take(&mut g.tasks)
        };
        if leak {
            // unfinished clients run no destructors: some of the engine's assert on being finished
            for t in tasks.into_iter().flatten() {
                if let Some(f) = t.fut {
                    std::mem::forget(f);
                }
            }
        } else {
            drop(tasks);
        }
        let timers = {
            let mut g = self.st.lock().unwrap();
            std::mem::take(&mut g.timers)
        };
        drop(timers);
    }

    pub fn live_tasks(&self) -> usize {
        self.st.lock().unwrap().tasks.iter().filter(|t| t.is_some()).count()
    }
}

impl Executor for SimExec {
    type JoinHandle<R>
        = SimJoin<R>
    where
        R: MaybeSend;
    type Mutex<T>
        = NoopMutex<T>
    where
        T: MaybeSend + MaybeSync;
    type RwLock<T>
        = NoopRwLock<T>
    where
        T: MaybeSend + MaybeSync;

    fn spawn<F>(&self, future: F) -> Self::JoinHandle<F::Output>
    where
        F: Future + MaybeSend + 'static,
        F::Output: MaybeSend,
    {
        let slot = Arc::new(Mutex::new((None, None::<Waker>)));
        let s2 = slot.clone();
        let fut = async move {
            let v = future.await;
            let mut g = s2.lock().unwrap();
            g.0 = Some(v);
            if let Some(w) = g.1.take() {
                w.wake();
            }
        };
        // SAFETY of lifetimes: F is 'static; F::Output lives inside the Arc only.
        let boxed: Pin<Box<dyn Future<Output = ()> + Send + '_>> = Box::pin(fut);
        let boxed: BoxFut = unsafe { std::mem::transmute(boxed) };
        let task = Task { fut: Some(boxed), flag: Arc::new(Flag(AtomicBool::new(true))) };
        self.st.lock().unwrap().tasks.push(Some(task));
        SimJoin(slot)
    }

    fn mutex<T>(value: T) -> Self::Mutex<T>
    where
        T: MaybeSend + MaybeSync,
    {
        NoopMutex::new(value)
    }

    fn rw_lock<T>(value: T) -> Self::RwLock<T>
    where
        T: MaybeSend + MaybeSync,
    {
        NoopRwLock::new(value)
    }
}

impl Timer for SimExec {
    fn sleep(&self, dur: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> {
        let deadline = self.vnow() + dur;
        Box::pin(Sleep { st: self.st.clone(), deadline, key: None })
    }

    fn now(&self) -> Instant {
        self.base + self.vnow()
    }

    fn system_time(&self) -> SystemTime {
        let g = self.st.lock().unwrap();
        g.base_sys + g.vnow
    }
}
