//! Drop-in for `std::sync` in the instrumented copy of storm-ffi: locks are the real ones, but a thread
//! that takes part in a controlled run hands over control at every acquisition, release and atomic
//! access, so that one thread runs at a time, in an order chosen by the strategy. Other threads pass
//! straight through.
pub use ::std::sync::*;

use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;

pub mod sched {
    use super::real;
    use std::cell::Cell;
    use std::collections::BTreeMap;
    use std::time::{Duration, Instant};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum St {
        Ready,
        Blocked(usize),
        Done,
    }
    struct State {
        active: bool,
        stalled: bool,
        cur: usize,
        st: Vec<St>,
        prio: Vec<u64>,
        change: Vec<u64>,
        steps: u64,
        rng: u64,
        pct: bool,
        names: BTreeMap<usize, usize>,
        holder: BTreeMap<usize, usize>,
        trace: Vec<(u8, u8, u8)>,
        switches: u64,
        contended: u64,
        deadlock: Option<fn(String)>,
    }
    static S: real::Mutex<State> = real::Mutex::new(State {
        active: false,
        stalled: false,
        cur: 0,
        st: Vec::new(),
        prio: Vec::new(),
        change: Vec::new(),
        steps: 0,
        rng: 1,
        pct: false,
        names: BTreeMap::new(),
        holder: BTreeMap::new(),
        trace: Vec::new(),
        switches: 0,
        contended: 0,
        deadlock: None,
    });
    static CV: real::Condvar = real::Condvar::new();
    thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

    pub fn me() -> Option<usize> {
        let m = ME.with(|m| m.get());
        (m != usize::MAX).then_some(m)
    }
    fn lock_state() -> real::MutexGuard<'static, State> {
        S.lock().unwrap_or_else(|e| e.into_inner())
    }
    impl State {
        fn rand(&mut self) -> u64 {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 11
        }
        fn name(&mut self, lock: usize) -> usize {
            let n = self.names.len();
            *self.names.entry(lock).or_insert(n)
        }
        fn log(&mut self, t: usize, what: u8, lock: usize) {
            let l = self.name(lock) as u8;
            if self.trace.len() < 4096 {
                self.trace.push((t as u8, what, l));
            }
        }
        /// Choose who runs next. None: nobody can.
        fn choose(&mut self) -> Option<usize> {
            let ready: Vec<usize> = (0..self.st.len()).filter(|&i| self.st[i] == St::Ready).collect();
            if ready.is_empty() {
                return None;
            }
            self.steps += 1;
            if self.pct {
                if self.change.contains(&self.steps) && self.cur < self.prio.len() {
                    let c = self.cur;
                    let m = *self.prio.iter().min().unwrap();
                    self.prio[c] = m.saturating_sub(1);
                }
                ready.into_iter().max_by_key(|&i| self.prio[i])
            } else {
                let k = self.rand() as usize % ready.len();
                Some(ready[k])
            }
        }
        fn hand_over(&mut self, from: usize) {
            match self.choose() {
                Some(n) => {
                    if n != from {
                        self.switches += 1;
                    }
                    self.cur = n;
                    CV.notify_all();
                }
                None => {
                    if self.st.iter().any(|s| matches!(s, St::Blocked(_))) {
                        let d: Vec<String> = (0..self.st.len())
                            .map(|i| match self.st[i] {
                                St::Blocked(l) => format!(
                                    "thread {i} waits for lock {} held by {}",
                                    self.names.get(&l).copied().unwrap_or(99),
                                    self.holder.get(&l).map(|h| format!("thread {h}")).unwrap_or("nobody".into())
                                ),
                                _ => format!("thread {i} finished"),
                            })
                            .collect();
                        if let Some(f) = self.deadlock {
                            f(d.join("; "));
                        }
                    } else {
                        CV.notify_all();
                    }
                }
            }
        }
    }
    fn wait_turn(mut s: real::MutexGuard<'static, State>, me: usize) {
        while s.active && !(s.cur == me && s.st[me] == St::Ready) {
            s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    /// A point at which another thread may be given control.
    pub fn point() {
        let Some(me) = me() else { return };
        let mut s = lock_state();
        if !s.active {
            return;
        }
        s.hand_over(me);
        wait_turn(s, me);
    }
    pub(crate) fn blocked(lock: usize) {
        let Some(me) = me() else { return };
        let mut s = lock_state();
        if !s.active {
            drop(s);
            std::thread::yield_now();
            return;
        }
        s.contended += 1;
        s.log(me, b'b', lock);
        s.st[me] = St::Blocked(lock);
        s.hand_over(me);
        wait_turn(s, me);
    }
    pub(crate) fn acquired(lock: usize) {
        let Some(me) = me() else { return };
        let mut s = lock_state();
        if s.active {
            s.holder.insert(lock, me);
            s.log(me, b'a', lock);
        }
    }
    pub(crate) fn released(lock: usize) {
        let Some(me) = me() else { return };
        let mut s = lock_state();
        if !s.active {
            return;
        }
        s.holder.remove(&lock);
        s.log(me, b'r', lock);
        for x in s.st.iter_mut() {
            if *x == St::Blocked(lock) {
                *x = St::Ready;
            }
        }
        if std::thread::panicking() {
            return;
        }
        s.hand_over(me);
        wait_turn(s, me);
    }

    pub struct Outcome {
        pub trace: Vec<(u8, u8, u8)>,
        pub switches: u64,
        pub contended: u64,
        pub stalled: bool,
    }
    /// Run the bodies as threads under the controlled scheduler.
    pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, seed: u64, pct_depth: Option<u64>, deadlock: fn(String)) -> Outcome {
        let n = bodies.len();
        {
            let mut s = lock_state();
            s.rng = seed | 1;
            for _ in 0..8 {
                s.rand();
            }
            s.active = true;
            s.stalled = false;
            s.st = vec![St::Ready; n];
            s.steps = 0;
            s.pct = pct_depth.is_some();
            s.prio = (0..n).map(|_| 1_000_000).collect();
            for i in 0..n {
                s.prio[i] = 1_000_000 + s.rand() % 1_000_000;
            }
            s.change = vec![];
            for _ in 0..pct_depth.unwrap_or(0) {
                let k = 1 + s.rand() % 60;
                s.change.push(k);
            }
            s.names.clear();
            s.holder.clear();
            s.trace.clear();
            s.switches = 0;
            s.contended = 0;
            s.deadlock = Some(deadlock);
            s.cur = usize::MAX;
        }
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                std::thread::spawn(move || {
                    ME.with(|m| m.set(i));
                    wait_turn(lock_state(), i);
                    b();
                    let mut s = lock_state();
                    if s.active {
                        s.st[i] = St::Done;
                        s.hand_over(i);
                    }
                    ME.with(|m| m.set(usize::MAX));
                })
            })
            .collect();
        {
            let mut s = lock_state();
            s.hand_over(usize::MAX);
        }
        let t0 = Instant::now();
        let mut last = 0;
        let mut since = Instant::now();
        while !hs.iter().all(|h| h.is_finished()) {
            let s = lock_state();
            let (s, _) = CV.wait_timeout(s, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
            if s.steps != last {
                last = s.steps;
                since = Instant::now();
            }
            if since.elapsed() > Duration::from_secs(20) || t0.elapsed() > Duration::from_secs(60) {
                // something else than the instrumented locks blocks: let go of control
                let mut s = s;
                s.stalled = true;
                s.active = false;
                CV.notify_all();
                drop(s);
                break;
            }
        }
        let stalled = lock_state().stalled;
        if !stalled {
            for h in hs {
                let _ = h.join();
            }
        }
        let mut s = lock_state();
        s.active = false;
        Outcome { trace: std::mem::take(&mut s.trace), switches: s.switches, contended: s.contended, stalled }
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    g: Option<real::MutexGuard<'a, T>>,
    addr: usize,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> real::LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        self as *const Self as *const u8 as usize
    }
    pub fn lock(&self) -> real::LockResult<MutexGuard<'_, T>> {
        let addr = self.addr();
        if sched::me().is_none() {
            return match self.inner.lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), addr }),
                Err(e) => Err(real::PoisonError::new(MutexGuard { g: Some(e.into_inner()), addr })),
            };
        }
        sched::point();
        loop {
            match self.inner.try_lock() {
                Ok(g) => {
                    sched::acquired(addr);
                    return Ok(MutexGuard { g: Some(g), addr });
                }
                Err(real::TryLockError::Poisoned(e)) => {
                    sched::acquired(addr);
                    return Err(real::PoisonError::new(MutexGuard { g: Some(e.into_inner()), addr }));
                }
                Err(real::TryLockError::WouldBlock) => sched::blocked(addr),
            }
        }
    }
    pub fn try_lock(&self) -> real::TryLockResult<MutexGuard<'_, T>> {
        let addr = self.addr();
        sched::point();
        match self.inner.try_lock() {
            Ok(g) => {
                sched::acquired(addr);
                Ok(MutexGuard { g: Some(g), addr })
            }
            Err(real::TryLockError::Poisoned(e)) => {
                sched::acquired(addr);
                Err(real::TryLockError::Poisoned(real::PoisonError::new(MutexGuard { g: Some(e.into_inner()), addr })))
            }
            Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::released(self.addr);
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    g: Option<real::RwLockReadGuard<'a, T>>,
    addr: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    g: Option<real::RwLockWriteGuard<'a, T>>,
    addr: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> real::LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $guard:ident) => {
        pub fn $lock(&self) -> real::LockResult<$guard<'_, T>> {
            let addr = self as *const Self as *const u8 as usize;
            if sched::me().is_none() {
                return match self.inner.$lock() {
                    Ok(g) => Ok($guard { g: Some(g), addr }),
                    Err(e) => Err(real::PoisonError::new($guard { g: Some(e.into_inner()), addr })),
                };
            }
            sched::point();
            loop {
                match self.inner.$try() {
                    Ok(g) => {
                        sched::acquired(addr);
                        return Ok($guard { g: Some(g), addr });
                    }
                    Err(real::TryLockError::Poisoned(e)) => {
                        sched::acquired(addr);
                        return Err(real::PoisonError::new($guard { g: Some(e.into_inner()), addr }));
                    }
                    Err(real::TryLockError::WouldBlock) => sched::blocked(addr),
                }
            }
        }
        pub fn $try(&self) -> real::TryLockResult<$guard<'_, T>> {
            let addr = self as *const Self as *const u8 as usize;
            sched::point();
            match self.inner.$try() {
                Ok(g) => {
                    sched::acquired(addr);
                    Ok($guard { g: Some(g), addr })
                }
                Err(real::TryLockError::Poisoned(e)) => {
                    sched::acquired(addr);
                    Err(real::TryLockError::Poisoned(real::PoisonError::new($guard { g: Some(e.into_inner()), addr })))
                }
                Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard);
    rw!(write, try_write, RwLockWriteGuard);
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::released(self.addr);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        drop(self.g.take());
        sched::released(self.addr);
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    pub use std::sync::atomic::*;
    use std::sync::atomic as real;
    macro_rules! at {
        ($n:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $n(real::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(real::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    super::sched::point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    super::sched::point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    super::sched::point();
                    self.0.compare_exchange_weak(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, u: F) -> Result<$t, $t> {
                    super::sched::point();
                    self.0.fetch_update(s, f, u)
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.fetch_and(v, o)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.fetch_or(v, o)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    macro_rules! ari {
        ($n:ident, $t:ty) => {
            at!($n, $t);
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    super::sched::point();
                    self.0.fetch_max(v, o)
                }
            }
        };
    }
    at!(AtomicBool, bool);
    ari!(AtomicUsize, usize);
    ari!(AtomicU64, u64);
    ari!(AtomicU32, u32);
    ari!(AtomicI64, i64);
}
