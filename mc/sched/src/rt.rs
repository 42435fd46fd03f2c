//! The runtime which instrumented code calls at each of its accesses to memory, and a scheduler
//! which lets one thread run at a time, and switches between them only where it is told to: before
//! accesses to memory which another thread uses too, at least one of them writing. Futexes are part
//! of it: a thread which would sleep lets another one run, and if none can, that is a deadlock.

use std::alloc::{GlobalAlloc, Layout};
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

pub const THREADS: usize = 3;
pub const CONF: usize = 1 << 13;
pub const MSG: usize = 1 << 17;

/// What a child leaves to the process which forked it
#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub points: u32,
    pub switches: u32,
    pub nconf: u32,
    pub accesses: u64,
    pub msg_len: usize,
    pub conf: [usize; CONF],
    pub msg: [u8; MSG],
}

// ---- system calls -------------------------------------------------------------------------

pub unsafe fn raw(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
const FUTEX: usize = 202;

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
    fn mmap(a: usize, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn map(n: usize, shared: bool) -> *mut u8 {
    // MAP_ANONYMOUS | MAP_NORESERVE, MAP_SHARED or MAP_PRIVATE
    let p = unsafe { mmap(0, n, 3, 0x4020 | if shared { 1 } else { 2 }, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}

/// Stands in for that of libc, which std uses for futexes
#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let id = ID.get();
    if n == FUTEX && id != 0 {
        match b & 0x7f {
            0 | 9 => return wait(id, a, c as u32),
            1 | 10 => return wake(id, a, c),
            _ => {}
        }
    }
    let r = unsafe { raw(n, [a, b, c, d, e, f]) };
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        return -1;
    }
    r
}

/// Stands in for that of libc, which std uses for the seeds of hash maps: each run is the same
#[unsafe(no_mangle)]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n {
        unsafe { *p.add(i) = i as u8 };
    }
    n as isize
}

// ---- memory -------------------------------------------------------------------------------

/// Each thread has memory of its own, which is not used again, so that an address is one thing
pub struct Bump;
const ARENA: usize = 1 << 32;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: [AtomicUsize; THREADS + 1] = [const { AtomicUsize::new(0) }; THREADS + 1];

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mut base = BASE.load(SeqCst);
        if base == 0 {
            base = map((THREADS + 1) * ARENA, false) as usize;
            BASE.store(base, SeqCst);
        }
        let id = ID.get();
        // no two blocks within the same granule
        let (size, align) = ((l.size() + 7) & !7, l.align().max(8));
        let at = NEXT[id].fetch_add(size + align, SeqCst);
        if at + size + align > ARENA {
            return std::ptr::null_mut();
        }
        ((base + id * ARENA + at + align - 1) & !(align - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}

// ---- accesses -----------------------------------------------------------------------------

thread_local! {
    /// 0 for all which is not controlled
    static ID: Cell<usize> = const { Cell::new(0) };
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

const TABLE: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Blocked {
    addr: usize,
    val: u32,
    woken: bool,
}

struct World {
    shm: *mut Shm,
    n: usize,
    /// at the point of this number, go on with that thread
    plan: Vec<(u32, usize)>,
    planned: usize,
    points: u32,
    /// points since the last switch
    same: u32,
    switches: u32,
    done: [bool; THREADS + 1],
    blocked: [Option<Blocked>; THREADS + 1],
    conf: Vec<usize>,
    filter: [u64; 1024],
    keys: [usize; TABLE],
    bits: [u8; TABLE],
    used: usize,
    accesses: u64,
}

struct Global(UnsafeCell<World>);
// Only used by the thread whose turn it is
unsafe impl Sync for Global {}
static WORLD: Global = Global(UnsafeCell::new(World {
    shm: std::ptr::null_mut(),
    n: 0,
    plan: Vec::new(),
    planned: 0,
    points: 0,
    same: 0,
    switches: 0,
    done: [false; THREADS + 1],
    blocked: [None; THREADS + 1],
    conf: Vec::new(),
    filter: [0; 1024],
    keys: [0; TABLE],
    bits: [0; TABLE],
    used: 0,
    accesses: 0,
}));
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
static READY: AtomicU32 = AtomicU32::new(0);

#[allow(clippy::mut_from_ref)]
fn world() -> &'static mut World {
    unsafe { &mut *WORLD.0.get() }
}

fn slot(g: usize) -> usize {
    g.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 48
}

fn record(w: &mut World, g: usize, id: usize, write: bool) {
    let mut i = slot(g);
    while w.keys[i] != 0 && w.keys[i] != g {
        i = (i + 1) % TABLE;
    }
    if w.keys[i] == 0 {
        if w.used > TABLE / 2 {
            return;
        }
        w.used += 1;
        w.keys[i] = g;
    }
    w.bits[i] |= (1 + u8::from(write)) << (2 * (id - 1));
}

fn access(addr: usize, n: usize, write: bool) {
    let id = ID.get();
    if id == 0 || n == 0 {
        return;
    }
    let (lo, hi) = STACK.get();
    if addr >= lo && addr < hi {
        return;
    }
    let w = world();
    w.accesses += 1;
    let mut point = false;
    for g in (addr >> 3)..=((addr + n - 1) >> 3) {
        record(w, g, id, write);
        let s = slot(g);
        point |= w.filter[s >> 6] >> (s & 63) & 1 == 1 && w.conf.binary_search(&g).is_ok();
    }
    if point {
        w.points += 1;
        w.same += 1;
        if let Some((k, t)) = w.plan.get(w.planned).copied() {
            if k == w.points {
                w.planned += 1;
                if t != id && runnable(w, t) {
                    switch(id, t);
                }
                return;
            }
        }
        // waiting for another thread without sleeping
        if w.same > 5000 {
            if let Some(t) = (1..=w.n).map(|i| (id + i - 1) % w.n + 1).find(|t| *t != id && runnable(w, *t)) {
                switch(id, t);
            }
        }
    }
}

// ---- scheduler ----------------------------------------------------------------------------

fn runnable(w: &World, t: usize) -> bool {
    !w.done[t]
        && match w.blocked[t] {
            None => true,
            Some(b) => b.woken || unsafe { (*(b.addr as *const AtomicU32)).load(SeqCst) } != b.val,
        }
}

fn hand(t: usize) {
    world().same = 0;
    world().switches += 1;
    TURN.store(t as u32, SeqCst);
    unsafe { raw(FUTEX, [TURN.as_ptr() as usize, 129, i32::MAX as usize, 0, 0, 0]) };
}

fn until(t: usize) {
    loop {
        let now = TURN.load(SeqCst);
        if now == t as u32 {
            return;
        }
        unsafe { raw(FUTEX, [TURN.as_ptr() as usize, 128, now as usize, 0, 0, 0]) };
    }
}

fn switch(id: usize, t: usize) {
    hand(t);
    until(id);
}

/// Lets another thread run: the next one in order which can
fn other(id: usize) -> Option<usize> {
    let w = world();
    (1..=w.n).map(|i| (id + i - 1) % w.n + 1).find(|t| runnable(w, *t))
}

fn wait(id: usize, addr: usize, val: u32) -> isize {
    let w = world();
    w.blocked[id] = Some(Blocked { addr, val, woken: false });
    loop {
        if runnable(w, id) {
            w.blocked[id] = None;
            return 0;
        }
        match other(id) {
            Some(t) => switch(id, t),
            None => end(3, "all threads wait for each other"),
        }
    }
}

fn wake(id: usize, addr: usize, n: usize) -> isize {
    let w = world();
    let mut k = 0;
    for t in 1..=w.n {
        if let Some(b) = &mut w.blocked[t] {
            if t != id && b.addr == addr && !b.woken && k < n {
                b.woken = true;
                k += 1;
            }
        }
    }
    k as isize
}

pub fn end(status: u32, msg: &str) -> ! {
    let w = world();
    let s = unsafe { &mut *w.shm };
    s.msg_len = msg.len().min(MSG);
    s.msg[..s.msg_len].copy_from_slice(&msg.as_bytes()[..s.msg_len]);
    s.points = w.points;
    s.switches = w.switches;
    s.accesses = w.accesses;
    let mut n = 0;
    for (k, b) in w.keys.iter().zip(&w.bits) {
        let threads = (0..THREADS).filter(|t| b >> (2 * t) & 3 != 0).count();
        if threads > 1 && b & 0b10_1010 != 0 && n < CONF {
            s.conf[n] = *k;
            n += 1;
        }
    }
    s.nconf = n as u32;
    s.status = status;
    unsafe { raw(231, [0; 6]) };
    unreachable!()
}

/// Runs the programs, beginning with the thread `first` (1 and up)
pub fn threads(shm: *mut Shm, conf: &[usize], plan: &[(u32, usize)], first: usize, programs: Vec<Box<dyn FnOnce() + Send>>) {
    let w = world();
    w.shm = shm;
    w.n = programs.len();
    w.plan = plan.to_vec();
    w.conf = conf.to_vec();
    for g in conf {
        let s = slot(*g);
        w.filter[s >> 6] |= 1 << (s & 63);
    }
    let n = w.n as u32;
    let handles: Vec<_> = programs
        .into_iter()
        .enumerate()
        .map(|(i, p)| {
            std::thread::spawn(move || {
                let here = 0u8;
                let at = &raw const here as usize;
                STACK.set((at - (2 << 20), at + 4096));
                READY.fetch_add(1, SeqCst);
                until(i + 1);
                ID.set(i + 1);
                p();
                ID.set(0);
                let w = world();
                w.done[i + 1] = true;
                match other(i + 1) {
                    Some(t) => hand(t),
                    None if (1..=w.n).all(|t| w.done[t]) => hand(0),
                    None => end(3, "all other threads wait for each other"),
                }
            })
        })
        .collect();
    while READY.load(SeqCst) != n {
        std::thread::yield_now();
    }
    hand(first);
    until(0);
    for h in handles {
        let _ = h.join();
    }
}

pub fn begin(shm: *mut Shm) {
    world().shm = shm;
}

// ---- what instrumented code calls ---------------------------------------------------------

macro_rules! plain {
    ($($r:ident $w:ident $ur:ident $uw:ident $n:expr;)*) => {$(
        #[unsafe(no_mangle)] extern "C" fn $r(p: usize) { access(p, $n, false) }
        #[unsafe(no_mangle)] extern "C" fn $w(p: usize) { access(p, $n, true) }
        #[unsafe(no_mangle)] extern "C" fn $ur(p: usize) { access(p, $n, false) }
        #[unsafe(no_mangle)] extern "C" fn $uw(p: usize) { access(p, $n, true) }
    )*};
}
plain! {
    __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 1;
    __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 2;
    __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 4;
    __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 8;
    __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 16;
    __tsan_volatile_read1 __tsan_volatile_write1 __tsan_unaligned_volatile_read1 __tsan_unaligned_volatile_write1 1;
    __tsan_volatile_read2 __tsan_volatile_write2 __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_write2 2;
    __tsan_volatile_read4 __tsan_volatile_write4 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_write4 4;
    __tsan_volatile_read8 __tsan_volatile_write8 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_write8 8;
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_init() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_func_entry(_: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_func_exit() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_read_range(p: usize, n: usize) {
    access(p, n, false)
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_write_range(p: usize, n: usize) {
    access(p, n, true)
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_vptr_read(p: usize) {
    access(p, 8, false)
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_vptr_update(p: usize, _: usize) {
    access(p, 8, true)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, false);
    access(d as usize, n, true);
    unsafe { std::ptr::copy(s, d, n) };
    d
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { __tsan_memcpy(d, s, n) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    access(d as usize, n, true);
    unsafe { std::ptr::write_bytes(d, v as u8, n) };
    d
}

macro_rules! atomics {
    ($($t:ty, $a:ident, $n:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $strong:ident $weak:ident;)*) => {$(
        #[unsafe(no_mangle)] unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t {
            access(p as usize, $n, false);
            unsafe { (*(p as *const std::sync::atomic::$a)).load(SeqCst) }
        }
        #[unsafe(no_mangle)] unsafe extern "C" fn $store(p: *const $t, v: $t, _: i32) {
            access(p as usize, $n, true);
            unsafe { (*(p as *const std::sync::atomic::$a)).store(v, SeqCst) }
        }
        atomics!(@ $t, $a, $n, $xchg swap);
        atomics!(@ $t, $a, $n, $add fetch_add);
        atomics!(@ $t, $a, $n, $sub fetch_sub);
        atomics!(@ $t, $a, $n, $and fetch_and);
        atomics!(@ $t, $a, $n, $or fetch_or);
        atomics!(@ $t, $a, $n, $xor fetch_xor);
        atomics!(@ $t, $a, $n, $nand fetch_nand);
        #[unsafe(no_mangle)] unsafe extern "C" fn $cas(p: *const $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            access(p as usize, $n, true);
            unsafe { (*(p as *const std::sync::atomic::$a)).compare_exchange(c, v, SeqCst, SeqCst) }.unwrap_or_else(|x| x)
        }
        #[unsafe(no_mangle)] unsafe extern "C" fn $strong(p: *const $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            access(p as usize, $n, true);
            match unsafe { (*(p as *const std::sync::atomic::$a)).compare_exchange(*c, v, SeqCst, SeqCst) } {
                Ok(_) => 1,
                Err(x) => { unsafe { *c = x }; 0 }
            }
        }
        #[unsafe(no_mangle)] unsafe extern "C" fn $weak(p: *const $t, c: *mut $t, v: $t, a: i32, b: i32) -> i32 {
            unsafe { $strong(p, c, v, a, b) }
        }
    )*};
    (@ $t:ty, $a:ident, $n:expr, $name:ident $op:ident) => {
        #[unsafe(no_mangle)] unsafe extern "C" fn $name(p: *const $t, v: $t, _: i32) -> $t {
            access(p as usize, $n, true);
            unsafe { (*(p as *const std::sync::atomic::$a)).$op(v, SeqCst) }
        }
    };
}
atomics! {
    u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak;
    u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak;
    u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak;
    u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak;
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
