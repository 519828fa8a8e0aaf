//! The controlled scheduler. Every atomic operation of the program under test arrives here as a call
//! of a `__tsan_*` function (the compiler emits them in place of the instruction), every futex wait or
//! wake of the standard library as a call of `syscall`. Controlled threads run one at a time; which one
//! runs after each of these points is decided by the list of deviations the explorer supplies.
#![feature(thread_local)]
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 4;
pub const NONE: u32 = 99;
/// Not scheduled, but allocates from a region of its own.
pub const SETUP: u32 = MAXT as u32;
pub const MAX_DEV: usize = 64;
pub const MAX_DEC: usize = 1 << 16;
pub const MAX_OBS: usize = 16;
pub const MAX_NEW: usize = 4096;
pub const MAX_TEXT: usize = 1 << 20;

pub const RUNNING: u32 = 0;
pub const DONE: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const ENDLESS: u32 = 3;
pub const TOO_BIG: u32 = 4;
pub const DIVERGED: u32 = 5;

/// A point at which more than one thread could go on.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub state: u64,
    pub options: u16,
    pub taken: u16,
    /// alternatives cost nothing (the running thread cannot go on anyway)
    pub free: u16,
    pub thread: u16,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Obs {
    pub hash: u64,
    pub len: u64,
    pub panicked: u32,
    pub op: u32,
}
/// Memory shared between the explorer and one execution.
#[repr(C)]
pub struct Shm {
    pub n_dev: u32,
    pub dev: [(u32, u32); MAX_DEV],
    /// which observation's text to keep (thread, number)
    pub want: (u32, u32),
    pub status: u32,
    pub blocked: u32,
    pub n_dec: u32,
    pub events: u64,
    pub switches: u64,
    pub n_new: u32,
    pub new: [u64; MAX_NEW],
    pub n_obs: [u32; MAXT],
    pub obs: [[Obs; MAX_OBS]; MAXT],
    pub text_len: u32,
    pub text: [u8; MAX_TEXT],
    pub dec: [Dec; MAX_DEC],
}
impl Shm {
    pub fn reset(&mut self) {
        self.status = RUNNING;
        self.blocked = 0;
        self.n_dec = 0;
        self.events = 0;
        self.switches = 0;
        self.n_new = 0;
        self.n_obs = [0; MAXT];
        self.text_len = 0;
    }
}

static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn set_shm(p: *mut Shm) {
    unsafe { SHM = p }
}

// ---- addresses at which to branch ----
const SET: usize = 1 << 14;
static mut SHARED: [u64; SET] = [0; SET];
fn slot(a: u64) -> usize {
    (a.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 50) as usize % SET
}
pub fn set_shared(list: &[u64]) {
    unsafe {
        SHARED = [0; SET];
        for a in list {
            let mut i = slot(*a);
            while SHARED[i] != 0 {
                i = (i + 1) % SET;
            }
            SHARED[i] = *a;
        }
    }
}
fn is_shared(a: u64) -> bool {
    let mut i = slot(a);
    unsafe {
        while SHARED[i] != 0 {
            if SHARED[i] == a {
                return true;
            }
            i = (i + 1) % SET;
        }
    }
    false
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
fn is_static(a: u64) -> bool {
    unsafe { (&raw const __data_start as u64..&raw const _end as u64).contains(&a) }
}

// ---- who accessed what in this execution ----
#[derive(Clone, Copy)]
struct Acc {
    addr: u64,
    readers: u8,
    writers: u8,
    told: u8,
}
static mut ACC: [Acc; SET] = [Acc { addr: 0, readers: 0, writers: 0, told: 0 }; SET];
static mut ACC_N: usize = 0;
fn note(me: u32, addr: u64, write: bool) {
    let s = shm();
    let mut i = slot(addr);
    unsafe {
        while ACC[i].addr != 0 && ACC[i].addr != addr {
            i = (i + 1) % SET;
        }
        if ACC[i].addr == 0 {
            ACC_N += 1;
            if ACC_N > SET * 3 / 4 {
                end(TOO_BIG);
            }
            ACC[i].addr = addr;
        }
        let a = &mut ACC[i];
        a.readers |= 1 << me;
        if write {
            a.writers |= 1 << me;
        }
        // What lies in static memory counts even if one thread alone touches it: next to it there may be
        // state of the standard library's compiled parts (of a Condvar, say), whose accesses are not seen.
        if a.told == 0 && a.writers != 0 && (a.readers & (a.readers - 1) != 0 || is_static(addr)) {
            a.told = 1;
            if !is_shared(addr) {
                if s.n_new as usize == MAX_NEW {
                    end(TOO_BIG);
                }
                s.new[s.n_new as usize] = addr;
                s.n_new += 1;
            }
        }
    }
}

// ---- threads ----
#[derive(Clone, Copy, PartialEq)]
enum Run {
    Absent,
    Ready,
    /// futex address, waits with a time limit
    Blocked(u64, bool),
    Done,
}
#[thread_local]
static ME: Cell<u32> = Cell::new(NONE);
static mut STATE: [Run; MAXT] = [Run::Absent; MAXT];
static mut TIMED_OUT: [bool; MAXT] = [false; MAXT];
static mut COUNT: [u64; MAXT] = [0; MAXT];
static mut VALUES: [u64; MAXT] = [0; MAXT];
static mut SPIN: [(u64, u32); MAXT] = [(0, 0); MAXT];
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
const SPIN_LIMIT: u32 = 64;
const EVENT_LIMIT: u64 = 3_000_000;

fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    }
    r
}
fn sleep_on(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        raw(202, w as *const _ as usize, 128, 0, 0, 0, 0);
    }
}
fn wake(w: &AtomicU32) {
    w.store(1, SeqCst);
    raw(202, w as *const _ as usize, 129, 1, 0, 0, 0);
}
fn end(status: u32) -> ! {
    shm().status = status;
    raw(231, 0, 0, 0, 0, 0, 0);
    loop {}
}
/// Ends the execution from the outside: the main thread after everything is over.
pub fn finish_execution() -> ! {
    end(DONE)
}
fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29).wrapping_add(0x9E37_79B9)
}
fn state_hash() -> u64 {
    let mut h = 1;
    for i in 0..MAXT {
        unsafe {
            let s = match STATE[i] {
                Run::Absent => 1,
                Run::Ready => 2,
                Run::Blocked(..) => 3,
                Run::Done => 4,
            };
            h = mix(mix(mix(h, s), COUNT[i]), VALUES[i]);
        }
    }
    h
}
fn ready(first: Option<u32>, opts: &mut [u32; MAXT]) -> usize {
    let mut n = 0;
    if let Some(f) = first {
        opts[0] = f;
        n = 1;
    }
    for i in 0..MAXT as u32 {
        if Some(i) != first && unsafe { STATE[i as usize] } == Run::Ready {
            opts[n] = i;
            n += 1;
        }
    }
    n
}
fn choose(n: usize, free: bool, me: u32) -> usize {
    if n == 1 {
        return 0;
    }
    let s = shm();
    let ix = s.n_dec;
    if ix as usize == MAX_DEC {
        end(TOO_BIG);
    }
    let mut taken = 0;
    for d in &s.dev[..s.n_dev as usize] {
        if d.0 == ix {
            taken = d.1 as usize;
        }
    }
    if taken >= n {
        end(DIVERGED);
    }
    s.dec[ix as usize] = Dec { state: state_hash(), options: n as u16, taken: taken as u16, free: free as u16, thread: me as u16 };
    s.n_dec = ix + 1;
    taken
}
fn switch(me: u32, to: u32) {
    if me == to {
        return;
    }
    shm().switches += 1;
    wake(&GO[to as usize]);
    sleep_on(&GO[me as usize]);
}
/// Picks who goes on when the running thread cannot.
fn next(me: u32) -> Option<u32> {
    let mut o = [0; MAXT];
    let mut n = ready(None, &mut o);
    if n == 0 {
        // only then do waits with a time limit end by it
        unsafe {
            for i in 0..MAXT {
                if let Run::Blocked(_, true) = STATE[i] {
                    STATE[i] = Run::Ready;
                    TIMED_OUT[i] = true;
                }
            }
        }
        n = ready(None, &mut o);
    }
    if n == 0 {
        if unsafe { STATE.iter().any(|s| matches!(s, Run::Blocked(..))) } {
            shm().blocked = unsafe { (0..MAXT).filter(|i| matches!(STATE[*i], Run::Blocked(..))).fold(0, |a, i| a | 1 << i) };
            end(DEADLOCK);
        }
        return None;
    }
    Some(o[choose(n, true, me)])
}
/// The running thread gives way if anybody else can run.
fn give_way(me: u32) {
    let mut o = [0; MAXT];
    let n = ready(None, &mut o);
    if n > 1 {
        // others first, in turn, the running thread last
        let at = o[..n].iter().position(|x| *x == me).unwrap();
        o[..n].rotate_left((at + 1) % n);
        let k = choose(n, false, me);
        switch(me, o[k]);
    }
}
fn count(me: u32) {
    let s = shm();
    s.events += 1;
    if s.events > EVENT_LIMIT {
        end(ENDLESS);
    }
    unsafe { COUNT[me as usize] += 1 }
}

#[inline(never)]
fn point(addr: u64, write: bool) {
    let me = ME.get();
    if me as usize >= MAXT {
        return;
    }
    count(me);
    note(me, addr, write);
    unsafe {
        let s = &mut SPIN[me as usize];
        if s.0 == addr {
            s.1 += 1;
            if s.1 >= SPIN_LIMIT {
                s.1 = 0;
                give_way(me);
                return;
            }
        } else {
            *s = (addr, 0);
        }
    }
    if is_shared(addr) {
        let mut o = [0; MAXT];
        let n = ready(Some(me), &mut o);
        let k = choose(n, false, me);
        switch(me, o[k]);
    }
}
#[inline(never)]
fn result(addr: u64, v: u64) {
    let me = ME.get() as usize;
    if me < MAXT {
        unsafe { VALUES[me] = mix(mix(VALUES[me], addr), v) }
    }
}

/// The calling thread allocates from the set-up region.
pub fn enter_setup() {
    ME.set(SETUP);
}
pub fn leave_setup() {
    ME.set(NONE);
}
/// Called by each controlled thread; returns when it is first scheduled.
pub fn enter(id: u32) {
    unsafe { STATE[id as usize] = Run::Ready }
    if ARRIVED.fetch_add(1, SeqCst) + 1 == unsafe { EXPECTED } {
        wake(&GO[MAXT]);
    }
    sleep_on(&GO[id as usize]);
    ME.set(id);
}
static mut EXPECTED: u32 = 0;
pub fn leave() {
    let me = ME.get();
    unsafe { STATE[me as usize] = Run::Done }
    let n = next(me);
    ME.set(NONE);
    match n {
        Some(t) => wake(&GO[t as usize]),
        None => wake(&GO[MAXT]),
    }
}
pub fn sleep_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        raw(202, &w as *const _ as usize, 128, 0, 0, 0, 0);
    }
}
pub fn expect(threads: u32) {
    unsafe { EXPECTED = threads }
}
/// Lets the controlled threads run until all are done.
pub fn run_all() {
    sleep_on(&GO[MAXT]);
    if let Some(t) = next(SETUP) {
        wake(&GO[t as usize]);
        sleep_on(&GO[MAXT]);
    }
}

// ---- futexes ----
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fail(errno: i32) -> i64 {
    unsafe { *__errno_location() = errno }
    -1
}
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let me = ME.get();
    if n == 202 && (me as usize) < MAXT {
        match b & 127 {
            0 | 9 => {
                // the wait is one step: value checked and asleep, or not
                point(a as u64, true);
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    return fail(11);
                }
                STATE[me as usize] = Run::Blocked(a as u64, d != 0);
                TIMED_OUT[me as usize] = false;
                if let Some(t) = next(me) {
                    switch(me, t);
                }
                if TIMED_OUT[me as usize] {
                    return fail(110);
                }
                return 0;
            }
            1 | 10 => {
                point(a as u64, true);
                let mut woken = 0;
                while woken < c {
                    let mut o = [0; MAXT];
                    let mut k = 0;
                    for i in 0..MAXT {
                        if matches!(STATE[i], Run::Blocked(x, _) if x == a as u64) {
                            o[k] = i;
                            k += 1;
                        }
                    }
                    if k == 0 {
                        break;
                    }
                    // who is woken matters only if not all are
                    let i = if c - woken >= k { 0 } else { choose(k, true, me) };
                    STATE[o[i]] = Run::Ready;
                    woken += 1;
                }
                return woken as i64;
            }
            _ => (),
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return fail(-r as i32);
    }
    r
}
fn pause() -> bool {
    let me = ME.get();
    if me as usize >= MAXT {
        return false;
    }
    count(me);
    give_way(me);
    true
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if !pause() {
        raw(24, 0, 0, 0, 0, 0, 0);
    }
    0
}
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: usize, b: usize) -> i32 {
    if pause() {
        return 0;
    }
    let r = raw(35, a, b, 0, 0, 0, 0);
    if r < 0 {
        return fail(-r as i32) as i32;
    }
    0
}
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(k: i32, f: i32, a: usize, b: usize) -> i32 {
    if pause() {
        return 0;
    }
    -raw(230, k as usize, f as usize, a, b, 0, 0) as i32
}

// ---- the operations themselves ----
macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            point(p as u64, false);
            let v = (*p).load(SeqCst);
            result(p as u64, v as u64);
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            point(p as u64, true);
            (*p).store(v, SeqCst);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
            point(p as u64, true);
            let v = match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) => v,
                Err(v) => v,
            };
            result(p as u64, v as u64);
            v
        }
        ops!(@rmw $t, $a, $xchg, swap);
        ops!(@rmw $t, $a, $add, fetch_add);
        ops!(@rmw $t, $a, $sub, fetch_sub);
        ops!(@rmw $t, $a, $and, fetch_and);
        ops!(@rmw $t, $a, $or, fetch_or);
        ops!(@rmw $t, $a, $xor, fetch_xor);
        ops!(@rmw $t, $a, $nand, fetch_nand);
    };
    (@rmw $t:ty, $a:ty, $n:ident, $m:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const $a, v: $t, _: i32) -> $t {
            point(p as u64, true);
            let v = (*p).$m(v, SeqCst);
            result(p as u64, v as u64);
            v
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// Keeps the symbols above alive.
pub fn link() -> usize {
    syscall as *const () as usize
}

// ---- memory: each controlled thread has a region of its own, so that addresses do not depend on
// the schedule; nothing in a region is used twice ----
pub struct Regions;
const REGION: usize = 64 << 20;
static BASE: AtomicUsize = AtomicUsize::new(0);
static mut USED: [usize; MAXT + 1] = [0; MAXT + 1];
pub fn set_regions(base: usize) {
    BASE.store(base, SeqCst);
}
pub const REGIONS_SIZE: usize = REGION * (MAXT + 1);

/// Addresses in a form that is the same in every run: in a region, or in the program's own data.
pub fn to_name(a: u64) -> String {
    let base = BASE.load(SeqCst) as u64;
    if a.wrapping_sub(base) < REGIONS_SIZE as u64 {
        format!("r{:x}", a - base)
    } else {
        format!("s{:x}", a.wrapping_sub(&BASE as *const _ as u64))
    }
}
pub fn from_name(s: &str) -> Option<u64> {
    let v = u64::from_str_radix(s.get(1..)?, 16).ok()?;
    match s.as_bytes()[0] {
        b'r' => Some(BASE.load(SeqCst) as u64 + v),
        _ => Some((&BASE as *const _ as u64).wrapping_add(v)),
    }
}

unsafe impl GlobalAlloc for Regions {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let me = ME.get() as usize;
        if me <= MAXT {
            let base = BASE.load(SeqCst);
            let at = (base + me * REGION + USED[me] + l.align() - 1) & !(l.align() - 1);
            let end = at + l.size() - (base + me * REGION);
            if end <= REGION {
                USED[me] = end;
                return at as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = BASE.load(SeqCst);
        if base == 0 || (p as usize).wrapping_sub(base) >= REGIONS_SIZE {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let base = BASE.load(SeqCst);
        if base == 0 || (p as usize).wrapping_sub(base) >= REGIONS_SIZE {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        }
        q
    }
}
#[global_allocator]
static ALLOC: Regions = Regions;
