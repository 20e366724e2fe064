//! Global allocator of the harness: forwards to the system allocator, refuses absurd single
//! requests, and can track the allocations of the current thread (for leak and layout checks).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;

pub struct Tracking;

/// No case of the harness has a legitimate need for a single block this large.
pub const OVERSIZE: usize = 1 << 30;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static JITTER: Cell<u64> = const { Cell::new(0) };
    static METER: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TABLE: UnsafeCell<Option<Table>> = const { UnsafeCell::new(None) };
}

#[derive(Default)]
struct Table {
    live: HashMap<usize, (usize, usize)>,
    allocs: u64,
    frees: u64,
    /// blocks that were allocated before, and their bytes
    older: (usize, usize),
    errors: Vec<String>,
}

#[derive(Debug)]
pub struct Report {
    pub allocs: u64,
    pub frees: u64,
    pub leaked_blocks: usize,
    pub leaked_bytes: usize,
    pub errors: Vec<String>,
}

/// From now on allocations of this thread give way to other threads now and then.
pub fn give_way(seed: u64) {
    JITTER.with(|j| j.set(seed | 1));
}

fn pause() {
    let _ = JITTER.try_with(|j| {
        let mut s = j.get();
        if s == 0 {
            return;
        }
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        j.set(s);
        match s >> 32 & 63 {
            0 => unsafe {
                libc::usleep(1 + (s >> 40 & 127) as u32);
            },
            1..=6 => unsafe {
                libc::sched_yield();
            },
            _ => (),
        }
    });
}

fn with_table(f: impl FnOnce(&mut Table)) {
    let on = ON.try_with(|o| o.get()).unwrap_or(false);
    if !on || BUSY.with(|b| b.get()) {
        return;
    }
    BUSY.with(|b| b.set(true));
    TABLE.with(|t| unsafe {
        if let Some(t) = (*t.get()).as_mut() {
            f(t)
        }
    });
    BUSY.with(|b| b.set(false));
}

/// Notes that this thread has gained (or lost) so many bytes.
fn meter(bytes: i64) {
    if METER.try_with(|m| m.get()).unwrap_or(false) {
        let live = LIVE.with(|l| l.get()) + bytes;
        LIVE.with(|l| l.set(live));
        PEAK.with(|p| p.set(p.get().max(live)));
    }
}

/// Runs `f` and returns how many bytes more than before were allocated at most, and are in the end.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    METER.with(|m| m.set(true));
    let r = f();
    METER.with(|m| m.set(false));
    (r, PEAK.with(|p| p.get()), LIVE.with(|l| l.get()))
}

fn oversize(size: usize) -> ! {
    let msg = format_num(size);
    unsafe {
        libc::write(2, b"VERIF-OVERSIZE-ALLOC ".as_ptr() as *const _, 21);
        libc::write(2, msg.0[msg.1..].as_ptr() as *const _, msg.0.len() - msg.1);
        libc::write(2, b" bytes requested at once\n".as_ptr() as *const _, 25);
        if !crate::driver::guarded() {
            // Requested by the harness: no verdict on the code under test.
            libc::_exit(crate::driver::HARNESS_ERROR)
        }
        libc::abort()
    }
}

fn format_num(mut n: usize) -> ([u8; 20], usize) {
    let mut buf = [b'0'; 20];
    let mut i = 20;
    loop {
        i -= 1;
        buf[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            return (buf, i);
        }
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        pause();
        if l.size() > OVERSIZE {
            oversize(l.size())
        }
        meter(l.size() as i64);
        let p = System.alloc(l);
        with_table(|t| {
            t.allocs += 1;
            t.live.insert(p as usize, (l.size(), l.align()));
        });
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > OVERSIZE {
            oversize(l.size())
        }
        meter(l.size() as i64);
        let p = System.alloc_zeroed(l);
        with_table(|t| {
            t.allocs += 1;
            t.live.insert(p as usize, (l.size(), l.align()));
        });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        pause();
        meter(-(l.size() as i64));
        with_table(|t| t.free(p as usize, l));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > OVERSIZE {
            oversize(n)
        }
        meter(n as i64 - l.size() as i64);
        with_table(|t| t.free(p as usize, l));
        let q = System.realloc(p, l, n);
        with_table(|t| {
            t.allocs += 1;
            t.live.insert(q as usize, (n, l.align()));
        });
        q
    }
}

impl Table {
    fn free(&mut self, p: usize, l: Layout) {
        self.frees += 1;
        match self.live.remove(&p) {
            Some(was) if was != (l.size(), l.align()) => self.errors.push(format!(
                "block allocated with size {} align {} freed with size {} align {}",
                was.0,
                was.1,
                l.size(),
                l.align()
            )),
            Some(_) => (),
            // What was kept since an earlier call may be replaced. Blocks that are freed twice are found by
            // AddressSanitizer.
            None => {
                self.older.0 += 1;
                self.older.1 += l.size();
            }
        }
    }
}

/// Runs `f`, which must free as much as it allocates, and reports what it did to the heap.
pub fn tracked(f: impl FnOnce()) -> Report {
    TABLE.with(|t| unsafe { *t.get() = Some(Table::default()) });
    ON.with(|o| o.set(true));
    f();
    ON.with(|o| o.set(false));
    let t = TABLE.with(|t| unsafe { (*t.get()).take() }).unwrap_or_default();
    Report {
        allocs: t.allocs,
        frees: t.frees,
        leaked_blocks: t.live.len().saturating_sub(t.older.0),
        leaked_bytes: t.live.values().map(|x| x.0).sum::<usize>().saturating_sub(t.older.1),
        errors: t.errors,
    }
}

/// Checks that `f` frees what it allocates, with the layouts it was allocated with. `f` says how it
/// ended, or nothing after a panic (which other properties judge). What stays allocated only the
/// first time is initialisation, not a leak.
pub fn balanced(cx: &mut crate::driver::Cx, f: impl Fn() -> Option<&'static str>) -> crate::driver::Res {
    for first in [true, false] {
        let mut outcome = None;
        let report = tracked(|| outcome = f());
        let Some(label) = outcome else {
            cx.label("panicked (judged elsewhere)");
            return Ok(());
        };
        cx.nontrivial = report.allocs > 100;
        crate::ensure!(report.errors.is_empty(), "{}", report.errors.join("; "));
        if report.leaked_blocks == 0 {
            cx.label(label);
            return Ok(());
        }
        crate::ensure!(
            first,
            "{} of {} allocated blocks ({} bytes) are still allocated after the result was dropped ({label})",
            report.leaked_blocks,
            report.allocs,
            report.leaked_bytes
        );
    }
    Ok(())
}
