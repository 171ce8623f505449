//! Running code of this process under the cooperative scheduler and the simulated libc (../c)
use crate::rng::Rng;
use crate::shm::Shm;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};

#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    /// scheduling points until the next preemption
    pub gap: u32,
    /// which of the other runnable threads goes on
    pub pick: u32,
    /// not 0: only points next to accesses to memory that several threads write are counted
    #[serde(default)]
    pub hot: u32,
}

/// The schedule of a run
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Schedule {
    pub switches: Vec<Switch>,
    /// decides who goes on when a thread blocks or ends
    pub forced: u64,
    /// points per turn when the switches are used up
    pub quantum: u64,
    /// what the system's random numbers are derived from
    pub rand: u64,
}
impl Schedule {
    pub fn solo(rand: u64) -> Schedule {
        Schedule { rand, ..Schedule::default() }
    }
    /// A mixture of densely and sparsely preempted stretches
    pub fn random(r: &mut Rng, max_switches: u64, span: u64) -> Schedule {
        let n = 1 + r.log(max_switches);
        let style = r.below(5);
        let warm = if r.chance(1, 2) { 1 + r.below(3) } else { 0 };
        let switches = (0..n)
            .map(|i| {
                let gap = match style {
                    0 => r.log(40),
                    1 => r.log(span),
                    2 => if i % 2 == 0 { r.below(span) } else { r.log(30) },
                    _ => if r.chance(1, 6) { r.below(span) } else { r.log(200) },
                };
                let hot = style == 4 || warm > 0 && r.chance(warm, 4);
                let gap = if hot { r.log(12) - 1 } else { gap };
                Switch { gap: gap as u32, pick: r.below(8) as u32, hot: hot as u32 }
            })
            .collect();
        let quantum = if r.chance(1, 2) { 0 } else { span / 400 + r.log(span) };
        Schedule { switches, forced: if r.chance(1, 4) { 0 } else { r.next() >> 8 }, quantum, rand: r.next() >> 8 }
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub points: u64,
    max_points: u64,
    pub switches: u64,
    pub forced: u64,
    pub timeouts: u64,
    pub wakes: u64,
    pub blocks: u64,
    /// where control changed hands
    pub hash: u64,
    threads: u64,
    pub created: u64,
    /// accesses to memory that several threads write
    pub shared: u64,
    pub hot: u64,
}

unsafe extern "C" {
    fn sched_reset(plan: *const Switch, n: u32, forced: u64, quantum: u64, max_points: u64);
    fn sched_enter();
    fn sched_live() -> u64;
    fn sched_self() -> i32;
    fn sched_quiet(d: i32);
    fn sched_point();
    fn sched_alloc(n: usize, align: usize) -> *mut u8;
    fn sched_owns(p: *mut u8) -> i32;
    fn sched_free(p: *mut u8, n: usize);
    fn sched_room(n: usize) -> usize;
    fn simio_attach(s: *mut Shm);
    static mut sched_stats: Stats;
}

/// Allocations are scheduling points
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            sched_point();
            let p = sched_alloc(l.size(), l.align());
            if p.is_null() { System.alloc(l) } else { p }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if sched_owns(p) != 0 { sched_free(p, l.size()) } else { System.dealloc(p, l) }
            sched_point();
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            sched_point();
            let p = sched_alloc(l.size(), l.align());
            if p.is_null() {
                return System.alloc_zeroed(l);
            }
            p.write_bytes(0, l.size());
            p
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            if sched_owns(p) == 0 {
                sched_point();
                return System.realloc(p, l, n);
            }
            if sched_room(l.size()) == sched_room(n) {
                return p;
            }
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}

pub fn point() {
    unsafe { sched_point() }
}
pub fn me() -> i32 {
    unsafe { sched_self() }
}

/// Harness code within a run: no scheduling points
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Q;
    impl Drop for Q {
        fn drop(&mut self) {
            unsafe { sched_quiet(-1) }
        }
    }
    unsafe { sched_quiet(1) };
    let _q = Q;
    f()
}

static SHM: std::sync::atomic::AtomicPtr<Shm> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// The control block of the simulated libc of this process
pub fn shm() -> &'static mut Shm {
    use std::sync::atomic::Ordering::SeqCst;
    let p = SHM.load(SeqCst);
    if !p.is_null() {
        return unsafe { &mut *p };
    }
    unsafe {
        let n = std::mem::size_of::<Shm>();
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let p = p as *mut Shm;
        SHM.store(p, SeqCst);
        &mut *p
    }
}

/// Prepares the simulated libc for a run: `set` names roles and faults
pub fn prepare_io(root: &str, rand: u64, set: impl FnOnce(&mut Shm)) {
    let s = shm();
    s.reset();
    s.set_root(root);
    s.rand_seed = rand;
    s.clock_s = (rand % 2_000_000_000) as i64;
    s.pid = 10_000 + (rand >> 40) as i64 % 20_000;
    s.max_events = 1_000_000;
    set(s);
    s.active = 1;
    unsafe { simio_attach(s) };
}

/// Runs `f` as the first thread of a simulated run; threads it creates take part in it.
/// An unwinding panic of `f` is returned as its message.
pub fn simulate<R: Send>(sch: &Schedule, max_points: u64, f: impl FnOnce() -> R + Send) -> (Result<R, String>, Stats) {
    if shm().active == 0 {
        prepare_io("/nonexistent-root", sch.rand, |_| ());
    }
    shm().rand_seed = sch.rand;
    unsafe { sched_reset(sch.switches.as_ptr(), sch.switches.len() as u32, sch.forced, sch.quantum, max_points) };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                unsafe { sched_enter() };
                f()
            })
            .unwrap()
            .join()
    });
    while unsafe { sched_live() } > 0 {
        std::thread::yield_now();
    }
    let st = unsafe { sched_stats };
    shm().active = 0;
    (r.map_err(|e| panic_text(&*e)), st)
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "a panic".to_string()
    }
}

/// What `f` returns when it is executed in a fresh copy of this process
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let v = f();
            let mut o = std::fs::File::from_raw_fd(fds[1]);
            let _ = o.write_all(&v);
            drop(o);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut i = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let _ = i.read_to_end(&mut out);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(out)
        } else if libc::WIFSIGNALED(st) {
            Err(format!("signal {}", libc::WTERMSIG(st)))
        } else {
            Err(format!("status {}", libc::WEXITSTATUS(st)))
        }
    }
}
