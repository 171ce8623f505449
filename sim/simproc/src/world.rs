//! A scratch directory, the generator processes that run in it and the controller that schedules them
use simkit::rng::{combine, hash_bytes};
use simkit::shm::*;
use std::collections::BTreeMap;
use std::os::fd::AsRawFd;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    File(Vec<u8>, u32),
    Dir,
    Link(String),
}
impl Node {
    pub fn brief(&self) -> String {
        match self {
            Node::File(b, m) => format!("file of {} bytes #{:08x} mode {:o}", b.len(), hash_bytes(b) as u32, m),
            Node::Dir => "directory".into(),
            Node::Link(t) => format!("link to {t}"),
        }
    }
}
pub type Tree = BTreeMap<String, Node>;

/// what differs between two trees, apart from the named paths
pub fn differences(a: &Tree, b: &Tree, except: &[&str]) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if except.contains(&k.as_str()) || a.get(k) == b.get(k) {
            continue;
        }
        let d = |n: Option<&Node>| n.map(|n| n.brief()).unwrap_or("nothing".into());
        return Some(format!("{k}: was {}, is {}", d(a.get(k)), d(b.get(k))));
    }
    None
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Req {
    pub op: u32,
    pub role: u32,
    pub nth: u32,
    pub nevents: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Rep {
    pub action: u32,
    pub pad: u32,
    pub arg: i64,
    pub quantum: i64,
}
impl Rep {
    pub fn go(quantum: i64) -> Rep {
        Rep { action: 0, pad: 0, arg: 0, quantum }
    }
    pub fn act(a: Act, arg: i64, quantum: i64) -> Rep {
        Rep { action: a as u32, pad: 0, arg, quantum }
    }
}

#[derive(Clone, Default)]
pub struct Proc {
    pub tool: u8,
    pub args: Vec<String>,
    /// relative to the root
    pub roles: Vec<(String, Role)>,
    pub faults: Vec<Fault>,
    pub noise: (u64, u32, u32),
    pub rand: u64,
    pub quantum: i64,
}
impl Proc {
    pub fn new(tool: u8, args: Vec<String>, roles: Vec<(String, Role)>) -> Proc {
        Proc { tool, args, roles, quantum: -1, rand: 1, ..Proc::default() }
    }
}

#[derive(Clone, Debug)]
pub struct Done {
    /// exit status, or minus the signal
    pub status: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub counts: [[u32; 16]; 11],
    pub fired: Vec<u32>,
    pub noise: (u32, u32),
    pub hash: u64,
    pub events: u32,
    pub overrun: bool,
    pub escapes: Vec<String>,
    pub log: Vec<String>,
    pub hung: bool,
    /// was killed because the plan said so
    pub killed: bool,
}
/// stands for a byte that is no UTF-8 in the names of files
pub const RAW: char = '\u{f8ff}';
pub fn to_os(s: &str) -> OsString {
    let mut v = vec![];
    for (i, part) in s.split(RAW).enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend_from_slice(part.as_bytes());
    }
    OsString::from_vec(v)
}
pub fn from_os(s: &OsStr) -> String {
    s.as_bytes().split(|b| *b == 0xff).map(String::from_utf8_lossy).collect::<Vec<_>>().join(&RAW.to_string())
}
impl Done {
    pub fn stderr(&self) -> String {
        let t = String::from_utf8_lossy(&self.err);
        let mut s: String = t.chars().take(600).collect();
        if s.len() < t.len() {
            s.push_str("...");
        }
        s
    }
    pub fn count(&self, op: Op, role: Role) -> u32 {
        self.counts[op as usize][role as usize]
    }
}

pub struct World {
    pub dir: String,
    pub root: String,
    shms: Vec<*mut Shm>,
    bins: [String; 2],
    so: String,
    pub procs_run: u64,
}

static mut WORLD: Option<World> = None;
/// the world of this worker process
pub fn world() -> &'static mut World {
    #[allow(static_mut_refs)]
    unsafe {
        WORLD.as_mut().expect("prepared")
    }
}
pub fn set_up(scratch: &str, worker: usize) {
    let dir = format!("{scratch}/w{worker:02}");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(format!("{dir}/r")).unwrap();
    let gen_dir = std::env::var("SIM_GENERATORS").expect("SIM_GENERATORS");
    let so = std::env::var("SIM_PRELOAD").expect("SIM_PRELOAD");
    let w = World {
        root: format!("{dir}/r"),
        dir,
        shms: vec![],
        bins: [format!("{gen_dir}/lalr1_gen"), format!("{gen_dir}/alalr1_gen")],
        so,
        procs_run: 0,
    };
    unsafe { WORLD = Some(w) };
}

struct Live {
    child: Option<std::process::Child>,
    sock: i32,
    req: Option<Req>,
    status: Option<i32>,
    hung: bool,
    killed: bool,
}

impl World {
    fn shm(&mut self, i: usize) -> &'static mut Shm {
        while self.shms.len() <= i {
            let path = format!("{}/shm{}", self.dir, self.shms.len());
            let f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
            f.set_len(std::mem::size_of::<Shm>() as u64).unwrap();
            unsafe {
                let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
                assert!(p != libc::MAP_FAILED);
                self.shms.push(p as *mut Shm);
            }
        }
        unsafe { &mut *self.shms[i] }
    }

    pub fn path(&self, rel: &str) -> PathBuf {
        PathBuf::from(to_os(&format!("{}/{rel}", self.root)))
    }
    /// an empty root with the directories that are always there
    pub fn clean(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
        for d in ["", "/out", "/spec"] {
            std::fs::create_dir_all(format!("{}{d}", self.root)).unwrap();
        }
    }
    pub fn write(&self, rel: &str, data: &[u8]) {
        let p = self.path(rel);
        if let Some(d) = Path::new(&p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&p, data).unwrap_or_else(|e| panic!("{p:?}: {e}"));
    }
    pub fn read(&self, rel: &str) -> Option<Vec<u8>> {
        std::fs::read(self.path(rel)).ok()
    }
    pub fn remove(&self, rel: &str) {
        let p = self.path(rel);
        match std::fs::symlink_metadata(&p) {
            Ok(m) if m.is_dir() => {
                let _ = std::fs::remove_dir_all(&p);
            }
            Ok(_) => {
                let _ = std::fs::remove_file(&p);
            }
            Err(_) => (),
        }
    }
    pub fn put(&self, rel: &str, node: &Node) {
        self.remove(rel);
        match node {
            Node::File(b, _) => self.write(rel, b),
            Node::Dir => std::fs::create_dir_all(self.path(rel)).unwrap(),
            Node::Link(t) => std::os::unix::fs::symlink(to_os(t), self.path(rel)).unwrap(),
        }
    }
    pub fn snapshot(&self) -> Tree {
        let mut t = Tree::new();
        self.walk("", &mut t);
        t
    }
    fn walk(&self, rel: &str, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(self.path(rel)) else { return };
        for e in rd.flatten() {
            let name = from_os(&e.file_name());
            let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
            let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
            if m.is_symlink() {
                t.insert(r, Node::Link(from_os(std::fs::read_link(e.path()).unwrap().as_os_str())));
            } else if m.is_dir() {
                t.insert(r.clone(), Node::Dir);
                self.walk(&r, t);
            } else {
                t.insert(r, Node::File(std::fs::read(e.path()).unwrap_or_default(), m.permissions().mode() & 0o7777));
            }
        }
    }
    /// puts the root back to an earlier state
    pub fn restore(&mut self, t: &Tree) {
        self.clean();
        for (k, n) in t {
            if !matches!((n, k.as_str()), (Node::Dir, "out" | "spec")) {
                self.put(k, n);
            }
        }
    }

    /// Runs processes until all have ended. `sched` is asked whenever all live processes are stopped:
    /// it names the one to resume and what it does first.
    pub fn run(&mut self, procs: &[Proc], sched: &mut dyn FnMut(&World, &[(usize, Req)]) -> (usize, Rep)) -> Vec<Done> {
        let mut live: Vec<Live> = vec![];
        for (i, p) in procs.iter().enumerate() {
            let root = self.root.clone();
            let shm = self.shm(i);
            shm.reset();
            shm.set_root(&root);
            for (path, role) in &p.roles {
                shm.add_role(to_os(&format!("{root}/{path}")).as_bytes(), *role);
            }
            for f in &p.faults {
                shm.add_fault(f);
            }
            shm.noise_seed = p.noise.0;
            shm.noise_eintr = p.noise.1;
            shm.noise_short = p.noise.2;
            shm.rand_seed = p.rand;
            shm.clock_s = (p.rand % 2_000_000_000) as i64;
            shm.pid = 10000 + (procs[0].rand >> 40) as i64 % 9000 * 2 + i as i64;
            shm.quantum = p.quantum;
            shm.active = 1;
            let mut fds = [0i32; 2];
            unsafe { assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()), 0) };
            let theirs = fds[1];
            let out = std::fs::File::create(format!("{}/out{i}", self.dir)).unwrap();
            let err = std::fs::File::create(format!("{}/err{i}", self.dir)).unwrap();
            let mut c = Command::new(&self.bins[p.tool as usize & 1]);
            c.args(p.args.iter().map(|a| to_os(a)))
                .env_clear()
                .env("LD_PRELOAD", &self.so)
                .env("SIMIO_SHM", format!("{}/shm{i}", self.dir))
                .env("SIMIO_FD", "9")
                .current_dir(&self.root)
                .stdin(Stdio::null())
                .stdout(out)
                .stderr(err);
            unsafe {
                c.pre_exec(move || {
                    if theirs == 9 {
                        libc::fcntl(9, libc::F_SETFD, 0);
                    } else {
                        libc::dup2(theirs, 9);
                    }
                    let rl = libc::rlimit { rlim_cur: 20, rlim_max: 21 };
                    libc::setrlimit(libc::RLIMIT_CPU, &rl);
                    let rl = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                    libc::setrlimit(libc::RLIMIT_AS, &rl);
                    let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &rl);
                    let rl = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                    libc::setrlimit(libc::RLIMIT_STACK, &rl);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let child = c.spawn().unwrap_or_else(|e| {
                eprintln!("cannot run a generator: {e}");
                unsafe { libc::_exit(98) }
            });
            unsafe { libc::close(theirs) };
            live.push(Live { child: Some(child), sock: fds[0], req: None, status: None, hung: false, killed: false });
            self.procs_run += 1;
        }
        let mut idle = std::time::Instant::now();
        loop {
            // until every live process is stopped
            let running: Vec<usize> = (0..live.len()).filter(|i| live[*i].status.is_none() && live[*i].req.is_none()).collect();
            if !running.is_empty() {
                let mut p: Vec<libc::pollfd> = running.iter().map(|i| libc::pollfd { fd: live[*i].sock, events: libc::POLLIN, revents: 0 }).collect();
                unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 1000) };
                for (k, i) in running.iter().enumerate() {
                    let l = &mut live[*i];
                    if p[k].revents != 0 {
                        let mut r = Req { op: 0, role: 0, nth: 0, nevents: 0 };
                        let n = unsafe { libc::read(l.sock, &mut r as *mut Req as *mut libc::c_void, std::mem::size_of::<Req>()) };
                        if n == std::mem::size_of::<Req>() as isize {
                            l.req = Some(r);
                        } else {
                            let st = l.child.as_mut().unwrap().wait().unwrap();
                            l.status = Some(st.code().unwrap_or_else(|| -st.signal().unwrap_or(0)));
                        }
                        idle = std::time::Instant::now();
                    } else if idle.elapsed().as_secs() > 40 {
                        l.hung = true;
                        let _ = l.child.as_mut().unwrap().kill();
                    }
                }
                continue;
            }
            let stopped: Vec<(usize, Req)> = live.iter().enumerate().filter_map(|(i, l)| l.req.map(|r| (i, r))).collect();
            if stopped.is_empty() {
                break;
            }
            let (i, rep) = sched(self, &stopped);
            let l = &mut live[i];
            assert!(l.req.take().is_some());
            if rep.action == Act::KillBefore as u32 || rep.action == Act::KillAfter as u32 || rep.action == Act::PartialKill as u32 {
                l.killed = true;
            }
            unsafe { libc::write(l.sock, &rep as *const Rep as *const libc::c_void, std::mem::size_of::<Rep>()) };
        }
        let mut out = vec![];
        for (i, l) in live.iter_mut().enumerate() {
            unsafe { libc::close(l.sock) };
            let s = self.shm(i);
            let fired: Vec<u32> = (0..procs[i].faults.len().min(MAX_RULES)).map(|k| s.rules[k].fired).collect();
            let killed = l.killed || procs[i].faults.iter().zip(&fired).any(|(f, n)| *n > 0 && matches!(f.act, Act::KillBefore | Act::KillAfter | Act::PartialKill));
            out.push(Done {
                status: l.status.unwrap(),
                out: std::fs::read(format!("{}/out{i}", self.dir)).unwrap_or_default(),
                err: std::fs::read(format!("{}/err{i}", self.dir)).unwrap_or_default(),
                counts: s.counts,
                fired,
                noise: (s.noise_eintr_fired, s.noise_short_fired),
                hash: s.hash,
                events: s.nevents,
                overrun: s.overrun != 0,
                escapes: s.escapes(),
                log: s.log_text(60),
                hung: l.hung || l.status == Some(-libc::SIGXCPU),
                killed,
            });
        }
        out
    }

    pub fn run1(&mut self, p: &Proc) -> Done {
        self.run(std::slice::from_ref(p), &mut |_, st| (st[0].0, Rep::go(-1))).pop().unwrap()
    }
    /// without the name of the scratch directory
    pub fn anonymous(&self, b: &[u8]) -> Vec<u8> {
        let r = self.root.as_bytes();
        let mut out = Vec::with_capacity(b.len());
        let mut i = 0;
        while i < b.len() {
            if b[i] == r[0] && b[i..].starts_with(r) {
                out.extend(b"ROOT");
                i += r.len();
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        out
    }
    pub fn tree_hash(&self) -> u64 {
        let mut h = 0;
        for (k, n) in self.snapshot() {
            h = combine(h, hash_bytes(k.as_bytes()));
            h = combine(
                h,
                match n {
                    Node::File(b, _) => hash_bytes(&self.anonymous(&b)),
                    Node::Dir => 1,
                    Node::Link(t) => hash_bytes(&self.anonymous(t.as_bytes())),
                },
            );
        }
        h
    }
}
