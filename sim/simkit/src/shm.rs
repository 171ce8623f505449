//! Mirror of ../c/simio.h
use serde::{Deserialize, Serialize};

pub const MAX_RULES: usize = 96;
pub const MAX_ROLES: usize = 24;
pub const PATH: usize = 240;
pub const LOG: usize = 8192;
pub const ESCAPES: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    OpenR, OpenW, Read, Write, Stat, Unlink, Rename, Trunc, Close, Sync, Other,
}
pub const OPS: [Op; 11] = [
    Op::OpenR, Op::OpenW, Op::Read, Op::Write, Op::Stat, Op::Unlink, Op::Rename, Op::Trunc,
    Op::Close, Op::Sync, Op::Other,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
#[repr(u8)]
pub enum Role {
    Outside = 0, Inside = 1, Spec = 2, Inj = 3, Rs = 4, States = 5, Stdout = 6, Stderr = 7,
    Bystander = 8, Any = 15,
}
pub const ROLES: [Role; 9] = [
    Role::Outside, Role::Inside, Role::Spec, Role::Inj, Role::Rs, Role::States, Role::Stdout,
    Role::Stderr, Role::Bystander,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
#[repr(u8)]
pub enum Act {
    None, Err, Short, Zero, KillBefore, KillAfter, PartialKill, Stop, Flip,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: Op,
    pub role: Role,
    pub act: Act,
    pub sticky: bool,
    pub nth: u32,
    pub arg: i64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rule {
    pub op: u8, pub role: u8, pub action: u8, pub sticky: u8,
    pub nth: u32,
    pub arg: i64,
    pub fired: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RoleEnt {
    pub path: [u8; PATH],
    pub role: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct LogEnt {
    pub op: u8, pub role: u8, pub action: u8, pub managed: u8,
    pub res: i32,
}
#[repr(C)]
pub struct Shm {
    pub active: u32, pub nrules: u32, pub nroles: u32, pub max_events: u32,
    pub quantum: i64,
    pub noise_seed: u64,
    pub noise_eintr: u32, pub noise_short: u32,
    pub rand_seed: u64,
    pub clock_s: i64,
    pub pid: i64,
    pub root: [u8; PATH],
    pub rules: [Rule; MAX_RULES],
    pub roles: [RoleEnt; MAX_ROLES],
    pub nevents: u32, pub overrun: u32, pub nescapes: u32, pub nlog: u32,
    pub noise_eintr_fired: u32, pub noise_short_fired: u32,
    pub hash: u64,
    pub counts: [[u32; 16]; 11],
    pub escapes: [[u8; PATH]; ESCAPES],
    pub log: [LogEnt; LOG],
}

fn put(dst: &mut [u8; PATH], b: &[u8]) {
    assert!(b.len() < PATH, "path too long for the simulator: {b:?}");
    dst.fill(0);
    dst[..b.len()].copy_from_slice(b);
}

impl Shm {
    pub fn reset(&mut self) {
        unsafe { std::ptr::write_bytes(self as *mut Shm as *mut u8, 0, std::mem::size_of::<Shm>() - std::mem::size_of::<[LogEnt; LOG]>()) };
        self.quantum = -1;
        self.max_events = 200_000;
    }
    pub fn set_root(&mut self, root: &str) {
        put(&mut self.root, root.as_bytes());
    }
    pub fn add_role(&mut self, path: &[u8], role: Role) {
        let i = self.nroles as usize;
        assert!(i < MAX_ROLES, "too many roles");
        put(&mut self.roles[i].path, path);
        self.roles[i].role = role as u32;
        self.nroles += 1;
    }
    pub fn add_fault(&mut self, f: &Fault) {
        let i = self.nrules as usize;
        if i >= MAX_RULES {
            return;
        }
        self.rules[i] = Rule { op: f.op as u8, role: f.role as u8, action: f.act as u8, sticky: f.sticky as u8, nth: f.nth, arg: f.arg, fired: 0, pad: 0 };
        self.nrules += 1;
    }
    pub fn count(&self, op: Op, role: Role) -> u32 {
        self.counts[op as usize][role as usize]
    }
    pub fn escapes(&self) -> Vec<String> {
        (0..(self.nescapes as usize).min(ESCAPES))
            .map(|i| {
                let b = &self.escapes[i];
                let n = b.iter().position(|c| *c == 0).unwrap_or(PATH);
                String::from_utf8_lossy(&b[..n]).into_owned()
            })
            .collect()
    }
    pub fn log_text(&self, max: usize) -> Vec<String> {
        let n = (self.nlog as usize).min(LOG);
        let acts = ["", "ERR", "SHORT", "ZERO", "KILL_BEFORE", "KILL_AFTER", "PARTIAL_KILL", "STOP", "FLIP"];
        let one = |i: usize| {
            let l = &self.log[i];
            let role = ROLES.iter().find(|r| **r as u8 == l.role).map(|r| format!("{r:?}")).unwrap_or_default();
            format!("{i}: {:?} {role} -> {} {}", OPS[l.op as usize], l.res, acts[l.action as usize])
        };
        if n <= max {
            (0..n).map(one).collect()
        } else {
            let mut v: Vec<String> = (0..max / 2).map(one).collect();
            v.push(format!("... {} operations ...", n - max));
            v.extend((n - max / 2..n).map(one));
            v
        }
    }
}
