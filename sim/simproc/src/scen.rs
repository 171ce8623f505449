//! The properties of generator processes
use crate::lang;
use crate::work::*;
use crate::world::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simkit::rng::{Rng, combine};
use simkit::runner::{Config, Meta, Obs, Scenario, Violation, violation};
use simkit::shm::*;
use std::time::Duration;

type Res = Result<(), Violation>;

pub struct Sc<P> {
    pub id: &'static str,
    pub scratch: String,
    pub runs: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub make: fn(&mut Rng, u64) -> P,
    pub exec: fn(&P, &mut Obs) -> Res,
}
impl<P: Serialize + DeserializeOwned + Clone> Scenario for Sc<P> {
    type Plan = P;
    fn property(&self) -> &str {
        self.id
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: self.rule,
            measure: self.measure,
            real: &["lalr1_gen and alalr1_gen programs (unmodified, built from /repo)", "lalr1_lib, alalr1_lib, lalr1, alalr1, lexan", "Rust std I/O", "kernel tmpfs as the store"],
            stubs: &["libc file functions, getrandom and clocks (libsimio.so, LD_PRELOAD)", "users and other processes that create files (controller)"],
            assumptions: &["all file I/O of the generators goes through libc symbols", "tmpfs keeps what was written (durability below the file system is not part of these properties)"],
        }
    }
    fn config(&self, thorough: bool) -> Config {
        Config {
            runs: if thorough { self.runs * 40 } else { self.runs },
            batch: 25,
            time_cap: Duration::from_secs(if thorough { 1500 } else { 60 }),
            cpu_limit_s: 60,
            workers: 8,
        }
    }
    fn generate(&self, rng: &mut Rng, index: u64) -> P {
        (self.make)(rng, index)
    }
    fn execute(&self, plan: &P, obs: &mut Obs) -> Res {
        let r = (self.exec)(plan, obs);
        obs.count("processes", std::mem::take(&mut world().procs_run));
        r
    }
    fn prepare_worker(&self, worker: usize) {
        prepare_world(&self.scratch, worker);
    }
}
fn prepare_world(scratch: &str, worker: usize) {
    crate::world::set_up(scratch, worker)
}

fn rate(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 0,
        1 => r.log(300) as u32,
        2 => r.log(6000) as u32,
        _ => r.log(30000) as u32,
    }
}

/// outputs as they should be
fn complete(p: &Prepared, rf: &Reference, tree: &Tree, class: &str) -> Res {
    for (path, want) in [(&p.names.rs, &rf.rs), (&p.names.st, &rf.st)] {
        let Some(want) = want else { return violation(class, format!("{path}: the undisturbed run does not write it")) };
        match tree.get(path.as_str()) {
            Some(Node::File(b, _)) if b == want => (),
            Some(Node::File(b, _)) => {
                let at = b.iter().zip(want.iter()).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
                return violation(class, format!("{path}: {} bytes where the undisturbed run writes {}, first difference at {at}", b.len(), want.len()));
            }
            n => return violation(class, format!("{path}: {} where the undisturbed run writes {} bytes", n.map(|n| n.brief()).unwrap_or("nothing".into()), want.len())),
        }
    }
    Ok(())
}
fn apply_residue(p: &Prepared, rf: &Reference, res: &[Residue; 2]) {
    let wo = world();
    for (r, path, real) in [(&res[0], &p.names.rs, &rf.rs), (&res[1], &p.names.st, &rf.st)] {
        let real: &[u8] = real.as_deref().unwrap_or(b"never written");
        match r.node(real) {
            Some(n) => wo.put(path, &n),
            None => wo.remove(path),
        }
    }
}
fn print_faults(obs: &mut Obs, f: &[Fault]) {
    for f in f {
        obs.print(combine(combine(f.op as u64, f.role as u64), combine(f.nth as u64, combine(f.act as u64, f.arg as u64))));
    }
}

// ---------------------------------------------------------------- C01

#[derive(Serialize, Deserialize, Clone)]
pub struct P1 {
    work: Work,
    residue: Option<[Residue; 2]>,
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
    rand: u64,
}
fn make1(r: &mut Rng, _: u64) -> P1 {
    let mut work = some_work(r, false);
    if r.chance(1, 10) {
        work.declared_sr = r.range(-1, 2) as i8;
    }
    let residue = if work.force && r.chance(1, 2) { Some([residue(r), residue(r)]) } else { None };
    let n = if r.chance(1, 12) { 0 } else { 1 + r.below(2) };
    let picks = (0..n)
        .map(|_| {
            let act = [Act::Err, Act::Err, Act::Err, Act::Zero, Act::Short][r.idx(5)];
            pick(r, act)
        })
        .collect();
    let noise = if r.chance(1, 3) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P1 { work, residue, picks, noise, rand: r.next() }
}
fn exec1(pl: &P1, obs: &mut Obs) -> Res {
    let wo = world();
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    let rf = reference(&p)?;
    record(obs, &rf.done);
    wo.restore(&p.tree);
    if let Some(r) = &pl.residue {
        apply_residue(&p, &rf, r);
    }
    let good = rf.done.status == 0;
    let all = classes(&rf.done, &|op, role| (READS.contains(&(op, role)) || WRITES.contains(&(op, role))) && op != Op::Stat);
    let writes = classes(&rf.done, &|op, role| WRITES.contains(&(op, role)));
    let mut faults = vec![];
    for k in &pl.picks {
        // a write that makes no progress; an early end of file is not an error
        let cls = if k.act == Act::Zero { &writes } else { &all };
        if let Some(mut f) = resolve(k, cls) {
            if f.act == Act::Short && f.sticky && f.arg < 64 {
                f.arg = 64;
            }
            faults.push(f);
        }
    }
    p.proc.faults = faults.clone();
    p.proc.noise = pl.noise;
    p.proc.rand = pl.rand;
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &faults, &d);
    print_faults(obs, &faults);
    let fired = d.fired.iter().any(|n| *n > 0);
    obs.nontrivial = fired || d.noise.0 + d.noise.1 > 0;
    obs.print(d.hash);
    let hard: Vec<&Fault> = faults.iter().zip(&d.fired).filter(|(f, n)| **n > 0 && is_hard(f)).map(|(f, _)| f).collect();
    let tree = wo.snapshot();
    obs.hist(wo.tree_hash());
    if d.status == 0 {
        if !good {
            return violation("success-of-rejected", format!("status 0, but the undisturbed run ends with {}: {}", rf.done.status, rf.done.stderr()));
        }
        complete(&p, &rf, &tree, "incomplete")?;
        if let Some(f) = hard.first() {
            return violation("ignored-error", format!("status 0 although {:?} of {:?} failed", f.op, f.role));
        }
    } else if hard.is_empty() && d.status != rf.done.status {
        // nothing but short transfers and interruptions
        return violation("spurious-failure", format!("status {} instead of {} although no operation failed: {}", d.status, rf.done.status, d.stderr()));
    }
    obs.count("hard_faults_reported", !hard.is_empty() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C02

#[derive(Serialize, Deserialize, Clone)]
pub struct P2 {
    work: Work,
    residue: Option<[Residue; 2]>,
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
}
fn make2(r: &mut Rng, _: u64) -> P2 {
    let mut work = some_work(r, false);
    match r.below(10) {
        0 => work.declared_sr = 1,
        1 => work.edits.push(Edit::Undefined(r.below(99) as u16)),
        2 => work.edits.push(Edit::Drop(r.below(300) as u16)),
        _ => (),
    }
    let residue = if r.chance(1, 3) { Some([residue(r), residue(r)]) } else { None };
    let picks = (0..r.below(4))
        .map(|_| {
            let mut k = if r.chance(1, 2) { pick(r, Act::Short) } else { pick(r, Act::Err) };
            if k.act == Act::Err {
                k.arg = libc::EINTR as i64;
            }
            k.sticky = false;
            k
        })
        .collect();
    // also all transfers in small pieces (a serial line, a pipe)
    let short = if r.chance(1, 5) { ((1 + r.log(60) as u32) << 16) | 0xffff } else { rate(r) };
    P2 { work, residue, picks, noise: (r.next(), rate(r).min(24000), short) }
}
fn exec2(pl: &P2, obs: &mut Obs) -> Res {
    let wo = world();
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    if let Some(res) = &pl.residue {
        let rf = reference(&p)?;
        wo.restore(&p.tree);
        apply_residue(&p, &rf, res);
        p.tree = wo.snapshot();
    }
    let rf = reference(&p)?;
    let want = wo.snapshot();
    record(obs, &rf.done);
    wo.restore(&p.tree);
    let cls = classes(&rf.done, &|op, _| matches!(op, Op::Read | Op::Write | Op::OpenR | Op::OpenW));
    let faults: Vec<Fault> = pl.picks.iter().filter_map(|k| resolve(k, &cls)).filter(|f| f.act == Act::Err || matches!(f.op, Op::Read | Op::Write)).collect();
    p.proc.faults = faults.clone();
    p.proc.noise = pl.noise;
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &faults, &d);
    print_faults(obs, &faults);
    obs.print(d.hash);
    obs.nontrivial = d.noise.0 + d.noise.1 > 0 || d.fired.iter().any(|n| *n > 0);
    obs.hist(wo.tree_hash());
    if d.status != rf.done.status {
        return violation("status", format!("status {} instead of {}: {}", d.status, rf.done.status, d.stderr()));
    }
    if d.err != rf.done.err || d.out != rf.done.out {
        return violation("diagnostics", format!("the messages differ: {:?} instead of {:?}", d.stderr(), rf.done.stderr()));
    }
    if let Some(x) = differences(&want, &wo.snapshot(), &[]) {
        return violation("files", x);
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

#[derive(Serialize, Deserialize, Clone)]
pub enum There {
    File(String),
    Empty,
    Dir,
    Link,
    Dangling,
}
impl There {
    fn pick(r: &mut Rng) -> There {
        match r.below(7) {
            0 => There::Empty,
            1 => There::Dir,
            2 => There::Link,
            3 => There::Dangling,
            4 => There::File("x".repeat(r.log(9000) as usize)),
            _ => There::File("precious\n".into()),
        }
    }
    fn node(&self) -> Node {
        match self {
            There::File(t) => Node::File(t.clone().into_bytes(), 0o644),
            There::Empty => Node::File(vec![], 0o644),
            There::Dir => Node::Dir,
            There::Link => Node::Link(format!("{}/notes.txt", world().root)),
            There::Dangling => Node::Link(format!("{}/not-there", world().root)),
        }
    }
}
#[derive(Serialize, Deserialize, Clone)]
pub struct P3 {
    work: Work,
    pre: [Option<There>; 2],
    /// (when, which output, what)
    env: Vec<(u16, u8, There)>,
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
}
fn make3(r: &mut Rng, _: u64) -> P3 {
    let mut work = some_work(r, false);
    work.force = false;
    let mut pre = [None, None];
    let mut env = vec![];
    if r.chance(1, 2) {
        let k = r.idx(2);
        pre[k] = Some(There::pick(r));
        if r.chance(1, 4) {
            pre[1 - k] = Some(There::pick(r));
        }
    }
    if pre.iter().all(|p| p.is_none()) || r.chance(1, 5) {
        for _ in 0..1 + r.below(2) {
            // most of the operations are writes to the first output: what comes before is short
            let at = match r.below(3) {
                0 => r.below(65536) as u16,
                1 => r.below(40) as u16,
                _ => r.log(600) as u16,
            };
            env.push((at, r.below(2) as u8, There::pick(r)));
        }
    }
    let picks = (0..r.below(3))
        .map(|_| {
            let act = if r.chance(4, 5) { Act::Err } else { Act::Short };
            pick(r, act)
        })
        .collect();
    let noise = if r.chance(1, 4) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P3 { work, pre, env, picks, noise }
}
fn exec3(pl: &P3, obs: &mut Obs) -> Res {
    let wo = world();
    if pl.work.force {
        return Ok(());
    }
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    let rf = reference(&p)?;
    wo.restore(&p.tree);
    let outs = [p.names.rs.clone(), p.names.st.clone()];
    let mut theirs: Vec<(String, Node)> = vec![];
    for (k, t) in pl.pre.iter().enumerate() {
        if let Some(t) = t {
            wo.put(&outs[k], &t.node());
            theirs.push((outs[k].clone(), t.node()));
        }
    }
    let total = rf.done.events.max(1) as u64;
    // positions below 1000 count operations, the others are fractions of the run
    let mut env: Vec<(i64, usize, Node)> = pl.env.iter().map(|(a, w, t)| (if *a < 1000 { *a as i64 } else { (*a as u64 * total / 65536) as i64 }, *w as usize % 2, t.node())).collect();
    env.sort_by_key(|e| e.0);
    let mut cls = classes(&rf.done, &|op, role| op == Op::Stat && matches!(role, Role::Rs | Role::States));
    if cls.is_empty() || pl.picks.len() > 1 {
        cls.extend(classes(&rf.done, &|op, role| matches!((op, role), (Op::OpenW | Op::Write | Op::Unlink, Role::Rs | Role::States))));
    }
    let mut faults: Vec<Fault> = pl.picks.iter().filter_map(|k| resolve(k, &cls)).collect();
    if let Some(f) = faults.first_mut() {
        f.sticky |= f.op == Op::Stat;
    }
    p.proc.faults = faults.clone();
    p.proc.noise = pl.noise;
    p.proc.quantum = env.first().map(|e| e.0).unwrap_or(-1);
    let mut next = 0;
    let mut placed: Vec<(u32, u32)> = vec![];
    let d = {
        let theirs = &mut theirs;
        let placed = &mut placed;
        let env = &env;
        wo.run(std::slice::from_ref(&p.proc), &mut |w, st| {
            let req = st[0].1;
            let now = req.nevents as i64;
            while next < env.len() && env[next].0 < now {
                let (_, which, node) = &env[next];
                next += 1;
                let path = &outs[*which];
                // only if nothing is there
                if std::fs::symlink_metadata(w.path(path)).is_err() {
                    w.put(path, node);
                    theirs.push((path.clone(), node.clone()));
                    placed.push((req.op, req.role));
                }
            }
            (0, Rep::go(if next < env.len() { (env[next].0 - now).max(0) } else { -1 }))
        })
        .pop()
        .unwrap()
    };
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &faults, &d);
    print_faults(obs, &faults);
    obs.count("env.created", placed.len() as u64);
    for (op, role) in &placed {
        obs.count(&format!("env.created_before.{:?}.{}", OPS[*op as usize], role), 1);
    }
    obs.count("pre_existing", pl.pre.iter().flatten().count() as u64);
    obs.nontrivial = !theirs.is_empty();
    obs.print(d.hash);
    obs.print(placed.len() as u64);
    obs.hist(wo.tree_hash());
    let tree = wo.snapshot();
    for (path, node) in &theirs {
        let same = match (tree.get(path), node) {
            (Some(Node::File(a, _)), Node::File(b, _)) => a == b,
            (a, b) => a == Some(b),
        };
        if !same {
            return violation("overwritten", format!("{path}: was {}, is {}", node.brief(), tree.get(path).map(|n| n.brief()).unwrap_or("nothing".into())));
        }
        // what a link names is somebody else's too
        if tree.get("notes.txt") != p.tree.get("notes.txt") || tree.contains_key("not-there") {
            return violation("overwritten", format!("{path}: the target of the link changed"));
        }
    }
    if !theirs.is_empty() && d.status == 0 {
        return violation("not-reported", format!("status 0 although {} existed", theirs[0].0));
    }
    if theirs.is_empty() && faults.is_empty() {
        if d.status != rf.done.status {
            return violation("spurious-failure", format!("status {} instead of {}: {}", d.status, rf.done.status, d.stderr()));
        }
        if d.status == 0 {
            complete(&p, &rf, &tree, "incomplete")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Serialize, Deserialize, Clone)]
pub struct P4 {
    work: Work,
    residue: [Residue; 2],
    /// 0: as the work says, 1: a read fails, 2: the specification is missing, 3: an injected file is missing,
    /// 4: not UTF-8, 5: an injected file is empty, 6: is not UTF-8
    how: u8,
    at: u16,
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
}
/// something wrong with what the elements of a specification say
fn defect(r: &mut Rng) -> Edit {
    let k = r.below(2000) as u16;
    match r.below(12) {
        0 => Edit::Undefined(k),
        1 => Edit::Again(k),
        2 => Edit::Unknown(k),
        3 => Edit::BadRegex(k),
        4 => Edit::Huge(k),
        5 => Edit::NoTag(k),
        6 => Edit::Twice(k),
        7 => Edit::Clash(k),
        8 => Edit::Stranger(k),
        9 => Edit::Many(k, *r.pick(&[2, 3, 15, 16, 99, 100, 127, 128, 255, 256, 256, 256, 257, 512, 768, 1000]), r.below(3) as u8),
        _ => Edit::SkipAgain(k),
    }
}
fn make4(r: &mut Rng, _: u64) -> P4 {
    let mut work = some_work(r, false);
    work.force = r.chance(3, 4);
    let how = if r.chance(3, 5) { 0 } else { 1 + r.below(6) as u8 };
    if how == 3 || how >= 5 || r.chance(1, 3) {
        divide(r, &mut work, 3);
    }
    if how == 0 {
        match r.below(14) {
            0 => work.declared_sr = r.range(1, 2) as i8,
            1 => work.declared_rr = r.range(1, 2) as i8,
            2 => work.edits.push(Edit::Undefined(r.below(500) as u16)),
            3 => work.edits.push(Edit::Again(r.below(50) as u16)),
            4 => work.edits.push(Edit::Unknown(r.below(500) as u16)),
            5 => work.edits.push(Edit::BadRegex(r.below(2000) as u16)),
            6 | 7 => work.edits.push(defect(r)),
            _ => {
                for _ in 0..20 {
                    let e = match r.below(4) {
                        0 => Edit::Drop(r.below(2000) as u16),
                        1 => Edit::Dup(r.below(2000) as u16, r.below(2000) as u16),
                        2 => Edit::Swap(r.below(2000) as u16, r.below(2000) as u16),
                        _ => Edit::Insert(r.below(2000) as u16, r.below(20) as u8),
                    };
                    let mut t = work.clone();
                    t.edits.push(e);
                    if t.files("/x").is_some_and(|f| !f.legal) {
                        work = t;
                        break;
                    }
                }
            }
        }
    }
    let picks = if how == 1 { (0..1 + r.below(2)).map(|_| pick(r, Act::Err)).collect() } else { vec![] };
    let noise = if r.chance(1, 5) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P4 { work, residue: [residue(r), residue(r)], how, at: r.below(65536) as u16, picks, noise }
}
fn exec4(pl: &P4, obs: &mut Obs) -> Res {
    let wo = world();
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    let bad_work = !p.files.legal || p.files.defective || pl.work.miscounted();
    let rf = reference(&p)?;
    wo.restore(&p.tree);
    if pl.work.force {
        apply_residue(&p, &rf, &pl.residue);
    }
    let inj = &p.files.injected;
    let pick_inj = |at: u16| if inj.is_empty() { None } else { Some(inj[at as usize % inj.len()].1.clone()) };
    let mut must = bad_work;
    match pl.how {
        2 => {
            wo.remove(&p.names.spec);
            must = true;
        }
        3 => {
            if let Some(f) = pick_inj(pl.at) {
                wo.remove(&f);
                must = true;
            }
        }
        5 => {
            if let Some(f) = pick_inj(pl.at) {
                wo.write(&f, b"");
                must = true;
            }
        }
        4 | 6 => {
            let f = if pl.how == 4 { Some(p.names.spec.clone()) } else { pick_inj(pl.at) };
            if let Some(f) = f {
                let mut t = wo.read(&f).unwrap_or_default();
                let i = pl.at as usize % (t.len() + 1);
                t.insert(i, 0xff);
                wo.write(&f, &t);
                must = true;
            }
        }
        _ => (),
    }
    let before = wo.snapshot();
    let cls = classes(&rf.done, &|op, role| READS.contains(&(op, role)));
    let faults: Vec<Fault> = pl.picks.iter().filter_map(|k| resolve(k, &cls)).filter(is_hard).collect();
    p.proc.faults = faults.clone();
    p.proc.noise = pl.noise;
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &faults, &d);
    must |= d.fired.iter().any(|n| *n > 0);
    if pl.how > 0 {
        obs.count(&format!("fault.input{}", pl.how), 1);
    }
    obs.nontrivial = must;
    obs.print(d.hash);
    print_faults(obs, &faults);
    obs.hist(wo.tree_hash());
    obs.count("must_be_refused", must as u64);
    obs.count("must_be_refused.with_existing_outputs", (must && pl.work.force && before.contains_key(&p.names.rs)) as u64);
    if must && d.status == 0 {
        return violation("accepted", format!("status 0 for an input that has to be refused (legal form {}, defective {}, miscounted {})", p.files.legal, p.files.defective, pl.work.miscounted()));
    }
    if d.status != 0
        && let Some(x) = differences(&before, &wo.snapshot(), &[])
    {
        return violation("changed", format!("refused with status {} but {x}", d.status));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

#[derive(Serialize, Deserialize, Clone)]
pub struct Step5 {
    /// another version of the specification
    other: bool,
    force: bool,
    picks: Vec<Pick>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct P5 {
    work: Work,
    other: Work,
    first: [Residue; 2],
    history: Vec<Step5>,
    last: Option<[Residue; 2]>,
    rand: u64,
}
fn make5(r: &mut Rng, _: u64) -> P5 {
    let mut work = some_work(r, false);
    work.force = true;
    let mut other = some_work(r, false);
    other.tool = work.tool;
    let history = (0..r.below(4))
        .map(|_| {
            let act = [Act::KillBefore, Act::KillAfter, Act::PartialKill, Act::Err, Act::Zero][r.idx(5)];
            Step5 { other: r.chance(1, 3), force: r.chance(4, 5), picks: vec![pick(r, act)] }
        })
        .collect();
    P5 { work, other, first: [residue(r), residue(r)], history, last: if r.chance(1, 3) { Some([residue(r), residue(r)]) } else { None }, rand: r.next() }
}
fn exec5(pl: &P5, obs: &mut Obs) -> Res {
    let wo = world();
    let mut work = pl.work.clone();
    work.force = true;
    let Some(mut p) = prepare(&work) else { return Ok(()) };
    if !p.files.legal || p.files.defective || work.miscounted() {
        return Ok(());
    }
    let rf = reference(&p)?;
    record(obs, &rf.done);
    if rf.done.status != 0 {
        return violation("refused", format!("a valid specification is refused with {}: {}", rf.done.status, rf.done.stderr()));
    }
    wo.restore(&p.tree);
    apply_residue(&p, &rf, &pl.first);
    let spec = p.files.main.clone();
    for s in &pl.history {
        let mut w = work.clone();
        w.force = s.force;
        p.proc.args = w.args(&p.names);
        if s.other
            && let Some(f) = pl.other.files(&wo.root)
        {
            wo.write(&p.names.spec, &f.main);
        }
        let cls = classes(&rf.done, &|_, _| true);
        p.proc.faults = s.picks.iter().filter_map(|k| resolve(k, &cls)).collect();
        p.proc.rand = combine(pl.rand, 7);
        let d = wo.run1(&p.proc);
        sane(&d)?;
        count_faults(obs, &p.proc.faults, &d);
        print_faults(obs, &p.proc.faults);
        obs.print(d.hash);
        record(obs, &d);
        wo.write(&p.names.spec, &spec);
    }
    if let Some(l) = &pl.last {
        apply_residue(&p, &rf, l);
    }
    let before = wo.snapshot();
    let has = |n: &str| matches!(before.get(n), Some(Node::File(_, _)));
    obs.nontrivial = has(&p.names.rs) || has(&p.names.st);
    obs.hist(wo.tree_hash());
    obs.print(wo.tree_hash());
    p.proc.faults = vec![];
    p.proc.args = work.args(&p.names);
    p.proc.rand = pl.rand;
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    if d.status != 0 {
        return violation("refused", format!("the forced run ends with {}: {}", d.status, d.stderr()));
    }
    complete(&p, &rf, &wo.snapshot(), "not-converged")
}

// ---------------------------------------------------------------- C06

#[derive(Serialize, Deserialize, Clone)]
pub struct P6 {
    work: Work,
    danger: u8,
    there: u8,
    residue: [Residue; 2],
    runs: Vec<Vec<Pick>>,
    noise: (u64, u32, u32),
}
fn make6(r: &mut Rng, _: u64) -> P6 {
    let mut work = some_work(r, false);
    if r.chance(1, 4) {
        divide(r, &mut work, 2);
    }
    if r.chance(1, 8) {
        work.edits.push(Edit::Drop(r.below(500) as u16));
    }
    let danger = if r.chance(1, 3) { 1 + r.below(17) as u8 } else { 0 };
    let runs = (0..1 + r.below(2))
        .map(|_| {
            (0..r.below(3))
                .map(|_| {
                    let act = [Act::KillBefore, Act::KillAfter, Act::PartialKill, Act::Err, Act::Err, Act::Zero, Act::Short][r.idx(7)];
                    pick(r, act)
                })
                .collect()
        })
        .collect();
    let noise = if r.chance(1, 4) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P6 { work, danger, there: r.below(256) as u8, residue: [residue(r), residue(r)], runs, noise }
}
fn exec6(pl: &P6, obs: &mut Obs) -> Res {
    let wo = world();
    let Some(files) = pl.work.files(&wo.root) else { return Ok(()) };
    let root = wo.root.clone();
    let base = names(&pl.work, &root);
    // (name of the specification, option, link to make)
    let mut link: Option<(String, String)> = None;
    let mut existing_rs = false;
    let n = match pl.danger {
        0 => base,
        1 => names_of("g.laps", "g.laps", &root),
        2 => names_of("g.laps", "./g.laps", &root),
        3 => names_of("spec/g.laps", "out/../spec/g.laps", &root),
        4 => names_of("g.laps", "ROOT/g.laps", &root),
        5 => names_of("ROOT/g.laps", "g.laps", &root),
        6 => {
            link = Some(("out/alias.rs".into(), format!("{root}/g.laps")));
            names_of("g.laps", "out/alias.rs", &root)
        }
        7 => names_of("g.states", "g.rs", &root),
        8 => names_of("g.laps", "x.states", &root),
        9 => names_of("g.rs", "", &root),
        10 => names_of("g.states", "", &root),
        11 => {
            link = Some(("o.states".into(), format!("{root}/g.laps")));
            names_of("g.laps", "o.rs", &root)
        }
        12 => {
            link = Some(("o.states".into(), format!("{root}/o.rs")));
            existing_rs = true;
            names_of("g.laps", "o.rs", &root)
        }
        13 => {
            link = Some(("sub".into(), format!("{root}/spec")));
            names_of("spec/g.laps", "sub/g.laps", &root)
        }
        14 => names_of("out/../g.states", "./spec/../g.out", &root),
        // directories that aren't there
        15 => names_of("g.laps", "new/p.rs", &root),
        16 => names_of("spec/g.laps", "ROOT/out/new/deep/p.rs", &root),
        _ => names_of("g.laps", "nowhere/../p.rs", &root),
    };
    wo.clean();
    if let Some((a, b)) = &link {
        wo.put(a, &Node::Link(b.clone()));
    }
    let mut p = fill(&pl.work, n, files);
    if existing_rs {
        wo.write(&p.names.rs, b"an earlier parser\n");
        p.tree = wo.snapshot();
    }
    if pl.danger > 0 {
        let before = wo.snapshot();
        p.proc.noise = pl.noise;
        let d = wo.run1(&p.proc);
        sane(&d)?;
        record(obs, &d);
        obs.hist(wo.tree_hash());
        obs.nontrivial = true;
        obs.print(combine(pl.danger as u64, d.hash));
        obs.count(&format!("dangerous_option.{}", pl.danger), 1);
        if d.status == 0 {
            return violation("dangerous-accepted", format!("status 0 for specification {:?}, output option {:?}", p.names.spec_arg, p.names.out_arg));
        }
        if let Some(x) = differences(&before, &wo.snapshot(), &[]) {
            return violation("dangerous-changed", format!("specification {:?}, output option {:?}: {x}", p.names.spec_arg, p.names.out_arg));
        }
        if !d.escapes.is_empty() {
            return violation("escape", format!("outside its directory: {:?}", d.escapes));
        }
        return Ok(());
    }
    // an output may be a link to a file in another directory
    let mut targets = vec![];
    if pl.there / 4 % 4 == 0 {
        for (n, t) in [(&p.names.rs, "out/deep/linked.rs"), (&p.names.st, "out/deep/linked.txt")] {
            if pl.there / 16 % 3 == 2 || (pl.there / 16 % 3 == 0) == (n == &p.names.rs) {
                wo.put(n, &Node::Link(format!("{root}/{t}")));
                wo.write(t, b"linked\n");
                targets.push(t);
            }
        }
        for b in ["out/deep/linked.states", "out/deep/linked.laps", "out/deep/other.states", "out/deep/linked.tmp"] {
            wo.write(b, format!("bystander {b}\n").as_bytes());
        }
        p.tree = wo.snapshot();
        obs.count("output_is_a_link", 1);
    }
    let rf = reference(&p)?;
    record(obs, &rf.done);
    let after_ref = wo.snapshot();
    let mut except = vec![p.names.rs.as_str(), p.names.st.as_str()];
    except.extend(targets);
    let check = |what: &str, d: &Done, before: &Tree, after: &Tree| -> Res {
        if !d.escapes.is_empty() {
            return violation("escape", format!("{what}: outside its directory: {:?}", d.escapes));
        }
        if let Some(x) = differences(before, after, &except) {
            return violation("other-file", format!("{what}: {x}"));
        }
        Ok(())
    };
    check("undisturbed", &rf.done, &p.tree, &after_ref)?;
    wo.restore(&p.tree);
    if except.len() == 2 && (pl.work.force || pl.there % 4 == 0) {
        apply_residue(&p, &rf, &pl.residue);
    }
    let cls = classes(&rf.done, &|_, _| true);
    for (i, picks) in pl.runs.iter().enumerate() {
        let before = wo.snapshot();
        let faults: Vec<Fault> = picks.iter().filter_map(|k| resolve(k, &cls)).filter(|f| !(f.act == Act::Zero && f.op == Op::Read)).collect();
        p.proc.faults = faults.clone();
        p.proc.noise = pl.noise;
        let d = wo.run1(&p.proc);
        sane(&d)?;
        record(obs, &d);
        count_faults(obs, &faults, &d);
        print_faults(obs, &faults);
        obs.print(d.hash);
        obs.nontrivial |= d.fired.iter().any(|n| *n > 0) || before.contains_key(except[0]);
        obs.hist(wo.tree_hash());
        check(&format!("run {i}, status {}", d.status), &d, &before, &wo.snapshot())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

#[derive(Serialize, Deserialize, Clone)]
pub struct P7 {
    /// 0: all outputs differ, 1: one specification, one output, forced, 2: the same outputs, not forced
    mode: u8,
    works: Vec<Work>,
    shared_spec: bool,
    schedule: Vec<(u16, u8)>,
    /// (process, after how many of its turns)
    kill: Option<(u8, u16)>,
    existing: bool,
    rand: u64,
}
fn make7(r: &mut Rng, _: u64) -> P7 {
    let mode = [0, 0, 1, 2, 2][r.idx(5)];
    let n = 2 + r.idx(3);
    let shared_spec = mode == 1 || r.chance(1, 3);
    let first = some_work(r, true);
    let works = (0..n)
        .map(|i| {
            let mut w = if i == 0 || shared_spec { first.clone() } else { some_work(r, true) };
            w.force = mode == 1 || (mode == 0 && r.chance(1, 2));
            if let Src::Repo(_) = w.src
                && r.chance(2, 3)
            {
                w.src = first.src.clone();
                w.tool = first.tool;
            }
            w
        })
        .collect();
    let fine = r.chance(1, 2);
    let len = if fine { 400 } else { 60 };
    let schedule = (0..len).map(|_| ((if fine { r.log(12) - 1 } else { r.log(4000) - 1 }) as u16, r.below(256) as u8)).collect();
    let kill = if mode != 1 && r.chance(1, 3) { Some((r.below(n as u64) as u8, r.log(60) as u16)) } else { None };
    P7 { mode, works, shared_spec, schedule, kill, existing: r.chance(1, 3), rand: r.next() }
}
fn exec7(pl: &P7, obs: &mut Obs) -> Res {
    let wo = world();
    let n = pl.works.len();
    if n == 0 || n > 5 {
        return Ok(());
    }
    let root = wo.root.clone();
    // processes, their files, and what each writes alone
    let mut preps: Vec<Prepared> = vec![];
    for (i, w) in pl.works.iter().enumerate() {
        let mut w = w.clone();
        w.force = match pl.mode {
            1 => true,
            2 => false,
            _ => w.force,
        };
        w.cuts.clear();
        let Some(files) = w.files(&root) else { return Ok(()) };
        let spec_no = if pl.shared_spec { 0 } else { i };
        // neighbouring files in one directory or in different ones
        let spec = format!("{}s{spec_no}.laps", ["", "spec/"][(spec_no + pl.rand as usize) % 2]);
        let out = match pl.mode {
            0 => format!("{}o{i}{}.rs", ["", "out/"][(pl.rand as usize >> i) % 2], ["", ".x"][(pl.rand as usize >> (i + 8)) % 2]),
            _ => "out/shared.rs".to_string(),
        };
        let names = names_of(&spec, &out, &root);
        let args = w.args(&names);
        let roles = vec![(names.spec.clone(), Role::Spec), (names.rs.clone(), Role::Rs), (names.st.clone(), Role::States)];
        let mut proc = Proc::new(w.tool, args, roles);
        proc.rand = combine(pl.rand, i as u64);
        preps.push(Prepared { names, files, proc, tree: Tree::new() });
    }
    if pl.shared_spec && (1..n).any(|i| preps[i].files.main != preps[0].files.main || pl.works[i].tool != pl.works[0].tool) {
        return Ok(());
    }
    wo.clean();
    for p in &preps {
        wo.write(&p.names.spec, &p.files.main);
    }
    let mut tree = wo.snapshot();
    let mut refs = vec![];
    for p in &preps {
        wo.restore(&tree);
        let rf = reference(p)?;
        record(obs, &rf.done);
        refs.push(rf);
    }
    wo.restore(&tree);
    if pl.existing && pl.mode == 1 {
        for (path, real) in [(&preps[0].names.rs, &refs[0].rs), (&preps[0].names.st, &refs[0].st)] {
            let mut b = real.clone().unwrap_or_default();
            b.extend(b"longer than needed\n".repeat(20));
            wo.write(path, &b);
        }
        tree = wo.snapshot();
    }
    for p in preps.iter_mut() {
        p.proc.quantum = 0;
    }
    let procs: Vec<Proc> = preps.iter().map(|p| p.proc.clone()).collect();
    let mut k = 0;
    let mut turns = vec![0u32; n];
    let mut order = 0u64;
    let mut switches = 0u64;
    let mut last = usize::MAX;
    let mut killed = None;
    let done = wo.run(&procs, &mut |_, st| {
        let (gap, who) = if pl.schedule.is_empty() { (0, k as u8) } else { pl.schedule[k % pl.schedule.len()] };
        // after the planned part the same schedule in coarser steps
        let gap = if k >= pl.schedule.len() * 3 { gap as i64 * 50 + 100 } else { gap as i64 };
        k += 1;
        let (i, req) = st[who as usize % st.len()];
        turns[i] += 1;
        if last != i {
            switches += 1;
        }
        last = i;
        order = combine(order, combine(i as u64, ((req.op as u64) << 32) | ((req.role as u64) << 24) | req.nevents as u64));
        if let Some((p, after)) = pl.kill
            && p as usize % n == i
            && turns[i] == after as u32 + 1
        {
            killed = Some(i);
            return (i, Rep::act(Act::KillBefore, 0, -1));
        }
        (i, Rep::go(gap))
    });
    for d in &done {
        sane(d)?;
        record(obs, d);
    }
    obs.count("fault.kill", killed.is_some() as u64);
    obs.count("context_switches", switches);
    obs.count(&format!("mode{}", pl.mode), 1);
    obs.nontrivial = switches > n as u64;
    obs.print(order);
    obs.hist(order);
    obs.hist(wo.tree_hash());
    let after = wo.snapshot();
    let outputs: Vec<&str> = preps.iter().flat_map(|p| [p.names.rs.as_str(), p.names.st.as_str()]).collect();
    if let Some(x) = differences(&tree, &after, &outputs) {
        return violation("other-file", x);
    }
    match pl.mode {
        0 => {
            for i in 0..n {
                if killed == Some(i) {
                    continue;
                }
                let (d, r) = (&done[i], &refs[i].done);
                if d.status != r.status || d.err != r.err {
                    return violation("disturbed", format!("process {i}: status {} instead of {}: {}", d.status, r.status, d.stderr()));
                }
                if r.status == 0 {
                    complete(&preps[i], &refs[i], &after, "disturbed")?;
                }
            }
        }
        1 => {
            for i in 0..n {
                if done[i].status != refs[i].done.status {
                    return violation("disturbed", format!("process {i}: status {} instead of {}: {}", done[i].status, refs[i].done.status, done[i].stderr()));
                }
            }
            if refs[0].done.status == 0 {
                complete(&preps[0], &refs[0], &after, "incomplete")?;
            }
        }
        _ => {
            let won: Vec<usize> = (0..n).filter(|i| done[*i].status == 0).collect();
            obs.count("winners", won.len() as u64);
            if won.len() > 1 {
                return violation("two-successes", format!("processes {won:?} all report success for one output path without --force"));
            }
            if let Some(i) = won.first() {
                complete(&preps[*i], &refs[*i], &after, "incomplete")?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, Clone)]
pub struct P8 {
    work: Work,
    /// 0: nothing is wrong with the files; otherwise as for C04's kinds 3, 5, 6 and 1
    how: u8,
    at: u16,
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
}
fn make8(r: &mut Rng, _: u64) -> P8 {
    let mut work = some_work(r, true);
    while let Src::Repo(_) = work.src {
        work = some_work(r, true);
    }
    let max = 1 + r.idx(7);
    if r.chance(1, 5) {
        divide_same(r, &mut work);
    }
    if r.chance(3, 4) || work.cuts.is_empty() {
        divide(r, &mut work, max);
    }
    if r.chance(1, 10) {
        if r.chance(1, 6) {
            let g = gram::corpus::big(r).0;
            work.tool = if g.augmented { 1 } else { r.below(2) as u8 };
            work.src = Src::Gram(g);
            work.edits.clear();
        }
        divide_deep(r, &mut work);
    } else if r.chance(1, 20) {
        divide(r, &mut work, 30);
    }
    if r.chance(1, 8) {
        work.declared_sr = 1;
    }
    let how = if r.chance(3, 4) { 0 } else { [1, 3, 5, 6][r.idx(4)] };
    let picks = if how == 1 { vec![pick(r, Act::Err)] } else { vec![] };
    let noise = if r.chance(1, 4) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P8 { work, how, at: r.below(65536) as u16, picks, noise }
}
fn exec8(pl: &P8, obs: &mut Obs) -> Res {
    let wo = world();
    let mut whole = pl.work.clone();
    whole.cuts.clear();
    let Some(p0) = prepare(&whole) else { return Ok(()) };
    if !p0.files.legal {
        return Ok(());
    }
    let rf = reference(&p0)?;
    record(obs, &rf.done);
    let want = wo.snapshot();
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    if !p.files.legal || p.files.injected.is_empty() {
        return Ok(());
    }
    obs.count("files_injected_more_than_once", (pl.work.cuts.len() > p.files.injected.len()) as u64);
    obs.count("injected_files", p.files.injected.len() as u64);
    obs.count(&format!("depth.{}", p.files.depth), 1);
    obs.nontrivial = true;
    p.proc.noise = pl.noise;
    let which = p.files.injected[pl.at as usize % p.files.injected.len()].clone();
    if pl.how > 0 {
        let mut faults = vec![];
        match pl.how {
            3 => wo.remove(&which.1),
            5 => wo.write(&which.1, b""),
            6 => {
                let mut t = which.2.clone();
                let mut i = pl.at as usize % (t.len() + 1);
                // not within the name of the scratch directory: it differs from execution to execution
                let root = wo.root.as_bytes();
                if let Some(k) = (0..t.len()).find(|k| t[*k..].starts_with(root) && *k < i && i < k + root.len()) {
                    i = k;
                }
                t.insert(i, 0xc3);
                if std::str::from_utf8(&t).is_ok() {
                    return Ok(());
                }
                wo.write(&which.1, &t);
            }
            _ => {
                let rd = reference(&p)?;
                wo.restore(&p.tree);
                let cls = classes(&rd.done, &|op, role| matches!((op, role), (Op::OpenR | Op::Read, Role::Inj)));
                faults = pl.picks.iter().filter_map(|k| resolve(k, &cls)).filter(is_hard).collect();
                if faults.is_empty() {
                    return Ok(());
                }
            }
        }
        let before = wo.snapshot();
        p.proc.faults = faults.clone();
        let d = wo.run1(&p.proc);
        sane(&d)?;
        record(obs, &d);
        count_faults(obs, &faults, &d);
        obs.count(&format!("fault.injected_file{}", pl.how), 1);
        obs.print(d.hash);
        obs.hist(wo.tree_hash());
        if pl.how == 1 && d.fired.iter().all(|n| *n == 0) {
            return Ok(());
        }
        if d.status == 0 {
            return violation("accepted", format!("status 0 although {:?} could not be injected (how {})", which.0, pl.how));
        }
        let err = String::from_utf8_lossy(&d.err);
        let named = |p: &str| err.contains(p) || err.contains(p.rsplit('/').next().unwrap());
        if !(err.contains("nject") || (pl.how != 1 && named(&which.0)) || (pl.how == 1 && p.files.injected.iter().any(|i| named(&i.0)))) {
            return violation("not-diagnosed", format!("nothing about {:?}: {}", which.0, d.stderr()));
        }
        if let Some(x) = differences(&before, &wo.snapshot(), &[]) {
            return violation("changed", format!("refused but {x}"));
        }
        return Ok(());
    }
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &[], &d);
    obs.print(d.hash);
    obs.hist(wo.tree_hash());
    if d.status != rf.done.status {
        return violation("status", format!("status {} instead of {}: {}", d.status, rf.done.status, d.stderr()));
    }
    let got = wo.snapshot();
    for path in [&p.names.rs, &p.names.st] {
        match (want.get(path), got.get(path)) {
            (Some(Node::File(a, _)), Some(Node::File(b, _))) => {
                if a != b {
                    let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    let show = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(40)..(at + 60).min(v.len())]).into_owned();
                    return violation("differs", format!("{path} differs at {at}: {:?} instead of {:?}", show(b), show(a)));
                }
            }
            (None, None) => (),
            (a, b) => return violation("differs", format!("{path}: {:?} instead of {:?}", b.map(|n| n.brief()), a.map(|n| n.brief()))),
        }
    }
    let _ = lang::legal;
    Ok(())
}

// ---------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Damage {
    Truncate(u16),
    Lose(u16, u16),
    Twice(u16, u16, u16),
    Swap(u16, u16, u16),
    Flip(u16, u8),
    Zero(u16, u16),
    Byte(u16, u8),
    Text(u16, String),
    /// a character again and again (a key that hangs)
    Repeat(u16, u16),
    /// a digit of a number again and again
    Digits(u16, u16),
    /// so many characters of other scripts, of one, two, three and four bytes
    Alien(u16, u16, u8),
    /// a name (or literal) that goes on with so many letters of other scripts
    Name(u16, u16, u8),
}
#[derive(Serialize, Deserialize, Clone)]
pub struct P9 {
    work: Work,
    file: u8,
    damage: Vec<Damage>,
    /// while reading: flipped bytes, an early end
    picks: Vec<Pick>,
    noise: (u64, u32, u32),
}
const SNIPPETS: &[&str] = &[
    "%%", "%token", "%inject", "!{", "!}", "?(", "?)", "%{", "%}", "\"", "|", ".", ":", "%prec", "%error", "%skip", "%left", "/*", "*/", "//", "(", ")", "%attr", "%target", "$1", "$$", "$9", "$?",
    "$INJECT", "\u{0}", "é", "\u{feff}", "%expect", "AAEnd", "AAStart", "AAError", "99999999999999999999", "\r", "\n", "%reduce_reduce", "%shift_reduce", "((((((", "(a{1000}{1000})", "(\\p{Greek}+)", "\"\"", "\"\\\"\"", "()", "%% %%", "%inject \"nope\".",
    "$0", "$-1", "$%", "%nonassoc", "%right", "(|a)", "(a*)", "(.*)", "(?i)", "(^a)", "(\\b)", "x.", "A: .", "A: A .", "A: %error .", "A: A A A | .",
];
fn make9(r: &mut Rng, _: u64) -> P9 {
    let mut work = some_work(r, false);
    work.force = r.chance(1, 2);
    let defective = r.chance(1, 5);
    if defective {
        work.edits.push(defect(r));
    } else if r.chance(1, 4) {
        for _ in 0..1 + r.below(3) {
            let e = match r.below(8) {
                0 | 1 => Edit::Drop(r.below(2000) as u16),
                2 => Edit::Dup(r.below(2000) as u16, r.below(2000) as u16),
                3 => Edit::Swap(r.below(2000) as u16, r.below(2000) as u16),
                4 => Edit::Undefined(r.below(2000) as u16),
                5 => Edit::Again(r.below(2000) as u16),
                _ => Edit::Insert(r.below(2000) as u16, r.below(20) as u8),
            };
            work.edits.push(e);
        }
    }
    let p = |r: &mut Rng| r.below(65536) as u16;
    let damage = (0..if defective && r.chance(3, 4) { 0 } else { r.below(4) })
        .map(|_| {
            let len = if r.chance(1, 2) { 512 } else { r.log(3000) as u16 };
            match r.below(17) {
                14..=16 => Damage::Name(p(r), r.log(3000) as u16, r.below(256) as u8),
                12 | 13 => Damage::Alien(p(r), r.log(3000) as u16, r.below(256) as u8),
                8 => Damage::Repeat(p(r), r.log(6000) as u16),
                9 => Damage::Digits(p(r), r.log(400) as u16),
                0 | 1 => Damage::Truncate(p(r)),
                2 => Damage::Lose(p(r), len),
                3 => Damage::Twice(p(r), p(r), len),
                4 => Damage::Swap(p(r), p(r), len),
                5 => Damage::Flip(p(r), 1 << r.below(8)),
                6 => Damage::Zero(p(r), len),
                7 => Damage::Byte(p(r), r.below(256) as u8),
                _ => Damage::Text(p(r), r.pick(SNIPPETS).to_string()),
            }
        })
        .collect();
    let picks = if r.chance(1, 4) {
        (0..1 + r.below(2))
            .map(|_| {
                let act = if r.chance(2, 3) { Act::Flip } else { Act::Zero };
                pick(r, act)
            })
            .collect()
    } else {
        vec![]
    };
    let noise = if r.chance(1, 5) { (r.next(), rate(r), rate(r)) } else { (0, 0, 0) };
    P9 { work, file: r.below(256) as u8, damage, picks, noise }
}
/// puts in text where a character starts
fn put(v: &mut Vec<u8>, mut a: usize, s: &str) {
    while a < v.len() && (v[a] & 0xc0) == 0x80 {
        a += 1;
    }
    v.splice(a..a, s.bytes());
}
fn damaged(t: &[u8], ds: &[Damage]) -> Vec<u8> {
    let mut v = t.to_vec();
    for d in ds {
        let n = v.len();
        let at = |p: &u16| (n as u64 * *p as u64 / 65536) as usize;
        // blocks start at multiples of their size, like the ones of a disk
        let block = |p: &u16, len: &u16| {
            let l = (*len as usize).max(1);
            let a = at(p) / l * l;
            (a, (a + l).min(n))
        };
        match d {
            Damage::Truncate(p) => v.truncate(at(p)),
            Damage::Lose(p, l) => {
                let (a, b) = block(p, l);
                v.drain(a..b);
            }
            Damage::Twice(p, q, l) => {
                let (a, b) = block(p, l);
                let part = v[a..b].to_vec();
                let (c, _) = block(q, l);
                v.splice(c..c, part);
            }
            Damage::Swap(p, q, l) => {
                let (a, b) = block(p, l);
                let (c, e) = block(q, l);
                if b <= c {
                    let mut o = v[..a].to_vec();
                    o.extend(&v[c..e]);
                    o.extend(&v[b..c]);
                    o.extend(&v[a..b]);
                    o.extend(&v[e..]);
                    v = o;
                }
            }
            Damage::Flip(p, m) => {
                if n > 0 {
                    v[at(p)] ^= m;
                }
            }
            Damage::Zero(p, l) => {
                let (a, b) = block(p, l);
                v[a..b].fill(0);
            }
            Damage::Byte(p, x) => v.insert(at(p), *x),
            Damage::Repeat(p, k) => {
                if n > 0 {
                    let c = v[at(p)];
                    v.splice(at(p)..at(p), vec![c; *k as usize]);
                }
            }
            Damage::Digits(p, k) => {
                let c: Vec<usize> = (0..n).filter(|i| v[*i].is_ascii_digit()).collect();
                if !c.is_empty() {
                    let i = c[c.len() * *p as usize / 65536];
                    let d = v[i];
                    v.splice(i..i, vec![d; *k as usize]);
                }
            }
            Damage::Alien(p, k, x) => {
                let mut r = Rng::new(((*p as u64) << 8) + *x as u64);
                let few: Vec<char> = (0..1 + (*x as usize >> 2) % 6).map(|_| *r.pick(&['é', '§', '→', '語', '🦀', '\u{300}', '@', '#', '&', 'ß', '\u{feff}', '`'])).collect();
                // at the beginning of a line it is seen as something of its own more often
                let mut a = at(p);
                if x % 4 != 0 {
                    a = v[..a].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
                }
                let s: String = (0..*k).map(|_| *r.pick(&few)).collect();
                put(&mut v, a, &s);
            }
            Damage::Name(p, k, x) => {
                let from = at(p);
                let name = |i: &usize| v[*i - 1].is_ascii_alphanumeric() && (v[*i].is_ascii_alphanumeric() || b" \"\n.".contains(&v[*i]));
                // (the end of) a literal
                let literal = |i: &usize| v[*i] == b'"' && !b" \n(\"".contains(&v[*i - 1]);
                let mut places = from.max(1)..n;
                if let Some(a) = if *x >= 0x80 { places.find(literal) } else { places.find(name) } {
                    let c = ['é', 'ß', '語', 'λ', '𝒳', 'x'][(*x as usize >> 2) % 6];
                    let s: String = "abc".chars().take((*x & 3) as usize).chain(std::iter::repeat_n(c, *k as usize)).collect();
                    put(&mut v, a, &s);
                }
            }
            Damage::Text(p, s) => {
                let a = at(p);
                put(&mut v, a, s);
            }
        }
    }
    v
}
fn exec9(pl: &P9, obs: &mut Obs) -> Res {
    let wo = world();
    let Some(mut p) = prepare(&pl.work) else { return Ok(()) };
    let f = if pl.file % 3 != 0 || p.files.injected.is_empty() {
        p.names.spec.clone()
    } else {
        p.files.injected[pl.file as usize % p.files.injected.len()].1.clone()
    };
    let text = wo.read(&f).unwrap_or_default();
    let new = damaged(&text, &pl.damage);
    wo.write(&f, &new);
    for d in &pl.damage {
        obs.count(&format!("fault.{}", format!("{d:?}").split('(').next().unwrap().to_lowercase()), 1);
    }
    // what is read, if it is damaged while it is read
    let flips: Vec<&Pick> = pl.picks.iter().filter(|k| k.act == Act::Flip).collect();
    let mut read = new.clone();
    let mut faults = vec![];
    for k in &flips {
        if !read.is_empty() && f == p.names.spec {
            let at = (k.arg as u64 >> 8) as usize % read.len();
            let m = (k.arg as u8).max(1);
            read[at] ^= m;
            faults.push(Fault { op: Op::Read, role: Role::Spec, act: Act::Flip, sticky: false, nth: 0, arg: ((at as i64) << 8) | m as i64 });
        }
    }
    p.tree = wo.snapshot();
    let with_reads = Files { main: vec![], injected: vec![], legal: true, defective: false, elements: 0, depth: 0 };
    let _ = with_reads;
    // reference: the same text, undisturbed
    wo.write(&f, if faults.is_empty() { &new } else { &read });
    let before = wo.snapshot();
    let rf = reference(&p)?;
    obs.hist(wo.tree_hash());
    record(obs, &rf.done);
    let judge = |d: &Done, what: &str| -> Res {
        match d.status {
            0 => Ok(()),
            1 | 2 | 4 | 6 | 7 => {
                if d.err.is_empty() {
                    return violation("silent", format!("{what}: status {} and not a word", d.status));
                }
                Ok(())
            }
            101 => violation("panic", format!("{what}: {}", d.stderr())),
            n if n < 0 => violation("signal", format!("{what}: killed by signal {}: {}", -n, d.stderr())),
            n => violation("status", format!("{what}: status {n}: {}", d.stderr())),
        }
    };
    judge(&rf.done, "undisturbed reading")?;
    if rf.done.status == 0 && pl.damage.is_empty() && faults.is_empty() && pl.work.edits.len() <= 1 && (!p.files.legal || p.files.defective) {
        return violation("accepted", format!("status 0 for a specification that has to be diagnosed (legal form {}, defective {})", p.files.legal, p.files.defective));
    }
    if rf.done.status == 0 {
        for path in [&p.names.rs, &p.names.st] {
            if !wo.read(path).is_some_and(|b| !b.is_empty()) {
                return violation("incomplete", format!("status 0 but {path} is missing or empty"));
            }
        }
    } else if let Some(x) = differences(&before, &wo.snapshot(), &[]) {
        return violation("changed", format!("refused with {} but {x}", rf.done.status));
    }
    obs.nontrivial = !pl.damage.is_empty() || !pl.work.edits.is_empty() || !faults.is_empty();
    obs.count("accepted", (rf.done.status == 0) as u64);
    obs.print(rf.done.hash);
    obs.print(simkit::rng::hash_bytes(&read));
    if faults.is_empty() && pl.noise.1 + pl.noise.2 == 0 && pl.picks.is_empty() {
        return Ok(());
    }
    wo.restore(&p.tree);
    let cls = classes(&rf.done, &|op, role| op == Op::Read && matches!(role, Role::Spec | Role::Inj));
    let early: Vec<Fault> = pl.picks.iter().filter(|k| k.act == Act::Zero).filter_map(|k| resolve(k, &cls)).collect();
    let exact = early.is_empty();
    faults.extend(early);
    p.proc.faults = faults.clone();
    p.proc.noise = pl.noise;
    let d = wo.run1(&p.proc);
    sane(&d)?;
    record(obs, &d);
    count_faults(obs, &faults, &d);
    obs.nontrivial |= d.fired.iter().any(|n| *n > 0);
    obs.print(d.hash);
    judge(&d, "damaged while reading")?;
    obs.hist(wo.tree_hash());
    let after = wo.snapshot();
    if exact {
        if d.status != rf.done.status {
            return violation("inexact", format!("status {} where reading the same text undisturbed ends with {}", d.status, rf.done.status));
        }
        if d.status == 0 {
            complete(&p, &rf, &after, "inexact")?;
        }
    } else if d.status == 0 {
        for path in [&p.names.rs, &p.names.st] {
            if !matches!(after.get(path.as_str()), Some(Node::File(b, _)) if !b.is_empty()) {
                return violation("incomplete", format!("status 0 but {path} is missing or empty"));
            }
        }
    }
    Ok(())
}

const MEASURE: &str = "hash of the plan's fault placement and of every simulated operation with its result, in order";

pub fn run(cli: &simkit::runner::Cli) -> i32 {
    let scratch = cli.opt.scratch.clone();
    macro_rules! sc {
        ($id:literal, $runs:literal, $make:ident, $exec:ident, $rule:literal) => {
            cli.run(&Sc { id: $id, scratch, runs: $runs, rule: $rule, measure: MEASURE, make: $make, exec: $exec })
        };
    }
    match cli.property.as_str() {
        "C01" => sc!("C01", 7500, make1, exec1, "random specification, options, residues; 0-2 failing/short/no-progress operations placed in the operations of an undisturbed run, retryable noise; non-trivial: at least one fault or disturbance fired"),
        "C02" => sc!("C02", 6000, make2, exec2, "random specification (also invalid ones), options, residues; EINTR and short transfers at random rates on every open, read and write and at chosen operations; non-trivial: at least one fired"),
        "C03" => sc!("C03", 7500, make3, exec3, "output paths occupied from the start or by another process at a chosen operation, existence queries failing or lying, I/O errors; non-trivial: somebody else's file existed"),
        "C04" => sc!("C04", 7500, make4, exec4, "inputs that have to be refused (damaged form by a reference grammar of the language, undefined and repeated names, wrong conflict counts, unreadable, missing or non-text files) with existing outputs; non-trivial: it had to be refused"),
        "C05" => sc!("C05", 3200, make5, exec5, "history of up to 3 killed or failing runs (also of another specification) and damaged residues, then a forced run; non-trivial: some output file existed before the last run"),
        "C06" => sc!("C06", 5400, make6, exec6, "one or two runs with kills and I/O errors, whole directory compared before and after; or options that name the specification or the other output; non-trivial: a fault fired, an output existed, or the options were dangerous"),
        "C07" => sc!("C07", 1800, make7, exec7, "2-4 generator processes interleaved at single operations by a seeded schedule, one possibly killed; non-trivial: more context switches than processes"),
        "C08" => sc!("C08", 3600, make8, exec8, "random specification divided into up to 7 nested injected files at places legal by a reference grammar, also blank files; or one injected file missing, unreadable, empty, not text; non-trivial: at least one injected file"),
        "C09" => sc!("C09", 7500, make9, exec9, "specification with edited elements, truncated, blocks lost, repeated, swapped, zeroed, bits flipped, garbage inserted, also while being read; non-trivial: something was damaged"),
        p => {
            eprintln!("unknown property {p}");
            2
        }
    }
}
