//! Generic minimisation of plans: candidates are simpler versions of the JSON form of the plan.
use serde_json::Value;
use std::rc::Rc;

#[derive(Clone)]
enum Step {
    Key(String),
    Index(usize),
}

fn at<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get_mut(k).unwrap(),
            Step::Index(i) => v.get_mut(*i).unwrap(),
        };
    }
    v
}

fn walk(v: &Value, path: &mut Vec<Step>, visit: &mut dyn FnMut(&Value, &[Step])) {
    visit(v, path);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Index(i));
                walk(x, path, visit);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter() {
                path.push(Step::Key(k.clone()));
                walk(x, path, visit);
                path.pop();
            }
        }
        _ => (),
    }
}

enum Change {
    /// removes elements or characters
    Remove(usize, usize),
    Set(Value),
}
/// A way to make a plan simpler (plans can be large: the simpler plans are made one at a time)
pub struct Candidate {
    path: Rc<Vec<Step>>,
    change: Change,
}
impl Candidate {
    /// None if it makes no difference
    pub fn of(&self, v: &Value) -> Option<Value> {
        let mut c = v.clone();
        let y = at(&mut c, &self.path);
        match (&self.change, &mut *y) {
            (Change::Set(x), y) if x == y => return None,
            (Change::Set(x), y) => *y = x.clone(),
            (Change::Remove(a, b), Value::Array(x)) => {
                x.drain(a..b);
            }
            (Change::Remove(a, b), Value::String(s)) => *s = s.chars().take(*a).chain(s.chars().skip(*b)).collect(),
            _ => return None,
        }
        Some(c)
    }
}

/// Ways to simpler plans, the most promising first
pub fn candidates(v: &Value) -> Vec<Candidate> {
    let mut big = vec![];
    let mut small = vec![];
    let mut path = vec![];
    walk(v, &mut path, &mut |x, p| {
        let path = Rc::new(p.to_vec());
        let mut with = |change: Change, prio: bool| {
            let c = Candidate { path: path.clone(), change };
            if prio { big.push(c) } else { small.push(c) }
        };
        match x {
            Value::Array(_) | Value::String(_) => {
                let n = match x {
                    Value::Array(a) => a.len(),
                    Value::String(s) => s.chars().count(),
                    _ => 0,
                };
                let mut size = n;
                while size > 0 {
                    let prio = if x.is_array() { size > 1 || n <= 12 } else { size > 1 && size * 4 >= n };
                    let mut from = 0;
                    while from < n {
                        let to = (from + size).min(n);
                        with(Change::Remove(from, to), prio);
                        from = to;
                    }
                    size /= 2;
                }
            }
            Value::Number(k) => {
                if let Some(u) = k.as_u64() {
                    if u > 0 {
                        for r in [0, u / 2, u - u / 4, u - 1] {
                            with(Change::Set(r.into()), r == 0 && u < 1000);
                        }
                    }
                } else if let Some(i) = k.as_i64() {
                    for r in [0, i / 2] {
                        with(Change::Set(r.into()), false);
                    }
                }
            }
            Value::Bool(true) => with(Change::Set(Value::Bool(false)), true),
            _ => (),
        }
    });
    big.append(&mut small);
    big
}
