// The harness' own model of HDDL documents, and the JSON export it expects for them.
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Sym {
    pub name: String,
    pub line: u32,
    pub ty: Option<(String, u32)>,
    pub var: bool, // written with '?'
}

impl Sym {
    pub fn plain(name: &str) -> Sym {
        Sym { name: name.to_string(), line: 0, ty: None, var: false }
    }
    pub fn var(name: &str) -> Sym {
        Sym { name: name.to_string(), line: 0, ty: None, var: true }
    }
    pub fn typed(mut self, ty: Option<&str>) -> Sym {
        self.ty = ty.map(|t| (t.to_string(), 0));
        self
    }
    pub fn tyname(&self) -> Option<&str> {
        self.ty.as_ref().map(|x| x.0.as_str())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pred {
    pub name: String,
    pub line: u32,
    pub args: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    Int(i64),
    Real(f64),
}

pub type Term = (String, bool);

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Empty,
    Atom(Pred),
    Not(Box<F>),
    And(Vec<F>),
    Or(Vec<F>),
    Xor(Vec<F>),
    ForAll(Vec<Sym>, Box<F>),
    Exists(Vec<Sym>, Box<F>),
    Prob(Vec<(Num, F)>),
    Eq(Term, Term),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub id: Option<Sym>,
    pub task: Sym,
    pub terms: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ords {
    Total,
    Partial(Vec<(String, String)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Con {
    Eq(Term, Term),
    Ne(Term, Term),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tn {
    pub subtasks: Vec<Sub>,
    pub ordering: Option<u32>, // the :ordering block is written (and its line)
    pub ords: Ords,
    pub cons: Option<Vec<Con>>,
}

impl Tn {
    pub fn empty() -> Tn {
        Tn { subtasks: vec![], ordering: None, ords: Ords::Partial(vec![]), cons: None }
    }
    // nothing at all is written for this network
    pub fn is_blank(&self) -> bool {
        self.subtasks.is_empty()
            && self.ordering.is_none()
            && self.cons.is_none()
            && self.ords == Ords::Partial(vec![])
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub name: String,
    pub line: u32,
    pub params: Vec<Sym>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Action {
    pub name: String,
    pub line: u32,
    pub params: Vec<Sym>,
    pub pre: Option<F>,
    pub eff: Option<F>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Method {
    pub name: Sym,
    pub task: Sym,
    pub terms: Vec<Sym>,
    pub params: Vec<Sym>,
    pub pre: Option<F>,
    pub tn: Tn,
}

pub const REQS: [(&str, &str); 7] = [
    (":typing", "TypedObjects"),
    (":strips", "STRIPS"),
    (":negative-preconditions", "NegativePreconditions"),
    (":hierarchy", "Hierarchy"),
    (":equality", "Equality"),
    (":method-preconditions", "MethodPreconditions"),
    (":universal-preconditions", "UniversalPreconditions"),
];

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Domain {
    pub name: String,
    pub reqs: Vec<usize>,
    pub types: Vec<Sym>,
    pub consts: Vec<Sym>,
    pub preds: Vec<Pred>,
    pub funcs: Vec<Pred>,
    pub tasks: Vec<Task>,
    pub actions: Vec<Action>,
    pub methods: Vec<Method>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Problem {
    pub name: String,
    pub domain: String,
    pub reqs: Vec<usize>,
    pub objects: Vec<Sym>,
    pub init: Vec<Pred>,
    pub goal: Option<F>,
    pub htn: Option<(Option<Vec<Sym>>, Tn)>,
}

// ---------------------------------------------------------------- expected export

// positions are exported if `pos`, and left out otherwise
fn line(m: &mut Map<String, Value>, key: &str, l: u32, pos: bool) {
    if pos {
        m.insert(key.to_string(), json!({ "line": l }));
    }
}

pub fn sym(s: &Sym, pos: bool) -> Value {
    let mut m = Map::new();
    m.insert("name".into(), json!(s.name));
    line(&mut m, "name_pos", s.line, pos);
    if let Some((t, l)) = &s.ty {
        m.insert("symbol_type".into(), json!(t));
        line(&mut m, "type_pos", *l, pos);
    }
    Value::Object(m)
}

fn syms(s: &[Sym], pos: bool) -> Value {
    Value::Array(s.iter().map(|x| sym(x, pos)).collect())
}

fn named(name: &str, l: u32, key: &str, args: &[Sym], pos: bool) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("name".into(), json!(name));
    line(&mut m, "name_pos", l, pos);
    m.insert(key.into(), syms(args, pos));
    m
}

fn pred(p: &Pred, pos: bool) -> Value {
    Value::Object(named(&p.name, p.line, "variables", &p.args, pos))
}

fn num(n: &Num) -> Value {
    match n {
        Num::Int(i) => json!({ "Integer": i }),
        Num::Real(r) => json!({ "Real": r }),
    }
}

pub fn formula(f: &F, pos: bool) -> Value {
    let list = |x: &Vec<F>| Value::Array(x.iter().map(|y| formula(y, pos)).collect());
    match f {
        F::Empty => json!("Empty"),
        F::Atom(p) => json!({ "Atom": pred(p, pos) }),
        F::Not(x) => json!({ "Not": formula(x, pos) }),
        F::And(x) => json!({ "And": list(x) }),
        F::Or(x) => json!({ "Or": list(x) }),
        F::Xor(x) => json!({ "Xor": list(x) }),
        F::ForAll(v, x) => json!({ "ForAll": [syms(v, pos), formula(x, pos)] }),
        F::Exists(v, x) => json!({ "Exists": [syms(v, pos), formula(x, pos)] }),
        F::Prob(bs) => json!({ "And": bs.iter().map(|(n, x)|
            json!({ "Weighted": [num(n), formula(x, pos)] })).collect::<Vec<_>>() }),
        F::Eq(a, b) => json!({ "Equals": [a.0, b.0] }),
    }
}

fn opt_formula(f: &Option<F>, pos: bool) -> Value {
    match f {
        None => Value::Null,
        Some(f) => formula(f, pos),
    }
}

fn tn(t: &Tn, pos: bool) -> Value {
    let mut m = Map::new();
    m.insert(
        "subtasks".into(),
        Value::Array(
            t.subtasks
                .iter()
                .map(|s| {
                    json!({
                        "id": s.id.as_ref().map(|x| sym(x, pos)),
                        "task": sym(&s.task, pos),
                        "terms": syms(&s.terms, pos),
                    })
                })
                .collect(),
        ),
    );
    // whether there is an ordering block is kept also without positions
    m.insert(
        "ordering_pos".into(),
        match t.ordering {
            None => Value::Null,
            Some(l) if pos => json!({ "line": l }),
            Some(_) => json!({}),
        },
    );
    m.insert(
        "orderings".into(),
        match &t.ords {
            Ords::Total => json!("Total"),
            Ords::Partial(o) => json!({ "Partial": o }),
        },
    );
    m.insert(
        "constraints".into(),
        match &t.cons {
            None => Value::Null,
            Some(c) => Value::Array(
                c.iter()
                    .map(|c| match c {
                        Con::Eq(a, b) => json!({ "Equal": [a.0, b.0] }),
                        Con::Ne(a, b) => json!({ "NotEqual": [a.0, b.0] }),
                    })
                    .collect(),
            ),
        },
    );
    Value::Object(m)
}

fn reqs(r: &[usize]) -> Value {
    json!(r.iter().map(|x| REQS[*x].1).collect::<Vec<_>>())
}

pub fn domain_value(d: &Domain, pos: bool) -> Value {
    let opt = |x: &Vec<Sym>| if x.is_empty() { Value::Null } else { syms(x, pos) };
    json!({
        "name": d.name,
        "types": opt(&d.types),
        "constants": opt(&d.consts),
        "requirements": reqs(&d.reqs),
        "predicates": d.preds.iter().map(|p| pred(p, pos)).collect::<Vec<_>>(),
        "compound_tasks": d.tasks.iter().map(|t|
            Value::Object(named(&t.name, t.line, "parameters", &t.params, pos))).collect::<Vec<_>>(),
        "methods": d.methods.iter().map(|m| json!({
            "name": sym(&m.name, pos),
            "task": sym(&m.task, pos),
            "task_terms": syms(&m.terms, pos),
            "params": syms(&m.params, pos),
            "precondition": opt_formula(&m.pre, pos),
            "tn": tn(&m.tn, pos),
        })).collect::<Vec<_>>(),
        "actions": d.actions.iter().map(|a| {
            let mut m = named(&a.name, a.line, "parameters", &a.params, pos);
            m.insert("preconditions".into(), opt_formula(&a.pre, pos));
            m.insert("effects".into(), opt_formula(&a.eff, pos));
            Value::Object(m)
        }).collect::<Vec<_>>(),
        "functions": d.funcs.iter().map(|p| pred(p, pos)).collect::<Vec<_>>(),
    })
}

pub fn problem_value(p: &Problem, pos: bool) -> Value {
    json!({
        "requirements": reqs(&p.reqs),
        "init_tn": p.htn.as_ref().map(|(params, t)| json!({
            "parameters": params.as_ref().map(|x| syms(x, pos)),
            "tn": tn(t, pos),
        })),
        "init_state": p.init.iter().map(|x| pred(x, pos)).collect::<Vec<_>>(),
        "goal": opt_formula(&p.goal, pos),
        "objects": syms(&p.objects, pos),
    })
}

// removes the positions of an export (keeping whether there is an ordering block)
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut r = Map::new();
            for (k, x) in m {
                match k.as_str() {
                    "name_pos" | "type_pos" => {}
                    "ordering_pos" => {
                        r.insert(k.clone(), if x.is_null() { Value::Null } else { json!({}) });
                    }
                    _ => {
                        r.insert(k.clone(), strip(x));
                    }
                }
            }
            Value::Object(r)
        }
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        x => x.clone(),
    }
}

// the first difference between an expected and an actual export
pub fn diff(e: &Value, a: &Value, path: &str) -> Option<String> {
    match (e, a) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}.{}: missing", path, k)),
                    Some(w) => {
                        if let Some(d) = diff(v, w, &format!("{}.{}", path, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    return Some(format!("{}.{}: not expected", path, k));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y.iter()).enumerate() {
                if let Some(d) = diff(v, w, &format!("{}[{}]", path, i)) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                return Some(format!("{}: {} elements expected, {} found", path, x.len(), y.len()));
            }
            None
        }
        (Value::Number(x), Value::Number(y)) => {
            let (p, q) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            if x == y || (p - q).abs() <= 1e-12 * p.abs() {
                None
            } else {
                Some(format!("{}: expected {}, found {}", path, x, y))
            }
        }
        (x, y) => {
            if x == y {
                None
            } else {
                let cut = |v: &Value| {
                    let s = v.to_string();
                    s.chars().take(200).collect::<String>()
                };
                Some(format!("{}: expected {}, found {}", path, cut(x), cut(y)))
            }
        }
    }
}
