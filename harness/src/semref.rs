// Reference semantics: the set of flaws of a model (each with the data and lines an error about it
// must carry), the warnings, the nullable tasks and the recursion class.
use crate::ast::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Finding {
    pub kind: String,
    pub fields: Vec<String>,
    pub lines: Vec<u32>,
}

pub fn finding(kind: &str, fields: &[&str], lines: &[u32]) -> Finding {
    Finding {
        kind: kind.to_string(),
        fields: fields.iter().map(|x| x.to_string()).collect(),
        lines: lines.to_vec(),
    }
}

#[derive(Default, Clone, Debug)]
pub struct Flaws {
    pub all: BTreeSet<Finding>, // everything that may be reported
    pub must: bool,             // something has to be reported
    pub unspec: bool,           // the verdict is not specified
}

impl Flaws {
    fn add(&mut self, kind: &str, fields: &[&str], lines: &[u32]) {
        self.must = true;
        self.all.insert(finding(kind, fields, lines));
    }
    fn may(&mut self, kind: &str, fields: &[&str], lines: &[u32]) {
        self.all.insert(finding(kind, fields, lines));
    }
}

fn ty(t: Option<&str>) -> &str {
    t.unwrap_or("<none>")
}

// ---------------------------------------------------------------- types

pub struct Types<'a> {
    pub known: HashSet<&'a str>,
    up: HashMap<&'a str, Vec<&'a str>>,
    closure: std::cell::RefCell<HashMap<&'a str, HashSet<&'a str>>>,
}

impl<'a> Types<'a> {
    pub fn new(types: &'a [Sym]) -> Types<'a> {
        let mut known = HashSet::new();
        let mut up: HashMap<&str, Vec<&str>> = HashMap::new();
        for t in types {
            known.insert(t.name.as_str());
            if let Some((p, _)) = &t.ty {
                known.insert(p.as_str());
                up.entry(&t.name).or_default().push(p);
            }
        }
        Types { known, up, closure: Default::default() }
    }
    // all strict or non-strict supertypes (via at least zero steps)
    pub fn fits(&self, found: Option<&'a str>, expected: Option<&'a str>) -> bool {
        match (found, expected) {
            (None, None) => true,
            (Some(f), Some(e)) => {
                if f == e {
                    return true;
                }
                let mut c = self.closure.borrow_mut();
                c.entry(f)
                    .or_insert_with(|| {
                        let mut seen = HashSet::new();
                        let mut todo = vec![f];
                        while let Some(x) = todo.pop() {
                            for y in self.up.get(x).into_iter().flatten() {
                                if seen.insert(*y) {
                                    todo.push(*y);
                                }
                            }
                        }
                        seen
                    })
                    .contains(e)
            }
            _ => false,
        }
    }
    pub fn cyclic(&self) -> bool {
        let edges: Vec<(&str, &str)> =
            self.up.iter().flat_map(|(a, bs)| bs.iter().map(move |b| (*a, *b))).collect();
        cyclic(&edges)
    }
}

// Kahn's algorithm
pub fn cyclic(edges: &[(&str, &str)]) -> bool {
    let mut indeg: HashMap<&str, usize> = HashMap::new();
    let mut out: HashMap<&str, Vec<&str>> = HashMap::new();
    for (a, b) in edges {
        indeg.entry(a).or_insert(0);
        *indeg.entry(b).or_insert(0) += 1;
        out.entry(a).or_default().push(b);
    }
    let mut todo: Vec<&str> = indeg.iter().filter(|(_, d)| **d == 0).map(|(x, _)| *x).collect();
    let mut done = 0;
    while let Some(x) = todo.pop() {
        done += 1;
        for y in out.get(x).into_iter().flatten() {
            let d = indeg.get_mut(y).unwrap();
            *d -= 1;
            if *d == 0 {
                todo.push(y);
            }
        }
    }
    done < indeg.len()
}

// ---------------------------------------------------------------- flaws

type Decls<'a> = HashMap<&'a str, Vec<&'a [Sym]>>;

fn duplicates<'a>(kind: &str, it: impl Iterator<Item = (&'a str, u32)>, f: &mut Flaws) {
    let mut seen: HashMap<&str, (u32, usize)> = HashMap::new();
    for (name, line) in it {
        match seen.get_mut(name) {
            None => {
                seen.insert(name, (line, 1));
            }
            Some((first, n)) => {
                *n += 1;
                if *n == 2 {
                    f.add(kind, &[name], &[*first, line]);
                }
            }
        }
    }
}

fn types_known(types: &Types, syms: &[Sym], f: &mut Flaws) {
    for s in syms {
        if let Some((t, l)) = &s.ty {
            if !types.known.contains(t.as_str()) {
                f.add("UndefinedType", &[t], &[*l]);
            }
        }
    }
}

fn has_dups(s: &[Sym]) -> bool {
    let mut seen = HashSet::new();
    s.iter().any(|x| !seen.insert(&x.name))
}

// what a name in an argument position may refer to: the possible types
type Scope<'a> = HashMap<&'a str, Vec<Option<&'a str>>>;

fn scope_add<'a>(s: &mut Scope<'a>, syms: &'a [Sym]) {
    for x in syms {
        s.entry(&x.name).or_default().push(x.tyname());
    }
}

struct Ctx<'a> {
    types: &'a Types<'a>,
    preds: &'a Decls<'a>,
    callable: &'a Decls<'a>, // tasks and actions
    undefined: &'a str,      // kind of error for undefined arguments
    name_as_var: bool,       // type errors name the predicate or task (problems) or the argument (domains)
}

impl<'a> Ctx<'a> {
    fn args(
        &self,
        kind: &str,
        decls: Option<&Vec<&'a [Sym]>>,
        name: &str,
        line: u32,
        args: &'a [Sym],
        scopes: &[&Scope<'a>],
        check_args: bool,
        f: &mut Flaws,
    ) {
        let single = decls.map(|d| d.len() == 1).unwrap_or(false);
        for decl in decls.into_iter().flatten() {
            if decl.len() != args.len() {
                let k = format!("Inconsistent{}Arity", kind);
                let (e, g) = (decl.len().to_string(), args.len().to_string());
                if single {
                    f.add(&k, &[name, &e, &g], &[line]);
                } else {
                    f.may(&k, &[name, &e, &g], &[line]);
                }
            }
        }
        if !check_args {
            return;
        }
        for (i, a) in args.iter().enumerate() {
            match scopes.iter().find_map(|s| s.get(a.name.as_str())) {
                None => f.add(self.undefined, &[&a.name], &[a.line]),
                Some(found) => {
                    for decl in decls.into_iter().flatten() {
                        if i >= decl.len() {
                            continue;
                        }
                        for t in found {
                            let e = decl[i].tyname();
                            if !self.types.fits(*t, e) {
                                let k = format!("Inconsistent{}ArgType", kind);
                                let var = if self.name_as_var { name } else { &a.name };
                                let fields = [ty(e), ty(*t), var];
                                if single && found.len() == 1 && decl.len() == args.len() {
                                    f.add(&k, &fields, &[a.line]);
                                } else {
                                    f.may(&k, &fields, &[a.line]);
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn formula(&self, x: &'a F, scopes: &[&Scope<'a>], quantified: bool, f: &mut Flaws) {
        match x {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(p) => {
                let d = self.preds.get(p.name.as_str());
                if d.is_none() {
                    f.add("UndefinedPredicate", &[&p.name], &[p.line]);
                }
                self.args("Predicate", d, &p.name, p.line, &p.args, scopes, !quantified, f);
            }
            F::Not(y) => self.formula(y, scopes, quantified, f),
            F::And(ys) | F::Or(ys) | F::Xor(ys) => {
                for y in ys {
                    self.formula(y, scopes, quantified, f);
                }
            }
            F::ForAll(_, y) | F::Exists(_, y) => self.formula(y, scopes, true, f),
            F::Prob(ys) => {
                for (_, y) in ys {
                    self.formula(y, scopes, quantified, f);
                }
            }
        }
    }

    fn tn(&self, t: &'a Tn, scopes: &[&Scope<'a>], f: &mut Flaws) {
        for s in &t.subtasks {
            let d = self.callable.get(s.task.name.as_str());
            if d.is_none() {
                f.add("UndefinedSubtask", &[&s.task.name], &[s.task.line]);
            }
            self.args("Task", d, &s.task.name, s.task.line, &s.terms, scopes, true, f);
        }
        if let Ords::Partial(o) = &t.ords {
            let edges: Vec<(&str, &str)> = o.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            if cyclic(&edges) {
                f.add("CyclicOrdering", &[], &[t.ordering.unwrap_or(0)]);
            }
        }
    }
}

fn decls_of<'a>(it: impl Iterator<Item = (&'a str, &'a [Sym])>) -> Decls<'a> {
    let mut d: Decls = HashMap::new();
    for (n, p) in it {
        d.entry(n).or_default().push(p);
    }
    d
}

pub fn domain_flaws(d: &Domain) -> Flaws {
    let mut f = Flaws::default();
    let mut seen = HashSet::new();
    for r in &d.reqs {
        if !seen.insert(r) {
            f.add("DuplicateRequirement", &[REQS[*r].0], &[]);
        }
    }
    let types = Types::new(&d.types);
    if types.cyclic() {
        f.add("CyclicType", &[], &[]);
    }
    duplicates("DuplicatePredicate", d.preds.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
    duplicates("DuplicateCompoundTask", d.tasks.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
    duplicates("DuplicateObject", d.consts.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
    duplicates("DuplicateAction", d.actions.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
    duplicates("DuplicateMethod", d.methods.iter().map(|p| (p.name.name.as_str(), p.name.line)), &mut f);
    for p in &d.preds {
        types_known(&types, &p.args, &mut f);
        f.unspec |= has_dups(&p.args);
    }
    for t in &d.tasks {
        types_known(&types, &t.params, &mut f);
        f.unspec |= has_dups(&t.params);
    }
    types_known(&types, &d.consts, &mut f);
    // functions are not used anywhere; a flawed declaration of one is not specified
    let mut ff = Flaws::default();
    duplicates("f", d.funcs.iter().map(|p| (p.name.as_str(), p.line)), &mut ff);
    for p in &d.funcs {
        types_known(&types, &p.args, &mut ff);
        f.unspec |= has_dups(&p.args);
    }
    f.unspec |= ff.must;

    let preds = decls_of(d.preds.iter().map(|p| (p.name.as_str(), p.args.as_slice())));
    let tasks = decls_of(d.tasks.iter().map(|p| (p.name.as_str(), p.params.as_slice())));
    let actions = decls_of(d.actions.iter().map(|p| (p.name.as_str(), p.params.as_slice())));
    let mut callable = tasks.clone();
    for (n, x) in &actions {
        if callable.contains_key(n) {
            f.unspec = true;
        }
        callable.entry(n).or_default().extend(x);
    }
    let mut consts: Scope = HashMap::new();
    scope_add(&mut consts, &d.consts);
    let c = Ctx { types: &types, preds: &preds, callable: &callable, undefined: "UndefinedParameter", name_as_var: false };
    // `x` may be the constant x or the parameter ?x: what it is then is not specified
    let shadows = |ps: &[Sym], uses: &[&Sym], f: &mut Flaws| {
        f.unspec |= uses.iter().any(|u| !u.var && consts.contains_key(u.name.as_str()) && ps.iter().any(|p| p.name == u.name));
    };
    for a in &d.actions {
        duplicates("DuplicateParameter", a.params.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
        types_known(&types, &a.params, &mut f);
        let mut uses = vec![];
        a.pre.iter().chain(a.eff.iter()).for_each(|x| terms_of(x, &mut uses));
        shadows(&a.params, &uses, &mut f);
        let mut params: Scope = HashMap::new();
        scope_add(&mut params, &a.params);
        for x in a.pre.iter().chain(a.eff.iter()) {
            quantified(x, &types, &mut f);
            c.formula(x, &[&params, &consts], false, &mut f);
        }
    }
    for m in &d.methods {
        duplicates("DuplicateParameter", m.params.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
        types_known(&types, &m.params, &mut f);
        let mut uses: Vec<&Sym> = m.terms.iter().chain(m.tn.subtasks.iter().flat_map(|s| s.terms.iter())).collect();
        m.pre.iter().for_each(|x| terms_of(x, &mut uses));
        shadows(&m.params, &uses, &mut f);
        let mut params: Scope = HashMap::new();
        scope_add(&mut params, &m.params);
        let scopes = [&params, &consts];
        for x in &m.pre {
            quantified(x, &types, &mut f);
            c.formula(x, &scopes, false, &mut f);
        }
        let t = tasks.get(m.task.name.as_str());
        if t.is_none() {
            f.add("UndefinedTask", &[&m.task.name], &[m.task.line]);
        }
        c.args("Task", t, &m.task.name, m.task.line, &m.terms, &scopes, true, &mut f);
        c.tn(&m.tn, &scopes, &mut f);
        loose(&m.tn, &mut f);
    }
    f
}

fn terms_of<'a>(x: &'a F, out: &mut Vec<&'a Sym>) {
    match x {
        F::Empty | F::Eq(_, _) => {}
        F::Atom(p) => out.extend(&p.args),
        F::Not(y) | F::ForAll(_, y) | F::Exists(_, y) => terms_of(y, out),
        F::And(ys) | F::Or(ys) | F::Xor(ys) => ys.iter().for_each(|y| terms_of(y, out)),
        F::Prob(ys) => ys.iter().for_each(|(_, y)| terms_of(y, out)),
    }
}

// ids and constraints are not checked by the analyser: whether a loose one is reported is not specified
fn loose(t: &Tn, f: &mut Flaws) {
    let ids: Vec<&str> = t.subtasks.iter().filter_map(|s| s.id.as_ref().map(|x| x.name.as_str())).collect();
    let set: HashSet<&str> = ids.iter().cloned().collect();
    if set.len() != ids.len() {
        f.unspec = true;
    }
    if let Ords::Partial(o) = &t.ords {
        if o.iter().any(|(a, b)| !set.contains(a.as_str()) || !set.contains(b.as_str())) {
            f.unspec = true;
        }
    }
}

// types of quantified variables are not checked: an undeclared one is not specified
fn quantified(x: &F, types: &Types, f: &mut Flaws) {
    match x {
        F::Not(y) => quantified(y, types, f),
        F::And(ys) | F::Or(ys) | F::Xor(ys) => ys.iter().for_each(|y| quantified(y, types, f)),
        F::Prob(ys) => ys.iter().for_each(|(_, y)| quantified(y, types, f)),
        F::ForAll(v, y) | F::Exists(v, y) => {
            f.unspec |= v.iter().any(|s| s.tyname().map(|t| !types.known.contains(t)).unwrap_or(false));
            f.unspec |= has_dups(v);
            quantified(y, types, f)
        }
        _ => {}
    }
}

pub fn problem_flaws(d: &Domain, p: &Problem) -> Flaws {
    let mut f = Flaws::default();
    let types = Types::new(&d.types);
    let preds = decls_of(d.preds.iter().map(|p| (p.name.as_str(), p.args.as_slice())));
    let callable = decls_of(
        d.tasks
            .iter()
            .map(|p| (p.name.as_str(), p.params.as_slice()))
            .chain(d.actions.iter().map(|p| (p.name.as_str(), p.params.as_slice()))),
    );
    types_known(&types, &p.objects, &mut f);
    duplicates("DuplicateObject", p.objects.iter().map(|p| (p.name.as_str(), p.line)), &mut f);
    let mut seen = HashSet::new();
    f.unspec |= p.reqs.iter().any(|r| !seen.insert(r));
    let mut consts: Scope = HashMap::new();
    scope_add(&mut consts, &d.consts);
    let mut objects: Scope = HashMap::new();
    scope_add(&mut objects, &p.objects);
    f.unspec |= objects.keys().any(|k| consts.contains_key(k));
    let c = Ctx { types: &types, preds: &preds, callable: &callable, undefined: "UndefinedObject", name_as_var: true };
    for fact in &p.init {
        let decl = preds.get(fact.name.as_str());
        if decl.is_none() {
            f.add("UndefinedPredicate", &[&fact.name], &[fact.line]);
        }
        // arguments of facts with an undeclared predicate are not looked at before the predicate
        c.args("Predicate", decl, &fact.name, fact.line, &fact.args, &[&objects, &consts], true, &mut f);
    }
    if let Some((params, t)) = &p.htn {
        let params: &[Sym] = params.as_deref().unwrap_or(&[]);
        types_known(&types, params, &mut f);
        f.unspec |= has_dups(params);
        // as in actions and methods: `x` may be the object x or the parameter ?x
        f.unspec |= t.subtasks.iter().flat_map(|s| s.terms.iter()).any(|u| {
            let other = objects.contains_key(u.name.as_str()) || consts.contains_key(u.name.as_str());
            !u.var && other && params.iter().any(|x| x.name == u.name)
        });
        let mut ps: Scope = HashMap::new();
        scope_add(&mut ps, params);
        c.tn(t, &[&ps, &objects, &consts], &mut f);
        loose(t, &mut f);
    }
    if let Some(g) = &p.goal {
        quantified(g, &types, &mut f);
        c.formula(g, &[&objects, &consts], false, &mut f);
    }
    f
}

// ---------------------------------------------------------------- decomposition

pub struct Net {
    pub subtasks: Vec<usize>,
    // for each subtask, which others precede it
    pub before: Vec<HashSet<usize>>,
}

pub struct Tdg {
    pub tasks: Vec<String>, // compound ones first
    pub n_compound: usize,
    pub methods: Vec<(String, usize, Net)>,
    pub by_task: Vec<Vec<usize>>,
    pub class_unspec: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub from: usize,
    pub method: usize,
    pub to: usize,
    pub prefix_free: bool,
    pub rest_nullable: bool,
    pub rest_empty: bool,
}

impl Tdg {
    // None if a task or subtask is not declared, or the declarations are ambiguous
    pub fn new(d: &Domain) -> Option<Tdg> {
        let mut ix: HashMap<&str, usize> = HashMap::new();
        let mut tasks = vec![];
        for n in d.tasks.iter().map(|t| &t.name) {
            if ix.insert(n, tasks.len()).is_some() {
                return None;
            }
            tasks.push(n.clone());
        }
        let n_compound = d.tasks.len();
        for n in d.actions.iter().map(|a| &a.name) {
            match ix.get(n.as_str()) {
                Some(i) if *i < n_compound => return None,
                Some(_) => continue,
                None => {}
            }
            ix.insert(n, tasks.len());
            tasks.push(n.clone());
        }
        let mut by_task = vec![vec![]; n_compound];
        let mut methods = vec![];
        let mut class_unspec = false;
        for m in &d.methods {
            let t = *ix.get(m.task.name.as_str())?;
            if t >= n_compound {
                return None;
            }
            let mut subtasks = vec![];
            for s in &m.tn.subtasks {
                subtasks.push(*ix.get(s.task.name.as_str())?);
            }
            let n = subtasks.len();
            let before = match &m.tn.ords {
                Ords::Total => (0..n).map(|i| (0..i).collect()).collect(),
                Ords::Partial(o) => {
                    let mut id: HashMap<&str, usize> = HashMap::new();
                    for (i, s) in m.tn.subtasks.iter().enumerate() {
                        if let Some(x) = &s.id {
                            if id.insert(&x.name, i).is_some() {
                                class_unspec = true;
                            }
                        }
                    }
                    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
                    for (a, b) in o {
                        match (id.get(a.as_str()), id.get(b.as_str())) {
                            (Some(a), Some(b)) => preds[*b].push(*a),
                            _ => class_unspec = true,
                        }
                    }
                    let edges: Vec<(&str, &str)> = o.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                    if cyclic(&edges) {
                        class_unspec = true;
                    }
                    (0..n)
                        .map(|i| {
                            let mut seen = HashSet::new();
                            let mut todo = vec![i];
                            while let Some(x) = todo.pop() {
                                for y in &preds[x] {
                                    if seen.insert(*y) {
                                        todo.push(*y);
                                    }
                                }
                            }
                            seen
                        })
                        .collect()
                }
            };
            by_task[t].push(methods.len());
            methods.push((m.name.name.clone(), t, Net { subtasks, before }));
        }
        Some(Tdg { tasks, n_compound, methods, by_task, class_unspec })
    }

    pub fn nullables(&self) -> Vec<bool> {
        // worklist over counters
        let mut null = vec![false; self.tasks.len()];
        let mut missing: Vec<usize> = self.methods.iter().map(|m| m.2.subtasks.len()).collect();
        let mut uses: Vec<Vec<usize>> = vec![vec![]; self.tasks.len()];
        for (i, m) in self.methods.iter().enumerate() {
            for s in &m.2.subtasks {
                uses[*s].push(i);
            }
        }
        let mut todo = vec![];
        for i in 0..self.methods.len() {
            if missing[i] == 0 {
                todo.push(self.methods[i].1);
            }
        }
        while let Some(t) = todo.pop() {
            if null[t] {
                continue;
            }
            null[t] = true;
            for m in &uses[t] {
                missing[*m] -= 1;
                if missing[*m] == 0 {
                    todo.push(self.methods[*m].1);
                }
            }
        }
        null
    }

    // compound tasks from which an action is reachable
    pub fn reaches_action(&self) -> Vec<bool> {
        let mut r: Vec<bool> = (0..self.tasks.len()).map(|i| i >= self.n_compound).collect();
        loop {
            let mut changed = false;
            for (_, t, net) in &self.methods {
                if !r[*t] && net.subtasks.iter().any(|s| r[*s]) {
                    r[*t] = true;
                    changed = true;
                }
            }
            if !changed {
                return r;
            }
        }
    }

    pub fn steps(&self) -> Vec<Step> {
        let null = self.nullables();
        let mut out = vec![];
        for (mi, (_, t, net)) in self.methods.iter().enumerate() {
            let total_null = net.subtasks.iter().filter(|s| !null[**s]).count();
            for (i, s) in net.subtasks.iter().enumerate() {
                let b = &net.before[i];
                let bad_before = b.iter().filter(|x| !null[net.subtasks[**x]]).count();
                let bad_rest = total_null - bad_before - if null[*s] { 0 } else { 1 };
                out.push(Step {
                    from: *t,
                    method: mi,
                    to: *s,
                    prefix_free: bad_before == 0,
                    rest_nullable: bad_rest == 0,
                    rest_empty: b.len() + 1 == net.subtasks.len(),
                });
            }
        }
        out
    }

    // is there a cycle of the given steps containing one that satisfies the condition?
    fn has_cycle(&self, steps: &[Step], cond: impl Fn(&Step) -> bool) -> bool {
        // strongly connected components (iterative Kosaraju)
        let n = self.tasks.len();
        let mut out = vec![vec![]; n];
        let mut inn = vec![vec![]; n];
        for s in steps {
            out[s.from].push(s.to);
            inn[s.to].push(s.from);
        }
        let mut seen = vec![false; n];
        let mut order = vec![];
        for i in 0..n {
            if seen[i] {
                continue;
            }
            seen[i] = true;
            let mut stack = vec![(i, 0)];
            while let Some((x, k)) = stack.pop() {
                if k < out[x].len() {
                    stack.push((x, k + 1));
                    let y = out[x][k];
                    if !seen[y] {
                        seen[y] = true;
                        stack.push((y, 0));
                    }
                } else {
                    order.push(x);
                }
            }
        }
        let mut comp = vec![usize::MAX; n];
        for x in order.into_iter().rev() {
            if comp[x] != usize::MAX {
                continue;
            }
            comp[x] = x;
            let mut todo = vec![x];
            while let Some(y) = todo.pop() {
                for z in &inn[y] {
                    if comp[*z] == usize::MAX {
                        comp[*z] = x;
                        todo.push(*z);
                    }
                }
            }
        }
        steps.iter().any(|s| comp[s.from] == comp[s.to] && cond(s))
    }

    pub fn class(&self) -> &'static str {
        let steps = self.steps();
        let free: Vec<Step> = steps.iter().filter(|s| s.prefix_free).cloned().collect();
        let gs: Vec<Step> = free.iter().filter(|s| s.rest_nullable).cloned().collect();
        let em: Vec<Step> = free.iter().filter(|s| s.rest_empty).cloned().collect();
        if self.has_cycle(&gs, |s| !s.rest_empty) {
            GROW_SHRINK
        } else if self.has_cycle(&em, |_| true) {
            EMPTY
        } else if self.has_cycle(&free, |_| true) {
            GROWING
        } else if self.has_cycle(&steps, |_| true) {
            RECURSIVE
        } else {
            NON_RECURSIVE
        }
    }

    // does the cycle (task, method, task, ..., task) exist, and belong to the class?
    pub fn check_witness(&self, class: &str, cycle: &[String]) -> Result<(), String> {
        if cycle.len() < 3 || cycle.len() % 2 == 0 {
            return Err(format!("not a cycle: {:?}", cycle));
        }
        if cycle[0] != cycle[cycle.len() - 1] {
            return Err("the cycle does not end where it starts".to_string());
        }
        let tix: HashMap<&str, usize> = self.tasks.iter().enumerate().map(|(i, t)| (t.as_str(), i)).collect();
        // methods are given by name, and several can have the same
        let mut by: HashMap<(usize, &str, usize), Vec<Step>> = HashMap::new();
        for s in self.steps() {
            let m = &self.methods[s.method];
            by.entry((m.1, m.0.as_str(), s.to)).or_default().push(s);
        }
        let mut grows = false;
        let mut i = 0;
        while i + 2 < cycle.len() {
            let (t, m, u) = (&cycle[i], &cycle[i + 1], &cycle[i + 2]);
            let ti = *tix.get(t.as_str()).ok_or(format!("no task {}", t))?;
            let ui = *tix.get(u.as_str()).ok_or(format!("no task {}", u))?;
            let steps = by.get(&(ti, m.as_str(), ui)).ok_or(format!("no method {} decomposes {} with a subtask {}", m, t, u))?;
            let fit: Vec<&Step> = steps
                .iter()
                .filter(|s| match class {
                    GROW_SHRINK => s.prefix_free && s.rest_nullable,
                    EMPTY => s.prefix_free && s.rest_empty,
                    GROWING => s.prefix_free,
                    _ => true,
                })
                .collect();
            if fit.is_empty() {
                return Err(format!("the step [{}]-({})->[{}] does not belong to the class {}", t, m, u, class));
            }
            grows |= fit.iter().any(|s| !s.rest_empty);
            i += 2;
        }
        if class == GROW_SHRINK && !grows {
            return Err("no step of the grow-and-shrink cycle grows".to_string());
        }
        Ok(())
    }
}

pub const NON_RECURSIVE: &str = "Non-recursive";
pub const RECURSIVE: &str = "Recursive";
pub const EMPTY: &str = "Empty recursion";
pub const GROWING: &str = "Growing empty prefix recursion";
pub const GROW_SHRINK: &str = "Grow and shrink recursion";

// (name, line) of the tasks to be warned about
pub fn warnings(d: &Domain, t: &Tdg) -> BTreeSet<(String, u32)> {
    let null = t.nullables();
    let reach = t.reaches_action();
    d.tasks
        .iter()
        .enumerate()
        .filter(|(i, _)| !null[*i] && !reach[*i])
        .map(|(_, x)| (x.name.clone(), x.line))
        .collect()
}

// the errors metadata extraction may report
pub fn metadata_flaws(d: &Domain) -> Flaws {
    let mut f = Flaws::default();
    let tasks: HashSet<&str> = d.tasks.iter().map(|x| x.name.as_str()).collect();
    let actions: HashSet<&str> = d.actions.iter().map(|x| x.name.as_str()).collect();
    for m in &d.methods {
        if !tasks.contains(m.task.name.as_str()) {
            f.add("UndefinedTask", &[&m.task.name], &[m.task.line]);
        }
        for s in &m.tn.subtasks {
            if !tasks.contains(s.task.name.as_str()) && !actions.contains(s.task.name.as_str()) {
                f.add("UndefinedSubtask", &[&s.task.name], &[s.task.line]);
            }
        }
    }
    f
}
