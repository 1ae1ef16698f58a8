// Generators of models.
use crate::ast::*;
use crate::rng::Rng;
use std::collections::HashSet;

// ---------------------------------------------------------------- names

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NameStyle {
    Plain,
    Prefix,
    Case,
    Keyword,
    Long,
    Mixed,
}

pub const STYLES: [NameStyle; 6] =
    [NameStyle::Plain, NameStyle::Prefix, NameStyle::Case, NameStyle::Keyword, NameStyle::Long, NameStyle::Mixed];

const KEYWORDISH: [&str; 40] = [
    "types", "action", "domains", "definer", "problem1", "and-then", "not_", "or2", "forall-x", "task", "method",
    "htn", "goal", "init", "object", "objects", "number", "parameters", "precondition", "effect", "typing",
    "strips", "subtasks", "ordered-subtasks", "ordering", "constraints", "predicates", "functions", "constants",
    "requirements", "AND", "Define", "Domain", "existsx", "implyz", "one-of", "probabilistic2", "tasks", "order", "either",
];

const WORDS: [&str; 12] =
    ["loc", "truck", "at", "move", "pack", "drop", "go", "road", "fuel", "main", "achieve", "noop"];

pub fn reserved(s: &str) -> bool {
    crate::refp::OPS.contains(&s) || matches!(s, "define" | "domain" | "problem" | "when")
}

pub fn name(r: &mut Rng, style: NameStyle, kind: &str, n: usize) -> String {
    let style = if style == NameStyle::Mixed { STYLES[r.below(5)] } else { style };
    match style {
        NameStyle::Plain => {
            if r.chance(1, 2) {
                format!("{}{}", kind, n)
            } else {
                format!("{}-{}_{}", r.pick(&WORDS), kind, n)
            }
        }
        // the same few parts, so that some names can be joined to the same text in several ways
        NameStyle::Prefix if r.chance(1, 2) => {
            let sep = *r.pick(&["-", "-", "-", "_", "--"]);
            let parts: Vec<&str> = (0..*r.pick(&[1, 1, 2, 2, 2, 3])).map(|_| *r.pick(&["a", "b", "c"])).collect();
            parts.join(sep)
        }
        NameStyle::Prefix => {
            let mut s = String::from(*r.pick(&["a", "b", "_", "a"]));
            for _ in 0..r.below(6) {
                s.push_str(*r.pick(&["a", "b", "-", "_", "1", "a"]));
            }
            s
        }
        NameStyle::Case => {
            let w = r.pick(&WORDS);
            w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
        }
        NameStyle::Keyword => {
            let w = *r.pick(&KEYWORDISH);
            if r.chance(1, 3) {
                format!("{}{}", w, r.pick(&["-", "_", "s", "1", "-x"]))
            } else {
                w.to_string()
            }
        }
        _ => {
            let n = if r.chance(1, 20) { r.range(256, 5000) } else { r.range(20, 80) };
            let mut s: String = (0..n).map(|i| (b'a' + ((i * 7) % 26) as u8) as char).collect();
            s.push_str(&format!("-{}", r.below(1000)));
            s
        }
    }
}

pub fn fresh(r: &mut Rng, style: NameStyle, kind: &str, used: &mut HashSet<String>) -> String {
    let mut n = used.len();
    for tries in 0.. {
        let s = name(r, if tries > 12 { NameStyle::Plain } else { style }, kind, n);
        n += 1;
        if !reserved(&s) && used.insert(s.clone()) {
            return s;
        }
    }
    unreachable!()
}

// ---------------------------------------------------------------- consistent models

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Typing {
    Typed,
    Untyped,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub style: NameStyle,
    pub typing: Typing,
    pub n: usize,         // number of entities of each kind (at most)
    pub arity: usize,     // number of parameters (at most)
    pub depth: usize,     // depth of formulas
    pub net: usize,       // number of subtasks (at most)
    pub chain: bool,      // the types form a chain
}

pub fn any_opts(r: &mut Rng) -> Opts {
    let mut o = Opts {
        style: STYLES[r.below(6)],
        typing: *r.pick(&[Typing::Typed, Typing::Typed, Typing::Typed, Typing::Mixed, Typing::Untyped]),
        n: r.range(1, 6),
        arity: r.range(0, 4),
        depth: r.range(1, 4),
        net: r.range(0, 5),
        chain: r.chance(1, 6),
    };
    match r.below(60) {
        0 => o.n = r.range(10, 40),
        1 => o.arity = r.range(20, 420),
        2 => o.net = r.range(20, 420),
        3 => o.depth = r.range(10, 100),
        _ => {}
    }
    o
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    types: Vec<String>,
    subs: Vec<Vec<usize>>, // subtypes of each type, including itself
    pub d: Domain,
    consts: Vec<Sym>,
    term_names: HashSet<String>, // constants (and objects)
    pub objects: bool, // missing terms become objects instead of parameters
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> Gen<'r> {
        Gen {
            r,
            o,
            types: vec![],
            subs: vec![],
            d: Domain::default(),
            consts: vec![],
            term_names: HashSet::new(),
            objects: false,
        }
    }

    fn fresh(&mut self, kind: &str, used: &mut HashSet<String>) -> String {
        fresh(self.r, self.o.style, kind, used)
    }

    fn ty(&self, t: Option<usize>) -> Option<&str> {
        t.map(|i| self.types[i].as_str())
    }

    fn any_type(&mut self) -> Option<usize> {
        if self.types.is_empty() || (self.o.typing == Typing::Mixed && self.r.chance(1, 4)) {
            None
        } else {
            Some(self.r.below(self.types.len()))
        }
    }

    fn below_type(&mut self, t: Option<usize>) -> Option<usize> {
        t.map(|t| {
            let s = &self.subs[t];
            s[self.r.below(s.len())]
        })
    }

    fn fits(&self, s: &Sym, t: Option<usize>) -> bool {
        match (s.tyname(), t) {
            (None, None) => true,
            (Some(x), Some(t)) => self.subs[t].iter().any(|i| self.types[*i] == x),
            _ => false,
        }
    }

    fn type_ix(&self, s: &Sym) -> Option<usize> {
        s.tyname().map(|x| self.types.iter().position(|t| t == x).unwrap())
    }

    // untyped symbols can only be written at the end
    fn writable(mut v: Vec<Sym>) -> Vec<Sym> {
        v.sort_by_key(|s| s.ty.is_none());
        v
    }

    fn make_types(&mut self) {
        if self.o.typing == Typing::Untyped {
            return;
        }
        let n = if self.o.chain { self.r.range(2, 3 * self.o.n + 2) } else { self.r.range(1, self.o.n + 2) };
        let mut used = HashSet::new();
        if self.r.chance(1, 4) {
            used.insert("object".to_string());
            self.types.push("object".to_string());
        }
        while self.types.len() < n {
            let t = self.fresh("t", &mut used);
            self.types.push(t);
        }
        let n = self.types.len();
        let mut up: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 1..n {
            let k = if self.o.chain { 1 } else { *self.r.pick(&[0, 1, 1, 1, 2]) };
            for _ in 0..k {
                let p = if self.o.chain { i - 1 } else { self.r.below(i) };
                if !up[i].contains(&p) {
                    up[i].push(p);
                }
            }
        }
        let mut decl = vec![];
        let has_child: HashSet<usize> = up.iter().flatten().cloned().collect();
        for i in 0..n {
            if up[i].is_empty() && (!has_child.contains(&i) || self.r.chance(1, 2)) {
                decl.push(Sym::plain(&self.types[i]));
            }
            for p in up[i].clone() {
                decl.push(Sym::plain(&self.types[i]).typed(Some(&self.types[p])));
                if self.r.chance(1, 20) {
                    decl.push(Sym::plain(&self.types[i]).typed(Some(&self.types[p])));
                }
            }
        }
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut decl);
        }
        self.d.types = decl;
        // reflexive transitive subtypes
        self.subs = (0..n).map(|i| vec![i]).collect();
        for i in 0..n {
            // all ancestors of i
            let mut seen = HashSet::new();
            let mut todo = vec![i];
            while let Some(x) = todo.pop() {
                for p in &up[x] {
                    if seen.insert(*p) {
                        todo.push(*p);
                    }
                }
            }
            for p in seen {
                self.subs[p].push(i);
            }
        }
        self.subs.iter_mut().for_each(|s| s.sort());
    }

    fn params(&mut self, n: usize) -> Vec<Sym> {
        let mut used = self.term_names.clone();
        let v = (0..n)
            .map(|_| {
                let t = self.any_type();
                let nm = self.fresh("x", &mut used);
                Sym::var(&nm).typed(self.ty(t))
            })
            .collect();
        Self::writable(v)
    }

    fn count(&mut self) -> usize {
        self.r.skewed(self.o.n)
    }

    // a term of the given type: one in scope, a constant, or a new one
    fn need(&mut self, scope: &mut Vec<Sym>, t: Option<usize>) -> Sym {
        let mut cands: Vec<Sym> = vec![];
        if self.r.chance(3, 4) {
            cands.extend(scope.iter().filter(|s| self.fits(s, t)).cloned());
            if cands.is_empty() || self.r.chance(1, 3) {
                cands.extend(self.consts.iter().filter(|s| self.fits(s, t)).cloned());
            }
        }
        if !cands.is_empty() {
            let mut s = self.r.pick(&cands).clone();
            s.ty = None;
            return s;
        }
        let sub = self.below_type(t);
        let mut used = self.term_names.clone();
        used.extend(scope.iter().map(|s| s.name.clone()));
        let nm = self.fresh(if self.objects { "o" } else { "x" }, &mut used);
        let s = if self.objects { Sym::plain(&nm) } else { Sym::var(&nm) };
        let tyn = self.ty(sub).map(|x| x.to_string());
        scope.push(s.clone().typed(tyn.as_deref()));
        s
    }

    fn atom(&mut self, scope: &mut Vec<Sym>, extra: &[Sym]) -> Option<F> {
        if self.d.preds.is_empty() {
            return None;
        }
        let p = self.r.pick(&self.d.preds).clone();
        let mut args = vec![];
        for a in &p.args {
            let t = self.type_ix(a);
            if !extra.is_empty() && self.r.chance(1, 2) {
                let ok: Vec<&Sym> = extra.iter().filter(|s| self.fits(s, t)).collect();
                if !ok.is_empty() {
                    let mut s = (*self.r.pick(&ok)).clone();
                    s.ty = None;
                    args.push(s);
                    continue;
                }
            }
            args.push(self.need(scope, t));
        }
        Some(F::Atom(Pred { name: p.name.clone(), line: 0, args }))
    }

    pub fn formula(&mut self, scope: &mut Vec<Sym>, depth: usize, extra: &[Sym], prob: bool) -> F {
        let n = if depth == 0 { 4 } else { 14 };
        match self.r.below(n) {
            0 | 1 | 2 => self.atom(scope, extra).unwrap_or(F::Empty),
            3 => {
                if self.r.chance(1, 3) {
                    F::Empty
                } else {
                    match self.atom(scope, extra) {
                        Some(a) => F::Not(Box::new(a)),
                        None => F::And(vec![]),
                    }
                }
            }
            4 => F::Not(Box::new(self.formula(scope, depth - 1, extra, prob))),
            5 | 6 | 7 | 8 | 9 => {
                let k = self.r.range(0, 4);
                let xs = (0..k).map(|_| self.formula(scope, depth - 1, extra, prob)).collect();
                match self.r.below(5) {
                    0 => F::Or(xs),
                    1 => F::Xor(xs),
                    _ => F::And(xs),
                }
            }
            10 | 11 => {
                let n = self.r.below(3);
                let mut used = self.term_names.clone();
                used.extend(scope.iter().map(|s| s.name.clone()));
                used.extend(extra.iter().map(|s| s.name.clone()));
                let mut vars = vec![];
                for _ in 0..n {
                    let t = self.any_type();
                    let nm = self.fresh("q", &mut used);
                    vars.push(Sym::var(&nm).typed(self.ty(t)));
                }
                let vars = Self::writable(vars);
                let mut ex = extra.to_vec();
                ex.extend(vars.iter().cloned());
                let f = Box::new(self.formula(scope, depth - 1, &ex, prob));
                if self.r.chance(1, 2) {
                    F::ForAll(vars, f)
                } else {
                    F::Exists(vars, f)
                }
            }
            12 => {
                let t = self.any_type();
                let a = self.need(scope, t);
                let b = self.need(scope, t);
                F::Eq((a.name, a.var), (b.name, b.var))
            }
            _ => {
                if !prob {
                    return self.atom(scope, extra).unwrap_or(F::Empty);
                }
                let k = self.r.range(0, 3);
                let mut bs = vec![];
                for _ in 0..k {
                    let w = match self.r.below(5) {
                        0 => Num::Int(if self.r.chance(1, 4) { self.r.u64() as i64 & i64::MAX } else { self.r.below(100) as i64 }),
                        1 => Num::Real(0.001 + 0.99 * (self.r.u64() >> 11) as f64 / (1u64 << 53) as f64),
                        _ => Num::Real(self.r.range(1, 999) as f64 / 1000.0),
                    };
                    let mut f = self.formula(scope, depth - 1, extra, prob);
                    if f == F::Empty {
                        f = F::And(vec![]);
                    }
                    bs.push((w, f));
                }
                F::Prob(bs)
            }
        }
    }

    fn opt_formula(&mut self, scope: &mut Vec<Sym>, prob: bool) -> Option<F> {
        if self.r.chance(1, 4) {
            return None;
        }
        let d = self.o.depth;
        if d > 8 {
            // a deep one: a spine of connectives
            let mut f = self.formula(scope, 2, &[], prob);
            for _ in 0..d {
                f = match self.r.below(4) {
                    0 => F::Not(Box::new(f)),
                    1 => F::Or(vec![f]),
                    2 => F::Xor(vec![F::Empty, f]),
                    _ => F::And(vec![f]),
                };
            }
            return Some(f);
        }
        Some(self.formula(scope, d, &[], prob))
    }

    fn tn(&mut self, scope: &mut Vec<Sym>) -> Tn {
        let mut t = Tn::empty();
        let callables: Vec<(String, Vec<Sym>)> = self
            .d
            .tasks
            .iter()
            .map(|t| (t.name.clone(), t.params.clone()))
            .chain(self.d.actions.iter().map(|a| (a.name.clone(), a.params.clone())))
            .collect();
        let n = if callables.is_empty() { 0 } else { self.r.below(self.o.net + 1) };
        let ids = *self.r.pick(&[0, 1, 1, 2]); // none, all, some
        let mut used = HashSet::new();
        for _ in 0..n {
            let (name, params) = self.r.pick(&callables).clone();
            let mut terms = vec![];
            for p in &params {
                let ty = self.type_ix(p);
                terms.push(self.need(scope, ty));
            }
            let id = if ids == 1 || (ids == 2 && self.r.chance(1, 2)) {
                Some(Sym::plain(&self.fresh("id", &mut used)))
            } else {
                None
            };
            t.subtasks.push(Sub { id, task: Sym::plain(&name), terms });
        }
        if self.r.chance(2, 5) {
            t.ords = Ords::Total;
        } else {
            let mut idl: Vec<String> = t.subtasks.iter().filter_map(|s| s.id.as_ref().map(|x| x.name.clone())).collect();
            self.r.shuffle(&mut idl);
            let mut o = vec![];
            if idl.len() >= 2 {
                for _ in 0..self.r.below(2 * idl.len()) {
                    let a = self.r.below(idl.len() - 1);
                    let b = self.r.range(a + 1, idl.len() - 1);
                    o.push((idl[a].clone(), idl[b].clone()));
                }
            }
            if !o.is_empty() || self.r.chance(1, 4) {
                t.ordering = Some(0);
            }
            t.ords = Ords::Partial(o);
        }
        if self.r.chance(1, 3) {
            let mut cs = vec![];
            if !scope.is_empty() {
                for _ in 0..if self.r.chance(1, 150) { self.r.range(20, 300) } else { self.r.below(4) } {
                    let a = self.r.pick(scope).clone();
                    let b = self.r.pick(scope).clone();
                    let (a, b) = ((a.name, a.var), (b.name, b.var));
                    cs.push(if self.r.chance(1, 3) { Con::Eq(a, b) } else { Con::Ne(a, b) });
                }
            }
            t.cons = Some(cs);
        }
        t
    }

    fn reqs(&mut self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..REQS.len()).collect();
        self.r.shuffle(&mut v);
        let n = self.r.below(REQS.len() + 1);
        v.truncate(n);
        v
    }

    pub fn make_domain(&mut self) {
        self.d.name = name(self.r, self.o.style, "d", 0);
        while reserved(&self.d.name) {
            self.d.name.push('x');
        }
        self.d.reqs = self.reqs();
        self.make_types();
        let mut used = HashSet::new();
        for _ in 0..self.count() {
            let t = self.any_type();
            let nm = self.fresh("c", &mut used);
            self.consts.push(Sym::plain(&nm).typed(self.ty(t)));
        }
        self.term_names = used;
        self.d.consts = self.consts.clone();
        let mut used = HashSet::new();
        for _ in 0..self.r.range(0, self.o.n) {
            let nm = self.fresh("p", &mut used);
            let n = self.r.skewed(self.o.arity);
            let args = self.params(n);
            self.d.preds.push(Pred { name: nm, line: 0, args });
        }
        let mut used = HashSet::new();
        if self.r.chance(1, 4) {
            for _ in 0..self.count() {
                let nm = self.fresh("f", &mut used);
                let n = self.r.skewed(self.o.arity);
                let args = self.params(n);
                self.d.funcs.push(Pred { name: nm, line: 0, args });
            }
        }
        let mut used = HashSet::new();
        for _ in 0..self.r.range(0, self.o.n) {
            let nm = self.fresh("k", &mut used);
            let n = self.r.skewed(self.o.arity);
            let params = self.params(n);
            self.d.tasks.push(Task { name: nm, line: 0, params });
        }
        for _ in 0..self.r.range(0, self.o.n) {
            let nm = self.fresh("a", &mut used);
            let n = self.r.skewed(self.o.arity);
            let mut scope = self.params(n);
            let pre = self.opt_formula(&mut scope, false);
            let eff = self.opt_formula(&mut scope, true);
            self.d.actions.push(Action { name: nm, line: 0, params: Self::writable(scope), pre, eff });
        }
        let mut used = HashSet::new();
        for t in self.d.tasks.clone() {
            for _ in 0..*self.r.pick(&[0, 1, 1, 2, 3]) {
                let nm = self.fresh("m", &mut used);
                let n = self.r.below(2);
                let mut scope = self.params(n);
                let mut terms = vec![];
                for p in &t.params {
                    let ty = self.type_ix(p);
                    terms.push(self.need(&mut scope, ty));
                }
                let pre = if self.r.chance(1, 2) { self.opt_formula(&mut scope, false) } else { None };
                let tn = self.tn(&mut scope);
                self.d.methods.push(Method {
                    name: Sym::plain(&nm),
                    task: Sym::plain(&t.name),
                    terms,
                    params: Self::writable(scope),
                    pre,
                    tn,
                });
            }
        }
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut self.d.methods);
        }
    }

    pub fn make_problem(&mut self) -> Problem {
        let mut p = Problem::default();
        p.name = name(self.r, self.o.style, "p", 0);
        while reserved(&p.name) {
            p.name.push('x');
        }
        p.domain = self.d.name.clone();
        p.reqs = if self.r.chance(1, 3) { self.reqs() } else { vec![] };
        self.objects = true;
        let mut objects: Vec<Sym> = vec![];
        let mut used = self.term_names.clone();
        for _ in 0..self.count() {
            let t = self.any_type();
            let nm = self.fresh("o", &mut used);
            objects.push(Sym::plain(&nm).typed(self.ty(t)));
        }
        if !self.d.preds.is_empty() {
            for _ in 0..self.r.skewed(3 * self.o.n) {
                if let Some(F::Atom(a)) = self.atom(&mut objects, &[]) {
                    p.init.push(a);
                }
            }
        }
        if self.r.chance(3, 4) {
            let mut goal_scope = objects.clone();
            p.goal = self.opt_formula(&mut goal_scope, false);
            objects = goal_scope;
        }
        if self.r.chance(7, 8) {
            // with or without parameters
            if self.r.chance(1, 2) {
                let saved = self.term_names.clone();
                self.term_names.extend(objects.iter().map(|s| s.name.clone()));
                self.objects = false;
                let n = self.r.below(3);
                let mut scope = self.params(n);
                // objects count as constants here
                let consts = self.consts.clone();
                self.consts.extend(objects.iter().cloned());
                let tn = self.tn(&mut scope);
                self.consts = consts;
                self.term_names = saved;
                self.objects = true;
                p.htn = Some((Some(Self::writable(scope)), tn));
            } else {
                let tn = self.tn(&mut objects);
                p.htn = Some((None, tn));
            }
        }
        if self.r.chance(1, 3) {
            self.r.shuffle(&mut objects);
        }
        p.objects = objects;
        p
    }
}

pub fn consistent(r: &mut Rng, o: Opts) -> (Domain, Problem) {
    let mut g = Gen::new(r, o);
    g.make_domain();
    let mut p = g.make_problem();
    let mut d = g.d;
    if r.chance(1, 6) {
        shadow(r, &mut d);
        shadow_htn(r, &d, &mut p);
    }
    (d, p)
}

// the same for parameters of the initial task network, and names of objects
pub fn shadow_htn(r: &mut Rng, d: &Domain, p: &mut Problem) -> usize {
    let names: Vec<String> = d.consts.iter().chain(p.objects.iter()).map(|x| x.name.clone()).collect();
    let mut n = 0;
    if let Some((Some(params), tn)) = &mut p.htn {
        for _ in 0..r.range(1, 2) {
            if params.is_empty() || names.is_empty() {
                break;
            }
            let i = r.below(params.len());
            let (old, new) = (params[i].name.clone(), r.pick(&names).clone());
            let mut uses: Vec<(&mut String, bool)> = vec![];
            for s in tn.subtasks.iter_mut() {
                uses.extend(s.terms.iter_mut().map(|s| (&mut s.name, s.var)));
            }
            for c in tn.cons.iter_mut().flatten() {
                let (Con::Eq(a, b) | Con::Ne(a, b)) = c;
                uses.push((&mut a.0, a.1));
                uses.push((&mut b.0, b.1));
            }
            if params.iter().any(|x| x.name == new) || uses.iter().any(|u| *u.0 == new) {
                continue;
            }
            for (x, var) in uses {
                if var && *x == old {
                    *x = new.clone();
                }
            }
            params[i].name = new;
            n += 1;
        }
    }
    n
}

// gives parameters of actions and methods the names of constants that are not used there
pub fn shadow(r: &mut Rng, d: &mut Domain) -> usize {
    let consts: Vec<String> = d.consts.iter().map(|x| x.name.clone()).collect();
    let mut n = 0;
    let mut one = |r: &mut Rng, params: &mut Vec<Sym>, fs: Vec<&mut F>, tn: Option<(&mut Vec<Sym>, &mut Tn)>| {
        if params.is_empty() || consts.is_empty() || !r.chance(1, 2) {
            return;
        }
        let i = r.below(params.len());
        let (old, new) = (params[i].name.clone(), r.pick(&consts).clone());
        if params.iter().any(|x| x.name == new) {
            return;
        }
        let mut tn = tn;
        let mut fs = fs;
        let mut used = false;
        let mut pass = |v: &mut dyn FnMut(&mut String, bool)| {
            for f in fs.iter_mut() {
                v_terms(f, v);
            }
            if let Some((terms, tn)) = tn.as_mut() {
                terms.iter_mut().for_each(|s| v(&mut s.name, s.var));
                for s in tn.subtasks.iter_mut() {
                    s.terms.iter_mut().for_each(|s| v(&mut s.name, s.var));
                }
                for c in tn.cons.iter_mut().flatten() {
                    let (Con::Eq(a, b) | Con::Ne(a, b)) = c;
                    v(&mut a.0, a.1);
                    v(&mut b.0, b.1);
                }
            }
        };
        pass(&mut |x, _| used |= *x == new);
        if !used {
            pass(&mut |x, var| {
                if var && *x == old {
                    *x = new.clone()
                }
            });
            params[i].name = new.clone();
            n += 1;
        }
    };
    for a in d.actions.iter_mut() {
        one(r, &mut a.params, a.pre.iter_mut().chain(a.eff.iter_mut()).collect(), None);
    }
    for m in d.methods.iter_mut() {
        one(r, &mut m.params, m.pre.iter_mut().collect(), Some((&mut m.terms, &mut m.tn)));
    }
    n
}

fn v_terms(f: &mut F, v: &mut dyn FnMut(&mut String, bool)) {
    match f {
        F::Empty => {}
        F::Atom(p) => p.args.iter_mut().for_each(|s| v(&mut s.name, s.var)),
        F::Eq(a, b) => {
            v(&mut a.0, a.1);
            v(&mut b.0, b.1);
        }
        F::Not(y) => v_terms(y, v),
        F::ForAll(q, y) | F::Exists(q, y) => {
            q.iter_mut().for_each(|s| v(&mut s.name, s.var));
            v_terms(y, v)
        }
        F::And(ys) | F::Or(ys) | F::Xor(ys) => ys.iter_mut().for_each(|y| v_terms(y, v)),
        F::Prob(ys) => ys.iter_mut().for_each(|(_, y)| v_terms(y, v)),
    }
}

// ---------------------------------------------------------------- decomposition graphs

// domains about the hierarchy only
pub fn tdg_domain(r: &mut Rng) -> Domain {
    let style = if r.chance(2, 3) { NameStyle::Plain } else { STYLES[r.below(6)] };
    let mut d = Domain::default();
    d.name = "d".to_string();
    let shape = if r.chance(1, 40) { 15 } else { r.below(15) };
    let nt = match shape {
        15 => r.range(25, 120),
        0 => r.range(12, 30),
        1 => r.range(8, 14),
        2 => r.range(20, 120),
        _ => r.range(1, 7),
    };
    let na = r.range(0, 3);
    let mut used = HashSet::new();
    for _ in 0..nt {
        let n = fresh(r, style, "t", &mut used);
        d.tasks.push(Task { name: n, line: 0, params: vec![] });
    }
    for _ in 0..na {
        let n = fresh(r, style, "a", &mut used);
        d.actions.push(Action { name: n, line: 0, params: vec![], pre: None, eff: None });
    }
    let mut mused = HashSet::new();
    let p_empty = *r.pick(&[0, 1, 3, 6]); // of 10: methods without subtasks
    let p_action = *r.pick(&[0, 2, 4, 7]); // of 10: subtasks that are actions
    let forward = r.chance(1, 3); // mostly to later tasks
    let max_m = if shape == 1 { 4 } else { 3 };
    let max_s = match shape {
        1 => nt,
        3 => 12,
        _ => 4,
    };
    let add = |r: &mut Rng, d: &mut Domain, mused: &mut HashSet<String>, t: usize, subs: Vec<usize>| {
        let n = fresh(r, style, "m", mused);
        let names: Vec<String> = subs
            .iter()
            .map(|s| if *s < nt { d.tasks[*s].name.clone() } else { d.actions[*s - nt].name.clone() })
            .collect();
        let tn = network(r, &names);
        d.methods.push(Method {
            name: Sym::plain(&n),
            task: Sym::plain(&d.tasks[t].name),
            terms: vec![],
            params: vec![],
            pre: if tn.is_blank() && r.chance(1, 2) { Some(F::Empty) } else { None },
            tn,
        });
    };
    if shape == 2 || shape == 4 {
        // a long chain (or cycle), with nullable or primitive companions
        let companion = r.below(4);
        for t in 0..nt {
            let mut subs = vec![];
            let next = if t + 1 < nt {
                Some(t + 1)
            } else if r.chance(1, 2) {
                Some(r.below(nt))
            } else {
                None
            };
            subs.extend(next);
            if companion == 1 && na > 0 && r.chance(1, 10) {
                subs.insert(r.below(subs.len() + 1), nt);
            }
            if companion == 2 && r.chance(1, 10) {
                subs.insert(r.below(subs.len() + 1), r.below(nt));
            }
            add(r, &mut d, &mut mused, t, subs);
            if companion == 3 && r.chance(1, 8) {
                add(r, &mut d, &mut mused, t, vec![]);
            }
        }
    } else if shape == 15 {
        // networks of many tasks, few of which can be refined
        for t in 0..r.range(1, 3) {
            let mut subs: Vec<usize> = (0..nt).filter(|_| r.chance(4, 5)).collect();
            if r.chance(1, 2) {
                subs.retain(|x| *x != t);
            }
            r.shuffle(&mut subs);
            if na > 0 && r.chance(2, 3) {
                subs.insert(r.below(subs.len() + 1), nt + r.below(na));
            }
            add(r, &mut d, &mut mused, t, subs);
        }
        let p = *r.pick(&[0, 1, 8, 12]);
        for t in 3..nt {
            if r.chance(p, 12) {
                let subs = if r.chance(1, 20) { vec![r.below(nt)] } else { vec![] };
                add(r, &mut d, &mut mused, t, subs);
            }
        }
    } else {
        for t in 0..nt {
            for _ in 0..r.below(max_m + 1) {
                let mut subs = vec![];
                if !r.chance(p_empty, 10) {
                    for _ in 0..r.range(1, max_s) {
                        if na > 0 && r.chance(p_action, 10) {
                            subs.push(nt + r.below(na));
                        } else if forward && r.chance(9, 10) {
                            if t + 1 < nt {
                                subs.push(r.range(t + 1, nt - 1));
                            }
                        } else {
                            subs.push(r.below(nt));
                        }
                    }
                }
                add(r, &mut d, &mut mused, t, subs);
            }
        }
    }
    // a planted cycle of a certain class
    if r.chance(1, 3) {
        let len = r.range(1, nt.min(6));
        let start = r.below(nt);
        for i in 0..len {
            let t = (start + i) % nt;
            let u = (start + (i + 1) % len) % nt;
            let mut subs = vec![u];
            match r.below(4) {
                0 => {
                    let x = r.below(nt);
                    subs.insert(r.below(2), x);
                }
                1 if na > 0 => subs.push(nt),
                _ => {}
            }
            add(r, &mut d, &mut mused, t, subs);
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut d.methods);
    }
    if r.chance(1, 3) {
        r.shuffle(&mut d.tasks);
    }
    d
}

// a network of the given tasks with some ordering
pub fn network(r: &mut Rng, names: &[String]) -> Tn {
    let mut t = Tn::empty();
    let kind = r.below(4); // total, unordered, partial, partial with some ids
    let prefix = *r.pick(&["i", "t", "a-", "x_"]);
    for (i, n) in names.iter().enumerate() {
        let id = match kind {
            1 => r.chance(1, 3),
            3 => r.chance(2, 3),
            2 => true,
            _ => r.chance(1, 4),
        };
        t.subtasks.push(Sub {
            id: if id { Some(Sym::plain(&format!("{}{}", prefix, i))) } else { None },
            task: Sym::plain(n),
            terms: vec![],
        });
    }
    if kind == 0 {
        t.ords = Ords::Total;
        return t;
    }
    let mut ids: Vec<String> = t.subtasks.iter().filter_map(|s| s.id.as_ref().map(|x| x.name.clone())).collect();
    let mut o = vec![];
    if kind >= 2 && ids.len() >= 2 {
        if r.chance(1, 2) {
            r.shuffle(&mut ids);
        }
        match r.below(3) {
            0 => {
                // a chain of direct successors (orders transitively)
                for i in 0..ids.len() - 1 {
                    if r.chance(9, 10) {
                        o.push((ids[i].clone(), ids[i + 1].clone()));
                    }
                }
            }
            1 => {
                for _ in 0..r.below(2 * ids.len() + 1) {
                    let a = r.below(ids.len() - 1);
                    let b = r.range(a + 1, ids.len() - 1);
                    o.push((ids[a].clone(), ids[b].clone()));
                }
            }
            _ => {
                // one before or after all others
                let k = if r.chance(1, 2) { 0 } else { ids.len() - 1 };
                for i in 0..ids.len() {
                    if i != k {
                        o.push(if k == 0 { (ids[k].clone(), ids[i].clone()) } else { (ids[i].clone(), ids[k].clone()) });
                    }
                }
            }
        }
        r.shuffle(&mut o);
    }
    if !o.is_empty() || r.chance(1, 4) {
        t.ordering = Some(0);
    }
    t.ords = Ords::Partial(o);
    t
}

// ---------------------------------------------------------------- uses and declarations of names

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Cat {
    // declarations
    DType,
    DConst,
    DPred,
    DFunc,
    DTask,
    DAction,
    DMethod,
    DObject,
    DParam, // parameters of predicates, tasks, ..., quantified variables
    DId,
    Header,
    // uses
    TypeParent,
    TypeOfPred,
    TypeOfFunc,
    TypeOfTask,
    TypeOfAction,
    TypeOfMethod,
    TypeOfConst,
    TypeOfObject,
    TypeOfHtn,
    TypeOfQuantified,
    PredInAction,
    PredInMethod,
    PredInInit,
    PredInGoal,
    ArgInAction,
    ArgInMethodFormula,
    ArgInInit,
    ArgInGoal,
    ArgQuantified, // arguments under a quantifier
    ArgOfTask,     // of the task of a method
    ArgOfSubtask,
    ArgOfInitTask,
    TaskOfMethod,
    SubtaskOfMethod,
    SubtaskOfInit,
    Loose, // equality, constraints, orderings
}

type V<'v> = &'v mut dyn FnMut(Cat, &mut String);

fn v_syms(s: &mut [Sym], c: Cat, t: Cat, v: V) {
    for x in s {
        v(c, &mut x.name);
        if let Some((ty, _)) = &mut x.ty {
            v(t, ty);
        }
    }
}

fn v_formula(f: &mut F, p: Cat, a: Cat, v: V) {
    match f {
        F::Empty => {}
        F::Atom(x) => {
            v(p, &mut x.name);
            for y in &mut x.args {
                v(a, &mut y.name);
            }
        }
        F::Not(x) => v_formula(x, p, a, v),
        F::And(xs) | F::Or(xs) | F::Xor(xs) => xs.iter_mut().for_each(|x| v_formula(x, p, a, v)),
        F::Prob(xs) => xs.iter_mut().for_each(|x| v_formula(&mut x.1, p, a, v)),
        F::ForAll(vs, x) | F::Exists(vs, x) => {
            v_syms(vs, Cat::DParam, Cat::TypeOfQuantified, v);
            v_formula(x, p, Cat::ArgQuantified, v)
        }
        F::Eq(x, y) => {
            v(Cat::Loose, &mut x.0);
            v(Cat::Loose, &mut y.0);
        }
    }
}

fn v_tn(t: &mut Tn, s: Cat, a: Cat, v: V) {
    for x in &mut t.subtasks {
        if let Some(id) = &mut x.id {
            v(Cat::DId, &mut id.name);
        }
        v(s, &mut x.task.name);
        for y in &mut x.terms {
            v(a, &mut y.name);
        }
    }
    if let Ords::Partial(o) = &mut t.ords {
        for (x, y) in o {
            v(Cat::Loose, x);
            v(Cat::Loose, y);
        }
    }
    for c in t.cons.iter_mut().flatten() {
        let (Con::Eq(x, y) | Con::Ne(x, y)) = c;
        v(Cat::Loose, &mut x.0);
        v(Cat::Loose, &mut y.0);
    }
}

pub fn visit_domain(d: &mut Domain, v: V) {
    v(Cat::Header, &mut d.name);
    v_syms(&mut d.types, Cat::DType, Cat::TypeParent, v);
    v_syms(&mut d.consts, Cat::DConst, Cat::TypeOfConst, v);
    for p in &mut d.preds {
        v(Cat::DPred, &mut p.name);
        v_syms(&mut p.args, Cat::DParam, Cat::TypeOfPred, v);
    }
    for p in &mut d.funcs {
        v(Cat::DFunc, &mut p.name);
        v_syms(&mut p.args, Cat::DParam, Cat::TypeOfFunc, v);
    }
    for t in &mut d.tasks {
        v(Cat::DTask, &mut t.name);
        v_syms(&mut t.params, Cat::DParam, Cat::TypeOfTask, v);
    }
    for a in &mut d.actions {
        v(Cat::DAction, &mut a.name);
        v_syms(&mut a.params, Cat::DParam, Cat::TypeOfAction, v);
        for f in a.pre.iter_mut().chain(a.eff.iter_mut()) {
            v_formula(f, Cat::PredInAction, Cat::ArgInAction, v);
        }
    }
    for m in &mut d.methods {
        v(Cat::DMethod, &mut m.name.name);
        v_syms(&mut m.params, Cat::DParam, Cat::TypeOfMethod, v);
        v(Cat::TaskOfMethod, &mut m.task.name);
        for x in &mut m.terms {
            v(Cat::ArgOfTask, &mut x.name);
        }
        for f in m.pre.iter_mut() {
            v_formula(f, Cat::PredInMethod, Cat::ArgInMethodFormula, v);
        }
        v_tn(&mut m.tn, Cat::SubtaskOfMethod, Cat::ArgOfSubtask, v);
    }
}

pub fn visit_problem(p: &mut Problem, v: V) {
    v(Cat::Header, &mut p.name);
    v(Cat::Header, &mut p.domain);
    v_syms(&mut p.objects, Cat::DObject, Cat::TypeOfObject, v);
    for f in &mut p.init {
        v(Cat::PredInInit, &mut f.name);
        for x in &mut f.args {
            v(Cat::ArgInInit, &mut x.name);
        }
    }
    if let Some(g) = &mut p.goal {
        v_formula(g, Cat::PredInGoal, Cat::ArgInGoal, v);
    }
    if let Some((ps, t)) = &mut p.htn {
        if let Some(ps) = ps {
            v_syms(ps, Cat::DParam, Cat::TypeOfHtn, v);
        }
        v_tn(t, Cat::SubtaskOfInit, Cat::ArgOfInitTask, v);
    }
}

// every atom, fact, task or subtask with its arguments: (category, name, arguments)
pub fn visit_calls(d: &mut Domain, p: &mut Problem, v: &mut dyn FnMut(Cat, &mut String, &mut Vec<Sym>)) {
    fn form(f: &mut F, c: Cat, v: &mut dyn FnMut(Cat, &mut String, &mut Vec<Sym>)) {
        match f {
            F::Atom(x) => v(c, &mut x.name, &mut x.args),
            F::Not(x) => form(x, c, v),
            F::And(xs) | F::Or(xs) | F::Xor(xs) => xs.iter_mut().for_each(|x| form(x, c, v)),
            F::Prob(xs) => xs.iter_mut().for_each(|x| form(&mut x.1, c, v)),
            F::ForAll(_, x) | F::Exists(_, x) => form(x, Cat::ArgQuantified, v),
            _ => {}
        }
    }
    for a in &mut d.actions {
        for f in a.pre.iter_mut().chain(a.eff.iter_mut()) {
            form(f, Cat::ArgInAction, v);
        }
    }
    for m in &mut d.methods {
        v(Cat::ArgOfTask, &mut m.task.name, &mut m.terms);
        for f in m.pre.iter_mut() {
            form(f, Cat::ArgInMethodFormula, v);
        }
        for s in &mut m.tn.subtasks {
            v(Cat::ArgOfSubtask, &mut s.task.name, &mut s.terms);
        }
    }
    for f in &mut p.init {
        v(Cat::ArgInInit, &mut f.name, &mut f.args);
    }
    if let Some(g) = &mut p.goal {
        form(g, Cat::ArgInGoal, v);
    }
    if let Some((_, t)) = &mut p.htn {
        for s in &mut t.subtasks {
            v(Cat::ArgOfInitTask, &mut s.task.name, &mut s.terms);
        }
    }
}

// names of a model by kind
pub struct Pools {
    pub types: Vec<String>,
    pub terms: Vec<String>,
    pub preds: Vec<String>,
    pub calls: Vec<String>,
    pub all: Vec<String>,
}

pub fn pools(d: &mut Domain, p: &mut Problem) -> Pools {
    let mut q = Pools { types: vec![], terms: vec![], preds: vec![], calls: vec![], all: vec![] };
    let mut v = |c: Cat, s: &mut String| {
        match c {
            Cat::DType => q.types.push(s.clone()),
            Cat::DConst | Cat::DObject | Cat::DParam => q.terms.push(s.clone()),
            Cat::DPred => q.preds.push(s.clone()),
            Cat::DTask | Cat::DAction => q.calls.push(s.clone()),
            _ => {}
        }
        q.all.push(s.clone());
    };
    visit_domain(d, &mut v);
    visit_problem(p, &mut v);
    q
}

// a name that is not declared: near misses of declared ones, names of other kinds, or new ones
pub fn other_name(r: &mut Rng, old: &str, all: &[String]) -> String {
    for _ in 0..20 {
        let s = match r.below(7) {
            0 => format!("{}{}", old, r.pick(&["x", "-", "_", "1", "a"])),
            1 if old.len() > 1 => old[..old.len() - 1].to_string(),
            2 => old.to_ascii_uppercase(),
            3 | 4 if !all.is_empty() => r.pick(all).clone(),
            5 => format!("{}{}", r.pick(&["x", "un", "_"]), old),
            _ => format!("undeclared-{}", r.below(100)),
        };
        if s != old && !reserved(&s) && !s.is_empty() && !s.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
            return s;
        }
    }
    format!("undeclared-{}", r.u64() % 1000)
}
