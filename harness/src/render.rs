// Writes models as documents: equivalent notations, order of sections, and layouts.
use crate::ast::*;
use crate::rng::Rng;

pub type Toks = Vec<String>;

// how freely the notation varies
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Conventional,
    Varied,
}

pub struct Writer<'r> {
    pub r: &'r mut Rng,
    pub style: Style,
    out: Toks,
}

fn var(s: &str, v: bool) -> String {
    if v {
        format!("?{}", s)
    } else {
        s.to_string()
    }
}

impl<'r> Writer<'r> {
    pub fn new(r: &'r mut Rng, style: Style) -> Writer<'r> {
        Writer { r, style, out: vec![] }
    }
    fn t(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn flip(&mut self, n: usize, d: usize) -> bool {
        self.style == Style::Varied && self.r.chance(n, d)
    }

    // typed ones in groups, untyped ones last; must be writable in one list
    fn list(&mut self, syms: &[Sym]) {
        let split = self.r.below(3);
        for (i, s) in syms.iter().enumerate() {
            self.out.push(var(&s.name, s.var));
            if let Some((t, _)) = &s.ty {
                let same = syms.get(i + 1).map(|n| n.tyname() == Some(t.as_str())).unwrap_or(false);
                let join = same
                    && match split {
                        0 => true,
                        1 => false,
                        _ => self.r.chance(1, 2),
                    };
                if !join {
                    self.t("-");
                    self.out.push(t.clone());
                }
            }
        }
    }

    fn terms(&mut self, syms: &[Sym]) {
        for s in syms {
            self.out.push(var(&s.name, s.var));
        }
    }

    fn pred(&mut self, p: &Pred, decl: bool) {
        self.t("(");
        self.t(&p.name.clone());
        if decl {
            self.list(&p.args);
        } else {
            self.terms(&p.args);
        }
        self.t(")");
    }

    fn term(&mut self, t: &Term) {
        self.out.push(var(&t.0, t.1));
    }

    pub fn formula(&mut self, f: &F) {
        self.t("(");
        match f {
            F::Empty => {}
            F::Atom(p) => {
                self.t(&p.name.clone());
                self.terms(&p.args);
            }
            F::Not(x) => {
                self.t("not");
                self.formula(x);
            }
            F::And(xs) | F::Or(xs) | F::Xor(xs) => {
                self.t(match f {
                    F::And(_) => "and",
                    F::Or(_) => "or",
                    _ => "oneof",
                });
                for x in xs {
                    self.formula(x);
                }
            }
            F::ForAll(v, x) | F::Exists(v, x) => {
                self.t(if let F::ForAll(_, _) = f { "forall" } else { "exists" });
                self.t("(");
                self.list(v);
                self.t(")");
                self.formula(x);
            }
            F::Prob(bs) => {
                self.t("probabilistic");
                for (n, x) in bs {
                    match n {
                        Num::Int(i) => self.t(&i.to_string()),
                        Num::Real(r) => {
                            let s = format!("{:?}", r);
                            self.t(&s)
                        }
                    }
                    self.formula(x);
                }
            }
            F::Eq(a, b) => {
                self.t("=");
                self.term(a);
                self.term(b);
            }
        }
        self.t(")");
    }

    fn subtask(&mut self, s: &Sub) {
        self.t("(");
        if let Some(id) = &s.id {
            self.t(&id.name.clone());
            self.t("(");
        }
        self.t(&s.task.name.clone());
        self.terms(&s.terms);
        if s.id.is_some() {
            self.t(")");
        }
        self.t(")");
    }

    fn con(&mut self, c: &Con) {
        self.t("(");
        let (ne, a, b) = match c {
            Con::Eq(a, b) => (false, a, b),
            Con::Ne(a, b) => (true, a, b),
        };
        if ne {
            self.t("not");
            self.t("(");
        }
        self.t("=");
        self.term(a);
        self.term(b);
        if ne {
            self.t(")");
        }
        self.t(")");
    }

    // opening of a list that may be written without "and" if it has at most one element
    fn needs_and(&mut self, n: usize) -> bool {
        match n {
            0 => self.flip(1, 3),
            1 => !self.flip(1, 2),
            _ => true,
        }
    }

    fn constraints(&mut self, cs: &[Con]) {
        self.t(":constraints");
        let and = self.needs_and(cs.len());
        if and || cs.is_empty() {
            self.t("(");
        }
        if and {
            self.t("and");
        }
        for c in cs {
            self.con(c);
        }
        if and || cs.is_empty() {
            self.t(")");
        }
    }

    fn tn(&mut self, t: &Tn, may_be_blank: bool) {
        if t.is_blank() && may_be_blank && self.r.chance(1, 2) {
            return;
        }
        let total = t.ords == Ords::Total;
        let short = self.flip(1, 3);
        self.t(match (total, short) {
            (true, false) => ":ordered-subtasks",
            (true, true) => ":ordered-tasks",
            (false, false) => ":subtasks",
            (false, true) => ":tasks",
        });
        let and = self.needs_and(t.subtasks.len());
        if and || t.subtasks.is_empty() {
            self.t("(");
        }
        if and {
            self.t("and");
        }
        for s in &t.subtasks {
            self.subtask(s);
        }
        if and || t.subtasks.is_empty() {
            self.t(")");
        }
        let cons_first = self.flip(1, 3);
        if cons_first {
            if let Some(c) = &t.cons {
                self.constraints(c);
            }
        }
        if let (Some(_), Ords::Partial(o)) = (t.ordering, &t.ords) {
            let short = self.flip(1, 3);
            self.t(if short { ":order" } else { ":ordering" });
            // what comes after the same task may be given together
            let together = self.flip(1, 4);
            let mut groups: Vec<(&str, Vec<&str>)> = vec![];
            for (a, b) in o {
                match groups.last_mut() {
                    Some((x, ys)) if together && *x == a.as_str() => ys.push(b),
                    _ => groups.push((a, vec![b])),
                }
            }
            let and = self.needs_and(groups.len());
            if and || o.is_empty() {
                self.t("(");
            }
            if and {
                self.t("and");
            }
            for (a, bs) in groups {
                self.t("(");
                self.t("<");
                self.t(a);
                for b in bs {
                    self.t(b);
                }
                self.t(")");
            }
            if and || o.is_empty() {
                self.t(")");
            }
        }
        if !cons_first {
            if let Some(c) = &t.cons {
                self.constraints(c);
            }
        }
    }

    // cuts a list of declarations into writable pieces
    fn pieces(&mut self, syms: &[Sym]) -> Vec<Vec<Sym>> {
        let mut out: Vec<Vec<Sym>> = vec![];
        for (i, s) in syms.iter().enumerate() {
            let forced = i > 0 && syms[i - 1].ty.is_none() && s.ty.is_some();
            if i == 0 || forced || self.flip(1, 12) {
                out.push(vec![]);
            }
            out.last_mut().unwrap().push(s.clone());
        }
        if out.is_empty() && self.flip(1, 3) {
            out.push(vec![]); // an empty section
        }
        out
    }

    fn take(&mut self) -> Toks {
        std::mem::take(&mut self.out)
    }

    fn section(&mut self, kw: &str, f: impl FnOnce(&mut Self)) -> Toks {
        let old = self.take();
        self.t("(");
        self.t(kw);
        f(self);
        self.t(")");
        let s = self.take();
        self.out = old;
        s
    }

    fn lists(&mut self, kw: &str, syms: &[Sym]) -> Vec<Toks> {
        let ps = self.pieces(syms);
        ps.iter().map(|p| self.section(kw, |w| w.list(p))).collect()
    }

    fn preds(&mut self, kw: &str, ps: &[Pred]) -> Vec<Toks> {
        let mut out = vec![];
        let mut i = 0;
        while i < ps.len() || (out.is_empty() && self.flip(1, 3)) {
            let n = if self.flip(1, 6) { self.r.below(ps.len() - i + 1) } else { ps.len() - i };
            out.push(self.section(kw, |w| ps[i..i + n].iter().for_each(|p| w.pred(p, true))));
            i += n;
        }
        out
    }

    fn reqs(&mut self, rs: &[usize]) -> Vec<Toks> {
        let mut out = vec![];
        let mut i = 0;
        while i < rs.len() || (out.is_empty() && self.flip(1, 4)) {
            let n = if self.flip(1, 6) { self.r.below(rs.len() - i + 1) } else { rs.len() - i };
            out.push(self.section(":requirements", |w| {
                rs[i..i + n].iter().for_each(|x| w.t(REQS[*x].0))
            }));
            i += n;
        }
        out
    }

    // merges the queues of sections, keeping the order within each
    fn merge(&mut self, qs: Vec<Vec<Toks>>) -> Toks {
        let shuffle = self.flip(2, 3);
        let mut out = vec![];
        if !shuffle {
            for q in qs {
                out.extend(q.into_iter().flatten());
            }
            return out;
        }
        let mut qs: Vec<std::collections::VecDeque<Toks>> =
            qs.into_iter().filter(|q| !q.is_empty()).map(|q| q.into()).collect();
        // in bursts
        while !qs.is_empty() {
            let i = self.r.below(qs.len());
            let n = self.r.range(1, 4);
            for _ in 0..n {
                if let Some(s) = qs[i].pop_front() {
                    out.extend(s);
                }
            }
            if qs[i].is_empty() {
                qs.swap_remove(i);
            }
        }
        out
    }

    pub fn domain(mut self, d: &Domain) -> Toks {
        let mut qs = vec![
            self.reqs(&d.reqs),
            self.lists(":types", &d.types),
            self.lists(":constants", &d.consts),
            self.preds(":predicates", &d.preds),
            self.preds(":functions", &d.funcs),
        ];
        qs.push(
            d.tasks
                .iter()
                .map(|x| {
                    self.section(":task", |w| {
                        w.t(&x.name);
                        w.t(":parameters");
                        w.t("(");
                        w.list(&x.params);
                        w.t(")");
                    })
                })
                .collect(),
        );
        qs.push(
            d.methods
                .iter()
                .map(|m| {
                    self.section(":method", |w| {
                        w.t(&m.name.name);
                        w.t(":parameters");
                        w.t("(");
                        w.list(&m.params);
                        w.t(")");
                        w.t(":task");
                        w.t("(");
                        w.t(&m.task.name);
                        w.terms(&m.terms);
                        w.t(")");
                        if let Some(f) = &m.pre {
                            w.t(":precondition");
                            w.formula(f);
                        }
                        w.tn(&m.tn, m.pre.is_some());
                    })
                })
                .collect(),
        );
        qs.push(
            d.actions
                .iter()
                .map(|a| {
                    self.section(":action", |w| {
                        w.t(&a.name);
                        w.t(":parameters");
                        w.t("(");
                        w.list(&a.params);
                        w.t(")");
                        if let Some(f) = &a.pre {
                            w.t(":precondition");
                            w.formula(f);
                        }
                        if let Some(f) = &a.eff {
                            w.t(":effect");
                            w.formula(f);
                        }
                    })
                })
                .collect(),
        );
        let body = self.merge(qs);
        let mut out: Toks = ["(", "define", "(", "domain", &d.name, ")"].iter().map(|x| x.to_string()).collect();
        out.extend(body);
        out.push(")".to_string());
        out
    }

    pub fn problem(mut self, p: &Problem) -> Toks {
        let mut qs = vec![self.reqs(&p.reqs), self.lists(":objects", &p.objects)];
        let mut htn = vec![];
        if let Some((params, t)) = &p.htn {
            htn.push(self.section(":htn", |w| {
                if let Some(ps) = params {
                    w.t(":parameters");
                    w.t("(");
                    w.list(ps);
                    w.t(")");
                }
                w.tn(t, true);
            }));
        }
        qs.push(htn);
        let mut init = vec![];
        if !p.init.is_empty() || self.r.chance(1, 2) {
            init.push(self.section(":init", |w| p.init.iter().for_each(|x| w.pred(x, false))));
        }
        qs.push(init);
        let mut goal = vec![];
        if let Some(g) = &p.goal {
            goal.push(self.section(":goal", |w| {
                if *g != F::Empty || w.r.chance(1, 2) {
                    w.formula(g);
                }
            }));
        }
        qs.push(goal);
        let body = self.merge(qs);
        let mut out: Toks = ["(", "define", "(", "problem", &p.name, ")", "(", ":domain", &p.domain, ")"]
            .iter()
            .map(|x| x.to_string())
            .collect();
        out.extend(body);
        out.push(")".to_string());
        out
    }
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    OneLine,
    Normal,
    TokenPerLine,
    Crlf,
    Wild,
    Comments,
    Tall,
}

pub const LAYOUTS: [Layout; 7] = [
    Layout::OneLine,
    Layout::Normal,
    Layout::TokenPerLine,
    Layout::Crlf,
    Layout::Wild,
    Layout::Comments,
    Layout::Tall,
];

// any layout; tall ones are rare, as they are large
pub fn any_layout(r: &mut Rng) -> Layout {
    if r.chance(1, 150) {
        Layout::Tall
    } else {
        LAYOUTS[r.below(6)]
    }
}

pub fn must_separate(a: &str, b: &str) -> bool {
    !(matches!(a, "(" | ")" | "-" | "<" | "=") || matches!(b, "(" | ")"))
}

pub fn comment(r: &mut Rng, out: &mut Vec<u8>) {
    out.push(b';');
    let frags: [&[u8]; 22] = [
        b"", b" comment", b";", b";;", b"(", b")", b"((", b"(define (domain x)", b"\"", b"'", b":types",
        b"?x", b"\xff\xfe", b"\xc3", b"\r", b"\t", b"\xc3\xa9", b"0.5", b"-", b"(:action a", b"\x00", b"|#",
    ];
    for _ in 0..r.below(5) {
        out.extend_from_slice(frags[r.below(frags.len())]);
        if r.chance(1, 2) {
            out.push(b' ');
        }
    }
    if r.chance(1, 40) {
        out.extend(std::iter::repeat(b'x').take(r.range(100, 3000)));
    }
}

fn comment_line(r: &mut Rng, out: &mut Vec<u8>, crlf: bool) {
    comment(r, out);
    if crlf {
        out.push(b'\r');
    }
    out.push(b'\n');
}

fn gap(r: &mut Rng, l: Layout, need: bool, out: &mut Vec<u8>) {
    let before = out.len();
    match l {
        Layout::OneLine => {
            if need || r.chance(1, 10) {
                out.push(b' ');
            }
        }
        Layout::Normal | Layout::Tall => match r.below(12) {
            0 => out.extend_from_slice(b"\n"),
            1 => out.extend_from_slice(b"\n    "),
            2 => out.extend_from_slice(b"\n\n  "),
            3 => {
                if l == Layout::Tall && r.chance(1, 30) {
                    let n = *r.pick(&[300usize, 5000, 70000]);
                    out.extend(std::iter::repeat(b'\n').take(n));
                } else {
                    out.extend_from_slice(b" ; note\n");
                }
            }
            4 | 5 if !need => {}
            _ => out.push(b' '),
        },
        Layout::TokenPerLine => out.push(b'\n'),
        Layout::Crlf => match r.below(6) {
            0 => out.extend_from_slice(b"\r\n"),
            1 => out.extend_from_slice(b"\r\n\t"),
            2 => out.extend_from_slice(b"\r\n\r\n"),
            3 if r.chance(1, 3) => comment_line(r, out, true),
            4 if !need => {}
            _ => out.push(b' '),
        },
        Layout::Wild => {
            let n = r.below(4);
            for _ in 0..n {
                out.push(*r.pick(&[b' ', b'\t', b'\n', b'\r', b' ', b'\n']));
            }
        }
        Layout::Comments => {
            for _ in 0..r.below(3) {
                match r.below(4) {
                    0 | 1 => comment_line(r, out, false),
                    2 => out.push(b' '),
                    _ => out.push(b'\n'),
                }
            }
        }
    }
    if need && out.len() == before {
        out.push(*r.pick(if l == Layout::OneLine { &[b' ', b' ', b'\t'] } else { &[b' ', b'\t', b'\n'] }));
    }
}

pub fn layout(r: &mut Rng, toks: &[String], l: Layout) -> Vec<u8> {
    let mut out = vec![];
    // what comes before the first token
    match l {
        Layout::OneLine => {}
        Layout::Tall => {
            let n = *r.pick(&[0usize, 1, 300, 66000]);
            out.extend(std::iter::repeat(b'\n').take(n));
        }
        _ => {
            if r.chance(1, 2) {
                gap(r, l, false, &mut out);
            }
        }
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            gap(r, l, must_separate(&toks[i - 1], t), &mut out);
        }
        out.extend_from_slice(t.as_bytes());
    }
    // what comes after the last one
    match r.below(6) {
        0 | 1 => {}
        2 => out.push(b'\n'),
        3 => comment(r, &mut out),
        4 => {
            out.extend_from_slice(b" \n");
            comment(r, &mut out);
            out.extend_from_slice(b"\n");
        }
        _ => out.extend_from_slice(b"\r\n\t \n\n"),
    }
    out
}

pub fn plain(toks: &[String]) -> Vec<u8> {
    let mut r = Rng::new(1);
    let mut out = vec![];
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            gap(&mut r, Layout::Normal, must_separate(&toks[i - 1], t), &mut out);
        }
        out.extend_from_slice(t.as_bytes());
    }
    out.push(b'\n');
    out
}
