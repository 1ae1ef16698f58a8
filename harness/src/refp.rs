// Reference lexer and parser: an independent, table-free reading of the grammar of HDDL as this
// analyser supports it. It answers: is the document grammatical, what does it declare (with the line
// of every token), and if not, at which line does it go wrong. Where the language is not specified
// it says so.
use crate::ast::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    L,
    R,
    Dash,
    Lt,
    EqT,
    OtherOp,
    Id(String, bool),
    Kw(&'static str, bool), // keyword, written with ':'
    Req(usize),
    Op(&'static str),
    N(Num),
    Bad,    // not a token
    Unspec, // a token whose treatment is not specified
    Eof,
}

pub struct Lexed {
    pub toks: Vec<(T, u32)>,
    pub spans: Vec<(usize, usize)>,
    pub last_line: u32, // line at the end of the document
}

const KW: [(&str, &str); 23] = [
    ("requirements", "requirements"),
    ("objects", "objects"),
    ("types", "types"),
    ("constants", "constants"),
    ("predicates", "predicates"),
    ("functions", "functions"),
    ("init", "init"),
    ("htn", "htn"),
    ("task", "task"),
    ("action", "action"),
    ("parameters", "parameters"),
    ("method", "method"),
    ("precondition", "precondition"),
    ("effect", "effect"),
    ("subtasks", "subtasks"),
    ("tasks", "subtasks"),
    ("ordered-subtasks", "ordered-subtasks"),
    ("ordered-tasks", "ordered-subtasks"),
    ("ordering", "ordering"),
    ("order", "ordering"),
    ("constraints", "constraints"),
    ("goal", "goal"),
    ("domain", "domain"),
];

pub const OPS: [&str; 8] = ["and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic"];

fn ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'
}

fn delim(c: u8) -> bool {
    ws(c) || c == b'(' || c == b')' || c == b';'
}

pub fn lex(src: &[u8]) -> Lexed {
    let mut toks = vec![];
    let mut spans = vec![];
    let mut line = 1u32;
    let mut i = 0;
    let n = src.len();
    let lexeme = |from: usize| {
        let mut j = from;
        while j < n && !delim(src[j]) {
            j += 1;
        }
        j
    };
    while i < n {
        let c = src[i];
        if ws(c) {
            if c == b'\n' {
                line += 1;
            }
            i += 1;
            continue;
        }
        if c == b';' {
            while i < n && src[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        let start_of = i;
        match c {
            b'(' => {
                toks.push((T::L, line));
                i += 1
            }
            b')' => {
                toks.push((T::R, line));
                i += 1
            }
            b'-' => {
                toks.push((T::Dash, line));
                i += 1
            }
            b'=' => {
                toks.push((T::EqT, line));
                i += 1
            }
            b'<' | b'>' => {
                if i + 1 < n && src[i + 1] == b'=' {
                    toks.push((T::OtherOp, line));
                    i += 2;
                } else {
                    toks.push((if c == b'<' { T::Lt } else { T::OtherOp }, line));
                    i += 1
                }
            }
            b'0'..=b'9' => {
                let mut j = i;
                let mut dot = false;
                while j < n && (src[j].is_ascii_digit() || (src[j] == b'.' && !dot)) {
                    dot |= src[j] == b'.';
                    j += 1;
                }
                let s = std::str::from_utf8(&src[i..j]).unwrap();
                let t = if j < n && !delim(src[j]) {
                    T::Unspec // glued to something else
                } else if dot {
                    match s.parse::<f64>() {
                        Ok(x) if x.is_finite() && !s.ends_with('.') => T::N(Num::Real(x)),
                        _ => T::Unspec,
                    }
                } else {
                    match s.parse::<i64>() {
                        Ok(x) => T::N(Num::Int(x)),
                        Err(_) => T::Unspec,
                    }
                };
                toks.push((t, line));
                i = j;
            }
            _ => {
                let start = if c == b'?' || c == b':' { i + 1 } else { i };
                let j = lexeme(start);
                let w = &src[start..j];
                let ok = |w: &[u8]| w.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-');
                let non_ascii = w.iter().any(|c| *c >= 128) || c >= 128;
                let t = if non_ascii {
                    // letters beyond ASCII are not specified; other bytes are certainly wrong
                    if w.iter().all(|c| *c >= 128 || c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-') {
                        T::Unspec
                    } else {
                        T::Bad
                    }
                } else if !ok(w) {
                    T::Bad
                } else {
                    let s = std::str::from_utf8(w).unwrap();
                    if c == b'?' {
                        if s.is_empty() {
                            T::Unspec
                        } else {
                            T::Id(s.to_string(), true)
                        }
                    } else if c == b':' {
                        if let Some(r) = REQS.iter().position(|x| &x.0[1..] == s) {
                            T::Req(r)
                        } else if let Some(k) = KW.iter().find(|x| x.0 == s) {
                            T::Kw(k.1, true)
                        } else if s == "problem" {
                            T::Kw("problem", true)
                        } else {
                            T::Bad
                        }
                    } else if s == "define" || s == "domain" || s == "problem" {
                        T::Kw(if s == "define" { "define" } else if s == "domain" { "domain" } else { "problem" }, false)
                    } else if let Some(o) = OPS.iter().find(|x| **x == s) {
                        if *o == "imply" {
                            T::Unspec
                        } else {
                            T::Op(o)
                        }
                    } else {
                        T::Id(s.to_string(), false)
                    }
                };
                toks.push((t, line));
                i = j;
            }
        }
        spans.push((start_of, i));
    }
    Lexed { toks, spans, last_line: line }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Dom(Domain),
    Prob(Problem),
    // first offending token: its line (a range if it is the end of the document)
    Reject(u32, u32),
    Unspec,
}

struct P<'a> {
    l: &'a Lexed,
    i: usize,
    unspec: bool,
}

// Err: rejected at (lines)
type R<X> = Result<X, (u32, u32)>;

pub fn parse(src: &[u8]) -> Verdict {
    let l = lex(src);
    let mut p = P { l: &l, i: 0, unspec: false };
    let r = p.document();
    if p.unspec {
        return Verdict::Unspec;
    }
    match r {
        Ok(Ok(d)) => Verdict::Dom(d),
        Ok(Err(p)) => Verdict::Prob(p),
        Err((a, b)) => Verdict::Reject(a, b),
    }
}

impl<'a> P<'a> {
    fn peek(&mut self) -> &'a T {
        match self.l.toks.get(self.i) {
            Some((t, _)) => {
                if *t == T::Unspec {
                    self.unspec = true;
                }
                t
            }
            None => &T::Eof,
        }
    }
    fn next(&mut self) -> &'a T {
        let t = self.peek();
        self.i += 1;
        t
    }
    // line of the token read last
    fn line(&self) -> u32 {
        self.l.toks[self.i - 1].1
    }
    // the token at the cursor is wrong
    fn bad_next<X>(&self) -> R<X> {
        self.bad_at(self.i)
    }
    // the token read last is wrong
    fn bad<X>(&self) -> R<X> {
        self.bad_at(self.i - 1)
    }
    fn bad_at<X>(&self, i: usize) -> R<X> {
        match self.l.toks.get(i) {
            Some((_, l)) => Err((*l, *l)),
            None => Err((self.l.toks.last().map(|x| x.1).unwrap_or(1), self.l.last_line)),
        }
    }
    fn expect(&mut self, t: T) -> R<()> {
        if *self.next() == t {
            Ok(())
        } else {
            self.bad()
        }
    }
    fn kw(&mut self, k: &'static str) -> R<()> {
        match self.next() {
            T::Kw(x, _) if *x == k => Ok(()),
            _ => self.bad(),
        }
    }
    // a name that is not a variable
    fn name(&mut self) -> R<(String, u32)> {
        match self.next() {
            T::Id(s, var) => {
                self.unspec |= *var;
                Ok((s.clone(), self.line()))
            }
            _ => self.bad(),
        }
    }
    fn term(&mut self) -> R<Sym> {
        match self.next() {
            T::Id(s, var) => Ok(Sym { name: s.clone(), line: self.line(), ty: None, var: *var }),
            _ => self.bad(),
        }
    }

    // a list up to ')'; `vars`: Some(true) only variables, Some(false) only names, None both
    fn list(&mut self, typed: bool, vars: Option<bool>) -> R<Vec<Sym>> {
        let mut out: Vec<Sym> = vec![];
        let mut pending: Vec<Sym> = vec![];
        loop {
            match self.next() {
                T::Id(s, var) => {
                    if let Some(v) = vars {
                        self.unspec |= v != *var;
                    }
                    pending.push(Sym { name: s.clone(), line: self.line(), ty: None, var: *var });
                }
                T::Dash => {
                    if !typed || pending.is_empty() {
                        self.unspec = true;
                    }
                    let (t, l) = self.name()?;
                    for mut s in pending.drain(..) {
                        s.ty = Some((t.clone(), l));
                        out.push(s);
                    }
                }
                T::R => {
                    out.extend(pending);
                    return Ok(out);
                }
                _ => return self.bad(),
            }
        }
    }

    fn document(&mut self) -> R<Result<Domain, Problem>> {
        self.expect(T::L)?;
        self.kw("define")?;
        self.expect(T::L)?;
        let r = match self.next() {
            T::Kw("domain", colon) => {
                self.unspec |= *colon;
                let (name, _) = self.name()?;
                self.expect(T::R)?;
                Ok(self.domain(name)?)
            }
            T::Kw("problem", colon) => {
                self.unspec |= *colon;
                let (name, _) = self.name()?;
                self.expect(T::R)?;
                self.expect(T::L)?;
                match self.next() {
                    T::Kw("domain", colon) => self.unspec |= !*colon,
                    _ => return self.bad(),
                }
                let (domain, _) = self.name()?;
                self.expect(T::R)?;
                Err(self.problem(name, domain)?)
            }
            _ => return self.bad(),
        };
        loop {
            match self.next() {
                T::Eof => return Ok(r),
                T::R => self.unspec = true, // surplus parentheses at the end
                _ => return self.bad(),
            }
        }
    }

    fn reqs(&mut self) -> R<Vec<usize>> {
        let mut out = vec![];
        loop {
            match self.next() {
                T::Req(r) => out.push(*r),
                T::R => return Ok(out),
                _ => return self.bad(),
            }
        }
    }

    fn preds(&mut self, decl: bool) -> R<Vec<Pred>> {
        let mut out = vec![];
        loop {
            match self.next() {
                T::L => {
                    let (name, line) = self.name()?;
                    let args = self.list(decl, Some(decl))?;
                    out.push(Pred { name, line, args });
                }
                T::R => return Ok(out),
                _ => return self.bad(),
            }
        }
    }

    fn header(&mut self) -> R<(String, u32, Vec<Sym>)> {
        let (name, line) = self.name()?;
        self.kw("parameters")?;
        self.expect(T::L)?;
        let params = self.list(true, Some(true))?;
        Ok((name, line, params))
    }

    fn domain(&mut self, name: String) -> R<Domain> {
        let mut d = Domain { name, ..Default::default() };
        loop {
            match self.next() {
                T::L => {}
                T::R => return Ok(d),
                _ => return self.bad(),
            }
            match self.next() {
                T::Kw("predicates", _) => d.preds.extend(self.preds(true)?),
                T::Kw("functions", _) => d.funcs.extend(self.preds(true)?),
                T::Kw("requirements", _) => d.reqs.extend(self.reqs()?),
                T::Kw("types", _) => d.types.extend(self.list(true, Some(false))?),
                T::Kw("constants", _) => d.consts.extend(self.list(true, Some(false))?),
                T::Kw("task", _) => {
                    let (name, line, params) = self.header()?;
                    self.expect(T::R)?;
                    d.tasks.push(Task { name, line, params });
                }
                T::Kw("action", _) => {
                    let (name, line, params) = self.header()?;
                    let mut a = Action { name, line, params, pre: None, eff: None };
                    if let T::Kw("precondition", _) = self.peek() {
                        self.next();
                        a.pre = Some(self.formula()?);
                    }
                    if let T::Kw("effect", _) = self.peek() {
                        self.next();
                        a.eff = Some(self.formula()?);
                    }
                    self.expect(T::R)?;
                    d.actions.push(a);
                }
                T::Kw("method", _) => {
                    let (name, line, params) = self.header()?;
                    self.kw("task")?;
                    self.expect(T::L)?;
                    let (t, tl) = self.name()?;
                    let terms = self.list(false, None)?;
                    let mut pre = None;
                    match self.peek() {
                        T::Kw("precondition", _) => {
                            self.next();
                            pre = Some(self.formula()?);
                        }
                        T::Kw("subtasks", _) | T::Kw("ordered-subtasks", _) => {}
                        _ => return self.bad_next(),
                    }
                    let tn = self.tn()?;
                    d.methods.push(Method {
                        name: Sym { name, line, ty: None, var: false },
                        task: Sym { name: t, line: tl, ty: None, var: false },
                        terms,
                        params,
                        pre,
                        tn,
                    });
                }
                _ => return self.bad(),
            }
        }
    }

    fn problem(&mut self, name: String, domain: String) -> R<Problem> {
        let mut p = Problem { name, domain, ..Default::default() };
        let mut seen_init = false;
        loop {
            match self.next() {
                T::L => {}
                T::R => return Ok(p),
                T::Eof => {
                    self.unspec = true; // the last parenthesis is missing
                    return Ok(p);
                }
                _ => return self.bad(),
            }
            match self.next() {
                T::Kw("requirements", _) => p.reqs.extend(self.reqs()?),
                T::Kw("objects", _) => p.objects.extend(self.list(true, Some(false))?),
                T::Kw("init", _) => {
                    self.unspec |= seen_init;
                    seen_init = true;
                    p.init = self.preds(false)?;
                }
                T::Kw("goal", _) => {
                    self.unspec |= p.goal.is_some();
                    p.goal = Some(if *self.peek() == T::R { F::Empty } else { self.formula()? });
                    self.expect(T::R)?;
                }
                T::Kw("htn", _) => {
                    self.unspec |= p.htn.is_some();
                    let mut params = None;
                    match self.peek() {
                        T::Kw("parameters", _) => {
                            self.next();
                            self.expect(T::L)?;
                            params = Some(self.list(true, Some(true))?);
                        }
                        T::Kw("subtasks", _) | T::Kw("ordered-subtasks", _) | T::R => {}
                        _ => return self.bad_next(),
                    }
                    let tn = self.tn()?;
                    p.htn = Some((params, tn));
                }
                _ => return self.bad(),
            }
        }
    }

    // a task network up to, and including, the ')' of what contains it
    fn tn(&mut self) -> R<Tn> {
        let mut t = Tn::empty();
        match self.next() {
            T::R => return Ok(t),
            T::Kw("subtasks", _) => {
                t.subtasks = self.subtasks()?;
                let mut ords = vec![];
                loop {
                    match self.next() {
                        T::Kw("ordering", _) => {
                            self.unspec |= t.ordering.is_some();
                            t.ordering = Some(self.line());
                            self.expect(T::L)?;
                            match self.next() {
                                T::R => {}
                                T::Lt => self.ordering(&mut ords)?,
                                T::Op("and") => loop {
                                    match self.next() {
                                        T::R => break,
                                        T::L => {
                                            self.expect(T::Lt)?;
                                            self.ordering(&mut ords)?;
                                        }
                                        _ => return self.bad(),
                                    }
                                },
                                _ => return self.bad(),
                            }
                        }
                        T::Kw("constraints", _) => {
                            self.unspec |= t.cons.is_some();
                            t.cons = Some(self.constraints()?);
                        }
                        T::R => {
                            t.ords = Ords::Partial(ords);
                            return Ok(t);
                        }
                        _ => return self.bad(),
                    }
                }
            }
            T::Kw("ordered-subtasks", _) => {
                t.ords = Ords::Total;
                t.subtasks = self.subtasks()?;
                match self.next() {
                    T::R => return Ok(t),
                    T::Kw("constraints", _) => {
                        t.cons = Some(self.constraints()?);
                        self.expect(T::R)?;
                        return Ok(t);
                    }
                    _ => return self.bad(),
                }
            }
            _ => return self.bad(),
        }
    }

    // what follows '<'
    fn ordering(&mut self, ords: &mut Vec<(String, String)>) -> R<()> {
        let (a, _) = self.name()?;
        let mut n = 0;
        loop {
            match self.next() {
                T::Id(b, var) => {
                    self.unspec |= *var;
                    ords.push((a.clone(), b.clone()));
                    n += 1;
                }
                T::R => {
                    self.unspec |= n == 0;
                    return Ok(());
                }
                _ => return self.bad(),
            }
        }
    }

    fn subtasks(&mut self) -> R<Vec<Sub>> {
        self.expect(T::L)?;
        match self.peek() {
            T::R => {
                self.next();
                Ok(vec![])
            }
            T::Id(_, _) => Ok(vec![self.subtask()?]),
            T::Op("and") => {
                self.next();
                let mut out = vec![];
                loop {
                    match self.next() {
                        T::R => return Ok(out),
                        T::L => out.push(self.subtask()?),
                        _ => return self.bad(),
                    }
                }
            }
            _ => self.bad_next(),
        }
    }

    // after '('
    fn subtask(&mut self) -> R<Sub> {
        let (name, line) = self.name()?;
        let first = Sym { name, line, ty: None, var: false };
        if *self.peek() == T::L {
            self.next();
            let (name, line) = self.name()?;
            let task = Sym { name, line, ty: None, var: false };
            let terms = self.terms()?;
            self.expect(T::R)?;
            Ok(Sub { id: Some(first), task, terms })
        } else {
            let terms = self.terms()?;
            Ok(Sub { id: None, task: first, terms })
        }
    }

    // terms without types, up to ')'
    fn terms(&mut self) -> R<Vec<Sym>> {
        let mut out = vec![];
        loop {
            match self.peek() {
                T::R => {
                    self.next();
                    return Ok(out);
                }
                _ => out.push(self.term()?),
            }
        }
    }

    fn constraints(&mut self) -> R<Vec<Con>> {
        self.expect(T::L)?;
        match self.peek() {
            T::R => {
                self.next();
                Ok(vec![])
            }
            T::Op("and") => {
                self.next();
                let mut out = vec![];
                loop {
                    match self.next() {
                        T::R => return Ok(out),
                        T::L => out.push(self.constraint()?),
                        _ => return self.bad(),
                    }
                }
            }
            T::Op("not") | T::EqT => Ok(vec![self.constraint()?]),
            _ => self.bad_next(),
        }
    }

    fn equality(&mut self) -> R<(Term, Term)> {
        let a = self.term()?;
        let b = self.term()?;
        self.expect(T::R)?;
        Ok(((a.name, a.var), (b.name, b.var)))
    }

    fn constraint(&mut self) -> R<Con> {
        match self.next() {
            T::EqT => {
                let (a, b) = self.equality()?;
                Ok(Con::Eq(a, b))
            }
            T::Op("not") => {
                self.expect(T::L)?;
                self.expect(T::EqT)?;
                let (a, b) = self.equality()?;
                self.expect(T::R)?;
                Ok(Con::Ne(a, b))
            }
            _ => self.bad(),
        }
    }

    fn formula(&mut self) -> R<F> {
        self.expect(T::L)?;
        match self.next() {
            T::R => Ok(F::Empty),
            T::Id(s, var) => {
                self.unspec |= *var || s == "when";
                let line = self.line();
                let args = self.list(false, None)?;
                Ok(F::Atom(Pred { name: s.clone(), line, args }))
            }
            T::EqT => {
                let (a, b) = self.equality()?;
                Ok(F::Eq(a, b))
            }
            T::Op("not") => {
                let f = self.formula()?;
                self.expect(T::R)?;
                Ok(F::Not(Box::new(f)))
            }
            T::Op(op) if *op == "and" || *op == "or" || *op == "oneof" => {
                let mut fs = vec![];
                while *self.peek() != T::R {
                    fs.push(self.formula()?);
                }
                self.next();
                Ok(match *op {
                    "and" => F::And(fs),
                    "or" => F::Or(fs),
                    _ => F::Xor(fs),
                })
            }
            T::Op(op) if *op == "forall" || *op == "exists" => {
                self.expect(T::L)?;
                let vars = self.list(true, Some(true))?;
                let f = Box::new(self.formula()?);
                self.expect(T::R)?;
                Ok(if *op == "forall" { F::ForAll(vars, f) } else { F::Exists(vars, f) })
            }
            T::Op("probabilistic") => {
                let mut bs = vec![];
                loop {
                    match self.next() {
                        T::R => return Ok(F::Prob(bs)),
                        T::N(n) => {
                            let f = self.formula()?;
                            self.unspec |= f == F::Empty;
                            bs.push((n.clone(), f));
                        }
                        _ => return self.bad(),
                    }
                }
            }
            _ => self.bad(),
        }
    }
}
