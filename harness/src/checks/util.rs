// What the checks share: written models, the verdict the reference expects, scrambled models,
// mutations of documents, and the documents that come with the repository.
use crate::ast::*;
use crate::core::*;
use crate::gen::{self, *};
use crate::refp::{self, Verdict};
use crate::render::{self, *};
use crate::rng::Rng;
use crate::semref::{self, *};
use crate::sut::{self, Out, Warn};
use crate::{harness, violated};
use std::collections::{BTreeSet, HashSet};
use std::sync::OnceLock;

// a model and the documents it is written as; lines are those of the documents
pub struct W {
    pub d: Domain,
    pub p: Problem,
    pub dt: Toks,
    pub pt: Toks,
    pub db: Vec<u8>,
    pub pb: Vec<u8>,
}

pub fn read_domain(b: &[u8], want: &Domain) -> Result<Domain, Stop> {
    match refp::parse(b) {
        Verdict::Dom(x) => {
            if let Some(m) = diff(&domain_value(want, false), &domain_value(&x, false), "domain") {
                harness!("the reference parser disagrees with the generator: {}\n{}", m, text(b));
            }
            Ok(x)
        }
        v => harness!("the reference parser rejects a generated domain: {:?}\n{}", v, text(b)),
    }
}

pub fn read_problem(b: &[u8], want: &Problem) -> Result<Problem, Stop> {
    match refp::parse(b) {
        Verdict::Prob(x) => {
            if let Some(m) = diff(&problem_value(want, false), &problem_value(&x, false), "problem") {
                harness!("the reference parser disagrees with the generator: {}\n{}", m, text(b));
            }
            Ok(x)
        }
        v => harness!("the reference parser rejects a generated problem: {:?}\n{}", v, text(b)),
    }
}

pub fn write_as(ctx: &mut Ctx, r: &mut Rng, d: &Domain, p: &Problem, s: Style, dl: render::Layout, pl: render::Layout) -> Result<W, Stop> {
    let dt = Writer::new(r, s).domain(d);
    let pt = Writer::new(r, s).problem(p);
    let db = layout(r, &dt, dl);
    let pb = layout(r, &pt, pl);
    ctx.doc("domain.hddl", &db);
    ctx.doc("problem.hddl", &pb);
    let d = read_domain(&db, d)?;
    let p = read_problem(&pb, p)?;
    measure(ctx, &d, &p);
    Ok(W { d, p, dt, pt, db, pb })
}

pub fn write(ctx: &mut Ctx, r: &mut Rng, d: &Domain, p: &Problem) -> Result<W, Stop> {
    let s = if r.chance(3, 4) { Style::Varied } else { Style::Conventional };
    let (dl, pl) = (any_layout(r), any_layout(r));
    write_as(ctx, r, d, p, s, dl, pl)
}

// one token per line, so that lines tell tokens apart
pub fn write_apart(ctx: &mut Ctx, r: &mut Rng, d: &Domain, p: &Problem) -> Result<W, Stop> {
    if r.chance(1, 3) {
        return write(ctx, r, d, p);
    }
    let l = if r.chance(1, 60) { render::Layout::Tall } else { render::Layout::TokenPerLine };
    write_as(ctx, r, d, p, Style::Varied, l, l)
}

// how large what was written is
fn measure(ctx: &mut Ctx, d: &Domain, p: &Problem) {
    fn depth(f: &F) -> u64 {
        1 + match f {
            F::Not(x) | F::ForAll(_, x) | F::Exists(_, x) => depth(x),
            F::And(xs) | F::Or(xs) | F::Xor(xs) => xs.iter().map(depth).max().unwrap_or(0),
            F::Prob(xs) => xs.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn width(f: &F) -> u64 {
        match f {
            F::Not(x) => width(x),
            F::ForAll(v, x) | F::Exists(v, x) => width(x).max(v.len() as u64),
            F::And(xs) | F::Or(xs) | F::Xor(xs) => xs.iter().map(width).max().unwrap_or(0).max(xs.len() as u64),
            F::Prob(xs) => xs.iter().map(|x| width(&x.1)).max().unwrap_or(0).max(xs.len() as u64),
            F::Atom(a) => a.args.len() as u64,
            _ => 0,
        }
    }
    let mut m = |k: &str, n: usize| ctx.max(k, n as u64);
    m("types", d.types.len());
    m("constants", d.consts.len());
    m("predicates", d.preds.len());
    m("functions", d.funcs.len());
    m("tasks", d.tasks.len());
    m("actions", d.actions.len());
    m("methods", d.methods.len());
    m("requirements", d.reqs.len().max(p.reqs.len()));
    m("objects", p.objects.len());
    m("facts", p.init.len());
    m("parameters of a predicate", d.preds.iter().map(|x| x.args.len()).max().unwrap_or(0));
    m("parameters of a task", d.tasks.iter().map(|x| x.params.len()).max().unwrap_or(0));
    m("parameters of an action", d.actions.iter().map(|x| x.params.len()).max().unwrap_or(0));
    m("parameters of a method", d.methods.iter().map(|x| x.params.len()).max().unwrap_or(0));
    let tns = || d.methods.iter().map(|x| &x.tn).chain(p.htn.iter().map(|x| &x.1));
    m("subtasks", tns().map(|x| x.subtasks.len()).max().unwrap_or(0));
    m("orderings", tns().map(|x| if let Ords::Partial(o) = &x.ords { o.len() } else { 0 }).max().unwrap_or(0));
    m("constraints", tns().map(|x| x.cons.as_ref().map(|c| c.len()).unwrap_or(0)).max().unwrap_or(0));
    let fs = || d.actions.iter().flat_map(|a| a.pre.iter().chain(&a.eff)).chain(d.methods.iter().flat_map(|m| &m.pre)).chain(&p.goal);
    m("depth of a formula", fs().map(depth).max().unwrap_or(0) as usize);
    m("width of a formula", fs().map(width).max().unwrap_or(0) as usize);
    m("length of a name", d.preds.iter().map(|x| x.name.len()).chain(d.types.iter().map(|x| x.name.len())).max().unwrap_or(0));
}

pub fn model(r: &mut Rng) -> (Domain, Problem) {
    let o = any_opts(r);
    consistent(r, o)
}

// many declarations of everything
pub fn big_model(r: &mut Rng) -> (Domain, Problem) {
    let mut o = any_opts(r);
    o.n = *r.pick(&[120, 270, 400]);
    o.arity = r.range(1, 3);
    o.net = r.range(2, 6);
    o.depth = 2;
    if o.style == NameStyle::Long {
        o.style = NameStyle::Plain;
    }
    consistent(r, o)
}

pub fn some_model(r: &mut Rng) -> (Domain, Problem) {
    if r.chance(1, 250) {
        big_model(r)
    } else {
        model(r)
    }
}

// ---------------------------------------------------------------- what is expected of verification

#[derive(Clone, Debug)]
pub enum Expect {
    Fail(BTreeSet<Finding>),
    FailSomehow, // an error is due, but which one is not specified
    Pass(BTreeSet<Warn>),
    PassUnknown, // no error; the warnings are not specified
    Unspec,
}

pub fn expect_domain(d: &Domain) -> Expect {
    let f = domain_flaws(d);
    if f.must {
        return if f.unspec { Expect::FailSomehow } else { Expect::Fail(f.all) };
    }
    if f.unspec {
        return Expect::Unspec;
    }
    match Tdg::new(d) {
        Some(t) => Expect::Pass(warnings(d, &t)),
        None => Expect::PassUnknown,
    }
}

pub fn expect(d: &Domain, p: &Problem) -> Expect {
    match expect_domain(d) {
        Expect::Pass(w) => {
            let f = problem_flaws(d, p);
            match (f.must, f.unspec) {
                (true, true) => Expect::FailSomehow,
                (true, false) => Expect::Fail(f.all),
                (false, true) => Expect::Unspec,
                _ => Expect::Pass(w),
            }
        }
        x => x,
    }
}

pub fn is_parse_error(f: &Finding) -> bool {
    f.kind == "Lexical" || f.kind == "Syntactic"
}

// compares what verification returned with what is expected
pub fn judge(what: &str, out: &Out<Vec<Warn>>, e: &Expect, check_warnings: bool) -> Res {
    match (out, e) {
        (Out::Crash(m), _) => violated!("{}: {}", what, m),
        (Out::Err(x), _) if is_parse_error(&x.f) => violated!("{}: a grammatical document is rejected: {}", what, x),
        (_, Expect::Unspec) => Ok(()),
        (Out::Err(_), Expect::FailSomehow) => Ok(()),
        (Out::Ok(w), Expect::FailSomehow) => violated!("{}: an error is due, but the result is Ok({:?})", what, w),
        (Out::Ok(w), Expect::Fail(fs)) => violated!("{}: accepted ({:?}), but {:?} is due", what, w, fs),
        (Out::Err(x), Expect::Fail(fs)) => {
            if fs.contains(&x.f) {
                Ok(())
            } else {
                violated!("{}: reported {}, but the flaws are {:?}", what, x, fs)
            }
        }
        (Out::Err(x), Expect::Pass(_) | Expect::PassUnknown) => violated!("{}: a consistent model is rejected: {}", what, x),
        (Out::Ok(_), Expect::PassUnknown) => Ok(()),
        (Out::Ok(w), Expect::Pass(ws)) => {
            if !check_warnings {
                return Ok(());
            }
            let set: BTreeSet<Warn> = w.iter().cloned().collect();
            if set.len() != w.len() || &set != ws {
                violated!("{}: warnings {:?}, but {:?} are due", what, w, ws)
            }
            Ok(())
        }
    }
}

// counts what was expected, for the evidence
pub fn saw_expect(ctx: &mut Ctx, side: &str, e: &Expect) {
    match e {
        Expect::Fail(fs) => {
            let kinds: BTreeSet<&str> = fs.iter().map(|f| f.kind.as_str()).collect();
            if fs.len() == 1 {
                ctx.saw(&format!("single flaw in the {}: {}", side, kinds.iter().next().unwrap()));
            } else {
                ctx.saw("several flaws");
            }
        }
        Expect::FailSomehow => ctx.saw("error due, kind not specified"),
        Expect::Pass(w) if w.is_empty() => ctx.saw("accepted without warnings"),
        Expect::Pass(_) => ctx.saw("accepted with warnings"),
        Expect::PassUnknown | Expect::Unspec => ctx.saw("not specified"),
    }
}

// verifies the domain alone and with the problem against the reference
pub fn verify_both(ctx: &mut Ctx, w: &W, check_warnings: bool) -> Result<(Expect, Expect), Stop> {
    let ed = expect_domain(&w.d);
    judge("domain alone", &sut::verify(&w.db, None), &ed, check_warnings)?;
    let ep = expect(&w.d, &w.p);
    judge("domain and problem", &sut::verify(&w.db, Some(&w.pb)), &ep, check_warnings)?;
    if let Expect::Fail(_) | Expect::FailSomehow = ed {
        saw_expect(ctx, "domain", &ed);
    } else {
        saw_expect(ctx, "problem", &ep);
    }
    Ok((ed, ep))
}

// ---------------------------------------------------------------- scrambled models

// arbitrary semantic damage (the model stays grammatical)
pub fn scramble(r: &mut Rng, d: &mut Domain, p: &mut Problem, n: usize) {
    for _ in 0..n {
        match r.below(10) {
            0 | 1 => super::flaws::duplicate(r, d, p),
            2 | 3 | 4 => super::flaws::undefine(r, d, p),
            5 => super::flaws::change_arity(r, d, p),
            6 | 7 => super::flaws::change_types(r, d, p),
            8 => super::flaws::cycle_types(r, d),
            _ => super::flaws::cycle_orderings(r, d, p),
        }
    }
}

// ---------------------------------------------------------------- mutations of documents

pub const VOCAB: [&str; 60] = [
    "(", ")", "(", ")", "-", "<", "=", ">", "<=", ">=", "define", "domain", "problem", ":domain", ":problem", ":requirements", ":types",
    ":constants", ":predicates", ":functions", ":task", ":method", ":action", ":parameters", ":precondition",
    ":effect", ":subtasks", ":tasks", ":ordered-subtasks", ":ordered-tasks", ":ordering", ":order", ":constraints",
    ":objects", ":init", ":goal", ":htn", "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic", "when",
    "x", "?x", "a-b", "t1", "0.5", "7", ":typing", ":hierarchy", ":unknown", "a!b", ":", "?", "%", "1.",
];

pub fn mutate_tokens(r: &mut Rng, t: &mut Toks, n: usize) {
    for _ in 0..n {
        if t.is_empty() {
            return;
        }
        let i = r.below(t.len());
        match r.below(9) {
            0 | 1 => {
                t.remove(i);
            }
            2 | 3 => t.insert(i, r.pick(&VOCAB).to_string()),
            4 => t[i] = r.pick(&VOCAB).to_string(),
            5 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            6 => {
                let j = r.below(t.len());
                t.swap(i, j);
            }
            7 => {
                // a parenthesis
                let k: Vec<usize> = (0..t.len()).filter(|j| t[*j] == "(" || t[*j] == ")").collect();
                if !k.is_empty() {
                    let j = *r.pick(&k);
                    if r.chance(1, 2) {
                        t.remove(j);
                    } else {
                        let x = t[j].clone();
                        t.insert(j, x);
                    }
                }
            }
            _ => {
                // a range: removed, repeated or moved
                let j = (i + r.range(1, 12)).min(t.len());
                let x: Vec<String> = t[i..j].to_vec();
                match r.below(3) {
                    0 => {
                        t.drain(i..j);
                    }
                    1 => {
                        t.splice(i..i, x);
                    }
                    _ => {
                        t.drain(i..j);
                        let k = r.below(t.len() + 1);
                        t.splice(k..k, x);
                    }
                }
            }
        }
    }
}

pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    const CHARS: &[u8] = b"()?:-;=<>_ \t\n\r\"'!.,0123456789azAZ\x00\x80\xff\xc3\xe2\x1b{}|#@";
    for _ in 0..n {
        if b.is_empty() {
            b.push(*r.pick(CHARS));
            continue;
        }
        let i = r.below(b.len());
        match r.below(9) {
            0 | 1 => {
                b.remove(i);
            }
            2 => b.insert(i, *r.pick(CHARS)),
            3 => b[i] = *r.pick(CHARS),
            4 => b[i] ^= 1 << r.below(8),
            5 => b[i] = r.below(256) as u8,
            6 => {
                let j = (i + r.range(1, 40)).min(b.len());
                b.drain(i..j);
            }
            7 => {
                let j = (i + r.range(1, 40)).min(b.len());
                let x = b[i..j].to_vec();
                let k = r.below(b.len() + 1);
                b.splice(k..k, x);
            }
            _ => {
                let x: &[u8] = r.pick(&[
                    &b"\xc3\xa9"[..], b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"\xf0\x9f\x98\x80", b"\xff\xfe", b"\xc0\x80", b"\xed\xa0\x80", b"((((", b"))))", b"99999999999999999999", b"1.2.3", b"::", b"??", b";;", b"--",
                ]);
                b.splice(i..i, x.iter().cloned());
            }
        }
    }
}

// splits any document into its tokens
pub fn split(b: &[u8]) -> Option<Toks> {
    let l = refp::lex(b);
    l.spans.iter().map(|(i, j)| String::from_utf8(b[*i..*j].to_vec()).ok()).collect()
}

// ---------------------------------------------------------------- documents of the repository

pub struct Corpus {
    pub pairs: Vec<(Vec<u8>, Vec<Vec<u8>>, String)>, // domain, problems, folder
    pub flawed: Vec<Vec<u8>>,
}

// all documents up to the given size
fn load(max: u64) -> Corpus {
    let mut c = Corpus { pairs: vec![], flawed: vec![] };
    let read = |p: &std::path::Path| -> Option<Vec<u8>> {
        if std::fs::metadata(p).ok()?.len() > max {
            return None;
        }
        std::fs::read(p).ok()
    };
    let list = |p: &str| -> Vec<std::path::PathBuf> {
        let mut v: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
        v.sort();
        v
    };
    for dir in list("/repo/tests/ipc") {
        let mut dom = None;
        let mut probs = vec![];
        for f in list(&dir.to_string_lossy()) {
            if let Some(b) = read(&f) {
                match refp::parse(&b) {
                    Verdict::Dom(_) => dom = Some(b),
                    Verdict::Prob(_) => probs.push(b),
                    _ => {}
                }
            }
        }
        if let Some(d) = dom {
            c.pairs.push((d, probs, dir.file_name().unwrap().to_string_lossy().to_string()));
        }
    }
    for f in list("/repo/tests/flawed_domains") {
        c.flawed.extend(read(&f));
    }
    c
}

pub fn corpus(thorough: bool) -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| load(if thorough { 1 << 30 } else { 40_000 }))
}

// a document from anywhere: (domain, problem)
pub fn any_documents(ctx: &Ctx, r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let c = corpus(ctx.thorough);
    if !c.pairs.is_empty() && r.chance(1, 12) {
        let (d, ps, _) = r.pick(&c.pairs);
        let p = if ps.is_empty() { b"(define (problem p) (:domain d))".to_vec() } else { r.pick(ps).clone() };
        if d.len() + p.len() < 12_000 {
            return (d.clone(), p);
        }
    }
    if !c.flawed.is_empty() && r.chance(1, 20) {
        return (r.pick(&c.flawed).clone(), b"(define (problem p) (:domain d))".to_vec());
    }
    let (mut d, mut p) = if r.chance(1, 3) { (gen::tdg_domain(r), Problem { name: "p".into(), domain: "d".into(), ..Default::default() }) } else { model(r) };
    if r.chance(1, 3) {
        let n = r.range(1, 4);
        scramble(r, &mut d, &mut p, n);
    }
    let dt = Writer::new(r, Style::Varied).domain(&d);
    let pt = Writer::new(r, Style::Varied).problem(&p);
    let (dl, pl) = (any_layout(r), any_layout(r));
    let (mut d, mut p) = (layout(r, &dt, dl), layout(r, &pt, pl));
    if r.chance(1, 12) {
        dress(r, &mut d);
    }
    if r.chance(1, 12) {
        dress(r, &mut p);
    }
    (d, p)
}

// what editors and other tools put before or after the text, and other encodings
pub fn dress(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(12) {
        0 | 1 => {
            b.splice(0..0, b"\xef\xbb\xbf".iter().cloned());
        }
        2 => *b = b"\xff\xfe".iter().cloned().chain(b.iter().flat_map(|x| [*x, 0])).collect(),
        3 => b.extend_from_slice(b"\x1a"),
        4 => b.extend_from_slice(b"\0\0\0"),
        5 => {
            b.splice(0..0, b"#!/usr/bin/env hddl\n".iter().cloned());
        }
        6 => b.extend_from_slice(b"\n; caf\xe9"),
        7 => {
            b.splice(0..0, b"; caf\xe9 \xff\n".iter().cloned());
        }
        8 => {
            b.splice(0..0, b"  \r\n\t\n".iter().cloned());
        }
        9 => b.extend_from_slice(b"\n; vim: set ft=hddl :"),
        10 => {
            b.splice(0..0, b"\x0c".iter().cloned());
        }
        _ => {
            b.splice(0..0, b"\xc2\xa0".iter().cloned());
        }
    }
}

// ---------------------------------------------------------------- hand-written documents with every feature

pub const FULL_DOMAIN: &str = "(define (domain full)
 (:requirements :typing :strips :negative-preconditions :hierarchy :equality :method-preconditions :universal-preconditions)
 (:types a b - c c d - object e)
 (:constants k1 k2 - a k3 - c k4)
 (:predicates (p ?x - a ?y ?z - c) (q ?x) (r))
 (:functions (cost ?x - a) (total))
 (:task t1 :parameters (?x - a ?y - c))
 (:task t2 :parameters ())
 (:action act :parameters (?x - a ?y - c ?z)
  :precondition (and (p ?x ?y ?y) (not (q ?z)) (or (r) (= ?x ?y)) (oneof (r)) ())
  :effect (and (forall (?v - a) (p ?v ?y ?y)) (exists (?w) (q ?w)) (probabilistic 0.25 (r) 3 (not (r)))))
 (:action noop :parameters ())
 (:action half :parameters (?x - a) :effect (q k4))
 (:method m1 :parameters (?x - a ?y - c) :task (t1 ?x ?y)
  :precondition (and (p ?x ?y k1))
  :ordered-subtasks (and (i1 (act ?x ?y k4)) (t2) (noop))
  :constraints (and (not (= ?x ?y)) (= ?y k3)))
 (:method m2 :parameters (?x - a) :task (t1 ?x k3)
  :subtasks (and (i1 (t2)) (i2 (half ?x)) (i3 (noop)))
  :ordering (and (< i1 i2) (< i2 i3))
  :constraints (= ?x k1))
 (:method m3 :parameters () :task (t2) :subtasks ())
 (:method m4 :parameters () :task (t2) :precondition ())
 (:method m5 :parameters () :task (t2) :tasks (noop) :order () :constraints ())
 (:method m6 :parameters () :task (t2) :ordered-tasks (i (noop)))
 (:method m7 :parameters () :task (t2) :subtasks (and (x (noop)) (y (noop))) :ordering (< x y))
)";

pub const FULL_PROBLEM: &str = "(define (problem full-1)
 (:domain full)
 (:requirements :typing)
 (:objects o1 o2 - a o3 - c o4)
 (:htn :parameters (?v - a)
  :subtasks (and (i1 (t1 ?v o3)) (i2 (t2)) (t2))
  :ordering (and (< i1 i2))
  :constraints (and (not (= ?v o1))))
 (:init (p o1 o3 o3) (q o4) (r))
 (:goal (and (p o1 o3 k1) (forall (?x) (q ?x)) (not (r))))
)";

pub const SMALL_PROBLEMS: [&str; 4] = [
    "(define (problem p) (:domain full) (:objects) (:init) (:htn :ordered-subtasks (t2)) (:goal))",
    "(define (problem p) (:domain full) (:htn) (:init (r)) (:goal ()))",
    "(define (problem p) (:domain full) (:htn :parameters () :tasks () :ordering ()) (:goal (r)))",
    "(define (problem p) (:domain full))",
];

pub fn names_of(d: &Domain, p: &Problem) -> HashSet<String> {
    let (mut d, mut p) = (d.clone(), p.clone());
    let mut all = HashSet::new();
    gen::visit_domain(&mut d, &mut |_, s| {
        all.insert(s.clone());
    });
    gen::visit_problem(&mut p, &mut |_, s| {
        all.insert(s.clone());
    });
    all
}

pub fn reference_tdg(d: &Domain) -> Option<semref::Tdg> {
    Tdg::new(d)
}
