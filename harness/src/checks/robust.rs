// C01: every analysis ends with a value. C06: what is not HDDL is rejected where it goes wrong.
use super::util::*;
use crate::ast::*;
use crate::core::*;
use crate::gen;
use crate::refp::{self, Verdict};
use crate::render::{self, *};
use crate::rng::Rng;
use crate::sut::{self, Out};
use crate::violated;
use serde_json::json;

pub static CHECKS: [&Check; 2] = [&C01, &C06];

// ---------------------------------------------------------------- C01

static C01: Check = Check {
    id: "C01",
    rule: "a case is one pair of documents (or a sweep over all truncations of one) given to verify, get_metadata and to_json, \
           monitored for panics, arithmetic overflow, aborts, CPU time (20 s per call) and memory (1.5 GB); made by damaging the bytes, tokens or \
           meaning of generated and real documents, from random bytes and tokens, and from dense graphs, deep nesting and documents that are very long in one direction; \
           non-trivial: not empty; counted by content",
    required: &[
        "bytes damaged", "tokens damaged", "truncations", "random bytes", "random tokens", "scrambled model", "dense graphs",
        "deep nesting", "nesting of thousands of levels", "result", "lexical or syntactic error", "semantic error", "odd encodings",
        "megabytes", "long: comments", "long: blank lines", "long: chain of types", "long: cycle of types", "long: chain of tasks", "long: chain of nullable tasks", "long: cycle of tasks",
        "long: subtasks", "long: chain of orderings", "long: cycle of orderings", "long: conjunction",
    ],
    assumptions: &["documents below 40 MB"],
    cases: |t| if t { 400_000 } else { 48_000 },
    run: c01,
    workers: 8,
};

fn outcome<X>(ctx: &mut Ctx, what: &str, o: Out<X>) -> Res {
    match o {
        Out::Ok(_) => ctx.saw("result"),
        Out::Err(e) => ctx.saw(if is_parse_error(&e.f) { "lexical or syntactic error" } else { "semantic error" }),
        Out::Crash(m) => violated!("{}: {}", what, m),
    }
    Ok(())
}

fn all_views(ctx: &mut Ctx, d: &[u8], p: &[u8]) -> Res {
    outcome(ctx, "verify(domain)", sut::verify(d, None))?;
    outcome(ctx, "verify(domain, problem)", sut::verify(d, Some(p)))?;
    outcome(ctx, "get_metadata", sut::metadata(d, Some(p)))?;
    outcome(ctx, "to_json(domain)", sut::to_json_text(d, None))?;
    outcome(ctx, "to_json(domain, problem)", sut::to_json_text(d, Some(p)))
}

pub fn random_tokens(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = vec![];
    if r.chance(2, 3) {
        b.extend_from_slice(b"(define (domain d) ");
    }
    for _ in 0..n {
        b.extend_from_slice(r.pick(&VOCAB).as_bytes());
        b.push(*r.pick(b"   \n"));
    }
    b
}

// hierarchies, orderings and types with very many paths
pub fn dense(r: &mut Rng) -> (Domain, Problem) {
    let (mut d, p) = gen::consistent(r, gen::any_opts(&mut Rng::new(7)));
    let k = r.range(8, 60);
    match r.below(4) {
        0 => {
            // a ladder of diamonds, or everything below everything
            let full = r.chance(1, 2);
            for i in 0..k {
                for j in 0..i {
                    if full || j + 2 >= i {
                        d.types.push(Sym::plain(&format!("ty{}", i)).typed(Some(&format!("ty{}", j))));
                    }
                }
            }
            // an unrelated type can be told from a supertype only after all paths
            let e = if r.chance(1, 2) { "tyU" } else { "ty0" };
            d.types.push(Sym::plain("tyU"));
            r.shuffle(&mut d.types);
            d.preds.push(Pred { name: "zz".into(), line: 0, args: vec![Sym::var("x").typed(Some(e))] });
            let n = format!("ty{}", k - 1);
            d.actions.push(Action {
                name: "zza".into(),
                line: 0,
                params: vec![Sym::var("x").typed(Some(if r.chance(3, 4) { &n } else { "tyX" }))],
                pre: Some(F::Atom(Pred { name: "zz".into(), line: 0, args: vec![Sym::var("x")] })),
                eff: None,
            });
            if r.chance(1, 3) {
                d.types.push(Sym::plain("ty0").typed(Some(&n)));
            }
        }
        1 => {
            // a dense ordering
            let m = r.range(10, 60);
            let mut t = Tn::empty();
            d.tasks.push(Task { name: "zt".into(), line: 0, params: vec![] });
            let mut o = vec![];
            for i in 0..m {
                t.subtasks.push(Sub { id: Some(Sym::plain(&format!("i{}", i))), task: Sym::plain("zt"), terms: vec![] });
                for j in 0..i {
                    o.push((format!("i{}", j), format!("i{}", i)));
                }
            }
            if r.chance(1, 3) {
                o.push((format!("i{}", m - 1), "i0".to_string()));
            }
            r.shuffle(&mut o);
            t.ordering = Some(0);
            t.ords = Ords::Partial(o);
            d.methods.push(Method {
                name: Sym::plain("zm"),
                task: Sym::plain("zt"),
                terms: vec![],
                params: vec![],
                pre: None,
                tn: t,
            });
        }
        _ => {
            // every task decomposes into every (later) task
            let n = r.range(6, 40);
            let forward = r.chance(1, 2);
            let one = r.chance(1, 2);
            for i in 0..n {
                d.tasks.push(Task { name: format!("zt{}", i), line: 0, params: vec![] });
            }
            for i in 0..n {
                let to: Vec<String> =
                    (if forward { i + 1 } else { 0 }..n).map(|j| format!("zt{}", j)).collect();
                let nets: Vec<Vec<String>> = if one { vec![to] } else { to.into_iter().map(|x| vec![x]).collect() };
                for (k, names) in nets.into_iter().enumerate() {
                    let tn = gen::network(r, &names);
                    d.methods.push(Method {
                        name: Sym::plain(&format!("zm{}-{}", i, k)),
                        task: Sym::plain(&format!("zt{}", i)),
                        terms: vec![],
                        params: vec![],
                        pre: None,
                        tn,
                    });
                }
            }
        }
    }
    (d, p)
}

// nested formulas and parentheses
fn nested(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let n = match r.below(20) {
        0 => r.range(200, 3_000),
        1 => r.range(3_000, 40_000),
        _ => r.range(20, 200),
    };
    let mut f = String::new();
    let mut close = String::new();
    for _ in 0..n {
        match r.below(7) {
            0 => {
                f.push_str("(and ");
                close.push(')');
            }
            1 => {
                f.push_str("(not ");
                close.push(')');
            }
            2 => {
                f.push_str("(forall (?x) ");
                close.push(')');
            }
            3 => {
                f.push_str("(exists (?y - t) ");
                close.push(')');
            }
            4 => {
                f.push_str("(or (p) ");
                close.push(')');
            }
            5 => {
                f.push_str("(oneof () ");
                close.push(')');
            }
            _ => {
                f.push_str("(probabilistic 0.5 ");
                close.push(')');
            }
        }
    }
    f.push_str(r.pick(&["(p)", "()", "(q ?x)", "(= a b)", "", "("]));
    let k = if r.chance(1, 3) { r.below(close.len() + 1) } else { close.len() };
    f.push_str(&close[..k]);
    if r.chance(1, 8) {
        f = "(".repeat(n);
    }
    let place = r.below(4);
    let d = format!(
        "(define (domain d) (:types t) (:predicates (p)) (:task k :parameters ()) (:action a :parameters () :precondition {} :effect {}) (:method m :parameters () :task (k) :precondition {} :subtasks ()))",
        if place == 0 { &f } else { "()" },
        if place == 1 { &f } else { "()" },
        if place == 2 { &f } else { "()" }
    );
    let p = format!("(define (problem x) (:domain d) (:init) (:goal {}))", if place == 3 { &f } else { "()" });
    (d.into_bytes(), p.into_bytes())
}

// documents that are long in one direction
pub fn long(r: &mut Rng) -> (Vec<u8>, Vec<u8>, &'static str) {
    let which = r.below(23);
    let n = *r.pick(&[300usize, 1000, 3000]);
    long_of(which, n)
}

// those whose analysis takes time linear in their length: megabytes
pub fn megabytes(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let which = *r.pick(&[0usize, 1, 2, 4, 7, 8, 15, 17, 18, 19, 20, 21]);
    let (d, p, _) = long_of(which, 200_000);
    (d, p)
}

fn long_of(which: usize, n: usize) -> (Vec<u8>, Vec<u8>, &'static str) {
    let many = n * 30;
    // the analyses of networks and hierarchies are polynomial of a higher degree
    let n = match which {
        10 | 11 | 22 => n.min(600),
        13 | 14 => n.min(200),
        12 => n.min(1000),
        _ => n,
    };
    let every = |f: &dyn Fn(usize) -> String| -> String { (0..n).map(f).collect::<Vec<_>>().join(" ") };
    let dom = |x: String| format!("(define (domain d) {})", x).into_bytes();
    let full = || FULL_DOMAIN.as_bytes().to_vec();
    let small = b"(define (problem p) (:domain d) (:init ) (:goal (and)))".to_vec();
    match which {
        0 => (dom(format!("\n;{}\n", ";\n".repeat(many))), small, "long: comments"),
        1 => ([";;; x\n".repeat(many).into_bytes(), full()].concat(), small, "long: comments"),
        2 => (dom("\n".repeat(many)), small, "long: blank lines"),
        3 => (dom(format!("({} )", format!(":predicates (p{})", "x".repeat(many)))), small, "long: name"),
        4 => (dom(format!("(:types {})", every(&|k| format!("t{}", k)))), small, "long: types"),
        5 => (
            dom(format!(
                "(:types {}) (:predicates (p ?x - t0)) (:action a :parameters (?x - t{}) :precondition (p ?x))",
                every(&|k| format!("t{} - t{}", k + 1, k)),
                n
            )),
            small,
            "long: chain of types",
        ),
        6 => (dom(format!("(:types {} t0 - t{})", every(&|k| format!("t{} - t{}", k + 1, k)), n)), small, "long: cycle of types"),
        7 => (dom(format!("(:constants {})", every(&|k| format!("c{}", k)))), small, "long: constants"),
        8 => (dom(format!("(:predicates {})", every(&|k| format!("(p{} ?x ?y)", k)))), small, "long: predicates"),
        9 => (dom(format!("(:predicates (p {}))", every(&|k| format!("?x{}", k)))), small, "long: parameters"),
        10 => (
            dom(format!(
                "{} {}",
                every(&|k| format!("(:task k{} :parameters ())", k)),
                every(&|k| format!("(:method m{} :parameters () :task (k{}) :ordered-subtasks (k{}))", k, k, if k + 1 < n { k + 1 } else { k }))
            )),
            small,
            "long: chain of tasks",
        ),
        11 => (
            dom(format!(
                "{} {}",
                every(&|k| format!("(:task k{} :parameters ())", k)),
                every(&|k| format!("(:method m{} :parameters () :task (k{}) :ordered-subtasks (k{}))", k, k, (k + 1) % n))
            )),
            small,
            "long: cycle of tasks",
        ),
        12 => (
            dom(format!("(:task k :parameters ()) (:action a :parameters ()) (:method m :parameters () :task (k) :ordered-subtasks (and {}))", every(&|_| "(a)".to_string()))),
            small,
            "long: subtasks",
        ),
        13 => (
            dom(format!(
                "(:task k :parameters ()) (:action a :parameters ()) (:method m :parameters () :task (k) :subtasks (and {}) :ordering (and {}))",
                every(&|k| format!("(i{} (a))", k)),
                every(&|k| format!("(< i{} i{})", k, if k + 1 < n { k + 1 } else { 0 }))
            )),
            small,
            "long: cycle of orderings",
        ),
        14 => (
            dom(format!(
                "(:task k :parameters ()) (:action a :parameters ()) (:method m :parameters () :task (k) :subtasks (and {} (z (a))) :ordering (and {}))",
                every(&|k| format!("(i{} (a))", k)),
                every(&|k| format!("(< i{} {})", k, if k + 1 < n { format!("i{}", k + 1) } else { "z".to_string() }))
            )),
            small,
            "long: chain of orderings",
        ),
        15 => (dom(format!("(:predicates (p)) (:action a :parameters () :precondition (and {}))", every(&|_| "(p)".to_string()))), small, "long: conjunction"),
        16 => (dom(format!("(:requirements {})", every(&|_| ":typing".to_string()))), small, "long: requirements"),
        17 => (dom(every(&|k| format!("(:action a{} :parameters ())", k))), small, "long: actions"),
        18 => (full(), format!("(define (problem p) (:domain d) (:objects {}) (:init))", every(&|k| format!("o{}", k))).into_bytes(), "long: objects"),
        19 => (full(), format!("(define (problem p) (:domain d) (:init {}))", every(&|_| "(p)".to_string())).into_bytes(), "long: init"),
        20 => (full(), format!("(define (problem p) (:domain d) (:init) (:goal (or {})))", every(&|_| "(p)".to_string())).into_bytes(), "long: goal"),
        22 => (
            dom(format!(
                "{} (:method z :parameters () :task (k{}) :ordered-subtasks ()) {}",
                every(&|k| format!("(:task k{} :parameters ())", k)),
                n - 1,
                every(&|k| format!("(:method m{} :parameters () :task (k{}) :ordered-subtasks (and (k{})))", k, k, if k + 1 < n { k + 1 } else { 0 }))
            )),
            small,
            "long: chain of nullable tasks",
        ),
        _ => (full(), [&b"(define (problem p) (:domain d) (:init)\n"[..], ";\n\n;;\n".repeat(many / 2).as_bytes(), b")"].concat(), "long: comments"),
    }
}

fn c01(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (d, p): (Vec<u8>, Vec<u8>) = match i % 16 {
        0..=3 => {
            ctx.saw("bytes damaged");
            let (mut d, mut p) = any_documents(ctx, r);
            let n = r.range(1, 6);
            if r.chance(2, 3) {
                mutate_bytes(r, &mut d, n);
            }
            mutate_bytes(r, &mut p, n);
            (d, p)
        }
        4..=6 => {
            ctx.saw("tokens damaged");
            let (d, p) = any_documents(ctx, r);
            let (mut dt, mut pt) = (split(&d).unwrap_or_default(), split(&p).unwrap_or_default());
            let n = r.range(1, 4);
            if r.chance(2, 3) {
                mutate_tokens(r, &mut dt, n);
            }
            mutate_tokens(r, &mut pt, n);
            let l = any_layout(r);
            (layout(r, &dt, l), layout(r, &pt, l))
        }
        7 => {
            ctx.saw("random bytes");
            let n = r.skewed(400);
            let alphabet: Option<&[u8]> = *r.pick(&[None, Some(&b"()?:-;=<> \n\t\rab01."[..]), Some(&b"();\n "[..])]);
            let mut mk = |r: &mut Rng| -> Vec<u8> {
                (0..n).map(|_| match alphabet { None => r.below(256) as u8, Some(a) => *r.pick(a) }).collect()
            };
            let (mut d, p) = (mk(r), mk(r));
            if r.chance(1, 2) {
                d.splice(0..0, b"(define (domain d)".iter().cloned());
            }
            (d, p)
        }
        8 | 9 => {
            ctx.saw("random tokens");
            let n = r.skewed(200);
            let mut p = random_tokens(r, n);
            if r.chance(1, 2) {
                p.splice(0..0, b"(define (problem p) (:domain d) ".iter().cloned());
            }
            let d = if r.chance(1, 2) { FULL_DOMAIN.as_bytes().to_vec() } else { random_tokens(r, n) };
            (d, p)
        }
        10 | 11 => {
            ctx.saw("scrambled model");
            let (mut d, mut p) = some_model(r);
            let n = r.range(1, 8);
            scramble(r, &mut d, &mut p, n);
            let dt = Writer::new(r, Style::Varied).domain(&d);
            let pt = Writer::new(r, Style::Varied).problem(&p);
            (plain(&dt), plain(&pt))
        }
        12 => {
            if i % 160 == 12 {
                // all truncations of a document
                ctx.saw("truncations");
                let which = r.below(4);
                let (d, p) = match which {
                    0 => (FULL_DOMAIN.as_bytes().to_vec(), FULL_PROBLEM.as_bytes().to_vec()),
                    _ => loop {
                        let (d, p) = any_documents(ctx, r);
                        if d.len() < 4000 && p.len() < 4000 {
                            break (d, p);
                        }
                    },
                };
                for k in 0..=d.len() {
                    let t = &d[..k];
                    ctx.docs.clear();
                    ctx.doc("domain.hddl", t);
                    outcome(ctx, "verify(truncated domain)", sut::verify(t, None))?;
                    outcome(ctx, "get_metadata(truncated domain)", sut::metadata(t, None))?;
                    ctx.nontrivial(&[t]);
                }
                for k in 0..=p.len() {
                    let t = &p[..k];
                    ctx.docs.clear();
                    ctx.doc("problem.hddl", t);
                    outcome(ctx, "verify(domain, truncated problem)", sut::verify(FULL_DOMAIN.as_bytes(), Some(t)))?;
                    outcome(ctx, "to_json(domain, truncated problem)", sut::to_json_text(FULL_DOMAIN.as_bytes(), Some(t)))?;
                    ctx.nontrivial(&[t]);
                }
                return Ok(());
            }
            ctx.saw("dense graphs");
            let (d, p) = dense(r);
            let dt = Writer::new(r, Style::Varied).domain(&d);
            let pt = Writer::new(r, Style::Varied).problem(&p);
            (plain(&dt), plain(&pt))
        }
        13 => {
            ctx.saw("deep nesting");
            let (d, p) = nested(r);
            if d.len() + p.len() > 20_000 {
                ctx.saw("nesting of thousands of levels");
            }
            (d, p)
        }
        14 => {
            ctx.saw("odd encodings");
            let (d, p) = any_documents(ctx, r);
            let odd = |r: &mut Rng, b: Vec<u8>| -> Vec<u8> {
                match r.below(6) {
                    0 => [&b"\xef\xbb\xbf"[..], &b].concat(),
                    1 => b.iter().flat_map(|x| [*x, 0]).collect(),
                    2 => b.iter().map(|x| if *x == b'a' { 0xe9 } else { *x }).collect(),
                    3 => String::from_utf8_lossy(&b).replace('a', "\u{e9}").into_bytes(),
                    4 => String::from_utf8_lossy(&b).replace(' ', "\u{a0}").into_bytes(),
                    _ => {
                        let mut b = b;
                        let x: &[u8] = r.pick(&[&b"\xc3"[..], b"\xe2\x80", b"\xf0\x9f", b"\xff", b"\x00", b"?\xc3", b":\xe2", b";\xff"]);
                        b.extend_from_slice(x);
                        b
                    }
                }
            };
            (odd(r, d), odd(r, p))
        }
        _ if i % 1200 == 15 => {
            ctx.saw("megabytes");
            megabytes(r)
        }
        _ if i % 48 == 15 => {
            let (d, p, what) = long(r);
            ctx.saw(what);
            (d, p)
        }
        _ => {
            // documents in each other's place, empty documents
            let (d, p) = any_documents(ctx, r);
            match r.below(5) {
                0 => (p, d),
                1 => (d.clone(), d),
                2 => (p.clone(), p),
                3 => (d, vec![]),
                _ => (vec![], p),
            }
        }
    };
    ctx.doc("domain.hddl", &d);
    ctx.doc("problem.hddl", &p);
    if d.len() + p.len() > 0 {
        ctx.nontrivial(&[&d, &p]);
    }
    ctx.max("document bytes", d.len().max(p.len()) as u64);
    ctx.sample(|| json!({ "domain": text(&d), "problem": text(&p) }));
    all_views(ctx, &d, &p)
}

// ---------------------------------------------------------------- C06

static C06: Check = Check {
    id: "C06",
    rule: "a case is a batch of documents made by one or two edits of the tokens or bytes of a grammatical one (exhaustively, every vocabulary \
           token at every place, for fixed documents with all features), given to verify, get_metadata and to_json; the reference grammar \
           says whether and at which line it must be rejected; non-trivial: the reference rejects it, or it is of the wrong kind; counted by content",
    required: &[
        "rejected domain", "rejected problem", "still grammatical", "wrong kind", "exhaustive edits", "unbalanced at the end",
        "text after the end", "not specified",
    ],
    assumptions: &["the reference grammar of the harness is the grammar of HDDL the analyser supports; where it is silent (DESIGN.md) nothing is required"],
    cases: |t| if t { 60_000 } else { 20_000 },
    run: c06,
    workers: 8,
};

const TINY: &str = "(define (domain full) (:predicates (r)) (:task t2 :parameters ()))";

fn rejected<X>(what: &str, o: Out<X>, lines: Option<(u32, u32)>) -> Res {
    match o {
        Out::Crash(m) => violated!("{}: {}", what, m),
        Out::Ok(_) => violated!("{}: accepted, but the document is not grammatical", what),
        Out::Err(e) => {
            if !is_parse_error(&e.f) {
                violated!("{}: {} instead of a lexical or syntactic error", what, e);
            }
            if let Some((a, b)) = lines {
                if e.f.lines[0] < a || e.f.lines[0] > b {
                    violated!("{}: {}, but the document goes wrong at line {} (to {})", what, e, a, b);
                }
            }
            Ok(())
        }
    }
}

fn not_rejected<X>(what: &str, o: Out<X>) -> Res {
    match o {
        Out::Crash(m) => violated!("{}: {}", what, m),
        Out::Err(e) if is_parse_error(&e.f) => violated!("{}: {}, but the document is grammatical", what, e),
        _ => Ok(()),
    }
}

// judges any document in both places
pub fn judge_document(ctx: &mut Ctx, b: &[u8], domain_place: bool) -> Res {
    ctx.docs.clear();
    ctx.doc(if domain_place { "domain.hddl" } else { "problem.hddl" }, b);
    let tiny = TINY.as_bytes();
    match refp::parse(b) {
        Verdict::Unspec => {
            ctx.saw("not specified");
            Ok(())
        }
        Verdict::Reject(x, y) => {
            ctx.nontrivial(&[b]);
            let l = Some((x, y));
            if domain_place {
                ctx.saw("rejected domain");
                rejected("verify(domain)", sut::verify(b, None), l)?;
                rejected("get_metadata(domain)", sut::metadata(b, None), l)?;
                rejected("to_json(domain)", sut::to_json_text(b, None), l)?;
                rejected("verify(domain, problem)", sut::verify(b, Some(FULL_PROBLEM.as_bytes())), l)?;
                rejected("to_json(domain, problem)", sut::to_json_text(b, Some(FULL_PROBLEM.as_bytes())), l)
            } else {
                ctx.saw("rejected problem");
                rejected("verify(domain, problem)", sut::verify(tiny, Some(b)), l)?;
                rejected("to_json(domain, problem)", sut::to_json_text(tiny, Some(b)), l)
            }
        }
        v => {
            let is_domain = matches!(v, Verdict::Dom(_));
            if is_domain != domain_place {
                ctx.saw("wrong kind");
                ctx.nontrivial(&[b]);
                let syn = |o: Option<String>, what: &str| -> Res {
                    match o.as_deref() {
                        Some("Syntactic") => Ok(()),
                        o => violated!("{}: {:?} for a document of the wrong kind", what, o),
                    }
                };
                let kind = |e: Option<&sut::ErrInfo>| e.map(|e| e.f.kind.clone());
                if domain_place {
                    syn(kind(sut::verify(b, None).err()), "verify(problem)")?;
                    syn(kind(sut::verify(b, Some(b)).err()), "verify(problem, problem)")?;
                    syn(kind(sut::metadata(b, None).err()), "get_metadata(problem)")?;
                    syn(kind(sut::to_json_text(b, None).err()), "to_json(problem)")?;
                    syn(kind(sut::to_json_text(b, Some(b)).err()), "to_json(problem, problem)")
                } else {
                    syn(kind(sut::verify(tiny, Some(b)).err()), "verify(domain, domain)")?;
                    syn(kind(sut::to_json_text(tiny, Some(b)).err()), "to_json(domain, domain)")
                }
            } else {
                ctx.saw("still grammatical");
                if domain_place {
                    not_rejected("verify(domain)", sut::verify(b, None))?;
                    not_rejected("get_metadata(domain)", sut::metadata(b, None))?;
                    not_rejected("to_json(domain)", sut::to_json_text(b, None))
                } else {
                    not_rejected("verify(domain, problem)", sut::verify(tiny, Some(b)))?;
                    not_rejected("to_json(domain, problem)", sut::to_json_text(tiny, Some(b)))
                }
            }
        }
    }
}

fn c06(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    // every edit of the fixed documents
    let fixed: Vec<(&str, bool)> = std::iter::once((FULL_DOMAIN, true))
        .chain(std::iter::once((FULL_PROBLEM, false)))
        .chain(SMALL_PROBLEMS.iter().map(|p| (*p, false)))
        .collect();
    let sizes: Vec<usize> = fixed.iter().map(|(s, _)| split(s.as_bytes()).unwrap().len()).collect();
    let total: usize = sizes.iter().map(|n| n + 1).sum();
    if (i as usize) < total {
        ctx.saw("exhaustive edits");
        let mut k = i as usize;
        let mut f = 0;
        while k > sizes[f] {
            k -= sizes[f] + 1;
            f += 1;
        }
        let toks = split(fixed[f].0.as_bytes()).unwrap();
        let dom = fixed[f].1;
        let mut edits: Vec<Toks> = vec![];
        let mut seen = std::collections::HashSet::new();
        for v in VOCAB {
            if !seen.insert(v) {
                continue;
            }
            let mut t = toks.clone();
            t.insert(k, v.to_string());
            edits.push(t);
            if k < toks.len() && toks[k] != v {
                let mut t = toks.clone();
                t[k] = v.to_string();
                edits.push(t);
            }
        }
        if k < toks.len() {
            let mut t = toks.clone();
            t.remove(k);
            edits.push(t);
            edits.push(toks[..k].to_vec());
            if k + 1 < toks.len() {
                let mut t = toks.clone();
                t.swap(k, k + 1);
                edits.push(t);
            }
        }
        for t in edits {
            let b = layout(r, &t, render::Layout::TokenPerLine);
            judge_document(ctx, &b, dom)?;
        }
        return Ok(());
    }
    let (d, p) = any_documents(ctx, r);
    let dom = r.chance(1, 2);
    let b = if dom { d } else { p };
    if b.len() > 6000 && i % 8 != 0 {
        return Ok(());
    }
    ctx.sample(|| json!({ "edited": text(&b) }));
    let toks = match split(&b) {
        Some(t) => t,
        None => return Ok(()),
    };
    for _ in 0..24 {
        let e = match r.below(14) {
            0 => {
                // text after the end
                ctx.saw("text after the end");
                let mut t = toks.clone();
                for _ in 0..r.range(1, 3) {
                    t.push(r.pick(&VOCAB).to_string());
                }
                if r.chance(1, 3) {
                    t.extend(toks.clone());
                }
                let l = any_layout(r);
                layout(r, &t, l)
            }
            1 => {
                ctx.saw("unbalanced at the end");
                let mut t = toks.clone();
                let n = r.range(1, 3);
                t.truncate(t.len().saturating_sub(n));
                let l = any_layout(r);
                layout(r, &t, l)
            }
            2 | 3 => {
                let mut b = b.clone();
                let n = r.range(1, 2);
                mutate_bytes(r, &mut b, n);
                b
            }
            4 => b.clone(),
            5 => {
                // a character within a name
                let mut t = toks.clone();
                let k: Vec<usize> = (0..t.len()).filter(|j| t[*j].len() > 1 || t[*j].starts_with(char::is_alphabetic)).collect();
                if k.is_empty() {
                    continue;
                }
                let j = *r.pick(&k);
                let at = r.below(t[j].len() + 1);
                let c = *r.pick(&["!", ".", ",", "'", "\"", "/", "*", "+", "&", "@", "#", "$", "%", "^", "~", "`", "[", "]", "{", "}", "|", "\\", "?", ":", "=", "<"]);
                if t[j].is_char_boundary(at) {
                    t[j].insert_str(at, c);
                }
                layout(r, &t, render::Layout::Normal)
            }
            _ => {
                let mut t = toks.clone();
                let n = r.range(1, 2);
                mutate_tokens(r, &mut t, n);
                let l = any_layout(r);
                layout(r, &t, l)
            }
        };
        // mostly in its own place
        let place = if r.chance(1, 12) { !dom } else { dom };
        judge_document(ctx, &e, place)?;
    }
    Ok(())
}
