// C07: consistent models are accepted. C08-C11: duplicates, undefined entities, arguments, cycles.
use super::util::*;
use crate::ast::*;
use crate::core::*;
use crate::gen::{self, Cat};
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::semref::*;
use crate::sut::{self, Out};
use crate::violated;
use serde_json::json;

pub static CHECKS: [&Check; 5] = [&C07, &C08, &C09, &C10, &C11];

const ORACLE: &str = "the reference semantics of the harness lists the flaws of a model; where HDDL or the analyser is silent (DESIGN.md) nothing is required";

static C07: Check = Check {
    id: "C07",
    rule: "a case is a model that is consistent by construction (and has no flaw according to the reference semantics), in all styles of names, typings, sizes, notations and layouts, or a pair of documents of the \
           International Planning Competition; verification has to accept the domain and the problem; non-trivial: at least one use of a declaration; counted by content",
    required: &["consistent models", "real models", "typed", "untyped", "partly typed", "multiple inheritance", "names shared between kinds", "large models", "parameters named like constants"],
    assumptions: &[ORACLE],
    cases: |t| if t { 400_000 } else { 80_000 },
    run: c07,
    workers: 8,
};

static C08: Check = Check {
    id: "C08",
    rule: "a case is a consistent model in which one declaration is repeated (with the same or another body, next to the first or far away) or nearly repeated; the reference semantics gives the errors that may be reported; \
           non-trivial: an error is due; counted by content",
    required: &[
        "single flaw in the domain: DuplicateRequirement", "single flaw in the domain: DuplicatePredicate", "single flaw in the domain: DuplicateCompoundTask",
        "single flaw in the domain: DuplicateAction", "single flaw in the domain: DuplicateMethod", "single flaw in the domain: DuplicateParameter",
        "single flaw in the domain: DuplicateObject", "single flaw in the problem: DuplicateObject", "more than 1000 declarations between", "near misses accepted",
    ],
    assumptions: &[ORACLE],
    cases: |t| if t { 300_000 } else { 80_000 },
    run: c08,
    workers: 8,
};

static C09: Check = Check {
    id: "C09",
    rule: "a case is a consistent model in which one use (at any place: any connective, quantifier, list of parameters, network, fact or goal) refers to another name - a near miss, a name of another kind, or a new one; \
           the reference semantics gives the errors that may be reported; non-trivial: an error is due; counted by content",
    required: &[
        "single flaw in the domain: UndefinedPredicate", "single flaw in the domain: UndefinedType", "single flaw in the domain: UndefinedTask",
        "single flaw in the domain: UndefinedSubtask", "single flaw in the domain: UndefinedParameter", "single flaw in the problem: UndefinedPredicate",
        "single flaw in the problem: UndefinedType", "single flaw in the problem: UndefinedSubtask", "single flaw in the problem: UndefinedObject",
        "due for PredInAction", "due for PredInMethod", "due for PredInInit", "due for PredInGoal", "due for TypeOfPred", "due for TypeOfTask", "due for TypeOfAction",
        "due for TypeOfMethod", "due for TypeOfConst", "due for TypeOfObject", "due for TypeOfHtn", "due for ArgInAction", "due for ArgInMethodFormula", "due for ArgInInit",
        "due for ArgInGoal", "due for ArgOfTask", "due for ArgOfSubtask", "due for ArgOfInitTask", "due for TaskOfMethod", "due for SubtaskOfMethod", "due for SubtaskOfInit",
    ],
    assumptions: &[ORACLE],
    cases: |t| if t { 400_000 } else { 100_000 },
    run: c09,
    workers: 8,
};

static C10: Check = Check {
    id: "C10",
    rule: "a case is a consistent model in which one use gets another number of arguments or another argument, or a declaration gets other types or parameters; types form trees, chains, diamonds and forests with up to 300 levels; \
           the reference semantics gives the errors that may be reported; non-trivial: an error is due, or a strict subtype is used; counted by content",
    required: &[
        "single flaw in the domain: InconsistentPredicateArity", "single flaw in the domain: InconsistentTaskArity", "single flaw in the domain: InconsistentPredicateArgType",
        "single flaw in the domain: InconsistentTaskArgType", "single flaw in the problem: InconsistentPredicateArity", "single flaw in the problem: InconsistentTaskArity",
        "single flaw in the problem: InconsistentPredicateArgType", "single flaw in the problem: InconsistentTaskArgType", "accepted without warnings", "subtypes at a distance above 100",
        "supertype refused", "untyped refused", "typed refused for untyped",
    ],
    assumptions: &[ORACLE],
    cases: |t| if t { 400_000 } else { 120_000 },
    run: c10,
    workers: 8,
};

static C11: Check = Check {
    id: "C11",
    rule: "a case is a model with a cycle of types or orderings of any length (1 to 400), in any component, or with a large acyclic hierarchy or ordering (chains, diamonds, dense, repeated edges); \
           the reference semantics decides; non-trivial: there are two or more edges; counted by content",
    required: &[
        "single flaw in the domain: CyclicType", "single flaw in the domain: CyclicOrdering", "single flaw in the problem: CyclicOrdering", "acyclic types accepted", "acyclic orderings accepted",
        "cycle of length 1", "cycle of length 2", "cycle longer than 10", "cycle longer than 100",
    ],
    assumptions: &[ORACLE],
    cases: |t| if t { 300_000 } else { 100_000 },
    run: c11,
    workers: 8,
};

// ---------------------------------------------------------------- C07

fn c07(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let c = corpus(ctx.thorough);
    let all: usize = c.pairs.iter().map(|p| p.1.len() + 1).sum();
    if (i as usize) < all {
        // real models, one after the other
        let mut k = i as usize;
        for (d, ps, name) in &c.pairs {
            if k > ps.len() {
                k -= ps.len() + 1;
                continue;
            }
            ctx.doc("domain.hddl", d);
            let p = if k == 0 { None } else { Some(&ps[k - 1][..]) };
            if let Some(p) = p {
                ctx.doc("problem.hddl", p);
            }
            let (dm, pm) = match (refp::parse(d), p.map(refp::parse)) {
                (Verdict::Dom(d), None) => (d, None),
                (Verdict::Dom(d), Some(Verdict::Prob(p))) => (d, Some(p)),
                _ => return Ok(()),
            };
            let e = match &pm {
                None => expect_domain(&dm),
                Some(p) => expect(&dm, p),
            };
            ctx.saw("real models");
            ctx.saw(&format!("real: {}", match &e { Expect::Pass(_) => "consistent", Expect::Fail(_) | Expect::FailSomehow => "flawed", _ => "not specified" }));
            ctx.nontrivial(&[d, p.unwrap_or(b"")]);
            return judge(name, &sut::verify(d, p), &e, false);
        }
    }
    let (d, p) = if i % 300 == 7 { big_model(r) } else { model(r) };
    let w = write(ctx, r, &d, &p)?;
    let ed = expect_domain(&w.d);
    let ep = expect(&w.d, &w.p);
    for e in [&ed, &ep] {
        if !matches!(e, Expect::Pass(_)) {
            return Err(Stop::Harness(format!("a model that should be consistent is not: {:?}", e)));
        }
    }
    ctx.saw("consistent models");
    let named = |x: &Sym| w.d.consts.iter().any(|c| c.name == x.name);
    if w.d.actions.iter().any(|a| a.params.iter().any(named)) || w.d.methods.iter().any(|m| m.params.iter().any(named)) {
        ctx.saw("parameters named like constants");
    }
    if w.d.preds.len() + w.d.tasks.len() + w.d.actions.len() > 200 {
        ctx.saw("large models");
    }
    let untyped = |s: &[Sym]| s.iter().any(|x| x.ty.is_none());
    let any_untyped = w.d.preds.iter().any(|p| untyped(&p.args)) || w.d.tasks.iter().any(|t| untyped(&t.params)) || untyped(&w.d.consts);
    ctx.saw(if w.d.types.is_empty() { "untyped" } else if any_untyped { "partly typed" } else { "typed" });
    let mut up = std::collections::HashMap::new();
    for t in &w.d.types {
        if let Some(x) = t.tyname() {
            up.entry(t.name.clone()).or_insert_with(std::collections::HashSet::new).insert(x.to_string());
        }
    }
    if up.values().any(|x| x.len() > 1) {
        ctx.saw("multiple inheritance");
    }
    let ps: std::collections::HashSet<&str> = w.d.preds.iter().map(|p| p.name.as_str()).collect();
    if w.d.tasks.iter().any(|t| ps.contains(t.name.as_str())) || w.d.methods.iter().any(|m| ps.contains(m.name.name.as_str())) {
        ctx.saw("names shared between kinds");
    }
    if w.d.methods.len() + w.d.actions.len() + w.p.init.len() > 0 {
        ctx.nontrivial(&[&w.db, &w.pb]);
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
    judge("domain alone", &sut::verify(&w.db, None), &ed, false)?;
    judge("domain and problem", &sut::verify(&w.db, Some(&w.pb)), &ep, false)?;
    for (what, o) in [
        ("get_metadata", super::export::to_unit(sut::metadata(&w.db, None))),
        ("to_json", super::export::to_unit(sut::to_json_text(&w.db, Some(&w.pb)))),
    ] {
        match o {
            Out::Crash(m) => violated!("{}: {}", what, m),
            Out::Err(e) => violated!("{}: {} for a consistent model", what, e),
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn reinsert<T>(r: &mut Rng, v: &mut Vec<T>, x: T, i: usize) {
    let k = match r.below(5) {
        0 => v.len(),
        1 => 0,
        2 => i + 1,
        _ => r.below(v.len() + 1),
    };
    v.insert(k.min(v.len()), x);
}

// untyped symbols can only be written after the typed ones in a single list
fn writable(v: &mut [Sym]) {
    v.sort_by_key(|s| s.ty.is_none());
}

fn near(r: &mut Rng, s: &str) -> String {
    for _ in 0..9 {
        let t = match r.below(5) {
            0 => s.to_ascii_uppercase(),
            1 => s.to_ascii_lowercase(),
            2 => format!("{}{}", s, r.pick(&["-", "_", "x", "0", "2"])),
            3 => format!("{}{}", r.pick(&["x", "_", "a"]), s),
            _ => {
                let mut t = s.to_string();
                t.pop();
                t
            }
        };
        if !t.is_empty() && t != s && !gen::reserved(&t) {
            return t;
        }
    }
    format!("{}-other", s)
}

fn retype(r: &mut Rng, d: &Domain, v: &mut [Sym]) {
    let types: Vec<&str> = d.types.iter().map(|t| t.name.as_str()).collect();
    for s in v.iter_mut() {
        if r.chance(1, 2) {
            s.ty = if types.is_empty() || r.chance(1, 6) { None } else { Some((r.pick(&types).to_string(), 0)) };
        }
    }
    writable(v);
}

// repeats one declaration
pub fn duplicate(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    let other = r.chance(1, 2); // with another body
    let miss = r.chance(1, 5); // not quite the same name
    let dc = d.clone();
    match r.below(9) {
        0 => {
            if d.reqs.is_empty() {
                d.reqs.push(r.below(REQS.len()));
            }
            let i = r.below(d.reqs.len());
            let x = d.reqs[i];
            if !miss {
                reinsert(r, &mut d.reqs, x, i);
            }
        }
        1 if !d.preds.is_empty() => {
            let i = r.below(d.preds.len());
            let mut x = d.preds[i].clone();
            if other {
                retype(r, &dc, &mut x.args);
                if r.chance(1, 2) {
                    x.args.pop();
                }
            }
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, &mut d.preds, x, i);
        }
        2 if !d.tasks.is_empty() => {
            let i = r.below(d.tasks.len());
            let mut x = d.tasks[i].clone();
            if other {
                retype(r, &dc, &mut x.params);
                if r.chance(1, 2) {
                    x.params.pop();
                }
            }
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, &mut d.tasks, x, i);
        }
        3 if !d.actions.is_empty() => {
            let i = r.below(d.actions.len());
            let mut x = d.actions[i].clone();
            if other {
                x.pre = None;
                x.eff = None;
                retype(r, &dc, &mut x.params);
            }
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, &mut d.actions, x, i);
        }
        4 if !d.methods.is_empty() => {
            let i = r.below(d.methods.len());
            let j = r.below(d.methods.len());
            // the name of one with the body of another
            let mut x = d.methods[if other { j } else { i }].clone();
            x.name = d.methods[i].name.clone();
            if miss {
                x.name.name = near(r, &x.name.name);
            }
            reinsert(r, &mut d.methods, x, i);
        }
        5 if !d.consts.is_empty() => {
            let i = r.below(d.consts.len());
            let mut x = vec![d.consts[i].clone()];
            if other {
                retype(r, &dc, &mut x);
            }
            let mut x = x.remove(0);
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, &mut d.consts, x, i);
        }
        6 if !p.objects.is_empty() => {
            let i = r.below(p.objects.len());
            let mut x = vec![p.objects[i].clone()];
            if other {
                retype(r, &dc, &mut x);
            }
            let mut x = x.remove(0);
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, &mut p.objects, x, i);
        }
        _ => {
            // a parameter of an action or method
            let n = d.actions.len() + d.methods.len();
            if n == 0 {
                return;
            }
            let k = r.below(n);
            let na = d.actions.len();
            let v = if k < na { &mut d.actions[k].params } else { &mut d.methods[k - na].params };
            if v.is_empty() {
                let t = dc.types.first().map(|t| t.name.clone());
                v.push(Sym::var("dup").typed(t.as_deref()));
            }
            let i = r.below(v.len());
            let mut x = vec![v[i].clone()];
            if other {
                retype(r, &dc, &mut x);
            }
            let mut x = x.remove(0);
            if miss {
                x.name = near(r, &x.name);
            }
            reinsert(r, v, x, i);
            writable(v);
        }
    }
}

fn c08(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (mut d, mut p) = if i % 400 == 9 { big_model(r) } else { model(r) };
    if i % 300 == 1 {
        // very far apart
        let n = r.range(1001, 1400);
        let kind = r.below(7);
        let k = |i: usize| if i == n - 1 { "zz0".to_string() } else { format!("zz{}", i) };
        match kind {
            0 => (0..n).for_each(|i| d.preds.push(Pred { name: k(i), line: 0, args: vec![] })),
            1 => (0..n).for_each(|i| d.tasks.push(Task { name: k(i), line: 0, params: vec![] })),
            2 => (0..n).for_each(|i| d.actions.push(Action { name: k(i), line: 0, params: vec![], pre: None, eff: None })),
            3 => (0..n).for_each(|i| p.objects.push(Sym::plain(&k(i)))),
            4 => (0..n).for_each(|i| d.consts.push(Sym::plain(&k(i)))),
            5 => d.actions.push(Action {
                name: "zz".into(),
                line: 0,
                params: (0..n).map(|i| Sym::var(&k(i))).collect(),
                pre: None,
                eff: None,
            }),
            _ => {
                d.tasks.push(Task { name: "zzt".into(), line: 0, params: vec![] });
                (0..n).for_each(|i| {
                    d.methods.push(Method {
                        name: Sym::plain(&k(i)),
                        task: Sym::plain("zzt"),
                        terms: vec![],
                        params: vec![],
                        pre: None,
                        tn: Tn { ords: Ords::Total, ..Tn::empty() },
                    })
                })
            }
        }
        ctx.saw("more than 1000 declarations between");
    } else {
        duplicate(r, &mut d, &mut p);
        if r.chance(1, 10) {
            duplicate(r, &mut d, &mut p);
        }
    }
    let w = write_apart(ctx, r, &d, &p)?;
    let (ed, ep) = verify_both(ctx, &w, false)?;
    match (&ed, &ep) {
        (Expect::Pass(_), Expect::Pass(_)) => ctx.saw("near misses accepted"),
        _ => ctx.nontrivial(&[&w.db, &w.pb]),
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
    Ok(())
}

// ---------------------------------------------------------------- C09

fn is_use(c: Cat) -> bool {
    c >= Cat::TypeParent && c != Cat::Loose && c != Cat::TypeParent
}

// renames one use
pub fn undefine(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    undefine_at(r, d, p, None);
}

pub fn undefine_at(r: &mut Rng, d: &mut Domain, p: &mut Problem, prefer: Option<usize>) -> Option<Cat> {
    let all = gen::pools(d, p).all;
    let mut cats: Vec<Cat> = vec![];
    {
        let mut v = |c: Cat, _: &mut String| {
            if is_use(c) {
                cats.push(c)
            }
        };
        gen::visit_domain(d, &mut v);
        gen::visit_problem(p, &mut v);
    }
    if cats.is_empty() {
        return None;
    }
    // kinds of uses equally often
    let mut kinds = cats.clone();
    kinds.sort();
    kinds.dedup();
    let kind = match prefer {
        Some(k) => kinds[k % kinds.len()],
        None => *r.pick(&kinds),
    };
    let at: Vec<usize> = (0..cats.len()).filter(|i| cats[*i] == kind).collect();
    let at = *r.pick(&at);
    let mut k = 0;
    let mut rr = r.fork();
    {
        let mut v = |c: Cat, s: &mut String| {
            if is_use(c) {
                if k == at {
                    *s = gen::other_name(&mut rr, s, &all);
                }
                k += 1;
            }
        };
        gen::visit_domain(d, &mut v);
        gen::visit_problem(p, &mut v);
    }
    Some(kind)
}

// removes one declaration
fn undeclare(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    match r.below(7) {
        0 if !d.preds.is_empty() => {
            d.preds.remove(r.below(d.preds.len()));
        }
        1 if !d.tasks.is_empty() => {
            d.tasks.remove(r.below(d.tasks.len()));
        }
        2 if !d.actions.is_empty() => {
            d.actions.remove(r.below(d.actions.len()));
        }
        3 if !d.consts.is_empty() => {
            d.consts.remove(r.below(d.consts.len()));
        }
        4 if !p.objects.is_empty() => {
            p.objects.remove(r.below(p.objects.len()));
        }
        5 if !d.types.is_empty() => {
            // all mentions of a type in the hierarchy
            let t = r.pick(&d.types).name.clone();
            d.types.retain(|x| x.name != t && x.tyname() != Some(&t));
        }
        _ => {
            if let Some(m) = d.methods.first_mut() {
                m.params.pop();
            }
        }
    }
}

fn c09(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (mut d, mut p) = if i % 500 == 9 { big_model(r) } else { model(r) };
    let mut kind = None;
    if r.chance(1, 8) {
        undeclare(r, &mut d, &mut p);
    } else {
        kind = undefine_at(r, &mut d, &mut p, Some(i as usize));
        if r.chance(1, 12) {
            undefine(r, &mut d, &mut p);
        }
    }
    let w = write_apart(ctx, r, &d, &p)?;
    let (ed, ep) = verify_both(ctx, &w, false)?;
    match (&ed, &ep) {
        (Expect::Pass(_), Expect::Pass(_)) => ctx.saw("another declared name: accepted"),
        (Expect::Unspec, _) | (_, Expect::Unspec) => {}
        _ => {
            if let Some(k) = kind {
                ctx.saw(&format!("due for {:?}", k));
            }
            ctx.nontrivial(&[&w.db, &w.pb])
        }
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
    Ok(())
}

// ---------------------------------------------------------------- C10

// one use with another number of arguments
pub fn change_arity(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    let mut n = 0;
    gen::visit_calls(d, p, &mut |_, _, _| n += 1);
    if n == 0 {
        return;
    }
    let at = r.below(n);
    let terms = gen::pools(d, p).terms;
    let mut rr = r.fork();
    let mut k = 0;
    gen::visit_calls(d, p, &mut |_, _, args| {
        if k == at {
            match rr.below(4) {
                0 if !args.is_empty() => {
                    args.pop();
                }
                1 if !args.is_empty() => {
                    let i = rr.below(args.len());
                    args.remove(i);
                }
                2 if !args.is_empty() => {
                    let x = rr.pick(args).clone();
                    let i = rr.below(args.len() + 1);
                    args.insert(i, x);
                }
                _ => {
                    let x = if let Some(a) = args.first() {
                        a.clone()
                    } else if terms.is_empty() {
                        Sym::plain("zz")
                    } else {
                        Sym::plain(rr.pick(&terms))
                    };
                    // also so many that a narrow count would come out the same
                    let m = if rr.chance(1, 12) { *rr.pick(&[256usize, 512, 65536 / 64, 255, 257]) } else { rr.range(1, 3) };
                    for _ in 0..m {
                        args.push(x.clone());
                    }
                }
            }
        }
        k += 1;
    });
}

// other types or arguments
pub fn change_types(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    let types: Vec<String> = d.types.iter().flat_map(|t| std::iter::once(t.name.clone()).chain(t.tyname().map(|x| x.to_string()))).collect();
    let mut ty = |r: &mut Rng, s: &mut Vec<Sym>| {
        if s.is_empty() {
            return;
        }
        let i = r.below(s.len());
        s[i].ty = if types.is_empty() || r.chance(1, 8) { None } else { Some((r.pick(&types).clone(), 0)) };
    };
    match r.below(12) {
        // an argument: another term in scope
        0..=4 => {
            let mut n = 0;
            gen::visit_calls(d, p, &mut |_, _, a| n += a.len());
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let consts: Vec<Sym> = d.consts.clone();
            let objs = p.objects.clone();
            let scopes: Vec<Vec<Sym>> = d.actions.iter().map(|a| a.params.clone()).chain(d.methods.iter().map(|m| m.params.clone())).collect();
            let htn: Vec<Sym> = p.htn.iter().flat_map(|x| x.0.clone().unwrap_or_default()).collect();
            let mut rr = r.fork();
            let mut k = 0;
            gen::visit_calls(d, p, &mut |c, _, args| {
                let m = args.len();
                if at >= k && at < k + m {
                    let old = args[at - k].clone();
                    let mut cands: Vec<Sym> = consts.clone();
                    if matches!(c, Cat::ArgInInit | Cat::ArgInGoal | Cat::ArgOfInitTask) {
                        cands.extend(objs.iter().cloned());
                        if c == Cat::ArgOfInitTask {
                            cands.extend(htn.iter().cloned());
                        }
                    }
                    // those declared along with the old one
                    for s in &scopes {
                        if old.var && s.iter().any(|x| x.name == old.name) {
                            cands.extend(s.iter().cloned());
                        }
                    }
                    if !cands.is_empty() {
                        let mut x = rr.pick(&cands).clone();
                        x.ty = None;
                        args[at - k] = x;
                    }
                }
                k += m;
            });
        }
        5 => ty(r, &mut d.consts),
        6 => ty(r, &mut p.objects),
        7 if !d.preds.is_empty() => {
            let i = r.below(d.preds.len());
            ty(r, &mut d.preds[i].args);
            writable(&mut d.preds[i].args);
        }
        8 if !d.tasks.is_empty() => {
            let i = r.below(d.tasks.len());
            ty(r, &mut d.tasks[i].params);
            writable(&mut d.tasks[i].params);
        }
        9 if !d.actions.is_empty() => {
            let i = r.below(d.actions.len());
            ty(r, &mut d.actions[i].params);
            writable(&mut d.actions[i].params);
        }
        10 if !d.methods.is_empty() => {
            let i = r.below(d.methods.len());
            ty(r, &mut d.methods[i].params);
            writable(&mut d.methods[i].params);
        }
        _ => {
            // the hierarchy itself
            if !d.types.is_empty() {
                let i = r.below(d.types.len());
                if r.chance(1, 2) {
                    d.types.remove(i);
                } else {
                    d.types[i].ty = None;
                }
            }
        }
    }
}

// a model about one use and one hierarchy: a parameter of one type, an argument of another
fn hierarchy_model(ctx: &mut Ctx, r: &mut Rng) -> (Domain, Problem) {
    let mut d = Domain { name: "d".into(), ..Default::default() };
    let mut p = Problem { name: "p".into(), domain: "d".into(), ..Default::default() };
    let n = match r.below(20) {
        0 => r.range(100, 300),
        1..=4 => r.range(10, 40),
        _ => r.range(2, 8),
    };
    let style = if n > 40 { gen::NameStyle::Plain } else { gen::STYLES[r.below(6)] };
    let mut used = std::collections::HashSet::new();
    let ts: Vec<String> = (0..n).map(|_| gen::fresh(r, style, "t", &mut used)).collect();
    let shape = r.below(5);
    let mut up: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 1..n {
        match shape {
            0 => up[i].push(i - 1),
            1 => up[i].push((i - 1) / 2),
            2 => {
                up[i].push(i - 1);
                if i > 1 {
                    up[i].push(i - 2);
                }
            }
            3 => {
                if r.chance(2, 3) {
                    up[i].push(r.below(i))
                }
            }
            _ => {
                for _ in 0..r.below(4) {
                    up[i].push(r.below(i));
                }
            }
        }
    }
    for i in 0..n {
        if up[i].is_empty() {
            d.types.push(Sym::plain(&ts[i]));
        }
        for j in &up[i] {
            d.types.push(Sym::plain(&ts[i]).typed(Some(&ts[*j])));
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut d.types);
    }
    // expected and found types
    let e = if r.chance(1, 10) { None } else if shape == 0 && r.chance(1, 2) { Some(0) } else { Some(r.below(n)) };
    let f = if r.chance(1, 10) { None } else if shape == 0 && r.chance(1, 2) { Some(n - 1) } else { Some(r.below(n)) };
    let et = e.map(|i| ts[i].as_str());
    let ft = f.map(|i| ts[i].as_str());
    if shape == 0 {
        if let (Some(e), Some(f)) = (e, f) {
            if f > e + 100 {
                ctx.saw("subtypes at a distance above 100");
            }
        }
    }
    {
        let types = Types::new(&d.types);
        match (e, f) {
            (Some(_), None) => ctx.saw("untyped refused"),
            (None, Some(_)) => ctx.saw("typed refused for untyped"),
            (Some(e), Some(f)) if e != f && types.fits(Some(&ts[e]), Some(&ts[f])) => ctx.saw("supertype refused"),
            (Some(e), Some(f)) if e != f && types.fits(Some(&ts[f]), Some(&ts[e])) => ctx.saw("subtype accepted"),
            _ => {}
        }
    }
    // several parameters, one of which is the one in question
    let arity = r.range(1, 4);
    let pos = r.below(arity);
    let want = |i: usize| if i == pos { et } else { Some(ts[0].as_str()) };
    let have = |i: usize| if i == pos { ft } else { Some(ts[0].as_str()) };
    // untyped ones can only be last
    let pos_last = et.is_none() || ft.is_none();
    let (want, have): (Vec<Option<&str>>, Vec<Option<&str>>) = if pos_last {
        let mut w: Vec<_> = (0..arity).map(want).collect();
        let mut h: Vec<_> = (0..arity).map(have).collect();
        w.swap(pos, arity - 1);
        h.swap(pos, arity - 1);
        (w, h)
    } else {
        ((0..arity).map(want).collect(), (0..arity).map(have).collect())
    };
    let decl: Vec<Sym> = want.iter().enumerate().map(|(i, t)| Sym::var(&format!("x{}", i)).typed(*t)).collect();
    let scope: Vec<Sym> = have.iter().enumerate().map(|(i, t)| Sym::var(&format!("v{}", i)).typed(*t)).collect();
    let args: Vec<Sym> = (0..arity).map(|i| Sym::var(&format!("v{}", i))).collect();
    d.preds.push(Pred { name: "p".into(), line: 0, args: decl.clone() });
    d.tasks.push(Task { name: "k".into(), line: 0, params: decl.clone() });
    d.actions.push(Action { name: "a".into(), line: 0, params: decl, pre: None, eff: None });
    let callee = if r.chance(1, 2) { "k" } else { "a" };
    let deep = |r: &mut Rng, f: F| match r.below(4) {
        0 => F::And(vec![F::Empty, F::Not(Box::new(f))]),
        1 => F::Or(vec![F::Not(Box::new(F::And(vec![f])))]),
        2 => F::Xor(vec![f]),
        _ => f,
    };
    let as_consts = r.chance(1, 3);
    let plain_args: Vec<Sym> = args.iter().map(|x| Sym::plain(&x.name)).collect();
    let plain_scope: Vec<Sym> = scope.iter().map(|x| Sym { var: false, ..x.clone() }).collect();
    let (scope2, args2) = if as_consts {
        d.consts = plain_scope.clone();
        (vec![], plain_args.clone())
    } else {
        (scope.clone(), args.clone())
    };
    let atom = F::Atom(Pred { name: "p".into(), line: 0, args: args2.clone() });
    let sub = |id: bool, args: Vec<Sym>| Sub { id: if id { Some(Sym::plain("i")) } else { None }, task: Sym::plain(callee), terms: args };
    match r.below(7) {
        0 => {
            let f = deep(r, atom);
            let (pre, eff) = if r.chance(1, 2) { (Some(f), None) } else { (None, Some(f)) };
            d.actions.push(Action { name: "b".into(), line: 0, params: scope2, pre, eff })
        }
        1 => {
            d.tasks.push(Task { name: "k0".into(), line: 0, params: vec![] });
            let pre = Some(deep(r, atom));
            d.methods.push(Method { name: Sym::plain("m"), task: Sym::plain("k0"), terms: vec![], params: scope2, pre, tn: Tn::empty() });
        }
        2 => d.methods.push(Method {
            name: Sym::plain("m"),
            task: Sym::plain("k"),
            terms: args2,
            params: scope2,
            pre: None,
            tn: Tn { ords: Ords::Total, ..Tn::empty() },
        }),
        3 => {
            d.tasks.push(Task { name: "k0".into(), line: 0, params: vec![] });
            d.methods.push(Method {
                name: Sym::plain("m"),
                task: Sym::plain("k0"),
                terms: vec![],
                params: scope2,
                pre: None,
                tn: Tn { subtasks: vec![sub(r.chance(1, 2), args2)], ..Tn::empty() },
            });
        }
        k => {
            if !as_consts {
                p.objects = plain_scope;
            }
            match k {
                4 => p.init.push(Pred { name: "p".into(), line: 0, args: plain_args }),
                5 => {
                    let f = F::Atom(Pred { name: "p".into(), line: 0, args: plain_args });
                    p.goal = Some(deep(r, f));
                }
                _ => {
                    let params = r.chance(1, 2);
                    if params && !as_consts {
                        p.objects.clear();
                        p.htn = Some((Some(scope), Tn { subtasks: vec![sub(true, args)], ..Tn::empty() }));
                    } else {
                        p.htn = Some((None, Tn { subtasks: vec![sub(false, plain_args)], ..Tn::empty() }));
                    }
                }
            }
        }
    }
    (d, p)
}

fn c10(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (d, p) = match i % 4 {
        0 => {
            let (mut d, mut p) = some_model(r);
            change_arity(r, &mut d, &mut p);
            (d, p)
        }
        1 | 2 => {
            let mut o = gen::any_opts(r);
            o.arity = o.arity.max(1);
            if r.chance(3, 4) {
                o.typing = if r.chance(3, 4) { gen::Typing::Typed } else { gen::Typing::Mixed };
            }
            let (mut d, mut p) = gen::consistent(r, o);
            change_types(r, &mut d, &mut p);
            (d, p)
        }
        _ => hierarchy_model(ctx, r),
    };
    let w = write_apart(ctx, r, &d, &p)?;
    verify_both(ctx, &w, false)?;
    ctx.nontrivial(&[&w.db, &w.pb]);
    ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
    Ok(())
}

// ---------------------------------------------------------------- C11

// edges over names that contain a cycle or not: (edges, length of the planted cycle)
fn graph(r: &mut Rng, names: &[String], cyclic: bool) -> (Vec<(String, String)>, usize) {
    let n = names.len();
    let mut e: Vec<(usize, usize)> = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    match r.below(6) {
        0 => (1..n).for_each(|i| e.push((i - 1, i))),
        1 => (1..n).for_each(|i| e.push(((i - 1) / 2, i))),
        2 => (1..n).for_each(|i| {
            e.push((i - 1, i));
            if i > 1 {
                e.push((i - 2, i));
            }
        }),
        3 if n <= 30 => (0..n).for_each(|i| (0..i).for_each(|j| e.push((j, i)))),
        4 => {}
        _ => {
            for _ in 0..r.below(2 * n + 1) {
                if n >= 2 {
                    let a = r.below(n - 1);
                    e.push((a, r.range(a + 1, n - 1)));
                }
            }
        }
    }
    // repeated edges
    if !e.is_empty() {
        for _ in 0..r.below(3) {
            let x = *r.pick(&e);
            e.push(x);
        }
    }
    let mut len = 0;
    if cyclic {
        len = match r.below(6) {
            0 => 1,
            1 => 2.min(n),
            2 => n,
            _ => r.range(1, n),
        };
        let mut ix: Vec<usize> = (0..n).collect();
        r.shuffle(&mut ix);
        if r.chance(1, 2) {
            ix.sort();
        }
        let start = r.below(n - len + 1);
        let c: Vec<usize> = ix[start..start + len].to_vec();
        for i in 0..len {
            e.push((c[i], c[(i + 1) % len]));
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut e);
    }
    (e.into_iter().map(|(a, b)| (names[order[a]].clone(), names[order[b]].clone())).collect(), len)
}

pub fn cycle_types(r: &mut Rng, d: &mut Domain) {
    let names: Vec<String> = d.types.iter().map(|t| t.name.clone()).collect();
    if names.is_empty() {
        return;
    }
    let a = r.pick(&names).clone();
    let b = r.pick(&names).clone();
    let i = r.below(d.types.len() + 1);
    d.types.insert(i, Sym::plain(&a).typed(Some(&b)));
}

pub fn cycle_orderings(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    let mut tns: Vec<&mut Tn> = d.methods.iter_mut().map(|m| &mut m.tn).chain(p.htn.iter_mut().map(|h| &mut h.1)).collect();
    if tns.is_empty() {
        return;
    }
    let k = r.below(tns.len());
    let t = &mut tns[k];
    let ids: Vec<String> = t.subtasks.iter().filter_map(|s| s.id.as_ref().map(|x| x.name.clone())).collect();
    if ids.is_empty() {
        return;
    }
    let (a, b) = (r.pick(&ids).clone(), r.pick(&ids).clone());
    match &mut t.ords {
        Ords::Total => {}
        Ords::Partial(o) => {
            let i = r.below(o.len() + 1);
            o.insert(i, (a, b));
            t.ordering = Some(0);
        }
    }
}

fn size(r: &mut Rng) -> usize {
    match r.below(30) {
        0 => r.range(120, 400),
        1 | 2 => r.range(20, 60),
        _ => r.range(1, 8),
    }
}

fn c11(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (mut d, mut p) = if r.chance(1, 2) { some_model(r) } else { (Domain { name: "d".into(), ..Default::default() }, Problem { name: "p".into(), domain: "d".into(), ..Default::default() }) };
    let cyc = r.chance(1, 2);
    let style = gen::STYLES[r.below(6)];
    let n = size(r);
    let style = if n > 60 { gen::NameStyle::Plain } else { style };
    let mut len = 0;
    let mut types = false;
    match i % 4 {
        0 | 1 => {
            types = true;
            // besides the hierarchy of the model
            let mut used: std::collections::HashSet<String> =
                d.types.iter().flat_map(|t| std::iter::once(t.name.clone()).chain(t.tyname().map(|x| x.to_string()))).collect();
            let names: Vec<String> = (0..n).map(|_| gen::fresh(r, style, "t", &mut used)).collect();
            let (e, l) = graph(r, &names, cyc);
            len = l;
            let at = *r.pick(&[0, d.types.len()]);
            let mut new: Vec<Sym> = e.iter().map(|(a, b)| Sym::plain(a).typed(Some(b))).collect();
            for x in &names {
                if r.chance(1, 6) {
                    let i = r.below(new.len() + 1);
                    new.insert(i, Sym::plain(x));
                }
            }
            d.types.splice(at..at, new);
            if r.chance(1, 3) {
                r.shuffle(&mut d.types);
            }
            if e.len() >= 2 {
                ctx.saw("types with two or more edges");
            }
        }
        _ => {
            let mut used = std::collections::HashSet::new();
            let names: Vec<String> = (0..n).map(|_| gen::fresh(r, style, "i", &mut used)).collect();
            let (e, l) = graph(r, &names, cyc);
            len = l;
            let mut kt: std::collections::HashSet<String> = names_of(&d, &p);
            let k = gen::fresh(r, style, "k", &mut kt);
            d.tasks.push(Task { name: k.clone(), line: 0, params: vec![] });
            let mut t = Tn::empty();
            for x in &names {
                t.subtasks.push(Sub { id: Some(Sym::plain(x)), task: Sym::plain(&k), terms: vec![] });
                if r.chance(1, 10) {
                    t.subtasks.push(Sub { id: None, task: Sym::plain(&k), terms: vec![] });
                }
            }
            t.ordering = Some(0);
            t.ords = Ords::Partial(e);
            if r.chance(1, 5) {
                t.cons = Some(vec![]);
            }
            if i % 4 == 2 {
                let m = gen::fresh(r, style, "m", &mut kt);
                let at = r.below(d.methods.len() + 1);
                d.methods.insert(at, Method { name: Sym::plain(&m), task: Sym::plain(&k), terms: vec![], params: vec![], pre: None, tn: t });
            } else {
                let params = match &p.htn {
                    Some((ps, _)) => ps.clone(),
                    None => None,
                };
                p.htn = Some((params, t));
            }
        }
    }
    let w = write_apart(ctx, r, &d, &p)?;
    let (ed, ep) = verify_both(ctx, &w, false)?;
    if let (Expect::Pass(_), Expect::Pass(_)) = (&ed, &ep) {
        ctx.saw(if types { "acyclic types accepted" } else { "acyclic orderings accepted" });
    }
    match len {
        0 => {}
        1 => ctx.saw("cycle of length 1"),
        2 => ctx.saw("cycle of length 2"),
        3..=10 => ctx.saw("cycle of length 3 to 10"),
        11..=100 => ctx.saw("cycle longer than 10"),
        _ => ctx.saw("cycle longer than 100"),
    }
    if n >= 2 {
        ctx.nontrivial(&[&w.db, &w.pb]);
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
    Ok(())
}
