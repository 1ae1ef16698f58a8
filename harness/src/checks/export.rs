// C02, C03: the export is what was written. C04: lines. C05: whitespace and comments.
use super::util::*;
use crate::ast::*;
use crate::core::*;
use crate::gen;
use crate::refp::{self, Verdict};
use crate::render::{self, *};
use crate::rng::Rng;
use crate::sut::{self, Out};
use crate::violated;
use serde_json::json;

pub static CHECKS: [&Check; 4] = [&C02, &C03, &C04, &C05];

static C02: Check = Check {
    id: "C02",
    rule: "a case is a generated domain (consistent or scrambled, with all notations, orders of sections and layouts) or a real one, exported alone and \
           with a problem; the export without positions is compared with the model that was written, element by element; \
           non-trivial: at least three declarations; counted by content of the document",
    required: &[
        "types", "constants", "predicates", "functions", "tasks", "actions", "methods", "quantifiers", "probabilistic", "equality", "or", "oneof",
        "total orders", "partial orders", "task ids", "constraints", "empty networks", "more than 255 elements",
    ],
    assumptions: &["the generated model is what the document declares (cross-checked with the reference parser on every case)"],
    cases: |t| if t { 400_000 } else { 60_000 },
    run: c02,
    workers: 8,
};

static C03: Check = Check {
    id: "C03",
    rule: "a case is a generated problem (consistent or scrambled, with all notations, orders of sections and layouts) or a real one, exported with a domain; \
           the export without positions is compared with the model that was written, element by element; non-trivial: at least three declarations; counted by content",
    required: &[
        "objects", "facts", "goals", "quantified goals", "htn with parameters", "htn without parameters", "no htn", "total orders", "partial orders",
        "task ids", "constraints", "requirements", "more than 255 elements",
    ],
    assumptions: &["the generated model is what the document declares (cross-checked with the reference parser on every case)"],
    cases: |t| if t { 400_000 } else { 60_000 },
    run: c03,
    workers: 8,
};

static C04: Check = Check {
    id: "C04",
    rule: "a case is a pair of documents in one of seven layouts (up to 200000 lines); every position of the export is compared with the line of that token according to the reference lexer, \
           and so are the lines of the errors (scrambled models, damaged documents) and warnings; whatever else is reported, about any bytes, is about a line they have; non-trivial: tokens on more than two lines; counted by content",
    required: &[
        "exports compared", "lines of semantic errors", "lines of syntactic or lexical errors", "lines of warnings", "beyond line 65535",
        "beyond line 255", "errors in the problem",
        "errors about a line of the document", "exports about lines of the document",
    ],
    assumptions: &["lines are ended by a newline character (carriage returns are whitespace)"],
    cases: |t| if t { 300_000 } else { 60_000 },
    run: c04,
    workers: 8,
};

static C05: Check = Check {
    id: "C05",
    rule: "a case is one pair of token sequences (valid, scrambled, damaged or real) laid out in three or more ways, with and without comments; all outcomes of the three analyses are compared up to lines; \
           non-trivial: the layouts differ; counted by tokens",
    required: &["same result", "same semantic error", "same syntactic or lexical error", "ends in a comment", "ends without newline", "with warnings"],
    assumptions: &["a space is left where removing it would join two tokens"],
    cases: |t| if t { 200_000 } else { 28_000 },
    run: c05,
    workers: 8,
};

fn count_formula(ctx: &mut Ctx, f: &F) {
    match f {
        F::Empty | F::Atom(_) => {}
        F::Not(x) => count_formula(ctx, x),
        F::And(x) | F::Or(x) | F::Xor(x) => {
            match f {
                F::Or(_) => ctx.saw("or"),
                F::Xor(_) => ctx.saw("oneof"),
                _ => {}
            }
            x.iter().for_each(|y| count_formula(ctx, y))
        }
        F::ForAll(_, x) | F::Exists(_, x) => {
            ctx.saw("quantifiers");
            count_formula(ctx, x)
        }
        F::Prob(x) => {
            ctx.saw("probabilistic");
            x.iter().for_each(|y| count_formula(ctx, &y.1))
        }
        F::Eq(_, _) => ctx.saw("equality"),
    }
}

fn count_tn(ctx: &mut Ctx, t: &Tn) {
    match &t.ords {
        Ords::Total => ctx.saw("total orders"),
        Ords::Partial(o) if !o.is_empty() => ctx.saw("partial orders"),
        _ => {}
    }
    if t.subtasks.iter().any(|s| s.id.is_some()) {
        ctx.saw("task ids");
    }
    if t.cons.is_some() {
        ctx.saw("constraints");
    }
    if t.subtasks.is_empty() {
        ctx.saw("empty networks");
    }
    if t.subtasks.len() > 255 {
        ctx.saw("more than 255 elements");
    }
}

// models for the export: consistent ones, scrambled ones, and some that strain a single list
fn export_model(r: &mut Rng) -> (Domain, Problem) {
    let (mut d, mut p) = some_model(r);
    if r.chance(1, 3) {
        let n = r.range(1, 5);
        scramble(r, &mut d, &mut p, n);
    }
    match r.below(40) {
        0 => {
            // long lists with few distinct types
            let n = r.range(257, 600);
            for i in 0..n {
                d.types.push(Sym::plain(&format!("tt{}", i)).typed(Some(if i % 97 < 60 { "u1" } else { "u2" })));
                d.consts.push(Sym::plain(&format!("cc{}", i)).typed(if i % 89 < 50 { Some("u1") } else { None }));
            }
        }
        1 => {
            let n = r.range(257, 700);
            for i in 0..n {
                p.init.push(Pred { name: format!("f{}", i % 7), line: 0, args: vec![Sym::plain(&format!("o{}", i))] });
                p.objects.push(Sym::plain(&format!("oo{}", i)).typed(if i % 67 < 50 { Some("u1") } else { None }));
            }
        }
        2 => {
            // a network with many subtasks
            let n = r.range(257, 400);
            let names: Vec<String> = (0..n).map(|i| format!("k{}", i % 11)).collect();
            let tn = gen::network(r, &names);
            if r.chance(1, 2) {
                p.htn = Some((None, tn));
            } else {
                d.methods.push(Method {
                    name: Sym::plain("mm"),
                    task: Sym::plain("kk"),
                    terms: vec![],
                    params: vec![],
                    pre: None,
                    tn,
                });
            }
        }
        3 => {
            let n = r.range(257, 400);
            let xs: Vec<F> = (0..n)
                .map(|i| F::Atom(Pred { name: format!("f{}", i % 5), line: 0, args: vec![Sym::plain(&format!("o{}", i))] }))
                .collect();
            p.goal = Some(if r.chance(1, 2) { F::And(xs.clone()) } else { F::Or(xs.clone()) });
            if let Some(a) = d.actions.first_mut() {
                a.eff = Some(F::And(xs));
            }
        }
        4 => {
            // repeated elements: nothing is to be merged
            for i in (0..d.types.len()).rev() {
                if r.chance(1, 2) {
                    let x = d.types[i].clone();
                    d.types.insert(i, x);
                }
            }
            for i in (0..p.init.len()).rev() {
                if r.chance(1, 2) {
                    let x = p.init[i].clone();
                    p.init.insert(i, x);
                }
            }
            for m in &mut d.methods {
                if let Ords::Partial(o) = &mut m.tn.ords {
                    let x = o.clone();
                    o.extend(x);
                }
            }
        }
        _ => {}
    }
    (d, p)
}

fn real(ctx: &mut Ctx, r: &mut Rng) -> Option<W> {
    let c = corpus(ctx.thorough);
    if c.pairs.is_empty() || !r.chance(1, 150) {
        return None;
    }
    let (d, ps, _) = r.pick(&c.pairs);
    if ps.is_empty() {
        return None;
    }
    let p = r.pick(ps);
    if !ctx.thorough && d.len() + p.len() > 60_000 {
        return None;
    }
    if let (Verdict::Dom(dm), Verdict::Prob(pm)) = (refp::parse(d), refp::parse(p)) {
        ctx.doc("domain.hddl", d);
        ctx.doc("problem.hddl", p);
        ctx.saw("real documents");
        return Some(W { d: dm, p: pm, dt: vec![], pt: vec![], db: d.clone(), pb: p.clone() });
    }
    None
}

fn next_model(ctx: &mut Ctx, r: &mut Rng) -> Result<W, Stop> {
    if let Some(w) = real(ctx, r) {
        return Ok(w);
    }
    let (d, p) = export_model(r);
    write(ctx, r, &d, &p)
}

fn c02(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let w = next_model(ctx, r)?;
    let d = &w.d;
    for (n, k) in [
        (d.types.len(), "types"),
        (d.consts.len(), "constants"),
        (d.preds.len(), "predicates"),
        (d.funcs.len(), "functions"),
        (d.tasks.len(), "tasks"),
        (d.actions.len(), "actions"),
        (d.methods.len(), "methods"),
    ] {
        ctx.saw_n(k, n as u64);
        if n > 255 {
            ctx.saw("more than 255 elements");
        }
    }
    for a in &d.actions {
        a.pre.iter().chain(a.eff.iter()).for_each(|f| count_formula(ctx, f));
    }
    for m in &d.methods {
        m.pre.iter().for_each(|f| count_formula(ctx, f));
        count_tn(ctx, &m.tn);
    }
    if d.types.len() + d.preds.len() + d.tasks.len() + d.actions.len() + d.methods.len() >= 3 {
        ctx.nontrivial(&[&w.db]);
    }
    ctx.sample(|| json!({ "domain": text(&w.db) }));
    let want = domain_value(d, false);
    let with = r.chance(1, 2);
    for p in [None, Some(&w.pb[..])] {
        if p.is_some() && !with {
            continue;
        }
        match ok("to_json", sut::to_json(&w.db, p))? {
            Err(e) => violated!("to_json: {} for a grammatical domain", e),
            Ok(x) => {
                if let Some(m) = diff(&want, &strip(&x.domain), "domain") {
                    violated!("the export differs from the document: {}", m);
                }
            }
        }
    }
    Ok(())
}

fn c03(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let w = next_model(ctx, r)?;
    let p = &w.p;
    ctx.saw_n("objects", p.objects.len() as u64);
    ctx.saw_n("facts", p.init.len() as u64);
    ctx.saw_n("requirements", p.reqs.len() as u64);
    if p.objects.len().max(p.init.len()) > 255 {
        ctx.saw("more than 255 elements");
    }
    if let Some(g) = &p.goal {
        ctx.saw("goals");
        let before = ctx.seen.get("quantifiers").cloned();
        count_formula(ctx, g);
        if ctx.seen.get("quantifiers").cloned() != before {
            ctx.saw("quantified goals");
        }
    }
    match &p.htn {
        None => ctx.saw("no htn"),
        Some((ps, t)) => {
            ctx.saw(if ps.is_some() { "htn with parameters" } else { "htn without parameters" });
            count_tn(ctx, t);
        }
    }
    let size = p.objects.len() + p.init.len() + p.htn.as_ref().map(|x| x.1.subtasks.len()).unwrap_or(0);
    if size >= 3 {
        ctx.nontrivial(&[&w.pb]);
    }
    ctx.sample(|| json!({ "problem": text(&w.pb) }));
    let want = problem_value(p, false);
    // the domain does not matter
    let other = r.chance(1, 3);
    let d: &[u8] = if other { FULL_DOMAIN.as_bytes() } else { &w.db };
    match ok("to_json", sut::to_json(d, Some(&w.pb)))? {
        Err(e) => violated!("to_json: {} for grammatical documents", e),
        Ok(x) => {
            if let Some(m) = diff(&want, &strip(x.problem.as_ref().unwrap()), "problem") {
                violated!("the export differs from the document: {}", m);
            }
        }
    }
    Ok(())
}

fn deep(ctx: &mut Ctx, lines: &[u32]) {
    for l in lines {
        if *l > 65535 {
            ctx.saw("beyond line 65535");
        } else if *l > 255 {
            ctx.saw("beyond line 255");
        }
    }
}

fn c04(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    match i % 4 {
        // exports
        0 | 1 => {
            let w = if i % 200 == 0 {
                let (d, p) = export_model(r);
                write_as(ctx, r, &d, &p, Style::Varied, render::Layout::Tall, render::Layout::Tall)?
            } else {
                next_model(ctx, r)?
            };
            if w.d.tasks.len() + w.d.actions.len() > 2 {
                ctx.nontrivial(&[&w.db, &w.pb]);
            }
            let lines = [refp::lex(&w.db).last_line, refp::lex(&w.pb).last_line];
            deep(ctx, &lines);
            match ok("to_json", sut::to_json(&w.db, Some(&w.pb)))? {
                Err(e) => violated!("to_json: {} for grammatical documents", e),
                Ok(x) => {
                    ctx.saw("exports compared");
                    if let Some(m) = diff(&domain_value(&w.d, true), &x.domain, "domain") {
                        violated!("positions of the export: {}", m);
                    }
                    if let Some(m) = diff(&problem_value(&w.p, true), x.problem.as_ref().unwrap(), "problem") {
                        violated!("positions of the export: {}", m);
                    }
                }
            }
            ctx.sample(|| json!({ "domain": text(&w.db), "problem": text(&w.pb) }));
            Ok(())
        }
        // errors and warnings about the meaning
        2 => {
            let (mut d, mut p) = if r.chance(1, 4) {
                (gen::tdg_domain(r), Problem { name: "p".into(), domain: "d".into(), ..Default::default() })
            } else {
                some_model(r)
            };
            if r.chance(5, 6) {
                let n = *r.pick(&[1, 1, 1, 2, 3]);
                scramble(r, &mut d, &mut p, n);
            }
            let w = write_apart(ctx, r, &d, &p)?;
            ctx.nontrivial(&[&w.db, &w.pb]);
            for (what, out, e) in [
                ("domain alone", sut::verify(&w.db, None), expect_domain(&w.d)),
                ("domain and problem", sut::verify(&w.db, Some(&w.pb)), expect(&w.d, &w.p)),
            ] {
                match (&out, &e) {
                    (Out::Crash(m), _) => violated!("{}: {}", what, m),
                    (Out::Err(x), Expect::Fail(fs)) => {
                        // only the lines matter here: those of a flaw of the same kind and symbol
                        let same: Vec<_> = fs.iter().filter(|f| f.kind == x.f.kind && f.fields.first() == x.f.fields.first()).collect();
                        if !same.is_empty() {
                            ctx.saw("lines of semantic errors");
                            deep(ctx, &x.f.lines);
                            if what != "domain alone" && matches!(expect_domain(&w.d), Expect::Pass(_)) {
                                ctx.saw("errors in the problem");
                            }
                            if !same.iter().any(|f| f.lines == x.f.lines) {
                                violated!("{}: {}, but the lines are those of {:?}", what, x, same);
                            }
                        }
                    }
                    (Out::Ok(ws), Expect::Pass(want)) => {
                        for (n, l) in ws {
                            if let Some((_, m)) = want.iter().find(|x| x.0 == *n) {
                                ctx.saw("lines of warnings");
                                deep(ctx, &[*l]);
                                if l != m {
                                    violated!("{}: the warning about {} is at line {}, not {}", what, n, l, m);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ok(())
        }
        // errors about the form
        _ => {
            let (d, p) = any_documents(ctx, r);
            let dom = r.chance(1, 2);
            let toks = match split(if dom { &d } else { &p }) {
                Some(t) => t,
                None => return Ok(()),
            };
            for _ in 0..6 {
                let mut t = toks.clone();
                mutate_tokens(r, &mut t, 1);
                let l = if r.chance(1, 200) { render::Layout::Tall } else { any_layout(r) };
                let b = layout(r, &t, l);
                if let Verdict::Reject(x, y) = refp::parse(&b) {
                    ctx.docs.clear();
                    ctx.doc(if dom { "domain.hddl" } else { "problem.hddl" }, &b);
                    ctx.nontrivial(&[&b]);
                    let outs = if dom {
                        vec![sut::verify(&b, None), to_unit(sut::metadata(&b, None)), to_unit(sut::to_json_text(&b, None))]
                    } else {
                        let d = b"(define (domain d))";
                        vec![sut::verify(d, Some(&b)), to_unit(sut::to_json_text(d, Some(&b)))]
                    };
                    for o in outs {
                        if let Out::Crash(m) = &o {
                            violated!("{}", m);
                        }
                        if let Out::Err(e) = &o {
                            if is_parse_error(&e.f) {
                                ctx.saw("lines of syntactic or lexical errors");
                                deep(ctx, &e.f.lines);
                                if e.f.lines[0] < x || e.f.lines[0] > y {
                                    violated!("{}, but the document goes wrong at line {} (to {})", e, x, y);
                                }
                            }
                        }
                    }
                }
            }
            // whatever is reported about whatever document is about a line it has
            let (mut d, mut p) = (d, p);
            if r.chance(2, 3) {
                let n = r.range(1, 3);
                let of = if r.chance(1, 2) { &mut d } else { &mut p };
                mutate_bytes(r, of, n);
            }
            within(ctx, &d, &p)
        }
    }
}

fn within(ctx: &mut Ctx, d: &[u8], p: &[u8]) -> Res {
    ctx.docs.clear();
    ctx.doc("domain.hddl", d);
    ctx.doc("problem.hddl", p);
    let count = |b: &[u8]| b.iter().filter(|c| **c == b'\n').count() as u32 + 1;
    let (dl, pl) = (count(d), count(p));
    for (what, a, b) in [("domain alone", d, None), ("domain and problem", d, Some(p)), ("problem as a domain", p, None), ("domain as a problem", d, Some(d))] {
        let last = match b {
            None if what == "problem as a domain" => pl,
            Some(_) if what == "domain and problem" => dl.max(pl),
            _ => dl,
        };
        let mut lines = vec![];
        match sut::verify(a, b) {
            Out::Crash(m) => violated!("verify: {}", m),
            Out::Err(e) => {
                ctx.saw("errors about a line of the document");
                lines.extend(e.f.lines);
            }
            Out::Ok(ws) => lines.extend(ws.iter().map(|w| w.1)),
        }
        match sut::to_json(a, b) {
            Out::Crash(m) => violated!("to_json: {}", m),
            Out::Err(e) => lines.extend(e.f.lines),
            Out::Ok(x) => {
                ctx.saw("exports about lines of the document");
                all_lines(&x.domain, &mut lines);
                if let Some(p) = &x.problem {
                    all_lines(p, &mut lines);
                }
            }
        }
        if let Some(l) = lines.iter().find(|l| **l < 1 || **l > last) {
            violated!("{}: line {} is reported, but there are lines 1 to {} only", what, l, last);
        }
    }
    Ok(())
}

fn all_lines(v: &serde_json::Value, out: &mut Vec<u32>) {
    match v {
        serde_json::Value::Object(m) => {
            for (k, v) in m {
                match v.as_u64() {
                    Some(n) if k == "line" => out.push(n.min(u32::MAX as u64) as u32),
                    _ => all_lines(v, out),
                }
            }
        }
        serde_json::Value::Array(a) => a.iter().for_each(|v| all_lines(v, out)),
        _ => {}
    }
}

pub fn to_unit<X>(o: Out<X>) -> Out<Vec<sut::Warn>> {
    match o {
        Out::Ok(_) => Out::Ok(vec![]),
        Out::Err(e) => Out::Err(e),
        Out::Crash(m) => Out::Crash(m),
    }
}

// ---------------------------------------------------------------- C05

// outcomes without lines
#[derive(Debug, PartialEq, Clone)]
struct Lineless {
    verify: [Result<Vec<String>, (String, Vec<String>)>; 2],
    json: [Result<serde_json::Value, (String, Vec<String>)>; 2],
    meta: Result<(String, Vec<String>, u64, u64, u64), (String, Vec<String>)>,
}

fn lineless(d: &[u8], p: &[u8]) -> Result<Lineless, Stop> {
    let e = |x: sut::ErrInfo| (x.f.kind, x.f.fields);
    let v = |p: Option<&[u8]>| -> Result<_, Stop> {
        Ok(ok("verify", sut::verify(d, p))?.map_err(e).map(|w| {
            let mut w: Vec<String> = w.into_iter().map(|x| x.0).collect();
            w.sort();
            w
        }))
    };
    let j = |p: Option<&[u8]>| -> Result<_, Stop> {
        Ok(ok("to_json", sut::to_json(d, p))?
            .map_err(e)
            .map(|x| json!([strip(&x.domain), x.problem.as_ref().map(strip)])))
    };
    Ok(Lineless {
        verify: [v(None)?, v(Some(p))?],
        json: [j(None)?, j(Some(p))?],
        meta: ok("get_metadata", sut::metadata(d, None))?
            .map_err(e)
            .map(|m| (m.class, m.nullables, m.actions, m.tasks, m.methods)),
    })
}

fn c05(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let (d, p) = any_documents(ctx, r);
    let (mut dt, mut pt) = match (split(&d), split(&p)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    match r.below(5) {
        0 => mutate_tokens(r, &mut dt, 1),
        1 => mutate_tokens(r, &mut pt, 1),
        _ => {}
    }
    // the first layout, and what its tokens are
    let b0 = (layout(r, &dt, render::Layout::OneLine), layout(r, &pt, render::Layout::OneLine));
    let tokens = |b: &[u8]| -> Vec<refp::T> { refp::lex(b).toks.into_iter().map(|x| x.0).collect() };
    let (t0, u0) = (tokens(&b0.0), tokens(&b0.1));
    let base = {
        ctx.doc("domain-0.hddl", &b0.0);
        ctx.doc("problem-0.hddl", &b0.1);
        lineless(&b0.0, &b0.1)?
    };
    ctx.nontrivial(&[&b0.0, &b0.1]);
    match &base.verify[1] {
        Ok(w) => {
            ctx.saw("same result");
            if !w.is_empty() {
                ctx.saw("with warnings");
            }
        }
        Err((k, _)) if k == "Lexical" || k == "Syntactic" => ctx.saw("same syntactic or lexical error"),
        Err(_) => ctx.saw("same semantic error"),
    }
    let n = if dt.len() + pt.len() > 3000 { 2 } else { 4 };
    for k in 0..n {
        let (l1, l2) = (any_layout(r), any_layout(r));
        let mut b = (layout(r, &dt, l1), layout(r, &pt, l2));
        if k == 0 {
            // within a comment at the very end, or right after the last token
            for x in [&mut b.0, &mut b.1] {
                while x.last().map(|c| matches!(c, b' ' | b'\n' | b'\t' | b'\r')).unwrap_or(false) {
                    x.pop();
                }
                if r.chance(1, 2) {
                    comment(r, x);
                    while x.last() == Some(&b'\n') {
                        x.pop();
                    }
                    ctx.saw("ends in a comment");
                } else {
                    ctx.saw("ends without newline");
                }
            }
        }
        if k == 1 {
            // comments right after tokens, without any space
            for (x, t) in [(&mut b.0, &dt), (&mut b.1, &pt)] {
                let mut out = vec![];
                for s in t {
                    out.extend_from_slice(s.as_bytes());
                    comment(r, &mut out);
                    out.push(b'\n');
                }
                *x = out;
            }
        }
        if tokens(&b.0) != t0 || tokens(&b.1) != u0 {
            // damaged tokens may join differently: not the same tokens
            ctx.saw("tokens joined: skipped");
            continue;
        }
        ctx.docs.truncate(2);
        ctx.doc("domain-1.hddl", &b.0);
        ctx.doc("problem-1.hddl", &b.1);
        let x = lineless(&b.0, &b.1)?;
        ctx.saw(&format!("layout {:?}", l1));
        if x != base {
            let show = |x: &Lineless| format!("{:?}", x).chars().take(1500).collect::<String>();
            // the syntactic error at the end of a document may quote what it found
            violated!("another layout of the same tokens has another outcome:\n{}\n{}", show(&base), show(&x));
        }
    }
    ctx.sample(|| json!({ "domain": text(&b0.0), "problem": text(&b0.1) }));
    Ok(())
}
