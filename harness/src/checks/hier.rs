// C12: warnings. C13: counts and nullable tasks. C14: recursion.
use super::util::*;
use crate::ast::*;
use crate::core::*;
use crate::gen;
use crate::rng::Rng;
use crate::semref::{self, Tdg};
use crate::sut;
use crate::violated;
use serde_json::json;

pub static CHECKS: [&Check; 3] = [&C12, &C13, &C14];

const TDGS: &str = "generated hierarchies (1 to 400 tasks; sparse, dense, chains, cycles of every class, total, partial and no order, with and without actions and empty methods) and complete models";

static C12: Check = Check {
    id: "C12",
    rule: "a case is an error-free domain with its hierarchy, alone and with a problem; the warnings are compared with the tasks that have no primitive refinement according to the reference; non-trivial: there is a method; counted by content",
    required: &["no warning due", "one warning due", "several warnings due", "more than 50 tasks", "more than 300 warnings", "with a problem", "nullable tasks", "saved by nullability only"],
    assumptions: &[TDGS],
    cases: |t| if t { 500_000 } else { 60_000 },
    run: c12,
    workers: 8,
};

static C13: Check = Check {
    id: "C13",
    rule: "a case is a grammatical domain with defined tasks; counts and nullable tasks of the metadata (value and text) are compared with the reference; non-trivial: there is a method; counted by content",
    required: &["no nullable task", "some nullable tasks", "all tasks nullable", "nullable in more than 20 steps", "more than 255 methods", "more than 300 nullable tasks", "otherwise flawed domains", "methods with the same name", "an action declared twice"],
    assumptions: &[TDGS],
    cases: |t| if t { 500_000 } else { 80_000 },
    run: c13,
    workers: 8,
};

static C14: Check = Check {
    id: "C14",
    rule: "a case is a grammatical domain with defined tasks; the class of its recursion is compared with the reference, and the cycle given for it is checked step by step; non-trivial: there is a method with subtasks; counted by content",
    required: &[
        "Non-recursive", "Recursive", "Empty recursion", "Growing empty prefix recursion", "Grow and shrink recursion", "witness of 1 step",
        "witness of several steps", "witness longer than 20 steps", "witness longer than 300 steps", "partially ordered", "totally ordered",
    ],
    assumptions: &[TDGS, "the definition of the classes is that of the statement of the property"],
    cases: |t| if t { 500_000 } else { 90_000 },
    run: c14,
    workers: 8,
};

pub fn blank_problem() -> Problem {
    Problem { name: "p".into(), domain: "d".into(), ..Default::default() }
}

// long chains in which something at the far end decides
fn far(r: &mut Rng, n: usize) -> Domain {
    let mut d = Domain { name: "d".into(), ..Default::default() };
    for i in 0..n {
        d.tasks.push(Task { name: format!("t{}", i), line: 0, params: vec![] });
    }
    d.tasks.push(Task { name: "e".into(), line: 0, params: vec![] });
    d.actions.push(Action { name: "a".into(), line: 0, params: vec![], pre: None, eff: None });
    let mut k = 0;
    let mut add = |r: &mut Rng, d: &mut Domain, t: String, subs: Vec<String>| {
        k += 1;
        let tn = gen::network(r, &subs);
        d.methods.push(Method {
            name: Sym::plain(&format!("m{}", k)),
            task: Sym::plain(&t),
            terms: vec![],
            params: vec![],
            pre: None,
            tn,
        });
    };
    add(r, &mut d, "e".into(), vec![]);
    let side = r.below(4);
    for i in 0..n - 1 {
        let mut s = vec![format!("t{}", i + 1)];
        match side {
            1 => s.push("e".into()),
            2 => s.insert(0, "e".into()),
            3 if r.chance(1, 10) => s.push("a".into()),
            _ => {}
        }
        add(r, &mut d, format!("t{}", i), s);
    }
    let last = format!("t{}", n - 1);
    match r.below(6) {
        0 => add(r, &mut d, last, vec![]),
        1 => add(r, &mut d, last, vec!["a".into()]),
        2 => add(r, &mut d, last, vec!["t0".into()]),
        3 => add(r, &mut d, last, vec!["t0".into(), "e".into()]),
        4 => add(r, &mut d, last, vec!["a".into(), "t0".into()]),
        _ => {}
    }
    if r.chance(1, 2) {
        r.shuffle(&mut d.methods);
    }
    if r.chance(1, 2) {
        r.shuffle(&mut d.tasks);
    }
    d
}

// many methods and tasks
fn wide(r: &mut Rng) -> Domain {
    let mut d = Domain { name: "d".into(), ..Default::default() };
    let n = r.range(60, 300);
    for i in 0..n {
        d.tasks.push(Task { name: format!("t{}", i), line: 0, params: vec![] });
    }
    for i in 0..r.range(0, 300) {
        d.actions.push(Action { name: format!("a{}", i), line: 0, params: vec![], pre: None, eff: None });
    }
    let na = d.actions.len();
    for i in 0..r.range(256, 600) {
        let t = r.below(n);
        let mut subs = vec![];
        for _ in 0..r.below(3) {
            if na > 0 && r.chance(1, 3) {
                subs.push(format!("a{}", r.below(na)));
            } else {
                // mostly acyclic
                subs.push(format!("t{}", if r.chance(99, 100) && t + 1 < n { r.range(t + 1, n - 1) } else { r.below(n) }));
            }
        }
        let tn = gen::network(r, &subs);
        d.methods.push(Method {
            name: Sym::plain(&format!("m{}", i)),
            task: Sym::plain(&format!("t{}", t)),
            terms: vec![],
            params: vec![],
            pre: None,
            tn,
        });
    }
    d
}

// hundreds of tasks of the same kind, or one network of hundreds of subtasks, the last ones of which may decide
pub fn huge(r: &mut Rng) -> Domain {
    if r.chance(1, 3) {
        let n = r.range(305, 500);
        return far(r, n);
    }
    let mut d = Domain { name: "d".into(), ..Default::default() };
    let n = r.range(305, 600);
    for i in 0..n {
        d.tasks.push(Task { name: format!("t{}", i), line: 0, params: vec![] });
    }
    d.actions.push(Action { name: "a".into(), line: 0, params: vec![], pre: None, eff: None });
    let mut ms: Vec<(usize, Vec<String>)> = vec![];
    let act = || vec!["a".to_string()];
    // how the other tasks are refined: not at all, all in the same way, or in any way
    let others = r.below(5);
    let (p, q) = (*r.pick(&[1, 50, 99]), *r.pick(&[1, 50, 99]));
    let shape = r.below(3);
    for t in if shape == 0 { 0 } else { 1 }..n {
        match others {
            0 => {}
            1 | 2 => ms.push((t, vec![])),
            3 => ms.push((t, act())),
            _ if r.chance(p, 100) => ms.push((t, if r.chance(q, 100) { vec![] } else { act() })),
            _ => {}
        }
    }
    // one that is like no other
    let odd = r.range(1, n - 1);
    if r.chance(1, 2) {
        ms.retain(|x| x.0 != odd);
        match r.below(3) {
            0 => ms.push((odd, vec![])),
            1 => ms.push((odd, act())),
            _ => {}
        }
    }
    let special = match r.below(4) {
        0 => act(),
        1 => vec!["t0".to_string()],
        2 => vec!["a".to_string(), "t0".to_string()],
        _ => vec![format!("t{}", odd)],
    };
    match shape {
        // one network of hundreds of subtasks
        1 => {
            let k = r.range(305, 340);
            let mut s: Vec<String> = (1..n).map(|i| format!("t{}", i)).collect();
            s.truncate(k.max(n.min(340)).min(340));
            if r.chance(2, 3) {
                let i = r.below(s.len() + 1);
                s.splice(i..i, special);
            }
            ms.push((0, s));
        }
        // one task with hundreds of methods
        2 => {
            let at = r.below(n);
            for m in 0..n {
                let s = if m == at && r.chance(3, 4) { special.clone() } else { vec![format!("t{}", r.range(1, n - 1))] };
                ms.push((0, s));
            }
        }
        _ => {}
    }
    if r.chance(1, 2) {
        r.shuffle(&mut ms);
    }
    for (i, (t, s)) in ms.into_iter().enumerate() {
        let tn = gen::network(r, &s);
        d.methods.push(Method {
            name: Sym::plain(&format!("m{}", i)),
            task: Sym::plain(&format!("t{}", t)),
            terms: vec![],
            params: vec![],
            pre: None,
            tn,
        });
    }
    d
}

pub fn hierarchy(r: &mut Rng) -> (Domain, Problem) {
    if r.chance(1, 400) {
        return (huge(r), blank_problem());
    }
    match r.below(100) {
        0..=69 => (gen::tdg_domain(r), blank_problem()),
        70..=77 => ({
            let n = r.range(21, 120);
            far(r, n)
        }, blank_problem()),
        78 => (wide(r), blank_problem()),
        79..=82 => super::robust::dense(r),
        _ => some_model(r),
    }
}

fn c12(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let (d, p) = hierarchy(r);
    let w = write(ctx, r, &d, &p)?;
    let e = expect_domain(&w.d);
    let want = match &e {
        Expect::Pass(x) => x,
        Expect::Fail(_) | Expect::FailSomehow => return Ok(()),
        _ => return Ok(()),
    };
    let t = Tdg::new(&w.d).unwrap();
    let null = t.nullables();
    let reach = t.reaches_action();
    for i in 0..t.n_compound {
        if null[i] {
            ctx.saw("nullable tasks");
            if !reach[i] {
                ctx.saw("saved by nullability only");
            }
        }
    }
    ctx.saw(match want.len() {
        0 => "no warning due",
        1 => "one warning due",
        _ => "several warnings due",
    });
    if want.len() > 300 {
        ctx.saw("more than 300 warnings");
    }
    if w.d.tasks.len() > 50 {
        ctx.saw("more than 50 tasks");
    }
    if !w.d.methods.is_empty() {
        ctx.nontrivial(&[&w.db]);
    }
    judge("domain alone", &sut::verify(&w.db, None), &e, true)?;
    let ep = expect(&w.d, &w.p);
    if matches!(ep, Expect::Pass(_)) {
        ctx.saw("with a problem");
    }
    judge("domain and problem", &sut::verify(&w.db, Some(&w.pb)), &ep, true)?;
    ctx.sample(|| json!({ "domain": text(&w.db), "warnings due": want }));
    Ok(())
}

// flaws that do not concern the hierarchy
fn flaw_elsewhere(r: &mut Rng, d: &mut Domain) {
    let types: Vec<String> = vec!["undeclared".into()];
    match r.below(4) {
        0 => d.preds.push(Pred { name: "zp".into(), line: 0, args: vec![Sym::var("x").typed(Some(&types[0]))] }),
        1 => d.types.push(Sym::plain("zt").typed(Some("zt"))),
        2 => {
            if let Some(a) = d.actions.first_mut() {
                a.pre = Some(F::Atom(Pred { name: "undeclared-p".into(), line: 0, args: vec![] }));
            }
        }
        _ => {
            d.reqs = vec![0, 0];
        }
    }
}

pub fn meta_of(ctx: &mut Ctx, r: &mut Rng) -> Result<Option<(W, Tdg, sut::Meta)>, Stop> {
    let (mut d, p) = hierarchy(r);
    if r.chance(1, 10) {
        flaw_elsewhere(r, &mut d);
        ctx.saw("otherwise flawed domains");
    }
    if r.chance(1, 12) && d.methods.len() > 1 {
        for _ in 0..r.range(1, 3) {
            let n = r.pick(&d.methods).name.name.clone();
            let i = r.below(d.methods.len());
            d.methods[i].name.name = n;
        }
        if (1..d.methods.len()).any(|i| d.methods[..i].iter().any(|m| m.name.name == d.methods[i].name.name)) {
            ctx.saw("methods with the same name");
        }
    } else if r.chance(1, 12) && !d.actions.is_empty() {
        let a = r.pick(&d.actions).clone();
        let i = r.below(d.actions.len() + 1);
        d.actions.insert(i, a);
        ctx.saw("an action declared twice");
    }
    let w = write(ctx, r, &d, &p)?;
    let t = match Tdg::new(&w.d) {
        Some(t) => t,
        None => return Ok(None),
    };
    let with = if r.chance(1, 4) { Some(&w.pb[..]) } else { None };
    match ok("get_metadata", sut::metadata(&w.db, with))? {
        Err(e) => violated!("get_metadata: {} for a domain with defined tasks", e),
        Ok(m) => Ok(Some((w, t, m))),
    }
}

fn depth_of_nullability(t: &Tdg) -> usize {
    let mut null = vec![false; t.tasks.len()];
    let mut k = 0;
    loop {
        let new: Vec<usize> = t
            .methods
            .iter()
            .filter(|m| !null[m.1] && m.2.subtasks.iter().all(|s| null[*s]))
            .map(|m| m.1)
            .collect();
        if new.is_empty() {
            return k;
        }
        new.into_iter().for_each(|i| null[i] = true);
        k += 1;
    }
}

fn c13(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let (w, t, m) = match meta_of(ctx, r)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let null = t.nullables();
    let mut want: Vec<String> = (0..t.n_compound).filter(|i| null[*i]).map(|i| t.tasks[i].clone()).collect();
    want.sort();
    ctx.saw(if want.is_empty() {
        "no nullable task"
    } else if want.len() == t.n_compound {
        "all tasks nullable"
    } else {
        "some nullable tasks"
    });
    let k = depth_of_nullability(&t);
    if want.len() > 300 {
        ctx.saw("more than 300 nullable tasks");
    }
    ctx.max("steps to nullability", k as u64);
    if k > 20 {
        ctx.saw("nullable in more than 20 steps");
    }
    if w.d.methods.len() > 255 {
        ctx.saw("more than 255 methods");
    }
    if !w.d.methods.is_empty() {
        ctx.nontrivial(&[&w.db]);
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "metadata": m.text }));
    if m.nullables != want {
        violated!("nullable tasks {:?}, but {:?} are", m.nullables, want);
    }
    let counts = (m.actions, m.tasks, m.methods);
    let due = (w.d.actions.len() as u64, w.d.tasks.len() as u64, w.d.methods.len() as u64);
    if counts != due {
        violated!("(actions, tasks, methods) are {:?}, not {:?}", due, counts);
    }
    Ok(())
}

fn c14(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let (w, t, m) = match meta_of(ctx, r)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if t.class_unspec {
        return Ok(());
    }
    let class = t.class();
    ctx.saw(class);
    for x in &w.d.methods {
        match &x.tn.ords {
            Ords::Total if x.tn.subtasks.len() > 1 => ctx.saw("totally ordered"),
            Ords::Partial(o) if !o.is_empty() => ctx.saw("partially ordered"),
            _ => {}
        }
    }
    if w.d.methods.iter().any(|x| !x.tn.subtasks.is_empty()) {
        ctx.nontrivial(&[&w.db]);
    }
    ctx.sample(|| json!({ "domain": text(&w.db), "metadata": m.text }));
    if m.class != class {
        violated!("the recursion is called {:?} (cycle {:?}), but it is {:?}", m.class, m.cycle, class);
    }
    if class == semref::NON_RECURSIVE {
        if !m.cycle.is_empty() {
            violated!("a cycle {:?} is given for a domain without recursion", m.cycle);
        }
        return Ok(());
    }
    if let Err(e) = t.check_witness(class, &m.cycle) {
        violated!("the cycle given for {:?} is none: {} ({:?})", class, e, m.cycle);
    }
    ctx.saw(match m.cycle.len() / 2 {
        1 => "witness of 1 step",
        2..=20 => "witness of several steps",
        21..=300 => "witness longer than 20 steps",
        _ => "witness longer than 300 steps",
    });
    Ok(())
}
