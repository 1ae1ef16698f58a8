// Relations between several analyses. C15: repetition, threads, other processes. C20: renaming.
// C21: permutation. C22: agreement of the entry points.
use super::flaws;
use super::util::*;
use crate::ast::*;
use crate::core::*;
use crate::gen::{self, Cat, NameStyle, STYLES};
use crate::refp::{self, Verdict};
use crate::render::{any_layout, layout, Style, Writer};
use crate::rng::{hash_bytes, Rng};
use crate::semref::{self, Finding, Tdg};
use crate::sut::{self, ErrInfo, Out};
use crate::{harness, violated};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub static CHECKS: [&Check; 4] = [&C15, &C20, &C21, &C22];

static C15: Check = Check {
    id: "C15",
    rule: "a case is a batch of pairs of documents, each analysed through all entry points alone, again, after the others in several orders, concurrently on 2 to 8 threads, and in other processes (new hash seeds); every outcome is compared with the first one; non-trivial: a pair with an outcome other than a parse error; counted by content",
    required: &[
        "repeated in another order", "analysed concurrently", "analysed in another process", "overlapping analyses", "the same documents on several threads at once",
        "outcome: parse error", "outcome: semantic error", "outcome: warnings", "outcome: no warnings", "several flaws", "several flaws of the problem", "variants of the same model",
    ],
    assumptions: &[
        "the cycle given as a witness of recursion may differ between runs (its validity is C14), and the order of the elements of JSON objects and of lists of warnings may",
        "thread interleavings are those the scheduler produced, with analyses overlapping in time as counted",
    ],
    cases: |t| if t { 30_000 } else { 1_200 },
    run: c15,
    workers: 3,
};

static C20: Check = Check {
    id: "C20",
    rule: "a case is a model (consistent, or with a flaw) written with its own names and, in the same layout, with other names by an injective map, for all kinds of names at once or per kind; all outcomes are compared up to the map; non-trivial: more than three names; counted by content",
    required: &[
        "permuted names", "one map for all kinds", "one map per kind", "prefixes", "differing in case", "keyword-like", "long", "same outcome: Ok with warnings",
        "same outcome: Ok", "same outcome: single flaw", "same export", "same class: recursive", "type names", "names of other kinds",
    ],
    assumptions: &["names consist of ASCII letters, digits, '-' and '_' and are no reserved words", "with several flaws, both outcomes are errors about one of them"],
    cases: |t| if t { 400_000 } else { 50_000 },
    run: c20,
    workers: 8,
};

static C21: Check = Check {
    id: "C21",
    rule: "a case is a model (consistent, or with a flaw) and a permutation of its sections, declarations, facts, conjuncts, requirements, constraints and unordered subtasks; the outcomes are compared; non-trivial: the written documents differ; counted by content",
    required: &["accepted", "accepted with warnings", "single flaw", "several flaws", "recursive", "nullable tasks", "uses before declarations"],
    assumptions: &["of single flaws, the kind and the names are compared (lines move with the declarations)"],
    cases: |t| if t { 400_000 } else { 50_000 },
    run: c21,
    workers: 8,
};

static C22: Check = Check {
    id: "C22",
    rule: "a case is a pair of documents (consistent, flawed, malformed, of the wrong kind, from different models) given to all entry points, with and without the problem; the outcomes are compared with each other; non-trivial: distinct pair",
    required: &[
        "domain rejected", "domain flawed", "problem rejected", "problem flawed", "both accepted", "metadata error", "export error in the problem", "problem of another domain",
        "wrong kind of document", "next to nothing", "truncated", "metadata of a flawed domain",
    ],
    assumptions: &["whether a method refers to an undefined task is decided by the reference, for documents the reference can parse"],
    cases: |t| if t { 500_000 } else { 100_000 },
    run: c22,
    workers: 8,
};

// ---------------------------------------------------------------- C15

fn show_err(e: &ErrInfo) -> Value {
    json!({ "error": e.f.kind, "fields": e.f.fields, "lines": e.f.lines, "text": e.text })
}

// everything about two documents that does not vary, or a crash
pub fn digest(d: &[u8], p: &[u8], backwards: bool) -> Result<Value, String> {
    fn part<X>(o: Out<X>, f: impl FnOnce(X) -> Value) -> Result<Value, String> {
        match o {
            Out::Ok(x) => Ok(f(x)),
            Out::Err(e) => Ok(show_err(&e)),
            Out::Crash(m) => Err(m),
        }
    }
    let one = |k: usize| -> Result<Value, String> {
        match k {
            0 => part(sut::verify(d, None), |w| json!(w)),
            1 => part(sut::verify(d, Some(p)), |w| json!(w)),
            2 => part(sut::metadata(d, None), |m| json!([m.class, m.nullables, m.actions, m.tasks, m.methods])),
            3 => part(sut::to_json(d, None), |x| json!(hash_bytes(x.domain.to_string().as_bytes()))),
            _ => part(sut::to_json(d, Some(p)), |x| {
                json!([
                    hash_bytes(x.domain.to_string().as_bytes()),
                    hash_bytes(x.problem.unwrap_or(Value::Null).to_string().as_bytes())
                ])
            }),
        }
    };
    let mut v = vec![Value::Null; 5];
    for i in 0..5 {
        let k = if backwards { 4 - i } else { i };
        v[k] = one(k)?;
    }
    Ok(Value::Array(v))
}

// vh digest <folder> <i>...: prints the digests of <folder>/<i>.d and <folder>/<i>.p, in this order
pub fn digest_main(a: &[String]) -> i32 {
    sut::install_hook();
    let dir = std::path::PathBuf::from(&a[0]);
    let order: Vec<usize> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut out = vec![];
            for (at, i) in order.into_iter().enumerate() {
                let d = std::fs::read(dir.join(format!("{}.d", i))).unwrap();
                let p = std::fs::read(dir.join(format!("{}.p", i))).unwrap();
                out.push(match digest(&d, &p, at % 2 == 1) {
                    Ok(v) => v,
                    Err(m) => json!({ "crash": m }),
                });
            }
            println!("{}", Value::Array(out));
        })
        .unwrap();
    t.join().map(|_| 0).unwrap_or(2)
}

// many flaws at once, of the same kind or of several
fn many_flaws(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (mut d, mut p) = model(r);
    let n = r.range(2, 12);
    scramble(r, &mut d, &mut p, n);
    let dt = Writer::new(r, Style::Varied).domain(&d);
    let pt = Writer::new(r, Style::Varied).problem(&p);
    let (dl, pl) = (any_layout(r), any_layout(r));
    (layout(r, &dt, dl), layout(r, &pt, pl))
}

// flaws of the same kind at all uses of one place, so that the first or another one could be reported
fn same_flaws(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (mut d, mut p) = model(r);
    let fact = |r: &mut Rng, q: &Pred, terms: &[String]| Pred {
        name: q.name.clone(),
        line: 0,
        args: q.args.iter().map(|_| Sym::plain(if terms.is_empty() { "zz" } else { r.pick(terms) })).collect(),
    };
    let terms: Vec<String> = d.consts.iter().chain(&p.objects).map(|x| x.name.clone()).collect();
    let preds = d.preds.clone();
    if !preds.is_empty() {
        match r.below(4) {
            0 => {
                let n = r.range(2, 12);
                p.goal = Some(F::And((0..n).map(|_| F::Atom({ let k = r.below(preds.len()); fact(r, &preds[k], &terms) })).collect()));
            }
            1 => {
                for _ in 0..r.range(2, 12) {
                    p.init.push({ let k = r.below(preds.len()); fact(r, &preds[k], &terms) });
                }
            }
            _ => {}
        }
    }
    match r.below(7) {
        // all objects are of a type of their own
        0 | 1 => {
            d.types.push(Sym::plain("zt"));
            p.objects.iter_mut().for_each(|x| x.ty = Some(("zt".into(), 0)));
        }
        // undefined types
        2 => {
            let mut all: Vec<&mut Sym> = match r.below(4) {
                0 => d.consts.iter_mut().collect(),
                1 => p.objects.iter_mut().collect(),
                2 => d.preds.iter_mut().flat_map(|x| x.args.iter_mut()).collect(),
                _ => d.tasks.iter_mut().flat_map(|x| x.params.iter_mut()).collect(),
            };
            for (k, x) in all.iter_mut().enumerate() {
                x.ty = Some((format!("zt{}", k), 0));
            }
        }
        // one kind of use: undefined, or with another number of arguments
        _ => {
            let mut cats = vec![];
            gen::visit_calls(&mut d, &mut p, &mut |c, _, _| {
                if !cats.contains(&c) {
                    cats.push(c)
                }
            });
            if !cats.is_empty() {
                let c = *r.pick(&cats);
                let how = r.below(3);
                let mut k = 0;
                gen::visit_calls(&mut d, &mut p, &mut |x, name, args| {
                    if x == c {
                        k += 1;
                        match how {
                            0 => *name = format!("undefined{}", k),
                            1 => args.push(Sym::plain("zz")),
                            _ => args.iter_mut().for_each(|a| a.name = format!("undefined{}", k)),
                        }
                    }
                });
            }
        }
    }
    let dt = Writer::new(r, Style::Varied).domain(&d);
    let pt = Writer::new(r, Style::Varied).problem(&p);
    let (dl, pl) = (any_layout(r), any_layout(r));
    (layout(r, &dt, dl), layout(r, &pt, pl))
}

// variants of one model: the same names, with other meanings
fn family(r: &mut Rng, n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let (d0, p0) = match r.below(4) {
        0 => (crate::gen::tdg_domain(r), Problem { name: "p".into(), domain: "d".into(), ..Default::default() }),
        1 => super::robust::dense(r),
        _ => model(r),
    };
    let style = if r.chance(1, 2) { Style::Conventional } else { Style::Varied };
    let (dl, pl) = (any_layout(r), any_layout(r));
    let mut out = vec![];
    for k in 0..n {
        let (mut d, mut p) = (d0.clone(), p0.clone());
        for _ in 0..if k == 0 { 0 } else { r.range(1, 2) } {
            match r.below(9) {
                0 => flaws::change_types(r, &mut d, &mut p),
                1 => flaws::change_arity(r, &mut d, &mut p),
                2 => flaws::undefine(r, &mut d, &mut p),
                3 => flaws::duplicate(r, &mut d, &mut p),
                4 | 5 if d.types.len() > 1 => {
                    // another parent
                    let names: Vec<String> = d.types.iter().map(|x| x.name.clone()).collect();
                    for _ in 0..r.range(1, 3) {
                        let (a, b) = (r.below(names.len()), r.below(names.len()));
                        let x = &mut d.types[a];
                        *x = if r.chance(1, 4) { x.clone().typed(None) } else { x.clone().typed(Some(&names[b])) };
                    }
                }
                6 | 7 if !d.methods.is_empty() && !d.tasks.is_empty() => {
                    // another subtask, or none
                    let m = r.below(d.methods.len());
                    let t = r.below(d.tasks.len());
                    let (name, subs) = (d.tasks[t].name.clone(), &mut d.methods[m].tn.subtasks);
                    if subs.is_empty() || r.chance(1, 3) {
                        subs.clear();
                        d.methods[m].tn.ords = crate::ast::Ords::Total;
                        d.methods[m].tn.ordering = None;
                    } else {
                        let k = r.below(subs.len());
                        subs[k].task.name = name;
                        subs[k].terms.clear();
                    }
                }
                _ => scramble(r, &mut d, &mut p, 1),
            }
        }
        let dt = Writer::new(r, style).domain(&d);
        let pt = Writer::new(r, style).problem(&p);
        out.push((layout(r, &dt, dl), layout(r, &pt, pl)));
    }
    out
}

fn c15(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let n = r.range(3, 10);
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if r.chance(1, 2) {
        ctx.saw("variants of the same model");
        pairs = family(r, n);
    }
    for _ in pairs.len()..n {
        let (mut d, mut p) = match r.below(6) {
            0 => many_flaws(r),
            1 | 2 => same_flaws(r),
            _ => any_documents(ctx, r),
        };
        match r.below(8) {
            0 => mutate_bytes(r, &mut d, 1),
            1 => mutate_bytes(r, &mut p, 1),
            2 if !pairs.is_empty() => {
                // nearly the same as another one: nothing may be remembered
                let (d2, p2) = r.pick(&pairs).clone();
                d = d2;
                p = p2;
                if r.chance(1, 2) {
                    mutate_bytes(r, &mut d, 1);
                } else {
                    mutate_bytes(r, &mut p, 1);
                }
            }
            _ => {}
        }
        pairs.push((d, p));
    }
    for (k, (d, p)) in pairs.iter().enumerate() {
        ctx.doc(&format!("domain-{}.hddl", k), d);
        ctx.doc(&format!("problem-{}.hddl", k), p);
    }
    let dig = |k: usize| -> Result<Value, Stop> {
        digest(&pairs[k].0, &pairs[k].1, false).map_err(|m| Stop::Violation(format!("documents {}: {}", k, m)))
    };
    let base: Vec<Value> = (0..n).map(dig).collect::<Result<_, _>>()?;
    for (k, b) in base.iter().enumerate() {
        let v = &b[1];
        if v.get("error").is_some() {
            let parse = matches!(v["error"].as_str(), Some("Lexical") | Some("Syntactic"));
            ctx.saw(if parse { "outcome: parse error" } else { "outcome: semantic error" });
            if !parse {
                ctx.nontrivial(&[&pairs[k].0, &pairs[k].1]);
                if let Verdict::Dom(d) = refp::parse(&pairs[k].0) {
                    let f = semref::domain_flaws(&d).all.len();
                    if f > 1 {
                        ctx.saw("several flaws");
                    } else if let (0, Verdict::Prob(p)) = (f, refp::parse(&pairs[k].1)) {
                        if semref::problem_flaws(&d, &p).all.len() > 1 {
                            ctx.saw("several flaws of the problem");
                        }
                    }
                }
            }
        } else {
            ctx.nontrivial(&[&pairs[k].0, &pairs[k].1]);
            ctx.saw(if v.as_array().map(|a| a.is_empty()).unwrap_or(true) { "outcome: no warnings" } else { "outcome: warnings" });
        }
    }
    ctx.sample(|| json!({ "pairs": n, "first domain": text(&pairs[0].0), "outcomes": base[0] }));
    // again, in other orders and several times in a row
    for _ in 0..if ctx.thorough { 6 } else { 3 } {
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for k in order {
            let m = if r.chance(1, 4) { 3 } else { 1 };
            for _ in 0..m {
                let v = dig(k)?;
                ctx.saw("repeated in another order");
                if v != base[k] {
                    violated!("documents {}: first {}, then {}", k, base[k], v);
                }
            }
        }
    }
    // concurrently
    if i % 2 == 0 {
        let threads = r.range(2, 8);
        let same = r.chance(1, 3); // all threads in the same order
        let barrier = Arc::new(Barrier::new(threads));
        let running = Arc::new(AtomicUsize::new(0));
        let overlap = Arc::new(AtomicUsize::new(0));
        let failed = Arc::new(AtomicBool::new(false));
        let problem: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let total = Arc::new(AtomicUsize::new(0));
        let shared: Arc<(Vec<(Vec<u8>, Vec<u8>)>, Vec<Value>)> = Arc::new((pairs.clone(), base.clone()));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let mut order: Vec<usize> = (0..n).collect();
                if !same {
                    r.shuffle(&mut order);
                }
                let (barrier, running, overlap, failed, problem, total, shared) =
                    (barrier.clone(), running.clone(), overlap.clone(), failed.clone(), problem.clone(), total.clone(), shared.clone());
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        barrier.wait();
                        for k in order {
                            if failed.load(Ordering::Relaxed) {
                                return;
                            }
                            if running.fetch_add(1, Ordering::SeqCst) > 0 {
                                overlap.fetch_add(1, Ordering::Relaxed);
                            }
                            let v = digest(&shared.0[k].0, &shared.0[k].1, k % 2 == 1);
                            running.fetch_sub(1, Ordering::SeqCst);
                            total.fetch_add(1, Ordering::Relaxed);
                            let bad = match v {
                                Err(m) => Some(format!("documents {}, on one of several threads: {}", k, m)),
                                Ok(v) if v != shared.1[k] => {
                                    Some(format!("documents {}: alone {}, on one of several threads {}", k, shared.1[k], v))
                                }
                                _ => None,
                            };
                            if bad.is_some() {
                                *problem.lock().unwrap() = bad;
                                failed.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                harness!("a thread failed");
            }
        }
        ctx.saw_n("analysed concurrently", total.load(Ordering::Relaxed) as u64);
        ctx.saw_n("overlapping analyses", overlap.load(Ordering::Relaxed) as u64);
        if same {
            ctx.saw("the same documents on several threads at once");
        }
        let bad = problem.lock().unwrap().take();
        if let Some(m) = bad {
            violated!("{}", m);
        }
    }
    // in another process
    if i % 4 == 1 {
        let dir = ctx.scratch.join("digest");
        let _ = std::fs::create_dir_all(&dir);
        for (k, (d, p)) in pairs.iter().enumerate() {
            std::fs::write(dir.join(format!("{}.d", k)), d).map_err(|e| Stop::Harness(e.to_string()))?;
            std::fs::write(dir.join(format!("{}.p", k)), p).map_err(|e| Stop::Harness(e.to_string()))?;
        }
        // in the opposite order, in another one, and one of the pairs alone: what was remembered differs
        for run in 0..3 {
            let mut order: Vec<usize> = (0..n).rev().collect();
            match run {
                0 => {}
                1 => r.shuffle(&mut order),
                _ => order = vec![r.below(n)],
            }
            let o = Command::new(std::env::current_exe().unwrap())
                .arg("digest")
                .arg(&dir)
                .args(order.iter().map(|x| x.to_string()))
                .stdin(Stdio::null())
                .output()
                .map_err(|e| Stop::Harness(e.to_string()))?;
            if !o.status.success() {
                violated!("another process, which analyses the same documents, ends with {:?}: {}", o.status, text(&o.stderr));
            }
            let v: Value = match serde_json::from_slice(&o.stdout) {
                Ok(v) => v,
                Err(e) => harness!("digest: {}", e),
            };
            for (at, k) in order.into_iter().enumerate() {
                ctx.saw("analysed in another process");
                if v[at] != base[k] {
                    violated!("documents {}: {} in one process, {} in another", k, base[k], v[at]);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

// kinds of names
fn space(c: Cat, var: bool) -> u8 {
    use Cat::*;
    match c {
        DType | TypeParent | TypeOfPred | TypeOfFunc | TypeOfTask | TypeOfAction | TypeOfMethod | TypeOfConst | TypeOfObject | TypeOfHtn
        | TypeOfQuantified => 1,
        DPred | PredInAction | PredInMethod | PredInInit | PredInGoal => 2,
        DFunc => 3,
        DTask | DAction | TaskOfMethod | SubtaskOfMethod | SubtaskOfInit => 4,
        DMethod => 5,
        Header => 6,
        // terms and ids: one space, as equalities and orderings have both
        _ => {
            let _ = var;
            7
        }
    }
}

type Map = HashMap<(u8, String), String>;

fn new_names(r: &mut Rng, style: NameStyle, old: &[String]) -> Vec<String> {
    let mut used = HashSet::new();
    old.iter().map(|_| gen::fresh(r, style, "n", &mut used)).collect()
}

// extreme names: each one is the previous one and one character, or differs in case only
fn ladder(r: &mut Rng, n: usize) -> Vec<String> {
    let base: String = r.pick(&["a", "and", "x", "define", "object", "t", "not"]).to_string();
    let mut out = vec![];
    let mut s = base;
    for k in 0..n {
        if k < 200 {
            s.push(*r.pick(&['a', '-', '_', '0', 'a', 'A']));
            out.push(s.clone());
        } else {
            out.push(format!("{}{}", &s[..8], k));
        }
    }
    r.shuffle(&mut out);
    out
}

fn rename(d: &mut Domain, p: &mut Problem, m: &Map, global: bool) {
    let mut f = |c: Cat, s: &mut String| {
        let k = if global { 0 } else { space(c, false) };
        if let Some(x) = m.get(&(k, s.clone())) {
            *s = x.clone();
        }
    };
    gen::visit_domain(d, &mut f);
    gen::visit_problem(p, &mut f);
}

fn map_json(v: &Value, m: &Map) -> Value {
    match v {
        Value::String(s) => match m.get(&(0, s.clone())) {
            Some(x) => json!(x),
            None => v.clone(),
        },
        Value::Array(a) => Value::Array(a.iter().map(|x| map_json(x, m)).collect()),
        Value::Object(o) => Value::Object(
            o.iter().map(|(k, x)| (k.clone(), if k == "requirements" { x.clone() } else { map_json(x, m) })).collect(),
        ),
        x => x.clone(),
    }
}

// all values a name may be mapped to (one, with one map for all kinds)
fn images(m: &Map, s: &str) -> BTreeSet<String> {
    (0..8).filter_map(|k| m.get(&(k, s.to_string())).cloned()).collect()
}

fn maps_to(m: &Map, a: &str, b: &str) -> bool {
    let x = images(m, a);
    if x.is_empty() {
        a == b
    } else {
        x.contains(b)
    }
}

fn same_finding(m: &Map, a: &Finding, b: &Finding) -> bool {
    if a.kind != b.kind || a.lines != b.lines || a.fields.len() != b.fields.len() {
        return false;
    }
    if a.kind == "DuplicateRequirement" {
        return a.fields == b.fields;
    }
    a.fields.iter().zip(&b.fields).all(|(x, y)| maps_to(m, x, y))
}

fn same_result(ctx: &mut Ctx, what: &str, m: &Map, e: &Expect, a: &Out<Vec<sut::Warn>>, b: &Out<Vec<sut::Warn>>) -> Res {
    let differ = |why: &str| -> Res { violated!("{}: {} with the original names, {} with others: {}", what, a.show(), b.show(), why) };
    match (a, b) {
        (Out::Crash(_), _) | (_, Out::Crash(_)) => differ("crash"),
        (_, _) if matches!(e, Expect::Unspec) => Ok(()),
        (Out::Ok(x), Out::Ok(y)) => {
            let mut y: Vec<_> = y.clone();
            // the warnings of both, by line and name
            for (n, l) in x {
                match y.iter().position(|(n2, l2)| l == l2 && m.get(&(4, n.clone())).or(m.get(&(0, n.clone()))).unwrap_or(n) == n2) {
                    Some(i) => {
                        y.swap_remove(i);
                    }
                    None => return differ(&format!("no warning for {} of line {}", n, l)),
                }
            }
            if !y.is_empty() {
                return differ("more warnings");
            }
            ctx.saw(if x.is_empty() { "same outcome: Ok" } else { "same outcome: Ok with warnings" });
            Ok(())
        }
        (Out::Err(x), Out::Err(y)) => {
            match e {
                Expect::Fail(fs) if fs.len() == 1 => {
                    if !same_finding(m, &x.f, &y.f) {
                        return differ("another error");
                    }
                    ctx.saw("same outcome: single flaw");
                }
                Expect::Fail(fs) => {
                    if !fs.iter().any(|f| same_finding(m, f, &y.f)) {
                        return differ("not one of the flaws");
                    }
                    ctx.saw("same outcome: several flaws");
                }
                _ => {}
            }
            Ok(())
        }
        _ => differ("only one is an error"),
    }
}

fn c20(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (mut d, mut p) = match r.below(6) {
        0 | 1 => (gen::tdg_domain(r), Problem { name: "p".into(), domain: "d".into(), ..Default::default() }),
        _ => some_model(r),
    };
    match r.below(4) {
        0 => scramble(r, &mut d, &mut p, 1),
        1 if r.chance(1, 4) => {
            let n = r.range(2, 5);
            scramble(r, &mut d, &mut p, n)
        }
        _ => {}
    }
    let global = r.chance(1, 2);
    // the names by kind
    let mut old: Vec<(u8, String)> = vec![];
    {
        let mut seen = HashSet::new();
        let mut f = |c: Cat, s: &mut String| {
            let k = if global { 0 } else { space(c, false) };
            if seen.insert((k, s.clone())) {
                old.push((k, s.clone()));
            }
        };
        gen::visit_domain(&mut d, &mut f);
        gen::visit_problem(&mut p, &mut f);
    }
    let mut m: Map = HashMap::new();
    let how = i % 8;
    for k in 0..8u8 {
        let names: Vec<String> = old.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
        if names.is_empty() {
            continue;
        }
        let new = match how {
            0 => {
                let mut x = names.clone();
                r.shuffle(&mut x);
                x
            }
            1 => ladder(r, names.len()),
            h => new_names(r, STYLES[(h - 2) as usize % 6], &names),
        };
        for (a, b) in names.into_iter().zip(new) {
            m.insert((k, a), b);
        }
    }
    ctx.saw(match how {
        0 => "permuted names",
        1 | 3 => "prefixes",
        2 => "plain",
        4 => "differing in case",
        5 => "keyword-like",
        6 => "long",
        _ => "mixed",
    });
    ctx.saw(if global { "one map for all kinds" } else { "one map per kind" });
    if old.iter().any(|x| x.0 == 1) {
        ctx.saw("type names");
    }
    if old.iter().any(|x| x.0 > 1) {
        ctx.saw("names of other kinds");
    }
    let (mut d2, mut p2) = (d.clone(), p.clone());
    rename(&mut d2, &mut p2, &m, global);
    // both are written with the same choices
    let mut again = r.clone();
    let a = write_apart(ctx, r, &d, &p)?;
    let first = std::mem::take(&mut ctx.docs);
    let b = write_apart(ctx, &mut again, &d2, &p2)?;
    let renamed = std::mem::take(&mut ctx.docs);
    for (n, x) in first {
        ctx.doc(&n, &x);
    }
    for (n, x) in renamed {
        ctx.doc(&format!("renamed-{}", n), &x);
    }
    if old.len() > 3 {
        ctx.nontrivial(&[&a.db, &b.db, &a.pb, &b.pb]);
    }
    let ed = expect_domain(&a.d);
    let ep = expect(&a.d, &a.p);
    // a renaming per kind can make clashes of kinds that are not specified
    let same = |x: &Expect, y: &Expect| !matches!((x, y), (Expect::Unspec | Expect::FailSomehow, _) | (_, Expect::Unspec | Expect::FailSomehow));
    if same(&ed, &expect_domain(&b.d)) {
        same_result(ctx, "domain alone", &m, &ed, &sut::verify(&a.db, None), &sut::verify(&b.db, None))?;
    }
    if same(&ep, &expect(&b.d, &b.p)) {
        same_result(ctx, "domain and problem", &m, &ep, &sut::verify(&a.db, Some(&a.pb)), &sut::verify(&b.db, Some(&b.pb)))?;
    }
    let t = Tdg::new(&a.d);
    match (ok("get_metadata", sut::metadata(&a.db, None))?, ok("get_metadata", sut::metadata(&b.db, None))?) {
        (Ok(x), Ok(y)) => {
            if let (Some(t), Some(t2)) = (&t, Tdg::new(&b.d)) {
                let nulls: BTreeSet<String> =
                    x.nullables.iter().map(|n| m.get(&(4, n.clone())).or(m.get(&(0, n.clone()))).unwrap_or(n).clone()).collect();
                let nulls2: BTreeSet<String> = y.nullables.iter().cloned().collect();
                if nulls != nulls2 || (x.actions, x.tasks, x.methods) != (y.actions, y.tasks, y.methods) {
                    violated!("metadata {:?} with the original names, {:?} with others", x.text, y.text);
                }
                if !t.class_unspec && !t2.class_unspec {
                    if x.class != y.class {
                        violated!("recursion {:?} with the original names, {:?} with others", x.class, y.class);
                    }
                    if x.class != semref::NON_RECURSIVE {
                        ctx.saw("same class: recursive");
                    }
                }
            }
        }
        (Err(x), Err(y)) => {
            let fs = semref::metadata_flaws(&a.d).all;
            if fs.len() == 1 && !same_finding(&m, &x.f, &y.f) {
                violated!("metadata error {} with the original names, {} with others", x, y);
            }
        }
        (x, y) => violated!("metadata: {:?} with the original names, {:?} with others", x, y),
    }
    if global {
        match (ok("to_json", sut::to_json(&a.db, Some(&a.pb)))?, ok("to_json", sut::to_json(&b.db, Some(&b.pb)))?) {
            (Ok(x), Ok(y)) => {
                for (x, y, what) in [(Some(&x.domain), Some(&y.domain), "domain"), (x.problem.as_ref(), y.problem.as_ref(), "problem")] {
                    if let Some(w) = diff(&map_json(x.unwrap(), &m), y.unwrap(), what) {
                        violated!("the exports differ by more than names: {}", w);
                    }
                }
                ctx.saw("same export");
            }
            (x, y) => {
                violated!("to_json: {:?} with the original names, {:?} with others", x.map(|_| "Ok"), y.map(|_| "Ok"))
            }
        }
    }
    ctx.sample(|| json!({ "domain": text(&a.db), "renamed": text(&b.db) }));
    Ok(())
}

// ---------------------------------------------------------------- C21

fn permute_formula(r: &mut Rng, f: &mut F) {
    match f {
        F::And(xs) | F::Or(xs) | F::Xor(xs) => {
            r.shuffle(xs);
            for x in xs {
                permute_formula(r, x);
            }
        }
        F::Not(x) | F::ForAll(_, x) | F::Exists(_, x) => permute_formula(r, x),
        F::Prob(xs) => {
            r.shuffle(xs);
            xs.iter_mut().for_each(|x| permute_formula(r, &mut x.1));
        }
        _ => {}
    }
}

fn permute_tn(r: &mut Rng, t: &mut Tn) {
    if let Ords::Partial(o) = &mut t.ords {
        r.shuffle(o);
        r.shuffle(&mut t.subtasks);
    }
    if let Some(c) = &mut t.cons {
        r.shuffle(c);
    }
}

fn permute(r: &mut Rng, d: &mut Domain, p: &mut Problem) {
    r.shuffle(&mut d.reqs);
    r.shuffle(&mut d.types);
    r.shuffle(&mut d.consts);
    r.shuffle(&mut d.preds);
    r.shuffle(&mut d.funcs);
    r.shuffle(&mut d.tasks);
    r.shuffle(&mut d.actions);
    r.shuffle(&mut d.methods);
    for a in &mut d.actions {
        for f in a.pre.iter_mut().chain(a.eff.iter_mut()) {
            permute_formula(r, f);
        }
    }
    for m in &mut d.methods {
        if let Some(f) = &mut m.pre {
            permute_formula(r, f);
        }
        permute_tn(r, &mut m.tn);
    }
    r.shuffle(&mut p.reqs);
    r.shuffle(&mut p.objects);
    r.shuffle(&mut p.init);
    if let Some(g) = &mut p.goal {
        permute_formula(r, g);
    }
    if let Some((_, t)) = &mut p.htn {
        permute_tn(r, t);
    }
}

fn names_only(w: &[sut::Warn]) -> Vec<&str> {
    let mut v: Vec<&str> = w.iter().map(|x| x.0.as_str()).collect();
    v.sort();
    v
}

fn c21(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let (mut d, mut p) = match r.below(6) {
        0 | 1 => (gen::tdg_domain(r), Problem { name: "p".into(), domain: "d".into(), ..Default::default() }),
        _ => some_model(r),
    };
    match r.below(3) {
        0 => scramble(r, &mut d, &mut p, 1),
        1 if r.chance(1, 6) => {
            let n = r.range(2, 5);
            scramble(r, &mut d, &mut p, n)
        }
        _ => {}
    }
    let a = write(ctx, r, &d, &p)?;
    let first = std::mem::take(&mut ctx.docs);
    let (mut d2, mut p2) = (d.clone(), p.clone());
    permute(r, &mut d2, &mut p2);
    let b = write(ctx, r, &d2, &p2)?;
    let second = std::mem::take(&mut ctx.docs);
    for (n, x) in first {
        ctx.doc(&n, &x);
    }
    for (n, x) in second {
        ctx.doc(&format!("permuted-{}", n), &x);
    }
    if a.db != b.db || a.pb != b.pb {
        ctx.nontrivial(&[&a.db, &b.db, &a.pb, &b.pb]);
    }
    // sections in an unusual order
    let at = |t: &[String], k: &str| t.iter().position(|x| x == k);
    if let (Some(x), Some(y)) = (at(&b.dt, ":method"), b.dt.iter().rposition(|x| x == ":task" || x == ":predicates")) {
        if x < y {
            ctx.saw("uses before declarations");
        }
    }
    for with in [false, true] {
        let what = if with { "domain and problem" } else { "domain alone" };
        let (e, e2) = if with { (expect(&a.d, &a.p), expect(&b.d, &b.p)) } else { (expect_domain(&a.d), expect_domain(&b.d)) };
        let x = sut::verify(&a.db, if with { Some(&a.pb) } else { None });
        let y = sut::verify(&b.db, if with { Some(&b.pb) } else { None });
        let differ = |why: &str| -> Res { violated!("{}: {} in one order, {} in another: {}", what, x.show(), y.show(), why) };
        match (&x, &y) {
            (Out::Crash(_), _) | (_, Out::Crash(_)) => differ("crash")?,
            _ if matches!(e, Expect::Unspec) || matches!(e2, Expect::Unspec) => ctx.saw("not specified"),
            (Out::Ok(v), Out::Ok(w)) => {
                if names_only(v) != names_only(w) {
                    differ("other warnings")?;
                }
                ctx.saw(if v.is_empty() { "accepted" } else { "accepted with warnings" });
            }
            (Out::Err(v), Out::Err(w)) => match (&e, &e2) {
                (Expect::Fail(f), Expect::Fail(g)) if f.len() == 1 && g.len() == 1 => {
                    if v.f.kind != w.f.kind || v.f.fields != w.f.fields {
                        differ("another flaw")?;
                    }
                    ctx.saw("single flaw");
                }
                _ => ctx.saw("several flaws"),
            },
            _ => differ("only one is an error")?,
        }
    }
    let (t, t2) = (Tdg::new(&a.d), Tdg::new(&b.d));
    if let (Some(t), Some(t2)) = (t, t2) {
        match (ok("get_metadata", sut::metadata(&a.db, None))?, ok("get_metadata", sut::metadata(&b.db, None))?) {
            (Ok(x), Ok(y)) => {
                if x.nullables != y.nullables || (x.actions, x.tasks, x.methods) != (y.actions, y.tasks, y.methods) {
                    violated!("metadata {:?} in one order, {:?} in another", x.text, y.text);
                }
                if !x.nullables.is_empty() {
                    ctx.saw("nullable tasks");
                }
                if !t.class_unspec && !t2.class_unspec {
                    if x.class != y.class {
                        violated!("recursion {:?} in one order, {:?} in another", x.text, y.text);
                    }
                    if x.class != semref::NON_RECURSIVE {
                        ctx.saw("recursive");
                    }
                }
            }
            (x, y) => violated!("metadata: {:?} in one order, {:?} in another", x, y),
        }
    }
    ctx.sample(|| json!({ "domain": text(&a.db), "permuted": text(&b.db) }));
    Ok(())
}

// ---------------------------------------------------------------- C22

const SOUND: &[u8] = b"(define (domain d))";

fn c22(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let (mut d, mut p) = if r.chance(1, 40) { many_flaws(r) } else { any_documents(ctx, r) };
    match i % 10 {
        0 | 1 => {
            let n = r.range(1, 3);
            mutate_bytes(r, &mut d, n)
        }
        2 | 3 => {
            let n = r.range(1, 3);
            mutate_bytes(r, &mut p, n)
        }
        4 | 5 => {
            let x = if i % 10 == 4 { &mut d } else { &mut p };
            if let Some(mut t) = split(x) {
                mutate_tokens(r, &mut t, 1);
                let l = any_layout(r);
                *x = layout(r, &t, l);
            }
        }
        6 => {
            p = any_documents(ctx, r).1;
            ctx.saw("problem of another domain");
        }
        7 if r.chance(1, 2) => {
            match r.below(3) {
                0 => std::mem::swap(&mut d, &mut p),
                1 => p = d.clone(),
                _ => d = p.clone(),
            }
            ctx.saw("wrong kind of document");
        }
        8 if r.chance(1, 4) => {
            // next to nothing, or a part
            let x = if r.chance(1, 3) { &mut d } else { &mut p };
            if r.chance(1, 2) {
                *x = r
                    .pick(&["", " ", "\n\n", "\t\r\n", "; nothing", ";", "(", ")", "()", "(define", "(define)", "(define (problem p) (:domain d))", "(define (domain d))", "x", "\u{feff}"])
                    .as_bytes()
                    .to_vec();
                ctx.saw("next to nothing");
            } else {
                let n = r.below(x.len() + 1);
                x.truncate(n);
                ctx.saw("truncated");
            }
        }
        _ => {}
    }
    ctx.doc("domain.hddl", &d);
    ctx.doc("problem.hddl", &p);
    ctx.nontrivial(&[&d, &p]);
    let v1 = ok("verify(domain)", sut::verify(&d, None))?;
    let v2 = ok("verify(domain, problem)", sut::verify(&d, Some(&p)))?;
    match (&v1, &v2) {
        (Err(a), Err(b)) => {
            if a != b {
                violated!("the domain alone gives {}, with the problem {}", a, b);
            }
        }
        (Err(a), Ok(w)) => violated!("the domain alone gives {}, with the problem Ok({:?})", a, w),
        (Ok(a), Ok(b)) => {
            if a != b {
                violated!("the domain alone gives the warnings {:?}, with the problem {:?}", a, b);
            }
            ctx.saw("both accepted");
        }
        (Ok(_), Err(b)) => ctx.saw(if is_parse_error(&b.f) { "problem rejected" } else { "problem flawed" }),
    }
    let dom_err = v1.as_ref().err().filter(|e| is_parse_error(&e.f));
    if let Err(e) = &v1 {
        ctx.saw(if is_parse_error(&e.f) { "domain rejected" } else { "domain flawed" });
    }
    // the problem on its own: next to a domain without flaws, parse errors come first
    let prob = ok("verify(sound domain, problem)", sut::verify(SOUND, Some(&p)))?;
    let prob_err = prob.as_ref().err().filter(|e| is_parse_error(&e.f));
    let due = |e: Option<&ErrInfo>, got: &Result<sut::Export, ErrInfo>, what: &str| -> Res {
        match (e, got) {
            (None, Ok(_)) => Ok(()),
            (Some(x), Err(y)) if x == y => Ok(()),
            (None, Err(y)) => violated!("{} gives {}, but the documents are grammatical for verify", what, y),
            (Some(x), Err(y)) => violated!("{} gives {}, but verify {}", what, y, x),
            (Some(x), Ok(_)) => violated!("{} succeeds, but verify gives {}", what, x),
        }
    };
    let j1 = ok("to_json(domain)", sut::to_json(&d, None))?;
    due(dom_err, &j1, "to_json(domain)")?;
    let j2 = ok("to_json(domain, problem)", sut::to_json(&d, Some(&p)))?;
    due(dom_err.or(prob_err), &j2, "to_json(domain, problem)")?;
    if dom_err.is_none() && prob_err.is_some() {
        ctx.saw("export error in the problem");
    }
    if let (Ok(a), Ok(b)) = (&j1, &j2) {
        if a.domain != b.domain {
            violated!("the export of the domain depends on the problem");
        }
    }
    let j3 = ok("to_json(sound domain, problem)", sut::to_json(SOUND, Some(&p)))?;
    due(prob_err, &j3, "to_json(sound domain, problem)")?;
    if let (Ok(a), Ok(b)) = (&j2, &j3) {
        if a.problem != b.problem {
            violated!("the export of the problem depends on the domain");
        }
    }
    let m1 = ok("get_metadata(domain)", sut::metadata(&d, None))?;
    let m2 = ok("get_metadata(domain, problem)", sut::metadata(&d, Some(&p)))?;
    match (&m1, &m2) {
        (Ok(a), Ok(b)) => {
            if (&a.class, &a.nullables, a.actions, a.tasks, a.methods) != (&b.class, &b.nullables, b.actions, b.tasks, b.methods) {
                violated!("the metadata depend on the problem: {:?} and {:?}", a.text, b.text);
            }
        }
        (Err(a), Err(b)) if a == b => ctx.saw("metadata error"),
        (a, b) => violated!("the metadata depend on the problem: {:?} and {:?}", a, b),
    }
    match (dom_err, &m1) {
        (Some(a), Err(b)) if a == b => {}
        (Some(a), m) => violated!("verify gives {}, get_metadata {:?}", a, m),
        (None, Err(e)) if is_parse_error(&e.f) => violated!("get_metadata gives {}, but verify does not", e),
        (None, m) => {
            if let Verdict::Dom(x) = refp::parse(&d) {
                let f = semref::metadata_flaws(&x);
                match m {
                    Ok(_) if f.all.is_empty() => {
                        if v1.is_err() {
                            ctx.saw("metadata of a flawed domain");
                        }
                    }
                    Ok(m) => violated!("metadata {:?}, but {:?} is due", m.text, f.all),
                    Err(e) if !f.all.contains(&e.f) => violated!("get_metadata gives {}, but the undefined tasks are {:?}", e, f.all),
                    Err(_) => {}
                }
            }
        }
    }
    ctx.sample(|| json!({ "domain": text(&d), "problem": text(&p) }));
    Ok(())
}
