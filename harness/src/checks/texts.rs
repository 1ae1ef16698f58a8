// C24: the texts tell what was found.
use super::flaws;
use super::hier;
use super::util::*;
use crate::core::*;
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::semref::*;
use crate::sut::{self, ErrInfo, Out};
use crate::violated;
use serde_json::json;
use std::collections::HashMap;

pub static CHECKS: [&Check; 1] = [&C24];

static C24: Check = Check {
    id: "C24",
    rule: "a case is a model with one flaw of any kind, a document with damaged tokens, or a hierarchy; the text of the error, of the warnings or of the metadata is read and compared with what is due according to the reference; \
           non-trivial: a text is due; counted by content",
    required: &[
        "text of DuplicateRequirement", "text of DuplicatePredicate", "text of DuplicateCompoundTask", "text of DuplicateAction", "text of DuplicateMethod", "text of DuplicateParameter", "text of DuplicateObject",
        "text of UndefinedPredicate", "text of UndefinedType", "text of UndefinedTask", "text of UndefinedSubtask", "text of UndefinedParameter", "text of UndefinedObject",
        "text of InconsistentPredicateArity", "text of InconsistentTaskArity", "text of InconsistentPredicateArgType", "text of InconsistentTaskArgType", "text of CyclicType", "text of CyclicOrdering",
        "type error: none expected", "type error: none found", "type error: both",
        "found: implication", "found: keyword", "found: name", "found: number", "found: operator", "found: parenthesis", "found: requirement", "invalid identifier", "invalid keyword", "text of a warning", "text of metadata with a cycle", "text of metadata with nullable tasks",
    ],
    assumptions: &["the words that name the kinds of entities (task, subtask, predicate, ...), and \"line\", \"expected\" and \"found\" are those of the analyser; the rest of the wording is free"],
    cases: |t| if t { 300_000 } else { 100_000 },
    run: c24,
    workers: 8,
};

// beyond what is required of every text: words in their right places
fn reads(e: &ErrInfo) -> Result<(), String> {
    let bad = |m: &str| Err(format!("the text {:?} of {:?} {}", e.text, e.f, m));
    let low = e.text.to_lowercase();
    let k = e.f.kind.as_str();
    // no other kind of entity is named
    let names: Vec<String> = e.f.fields.iter().map(|x| x.to_lowercase()).collect();
    let rest: String = low
        .split(|c: char| c.is_whitespace() || c == '\'' || c == '"')
        .filter(|x| !names.iter().any(|n| n == x || n == x.trim_end_matches(['.', ',', ':'])))
        .collect::<Vec<_>>()
        .join(" ");
    if k == "UndefinedTask" && rest.contains("subtask") {
        return bad("takes a task for a subtask");
    }
    if k.starts_with("Undefined") && !(rest.contains("not ") || rest.contains("un") || rest.contains("no ")) {
        return bad("does not say that something is missing");
    }
    if k == "DuplicateRequirement" && rest.replace("requirement", "").chars().filter(|c| c.is_alphabetic()).count() < 4 {
        return bad("does not say what is wrong");
    }
    if k.starts_with("Cyclic") && !rest.contains("cycl") {
        return bad("does not say that something is cyclic");
    }
    if k.ends_with("ArgType") {
        let find = |x: &str, from: usize| e.text[from..].find(x).map(|i| i + from);
        let after_var = find(&e.f.fields[2], 0).map(|i| i + e.f.fields[2].len()).unwrap_or(0);
        let tail = e.text[after_var..].to_lowercase();
        let exp = tail.find("expect").map(|i| i + after_var);
        let found = tail.rfind("found").into_iter().chain(tail.rfind("find")).max().map(|i| i + after_var);
        let (exp, found) = match (exp, found) {
            (Some(a), Some(b)) if a < b => (a, b),
            _ => return bad("does not tell what is expected from what is found"),
        };
        let within = |x: &str, a: usize, b: usize| e.text[a..b].contains(x);
        let n = e.text.len();
        match (e.f.fields[0].as_str(), e.f.fields[1].as_str()) {
            ("<none>", f) => {
                if within(&format!("'{}'", f), exp, found) || !within(f, found, n) {
                    return bad("does not say that no type is expected");
                }
            }
            (x, "<none>") => {
                if !within(x, exp, found) || within(&format!("'{}'", x), found, n) {
                    return bad("does not say that no type is found");
                }
            }
            (x, f) => {
                if !within(x, exp, n) || !within(f, found, n) {
                    return bad("does not give the expected and the found type");
                }
            }
        }
    }
    Ok(())
}

fn text_of(ctx: &mut Ctx, o: Out<Vec<sut::Warn>>, e: &Expect, what: &str) -> Res {
    judge(what, &o, e, true)?;
    if let (Out::Err(x), Expect::Fail(fs)) = (&o, e) {
        if let Err(m) = reads(x) {
            violated!("{}: {}", what, m);
        }
        if fs.len() == 1 {
            ctx.saw(&format!("text of {}", x.f.kind));
            if x.f.kind.ends_with("ArgType") {
                ctx.saw(match (x.f.fields[0].as_str(), x.f.fields[1].as_str()) {
                    ("<none>", _) => "type error: none expected",
                    (_, "<none>") => "type error: none found",
                    _ => "type error: both",
                });
            }
        }
    }
    Ok(())
}

const KEYWORDS: [(&str, &str); 4] = [("tasks", "tasks"), ("subtasks", "tasks"), ("ordered-tasks", "tasks"), ("ordered-subtasks", "tasks")];

fn c24(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    match i % 8 {
        0..=4 => {
            let (mut d, mut p) = some_model(r);
            match i % 40 / 8 + 5 * (i % 8) {
                0..=5 => flaws::duplicate(r, &mut d, &mut p),
                6..=12 => flaws::undefine(r, &mut d, &mut p),
                13..=16 => flaws::change_arity(r, &mut d, &mut p),
                17..=22 => flaws::change_types(r, &mut d, &mut p),
                23 => flaws::cycle_types(r, &mut d),
                _ => flaws::cycle_orderings(r, &mut d, &mut p),
            }
            let w = write_apart(ctx, r, &d, &p)?;
            let (ed, ep) = (expect_domain(&w.d), expect(&w.d, &w.p));
            if matches!(ed, Expect::Fail(_)) || matches!(ep, Expect::Fail(_)) {
                ctx.nontrivial(&[&w.db, &w.pb]);
            }
            text_of(ctx, sut::verify(&w.db, None), &ed, "domain alone")?;
            text_of(ctx, sut::verify(&w.db, Some(&w.pb)), &ep, "domain and problem")
        }
        5 | 6 => {
            let (d, p) = any_documents(ctx, r);
            let dom = r.chance(1, 2);
            let b = if dom { d } else { p };
            let toks = match split(&b) {
                Some(t) if t.len() < 2500 => t,
                _ => return Ok(()),
            };
            for _ in 0..6 {
                let mut t = toks.clone();
                if r.chance(1, 8) {
                    // the grammar leaves open where implications are allowed: wherever one is refused, the text has to say so
                    let k = r.below(t.len());
                    t[k] = "imply".to_string();
                    let b = t.join("\n").into_bytes();
                    let o = if dom { sut::verify(&b, None) } else { sut::verify(b"(define (domain d))", Some(&b)) };
                    if let Out::Err(e) = o {
                        if e.f.kind == "Syntactic" && e.f.lines == [k as u32 + 1] {
                            ctx.docs.clear();
                            ctx.doc(if dom { "domain.hddl" } else { "problem.hddl" }, &b);
                            ctx.saw("found: implication");
                            let at = e.text.to_lowercase().rfind("found").unwrap_or(0);
                            if !e.text[at..].contains("imply") {
                                violated!("the text {:?} does not say that \"imply\" was found", e.text);
                            }
                        }
                    }
                    continue;
                }
                mutate_tokens(r, &mut t, 1);
                if t.iter().any(|x| x.contains(';') || x.contains('\n')) {
                    continue;
                }
                // line k has token k
                let b = t.join("\n").into_bytes();
                ctx.docs.clear();
                ctx.doc(if dom { "domain.hddl" } else { "problem.hddl" }, &b);
                let line = match refp::parse(&b) {
                    Verdict::Reject(x, y) if x == y && (x as usize) < t.len() => x,
                    _ => continue,
                };
                let o = if dom { sut::verify(&b, None) } else { sut::verify(b"(define (domain d))", Some(&b)) };
                let e = match o {
                    Out::Crash(m) => violated!("verify: {}", m),
                    Out::Ok(_) => violated!("verify: accepted, but the document is not grammatical"),
                    Out::Err(e) => e,
                };
                ctx.nontrivial(&[&b]);
                if !is_parse_error(&e.f) || e.f.lines != [line] {
                    violated!("verify: {}, but the document goes wrong at line {}", e, line);
                }
                let tok = &t[line as usize - 1];
                if e.f.kind == "Lexical" {
                    if (e.f.fields[0].is_empty() && tok != ":") || !tok.contains(e.f.fields[0].trim()) {
                        violated!("the text {:?} is not about {:?}", e.text, tok);
                    }
                    let c = tok.chars().next().unwrap_or(' ');
                    let word = if c == ':' {
                        "keyword"
                    } else {
                        "identifier"
                    };
                    ctx.saw(&format!("invalid {}", word));
                    let said = e.text.to_lowercase().replace(&tok.to_lowercase(), "");
                    if !said.contains(word) {
                        violated!("the text {:?} does not say that {:?} is an invalid {}", e.text, tok, word);
                    }
                    continue;
                }
                // what was found comes after what was expected
                let low = e.text.to_lowercase();
                let found = match (low.find("expect"), low.rfind("found")) {
                    (Some(a), Some(b)) if a < b => &e.text[b..],
                    _ => violated!("the text {:?} does not tell what is expected from what is found", e.text),
                };
                let c = tok.chars().next().unwrap_or(' ');
                let (kind, has) = if c == '(' || c == ')' {
                    ("found: parenthesis", found.contains(tok.as_str()))
                } else if c == ':' {
                    let k = &tok[1..];
                    let k = KEYWORDS.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(k);
                    (if crate::ast::REQS.iter().any(|x| x.0.trim_start_matches(':') == k) { "found: requirement" } else { "found: keyword" }, found.contains(k))
                } else if c.is_ascii_digit() {
                    let n = found.split(|c: char| !(c.is_ascii_digit() || c == '.')).find_map(|x| x.trim_end_matches('.').parse::<f64>().ok());
                    ("found: number", n.is_some() && n == tok.parse::<f64>().ok())
                } else if c.is_alphabetic() || c == '?' || c == '_' {
                    ("found: name", found.contains(tok.trim_start_matches('?')))
                } else {
                    ("found: operator", found.contains(tok.as_str()))
                };
                ctx.saw(kind);
                if !has {
                    violated!("the text {:?} does not say that {:?} was found", e.text, tok);
                }
            }
            Ok(())
        }
        _ => {
            if r.chance(1, 2) {
                let (d, p) = hier::hierarchy(r);
                let w = write(ctx, r, &d, &p)?;
                let e = expect_domain(&w.d);
                let want = match &e {
                    Expect::Pass(x) if !x.is_empty() => x,
                    _ => return Ok(()),
                };
                ctx.saw("text of a warning");
                ctx.nontrivial(&[&w.db]);
                let dv = w.db.clone();
                let ws = match hddl_analyzer::HDDLAnalyzer::verify(&dv, None) {
                    Ok(ws) => ws,
                    Err(e) => violated!("a consistent domain is rejected: {}", e),
                };
                // each text is about exactly one of the tasks
                let mut texts: HashMap<String, usize> = HashMap::new();
                for x in &ws {
                    *texts.entry(x.to_string()).or_insert(0) += 1;
                }
                if ws.len() != want.len() {
                    violated!("warnings {:?}, but {:?} are due", texts, want);
                }
                for (name, line) in want {
                    let n = texts
                        .iter()
                        .filter(|(t, _)| {
                            let words: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '\'' || c == '"' || c == ':' || c == ',').collect();
                            words.windows(2).any(|x| x[0].eq_ignore_ascii_case("line") && x[1] == line.to_string()) && words.contains(&name.as_str())
                        })
                        .count();
                    if n == 0 {
                        violated!("no warning tells the task {} and line {}: {:?}", name, line, texts);
                    }
                }
                return Ok(());
            }
            let (w, t, m) = match hier::meta_of(ctx, r)? {
                Some(x) => x,
                None => return Ok(()),
            };
            ctx.nontrivial(&[&w.db]);
            let null = t.nullables();
            let mut want: Vec<String> = (0..t.n_compound).filter(|i| null[*i]).map(|i| t.tasks[i].clone()).collect();
            want.sort();
            let read = match sut::read_meta(&m.text) {
                Some(x) => x,
                None => violated!("the text {:?} of the metadata cannot be read", m.text),
            };
            if read.nullables != want || (read.actions, read.tasks, read.methods) != (w.d.actions.len() as u64, w.d.tasks.len() as u64, w.d.methods.len() as u64) {
                violated!("the text {:?}: nullable are {:?}; {} actions, {} tasks, {} methods", m.text, want, w.d.actions.len(), w.d.tasks.len(), w.d.methods.len());
            }
            if !want.is_empty() {
                ctx.saw("text of metadata with nullable tasks");
            }
            if !read.cycle.is_empty() {
                ctx.saw("text of metadata with a cycle");
                // every other name is a method of the task before it, and the next task one of its subtasks
                let c = &read.cycle;
                if c.len() < 3 || c.len() % 2 == 0 || c[0] != c[c.len() - 1] {
                    violated!("the text {:?} gives no cycle", m.text);
                }
                for k in (0..c.len() - 1).step_by(2) {
                    let ok = w.d.methods.iter().any(|x| x.name.name == c[k + 1] && x.task.name == c[k] && x.tn.subtasks.iter().any(|y| y.task.name == c[k + 2]));
                    if !ok {
                        violated!("the text {:?}: {} does not decompose {} into {}", m.text, c[k + 1], c[k], c[k + 2]);
                    }
                }
            }
            ctx.sample(|| json!({ "domain": text(&w.db), "text": m.text }));
            Ok(())
        }
    }
}
