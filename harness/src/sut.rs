// Calls into the code under test, observed: every call ends in a value or in a panic, and what it
// returned is turned into plain data. The rendered text of every value is checked against the value.
use crate::semref::Finding;
use hddl_analyzer::{HDDLAnalyzer, ParsingError, SemanticErrorType, WarningType};
use serde_json::Value;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub static IN_SUT: AtomicBool = AtomicBool::new(false);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static SLOWEST: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = Some(info.to_string()));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".to_string())
}

#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub f: Finding,
    pub text: String,
}

impl std::fmt::Display for ErrInfo {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} {:?} lines {:?} ({:?})", self.f.kind, self.f.fields, self.f.lines, self.text)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub class: String,
    pub cycle: Vec<String>,
    pub nullables: Vec<String>, // sorted
    pub actions: u64,
    pub tasks: u64,
    pub methods: u64,
    pub text: String,
}

pub type Warn = (String, u32);

// Crash: a panic, or a rendering that does not agree with its value
#[derive(Clone, Debug, PartialEq)]
pub enum Out<X> {
    Ok(X),
    Err(ErrInfo),
    Crash(String),
}

impl<X> Out<X> {
    pub fn show(&self) -> String
    where
        X: std::fmt::Debug,
    {
        match self {
            Out::Ok(x) => {
                let s = format!("Ok({:?})", x);
                s.chars().take(600).collect()
            }
            Out::Err(e) => format!("Err({})", e),
            Out::Crash(m) => format!("CRASH: {}", m),
        }
    }
    pub fn err(&self) -> Option<&ErrInfo> {
        match self {
            Out::Err(e) => Some(e),
            _ => None,
        }
    }
}

// CPU time of this thread, in milliseconds
fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn guard<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let t = cpu_ms();
    IN_SUT.store(true, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.store(false, Ordering::SeqCst);
    SLOWEST.fetch_max(cpu_ms() - t, Ordering::Relaxed);
    r.map_err(|_| format!("panic: {}", last_panic()))
}

// inputs are never modified
fn same(d: &[u8], dv: &[u8], p: Option<&[u8]>, pv: Option<&[u8]>) -> Result<(), String> {
    if d != dv || p != pv {
        return Err("an analysis modified its input".to_string());
    }
    Ok(())
}

fn f(kind: &str, fields: Vec<String>, lines: Vec<u32>) -> Finding {
    Finding { kind: kind.to_string(), fields, lines }
}

pub fn convert(e: &ParsingError) -> Finding {
    use SemanticErrorType::*;
    match e {
        ParsingError::Lexiacal(x) => f("Lexical", vec![x.lexeme.clone()], vec![x.position.line]),
        ParsingError::Syntactic(x) => {
            f("Syntactic", vec![x.expected.clone(), x.found.clone()], vec![x.position.line])
        }
        ParsingError::Semantic(s) => match s {
            DuplicateObjectDeclaration(d)
            | DuplicatePredicateDeclaration(d)
            | DuplicateActionDeclaration(d)
            | DuplicateCompoundTaskDeclaration(d)
            | DuplicateMethodDeclaration(d)
            | DuplicateParameterDeclaration(d) => f(
                match s {
                    DuplicateObjectDeclaration(_) => "DuplicateObject",
                    DuplicatePredicateDeclaration(_) => "DuplicatePredicate",
                    DuplicateActionDeclaration(_) => "DuplicateAction",
                    DuplicateCompoundTaskDeclaration(_) => "DuplicateCompoundTask",
                    DuplicateMethodDeclaration(_) => "DuplicateMethod",
                    _ => "DuplicateParameter",
                },
                vec![d.symbol.clone()],
                vec![d.first_pos.line, d.second_pos.line],
            ),
            DuplicateRequirementDeclaration(r) => f("DuplicateRequirement", vec![r.to_string()], vec![]),
            UndefinedPredicate(u) => f("UndefinedPredicate", vec![u.symbol.clone()], vec![u.position.line]),
            UndefinedType(u) => f("UndefinedType", vec![u.symbol.clone()], vec![u.position.line]),
            UndefinedSubtask(u) => f("UndefinedSubtask", vec![u.symbol.clone()], vec![u.position.line]),
            UndefinedTask(u) => f("UndefinedTask", vec![u.symbol.clone()], vec![u.position.line]),
            UndefinedParameter(u) => f("UndefinedParameter", vec![u.symbol.clone()], vec![u.position.line]),
            UndefinedObject(u) => f("UndefinedObject", vec![u.symbol.clone()], vec![u.position.line]),
            InconsistentPredicateArity(a) | InconsistentTaskArity(a) => f(
                if let InconsistentPredicateArity(_) = s { "InconsistentPredicateArity" } else { "InconsistentTaskArity" },
                vec![a.symbol.clone(), a.expected_arity.to_string(), a.found_arity.to_string()],
                vec![a.position.line],
            ),
            InconsistentPredicateArgType(t) | InconsistentTaskArgType(t) => f(
                if let InconsistentPredicateArgType(_) = s {
                    "InconsistentPredicateArgType"
                } else {
                    "InconsistentTaskArgType"
                },
                vec![
                    t.expected.clone().unwrap_or("<none>".to_string()),
                    t.found.clone().unwrap_or("<none>".to_string()),
                    t.var_name.clone(),
                ],
                vec![t.position.line],
            ),
            CyclicTypeDeclaration => f("CyclicType", vec![], vec![]),
            CyclicOrderingDeclaration(p) => f("CyclicOrdering", vec![], vec![p.line]),
        },
    }
}

// the numbers that follow "line ", not within words
fn lines_in(text: &str) -> Vec<u32> {
    let mut out = vec![];
    let b = text.as_bytes();
    let mut i = 0;
    while let Some(j) = text[i..].find("line ") {
        let at = i + j;
        let mut k = at + 5;
        let mut n = 0u64;
        let start = k;
        while k < b.len() && b[k].is_ascii_digit() && k - start < 12 {
            n = n * 10 + (b[k] - b'0') as u64;
            k += 1;
        }
        if k > start && (at == 0 || !(b[at - 1] as char).is_alphanumeric()) {
            out.push(n as u32);
        }
        i = at + 5;
    }
    out
}

// the text of an error gives its symbol, its lines and its numbers, in that sense
fn check_text(e: &Finding, text: &str) -> Result<(), String> {
    let bad = |m: String| Err(format!("the text {:?} of the error {:?} {}", text, e, m));
    // what the document contains is not to be taken for the text of the message
    let bare = text.to_string();
    if e.kind == "Lexical" || e.kind == "Syntactic" {
        if lines_in(text).first() != e.lines.first() {
            return bad("does not give its line".to_string());
        }
        for x in &e.fields {
            if !text.contains(x.as_str()) {
                return bad(format!("does not contain {:?}", x));
            }
        }
        return Ok(());
    }
    if lines_in(text) != e.lines {
        return bad("does not give its lines".to_string());
    }
    match e.kind.as_str() {
        k if k.ends_with("Arity") => {
            // symbol, expected and found in this order
            if !text.contains(e.fields[0].as_str()) {
                return bad("does not contain the symbol".to_string());
            }
            // the last two numbers of the text
            let all: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
            if all.len() < 2 || all[all.len() - 2] != e.fields[1] || all[all.len() - 1] != e.fields[2] {
                return bad("does not give the expected and found arity in this order".to_string());
            }
        }
        k if k.ends_with("ArgType") => {
            let mut from = 0;
            for x in [&e.fields[2], &e.fields[0], &e.fields[1]] {
                if x.as_str() == "<none>" {
                    continue;
                }
                match bare[from..].find(x.as_str()) {
                    Some(a) => from += a + x.len(),
                    None => return bad(format!("does not give {:?} in its place", x)),
                }
            }
        }
        _ => {
            for x in &e.fields {
                if !bare.contains(x.as_str()) {
                    return bad(format!("does not contain {:?}", x));
                }
            }
        }
    }
    // names the kind of entity
    let bare = text.to_lowercase();
    let word = match e.kind.as_str() {
        "DuplicateObject" | "UndefinedObject" => "object",
        "DuplicateRequirement" => "requirement",
        "DuplicatePredicate" | "UndefinedPredicate" | "InconsistentPredicateArity" => "predicate",
        "DuplicateAction" => "action",
        "DuplicateCompoundTask" | "UndefinedTask" | "InconsistentTaskArity" => "task",
        "UndefinedSubtask" => "subtask",
        "DuplicateMethod" => "method",
        "DuplicateParameter" | "UndefinedParameter" => "parameter",
        "UndefinedType" | "CyclicType" | "InconsistentPredicateArgType" | "InconsistentTaskArgType" => "type",
        "CyclicOrdering" => "ordering",
        _ => "",
    };
    if !bare.contains(word) {
        return bad(format!("does not say that it is about a {}", word));
    }
    Ok(())
}

fn error<X>(e: ParsingError) -> Out<X> {
    let r = guard(|| (convert(&e), e.to_string()));
    match r {
        Err(m) => Out::Crash(format!("rendering an error: {}", m)),
        Ok((f, text)) => match check_text(&f, &text) {
            Ok(()) => Out::Err(ErrInfo { f, text }),
            Err(m) => Out::Crash(m),
        },
    }
}

pub fn verify(d: &[u8], p: Option<&[u8]>) -> Out<Vec<Warn>> {
    let (dv, pv) = (d.to_vec(), p.map(|x| x.to_vec()));
    BYTES.fetch_add((d.len() + p.map(|x| x.len()).unwrap_or(0)) as u64, Ordering::Relaxed);
    let out = guard(|| HDDLAnalyzer::verify(&dv, pv.as_ref()));
    match out.and_then(|x| same(d, &dv, p, pv.as_deref()).map(|_| x)) {
        Err(m) => Out::Crash(m),
        Ok(Err(e)) => error(e),
        Ok(Ok(ws)) => {
            let mut out = vec![];
            for w in &ws {
                let text = match guard(|| w.to_string()) {
                    Ok(t) => t,
                    Err(m) => return Out::Crash(format!("rendering a warning: {}", m)),
                };
                match w {
                    WarningType::NoPrimitiveRefinement(i) => {
                        if lines_in(&text) != [i.position.line] || !text.contains(i.symbol.as_str()) {
                            return Out::Crash(format!(
                                "the text {:?} of the warning does not give the task {} and line {}",
                                text, i.symbol, i.position.line
                            ));
                        }
                        out.push((i.symbol.clone(), i.position.line));
                    }
                    _ => out.push((format!("<other warning: {}>", text), 0)),
                }
            }
            out.sort();
            Out::Ok(out)
        }
    }
}

// "[t]-(m)->[t2]-(m2)->[t]" as names; names contain none of these characters
fn cycle_names(s: &str) -> Vec<String> {
    s.split("->")
        .flat_map(|x| x.split(")"))
        .flat_map(|x| x.split("-("))
        .map(|x| x.trim_matches(|c| c == '[' || c == ']').to_string())
        .filter(|x| !x.is_empty())
        .collect()
}

pub fn metadata(d: &[u8], p: Option<&[u8]>) -> Out<Meta> {
    let (dv, pv) = (d.to_vec(), p.map(|x| x.to_vec()));
    BYTES.fetch_add(d.len() as u64, Ordering::Relaxed);
    let out = guard(|| HDDLAnalyzer::get_metadata(&dv, pv.as_ref()));
    match out.and_then(|x| same(d, &dv, p, pv.as_deref()).map(|_| x)) {
        Err(m) => Out::Crash(m),
        Ok(Err(e)) => error(e),
        Ok(Ok(m)) => {
            let (text, rec) = match guard(|| (m.to_string(), m.recursion.to_string())) {
                Ok(t) => t,
                Err(m) => return Out::Crash(format!("rendering the metadata: {}", m)),
            };
            let mut rl = rec.split('\n');
            let class = rl.next().unwrap_or("").trim().to_string();
            let cycle = match rl.next().and_then(|x| x.find("Cycle: ").map(|i| x[i + 7..].to_string())) {
                Some(c) => cycle_names(&c),
                None => vec![],
            };
            let mut nullables = m.nullables.clone();
            nullables.sort();
            let meta = Meta {
                class,
                cycle,
                nullables,
                actions: m.n_actions as u64,
                tasks: m.n_tasks as u64,
                methods: m.n_methods as u64,
                text: text.clone(),
            };
            // the text gives the same
            match read_meta(&text) {
                Some(t) if t == meta => Out::Ok(meta),
                t => Out::Crash(format!("the text {:?} of the metadata reads as {:?}, not as {:?}", text, t, meta)),
            }
        }
    }
}

// reads the text of metadata
pub fn read_meta(text: &str) -> Option<Meta> {
    let mut class = None;
    let mut cycle = vec![];
    let mut nullables = vec![];
    let (mut a, mut t, mut m) = (None, None, None);
    let mut in_null = false;
    let mut null_seen = false;
    for l in text.split('\n') {
        let s = l.trim();
        if in_null && l.starts_with("\t\t") {
            nullables.push(s.to_string());
            continue;
        }
        in_null = false;
        if let Some(x) = s.strip_prefix("Hierarchy type:") {
            class = Some(x.trim().to_string());
        } else if let Some(x) = s.strip_prefix("Cycle:") {
            cycle = cycle_names(x.trim());
        } else if let Some(x) = s.strip_prefix("Nullable Tasks:") {
            null_seen = true;
            in_null = x.trim().is_empty();
            if !in_null && x.trim() != "None" {
                return None;
            }
        } else if let Some(x) = s.strip_prefix("Number of actions:") {
            a = x.trim().parse().ok();
        } else if let Some(x) = s.strip_prefix("Number of abstract tasks:") {
            t = x.trim().parse().ok();
        } else if let Some(x) = s.strip_prefix("Number of methods:") {
            m = x.trim().parse().ok();
        }
    }
    nullables.sort();
    if !null_seen {
        return None;
    }
    Some(Meta { class: class?, cycle, nullables, actions: a?, tasks: t?, methods: m?, text: text.to_string() })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Export {
    pub domain: Value,
    pub problem: Option<Value>,
    pub len: usize,
}

pub fn read_export(text: &str, with_problem: bool) -> Result<Export, String> {
    let mut de = serde_json::Deserializer::from_str(text);
    de.disable_recursion_limit();
    let v = <Value as serde::Deserialize>::deserialize(&mut de).map_err(|e| format!("the export is not JSON: {}", e))?;
    de.end().map_err(|e| format!("the export is not JSON: {}", e))?;
    let o = v.as_object().ok_or("the export is not an object")?;
    let get = |k: &str| -> Result<Value, String> {
        Ok(o.get(k).ok_or(format!("the export has no {}", k))?.clone())
    };
    if o.len() != 1 + with_problem as usize {
        return Err(format!("the export has {} elements", o.len()));
    }
    Ok(Export {
        domain: get("domain")?,
        problem: if with_problem { Some(get("problem")?) } else { None },
        len: text.len(),
    })
}

pub fn to_json_text(d: &[u8], p: Option<&[u8]>) -> Out<String> {
    let (dv, pv) = (d.to_vec(), p.map(|x| x.to_vec()));
    BYTES.fetch_add((d.len() + p.map(|x| x.len()).unwrap_or(0)) as u64, Ordering::Relaxed);
    let out = guard(|| HDDLAnalyzer::to_json(&dv, pv.as_ref()));
    match out.and_then(|x| same(d, &dv, p, pv.as_deref()).map(|_| x)) {
        Err(m) => Out::Crash(m),
        Ok(Err(e)) => error(e),
        Ok(Ok(s)) => Out::Ok(s),
    }
}

pub fn to_json(d: &[u8], p: Option<&[u8]>) -> Out<Export> {
    match to_json_text(d, p) {
        Out::Crash(m) => Out::Crash(m),
        Out::Err(e) => Out::Err(e),
        Out::Ok(s) => match read_export(&s, p.is_some()) {
            Ok(e) => Out::Ok(e),
            Err(m) => Out::Crash(m),
        },
    }
}
