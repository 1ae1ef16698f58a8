// C17 to C19: the real language server, spoken to over its standard input and output.
use super::util::*;
use crate::core::*;
use crate::refp::{self, T};
use crate::render::{any_layout, layout, Style, Writer};
use crate::rng::Rng;
use crate::sut::{self, ErrInfo};
use crate::{harness, violated};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

pub static CHECKS: [&Check; 3] = [&C17, &C18, &C19];

static C17: Check = Check {
    id: "C17",
    rule: "a case is a session with the language server about documents in a scratch folder with other files; each diagnostic report is compared with the findings of the library for the same content; non-trivial: a report for a document of known kind; counted by content",
    required: &[
        "domain: no item", "domain: parse error", "domain: semantic error", "problem: sound domain, no item", "problem: sound domain, semantic error",
        "problem: sound domain, parse error", "problem: flawed domain", "problem: malformed domain", "problem: flawed domain and malformed problem", "problem: no domain",
        "problem: no domain, parse error", "not HDDL", "folder with distractors", "domain changed on disk", "duplicate declaration", "long line number", "unusual folder name", "pddl", "without a folder", "folder with many files", "documents of many kilobytes", "same finding in domain and problem",
        "domain is a link", "domain on disk is not UTF-8",
    ],
    assumptions: &[
        "at most one domain per folder",
        "the kind of a document is told by its first four tokens, as read by an independent lexer",
        "ranges of findings without a line (cyclic types, repeated requirements) are not specified",
    ],
    cases: |t| if t { 12_000 } else { 2_000 },
    run: c17,
    workers: 8,
};

static C18: Check = Check {
    id: "C18",
    rule: "a case is a history of open, change, save and diagnostic messages on several documents, sent with many messages in flight; each version of each document has its own finding, so that each response tells which version it is about; non-trivial: a response that was due for a version other than the first; counted by history",
    required: &[
        "diagnostic after open", "diagnostic after change", "diagnostic after save with text", "diagnostic after save without text", "change with several contents", "diagnostic after reopening",
        "many in flight", "split frames", "whole history in one write", "several documents", "more than thirty documents", "many megabytes of documents", "change right after a diagnostic", "content without findings", "an earlier content again", "content of the same length", "small change", "addresses that differ in one part only", "diagnostic after change of nothing", "version replaced before the response", "large documents",
    ],
    assumptions: &["interleavings are those that the server and the scheduler produced"],
    cases: |t| if t { 12_000 } else { 1_200 },
    run: c18,
    workers: 8,
};

static C19: Check = Check {
    id: "C19",
    rule: "a case is a session of protocol-conforming messages of all kinds with hostile contents and locations; every request has to be answered exactly once, and at the end the server has to diagnose a new document, shut down and exit; non-trivial: distinct session",
    required: &[
        "unsynced document", "unknown request", "unknown notification", "cancelled request", "request before initialize", "second initialize", "request after shutdown",
        "untitled document", "http document", "missing folder", "next to a folder named like a document", "next to a dangling link", "encoded path", "file name that is not UTF-8",
        "hostile content", "nesting of thousands of levels", "large content", "string id", "exit after shutdown", "many in flight", "save of an unknown document", "next to a pipe",
    ],
    assumptions: &["documents are local files; there are no devices in their folders"],
    cases: |t| if t { 12_000 } else { 3_000 },
    run: c19,
    workers: 8,
};

// ---------------------------------------------------------------- a client

enum In {
    Msg(Value),
    Bad(String),
    End,
}

pub struct Server {
    pub child: Child,
    tx: Option<Sender<(Vec<u8>, u64)>>,
    rx: Receiver<In>,
    pub log: Vec<String>,
    next_id: u64,
    pub responses: HashMap<String, Value>,
    pub notifications: u64,
    pub ended: bool,
    pub incremental: bool, // the server asks for the changes rather than for the contents
}

fn frame(v: &Value) -> Vec<u8> {
    let s = v.to_string();
    let mut b = format!("Content-Length: {}\r\n\r\n", s.len()).into_bytes();
    b.extend_from_slice(s.as_bytes());
    b
}

// time on a CPU so far, and whether all threads are asleep
pub fn activity(pid: u32) -> Option<(u64, bool)> {
    let mut cpu = 0;
    let mut asleep = true;
    let dir = std::fs::read_dir(format!("/proc/{}/task", pid)).ok()?;
    for t in dir.flatten() {
        let s = std::fs::read_to_string(t.path().join("stat")).ok()?;
        let rest: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
        asleep &= rest[0] == "S";
        cpu += rest[11].parse::<u64>().ok()? + rest[12].parse::<u64>().ok()?;
    }
    Some((cpu, asleep))
}

// a message without "params" where there are none
pub fn message(id: Option<Value>, method: &str, params: Value) -> Value {
    let mut m = json!({ "jsonrpc": "2.0", "method": method });
    if let Some(id) = id {
        m["id"] = id;
    }
    if !params.is_null() {
        m["params"] = params;
    }
    m
}

impl Server {
    pub fn start(ctx: &Ctx) -> Result<Server, Stop> {
        let bin = ctx.bins.join("language_server");
        let mut child = Command::new(&bin)
            .current_dir(&ctx.scratch)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| Stop::Harness(format!("{}: {}", bin.display(), e)))?;
        let mut stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, wrx) = channel::<(Vec<u8>, u64)>();
        std::thread::spawn(move || {
            for (b, pause) in wrx {
                if stdin.write_all(&b).and_then(|_| stdin.flush()).is_err() {
                    return;
                }
                if pause > 0 {
                    std::thread::sleep(Duration::from_micros(pause));
                }
            }
        });
        let (rtx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            loop {
                let mut len = None;
                let mut head = String::new();
                loop {
                    let mut l = String::new();
                    match r.read_line(&mut l) {
                        Ok(0) | Err(_) => {
                            let _ = rtx.send(In::End);
                            return;
                        }
                        _ => {}
                    }
                    head.push_str(&l);
                    let l = l.trim_end();
                    if l.is_empty() {
                        break;
                    }
                    if let Some((k, v)) = l.split_once(':') {
                        if k.eq_ignore_ascii_case("content-length") {
                            len = v.trim().parse::<usize>().ok();
                        }
                    }
                }
                let mut b = vec![0; len.unwrap_or(0)];
                if len.is_none() || r.read_exact(&mut b).is_err() {
                    let _ = rtx.send(In::Bad(format!("{:?}", head.chars().take(400).collect::<String>())));
                    let _ = rtx.send(In::End);
                    return;
                }
                let m = match serde_json::from_slice::<Value>(&b) {
                    Ok(v) => In::Msg(v),
                    Err(e) => In::Bad(format!("{}: {}", e, text(&b))),
                };
                if rtx.send(m).is_err() {
                    return;
                }
            }
        });
        Ok(Server {
            child,
            tx: Some(tx),
            rx,
            log: vec![],
            next_id: 0,
            responses: HashMap::new(),
            notifications: 0,
            ended: false,
            incremental: false,
        })
    }

    pub fn raw(&mut self, b: Vec<u8>, pause: u64) {
        if let Some(tx) = &self.tx {
            let _ = tx.send((b, pause));
        }
    }

    fn note(&mut self, v: &Value) {
        let mut s = v.to_string();
        if s.len() > 1_000_000 {
            s = s.chars().take(1_000_000).collect();
        }
        self.log.push(s);
    }

    pub fn send(&mut self, v: &Value) {
        self.note(v);
        self.raw(frame(v), 0);
    }

    pub fn id(&mut self) -> Value {
        self.next_id += 1;
        json!(self.next_id)
    }

    pub fn request(&mut self, method: &str, params: Value) -> Value {
        let id = self.id();
        self.send(&message(Some(json!(id)), method, params));
        id
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(&message(None, method, params));
    }

    // takes in one message of the server
    fn take(&mut self, m: In) -> Res {
        match m {
            In::End => {
                self.ended = true;
                Ok(())
            }
            In::Bad(m) => violated!("the server sends something that is no message: {}", m),
            In::Msg(v) => {
                if v.get("method").is_some() {
                    self.notifications += 1;
                    if let Some(id) = v.get("id") {
                        // requests of the server get an empty response
                        let a = json!({ "jsonrpc": "2.0", "id": id, "result": null });
                        self.send(&a);
                    }
                    return Ok(());
                }
                sut::CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let id = v["id"].to_string();
                let (r, e) = (v.get("result").is_some(), v.get("error").is_some());
                if r == e {
                    violated!("a response with {} result and error: {}", if r { "both" } else { "neither" }, v);
                }
                if self.responses.insert(id.clone(), v).is_some() {
                    violated!("a second response for the request {}", id);
                }
                Ok(())
            }
        }
    }

    // waits until all these requests are answered
    pub fn wait(&mut self, ids: &[Value]) -> Res {
        let mut quiet = Instant::now();
        let mut last = activity(self.child.id());
        let mut cpu_at_progress = last.map(|x| x.0).unwrap_or(0);
        let keys: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
        let mut from = 0;
        loop {
            while from < keys.len() && self.responses.contains_key(&keys[from]) {
                from += 1;
            }
            if from == keys.len() {
                return Ok(());
            }
            if self.ended {
                let _ = self.child.wait();
                violated!("the server ends without answering the request {}", keys[from]);
            }
            match self.rx.recv_timeout(Duration::from_millis(250)) {
                Ok(m) => {
                    self.take(m)?;
                    quiet = Instant::now();
                    if let Some(a) = activity(self.child.id()) {
                        cpu_at_progress = a.0;
                    }
                }
                Err(RecvTimeoutError::Disconnected) => self.ended = true,
                Err(RecvTimeoutError::Timeout) => {
                    let now = activity(self.child.id());
                    if let (Some(a), Some(b)) = (last, now) {
                        // any activity counts as progress
                        if b.0 != a.0 || !b.1 {
                            quiet = Instant::now();
                        }
                        let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
                        if (b.0 - cpu_at_progress) / tick > 60 {
                            violated!("the request {} is not answered within 60 s of CPU time", keys[from]);
                        }
                    }
                    last = now;
                    if quiet.elapsed() > Duration::from_secs(25) {
                        violated!("the request {} is never answered: the server is idle", keys[from]);
                    }
                }
            }
        }
    }

    pub fn initialize(&mut self) -> Res {
        let id = self.request("initialize", json!({ "capabilities": {}, "processId": null, "rootUri": null }));
        self.wait(&[id.clone()])?;
        let a = &self.responses[&id.to_string()];
        if a.get("error").is_some() {
            violated!("initialize fails: {}", a);
        }
        // what an editor goes by
        let c = &a["result"]["capabilities"];
        let d = &c["diagnosticProvider"];
        if !d.is_object() {
            violated!("the server does not offer diagnostics: {}", c);
        }
        if d["interFileDependencies"] != json!(true) {
            violated!("the server denies that diagnostics depend on other files: {}", c);
        }
        let t = &c["textDocumentSync"];
        let (open, change) = if t.is_object() { (t["openClose"] == json!(true), &t["change"]) } else { (true, t) };
        if !open || !(*change == json!(1) || *change == json!(2)) {
            violated!("the server does not ask for the contents of documents: {}", c);
        }
        let incremental = *change == json!(2);
        self.incremental = incremental;
        self.notify("initialized", json!({}));
        Ok(())
    }

    // shutdown and exit: the server has to end
    pub fn finish(&mut self) -> Res {
        let id = self.request("shutdown", Value::Null);
        // shutdown has no parameters
        self.wait(&[id.clone()])?;
        if self.responses[&id.to_string()].get("error").is_some() {
            violated!("shutdown fails: {}", self.responses[&id.to_string()]);
        }
        self.exit()
    }

    pub fn exit(&mut self) -> Res {
        self.send(&json!({ "jsonrpc": "2.0", "method": "exit" }));
        // closes the connection, once all is written
        self.tx = None;
        let mut quiet = Instant::now();
        let mut last = None;
        loop {
            match self.child.try_wait() {
                Ok(Some(st)) => {
                    while let Ok(m) = self.rx.recv_timeout(Duration::from_millis(2000)) {
                        self.take(m)?;
                        if self.ended {
                            break;
                        }
                    }
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(s) = st.signal() {
                        violated!("the server ends with signal {} after exit", s);
                    }
                    if st.code() == Some(101) {
                        violated!("the server panics after exit");
                    }
                    return Ok(());
                }
                Ok(None) => {}
                Err(e) => harness!("waiting for the server: {}", e),
            }
            std::thread::sleep(Duration::from_millis(1));
            if quiet.elapsed() > Duration::from_millis(500) {
                let now = activity(self.child.id());
                if now != last || now.map(|x| !x.1).unwrap_or(false) {
                    quiet = Instant::now();
                    last = now;
                } else if quiet.elapsed() > Duration::from_secs(25) {
                    violated!("the server does not end after shutdown, exit and the end of its input");
                }
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.tx = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// runs a session; what was sent is kept for the replay
pub fn session(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx, &mut Server) -> Res) -> Res {
    let mut s = Server::start(ctx)?;
    let r = f(ctx, &mut s);
    if r.is_err() {
        let all = s.log.join("\n");
        ctx.doc("sent.jsonl", all.as_bytes());
    }
    r
}

// ---------------------------------------------------------------- expected reports

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Domain,
    Problem,
    Neither,
}

// by the first four tokens; None if that is not specified
fn kind(b: &[u8]) -> Option<Kind> {
    let l = refp::lex(b);
    let t: Vec<&T> = l.toks.iter().take(4).map(|x| &x.0).collect();
    for x in &t {
        match x {
            T::Unspec | T::Kw(_, true) => return None,
            _ => {}
        }
    }
    if t.len() < 4 {
        return Some(Kind::Neither);
    }
    Some(match (t[0], t[1], t[2], t[3]) {
        (T::L, T::Kw("define", _), T::L, T::Kw("domain", _)) => Kind::Domain,
        (T::L, T::Kw("define", _), T::L, T::Kw("problem", _)) => Kind::Problem,
        _ => Kind::Neither,
    })
}

const SOUND: &[u8] = b"(define (domain d))";

// the findings that are due for a document, with the domain of its folder
fn due(b: &[u8], domain: Option<&[u8]>) -> Result<Option<Vec<ErrInfo>>, Stop> {
    Ok(match kind(b) {
        None => None,
        Some(Kind::Neither) => Some(vec![]),
        Some(Kind::Domain) => Some(ok("verify", sut::verify(b, None))?.err().into_iter().collect()),
        Some(Kind::Problem) => {
            let mut v = vec![];
            let mut sound = false;
            if let Some(d) = domain {
                match ok("verify", sut::verify(d, None))? {
                    Ok(_) => sound = true,
                    Err(e) => v.push(e),
                }
            }
            let e = if sound { ok("verify", sut::verify(domain.unwrap(), Some(b)))?.err() } else { ok("verify", sut::verify(SOUND, Some(b)))?.err() };
            if let Some(e) = e {
                if sound || is_parse_error(&e.f) {
                    v.push(e);
                }
            }
            Some(v)
        }
    })
}

fn items<'a>(a: &'a Value) -> Result<&'a Vec<Value>, Stop> {
    if let Some(e) = a.get("error") {
        violated!("a diagnostic request for a synced document fails: {}", e);
    }
    match (a["result"]["kind"].as_str(), a["result"]["items"].as_array()) {
        (Some("full"), Some(v)) => Ok(v),
        _ => violated!("not a full report: {}", a),
    }
}

fn item_is(v: &Value, e: &ErrInfo) -> bool {
    if v["message"].as_str().map(|x| x.trim_end()) != Some(e.text.trim_end()) {
        return false;
    }
    // an error, unless it is a repeated requirement
    if e.f.kind != "DuplicateRequirement" && v["severity"] != json!(1) {
        return false;
    }
    // a duplicate refers to the first declaration
    if e.f.kind.starts_with("Duplicate") && e.f.lines.len() == 2 {
        let l = e.f.lines[0];
        if v["relatedInformation"][0]["location"]["range"] != json!({ "start": { "line": l - 1, "character": 0 }, "end": { "line": l, "character": 0 } }) {
            return false;
        }
    }
    match e.f.lines.last() {
        None => true,
        Some(l) => v["range"] == json!({ "start": { "line": l - 1, "character": 0 }, "end": { "line": l, "character": 0 } }),
    }
}

fn report_is(a: &Value, want: &[ErrInfo], what: &str) -> Res {
    let got = items(a)?;
    let mut left: Vec<&Value> = got.iter().collect();
    for e in want {
        match left.iter().position(|v| item_is(v, e)) {
            Some(i) => {
                left.remove(i);
            }
            None => violated!("{}: no item for {}: {}", what, e, a),
        }
    }
    if !left.is_empty() {
        violated!("{}: {} items, but the findings are {:?}: {}", what, got.len(), want, a);
    }
    Ok(())
}

pub fn uri_of(p: &Path) -> String {
    let mut s = "file://".to_string();
    for b in p.as_os_str().as_bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'.' | b'-' | b'_' | b'~' => s.push(*b as char),
            _ => s.push_str(&format!("%{:02X}", b)),
        }
    }
    s
}

pub fn open(uri: &str, version: u64, t: &str) -> Value {
    json!({ "textDocument": { "uri": uri, "languageId": "hddl", "version": version, "text": t } })
}
// changes to the given contents, one after the other, in the way the server asks for
pub fn change(s: &Server, uri: &str, version: u64, now: &str, ts: &[&str]) -> Value {
    let mut changes = vec![];
    let mut now = now;
    for t in ts {
        changes.push(if s.incremental { edit(now, t) } else { json!({ "text": t }) });
        now = t;
    }
    json!({ "textDocument": { "uri": uri, "version": version }, "contentChanges": changes })
}

// the smallest replacement that turns one content into the other
fn edit(a: &str, b: &str) -> Value {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let m = x.len().min(y.len());
    let i = (0..m).find(|k| x[*k] != y[*k]).unwrap_or(m);
    let j = (0..m - i).find(|k| x[x.len() - 1 - k] != y[y.len() - 1 - k]).unwrap_or(m - i);
    // lines end at line feeds; characters are those of UTF-16
    let position = |k: usize| {
        let line = x[..k].iter().filter(|c| **c == '\n').count();
        let from = x[..k].iter().rposition(|c| *c == '\n').map(|p| p + 1).unwrap_or(0);
        json!({ "line": line, "character": x[from..k].iter().map(|c| c.len_utf16()).sum::<usize>() })
    };
    json!({ "range": { "start": position(i), "end": position(x.len() - j) }, "text": y[i..y.len() - j].iter().collect::<String>() })
}
pub fn save(uri: &str, t: Option<&str>) -> Value {
    match t {
        Some(t) => json!({ "textDocument": { "uri": uri }, "text": t }),
        None => json!({ "textDocument": { "uri": uri } }),
    }
}
pub fn about(uri: &str) -> Value {
    json!({ "textDocument": { "uri": uri } })
}

pub fn io<X>(r: std::io::Result<X>) -> Result<X, Stop> {
    r.map_err(|e| Stop::Harness(format!("scratch files: {}", e)))
}

fn utf8(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).to_string())
}

// a pair of documents that are valid UTF-8
pub fn documents(ctx: &Ctx, r: &mut Rng) -> (String, String) {
    loop {
        let (mut d, mut p) = match r.below(5) {
            0 => {
                let (d, p) = some_model(r);
                let dt = Writer::new(r, Style::Varied).domain(&d);
                let pt = Writer::new(r, Style::Varied).problem(&p);
                let (dl, pl) = (any_layout(r), any_layout(r));
                (layout(r, &dt, dl), layout(r, &pt, pl))
            }
            1 => {
                // one flaw in the problem
                let (d, mut p) = some_model(r);
                for _ in 0..4 {
                    let mut d2 = d.clone();
                    let mut q = p.clone();
                    scramble(r, &mut d2, &mut q, 1);
                    if d2 == d {
                        p = q;
                        break;
                    }
                }
                let dt = Writer::new(r, Style::Varied).domain(&d);
                let pt = Writer::new(r, Style::Varied).problem(&p);
                let (dl, pl) = (any_layout(r), any_layout(r));
                (layout(r, &dt, dl), layout(r, &pt, pl))
            }
            _ => any_documents(ctx, r),
        };
        match r.below(10) {
            0 => mutate_bytes(r, &mut d, 1),
            1 => mutate_bytes(r, &mut p, 1),
            2 => {
                mutate_bytes(r, &mut d, 1);
                mutate_bytes(r, &mut p, 1)
            }
            _ => {}
        }
        if d.len() + p.len() < 400_000 {
            return (utf8(d), utf8(p));
        }
    }
}

// ---------------------------------------------------------------- C17

// a new folder, with an unusual name or not
fn folder(ctx: &mut Ctx, r: &mut Rng, k: u64) -> Result<PathBuf, Stop> {
    let base = ctx.scratch.join("lsp");
    let n = match r.below(6) {
        0 => format!("with spaces {}", k),
        1 => format!("é-✓-{}", k),
        2 => format!("100%25 #{}?", k),
        3 => format!("a.hddl.{}", k),
        _ => format!("f{}", k),
    };
    if n.contains(' ') || n.contains('%') || n.contains('✓') {
        ctx.saw("unusual folder name");
    }
    let d = base.join(n);
    let _ = std::fs::remove_dir_all(&d);
    io(std::fs::create_dir_all(&d))?;
    Ok(d)
}

fn pipe(p: &Path) -> Res {
    match std::process::Command::new("mkfifo").arg(p).status() {
        Ok(s) if s.success() => Ok(()),
        x => harness!("mkfifo: {:?}", x),
    }
}

// files that are no domains, or are not to be considered
fn distractors(ctx: &mut Ctx, r: &mut Rng, dir: &Path) -> Result<(), Stop> {
    for k in 0..r.below(6) {
        let letter = (b'a' + r.below(26) as u8) as char;
        let n = |e: &str| dir.join(format!("{}{}{}", letter, k, e));
        match r.below(10) {
            9 => {
                if r.chance(1, 4) {
                    pipe(&n(".hddl"))?
                }
            }
            0 => io(std::fs::write(n(".hddl"), b"(define (problem other) (:domain d))"))?,
            1 => io(std::fs::write(n(".pddl"), b""))?,
            2 => io(std::fs::write(n(".hddl"), b"not HDDL at all ((("))?,
            3 => io(std::fs::write(n(".txt"), b"(define (domain d) (:types a - undeclared-in-txt"))?,
            4 => io(std::fs::create_dir_all(n(".hddl")))?,
            5 => {
                let _ = std::os::unix::fs::symlink("/nonexistent/x.hddl", n(".hddl"));
            }
            6 => {
                let mut b = vec![b'n', 0xff, 0xfe, b'0' + k as u8];
                b.extend_from_slice(b".hddl");
                io(std::fs::write(dir.join(std::ffi::OsString::from_vec(b)), b"\xff\xfe(define"))?
            }
            7 => io(std::fs::write(n(""), b"(define (domain d))"))?,
            _ => {
                let s = n("");
                io(std::fs::create_dir_all(&s))?;
                io(std::fs::write(s.join("domain.hddl"), b"(define (domain nested) (:types a - b-undeclared"))?
            }
        }
        ctx.saw("folder with distractors");
    }
    if r.chance(1, 25) {
        for k in 0..r.range(40, 300) {
            let n = dir.join(format!("{}{}.{}", (b'a' + (k % 26) as u8) as char, 1000 + k, if k % 3 == 0 { "txt" } else { "hddl" }));
            io(std::fs::write(n, format!("(define (problem other-{}) (:domain d))", k)))?;
        }
        ctx.saw("folder with many files");
    }
    Ok(())
}

fn c17(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    io(std::fs::create_dir_all(ctx.scratch.join("lsp")))?;
    let mut rr = r.fork();
    let res = session(ctx, |ctx, s| {
        let r = &mut rr;
        s.initialize()?;
        for k in 0..r.range(1, 5) {
            let dir = folder(ctx, r, k as u64)?;
            distractors(ctx, r, &dir)?;
            let (mut d, mut p) = if r.chance(1, 20) {
                // the same flaw at the same place
                let n = r.below(4);
                let x = *r.pick(&["5", "x", "(:unknown)", "(:goals)", "!", "((", "(:init (", "?x"]);
                let sep = "\n".repeat(n);
                ctx.saw("same finding in domain and problem");
                (format!("(define (domain d){}{}", sep, x), format!("(define (problem p) (:domain d){}{}", sep, x))
            } else {
                documents(ctx, r)
            };
            ctx.docs.clear();
            for x in [&mut d, &mut p] {
                if r.chance(1, 12) {
                    let n = r.range(500, 8000);
                    *x = if r.chance(1, 2) { format!("{}{}", ";;; of no interest (:types)\n".repeat(n), x) } else { format!("{}\n{}", x, "; nothing else\n".repeat(n)) };
                    ctx.saw("documents of many kilobytes");
                }
            }
            let has = !r.chance(1, 6);
            let nowhere = !has && r.chance(1, 2);
            let ext = if r.chance(1, 4) { "pddl" } else { "hddl" };
            if ext == "pddl" {
                ctx.saw("pddl");
            }
            let dfile = dir.join(format!("{}.{}", r.pick(&["domain", "a", "zz", "my domain", "domaine\u{301}", ".hidden", "d.0.1", "DOMAIN", "-d", "domain.hddl", "x.txt"]), ext));
            let pfile = dir.join(format!("{}.{}", r.pick(&["problem", "p01", "b c"]), ext));
            // what is on disk need not be UTF-8, and may be a link
            let trailer: &[u8] = if r.chance(1, 10) { b"\n; caf\xe9" } else { b"" };
            let mut disk = [d.as_bytes(), trailer].concat();
            if has {
                if r.chance(1, 12) {
                    let target = ctx.scratch.join("lsp").join(format!("target-{}", k));
                    io(std::fs::write(&target, b""))?;
                    io(std::os::unix::fs::symlink(&target, &dfile))?;
                    ctx.saw("domain is a link");
                }
                if !trailer.is_empty() {
                    ctx.saw("domain on disk is not UTF-8");
                }
                io(std::fs::write(&dfile, &disk))?;
            }
            if r.chance(1, 2) {
                io(std::fs::write(&pfile, b"(define (problem on-disk) (:domain d) (:objects o - undeclared-on-disk))"))?;
            }
            let (duri, mut puri) = (uri_of(&dfile), uri_of(&pfile));
            if nowhere {
                puri = format!("untitled:Untitled-{}", k);
                ctx.saw("without a folder");
            }
            let mut opened = [false, false];
            let mut texts = [String::new(), String::new()];
            for step in 0..r.range(1, 4) {
                if step > 0 {
                    // other contents
                    let (d2, p2) = documents(ctx, r);
                    ctx.docs.clear();
                    match r.below(4) {
                        0 => p = p2,
                        1 => {
                            let mut b = p.clone().into_bytes();
                            mutate_bytes(r, &mut b, 1);
                            p = utf8(b);
                        }
                        _ => {
                            d = d2;
                            p = p2;
                            disk = [d.as_bytes(), trailer].concat();
                            if has {
                                io(std::fs::write(&dfile, &disk))?;
                                ctx.saw("domain changed on disk");
                            }
                        }
                    }
                    if r.chance(1, 8) {
                        p = r.pick(&["", "hello", "(", "(define", "(define (domain", "; (define (domain d))", "((define (domain d)))", "\u{feff}(define (domain d))"]).to_string();
                    }
                }
                // on disk there has to be a domain, or nothing like it
                if has && (kind(d.as_bytes()) != Some(Kind::Domain) || kind(&disk) != Some(Kind::Domain)) {
                    continue;
                }
                ctx.docs.clear();
                ctx.doc("domain.hddl", d.as_bytes());
                ctx.doc("problem.hddl", p.as_bytes());
                for (x, uri, t) in [(0, &duri, &d), (1, &puri, &p)] {
                    if opened[x] {
                        let m = change(s, uri, step as u64 + 2, &texts[x], &[t]);
                        s.notify("textDocument/didChange", m);
                    } else {
                        s.notify("textDocument/didOpen", open(uri, 1, t));
                        opened[x] = true;
                    }
                    texts[x] = t.clone();
                }
                let domain = if has { Some(&disk[..]) } else { None };
                let ids: Vec<Value> = vec![s.request("textDocument/diagnostic", about(&duri)), s.request("textDocument/diagnostic", about(&puri))];
                let wd = due(d.as_bytes(), domain)?;
                // a document of the wrong kind can be the domain of its own folder on disk only
                let wp = due(p.as_bytes(), domain)?;
                s.wait(&ids)?;
                let a = s.responses[&ids[0].to_string()].clone();
                let b = s.responses[&ids[1].to_string()].clone();
                match &wd {
                    None => {
                        items(&a)?;
                    }
                    Some(w) => {
                        report_is(&a, w, "domain")?;
                        ctx.nontrivial(&[d.as_bytes()]);
                        if kind(d.as_bytes()) == Some(Kind::Neither) {
                            ctx.saw("not HDDL");
                        } else {
                            saw(ctx, w, "domain");
                        }
                    }
                }
                match &wp {
                    None => {
                        items(&b)?;
                    }
                    Some(w) => {
                        report_is(&b, w, "problem")?;
                        ctx.nontrivial(&[d.as_bytes(), p.as_bytes(), &[has as u8]]);
                        match kind(p.as_bytes()) {
                            Some(Kind::Problem) => {
                                let de = match domain {
                                    None => None,
                                    Some(d) => Some(ok("verify", sut::verify(d, None))?.err()),
                                };
                                let pe = w.iter().any(|e| is_parse_error(&e.f));
                                match de {
                                    None => ctx.saw(if pe { "problem: no domain, parse error" } else { "problem: no domain" }),
                                    Some(None) => saw(ctx, w, "problem: sound domain,"),
                                    Some(Some(e)) => {
                                        ctx.saw(if is_parse_error(&e.f) { "problem: malformed domain" } else { "problem: flawed domain" });
                                        if w.len() == 2 {
                                            ctx.saw("problem: flawed domain and malformed problem");
                                        }
                                    }
                                }
                            }
                            _ => ctx.saw("not HDDL"),
                        }
                    }
                }
                ctx.sample(|| json!({ "document": text(p.as_bytes()), "response": b }));
            }
        }
        s.finish()
    });
    let _ = std::fs::remove_dir_all(ctx.scratch.join("lsp"));
    res
}

fn saw(ctx: &mut Ctx, w: &[ErrInfo], what: &str) {
    let sep = if what.ends_with(',') { "" } else { ":" };
    ctx.saw(&match w.last() {
        None => format!("{}{} no item", what, sep),
        Some(e) if is_parse_error(&e.f) => format!("{}{} parse error", what, sep),
        _ => format!("{}{} semantic error", what, sep),
    });
    if let Some(e) = w.last() {
        if e.f.kind.starts_with("Duplicate") && e.f.lines.len() == 2 {
            ctx.saw("duplicate declaration");
        }
        if e.f.lines.iter().any(|l| *l > 255) {
            ctx.saw("long line number");
        }
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Copy, PartialEq)]
enum Size {
    Small,
    Large,
    Huge,
}

// version v of document n: all have different findings
fn version(ctx: &mut Ctx, r: &mut Rng, n: usize, v: u64, size: Size, old: &[String]) -> String {
    // contents without a finding, and small differences to earlier contents
    match r.below(14) {
        0 => {
            ctx.saw("content without findings");
            return r.pick(&["", " ", "\n", "(", "hello", "; (define (domain d) (:predicates (p) (p)))", "(define (domain d))", "(define (problem p) (:domain d) (:init))", "(define"]).to_string();
        }
        1 if !old.is_empty() => {
            ctx.saw("an earlier content again");
            let back = if r.chance(1, 2) { 1 } else { r.range(1, old.len()) };
            return old[old.len() - back].clone();
        }
        2 | 3 if !old.is_empty() => {
            let mut t = old[old.len() - 1].clone().into_bytes();
            if t.is_ascii() && !t.is_empty() {
                // one byte
                let c = *r.pick(b" ()-xX0\n;?");
                let end = r.chance(1, 3);
                let k = if end { t.len() - 1 } else { r.below(t.len()) };
                match r.below(3) {
                    0 => {
                        ctx.saw("content of the same length");
                        t[k] = c;
                    }
                    1 => {
                        t.remove(k);
                    }
                    _ => t.insert(k, c),
                }
                let t = utf8(t);
                // (of a kind that is specified)
                if kind(t.as_bytes()).is_some() {
                    ctx.saw("small change");
                    return t;
                }
            }
        }
        _ => {}
    }
    let tag = format!("d{}-v{}", n, v);
    let mut s = String::new();
    // another line for each version
    for _ in 0..(v % 7) {
        s.push('\n');
    }
    let filler = if size == Size::Large { r.range(500, 6000) } else { r.below(20) };
    match r.below(8) {
        0 => s.push_str(&format!("(define (domain {}) (:{}-unknown) )", tag, tag)), // lexical or syntactic error
        1 => s.push_str(&format!("(define (problem {}) (:domain d) (:init (at {} (b))))", tag, tag)),
        2 => s.push_str(&format!("(define (domain {}) (:action {} :parameters (?x - {}-undeclared)))", tag, tag, tag)),
        3 => s.push_str(&format!("(define (domain {t}) (:predicates (p)) (:action {t} :parameters ()) (:action {t} :parameters ()))", t = tag)),
        _ => {
            s.push_str(&format!("(define (domain {})\n (:predicates (p ?x))\n", tag));
            for i in 0..filler {
                s.push_str(&format!(" (:action a{} :parameters (?x) :precondition (p ?x))\n", i));
            }
            s.push_str(&format!(" (:action z :parameters (?x) :precondition ({}-undeclared ?x)))", tag));
        }
    }
    if size == Size::Huge {
        let n = r.range(100_000, 1_500_000);
        s.push_str(&" ".repeat(n));
    }
    s
}

fn c18(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let many = i % 25 == 9;
    let huge = i % 75 == 20;
    let n = if many { r.range(30, 300) } else if huge { r.range(8, 24) } else { r.range(1, 6) };
    let dir = ctx.scratch.join("hist");
    let _ = std::fs::remove_dir_all(&dir);
    io(std::fs::create_dir_all(&dir))?;
    let ops = if many || huge { r.range(n, 5 * n) } else { *r.pick(&[20usize, 60, 150, 400]) };
    let large = i % 12 == 3 && !many && !huge;
    let size = if huge { Size::Huge } else if large { Size::Large } else { Size::Small };
    let how = if huge { 1 + 2 * r.below(2) as u64 } else { i % 4 }; // one message at a time, one write, split frames, batches with pauses
    let mut rr = r.fork();
    let res = session(ctx, |ctx, s| {
        let r = &mut rr;
        s.initialize()?;
        if large {
            ctx.saw("large documents");
        }
        if n > 1 {
            ctx.saw("several documents");
        }
        if many {
            ctx.saw("more than thirty documents");
        }
        if huge {
            ctx.saw("many megabytes of documents");
        }
        // addresses that differ in one part only
        let part = if r.chance(1, 3) { 1 + r.below(5) } else { 0 };
        let uris: Vec<String> = (0..n)
            .map(|k| match r.below(4) {
                _ if part > 0 => {
                    ctx.saw("addresses that differ in one part only");
                    match part {
                        1 => format!("vscode-notebook-cell:/work/plan.ipynb#W{}sZmlsZQ", k),
                        2 => format!("git:/work/domain.hddl?ref={}", k),
                        3 => format!("vscode-vfs://host{}/work/domain.hddl", k),
                        4 => format!("scheme{}:/work/domain.hddl", k),
                        _ => format!("untitled:/work/{}domain.hddl", "sub/".repeat(k)),
                    }
                }
                0 => format!("untitled:Untitled-{}", k),
                // nearly the same URIs
                1 => uri_of(&dir.join(format!("D{}.hddl", k))),
                2 => uri_of(&dir.join(format!("d{}.hddl.hddl", k))),
                _ => uri_of(&dir.join(format!("d{}.hddl", k))),
            })
            .collect();
        // on disk there is something else
        for k in 0..n {
            io(std::fs::write(dir.join(format!("d{}.hddl", k)), b"nothing of interest"))?;
        }
        let mut content: Vec<Option<String>> = vec![None; n];
        let mut last_op: Vec<&str> = vec![""; n];
        let mut changes_since: Vec<u64> = vec![0; n];
        let mut v = 0u64;
        let mut old: Vec<Vec<String>> = vec![vec![]; n];
        let mut at: Vec<u64> = vec![0; n]; // version numbers
        let mut expected: Vec<(Value, usize, String, &str, u64)> = vec![];
        let mut history = String::new();
        let mut pending: Vec<Value> = vec![];
        let mut stale: BTreeMap<usize, usize> = BTreeMap::new();
        let p_diag = *r.pick(&[2usize, 4, 6]); // of 8
        for _ in 0..ops {
            let k = r.below(n);
            let uri = uris[k].clone();
            if content[k].is_none() {
                v += 1;
                let t = version(ctx, r, k, v, size, &old[k]);
                at[k] = 1;
                pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didOpen", "params": open(&uri, at[k], &t) }));
                old[k].push(t.clone());
                content[k] = Some(t);
                last_op[k] = "open";
                history.push_str(&format!("o{}", k));
            } else if r.chance(p_diag, 8) {
                let id = s.id();
                pending.push(json!({ "jsonrpc": "2.0", "id": id, "method": "textDocument/diagnostic", "params": about(&uri) }));
                expected.push((id, k, content[k].clone().unwrap(), last_op[k], changes_since[k]));
                stale.insert(k, expected.len() - 1);
                history.push_str(&format!("?{}", k));
            } else {
                v += 1;
                if stale.remove(&k).is_some() {
                    ctx.saw("change right after a diagnostic");
                }
                changes_since[k] += 1;
                match r.below(10) {
                    0 => {
                        let t = version(ctx, r, k, v, size, &old[k]);
                        old[k].push(t.clone());
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didSave", "params": save(&uri, Some(&t)) }));
                        content[k] = Some(t);
                        last_op[k] = "save with text";
                        history.push_str(&format!("s{}", k));
                    }
                    1 | 2 => {
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didSave", "params": save(&uri, None) }));
                        last_op[k] = "save without text";
                        history.push_str(&format!("S{}", k));
                    }
                    // nothing changes
                    3 if r.chance(1, 3) => {
                        at[k] += 1;
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didChange", "params": change(s, &uri, at[k], "", &[]) }));
                        last_op[k] = "change of nothing";
                        history.push_str(&format!("n{}", k));
                    }
                    3 => {
                        // closed and opened again
                        let t = version(ctx, r, k, v, size, &old[k]);
                        old[k].push(t.clone());
                        at[k] = 1;
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didClose", "params": about(&uri) }));
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didOpen", "params": open(&uri, at[k], &t) }));
                        content[k] = Some(t);
                        last_op[k] = "reopening";
                        history.push_str(&format!("r{}", k));
                    }
                    4 => {
                        let m = if r.chance(1, 60) && size != Size::Huge { r.range(45, 340) } else { r.range(2, 4) };
                        let mut ts: Vec<String> = vec![];
                        for _ in 0..m {
                            v += 1;
                            let t = version(ctx, r, k, v, if size == Size::Huge { size } else { Size::Small }, &old[k]);
                            old[k].push(t.clone());
                            ts.push(t);
                        }
                        at[k] += 1;
                        let refs: Vec<&str> = ts.iter().map(|x| x.as_str()).collect();
                        let now = content[k].clone().unwrap();
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didChange", "params": change(s, &uri, at[k], &now, &refs) }));
                        content[k] = ts.pop();
                        last_op[k] = "change with several";
                        ctx.saw("change with several contents");
                        history.push_str(&format!("C{}", k));
                    }
                    _ => {
                        let t = version(ctx, r, k, v, size, &old[k]);
                        old[k].push(t.clone());
                        at[k] += r.range(1, 2) as u64;
                        pending.push(json!({ "jsonrpc": "2.0", "method": "textDocument/didChange", "params": change(s, &uri, at[k], content[k].as_deref().unwrap(), &[&t]) }));
                        content[k] = Some(t);
                        last_op[k] = "change";
                        history.push_str(&format!("c{}", k));
                    }
                }
            }
        }
        for m in &pending {
            s.note(m);
        }
        // sending
        match how {
            0 => {
                for m in &pending {
                    s.raw(frame(m), if r.chance(1, 3) { r.below(800) as u64 } else { 0 });
                }
            }
            1 => {
                let all: Vec<u8> = pending.iter().flat_map(frame).collect();
                ctx.saw("whole history in one write");
                s.raw(all, 0);
            }
            2 => {
                let all: Vec<u8> = pending.iter().flat_map(frame).collect();
                ctx.saw("split frames");
                let mut at = 0;
                while at < all.len() {
                    let most = if r.chance(1, 4) { 60 } else { 6000 };
                    let m = r.range(1, most).min(all.len() - at);
                    let pause = if r.chance(1, 6) { r.below(400) as u64 } else { 0 };
                    s.raw(all[at..at + m].to_vec(), pause);
                    at += m;
                }
            }
            _ => {
                let mut at = 0;
                while at < pending.len() {
                    let m = r.range(1, 24).min(pending.len() - at);
                    s.raw(pending[at..at + m].iter().flat_map(frame).collect(), r.below(3000) as u64);
                    at += m;
                }
            }
        }
        if how > 0 && expected.len() > 20 {
            ctx.saw("many in flight");
        }
        ctx.max("requests in a history", expected.len() as u64);
        let ids: Vec<Value> = expected.iter().map(|x| x.0.clone()).collect();
        s.wait(&ids)?;
        for (id, k, t, op, changes) in &expected {
            let a = &s.responses[&id.to_string()];
            let want = due(t.as_bytes(), None)?;
            match want {
                None => harness!("a version of unspecified kind"),
                Some(w) => {
                    if let Err(Stop::Violation(m)) = report_is(a, &w, "diagnostic") {
                        violated!("request {} about {}: the last content before it has {:?}, but the response is {} ({})", id, uris[*k], w.iter().map(|e| &e.text).collect::<Vec<_>>(), a, m);
                    }
                }
            }
            ctx.saw(&format!("diagnostic after {}", op));
            if *changes > 0 {
                ctx.nontrivial(&[history.as_bytes(), &[*k as u8], &changes.to_le_bytes(), &i.to_le_bytes()]);
                if how > 0 {
                    ctx.saw("version replaced before the response");
                }
            }
        }
        ctx.sample(|| json!({ "history (o open, c change, C several changes, s save with text, S save, r reopen, n no change, ? diagnostic; document)": text(history.as_bytes()), "requests": expected.len() }));
        s.finish()
    });
    let _ = std::fs::remove_dir_all(&dir);
    res
}

// ---------------------------------------------------------------- C19

fn hostile(ctx: &mut Ctx, r: &mut Rng) -> String {
    ctx.saw("hostile content");
    let b: Vec<u8> = match r.below(12) {
        0 => vec![],
        1 => {
            let mut b = vec![b'('; if r.chance(1, 4) { r.range(90, 20_000) } else { r.range(1, 90) }];
            if r.chance(1, 2) {
                b.splice(0..0, b"(define (domain d) (:action a :parameters () :precondition ".iter().cloned());
            }
            b
        }
        2 => {
            // deep formulas
            let n = if r.chance(1, 4) { r.range(90, 20_000) } else { r.range(1, 90) };
            if n > 2_000 {
                ctx.saw("nesting of thousands of levels");
            }
            let op = *r.pick(&["not ", "and ", "or ", "forall (?x) ", "exists (?x - t) "]);
            let mut s = String::from(*r.pick(&["(define (domain d) (:action a :parameters () :precondition ", "(define (problem p) (:domain d) (:goal "]));
            for _ in 0..n {
                s.push('(');
                s.push_str(op);
            }
            s.push_str("(p)");
            s.push_str(&")".repeat(n + r.below(4)));
            s.into_bytes()
        }
        3 => {
            let n = r.range(1, 200);
            super::robust::random_tokens(r, n)
        }
        4 => {
            ctx.saw("large content");
            let n = r.range(10_000, 300_000);
            let x = *r.pick(&["a ", "( ", "(define (domain d) ", "é", ";;;\n", "\n", "(define (problem p) (:domain d) (:init (a)) "]);
            x.repeat(n / x.len()).into_bytes()
        }
        5 => {
            ctx.saw("large content");
            let mut s = String::from("(define (domain d) (:types");
            for k in 0..r.range(1000, 6000) {
                s.push_str(&format!(" t{} - t{}", k + 1, k));
            }
            s.push_str("))");
            s.into_bytes()
        }
        6 => "(define (problem p) (:domain d) (:objects \u{0}é\u{202e}😀) (:init) (:goal (and)))".into(),
        7 => "(define (domain 😀) (:types é - ü))".into(),
        _ => {
            let (d, p) = documents(ctx, r);
            ctx.docs.clear();
            let mut b = if r.chance(1, 2) { d } else { p }.into_bytes();
            let n = r.below(6);
            mutate_bytes(r, &mut b, n);
            b
        }
    };
    utf8(b)
}

fn c19(ctx: &mut Ctx, r: &mut Rng, _: u64) -> Res {
    let dir = ctx.scratch.join("any");
    let _ = std::fs::remove_dir_all(&dir);
    io(std::fs::create_dir_all(&dir))?;
    let mut rr = r.fork();
    let res = session(ctx, |ctx, s| {
        let r = &mut rr;
        let mut ids: Vec<Value> = vec![];
        if r.chance(1, 3) {
            ids.push(s.request("textDocument/diagnostic", about("untitled:x")));
            ids.push(s.request("textDocument/hover", json!({ "textDocument": { "uri": "untitled:x" }, "position": { "line": 0, "character": 0 } })));
            s.wait(&ids)?;
            ctx.saw("request before initialize");
        }
        s.initialize()?;
        // folders
        let mixed = dir.join("mixed");
        io(std::fs::create_dir_all(mixed.join("x.hddl")))?;
        let _ = std::os::unix::fs::symlink("/nonexistent/nowhere", mixed.join("a.hddl"));
        let _ = std::os::unix::fs::symlink(mixed.join("loop.hddl"), mixed.join("loop.hddl"));
        let mut bad = b"n\xff\xfe".to_vec();
        bad.extend_from_slice(b".hddl");
        io(std::fs::write(mixed.join(std::ffi::OsString::from_vec(bad)), b"\xff(define (domain \xfe"))?;
        io(std::fs::write(mixed.join("binary.pddl"), [0u8, 159, 146, 150, b'(']))?;
        if r.chance(1, 2) {
            let h = hostile(ctx, r);
            io(std::fs::write(mixed.join("domain.hddl"), h))?;
        }
        let piped = dir.join("piped");
        let with_pipe = r.chance(1, 8);
        if with_pipe {
            io(std::fs::create_dir_all(&piped))?;
            pipe(&piped.join("pipe.hddl"))?;
            let _ = std::os::unix::fs::symlink(piped.join("pipe.hddl"), piped.join("link.pddl"));
        }
        let odd = dir.join("sp ace é #%");
        io(std::fs::create_dir_all(&odd))?;
        let mut places: Vec<(String, &str)> = vec![
            ("untitled:Untitled-1".to_string(), "untitled document"),
            ("http://example.org/a/b.hddl".to_string(), "http document"),
            (uri_of(&dir.join("missing/folder/p.hddl")), "missing folder"),
            (uri_of(&mixed.join("p.hddl")), "next to a folder named like a document"),
            (uri_of(&mixed.join("q.hddl")), "next to a dangling link"),
            (uri_of(&mixed.join("r.hddl")), "file name that is not UTF-8"),
            (uri_of(&odd.join("p 1%.hddl")), "encoded path"),
            ("file:///".to_string(), "root"),
            ("file://otherhost/share/p.hddl".to_string(), "other host"),
            ("vscode-notebook-cell:/x/y.hddl#abc".to_string(), "other scheme"),
            (format!("{}?query#fragment", uri_of(&mixed.join("p.hddl"))), "query and fragment"),
            ("file:///%FF%FE/p.hddl".to_string(), "path that is not UTF-8"),
        ];
        if with_pipe {
            places.push((uri_of(&piped.join("p.hddl")), "next to a pipe"));
            places.push((uri_of(&piped.join("q.hddl")), "next to a pipe"));
        }
        let mut synced: BTreeMap<String, String> = BTreeMap::new();
        let n = *r.pick(&[10usize, 30, 80]);
        let pipelined = r.chance(2, 3);
        let mut asked: Vec<(Value, bool)> = vec![];
        let mut session = String::new();
        for step in 0..n {
            let (uri, place) = r.pick(&places).clone();
            let k = r.below(16);
            session.push_str(&format!("{}:{} ", k, place));
            match k {
                0..=3 => {
                    let t = if r.chance(1, 2) { hostile(ctx, r) } else { "(define (problem p) (:domain d) (:init (a)))".to_string() };
                    session.push_str(&format!("{} ", crate::rng::hash_bytes(t.as_bytes())));
                    if synced.contains_key(&uri) {
                        let m = change(s, &uri, step as u64, &synced[&uri], &[&t]);
                        s.notify("textDocument/didChange", m);
                    } else {
                        s.notify("textDocument/didOpen", open(&uri, step as u64, &t));
                    }
                    ctx.saw(place);
                    synced.insert(uri, t);
                }
                4..=8 => {
                    let id = if r.chance(1, 3) {
                        let id = json!(format!("req-{}\"é", step));
                        s.send(&json!({ "jsonrpc": "2.0", "id": id, "method": "textDocument/diagnostic", "params": about(&uri) }));
                        ctx.saw("string id");
                        id
                    } else {
                        s.request("textDocument/diagnostic", about(&uri))
                    };
                    if !synced.contains_key(&uri) {
                        ctx.saw("unsynced document");
                        session.push('!');
                    }
                    if !pipelined {
                        s.wait(&[id.clone()])?;
                    }
                    asked.push((id.clone(), synced.contains_key(&uri)));
                    ids.push(id);
                }
                9 => {
                    let m = *r.pick(&["textDocument/completion", "textDocument/hover", "textDocument/definition", "workspace/symbol", "unknown/method", "textDocument/formatting", "workspace/executeCommand"]);
                    let params = match m {
                        "workspace/symbol" => json!({ "query": "x" }),
                        "workspace/executeCommand" => json!({ "command": "x", "arguments": [] }),
                        "textDocument/formatting" => json!({ "textDocument": { "uri": uri }, "options": { "tabSize": 2, "insertSpaces": true } }),
                        "unknown/method" => json!({}),
                        _ => json!({ "textDocument": { "uri": uri }, "position": { "line": 0, "character": 0 } }),
                    };
                    ids.push(s.request(m, params));
                    ctx.saw("unknown request");
                }
                10 => {
                    let m = *r.pick(&["$/setTrace", "workspace/didChangeConfiguration", "$/unknown", "custom/notification", "workspace/didChangeWatchedFiles"]);
                    let params = match m {
                        "$/setTrace" => json!({ "value": "off" }),
                        "workspace/didChangeConfiguration" => json!({ "settings": {} }),
                        "workspace/didChangeWatchedFiles" => json!({ "changes": [{ "uri": uri, "type": 2 }] }),
                        _ => json!({}),
                    };
                    s.notify(m, params);
                    ctx.saw("unknown notification");
                }
                11 => {
                    // cancelled: answered all the same
                    let id = s.request("textDocument/diagnostic", about(&uri));
                    s.notify("$/cancelRequest", json!({ "id": id }));
                    ids.push(id);
                    ctx.saw("cancelled request");
                }
                12 => {
                    if let Some(t) = synced.get_mut(&uri) {
                        if r.chance(1, 2) {
                            *t = hostile(ctx, r);
                            s.notify("textDocument/didSave", save(&uri, Some(t)));
                        } else {
                            s.notify("textDocument/didSave", save(&uri, None));
                        }
                    } else {
                        // of a document elsewhere, that is never asked about
                        let e = *r.pick(&["untitled:never", "http://example.org/never.hddl", "file:///nonexistent/never.hddl"]);
                        s.notify("textDocument/didSave", save(e, None));
                        ctx.saw("save of an unknown document");
                    }
                }
                13 => {
                    if synced.contains_key(&uri) {
                        s.notify("textDocument/didClose", about(&uri));
                        let t = hostile(ctx, r);
                        s.notify("textDocument/didOpen", open(&uri, step as u64, &t));
                        synced.insert(uri, t);
                    }
                }
                14 => {
                    ids.push(s.request("initialize", json!({ "capabilities": {} })));
                    ctx.saw("second initialize");
                }
                _ => {
                    // an empty list of changes
                    if synced.contains_key(&uri) {
                        let m = change(s, &uri, step as u64, "", &[]);
                        s.notify("textDocument/didChange", m);
                    }
                }
            }
        }
        if pipelined && ids.len() > 20 {
            ctx.saw("many in flight");
        }
        ctx.nontrivial(&[session.as_bytes()]);
        ctx.saw_n("requests", ids.len() as u64);
        s.wait(&ids)?;
        for (id, synced) in asked {
            let a = &s.responses[&id.to_string()];
            if a.get("error").is_some() == synced {
                violated!("a diagnostic request for a document that is {}synced: {}", if synced { "" } else { "not " }, a);
            }
        }
        for id in &ids {
            let a = &s.responses[&id.to_string()];
            if a.get("error").is_some() {
                ctx.saw("answered by an error");
            } else {
                ctx.saw("answered by a result");
            }
        }
        // it still serves
        for (t, n) in [("(define (domain fine))", 0), ("(define (domain fine) (:method m :parameters () :task (undeclared-here) :subtasks ()))", 1)] {
            s.notify("textDocument/didOpen", open("untitled:final", 1, t));
            let id = s.request("textDocument/diagnostic", about("untitled:final"));
            s.wait(&[id.clone()])?;
            let a = &s.responses[&id.to_string()];
            if items(a)?.len() != n {
                violated!("after the session, the report for {:?} is {}", t, a);
            }
        }
        let id = s.request("textDocument/diagnostic", about("untitled:never-synced"));
        s.wait(&[id.clone()])?;
        if s.responses[&id.to_string()].get("error").is_none() {
            violated!("a diagnostic request for a document that was never synced succeeds: {}", s.responses[&id.to_string()]);
        }
        ctx.sample(|| json!({ "session": text(session.as_bytes()), "requests": ids.len(), "messages of the server": s.notifications }));
        // the end
        let id = s.request("shutdown", Value::Null);
        s.wait(&[id.clone()])?;
        if s.responses[&id.to_string()].get("error").is_some() {
            violated!("shutdown fails: {}", s.responses[&id.to_string()]);
        }
        if r.chance(1, 3) {
            let id = s.request("textDocument/diagnostic", about("untitled:final"));
            s.wait(&[id.clone()])?;
            ctx.saw("request after shutdown");
            if s.responses[&id.to_string()].get("error").is_none() {
                violated!("a request after shutdown succeeds: {}", s.responses[&id.to_string()]);
            }
        }
        s.exit()?;
        ctx.saw("exit after shutdown");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    res
}
