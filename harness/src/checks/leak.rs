// C23: memory does not grow with the number of analyses or messages.
use super::lsp::{self, about, change, io, open, save, uri_of, Server};
use super::util::*;
use crate::core::*;
use crate::rng::Rng;
use crate::sut::{self, Out};
use crate::violated;
use serde_json::{json, Value};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub static CHECKS: [&Check; 1] = [&C23];

static C23: Check = Check {
    id: "C23",
    rule: "a case is a sequence of analyses of documents of every quality, in periods with new documents each, with the live heap of the process measured after each (exactly, by the allocator), or a session with the \
           language server in periods of equal traffic, with its anonymous resident memory measured after each; memory that grows in every period is retained; non-trivial: distinct sequence of analyses or session",
    required: &[
        "library: results", "library: parse errors", "library: semantic errors", "library: warnings", "server: changes only", "server: changes and diagnostics", "server: diagnostics only",
        "server: saves with text", "server: reopened documents", "server: problems with a domain on disk", "server: flawed documents", "server: unsynced documents",
        "server: many changes", "server: many diagnostics", "server: many saves with text", "server: many saves without text", "server: often reopened", "server: many requests about unsynced documents",
    ],
    assumptions: &["what the server retains per document that was ever opened is not limited, only what it retains per message", "growth of the server below an eighth of the traffic (with large documents) or 24 bytes per message (with small ones) is not told from the noise of its allocator"],
    cases: |t| if t { 1_400 } else { 72 },
    run: c23,
    workers: 8,
};

const PERIODS: usize = 6;

fn c23(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    match i % 4 {
        0 => library(ctx, r),
        1 | 2 => server(ctx, r, i / 4 * 2 + i % 4 - 1),
        _ => trickle(ctx, r, i / 4),
    }
}

// very many messages about a small document with a long address
fn trickle(ctx: &mut Ctx, r: &mut Rng, mode: u64) -> Res {
    let dir = ctx.scratch.join("mem");
    let _ = std::fs::remove_dir_all(&dir);
    io(std::fs::create_dir_all(&dir))?;
    let mut rr = r.fork();
    let mode = mode % 6;
    ctx.saw(["server: many changes", "server: many diagnostics", "server: many saves with text", "server: many saves without text", "server: often reopened", "server: many requests about unsynced documents"][mode as usize]);
    let res = lsp::session(ctx, |ctx, s| {
        let r = &mut rr;
        s.initialize()?;
        let problem = r.chance(1, 3);
        let flawed = r.chance(1, 2);
        let n = 6_000; // messages of a period
        if problem {
            io(std::fs::write(dir.join("domain.hddl"), document("", 0, false, false)))?;
        }
        let uri = if problem { uri_of(&dir.join(format!("{}.hddl", "x".repeat(200)))) } else { format!("untitled:{}", "x".repeat(400)) };
        let mut now = document("", 0, problem, flawed);
        s.notify("textDocument/didOpen", open(&uri, 1, &now));
        let mut rss = vec![];
        let mut v = 1;
        for period in 0..=PERIODS {
            for k in 0..if period == 0 { n / 2 } else { n } {
                v += 1;
                let mut last = None;
                match mode {
                    0 => {
                        let t = document("", v, problem, flawed);
                        let m = change(s, &uri, v, &now, &[&t]);
                        now = t;
                        s.notify("textDocument/didChange", m);
                    }
                    1 => last = Some(s.request("textDocument/diagnostic", about(&uri))),
                    2 => {
                        now = document("", v, problem, flawed);
                        s.notify("textDocument/didSave", save(&uri, Some(&now)));
                    }
                    3 => s.notify("textDocument/didSave", save(&uri, None)),
                    4 => {
                        now = document("", v, problem, flawed);
                        s.notify("textDocument/didClose", about(&uri));
                        s.notify("textDocument/didOpen", open(&uri, 1, &now));
                    }
                    _ => {
                        let u = format!("untitled:{}-{}", "u".repeat(400), v);
                        last = Some(s.request("textDocument/diagnostic", about(&u)));
                    }
                }
                // a bounded number in flight
                if k % 32 == 31 {
                    let id = match last {
                        Some(x) => x,
                        None => s.request("textDocument/diagnostic", about("untitled:none")),
                    };
                    s.wait(&[id])?;
                    s.responses.clear();
                    s.log.clear();
                }
            }
            let id = s.request("textDocument/diagnostic", about(&uri));
            s.wait(&[id])?;
            s.responses.clear();
            rss.push(settled(s)?);
        }
        ctx.saw_n("server: memory measurements", rss.len() as u64);
        let grown = rss[PERIODS].saturating_sub(rss[1]);
        let steps = rss[1..].windows(2).filter(|w| w[1] > w[0]).count();
        ctx.max("growth with many messages, in millibytes per message", grown * 1000 / (n * (PERIODS as u64 - 1)));
        if grown > 24 * n * (PERIODS as u64 - 1) && steps >= 4 && rss[PERIODS] > rss[PERIODS / 2] {
            violated!("the server retains memory: {:?} bytes after periods of {} messages each about a small document (mode {})", rss, n, mode);
        }
        ctx.nontrivial(&[b"many", &mode.to_le_bytes(), &ctx.case.to_le_bytes()]);
        ctx.sample(|| json!({ "messages per period": n, "resident memory after each period": rss }));
        s.finish()
    });
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn library(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let n = r.range(20, 60);
    let mut docs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    while docs.len() < n * (PERIODS + 1) {
        let (mut d, mut p) = any_documents(ctx, r);
        match r.below(6) {
            0 => mutate_bytes(r, &mut d, 1),
            1 => mutate_bytes(r, &mut p, 1),
            _ => {}
        }
        docs.push((d, p));
    }
    // the longest ones come first, so that buffers need not grow later
    docs[..].sort_by_key(|(d, p)| std::cmp::Reverse(d.len() + p.len()));
    r.shuffle(&mut docs[n..]);
    for (d, p) in docs.iter().take(40) {
        ctx.nontrivial(&[d, p]);
    }
    let mut live = [0usize; PERIODS + 1];
    let mut kinds = [0u64; 4];
    for k in 0..=PERIODS {
        for (d, p) in &docs[k * n..(k + 1) * n] {
            let x = sut::verify(d, None);
            let y = sut::verify(d, Some(p));
            let z = sut::metadata(d, None);
            let j = sut::to_json_text(d, Some(p));
            for o in [&x, &y] {
                match o {
                    Out::Crash(m) => violated!("verify: {}", m),
                    Out::Ok(w) => kinds[if w.is_empty() { 0 } else { 3 }] += 1,
                    Out::Err(e) => kinds[if is_parse_error(&e.f) { 1 } else { 2 }] += 1,
                }
            }
            drop((x, y, z, j));
        }
        live[k] = MEM.load(Ordering::SeqCst);
    }
    for (k, what) in ["library: results", "library: parse errors", "library: semantic errors", "library: warnings"].iter().enumerate() {
        ctx.saw_n(what, kinds[k]);
    }
    ctx.saw_n("library: heap measurements", live.len() as u64);
    if live.windows(2).all(|w| w[1] > w[0]) {
        for (k, (d, p)) in docs[n..].iter().take(8).enumerate() {
            ctx.doc(&format!("domain{}.hddl", k), d);
            ctx.doc(&format!("problem{}.hddl", k), p);
        }
        violated!("analyses retain memory: the live heap after {} periods of {} pairs of documents each is {:?}", PERIODS + 1, n, live);
    }
    ctx.sample(|| json!({ "pairs per period": n, "live heap after each period": live }));
    Ok(())
}

fn resident(pid: u32) -> Result<u64, Stop> {
    let s = io(std::fs::read_to_string(format!("/proc/{}/status", pid)))?;
    let l = s.lines().find_map(|l| l.strip_prefix("RssAnon:"));
    match l.and_then(|x| x.trim().split(' ').next().and_then(|x| x.parse::<u64>().ok())) {
        Some(k) => Ok(k * 1024),
        None => Err(Stop::Harness("no RssAnon".to_string())),
    }
}

// once the server is done with everything
fn settled(s: &Server) -> Result<u64, Stop> {
    let t = Instant::now();
    let mut last = None;
    let mut same = 0;
    while t.elapsed() < Duration::from_secs(5) && same < 4 {
        let now = lsp::activity(s.child.id());
        if now == last && now.map(|x| x.1).unwrap_or(false) {
            same += 1;
        } else {
            same = 0;
        }
        last = now;
        std::thread::sleep(Duration::from_millis(5));
    }
    resident(s.child.id())
}

// the bulk of a document of about so many bytes
fn bulk(bytes: usize, problem: bool) -> String {
    let mut t = String::new();
    let mut k = 0;
    while t.len() < bytes {
        k += 1;
        if problem {
            t.push_str(" (p)\n");
        } else {
            t.push_str(&format!(" (p-{} ?a ?b ?c ?d)\n", k));
        }
    }
    t
}

// with a flaw or not
fn document(bulk: &str, v: u64, problem: bool, flawed: bool) -> String {
    match (problem, flawed) {
        (true, false) => format!("(define (problem p{}) (:domain d) (:init {}))", v, bulk),
        (true, true) => format!("(define (problem p{}) (:domain d) (:init {}) (:goal (undeclared-{})))", v, bulk, v),
        (false, false) => format!("(define (domain d) (:predicates (p) (v{}) {}))", v, bulk),
        (false, true) => format!("(define (domain d) (:predicates (p) {}) (:action a :parameters () :precondition (undeclared-{})))", bulk, v),
    }
}

fn server(ctx: &mut Ctx, r: &mut Rng, mode: u64) -> Res {
    let dir = ctx.scratch.join("mem");
    let _ = std::fs::remove_dir_all(&dir);
    io(std::fs::create_dir_all(&dir))?;
    let mut rr = r.fork();
    let mode = mode % 7;
    let flawed = rr.chance(1, 2);
    ctx.saw(["server: changes only", "server: changes and diagnostics", "server: diagnostics only", "server: saves with text", "server: reopened documents", "server: problems with a domain on disk", "server: unsynced documents"][mode as usize]);
    if flawed {
        ctx.saw("server: flawed documents");
    }
    let res = lsp::session(ctx, |ctx, s| {
        let r = &mut rr;
        s.initialize()?;
        let bytes = r.range(20_000, 60_000);
        let n = 8_000_000 / bytes + 1; // messages of a period
        if mode == 5 {
            let d = document("", 0, false, false);
            io(std::fs::write(dir.join("domain.hddl"), d))?;
        }
        let problem = mode == 5;
        let body = bulk(bytes, problem);
        let uri = if mode % 2 == 0 { "untitled:x".to_string() } else { uri_of(&dir.join("x.hddl")) };
        let mut now = document(&body, 0, problem, flawed);
        s.notify("textDocument/didOpen", open(&uri, 1, &now));
        let mut rss = vec![];
        let mut v = 1;
        for period in 0..=PERIODS {
            // the first one is to warm up
            let m = if period == 0 { n / 2 } else { n };
            let mut ids: Vec<Value> = vec![];
            for k in 0..m {
                v += 1;
                match mode {
                    6 => {
                        // the name of the document is long
                        let u = format!("untitled:{}-{}", "u".repeat(bytes), v);
                        ids.push(s.request("textDocument/diagnostic", about(&u)));
                    }
                    2 => ids.push(s.request("textDocument/diagnostic", about(&uri))),
                    3 => {
                        now = document(&body, v, problem, flawed);
                        s.notify("textDocument/didSave", save(&uri, Some(&now)));
                    }
                    4 => {
                        now = document(&body, v, problem, flawed);
                        s.notify("textDocument/didClose", about(&uri));
                        s.notify("textDocument/didOpen", open(&uri, 1, &now));
                    }
                    _ => {
                        let t = document(&body, v, problem, flawed);
                        let m = change(s, &uri, v, &now, &[&t]);
                        now = t;
                        s.notify("textDocument/didChange", m);
                    }
                }
                if mode == 1 || mode == 5 || (mode == 4 && r.chance(1, 4)) {
                    ids.push(s.request("textDocument/diagnostic", about(&uri)));
                }
                // a bounded number in flight
                if k % 8 == 7 {
                    ids.push(s.request("textDocument/diagnostic", about(if mode == 0 || mode == 3 { "untitled:none" } else { &uri })));
                    s.wait(&ids)?;
                    ids.clear();
                    s.responses.clear();
                    s.log.clear();
                }
            }
            ids.push(s.request("textDocument/diagnostic", about(if mode == 0 || mode == 3 { "untitled:none" } else { &uri })));
            s.wait(&ids)?;
            s.responses.clear();
            rss.push(settled(s)?);
        }
        ctx.saw_n("server: memory measurements", rss.len() as u64);
        let traffic = (n * bytes) as u64;
        ctx.max("growth in a period, in percent of the traffic", rss.windows(2).map(|w| w[1].saturating_sub(w[0]) * 100 / traffic).max().unwrap_or(0));
        ctx.max("growth over all periods, in percent of the traffic", rss[PERIODS].saturating_sub(rss[0]) * 100 / (traffic * PERIODS as u64));
        if rss.windows(2).all(|w| w[1] > w[0] + traffic / 25) && rss[PERIODS] - rss[0] > traffic * PERIODS as u64 / 8 {
            violated!("the server retains memory: {:?} bytes after periods of {} messages of {} bytes each (mode {})", rss, n, bytes, mode);
        }
        ctx.nontrivial(&[&mode.to_le_bytes(), &bytes.to_le_bytes(), &ctx.case.to_le_bytes()]);
        ctx.sample(|| json!({ "messages per period": n, "bytes per message": bytes, "resident memory after each period": rss }));
        s.finish()
    });
    let _ = std::fs::remove_dir_all(&dir);
    res
}
