// C16: the real command line binary, observed from outside.
use super::util::*;
use crate::core::*;
use crate::rng::Rng;
use crate::sut;
use crate::{harness, violated};
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static CHECKS: [&Check; 1] = [&C16];

static C16: Check = Check {
    id: "C16",
    rule: "a case is a pair of documents in files in a scratch folder, given to several commands of the binary with and without problem and output file; standard output, standard error, the way it ends and all files of the folder are compared with the outcome of the library in this process; non-trivial: distinct documents and arguments",
    required: &[
        "verify: error", "verify: warnings", "verify: more than 300 warnings", "verify: no warnings", "metadata: printed", "metadata: error", "to_json: printed", "to_json: written",
        "to_json: error", "domain file missing", "problem file missing", "folder instead of file", "output in a missing folder", "output is a folder",
        "relative output path", "absolute output path", "existing output file", "failed with existing output file", "with problem", "without problem",
        "output of more than 64 kB", "unusual path", "verify: problem error",
    ],
    assumptions: &["the exit status is not specified, except that there is no crash", "colours are ignored"],
    cases: |t| if t { 40_000 } else { 3_600 },
    run: c16,
    workers: 8,
};

// removes ANSI colours
fn plain(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;

fn tree(dir: &Path) -> Tree {
    let mut t = Tree::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                t.insert(p.clone(), None);
                todo.push(p);
            } else {
                t.insert(p.clone(), std::fs::read(&p).ok().or(Some(b"unreadable".to_vec())));
            }
        }
    }
    t
}

fn io<X>(r: std::io::Result<X>) -> Result<X, Stop> {
    r.map_err(|e| Stop::Harness(format!("scratch files: {}", e)))
}

fn file_name(r: &mut Rng, base: &str) -> OsString {
    match r.below(8) {
        0 => OsString::from(format!("{} with spaces.hddl", base)),
        1 => OsString::from(format!("{}é✓.hddl", base)),
        2 => OsString::from(format!("{}.a.b.pddl", base)),
        3 => OsString::from(format!("{}%20'\"$x", base)),
        _ => OsString::from(format!("{}.hddl", base)),
    }
}

struct Ran {
    out: String,
    err: String,
    raw: usize,
}

fn execute(ctx: &mut Ctx, dir: &Path, args: &[OsString]) -> Result<Ran, Stop> {
    let bin = ctx.bins.join("hddl_analyzer");
    let o = Command::new(&bin).args(args).current_dir(dir).stdin(Stdio::null()).output();
    let o = o.map_err(|e| Stop::Harness(format!("{}: {}", bin.display(), e)))?;
    sut::CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let shown: Vec<String> = args.iter().map(|a| a.to_string_lossy().to_string()).collect();
    ctx.docs.retain(|d| d.0 != "arguments");
    ctx.doc("arguments", shown.join("\n").as_bytes());
    if let Some(s) = o.status.signal() {
        violated!("{:?} ends with signal {}: {}", shown, s, text(&o.stderr));
    }
    if o.status.code() == Some(101) || String::from_utf8_lossy(&o.stderr).contains("panicked at") {
        violated!("{:?} panics: {}", shown, text(&o.stderr));
    }
    Ok(Ran { out: plain(&o.stdout), err: plain(&o.stderr), raw: o.stdout.len() })
}

fn is_error(what: &str, ran: &Ran, want: Option<&str>) -> Res {
    if !ran.out.trim().is_empty() {
        violated!("{}: an error is due, but standard output is {:?}", what, text(ran.out.as_bytes()));
    }
    match (ran.err.strip_prefix("[Error] "), want) {
        (None, _) => violated!("{}: no error on standard error: {:?}", what, text(ran.err.as_bytes())),
        (Some(e), Some(w)) => {
            if e.trim_end() != w.trim_end() {
                violated!("{}: the error is {:?}, but that of the library is {:?}", what, e, w);
            }
            Ok(())
        }
        (Some(e), None) => {
            if e.trim().is_empty() {
                violated!("{}: an error without text", what);
            }
            Ok(())
        }
    }
}

fn no_error(what: &str, ran: &Ran) -> Res {
    if !ran.err.trim().is_empty() {
        violated!("{}: {:?} on standard error, but no error is due", what, text(ran.err.as_bytes()));
    }
    Ok(())
}

fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v
}

// text of the warnings, as the library gives it
fn warning_texts(d: &[u8], p: Option<&[u8]>) -> Vec<String> {
    let (d, p) = (d.to_vec(), p.map(|x| x.to_vec()));
    let mut v: Vec<String> = match hddl_analyzer::HDDLAnalyzer::verify(&d, p.as_ref()) {
        Ok(w) => w.iter().map(|x| x.to_string()).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}

fn c16(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
    let dir = ctx.scratch.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    io(std::fs::create_dir_all(dir.join("sub")))?;
    let (mut d, mut p) = if i % 40 == 7 {
        // large ones
        let (d, p) = big_model(r);
        let w = write(ctx, r, &d, &p)?;
        (w.db, w.pb)
    } else if i % 40 == 23 {
        let d = super::hier::huge(r);
        let w = write(ctx, r, &d, &super::hier::blank_problem())?;
        (w.db, w.pb)
    } else {
        any_documents(ctx, r)
    };
    match r.below(12) {
        0 => mutate_bytes(r, &mut d, 1),
        1 | 2 => mutate_bytes(r, &mut p, 1),
        _ => {}
    }
    ctx.docs.clear();
    ctx.doc("domain.hddl", &d);
    ctx.doc("problem.hddl", &p);
    let dn = file_name(r, "domain");
    let pn = file_name(r, "problem");
    if dn.as_bytes() != b"domain.hddl" {
        ctx.saw("unusual path");
    }
    // where they are, and how they are named
    let place = |r: &mut Rng, n: &OsString| -> (PathBuf, OsString) {
        let (file, rel): (PathBuf, PathBuf) = match r.below(3) {
            0 => (dir.join("sub").join(n), PathBuf::from("sub").join(n)),
            1 => (dir.join(n), PathBuf::from("./sub/..").join(n)),
            _ => (dir.join(n), PathBuf::from(n)),
        };
        let arg = if r.chance(1, 3) { file.clone().into_os_string() } else { rel.into_os_string() };
        (file, arg)
    };
    let (dfile, darg) = place(r, &dn);
    let (pfile, parg) = place(r, &pn);
    io(std::fs::write(&dfile, &d))?;
    io(std::fs::write(&pfile, &p))?;
    let before = tree(&dir);

    for cmd in ["verify", "metadata", "to_json"] {
        let with = r.chance(1, 2);
        let pb = if with { Some(&p[..]) } else { None };
        ctx.saw(if with { "with problem" } else { "without problem" });
        // damage to the arguments
        let fault = if r.chance(1, 4) { r.range(1, 4) } else { 0 };
        let mut da = darg.clone();
        let mut pa = parg.clone();
        let mut unreadable = false;
        match fault {
            1 => {
                da = OsString::from("missing.hddl");
                unreadable = true;
                ctx.saw("domain file missing");
            }
            2 => {
                da = OsString::from("sub");
                unreadable = true;
                ctx.saw("folder instead of file");
            }
            3 if with => {
                pa = OsString::from("sub/missing/x.hddl");
                unreadable = cmd != "metadata";
                if unreadable {
                    ctx.saw("problem file missing");
                }
            }
            4 if with => {
                pa = OsString::from("sub");
                unreadable = cmd != "metadata";
            }
            _ => {}
        }
        // what is written for the options
        let opt = |r: &mut Rng, short: &str, long: &str, v: &OsString| -> Vec<OsString> {
            let mut join = |a: &str| {
                let mut b = a.as_bytes().to_vec();
                b.extend_from_slice(v.as_bytes());
                vec![OsString::from_vec(b)]
            };
            match r.below(4) {
                0 => vec![OsString::from(long), v.clone()],
                1 => join(&format!("{}=", long)),
                2 => join(short),
                _ => vec![OsString::from(short), v.clone()],
            }
        };
        let mut parts: Vec<Vec<OsString>> = vec![vec![da]];
        if with {
            parts.push(opt(r, "-p", "--problem-path", &pa));
        }
        let mut output: Option<PathBuf> = None;
        let mut unwritable = false;
        let mut existing: Option<Vec<u8>> = None;
        if cmd == "to_json" && r.chance(1, 2) {
            let n = file_name(r, "out");
            let (file, arg) = match r.below(8) {
                0 => {
                    unwritable = true;
                    ctx.saw("output in a missing folder");
                    (dir.join("none").join(&n), PathBuf::from("none").join(&n).into_os_string())
                }
                1 => {
                    unwritable = true;
                    ctx.saw("output is a folder");
                    (dir.join("sub"), OsString::from("sub"))
                }
                2 | 3 => {
                    ctx.saw("absolute output path");
                    (dir.join("sub").join(&n), dir.join("sub").join(&n).into_os_string())
                }
                _ => {
                    ctx.saw("relative output path");
                    (dir.join("sub").join(&n), PathBuf::from("sub").join(&n).into_os_string())
                }
            };
            if !unwritable && r.chance(1, 2) {
                let n = r.range(0, 200_000);
                let old: Vec<u8> = std::iter::repeat(b"old content ").take(n / 12).flatten().cloned().collect();
                io(std::fs::write(&file, &old))?;
                existing = Some(old);
                ctx.saw("existing output file");
            }
            parts.push(opt(r, "-o", "--output-file", &arg));
            output = Some(file);
        }
        r.shuffle(&mut parts);
        let mut args = vec![OsString::from(cmd)];
        args.extend(parts.into_iter().flatten());
        let ran = execute(ctx, &dir, &args)?;
        let what = format!("{:?}", args);
        ctx.nontrivial(&[&d, &p, what.as_bytes()]);
        if ran.raw > 65536 {
            ctx.saw("output of more than 64 kB");
        }
        let mut written = None;
        if unreadable {
            is_error(&what, &ran, None)?;
        } else {
            match cmd {
                "verify" => match ok("verify", sut::verify(&d, pb))? {
                    Err(e) => {
                        is_error(&what, &ran, Some(&e.text))?;
                        ctx.saw("verify: error");
                        if with && ok("verify", sut::verify(&d, None))?.is_ok() {
                            ctx.saw("verify: problem error");
                        }
                    }
                    Ok(ws) => {
                        no_error(&what, &ran)?;
                        let mut l = lines(&ran.out);
                        if l.pop() != Some("[Ok]") {
                            violated!("{}: the last line is not Ok: {:?}", what, text(ran.out.as_bytes()));
                        }
                        let mut got: Vec<String> = vec![];
                        for x in l {
                            match x.strip_prefix("[Warning] ") {
                                Some(w) => got.push(w.to_string()),
                                None => violated!("{}: a line {:?} that is neither warning nor Ok", what, x),
                            }
                        }
                        got.sort();
                        let want = warning_texts(&d, pb);
                        if got != want {
                            violated!("{}: warnings {:?}, but those of the library are {:?}", what, got, want);
                        }
                        if ws.len() > 300 {
                            ctx.saw("verify: more than 300 warnings");
                        }
                        ctx.saw(if ws.is_empty() { "verify: no warnings" } else { "verify: warnings" });
                    }
                },
                "metadata" => match ok("get_metadata", sut::metadata(&d, None))? {
                    Err(e) => {
                        is_error(&what, &ran, Some(&e.text))?;
                        ctx.saw("metadata: error");
                    }
                    Ok(m) => {
                        no_error(&what, &ran)?;
                        let got = match sut::read_meta(&ran.out) {
                            Some(x) => x,
                            None => violated!("{}: no metadata: {:?}", what, text(ran.out.as_bytes())),
                        };
                        if (&got.class, &got.nullables, got.actions, got.tasks, got.methods, got.cycle.is_empty())
                            != (&m.class, &m.nullables, m.actions, m.tasks, m.methods, m.cycle.is_empty())
                        {
                            violated!("{}: prints {:?}, but the metadata are {:?}", what, text(ran.out.as_bytes()), m.text);
                        }
                        if lines(ran.out.trim_end()).len() != lines(m.text.trim_end()).len() {
                            violated!("{}: prints other lines than the metadata: {:?}", what, text(ran.out.as_bytes()));
                        }
                        ctx.saw("metadata: printed");
                    }
                },
                _ => match ok("to_json", sut::to_json(&d, pb))? {
                    Err(e) => {
                        is_error(&what, &ran, Some(&e.text))?;
                        ctx.saw("to_json: error");
                        if existing.is_some() {
                            ctx.saw("failed with existing output file");
                        }
                    }
                    Ok(x) => {
                        if unwritable {
                            is_error(&what, &ran, None)?;
                        } else {
                            no_error(&what, &ran)?;
                            let got = match &output {
                                Some(f) => {
                                    ctx.saw("to_json: written");
                                    match std::fs::read_to_string(f) {
                                        Ok(s) => {
                                            written = Some(f.clone());
                                            s
                                        }
                                        Err(e) => violated!("{}: the output file: {}", what, e),
                                    }
                                }
                                None => {
                                    ctx.saw("to_json: printed");
                                    match ran.out.strip_prefix("[Ok]\n") {
                                        Some(s) => s.to_string(),
                                        None => violated!("{}: the first line is not Ok: {:?}", what, text(ran.out.as_bytes())),
                                    }
                                }
                            };
                            match sut::read_export(&got, with) {
                                Ok(g) if g.domain == x.domain && g.problem == x.problem => {}
                                Ok(_) => violated!("{}: another export than that of the library", what),
                                Err(m) => violated!("{}: {}: {:?}", what, m, text(got.as_bytes())),
                            }
                        }
                    }
                },
            }
        }
        // the files
        let mut after = tree(&dir);
        if let Some(f) = &output {
            if written.is_some() {
                after.remove(f);
            } else if let Some(old) = &existing {
                if after.remove(f) != Some(Some(old.clone())) {
                    violated!("{}: the output file is changed, though the command failed", what);
                }
            }
        }
        if after != before {
            let diff: Vec<_> = after
                .iter()
                .filter(|(k, v)| before.get(*k) != Some(v))
                .map(|x| x.0)
                .chain(before.keys().filter(|k| !after.contains_key(*k)))
                .collect();
            violated!("{}: files other than the output changed: {:?}", what, diff);
        }
        if let Some(f) = &output {
            if !unwritable {
                let _ = std::fs::remove_file(f);
            }
        }
        ctx.sample(|| json!({ "arguments": what, "stdout": text(ran.out.as_bytes()), "stderr": text(ran.err.as_bytes()) }));
    }
    let _ = std::fs::remove_dir_all(&dir);
    if !ctx.bins.join("hddl_analyzer").exists() {
        harness!("the binary is gone");
    }
    Ok(())
}
