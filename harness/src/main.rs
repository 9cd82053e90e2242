//! Replays cases against the real csv++ code.
//!
//! One JSON case per line on stdin, one JSON line of observations per case on stdout.  A case is a
//! list of steps which run in a scratch directory of their own.  Panics are caught and are data,
//! hangs are reported (and end the process, the driver starts another one).
#![allow(unexpected_cfgs)]
use csvpp::{CliArgs, Compiler};
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::os::unix::fs::OpenOptionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use std::{fs, panic, process, thread};

const LOGICAL_BASE: i64 = 1_000_000_000;
const REAL_TIME: i64 = 1_500_000_000;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn set_mtime(p: &Path, secs: i64, nanos: i64) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    let ts = libc::timespec {
        tv_sec: secs,
        tv_nsec: nanos,
    };
    let times = [ts, ts];
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), times.as_ptr(), 0);
    }
}

fn mtime(p: &Path) -> (i64, i64) {
    use std::os::unix::fs::MetadataExt;
    fs::metadata(p).map_or((0, 0), |m| (m.mtime(), m.mtime_nsec()))
}

fn cli_args(dir: &Path, v: &Value) -> CliArgs {
    let a = &v["args"];
    CliArgs {
        backup: a["backup"].as_bool().unwrap_or(false),
        google_sheet_id: a["gs"].as_str().map(String::from),
        google_account_credentials: a["creds"].as_str().map(String::from),
        key_values: a["kv"]
            .as_array()
            .map(|kv| kv.iter().map(|k| k.as_str().unwrap().to_string()).collect())
            .unwrap_or_default(),
        no_cache: a["no_cache"].as_bool().unwrap_or(false),
        output_filename: if a["gs"].is_string() {
            None
        } else {
            Some(dir.join(v["out"].as_str().unwrap_or("out.csv")))
        },
        safe: a["safe"].as_bool().unwrap_or(false),
        sheet_name: a["sheet"].as_str().map(String::from),
        verbose: 0,
        x_offset: a["x"].as_u64().unwrap_or(0) as u32,
        y_offset: a["y"].as_u64().unwrap_or(0) as u32,
        input_filename: dir.join(s(v, "main")),
    }
}

/// What arguments mean, without compiling anything
fn argv(v: &Value) -> Value {
    use clap::Parser;
    let args = v["args"].as_array().unwrap().iter();
    let args = ["csv++"].into_iter().chain(args.map(|a| a.as_str().unwrap()));
    let parsed = match CliArgs::try_parse_from(args) {
        Ok(p) => p,
        Err(e) => return json!({"ok": false, "stage": "usage", "rc": e.exit_code(), "err": e.to_string()}),
    };
    let compiler = Compiler::try_from(&parsed);
    log::set_max_level(log::LevelFilter::Off);
    let compiler = match compiler {
        Ok(c) => c,
        Err(e) => return json!({"ok": false, "stage": "args", "err": e.to_string()}),
    };
    let c = &compiler.config;
    json!({
        "ok": true,
        "output": compiler.output.to_string(),
        "output_kind": format!("{:?}", compiler.output),
        "input": parsed.input_filename.display().to_string(),
        "backup": c.backup,
        "safe": !c.overwrite_values,
        "cache": c.use_cache,
        "verbosity": c.verbosity as usize,
        "credentials": c.google_account_credentials,
        "sheet": c.sheet_name,
        "x": c.offset.0,
        "y": c.offset.1,
        "kv": c.key_values.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>(),
    })
}

fn err_json(dir: &Path, e: &csvpp::Error, stage: &str) -> Value {
    let prefix = format!("{}/", dir.display());
    json!({"ok": false, "stage": stage, "err": e.to_string().replace(&prefix, "")})
}

fn compile(dir: &Path, v: &Value) -> Value {
    let args = cli_args(dir, v);
    let compiler = match Compiler::try_from(&args) {
        Ok(c) => c,
        Err(e) => return err_json(dir, &e, "args"),
    };
    let module = match compiler.compile() {
        Ok(m) => m,
        Err(e) => return err_json(dir, &e, "compile"),
    };
    if v["write"].as_bool().unwrap_or(false) {
        let target = match compiler.target() {
            Ok(t) => t,
            Err(e) => return err_json(dir, &e, "target"),
        };
        if compiler.config.backup {
            if let Err(e) = target.write_backup() {
                return err_json(dir, &e, "backup");
            }
        }
        if let Err(e) = target.write(&module) {
            return err_json(dir, &e, "write");
        }
    }
    let mut o = json!({"ok": true});
    if !v["norows"].as_bool().unwrap_or(false) {
        o["rows"] = module
            .spreadsheet
            .rows
            .iter()
            .map(|r| {
                Value::Array(
                    r.cells
                        .iter()
                        .map(|c| Value::String(c.to_string()))
                        .collect(),
                )
            })
            .collect();
    }
    if v["dump"].as_bool().unwrap_or(false) {
        let mut d = serde_json::to_value(&module.spreadsheet).unwrap();
        // the positions of every character are large and not of interest
        if let Some(rows) = d["rows"].as_array_mut() {
            for r in rows {
                if let Some(cells) = r["cells"].as_array_mut() {
                    for c in cells {
                        if v["positions"].as_bool() != Some(true) {
                            c["field"]
                                .as_object_mut()
                                .map(|f| f.remove("positions"));
                        }
                    }
                }
            }
        }
        o["spreadsheet"] = d;
    }
    #[cfg(csvpp_verif)]
    if v["gsheets"].is_array() {
        o["gsheets"] = without_nulls(csvpp::verif::google_sheets_request(&compiler, &module, &v["gsheets"]));
    }
    // of large spreadsheets only whether they are the same
    if v["digest"].as_bool().unwrap_or(false) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        o.to_string().hash(&mut h);
        o = json!({"ok": true, "digest": h.finish().to_string()});
    }
    o
}

fn without_nulls(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.into_iter()
                .filter(|(_, v)| !v.is_null())
                .map(|(k, v)| (k, without_nulls(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.into_iter().map(without_nulls).collect()),
        v => v,
    }
}

fn color(c: &umya_spreadsheet::Color) -> Value {
    json!(c.get_argb())
}

fn read_xlsx(p: &Path, sheet: &str) -> Value {
    if !p.exists() {
        return Value::Null;
    }
    let book = match umya_spreadsheet::reader::xlsx::read(p) {
        Ok(b) => b,
        Err(e) => return json!({"unreadable": format!("{e:?}")}),
    };
    let names: Vec<String> = book
        .get_sheet_collection_no_check()
        .iter()
        .map(|s| s.get_name().to_string())
        .collect();
    let Some(ws) = book.get_sheet_by_name(sheet) else {
        return json!({"sheets": names});
    };
    let mut cells = serde_json::Map::new();
    for c in ws.get_cell_collection() {
        let st = c.get_style();
        let mut o = json!({
            "v": c.get_value(),
            "f": c.get_formula(),
            "t": c.get_data_type(),
        });
        if let Some(a) = st.get_alignment() {
            o["ha"] = json!(format!("{:?}", a.get_horizontal()));
            o["va"] = json!(format!("{:?}", a.get_vertical()));
            o["wrap"] = json!(*a.get_wrap_text());
        }
        if let Some(f) = st.get_font() {
            o["font"] = json!({"name": f.get_name(), "size": f.get_size(), "bold": *f.get_bold(),
                "italic": *f.get_italic(), "strike": *f.get_strikethrough(),
                "underline": format!("{:?}", f.get_font_underline().get_val()), "color": color(f.get_color())});
        }
        if let Some(b) = st.get_borders() {
            o["border"] = json!({
                "left": b.get_left().get_border_style(), "right": b.get_right().get_border_style(),
                "top": b.get_top().get_border_style(), "bottom": b.get_bottom().get_border_style(),
                "colors": [color(b.get_left().get_color()), color(b.get_right().get_color()),
                    color(b.get_top().get_color()), color(b.get_bottom().get_color())]});
        }
        if let Some(n) = st.get_numbering_format() {
            o["nf"] = json!(n.get_format_code());
        }
        if let Some(c) = st.get_background_color() {
            o["bg"] = color(c);
        }
        cells.insert(c.get_coordinate().to_string(), o);
    }
    let comments: Vec<Value> = ws
        .get_comments()
        .iter()
        .map(|c| {
            let text = c.get_text().get_text().to_string();
            json!([c.get_coordinate().to_string(), text])
        })
        .collect();
    let mut validations = vec![];
    if let Some(dv) = ws.get_data_validations() {
        for d in dv.get_data_validation_list() {
            validations.push(json!({"at": d.get_sequence_of_references().get_sqref(),
                "type": format!("{:?}", d.get_type()), "op": format!("{:?}", d.get_operator()),
                "f1": d.get_formula1(), "f2": d.get_formula2()}));
        }
    }
    json!({"sheets": names, "cells": cells, "comments": comments, "validations": validations})
}

fn write_xlsx(p: &Path, v: &Value) -> Value {
    // {"sheets": {"name": {"A1": "text" | number, ...}}}
    let mut book = umya_spreadsheet::new_file_empty_worksheet();
    for (name, cells) in v["sheets"].as_object().unwrap() {
        let ws = book.new_sheet(name).unwrap();
        for (at, val) in cells.as_object().unwrap() {
            // a formula that the values in this range have to satisfy
            if let Some(range) = at.strip_prefix("rule ") {
                let mut d = umya_spreadsheet::DataValidation::default();
                d.set_type(umya_spreadsheet::DataValidationValues::Custom);
                d.set_formula1(val.as_str().unwrap());
                d.get_sequence_of_references_mut().set_sqref(range);
                let mut all = ws.get_data_validations().cloned().unwrap_or_default();
                all.add_data_validation_list(d);
                ws.set_data_validations(all);
                continue;
            }
            if let Some(n) = val.get("note") {
                let mut comment = umya_spreadsheet::Comment::default();
                comment.get_coordinate_mut().set_coordinate(at);
                comment.get_text_mut().set_text(n.as_str().unwrap());
                ws.add_comments(comment);
            }
            let c = ws.get_cell_mut(at.as_str());
            // {"v": the value, "bold": true, "note": "..."} or just the value
            let val = if val.is_object() {
                c.get_style_mut().get_font_mut().set_bold(val["bold"] == true);
                &val["v"]
            } else {
                val
            };
            match val {
                Value::Number(n) => {
                    c.set_value_number(n.as_f64().unwrap());
                }
                Value::String(t) if t.starts_with('=') => {
                    c.set_formula(&t[1..]);
                }
                Value::String(t) => {
                    c.set_value_string(t);
                }
                _ => (),
            }
        }
    }
    match umya_spreadsheet::writer::xlsx::write(&book, p) {
        Ok(()) => Value::Null,
        Err(e) => json!({"error": format!("{e:?}")}),
    }
}

fn list(dir: &Path) -> Value {
    let mut out = vec![];
    let mut names: Vec<PathBuf> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let (t, n) = mtime(&p);
        out.push(json!([
            p.file_name().unwrap().to_string_lossy(),
            fs::metadata(&p).map_or(0, |m| m.len()),
            t,
            n
        ]));
    }
    Value::Array(out)
}

/// Give everything that was written in real time the logical time `t`, in the order it was written
/// The contents of all the files (hashed), except for object code
fn files(dir: &Path, prefix: &str, out: &mut serde_json::Map<String, Value>) {
    use std::hash::{Hash, Hasher};
    for e in fs::read_dir(dir).into_iter().flatten() {
        let p = e.unwrap().path();
        let name = format!("{prefix}{}", p.file_name().unwrap().to_string_lossy());
        if p.is_dir() {
            out.insert(format!("{name}/"), json!("dir"));
            files(&p, &format!("{name}/"), out);
        } else if !name.ends_with(".csvpo") {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            fs::read(&p).unwrap().hash(&mut h);
            out.insert(name, json!(h.finish().to_string()));
        }
    }
}

fn stamp(dir: &Path, t: i64, ordered: bool) -> Value {
    let mut fresh: Vec<((i64, i64), PathBuf)> = fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .map(|p| (mtime(&p), p))
        .filter(|(m, _)| m.0 > REAL_TIME)
        .collect();
    fresh.sort();
    let mut names = vec![];
    for (i, (m, p)) in fresh.iter().enumerate() {
        // those which were written at the same time stay so
        let i = fresh[..i].iter().position(|(n, _)| n == m).unwrap_or(i) as i64;
        set_mtime(p, LOGICAL_BASE + t, if ordered { (i + 1) * 1000 } else { 0 });
        names.push(json!(p.file_name().unwrap().to_string_lossy()));
    }
    Value::Array(names)
}

fn run_cli(dir: &Path, v: &Value) -> Value {
    let exe = std::env::current_exe().unwrap().with_file_name("csvpp-cli");
    let mut cmd = process::Command::new(exe);
    cmd.current_dir(dir)
        .args(v["args"].as_array().unwrap().iter().map(|a| {
            // U+F8FF stands for a byte which is not UTF-8
            use std::os::unix::ffi::OsStringExt;
            let a = a.as_str().unwrap();
            let parts: Vec<&[u8]> = a.split('\u{f8ff}').map(str::as_bytes).collect();
            std::ffi::OsString::from_vec(parts.join(&0xff_u8))
        }))
        .env("NO_COLOR", "1")
        .env("HOME", dir)
        .env_remove("GOOGLE_APPLICATION_CREDENTIALS")
        .envs(
            v["env"]
                .as_object()
                .into_iter()
                .flatten()
                .map(|(k, x)| (k.clone(), x.as_str().unwrap().to_string())),
        )
        .stdin(process::Stdio::null())
        .stdout(process::Stdio::piped())
        .stderr(process::Stdio::piped());
    let mut child = cmd.spawn().unwrap();
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        b
    });
    let t2 = thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        b
    });
    let limit = Duration::from_millis(v["timeout_ms"].as_u64().unwrap_or(20_000));
    let start = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(st) => break Some(st),
            None if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => thread::sleep(Duration::from_millis(2)),
        }
    };
    use std::os::unix::process::ExitStatusExt;
    json!({
        "rc": status.and_then(|s| s.code()),
        "signal": status.and_then(|s| s.signal()),
        "timeout": status.is_none(),
        "stdout": String::from_utf8_lossy(&t1.join().unwrap()),
        "stderr": String::from_utf8_lossy(&t2.join().unwrap()),
    })
}

fn try_open_fifo(p: &Path) -> Option<fs::File> {
    fs::OpenOptions::new()
        .write(true)
        .custom_flags(libc::O_NONBLOCK)
        .open(p)
        .ok()
}

/// Compile while deciding in which order the contents of the modules arrive: every module in
/// `files` is a FIFO, its content is only delivered once it is its turn in `order`.
fn sched(dir: &Path, v: &Value) -> Value {
    let files = v["files"].as_object().unwrap();
    let mut waiting: Vec<String> = files.keys().cloned().collect();
    for name in &waiting {
        let c = std::ffi::CString::new(dir.join(name).to_str().unwrap()).unwrap();
        unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
    }
    let (tx, rx) = mpsc::channel();
    let (d, vv) = (dir.to_path_buf(), v.clone());
    thread::spawn(move || {
        let r = guarded(move || compile(&d, &vv));
        let _ = tx.send(r);
    });

    let mut priority: Vec<String> = v["order"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| o.as_str().unwrap().to_string())
        .collect();
    let mut open: Vec<(String, fs::File)> = vec![];
    let mut delivered: Vec<String> = vec![];
    let mut events = vec![];
    let settle = Duration::from_millis(v["settle_ms"].as_u64().unwrap_or(3));
    // a loader which doesn't read that many files at once shouldn't take forever to be checked
    static FALLBACKS: AtomicUsize = AtomicUsize::new(0);
    let mut patience = v["fallback_ms"].as_u64().unwrap_or(400);
    if FALLBACKS.load(Ordering::Relaxed) > 20 {
        patience = patience.min(15);
    }
    let fallback = Duration::from_millis(patience);
    let limit = Duration::from_secs(20);
    let start = Instant::now();
    let mut since = Instant::now();
    let mut reopened = vec![];
    let mut opened: Vec<String> = vec![];
    loop {
        if let Ok(mut r) = rx.try_recv() {
            r["events"] = json!(events);
            r["reopened"] = json!(reopened);
            r["undelivered"] = json!(waiting);
            return r;
        }
        if start.elapsed() > limit {
            return json!({"hang": true, "events": events, "reopened": reopened});
        }
        // which of them is being read now?
        let mut i = 0;
        while i < waiting.len() {
            if let Some(f) = try_open_fifo(&dir.join(&waiting[i])) {
                let name = waiting.remove(i);
                // whoever reads it once more gets another FIFO
                let fresh = dir.join(".fresh");
                let c = std::ffi::CString::new(fresh.to_str().unwrap()).unwrap();
                unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
                let _ = fs::rename(&fresh, dir.join(&name));
                events.push(json!(["open", name]));
                opened.push(name.clone());
                open.push((name, f));
                since = Instant::now();
            } else {
                i += 1;
            }
        }
        // a module which is being read again
        for name in &opened {
            if let Some(mut f) = try_open_fifo(&dir.join(name)) {
                reopened.push(name.clone());
                let _ = f.write_all(files[name].as_str().unwrap().as_bytes());
            }
        }
        // deliver the next one in the order we've been given, once everything had the time to be
        // opened.  if it's not being read for some time then deliver another one
        let wanted = v["expect"][delivered.len()].as_array().map(Vec::len);
        let ready = wanted.map_or(since.elapsed() >= settle, |n| {
            open.len() >= n || since.elapsed() >= fallback
        });
        if !open.is_empty() && ready {
            let mut pick = None;
            for (k, p) in priority.iter().enumerate() {
                if let Some(j) = open.iter().position(|(n, _)| n == p) {
                    pick = Some((k, j));
                    break;
                }
            }
            let first_is_open = pick.is_some_and(|(k, _)| k == 0);
            if since.elapsed() >= fallback {
                FALLBACKS.fetch_add(1, Ordering::Relaxed);
            }
            if first_is_open || since.elapsed() >= fallback {
                let j = match pick {
                    Some((k, j)) => {
                        priority.remove(k);
                        j
                    }
                    None => 0,
                };
                let (name, mut f) = open.remove(j);
                let content = files[&name].as_str().unwrap().as_bytes();
                events.push(json!(["deliver", name]));
                let _ = f.write_all(content);
                drop(f);
                delivered.push(name);
                since = Instant::now();
            }
        }
        thread::sleep(Duration::from_micros(200));
    }
}

fn corrupt(p: &Path, v: &Value) -> Value {
    let Ok(mut b) = fs::read(p) else {
        return Value::Null;
    };
    let (t, n) = mtime(p);
    match s(v, "how") {
        "truncate" => b.truncate(b.len() / 2),
        "empty" => b.clear(),
        "garbage" => {
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i * 37 + 11) as u8;
            }
        }
        "version" => {
            // a bincode string: 64 bits of length and then the compiler version
            let len = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let mut new = vec![];
            let ver = s(v, "version").as_bytes();
            new.extend((ver.len() as u64).to_le_bytes());
            new.extend(ver);
            new.extend(&b[8 + len..]);
            b = new;
        }
        _ => (),
    }
    fs::write(p, b).unwrap();
    set_mtime(p, t, n);
    Value::Null
}

fn csvp_parse(text: &str) -> Value {
    match csvp::parse(text, &csvp::Config::default()) {
        Ok(r) => json!({"ok": true, "records": r.iter().map(|rec| rec.iter().map(|f| {
            json!({"v": f.value, "x": f.address.column.x, "y": f.address.row.y,
                   "p": f.positions.iter().map(|p| json!([p.line_number, p.line_offset])).collect::<Vec<_>>()})
        }).collect::<Vec<_>>()).collect::<Vec<_>>()}),
        Err(e) => json!({"ok": false, "err": e.to_string()}),
    }
}

fn step(dir: &Path, v: &Value) -> Value {
    let p = dir.join(s(v, "path"));
    match s(v, "op") {
        "write" => {
            if let Some(parent) = p.parent() {
                let _ = fs::create_dir_all(parent);
            }
            fs::write(&p, s(v, "text")).unwrap();
            if let Some(t) = v["t"].as_i64() {
                set_mtime(&p, LOGICAL_BASE + t, 0);
            }
            Value::Null
        }
        "writehex" => {
            let h = s(v, "hex");
            let b: Vec<u8> = (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect();
            fs::write(&p, b).unwrap();
            Value::Null
        }
        "rm" => {
            let _ = fs::remove_file(&p);
            Value::Null
        }
        "rmdir" => {
            let _ = fs::remove_dir(&p);
            Value::Null
        }
        "rename" => {
            let _ = fs::rename(&p, dir.join(s(v, "to")));
            Value::Null
        }
        "mkdir" => {
            let _ = fs::create_dir_all(&p);
            Value::Null
        }
        "read" => fs::read(&p).map_or(Value::Null, |b| json!(String::from_utf8_lossy(&b))),
        "readhex" => fs::read(&p).map_or(Value::Null, |b| {
            json!(b.iter().map(|x| format!("{x:02x}")).collect::<String>())
        }),
        "hash" => fs::read(&p).map_or(Value::Null, |b| {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            b.hash(&mut h);
            json!(h.finish().to_string())
        }),
        "compile" => compile(dir, v),
        "sched" => sched(dir, v),
        "xlsx" => read_xlsx(&p, s(v, "sheet")),
        "mkxlsx" => write_xlsx(&p, v),
        "ls" => list(&p),
        "files" => {
            let mut o = serde_json::Map::new();
            files(&p, "", &mut o);
            Value::Object(o)
        }
        "stamp" => stamp(
            &p,
            v["t"].as_i64().unwrap(),
            v["ordered"].as_bool().unwrap_or(false),
        ),
        "touch" => {
            set_mtime(&p, LOGICAL_BASE + v["t"].as_i64().unwrap(), 0);
            Value::Null
        }
        "corrupt" => corrupt(&p, v),
        "cli" => run_cli(dir, v),
        "argv" => argv(v),
        "csvp" => csvp_parse(s(v, "text")),
        op => json!({ "bad_op": op }),
    }
}

fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            json!({ "panic": m })
        }
    }
}

fn main() {
    colored::control::set_override(false);
    log::set_max_level(log::LevelFilter::Off);
    if std::env::var("WORKER_PANICS").is_err() {
        panic::set_hook(Box::new(|_| ()));
    }
    let root = PathBuf::from(std::env::args().nth(1).expect("a scratch directory"))
        .join(format!("w{}", process::id()));
    fs::create_dir_all(&root).unwrap();

    let stdin = std::io::stdin();
    let mut n = 0;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).expect("a JSON case");
        let id = case["id"].clone();
        let dir = root.join(format!("c{n}"));
        n += 1;
        let only_csvp = case["steps"]
            .as_array()
            .unwrap()
            .iter()
            .all(|s| s["op"] == "csvp");
        if !only_csvp {
            fs::create_dir_all(&dir).unwrap();
        }
        let limit = Duration::from_millis(case["timeout_ms"].as_u64().unwrap_or(20_000));
        let (tx, rx) = mpsc::channel();
        let d = dir.clone();
        let run = move || {
            let mut obs = vec![];
            for st in case["steps"].as_array().unwrap() {
                let o = guarded(|| step(&d, st));
                obs.push(o);
            }
            Value::Array(obs)
        };
        let obs = if only_csvp {
            Some(run())
        } else {
            thread::Builder::new()
                .stack_size(8 * 1024 * 1024)
                .spawn(move || {
                    let _ = tx.send(run());
                })
                .unwrap();
            rx.recv_timeout(limit).ok()
        };
        let hang = obs.is_none();
        let out = match obs {
            Some(o) => json!({"id": id, "obs": o}),
            None => json!({"id": id, "hang": true}),
        };
        let mut so = std::io::stdout().lock();
        writeln!(so, "{out}").unwrap();
        so.flush().unwrap();
        drop(so);
        if !only_csvp {
            let _ = fs::remove_dir_all(&dir);
        }
        if hang {
            let _ = fs::remove_dir_all(&root);
            process::exit(3);
        }
    }
    let _ = fs::remove_dir_all(&root);
}
