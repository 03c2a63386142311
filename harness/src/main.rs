//! Conformance harness: runs Cordy programs through the public API of cordy-sys and records
//! everything an observer can see (output, error text, exit kind, panics, hangs) as ND-JSON.
//! It never decides anything: verdicts are TLC's.
use std::cell::RefCell;
use std::io::{BufRead, Cursor, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use cordy_sys::compiler::{self, FunctionLibrary};
use cordy_sys::repl::{ReadResult, Repl, RunResult};
use cordy_sys::syntax::{self, Formatter};
use cordy_sys::vm::{ExitType, FunctionInterface, IntoValue, RuntimeError, Type, ValuePtr, ValueResult, VirtualMachine};
use cordy_sys::{ScanTokenType, SourceView};
use serde_json::{json, Value};

const OUT_LIMIT: usize = 1 << 20;

/// A bounded, shared output buffer (so output survives a panic in the code under test).
#[derive(Clone)]
struct Out(Arc<Mutex<Vec<u8>>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut g = self.0.lock().unwrap();
        if g.len() < OUT_LIMIT { g.extend_from_slice(b); }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Out {
    fn new() -> Out { Out(Arc::new(Mutex::new(Vec::new()))) }
    fn text(&self) -> String { String::from_utf8_lossy(&self.0.lock().unwrap_or_else(|e| e.into_inner())).into_owned() }
    fn take(&self) -> String { let t = self.text(); self.0.lock().unwrap_or_else(|e| e.into_inner()).clear(); t }
}

/// A native interface that records each foreign call, and answers with a fixed, documented function of its arguments.
struct Ffi(Rc<RefCell<Vec<Value>>>);
impl FunctionInterface for Ffi {
    fn handle(&mut self, functions: &FunctionLibrary, id: u32, args: Vec<ValuePtr>) -> ValueResult {
        let e = functions.lookup(id);
        let shown: Vec<Value> = args.iter().map(|a| json!(a.to_repr_str().to_string())).collect();
        self.0.borrow_mut().push(json!([e.module_name, e.method_name, e.nargs, shown]));
        match e.method_name.as_str() {
            "fail" => RuntimeError::OSError(String::from("fail")).err(),
            "count" => ValueResult::ok((args.len() as i64).to_value()),
            "sum" => ValueResult::ok(args.iter().filter(|a| a.ty() == Type::Int || a.ty() == Type::Bool).map(|a| a.as_int()).sum::<i64>().to_value()),
            "last" => match args.into_iter().last() { Some(v) => ValueResult::ok(v), None => ValueResult::ok(ValuePtr::nil()) },
            _ => ValueResult::ok(ValuePtr::nil()),
        }
    }
}

fn run_one(case: &Value, out: Out) -> Value {
    let src = case["src"].as_str().unwrap_or("").to_string();
    let opt = case["opt"].as_bool().unwrap_or(false);
    let stdin = case["stdin"].as_str().unwrap_or("").to_string();
    match case["kind"].as_str().unwrap_or("run") {
        "compile" => {
            let view = SourceView::new(String::from("<test>"), src);
            match compiler::compile(opt, &view) {
                Ok(_) => json!({"st": "ok"}),
                Err(e) => json!({"st": "compile", "errors": e}),
            }
        }
        "run" => {
            let view = SourceView::new(String::from("<test>"), src);
            match compiler::compile(opt, &view) {
                Ok(c) => {
                    let log = Rc::new(RefCell::new(Vec::new()));
                    let mut vm = VirtualMachine::new(c, view, Cursor::new(stdin.into_bytes()), out, Ffi(log.clone()));
                    if let Some(a) = case["args"].as_array() {
                        vm.with_args(a.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect());
                    }
                    let st = match vm.run_until_completion() {
                        ExitType::Exit => json!({"st": "exit"}),
                        ExitType::Return => json!({"st": "return"}),
                        ExitType::Yield => json!({"st": "yield"}),
                        ExitType::Error(e) => json!({"st": "error", "error": vm.view().format(&e)}),
                    };
                    let mut st = st;
                    st["ffi"] = Value::Array(log.borrow().clone());
                    st
                }
                Err(e) => json!({"st": "compile", "errors": e}),
            }
        }
        "repl" => {
            let log = Rc::new(RefCell::new(Vec::new()));
            let mut repl = Repl::new(out.clone(), Ffi(log.clone()));
            let mut steps: Vec<Value> = Vec::new();
            let mut st = "open";
            for line in case["lines"].as_array().cloned().unwrap_or_default() {
                let prompt = repl.prompt().to_string();
                let r = repl.run(ReadResult::Ok(line.as_str().unwrap_or("").to_string()));
                let kind = match r { RunResult::Exit => "exit", RunResult::Error(_) => "error", RunResult::Ok => "ok" };
                steps.push(json!({"prompt": prompt, "out": out.take(), "res": kind}));
                if kind != "ok" { st = kind; break }
            }
            json!({"st": st, "steps": steps, "prompt": repl.prompt()})
        }
        "format" => {
            struct Rec(Vec<String>);
            impl Formatter for Rec {
                fn begin(&mut self, t: ScanTokenType) { self.0.push(format!("<{:?}", t)) }
                fn end(&mut self, t: ScanTokenType) { self.0.push(format!(">{:?}", t)) }
                fn push(&mut self, c: char) { self.0.push(c.to_string()) }
            }
            let prefix = case["prefix"].as_str().unwrap_or("").to_string();
            let mut r = Rec(Vec::new());
            syntax::scan(src.clone(), &prefix, &mut r);
            let mut b = syntax::BlockingFormatter::new(Rec(Vec::new()));
            syntax::scan(src.clone(), &prefix, &mut b);
            let errors = match compiler::compile(false, &SourceView::new("<test>".to_string(), prefix + &src)) { Ok(_) => Vec::new(), Err(e) => e };
            json!({"st": "ok", "events": r.0, "blocked": b.fmt.0, "errors": errors})
        }
        k => json!({"st": "bad-kind", "kind": k}),
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("usage: harness CASES.ndjson START");
    let start: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    let limit_ms: u64 = std::env::var("CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
    let file = std::io::BufReader::new(std::fs::File::open(path).expect("cases"));
    let stdout = std::io::stdout();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.lock().unwrap().replace((loc, info.to_string()));
    }));
    for (i, line) in file.lines().enumerate() {
        let line = line.expect("line");
        if i < start || line.trim().is_empty() { continue }
        let case: Value = serde_json::from_str(&line).expect("json");
        let out = Out::new();
        let out2 = out.clone();
        let (tx, rx) = mpsc::channel();
        PANIC.lock().unwrap().take();
        {
            let mut o = stdout.lock();
            writeln!(o, "#{}", i).unwrap();
            o.flush().unwrap();
        }
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(|| run_one(&case, out2)));
            let v = match r {
                Ok(v) => v,
                Err(_) => {
                    let p = PANIC.lock().unwrap().take().unwrap_or_default();
                    json!({"st": "panic", "at": p.0, "msg": p.1})
                }
            };
            let _ = tx.send(v.to_string());
        }).expect("thread");
        let mut v: Value = match rx.recv_timeout(Duration::from_millis(limit_ms)) {
            Ok(s) => { let _ = h.join(); serde_json::from_str(&s).unwrap() }
            Err(mpsc::RecvTimeoutError::Timeout) => json!({"st": "hang"}),
            Err(_) => json!({"st": "panic", "at": "", "msg": "thread died"}),
        };
        v["out"] = json!(out.text());
        v["i"] = json!(i);
        let hang = v["st"] == "hang";
        let mut o = stdout.lock();
        writeln!(o, "{}", v).unwrap();
        o.flush().unwrap();
        drop(o);
        if hang { std::process::exit(3) }
    }
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);
