//! parse -> resolver -> [ts strip] -> instrument -> [ts strip] -> [react] -> hygiene -> fixer -> codegen:
//! the order swc itself uses around a plugin / custom_before_pass.
use serde_json::{json, Value};
use std::sync::Arc;
use swc_core::common::comments::{Comment, Comments, NoopComments, SingleThreadedComments};
use swc_core::common::{sync::Lrc, FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::{EsVersion, Pass, Program};
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter, Node};
use swc_core::ecma::parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax, TsSyntax};
use swc_core::ecma::transforms::base::{fixer::fixer, hygiene::hygiene, resolver};
use swc_core::ecma::transforms::react::{jsx, Options as JsxOptions, Runtime};
use swc_core::ecma::transforms::typescript::strip;
use swc_core::ecma::visit::VisitMutWith;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

fn parse(
    cm: &Lrc<SourceMap>,
    fm_name: &str,
    code: &str,
    syntax: &str,
    source_type: &str,
    comments: &SingleThreadedComments,
) -> Result<Program, String> {
    let fm = cm.new_source_file(
        Lrc::new(FileName::Real(fm_name.into())),
        code.to_string(),
    );
    let syn = match syntax {
        "ts" => Syntax::Typescript(TsSyntax { tsx: false, decorators: true, ..Default::default() }),
        "tsx" => Syntax::Typescript(TsSyntax { tsx: true, decorators: true, ..Default::default() }),
        "jsx" => Syntax::Es(EsSyntax { jsx: true, ..Default::default() }),
        _ => Syntax::Es(EsSyntax { decorators: true, ..Default::default() }),
    };
    let lexer = Lexer::new(syn, EsVersion::EsNext, StringInput::from(&*fm), Some(comments));
    let mut p = Parser::new_from(lexer);
    let prog = match source_type {
        "script" => p.parse_script().map(Program::Script),
        "commonjs" => p.parse_commonjs().map(Program::Script),
        _ => p.parse_module().map(Program::Module),
    }
    .map_err(|e| format!("{:?}", e.kind().msg()))?;
    let errs = p.take_errors();
    if let Some(e) = errs.first() {
        return Err(format!("{:?}", e.kind().msg()));
    }
    Ok(prog)
}

fn print(cm: &Lrc<SourceMap>, prog: &Program, comments: &dyn Comments, minify: bool) -> String {
    let mut buf = vec![];
    {
        let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
        let mut e = Emitter {
            cfg: Config::default().with_minify(minify).with_target(EsVersion::EsNext),
            cm: cm.clone(),
            comments: Some(comments),
            wr,
        };
        prog.emit_with(&mut e).unwrap();
    }
    String::from_utf8(buf).unwrap()
}

fn all_comments(c: &SingleThreadedComments) -> Vec<Comment> {
    let (l, t) = c.borrow_all();
    let mut v = vec![];
    for m in [&*l, &*t] {
        for cs in m.values() {
            v.extend(cs.iter().cloned());
        }
    }
    v
}

/// One file on its way through the compiler: what is before the plugin, and what comes after it.
pub struct Job {
    pub cm: Lrc<SourceMap>,
    pub comments: SingleThreadedComments,
    before: Vec<String>,
    un: Mark,
    tl: Mark,
}

pub fn front(req: &Value) -> Result<(Job, Program), Value> {
    let code = req["code"].as_str().unwrap_or("");
    let filename = req["filename"].as_str().unwrap_or("/t/file.js");
    let syntax = req["syntax"].as_str().unwrap_or("es");
    let st = req["source_type"].as_str().unwrap_or("script");
    let cm: Lrc<SourceMap> = Default::default();
    // an earlier file in the same source map, as in a long-lived compiler
    let pad = req["pad"].as_u64().unwrap_or(0) as usize;
    if pad > 0 {
        cm.new_source_file(Lrc::new(FileName::Custom("pad".into())), "x".repeat(pad));
    }
    let comments = SingleThreadedComments::default();
    let mut prog = match parse(&cm, filename, code, syntax, st, &comments) {
        Ok(p) => p,
        Err(e) => return Err(json!({"ok": false, "parse_error": e})),
    };
    let before: Vec<String> = all_comments(&comments).iter().map(|c| c.text.to_string()).collect();
    let un = Mark::new();
    let tl = Mark::new();
    if req["passes"].as_bool().unwrap_or(true) {
        resolver(un, tl, syntax.starts_with("ts")).process(&mut prog);
    }
    if req["strip"].as_str() == Some("before") {
        strip(un, tl).process(&mut prog);
    }
    Ok((Job { cm, comments, before, un, tl }, prog))
}

pub fn back(req: &Value, job: &Job, mut prog: Program) -> Value {
    let Job { cm, comments, before, un, tl } = job;
    let (un, tl) = (*un, *tl);
    if req["strip"].as_str() == Some("after") {
        strip(un, tl).process(&mut prog);
    }
    if req["react"].as_bool().unwrap_or(false) {
        let o = JsxOptions { runtime: Some(Runtime::Classic), ..Default::default() };
        jsx::<&SingleThreadedComments>(cm.clone(), Some(comments), o, tl, un).process(&mut prog);
    }
    if req["passes"].as_bool().unwrap_or(true) {
        hygiene().process(&mut prog);
        fixer(Some(comments)).process(&mut prog);
    }
    let cov: Vec<Value> = all_comments(comments)
        .iter()
        .filter(|c| !before.contains(&c.text.to_string()))
        .filter_map(|c| c.text.strip_prefix("__coverage_data_json_comment__::").map(|s| json!(s)))
        .collect();
    let out = print(cm, &prog, comments, req["minify"].as_bool().unwrap_or(false));
    json!({"ok": true, "code": out, "cov_comments": cov})
}

fn pipeline(req: &Value, instrument: bool) -> Value {
    let filename = req["filename"].as_str().unwrap_or("/t/file.js").to_string();
    let opts: InstrumentOptions = match &req["options"] {
        Value::Null => InstrumentOptions::default(),
        v => match serde_json::from_value(v.clone()) {
            Ok(o) => o,
            Err(e) => return json!({"ok": false, "options_error": e.to_string()}),
        },
    };
    let globals = Globals::new();
    GLOBALS.set(&globals, || {
        let (job, mut prog) = match front(req) {
            Ok(x) => x,
            Err(e) => return e,
        };
        if instrument && req["no_comments"].as_bool().unwrap_or(false) {
            let mut v = create_coverage_instrumentation_visitor(job.cm.clone(), NoopComments, opts, filename);
            prog.visit_mut_with(&mut v);
        } else if instrument {
            let mut v = create_coverage_instrumentation_visitor(job.cm.clone(), &job.comments, opts, filename);
            prog.visit_mut_with(&mut v);
        }
        back(req, &job, prog)
    })
}

pub fn instrument(req: &Value) -> Value {
    pipeline(req, true)
}
pub fn plain(req: &Value) -> Value {
    pipeline(req, false)
}

/// Runs every item on its own thread at once, `rounds` times; answers in item order.
pub fn parallel(req: &Value) -> Value {
    let items = req["items"].as_array().cloned().unwrap_or_default();
    let n = items.len();
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let order = Arc::new(std::sync::Mutex::new(Vec::<usize>::new()));
    let hs: Vec<_> = items
        .into_iter()
        .enumerate()
        .map(|(i, it)| {
            let barrier = barrier.clone();
            let order = order.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    barrier.wait();
                    let spin = it["spin_us"].as_u64().unwrap_or(0);
                    if spin > 0 {
                        std::thread::sleep(std::time::Duration::from_micros(spin));
                    }
                    order.lock().unwrap().push(i);
                    let r = crate::guarded(&it);
                    order.lock().unwrap().push(i + 1000);
                    r
                })
                .unwrap()
        })
        .collect();
    let res: Vec<Value> = hs
        .into_iter()
        .map(|h| h.join().unwrap_or_else(|_| json!({"ok": false, "panic": "thread"})))
        .collect();
    let order = order.lock().unwrap().clone();
    json!({"ok": true, "results": res, "order": order})
}
