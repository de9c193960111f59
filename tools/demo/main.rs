// stdin: {"code","filename","options","type"}; stdout: instrumented code
use serde_json::{json, Value};
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::{sync::Lrc, FileName, Globals, SourceMap, GLOBALS};
use swc_core::ecma::ast::{BinExpr, EsVersion, Expr, ParenExpr, Program};
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter, Node};
use swc_core::ecma::parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax};
use swc_core::ecma::visit::{VisitMut, VisitMutWith};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

/// what swc's fixer does when it prints: operands which are sequences need parens
struct Parens;
impl VisitMut for Parens {
    fn visit_mut_bin_expr(&mut self, bin: &mut BinExpr) {
        bin.visit_mut_children_with(self);
        for operand in [&mut bin.left, &mut bin.right] {
            if let Expr::Seq(_) = **operand {
                let expr = operand.clone();
                **operand = Expr::Paren(ParenExpr { span: Default::default(), expr });
            }
        }
    }
}

fn one(req: &Value) -> Value {
    let code = req["code"].as_str().unwrap().to_string();
    let filename = req["filename"].as_str().unwrap_or("/t/file.js").to_string();
    let options: InstrumentOptions = match &req["options"] {
        Value::Null => InstrumentOptions::default(),
        v => serde_json::from_value(v.clone()).unwrap(),
    };
    GLOBALS.set(&Globals::new(), || {
        let cm: Lrc<SourceMap> = Default::default();
        let comments = SingleThreadedComments::default();
        let fm = cm.new_source_file(Lrc::new(FileName::Real(filename.clone().into())), code);
        let syntax = Syntax::Es(EsSyntax { jsx: req["jsx"].as_bool().unwrap_or(false), ..Default::default() });
        let mut p = Parser::new_from(Lexer::new(syntax, EsVersion::EsNext, StringInput::from(&*fm), Some(&comments)));
        let mut prog = if req["type"] == "module" {
            Program::Module(p.parse_module().unwrap())
        } else {
            Program::Script(p.parse_script().unwrap())
        };
        let mut v = create_coverage_instrumentation_visitor(cm.clone(), &comments, options, filename);
        prog.visit_mut_with(&mut v);
        drop(v);
        prog.visit_mut_with(&mut Parens);
        let notes: Vec<String> = {
            let (l, t) = comments.borrow_all();
            l.values().chain(t.values()).flatten().map(|c| c.text.to_string()).collect()
        };
        let mut buf = vec![];
        {
            let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
            let cfg = Config::default().with_target(EsVersion::EsNext);
            let mut e = Emitter { cfg, cm: cm.clone(), comments: Some(&comments), wr };
            prog.emit_with(&mut e).unwrap();
        }
        json!({ "code": String::from_utf8(buf).unwrap(), "comments": notes })
    })
}

fn main() {
    let req: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let reqs = req.as_array().unwrap();
    // DEMO_THREADS: that many at a time
    let threads: usize = std::env::var("DEMO_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let mut res: Vec<Value> = vec![];
    for chunk in reqs.chunks(threads) {
        if threads == 1 {
            res.extend(chunk.iter().map(one));
            continue;
        }
        res.extend(std::thread::scope(|s| {
            let running: Vec<_> = chunk.iter().map(|req| s.spawn(move || one(req))).collect();
            running.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>()
        }));
    }
    println!("{}", Value::Array(res));
}
