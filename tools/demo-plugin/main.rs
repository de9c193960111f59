// stdin: [{"code","filename","config"}]; last line of stdout: what the plugin's entry point made of them
use serde_json::{json, Value};
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::{sync::Lrc, FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::{EsVersion, Program};
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter, Node};
use swc_core::ecma::parser::{lexer::Lexer, Parser, StringInput, Syntax};
use swc_core::plugin::proxies::TransformPluginProgramMetadata;
#[allow(dead_code)]
#[path = "@REPO@/packages/swc-plugin-coverage/src/lib.rs"]
mod entry;

fn one(req: &Value) -> Value {
    let text = |k: &str| req[k].as_str().map(|s| s.to_string());
    GLOBALS.set(&Globals::new(), || {
        let cm: Lrc<SourceMap> = Default::default();
        let comments = SingleThreadedComments::default();
        // the compiler's own map is not handed out: the plugin gets one which gives the same answers
        let theirs = SourceMap::default();
        theirs.new_source_file(Lrc::new(FileName::Anon), text("code").unwrap());
        let fm = cm.new_source_file(Lrc::new(FileName::Anon), text("code").unwrap());
        let mut p = Parser::new_from(Lexer::new(Syntax::Es(Default::default()), EsVersion::EsNext, StringInput::from(&*fm), Some(&comments)));
        let prog = Program::Script(p.parse_script().unwrap());
        let prog = entry::process(
            prog,
            TransformPluginProgramMetadata { comments: Some(comments.clone()), source_map: theirs, unresolved_mark: Mark::new(), filename: text("filename"), config: text("config") },
        );
        let mut buf = vec![];
        {
            let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
            let cfg = Config::default().with_target(EsVersion::EsNext);
            Emitter { cfg, cm: cm.clone(), comments: Some(&comments), wr }.emit_program(&prog).unwrap();
        }
        json!({ "code": String::from_utf8(buf).unwrap() })
    })
}

fn main() {
    let req: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let res: Vec<Value> = req.as_array().unwrap().iter().map(one).collect();
    println!("{}", Value::Array(res));
}
