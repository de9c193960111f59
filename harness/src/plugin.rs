//! The compiler's side of a plugin call: everything the wasm plugin may ask its host for is answered
//! from the state of one file, in the wire format of swc's plugin runner.
use crate::instr::{back, front, Job};
use base64::{engine::general_purpose::STANDARD as B64, Engine};
use serde_json::{json, Value};
use std::cell::RefCell;
use swc_core::common::comments::{Comment, Comments};
use swc_core::common::plugin::serialized::{PluginSerializedBytes, VersionedSerializable};
use swc_core::common::source_map::PartialLoc;
use swc_core::common::{BytePos, Globals, Mark, SourceMapper, Span, GLOBALS};
use swc_core::ecma::ast::Program;

struct Session {
    globals: Globals,
    job: Job,
    buffer: Vec<u8>,
}
thread_local! {
    static S: RefCell<Option<Session>> = const { RefCell::new(None) };
}
macro_rules! ser {
    ($v:expr) => {
        B64.encode(PluginSerializedBytes::try_serialize(&VersionedSerializable::new($v)).expect("serialize").as_slice())
    };
}
fn bytes(v: &Value) -> Vec<u8> {
    B64.decode(v.as_str().unwrap_or("")).expect("base64")
}

pub fn begin(req: &Value) -> Value {
    let globals = Globals::new();
    let r = GLOBALS.set(&globals, || {
        front(req).map(|(job, prog)| {
            let ast = ser!(prog);
            (job, ast)
        })
    });
    match r {
        Err(e) => e,
        Ok((job, ast)) => {
            let config = req["config"].as_str().map(|s| ser!(s.to_string()));
            let ctx = |k: &str| req[k].as_str().map(|s| ser!(s.to_string()));
            let out = json!({"ok": true, "ast": ast, "config": config, "context": {"1": ctx("context_filename"), "2": ser!("development".to_string()), "3": ctx("cwd")}});
            S.with(|s| *s.borrow_mut() = Some(Session { globals, job, buffer: vec![] }));
            out
        }
    }
}

pub fn call(req: &Value) -> Value {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().expect("no session");
        let a = |i: usize| req["args"][i].as_u64().unwrap_or(0) as u32;
        let p = |i: usize| BytePos(a(i));
        let Session { globals, job, buffer } = s;
        let c = &job.comments;
        GLOBALS.set(globals, || {
            let one = |b: &[u8]| -> Comment { PluginSerializedBytes::from_slice(b).deserialize().expect("comment").into_inner() };
            let many = |b: &[u8]| -> Vec<Comment> { PluginSerializedBytes::from_slice(b).deserialize().expect("comments").into_inner() };
            let list = |v: Option<Vec<Comment>>| match v {
                Some(v) => json!({"ok": true, "bytes": ser!(v)}),
                None => json!({"ok": true}),
            };
            let ret = |n: u32| json!({"ok": true, "ret": n});
            let sp = |i: usize| Span { lo: p(i), hi: p(i + 1) };
            match req["fn"].as_str().unwrap_or("") {
                "__lookup_char_pos_source_map_proxy" => {
                    let l = job.cm.lookup_char_pos(p(0));
                    let with = req["args"][1].as_i64() == Some(1);
                    let r = PartialLoc { source_file: with.then(|| l.file.clone()), line: l.line, col: l.col.0, col_display: l.col_display };
                    json!({"ok": true, "bytes": ser!(r)})
                }
                "__span_to_string_proxy" => json!({"ok": true, "bytes": ser!(SourceMapper::span_to_string(&*job.cm, sp(0)))}),
                "__copy_comment_to_host_env" => {
                    *buffer = bytes(&req["data"]);
                    json!({"ok": true})
                }
                "__add_leading_comment_proxy" => { c.add_leading(p(0), one(buffer)); ret(0) }
                "__add_leading_comments_proxy" => { c.add_leading_comments(p(0), many(buffer)); ret(0) }
                "__has_leading_comments_proxy" => ret(c.has_leading(p(0)) as u32),
                "__move_leading_comments_proxy" => { c.move_leading(p(0), p(1)); ret(0) }
                "__take_leading_comments_proxy" => list(c.take_leading(p(0))),
                "__get_leading_comments_proxy" => list(c.get_leading(p(0))),
                "__add_trailing_comment_proxy" => { c.add_trailing(p(0), one(buffer)); ret(0) }
                "__add_trailing_comments_proxy" => { c.add_trailing_comments(p(0), many(buffer)); ret(0) }
                "__has_trailing_comments_proxy" => ret(c.has_trailing(p(0)) as u32),
                "__move_trailing_comments_proxy" => { c.move_trailing(p(0), p(1)); ret(0) }
                "__take_trailing_comments_proxy" => list(c.take_trailing(p(0))),
                "__get_trailing_comments_proxy" => list(c.get_trailing(p(0))),
                "__add_pure_comment_proxy" => { c.add_pure_comment(p(0)); ret(0) }
                "__span_dummy_with_cmt_proxy" => ret(Span::dummy_with_cmt().lo.0),
                "__mark_fresh_proxy" => ret(Mark::fresh(Mark::from_u32(a(0))).as_u32()),
                "__mark_parent_proxy" => ret(Mark::from_u32(a(0)).parent().as_u32()),
                o => json!({"ok": false, "unsupported": o}),
            }
        })
    })
}

/// The program the plugin returned, through the rest of the compiler.
pub fn end(req: &Value) -> Value {
    let s = S.with(|s| s.borrow_mut().take()).expect("no session");
    let Session { globals, job, .. } = s;
    let b = bytes(&req["program"]);
    GLOBALS.set(&globals, || match PluginSerializedBytes::from_slice(&b).deserialize::<Program>() {
        Err(e) => json!({"ok": false, "not_a_program": e.to_string()}),
        Ok(p) => back(req, &job, p.into_inner()),
    })
}
