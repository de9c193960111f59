//! A sequence of istanbul-oxide operations on coverage given as JSON. Every step answers with what can be
//! observed; coverage is shown by the crate's own serialisation, as a string (key order counts).
use istanbul_oxide::vp_hooks::{CoveragePercentage, CoverageSummary, Totals};
use istanbul_oxide::{CoverageMap, FileCoverage};
use serde_json::{json, Value};
use std::collections::HashMap;

macro_rules! summary_json {
    ($s:expr) => {{
        let s = $s;
        json!({"totals": s.vp_totals(), "empty": s.is_empty()})
    }};
}

#[derive(Default)]
struct State {
    files: HashMap<String, FileCoverage>,
    maps: HashMap<String, CoverageMap>,
}

fn name(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}
fn names(v: &Value, k: &str) -> Vec<String> {
    v[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}
fn show(c: &FileCoverage) -> Value {
    json!(serde_json::to_string(c).unwrap())
}

pub fn run(req: &Value) -> Value {
    let mut st = State::default();
    let empty = vec![];
    let steps = req["steps"].as_array().unwrap_or(&empty);
    let mut res = vec![];
    for s in steps {
        // a panic ends the sequence, but the steps before are still reported
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut st, s))) {
            Ok(v) => res.push(v),
            Err(_) => {
                return json!({"ok": false, "panic": crate::take_panic(), "at": res.len(), "results": res})
            }
        }
    }
    json!({"ok": true, "results": res})
}

fn step(st: &mut State, s: &Value) -> Value {
    let id = name(s, "id");
    match s["do"].as_str().unwrap_or("") {
        "read" => match serde_json::from_str::<FileCoverage>(s["json"].as_str().unwrap_or("")) {
            Ok(c) => {
                let v = show(&c);
                st.files.insert(id, c);
                v
            }
            Err(e) => json!({"error": e.to_string()}),
        },
        // the way of a value of another deserialiser: an object already in memory
        "read_value" => match serde_json::from_value::<FileCoverage>(s["value"].clone()) {
            Ok(c) => {
                let v = show(&c);
                st.files.insert(id, c);
                v
            }
            Err(e) => json!({"error": e.to_string()}),
        },
        "new" => {
            let c = FileCoverage::from_file_path(name(s, "path"), s["report_logic"].as_bool().unwrap_or(false));
            let v = show(&c);
            st.files.insert(id, c);
            v
        }
        "copy" => {
            let c = FileCoverage::from_file_coverage(&st.files[&name(s, "from")]);
            let v = show(&c);
            st.files.insert(id, c);
            v
        }
        "merge" => {
            let from = name(s, "from");
            if from == id {
                let other = st.files[&from].clone();
                st.files.get_mut(&id).unwrap().merge(&other);
                return show(&st.files[&id]);
            }
            let other = st.files.remove(&from).unwrap();
            st.files.get_mut(&id).unwrap().merge(&other);
            st.files.insert(from, other);
            show(&st.files[&id])
        }
        "reset" => {
            st.files.get_mut(&id).unwrap().reset_hits();
            show(&st.files[&id])
        }
        "show" => show(&st.files[&id]),
        "equal" => json!(st.files[&id] == st.files[&name(s, "to")]),
        "lines" => {
            let c = &st.files[&id];
            let by_line: Vec<Value> = c
                .get_branch_coverage_by_line()
                .iter()
                .map(|(k, v)| json!([k, format!("{:?}", v)]))
                .collect();
            let lines: Vec<(u32, u32)> = c.get_line_coverage().into_iter().collect();
            json!({"lines": lines, "uncovered": c.get_uncovered_lines(), "branches": by_line})
        }
        // summaries, merged one after the other
        "summary" => {
            let ids = names(s, "ids");
            let mut acc = st.files[&ids[0]].to_summary();
            let mut all = vec![summary_json!(acc)];
            for i in &ids[1..] {
                let other = st.files[i].to_summary();
                acc.merge(&other);
                all.push(summary_json!(acc));
            }
            json!(all)
        }
        // ... and starting at the empty summary
        "summary_from_empty" => {
            let mut acc = CoverageMap::new().get_coverage_summary();
            let mut all = vec![summary_json!(acc)];
            for i in &names(s, "ids") {
                acc.merge(&st.files[i].to_summary());
                all.push(summary_json!(acc));
            }
            json!(all)
        }
        // summaries made of numbers (as of another tool), each merged into the first
        "summary_values" => {
            let make = |v: &Value| {
                let t = |i: usize| {
                    v[i].as_array().map(|a| {
                        let n = |j: usize| a[j].as_u64().unwrap() as u32;
                        Totals::new(n(0), n(1), n(2), match a[3].as_f64() {
                            Some(p) => CoveragePercentage::Value(p as f32),
                            None => CoveragePercentage::Unknown,
                        })
                    })
                };
                match v.as_array() {
                    None => CoverageSummary::default(),
                    Some(_) => CoverageSummary::new(t(0).unwrap(), t(1).unwrap(), t(2).unwrap(), t(3).unwrap(), t(4)),
                }
            };
            let values: Vec<CoverageSummary> = s["values"].as_array().unwrap().iter().map(make).collect();
            let mut acc = CoverageSummary::from(&values[0]);
            let mut all = vec![summary_json!(acc)];
            for other in &values[1..] {
                acc.merge(other);
                all.push(summary_json!(acc));
            }
            json!({"merged": all, "after": values.iter().map(|v| summary_json!(v)).collect::<Vec<_>>()})
        }
        "simple_totals" => {
            let m: istanbul_oxide::LineHitMap = s["hits"]
                .as_array()
                .unwrap()
                .iter()
                .enumerate()
                .map(|(i, v)| (i as u32, v.as_u64().unwrap() as u32))
                .collect();
            json!(format!("{:?}", FileCoverage::compute_simple_totals(&m)))
        }
        // total statements of which the first `covered` are hit, without sending them all over the pipe
        "percent" => {
            let (covered, total) = (s["covered"].as_u64().unwrap() as u32, s["total"].as_u64().unwrap() as u32);
            let m: istanbul_oxide::LineHitMap = (0..total).map(|i| (i, (i < covered) as u32)).collect();
            json!(format!("{:?}", FileCoverage::compute_simple_totals(&m)))
        }
        "map" => {
            let m = match s["from"].as_array() {
                None if s["default"].as_bool().unwrap_or(false) => CoverageMap::default(),
                None => CoverageMap::new(),
                Some(_) => CoverageMap::from_iter(names(s, "from").iter().map(|i| &st.files[i]).collect::<Vec<_>>()),
            };
            st.maps.insert(id.clone(), m);
            map_json(&st.maps[&id], &names(s, "probe"))
        }
        "map_add" => {
            let f = st.files[&name(s, "file")].clone();
            st.maps.get_mut(&id).unwrap().add_coverage_for_file(&f);
            json!({"map": map_json(&st.maps[&id], &names(s, "probe")), "same": f == st.files[&name(s, "file")]})
        }
        "map_merge" => {
            let from = name(s, "from");
            let other = if from == id { st.maps[&id].clone() } else { st.maps.remove(&from).unwrap() };
            let before = map_json(&other, &[]);
            st.maps.get_mut(&id).unwrap().merge(&other);
            let same = map_json(&other, &[]) == before;
            if from != id {
                st.maps.insert(from, other);
            }
            json!({"map": map_json(&st.maps[&id], &names(s, "probe")), "same": same})
        }
        "map_filter" => {
            let keep = names(s, "keep");
            st.maps.get_mut(&id).unwrap().filter(|c| keep.contains(&c.path));
            map_json(&st.maps[&id], &names(s, "probe"))
        }
        "map_show" => map_json(&st.maps[&id], &names(s, "probe")),
        o => json!({"error": format!("unknown step {o}")}),
    }
}

fn map_json(m: &CoverageMap, probe: &[String]) -> Value {
    let files: Vec<String> = m.get_files().into_iter().cloned().collect();
    let entries: Vec<Value> = files.iter().map(|f| json!(m.get_coverage_for_file(f).map(show))).collect();
    let probes: Vec<Value> = probe.iter().map(|f| json!([f, m.get_coverage_for_file(f).map(show)])).collect();
    json!({"files": files, "entries": entries, "probes": probes, "summary": summary_json!(m.get_coverage_summary())})
}
