// Shared by the demonstrations: run a JSON model with one solver and collect its long CSV output.

use pywr_core::models::Model;
use pywr_core::solvers::{HighsSolver, MicroLpSolver, SimdIpmF64Solver};
use pywr_schema::ModelSchema;
use std::collections::BTreeMap;
use std::path::Path;

pub type Out = BTreeMap<(String, String, usize), Vec<f64>>;

pub fn build_in(json: &str, data: Option<&Path>, out: &Path) -> Model {
    let schema: ModelSchema = serde_json::from_str(json).expect("schema");
    schema.create_model_builder(data, Some(out)).expect("build schema").build().expect("build model")
}

pub fn read_long(p: &Path) -> Out {
    let mut r: Out = BTreeMap::new();
    for l in std::fs::read_to_string(p).unwrap().lines().skip(1) {
        let c: Vec<&str> = l.split(',').collect();
        r.entry((c[5].into(), c[6].into(), c[2].parse().unwrap())).or_default().push(c[7].parse().unwrap());
    }
    r
}

/// solver: "highs" | "microlp" | "ipm"; the model must write a Long CSV output to out.csv
pub fn run(json: &str, solver: &str) -> Result<Out, String> {
    let dir = tempfile::tempdir().unwrap();
    let m = build_in(json, Some(dir.path()), dir.path());
    match solver {
        "highs" => m.run::<HighsSolver>(&Default::default()).map_err(|e| e.to_string())?,
        "microlp" => m.run::<MicroLpSolver>(&Default::default()).map_err(|e| e.to_string())?,
        _ => m.run_multi_scenario::<SimdIpmF64Solver>(&Default::default()).map_err(|e| e.to_string())?,
    };
    Ok(read_long(&dir.path().join("out.csv")))
}

pub fn get(o: &Out, name: &str, attr: &str) -> Vec<f64> {
    o.get(&(name.to_string(), attr.to_string(), 0)).cloned().unwrap_or_else(|| panic!("no output {name} {attr}: {:?}", o.keys()))
}

pub fn close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}

/// a model around the given nodes / edges / extra network members; metrics: [(node, attribute)]
pub fn model(nodes: &str, edges: &[(&str, &str)], extra: &str, metrics: &[(&str, &str)], end: &str) -> String {
    let e: Vec<String> = edges.iter().map(|(a, b)| format!(r#"{{"from_node":"{a}","to_node":"{b}"}}"#)).collect();
    let m: Vec<String> = metrics.iter().map(|(n, a)| format!(r#"{{"type":"Node","name":"{n}","attribute":"{a}"}}"#)).collect();
    format!(
        r#"{{"metadata":{{"title":"t","minimum_version":"0.1"}},"time":{{"start":"2015-01-01","end":"{end}","timestep":{{"type":"Days","days":1}}}},
"network":{{"nodes":[{nodes}],"edges":[{}]{extra},"metric_sets":[{{"name":"m","metrics":[{}]}}],
"outputs":[{{"name":"o","type":"CSV","format":"Long","filename":"out.csv","metric_set":["m"]}}]}}}}"#,
        e.join(","), m.join(",")
    )
}
