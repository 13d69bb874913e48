//! Seed corpus: (name, input, expected events) from the YAML test suite as carried by the repository.
use std::sync::OnceLock;

pub struct Case {
    pub name: String,
    pub input: String,
    pub events: String,
}
impl Case {
    pub fn is_err(&self) -> bool {
        self.events.ends_with("ERR")
    }
}

static RAW: &str = include_str!("../corpus/saph_cases.jsonl");

pub fn corpus() -> &'static [Case] {
    static C: OnceLock<Vec<Case>> = OnceLock::new();
    C.get_or_init(|| {
        RAW.lines()
            .map(|l| {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                let g = |k: &str| v[k].as_str().unwrap().to_string();
                Case { name: g("name"), input: g("in"), events: g("events") }
            })
            .collect()
    })
}
