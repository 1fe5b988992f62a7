//! A scenario: everything one simulated run consists of, as plain data. Executing it is a pure function.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub tag: String,
    pub a: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scen {
    pub prop: String,
    pub cfg: BTreeMap<String, u64>,
    pub steps: Vec<Step>,
}

impl Scen {
    pub fn new(prop: &str) -> Scen {
        Scen { prop: prop.into(), ..Default::default() }
    }
    pub fn cfg(&self, k: &str, default: u64) -> u64 {
        self.cfg.get(k).copied().unwrap_or(default)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.cfg.insert(k.into(), v);
    }
    pub fn s(&mut self, tag: &str, a: &[u64]) {
        self.steps.push(Step { tag: tag.into(), a: a.to_vec() });
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = write!(o, "scenario {}", self.prop);
        for (k, v) in &self.cfg {
            let _ = write!(o, " {k}={v}");
        }
        o.push('\n');
        for s in &self.steps {
            o.push_str(&s.tag);
            for a in &s.a {
                let _ = write!(o, " {a}");
            }
            o.push('\n');
        }
        o.push_str("end\n");
        o
    }
}

/// Parses a file of scenarios. Lines starting with '#' are comments.
pub fn parse(t: &str) -> Result<Vec<Scen>, String> {
    let mut out = Vec::new();
    let mut cur: Option<Scen> = None;
    for (n, l) in t.lines().enumerate() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let mut w = l.split_whitespace();
        let tag = w.next().unwrap();
        match tag {
            "scenario" => {
                let mut s = Scen::new(w.next().ok_or("scenario without property")?);
                for kv in w {
                    let (k, v) = kv.split_once('=').ok_or(format!("line {}: {kv}", n + 1))?;
                    s.set(k, v.parse().map_err(|_| format!("line {}: {kv}", n + 1))?);
                }
                cur = Some(s);
            }
            "end" => out.push(cur.take().ok_or("end without scenario")?),
            _ => {
                let mut a = Vec::new();
                for x in w {
                    a.push(x.parse().map_err(|_| format!("line {}: {x}", n + 1))?);
                }
                cur.as_mut().ok_or("step outside scenario")?.steps.push(Step { tag: tag.into(), a });
            }
        }
    }
    Ok(out)
}
