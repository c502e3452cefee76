//! The specification files: contracts keyed by item, kept apart from the code they are about.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct Section {
    pub kind: String,
    pub key: String,
    /// subsection name -> text. A subsection may be repeated with an argument ("loop 0").
    pub subs: BTreeMap<String, String>,
    pub file: String,
    pub line: usize,
}

pub fn parse(file: &str, text: &str) -> Vec<Section> {
    let mut out: Vec<Section> = vec![];
    let mut cur_sub: Option<String> = None;
    for (n, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix("@@ ") {
            let (kind, key) = rest.trim().split_once(' ').unwrap_or((rest.trim(), ""));
            out.push(Section {
                kind: kind.into(),
                key: key.trim().into(),
                file: file.into(),
                line: n + 1,
                ..Default::default()
            });
            cur_sub = None;
        } else if let Some(rest) = line.strip_prefix("@ ") {
            let name = rest.trim().to_string();
            let sec = out.last_mut().expect("subsection outside a section");
            sec.subs.entry(name.clone()).or_default();
            cur_sub = Some(name);
        } else if line.starts_with("##") {
            // comment
        } else if let Some(s) = &cur_sub {
            let t = out.last_mut().unwrap().subs.get_mut(s).unwrap();
            t.push_str(line);
            t.push('\n');
        } else if !line.trim().is_empty() {
            panic!("{file}:{}: text outside a subsection: {line}", n + 1);
        }
    }
    out
}
