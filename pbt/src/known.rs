//! The committed known-findings file, /verif/known_findings.txt.
//! Lines:  `finding: property=<id> key=<key> <text>`
//!         `fixed: property=<id> <commit> <text>`   (suppresses nothing)
#[derive(Clone, Debug)]
pub struct Finding {
    pub property: String,
    pub key: String,
    pub text: String,
}

pub fn load(path: &std::path::Path) -> Vec<Finding> {
    let mut out = Vec::new();
    let Ok(s) = std::fs::read_to_string(path) else {
        return out;
    };
    for line in s.lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").to_string();
            let key = it
                .next()
                .unwrap_or("")
                .trim_start_matches("key=")
                .to_string();
            let text = it.next().unwrap_or("").to_string();
            out.push(Finding {
                property,
                key,
                text,
            });
        }
    }
    out
}
