//! The committed list of known findings: the check runs exactly the listed
//! inputs and prints a line for each that still fails.
fn still_fails(name: &str) -> bool {
    match name {
        "request-from-without-length" => crate::writing::known_request_from(),
        _ => false,
    }
}

pub fn check(id: &str) -> Vec<String> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let list = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    let mut out = Vec::new();
    for l in list.lines() {
        let mut w = l.split(' ');
        let probe = match (w.next(), w.next(), w.next()) {
            (Some("KNOWN-FINDING:"), Some(p), Some(name)) if p == format!("property={}", id) => name.strip_prefix("id="),
            _ => None,
        };
        if let Some(name) = probe {
            if crate::fw::no_panic(|| still_fails(name)).unwrap_or(true) {
                out.push(l.to_string());
            }
        }
    }
    out
}
