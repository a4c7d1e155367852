//! Records what the real code makes of texts and values; the specification decides about it.
use {
    crate::val,
    mysql_connector::types::{IdentifierEscape, StringEscape, UnquotedIdentifierEscape},
    serde_json::{json, Value as J},
};

fn points(s: String) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

pub fn record(sc: &J) -> J {
    let n = |x: &J| x.as_u64().expect("HARNESS: number") as u32;
    let text: Vec<u32> = match sc["fam"].as_str() {
        Some("value") => {
            let v = val::parse(&sc["v"]);
            return json!({"k": "value", "v": sc["v"], "o": points(v.to_string())});
        }
        Some("text") => sc["s"].as_array().expect("HARNESS: text").iter().map(n).collect(),
        Some("block") => (64 * n(&sc["n"])..64 * n(&sc["n"]) + 64).collect(),
        Some("single") => vec![97, n(&sc["n"])],
        x => panic!("HARNESS: family {x:?}"),
    };
    let s: String = text.into_iter().filter_map(char::from_u32).collect();
    json!({
        "k": "text",
        "s": points(s.clone()),
        "str": points(StringEscape(&s).to_string()),
        "id": points(IdentifierEscape(&s).to_string()),
        "un": points(UnquotedIdentifierEscape(&s).to_string()),
    })
}
