//! Contract tables: plain text blocks written next to nothing else, injected
//! by the extractor into the code it extracts.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Debug)]
pub struct Contracts {
    /// `ser::Serializer::serialize_bool` -> clause text (caller and impl form)
    pub tm: BTreeMap<String, String>,
    /// `ser::X as SerializeStruct::serialize_field` -> clause text replacing tm
    pub im: BTreeMap<String, String>,
    /// extra requires of one impl, on top of tm
    pub imreq: BTreeMap<String, String>,
    /// `internally::serialize`, `content::ContentDeserializer::invalid_type`
    pub fns: BTreeMap<String, String>,
    /// `ser::InternallyTaggedSerializer as Serializer` -> spec fns
    pub spec: BTreeMap<String, String>,
    /// `ser::Serializer` -> spec fn declarations
    pub traitspec: BTreeMap<String, String>,
    /// raw text appended to a module
    pub extra: BTreeMap<String, String>,
    pub bcast: BTreeMap<String, String>,
    pub loops: BTreeMap<(String, usize), String>,
    pub closures: BTreeMap<(String, usize), String>,
    pub proof: BTreeMap<String, String>,
    /// functions whose body is not verified (emitted as external_body)
    pub trusted: BTreeMap<String, String>,
    /// bodies of default methods replaced by a trusted stub
    pub used: std::cell::RefCell<std::collections::BTreeSet<String>>,
    /// function id -> properties
    pub props: Vec<(String, Vec<String>)>,
}

pub fn parse(files: &[(String, String)]) -> Contracts {
    let mut c = Contracts::default();
    for (name, text) in files {
        let mut lines = text.lines().enumerate().peekable();
        while let Some((n, line)) = lines.next() {
            let t = line.trim();
            if t.is_empty() || t.starts_with("//") || t.starts_with('#') {
                continue;
            }
            let Some(rest) = t.strip_prefix('@') else {
                panic!("{}:{}: stray line {:?}", name, n + 1, line);
            };
            let (kind, key) = rest.split_once(' ').unwrap_or((rest, ""));
            let key = key.trim().to_string();
            let mut body = String::new();
            if kind != "props" {
                loop {
                    let (_, l) = lines.next().unwrap_or_else(|| panic!("{}:{}: no @end", name, n + 1));
                    if l.trim() == "@end" {
                        break;
                    }
                    body.push_str(l);
                    body.push('\n');
                }
            }
            // template: `KEY with %m in a:A b:B`
            let (key, insts): (String, Vec<Vec<String>>) = match key.split_once(" for ") {
                Some((k, list)) => (
                    k.trim().to_string(),
                    list.split_whitespace()
                        .map(|e| e.split(':').map(str::to_string).collect())
                        .collect(),
                ),
                None => (key, vec![vec![]]),
            };
            for inst in insts {
                let mut k = key.clone();
                let mut b = body.clone();
                for (i, v) in inst.iter().enumerate() {
                    let pat = format!("%{}", i + 1);
                    k = k.replace(&pat, v);
                    b = b.replace(&pat, v);
                }
                let map = match kind {
                    "tm" => &mut c.tm,
                    "im" => &mut c.im,
                    "imreq" => &mut c.imreq,
                    "fn" => &mut c.fns,
                    "spec" => &mut c.spec,
                    "traitspec" => &mut c.traitspec,
                    "extra" => &mut c.extra,
                    "bcast" => &mut c.bcast,
                    "proof" => &mut c.proof,
                    "trusted" => &mut c.trusted,
                    "loop" | "closure" => {
                        let (f, i) = k.rsplit_once(' ').unwrap();
                        let m = if kind == "loop" { &mut c.loops } else { &mut c.closures };
                        m.insert((f.trim().to_string(), i.parse().unwrap()), b);
                        continue;
                    }
                    "props" => {
                        let (f, p) = k.split_once("=>").unwrap();
                        c.props.push((
                            f.trim().to_string(),
                            p.split_whitespace().map(str::to_string).collect(),
                        ));
                        continue;
                    }
                    _ => panic!("{}:{}: unknown block @{}", name, n + 1, kind),
                };
                if kind == "extra" || kind == "bcast" {
                    map.entry(k).or_default().push_str(&b);
                } else if map.insert(k.clone(), b).is_some() {
                    panic!("{}:{}: duplicate block @{} {}", name, n + 1, kind, k);
                }
            }
        }
    }
    c
}

/// `$self`, `$r`, `$1`..`$9`, `$vec` substitution.
pub fn subst(text: &str, params: &[String], names: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let w: String = b[i + 1..j].iter().collect();
            if let Ok(n) = w.parse::<usize>() {
                out.push_str(params.get(n - 1).map(String::as_str).unwrap_or("MISSING_PARAM"));
            } else if let Some(v) = names.get(&w) {
                out.push_str(v);
            } else if w == "self" {
                out.push_str("self");
            } else if w == "r" {
                out.push_str("r");
            } else {
                out.push_str(&format!("MISSING_{}", w));
            }
            i = j;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
