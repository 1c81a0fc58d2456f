//! Parser of the contract files (format described in /verif/DESIGN.md).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub tags: Vec<String>,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopSpec {
    pub kind: String,
    pub text: String,
    pub hooks: BTreeMap<String, String>, // begin, end, before, after
}

#[derive(Clone, Debug, Default)]
pub struct FnContract {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: String,
    pub start: String,
    pub loops: Vec<LoopSpec>,
    pub attrs: Vec<String>,
    pub trusted: bool,
    pub used: bool,
    /// other shapes of the body: what stands at the start and at the loops
    pub alts: Vec<(String, Vec<LoopSpec>)>,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    /// module -> raw spec texts with their origin
    pub specs: BTreeMap<String, Vec<(String, String)>>,
    /// sinks: fn bound shape -> (trait, method)
    pub sinks: BTreeMap<String, (String, String)>,
    /// extra result-returning function names etc.
    pub kinds: BTreeMap<String, String>,
}

fn clause_list(lines: &[String], default: &[String]) -> Vec<Clause> {
    // every clause starts on a line whose first non-blank character is '-' or '['
    let mut out: Vec<Clause> = vec![];
    for l in lines {
        let t = l.trim_start();
        if let Some(rest) = t.strip_prefix("- ") {
            out.push(Clause { tags: default.to_vec(), text: rest.to_string() });
        } else if t.starts_with('[') && t.contains(']') && (t[1..].starts_with('C') || t[1..].starts_with('D')) {
            let e = t.find(']').unwrap();
            let tags = t[1..e].split_whitespace().map(|s| s.to_string()).collect();
            out.push(Clause { tags, text: t[e + 1..].trim_start().to_string() });
        } else if let Some(last) = out.last_mut() {
            last.text.push('\n');
            last.text.push_str(l);
        } else if !t.is_empty() {
            panic!("contract: text before the first clause: {l}");
        }
    }
    for c in &mut out {
        while c.text.ends_with(|ch: char| ch.is_whitespace() || ch == ',') {
            c.text.pop();
        }
    }
    out
}

pub fn parse(files: &[(String, String)]) -> Contracts {
    let mut c = Contracts::default();
    for (fname, text) in files {
        let mut module = String::new();
        let mut cur: Option<FnContract> = None;
        let mut section = String::new();
        let mut is_alt = false;
        let mut buf: Vec<String> = vec![];
        let mut spec_buf: Option<Vec<String>> = None;

        fn flush(cur: &mut Option<FnContract>, section: &str, buf: &mut Vec<String>) {
            let f = match cur {
                Some(f) => f,
                None => {
                    buf.clear();
                    return;
                }
            };
            let text = buf.join("\n");
            let w: Vec<&str> = section.split_whitespace().collect();
            match w.first().copied().unwrap_or("") {
                "" => {}
                "requires" => f.requires = clause_list(buf, &f.props),
                "ensures" => f.ensures = clause_list(buf, &f.props),
                "decreases" => f.decreases = text,
                "start" => f.start = text,
                "loop" => {
                    let k: usize = w[1].parse().unwrap();
                    while f.loops.len() <= k {
                        f.loops.push(LoopSpec::default());
                    }
                    let what = w.get(2).copied().unwrap_or("inv");
                    match what {
                        "begin" | "end" | "before" | "after" => {
                            f.loops[k].hooks.insert(what.to_string(), text);
                        }
                        kind => {
                            f.loops[k].kind = kind.to_string();
                            f.loops[k].text = text;
                        }
                    }
                }
                o => panic!("unknown section {o}"),
            }
            buf.clear();
        }

        for line in text.lines() {
            if let Some(sb) = &mut spec_buf {
                if line.trim() == "@end" {
                    c.specs
                        .entry(module.clone())
                        .or_default()
                        .push((fname.clone(), sb.join("\n")));
                    spec_buf = None;
                } else {
                    sb.push(line.to_string());
                }
                continue;
            }
            let t = line.trim();
            if t.starts_with('@') {
                let (word, rest) = match t.find(char::is_whitespace) {
                    Some(i) => (&t[..i], t[i..].trim()),
                    None => (t, ""),
                };
                match word {
                    "@mod" => module = rest.to_string(),
                    "@spec" => spec_buf = Some(vec![]),
                    "@sink" => {
                        let p: Vec<&str> = rest.split("=>").map(|s| s.trim()).collect();
                        let q: Vec<&str> = p[1].split_whitespace().collect();
                        c.sinks
                            .insert(p[0].to_string(), (q[0].to_string(), q[1].to_string()));
                    }
                    "@kind" => {
                        let p: Vec<&str> = rest.split_whitespace().collect();
                        c.kinds.insert(p[0].to_string(), p[1].to_string());
                    }
                    "@fn" | "@trusted" | "@alt" => {
                        // @fn key(params) -> ret [props]
                        let mut f = FnContract { ret: "r".into(), ..Default::default() };
                        let (head, props) = match rest.rfind('[') {
                            Some(i) => (&rest[..i], rest[i + 1..].trim_end_matches(']')),
                            None => (rest, ""),
                        };
                        f.props = props.split_whitespace().map(|s| s.to_string()).collect();
                        let (head, ret) = match head.find("->") {
                            Some(i) => (head[..i].trim(), head[i + 2..].trim()),
                            None => (head.trim(), "r"),
                        };
                        f.ret = ret.to_string();
                        let i = head.find('(').unwrap_or(head.len());
                        let k = head[..i].trim();
                        f.key = if module.is_empty() { k.to_string() } else { format!("{module}::{k}") };
                        if i < head.len() {
                            f.params = head[i + 1..]
                                .trim_end_matches(')')
                                .split(',')
                                .map(|s| s.trim().to_string())
                                .filter(|s| !s.is_empty())
                                .collect();
                        }
                        f.trusted = word == "@trusted";
                        is_alt = word == "@alt";
                        cur = Some(f);
                        section = String::new();
                        buf.clear();
                    }
                    "@end" => {
                        flush(&mut cur, &section, &mut buf);
                        if let Some(f) = cur.take() {
                            if is_alt {
                                c.fns.get_mut(&f.key).unwrap_or_else(|| panic!("@alt before @fn {}", f.key)).alts.push((f.start, f.loops));
                                section = String::new();
                                continue;
                            }
                            if c.fns.contains_key(&f.key) {
                                panic!("duplicate contract {}", f.key);
                            }
                            c.fns.insert(f.key.clone(), f);
                        }
                        section = String::new();
                    }
                    "@attr" => cur.as_mut().unwrap().attrs.push(rest.to_string()),
                    "@requires" | "@ensures" | "@decreases" | "@start" | "@loop" => {
                        flush(&mut cur, &section, &mut buf);
                        section = t[1..].to_string();
                    }
                    o => panic!("{fname}: unknown directive {o}"),
                }
                continue;
            }
            if cur.is_some() {
                if section.is_empty() {
                    if t.is_empty() || t.starts_with("//") {
                        continue;
                    }
                    panic!("{fname}: text outside a section: {line}");
                }
                buf.push(line.to_string());
            }
        }
        assert!(cur.is_none(), "{fname}: unterminated @fn");
        assert!(spec_buf.is_none(), "{fname}: unterminated @spec");
    }
    c
}
