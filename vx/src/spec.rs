//! Contract files: sections introduced by lines starting with "@@".
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub text: String,          // requires/ensures
    pub loops: BTreeMap<usize, String>,
    pub attrs: String,
    pub pre_body: String,      // ghost statements at the start of the body
    pub external: bool,        // body not verified (listed as trusted)
    pub helper: bool,          // contract may be dropped, callers then inline the body
    pub optional: bool,        // function may be absent
    pub post: Vec<(String, String)>, // (anchor, ghost text) inserted after a statement
}

#[derive(Default)]
pub struct Spec {
    pub root: Vec<String>,
    pub modules: BTreeMap<String, Vec<String>>,
    pub fns: BTreeMap<String, Contract>,
    pub inject: BTreeMap<String, String>,
    pub keep_impls: Vec<String>,
    pub drop: Vec<String>,
    pub only: Vec<String>,
    pub bounded: Vec<String>, // modules or functions that may only reserve memory up to a constant
    pub rename: BTreeMap<String, String>,
    pub fill: BTreeMap<String, Vec<String>>,
}

impl Spec {
    pub fn parse(&mut self, t: &str) {
        let mut cur: Option<(String, Vec<String>)> = None;
        let mut body = String::new();
        let flush = |cur: &Option<(String, Vec<String>)>, body: &str, me: &mut Spec| {
            let Some((k, a)) = cur else { return };
            match k.as_str() {
                "root" => me.root.push(body.to_string()),
                "module" => me.modules.entry(a[0].clone()).or_default().push(body.to_string()),
                "inject" => {
                    me.inject.entry(a[0].clone()).or_default().push_str(body);
                }
                "fn" | "helper" | "external" | "optional" => {
                    let c = me.fns.entry(a[0].clone()).or_default();
                    c.text = body.to_string();
                    c.external = k == "external";
                    c.helper = k == "helper";
                    c.optional = k == "helper" || k == "optional" || a.iter().any(|x| x == "optional");
                    if a.iter().any(|x| x == "external") {
                        c.external = true;
                    }
                }
                "loop" => {
                    me.fns.entry(a[0].clone()).or_default().loops.insert(a[1].parse().unwrap(), body.to_string());
                }
                "attr" => me.fns.entry(a[0].clone()).or_default().attrs.push_str(body),
                "body" => me.fns.entry(a[0].clone()).or_default().pre_body.push_str(body),
                "after" => me
                    .fns
                    .entry(a[0].clone())
                    .or_default()
                    .post
                    .push((a[1].clone(), body.to_string())),
                "drop" => me.drop.extend(body.split_whitespace().map(String::from)),
                "bounded" => me.bounded.extend(body.split_whitespace().map(String::from)),
                "only" => me.only.extend(body.split_whitespace().map(String::from)),
                "keep" => me.keep_impls.extend(body.split_whitespace().map(String::from)),
                "rename" => {
                    for l in body.lines() {
                        let v: Vec<&str> = l.split_whitespace().collect();
                        if v.len() == 2 {
                            me.rename.insert(v[0].into(), v[1].into());
                        }
                    }
                }
                "fill" => me
                    .fill
                    .entry(a[0].clone())
                    .or_default()
                    .extend(body.lines().filter(|l| !l.trim().is_empty()).map(String::from)),
                "comment" => {}
                _ => panic!("unknown section {k}"),
            }
        };
        for l in t.lines() {
            if let Some(h) = l.strip_prefix("@@") {
                flush(&cur, &body, self);
                body.clear();
                let mut w = h.split_whitespace().map(String::from);
                let k = w.next().unwrap();
                let mut a: Vec<String> = w.collect();
                if a.len() > 1 && a[0] == "trait" {
                    let n = a.remove(1);
                    a[0] = format!("trait {n}");
                }
                cur = Some((k, a));
            } else {
                body.push_str(l);
                body.push('\n');
            }
        }
        flush(&cur, &body, self);
    }
    pub fn drop_helpers(&mut self) {
        self.fns.retain(|_, c| !c.helper);
    }
}
