// Contract database: text files *.vc
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Clause {
    pub kind: String, // requires | ensures | decreases
    pub label: String,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct LoopTpl {
    pub depth: usize,
    pub alt: usize,
    pub label: String,
    pub kind: String, // invariant | decreases
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub path: String,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub sigkey: Option<String>,
    pub attrs: Vec<String>,
    pub clauses: Vec<Clause>,
    pub loops: Vec<LoopTpl>,
    pub snaps: Vec<(String, String)>,
    pub locals: Vec<(String, Vec<String>)>, // placeholder name -> preferred names
    pub preamble: Vec<String>,
}
#[derive(Default)]
pub struct Db {
    pub fns: BTreeMap<String, Contract>,
}

pub fn labelled(text: &str, label: &str) -> String {
    let mut s = String::new();
    let t = text.trim().trim_end_matches(',');
    for l in t.lines() {
        s.push_str(&format!("    {} /*@{}@*/\n", l, label));
    }
    s.push_str(&format!("    , /*@{}@*/\n", label));
    s
}
pub fn labelled_plain(text: &str, label: &str) -> String {
    let mut s = String::new();
    for l in text.trim().lines() {
        s.push_str(&format!("    {} /*@{}@*/\n", l, label));
    }
    s
}

pub fn load(dir: &Path) -> Db {
    let mut db = Db::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .expect("contracts dir")
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap();
        parse(&t, &mut db);
    }
    db
}

fn parse(t: &str, db: &mut Db) {
    let mut cur: Option<Contract> = None;
    let mut sect: Option<(Vec<String>, String)> = None;
    fn flush(cur: &mut Option<Contract>, sect: &mut Option<(Vec<String>, String)>) {
        if let (Some(c), Some((h, body))) = (cur.as_mut(), sect.take()) {
            let body = body.trim_end().to_string();
            match h[0].as_str() {
                "requires" | "ensures" | "decreases" => c.clauses.push(Clause {
                    kind: h[0].clone(),
                    label: h.get(1).cloned().unwrap_or_default(),
                    text: body,
                }),
                "loop" => {
                    // loop DEPTH[.ALT] invariant|decreases LABEL
                    let (d, a) = match h[1].split_once('.') {
                        Some((d, a)) => (d.parse().unwrap(), a.parse().unwrap()),
                        None => (h[1].parse().unwrap(), 0),
                    };
                    c.loops.push(LoopTpl {
                        depth: d,
                        alt: a,
                        kind: h[2].clone(),
                        label: h.get(3).cloned().unwrap_or_default(),
                        text: body,
                    });
                }
                "preamble" => c.preamble.push(body),
                _ => panic!("bad section {:?}", h),
            }
        }
    }
    for line in t.lines() {
        if line.starts_with("#") {
            continue;
        }
        if let Some(r) = line.strip_prefix("== fn ") {
            flush(&mut cur, &mut sect);
            if let Some(c) = cur.take() {
                db.fns.insert(c.path.clone(), c);
            }
            let (p, rest) = r.split_once('(').expect("== fn path(params)");
            let (ps, rest) = rest.split_once(')').unwrap();
            let mut c = Contract { path: p.trim().to_string(), ..Default::default() };
            c.params = ps.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            if let Some((_, n)) = rest.split_once("->") {
                c.ret = Some(n.trim().to_string());
            }
            cur = Some(c);
        } else if let Some(r) = line.strip_prefix("-- ") {
            flush(&mut cur, &mut sect);
            let c = cur.as_mut().expect("section outside fn");
            let w: Vec<String> = r.split_whitespace().map(|s| s.to_string()).collect();
            match w[0].as_str() {
                "snap" => {
                    let (n, e) = r[4..].split_once('=').unwrap();
                    c.snaps.push((n.trim().to_string(), e.trim().to_string()));
                }
                "attr" => c.attrs.push(r[4..].trim().to_string()),
                "sig" => c.sigkey = Some(r[3..].trim().to_string()),
                "local" => c.locals.push((w[1].clone(), w[2..].to_vec())),
                _ => sect = Some((w, String::new())),
            }
        } else if let Some((_, b)) = sect.as_mut() {
            b.push_str(line);
            b.push('\n');
        }
    }
    flush(&mut cur, &mut sect);
    if let Some(c) = cur.take() {
        db.fns.insert(c.path.clone(), c);
    }
}
