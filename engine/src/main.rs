#![allow(non_snake_case, dead_code, unused)]
mod exec;
mod expr;
mod ir;
mod solver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn strs<'a>(it: impl Iterator<Item = &'a String>) -> String { format!("[{}]", it.map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

/// map executed debug locations to source lines
fn coverage(lines: &[String], cov: &std::collections::HashSet<u32>) -> (BTreeMap<String, BTreeSet<u32>>, BTreeSet<String>) {
    let mut md: HashMap<u32, &str> = HashMap::new();
    for l in lines { if l.starts_with('!') { if let Some(e) = l.find(" = ") { if let Ok(n) = l[1..e].parse() { md.insert(n, &l[e + 3..]); } } } }
    fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
        let pat = format!("{}: ", k);
        let mut st = 0;
        loop {
            let i = s[st..].find(&pat)? + st;
            let ok = i == 0 || matches!(s.as_bytes()[i - 1], b'(' | b' ');
            if ok { let r = &s[i + pat.len()..]; let r = if r.starts_with('"') { &r[..r[1..].find('"').map_or(r.len(), |x| x + 2)] } else { &r[..r.find(|c| c == ',' || c == ')').unwrap_or(r.len())] }; return Some(r); }
            st = i + 1;
        }
    }
    let id = |s: &str| s.trim_start_matches('!').parse::<u32>().ok();
    let mut files: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns = BTreeSet::new();
    for c in cov {
        let mut loc = Some(*c);
        while let Some(l) = loc {
            let t = match md.get(&l) { Some(t) if t.contains("DILocation(") => *t, _ => break };
            let line: u32 = field(t, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut sc = field(t, "scope").and_then(id);
            let mut name = None;
            let mut file = None;
            while let Some(s) = sc {
                let t2 = match md.get(&s) { Some(x) => *x, None => break };
                if file.is_none() { if let Some(f) = field(t2, "file").and_then(id) { file = md.get(&f).map(|d| (field(d, "directory").unwrap_or("").trim_matches('"').to_string(), field(d, "filename").unwrap_or("").trim_matches('"').to_string())); } }
                if t2.contains("DISubprogram(") { name = field(t2, "name").map(|x| x.trim_matches('"').to_string()); break; }
                sc = field(t2, "scope").and_then(id);
            }
            if let Some((d, f)) = file {
                let full = if f.starts_with('/') { f } else { format!("{}/{}", d, f) };
                if let Some(n) = name { if full.starts_with("/repo/") { fns.insert(format!("{}:{}", &full[6..], n)); } }
                files.entry(full).or_default().insert(line);
            }
            loc = field(t, "inlinedAt").and_then(id);
        }
    }
    (files, fns)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    let mut fix = HashMap::new();
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        if k == "fix" { for (n, x) in v.split(',').enumerate() { if let Ok(x) = x.parse::<u128>() { fix.insert(n, x); } } }
        opt.insert(k, v);
        i += 2;
    }
    let get = move |k: &str, d: &str| opt.get(k).cloned().unwrap_or(d.to_string());
    let text = match std::fs::read_to_string(get("ir", "")) { Ok(t) => t, Err(e) => { eprintln!("rsym: cannot read IR: {}", e); std::process::exit(2) } };
    let run = move || {
        let t0 = std::time::Instant::now();
        let m = ir::Module::parse(&text);
        drop(text);
        let s = solver::Solver::new(&get("z3", "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"), get("timeout-ms", "20000").parse().unwrap());
        let lim = exec::Limits {
            steps_per_path: get("path-steps", "50000000").parse().unwrap(),
            total_steps: get("steps", "20000000000").parse().unwrap(),
            wall_s: get("wall", "600").parse().unwrap(),
            max_paths: get("max-paths", "1000000").parse().unwrap(),
            grace_s: get("grace", "60").parse().unwrap(),
        };
        let mut s = s;
        s.use_lia = get("lia", "1") == "1";
        let mut e = exec::Engine::new(m, s, lim);
        e.fix = fix;
        e.sample_every = get("sample-every", "7").parse().unwrap();
        e.max_samples = get("max-samples", "60").parse().unwrap();
        e.skip = get("skip", "").split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let entry = get("entry", "");
        let arg: u64 = get("case", "0").parse().unwrap();
        e.run(&entry, arg);
        let (files, fns) = coverage(e.lines(), &e.covered);
        let mut o = String::new();
        let _ = write!(o, "{{\"entry\":{},\"case\":{},\"paths_ok\":{},\"paths_panic\":{},\"paths_pruned\":{},\"forks\":{},\"steps\":{},", esc(&entry), arg, e.paths_ok, e.paths_panic, e.paths_pruned, e.forks, e.steps);
        if let Some(p) = &e.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by(|a, b| b.1.1.partial_cmp(&a.1.1).unwrap()); for (k, x) in v.iter().take(25) { eprintln!("{:6} {:8.2}s {}", x.0, x.1, k); } }
        let _ = write!(o, "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"lia\":[{},{},{:.3}],\"by_range\":{},\"solver\":{},", e.s.queries, e.s.cache_hits, e.s.sat, e.s.unsat, e.s.unknown, e.s.time, e.s.max_time, e.s.lia_ok, e.s.lia_tried, e.s.lia_time, e.by_range, esc(&e.s.version));
        let _ = write!(o, "\"asserts\":{},\"asserts_symbolic\":{},\"inconclusive\":{},", e.asserts_checked, e.asserts_symbolic, strs(e.inconclusive.iter()));
        let _ = write!(o, "\"reach\":{{{}}},", e.reach.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        let nds = |nd: &Vec<(u16, u128)>| format!("[{}]", nd.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, "\"violations\":[{}],", e.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"note\":{},\"nd\":{},\"stack\":{}}}", esc(&v.kind), esc(&v.msg), esc(&v.loc), nds(&v.nd), strs(v.stack.iter()))).collect::<Vec<_>>().join(","));
        let _ = write!(o, "\"samples\":[{}],\"samples_skipped\":{},", e.samples.iter().map(|(n, ob)| format!("{{\"nd\":{},\"obs\":[{}]}}", nds(n), ob.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), e.sample_skipped);
        let ent: BTreeSet<String> = e.entered.iter().map(|&i| e.fn_name(i)).collect();
        let _ = write!(o, "\"entered\":{},\"fns\":{},", strs(ent.iter()), strs(fns.iter()));
        let _ = write!(o, "\"lines\":{{{}}},\"wall_s\":{:.3}}}\n", files.iter().filter(|(k, _)| k.starts_with("/repo/")).map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64());
        let out = get("out", "");
        if out.is_empty() { print!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
        std::process::exit(0);
    };
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}
