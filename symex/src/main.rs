mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::collections::HashMap;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs_js(v: &[(String, u128, u32)]) -> String {
    format!("{{{}}}", v.iter().map(|(n, x, w)| format!("{}: \"{:#x}:{}\"", js(n), x, w)).collect::<Vec<_>>().join(", "))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or(d.to_string());
    let m = match ir::Module::load(&o["ir"]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR: {e}");
            std::process::exit(2);
        }
    };
    let concrete = o.get("concrete").map(|f| {
        std::fs::read_to_string(f)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let (k, v) = l.rsplit_once(' ')?;
                Some((k.to_string(), u128::from_str_radix(v.trim_start_matches("0x"), 16).ok()?))
            })
            .collect()
    });
    if o.contains_key("list") {
        for f in &m.funcs {
            if f.lines.is_some() && f.name.starts_with(&o["list"]) {
                println!("{}", f.name);
            }
        }
        return;
    }
    let opts = exec::Opts {
        max_paths: get("max-paths", "1000000").parse().unwrap(),
        max_steps: get("max-steps", "200000000").parse().unwrap(),
        time: get("time", "300").parse().unwrap(),
        exact_timeout_ms: get("exact-timeout", "30000").parse().unwrap(),
        uf_timeout_ms: get("timeout", "20000").parse().unwrap(),
        solver: get("solver", "z3-new"),
        seed: get("seed", "1").parse().unwrap(),
        concrete,
        params: o.get("params").map_or(Default::default(), |p| p.split(',').filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect()),
        max_viol_per_id: get("max-viol", "3").parse().unwrap(),
        verbose: o.contains_key("verbose"),
        div_enum: get("div-enum", "0").parse().unwrap(),
        int_token: o.contains_key("int-token"),
        float_classes: o.contains_key("float-classes"),
        enum_limit: get("enum-limit", "4096").parse().unwrap(),
    };
    let entry = o["entry"].clone();
    let mut en = exec::Engine::new(m, opts);
    if let Some(l) = o.get("smtlog") {
        en.uf.log = std::fs::File::create(l).ok();
    }
    en.run(&entry);
    let mut s = String::from("{\n");
    s += &format!(" \"entry\": {},\n \"paths\": {}, \"completed\": {}, \"panicked\": {}, \"infeasible\": {}, \"instructions\": {},\n", js(&entry), en.paths, en.done_paths, en.panic_paths, en.infeasible, en.steps);
    s += &format!(" \"symbolic_inputs\": {}, \"assumes\": {}, \"nodes\": {},\n", en.is_input(), en.assumes, en.d.n.len());
    s += &format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3},\n", en.uf.queries + en.exact.queries, en.uf.sat + en.exact.sat, en.uf.unsat + en.exact.unsat, en.uf.unknown + en.exact.unknown, en.uf.time + en.exact.time);
    s += &format!(" \"exact_fp_queries\": {}, \"wall_s\": {:.3},\n", en.exact_used, en.t0.elapsed().as_secs_f64());
    s += &format!(" \"checks\": {{{}}},\n", en.checks.iter().map(|(k, v)| format!("{}: [{}, {}, {}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"reach\": {{{}}},\n", en.reach.iter().map(|(k, v)| format!("{}: {{\"n\": {}, \"sample\": {}}}", js(k), v.0, v.1.as_ref().map_or("null".into(), |x| inputs_js(x)))).collect::<Vec<_>>().join(", "));
    s += &format!(" \"panics\": {{{}}},\n", en.panics.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"cuts\": {{{}}},\n", en.cuts.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"outs\": [{}],\n", en.outs.iter().map(|(k, v)| format!("[{}, \"{:#x}\"]", js(k), v)).collect::<Vec<_>>().join(", "));
    s += &format!(
        " \"violations\": [{}],\n",
        en.viol.iter().map(|v| format!("{{\"id\": {}, \"how\": {}, \"inputs\": {}, \"trace\": [{}]}}", js(&v.id), js(&v.kind), inputs_js(&v.inputs), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n  ")
    );
    s += &format!(" \"inconclusive\": [{}],\n", en.incon.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"errors\": [{}],\n", en.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    s += &format!(" \"truncated\": {},\n", en.truncated.as_ref().map_or("null".into(), |x| js(x)));
    s += &format!(" \"functions\": [{}]\n}}\n", en.funcs_used().iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    match o.get("out") {
        Some(f) => std::fs::write(f, s).unwrap(),
        None => print!("{s}"),
    }
}
