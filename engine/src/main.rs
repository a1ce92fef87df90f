mod exec;
mod expr;
mod ir;
mod range;
mod relax;
mod solver;
use exec::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let ll = get("--ll").expect("--ll FILE");
    let entry = get("--entry").expect("--entry NAME");
    let num = |k: &str, d: f64| get(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&text);
    drop(text);
    let lim = Limits {
        max_steps: num("--max-steps", 3e6) as u64,
        max_paths: num("--max-paths", 1e7) as u64,
        max_time: num("--max-time", 600.0),
        samples: num("--samples", 20.0) as usize,
        seed: num("--seed", 1.0) as u64,
        split: num("--split", 1.0) as u32,
        part: num("--part", 0.0) as u32,
    };
    let mut e = Engine::new(&m, lim, num("--timeout-ms", 60000.0) as u32);
    e.verbose = args.iter().any(|a| a == "-v");
    let mut err = None;
    if let Err(x) = e.run(&entry) {
        err = Some(x);
    }
    if let Some(x) = err {
        e.errors.push(x);
    }
    let s = &e.stats;
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"expected_panics\":{},\"forks\":{},\"insts\":{},\"sym_branches\":{},\"asserts_solver\":{},\"asserts_const\":{},\"real_relaxed\":{},\"guessed\":{},\"ranged\":{},\"audited\":{},\"unconfirmed\":{},\"max_path_steps\":{},\"max_pc\":{},\"max_inputs\":{},\"exprs\":{},",
        js(&entry), s.paths, s.infeasible, s.panics_expected, s.forks, s.insts, s.branches_sym, s.asserts_solver, s.asserts_const, e.s.relaxed, s.guessed, s.ranged, s.audited, s.unconfirmed, s.max_path_steps, s.max_pc, s.max_inputs, e.x.n.len()
    ));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"incomplete\":{},",
        e.s.queries,
        e.s.sat,
        e.s.unsat,
        e.s.unknown,
        e.s.time,
        e.s.max_time,
        t0.elapsed().as_secs_f64(),
        e.incomplete.as_ref().map(|x| js(x)).unwrap_or("null".into())
    ));
    o.push_str("\"errors\":[");
    o.push_str(&e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"covers\":{");
    o.push_str(&e.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"asserts\":{");
    o.push_str(&e.assert_labels.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    o.push_str("},\"violations\":[");
    o.push_str(
        &e.viol
            .iter()
            .map(|v| format!("{{\"kind\":{},\"label\":{},\"input\":\"{}\",\"detail\":{}}}", js(&v.kind), js(&v.label), hex(&v.input), js(&v.detail)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(
        &e.samples
            .iter()
            .map(|v| {
                format!(
                    "{{\"input\":\"{}\",\"obs\":[{}],\"status\":{},\"covers\":[{}]}}",
                    hex(&v.input),
                    v.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    js(&v.status),
                    v.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"functions\":[");
    o.push_str(&e.funcs_run.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
