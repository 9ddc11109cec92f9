#[path = "../../ir.rs"]
mod ir;
mod cfg;
mod check;
mod conv;
mod ctx;
mod exec;
mod geom;
mod intr;
mod lp;
mod model;
mod real;
mod spec;
mod state;
mod term;
use ir::*;

fn load(path: &str) -> Program {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    bincode::deserialize_from(std::io::BufReader::new(f)).expect("program dump")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "check").unwrap_or(false) {
        // check DIR ID TIER BASE UNSTABLE
        let t0 = std::time::Instant::now();
        let progs = check::Progs { base: load(&a[5]), unstable: load(&a[6]) };
        let budget = std::env::var("BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(if a[4] == "thorough" { 3600 } else { 600 });
        std::process::exit(check::run(&a[2], &a[3], &a[4], progs, t0, std::time::Duration::from_secs(budget)));
    }
    let p = load(&a[1]);
    let mode = a.get(2).map(|s| s.as_str()).unwrap_or("");
    match mode {
        "list" => {
            for (i, f) in p.funcs.iter().enumerate() {
                println!("{} {:?} body={} krate={} {} tf={:?} {}:{} blocks={}", i, f.kind, f.has_body, f.krate, f.name, f.target_features, p.files[f.file as usize], f.line, f.blocks.len());
            }
        }
        "fn" => {
            let pat = &a[3];
            for (i, f) in p.funcs.iter().enumerate() {
                if f.name.contains(pat) || i.to_string() == *pat {
                    println!("== {i} {} argc={} spread={:?} ", f.name, f.argc, f.spread);
                    for (k, l) in f.locals.iter().enumerate() {
                        println!("  _{k}: {} {:?}", p.tys[l.ty as usize].name, l.name);
                    }
                    for (k, b) in f.blocks.iter().enumerate() {
                        println!(" bb{k}:");
                        for s in &b.stmts {
                            println!("    {:?}", s.0);
                        }
                        match &b.term {
                            Term::Call { callee: Callee::Direct(c), args, dest, target } => println!("    CALL {} {} {:?} -> {:?} bb{:?}", c, p.funcs[*c as usize].name, args, dest, target),
                            t => println!("    {:?}", t),
                        }
                    }
                }
            }
        }
        "conv" => {
            let leak = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
            let (src, dst) = (leak(&a[3]), leak(&a[4]));
            // colour: T/P or T/P/S/(full|limited)
            let col = |f: &str, arg: Option<&String>| -> ctx::Color {
                match arg {
                    None => if f.contains("RGB") || f.contains("BGR") { ctx::Color::rgb("SRGB", "BT709") } else { ctx::Color::yuv("SRGB", "BT709", "BT709", false) },
                    Some(x) => {
                        let v: Vec<&'static str> = x.split('/').map(|y| leak(y)).collect();
                        if v.len() == 2 { ctx::Color::rgb(v[0], v[1]) } else { ctx::Color::yuv(v[0], v[1], v[2], v[3] == "full") }
                    }
                }
            };
            let feats: Vec<&str> = a.get(5).map(|s| s.split(',').collect()).unwrap_or_default();
            let c = ctx::Conv { src, dst, sc: col(src, a.get(6)), dc: col(dst, a.get(7)) };
            let root = std::env::var("ROOT").unwrap_or("r_convert".into());
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(2 << 30).spawn_scoped(s, || {
                    let t = std::time::Instant::now();
                    let cores = std::env::var("CORES").ok().and_then(|x| x.parse().ok()).unwrap_or(2);
                    let mut r = ctx::run_conv_red(&p, &root, &c, &feats, ctx::nplanes(src), ctx::nplanes(dst), cores, std::env::var("REDIR").ok().as_deref().map(|x| (x, "r_band"))).unwrap();
                    println!("time {:?}", t.elapsed());
                    if std::env::var("CHECK").is_ok() {
                        let t = std::time::Instant::now();
                        let s = conv::check_conv(&mut r, &c, format!("{src}->{dst}"), conv::Validity::Symbolic, true);
                        println!("check {:?} {:?}", t.elapsed(), s.obl.n);
                        for f in &s.f { println!("{:?} {} | {}", f.class, f.key, f.text); }
                    } else {
                        ctx::dump(&mut r);
                    }
                }).unwrap();
            });
        }
        _ => {}
    }
}
