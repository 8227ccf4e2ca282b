mod check;
mod cli;
mod clichecks;
mod checks;
mod earley;
mod engine;
mod families;
mod gram;
mod history;
mod imp;
mod lexcheck;
mod meta;
mod model;
mod oracle;
mod prog;
mod reflex;
mod reject;

fn main() {
    imp::quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "check" => std::process::exit(check::check(&args[2], &args[3])),
        "child" => return check::child(&args[2], &args[3], &args[4]),
        "sweep" => return check::sweep(&args[2], &args[3]),
        "one" => return check::one(&args[2], &args[3]),
        "alone" => return history::alone(),
        "replay" => return check::replay(&args[2]),
        _ => {}
    }
    let g = gram::Grammar::load();
    let s = model::Syms::new(&g);
    match args[1].as_str() {
        "count" => {
            let gen = gram::Gen::new(&g);
            for (i, n) in g.names.iter().enumerate() {
                let c: Vec<usize> = (0..=3).map(|k| if k < 3 || args.len() > 2 { gen.nt(i as u16, k).len() } else { 0 }).collect();
                println!("{n} {c:?}");
            }
            for (i, n) in g.names.iter().enumerate() {
                let c: Vec<usize> = (1..=2).map(|k| gen.shapes(i as u16, k, gram::Fill::Default).len()).collect();
                println!("{n} {c:?}, {:?}", (1..6).map(|k| gen.dense(i as u16, k).len()).collect::<Vec<_>>());
            }
            for k in 0..3 {
                println!("edges k={k}: {}", families::edges(&g, &s, k, k, &[false, true]).len());
            }
            for f in [
                families::files(&g, 0, 2),
                families::lists(&g, &s, &[0, 1, 2, 3, 5, 8]),
                families::pairs(&g, &s, 1),
                families::rich_lists(&g, &s, &[3]),
                families::nests(&g, &s, &[1, 2, 3]),
                families::odd_nests(&g, &s, &[1]),
                families::joints(&g, &s, 0),
                families::joints(&g, &s, 1),
                families::joints(&g, &s, 2),
                families::files(&g, 0, 1),
                families::crossings(&g, &s, false),
                families::shapes(&g, &s, 1, false),
                families::shapes(&g, &s, 1, true),
                families::shapes(&g, &s, 2, false),
                families::dense(&g, &s, &[1]),
                families::dense(&g, &s, &[2]),
                families::dense(&g, &s, &[3]),
                families::dense(&g, &s, &[4]),
            ] {
                println!("{}: {}", f.name, f.len());
            }
        }
        "explore" => {
            let k: usize = args[2].parse().unwrap();
            let mask: u32 = if args[3] == "all" { !0 & !(1 << 9) } else { args[3].split(',').map(|x| 1u32 << x.parse::<u32>().unwrap()).sum() };
            let comments = args[4].contains('c');
            let mut singles = prog::PLAIN.to_vec();
            if args[4].contains('1') { singles = vec!["\n"]; }
            if comments {
                singles.extend_from_slice(prog::COMMENTED);
            }
            let plan = engine::Plan {
                singles: if args[4].contains('b') { vec![] } else { singles },
                pairs: if args[4].contains('x') { prog::PAIRS.to_vec() } else { vec![] },
                own: true,
                lines: true,
                first: if comments { prog::FIRST } else { prog::PLAIN_FIRST },
                last: if comments { prog::LAST } else { prog::PLAIN_LAST },
                margin: 1,
                pair_window: 30,
                subset_window: if args[4].contains('s') { 10 } else { 0 },
                horizontal: mask & (1 << 9) != 0,
                hsingles: false,
                periodic: vec![],
                period: 0,
            };
            let t = std::time::Instant::now();
            let plan = &plan;
            let arg = args.get(6).map_or("edges", |x| x);
            let fam = match arg {
                "edges" | "spell" => families::edges(&g, &s, 0, k, &[false, true]),
                "files" => families::files(&g, 0, k),
                "lists" => families::lists(&g, &s, &(0..k).collect::<Vec<_>>()),
                "pairs" => families::pairs(&g, &s, k),
                "nests" => families::nests(&g, &s, &(1..=k).collect::<Vec<_>>()),
                "crossings" => families::crossings(&g, &s, k > 0),
                _ => panic!(),
            };
            println!("{} programs {:?}", fam.len(), t.elapsed());
            let mut st = engine::Stats::new();
            st.max_viols = args.get(5).map_or(5, |x| x.parse().unwrap());
            if arg == "spell" { engine::spellings(&st, &g, &s, &fam, plan, mask) } else { engine::explore(&st, &g, &s, &fam, plan, mask) };
            println!("states {:?} accepted {:?} compared {:?} {:?}", st.states, st.accepted, st.compared, t.elapsed());
            let vs = st.viols.lock().unwrap();
            let mut by = std::collections::BTreeMap::new();
            for v in vs.iter() {
                *by.entry(v.prop).or_insert(0) += 1;
            }
            println!("violations {by:?}");
            let mut shown = std::collections::HashMap::new();
            for v in vs.iter() {
                let c = shown.entry(v.prop).or_insert(0);
                *c += 1;
                if *c <= 2 {
                    println!("== C{:02}\n{}\n== input {:?}\n{}", v.prop, v.detail, v.input, v.input);
                }
            }
        }
        _ => panic!(),
    }
}
