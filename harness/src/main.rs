use harness::choices::Ch;
use harness::engine::{run, run_unjudged, Opts, Pool, Prop};
use harness::gen::{Gen, GENS};
use harness::meter::quiet_panics;
use harness::search::*;
use kit::{js, list, nums, short};
use std::collections::HashMap;
use std::fmt::Write as _;

#[global_allocator]
static A: harness::meter::Counting = harness::meter::Counting;

/// A case written out: the steps as executed.
fn written(p: Prop, g: Gen, c: &[u32]) -> String {
    let (r, case) = rerun(p, g, c, true);
    format!(
        "{{\"generator\": {}, \"choices\": {}, \"type\": {}, \"dirty\": {}, \"steps\": {}}}",
        js(g.name()),
        nums(c),
        js(&format!("{:?}", case.cap)),
        case.dirty,
        list(r.trace, |t| js(&short(&t)))
    )
}

fn install_logger() {
    #[cfg(feature = "logs")]
    kit::logger::install();
}

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut rest = vec![];
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                args.insert(k.to_owned(), it.next().unwrap_or_default());
            }
            None => rest.push(a),
        }
    }
    if cmd == "union" {
        let mut set = std::collections::HashSet::new();
        for f in &rest {
            let b = std::fs::read(f).expect("hash file");
            set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        println!("{}", set.len());
        return;
    }
    quiet_panics();
    if args.get("logger").map(|s| s == "1").unwrap_or(false) {
        install_logger();
    }
    let prop = Prop::parse(args.get("prop").map(|s| s.as_str()).unwrap_or("")).expect("--prop");
    let num = |k: &str, d: u64| args.get(k).map(|v| v.parse().expect("a number")).unwrap_or(d);
    let gen = || Gen::parse(&args["gen"]).expect("--gen");
    let choices = || -> Vec<u32> { args["choices"].split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().expect("choices")).collect() };
    match cmd.as_str() {
        "run" => {
            let plan = Plan {
                prop,
                seed: num("seed", 1),
                salt: num("salt", 0),
                small: args.get("small").and_then(|s| Gen::parse(s)),
                boundary: num("boundary", 100_000),
                history: num("history", 100_000),
                threads: num("threads", 8) as usize,
                digests: args.contains_key("digests"),
            };
            let slots = args.get("slots").map(|f| map_slots(f, plan.threads)).unwrap_or(Slots(std::ptr::null_mut(), 0));
            let (t, hit) = match args.get("note") {
                Some(f) => search_slowly(&plan, f, args.get("seconds").map_or(u64::MAX, |x| x.parse().expect("seconds")), args.contains_key("judged")),
                None => search(&plan, slots),
            };
            let mut o = String::from("{\n");
            write!(
                o,
                "\"cases\": {}, \"steps\": {}, \"nontrivial_cases\": {}, \"nontrivial_steps\": {}, \"distinct_nontrivial\": {},\n\"failed_ops\": {}, \"cut_ops\": {}, \"full_states\": {}, \"non_ascii_states\": {}, \"foreign_deviations\": {},\n",
                t.cases, t.steps, t.nontrivial_cases, t.nontrivial_steps, t.keys.len(), t.failed_ops, t.cut_ops, t.full_states, t.wide_states, t.foreign
            )
            .unwrap();
            write!(o, "\"by_generator\": {{{}}},\n", GENS.iter().map(|g| format!("{}: {}", js(g.name()), t.by_gen[g.id() as usize])).collect::<Vec<_>>().join(", ")).unwrap();
            write!(o, "\"rule\": {},\n", js(prop.rule())).unwrap();
            // two samples of each generator
            let mut picked: Vec<&(Gen, Vec<u32>)> = vec![];
            for g in GENS {
                picked.extend(t.samples.iter().filter(|s| s.0 == g).take(2));
            }
            write!(o, "\"samples\": {},\n", list(picked, |s| written(prop, s.0, &s.1))).unwrap();
            if let Some((g, c)) = &t.foreign_example {
                write!(o, "\"foreign_example\": {},\n", written(prop, *g, c)).unwrap();
            }
            match hit {
                None => o.push_str("\"finding\": null\n}\n"),
                Some(h) => {
                    let found = |d: &str, c: &[u32], case: String| {
                        format!(
                            "\"finding\": {{\"facet\": {}, \"detail\": {}, \"generator\": {}, \"choices\": {}, \"found_as\": {}, \"case\": {}}}\n}}\n",
                            js(&format!("{:?}", h.facet)), js(d), js(h.gen.name()), nums(c), nums(&h.choices), case
                        )
                    };
                    // on record first: a smaller case may take the process down
                    std::fs::write(&args["out"], format!("{}{}", o, found(&h.detail, &h.choices, "null".into()))).expect("result file");
                    let small = shrink(&h.choices, if cfg!(miri) { 60 } else { 4000 }, |v| rerun(prop, h.gen, v, false).0.finding.map_or(false, |f| f.facet == h.facet));
                    let d = rerun(prop, h.gen, &small, false).0.finding.map(|f| f.detail).unwrap_or(h.detail.clone());
                    o.push_str(&found(&d, &small, written(prop, h.gen, &small)));
                }
            }
            if let Some(f) = args.get("hashes") {
                let b: Vec<u8> = t.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
                std::fs::write(f, b).expect("hash file");
            }
            if let Some(f) = args.get("digests") {
                let mut d = String::new();
                for (g, b, x) in &t.digests {
                    writeln!(d, "{} {} {:016x}", GENS[*g as usize].name(), b, x).unwrap();
                }
                std::fs::write(f, d).expect("digest file");
            }
            std::fs::write(&args["out"], o).expect("result file");
        }
        // one case for an interpreter to judge
        "bare" => {
            let mut c = Ch::given(choices());
            let case = gen().case(&mut c, &prop.profile());
            run_unjudged(&mut Pool::default(), &case, &Opts { prop, trace: false, watch: true });
            println!("{{\"ran\": true}}");
        }
        // one case: prints it, exits 1 on a finding
        "one" => {
            let (r, _) = rerun_watched(prop, gen(), &choices(), true, args.contains_key("watch"));
            println!("{{\"case\": {}, \"digest\": \"{:016x}\", \"finding\": {}}}", written(prop, gen(), &choices()), r.digest, match &r.finding {
                None => "null".to_owned(),
                Some(f) => format!("{{\"facet\": {}, \"detail\": {}}}", js(&format!("{:?}", f.facet)), js(&f.detail)),
            });
            if r.finding.is_some() {
                std::process::exit(1);
            }
        }
        // the cases of one block with what was observed, for comparing builds
        "block" => {
            let plan = Plan { prop, seed: num("seed", 1), salt: num("salt", 0), small: None, boundary: 0, history: 0, threads: 1, digests: false };
            let profile = prop.profile();
            let (g, b) = (gen(), num("block", 0));
            let mut pool = Pool::default();
            let opts = Opts { prop, trace: false, watch: false };
            let mut emit = |c: &mut Ch| {
                let case = g.case(c, &profile);
                let r = run(&mut pool, &case, &opts);
                println!("{:016x} {}", r.digest, c.choices().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            };
            if matches!(g, Gen::Boundary | Gen::History) {
                let mut c = Ch::random(block_rng(&plan, g, b));
                for _ in 0..BLOCK {
                    c.again();
                    emit(&mut c);
                }
            } else {
                let items = prefixes(g, &profile, 4);
                let fixed = items[b as usize].len();
                let mut nx = Some(items[b as usize].clone());
                let mut c = Ch::given(vec![]);
                while let Some(v) = nx {
                    c.regive(&v);
                    emit(&mut c);
                    nx = harness::choices::next_odometer(&c.rec, fixed);
                }
            }
        }
        _ => {
            eprintln!("usage: harness run|one|block|union --prop Cnn ...");
            std::process::exit(2);
        }
    }
}
