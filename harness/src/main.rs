mod alloc;
mod pbt;
mod props;
mod race;
#[allow(dead_code)]
mod sim;
mod stress;
#[allow(dead_code)]
mod uni;
use pbt::*;

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

fn known(verif: &str) -> Vec<KnownFinding> {
    // lines: "finding|<property>|<signature>|<what>" (other lines are prose or "fixed:" records)
    let txt = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let mut p = l.splitn(4, '|');
            if p.next()? != "finding" {
                return None;
            }
            Some(KnownFinding {
                property: p.next()?.to_string(),
                sig: p.next()?.to_string(),
                what: p.next()?.to_string(),
            })
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("KV_VERIF").unwrap_or_else(|_| "/verif".into());
    let all = props::all();
    let find = |id: &str| -> &'static Prop {
        all.iter().find(|p| p.id == id).copied().unwrap_or_else(|| {
            println!("unknown property {}", id);
            std::process::exit(2)
        })
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{}", p.id);
            }
        }
        Some("case") => {
            let p = find(&args[2]);
            std::process::exit(single_case(p, args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]));
        }
        Some(what @ ("check" | "child")) => {
            let p = find(&args[2]);
            let tier = std::env::var("VERIF_TIER")
                .ok()
                .or(args.get(3).cloned())
                .unwrap_or_else(|| "quick".into());
            let tier = args.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let code = if what == "check" {
                supervise(p, &tier, seed, &verif)
            } else {
                run_prop(p, &tier, seed, &known(&verif), &verif)
            };
            std::process::exit(code);
        }
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let id = txt.split("\"property\": \"").nth(1).unwrap().split('"').next().unwrap().to_string();
            let ch = txt.split("\"choices\": [").nth(1).unwrap().split(']').next().unwrap();
            let choices: Vec<u64> = ch.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            std::process::exit(replay(find(&id), &choices));
        }
        _ => {
            eprintln!("usage: kv list | check ID [tier] | replay FILE");
            std::process::exit(2);
        }
    }
}
