mod case;
mod check;
mod dict;
mod gen;
mod props;
mod rng;
mod run;
mod shm;
mod tree;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let home = check::home();
    let find = |id: &str| props.iter().position(|p| p.id == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => match args.get(2).and_then(|i| find(i)) {
            Some(i) => check::check(&home, &props[i]),
            None => {
                eprintln!("error: unknown property");
                2
            }
        },
        Some("replay") => check::replay(&home, &props, args.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("determinism") => {
            let n = args.get(2).and_then(|n| n.parse().ok()).unwrap_or(200);
            match args.get(3).and_then(|i| find(i)) {
                Some(i) => check::determinism(&home, &props[i..i + 1], n),
                None => check::determinism(&home, &props, n),
            }
        }
        Some("show") => {
            let i = args.get(2).and_then(|i| find(i)).expect("property");
            let n = args.get(3).and_then(|n| n.parse().ok()).unwrap_or(0);
            let c = check::case_of(&props[i], 1, n, false);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        _ => {
            eprintln!("usage: vsim check ID | replay FILE | determinism N [ID] | show ID N");
            2
        }
    };
    std::process::exit(code)
}
