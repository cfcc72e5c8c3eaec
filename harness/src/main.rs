mod engine;
mod guard;
mod props;
mod scenes;
mod small;
mod tree;
mod via;
mod wire;

use engine::*;

fn find(id: &str) -> Option<&'static Property> {
    props::ALL.iter().find(|p| p.id == id)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    };
    install_panic_hook();
    let code = match arg(1) {
        "check" => match find(arg(2)) {
            Some(p) => {
                let seed = std::env::var("VERIF_SEED")
                    .ok()
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(1);
                check(p, tier(arg(3)), seed)
            }
            None => {
                eprintln!("unknown property {}", arg(2));
                2
            }
        },
        "worker" => {
            let p = find(arg(2)).expect("property");
            worker(
                p,
                tier(arg(3)),
                arg(4).parse().expect("seed"),
                std::path::Path::new(arg(5)),
                arg(6).parse().expect("index"),
                arg(7).parse().expect("workers"),
                arg(8).parse().expect("seconds"),
            );
            0
        }
        "replay" => replay(arg(2), &find),
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> quick|thorough | mc replay <file> | mc list");
            2
        }
    };
    std::process::exit(code);
}
