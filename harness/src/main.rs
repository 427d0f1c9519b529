mod abuse;
mod badserver;
mod capacity;
mod client;
mod conn;
mod conv;
mod fw;
mod gen;
mod handlers;
mod huge;
mod io_mocks;
mod known;
mod lifecycle;
mod memory;
mod parsing;
#[cfg(wruster_verif)]
mod pool;
mod programs;
mod refhttp;
mod room;
mod routing;
mod srv;
mod tables;
mod threads;
mod timing;
mod tls;
#[cfg(wruster_verif)]
mod tracking;
mod writing;

#[global_allocator]
static ALLOCATOR: memory::Counting = memory::Counting;

fn property(id: &str) -> Option<fw::Property> {
    Some(match id {
        "C01" => parsing::c01(),
        "C02" => parsing::c02(),
        "C03" => parsing::c03(),
        "C04" => parsing::c04(),
        "C05" => writing::c05(),
        "C06" => parsing::c06(),
        "C07" => tables::c07(),
        "C08" => routing::c08(),
        "C09" => routing::c09(),
        "C10" => conv::c10(),
        "C11" => abuse::c11(),
        "C12" => capacity::c12(),
        "C13" => timing::c13(),
        "C14" => lifecycle::c14(),
        "C15" => handlers::c15(),
        "C16" => capacity::c16(),
        "C17" => client::c17(),
        "C18" => client::c18(),
        "C19" => tls::c19(),
        "C20" => abuse::c20(),
        "C21" => handlers::c21(),
        "C22" => handlers::c22(),
        "C23" => tls::c23(),
        "C24" => conv::c24(),
        "C25" => memory::c25(),
        "C26" => programs::c26(),
        "C27" => badserver::c27(),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => match property(&a[2]) {
            Some(p) => fw::run_main(p),
            None => {
                eprintln!("unknown property {}", a[2]);
                2
            }
        },
        Some("worker") => {
            let p = property(&a[2]).unwrap();
            fw::worker_main(&p, &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6], a.get(7).is_some())
        }
        Some("limited") => threads::child(&a[2..]),
        Some("replay") => fw::replay_main(&property, &a[2]),
        _ => {
            eprintln!("usage: vh run <property> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
