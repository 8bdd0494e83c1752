mod annodrv;
mod aqldrv;
mod common;
mod corpus;
mod corpusdrv;
mod exportdrv;
mod graphdrv;
mod mapdrv;
mod reldrv;
mod shim;
mod storagedrv;
mod storedrv;
mod webdrv;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args = Args::parse(&a[2..]);
    // panics of the code under test are data; keep stderr short
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
    let r = match a[1].as_str() {
        "aql" => aqldrv::run(&args),
        "anno" => annodrv::run(&args),
        "corpus" => corpusdrv::run(&args),
        "export" => exportdrv::run(&args),
        "graph" => graphdrv::run(&args),
        "map" => mapdrv::run(&args),
        "rel" => reldrv::run(&args),
        "store" => storedrv::run(&args),
        "storage" => storagedrv::run(&args),
        "web" => webdrv::run(&args),
        x => {
            eprintln!("unknown driver {x}");
            std::process::exit(2)
        }
    };
    if let Err(e) = r {
        eprintln!("driver failed: {e}");
        std::process::exit(2);
    }
}
