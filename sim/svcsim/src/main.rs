//! One simulated life of the caching/download/lookup services. `svcsim <family> <scenario.json> <life> <log>`
mod cachefam;
mod net;
mod svcfam;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (family, scn, life, logp) = (a[1].as_str(), a[2].as_str(), a[3].parse::<usize>().unwrap(), a[4].as_str());
    util::open_log(logp);
    util::panic_log();
    let scn: serde_json::Value = serde_json::from_slice(&std::fs::read(scn).unwrap()).unwrap();
    match family {
        "cache" => cachefam::run(scn, life),
        "svc" => svcfam::run(scn, life),
        f => panic!("family {f}"),
    }
    util::exit(0);
}
