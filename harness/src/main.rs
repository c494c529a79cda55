mod circ;
mod garb;
mod math;
mod net;
mod progs;
mod proto;
mod share;
mod sim;
mod util;
use util::*;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_PANICS").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let av: Vec<String> = std::env::args().collect();
    let name = av[1].clone();
    let mut a = Args {
        seed: 1,
        thorough: false,
        input: None,
        out: Out { dir: ".".into(), name: name.clone(), k: 0 },
        scratch: "".into(),
        extra: Vec::new(),
    };
    let mut i = 2;
    while i < av.len() {
        match av[i].as_str() {
            "--seed" => a.seed = av[i + 1].parse().unwrap(),
            "--tier" => a.thorough = av[i + 1] == "thorough",
            "--in" => a.input = Some(av[i + 1].clone()),
            "--out" => a.out.dir = av[i + 1].clone(),
            "--scratch" => a.scratch = av[i + 1].clone(),
            _ => a.extra.push(av[i + 1].clone()),
        }
        i += 2;
    }
    match name.as_str() {
        "traffic" => net::traffic(a),
        "replay" => net::replay(a),
        "mesh" => net::mesh(a),
        "collect" => net::collect(a),
        "barrier" => net::barrier(a),
        "ids" => net::ids(a),
        "k01" => circ::k01(a),
        "k02" => circ::k02(a),
        "p01" => proto::p01(a),
        "p02" => proto::p02(a),
        "p03" => proto::p03(a),
        "p04" => proto::p04(a),
        "r01" => proto::r01(a),
        "r02" => proto::r02(a),
        "r03" => garb::r03(a),
        "r04" => garb::r04(a),
        "g01" => garb::g01(a),
        "g02" => garb::g02(a),
        "g03" => garb::g03(a),
        "g04" => garb::g04(a),
        "e01" => garb::e01(a),
        "p03g" => garb::p03g(a),
        "p05" => proto::p05(a),
        "p05g" => garb::p05g(a),
        "p04g" => garb::p04g(a),
        "p04p" => garb::p04p(a),
        "store" => garb::store(a),
        "b01" => progs::b01(a),
        "b02" => progs::b02(a),
        "s01" => share::s01(a),
        "s02" => share::s02(a),
        "s03" => share::s03(a),
        "s04" => share::s04(a),
        "field" => math::field(a),
        "codec" => math::codec(&mut a),
        "sample" => math::sample(a),
        "interp" => math::interp(a),
        "matrices" => math::matrices(a),
        "binary" => math::binary(a),
        x => {
            eprintln!("unknown scenario {}", x);
            std::process::exit(2);
        }
    }
}
