#![allow(dead_code)]
#[macro_use]
mod fw;
#[macro_use]
mod gen;
mod field;
#[macro_use]
mod curve;
mod circ;
mod poly;
mod proto;
mod gate;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(10);
    let thorough = a.get(4).map(|x| x == "thorough").unwrap_or(false);
    let mut v = vec![];
    match prop.as_str() {
        "C01" => field::c01(&mut v),
        "C02" => field::c02(&mut v),
        "C03" => field::c03(&mut v),
        "C04" => field::c04(&mut v),
        "C05" => field::c05(&mut v),
        "C06" => field::c06(&mut v),
        "C07" => curve::c07(&mut v),
        "C08" => curve::c08(&mut v),
        "C09" => curve::c09(&mut v),
        "C10" => curve::c10(&mut v),
        "C11" => curve::c11(&mut v),
        "C17" => gate::c17(&mut v),
        "C18" => gate::c18(&mut v),
        "C19" => gate::c19(&mut v),
        "C20" => gate::c20(&mut v),
        "C28" => circ::c28(&mut v),
        "C29" => circ::c29(&mut v),
        "C30" => circ::c30(&mut v),
        "C31" => circ::c31(&mut v),
        "C12" => poly::c12(&mut v),
        "C13" => poly::c13(&mut v),
        "C14" => poly::c14(&mut v),
        "C15" => poly::c15(&mut v),
        "C16" => poly::c16(&mut v),
        "C21" => proto::c21(&mut v),
        "C22" => proto::c22(&mut v),
        "C23" => proto::c23(&mut v),
        "C24" => proto::c24(&mut v),
        "C25" => proto::c25(&mut v),
        "C26" => proto::c26(&mut v),
        "C27" => proto::c27(&mut v),
        "C32" => proto::c32(&mut v),
        "C33" => proto::c33(&mut v),
        "C34" => poly::c34(&mut v),
        "C35" => poly::c35(&mut v),
        _ => { println!("NOTE no replay contracts for {}", prop); }
    }
    if let (Some(name), Some(it)) = (a.get(5), a.get(6)) {
        std::panic::set_hook(Box::new(|_| {}));
        for c in &v { if &c.name == name { println!("{:?}", fw::run_one(c, seed, it.parse().unwrap())); } }
        return;
    }
    let _ = thorough;
    std::process::exit(fw::run(v, seed, secs, 4));
}
