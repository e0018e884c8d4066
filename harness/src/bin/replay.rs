//! Runs one harness natively on recorded inputs.
//! usage: replay FILE; exit 0 held, 1 violated, 4 assumption not met, 5 diverged
#[cfg(feature = "replay")]
fn main() {
    use harness::sym::api::R;
    let f = std::env::args().nth(1).expect("file");
    let t = std::fs::read_to_string(&f).expect("read");
    let mut entry = String::new();
    R.with(|r| {
        let mut r = r.borrow_mut();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "entry" => entry = p[1].into(),
                "param" => {
                    r.params.insert(p[1].into(), p[2].parse().unwrap());
                }
                "i" => {
                    if p[4] == "0" {
                        r.vals.push_back((p[1].into(), u64::from_str_radix(p[3], 16).unwrap()))
                    }
                }
                _ => {}
            }
        }
    });
    std::panic::set_hook(Box::new(|i| {
        let ok = R.with(|r| r.try_borrow().map_or(false, |r| r.panic_ok));
        println!("{} {}", if ok { "expected panic:" } else { "REPLAY panic:" }, i);
        std::process::exit(if ok { 0 } else { 1 });
    }));
    let e = harness::ENTRIES.iter().find(|e| e.0 == entry).expect("entry");
    (e.1)();
    println!("REPLAY held");
}
#[cfg(not(feature = "replay"))]
fn main() {}
