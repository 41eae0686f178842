// replay HARNESS --param k=v ... --labels a,b,c --true b0,b3,c1_0
extern crate gbharness;
mod table;
use gbharness::gb;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    gb::M.with(|m| {
        let mut m = m.borrow_mut();
        let mut i = 2;
        while i + 1 < a.len() {
            let v = &a[i + 1];
            match a[i].as_str() {
                "--param" => {
                    let (k, x) = v.split_once('=').unwrap();
                    m.params.insert(k.parse().unwrap(), x.parse().unwrap());
                }
                "--labels" => m.labels = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
                "--true" => m.vars = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
                x => panic!("option {}", x),
            }
            i += 2;
        }
    });
    let r = std::panic::catch_unwind(|| table::dispatch(&a[1]));
    if r.is_err() {
        println!("PANIC");
        std::process::exit(3);
    }
    println!("DONE");
}
