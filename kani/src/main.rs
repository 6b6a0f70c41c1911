use kanih::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = HARNESSES.iter().find(|h| h.0 == a[1]).expect("harness").1;
    for l in std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.starts_with('#')) {
        let v = l.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
        src::VALS.with(|q| q.borrow_mut().push_back(v));
    }
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<src::AssumptionFalse>().is_none() {
            println!("{i}")
        }
    }));
    match std::panic::catch_unwind(f) {
        Ok(()) => println!("OK"),
        Err(e) if e.is::<src::AssumptionFalse>() => std::process::exit(2),
        Err(_) => {
            println!("FAILED");
            std::process::exit(1)
        }
    }
}
