//! Native replay of a solver counterexample: `replay HARNESS HEX,HEX,...`
//! Exit 0: the harness passes on these values. 3: it fails (reproduced).
//! 5: the code needs an operation the harness's number type does not have.
//! 4: the values do not satisfy the harness's assumptions.
#[cfg(not(kani))]
use vk::sym;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    let vals: Vec<Vec<u8>> = a
        .get(2)
        .map(|s| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
                .collect()
        })
        .unwrap_or_default();
    let f = vk::table().into_iter().find(|(n, _)| n == name).expect("no such harness").1;
    #[cfg(not(kani))]
    {
        sym::Q.with(|q| q.borrow_mut().extend(vals));
        match std::panic::catch_unwind(f) {
            Ok(()) => println!("PASS"),
            Err(e) if e.is::<sym::AssumeFailed>() => {
                println!("ASSUME");
                std::process::exit(4)
            }
            Err(e)
                if e.downcast_ref::<String>().map(String::as_str).or_else(|| e.downcast_ref::<&str>().copied()).is_some_and(|m| m.starts_with("unsupported")) =>
            {
                println!("UNSUPPORTED");
                std::process::exit(5)
            }
            Err(_) => {
                println!("FAIL");
                std::process::exit(3)
            }
        }
    }
    #[cfg(kani)]
    {
        let _ = (vals, f);
    }
}
