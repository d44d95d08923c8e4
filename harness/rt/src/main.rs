//! Native replay: `replay FILE` where each line of FILE is `entry p1,p2 hexbytes`.
//! Prints one line per case: `ok|assumed|check:<label>|panic:<msg>` TAB reached labels.
use rt::sym::ext;
use std::panic;
fn main() {
    let f = std::env::args().nth(1).expect("usage: replay FILE");
    panic::set_hook(Box::new(|_| {}));
    for line in std::fs::read_to_string(f).unwrap().lines() {
        let mut it = line.split(' ');
        let entry = it.next().unwrap().to_string();
        let params: Vec<u64> = it.next().unwrap_or("").split(',').filter_map(|p| p.parse().ok()).collect();
        let hex = it.next().unwrap_or("").to_string();
        let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = rt::entries().into_iter().find(|e| e.0 == entry).unwrap_or_else(|| panic!("no entry {entry}")).1;
        // a thread of its own for each case: fresh thread-locals
        let t = std::thread::spawn(move || {
            ext::ST.with(|s| *s.borrow_mut() = ext::State { bytes, params, ..Default::default() });
            let r = panic::catch_unwind(f);
            ext::ST.with(|s| {
                let s = s.borrow();
                let verdict = match r {
                    _ if s.assumed_away => "assumed".to_string(),
                    Err(e) => {
                        let m = if let Some(m) = e.downcast_ref::<&str>() { m.to_string() } else if let Some(m) = e.downcast_ref::<String>() { m.clone() } else { "?".into() };
                        format!("panic:{}", m.replace(['\n', '\t'], " "))
                    }
                    Ok(()) if !s.failed.is_empty() => format!("check:{}", s.failed[0]),
                    Ok(()) => "ok".to_string(),
                };
                println!("{}\t{}", verdict, s.reach.join(","));
            });
        });
        t.join().unwrap();
    }
}
