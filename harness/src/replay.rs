//! Native replay: each stdin line is `<entry> <hex input>`; prints one JSON line per run.
use irh::rt::imp::{AssumeFailed, Rec, R};
use std::io::{BufRead, Write};
use std::sync::Mutex;

static MSG: Mutex<String> = Mutex::new(String::new());
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *MSG.lock().unwrap() = format!("{} {}", l, m);
    }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap();
    h.join().unwrap();
}
fn run() {
    let ents = irh::entries();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n,
            None => continue,
        };
        let hex = it.next().unwrap_or("");
        let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = match ents.iter().find(|(n, _)| *n == name) {
            Some((_, f)) => *f,
            None => {
                println!("{{\"status\":\"no-entry\"}}");
                continue;
            }
        };
        R.with(|r| *r.borrow_mut() = Rec { input, ..Default::default() });
        MSG.lock().unwrap().clear();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let status = match &res {
            Ok(()) => "ok",
            Err(p) if p.downcast_ref::<AssumeFailed>().is_some() => "assume",
            Err(_) => "panic",
        };
        let msg = MSG.lock().unwrap().clone();
        R.with(|r| {
            let r = r.borrow();
            println!(
                "{{\"status\":{},\"msg\":{},\"expect_panic\":{},\"short\":{},\"used\":{},\"failed\":[{}],\"covers\":[{}],\"obs\":[{}]}}",
                js(status),
                js(&msg),
                r.expect_panic,
                r.short,
                r.pos,
                r.failed.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                r.covers.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                r.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            );
        });
        std::io::stdout().flush().unwrap();
    }
}
