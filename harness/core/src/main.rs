// jh exec IN OUT   each line of IN is a case; writes the case with "obs" added
// jh cmp IN        each line of IN has a case "in" and its expectation "exp"; reports the first differences
use jhl::types;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "types" {
        let cx = types::registry();
        let mut v: Vec<&String> = cx.keys().collect();
        v.sort();
        for k in v { println!("{}", k); }
        let _ = cx.values().map(|e| &e.ty).count();
        return;
    }
    if args[1] == "deep" {
        // jh deep KIND DEPTH: parse, print and drop a deeply nested text on a stack of 2 MB
        let (kind, n): (&str, usize) = (&args[2], args[3].parse().unwrap());
        let txt = match kind {
            "array" => format!("{}{}", "[".repeat(n), "]".repeat(n)),
            "object" => format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)),
            "open" => "[".repeat(n),
            _ => format!("{}{}", "[{\"a\":".repeat(n), "}]".repeat(n - 1)),
        };
        let good = kind == "array" || kind == "object";
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            match json::Json::parse(&txt) {
                Ok(v) => v.to_string().len() == txt.len() + if txt.starts_with('{') { txt.matches(':').count() } else { 0 },
                Err(_) => false,
            }
        }).unwrap();
        match h.join() {
            Ok(r) => println!("DEEP {}", r == good),
            Err(_) => println!("DEEP panic"),
        }
        return;
    }
    jhl::main_with(types::registry);
}
