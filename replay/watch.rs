/// Reports a case that does not finish within the limit as a failing input, and ends the process.
mod watch {
    use std::sync::Mutex;
    static CASE: Mutex<Vec<(std::thread::ThreadId, String, std::time::Instant)>> = Mutex::new(vec![]);
    pub fn start(secs: u64) { std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (_, c, t) in &*CASE.lock().unwrap() { if t.elapsed().as_secs() >= secs { println!("FAIL\t{c}\tdoes not terminate: still running after {secs} s"); std::process::exit(0); } }
    }); }
    pub fn case(c: String) { done(); CASE.lock().unwrap().push((std::thread::current().id(), c, std::time::Instant::now())); }
    pub fn done() { let me = std::thread::current().id(); CASE.lock().unwrap().retain(|x| x.0 != me); }
}
