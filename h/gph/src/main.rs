//! seed= from= count= first= progs= [loud=1]
#[path = "../../gp/lib.rs"]
mod gp;
use std::io::Write;
struct O;
impl std::fmt::Write for O {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _ = std::io::stdout().write_all(s.as_bytes());
        Ok(())
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let u = |k: &str, d: u64| a.iter().find_map(|w| w.split_once('=').filter(|x| x.0 == k).map(|x| x.1.parse().unwrap())).unwrap_or(d);
    let ok = gp::drive(u("seed", 1), u("from", 0), u("count", 1), u("first", 0) as usize, u("progs", 1 << 20) as usize, u("loud", 0) == 1, &mut O, &mut |_| {
        let _ = std::io::stdout().flush();
    });
    std::process::exit(!ok as i32)
}
