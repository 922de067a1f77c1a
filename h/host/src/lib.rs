//! Hosted parts: crash reporting, argument parsing.
pub mod lin;
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
pub mod tf;
use std::sync::atomic::{AtomicU64, Ordering};

pub static CUR: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(sig: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let mut b = [0u8; 96];
    let s = {
        use std::io::Write;
        let mut c = std::io::Cursor::new(&mut b[..]);
        let _ = write!(c, "\nCRASH signal={} index={}\n", sig, CUR.load(Ordering::Relaxed));
        c.position() as usize
    };
    unsafe {
        libc::write(1, b.as_ptr().cast(), s);
        libc::_exit(70);
    }
}
/// Turns crashes of the code under test into a line the driver understands.
pub fn install_crash_handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGABRT] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        use std::io::Write;
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = writeln!(o, "\nCRASH panic={:?} index={}", i.to_string(), CUR.load(Ordering::Relaxed));
        let _ = o.flush();
        unsafe { libc::_exit(70) }
    }));
}
pub fn tick(i: u64) {
    CUR.store(i, Ordering::Relaxed);
}
/// `key=value` command line arguments.
pub struct Args(Vec<(String, String)>);
impl Args {
    pub fn get() -> Self {
        Args(
            std::env::args()
                .skip(1)
                .map(|a| match a.split_once('=') {
                    Some((k, v)) => (k.to_string(), v.to_string()),
                    None => (a, String::new()),
                })
                .collect(),
        )
    }
    pub fn s(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.s(k).map_or(d, |v| v.parse().expect("number"))
    }
    pub fn tys(&self, d: &[vcore::op::Ty]) -> Vec<vcore::op::Ty> {
        let v: Vec<_> = match self.s("types") {
            None => d.to_vec(),
            Some(s) => s.split(',').map(|t| vcore::op::Ty::parse(t).expect("type")).collect(),
        };
        v.into_iter().filter(|t| t.exists()).collect()
    }
}
pub struct Out;
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        use std::io::Write;
        std::io::stdout().write_all(s.as_bytes()).map_err(|_| std::fmt::Error)
    }
}
