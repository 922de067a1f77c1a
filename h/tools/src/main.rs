//! Drives a guest under qemu's gdb stub: stops it at every `gate`, steps a generated number of
//! instructions into the operation, delivers SIGUSR1 there, and lets it go on.
//! vtools bin= qemu=<cmd,arg,..> gate=<hex> hgate=<hex> armed=<hex> key=<hex> seed= max= secs= input=<guest's command line> [ks=a.b.c]
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
}
enum Ev {
    Stop(u32),
    Gone,
    Timeout,
}
struct Gdb {
    s: UnixStream,
    buf: Vec<u8>,
    at: usize,
}
impl Gdb {
    fn byte(&mut self) -> Option<u8> {
        if self.at == self.buf.len() {
            self.buf.resize(512, 0);
            match self.s.read(&mut self.buf) {
                Ok(0) | Err(_) => {
                    self.buf.clear();
                    self.at = 0;
                    return None;
                }
                Ok(n) => {
                    self.buf.truncate(n);
                    self.at = 0;
                }
            }
        }
        self.at += 1;
        Some(self.buf[self.at - 1])
    }
    fn send(&mut self, p: &str) {
        let sum = p.bytes().fold(0u8, |a, b| a.wrapping_add(b));
        let _ = self.s.write_all(format!("${p}#{sum:02x}").as_bytes());
    }
    fn recv(&mut self) -> Option<String> {
        loop {
            if self.byte()? == b'$' {
                break;
            }
        }
        let mut v = vec![];
        loop {
            let b = self.byte()?;
            if b == b'#' {
                break;
            }
            v.push(b);
        }
        self.byte()?;
        self.byte()?;
        let _ = self.s.write_all(b"+");
        Some(String::from_utf8_lossy(&v).into_owned())
    }
    fn cmd(&mut self, p: &str) -> Option<String> {
        self.send(p);
        self.recv()
    }
    fn go(&mut self, p: &str) -> Ev {
        match self.cmd(p) {
            None => Ev::Timeout,
            Some(r) if r.starts_with('W') || r.starts_with('X') => Ev::Gone,
            Some(r) if r.starts_with('T') || r.starts_with('S') => Ev::Stop(u32::from_str_radix(&r[1..3], 16).unwrap_or(0)),
            Some(_) => Ev::Gone,
        }
    }
    fn mem(&mut self, a: u64, n: usize) -> Vec<u8> {
        let r = self.cmd(&format!("m{a:x},{n:x}")).unwrap_or_default();
        (0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
    }
}
/// The program counters of every case's operation, in order of their first execution.
fn trace(q: &[&str], bin: &str, input: &str, ranges: &str, gate: u64, gend: u64, tmp: &str) -> Vec<Vec<u64>> {
    let log = format!("{tmp}.log");
    let mut c = Command::new(q[0]);
    c.args(&q[1..]).args(["-one-insn-per-tb", "-d", "exec,nochain", "-dfilter", ranges, "-D", &log]).arg(bin).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut child = c.spawn().expect("qemu");
    child.stdin.take().unwrap().write_all(input.as_bytes()).unwrap();
    let _ = child.wait();
    let text = std::fs::read(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let mut out: Vec<Vec<u64>> = vec![];
    let mut on = false;
    let mut seen = std::collections::HashSet::new();
    for l in text.split(|b| *b == b'\n') {
        // Trace 0: 0x7f.. [cs_base/pc/flags/cflags] symbol
        let Some(i) = l.iter().position(|b| *b == b'[') else { continue };
        let mut f = l[i + 1..].split(|b| *b == b'/');
        f.next();
        let Some(pc) = f.next().and_then(|p| std::str::from_utf8(p).ok()).and_then(|p| u64::from_str_radix(p, 16).ok()) else { continue };
        if pc == gate {
            on = true;
            seen.clear();
            out.push(vec![]);
        } else if pc == gend {
            on = false;
        } else if on && seen.insert(pc) {
            out.last_mut().unwrap().push(pc);
        }
    }
    out
}
fn main() {
    let args: HashMap<String, String> = std::env::args().skip(1).filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    let hx = |k: &str| u64::from_str_radix(&args[k], 16).unwrap();
    let n = |k: &str, d: u64| args.get(k).map_or(d, |v| v.parse().unwrap());
    let (gate, gend, hgate, state) = (hx("gate") & !1, hx("gend") & !1, hx("hgate") & !1, hx("state"));
    let fixed: Option<Vec<u64>> = args.get("at").map(|s| s.split('.').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect());
    let tmp = format!("{}/vtools-{}", args.get("tmp").map_or("/tmp", |s| s), std::process::id());
    let sock = format!("{tmp}.sock");
    let q: Vec<&str> = args["qemu"].split(',').collect();
    let max = n("max", 1000);
    let (from, input) = (n("from", 0), format!("{} from={} count={}\n", args["input"], n("from", 0), max));
    let t0 = Instant::now();
    let pcs = trace(&q, &args["bin"], &input, &args["ranges"], gate, gend, &tmp);
    let mut c = Command::new(q[0]);
    c.args(&q[1..]).args(["-g", &sock]).arg(&args["bin"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut child = c.spawn().expect("qemu");
    child.stdin.take().unwrap().write_all(input.as_bytes()).unwrap();
    let mut out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = out.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let tc = Instant::now();
    let s = loop {
        match UnixStream::connect(&sock) {
            Ok(s) => break s,
            Err(_) if tc.elapsed() < Duration::from_secs(30) => std::thread::sleep(Duration::from_millis(2)),
            Err(e) => {
                println!("ERROR cannot connect: {e}");
                let _ = child.kill();
                std::process::exit(3)
            }
        }
    };
    let _ = std::fs::remove_file(&sock);
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    let mut g = Gdb { s, buf: vec![], at: 0 };
    g.cmd("qSupported");
    g.cmd("?");
    let kind = args.get("kind").map_or("4", |s| s).to_string();
    for a in [gate, hgate] {
        if g.cmd(&format!("Z0,{a:x},{kind}")).as_deref() != Some("OK") {
            println!("ERROR no breakpoint");
            let _ = child.kill();
            std::process::exit(3);
        }
    }
    let mut rng = Rng(n("seed", 1).wrapping_mul(0x9e3779b97f4a7c15) ^ from);
    let secs = n("secs", 30);
    let (mut cases, mut signals, mut hung, mut sig11) = (0u64, 0u64, false, 0);
    let mut at: Vec<u64> = vec![];
    let mut bp: Option<u64> = None;
    let mut last = vec![];
    let mut how = "c";
    let mut timeouts = false;
    'all: loop {
        match g.go(how) {
            Ev::Stop(5) => {}
            Ev::Stop(k) => {
                sig11 = k;
                break;
            }
            Ev::Gone => break,
            Ev::Timeout => {
                hung = true;
                break;
            }
        }
        how = "c";
        if let Some(p) = bp.take() {
            g.cmd(&format!("z0,{p:x},{kind}"));
        }
        let st = g.mem(state, 8);
        if st.len() < 8 {
            break;
        }
        if st[..4] == last[..] && st[4..].iter().all(|b| *b != 2) {
            // at the chosen instruction: now
            signals += 1;
            how = "C1e";
            continue;
        }
        let fresh = st[..4] != last[..];
        if fresh {
            if t0.elapsed().as_secs() >= secs {
                timeouts = true;
                break;
            }
            cases += 1;
            at.clear();
            last = st[..4].to_vec();
        }
        let list = pcs.get(cases as usize - 1).map_or(&[][..], |v| &v[..]);
        let want = match &fixed {
            Some(f) => f.get(at.len()).copied(),
            None if !fresh && (at.len() >= 3 || rng.below(2) == 0) => None,
            None if list.is_empty() => None,
            None => Some(list[rng.below(list.len() as u64) as usize]),
        };
        at.push(want.unwrap_or(0));
        // off the breakpoint we stand on
        match g.go("s") {
            Ev::Stop(5) => {}
            Ev::Timeout => {
                hung = true;
                break 'all;
            }
            _ => break 'all,
        }
        if let Some(p) = want.filter(|p| *p != 0) {
            if g.cmd(&format!("Z0,{p:x},{kind}")).as_deref() == Some("OK") {
                bp = Some(p);
            }
        }
    }
    if hung {
        println!("HUNG");
    }
    if timeouts || hung {
        let _ = child.kill();
    } else if sig11 != 0 {
        println!("SIGNAL {sig11}");
        let _ = child.kill();
    }
    drop(g);
    let st = child.wait();
    let o = reader.join().unwrap();
    print!("{o}");
    println!("\nAT {}", at.iter().map(|k| format!("{k:x}")).collect::<Vec<_>>().join("."));
    println!("DRIVER cases={cases} signals={signals} traced={} last={} status={:?}", pcs.len(), from + cases.max(1) - 1, st.ok().and_then(|s| s.code()));
}
