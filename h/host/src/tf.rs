//! Single-instruction scheduler: several contexts in one OS thread, advanced one machine
//! instruction at a time through the trap flag; a generated schedule says who runs how long.
use std::cell::UnsafeCell;
use std::ptr::addr_of_mut;

pub const MAXCTX: usize = 128;
const STACK: usize = 32 * 1024;
const FPMAX: usize = 16 * 1024;

#[cfg(target_arch = "x86_64")]
mod r {
    pub const IP: usize = libc::REG_RIP as usize;
    pub const SP: usize = libc::REG_RSP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
    pub const A0: usize = libc::REG_RDI as usize;
}
#[cfg(target_arch = "x86")]
mod r {
    pub const IP: usize = libc::REG_EIP as usize;
    pub const SP: usize = libc::REG_ESP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
}
const TF: i64 = 0x100;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Seg {
    pub tid: u8,
    pub steps: u32,
}

struct Ctx {
    gregs: libc::mcontext_t,
    fp: Box<[u8; FPMAX]>,
    fplen: usize,
    started: bool,
    done: bool,
    steps: u64,
    stack: Box<[u8; STACK]>,
}
pub struct Sched {
    ctx: Vec<Ctx>,
    main: libc::mcontext_t,
    mainfp: Box<[u8; FPMAX]>,
    n: usize,
    running: usize, // MAXCTX: main
    segs: Vec<Seg>,
    at: usize,
    left: u32,
    quantum: u32,
    rr: usize,
    pub clock: u64,
    pub limit: u64,
    pub outcome: Outcome,
    /// Contexts that are frozen for good once their scripted segments are over; the others must finish.
    pub frozen: u32,
    pub switches: u64,
    pub mid_switches: u64,
    pub trace: Option<Vec<(u8, usize)>>,
    /// The running context is not traced: it runs to its end, or until the timer finds it spinning.
    free: bool,
    ticks: u32,
    pub patience: u32,
    pub free_runs: u64,
}
/// A segment at least this long runs untraced.
pub const WHOLE: u32 = 4000;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    /// the step limit was reached with this context unfinished
    Stuck(usize),
}
pub struct Cell<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
static mut S: *mut Sched = std::ptr::null_mut();
/// Number of instructions executed so far; contexts read it to time their calls.
pub static mut CLOCK: u64 = 0;
pub fn now() -> u64 {
    unsafe { std::ptr::read_volatile(addr_of_mut!(CLOCK)) }
}
static mut BODY: Option<fn(usize)> = None;
/// Sees a traced context just before each of its instructions, and may act in its place.
pub static mut HOOK: Option<unsafe fn(usize, &mut libc::mcontext_t)> = None;
/// Nothing runs untraced.
pub static mut ALL_TRACED: bool = false;
pub const IP: usize = r::IP;

extern "C" fn entry(id: usize) -> ! {
    unsafe {
        (*addr_of_mut!(BODY)).unwrap()(id);
        let s = &mut *S;
        std::ptr::write_volatile(&mut s.ctx[id].done, true);
        // hands over also when this context runs without the trap flag
        core::arch::asm!("int3");
    }
    loop {
        std::hint::spin_loop();
    }
}
unsafe fn fpinfo(m: &libc::mcontext_t) -> (*mut u8, usize) {
    let p = m.fpregs as *mut u8;
    if p.is_null() {
        return (p, 0);
    }
    #[cfg(target_arch = "x86_64")]
    let (base, min) = (0usize, 512usize);
    #[cfg(target_arch = "x86")]
    let (base, min) = (112usize, 112 + 512usize);
    let sw = p.add(base + 464) as *const u32;
    let len = if sw.read_unaligned() == 0x4650_5853 { sw.add(1).read_unaligned() as usize } else { min };
    assert!(len <= FPMAX);
    (p, len)
}
unsafe fn copy_regs(dst: &mut libc::mcontext_t, src: &libc::mcontext_t) {
    dst.gregs = src.gregs;
}

impl Sched {
    unsafe fn save(&mut self, m: &libc::mcontext_t) {
        let (p, len) = fpinfo(m);
        if self.running == MAXCTX {
            copy_regs(&mut self.main, m);
            if len > 0 {
                std::ptr::copy_nonoverlapping(p, self.mainfp.as_mut_ptr(), len);
            }
        } else {
            let c = &mut self.ctx[self.running];
            copy_regs(&mut c.gregs, m);
            c.fplen = len;
            if len > 0 {
                std::ptr::copy_nonoverlapping(p, c.fp.as_mut_ptr(), len);
            }
        }
    }
    unsafe fn load(&mut self, id: usize, m: &mut libc::mcontext_t) {
        let (p, len) = fpinfo(m);
        if id == MAXCTX {
            copy_regs(m, &self.main);
            if len > 0 {
                std::ptr::copy_nonoverlapping(self.mainfp.as_ptr(), p, len);
            }
            m.gregs[r::FL] &= !TF as libc::greg_t;
        } else {
            let main = self.main;
            let c = &mut self.ctx[id];
            if !c.started {
                c.started = true;
                copy_regs(m, &main);
                let top = (c.stack.as_mut_ptr() as usize + STACK - 256) & !63;
                #[cfg(target_arch = "x86_64")]
                {
                    m.gregs[r::SP] = (top - 8) as _;
                    m.gregs[r::A0] = id as _;
                }
                #[cfg(target_arch = "x86")]
                {
                    // return address, argument
                    ((top - 20) as *mut usize).write(0);
                    ((top - 16) as *mut usize).write(id);
                    m.gregs[r::SP] = (top - 20) as _;
                }
                m.gregs[r::IP] = entry as *const () as usize as _;
                if len > 0 {
                    std::ptr::copy_nonoverlapping(self.mainfp.as_ptr(), p, len);
                }
            } else {
                copy_regs(m, &c.gregs);
                if len > 0 {
                    std::ptr::copy_nonoverlapping(c.fp.as_ptr(), p, len);
                }
            }
            if self.free {
                m.gregs[r::FL] &= !TF as libc::greg_t;
                self.free_runs += 1;
            } else {
                m.gregs[r::FL] |= TF as libc::greg_t;
            }
        }
        self.ticks = 0;
        self.running = id;
    }
    /// Who runs next and for how long.
    fn pick(&mut self) -> usize {
        self.free = false;
        while self.at < self.segs.len() {
            let s = self.segs[self.at];
            self.at += 1;
            let t = s.tid as usize;
            if t < self.n && !self.ctx[t].done && s.steps > 0 {
                self.left = s.steps;
                self.free = s.steps >= WHOLE && unsafe { !ALL_TRACED };
                return t;
            }
        }
        // the scripted part is over: fair turns until everything is finished
        for k in 0..self.n {
            let t = (self.rr + k) % self.n;
            if !self.ctx[t].done && !(t < 32 && self.frozen >> t & 1 != 0) {
                self.rr = t + 1;
                self.left = self.quantum;
                // nobody else is left to run: no need to watch it
                self.free = (0..self.n).filter(|&u| !self.ctx[u].done && !(u < 32 && self.frozen >> u & 1 != 0)).count() == 1 && unsafe { !ALL_TRACED };
                return t;
            }
        }
        if self.frozen != 0 {
            // everyone else has finished without the frozen ones: let those finish too
            self.frozen = 0;
            self.limit = self.clock + self.limit;
            return self.pick();
        }
        MAXCTX
    }
}

/// A context that runs untraced for long is spinning: trace it (its instructions then count).
extern "C" fn on_alarm(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        if S.is_null() {
            return;
        }
        let s = &mut *S;
        if s.running != MAXCTX && s.free {
            s.ticks += 1;
            if s.ticks >= s.patience {
                let m = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext;
                s.free = false;
                s.left = s.quantum;
                m.gregs[r::FL] |= TF as libc::greg_t;
            }
        }
    }
}
/// Also to be called in a forked child.
pub fn arm_timer() {
    unsafe {
        let t = libc::timeval { tv_sec: 0, tv_usec: 20_000 };
        let it = libc::itimerval { it_interval: t, it_value: t };
        libc::setitimer(libc::ITIMER_VIRTUAL, &it, std::ptr::null_mut());
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        sched(uc);
        if let Some(h) = HOOK {
            let s = &mut *S;
            if s.running != MAXCTX && !s.free {
                let m = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext;
                h(s.running, m);
            }
        }
    }
}
unsafe fn sched(uc: *mut libc::c_void) {
    {
        let s = &mut *S;
        let m = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext;
        if s.running != MAXCTX {
            s.clock += 1;
            CLOCK = s.clock;
            let t = s.running;
            s.ctx[t].steps += 1;
            s.left = s.left.saturating_sub(1);
            if let Some(tr) = s.trace.as_mut() {
                tr.push((t as u8, m.gregs[r::IP] as usize));
            }
            if s.free && !std::ptr::read_volatile(&s.ctx[t].done) {
                // a stray trap while untraced
                m.gregs[r::FL] &= !TF as libc::greg_t;
                return;
            }
            if s.clock > s.limit {
                s.outcome = Outcome::Stuck(t);
                s.save(m);
                s.load(MAXCTX, m);
                return;
            }
            if s.left > 0 && !std::ptr::read_volatile(&s.ctx[t].done) {
                return;
            }
        }
        let from = s.running;
        let fdone = from == MAXCTX || s.ctx[from].done;
        let next = s.pick();
        if next != from {
            s.switches += 1;
            if !fdone {
                s.mid_switches += 1;
            }
            s.save(m);
            s.load(next, m);
        }
    }
}

pub fn install() {
    unsafe {
        let sz = 256 * 1024;
        let st = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: sz };
        assert_eq!(libc::sigaltstack(&ss, std::ptr::null_mut()), 0);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaddset(&mut sa.sa_mask, libc::SIGVTALRM);
        assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
        sa.sa_sigaction = on_alarm as *const () as usize;
        sa.sa_flags |= libc::SA_RESTART;
        assert_eq!(libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut()), 0);
        arm_timer();
        let b: Box<Sched> = Box::new(Sched {
            ctx: (0..MAXCTX)
                .map(|_| Ctx {
                    gregs: std::mem::zeroed(),
                    fp: Box::new([0; FPMAX]),
                    fplen: 0,
                    started: false,
                    done: false,
                    steps: 0,
                    stack: vec![0u8; STACK].into_boxed_slice().try_into().unwrap(),
                })
                .collect(),
            main: std::mem::zeroed(),
            mainfp: Box::new([0; FPMAX]),
            n: 0,
            running: MAXCTX,
            segs: Vec::new(),
            at: 0,
            left: 0,
            quantum: 100,
            rr: 0,
            clock: 0,
            limit: 0,
            outcome: Outcome::Done,
            frozen: 0,
            switches: 0,
            mid_switches: 0,
            trace: None,
            free: false,
            ticks: 0,
            patience: 2,
            free_runs: 0,
        });
        S = Box::into_raw(b);
    }
}
#[derive(Clone, Debug)]
pub struct Report {
    pub outcome: Outcome,
    pub clock: u64,
    pub steps: [u64; MAXCTX],
    pub mid: u64,
    pub trace: Vec<(u8, usize)>,
}
/// How many 20 ms ticks an untraced context may run before it is traced.
pub fn patience(t: u32) {
    unsafe { (*S).patience = t }
}
/// Runs `body(0..n)` as contexts under the schedule. `frozen`: contexts that are not scheduled after
/// their segments until all the others are done. `limit`: instruction budget for everything.
pub fn run(n: usize, body: fn(usize), segs: &[Seg], quantum: u32, frozen: u32, limit: u64, trace: bool) -> Report {
    unsafe {
        let s = &mut *S;
        BODY = Some(body);
        s.n = n;
        s.running = MAXCTX;
        s.segs.clear();
        s.segs.extend_from_slice(segs);
        s.at = 0;
        s.left = 0;
        s.quantum = quantum;
        s.rr = 0;
        s.clock = 0;
        CLOCK = 0;
        s.limit = limit;
        s.outcome = Outcome::Done;
        s.frozen = frozen;
        s.switches = 0;
        s.mid_switches = 0;
        s.trace = if trace { Some(Vec::with_capacity(1 << 20)) } else { None };
        for c in s.ctx.iter_mut() {
            c.started = false;
            c.done = false;
            c.steps = 0;
        }
        (*S).free = false;
        go();
        let s = &mut *S;
        let mut steps = [0; MAXCTX];
        for i in 0..MAXCTX {
            steps[i] = s.ctx[i].steps;
        }
        Report { outcome: s.outcome, clock: s.clock, steps, mid: s.mid_switches, trace: s.trace.take().unwrap_or_default() }
    }
}
#[inline(never)]
unsafe fn go() {
    // The trap after the instruction that follows popf hands control to the schedule; it comes
    // back here, trap flag off, when everything is done.
    #[cfg(target_arch = "x86_64")]
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq", "nop", "nop");
    #[cfg(target_arch = "x86")]
    core::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd", "nop", "nop");
}
