// written by gen.py
struct Q<'a>(&'a dyn Pointer);
impl Pointer for Q<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
use std::fmt::{Debug, Pointer, Write};
pub type D = fn(&mut dyn Write, &dyn Debug, usize, usize) -> std::fmt::Result;
pub type P = fn(&mut dyn Write, &dyn Pointer, usize, usize) -> std::fmt::Result;
pub static DEBUG: [(&str, D); 1008] = [
    ("?", |o, x, _, _| write!(o, "{:?}", x)),
    ("x?", |o, x, _, _| write!(o, "{:x?}", x)),
    ("X?", |o, x, _, _| write!(o, "{:X?}", x)),
    (".p$?", |o, x, _, p| write!(o, "{:.p$?}", x, p = p)),
    (".p$x?", |o, x, _, p| write!(o, "{:.p$x?}", x, p = p)),
    (".p$X?", |o, x, _, p| write!(o, "{:.p$X?}", x, p = p)),
    ("w$?", |o, x, w, _| write!(o, "{:w$?}", x, w = w)),
    ("w$x?", |o, x, w, _| write!(o, "{:w$x?}", x, w = w)),
    ("w$X?", |o, x, w, _| write!(o, "{:w$X?}", x, w = w)),
    ("w$.p$?", |o, x, w, p| write!(o, "{:w$.p$?}", x, w = w, p = p)),
    ("w$.p$x?", |o, x, w, p| write!(o, "{:w$.p$x?}", x, w = w, p = p)),
    ("w$.p$X?", |o, x, w, p| write!(o, "{:w$.p$X?}", x, w = w, p = p)),
    ("0?", |o, x, _, _| write!(o, "{:0?}", x)),
    ("0x?", |o, x, _, _| write!(o, "{:0x?}", x)),
    ("0X?", |o, x, _, _| write!(o, "{:0X?}", x)),
    ("0.p$?", |o, x, _, p| write!(o, "{:0.p$?}", x, p = p)),
    ("0.p$x?", |o, x, _, p| write!(o, "{:0.p$x?}", x, p = p)),
    ("0.p$X?", |o, x, _, p| write!(o, "{:0.p$X?}", x, p = p)),
    ("0w$?", |o, x, w, _| write!(o, "{:0w$?}", x, w = w)),
    ("0w$x?", |o, x, w, _| write!(o, "{:0w$x?}", x, w = w)),
    ("0w$X?", |o, x, w, _| write!(o, "{:0w$X?}", x, w = w)),
    ("0w$.p$?", |o, x, w, p| write!(o, "{:0w$.p$?}", x, w = w, p = p)),
    ("0w$.p$x?", |o, x, w, p| write!(o, "{:0w$.p$x?}", x, w = w, p = p)),
    ("0w$.p$X?", |o, x, w, p| write!(o, "{:0w$.p$X?}", x, w = w, p = p)),
    ("#?", |o, x, _, _| write!(o, "{:#?}", x)),
    ("#x?", |o, x, _, _| write!(o, "{:#x?}", x)),
    ("#X?", |o, x, _, _| write!(o, "{:#X?}", x)),
    ("#.p$?", |o, x, _, p| write!(o, "{:#.p$?}", x, p = p)),
    ("#.p$x?", |o, x, _, p| write!(o, "{:#.p$x?}", x, p = p)),
    ("#.p$X?", |o, x, _, p| write!(o, "{:#.p$X?}", x, p = p)),
    ("#w$?", |o, x, w, _| write!(o, "{:#w$?}", x, w = w)),
    ("#w$x?", |o, x, w, _| write!(o, "{:#w$x?}", x, w = w)),
    ("#w$X?", |o, x, w, _| write!(o, "{:#w$X?}", x, w = w)),
    ("#w$.p$?", |o, x, w, p| write!(o, "{:#w$.p$?}", x, w = w, p = p)),
    ("#w$.p$x?", |o, x, w, p| write!(o, "{:#w$.p$x?}", x, w = w, p = p)),
    ("#w$.p$X?", |o, x, w, p| write!(o, "{:#w$.p$X?}", x, w = w, p = p)),
    ("#0?", |o, x, _, _| write!(o, "{:#0?}", x)),
    ("#0x?", |o, x, _, _| write!(o, "{:#0x?}", x)),
    ("#0X?", |o, x, _, _| write!(o, "{:#0X?}", x)),
    ("#0.p$?", |o, x, _, p| write!(o, "{:#0.p$?}", x, p = p)),
    ("#0.p$x?", |o, x, _, p| write!(o, "{:#0.p$x?}", x, p = p)),
    ("#0.p$X?", |o, x, _, p| write!(o, "{:#0.p$X?}", x, p = p)),
    ("#0w$?", |o, x, w, _| write!(o, "{:#0w$?}", x, w = w)),
    ("#0w$x?", |o, x, w, _| write!(o, "{:#0w$x?}", x, w = w)),
    ("#0w$X?", |o, x, w, _| write!(o, "{:#0w$X?}", x, w = w)),
    ("#0w$.p$?", |o, x, w, p| write!(o, "{:#0w$.p$?}", x, w = w, p = p)),
    ("#0w$.p$x?", |o, x, w, p| write!(o, "{:#0w$.p$x?}", x, w = w, p = p)),
    ("#0w$.p$X?", |o, x, w, p| write!(o, "{:#0w$.p$X?}", x, w = w, p = p)),
    ("+?", |o, x, _, _| write!(o, "{:+?}", x)),
    ("+x?", |o, x, _, _| write!(o, "{:+x?}", x)),
    ("+X?", |o, x, _, _| write!(o, "{:+X?}", x)),
    ("+.p$?", |o, x, _, p| write!(o, "{:+.p$?}", x, p = p)),
    ("+.p$x?", |o, x, _, p| write!(o, "{:+.p$x?}", x, p = p)),
    ("+.p$X?", |o, x, _, p| write!(o, "{:+.p$X?}", x, p = p)),
    ("+w$?", |o, x, w, _| write!(o, "{:+w$?}", x, w = w)),
    ("+w$x?", |o, x, w, _| write!(o, "{:+w$x?}", x, w = w)),
    ("+w$X?", |o, x, w, _| write!(o, "{:+w$X?}", x, w = w)),
    ("+w$.p$?", |o, x, w, p| write!(o, "{:+w$.p$?}", x, w = w, p = p)),
    ("+w$.p$x?", |o, x, w, p| write!(o, "{:+w$.p$x?}", x, w = w, p = p)),
    ("+w$.p$X?", |o, x, w, p| write!(o, "{:+w$.p$X?}", x, w = w, p = p)),
    ("+0?", |o, x, _, _| write!(o, "{:+0?}", x)),
    ("+0x?", |o, x, _, _| write!(o, "{:+0x?}", x)),
    ("+0X?", |o, x, _, _| write!(o, "{:+0X?}", x)),
    ("+0.p$?", |o, x, _, p| write!(o, "{:+0.p$?}", x, p = p)),
    ("+0.p$x?", |o, x, _, p| write!(o, "{:+0.p$x?}", x, p = p)),
    ("+0.p$X?", |o, x, _, p| write!(o, "{:+0.p$X?}", x, p = p)),
    ("+0w$?", |o, x, w, _| write!(o, "{:+0w$?}", x, w = w)),
    ("+0w$x?", |o, x, w, _| write!(o, "{:+0w$x?}", x, w = w)),
    ("+0w$X?", |o, x, w, _| write!(o, "{:+0w$X?}", x, w = w)),
    ("+0w$.p$?", |o, x, w, p| write!(o, "{:+0w$.p$?}", x, w = w, p = p)),
    ("+0w$.p$x?", |o, x, w, p| write!(o, "{:+0w$.p$x?}", x, w = w, p = p)),
    ("+0w$.p$X?", |o, x, w, p| write!(o, "{:+0w$.p$X?}", x, w = w, p = p)),
    ("+#?", |o, x, _, _| write!(o, "{:+#?}", x)),
    ("+#x?", |o, x, _, _| write!(o, "{:+#x?}", x)),
    ("+#X?", |o, x, _, _| write!(o, "{:+#X?}", x)),
    ("+#.p$?", |o, x, _, p| write!(o, "{:+#.p$?}", x, p = p)),
    ("+#.p$x?", |o, x, _, p| write!(o, "{:+#.p$x?}", x, p = p)),
    ("+#.p$X?", |o, x, _, p| write!(o, "{:+#.p$X?}", x, p = p)),
    ("+#w$?", |o, x, w, _| write!(o, "{:+#w$?}", x, w = w)),
    ("+#w$x?", |o, x, w, _| write!(o, "{:+#w$x?}", x, w = w)),
    ("+#w$X?", |o, x, w, _| write!(o, "{:+#w$X?}", x, w = w)),
    ("+#w$.p$?", |o, x, w, p| write!(o, "{:+#w$.p$?}", x, w = w, p = p)),
    ("+#w$.p$x?", |o, x, w, p| write!(o, "{:+#w$.p$x?}", x, w = w, p = p)),
    ("+#w$.p$X?", |o, x, w, p| write!(o, "{:+#w$.p$X?}", x, w = w, p = p)),
    ("+#0?", |o, x, _, _| write!(o, "{:+#0?}", x)),
    ("+#0x?", |o, x, _, _| write!(o, "{:+#0x?}", x)),
    ("+#0X?", |o, x, _, _| write!(o, "{:+#0X?}", x)),
    ("+#0.p$?", |o, x, _, p| write!(o, "{:+#0.p$?}", x, p = p)),
    ("+#0.p$x?", |o, x, _, p| write!(o, "{:+#0.p$x?}", x, p = p)),
    ("+#0.p$X?", |o, x, _, p| write!(o, "{:+#0.p$X?}", x, p = p)),
    ("+#0w$?", |o, x, w, _| write!(o, "{:+#0w$?}", x, w = w)),
    ("+#0w$x?", |o, x, w, _| write!(o, "{:+#0w$x?}", x, w = w)),
    ("+#0w$X?", |o, x, w, _| write!(o, "{:+#0w$X?}", x, w = w)),
    ("+#0w$.p$?", |o, x, w, p| write!(o, "{:+#0w$.p$?}", x, w = w, p = p)),
    ("+#0w$.p$x?", |o, x, w, p| write!(o, "{:+#0w$.p$x?}", x, w = w, p = p)),
    ("+#0w$.p$X?", |o, x, w, p| write!(o, "{:+#0w$.p$X?}", x, w = w, p = p)),
    ("-?", |o, x, _, _| write!(o, "{:-?}", x)),
    ("-x?", |o, x, _, _| write!(o, "{:-x?}", x)),
    ("-X?", |o, x, _, _| write!(o, "{:-X?}", x)),
    ("-.p$?", |o, x, _, p| write!(o, "{:-.p$?}", x, p = p)),
    ("-.p$x?", |o, x, _, p| write!(o, "{:-.p$x?}", x, p = p)),
    ("-.p$X?", |o, x, _, p| write!(o, "{:-.p$X?}", x, p = p)),
    ("-w$?", |o, x, w, _| write!(o, "{:-w$?}", x, w = w)),
    ("-w$x?", |o, x, w, _| write!(o, "{:-w$x?}", x, w = w)),
    ("-w$X?", |o, x, w, _| write!(o, "{:-w$X?}", x, w = w)),
    ("-w$.p$?", |o, x, w, p| write!(o, "{:-w$.p$?}", x, w = w, p = p)),
    ("-w$.p$x?", |o, x, w, p| write!(o, "{:-w$.p$x?}", x, w = w, p = p)),
    ("-w$.p$X?", |o, x, w, p| write!(o, "{:-w$.p$X?}", x, w = w, p = p)),
    ("-0?", |o, x, _, _| write!(o, "{:-0?}", x)),
    ("-0x?", |o, x, _, _| write!(o, "{:-0x?}", x)),
    ("-0X?", |o, x, _, _| write!(o, "{:-0X?}", x)),
    ("-0.p$?", |o, x, _, p| write!(o, "{:-0.p$?}", x, p = p)),
    ("-0.p$x?", |o, x, _, p| write!(o, "{:-0.p$x?}", x, p = p)),
    ("-0.p$X?", |o, x, _, p| write!(o, "{:-0.p$X?}", x, p = p)),
    ("-0w$?", |o, x, w, _| write!(o, "{:-0w$?}", x, w = w)),
    ("-0w$x?", |o, x, w, _| write!(o, "{:-0w$x?}", x, w = w)),
    ("-0w$X?", |o, x, w, _| write!(o, "{:-0w$X?}", x, w = w)),
    ("-0w$.p$?", |o, x, w, p| write!(o, "{:-0w$.p$?}", x, w = w, p = p)),
    ("-0w$.p$x?", |o, x, w, p| write!(o, "{:-0w$.p$x?}", x, w = w, p = p)),
    ("-0w$.p$X?", |o, x, w, p| write!(o, "{:-0w$.p$X?}", x, w = w, p = p)),
    ("-#?", |o, x, _, _| write!(o, "{:-#?}", x)),
    ("-#x?", |o, x, _, _| write!(o, "{:-#x?}", x)),
    ("-#X?", |o, x, _, _| write!(o, "{:-#X?}", x)),
    ("-#.p$?", |o, x, _, p| write!(o, "{:-#.p$?}", x, p = p)),
    ("-#.p$x?", |o, x, _, p| write!(o, "{:-#.p$x?}", x, p = p)),
    ("-#.p$X?", |o, x, _, p| write!(o, "{:-#.p$X?}", x, p = p)),
    ("-#w$?", |o, x, w, _| write!(o, "{:-#w$?}", x, w = w)),
    ("-#w$x?", |o, x, w, _| write!(o, "{:-#w$x?}", x, w = w)),
    ("-#w$X?", |o, x, w, _| write!(o, "{:-#w$X?}", x, w = w)),
    ("-#w$.p$?", |o, x, w, p| write!(o, "{:-#w$.p$?}", x, w = w, p = p)),
    ("-#w$.p$x?", |o, x, w, p| write!(o, "{:-#w$.p$x?}", x, w = w, p = p)),
    ("-#w$.p$X?", |o, x, w, p| write!(o, "{:-#w$.p$X?}", x, w = w, p = p)),
    ("-#0?", |o, x, _, _| write!(o, "{:-#0?}", x)),
    ("-#0x?", |o, x, _, _| write!(o, "{:-#0x?}", x)),
    ("-#0X?", |o, x, _, _| write!(o, "{:-#0X?}", x)),
    ("-#0.p$?", |o, x, _, p| write!(o, "{:-#0.p$?}", x, p = p)),
    ("-#0.p$x?", |o, x, _, p| write!(o, "{:-#0.p$x?}", x, p = p)),
    ("-#0.p$X?", |o, x, _, p| write!(o, "{:-#0.p$X?}", x, p = p)),
    ("-#0w$?", |o, x, w, _| write!(o, "{:-#0w$?}", x, w = w)),
    ("-#0w$x?", |o, x, w, _| write!(o, "{:-#0w$x?}", x, w = w)),
    ("-#0w$X?", |o, x, w, _| write!(o, "{:-#0w$X?}", x, w = w)),
    ("-#0w$.p$?", |o, x, w, p| write!(o, "{:-#0w$.p$?}", x, w = w, p = p)),
    ("-#0w$.p$x?", |o, x, w, p| write!(o, "{:-#0w$.p$x?}", x, w = w, p = p)),
    ("-#0w$.p$X?", |o, x, w, p| write!(o, "{:-#0w$.p$X?}", x, w = w, p = p)),
    ("<?", |o, x, _, _| write!(o, "{:<?}", x)),
    ("<x?", |o, x, _, _| write!(o, "{:<x?}", x)),
    ("<X?", |o, x, _, _| write!(o, "{:<X?}", x)),
    ("<.p$?", |o, x, _, p| write!(o, "{:<.p$?}", x, p = p)),
    ("<.p$x?", |o, x, _, p| write!(o, "{:<.p$x?}", x, p = p)),
    ("<.p$X?", |o, x, _, p| write!(o, "{:<.p$X?}", x, p = p)),
    ("<w$?", |o, x, w, _| write!(o, "{:<w$?}", x, w = w)),
    ("<w$x?", |o, x, w, _| write!(o, "{:<w$x?}", x, w = w)),
    ("<w$X?", |o, x, w, _| write!(o, "{:<w$X?}", x, w = w)),
    ("<w$.p$?", |o, x, w, p| write!(o, "{:<w$.p$?}", x, w = w, p = p)),
    ("<w$.p$x?", |o, x, w, p| write!(o, "{:<w$.p$x?}", x, w = w, p = p)),
    ("<w$.p$X?", |o, x, w, p| write!(o, "{:<w$.p$X?}", x, w = w, p = p)),
    ("<0?", |o, x, _, _| write!(o, "{:<0?}", x)),
    ("<0x?", |o, x, _, _| write!(o, "{:<0x?}", x)),
    ("<0X?", |o, x, _, _| write!(o, "{:<0X?}", x)),
    ("<0.p$?", |o, x, _, p| write!(o, "{:<0.p$?}", x, p = p)),
    ("<0.p$x?", |o, x, _, p| write!(o, "{:<0.p$x?}", x, p = p)),
    ("<0.p$X?", |o, x, _, p| write!(o, "{:<0.p$X?}", x, p = p)),
    ("<0w$?", |o, x, w, _| write!(o, "{:<0w$?}", x, w = w)),
    ("<0w$x?", |o, x, w, _| write!(o, "{:<0w$x?}", x, w = w)),
    ("<0w$X?", |o, x, w, _| write!(o, "{:<0w$X?}", x, w = w)),
    ("<0w$.p$?", |o, x, w, p| write!(o, "{:<0w$.p$?}", x, w = w, p = p)),
    ("<0w$.p$x?", |o, x, w, p| write!(o, "{:<0w$.p$x?}", x, w = w, p = p)),
    ("<0w$.p$X?", |o, x, w, p| write!(o, "{:<0w$.p$X?}", x, w = w, p = p)),
    ("<#?", |o, x, _, _| write!(o, "{:<#?}", x)),
    ("<#x?", |o, x, _, _| write!(o, "{:<#x?}", x)),
    ("<#X?", |o, x, _, _| write!(o, "{:<#X?}", x)),
    ("<#.p$?", |o, x, _, p| write!(o, "{:<#.p$?}", x, p = p)),
    ("<#.p$x?", |o, x, _, p| write!(o, "{:<#.p$x?}", x, p = p)),
    ("<#.p$X?", |o, x, _, p| write!(o, "{:<#.p$X?}", x, p = p)),
    ("<#w$?", |o, x, w, _| write!(o, "{:<#w$?}", x, w = w)),
    ("<#w$x?", |o, x, w, _| write!(o, "{:<#w$x?}", x, w = w)),
    ("<#w$X?", |o, x, w, _| write!(o, "{:<#w$X?}", x, w = w)),
    ("<#w$.p$?", |o, x, w, p| write!(o, "{:<#w$.p$?}", x, w = w, p = p)),
    ("<#w$.p$x?", |o, x, w, p| write!(o, "{:<#w$.p$x?}", x, w = w, p = p)),
    ("<#w$.p$X?", |o, x, w, p| write!(o, "{:<#w$.p$X?}", x, w = w, p = p)),
    ("<#0?", |o, x, _, _| write!(o, "{:<#0?}", x)),
    ("<#0x?", |o, x, _, _| write!(o, "{:<#0x?}", x)),
    ("<#0X?", |o, x, _, _| write!(o, "{:<#0X?}", x)),
    ("<#0.p$?", |o, x, _, p| write!(o, "{:<#0.p$?}", x, p = p)),
    ("<#0.p$x?", |o, x, _, p| write!(o, "{:<#0.p$x?}", x, p = p)),
    ("<#0.p$X?", |o, x, _, p| write!(o, "{:<#0.p$X?}", x, p = p)),
    ("<#0w$?", |o, x, w, _| write!(o, "{:<#0w$?}", x, w = w)),
    ("<#0w$x?", |o, x, w, _| write!(o, "{:<#0w$x?}", x, w = w)),
    ("<#0w$X?", |o, x, w, _| write!(o, "{:<#0w$X?}", x, w = w)),
    ("<#0w$.p$?", |o, x, w, p| write!(o, "{:<#0w$.p$?}", x, w = w, p = p)),
    ("<#0w$.p$x?", |o, x, w, p| write!(o, "{:<#0w$.p$x?}", x, w = w, p = p)),
    ("<#0w$.p$X?", |o, x, w, p| write!(o, "{:<#0w$.p$X?}", x, w = w, p = p)),
    ("<+?", |o, x, _, _| write!(o, "{:<+?}", x)),
    ("<+x?", |o, x, _, _| write!(o, "{:<+x?}", x)),
    ("<+X?", |o, x, _, _| write!(o, "{:<+X?}", x)),
    ("<+.p$?", |o, x, _, p| write!(o, "{:<+.p$?}", x, p = p)),
    ("<+.p$x?", |o, x, _, p| write!(o, "{:<+.p$x?}", x, p = p)),
    ("<+.p$X?", |o, x, _, p| write!(o, "{:<+.p$X?}", x, p = p)),
    ("<+w$?", |o, x, w, _| write!(o, "{:<+w$?}", x, w = w)),
    ("<+w$x?", |o, x, w, _| write!(o, "{:<+w$x?}", x, w = w)),
    ("<+w$X?", |o, x, w, _| write!(o, "{:<+w$X?}", x, w = w)),
    ("<+w$.p$?", |o, x, w, p| write!(o, "{:<+w$.p$?}", x, w = w, p = p)),
    ("<+w$.p$x?", |o, x, w, p| write!(o, "{:<+w$.p$x?}", x, w = w, p = p)),
    ("<+w$.p$X?", |o, x, w, p| write!(o, "{:<+w$.p$X?}", x, w = w, p = p)),
    ("<+0?", |o, x, _, _| write!(o, "{:<+0?}", x)),
    ("<+0x?", |o, x, _, _| write!(o, "{:<+0x?}", x)),
    ("<+0X?", |o, x, _, _| write!(o, "{:<+0X?}", x)),
    ("<+0.p$?", |o, x, _, p| write!(o, "{:<+0.p$?}", x, p = p)),
    ("<+0.p$x?", |o, x, _, p| write!(o, "{:<+0.p$x?}", x, p = p)),
    ("<+0.p$X?", |o, x, _, p| write!(o, "{:<+0.p$X?}", x, p = p)),
    ("<+0w$?", |o, x, w, _| write!(o, "{:<+0w$?}", x, w = w)),
    ("<+0w$x?", |o, x, w, _| write!(o, "{:<+0w$x?}", x, w = w)),
    ("<+0w$X?", |o, x, w, _| write!(o, "{:<+0w$X?}", x, w = w)),
    ("<+0w$.p$?", |o, x, w, p| write!(o, "{:<+0w$.p$?}", x, w = w, p = p)),
    ("<+0w$.p$x?", |o, x, w, p| write!(o, "{:<+0w$.p$x?}", x, w = w, p = p)),
    ("<+0w$.p$X?", |o, x, w, p| write!(o, "{:<+0w$.p$X?}", x, w = w, p = p)),
    ("<+#?", |o, x, _, _| write!(o, "{:<+#?}", x)),
    ("<+#x?", |o, x, _, _| write!(o, "{:<+#x?}", x)),
    ("<+#X?", |o, x, _, _| write!(o, "{:<+#X?}", x)),
    ("<+#.p$?", |o, x, _, p| write!(o, "{:<+#.p$?}", x, p = p)),
    ("<+#.p$x?", |o, x, _, p| write!(o, "{:<+#.p$x?}", x, p = p)),
    ("<+#.p$X?", |o, x, _, p| write!(o, "{:<+#.p$X?}", x, p = p)),
    ("<+#w$?", |o, x, w, _| write!(o, "{:<+#w$?}", x, w = w)),
    ("<+#w$x?", |o, x, w, _| write!(o, "{:<+#w$x?}", x, w = w)),
    ("<+#w$X?", |o, x, w, _| write!(o, "{:<+#w$X?}", x, w = w)),
    ("<+#w$.p$?", |o, x, w, p| write!(o, "{:<+#w$.p$?}", x, w = w, p = p)),
    ("<+#w$.p$x?", |o, x, w, p| write!(o, "{:<+#w$.p$x?}", x, w = w, p = p)),
    ("<+#w$.p$X?", |o, x, w, p| write!(o, "{:<+#w$.p$X?}", x, w = w, p = p)),
    ("<+#0?", |o, x, _, _| write!(o, "{:<+#0?}", x)),
    ("<+#0x?", |o, x, _, _| write!(o, "{:<+#0x?}", x)),
    ("<+#0X?", |o, x, _, _| write!(o, "{:<+#0X?}", x)),
    ("<+#0.p$?", |o, x, _, p| write!(o, "{:<+#0.p$?}", x, p = p)),
    ("<+#0.p$x?", |o, x, _, p| write!(o, "{:<+#0.p$x?}", x, p = p)),
    ("<+#0.p$X?", |o, x, _, p| write!(o, "{:<+#0.p$X?}", x, p = p)),
    ("<+#0w$?", |o, x, w, _| write!(o, "{:<+#0w$?}", x, w = w)),
    ("<+#0w$x?", |o, x, w, _| write!(o, "{:<+#0w$x?}", x, w = w)),
    ("<+#0w$X?", |o, x, w, _| write!(o, "{:<+#0w$X?}", x, w = w)),
    ("<+#0w$.p$?", |o, x, w, p| write!(o, "{:<+#0w$.p$?}", x, w = w, p = p)),
    ("<+#0w$.p$x?", |o, x, w, p| write!(o, "{:<+#0w$.p$x?}", x, w = w, p = p)),
    ("<+#0w$.p$X?", |o, x, w, p| write!(o, "{:<+#0w$.p$X?}", x, w = w, p = p)),
    ("<-?", |o, x, _, _| write!(o, "{:<-?}", x)),
    ("<-x?", |o, x, _, _| write!(o, "{:<-x?}", x)),
    ("<-X?", |o, x, _, _| write!(o, "{:<-X?}", x)),
    ("<-.p$?", |o, x, _, p| write!(o, "{:<-.p$?}", x, p = p)),
    ("<-.p$x?", |o, x, _, p| write!(o, "{:<-.p$x?}", x, p = p)),
    ("<-.p$X?", |o, x, _, p| write!(o, "{:<-.p$X?}", x, p = p)),
    ("<-w$?", |o, x, w, _| write!(o, "{:<-w$?}", x, w = w)),
    ("<-w$x?", |o, x, w, _| write!(o, "{:<-w$x?}", x, w = w)),
    ("<-w$X?", |o, x, w, _| write!(o, "{:<-w$X?}", x, w = w)),
    ("<-w$.p$?", |o, x, w, p| write!(o, "{:<-w$.p$?}", x, w = w, p = p)),
    ("<-w$.p$x?", |o, x, w, p| write!(o, "{:<-w$.p$x?}", x, w = w, p = p)),
    ("<-w$.p$X?", |o, x, w, p| write!(o, "{:<-w$.p$X?}", x, w = w, p = p)),
    ("<-0?", |o, x, _, _| write!(o, "{:<-0?}", x)),
    ("<-0x?", |o, x, _, _| write!(o, "{:<-0x?}", x)),
    ("<-0X?", |o, x, _, _| write!(o, "{:<-0X?}", x)),
    ("<-0.p$?", |o, x, _, p| write!(o, "{:<-0.p$?}", x, p = p)),
    ("<-0.p$x?", |o, x, _, p| write!(o, "{:<-0.p$x?}", x, p = p)),
    ("<-0.p$X?", |o, x, _, p| write!(o, "{:<-0.p$X?}", x, p = p)),
    ("<-0w$?", |o, x, w, _| write!(o, "{:<-0w$?}", x, w = w)),
    ("<-0w$x?", |o, x, w, _| write!(o, "{:<-0w$x?}", x, w = w)),
    ("<-0w$X?", |o, x, w, _| write!(o, "{:<-0w$X?}", x, w = w)),
    ("<-0w$.p$?", |o, x, w, p| write!(o, "{:<-0w$.p$?}", x, w = w, p = p)),
    ("<-0w$.p$x?", |o, x, w, p| write!(o, "{:<-0w$.p$x?}", x, w = w, p = p)),
    ("<-0w$.p$X?", |o, x, w, p| write!(o, "{:<-0w$.p$X?}", x, w = w, p = p)),
    ("<-#?", |o, x, _, _| write!(o, "{:<-#?}", x)),
    ("<-#x?", |o, x, _, _| write!(o, "{:<-#x?}", x)),
    ("<-#X?", |o, x, _, _| write!(o, "{:<-#X?}", x)),
    ("<-#.p$?", |o, x, _, p| write!(o, "{:<-#.p$?}", x, p = p)),
    ("<-#.p$x?", |o, x, _, p| write!(o, "{:<-#.p$x?}", x, p = p)),
    ("<-#.p$X?", |o, x, _, p| write!(o, "{:<-#.p$X?}", x, p = p)),
    ("<-#w$?", |o, x, w, _| write!(o, "{:<-#w$?}", x, w = w)),
    ("<-#w$x?", |o, x, w, _| write!(o, "{:<-#w$x?}", x, w = w)),
    ("<-#w$X?", |o, x, w, _| write!(o, "{:<-#w$X?}", x, w = w)),
    ("<-#w$.p$?", |o, x, w, p| write!(o, "{:<-#w$.p$?}", x, w = w, p = p)),
    ("<-#w$.p$x?", |o, x, w, p| write!(o, "{:<-#w$.p$x?}", x, w = w, p = p)),
    ("<-#w$.p$X?", |o, x, w, p| write!(o, "{:<-#w$.p$X?}", x, w = w, p = p)),
    ("<-#0?", |o, x, _, _| write!(o, "{:<-#0?}", x)),
    ("<-#0x?", |o, x, _, _| write!(o, "{:<-#0x?}", x)),
    ("<-#0X?", |o, x, _, _| write!(o, "{:<-#0X?}", x)),
    ("<-#0.p$?", |o, x, _, p| write!(o, "{:<-#0.p$?}", x, p = p)),
    ("<-#0.p$x?", |o, x, _, p| write!(o, "{:<-#0.p$x?}", x, p = p)),
    ("<-#0.p$X?", |o, x, _, p| write!(o, "{:<-#0.p$X?}", x, p = p)),
    ("<-#0w$?", |o, x, w, _| write!(o, "{:<-#0w$?}", x, w = w)),
    ("<-#0w$x?", |o, x, w, _| write!(o, "{:<-#0w$x?}", x, w = w)),
    ("<-#0w$X?", |o, x, w, _| write!(o, "{:<-#0w$X?}", x, w = w)),
    ("<-#0w$.p$?", |o, x, w, p| write!(o, "{:<-#0w$.p$?}", x, w = w, p = p)),
    ("<-#0w$.p$x?", |o, x, w, p| write!(o, "{:<-#0w$.p$x?}", x, w = w, p = p)),
    ("<-#0w$.p$X?", |o, x, w, p| write!(o, "{:<-#0w$.p$X?}", x, w = w, p = p)),
    (">?", |o, x, _, _| write!(o, "{:>?}", x)),
    (">x?", |o, x, _, _| write!(o, "{:>x?}", x)),
    (">X?", |o, x, _, _| write!(o, "{:>X?}", x)),
    (">.p$?", |o, x, _, p| write!(o, "{:>.p$?}", x, p = p)),
    (">.p$x?", |o, x, _, p| write!(o, "{:>.p$x?}", x, p = p)),
    (">.p$X?", |o, x, _, p| write!(o, "{:>.p$X?}", x, p = p)),
    (">w$?", |o, x, w, _| write!(o, "{:>w$?}", x, w = w)),
    (">w$x?", |o, x, w, _| write!(o, "{:>w$x?}", x, w = w)),
    (">w$X?", |o, x, w, _| write!(o, "{:>w$X?}", x, w = w)),
    (">w$.p$?", |o, x, w, p| write!(o, "{:>w$.p$?}", x, w = w, p = p)),
    (">w$.p$x?", |o, x, w, p| write!(o, "{:>w$.p$x?}", x, w = w, p = p)),
    (">w$.p$X?", |o, x, w, p| write!(o, "{:>w$.p$X?}", x, w = w, p = p)),
    (">0?", |o, x, _, _| write!(o, "{:>0?}", x)),
    (">0x?", |o, x, _, _| write!(o, "{:>0x?}", x)),
    (">0X?", |o, x, _, _| write!(o, "{:>0X?}", x)),
    (">0.p$?", |o, x, _, p| write!(o, "{:>0.p$?}", x, p = p)),
    (">0.p$x?", |o, x, _, p| write!(o, "{:>0.p$x?}", x, p = p)),
    (">0.p$X?", |o, x, _, p| write!(o, "{:>0.p$X?}", x, p = p)),
    (">0w$?", |o, x, w, _| write!(o, "{:>0w$?}", x, w = w)),
    (">0w$x?", |o, x, w, _| write!(o, "{:>0w$x?}", x, w = w)),
    (">0w$X?", |o, x, w, _| write!(o, "{:>0w$X?}", x, w = w)),
    (">0w$.p$?", |o, x, w, p| write!(o, "{:>0w$.p$?}", x, w = w, p = p)),
    (">0w$.p$x?", |o, x, w, p| write!(o, "{:>0w$.p$x?}", x, w = w, p = p)),
    (">0w$.p$X?", |o, x, w, p| write!(o, "{:>0w$.p$X?}", x, w = w, p = p)),
    (">#?", |o, x, _, _| write!(o, "{:>#?}", x)),
    (">#x?", |o, x, _, _| write!(o, "{:>#x?}", x)),
    (">#X?", |o, x, _, _| write!(o, "{:>#X?}", x)),
    (">#.p$?", |o, x, _, p| write!(o, "{:>#.p$?}", x, p = p)),
    (">#.p$x?", |o, x, _, p| write!(o, "{:>#.p$x?}", x, p = p)),
    (">#.p$X?", |o, x, _, p| write!(o, "{:>#.p$X?}", x, p = p)),
    (">#w$?", |o, x, w, _| write!(o, "{:>#w$?}", x, w = w)),
    (">#w$x?", |o, x, w, _| write!(o, "{:>#w$x?}", x, w = w)),
    (">#w$X?", |o, x, w, _| write!(o, "{:>#w$X?}", x, w = w)),
    (">#w$.p$?", |o, x, w, p| write!(o, "{:>#w$.p$?}", x, w = w, p = p)),
    (">#w$.p$x?", |o, x, w, p| write!(o, "{:>#w$.p$x?}", x, w = w, p = p)),
    (">#w$.p$X?", |o, x, w, p| write!(o, "{:>#w$.p$X?}", x, w = w, p = p)),
    (">#0?", |o, x, _, _| write!(o, "{:>#0?}", x)),
    (">#0x?", |o, x, _, _| write!(o, "{:>#0x?}", x)),
    (">#0X?", |o, x, _, _| write!(o, "{:>#0X?}", x)),
    (">#0.p$?", |o, x, _, p| write!(o, "{:>#0.p$?}", x, p = p)),
    (">#0.p$x?", |o, x, _, p| write!(o, "{:>#0.p$x?}", x, p = p)),
    (">#0.p$X?", |o, x, _, p| write!(o, "{:>#0.p$X?}", x, p = p)),
    (">#0w$?", |o, x, w, _| write!(o, "{:>#0w$?}", x, w = w)),
    (">#0w$x?", |o, x, w, _| write!(o, "{:>#0w$x?}", x, w = w)),
    (">#0w$X?", |o, x, w, _| write!(o, "{:>#0w$X?}", x, w = w)),
    (">#0w$.p$?", |o, x, w, p| write!(o, "{:>#0w$.p$?}", x, w = w, p = p)),
    (">#0w$.p$x?", |o, x, w, p| write!(o, "{:>#0w$.p$x?}", x, w = w, p = p)),
    (">#0w$.p$X?", |o, x, w, p| write!(o, "{:>#0w$.p$X?}", x, w = w, p = p)),
    (">+?", |o, x, _, _| write!(o, "{:>+?}", x)),
    (">+x?", |o, x, _, _| write!(o, "{:>+x?}", x)),
    (">+X?", |o, x, _, _| write!(o, "{:>+X?}", x)),
    (">+.p$?", |o, x, _, p| write!(o, "{:>+.p$?}", x, p = p)),
    (">+.p$x?", |o, x, _, p| write!(o, "{:>+.p$x?}", x, p = p)),
    (">+.p$X?", |o, x, _, p| write!(o, "{:>+.p$X?}", x, p = p)),
    (">+w$?", |o, x, w, _| write!(o, "{:>+w$?}", x, w = w)),
    (">+w$x?", |o, x, w, _| write!(o, "{:>+w$x?}", x, w = w)),
    (">+w$X?", |o, x, w, _| write!(o, "{:>+w$X?}", x, w = w)),
    (">+w$.p$?", |o, x, w, p| write!(o, "{:>+w$.p$?}", x, w = w, p = p)),
    (">+w$.p$x?", |o, x, w, p| write!(o, "{:>+w$.p$x?}", x, w = w, p = p)),
    (">+w$.p$X?", |o, x, w, p| write!(o, "{:>+w$.p$X?}", x, w = w, p = p)),
    (">+0?", |o, x, _, _| write!(o, "{:>+0?}", x)),
    (">+0x?", |o, x, _, _| write!(o, "{:>+0x?}", x)),
    (">+0X?", |o, x, _, _| write!(o, "{:>+0X?}", x)),
    (">+0.p$?", |o, x, _, p| write!(o, "{:>+0.p$?}", x, p = p)),
    (">+0.p$x?", |o, x, _, p| write!(o, "{:>+0.p$x?}", x, p = p)),
    (">+0.p$X?", |o, x, _, p| write!(o, "{:>+0.p$X?}", x, p = p)),
    (">+0w$?", |o, x, w, _| write!(o, "{:>+0w$?}", x, w = w)),
    (">+0w$x?", |o, x, w, _| write!(o, "{:>+0w$x?}", x, w = w)),
    (">+0w$X?", |o, x, w, _| write!(o, "{:>+0w$X?}", x, w = w)),
    (">+0w$.p$?", |o, x, w, p| write!(o, "{:>+0w$.p$?}", x, w = w, p = p)),
    (">+0w$.p$x?", |o, x, w, p| write!(o, "{:>+0w$.p$x?}", x, w = w, p = p)),
    (">+0w$.p$X?", |o, x, w, p| write!(o, "{:>+0w$.p$X?}", x, w = w, p = p)),
    (">+#?", |o, x, _, _| write!(o, "{:>+#?}", x)),
    (">+#x?", |o, x, _, _| write!(o, "{:>+#x?}", x)),
    (">+#X?", |o, x, _, _| write!(o, "{:>+#X?}", x)),
    (">+#.p$?", |o, x, _, p| write!(o, "{:>+#.p$?}", x, p = p)),
    (">+#.p$x?", |o, x, _, p| write!(o, "{:>+#.p$x?}", x, p = p)),
    (">+#.p$X?", |o, x, _, p| write!(o, "{:>+#.p$X?}", x, p = p)),
    (">+#w$?", |o, x, w, _| write!(o, "{:>+#w$?}", x, w = w)),
    (">+#w$x?", |o, x, w, _| write!(o, "{:>+#w$x?}", x, w = w)),
    (">+#w$X?", |o, x, w, _| write!(o, "{:>+#w$X?}", x, w = w)),
    (">+#w$.p$?", |o, x, w, p| write!(o, "{:>+#w$.p$?}", x, w = w, p = p)),
    (">+#w$.p$x?", |o, x, w, p| write!(o, "{:>+#w$.p$x?}", x, w = w, p = p)),
    (">+#w$.p$X?", |o, x, w, p| write!(o, "{:>+#w$.p$X?}", x, w = w, p = p)),
    (">+#0?", |o, x, _, _| write!(o, "{:>+#0?}", x)),
    (">+#0x?", |o, x, _, _| write!(o, "{:>+#0x?}", x)),
    (">+#0X?", |o, x, _, _| write!(o, "{:>+#0X?}", x)),
    (">+#0.p$?", |o, x, _, p| write!(o, "{:>+#0.p$?}", x, p = p)),
    (">+#0.p$x?", |o, x, _, p| write!(o, "{:>+#0.p$x?}", x, p = p)),
    (">+#0.p$X?", |o, x, _, p| write!(o, "{:>+#0.p$X?}", x, p = p)),
    (">+#0w$?", |o, x, w, _| write!(o, "{:>+#0w$?}", x, w = w)),
    (">+#0w$x?", |o, x, w, _| write!(o, "{:>+#0w$x?}", x, w = w)),
    (">+#0w$X?", |o, x, w, _| write!(o, "{:>+#0w$X?}", x, w = w)),
    (">+#0w$.p$?", |o, x, w, p| write!(o, "{:>+#0w$.p$?}", x, w = w, p = p)),
    (">+#0w$.p$x?", |o, x, w, p| write!(o, "{:>+#0w$.p$x?}", x, w = w, p = p)),
    (">+#0w$.p$X?", |o, x, w, p| write!(o, "{:>+#0w$.p$X?}", x, w = w, p = p)),
    (">-?", |o, x, _, _| write!(o, "{:>-?}", x)),
    (">-x?", |o, x, _, _| write!(o, "{:>-x?}", x)),
    (">-X?", |o, x, _, _| write!(o, "{:>-X?}", x)),
    (">-.p$?", |o, x, _, p| write!(o, "{:>-.p$?}", x, p = p)),
    (">-.p$x?", |o, x, _, p| write!(o, "{:>-.p$x?}", x, p = p)),
    (">-.p$X?", |o, x, _, p| write!(o, "{:>-.p$X?}", x, p = p)),
    (">-w$?", |o, x, w, _| write!(o, "{:>-w$?}", x, w = w)),
    (">-w$x?", |o, x, w, _| write!(o, "{:>-w$x?}", x, w = w)),
    (">-w$X?", |o, x, w, _| write!(o, "{:>-w$X?}", x, w = w)),
    (">-w$.p$?", |o, x, w, p| write!(o, "{:>-w$.p$?}", x, w = w, p = p)),
    (">-w$.p$x?", |o, x, w, p| write!(o, "{:>-w$.p$x?}", x, w = w, p = p)),
    (">-w$.p$X?", |o, x, w, p| write!(o, "{:>-w$.p$X?}", x, w = w, p = p)),
    (">-0?", |o, x, _, _| write!(o, "{:>-0?}", x)),
    (">-0x?", |o, x, _, _| write!(o, "{:>-0x?}", x)),
    (">-0X?", |o, x, _, _| write!(o, "{:>-0X?}", x)),
    (">-0.p$?", |o, x, _, p| write!(o, "{:>-0.p$?}", x, p = p)),
    (">-0.p$x?", |o, x, _, p| write!(o, "{:>-0.p$x?}", x, p = p)),
    (">-0.p$X?", |o, x, _, p| write!(o, "{:>-0.p$X?}", x, p = p)),
    (">-0w$?", |o, x, w, _| write!(o, "{:>-0w$?}", x, w = w)),
    (">-0w$x?", |o, x, w, _| write!(o, "{:>-0w$x?}", x, w = w)),
    (">-0w$X?", |o, x, w, _| write!(o, "{:>-0w$X?}", x, w = w)),
    (">-0w$.p$?", |o, x, w, p| write!(o, "{:>-0w$.p$?}", x, w = w, p = p)),
    (">-0w$.p$x?", |o, x, w, p| write!(o, "{:>-0w$.p$x?}", x, w = w, p = p)),
    (">-0w$.p$X?", |o, x, w, p| write!(o, "{:>-0w$.p$X?}", x, w = w, p = p)),
    (">-#?", |o, x, _, _| write!(o, "{:>-#?}", x)),
    (">-#x?", |o, x, _, _| write!(o, "{:>-#x?}", x)),
    (">-#X?", |o, x, _, _| write!(o, "{:>-#X?}", x)),
    (">-#.p$?", |o, x, _, p| write!(o, "{:>-#.p$?}", x, p = p)),
    (">-#.p$x?", |o, x, _, p| write!(o, "{:>-#.p$x?}", x, p = p)),
    (">-#.p$X?", |o, x, _, p| write!(o, "{:>-#.p$X?}", x, p = p)),
    (">-#w$?", |o, x, w, _| write!(o, "{:>-#w$?}", x, w = w)),
    (">-#w$x?", |o, x, w, _| write!(o, "{:>-#w$x?}", x, w = w)),
    (">-#w$X?", |o, x, w, _| write!(o, "{:>-#w$X?}", x, w = w)),
    (">-#w$.p$?", |o, x, w, p| write!(o, "{:>-#w$.p$?}", x, w = w, p = p)),
    (">-#w$.p$x?", |o, x, w, p| write!(o, "{:>-#w$.p$x?}", x, w = w, p = p)),
    (">-#w$.p$X?", |o, x, w, p| write!(o, "{:>-#w$.p$X?}", x, w = w, p = p)),
    (">-#0?", |o, x, _, _| write!(o, "{:>-#0?}", x)),
    (">-#0x?", |o, x, _, _| write!(o, "{:>-#0x?}", x)),
    (">-#0X?", |o, x, _, _| write!(o, "{:>-#0X?}", x)),
    (">-#0.p$?", |o, x, _, p| write!(o, "{:>-#0.p$?}", x, p = p)),
    (">-#0.p$x?", |o, x, _, p| write!(o, "{:>-#0.p$x?}", x, p = p)),
    (">-#0.p$X?", |o, x, _, p| write!(o, "{:>-#0.p$X?}", x, p = p)),
    (">-#0w$?", |o, x, w, _| write!(o, "{:>-#0w$?}", x, w = w)),
    (">-#0w$x?", |o, x, w, _| write!(o, "{:>-#0w$x?}", x, w = w)),
    (">-#0w$X?", |o, x, w, _| write!(o, "{:>-#0w$X?}", x, w = w)),
    (">-#0w$.p$?", |o, x, w, p| write!(o, "{:>-#0w$.p$?}", x, w = w, p = p)),
    (">-#0w$.p$x?", |o, x, w, p| write!(o, "{:>-#0w$.p$x?}", x, w = w, p = p)),
    (">-#0w$.p$X?", |o, x, w, p| write!(o, "{:>-#0w$.p$X?}", x, w = w, p = p)),
    ("^?", |o, x, _, _| write!(o, "{:^?}", x)),
    ("^x?", |o, x, _, _| write!(o, "{:^x?}", x)),
    ("^X?", |o, x, _, _| write!(o, "{:^X?}", x)),
    ("^.p$?", |o, x, _, p| write!(o, "{:^.p$?}", x, p = p)),
    ("^.p$x?", |o, x, _, p| write!(o, "{:^.p$x?}", x, p = p)),
    ("^.p$X?", |o, x, _, p| write!(o, "{:^.p$X?}", x, p = p)),
    ("^w$?", |o, x, w, _| write!(o, "{:^w$?}", x, w = w)),
    ("^w$x?", |o, x, w, _| write!(o, "{:^w$x?}", x, w = w)),
    ("^w$X?", |o, x, w, _| write!(o, "{:^w$X?}", x, w = w)),
    ("^w$.p$?", |o, x, w, p| write!(o, "{:^w$.p$?}", x, w = w, p = p)),
    ("^w$.p$x?", |o, x, w, p| write!(o, "{:^w$.p$x?}", x, w = w, p = p)),
    ("^w$.p$X?", |o, x, w, p| write!(o, "{:^w$.p$X?}", x, w = w, p = p)),
    ("^0?", |o, x, _, _| write!(o, "{:^0?}", x)),
    ("^0x?", |o, x, _, _| write!(o, "{:^0x?}", x)),
    ("^0X?", |o, x, _, _| write!(o, "{:^0X?}", x)),
    ("^0.p$?", |o, x, _, p| write!(o, "{:^0.p$?}", x, p = p)),
    ("^0.p$x?", |o, x, _, p| write!(o, "{:^0.p$x?}", x, p = p)),
    ("^0.p$X?", |o, x, _, p| write!(o, "{:^0.p$X?}", x, p = p)),
    ("^0w$?", |o, x, w, _| write!(o, "{:^0w$?}", x, w = w)),
    ("^0w$x?", |o, x, w, _| write!(o, "{:^0w$x?}", x, w = w)),
    ("^0w$X?", |o, x, w, _| write!(o, "{:^0w$X?}", x, w = w)),
    ("^0w$.p$?", |o, x, w, p| write!(o, "{:^0w$.p$?}", x, w = w, p = p)),
    ("^0w$.p$x?", |o, x, w, p| write!(o, "{:^0w$.p$x?}", x, w = w, p = p)),
    ("^0w$.p$X?", |o, x, w, p| write!(o, "{:^0w$.p$X?}", x, w = w, p = p)),
    ("^#?", |o, x, _, _| write!(o, "{:^#?}", x)),
    ("^#x?", |o, x, _, _| write!(o, "{:^#x?}", x)),
    ("^#X?", |o, x, _, _| write!(o, "{:^#X?}", x)),
    ("^#.p$?", |o, x, _, p| write!(o, "{:^#.p$?}", x, p = p)),
    ("^#.p$x?", |o, x, _, p| write!(o, "{:^#.p$x?}", x, p = p)),
    ("^#.p$X?", |o, x, _, p| write!(o, "{:^#.p$X?}", x, p = p)),
    ("^#w$?", |o, x, w, _| write!(o, "{:^#w$?}", x, w = w)),
    ("^#w$x?", |o, x, w, _| write!(o, "{:^#w$x?}", x, w = w)),
    ("^#w$X?", |o, x, w, _| write!(o, "{:^#w$X?}", x, w = w)),
    ("^#w$.p$?", |o, x, w, p| write!(o, "{:^#w$.p$?}", x, w = w, p = p)),
    ("^#w$.p$x?", |o, x, w, p| write!(o, "{:^#w$.p$x?}", x, w = w, p = p)),
    ("^#w$.p$X?", |o, x, w, p| write!(o, "{:^#w$.p$X?}", x, w = w, p = p)),
    ("^#0?", |o, x, _, _| write!(o, "{:^#0?}", x)),
    ("^#0x?", |o, x, _, _| write!(o, "{:^#0x?}", x)),
    ("^#0X?", |o, x, _, _| write!(o, "{:^#0X?}", x)),
    ("^#0.p$?", |o, x, _, p| write!(o, "{:^#0.p$?}", x, p = p)),
    ("^#0.p$x?", |o, x, _, p| write!(o, "{:^#0.p$x?}", x, p = p)),
    ("^#0.p$X?", |o, x, _, p| write!(o, "{:^#0.p$X?}", x, p = p)),
    ("^#0w$?", |o, x, w, _| write!(o, "{:^#0w$?}", x, w = w)),
    ("^#0w$x?", |o, x, w, _| write!(o, "{:^#0w$x?}", x, w = w)),
    ("^#0w$X?", |o, x, w, _| write!(o, "{:^#0w$X?}", x, w = w)),
    ("^#0w$.p$?", |o, x, w, p| write!(o, "{:^#0w$.p$?}", x, w = w, p = p)),
    ("^#0w$.p$x?", |o, x, w, p| write!(o, "{:^#0w$.p$x?}", x, w = w, p = p)),
    ("^#0w$.p$X?", |o, x, w, p| write!(o, "{:^#0w$.p$X?}", x, w = w, p = p)),
    ("^+?", |o, x, _, _| write!(o, "{:^+?}", x)),
    ("^+x?", |o, x, _, _| write!(o, "{:^+x?}", x)),
    ("^+X?", |o, x, _, _| write!(o, "{:^+X?}", x)),
    ("^+.p$?", |o, x, _, p| write!(o, "{:^+.p$?}", x, p = p)),
    ("^+.p$x?", |o, x, _, p| write!(o, "{:^+.p$x?}", x, p = p)),
    ("^+.p$X?", |o, x, _, p| write!(o, "{:^+.p$X?}", x, p = p)),
    ("^+w$?", |o, x, w, _| write!(o, "{:^+w$?}", x, w = w)),
    ("^+w$x?", |o, x, w, _| write!(o, "{:^+w$x?}", x, w = w)),
    ("^+w$X?", |o, x, w, _| write!(o, "{:^+w$X?}", x, w = w)),
    ("^+w$.p$?", |o, x, w, p| write!(o, "{:^+w$.p$?}", x, w = w, p = p)),
    ("^+w$.p$x?", |o, x, w, p| write!(o, "{:^+w$.p$x?}", x, w = w, p = p)),
    ("^+w$.p$X?", |o, x, w, p| write!(o, "{:^+w$.p$X?}", x, w = w, p = p)),
    ("^+0?", |o, x, _, _| write!(o, "{:^+0?}", x)),
    ("^+0x?", |o, x, _, _| write!(o, "{:^+0x?}", x)),
    ("^+0X?", |o, x, _, _| write!(o, "{:^+0X?}", x)),
    ("^+0.p$?", |o, x, _, p| write!(o, "{:^+0.p$?}", x, p = p)),
    ("^+0.p$x?", |o, x, _, p| write!(o, "{:^+0.p$x?}", x, p = p)),
    ("^+0.p$X?", |o, x, _, p| write!(o, "{:^+0.p$X?}", x, p = p)),
    ("^+0w$?", |o, x, w, _| write!(o, "{:^+0w$?}", x, w = w)),
    ("^+0w$x?", |o, x, w, _| write!(o, "{:^+0w$x?}", x, w = w)),
    ("^+0w$X?", |o, x, w, _| write!(o, "{:^+0w$X?}", x, w = w)),
    ("^+0w$.p$?", |o, x, w, p| write!(o, "{:^+0w$.p$?}", x, w = w, p = p)),
    ("^+0w$.p$x?", |o, x, w, p| write!(o, "{:^+0w$.p$x?}", x, w = w, p = p)),
    ("^+0w$.p$X?", |o, x, w, p| write!(o, "{:^+0w$.p$X?}", x, w = w, p = p)),
    ("^+#?", |o, x, _, _| write!(o, "{:^+#?}", x)),
    ("^+#x?", |o, x, _, _| write!(o, "{:^+#x?}", x)),
    ("^+#X?", |o, x, _, _| write!(o, "{:^+#X?}", x)),
    ("^+#.p$?", |o, x, _, p| write!(o, "{:^+#.p$?}", x, p = p)),
    ("^+#.p$x?", |o, x, _, p| write!(o, "{:^+#.p$x?}", x, p = p)),
    ("^+#.p$X?", |o, x, _, p| write!(o, "{:^+#.p$X?}", x, p = p)),
    ("^+#w$?", |o, x, w, _| write!(o, "{:^+#w$?}", x, w = w)),
    ("^+#w$x?", |o, x, w, _| write!(o, "{:^+#w$x?}", x, w = w)),
    ("^+#w$X?", |o, x, w, _| write!(o, "{:^+#w$X?}", x, w = w)),
    ("^+#w$.p$?", |o, x, w, p| write!(o, "{:^+#w$.p$?}", x, w = w, p = p)),
    ("^+#w$.p$x?", |o, x, w, p| write!(o, "{:^+#w$.p$x?}", x, w = w, p = p)),
    ("^+#w$.p$X?", |o, x, w, p| write!(o, "{:^+#w$.p$X?}", x, w = w, p = p)),
    ("^+#0?", |o, x, _, _| write!(o, "{:^+#0?}", x)),
    ("^+#0x?", |o, x, _, _| write!(o, "{:^+#0x?}", x)),
    ("^+#0X?", |o, x, _, _| write!(o, "{:^+#0X?}", x)),
    ("^+#0.p$?", |o, x, _, p| write!(o, "{:^+#0.p$?}", x, p = p)),
    ("^+#0.p$x?", |o, x, _, p| write!(o, "{:^+#0.p$x?}", x, p = p)),
    ("^+#0.p$X?", |o, x, _, p| write!(o, "{:^+#0.p$X?}", x, p = p)),
    ("^+#0w$?", |o, x, w, _| write!(o, "{:^+#0w$?}", x, w = w)),
    ("^+#0w$x?", |o, x, w, _| write!(o, "{:^+#0w$x?}", x, w = w)),
    ("^+#0w$X?", |o, x, w, _| write!(o, "{:^+#0w$X?}", x, w = w)),
    ("^+#0w$.p$?", |o, x, w, p| write!(o, "{:^+#0w$.p$?}", x, w = w, p = p)),
    ("^+#0w$.p$x?", |o, x, w, p| write!(o, "{:^+#0w$.p$x?}", x, w = w, p = p)),
    ("^+#0w$.p$X?", |o, x, w, p| write!(o, "{:^+#0w$.p$X?}", x, w = w, p = p)),
    ("^-?", |o, x, _, _| write!(o, "{:^-?}", x)),
    ("^-x?", |o, x, _, _| write!(o, "{:^-x?}", x)),
    ("^-X?", |o, x, _, _| write!(o, "{:^-X?}", x)),
    ("^-.p$?", |o, x, _, p| write!(o, "{:^-.p$?}", x, p = p)),
    ("^-.p$x?", |o, x, _, p| write!(o, "{:^-.p$x?}", x, p = p)),
    ("^-.p$X?", |o, x, _, p| write!(o, "{:^-.p$X?}", x, p = p)),
    ("^-w$?", |o, x, w, _| write!(o, "{:^-w$?}", x, w = w)),
    ("^-w$x?", |o, x, w, _| write!(o, "{:^-w$x?}", x, w = w)),
    ("^-w$X?", |o, x, w, _| write!(o, "{:^-w$X?}", x, w = w)),
    ("^-w$.p$?", |o, x, w, p| write!(o, "{:^-w$.p$?}", x, w = w, p = p)),
    ("^-w$.p$x?", |o, x, w, p| write!(o, "{:^-w$.p$x?}", x, w = w, p = p)),
    ("^-w$.p$X?", |o, x, w, p| write!(o, "{:^-w$.p$X?}", x, w = w, p = p)),
    ("^-0?", |o, x, _, _| write!(o, "{:^-0?}", x)),
    ("^-0x?", |o, x, _, _| write!(o, "{:^-0x?}", x)),
    ("^-0X?", |o, x, _, _| write!(o, "{:^-0X?}", x)),
    ("^-0.p$?", |o, x, _, p| write!(o, "{:^-0.p$?}", x, p = p)),
    ("^-0.p$x?", |o, x, _, p| write!(o, "{:^-0.p$x?}", x, p = p)),
    ("^-0.p$X?", |o, x, _, p| write!(o, "{:^-0.p$X?}", x, p = p)),
    ("^-0w$?", |o, x, w, _| write!(o, "{:^-0w$?}", x, w = w)),
    ("^-0w$x?", |o, x, w, _| write!(o, "{:^-0w$x?}", x, w = w)),
    ("^-0w$X?", |o, x, w, _| write!(o, "{:^-0w$X?}", x, w = w)),
    ("^-0w$.p$?", |o, x, w, p| write!(o, "{:^-0w$.p$?}", x, w = w, p = p)),
    ("^-0w$.p$x?", |o, x, w, p| write!(o, "{:^-0w$.p$x?}", x, w = w, p = p)),
    ("^-0w$.p$X?", |o, x, w, p| write!(o, "{:^-0w$.p$X?}", x, w = w, p = p)),
    ("^-#?", |o, x, _, _| write!(o, "{:^-#?}", x)),
    ("^-#x?", |o, x, _, _| write!(o, "{:^-#x?}", x)),
    ("^-#X?", |o, x, _, _| write!(o, "{:^-#X?}", x)),
    ("^-#.p$?", |o, x, _, p| write!(o, "{:^-#.p$?}", x, p = p)),
    ("^-#.p$x?", |o, x, _, p| write!(o, "{:^-#.p$x?}", x, p = p)),
    ("^-#.p$X?", |o, x, _, p| write!(o, "{:^-#.p$X?}", x, p = p)),
    ("^-#w$?", |o, x, w, _| write!(o, "{:^-#w$?}", x, w = w)),
    ("^-#w$x?", |o, x, w, _| write!(o, "{:^-#w$x?}", x, w = w)),
    ("^-#w$X?", |o, x, w, _| write!(o, "{:^-#w$X?}", x, w = w)),
    ("^-#w$.p$?", |o, x, w, p| write!(o, "{:^-#w$.p$?}", x, w = w, p = p)),
    ("^-#w$.p$x?", |o, x, w, p| write!(o, "{:^-#w$.p$x?}", x, w = w, p = p)),
    ("^-#w$.p$X?", |o, x, w, p| write!(o, "{:^-#w$.p$X?}", x, w = w, p = p)),
    ("^-#0?", |o, x, _, _| write!(o, "{:^-#0?}", x)),
    ("^-#0x?", |o, x, _, _| write!(o, "{:^-#0x?}", x)),
    ("^-#0X?", |o, x, _, _| write!(o, "{:^-#0X?}", x)),
    ("^-#0.p$?", |o, x, _, p| write!(o, "{:^-#0.p$?}", x, p = p)),
    ("^-#0.p$x?", |o, x, _, p| write!(o, "{:^-#0.p$x?}", x, p = p)),
    ("^-#0.p$X?", |o, x, _, p| write!(o, "{:^-#0.p$X?}", x, p = p)),
    ("^-#0w$?", |o, x, w, _| write!(o, "{:^-#0w$?}", x, w = w)),
    ("^-#0w$x?", |o, x, w, _| write!(o, "{:^-#0w$x?}", x, w = w)),
    ("^-#0w$X?", |o, x, w, _| write!(o, "{:^-#0w$X?}", x, w = w)),
    ("^-#0w$.p$?", |o, x, w, p| write!(o, "{:^-#0w$.p$?}", x, w = w, p = p)),
    ("^-#0w$.p$x?", |o, x, w, p| write!(o, "{:^-#0w$.p$x?}", x, w = w, p = p)),
    ("^-#0w$.p$X?", |o, x, w, p| write!(o, "{:^-#0w$.p$X?}", x, w = w, p = p)),
    ("*<?", |o, x, _, _| write!(o, "{:*<?}", x)),
    ("*<x?", |o, x, _, _| write!(o, "{:*<x?}", x)),
    ("*<X?", |o, x, _, _| write!(o, "{:*<X?}", x)),
    ("*<.p$?", |o, x, _, p| write!(o, "{:*<.p$?}", x, p = p)),
    ("*<.p$x?", |o, x, _, p| write!(o, "{:*<.p$x?}", x, p = p)),
    ("*<.p$X?", |o, x, _, p| write!(o, "{:*<.p$X?}", x, p = p)),
    ("*<w$?", |o, x, w, _| write!(o, "{:*<w$?}", x, w = w)),
    ("*<w$x?", |o, x, w, _| write!(o, "{:*<w$x?}", x, w = w)),
    ("*<w$X?", |o, x, w, _| write!(o, "{:*<w$X?}", x, w = w)),
    ("*<w$.p$?", |o, x, w, p| write!(o, "{:*<w$.p$?}", x, w = w, p = p)),
    ("*<w$.p$x?", |o, x, w, p| write!(o, "{:*<w$.p$x?}", x, w = w, p = p)),
    ("*<w$.p$X?", |o, x, w, p| write!(o, "{:*<w$.p$X?}", x, w = w, p = p)),
    ("*<0?", |o, x, _, _| write!(o, "{:*<0?}", x)),
    ("*<0x?", |o, x, _, _| write!(o, "{:*<0x?}", x)),
    ("*<0X?", |o, x, _, _| write!(o, "{:*<0X?}", x)),
    ("*<0.p$?", |o, x, _, p| write!(o, "{:*<0.p$?}", x, p = p)),
    ("*<0.p$x?", |o, x, _, p| write!(o, "{:*<0.p$x?}", x, p = p)),
    ("*<0.p$X?", |o, x, _, p| write!(o, "{:*<0.p$X?}", x, p = p)),
    ("*<0w$?", |o, x, w, _| write!(o, "{:*<0w$?}", x, w = w)),
    ("*<0w$x?", |o, x, w, _| write!(o, "{:*<0w$x?}", x, w = w)),
    ("*<0w$X?", |o, x, w, _| write!(o, "{:*<0w$X?}", x, w = w)),
    ("*<0w$.p$?", |o, x, w, p| write!(o, "{:*<0w$.p$?}", x, w = w, p = p)),
    ("*<0w$.p$x?", |o, x, w, p| write!(o, "{:*<0w$.p$x?}", x, w = w, p = p)),
    ("*<0w$.p$X?", |o, x, w, p| write!(o, "{:*<0w$.p$X?}", x, w = w, p = p)),
    ("*<#?", |o, x, _, _| write!(o, "{:*<#?}", x)),
    ("*<#x?", |o, x, _, _| write!(o, "{:*<#x?}", x)),
    ("*<#X?", |o, x, _, _| write!(o, "{:*<#X?}", x)),
    ("*<#.p$?", |o, x, _, p| write!(o, "{:*<#.p$?}", x, p = p)),
    ("*<#.p$x?", |o, x, _, p| write!(o, "{:*<#.p$x?}", x, p = p)),
    ("*<#.p$X?", |o, x, _, p| write!(o, "{:*<#.p$X?}", x, p = p)),
    ("*<#w$?", |o, x, w, _| write!(o, "{:*<#w$?}", x, w = w)),
    ("*<#w$x?", |o, x, w, _| write!(o, "{:*<#w$x?}", x, w = w)),
    ("*<#w$X?", |o, x, w, _| write!(o, "{:*<#w$X?}", x, w = w)),
    ("*<#w$.p$?", |o, x, w, p| write!(o, "{:*<#w$.p$?}", x, w = w, p = p)),
    ("*<#w$.p$x?", |o, x, w, p| write!(o, "{:*<#w$.p$x?}", x, w = w, p = p)),
    ("*<#w$.p$X?", |o, x, w, p| write!(o, "{:*<#w$.p$X?}", x, w = w, p = p)),
    ("*<#0?", |o, x, _, _| write!(o, "{:*<#0?}", x)),
    ("*<#0x?", |o, x, _, _| write!(o, "{:*<#0x?}", x)),
    ("*<#0X?", |o, x, _, _| write!(o, "{:*<#0X?}", x)),
    ("*<#0.p$?", |o, x, _, p| write!(o, "{:*<#0.p$?}", x, p = p)),
    ("*<#0.p$x?", |o, x, _, p| write!(o, "{:*<#0.p$x?}", x, p = p)),
    ("*<#0.p$X?", |o, x, _, p| write!(o, "{:*<#0.p$X?}", x, p = p)),
    ("*<#0w$?", |o, x, w, _| write!(o, "{:*<#0w$?}", x, w = w)),
    ("*<#0w$x?", |o, x, w, _| write!(o, "{:*<#0w$x?}", x, w = w)),
    ("*<#0w$X?", |o, x, w, _| write!(o, "{:*<#0w$X?}", x, w = w)),
    ("*<#0w$.p$?", |o, x, w, p| write!(o, "{:*<#0w$.p$?}", x, w = w, p = p)),
    ("*<#0w$.p$x?", |o, x, w, p| write!(o, "{:*<#0w$.p$x?}", x, w = w, p = p)),
    ("*<#0w$.p$X?", |o, x, w, p| write!(o, "{:*<#0w$.p$X?}", x, w = w, p = p)),
    ("*<+?", |o, x, _, _| write!(o, "{:*<+?}", x)),
    ("*<+x?", |o, x, _, _| write!(o, "{:*<+x?}", x)),
    ("*<+X?", |o, x, _, _| write!(o, "{:*<+X?}", x)),
    ("*<+.p$?", |o, x, _, p| write!(o, "{:*<+.p$?}", x, p = p)),
    ("*<+.p$x?", |o, x, _, p| write!(o, "{:*<+.p$x?}", x, p = p)),
    ("*<+.p$X?", |o, x, _, p| write!(o, "{:*<+.p$X?}", x, p = p)),
    ("*<+w$?", |o, x, w, _| write!(o, "{:*<+w$?}", x, w = w)),
    ("*<+w$x?", |o, x, w, _| write!(o, "{:*<+w$x?}", x, w = w)),
    ("*<+w$X?", |o, x, w, _| write!(o, "{:*<+w$X?}", x, w = w)),
    ("*<+w$.p$?", |o, x, w, p| write!(o, "{:*<+w$.p$?}", x, w = w, p = p)),
    ("*<+w$.p$x?", |o, x, w, p| write!(o, "{:*<+w$.p$x?}", x, w = w, p = p)),
    ("*<+w$.p$X?", |o, x, w, p| write!(o, "{:*<+w$.p$X?}", x, w = w, p = p)),
    ("*<+0?", |o, x, _, _| write!(o, "{:*<+0?}", x)),
    ("*<+0x?", |o, x, _, _| write!(o, "{:*<+0x?}", x)),
    ("*<+0X?", |o, x, _, _| write!(o, "{:*<+0X?}", x)),
    ("*<+0.p$?", |o, x, _, p| write!(o, "{:*<+0.p$?}", x, p = p)),
    ("*<+0.p$x?", |o, x, _, p| write!(o, "{:*<+0.p$x?}", x, p = p)),
    ("*<+0.p$X?", |o, x, _, p| write!(o, "{:*<+0.p$X?}", x, p = p)),
    ("*<+0w$?", |o, x, w, _| write!(o, "{:*<+0w$?}", x, w = w)),
    ("*<+0w$x?", |o, x, w, _| write!(o, "{:*<+0w$x?}", x, w = w)),
    ("*<+0w$X?", |o, x, w, _| write!(o, "{:*<+0w$X?}", x, w = w)),
    ("*<+0w$.p$?", |o, x, w, p| write!(o, "{:*<+0w$.p$?}", x, w = w, p = p)),
    ("*<+0w$.p$x?", |o, x, w, p| write!(o, "{:*<+0w$.p$x?}", x, w = w, p = p)),
    ("*<+0w$.p$X?", |o, x, w, p| write!(o, "{:*<+0w$.p$X?}", x, w = w, p = p)),
    ("*<+#?", |o, x, _, _| write!(o, "{:*<+#?}", x)),
    ("*<+#x?", |o, x, _, _| write!(o, "{:*<+#x?}", x)),
    ("*<+#X?", |o, x, _, _| write!(o, "{:*<+#X?}", x)),
    ("*<+#.p$?", |o, x, _, p| write!(o, "{:*<+#.p$?}", x, p = p)),
    ("*<+#.p$x?", |o, x, _, p| write!(o, "{:*<+#.p$x?}", x, p = p)),
    ("*<+#.p$X?", |o, x, _, p| write!(o, "{:*<+#.p$X?}", x, p = p)),
    ("*<+#w$?", |o, x, w, _| write!(o, "{:*<+#w$?}", x, w = w)),
    ("*<+#w$x?", |o, x, w, _| write!(o, "{:*<+#w$x?}", x, w = w)),
    ("*<+#w$X?", |o, x, w, _| write!(o, "{:*<+#w$X?}", x, w = w)),
    ("*<+#w$.p$?", |o, x, w, p| write!(o, "{:*<+#w$.p$?}", x, w = w, p = p)),
    ("*<+#w$.p$x?", |o, x, w, p| write!(o, "{:*<+#w$.p$x?}", x, w = w, p = p)),
    ("*<+#w$.p$X?", |o, x, w, p| write!(o, "{:*<+#w$.p$X?}", x, w = w, p = p)),
    ("*<+#0?", |o, x, _, _| write!(o, "{:*<+#0?}", x)),
    ("*<+#0x?", |o, x, _, _| write!(o, "{:*<+#0x?}", x)),
    ("*<+#0X?", |o, x, _, _| write!(o, "{:*<+#0X?}", x)),
    ("*<+#0.p$?", |o, x, _, p| write!(o, "{:*<+#0.p$?}", x, p = p)),
    ("*<+#0.p$x?", |o, x, _, p| write!(o, "{:*<+#0.p$x?}", x, p = p)),
    ("*<+#0.p$X?", |o, x, _, p| write!(o, "{:*<+#0.p$X?}", x, p = p)),
    ("*<+#0w$?", |o, x, w, _| write!(o, "{:*<+#0w$?}", x, w = w)),
    ("*<+#0w$x?", |o, x, w, _| write!(o, "{:*<+#0w$x?}", x, w = w)),
    ("*<+#0w$X?", |o, x, w, _| write!(o, "{:*<+#0w$X?}", x, w = w)),
    ("*<+#0w$.p$?", |o, x, w, p| write!(o, "{:*<+#0w$.p$?}", x, w = w, p = p)),
    ("*<+#0w$.p$x?", |o, x, w, p| write!(o, "{:*<+#0w$.p$x?}", x, w = w, p = p)),
    ("*<+#0w$.p$X?", |o, x, w, p| write!(o, "{:*<+#0w$.p$X?}", x, w = w, p = p)),
    ("*<-?", |o, x, _, _| write!(o, "{:*<-?}", x)),
    ("*<-x?", |o, x, _, _| write!(o, "{:*<-x?}", x)),
    ("*<-X?", |o, x, _, _| write!(o, "{:*<-X?}", x)),
    ("*<-.p$?", |o, x, _, p| write!(o, "{:*<-.p$?}", x, p = p)),
    ("*<-.p$x?", |o, x, _, p| write!(o, "{:*<-.p$x?}", x, p = p)),
    ("*<-.p$X?", |o, x, _, p| write!(o, "{:*<-.p$X?}", x, p = p)),
    ("*<-w$?", |o, x, w, _| write!(o, "{:*<-w$?}", x, w = w)),
    ("*<-w$x?", |o, x, w, _| write!(o, "{:*<-w$x?}", x, w = w)),
    ("*<-w$X?", |o, x, w, _| write!(o, "{:*<-w$X?}", x, w = w)),
    ("*<-w$.p$?", |o, x, w, p| write!(o, "{:*<-w$.p$?}", x, w = w, p = p)),
    ("*<-w$.p$x?", |o, x, w, p| write!(o, "{:*<-w$.p$x?}", x, w = w, p = p)),
    ("*<-w$.p$X?", |o, x, w, p| write!(o, "{:*<-w$.p$X?}", x, w = w, p = p)),
    ("*<-0?", |o, x, _, _| write!(o, "{:*<-0?}", x)),
    ("*<-0x?", |o, x, _, _| write!(o, "{:*<-0x?}", x)),
    ("*<-0X?", |o, x, _, _| write!(o, "{:*<-0X?}", x)),
    ("*<-0.p$?", |o, x, _, p| write!(o, "{:*<-0.p$?}", x, p = p)),
    ("*<-0.p$x?", |o, x, _, p| write!(o, "{:*<-0.p$x?}", x, p = p)),
    ("*<-0.p$X?", |o, x, _, p| write!(o, "{:*<-0.p$X?}", x, p = p)),
    ("*<-0w$?", |o, x, w, _| write!(o, "{:*<-0w$?}", x, w = w)),
    ("*<-0w$x?", |o, x, w, _| write!(o, "{:*<-0w$x?}", x, w = w)),
    ("*<-0w$X?", |o, x, w, _| write!(o, "{:*<-0w$X?}", x, w = w)),
    ("*<-0w$.p$?", |o, x, w, p| write!(o, "{:*<-0w$.p$?}", x, w = w, p = p)),
    ("*<-0w$.p$x?", |o, x, w, p| write!(o, "{:*<-0w$.p$x?}", x, w = w, p = p)),
    ("*<-0w$.p$X?", |o, x, w, p| write!(o, "{:*<-0w$.p$X?}", x, w = w, p = p)),
    ("*<-#?", |o, x, _, _| write!(o, "{:*<-#?}", x)),
    ("*<-#x?", |o, x, _, _| write!(o, "{:*<-#x?}", x)),
    ("*<-#X?", |o, x, _, _| write!(o, "{:*<-#X?}", x)),
    ("*<-#.p$?", |o, x, _, p| write!(o, "{:*<-#.p$?}", x, p = p)),
    ("*<-#.p$x?", |o, x, _, p| write!(o, "{:*<-#.p$x?}", x, p = p)),
    ("*<-#.p$X?", |o, x, _, p| write!(o, "{:*<-#.p$X?}", x, p = p)),
    ("*<-#w$?", |o, x, w, _| write!(o, "{:*<-#w$?}", x, w = w)),
    ("*<-#w$x?", |o, x, w, _| write!(o, "{:*<-#w$x?}", x, w = w)),
    ("*<-#w$X?", |o, x, w, _| write!(o, "{:*<-#w$X?}", x, w = w)),
    ("*<-#w$.p$?", |o, x, w, p| write!(o, "{:*<-#w$.p$?}", x, w = w, p = p)),
    ("*<-#w$.p$x?", |o, x, w, p| write!(o, "{:*<-#w$.p$x?}", x, w = w, p = p)),
    ("*<-#w$.p$X?", |o, x, w, p| write!(o, "{:*<-#w$.p$X?}", x, w = w, p = p)),
    ("*<-#0?", |o, x, _, _| write!(o, "{:*<-#0?}", x)),
    ("*<-#0x?", |o, x, _, _| write!(o, "{:*<-#0x?}", x)),
    ("*<-#0X?", |o, x, _, _| write!(o, "{:*<-#0X?}", x)),
    ("*<-#0.p$?", |o, x, _, p| write!(o, "{:*<-#0.p$?}", x, p = p)),
    ("*<-#0.p$x?", |o, x, _, p| write!(o, "{:*<-#0.p$x?}", x, p = p)),
    ("*<-#0.p$X?", |o, x, _, p| write!(o, "{:*<-#0.p$X?}", x, p = p)),
    ("*<-#0w$?", |o, x, w, _| write!(o, "{:*<-#0w$?}", x, w = w)),
    ("*<-#0w$x?", |o, x, w, _| write!(o, "{:*<-#0w$x?}", x, w = w)),
    ("*<-#0w$X?", |o, x, w, _| write!(o, "{:*<-#0w$X?}", x, w = w)),
    ("*<-#0w$.p$?", |o, x, w, p| write!(o, "{:*<-#0w$.p$?}", x, w = w, p = p)),
    ("*<-#0w$.p$x?", |o, x, w, p| write!(o, "{:*<-#0w$.p$x?}", x, w = w, p = p)),
    ("*<-#0w$.p$X?", |o, x, w, p| write!(o, "{:*<-#0w$.p$X?}", x, w = w, p = p)),
    ("0>?", |o, x, _, _| write!(o, "{:0>?}", x)),
    ("0>x?", |o, x, _, _| write!(o, "{:0>x?}", x)),
    ("0>X?", |o, x, _, _| write!(o, "{:0>X?}", x)),
    ("0>.p$?", |o, x, _, p| write!(o, "{:0>.p$?}", x, p = p)),
    ("0>.p$x?", |o, x, _, p| write!(o, "{:0>.p$x?}", x, p = p)),
    ("0>.p$X?", |o, x, _, p| write!(o, "{:0>.p$X?}", x, p = p)),
    ("0>w$?", |o, x, w, _| write!(o, "{:0>w$?}", x, w = w)),
    ("0>w$x?", |o, x, w, _| write!(o, "{:0>w$x?}", x, w = w)),
    ("0>w$X?", |o, x, w, _| write!(o, "{:0>w$X?}", x, w = w)),
    ("0>w$.p$?", |o, x, w, p| write!(o, "{:0>w$.p$?}", x, w = w, p = p)),
    ("0>w$.p$x?", |o, x, w, p| write!(o, "{:0>w$.p$x?}", x, w = w, p = p)),
    ("0>w$.p$X?", |o, x, w, p| write!(o, "{:0>w$.p$X?}", x, w = w, p = p)),
    ("0>0?", |o, x, _, _| write!(o, "{:0>0?}", x)),
    ("0>0x?", |o, x, _, _| write!(o, "{:0>0x?}", x)),
    ("0>0X?", |o, x, _, _| write!(o, "{:0>0X?}", x)),
    ("0>0.p$?", |o, x, _, p| write!(o, "{:0>0.p$?}", x, p = p)),
    ("0>0.p$x?", |o, x, _, p| write!(o, "{:0>0.p$x?}", x, p = p)),
    ("0>0.p$X?", |o, x, _, p| write!(o, "{:0>0.p$X?}", x, p = p)),
    ("0>0w$?", |o, x, w, _| write!(o, "{:0>0w$?}", x, w = w)),
    ("0>0w$x?", |o, x, w, _| write!(o, "{:0>0w$x?}", x, w = w)),
    ("0>0w$X?", |o, x, w, _| write!(o, "{:0>0w$X?}", x, w = w)),
    ("0>0w$.p$?", |o, x, w, p| write!(o, "{:0>0w$.p$?}", x, w = w, p = p)),
    ("0>0w$.p$x?", |o, x, w, p| write!(o, "{:0>0w$.p$x?}", x, w = w, p = p)),
    ("0>0w$.p$X?", |o, x, w, p| write!(o, "{:0>0w$.p$X?}", x, w = w, p = p)),
    ("0>#?", |o, x, _, _| write!(o, "{:0>#?}", x)),
    ("0>#x?", |o, x, _, _| write!(o, "{:0>#x?}", x)),
    ("0>#X?", |o, x, _, _| write!(o, "{:0>#X?}", x)),
    ("0>#.p$?", |o, x, _, p| write!(o, "{:0>#.p$?}", x, p = p)),
    ("0>#.p$x?", |o, x, _, p| write!(o, "{:0>#.p$x?}", x, p = p)),
    ("0>#.p$X?", |o, x, _, p| write!(o, "{:0>#.p$X?}", x, p = p)),
    ("0>#w$?", |o, x, w, _| write!(o, "{:0>#w$?}", x, w = w)),
    ("0>#w$x?", |o, x, w, _| write!(o, "{:0>#w$x?}", x, w = w)),
    ("0>#w$X?", |o, x, w, _| write!(o, "{:0>#w$X?}", x, w = w)),
    ("0>#w$.p$?", |o, x, w, p| write!(o, "{:0>#w$.p$?}", x, w = w, p = p)),
    ("0>#w$.p$x?", |o, x, w, p| write!(o, "{:0>#w$.p$x?}", x, w = w, p = p)),
    ("0>#w$.p$X?", |o, x, w, p| write!(o, "{:0>#w$.p$X?}", x, w = w, p = p)),
    ("0>#0?", |o, x, _, _| write!(o, "{:0>#0?}", x)),
    ("0>#0x?", |o, x, _, _| write!(o, "{:0>#0x?}", x)),
    ("0>#0X?", |o, x, _, _| write!(o, "{:0>#0X?}", x)),
    ("0>#0.p$?", |o, x, _, p| write!(o, "{:0>#0.p$?}", x, p = p)),
    ("0>#0.p$x?", |o, x, _, p| write!(o, "{:0>#0.p$x?}", x, p = p)),
    ("0>#0.p$X?", |o, x, _, p| write!(o, "{:0>#0.p$X?}", x, p = p)),
    ("0>#0w$?", |o, x, w, _| write!(o, "{:0>#0w$?}", x, w = w)),
    ("0>#0w$x?", |o, x, w, _| write!(o, "{:0>#0w$x?}", x, w = w)),
    ("0>#0w$X?", |o, x, w, _| write!(o, "{:0>#0w$X?}", x, w = w)),
    ("0>#0w$.p$?", |o, x, w, p| write!(o, "{:0>#0w$.p$?}", x, w = w, p = p)),
    ("0>#0w$.p$x?", |o, x, w, p| write!(o, "{:0>#0w$.p$x?}", x, w = w, p = p)),
    ("0>#0w$.p$X?", |o, x, w, p| write!(o, "{:0>#0w$.p$X?}", x, w = w, p = p)),
    ("0>+?", |o, x, _, _| write!(o, "{:0>+?}", x)),
    ("0>+x?", |o, x, _, _| write!(o, "{:0>+x?}", x)),
    ("0>+X?", |o, x, _, _| write!(o, "{:0>+X?}", x)),
    ("0>+.p$?", |o, x, _, p| write!(o, "{:0>+.p$?}", x, p = p)),
    ("0>+.p$x?", |o, x, _, p| write!(o, "{:0>+.p$x?}", x, p = p)),
    ("0>+.p$X?", |o, x, _, p| write!(o, "{:0>+.p$X?}", x, p = p)),
    ("0>+w$?", |o, x, w, _| write!(o, "{:0>+w$?}", x, w = w)),
    ("0>+w$x?", |o, x, w, _| write!(o, "{:0>+w$x?}", x, w = w)),
    ("0>+w$X?", |o, x, w, _| write!(o, "{:0>+w$X?}", x, w = w)),
    ("0>+w$.p$?", |o, x, w, p| write!(o, "{:0>+w$.p$?}", x, w = w, p = p)),
    ("0>+w$.p$x?", |o, x, w, p| write!(o, "{:0>+w$.p$x?}", x, w = w, p = p)),
    ("0>+w$.p$X?", |o, x, w, p| write!(o, "{:0>+w$.p$X?}", x, w = w, p = p)),
    ("0>+0?", |o, x, _, _| write!(o, "{:0>+0?}", x)),
    ("0>+0x?", |o, x, _, _| write!(o, "{:0>+0x?}", x)),
    ("0>+0X?", |o, x, _, _| write!(o, "{:0>+0X?}", x)),
    ("0>+0.p$?", |o, x, _, p| write!(o, "{:0>+0.p$?}", x, p = p)),
    ("0>+0.p$x?", |o, x, _, p| write!(o, "{:0>+0.p$x?}", x, p = p)),
    ("0>+0.p$X?", |o, x, _, p| write!(o, "{:0>+0.p$X?}", x, p = p)),
    ("0>+0w$?", |o, x, w, _| write!(o, "{:0>+0w$?}", x, w = w)),
    ("0>+0w$x?", |o, x, w, _| write!(o, "{:0>+0w$x?}", x, w = w)),
    ("0>+0w$X?", |o, x, w, _| write!(o, "{:0>+0w$X?}", x, w = w)),
    ("0>+0w$.p$?", |o, x, w, p| write!(o, "{:0>+0w$.p$?}", x, w = w, p = p)),
    ("0>+0w$.p$x?", |o, x, w, p| write!(o, "{:0>+0w$.p$x?}", x, w = w, p = p)),
    ("0>+0w$.p$X?", |o, x, w, p| write!(o, "{:0>+0w$.p$X?}", x, w = w, p = p)),
    ("0>+#?", |o, x, _, _| write!(o, "{:0>+#?}", x)),
    ("0>+#x?", |o, x, _, _| write!(o, "{:0>+#x?}", x)),
    ("0>+#X?", |o, x, _, _| write!(o, "{:0>+#X?}", x)),
    ("0>+#.p$?", |o, x, _, p| write!(o, "{:0>+#.p$?}", x, p = p)),
    ("0>+#.p$x?", |o, x, _, p| write!(o, "{:0>+#.p$x?}", x, p = p)),
    ("0>+#.p$X?", |o, x, _, p| write!(o, "{:0>+#.p$X?}", x, p = p)),
    ("0>+#w$?", |o, x, w, _| write!(o, "{:0>+#w$?}", x, w = w)),
    ("0>+#w$x?", |o, x, w, _| write!(o, "{:0>+#w$x?}", x, w = w)),
    ("0>+#w$X?", |o, x, w, _| write!(o, "{:0>+#w$X?}", x, w = w)),
    ("0>+#w$.p$?", |o, x, w, p| write!(o, "{:0>+#w$.p$?}", x, w = w, p = p)),
    ("0>+#w$.p$x?", |o, x, w, p| write!(o, "{:0>+#w$.p$x?}", x, w = w, p = p)),
    ("0>+#w$.p$X?", |o, x, w, p| write!(o, "{:0>+#w$.p$X?}", x, w = w, p = p)),
    ("0>+#0?", |o, x, _, _| write!(o, "{:0>+#0?}", x)),
    ("0>+#0x?", |o, x, _, _| write!(o, "{:0>+#0x?}", x)),
    ("0>+#0X?", |o, x, _, _| write!(o, "{:0>+#0X?}", x)),
    ("0>+#0.p$?", |o, x, _, p| write!(o, "{:0>+#0.p$?}", x, p = p)),
    ("0>+#0.p$x?", |o, x, _, p| write!(o, "{:0>+#0.p$x?}", x, p = p)),
    ("0>+#0.p$X?", |o, x, _, p| write!(o, "{:0>+#0.p$X?}", x, p = p)),
    ("0>+#0w$?", |o, x, w, _| write!(o, "{:0>+#0w$?}", x, w = w)),
    ("0>+#0w$x?", |o, x, w, _| write!(o, "{:0>+#0w$x?}", x, w = w)),
    ("0>+#0w$X?", |o, x, w, _| write!(o, "{:0>+#0w$X?}", x, w = w)),
    ("0>+#0w$.p$?", |o, x, w, p| write!(o, "{:0>+#0w$.p$?}", x, w = w, p = p)),
    ("0>+#0w$.p$x?", |o, x, w, p| write!(o, "{:0>+#0w$.p$x?}", x, w = w, p = p)),
    ("0>+#0w$.p$X?", |o, x, w, p| write!(o, "{:0>+#0w$.p$X?}", x, w = w, p = p)),
    ("0>-?", |o, x, _, _| write!(o, "{:0>-?}", x)),
    ("0>-x?", |o, x, _, _| write!(o, "{:0>-x?}", x)),
    ("0>-X?", |o, x, _, _| write!(o, "{:0>-X?}", x)),
    ("0>-.p$?", |o, x, _, p| write!(o, "{:0>-.p$?}", x, p = p)),
    ("0>-.p$x?", |o, x, _, p| write!(o, "{:0>-.p$x?}", x, p = p)),
    ("0>-.p$X?", |o, x, _, p| write!(o, "{:0>-.p$X?}", x, p = p)),
    ("0>-w$?", |o, x, w, _| write!(o, "{:0>-w$?}", x, w = w)),
    ("0>-w$x?", |o, x, w, _| write!(o, "{:0>-w$x?}", x, w = w)),
    ("0>-w$X?", |o, x, w, _| write!(o, "{:0>-w$X?}", x, w = w)),
    ("0>-w$.p$?", |o, x, w, p| write!(o, "{:0>-w$.p$?}", x, w = w, p = p)),
    ("0>-w$.p$x?", |o, x, w, p| write!(o, "{:0>-w$.p$x?}", x, w = w, p = p)),
    ("0>-w$.p$X?", |o, x, w, p| write!(o, "{:0>-w$.p$X?}", x, w = w, p = p)),
    ("0>-0?", |o, x, _, _| write!(o, "{:0>-0?}", x)),
    ("0>-0x?", |o, x, _, _| write!(o, "{:0>-0x?}", x)),
    ("0>-0X?", |o, x, _, _| write!(o, "{:0>-0X?}", x)),
    ("0>-0.p$?", |o, x, _, p| write!(o, "{:0>-0.p$?}", x, p = p)),
    ("0>-0.p$x?", |o, x, _, p| write!(o, "{:0>-0.p$x?}", x, p = p)),
    ("0>-0.p$X?", |o, x, _, p| write!(o, "{:0>-0.p$X?}", x, p = p)),
    ("0>-0w$?", |o, x, w, _| write!(o, "{:0>-0w$?}", x, w = w)),
    ("0>-0w$x?", |o, x, w, _| write!(o, "{:0>-0w$x?}", x, w = w)),
    ("0>-0w$X?", |o, x, w, _| write!(o, "{:0>-0w$X?}", x, w = w)),
    ("0>-0w$.p$?", |o, x, w, p| write!(o, "{:0>-0w$.p$?}", x, w = w, p = p)),
    ("0>-0w$.p$x?", |o, x, w, p| write!(o, "{:0>-0w$.p$x?}", x, w = w, p = p)),
    ("0>-0w$.p$X?", |o, x, w, p| write!(o, "{:0>-0w$.p$X?}", x, w = w, p = p)),
    ("0>-#?", |o, x, _, _| write!(o, "{:0>-#?}", x)),
    ("0>-#x?", |o, x, _, _| write!(o, "{:0>-#x?}", x)),
    ("0>-#X?", |o, x, _, _| write!(o, "{:0>-#X?}", x)),
    ("0>-#.p$?", |o, x, _, p| write!(o, "{:0>-#.p$?}", x, p = p)),
    ("0>-#.p$x?", |o, x, _, p| write!(o, "{:0>-#.p$x?}", x, p = p)),
    ("0>-#.p$X?", |o, x, _, p| write!(o, "{:0>-#.p$X?}", x, p = p)),
    ("0>-#w$?", |o, x, w, _| write!(o, "{:0>-#w$?}", x, w = w)),
    ("0>-#w$x?", |o, x, w, _| write!(o, "{:0>-#w$x?}", x, w = w)),
    ("0>-#w$X?", |o, x, w, _| write!(o, "{:0>-#w$X?}", x, w = w)),
    ("0>-#w$.p$?", |o, x, w, p| write!(o, "{:0>-#w$.p$?}", x, w = w, p = p)),
    ("0>-#w$.p$x?", |o, x, w, p| write!(o, "{:0>-#w$.p$x?}", x, w = w, p = p)),
    ("0>-#w$.p$X?", |o, x, w, p| write!(o, "{:0>-#w$.p$X?}", x, w = w, p = p)),
    ("0>-#0?", |o, x, _, _| write!(o, "{:0>-#0?}", x)),
    ("0>-#0x?", |o, x, _, _| write!(o, "{:0>-#0x?}", x)),
    ("0>-#0X?", |o, x, _, _| write!(o, "{:0>-#0X?}", x)),
    ("0>-#0.p$?", |o, x, _, p| write!(o, "{:0>-#0.p$?}", x, p = p)),
    ("0>-#0.p$x?", |o, x, _, p| write!(o, "{:0>-#0.p$x?}", x, p = p)),
    ("0>-#0.p$X?", |o, x, _, p| write!(o, "{:0>-#0.p$X?}", x, p = p)),
    ("0>-#0w$?", |o, x, w, _| write!(o, "{:0>-#0w$?}", x, w = w)),
    ("0>-#0w$x?", |o, x, w, _| write!(o, "{:0>-#0w$x?}", x, w = w)),
    ("0>-#0w$X?", |o, x, w, _| write!(o, "{:0>-#0w$X?}", x, w = w)),
    ("0>-#0w$.p$?", |o, x, w, p| write!(o, "{:0>-#0w$.p$?}", x, w = w, p = p)),
    ("0>-#0w$.p$x?", |o, x, w, p| write!(o, "{:0>-#0w$.p$x?}", x, w = w, p = p)),
    ("0>-#0w$.p$X?", |o, x, w, p| write!(o, "{:0>-#0w$.p$X?}", x, w = w, p = p)),
    ("é^?", |o, x, _, _| write!(o, "{:é^?}", x)),
    ("é^x?", |o, x, _, _| write!(o, "{:é^x?}", x)),
    ("é^X?", |o, x, _, _| write!(o, "{:é^X?}", x)),
    ("é^.p$?", |o, x, _, p| write!(o, "{:é^.p$?}", x, p = p)),
    ("é^.p$x?", |o, x, _, p| write!(o, "{:é^.p$x?}", x, p = p)),
    ("é^.p$X?", |o, x, _, p| write!(o, "{:é^.p$X?}", x, p = p)),
    ("é^w$?", |o, x, w, _| write!(o, "{:é^w$?}", x, w = w)),
    ("é^w$x?", |o, x, w, _| write!(o, "{:é^w$x?}", x, w = w)),
    ("é^w$X?", |o, x, w, _| write!(o, "{:é^w$X?}", x, w = w)),
    ("é^w$.p$?", |o, x, w, p| write!(o, "{:é^w$.p$?}", x, w = w, p = p)),
    ("é^w$.p$x?", |o, x, w, p| write!(o, "{:é^w$.p$x?}", x, w = w, p = p)),
    ("é^w$.p$X?", |o, x, w, p| write!(o, "{:é^w$.p$X?}", x, w = w, p = p)),
    ("é^0?", |o, x, _, _| write!(o, "{:é^0?}", x)),
    ("é^0x?", |o, x, _, _| write!(o, "{:é^0x?}", x)),
    ("é^0X?", |o, x, _, _| write!(o, "{:é^0X?}", x)),
    ("é^0.p$?", |o, x, _, p| write!(o, "{:é^0.p$?}", x, p = p)),
    ("é^0.p$x?", |o, x, _, p| write!(o, "{:é^0.p$x?}", x, p = p)),
    ("é^0.p$X?", |o, x, _, p| write!(o, "{:é^0.p$X?}", x, p = p)),
    ("é^0w$?", |o, x, w, _| write!(o, "{:é^0w$?}", x, w = w)),
    ("é^0w$x?", |o, x, w, _| write!(o, "{:é^0w$x?}", x, w = w)),
    ("é^0w$X?", |o, x, w, _| write!(o, "{:é^0w$X?}", x, w = w)),
    ("é^0w$.p$?", |o, x, w, p| write!(o, "{:é^0w$.p$?}", x, w = w, p = p)),
    ("é^0w$.p$x?", |o, x, w, p| write!(o, "{:é^0w$.p$x?}", x, w = w, p = p)),
    ("é^0w$.p$X?", |o, x, w, p| write!(o, "{:é^0w$.p$X?}", x, w = w, p = p)),
    ("é^#?", |o, x, _, _| write!(o, "{:é^#?}", x)),
    ("é^#x?", |o, x, _, _| write!(o, "{:é^#x?}", x)),
    ("é^#X?", |o, x, _, _| write!(o, "{:é^#X?}", x)),
    ("é^#.p$?", |o, x, _, p| write!(o, "{:é^#.p$?}", x, p = p)),
    ("é^#.p$x?", |o, x, _, p| write!(o, "{:é^#.p$x?}", x, p = p)),
    ("é^#.p$X?", |o, x, _, p| write!(o, "{:é^#.p$X?}", x, p = p)),
    ("é^#w$?", |o, x, w, _| write!(o, "{:é^#w$?}", x, w = w)),
    ("é^#w$x?", |o, x, w, _| write!(o, "{:é^#w$x?}", x, w = w)),
    ("é^#w$X?", |o, x, w, _| write!(o, "{:é^#w$X?}", x, w = w)),
    ("é^#w$.p$?", |o, x, w, p| write!(o, "{:é^#w$.p$?}", x, w = w, p = p)),
    ("é^#w$.p$x?", |o, x, w, p| write!(o, "{:é^#w$.p$x?}", x, w = w, p = p)),
    ("é^#w$.p$X?", |o, x, w, p| write!(o, "{:é^#w$.p$X?}", x, w = w, p = p)),
    ("é^#0?", |o, x, _, _| write!(o, "{:é^#0?}", x)),
    ("é^#0x?", |o, x, _, _| write!(o, "{:é^#0x?}", x)),
    ("é^#0X?", |o, x, _, _| write!(o, "{:é^#0X?}", x)),
    ("é^#0.p$?", |o, x, _, p| write!(o, "{:é^#0.p$?}", x, p = p)),
    ("é^#0.p$x?", |o, x, _, p| write!(o, "{:é^#0.p$x?}", x, p = p)),
    ("é^#0.p$X?", |o, x, _, p| write!(o, "{:é^#0.p$X?}", x, p = p)),
    ("é^#0w$?", |o, x, w, _| write!(o, "{:é^#0w$?}", x, w = w)),
    ("é^#0w$x?", |o, x, w, _| write!(o, "{:é^#0w$x?}", x, w = w)),
    ("é^#0w$X?", |o, x, w, _| write!(o, "{:é^#0w$X?}", x, w = w)),
    ("é^#0w$.p$?", |o, x, w, p| write!(o, "{:é^#0w$.p$?}", x, w = w, p = p)),
    ("é^#0w$.p$x?", |o, x, w, p| write!(o, "{:é^#0w$.p$x?}", x, w = w, p = p)),
    ("é^#0w$.p$X?", |o, x, w, p| write!(o, "{:é^#0w$.p$X?}", x, w = w, p = p)),
    ("é^+?", |o, x, _, _| write!(o, "{:é^+?}", x)),
    ("é^+x?", |o, x, _, _| write!(o, "{:é^+x?}", x)),
    ("é^+X?", |o, x, _, _| write!(o, "{:é^+X?}", x)),
    ("é^+.p$?", |o, x, _, p| write!(o, "{:é^+.p$?}", x, p = p)),
    ("é^+.p$x?", |o, x, _, p| write!(o, "{:é^+.p$x?}", x, p = p)),
    ("é^+.p$X?", |o, x, _, p| write!(o, "{:é^+.p$X?}", x, p = p)),
    ("é^+w$?", |o, x, w, _| write!(o, "{:é^+w$?}", x, w = w)),
    ("é^+w$x?", |o, x, w, _| write!(o, "{:é^+w$x?}", x, w = w)),
    ("é^+w$X?", |o, x, w, _| write!(o, "{:é^+w$X?}", x, w = w)),
    ("é^+w$.p$?", |o, x, w, p| write!(o, "{:é^+w$.p$?}", x, w = w, p = p)),
    ("é^+w$.p$x?", |o, x, w, p| write!(o, "{:é^+w$.p$x?}", x, w = w, p = p)),
    ("é^+w$.p$X?", |o, x, w, p| write!(o, "{:é^+w$.p$X?}", x, w = w, p = p)),
    ("é^+0?", |o, x, _, _| write!(o, "{:é^+0?}", x)),
    ("é^+0x?", |o, x, _, _| write!(o, "{:é^+0x?}", x)),
    ("é^+0X?", |o, x, _, _| write!(o, "{:é^+0X?}", x)),
    ("é^+0.p$?", |o, x, _, p| write!(o, "{:é^+0.p$?}", x, p = p)),
    ("é^+0.p$x?", |o, x, _, p| write!(o, "{:é^+0.p$x?}", x, p = p)),
    ("é^+0.p$X?", |o, x, _, p| write!(o, "{:é^+0.p$X?}", x, p = p)),
    ("é^+0w$?", |o, x, w, _| write!(o, "{:é^+0w$?}", x, w = w)),
    ("é^+0w$x?", |o, x, w, _| write!(o, "{:é^+0w$x?}", x, w = w)),
    ("é^+0w$X?", |o, x, w, _| write!(o, "{:é^+0w$X?}", x, w = w)),
    ("é^+0w$.p$?", |o, x, w, p| write!(o, "{:é^+0w$.p$?}", x, w = w, p = p)),
    ("é^+0w$.p$x?", |o, x, w, p| write!(o, "{:é^+0w$.p$x?}", x, w = w, p = p)),
    ("é^+0w$.p$X?", |o, x, w, p| write!(o, "{:é^+0w$.p$X?}", x, w = w, p = p)),
    ("é^+#?", |o, x, _, _| write!(o, "{:é^+#?}", x)),
    ("é^+#x?", |o, x, _, _| write!(o, "{:é^+#x?}", x)),
    ("é^+#X?", |o, x, _, _| write!(o, "{:é^+#X?}", x)),
    ("é^+#.p$?", |o, x, _, p| write!(o, "{:é^+#.p$?}", x, p = p)),
    ("é^+#.p$x?", |o, x, _, p| write!(o, "{:é^+#.p$x?}", x, p = p)),
    ("é^+#.p$X?", |o, x, _, p| write!(o, "{:é^+#.p$X?}", x, p = p)),
    ("é^+#w$?", |o, x, w, _| write!(o, "{:é^+#w$?}", x, w = w)),
    ("é^+#w$x?", |o, x, w, _| write!(o, "{:é^+#w$x?}", x, w = w)),
    ("é^+#w$X?", |o, x, w, _| write!(o, "{:é^+#w$X?}", x, w = w)),
    ("é^+#w$.p$?", |o, x, w, p| write!(o, "{:é^+#w$.p$?}", x, w = w, p = p)),
    ("é^+#w$.p$x?", |o, x, w, p| write!(o, "{:é^+#w$.p$x?}", x, w = w, p = p)),
    ("é^+#w$.p$X?", |o, x, w, p| write!(o, "{:é^+#w$.p$X?}", x, w = w, p = p)),
    ("é^+#0?", |o, x, _, _| write!(o, "{:é^+#0?}", x)),
    ("é^+#0x?", |o, x, _, _| write!(o, "{:é^+#0x?}", x)),
    ("é^+#0X?", |o, x, _, _| write!(o, "{:é^+#0X?}", x)),
    ("é^+#0.p$?", |o, x, _, p| write!(o, "{:é^+#0.p$?}", x, p = p)),
    ("é^+#0.p$x?", |o, x, _, p| write!(o, "{:é^+#0.p$x?}", x, p = p)),
    ("é^+#0.p$X?", |o, x, _, p| write!(o, "{:é^+#0.p$X?}", x, p = p)),
    ("é^+#0w$?", |o, x, w, _| write!(o, "{:é^+#0w$?}", x, w = w)),
    ("é^+#0w$x?", |o, x, w, _| write!(o, "{:é^+#0w$x?}", x, w = w)),
    ("é^+#0w$X?", |o, x, w, _| write!(o, "{:é^+#0w$X?}", x, w = w)),
    ("é^+#0w$.p$?", |o, x, w, p| write!(o, "{:é^+#0w$.p$?}", x, w = w, p = p)),
    ("é^+#0w$.p$x?", |o, x, w, p| write!(o, "{:é^+#0w$.p$x?}", x, w = w, p = p)),
    ("é^+#0w$.p$X?", |o, x, w, p| write!(o, "{:é^+#0w$.p$X?}", x, w = w, p = p)),
    ("é^-?", |o, x, _, _| write!(o, "{:é^-?}", x)),
    ("é^-x?", |o, x, _, _| write!(o, "{:é^-x?}", x)),
    ("é^-X?", |o, x, _, _| write!(o, "{:é^-X?}", x)),
    ("é^-.p$?", |o, x, _, p| write!(o, "{:é^-.p$?}", x, p = p)),
    ("é^-.p$x?", |o, x, _, p| write!(o, "{:é^-.p$x?}", x, p = p)),
    ("é^-.p$X?", |o, x, _, p| write!(o, "{:é^-.p$X?}", x, p = p)),
    ("é^-w$?", |o, x, w, _| write!(o, "{:é^-w$?}", x, w = w)),
    ("é^-w$x?", |o, x, w, _| write!(o, "{:é^-w$x?}", x, w = w)),
    ("é^-w$X?", |o, x, w, _| write!(o, "{:é^-w$X?}", x, w = w)),
    ("é^-w$.p$?", |o, x, w, p| write!(o, "{:é^-w$.p$?}", x, w = w, p = p)),
    ("é^-w$.p$x?", |o, x, w, p| write!(o, "{:é^-w$.p$x?}", x, w = w, p = p)),
    ("é^-w$.p$X?", |o, x, w, p| write!(o, "{:é^-w$.p$X?}", x, w = w, p = p)),
    ("é^-0?", |o, x, _, _| write!(o, "{:é^-0?}", x)),
    ("é^-0x?", |o, x, _, _| write!(o, "{:é^-0x?}", x)),
    ("é^-0X?", |o, x, _, _| write!(o, "{:é^-0X?}", x)),
    ("é^-0.p$?", |o, x, _, p| write!(o, "{:é^-0.p$?}", x, p = p)),
    ("é^-0.p$x?", |o, x, _, p| write!(o, "{:é^-0.p$x?}", x, p = p)),
    ("é^-0.p$X?", |o, x, _, p| write!(o, "{:é^-0.p$X?}", x, p = p)),
    ("é^-0w$?", |o, x, w, _| write!(o, "{:é^-0w$?}", x, w = w)),
    ("é^-0w$x?", |o, x, w, _| write!(o, "{:é^-0w$x?}", x, w = w)),
    ("é^-0w$X?", |o, x, w, _| write!(o, "{:é^-0w$X?}", x, w = w)),
    ("é^-0w$.p$?", |o, x, w, p| write!(o, "{:é^-0w$.p$?}", x, w = w, p = p)),
    ("é^-0w$.p$x?", |o, x, w, p| write!(o, "{:é^-0w$.p$x?}", x, w = w, p = p)),
    ("é^-0w$.p$X?", |o, x, w, p| write!(o, "{:é^-0w$.p$X?}", x, w = w, p = p)),
    ("é^-#?", |o, x, _, _| write!(o, "{:é^-#?}", x)),
    ("é^-#x?", |o, x, _, _| write!(o, "{:é^-#x?}", x)),
    ("é^-#X?", |o, x, _, _| write!(o, "{:é^-#X?}", x)),
    ("é^-#.p$?", |o, x, _, p| write!(o, "{:é^-#.p$?}", x, p = p)),
    ("é^-#.p$x?", |o, x, _, p| write!(o, "{:é^-#.p$x?}", x, p = p)),
    ("é^-#.p$X?", |o, x, _, p| write!(o, "{:é^-#.p$X?}", x, p = p)),
    ("é^-#w$?", |o, x, w, _| write!(o, "{:é^-#w$?}", x, w = w)),
    ("é^-#w$x?", |o, x, w, _| write!(o, "{:é^-#w$x?}", x, w = w)),
    ("é^-#w$X?", |o, x, w, _| write!(o, "{:é^-#w$X?}", x, w = w)),
    ("é^-#w$.p$?", |o, x, w, p| write!(o, "{:é^-#w$.p$?}", x, w = w, p = p)),
    ("é^-#w$.p$x?", |o, x, w, p| write!(o, "{:é^-#w$.p$x?}", x, w = w, p = p)),
    ("é^-#w$.p$X?", |o, x, w, p| write!(o, "{:é^-#w$.p$X?}", x, w = w, p = p)),
    ("é^-#0?", |o, x, _, _| write!(o, "{:é^-#0?}", x)),
    ("é^-#0x?", |o, x, _, _| write!(o, "{:é^-#0x?}", x)),
    ("é^-#0X?", |o, x, _, _| write!(o, "{:é^-#0X?}", x)),
    ("é^-#0.p$?", |o, x, _, p| write!(o, "{:é^-#0.p$?}", x, p = p)),
    ("é^-#0.p$x?", |o, x, _, p| write!(o, "{:é^-#0.p$x?}", x, p = p)),
    ("é^-#0.p$X?", |o, x, _, p| write!(o, "{:é^-#0.p$X?}", x, p = p)),
    ("é^-#0w$?", |o, x, w, _| write!(o, "{:é^-#0w$?}", x, w = w)),
    ("é^-#0w$x?", |o, x, w, _| write!(o, "{:é^-#0w$x?}", x, w = w)),
    ("é^-#0w$X?", |o, x, w, _| write!(o, "{:é^-#0w$X?}", x, w = w)),
    ("é^-#0w$.p$?", |o, x, w, p| write!(o, "{:é^-#0w$.p$?}", x, w = w, p = p)),
    ("é^-#0w$.p$x?", |o, x, w, p| write!(o, "{:é^-#0w$.p$x?}", x, w = w, p = p)),
    ("é^-#0w$.p$X?", |o, x, w, p| write!(o, "{:é^-#0w$.p$X?}", x, w = w, p = p)),
];
pub static POINTER: [(&str, P); 336] = [
    ("p", |o, x, _, _| write!(o, "{:p}", Q(x))),
    (".p$p", |o, x, _, p| write!(o, "{:.p$p}", Q(x), p = p)),
    ("w$p", |o, x, w, _| write!(o, "{:w$p}", Q(x), w = w)),
    ("w$.p$p", |o, x, w, p| write!(o, "{:w$.p$p}", Q(x), w = w, p = p)),
    ("0p", |o, x, _, _| write!(o, "{:0p}", Q(x))),
    ("0.p$p", |o, x, _, p| write!(o, "{:0.p$p}", Q(x), p = p)),
    ("0w$p", |o, x, w, _| write!(o, "{:0w$p}", Q(x), w = w)),
    ("0w$.p$p", |o, x, w, p| write!(o, "{:0w$.p$p}", Q(x), w = w, p = p)),
    ("#p", |o, x, _, _| write!(o, "{:#p}", Q(x))),
    ("#.p$p", |o, x, _, p| write!(o, "{:#.p$p}", Q(x), p = p)),
    ("#w$p", |o, x, w, _| write!(o, "{:#w$p}", Q(x), w = w)),
    ("#w$.p$p", |o, x, w, p| write!(o, "{:#w$.p$p}", Q(x), w = w, p = p)),
    ("#0p", |o, x, _, _| write!(o, "{:#0p}", Q(x))),
    ("#0.p$p", |o, x, _, p| write!(o, "{:#0.p$p}", Q(x), p = p)),
    ("#0w$p", |o, x, w, _| write!(o, "{:#0w$p}", Q(x), w = w)),
    ("#0w$.p$p", |o, x, w, p| write!(o, "{:#0w$.p$p}", Q(x), w = w, p = p)),
    ("+p", |o, x, _, _| write!(o, "{:+p}", Q(x))),
    ("+.p$p", |o, x, _, p| write!(o, "{:+.p$p}", Q(x), p = p)),
    ("+w$p", |o, x, w, _| write!(o, "{:+w$p}", Q(x), w = w)),
    ("+w$.p$p", |o, x, w, p| write!(o, "{:+w$.p$p}", Q(x), w = w, p = p)),
    ("+0p", |o, x, _, _| write!(o, "{:+0p}", Q(x))),
    ("+0.p$p", |o, x, _, p| write!(o, "{:+0.p$p}", Q(x), p = p)),
    ("+0w$p", |o, x, w, _| write!(o, "{:+0w$p}", Q(x), w = w)),
    ("+0w$.p$p", |o, x, w, p| write!(o, "{:+0w$.p$p}", Q(x), w = w, p = p)),
    ("+#p", |o, x, _, _| write!(o, "{:+#p}", Q(x))),
    ("+#.p$p", |o, x, _, p| write!(o, "{:+#.p$p}", Q(x), p = p)),
    ("+#w$p", |o, x, w, _| write!(o, "{:+#w$p}", Q(x), w = w)),
    ("+#w$.p$p", |o, x, w, p| write!(o, "{:+#w$.p$p}", Q(x), w = w, p = p)),
    ("+#0p", |o, x, _, _| write!(o, "{:+#0p}", Q(x))),
    ("+#0.p$p", |o, x, _, p| write!(o, "{:+#0.p$p}", Q(x), p = p)),
    ("+#0w$p", |o, x, w, _| write!(o, "{:+#0w$p}", Q(x), w = w)),
    ("+#0w$.p$p", |o, x, w, p| write!(o, "{:+#0w$.p$p}", Q(x), w = w, p = p)),
    ("-p", |o, x, _, _| write!(o, "{:-p}", Q(x))),
    ("-.p$p", |o, x, _, p| write!(o, "{:-.p$p}", Q(x), p = p)),
    ("-w$p", |o, x, w, _| write!(o, "{:-w$p}", Q(x), w = w)),
    ("-w$.p$p", |o, x, w, p| write!(o, "{:-w$.p$p}", Q(x), w = w, p = p)),
    ("-0p", |o, x, _, _| write!(o, "{:-0p}", Q(x))),
    ("-0.p$p", |o, x, _, p| write!(o, "{:-0.p$p}", Q(x), p = p)),
    ("-0w$p", |o, x, w, _| write!(o, "{:-0w$p}", Q(x), w = w)),
    ("-0w$.p$p", |o, x, w, p| write!(o, "{:-0w$.p$p}", Q(x), w = w, p = p)),
    ("-#p", |o, x, _, _| write!(o, "{:-#p}", Q(x))),
    ("-#.p$p", |o, x, _, p| write!(o, "{:-#.p$p}", Q(x), p = p)),
    ("-#w$p", |o, x, w, _| write!(o, "{:-#w$p}", Q(x), w = w)),
    ("-#w$.p$p", |o, x, w, p| write!(o, "{:-#w$.p$p}", Q(x), w = w, p = p)),
    ("-#0p", |o, x, _, _| write!(o, "{:-#0p}", Q(x))),
    ("-#0.p$p", |o, x, _, p| write!(o, "{:-#0.p$p}", Q(x), p = p)),
    ("-#0w$p", |o, x, w, _| write!(o, "{:-#0w$p}", Q(x), w = w)),
    ("-#0w$.p$p", |o, x, w, p| write!(o, "{:-#0w$.p$p}", Q(x), w = w, p = p)),
    ("<p", |o, x, _, _| write!(o, "{:<p}", Q(x))),
    ("<.p$p", |o, x, _, p| write!(o, "{:<.p$p}", Q(x), p = p)),
    ("<w$p", |o, x, w, _| write!(o, "{:<w$p}", Q(x), w = w)),
    ("<w$.p$p", |o, x, w, p| write!(o, "{:<w$.p$p}", Q(x), w = w, p = p)),
    ("<0p", |o, x, _, _| write!(o, "{:<0p}", Q(x))),
    ("<0.p$p", |o, x, _, p| write!(o, "{:<0.p$p}", Q(x), p = p)),
    ("<0w$p", |o, x, w, _| write!(o, "{:<0w$p}", Q(x), w = w)),
    ("<0w$.p$p", |o, x, w, p| write!(o, "{:<0w$.p$p}", Q(x), w = w, p = p)),
    ("<#p", |o, x, _, _| write!(o, "{:<#p}", Q(x))),
    ("<#.p$p", |o, x, _, p| write!(o, "{:<#.p$p}", Q(x), p = p)),
    ("<#w$p", |o, x, w, _| write!(o, "{:<#w$p}", Q(x), w = w)),
    ("<#w$.p$p", |o, x, w, p| write!(o, "{:<#w$.p$p}", Q(x), w = w, p = p)),
    ("<#0p", |o, x, _, _| write!(o, "{:<#0p}", Q(x))),
    ("<#0.p$p", |o, x, _, p| write!(o, "{:<#0.p$p}", Q(x), p = p)),
    ("<#0w$p", |o, x, w, _| write!(o, "{:<#0w$p}", Q(x), w = w)),
    ("<#0w$.p$p", |o, x, w, p| write!(o, "{:<#0w$.p$p}", Q(x), w = w, p = p)),
    ("<+p", |o, x, _, _| write!(o, "{:<+p}", Q(x))),
    ("<+.p$p", |o, x, _, p| write!(o, "{:<+.p$p}", Q(x), p = p)),
    ("<+w$p", |o, x, w, _| write!(o, "{:<+w$p}", Q(x), w = w)),
    ("<+w$.p$p", |o, x, w, p| write!(o, "{:<+w$.p$p}", Q(x), w = w, p = p)),
    ("<+0p", |o, x, _, _| write!(o, "{:<+0p}", Q(x))),
    ("<+0.p$p", |o, x, _, p| write!(o, "{:<+0.p$p}", Q(x), p = p)),
    ("<+0w$p", |o, x, w, _| write!(o, "{:<+0w$p}", Q(x), w = w)),
    ("<+0w$.p$p", |o, x, w, p| write!(o, "{:<+0w$.p$p}", Q(x), w = w, p = p)),
    ("<+#p", |o, x, _, _| write!(o, "{:<+#p}", Q(x))),
    ("<+#.p$p", |o, x, _, p| write!(o, "{:<+#.p$p}", Q(x), p = p)),
    ("<+#w$p", |o, x, w, _| write!(o, "{:<+#w$p}", Q(x), w = w)),
    ("<+#w$.p$p", |o, x, w, p| write!(o, "{:<+#w$.p$p}", Q(x), w = w, p = p)),
    ("<+#0p", |o, x, _, _| write!(o, "{:<+#0p}", Q(x))),
    ("<+#0.p$p", |o, x, _, p| write!(o, "{:<+#0.p$p}", Q(x), p = p)),
    ("<+#0w$p", |o, x, w, _| write!(o, "{:<+#0w$p}", Q(x), w = w)),
    ("<+#0w$.p$p", |o, x, w, p| write!(o, "{:<+#0w$.p$p}", Q(x), w = w, p = p)),
    ("<-p", |o, x, _, _| write!(o, "{:<-p}", Q(x))),
    ("<-.p$p", |o, x, _, p| write!(o, "{:<-.p$p}", Q(x), p = p)),
    ("<-w$p", |o, x, w, _| write!(o, "{:<-w$p}", Q(x), w = w)),
    ("<-w$.p$p", |o, x, w, p| write!(o, "{:<-w$.p$p}", Q(x), w = w, p = p)),
    ("<-0p", |o, x, _, _| write!(o, "{:<-0p}", Q(x))),
    ("<-0.p$p", |o, x, _, p| write!(o, "{:<-0.p$p}", Q(x), p = p)),
    ("<-0w$p", |o, x, w, _| write!(o, "{:<-0w$p}", Q(x), w = w)),
    ("<-0w$.p$p", |o, x, w, p| write!(o, "{:<-0w$.p$p}", Q(x), w = w, p = p)),
    ("<-#p", |o, x, _, _| write!(o, "{:<-#p}", Q(x))),
    ("<-#.p$p", |o, x, _, p| write!(o, "{:<-#.p$p}", Q(x), p = p)),
    ("<-#w$p", |o, x, w, _| write!(o, "{:<-#w$p}", Q(x), w = w)),
    ("<-#w$.p$p", |o, x, w, p| write!(o, "{:<-#w$.p$p}", Q(x), w = w, p = p)),
    ("<-#0p", |o, x, _, _| write!(o, "{:<-#0p}", Q(x))),
    ("<-#0.p$p", |o, x, _, p| write!(o, "{:<-#0.p$p}", Q(x), p = p)),
    ("<-#0w$p", |o, x, w, _| write!(o, "{:<-#0w$p}", Q(x), w = w)),
    ("<-#0w$.p$p", |o, x, w, p| write!(o, "{:<-#0w$.p$p}", Q(x), w = w, p = p)),
    (">p", |o, x, _, _| write!(o, "{:>p}", Q(x))),
    (">.p$p", |o, x, _, p| write!(o, "{:>.p$p}", Q(x), p = p)),
    (">w$p", |o, x, w, _| write!(o, "{:>w$p}", Q(x), w = w)),
    (">w$.p$p", |o, x, w, p| write!(o, "{:>w$.p$p}", Q(x), w = w, p = p)),
    (">0p", |o, x, _, _| write!(o, "{:>0p}", Q(x))),
    (">0.p$p", |o, x, _, p| write!(o, "{:>0.p$p}", Q(x), p = p)),
    (">0w$p", |o, x, w, _| write!(o, "{:>0w$p}", Q(x), w = w)),
    (">0w$.p$p", |o, x, w, p| write!(o, "{:>0w$.p$p}", Q(x), w = w, p = p)),
    (">#p", |o, x, _, _| write!(o, "{:>#p}", Q(x))),
    (">#.p$p", |o, x, _, p| write!(o, "{:>#.p$p}", Q(x), p = p)),
    (">#w$p", |o, x, w, _| write!(o, "{:>#w$p}", Q(x), w = w)),
    (">#w$.p$p", |o, x, w, p| write!(o, "{:>#w$.p$p}", Q(x), w = w, p = p)),
    (">#0p", |o, x, _, _| write!(o, "{:>#0p}", Q(x))),
    (">#0.p$p", |o, x, _, p| write!(o, "{:>#0.p$p}", Q(x), p = p)),
    (">#0w$p", |o, x, w, _| write!(o, "{:>#0w$p}", Q(x), w = w)),
    (">#0w$.p$p", |o, x, w, p| write!(o, "{:>#0w$.p$p}", Q(x), w = w, p = p)),
    (">+p", |o, x, _, _| write!(o, "{:>+p}", Q(x))),
    (">+.p$p", |o, x, _, p| write!(o, "{:>+.p$p}", Q(x), p = p)),
    (">+w$p", |o, x, w, _| write!(o, "{:>+w$p}", Q(x), w = w)),
    (">+w$.p$p", |o, x, w, p| write!(o, "{:>+w$.p$p}", Q(x), w = w, p = p)),
    (">+0p", |o, x, _, _| write!(o, "{:>+0p}", Q(x))),
    (">+0.p$p", |o, x, _, p| write!(o, "{:>+0.p$p}", Q(x), p = p)),
    (">+0w$p", |o, x, w, _| write!(o, "{:>+0w$p}", Q(x), w = w)),
    (">+0w$.p$p", |o, x, w, p| write!(o, "{:>+0w$.p$p}", Q(x), w = w, p = p)),
    (">+#p", |o, x, _, _| write!(o, "{:>+#p}", Q(x))),
    (">+#.p$p", |o, x, _, p| write!(o, "{:>+#.p$p}", Q(x), p = p)),
    (">+#w$p", |o, x, w, _| write!(o, "{:>+#w$p}", Q(x), w = w)),
    (">+#w$.p$p", |o, x, w, p| write!(o, "{:>+#w$.p$p}", Q(x), w = w, p = p)),
    (">+#0p", |o, x, _, _| write!(o, "{:>+#0p}", Q(x))),
    (">+#0.p$p", |o, x, _, p| write!(o, "{:>+#0.p$p}", Q(x), p = p)),
    (">+#0w$p", |o, x, w, _| write!(o, "{:>+#0w$p}", Q(x), w = w)),
    (">+#0w$.p$p", |o, x, w, p| write!(o, "{:>+#0w$.p$p}", Q(x), w = w, p = p)),
    (">-p", |o, x, _, _| write!(o, "{:>-p}", Q(x))),
    (">-.p$p", |o, x, _, p| write!(o, "{:>-.p$p}", Q(x), p = p)),
    (">-w$p", |o, x, w, _| write!(o, "{:>-w$p}", Q(x), w = w)),
    (">-w$.p$p", |o, x, w, p| write!(o, "{:>-w$.p$p}", Q(x), w = w, p = p)),
    (">-0p", |o, x, _, _| write!(o, "{:>-0p}", Q(x))),
    (">-0.p$p", |o, x, _, p| write!(o, "{:>-0.p$p}", Q(x), p = p)),
    (">-0w$p", |o, x, w, _| write!(o, "{:>-0w$p}", Q(x), w = w)),
    (">-0w$.p$p", |o, x, w, p| write!(o, "{:>-0w$.p$p}", Q(x), w = w, p = p)),
    (">-#p", |o, x, _, _| write!(o, "{:>-#p}", Q(x))),
    (">-#.p$p", |o, x, _, p| write!(o, "{:>-#.p$p}", Q(x), p = p)),
    (">-#w$p", |o, x, w, _| write!(o, "{:>-#w$p}", Q(x), w = w)),
    (">-#w$.p$p", |o, x, w, p| write!(o, "{:>-#w$.p$p}", Q(x), w = w, p = p)),
    (">-#0p", |o, x, _, _| write!(o, "{:>-#0p}", Q(x))),
    (">-#0.p$p", |o, x, _, p| write!(o, "{:>-#0.p$p}", Q(x), p = p)),
    (">-#0w$p", |o, x, w, _| write!(o, "{:>-#0w$p}", Q(x), w = w)),
    (">-#0w$.p$p", |o, x, w, p| write!(o, "{:>-#0w$.p$p}", Q(x), w = w, p = p)),
    ("^p", |o, x, _, _| write!(o, "{:^p}", Q(x))),
    ("^.p$p", |o, x, _, p| write!(o, "{:^.p$p}", Q(x), p = p)),
    ("^w$p", |o, x, w, _| write!(o, "{:^w$p}", Q(x), w = w)),
    ("^w$.p$p", |o, x, w, p| write!(o, "{:^w$.p$p}", Q(x), w = w, p = p)),
    ("^0p", |o, x, _, _| write!(o, "{:^0p}", Q(x))),
    ("^0.p$p", |o, x, _, p| write!(o, "{:^0.p$p}", Q(x), p = p)),
    ("^0w$p", |o, x, w, _| write!(o, "{:^0w$p}", Q(x), w = w)),
    ("^0w$.p$p", |o, x, w, p| write!(o, "{:^0w$.p$p}", Q(x), w = w, p = p)),
    ("^#p", |o, x, _, _| write!(o, "{:^#p}", Q(x))),
    ("^#.p$p", |o, x, _, p| write!(o, "{:^#.p$p}", Q(x), p = p)),
    ("^#w$p", |o, x, w, _| write!(o, "{:^#w$p}", Q(x), w = w)),
    ("^#w$.p$p", |o, x, w, p| write!(o, "{:^#w$.p$p}", Q(x), w = w, p = p)),
    ("^#0p", |o, x, _, _| write!(o, "{:^#0p}", Q(x))),
    ("^#0.p$p", |o, x, _, p| write!(o, "{:^#0.p$p}", Q(x), p = p)),
    ("^#0w$p", |o, x, w, _| write!(o, "{:^#0w$p}", Q(x), w = w)),
    ("^#0w$.p$p", |o, x, w, p| write!(o, "{:^#0w$.p$p}", Q(x), w = w, p = p)),
    ("^+p", |o, x, _, _| write!(o, "{:^+p}", Q(x))),
    ("^+.p$p", |o, x, _, p| write!(o, "{:^+.p$p}", Q(x), p = p)),
    ("^+w$p", |o, x, w, _| write!(o, "{:^+w$p}", Q(x), w = w)),
    ("^+w$.p$p", |o, x, w, p| write!(o, "{:^+w$.p$p}", Q(x), w = w, p = p)),
    ("^+0p", |o, x, _, _| write!(o, "{:^+0p}", Q(x))),
    ("^+0.p$p", |o, x, _, p| write!(o, "{:^+0.p$p}", Q(x), p = p)),
    ("^+0w$p", |o, x, w, _| write!(o, "{:^+0w$p}", Q(x), w = w)),
    ("^+0w$.p$p", |o, x, w, p| write!(o, "{:^+0w$.p$p}", Q(x), w = w, p = p)),
    ("^+#p", |o, x, _, _| write!(o, "{:^+#p}", Q(x))),
    ("^+#.p$p", |o, x, _, p| write!(o, "{:^+#.p$p}", Q(x), p = p)),
    ("^+#w$p", |o, x, w, _| write!(o, "{:^+#w$p}", Q(x), w = w)),
    ("^+#w$.p$p", |o, x, w, p| write!(o, "{:^+#w$.p$p}", Q(x), w = w, p = p)),
    ("^+#0p", |o, x, _, _| write!(o, "{:^+#0p}", Q(x))),
    ("^+#0.p$p", |o, x, _, p| write!(o, "{:^+#0.p$p}", Q(x), p = p)),
    ("^+#0w$p", |o, x, w, _| write!(o, "{:^+#0w$p}", Q(x), w = w)),
    ("^+#0w$.p$p", |o, x, w, p| write!(o, "{:^+#0w$.p$p}", Q(x), w = w, p = p)),
    ("^-p", |o, x, _, _| write!(o, "{:^-p}", Q(x))),
    ("^-.p$p", |o, x, _, p| write!(o, "{:^-.p$p}", Q(x), p = p)),
    ("^-w$p", |o, x, w, _| write!(o, "{:^-w$p}", Q(x), w = w)),
    ("^-w$.p$p", |o, x, w, p| write!(o, "{:^-w$.p$p}", Q(x), w = w, p = p)),
    ("^-0p", |o, x, _, _| write!(o, "{:^-0p}", Q(x))),
    ("^-0.p$p", |o, x, _, p| write!(o, "{:^-0.p$p}", Q(x), p = p)),
    ("^-0w$p", |o, x, w, _| write!(o, "{:^-0w$p}", Q(x), w = w)),
    ("^-0w$.p$p", |o, x, w, p| write!(o, "{:^-0w$.p$p}", Q(x), w = w, p = p)),
    ("^-#p", |o, x, _, _| write!(o, "{:^-#p}", Q(x))),
    ("^-#.p$p", |o, x, _, p| write!(o, "{:^-#.p$p}", Q(x), p = p)),
    ("^-#w$p", |o, x, w, _| write!(o, "{:^-#w$p}", Q(x), w = w)),
    ("^-#w$.p$p", |o, x, w, p| write!(o, "{:^-#w$.p$p}", Q(x), w = w, p = p)),
    ("^-#0p", |o, x, _, _| write!(o, "{:^-#0p}", Q(x))),
    ("^-#0.p$p", |o, x, _, p| write!(o, "{:^-#0.p$p}", Q(x), p = p)),
    ("^-#0w$p", |o, x, w, _| write!(o, "{:^-#0w$p}", Q(x), w = w)),
    ("^-#0w$.p$p", |o, x, w, p| write!(o, "{:^-#0w$.p$p}", Q(x), w = w, p = p)),
    ("*<p", |o, x, _, _| write!(o, "{:*<p}", Q(x))),
    ("*<.p$p", |o, x, _, p| write!(o, "{:*<.p$p}", Q(x), p = p)),
    ("*<w$p", |o, x, w, _| write!(o, "{:*<w$p}", Q(x), w = w)),
    ("*<w$.p$p", |o, x, w, p| write!(o, "{:*<w$.p$p}", Q(x), w = w, p = p)),
    ("*<0p", |o, x, _, _| write!(o, "{:*<0p}", Q(x))),
    ("*<0.p$p", |o, x, _, p| write!(o, "{:*<0.p$p}", Q(x), p = p)),
    ("*<0w$p", |o, x, w, _| write!(o, "{:*<0w$p}", Q(x), w = w)),
    ("*<0w$.p$p", |o, x, w, p| write!(o, "{:*<0w$.p$p}", Q(x), w = w, p = p)),
    ("*<#p", |o, x, _, _| write!(o, "{:*<#p}", Q(x))),
    ("*<#.p$p", |o, x, _, p| write!(o, "{:*<#.p$p}", Q(x), p = p)),
    ("*<#w$p", |o, x, w, _| write!(o, "{:*<#w$p}", Q(x), w = w)),
    ("*<#w$.p$p", |o, x, w, p| write!(o, "{:*<#w$.p$p}", Q(x), w = w, p = p)),
    ("*<#0p", |o, x, _, _| write!(o, "{:*<#0p}", Q(x))),
    ("*<#0.p$p", |o, x, _, p| write!(o, "{:*<#0.p$p}", Q(x), p = p)),
    ("*<#0w$p", |o, x, w, _| write!(o, "{:*<#0w$p}", Q(x), w = w)),
    ("*<#0w$.p$p", |o, x, w, p| write!(o, "{:*<#0w$.p$p}", Q(x), w = w, p = p)),
    ("*<+p", |o, x, _, _| write!(o, "{:*<+p}", Q(x))),
    ("*<+.p$p", |o, x, _, p| write!(o, "{:*<+.p$p}", Q(x), p = p)),
    ("*<+w$p", |o, x, w, _| write!(o, "{:*<+w$p}", Q(x), w = w)),
    ("*<+w$.p$p", |o, x, w, p| write!(o, "{:*<+w$.p$p}", Q(x), w = w, p = p)),
    ("*<+0p", |o, x, _, _| write!(o, "{:*<+0p}", Q(x))),
    ("*<+0.p$p", |o, x, _, p| write!(o, "{:*<+0.p$p}", Q(x), p = p)),
    ("*<+0w$p", |o, x, w, _| write!(o, "{:*<+0w$p}", Q(x), w = w)),
    ("*<+0w$.p$p", |o, x, w, p| write!(o, "{:*<+0w$.p$p}", Q(x), w = w, p = p)),
    ("*<+#p", |o, x, _, _| write!(o, "{:*<+#p}", Q(x))),
    ("*<+#.p$p", |o, x, _, p| write!(o, "{:*<+#.p$p}", Q(x), p = p)),
    ("*<+#w$p", |o, x, w, _| write!(o, "{:*<+#w$p}", Q(x), w = w)),
    ("*<+#w$.p$p", |o, x, w, p| write!(o, "{:*<+#w$.p$p}", Q(x), w = w, p = p)),
    ("*<+#0p", |o, x, _, _| write!(o, "{:*<+#0p}", Q(x))),
    ("*<+#0.p$p", |o, x, _, p| write!(o, "{:*<+#0.p$p}", Q(x), p = p)),
    ("*<+#0w$p", |o, x, w, _| write!(o, "{:*<+#0w$p}", Q(x), w = w)),
    ("*<+#0w$.p$p", |o, x, w, p| write!(o, "{:*<+#0w$.p$p}", Q(x), w = w, p = p)),
    ("*<-p", |o, x, _, _| write!(o, "{:*<-p}", Q(x))),
    ("*<-.p$p", |o, x, _, p| write!(o, "{:*<-.p$p}", Q(x), p = p)),
    ("*<-w$p", |o, x, w, _| write!(o, "{:*<-w$p}", Q(x), w = w)),
    ("*<-w$.p$p", |o, x, w, p| write!(o, "{:*<-w$.p$p}", Q(x), w = w, p = p)),
    ("*<-0p", |o, x, _, _| write!(o, "{:*<-0p}", Q(x))),
    ("*<-0.p$p", |o, x, _, p| write!(o, "{:*<-0.p$p}", Q(x), p = p)),
    ("*<-0w$p", |o, x, w, _| write!(o, "{:*<-0w$p}", Q(x), w = w)),
    ("*<-0w$.p$p", |o, x, w, p| write!(o, "{:*<-0w$.p$p}", Q(x), w = w, p = p)),
    ("*<-#p", |o, x, _, _| write!(o, "{:*<-#p}", Q(x))),
    ("*<-#.p$p", |o, x, _, p| write!(o, "{:*<-#.p$p}", Q(x), p = p)),
    ("*<-#w$p", |o, x, w, _| write!(o, "{:*<-#w$p}", Q(x), w = w)),
    ("*<-#w$.p$p", |o, x, w, p| write!(o, "{:*<-#w$.p$p}", Q(x), w = w, p = p)),
    ("*<-#0p", |o, x, _, _| write!(o, "{:*<-#0p}", Q(x))),
    ("*<-#0.p$p", |o, x, _, p| write!(o, "{:*<-#0.p$p}", Q(x), p = p)),
    ("*<-#0w$p", |o, x, w, _| write!(o, "{:*<-#0w$p}", Q(x), w = w)),
    ("*<-#0w$.p$p", |o, x, w, p| write!(o, "{:*<-#0w$.p$p}", Q(x), w = w, p = p)),
    ("0>p", |o, x, _, _| write!(o, "{:0>p}", Q(x))),
    ("0>.p$p", |o, x, _, p| write!(o, "{:0>.p$p}", Q(x), p = p)),
    ("0>w$p", |o, x, w, _| write!(o, "{:0>w$p}", Q(x), w = w)),
    ("0>w$.p$p", |o, x, w, p| write!(o, "{:0>w$.p$p}", Q(x), w = w, p = p)),
    ("0>0p", |o, x, _, _| write!(o, "{:0>0p}", Q(x))),
    ("0>0.p$p", |o, x, _, p| write!(o, "{:0>0.p$p}", Q(x), p = p)),
    ("0>0w$p", |o, x, w, _| write!(o, "{:0>0w$p}", Q(x), w = w)),
    ("0>0w$.p$p", |o, x, w, p| write!(o, "{:0>0w$.p$p}", Q(x), w = w, p = p)),
    ("0>#p", |o, x, _, _| write!(o, "{:0>#p}", Q(x))),
    ("0>#.p$p", |o, x, _, p| write!(o, "{:0>#.p$p}", Q(x), p = p)),
    ("0>#w$p", |o, x, w, _| write!(o, "{:0>#w$p}", Q(x), w = w)),
    ("0>#w$.p$p", |o, x, w, p| write!(o, "{:0>#w$.p$p}", Q(x), w = w, p = p)),
    ("0>#0p", |o, x, _, _| write!(o, "{:0>#0p}", Q(x))),
    ("0>#0.p$p", |o, x, _, p| write!(o, "{:0>#0.p$p}", Q(x), p = p)),
    ("0>#0w$p", |o, x, w, _| write!(o, "{:0>#0w$p}", Q(x), w = w)),
    ("0>#0w$.p$p", |o, x, w, p| write!(o, "{:0>#0w$.p$p}", Q(x), w = w, p = p)),
    ("0>+p", |o, x, _, _| write!(o, "{:0>+p}", Q(x))),
    ("0>+.p$p", |o, x, _, p| write!(o, "{:0>+.p$p}", Q(x), p = p)),
    ("0>+w$p", |o, x, w, _| write!(o, "{:0>+w$p}", Q(x), w = w)),
    ("0>+w$.p$p", |o, x, w, p| write!(o, "{:0>+w$.p$p}", Q(x), w = w, p = p)),
    ("0>+0p", |o, x, _, _| write!(o, "{:0>+0p}", Q(x))),
    ("0>+0.p$p", |o, x, _, p| write!(o, "{:0>+0.p$p}", Q(x), p = p)),
    ("0>+0w$p", |o, x, w, _| write!(o, "{:0>+0w$p}", Q(x), w = w)),
    ("0>+0w$.p$p", |o, x, w, p| write!(o, "{:0>+0w$.p$p}", Q(x), w = w, p = p)),
    ("0>+#p", |o, x, _, _| write!(o, "{:0>+#p}", Q(x))),
    ("0>+#.p$p", |o, x, _, p| write!(o, "{:0>+#.p$p}", Q(x), p = p)),
    ("0>+#w$p", |o, x, w, _| write!(o, "{:0>+#w$p}", Q(x), w = w)),
    ("0>+#w$.p$p", |o, x, w, p| write!(o, "{:0>+#w$.p$p}", Q(x), w = w, p = p)),
    ("0>+#0p", |o, x, _, _| write!(o, "{:0>+#0p}", Q(x))),
    ("0>+#0.p$p", |o, x, _, p| write!(o, "{:0>+#0.p$p}", Q(x), p = p)),
    ("0>+#0w$p", |o, x, w, _| write!(o, "{:0>+#0w$p}", Q(x), w = w)),
    ("0>+#0w$.p$p", |o, x, w, p| write!(o, "{:0>+#0w$.p$p}", Q(x), w = w, p = p)),
    ("0>-p", |o, x, _, _| write!(o, "{:0>-p}", Q(x))),
    ("0>-.p$p", |o, x, _, p| write!(o, "{:0>-.p$p}", Q(x), p = p)),
    ("0>-w$p", |o, x, w, _| write!(o, "{:0>-w$p}", Q(x), w = w)),
    ("0>-w$.p$p", |o, x, w, p| write!(o, "{:0>-w$.p$p}", Q(x), w = w, p = p)),
    ("0>-0p", |o, x, _, _| write!(o, "{:0>-0p}", Q(x))),
    ("0>-0.p$p", |o, x, _, p| write!(o, "{:0>-0.p$p}", Q(x), p = p)),
    ("0>-0w$p", |o, x, w, _| write!(o, "{:0>-0w$p}", Q(x), w = w)),
    ("0>-0w$.p$p", |o, x, w, p| write!(o, "{:0>-0w$.p$p}", Q(x), w = w, p = p)),
    ("0>-#p", |o, x, _, _| write!(o, "{:0>-#p}", Q(x))),
    ("0>-#.p$p", |o, x, _, p| write!(o, "{:0>-#.p$p}", Q(x), p = p)),
    ("0>-#w$p", |o, x, w, _| write!(o, "{:0>-#w$p}", Q(x), w = w)),
    ("0>-#w$.p$p", |o, x, w, p| write!(o, "{:0>-#w$.p$p}", Q(x), w = w, p = p)),
    ("0>-#0p", |o, x, _, _| write!(o, "{:0>-#0p}", Q(x))),
    ("0>-#0.p$p", |o, x, _, p| write!(o, "{:0>-#0.p$p}", Q(x), p = p)),
    ("0>-#0w$p", |o, x, w, _| write!(o, "{:0>-#0w$p}", Q(x), w = w)),
    ("0>-#0w$.p$p", |o, x, w, p| write!(o, "{:0>-#0w$.p$p}", Q(x), w = w, p = p)),
    ("é^p", |o, x, _, _| write!(o, "{:é^p}", Q(x))),
    ("é^.p$p", |o, x, _, p| write!(o, "{:é^.p$p}", Q(x), p = p)),
    ("é^w$p", |o, x, w, _| write!(o, "{:é^w$p}", Q(x), w = w)),
    ("é^w$.p$p", |o, x, w, p| write!(o, "{:é^w$.p$p}", Q(x), w = w, p = p)),
    ("é^0p", |o, x, _, _| write!(o, "{:é^0p}", Q(x))),
    ("é^0.p$p", |o, x, _, p| write!(o, "{:é^0.p$p}", Q(x), p = p)),
    ("é^0w$p", |o, x, w, _| write!(o, "{:é^0w$p}", Q(x), w = w)),
    ("é^0w$.p$p", |o, x, w, p| write!(o, "{:é^0w$.p$p}", Q(x), w = w, p = p)),
    ("é^#p", |o, x, _, _| write!(o, "{:é^#p}", Q(x))),
    ("é^#.p$p", |o, x, _, p| write!(o, "{:é^#.p$p}", Q(x), p = p)),
    ("é^#w$p", |o, x, w, _| write!(o, "{:é^#w$p}", Q(x), w = w)),
    ("é^#w$.p$p", |o, x, w, p| write!(o, "{:é^#w$.p$p}", Q(x), w = w, p = p)),
    ("é^#0p", |o, x, _, _| write!(o, "{:é^#0p}", Q(x))),
    ("é^#0.p$p", |o, x, _, p| write!(o, "{:é^#0.p$p}", Q(x), p = p)),
    ("é^#0w$p", |o, x, w, _| write!(o, "{:é^#0w$p}", Q(x), w = w)),
    ("é^#0w$.p$p", |o, x, w, p| write!(o, "{:é^#0w$.p$p}", Q(x), w = w, p = p)),
    ("é^+p", |o, x, _, _| write!(o, "{:é^+p}", Q(x))),
    ("é^+.p$p", |o, x, _, p| write!(o, "{:é^+.p$p}", Q(x), p = p)),
    ("é^+w$p", |o, x, w, _| write!(o, "{:é^+w$p}", Q(x), w = w)),
    ("é^+w$.p$p", |o, x, w, p| write!(o, "{:é^+w$.p$p}", Q(x), w = w, p = p)),
    ("é^+0p", |o, x, _, _| write!(o, "{:é^+0p}", Q(x))),
    ("é^+0.p$p", |o, x, _, p| write!(o, "{:é^+0.p$p}", Q(x), p = p)),
    ("é^+0w$p", |o, x, w, _| write!(o, "{:é^+0w$p}", Q(x), w = w)),
    ("é^+0w$.p$p", |o, x, w, p| write!(o, "{:é^+0w$.p$p}", Q(x), w = w, p = p)),
    ("é^+#p", |o, x, _, _| write!(o, "{:é^+#p}", Q(x))),
    ("é^+#.p$p", |o, x, _, p| write!(o, "{:é^+#.p$p}", Q(x), p = p)),
    ("é^+#w$p", |o, x, w, _| write!(o, "{:é^+#w$p}", Q(x), w = w)),
    ("é^+#w$.p$p", |o, x, w, p| write!(o, "{:é^+#w$.p$p}", Q(x), w = w, p = p)),
    ("é^+#0p", |o, x, _, _| write!(o, "{:é^+#0p}", Q(x))),
    ("é^+#0.p$p", |o, x, _, p| write!(o, "{:é^+#0.p$p}", Q(x), p = p)),
    ("é^+#0w$p", |o, x, w, _| write!(o, "{:é^+#0w$p}", Q(x), w = w)),
    ("é^+#0w$.p$p", |o, x, w, p| write!(o, "{:é^+#0w$.p$p}", Q(x), w = w, p = p)),
    ("é^-p", |o, x, _, _| write!(o, "{:é^-p}", Q(x))),
    ("é^-.p$p", |o, x, _, p| write!(o, "{:é^-.p$p}", Q(x), p = p)),
    ("é^-w$p", |o, x, w, _| write!(o, "{:é^-w$p}", Q(x), w = w)),
    ("é^-w$.p$p", |o, x, w, p| write!(o, "{:é^-w$.p$p}", Q(x), w = w, p = p)),
    ("é^-0p", |o, x, _, _| write!(o, "{:é^-0p}", Q(x))),
    ("é^-0.p$p", |o, x, _, p| write!(o, "{:é^-0.p$p}", Q(x), p = p)),
    ("é^-0w$p", |o, x, w, _| write!(o, "{:é^-0w$p}", Q(x), w = w)),
    ("é^-0w$.p$p", |o, x, w, p| write!(o, "{:é^-0w$.p$p}", Q(x), w = w, p = p)),
    ("é^-#p", |o, x, _, _| write!(o, "{:é^-#p}", Q(x))),
    ("é^-#.p$p", |o, x, _, p| write!(o, "{:é^-#.p$p}", Q(x), p = p)),
    ("é^-#w$p", |o, x, w, _| write!(o, "{:é^-#w$p}", Q(x), w = w)),
    ("é^-#w$.p$p", |o, x, w, p| write!(o, "{:é^-#w$.p$p}", Q(x), w = w, p = p)),
    ("é^-#0p", |o, x, _, _| write!(o, "{:é^-#0p}", Q(x))),
    ("é^-#0.p$p", |o, x, _, p| write!(o, "{:é^-#0.p$p}", Q(x), p = p)),
    ("é^-#0w$p", |o, x, w, _| write!(o, "{:é^-#0w$p}", Q(x), w = w)),
    ("é^-#0w$.p$p", |o, x, w, p| write!(o, "{:é^-#0w$.p$p}", Q(x), w = w, p = p)),
];
