#!/usr/bin/env python3
"""Writes src/specs.rs: one function per combination of formatting options."""
out = ["// written by gen.py", "struct Q<'a>(&'a dyn Pointer);", "impl Pointer for Q<'_> {", "    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {", "        self.0.fmt(f)", "    }", "}", "use std::fmt::{Debug, Pointer, Write};", "pub type D = fn(&mut dyn Write, &dyn Debug, usize, usize) -> std::fmt::Result;", "pub type P = fn(&mut dyn Write, &dyn Pointer, usize, usize) -> std::fmt::Result;"]
d, p = [], []
for fill in ["", "<", ">", "^", "*<", "0>", "é^"]:
    for sign in ["", "+", "-"]:
        for alt in ["", "#"]:
            for zero in ["", "0"]:
                for w in ["", "w$"]:
                    for pr in ["", ".p$"]:
                        for k in ["?", "x?", "X?"]:
                            d.append(fill + sign + alt + zero + w + pr + k)
                        p.append(fill + sign + alt + zero + w + pr + "p")
for name, t, l in (("DEBUG", "D", d), ("POINTER", "P", p)):
    out.append(f"pub static {name}: [(&str, {t}); {len(l)}] = [")
    for s in l:
        # {:p} of a reference is the reference itself
        args = "x" if name == "DEBUG" else "Q(x)"
        if "w$" in s:
            args += ", w = w"
        if "p$" in s:
            args += ", p = p"
        out.append(f'    ("{s}", |o, x, {"w" if "w$" in s else "_"}, {"p" if "p$" in s else "_"}| write!(o, "{{:{s}}}", {args})),')
    out.append("];")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "src/specs.rs"), "w").write("\n".join(out) + "\n")
