#!/usr/bin/env python3
"""Writes c02_members.h: one aggregate per member count 0..50."""
T = ["std::uint8_t", "std::uint16_t", "std::uint32_t"]
out = ["// Generated by gen_members.py", "#pragma once", ""]
for n in range(1, 51):
    ms = "".join("%s m%d; " % (T[(i * 7 + n) % 3] if n > 1 else "std::uint16_t", i) for i in range(n))
    each = "".join("f(m%d); " % i for i in range(n))
    out.append("struct S%d { %stemplate <typename F> void each(F f) const { %s} };" % (n, ms, each))
    out.append("struct M%d { %stemplate <typename F> void each(F f) const { %s} using serialize = zpp::bits::members<%d>; };" % (n, ms, each, n))
open(__file__.replace("gen_members.py", "c02_members.h"), "w").write("\n".join(out) + "\n")
