#!/usr/bin/env python3
"""Writes c16_structs.hpp: bound structs of 1 to 50 fields."""
import os
TY = ["int", "std::string", "double", "bool", "std::vector<int>"]
out = ["// Written by gen_c16.py: bound structs of 1 to 50 fields.  R: all required, O: all optional with aliases,", "// M: required and optional, with and without aliases, in turn.", "#pragma once"]
def struct(kind, n):
    name = "%s%d" % (kind, n)
    o = ["struct %s" % name, "{", "    static constexpr int n = %d;" % n]
    args, each = [], []
    for i in range(n):
        t = TY[(i + (0 if kind != "M" else n)) % 5]
        o.append("    %s f%d{};" % (t, i))
        k = {"R": 0, "O": 3, "M": (i + n) % 4}[kind]
        req, alias = k in (0, 2), k >= 2
        key = '"f%d"' % i
        if alias:
            key = '"%s%d"' % (["", "key ", "\u00e9", "f"][i % 4] if kind == "M" else "k", 1000 + i)
        args.append("%s(f%d%s)" % ("REQUIRED" if req else "OPTIONAL", i, ", " + key if alias else ""))
        each.append("f(s.f%d, %s, %s);" % (i, "true" if req else "false", key))
    o.append("    CONFIGOR_BIND(json::value, %s, %s)" % (name, ", ".join(args)))
    o.append("    template <class S> static void each(S& s, Fields& f) { %s }" % " ".join(each))
    o.append("};")
    return o
for kind in "ROM":
    out.append("#ifdef STRUCTS_%s" % kind)
    for n in range(1, 51):
        out += struct(kind, n)
    out.append("#define STRUCTS(X) " + " ".join("X(%s%d)" % (kind, n) for n in range(1, 51)))
    out.append("#endif")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c16_structs.hpp"), "w").write("\n".join(out) + "\n")
