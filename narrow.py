#!/usr/bin/env python3
"""Rewrites one C source so that every `double` computation is carried out in the
type V_REAL (chosen at compile time), whatever its width.

The translation is mechanical and regenerated from the current source each run:
  1. clang preprocesses the file;
  2. clang's AST tells where integers are converted to double implicitly and
     where floating literals stand: an explicit `(double)` cast is inserted there
     (C's usual arithmetic conversions would otherwise widen a narrow type);
  3. the token `double` becomes V_REAL (`long double` is left alone).
With V_REAL=double the result is the original program.
"""
import json
import re
import subprocess
import sys


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout


def narrow(src, out, flags, typename="V_REAL"):
    pre = out + ".i.c"
    sh(["clang", "-E", "-P"] + flags + [src, "-o", pre])
    text = open(pre, "rb").read()
    ast = json.loads(sh(["clang", "-std=gnu11", "-w", "-fsyntax-only", "-Xclang",
                         "-ast-dump=json", pre]))
    ins = []  # (offset, order, text)

    def rng(node):
        r = node.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        if "offset" not in b or "offset" not in e:
            return None
        return b["offset"], e["offset"] + e.get("tokLen", 1)

    seen = set()
    stack = [ast]
    while stack:
        n = stack.pop()
        k = n.get("kind")
        if (k == "ImplicitCastExpr" and n.get("castKind") == "IntegralToFloating") or \
                (k == "FloatingLiteral"):
            q = n.get("type", {}).get("qualType", "")
            if q.replace("const ", "") in ("double", "float", "long double"):
                r = rng(n)
                if r and r not in seen:
                    seen.add(r)
                    ins.append((r[0], 1, -r[1], b"((double)("))
                    ins.append((r[1], 0, -r[0], b"))"))
        for c in n.get("inner", ()):
            if c:
                stack.append(c)
    # at one offset: closers first, (innermost closer = largest begin) then openers (outermost first)
    ins.sort(key=lambda t: (t[0], t[1], t[2]))
    res = []
    pos = 0
    for off, _, _, s in ins:
        res.append(text[pos:off])
        res.append(s)
        pos = off
    res.append(text[pos:])
    t = b"".join(res)
    t = re.sub(rb'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\blong\s+double\b|\bdouble\b',
               lambda m: typename.encode() if m.group(0) == b"double" else m.group(0), t)
    # clang's stand-ins for types that gcc and goto-cc have built in
    t = re.sub(rb"typedef[^;\n]*\b_Float(?:32|64|128|32x|64x)\s*;", b"", t)
    open(out, "wb").write(t)


if __name__ == "__main__":
    narrow(sys.argv[1], sys.argv[2], sys.argv[3:])
