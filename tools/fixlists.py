"""Quint reads a '[' at the start of a line as an index: write List( ... ) there."""
import re, sys
for path in sys.argv[1:]:
    s = open(path).read()
    out, i = list(s), 0
    for m in re.finditer(r"(?m)^[ \t]*\[", s):
        a = m.end() - 1
        d, j, instr = 0, a, False
        while True:
            c = s[j]
            if c == '"': instr = not instr
            if not instr:
                if c == "[": d += 1
                if c == "]":
                    d -= 1
                    if d == 0: break
            j += 1
        out[a], out[j] = "List(", ")"
    open(path, "w").write("".join(out))
