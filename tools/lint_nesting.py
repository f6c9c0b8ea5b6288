"""The simulator keeps the parameters of a definition in one place, so a
higher-order definition must not be re-entered from its own lambda argument.
This lint reports such nesting, also through other definitions."""
import glob, os, re, sys
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
defs = {}
for f in sorted(glob.glob(SPEC + "/*.qnt")):
    text = re.sub(r"//[^\n]*", "", open(f).read())
    marks = [(m.start(), m.group(1)) for m in re.finditer(r"(?m)^  (?:pure )?(?:def|val|action|run) (\w+)", text)]
    for (a, name), b in zip(marks, [x[0] for x in marks[1:]] + [len(text)]):
        defs.setdefault(name, []).append((os.path.basename(f), text[a:b]))
WORD = re.compile(r"\b[a-zA-Z_]\w*\b")
LOCAL = r'\b(\w+)\s*(?::|=[^=>]|=>|,\s*\w+\)\s*=>)'
uses = {n: {w for _, t in v for w in set(WORD.findall(t)) - set(re.findall(LOCAL, t)) if w in defs and w != n} for n, v in defs.items()}
changed = True
while changed:
    changed = False
    for n in uses:
        more = set().union(*[uses[w] for w in uses[n]]) if uses[n] else set()
        if not more <= uses[n]:
            uses[n] |= more; changed = True
def statement(t):
    """The text up to the first line end outside brackets which the next line does not continue."""
    d = 0
    for i, c in enumerate(t):
        d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c, 0)
        if c == "\n" and d <= 0 and t[:i].strip() and not re.match(r"\s*(else|and|or|implies|[-+*/.?:])", t[i + 1:]) \
                and not re.search(r"(else|and|or|[-+*/=,(])\s*$", t[:i]):
            return t[:i]
    return t
hof = {n for n, v in defs.items() for _, t in v if re.match(r"  (?:pure )?def \w+\([^=]*=>[^=]*\)", t.split("\n")[0] if True else t)}
bad = 0
for n, v in defs.items():
    for f, t in v:
        for h in hof:
            for m in re.finditer(r"\b%s\(" % h, t):
                d, j = 1, m.end()
                while d and j < len(t):
                    d += {"(": 1, ")": -1}.get(t[j], 0); j += 1
                args = t[m.end():j - 1]
                k = args.find("=>")
                if k < 0: continue
                local = set(re.findall(r'\b(\w+)\s*(?::|=[^=>]|=>|,\s*\w+\)\s*=>)', t))
                inside = set(WORD.findall(args[k:])) - local
                reach = inside | set().union(*[uses.get(w, set()) for w in inside])
                # local values are evaluated lazily: their definitions count where they are used first
                for lv in re.finditer(r"\bval (\w+)\s*=", t):
                    if lv.end() > m.start() or not re.search(r"\b%s\b" % lv.group(1), args[k:]): continue
                    e = statement(t[lv.end():m.start()])
                    if re.search(r"\b%s\b" % lv.group(1), args[:k]): continue  # forced before
                    if re.search(r"\b%s\b" % lv.group(1), t[lv.end() + len(e):m.start()]): continue  # perhaps used before
                    words = set(WORD.findall(e))
                    for _ in range(4):  # values defined by means of other values
                        for x in re.finditer(r"\bval (\w+)\s*=", t[:lv.start()]):
                            if x.group(1) in words: words |= set(WORD.findall(statement(t[x.end():m.start()])))
                    w = words & set(defs)
                    if h in w | set().union(*[uses[x] for x in w]) :
                        reach = reach | {h}; inside = inside | {h}
                if h in reach and not (n == h):
                    print("%s: %s: %s inside %s" % (f, n, h, [w for w in inside if w == h or h in uses.get(w, ())])); bad += 1
sys.exit(bad > 0)
