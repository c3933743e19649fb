#!/usr/bin/env python3
"""List small mechanical changes of a source file: mutate.py FILE SEED COUNT
prints JSON lines {line, old, new} (the line before and after)."""
import sys, re, json, random
RULES = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+= ", " -= "), (r" -= ", " += "), (r"\b0\.\b", "1."), (r"\b1\.\b", "2."), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\brow\b", "col"), (r"\bcol\b", "row"),
         (r"\bl\b", "u"), (r"\bu\b", "l"), (r"\(-", "("), (r"= -", "= "), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
         (r"v1", "v2"), (r"v2", "v1"), (r"\bNone\b", "Some(Default::default())"), (r"INF\b", "0."),
         (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"Less", "Greater"), (r"Equal\b", "LessEqual"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
         (r"\ba_", "b_"), (r"_l\b", "_u"), (r"_u\b", "_l"), (r"\bpi\b", "mu"), (r"\bmu\b", "pi"), (r"\blam\b", "nu"), (r"\bnu\b", "lam"),
         (r"num_vars", "num_a"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"),
         (r"\bor_insert\(", "or_insert_with(|| "), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
         (r"\bnot\b", ""), (r"!", ""), (r"%\.", "%.1"), (r" \"", " \" "), (r"\\n", ""), (r"as usize", "as usize + 1")]
f, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
src = open(f).read().split("\n")
end = next((i for i, l in enumerate(src) if "#[cfg(test)]" in l or "mod tests" in l), len(src))
out = []
infn = False
for i, l in enumerate(src[:end]):
    s = l.strip()
    if s.startswith(("//", "use ", "#", "pub use", "mod ", "extern", "impl", "pub fn", "fn ", "trait", "pub trait", "macro", "pub mod", "extern")) or not s:
        continue
    for a, b in RULES:
        for m in re.finditer(a, l):
            if l[:m.start()].count("//"):
                continue
            out.append((i, l[:m.start()] + re.sub(a, lambda _: b, m.group(0)) + l[m.end():]))
    if s.endswith(";") and not s.startswith(("let ", "return", "use", "type", "pub ", "const", "static")) and s.count("(") == s.count(")"):
        out.append((i, l[:len(l) - len(l.lstrip())] + ";"))
    if re.match(r"\s*if .*\{\s*$", l) and " let " not in l:
        out.append((i, re.sub(r"if (.*) \{", r"if !(\1) {", l)))
random.seed(seed)
random.shuffle(out)
seen = set()
for i, new in out:
    if n <= 0:
        break
    if new == src[i] or (i, new) in seen:
        continue
    seen.add((i, new))
    n -= 1
    print(json.dumps({"file": f, "line": i, "old": src[i], "new": new}))
