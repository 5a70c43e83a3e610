#!/usr/bin/env python3
"""Mutation campaign over a scratch copy of the library (never /repo itself).

mutate.py REPO_COPY VERIF_COPY LOG N SEED [FILE-REGEX]
Each mutant is one small edit; the checks of the properties its file bears on
run one after another until one reports a violation. Survivors are for reading.
"""
import os, random, re, subprocess, sys, time

repo, verif, log, n, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
only = re.compile(sys.argv[6] if len(sys.argv) > 6 else ".")
MAP = [
    (r"prime_base/fp\.", "P01 P02 P03 P12 P13 P04 P24 P10 P06"), (r"prime_extension/", "P05 P02 P03 P06 P07 P04 P12 P13 P24"),
    (r"fields/binary", "P08 P30 P02 P03 P13 P12 P24 P04 P06"), (r"bigint", "P11 P13 P27 P24 P01"), (r"field_utils/field_utils", "P10 P12 P19 P27 P24"),
    (r"algorithms", "P03 P04 P07"), (r"fp_aux", "P01 P05"), (r"_g[12]\.(cpp|hpp)", "P14 P30 P15 P20 P19 P24 P17 P09 P25 P31"),
    (r"_(fields|init|pp)\.(cpp|hpp)", "P09 P25 P10 P22 P14 P21 P04 P06"), (r"_pairing\.", "P22 P21 P23 P20"), (r"curve_utils", "P15 P14 P24"),
    (r"wnaf", "P16 P17 P15"), (r"multiexp", "P17 P18 P19 P16 P28"), (r"serialization", "P13 P20"), (r"profiling", "P26 P31"), (r"common/utils", "P27"), (r"rng", "P24"),
]
SKIP = re.compile(r"bn128/bn128|/tests/|double|multiexp_profile|/examples/")
files = [f for f in subprocess.run(["git", "-C", repo, "ls-files", "libff"], capture_output=True, text=True).stdout.split()
         if re.search(r"\.(cpp|tcc|hpp|h)$", f) and not re.search(r"(^|/)bn128", f) and not SKIP.search(f) and only.search(f) and any(re.search(p, f) for p, _ in MAP)]
PAIRS = [("+", "-"), ("-", "+"), ("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"),
         ("<<", ">>"), (">>", "<<"), ("|", "&"), ("&", "|"), ("^", "|"), ("+=", "-="), ("-=", "+="), ("++", "--"), ("*", "+")]
SW = {"c0": "c1", "c1": "c0", "c2": "c1", "X": "Y", "Y": "X", "Z": "Y", "true": "false", "false": "true", "first": "second", "squared": "operator-",
      "rhs": "(*this)", "one": "zero", "zero": "one", "dbl": "operator-", "a": "b", "b": "a", "A": "B", "B": "A", "C": "D", "D": "C", "E": "F", "F": "E", "X1": "X2",
      "X2": "X1", "Y1": "Y2", "Y2": "Y1", "Z1": "Z2", "Z2": "Z1", "Z1Z1": "Z2Z2", "Z2Z2": "Z1Z1", "S1": "S2", "U1": "U2", "i": "(i+1)", "j": "(j+1)", "n": "(n-1)", "k": "(k+1)", "w": "(w+1)"}


def candidates(path):
    txt = open(os.path.join(repo, path)).read()
    depth_in_comment = False
    res = []
    lines = txt.split("\n")
    for no, line in enumerate(lines):
        s = line.strip()
        if s.startswith("/*"):
            depth_in_comment = True
        if depth_in_comment:
            if "*/" in s:
                depth_in_comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "template", "typedef", "class", "struct", "extern", "static", "friend", "public", "private", "}")) or "_cnt" in s or "assert" in s or "printf" in s or "print" in s:
            continue
        if not line.startswith((" ", "\t")):
            continue
        code = line.split("//")[0]
        if '"' in code and "%" in code:
            continue
        for m in re.finditer(r"<<=|>>=|\+\+|--|\+=|-=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*<>|&^]", code):
            for a, b in PAIRS:
                if m.group(0) == a and not (a in "<>*&" and not re.search(r"\s$", code[:m.start()])):
                    res.append((no, m.start(), m.end(), b))
        for m in re.finditer(r"\b\d+(?=[uUlL]*\b)", code):
            if m.start() and code[m.start() - 1] in "xX_":
                continue
            v = int(m.group(0))
            if v < 10**6:
                res += [(no, m.start(), m.end(), str(v + 1))] + ([(no, m.start(), m.end(), str(v - 1))] if v else [])
        for m in re.finditer(r"\b[A-Za-z_]\w*\b", code):
            if m.group(0) in SW:
                res.append((no, m.start(), m.end(), SW[m.group(0)]))
        if re.match(r"\s+[\w.\[\]>()*&:-]+(\s*[-+*^|&]?=\s*|\().*;\s*$", code) and not re.match(r"\s+(return|const|auto|bool|int|long|size_t|unsigned|else|using)\b", code):
            res.append((no, len(line) - len(line.lstrip()), len(code.rstrip()), ";"))
        m = re.match(r"\s+if \((.*)\)\s*$", code)
        if m:
            res += [(no, m.start(1), m.end(1), "true"), (no, m.start(1), m.end(1), "false")]
    return lines, res


rnd = random.Random(seed)
pool = []
for f in files:
    lines, c = candidates(f)
    rnd.shuffle(c)
    # weigh files by the square root of their size
    pool += [(f, x) for x in c[:max(6, int(3 * len(c) ** 0.5))]]
rnd.shuffle(pool)
print(len(pool), "candidates in", len(files), "files")
env = dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick")
for k, (f, (no, a, b, new)) in enumerate(pool[:n]):
    path = os.path.join(repo, f)
    old = open(path).read()
    lines = old.split("\n")
    was = lines[no]
    lines[no] = was[:a] + new + was[b:]
    open(path, "w").write("\n".join(lines))
    t = time.time()
    verdict, props = "SURVIVED", next(p for r, p in MAP if re.search(r, f)).split()
    try:
        for p in props:
            r = subprocess.run([os.path.join(verif, "bin/check"), p, "--tier", "quick"], env=env, capture_output=True, text=True, timeout=1500)
            if r.returncode == 1:
                verdict = "caught " + p
                break
            if r.returncode != 0:
                verdict = ("nocompile" if "compiling" in r.stdout or "linking" in r.stdout else "ERROR " + p + " " + r.stdout[-200:].replace("\n", " "))
                break
    except subprocess.TimeoutExpired:
        verdict = "TIMEOUT " + p
    finally:
        open(path, "w").write(old)
    with open(log, "a") as o:
        o.write("%s | %s:%d | %s => %s | %ds\n" % (verdict, f, no + 1, was.strip(), lines[no].strip(), time.time() - t))
