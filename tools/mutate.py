#!/usr/bin/env python3
"""mutate.py SEED COUNT [FILE-SUBSTRING]: a mutation campaign.  Draws COUNT single-token mutants of the library's headers,
runs the quick checks of the properties anchored there against each (until one reports a violation) and prints
the survivors.  Works in a scratch copy of /repo and of /verif's committed tree under /tmp/mut; nothing reads its results."""
import os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
FILES = {
    "HEAAN/arith/Z_Q.h": "C01 C02 C03", "HEAAN/arith/R_Q.h": "C08 C02 C03", "HEAAN/arith/R_Q_square.h": "C08 C02 C17 C03",
    "HEAAN/arith/conv.h": "C07 C25 C26", "HEAAN/arith/conv/conv.h": "C07 C25 C26", "HEAAN/arith/conv/crt.h": "C05 C07", "HEAAN/arith/conv/ntt.h": "C06 C07",
    "HEAAN/arith/conv/mod.h": "C04 C06 C05", "HEAAN/matrix/matrix.h": "C11 C18", "HEAAN/matrix/DFT.h": "C09 C21 C25 C26", "HEAAN/endecode.h": "C10",
    "HEAAN/core.h": "C14 C16 C15 C17", "HEAAN/linear_transform.h": "C12 C16 C18", "HEAAN/poly.h": "C19", "HEAAN/bootstrap.h": "C21 C20 C22 C23 C24",
    "impl/message.h": "C27 C11 C13", "impl/plaintext.h": "C13 C10", "impl/simple_plaintext.h": "C27", "util/util.h": "C15 C14 C09", "experiment/setup.h": "C29", "experiment/rns.h": "C29", "experiment/lattigo.h": "C29", "experiment/section3.h": "C29",
    **{"../src/experiment/" + p: "C29" for p in ("section3/theorem_serial_matmul_error.cpp", "section3/lemma_conv_error.cpp", "section3/lemma_conv_sum_error.cpp", "section3/theorem_cts_error.cpp",
       "section3/theorem_single_matmul_error.cpp", "section4/design_delta_tilde.cpp", "section4/proposal.cpp", "section4/measure_b_evalmod.cpp", "section4/design_delta_tilde_lattigo.cpp", "section4/example_sup_norm.cpp")},
}
OPS = [(r"<=", "<"), (r"(?<![<\-=])<(?![<=])(?=[^>]*;)", "<="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"(?<![+\w(,=] )(?<!\+)\+(?![+=])", "-"),
       (r"(?<![-\w(,=<>] )(?<![-eE])-(?![-=>])", "+"), (r"\+=", "-="), (r"-=", "+="), (r"<<", ">>"), (r">>", "<<"), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"%", "/"), (r"\*(?=\d|[A-Za-z_]\w*\b(?!\s*[,)&]))", "+"), (r"(?<![\w.])(\d+)(?![\w.])", None), (r"^\s*[^#/}{].*;\s*$", "DEL"),
       (r"\bif\s*\(", "if(!"), (r"\bconst\b", None)]


def mutants(text, rng):
    lines = text.split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "template", "*", "/*", "static const", "using", "assert", "typedef", "struct")) or "cout" in s or "printf" in s:
            continue
        for pat, rep in OPS:
            if pat == r"\bconst\b":
                continue
            for m in re.finditer(pat, l):
                if rep == "DEL":
                    if "return" in l or re.match(r"\s*(const |static |R_Q|Z_Q|int |double |uint64_t |SparseDiagonal|__int128|bool )", l):
                        continue
                    n = re.match(r"\s*", l).group(0) + ";"
                elif rep is None:
                    k = int(m.group(1))
                    if k > 1 << 40:
                        continue
                    n = l[:m.start()] + str(k + rng.choice([1, -1]) if k else 1) + l[m.end():]
                elif rep == "if(!":
                    d, j = 1, m.end()
                    while j < len(l) and d:
                        d += (l[j] == "(") - (l[j] == ")")
                        j += 1
                    if d:
                        continue
                    n = l[:m.start()] + "if(!(" + l[m.end():j - 1] + "))" + l[j:]
                else:
                    n = l[:m.start()] + rep + l[m.end():]
                if n != l:
                    out.append((i, l, n))
    return lines, out


def main():
    seed, count, only = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else ""
    rng = random.Random(seed)
    for d in ("repo", "verif"):
        shutil.rmtree(f"{W}/{d}", ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
    subprocess.run(["git", "clone", "-q", V, W + "/verif"], check=True)
    pool = []
    for f, checks in FILES.items():
        if only in f:
            lines, ms = mutants(open(f"{W}/repo/include/{f}").read(), rng)
            pool += [(f, checks.split(), m) for m in ms]
    print(len(pool), "mutants in all", flush=True)
    rng.shuffle(pool)
    caught = survived = broken = 0
    for f, checks, (i, old, new) in pool[:count]:
        p = f"{W}/repo/include/{f}"
        orig = open(p).read()
        lines = orig.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        res, t0 = "SURVIVED", time.time()
        tr = []
        for c in checks:
            try:
                r = subprocess.run(["python3", "run.py", c, "--tier", "quick", "--seed", "1"], cwd=W + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, EVALROUND_REPO=W + "/repo"), timeout=3000)
            except subprocess.TimeoutExpired:
                tr.append(c + ":timeout")
                continue
            if r.returncode == 1 and b"VIOLATION" in r.stdout:
                res = "caught by " + c
                break
            if r.returncode == 2:
                tr.append(c + ":no build")
                res = "no build"
                break
            tr.append(f"{c}:{r.returncode}")
        open(p, "w").write(orig)
        caught += res.startswith("caught")
        survived += res == "SURVIVED"
        print(f"{res} [{time.time() - t0:.0f}s] {f}:{i + 1} {old.strip()!r} -> {new.strip()!r} {' '.join(tr)}"[:300], flush=True)
        for d in ("build/cache",):
            c = f"{W}/verif/{d}"
            for x in os.listdir(c) if os.path.isdir(c) else []:
                q = f"{c}/{x}"
                if time.time() - os.path.getmtime(q) > 3000:
                    os.unlink(q)
    print(f"caught {caught}, survived {survived} of {count}")


main()
