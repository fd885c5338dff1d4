"""Unsatisfiable queries, sampled, written out and put to a second solver."""
import glob
import hashlib
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import z3
import expr as X

PER_HARNESS = 40


class Recorder:
    def __init__(self, directory, pid, seed):
        self.dir, self.pid, self.seed = directory, pid, seed
        self.n = {}
        self.seen = 0
        self.name = "?"

    def __call__(self, cons, extra):
        self.seen += 1
        k = self.n.get(self.name, 0)
        # thin out: every query first, then fewer and fewer
        if k >= PER_HARNESS or (k > 10 and self.seen % (1 << (k // 8)) != self.seed % (1 << (k // 8))):
            return
        self.n[self.name] = k + 1
        s = z3.SolverFor("QF_BV")
        for c in cons:
            s.add(X.to_z3b(c, z3), *X.divisions(c, z3))
        s.add(X.to_z3b(extra, z3), *X.divisions(extra, z3))
        with open(os.path.join(self.dir, "%s-%d-%d.smt2" % (self.name, self.pid, k)), "w") as f:
            f.write("(set-logic QF_BV)\n" + s.to_smt2())


def one(path):
    try:
        p = subprocess.run(["cvc5", "--tlimit=120000", path], capture_output=True, text=True, timeout=180)
        return path, p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        return path, "timeout"


def confirm(directory, workers):
    files = sorted(glob.glob(os.path.join(directory, "*.smt2")))
    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(one, files))
    agreed = sum(1 for _, r in rs if r == "unsat")
    return dict(solver="cvc5", checked=len(files), agreed=agreed,
                no_answer=sum(1 for _, r in rs if r not in ("sat", "unsat")),
                disagreed=[os.path.basename(p) for p, r in rs if r == "sat"])
