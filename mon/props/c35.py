import contextlib
import io
import os
import pathlib
import shutil
import sys
import tempfile

from mon.core import Violation, sim, digest
from mon.util import shrink_ops

ID = "C35"
RULE = ("random nested sequences of capture_stdout and redirect_stdout (with and without include_print, to new and existing files and open handles, left normally or by an exception) in which text is printed, written and flushed, "
        "statistics are printed and traced models are run; captured text (as string, list and file), the files and what still reaches the original stdout are compared with a reference of what was printed")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = ["printed", "captures", "redirects", "exceptions", "clears", "as_file", "handles", "traced", "statistics", "flushes", "nested", "via_env"]
ASSUMPTIONS = ["line ends in files are not converted (posix)"]
TEXTS = ["", "a", "hello world", "two\nlines", "ends with nl\n", "\n", "\n\n", "é€", "tab\there", "x" * 300, "a\r\nb", "{curly} %d"]


class Boom(Exception):
    pass


def gen_ops(rng, depth, n):
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            ops.append(["print", [rng.choice(TEXTS) for _ in range(rng.randint(0, 3))], rng.choice(["\n", "\n", "", "; "]), rng.random() < 0.2])
        elif k < 0.42:
            ops.append(["write", rng.choice(TEXTS)])
        elif k < 0.47:
            ops.append(["stats"])
        elif k < 0.52:
            ops.append(["trace"])
        elif k < 0.57:
            ops.append(["clear"])
        elif k < 0.70:
            ops.append(["file", rng.choice(["str", "path", "handle"]), rng.choice([None, "w", "a"]), rng.randrange(3)])
        elif k < 0.72:
            ops.append(["raise"])
        elif depth < 3:
            inner = gen_ops(rng, depth + 1, rng.randint(0, 5))
            if rng.random() < 0.6:
                ops.append(["capture", rng.random() < 0.6, inner])
            else:
                ops.append(["redirect", rng.choice(["str", "path", "handle"]), rng.choice([None, "w", "a"]), rng.randrange(3), rng.random() < 0.6, rng.random() < 0.3, inner])
    return ops


def gen(rng, index, tier):
    return {"ops": gen_ops(rng, 0, rng.randint(2, 9 if tier == "quick" else 16)), "alias": rng.random() < 0.3}


def model(env_trace):
    env = sim.Environment(trace=env_trace, yieldless=True)

    class C(sim.Component):
        def process(self):
            self.hold(1)
            self.enter(q)
            self.hold(2)
            self.leave(q)

    q = sim.Queue("q")
    C()
    C(at=0.5)
    env.run(5)
    return q


class Run:
    def __init__(self, case, obs, d):
        self.obs = obs
        self.d = d
        self.base = io.StringIO(newline="")
        self.captured = ""
        self.out = ""  # what should have reached the original stdout
        self.files = {}
        self.open = set()
        self.stack = []
        self.api = sim.Environment() if case["alias"] else sim
        if case["alias"]:
            obs("via_env")

    def emit(self, text):
        """where text that is printed now should go"""
        for frame in reversed(self.stack):
            if frame[0] == "capture":
                self.captured += text
            else:
                self.files[frame[2]] += text
            if not frame[1]:
                return
        self.out += text

    def path(self, k):
        return os.path.join(self.d, "f%d" % k)

    def opened(self, how, mode, k):
        """the file argument, with the reference contents at that moment"""
        p = self.path(k)
        if how == "handle":
            self.obs("handles")
            self.files[k] = ""
            return open(p, "w", newline=""), {}
        if mode != "a":
            self.files[k] = ""
        self.files.setdefault(k, "")
        return (p if how == "str" else pathlib.Path(p)), ({} if mode is None else {"mode": mode})

    def check(self):
        got = self.api.captured_stdout_as_str()
        if got != self.captured:
            raise Violation("captured_stdout_as_str() is %r, should be %r" % (got, self.captured))
        if self.api.captured_stdout_as_list() != self.captured.splitlines():
            raise Violation("captured_stdout_as_list() is %r, should be %r" % (self.api.captured_stdout_as_list(), self.captured.splitlines()))
        if self.base.getvalue() != self.out:
            raise Violation("on the original stdout is %r, should be %r" % (self.base.getvalue(), self.out))

    def contents(self, k):
        with open(self.path(k), newline="") as f:
            got = f.read()
        if got != self.files[k]:
            raise Violation("file contains %r, should be %r" % (got, self.files[k]))

    def run(self, ops):
        for op in ops:
            self.do(op)
            self.check()

    def do(self, op):
        what = op[0]
        if what == "print":
            print(*op[1], end=op[2], flush=op[3])
            self.emit(" ".join(op[1]) + op[2])
            self.obs("printed")
            if op[3]:
                self.obs("flushes")
        elif what == "write":
            sys.stdout.write(op[1])
            self.emit(op[1])
        elif what in ("stats", "trace"):
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                q = model(what == "trace")
                if what == "stats":
                    q.print_statistics()
            q = model(what == "trace")
            if what == "stats":
                q.print_statistics()
            if not b.getvalue():
                raise Violation("nothing printed by %s" % what)
            self.emit(b.getvalue())
            self.obs("traced" if what == "trace" else "statistics")
        elif what == "clear":
            self.api.clear_captured_stdout()
            self.captured = ""
            self.obs("clears")
        elif what == "file":
            if op[3] in self.open:
                return
            f, kw = self.opened(op[1], op[2], op[3])
            self.api.captured_stdout_as_file(f, **kw)
            self.files[op[3]] += self.captured
            if op[1] == "handle":
                f.write("still open")
                f.close()
                self.files[op[3]] += "still open"
            self.contents(op[3])
            self.obs("as_file")
        elif what == "raise":
            raise Boom()
        elif what == "capture":
            before = sys.stdout
            self.obs("captures")
            self.obs("nested", len(self.stack) > 0)
            boom = False
            inc = op[1] and not any(f[0] == "capture" for f in self.stack)  # otherwise everything would be captured twice
            self.stack.append(["capture", inc])
            try:
                with (self.api.capture_stdout() if inc and len(self.stack) % 2 else self.api.capture_stdout(include_print=inc)):
                    self.run(op[2])
            except Boom:
                boom = True
            self.stack.pop()
            self.after(before, boom)
        else:
            _, how, mode, k, inc, close, inner = op
            if k in self.open:
                return
            before = sys.stdout
            self.obs("redirects")
            self.obs("nested", len(self.stack) > 0)
            f, kw = self.opened(how, mode, k)
            if not inc or len(self.stack) % 2:
                kw["include_print"] = inc
            boom = False
            self.open.add(k)
            self.stack.append(["redirect", inc, k])
            r = None
            try:
                if close:
                    r = self.api.redirect_stdout(f, **kw)
                    self.run(inner)
                else:
                    with self.api.redirect_stdout(f, **kw):
                        self.run(inner)
            except Boom:
                boom = True
            if r is not None:
                r.close()
            self.open.discard(k)
            self.stack.pop()
            self.after(before, boom)
            if how == "handle":
                if f.closed:
                    raise Violation("file handle given to redirect_stdout is closed")
                f.write("still open")
                f.close()
                self.files[k] += "still open"
            self.contents(k)

    def after(self, before, boom):
        if boom:
            self.obs("exceptions")
        if sys.stdout is not before:
            raise Violation("sys.stdout is not restored")
        print("after")
        self.emit("after\n")
        self.check()


def check(case, obs):
    d = tempfile.mkdtemp(prefix="verif_c35_")
    saved = sys.stdout
    sim.clear_captured_stdout()
    r = Run(case, obs, d)
    try:
        sys.stdout = r.base
        r.check()
        try:
            r.run(case["ops"])
        except Boom:
            pass
        if sys.stdout is not r.base:
            raise Violation("sys.stdout is not restored at the end")
        r.check()
    finally:
        sys.stdout = saved
        sim.clear_captured_stdout()
        shutil.rmtree(d, ignore_errors=True)
    obs.sig = [digest(case["ops"])]
    obs.nontrivial = bool(r.captured or r.files)


def shrink(case):
    yield from shrink_ops(case)
    for i, op in enumerate(case["ops"]):
        if op[0] in ("capture", "redirect"):
            for j in range(len(op[-1])):
                yield dict(case, ops=case["ops"][:i] + [op[:-1] + [op[-1][:j] + op[-1][j + 1:]]] + case["ops"][i + 1:])
