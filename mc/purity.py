"""P14: answers do not depend on earlier or concurrent calls.

Histories are explored in freshly loaded libraries: Python in a fork of a
process that has made no call yet, JavaScript in a new context, Rust in a new
process.  Python thread schedules are enumerated under a controlled scheduler.
"""

import itertools
import json
import os
import pickle
import signal
import subprocess
import sys
import threading

import core
import spaces as S
from core import ALL72, THOROUGH, ask, py_answer

CK = None

# one call of every kind: every type of word and error, the same input under
# different settings, shared components, both word kinds, look-ups
OPS = [("A", "", "latkerlo"), ("A", "F", "re'enre'e"), ("A", "A", "re'enre'e"), ("A", "", "kliramau"), ("A", "A1rg", "ia'yia"),
       ("B", "z", "gimzu"), ("V", "", "latyspageti"), ("V", "r", "mlatyfa'u'u"), ("S", "", "re'ertren"),
       ("L", "", "mlatu kerlo"), ("L", "c", "mlatu kerlo"), ("L", "A", "traji mlatu"), ("M", "", "traji|mlatu"),
       ("M", "cz", "-tam-|zabna"), ("L", "", "nei nei"), ("R", "", "tra")]
INPUTS = [("A", w) for w in ("re'enre'e", "nei'ynei", "latyia", "gimzu", "rai'ymlatu")] + [("V", "tamza'a"), ("S", "nei'ynei")] + \
    [("L", t) for t in ("traji mlatu", "-tam- zabna", "-nei- -nei-", "lo'a uinmo")]


# ------------------------------------------------------------------- running

def child(fn, limit=60):
    """fn() in a fork of this process, which has called nothing yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            core._die_with_parent()
            os.close(r)
            signal.alarm(limit)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.Hang("a history did not end")
    return pickle.loads(data)


def tables():
    from latkerlo_jvotci.rafsi import RAFSI_LIST
    from latkerlo_jvotci.tarmi import SETTINGS
    return repr(list(RAFSI_LIST.items())), repr(SETTINGS)


def trash(x):
    if isinstance(x, list):
        for y in x:
            trash(y)
        x.append("trashed")
        x.reverse()
        x[0] = "xx"
    elif isinstance(x, tuple):
        for y in x:
            trash(y)
    elif isinstance(x, dict):
        x.clear()


class Watch:
    """the public functions, watching their arguments and results"""

    NAMES = ("analyse_brivla", "is_brivla", "get_veljvo", "score_lujvo", "get_lujvo", "get_lujvo_with_analytics",
             "get_rafsi_indices")

    def __init__(self, lib):
        self.seen = []
        for n in self.NAMES:
            setattr(self, n, self.wrap(getattr(lib, n)))

    def wrap(self, f):
        def g(*a, **k):
            before = pickle.dumps((a, sorted(k.items())))
            try:
                r = f(*a, **k)
            finally:
                if pickle.dumps((a, sorted(k.items()))) != before:
                    raise AssertionError("argument changed")
            self.seen.append((r, a))
            return r
        return g


def py_history(h):
    """answers of a history, and whether the tables are as they were"""
    def go():
        before = tables()
        lib = core._J
        core._J = Watch(lib)
        out = []
        for op, s, x, spoil in h:
            core._J.seen = []
            out.append(py_answer(op, s, x))
            if spoil:
                for r, a in core._J.seen:
                    trash(r)
                    trash(list(a))
                    for y in a:
                        trash(y)
        return out + ["same" if tables() == before else "TABLES-CHANGED"]
    return child(go)


def rs_history(h):
    """a new process; the input is the history's calls"""
    lines = []
    for op, s, x, _ in h:
        lines.append(f"{'L' if op == 'M' else op}\t{s}\t{x.replace('|', ' ') if op == 'M' else x}\n")
    p = subprocess.run(CK.builds.cmd["rs"], input="".join(lines + ["T\t\t\nN\t\t\n", "END\n"]), capture_output=True,
                       text=True, timeout=60, encoding="utf-8")
    out = p.stdout.split("\n")[:-1]
    return out[:-2] + [str(hash(tuple(out[-2:])))]


def run_histories(impl, hs):
    if impl == "py":
        return [py_history(h) for h in hs]
    if impl == "rs":
        return [rs_history(h) for h in hs]
    ans = ask(impl, [("H", "", json.dumps(h, ensure_ascii=False)) for h in hs])
    return [json.loads(a[3:]) if a[0] == "O" else [a] * (len(h) + 1) for a, h in zip(ans, hs)]


def fresh_answers(impl, ops):
    """each call alone in a fresh library"""
    hs = [[(*o, False)] for o in ops]
    return {o: a for o, a in zip(ops, run_histories(impl, hs))}


# ----------------------------------------------------------------- schedules

class Scheduler:
    """Runs two calls in two real threads.  A runs up to its k-th point, B up to
    its m-th (None: to its end), A to its end, B to its end."""

    def __init__(self, a, b, k, m, points):
        self.calls = (a, b)
        self.stop = [k, m]
        self.count = [0, 0]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.parked = threading.Semaphore(0)
        self.done = [False, False]
        self.res = [None, None]
        self.points = points
        self.seen = [{}, {}]
        self.lost = False

    def point(self, i, frame, event):
        key = (frame.f_code, frame.f_lasti if event == "opcode" else frame.f_lineno)
        n = self.seen[i].get(key, 0)
        self.seen[i][key] = n + 1
        if n >= self.points[1]:
            return
        self.count[i] += 1
        if self.count[i] == self.stop[i]:
            self.parked.release()
            self.go[i].acquire()
            sys.settrace(None)              # no further point in this thread
            while frame is not None:
                frame.f_trace = None
                frame = frame.f_back

    def tracer(self, i):
        event_kind = self.points[0]

        def local(frame, event, arg):
            if event == event_kind:
                self.point(i, frame, event)
            return local

        def glob(frame, event, arg):
            if "latkerlo_jvotci" not in frame.f_code.co_filename:
                return None
            if event_kind == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if event_kind == "call":
                self.point(i, frame, "call")
                return None
            return local
        return glob

    def body(self, i):
        self.go[i].acquire()
        if self.stop[i] is not None:
            if self.points[0] == "opcode":
                sys._getframe().f_trace_opcodes = True      # 3.12 needs it before settrace
            sys.settrace(self.tracer(i))
        try:
            self.res[i] = py_answer(*self.calls[i])
        except BaseException as e:
            self.res[i] = "ERR\t" + type(e).__name__
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.parked.release()

    def resume(self, i):
        """let thread i go on, until it parks or ends; a thread waiting for a lock is left alone"""
        self.go[i].release()
        if not self.parked.acquire(timeout=0.2):
            self.lost = True

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.resume(0)
        self.resume(1)
        for i in (0, 1):
            if not self.done[i]:
                self.go[i].release()
        for t in ts:
            t.join(20)
        return self.res


def count_points(a, points):
    def go():
        s = Scheduler(a, a, -1, None, points)
        s.go[0].release()
        s.body(0)
        return s.count[0]
    return child(go)


# ----------------------------------------------------------------------- P14

def iter_model(h):
    ls = dict(L=[["A", "B"], [0, 1, 2]], E=[["A"], []], O=[])
    if h[0] == "S":
        from latkerlo_jvotci.tarmi import SETTINGS
        ls["S"] = SETTINGS
    lst = ls[h[0]]
    seq = ["/".join(map(str, reversed(v))) for v in itertools.product(*reversed(lst))] if lst else [""]
    its, out = [], []
    for c in h[1:]:
        if c == "n":
            its.append(0)
        elif c != "m":
            i = int(c)
            out.append(seq[its[i]] if its[i] < len(seq) else ".")
            its[i] += 1
    return " ".join(out)


def py_iter(h):
    def go():
        from latkerlo_jvotci.tarmi import SETTINGS, SettingsIterator
        lst = dict(S=SETTINGS, L=[["A", "B"], [0, 1, 2]], E=[["A"], []], O=[])[h[0]]
        its, out, last = [], [], None
        for c in h[1:]:
            if c == "n":
                its.append(SettingsIterator(lst))
            elif c == "m":
                if last:
                    last[0] = "xx"
                    last.append("xx")
            else:
                try:
                    last = next(its[int(c)])
                    out.append("/".join(map(str, last)))
                except StopIteration:
                    out.append(".")
        return " ".join(out)
    return go()


def p14(ck):
    impls = ck.impls
    fresh = {}

    # the fresh answers: every call alone, in parallel, collected through the samples
    needed = list(dict.fromkeys(OPS + [(op, c + s, x) for op, x in INPUTS for s in ALL72 for c in
                                       (("", "c") if op == "L" else ("",))]))

    step = 12
    groups = [needed[i:i + step] for i in range(0, len(needed), step)]
    for res in core.fan(lambda g: {impl: fresh_answers(impl, g) for impl in impls}, groups):
        for impl, d in res.items():
            fresh.setdefault(impl, {}).update(d)
    quiet = {impl: next(iter(d.values()))[-1] for impl, d in fresh.items()}
    for impl, d in fresh.items():
        for o, a in d.items():
            if len(a) != 2 or a[-1] != quiet[impl] or quiet[impl] == "TABLES-CHANGED":
                ck.violation(impl, *o, "the tables unchanged", a)

    def histories(t, items):
        for impl in impls:
            for h, out in zip(items, run_histories(impl, items)):
                t.transitions += len(h)
                for (o, a) in zip(h, out):
                    t.traces += 1
                    if a != fresh[impl][tuple(o[:3])][0]:
                        t.bad(impl, o[0], o[1], o[2], fresh[impl][tuple(o[:3])][0], a,
                              "after " + "; ".join(f"{x[0]}({x[1]!r}, {x[2]!r}{', result changed' if x[3] else ''})"
                                                   for x in h[:h.index(o)]))
                if out[-1] != quiet[impl]:
                    t.bad(impl, "H", "", repr(h), "the tables unchanged", out[-1])
        t.states += len(items)
        t.sample.append("; ".join(f"{o[0]} {o[1]} {o[2]}" for o in items[0]))
    ops, n = (OPS[:14], 4) if THOROUGH else (OPS, 3)
    plain = [[(*o, False) for o in h] for h in itertools.product(ops, repeat=n)]
    if THOROUGH:
        plain += [[(*o, False) for o in h] for h in itertools.product(OPS, repeat=3)]
    ck.sweep(f"all histories of {n} of {len(ops)} calls, each in a fresh library", plain, histories)
    ck.sweep("all histories of 2 calls, the first one's results and arguments then overwritten",
             [[(*a, True), (*b, False)] for a in OPS for b in OPS] +
             [[(*a, True), (*b, True), (*c, False)] for a in OPS for b in OPS[:8] for c in (a, b)], histories)

    def orders(t, items):
        for impl in impls:
            hs = []
            for op, x, first in items:
                sets = [c + s for c in (("", "c") if op == "L" else ("",)) for s in ALL72]
                hs.append([(op, first, x, False)] + [(op, s, x, False) for s in sets] + [(op, first, x, False)])
            for (op, x, first), h, out in zip(items, hs, run_histories(impl, hs)):
                t.transitions += len(h)
                t.traces += len(h)
                for n, (o, a) in enumerate(zip(h, out)):
                    if a != fresh[impl][o[:3]][0]:
                        t.bad(impl, *o[:3], fresh[impl][o[:3]][0], a, f"as call {n} after settings {first!r} first")
                        break
                if out[-1] != quiet[impl]:
                    t.bad(impl, "H", "", repr(h[:2]), "the tables unchanged", out[-1])
        t.states += len(items)
        t.sample.append(repr(items[0]))
    ck.sweep("every settings first, then all of them, on the same input",
             [(op, x, c + s) for op, x in INPUTS for c in (("", "c") if op == "L" else ("",)) for s in ALL72], orders)

    # -- the same calls in four orders, each in a fresh library: whatever one call leaves behind for another one
    #    (a memo that forgets an option, a table filled on demand) shows as a difference between two orders
    def four_orders(t, items):
        for op, inputs, sets in items:
            a = [(op, s, x) for x in inputs for s in sets]
            b = [(op, s, x) for s in reversed(sets) for x in reversed(inputs)]
            c = [(op, s, x) for x in reversed(inputs) for s in sets[1::2] + sets[::2]]
            d = [(op, s, x) for s in sets[1::2] + sets[::2] for x in inputs]
            for impl in impls:
                first = None
                for h, out in zip((a, b, c, d), run_histories(impl, [[(*o, False) for o in h] for h in (a, b, c, d)])):
                    t.transitions += len(h)
                    got = dict(zip(h, out))
                    if out[-1] != quiet[impl]:
                        t.bad(impl, "H", "", repr(h[:2]), "the tables unchanged", out[-1])
                    if first is None:
                        first = got
                        continue
                    for o in a:
                        if got[o] != first[o]:
                            t.bad(impl, *o, first[o], got[o], "among the same calls in another order")
                            break
            t.states += 4 * len(a)
            t.sample.append(repr((op, inputs[0], len(a))))

    def cut(op, inputs, sets, n):
        return [(op, inputs[i:i + n], sets) for i in range(0, len(inputs), n)]
    both = ALL72 + ["c" + s for s in ALL72]
    ws = core.words(S.PIECES, 1, 2)
    ex = core.words(S.PIECES_EXP, 2, 2)
    tan = S.tanru(S.TANRU if THOROUGH else S.TANRU[::2], 2, 2)
    blocks = cut("A", ws, ALL72, 60) + cut("A", ex, ALL72, 60) + cut("V", ws, core.SIX, 240) + cut("B", ws, core.NINE, 240) + \
        cut("S", ws, core.SIX, 240) + cut("M", tan, both, 30) + cut("M", S.dependent_tanru(), both, 30) + \
        cut("M", S.tanru(S.TANRU_EXP, 2, 2), both, 40) + cut("M", S.tanru(S.TANRU4[:8], 3, 3), core.SIX + ["c", "cA1r"], 128)
    ck.sweep("blocks of calls, every one in four orders", blocks, four_orders, chunk=1)

    # -- iterators
    def iterators(t, items):
        want = [iter_model(h) for h in items]
        for impl in impls:
            if impl == "rs":
                continue
            got = [py_iter(h) for h in items] if impl == "py" else [a[3:] for a in ask(impl, [("K", "", h) for h in items])]
            t.transitions += sum(map(len, items))
            t.traces += len(items)
            for h, a, b in zip(items, want, got):
                if impl != "py":
                    a = a.replace("False", "false").replace("True", "true")
                if a != b:
                    t.bad(impl, "K", "", h, a, b)
        t.states += len(items)
        t.sample.append(items[0])

    def iter_hist(depth):
        out = [""]
        level = [("", 0)]
        for _ in range(depth):
            level = [(h + c, n + (c == "n")) for h, n in level for c in (["n"] if n < 2 else []) + list("01"[:n]) + (["m"] if n else [])]
            out += [h for h, _ in level]
        return out
    ck.sweep("all interleavings of 2 settings iterators", [l + h for l in "LS" for h in iter_hist(8 if THOROUGH else 7)] +
             [l + h for l in "EO" for h in iter_hist(4)] + ["Sn" + "0" * 75, "Sn" + "0" * 40 + "n" + "01" * 73] +
             ["Ln" + "0" * a + "n" + "1" * b + "0" * (8 - a) + "m" + "1" * (8 - b) for a in range(8) for b in range(8)],
             iterators)

    # -- a process's own randomness
    words = [("A", "", w) for w in core.words(["lat", "mai", "fu'i", "bla", "klam", "mlatu", "r", "y", "a", "spageti"], 1, 3)[:1000]]
    batch = [o for o in OPS] + words + [("L", s, f"{a} {b}") for a in ("klama", "bangu", "mlatu", "-lat-", "uinmo") for b in
                                        ("klama", "bangu", "spageti", "-mai-") for s in ("", "cA")]
    src = ("import sys,json;sys.path[:0]=[%r,%r];import core;core._J=core._py();"
           "print(json.dumps([core.py_answer(*o) for o in json.load(sys.stdin)]))" % (
               os.path.join(core.VERIF, "mc"), os.path.join(core.REPO, "py")))

    def hash_seeds(t, items):
        for seed in items:
            for impl in impls:
                if impl == "py":
                    r = subprocess.run([sys.executable, "-B", "-c", src], input=json.dumps(batch), capture_output=True, text=True,
                                       env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=100)
                    got = json.loads(r.stdout)
                else:
                    b = core.Bridge(core._builds_cmd[impl])
                    got = b.ask([("L" if o[0] == "M" else o[0], o[1], o[2].replace("|", " ")) for o in batch])
                    b.p.kill()
                t.transitions += len(batch)
                t.outcome(impl + " " + str(hash(tuple(got))))
                base = fresh_batch[impl]
                for o, a, b in zip(batch, base, got):
                    t.traces += 1
                    if a != b:
                        t.bad(impl, *o, a, b, f"in process {seed}")
        t.states += len(items)
    fresh_batch = {}
    for impl in impls:
        if impl == "py":
            fresh_batch[impl] = child(lambda: [py_answer(*o) for o in batch])
        else:
            fresh_batch[impl] = ask(impl, [("L" if o[0] == "M" else o[0], o[1], o[2].replace("|", " ")) for o in batch])
    ck.sweep("the same calls in processes with different hash seeds", list(range(32 if THOROUGH else 8)), hash_seeds, chunk=1)

    # -- threads (Python)
    calls = [("A", "", "latkerlo"), ("A", "F", "re'enre'e"), ("A", "A1rg", "ia'yia"), ("A", "", "spageti"), ("V", "z", "tamza'a"),
             ("S", "", "re'ertren"), ("L", "", "traji mlatu"), ("L", "cA", "traji mlatu"), ("G", "z", "-tam- zabna")]
    want = {o: child(lambda o=o: py_answer(*o)) for o in calls}

    def schedules(t, items):
        for a, b, k, m, points in items:
            res = child(lambda: Scheduler(a, b, k, m, points).run())
            t.transitions += 2
            t.traces += 2
            for o, r in zip((a, b), res):
                if r != want[o]:
                    t.bad("py", *o, want[o], r, f"in schedule: {a} to point {k}, {b} to {'its end' if m is None else f'point {m}'}, "
                          f"then the first, then the second; points: {points}")
        t.states += len(items)
        t.sample.append(repr(items[0]))
    points = ("opcode", 1) if THOROUGH else ("line", 1)
    n = {a: count_points(a, points) for a in calls}
    ck.sweep(f"all schedules of {len(calls)} calls and {6 if THOROUGH else len(calls)} others with one preemption, at every {points[0]} (its first {points[1]} visits)",
             [(a, b, k, None, points) for a in calls for b in (calls[:6] if THOROUGH else calls) for k in range(1, n[a] + 1)], schedules)
    few = calls if THOROUGH else [calls[i] for i in (0, 1, 7)]
    points = ("call", 1)
    n = {a: count_points(a, points) for a in few}
    ck.sweep(f"all schedules of 2 of {len(few)} calls with two preemptions, at every function entry (its first {points[1]} visits)",
             [(a, b, k, m, points) for a in few for b in few for k in range(1, n[a] + 1) for m in range(1, n[b] + 1)], schedules)
    ck.assumptions += ["Rust and JavaScript keep no state outside the process or context a history runs in",
                       "Python threads are preempted at line (thorough: bytecode) boundaries of the library's own code"]


p14.opts = {}
