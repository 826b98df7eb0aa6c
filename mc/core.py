"""
Explorer core shared by every check.

A check enumerates a finite space completely: a list of states (input, settings
or operation history) produced by an enumerator, with the operations of the
tool applied in each.  The three shipped implementations are driven directly --
Python in process, JavaScript and Rust through the batch bridges in /verif/bridge,
both rebuilt from /repo's working tree -- and each answer is judged by the
property's oracle (an invariant, or the reference model in /verif/model).

Nothing is sampled and there is no time cap: a space is either walked to its end
or the walk stops at a violation.
"""

import ctypes
import itertools
import json
import multiprocessing as mp
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "model"))
sys.path.insert(0, os.path.join(REPO, "py"))

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NPROC = max(1, min(8, os.cpu_count() or 1))
MAXV = 200
CHUNK_LIMIT = 600 if THOROUGH else 120     # seconds one shard may take before it counts as a hang

# ------------------------------------------------------------------ settings

YS = ("", "A", "F")
CONS = ("", "2", "1")


def settings_letters(y=YS, c=CONS, r=("", "r"), g=("", "g"), z=("", "z")):
    return [a + b + d + e + f for a in y for b in c for d in r for e in g for f in z]


ALL72 = settings_letters()
# the corners used where all 72 would be too many
NINE = ["", "A", "F", "r", "Fr", "z", "A2", "A1r", "F1rgz"]
SIX = ["", "A", "F", "Ar", "A2", "F1rgz"]


def st_tuple(s):
    """settings letters -> the model's tuple"""
    return (1 if "A" in s else 2 if "F" in s else 0, "r" in s, 1 if "2" in s else 2 if "1" in s else 0, "g" in s,
            "z" in s)


_kw = {}


def kwargs(s, cm=False):
    """settings letters -> keyword arguments of the Python functions"""
    k = _kw.get((s, cm))
    if k is None:
        k = dict(y_hyphens="ALLOW_Y" if "A" in s else "FORCE_Y" if "F" in s else "STANDARD",
                 exp_rafsi_shapes="r" in s,
                 consonants="TWO_CONSONANTS" if "2" in s else "ONE_CONSONANT" if "1" in s else "CLUSTER",
                 glides="g" in s, allow_mz="z" in s)
        if cm:
            k = dict(generate_cmevla="c" in s, **k)
        if "-" in s:                # defaults left out
            k = {a: b for a, b in k.items() if b not in (False, "STANDARD", "CLUSTER")}
        _kw[s, cm] = k
    return k


# ----------------------------------------------------------- implementations

class Hang(BaseException):
    pass


def _py():
    import latkerlo_jvotci
    return latkerlo_jvotci


def _exact(v, t):
    if type(v) is not t:
        raise AssertionError(f"answer of type {type(v).__name__}")
    return v


def _analytics(r):
    w, sc, ix = r
    return f"OK\t{w}\t{sc}\t" + ",".join(f"{a}-{b}" for a, b in ix)


def py_answer(op, s, x):
    J = _J
    try:
        if op == "A":
            t, p = J.analyse_brivla(x, **kwargs(s))
            return "OK\t" + t + "\t" + "|".join(p)
        if op == "B":
            return "OK\ttrue" if _exact(J.is_brivla(x, **kwargs(s)), bool) else "OK\tfalse"
        if op == "V":
            return "OK\t" + "|".join(J.get_veljvo(x, **kwargs(s)))
        if op == "S":
            return "OK\t" + str(J.score_lujvo(x, **kwargs(s)))
        if op == "L":
            return _analytics(J.get_lujvo_with_analytics(x, **kwargs(s, True)))
        if op == "M":
            return _analytics(J.get_lujvo_with_analytics(x.split("|") if x else [], **kwargs(s, True)))
        if op == "G":
            return "OK\t" + J.get_lujvo(x, **kwargs(s, True))
        if op == "D":
            if " " in x:
                return "OK\t" + J.get_lujvo(x)
            t, p = J.analyse_brivla(x)
            return "OK\t" + t + "\t" + "|".join(p)
        if op == "R":
            from latkerlo_jvotci.katna import search_selrafsi_from_rafsi
            return "OK\t" + (search_selrafsi_from_rafsi(x) or "")
        if op == "I":
            return "OK\t" + ",".join(f"{a}-{b}" for a, b in J.get_rafsi_indices(x.split("|")))
        if op == "T":
            from latkerlo_jvotci.rafsi import RAFSI_LIST
            return "OK\t" + ";".join(sorted(k + "=" + ",".join(v) for k, v in RAFSI_LIST.items()))
        if op == "N":
            from latkerlo_jvotci.tarmi import SETTINGS, SettingsIterator
            return "OK\t" + " ".join("/".join(str(v) for v in c)
                                     for c in itertools.islice(iter(SettingsIterator(SETTINGS)), 1000))
        raise SystemExit("bad op " + op)
    except Exception as e:
        return "ERR\t" + type(e).__name__


_J = None


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


class Bridge:
    """A persistent batch bridge process."""

    def __init__(self, cmd):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=_die_with_parent)

    def ask(self, reqs):
        out = []
        for i in range(0, len(reqs), 60000):
            out += self._ask(reqs[i:i + 60000])
        return out

    def _ask(self, reqs):
        lines = []
        n = 0
        for op, s, x in reqs:
            n += s.count(",") + 1
            if any(c < " " or c == "\\" or c > "~" for c in x):
                x = json.dumps(x)[1:-1].replace("\\\"", '"')
            lines.append(f"{op}\t{s}\t{x}")
        return self.send(lines, n)

    def send(self, lines, n=None):
        n = len(lines) if n is None else n
        data = ("\n".join(lines) + "\nEND\n").encode()
        t = threading.Thread(target=self._write, args=(data,), daemon=True)
        t.start()
        buf = []
        got = 0
        fd = self.p.stdout.fileno()
        sel = selectors.DefaultSelector()
        sel.register(fd, selectors.EVENT_READ)
        end = time.time() + CHUNK_LIMIT
        while got < n:
            if not sel.select(max(0, end - time.time())):
                raise Hang(f"no answer from the bridge within {CHUNK_LIMIT} s")
            b = os.read(fd, 1 << 20)
            if not b:
                raise Hang("the bridge process died")
            buf.append(b)
            got += b.count(b"\n")
        sel.close()
        t.join()
        ans = b"".join(buf).decode().split("\n")[:-1]
        if len(ans) != n:
            raise SystemExit(f"bridge out of step: {len(ans)} answers to {n} requests")
        return ans

    def _write(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass


class Builds:
    """JS and Rust built from /repo's working tree into a scratch directory."""

    TSC = "/opt/veriftools/node/node_modules/.bin/tsc"

    def __init__(self, js=True, rs=True, cli=False):
        self.dir = tempfile.mkdtemp(prefix="verif_build_")
        self.cmd = {}
        self.notes = []
        self.broken = {}
        ts = []
        if js:
            ts.append(threading.Thread(target=self._js))
        if rs or cli:
            ts.append(threading.Thread(target=self._rs, args=(cli,)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def _js(self):
        out = os.path.join(self.dir, "js")
        os.makedirs(out)
        docs = os.path.join(REPO, "js/docs")
        self.cmd["js"] = ["node", os.path.join(VERIF, "bridge/server.js"), docs]
        r = subprocess.run([self.TSC, "-p", os.path.join(REPO, "js/tsconfig.json"), "--outDir", out,
                            "--incremental", "false"], capture_output=True, text=True)
        if r.returncode and not os.path.exists(os.path.join(out, "katna.js")):
            self.broken["ts"] = (r.stdout + r.stderr)[-1500:]
            self.notes.append("js/src does not compile: js/docs alone was driven")
            return
        names = {f for f in os.listdir(out) if f.endswith(".js")}
        same = names == {f for f in os.listdir(docs) if f.endswith(".js")} and all(
            open(os.path.join(out, f), "rb").read() == open(os.path.join(docs, f), "rb").read() for f in names)
        if not same:
            # the shipped files and the sources differ: both are driven
            self.cmd["ts"] = ["node", os.path.join(VERIF, "bridge/server.js"), out]
            self.notes.append("js/docs is not the compiled js/src: both were driven")

    def _rs(self, cli):
        d = os.path.join(self.dir, "rs")
        shutil.copytree(os.path.join(VERIF, "bridge/rs"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        shutil.copytree(os.path.join(REPO, "rs/src"), os.path.join(d, "lib/src"))
        with open(os.path.join(d, "lib/Cargo.toml"), "w") as f:
            f.write('[package]\nname = "latkerlo-jvotci"\nversion = "0.0.0"\nedition = "2024"\n'
                    '[[bin]]\nname = "jvotci"\npath = "src/main.rs"\n'
                    '[dependencies]\nindexmap = "2"\nitertools = "0.15"\nregex = "1"\n')
        opt = ("2", "2") if THOROUGH else ("0", "1")
        with open(os.path.join(d, "Cargo.toml"), "a") as f:
            f.write(f"opt-level = {opt[1]}\n[profile.release.package.latkerlo-jvotci]\nopt-level = {opt[0]}\n")
        cmd = ["cargo", "+nightly", "build", "--release", "--offline", "-q"]
        cmd += ["-p", "latkerlo-jvotci", "-p", "bridge"] if cli else ["-p", "bridge"]
        r = subprocess.run(cmd + ["--features", "bridge/helpers"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            # without the functions that are public but outside the documented API
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
            if not r.returncode:
                self.notes.append("rs/src/tools.rs has no get_rafsi_indices to drive")
        exe = os.path.join(d, "target/release/bridge")
        if r.returncode or not os.path.exists(exe):
            self.broken["rs"] = r.stderr[-1500:]
            self.notes.append("rs does not build: not driven")
            print("rust build failed:\n" + r.stderr[-1500:], file=sys.stderr)
            return
        self.cmd["rs"] = [exe]
        self.cli = os.path.join(d, "target/release/jvotci")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------- workers

_bridges = {}
_builds_cmd = {}
_chunkfn = None
_items = None
_known = frozenset()
_current = None


def ask(impl, reqs):
    """Answers to requests (op, "s1,s2,...", input), one per request and setting."""
    global _current
    if impl == "py":
        out = []
        for r in reqs:
            _current = r
            op, ss, x = r
            if "," in ss:
                for s in ss.split(","):
                    out.append(py_answer(op, s, x))
            else:
                out.append(py_answer(op, ss, x))
        return out
    _current = ("batch", reqs[0], reqs[-1]) if reqs else None
    b = _bridges.get((impl, os.getpid()))       # a forked worker must not share its parent's pipe
    if b is None:
        b = _bridges[impl, os.getpid()] = Bridge(_builds_cmd[impl])
    return b.ask(reqs)


def _alarm(*_):
    raise Hang(f"no answer within {CHUNK_LIMIT} s")


class Tally:
    __slots__ = ("states", "transitions", "traces", "viol", "sample", "outcomes")

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.viol = []
        self.sample = []
        self.outcomes = {}

    def bad(self, impl, op, s, x, want, got, why=""):
        self.viol.append((impl, op, s, x, str(want), str(got), why))

    def outcome(self, k, n=1):
        self.outcomes[k] = self.outcomes.get(k, 0) + n


def _work(span):
    t = Tally()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CHUNK_LIMIT)
    try:
        _chunkfn(t, _items[span[0]:span[1]])
    except Hang as e:
        t.bad("?", "hang", "", repr(_current), "an answer", str(e))
        for b in _bridges.values():
            b.p.kill()
        _bridges.clear()
    finally:
        signal.alarm(0)
    return t


def _quit():
    for b in _bridges.values():
        b.p.kill()


class Check:
    """One property's run: exploration, evidence, findings, verdict."""

    def __init__(self, pid, impls=("py", "js", "rs"), cli=False):
        global _J
        self.pid = pid
        self.t0 = time.time()
        _J = _py()
        where = os.path.realpath(_J.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise SystemExit(f"imported {where}, not {REPO}")
        self.builds = Builds(js="js" in impls, rs="rs" in impls, cli=cli)
        _builds_cmd.update(self.builds.cmd)
        self.impls = tuple(i for i in ("py",) if i in impls) + tuple(
            i for i in ("js", "ts", "rs") if i in self.builds.cmd)
        self.total = Tally()
        self.spaces = []
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.assumptions = []
        self.hung = False
        self.extra = {}

    # -- exploration
    def sweep(self, name, items, chunkfn, chunk=None, nproc=NPROC):
        """Apply chunkfn(tally, items) to all of items, sharded over processes."""
        global _chunkfn, _items
        if len(self.violations) >= MAXV or self.hung:
            return None
        t0 = time.time()
        items = items if isinstance(items, list) else list(items)
        _chunkfn, _items = chunkfn, items
        n = len(items)
        chunk = chunk or max(1, min(4000, (n + nproc * 6 - 1) // (nproc * 6)))
        spans = [(i, min(n, i + chunk)) for i in range(0, n, chunk)]
        tot = Tally()
        if nproc == 1 or len(spans) == 1:
            results = map(_work, spans)
            pool = None
        else:
            pool = mp.get_context("fork").Pool(nproc)
            results = pool.imap_unordered(_work, spans)
        for r in results:
            tot.states += r.states
            tot.transitions += r.transitions
            tot.traces += r.traces
            for k, v in r.outcomes.items():
                tot.outcomes[k] = tot.outcomes.get(k, 0) + v
            if len(tot.sample) < 4:
                tot.sample += r.sample[:1]
            for v in r.viol:
                self._violation(v)
            if len(self.violations) > MAXV or self.hung:
                break
        if pool:
            pool.terminate()
            pool.join()
        self.total.states += tot.states
        self.total.transitions += tot.transitions
        self.total.traces += tot.traces
        self.spaces.append(dict(space=name, items=n, states=tot.states, transitions=tot.transitions,
                                model_answers_compared=tot.traces,
                                outcomes=dict(sorted(tot.outcomes.items(), key=lambda kv: -kv[1])[:12]),
                                samples=tot.sample[:3], seconds=round(time.time() - t0, 1)))
        print(f"[{self.pid}] {name}: {n} items, {tot.states} states, {tot.transitions} calls, "
              f"{len(self.violations)} violations, {time.time() - t0:.1f} s", flush=True)
        return tot

    def _violation(self, v):
        impl, op, s, x = v[:4]
        self.hung = self.hung or op == "hang"
        key = self.known.get((impl, op, s, x))
        if key is not None:
            self.known_hit[(impl, op, s, x)] = key
        else:
            self.violations.append(v)

    def violation(self, impl, op, s, x, want, got, why=""):
        self._violation((impl, op, s, x, str(want), str(got), why))

    # -- verdict
    def finish(self, level_text=""):
        self.builds.close()
        for b in _bridges.values():
            b.p.kill()
        for k, text in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        samples = [s for sp in self.spaces for s in sp["samples"]][:12]
        cov = dict(states=self.total.states, transitions=self.total.transitions,
                   traces_validated_against_impl=self.total.traces, samples=samples,
                   exhaustive=not self.violations, spaces=self.spaces, implementations=list(self.impls),
                   rule="states: distinct (input or history, settings) visited; transitions: calls made to the "
                        "implementations in those states; traces_validated_against_impl: answers compared with the "
                        "reference model's",
                   notes=self.builds.notes)
        cov.update(self.extra)
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED,
                           level="model_checking", coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.t0, 2), violations=len(self.violations)), f, indent=1)
        if not self.violations:
            print(f"[{self.pid}] held on {self.total.states} states, {self.total.transitions} calls, "
                  f"{self.total.traces} model comparisons in {time.time() - self.t0:.1f} s")
            return 0
        vs = sorted(self.violations, key=lambda v: (len(v[3]), len(v[2]), v))
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, self.pid + ".json")
        with open(path, "w") as f:
            json.dump([dict(property=self.pid, implementation=v[0], op=v[1], settings=v[2], input=v[3], expected=v[4],
                            got=v[5], why=v[6]) for v in vs[:50]], f, indent=1, ensure_ascii=False)
        for v in vs[:5]:
            print(f"  {v[0]} {v[1]} settings={v[2]!r} input={v[3]!r}: expected {v[4]!r}, got {v[5]!r} {v[6]}")
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


_fanfn = None


def _fan(x):
    return _fanfn(x)


def fan(fn, items, nproc=NPROC):
    """fn of every item, in forked workers"""
    global _fanfn
    _fanfn = fn
    with mp.get_context("fork").Pool(nproc) as pool:
        return list(pool.imap(_fan, items))


def load_known(pid):
    """known findings of one property: (impl, op, settings, input) -> description"""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if not line.startswith("finding: "):
                    continue
                meta, text = line[len("finding: "):].rstrip("\n").split(" :: ", 1)
                d = dict(kv.split("=", 1) for kv in meta.split(";"))
                if d["property"] != pid:
                    continue
                for impl in d["impl"].split(","):
                    known[impl, d["op"], d["settings"], d["input"]] = \
                        f"{impl} op={d['op']} settings={d['settings']!r} input={d['input']!r}: {text}"
    return known


def words(pieces, lo, hi):
    """All distinct concatenations of lo..hi pieces, shortest first."""
    seen = {}
    for n in range(lo, hi + 1):
        for t in itertools.product(pieces, repeat=n):
            seen.setdefault("".join(t))
    return list(seen)
