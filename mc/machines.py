"""The state machines around the library: P18 (settings flags), P19 (CLI), P20 (demo page)."""

import itertools
import json
import os
import re
import subprocess

import core
import purity
import spaces as S
from core import ALL72, SIX, THOROUGH, VERIF, ask

CK = None
ANSI = re.compile(r"\x1b\[[0-9;]*m")

# ------------------------------------------------------- the model of settings

LETTERS = "cSAFC21rgz"
BAD = "hqxX-a 0/"
DEFAULT = ("", "", "", "", "", "")      # c, A/F, 2/1, r, g, z in the printed order
STATES = list(itertools.product(("", "c"), ("", "A", "F"), ("", "2", "1"), ("", "r"), ("", "g"), ("", "z")))
TOGGLE = dict(c=0, r=3, g=4, z=5)


def show(st):
    return "".join(st)


def parse(s):
    """the settings a string of flags stands for, or None"""
    if any(ch not in LETTERS for ch in s) or any(s.count(ch) > 1 for ch in "crgz") or \
            sum(s.count(ch) for ch in "SAF") > 1 or sum(s.count(ch) for ch in "C21") > 1:
        return None
    st = list(DEFAULT)
    for ch in s:
        if ch in TOGGLE:
            st[TOGGLE[ch]] = ch
        elif ch in "AF":
            st[1] = ch
        elif ch in "21":
            st[2] = ch
    return tuple(st)


def apply(st, flags):
    """the settings after flags are typed, or None when they are refused"""
    if any(ch not in LETTERS for ch in flags):
        return None
    st = list(st)
    for ch in flags:
        if ch in TOGGLE:
            st[TOGGLE[ch]] = "" if st[TOGGLE[ch]] else ch
        elif ch in "SC":
            st[1 if ch == "S" else 2] = ""
        else:
            i = 1 if ch in "AF" else 2
            st[i] = "" if st[i] == ch else ch
    return tuple(st)


# ------------------------------------------------------------------------ CLI

def cli(args, stdin=""):
    """stdout (without colours) and exit status of one run of the real CLI"""
    p = subprocess.run([CK.builds.cli, *args], input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    out = p.stdout.decode("utf-8", "replace")
    return ANSI.sub("", out), p.returncode, p.stderr.decode("utf-8", "replace")


def cli_safe(args, stdin=""):
    try:
        return cli(args, stdin)
    except subprocess.TimeoutExpired:
        return "", "no end", ""


class Library:
    """What the library answers, asked ahead in one batch and remembered."""

    def __init__(self):
        self.memo = {}
        table = ask("rs", [("T", "", "")])[0][3:]
        self.rafsi = {k: v.replace(",", " ") for k, v in (e.split("=", 1) for e in table.split(";"))}

    def __call__(self, op, s, x):
        k = op, s, x
        if k not in self.memo:
            self.memo[k] = ask("rs", [k])[0]
        return self.memo[k]


def normalised(w):
    return w.lower().strip(".").replace("h", "'").replace(",", "")


def word_output(lib, st, w):
    """lines the CLI shows for one word, and whether an error is one of them"""
    s = show(st)
    w = normalised(w)
    out = []
    r = lib("R", "", w)[3:]
    if r:
        out.append(f"{{{w}}} is a rafsi of {{{r}}}")
    if w in lib.rafsi:
        out.append(f"{{{w}}} has rafsi {{{lib.rafsi[w]}}}")
    a = lib("A", s, w)
    if a[0] == "E":
        return out + [lib("EA", s, w)[3:]], True
    _, ty, pieces = a.split("\t")
    out.append(dict(EXTENDED_LUJVO="extended lujvo").get(ty, ty.lower()))
    if pieces != w:
        out.append(pieces.replace("|", " "))
    sc = lib("S", s, w)
    if sc[0] == "O":
        out.append(sc[3:])
    v = lib("V", s, w)
    if v[0] == "E":
        return out + [w, lib("EV", s, w)[3:]], True
    v = v[3:].replace("|", " ")
    out.append(v)
    best = lib("L", show(("c" if ty == "CMEVLA" else "",) + tuple(st[1:])), v)
    if best[0] == "O":
        _, b, bs, _ = best.split("\t")
        if b != w:
            out.append(f"best: {b} ({bs})")
            if int(sc[3:]) < int(bs):
                return out + ["hm, the 'best' lujvo actually has a higher score? that can't be good..."], True
    return out, False


def line_output(lib, st, line):
    """lines shown for one line of input that is no command"""
    line = line.strip()
    if len(line.split()) == 1:
        return word_output(lib, st, line)
    a = lib("G", show(st), line)
    return ([a[3:]], False) if a[0] == "O" else ([lib("EG", show(st), line)[3:]], True)


def tidy(text):
    """without the marks that show where a hyphen was dropped"""
    return re.sub(r"^(best: )(.*?)( \(\d+\))$", lambda m: m[1] + m[2].replace("-", "") + m[3], text, flags=re.M)


HELP = object()


def session(lib, lines, st=DEFAULT, newline=True):
    """model of an interactive session: expected output (HELP stands for a help text), status"""
    out = []
    for line in lines:
        out.append(f"\n{show(st)}> ")
        line = line.strip()
        if line.startswith("/"):
            arg = line[1:]
            if "q" in arg:
                return out, 0
            if "h" in arg:
                out.append(HELP)
            elif arg == "":
                st = DEFAULT
            else:
                new = apply(st, arg)
                if new is None:
                    out.append("invalid flags, see /h\n")
                else:
                    st = new
            continue
        ls, _ = line_output(lib, st, line)
        out.append("".join(x + "\n" for x in ls))
    out.append(f"\n{show(st)}> ")
    out.append("\n")
    return out, 0


def matches(out, want):
    if HELP not in want:
        return tidy(out) == tidy("".join(want))
    parts, cur = [], ""
    for w in want:
        if w is HELP:
            parts.append(cur)
            cur = ""
        else:
            cur += w
    parts.append(cur)
    return tidy(out) == tidy(CK.tui_help.join(parts))


# ------------------------------------------------------------------------ P18

def p18(ck):
    def parses(t, items):
        got = ask("rs", [("P", "", x) for x in items])
        for x, g in zip(items, got):
            st = parse(x)
            want = "ERR\tSettingsError" if st is None else "OK\t_" + show(st)
            t.outcome("refused" if st is None else "accepted")
            if g != want:
                t.bad("rs", "parse", "", x, want, g)
        t.states += len(items)
        t.transitions += len(items)
        t.traces += len(items)
        t.sample.append(items[-1])
    ck.sweep("all strings of at most 5 flags", S.chars(LETTERS, 0, 6 if THOROUGH else 5), parses)
    ck.sweep("all strings of at most 3 letters, other letters too", S.chars(LETTERS + BAD + "\u00e9", 0, 4 if THOROUGH else 3), parses)
    full = []
    for st in itertools.product(("", "c"), ("", "S", "A", "F"), ("", "C", "2", "1"), ("", "r"), ("", "g"), ("", "z")):
        ls = [x for x in st if x]
        if len(ls) == 6 or THOROUGH:
            full += ["".join(p) for p in itertools.permutations(ls)]
        full += ["".join(ls) + x for x in LETTERS + "h"] + [x + "".join(ls) for x in LETTERS + "h"]
    ck.sweep("every order of flags for every option, and one more", list(dict.fromkeys(full)), parses)

    def applies(t, items):
        by = {}
        for st, f in items:
            by.setdefault(f, []).append(st)
        for f, sts in by.items():
            got = ask("rs", [("F", ",".join(map(show, sts)), f)])
            for st, g in zip(sts, got):
                new = apply(st, f)
                want = f"OK\tnone\t_{show(st)}" if new is None else f"OK\tsome\t_{show(new)}"
                if g != want:
                    t.bad("rs", "apply", show(st), f, want, g)
            t.states += len(sts)
            t.transitions += len(sts)
            t.traces += len(sts)
        t.sample.append(repr(items[0]))
    ck.sweep("all strings of at most 3 flags, other letters too, in each of the 144 settings",
             [(st, f) for f in S.chars(LETTERS + "hx", 0, 3) + S.chars(LETTERS[:7] if THOROUGH else "cSAz1", 4, 5)
              for st in STATES], applies)
    ck.sweep("every letter in each of the 144 settings", [(st, f) for f in list(BAD + "\u00e9bdefij") for st in STATES], applies)

    def iterators(t, items):
        for impl in ck.impls:
            g = ask(impl, [("N", "", "")])[0][3:].split(" ")
            if impl == "rs":
                want = sorted("_" + show(st) for st in STATES)
            else:
                f, tr = ("False", "True") if impl == "py" else ("false", "true")
                want = sorted("/".join(x) for x in itertools.product(
                    ("STANDARD", "ALLOW_Y", "FORCE_Y"), (f, tr), ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), (f, tr), (f, tr)))
            t.states += len(g)
            t.transitions += len(g)
            t.traces += 1
            if sorted(g) != want:
                t.bad(impl, "N", "", "", "each combination once", " ".join(g))
    ck.sweep("settings iterators", [0], iterators, nproc=1)

    def steps(t, items):
        """each combination once, then the end and nothing but the end"""
        for impl in ck.impls:
            if impl == "rs":
                continue                # itertools' own iterator
            got = [purity.py_iter(h) for h in items] if impl == "py" else [a[3:] for a in ask(impl, [("K", "", h) for h in items])]
            for h, g in zip(items, got):
                for i in range(h.count("n")):
                    k = h.count(str(i))
                    seen = [x for c, x in zip([c for c in h[1:] if c in "01"], g.split(" ")) if c == str(i)]
                    want = sorted(purity.iter_model(h[0] + "n" + "0" * k).split(" "))
                    if impl != "py":
                        want = [x.replace("False", "false").replace("True", "true") for x in want]
                    n = sum(x != "." for x in want)
                    if k and (sorted(seen) != want or seen[n:] != ["."] * (k - n)):
                        t.bad(impl, "K", "", h, want, g)
            t.states += len(items)
            t.transitions += sum(map(len, items))
            t.traces += len(items)
    ck.sweep("settings iterators asked again after the end", ["S" + "n" + "0" * k for k in (72, 73, 80, 150)] +
             ["L" + "n" + "0" * k for k in range(6, 20)] + ["E" + "n" + "0" * k for k in range(1, 9)] +
             ["O" + "n" + "0" * k for k in range(1, 9)] + ["Sn" + "0" * a + "n" + "01" * 80 for a in (0, 1, 40, 72, 75)],
             steps, nproc=1)

    # -- the CLI's prompt
    def prompts(out):
        return [x[:-2] for x in re.findall(r"^[A-Za-z0-9]*> ", out, flags=re.M)]

    def arguments(t, items):
        for f in items:
            out, rc, err = cli_safe(["-" + f])
            st = parse("".join(ch for ch in f if ch != "-"))
            if "h" in f:
                ok = rc == 0 and prompts(out) == [] and "usage:" in out
                want = "help"
            elif st is None:
                ok = rc == 1 and prompts(out) == [] and out == "invalid flags, see -h\n"
                want = "invalid flags"
            else:
                want = f"\n{show(st)}> \n"
                ok = rc == 0 and out == want
            t.states += 1
            t.transitions += 1
            t.traces += 1
            if not ok:
                t.bad("rs", "cli", "-" + f, "", want, (out[:300], rc, err[:200]))
    ck.sweep("CLI: every flags argument of at most 2 letters, and every settings",
             list(dict.fromkeys(S.chars(LETTERS + "hx-", 0, 3 if THOROUGH else 2) + [show(st) for st in STATES] +
                                [show(st)[::-1] for st in STATES])), arguments)

    def walks(t, items):
        for st in items:
            lines, want = [], [show(DEFAULT)]
            for f in list(LETTERS) + ["hA", "x", "Ax", "xA", " A", "A ", "A F", "AF", "FA", "cc", "21", "12", "SA", "AS", "rgz", "-A"]:
                for cmd in ("/", "/" + show(st), "/" + f):
                    lines.append(cmd)
            cur = DEFAULT
            for cmd in lines:
                arg = cmd.strip()[1:]
                if arg == "":
                    cur = DEFAULT
                elif "h" not in arg:
                    cur = apply(cur, arg) or cur
                want.append(show(cur))
            out, rc, err = cli_safe([], "\n".join(lines) + "\n")
            got = prompts(out)
            t.states += len(lines)
            t.transitions += len(lines)
            t.traces += len(lines)
            if got != want or rc != 0:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                t.bad("rs", "cli", "", "\\n".join(lines[max(0, i - 3):i]), want[i:i + 1], (got[i:i + 1], rc, err[:200]))
        t.sample.append(show(items[0]))
    ck.sweep("CLI: every flag typed in each of the 144 settings", STATES, walks)

    # all histories of commands
    cmds = ["/A", "/F", "/2", "/1", "/c", "/r", "/S", "/C", "/", "/Ax", "/h", "/gz"]

    def histories(t, items):
        for h in items:
            want, cur = [show(DEFAULT)], DEFAULT
            for cmd in h:
                cur = DEFAULT if cmd == "/" else cur if "h" in cmd else apply(cur, cmd[1:]) or cur
                want.append(show(cur))
            out, rc, err = cli_safe([], "\n".join(h) + "\n")
            if prompts(out) != want or rc != 0:
                t.bad("rs", "cli", "", "\\n".join(h), want, (prompts(out), rc, err[:200]))
            t.states += 1
            t.transitions += len(h)
            t.traces += len(h)
        t.sample.append(repr(items[0]))
    ck.sweep("CLI: all histories of 3 commands of 12", list(itertools.product(cmds, repeat=4 if THOROUGH else 3)), histories)


p18.opts = dict(cli=True)


# ------------------------------------------------------------------------ P19

# lines of every kind the prompt distinguishes
LINES = ["mlatu", "latkerlo", "mlatykerlo", "lat", "re'ertren", "bisladru", "spageti", "mlatu kerlo", "toispa'y'ismu", "klama nei", "", "/F", "/c",
         "/", "/h", "/x", "LATKERLO"]
CLI_WORDS = ["klama", "spageti", "toi", "y", "mlatyspageti", "tosmabru", "klamymlatu", "bloti", "tcanyja'a", "kerlyspaspa'ykerlo",
             "toi'y'ismu", "toispa'y'ismu", "lojycpa", "nei'ynei", "ia'yia", "gimzu", "a'ynei", "latyia", "mlatyfa'u'u", "rai'ymlatu",
             "re'enre'e", "backyxa'i", "bacyxa'i", "lujvo", "zbasai", "klamas", "djan", ".i", ".mlatu.", "LATKERLO", "lat,kerlo", "h",
             "", " ", "/", "-lat-", "mlatu-", "coi ro do", "mlatu  kerlo", "-lat- kerlo", "mlatu -", "\u00e9", "klama\u0130", "uinmo ismu",
             "nei nei", "-nei- -nei-", "zbasu sanmi", "to'e lojbo", "traji mlatu", "gimzu ki'o", "-tam- zabna"]


def p19(ck):
    lib = Library()
    out, rc, _ = cli([], "/h\n")
    m = re.fullmatch(r"\n> (.*)\n> \n", out, flags=re.S)
    ck.tui_help = m[1] if m else "?"
    usage, rc2, _ = cli(["-h"])
    for text, name, dash in ((ck.tui_help, "/h", "/"), (usage, "-h", "-")):
        missing = [x for x in "h" + LETTERS if dash + x not in text]
        if missing or rc or rc2 or not text.strip():
            ck.violation("rs", "cli", "", name, "a help text naming every flag", f"missing {missing}, statuses {rc}, {rc2}")

    def words_chunk(settings):
        def chunk(t, items):
            # the same words in every settings, in one session
            for s in settings:
                lines = ["/" + s] + items
                want, status = session(lib, lines)
                out, rc, err = cli_safe([], "\n".join(lines) + "\n")
                t.states += len(items)
                t.transitions += len(items)
                t.traces += len(items)
                if rc != status or not matches(out, want):
                    # which word?
                    n = 0
                    for w in items:
                        want, status = session(lib, ["/" + s, w])
                        out, rc, err = cli_safe([], f"/{s}\n{w}\n")
                        if rc != status or not matches(out, want):
                            t.bad("rs", "cli", s, w, (want, status), (out, rc, err[:200]))
                            n += 1
                            if n >= 3:
                                break
                    if n == 0:
                        t.bad("rs", "cli", s, "\\n".join(items), "the answers of the library", (out[-500:], rc, err[:200]))
            t.sample.append(items[0])
            for w in items[:40]:
                a = lib("A", settings[0], normalised(w))
                t.outcome("error" if a[0] == "E" else a.split("\t")[1])
        return chunk

    def prefill(items, settings):
        """ask the library everything a session over items will need, in batches"""
        ws = [normalised(w) for w in items]
        reqs = [("R", "", w) for w in ws]
        ss = ",".join(settings)
        for op in ("A", "S", "V", "EA", "EV"):
            reqs += [(op, ss, w) for w in ws]
        ans = ask("rs", reqs)
        n = len(ws)
        memo = lib.memo
        for w, a in zip(ws, ans):
            memo["R", "", w] = a
        k = n
        best = []
        for op in ("A", "S", "V", "EA", "EV"):
            for w in ws:
                for s in settings:
                    memo[op, s, w] = ans[k]
                    k += 1
        for w in ws:
            for s in settings:
                v, a = memo["V", s, w], memo["A", s, w]
                if v[0] == "O":
                    best.append(("L", show(("c" if "\tCMEVLA\t" in a else "",) + tuple(parse(s)[1:])), v[3:].replace("|", " ")))
        best = list(dict.fromkeys(best))
        for q, a in zip(best, ask("rs", best)):
            memo[q] = a

    def filled(settings):
        inner = words_chunk(settings)

        def chunk(t, items):
            lib.memo.clear()
            prefill(items, settings)
            inner(t, items)
        return chunk
    one = [w for w in core.words(S.PIECES, 1, 2)]
    ck.sweep("words of at most 2 pieces of 30, 144 settings", one, filled([show(st) for st in STATES] if THOROUGH else
                                                                      [show(parse(x)) for x in core.NINE + ["c", "cA2", "cF1rgz"]]))
    few = ["", "A1rg", "F2z"]
    ck.sweep("words of 3 pieces of 30", core.words(S.PIECES, 3, 3), filled([show(parse(x)) for x in (few if THOROUGH else few[1:2])]))
    ck.sweep("words of 4 pieces of 11", core.words(S.PIECES_DEEP[:11], 4, 4), filled([""] if not THOROUGH else ["", "Ar"]))
    ck.sweep("every word and rafsi of the dictionary", list(dict.fromkeys(
        [k for k in lib.rafsi] + [r for v in lib.rafsi.values() for r in v.split()] + [k[:-1] for k in lib.rafsi])), filled([""]))

    def tanru(t, items):
        for s in SETS:
            qs = [(op, s, w) for w in items for op in ("G", "EG")]
            for q, a in zip(qs, ask("rs", qs)):
                lib.memo[q] = a
        words_chunk(SETS)(t, items)
    SETS = [show(parse(x)) for x in ("", "c", "A1rg", "cFz")]
    ck.sweep("tanru of at most 3 components of 14", [w.replace("|", " ") for w in S.tanru(S.TANRU3, 2, 3)], tanru)

    ck.sweep("long tanru", S.runs(S.LONG_TANRU, (), (7, 24), " "), tanru)
    ck.sweep("long words", S.runs(S.LONG_PIECES, (), (8, 33)), filled(["", "A1r"]))

    def arguments(t, items):
        for flags, words in items:
            args = (["-" + flags] if flags else []) + list(words)
            first = args[0]
            st = DEFAULT
            inputs = list(args)
            want, status = None, 0
            if first.startswith("-"):
                inputs = args[1:]
                if "h" in first:
                    want = usage
                else:
                    st = parse(first.replace("-", ""))
                    if st is None:
                        want, status = "invalid flags, see -h\n", 1
            if want is None and any(w.strip().startswith("/") for w in inputs):
                want, status = "flags starting with / can only be used in interactive mode\n", 1
            if want is None and not inputs:
                want = f"\n{show(st)}> \n"
            elif want is None:
                ls, err = line_output(lib, st, " ".join(inputs))
                want, status = "".join(x + "\n" for x in ls), int(err)
            out, rc, err = cli_safe(args)
            t.states += 1
            t.transitions += 1
            t.traces += 1
            t.outcome(f"status {status}")
            if tidy(out) != tidy(want) or rc != status:
                t.bad("rs", "args", flags, "|".join(words), (want[:300], status), (out[:300], rc, err[:200]))
        t.sample.append(repr(items[0]))
    sets = [show(st) for st in STATES] if THOROUGH else ["", "c", "A", "F", "r", "cA2", "A1rg", "F1rgz", "z"]
    ck.sweep("arguments: every line of 51, every settings", [(s, (w,)) for s in sets for w in CLI_WORDS], arguments)
    ck.sweep("arguments: all pairs and triples of words", [
        (s, t) for s in ("", "cA") for n in (2, 3) for t in itertools.product(
            ["mlatu", "kerlo", "-lat-", "spaget-", "nei", "mlatu kerlo", " /A", "x", "", "/c", "-c"][:11 if n == 2 or THOROUGH else 8],
            repeat=n)], arguments)

    def sessions(t, items):
        for h, ends in items:
            for end, text in ends:
                want, status = session(lib, list(h) + ([end] if end else []))
                out, rc, err = cli_safe([], text)
                t.states += 1
                t.transitions += len(h)
                t.traces += 1
                if not matches(out, want) or rc != status:
                    t.bad("rs", "session", "", text.replace("\n", "\\n"), ("".join(x if x is not HELP else "HELP" for x in want)[:600],
                                                                         status), (out[:600], rc, err[:200]))
        t.sample.append(repr(items[0][0]))

    def with_ends(h):
        body = "\n".join(h)
        return h, [(None, body + "\n"), (None, body) if h and h[-1] else (None, body + "\n"), ("/q", body + "\n/q\nmlatu\n"),
                   ("/Aq", body + "\n/Aq\nmlatu\n")]
    ck.sweep("sessions: all histories of at most 2 lines of 17, every way to end", [
        with_ends(h) for n in (1, 2) for h in itertools.product(LINES, repeat=n)], sessions)
    ck.sweep(f"sessions: all histories of {4 if THOROUGH else 3} lines of {len(LINES) - 3}", [
        (h, [(None, "\n".join(h) + "\r\n")]) for h in itertools.product(LINES[:14], repeat=4 if THOROUGH else 3)], sessions)
    ck.sweep("sessions: 12 or 60 equal lines with one different, alternating lines", [
        (h, [(None, "\n".join(h) + "\n")]) for h in S.sequences(LINES, (), (12, 60))], sessions)
    ck.assumptions.append("colours are stripped from the CLI's output before it is compared; arguments and input are valid UTF-8")


p19.opts = dict(impls=("rs",), cli=True)


# ------------------------------------------------------------------------ P20

EVENTS = [["type", "mlatu kerlo"], ["type", "traji mlatu"], ["type", "nei'ynei"], ["type", ""], ["type", " latker "], ["click", "brivla"],
          ["click", "cmevla"], ["click", "ezmode"], ["wait", 7], ["wait", 20]]
TYPED = ["", " ", "   ", "mlatu", " mlatu", "mlatu ", "mlatu  kerlo", "\tmlatu\tkerlo\n", "mlatu kerlo ", "MLATU KERLO", "lat,kerlo", "<b>", "&amp;",
         "<td>x</td>", "a b c", "-", "- -", "x y", "coi ro do", "toString", "__proto__", "\u00e9", "mlatu \u0130", ".mlatu", "y", "'"]


def p20(ck):
    def drive(t, items):
        b = core._bridges.get(("demo", os.getpid()))
        if b is None:
            b = core._bridges["demo", os.getpid()] = core.Bridge(["node", os.path.join(VERIF, "bridge/demo.js"), core.REPO])
        core._current = items[0]
        got = b.send([json.dumps(h) for h in items])
        for h, g in zip(items, got):
            t.states += 1
            t.transitions += len(h)
            t.traces += len(h)
            t.outcome("options " + g[3:] if g[0] == "O" else "wrong")
            if g[0] != "O":
                t.bad("js", "page", "", json.dumps(h, ensure_ascii=False), "the library's answers", g[4:])
        t.sample.append(json.dumps(items[0]))
    depth = 5 if THOROUGH else 4
    ck.sweep(f"all histories of at most {depth} of {len(EVENTS)} events", [list(h) for n in range(depth + 1)
                                                                      for h in itertools.product(EVENTS, repeat=n)], drive)
    modes = [[], [["click", "cmevla"]], [["click", "ezmode"]], [["click", "ezmode"], ["click", "cmevla"], ["wait", 5]]]
    one = core.words(S.PIECES, 1, 2)
    ck.sweep("every word of at most 2 pieces of 30", [[["type", w]] for w in one], drive)
    ck.sweep("every word of at most 2 pieces of 16 experimental ones, in every mode", [
        m + [["type", w]] for w in core.words(S.PIECES_EXP, 1, 2) for m in modes], drive)
    ck.sweep("every tanru of 2 components of 33, in every mode", [
        m + [["type", w.replace("|", " ")]] for w in S.tanru(S.TANRU, 2, 2) for m in (modes if THOROUGH else modes[:2])], drive)
    ck.sweep("every tanru of 2 components of 20 experimental ones", [
        m + [["type", w.replace("|", " ")]] for w in S.tanru(S.TANRU_EXP, 2, 2) for m in modes[:2]], drive)
    import api
    ck.sweep("every word and tanru of the maintained lists", [[["type", r[0]]] for r in api.rows("katna_test_list.tsv")] + [
        m + [["type", r[0]]] for r in api.rows("jvozba_test_list.tsv") for m in ([modes[1]] if r[1] == "C" else [[]])], drive)
    ck.sweep("every word of 3 pieces of 9 experimental ones", [
        [["type", w]] for w in core.words(["u'u", "ia", "'y", "to", "re'e", "a", "y", "mai", "klama"], 3, 3)], drive)
    ck.sweep("unusual texts, in every mode and after one another", [
        m + [["type", a], ["wait", w], ["type", b]] for a in TYPED for b in TYPED for m in (modes if THOROUGH else modes[:1])
        for w in (3, 30)] + [m + [["type", a]] + n for a in TYPED for m in modes for n in modes], drive)
    ck.sweep("9 or 40 equal events with one different, alternating events", list(S.sequences(EVENTS, (9,), (40,))), drive)
    ck.sweep("long words and tanru", [[["type", w]] for w in S.runs(S.LONG_PIECES[:7], (), (8,)) +
                                      S.runs(S.LONG_TANRU[:4], (), (7, 16), " ")], drive)
    # every moment at which the next event can come
    ck.sweep("every delay of 0 to 20 ms between three events", [
        [a, ["wait", i], b, ["wait", j], c] for i in range(0, 21, 1 if THOROUGH else 5) for j in range(0, 21, 1 if THOROUGH else 5)
        for a in EVENTS[:3] for b in EVENTS[:8] for c in EVENTS[:8]], drive)
    if THOROUGH:
        ck.sweep("every word of 3 pieces of 12", [[["type", w]] for w in core.words(S.PIECES_DEEP[:12], 3, 3)], drive)
    ck.assumptions.append("the page runs in a stub DOM (bridge/demo.js) with a virtual clock; layout and styles are not looked at")


p20.opts = dict(impls=())
