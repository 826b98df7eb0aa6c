"""Checks of the API's surface: P11, P13, P14, P16, P17."""

import itertools
import json
import os
import re
import subprocess
import sys
import time

import core
import jvozba as MJ
import spaces as S
import veljvo as MV
from core import ALL72, NINE, REPO, SIX, THOROUGH, VERIF, ask
from generation import both, gen
from lojban import normalise

CK = None

ANALYSIS_ERR = frozenset(("NotBrivlaError",))
LUJVO_ERR = frozenset(("NotBrivlaError", "DecompositionError"))
MAKE_ERR = frozenset(("NoLujvoFoundError", "NonLojbanCharacterError", "NotZihevlaError", "InvalidClusterError"))


# ------------------------------------------------------------------------ P11

# one character of every class the code distinguishes, and classes it does not expect
HOSTILE = ["a", "i", "t", "m", "r", "y", "'", "h", ".", ",", "-", " ", "A", "\u00e9", "\u0130", "0", "\u2019", "\n", "w"]
HOSTILE_WORDS = ["", "-", "--", "---", "-t-", "t-", "-y-", "y", "'", "h", ".", ",", "-.-", "-,-", ".-", "-'-", "-h-", "klama", "KLAMA",
                 "klama-", "-klama-", "-klama", "k-l", "\u00e9", "0", "a", "a-", "-a-", "tt", "-tt-", "tttt-", "spageti'", "-spageti'-",
                 "\u0130", "-a'-", "-'a-", "-u'u'-", "brod-", "broda", "spaget-", "-gimzu-", "-mz-", "lujvo", "bridi.", "-aeo-",
                 "aeo", "-ta'y-", "qwx", "-ia-", "-iia-", "\u0131", "-\u212a-", "\u00df", "\u01c5", "klingon-", "-klingon-",
                 "''", "y'y", "kl\u0000ma"]
HOSTILE_LONG = ["a", "t", "y", "'", "-", "h", "ai", "ia", "a'", "y'", "'y", "klama", "lat", "mai", "'a", "spageti", "re'e", "tr",
                "A", ",", ".", "\u0130", "la", "ty", "mair", "to"]


def outcome_of(a):
    return "answer" if a[0] == "O" else a[4:]


def p11(ck):
    """Any input gets an answer or a documented error."""
    def words_chunk(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                for op, allowed in (("A", ANALYSIS_ERR), ("V", LUJVO_ERR), ("S", LUJVO_ERR), ("B", frozenset())):
                    got = ask(impl, [(op, ss, w) for w in items])
                    t.transitions += len(got)
                    k = 0
                    for w in items:
                        for s in settings:
                            g = got[k]
                            k += 1
                            if g[0] != "O" and g[4:] not in allowed:
                                t.bad(impl, op, s, w, "an answer or " + "/".join(sorted(allowed)), g)
                            elif op == "B" and g not in ("OK\ttrue", "OK\tfalse"):
                                t.bad(impl, op, s, w, "true or false", g)
                    for g in got:
                        t.outcome(op + " " + outcome_of(g))
                got = ask(impl, [("R", "", w) for w in items])
                t.transitions += len(got)
                for w, g in zip(items, got):
                    if g[0] != "O":
                        t.bad(impl, "R", "", w, "a word or nothing", g)
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk

    def tanru_chunk(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                got = gen(impl, ss, items) + ask(impl, [("G", ss, w.replace("|", " ")) for w in items])
                t.transitions += len(got)
                k = 0
                for op in ("L", "G"):
                    for w in items:
                        for s in settings:
                            g = got[k]
                            k += 1
                            if g[0] != "O" and g[4:] not in MAKE_ERR and not (
                                    # documented in Rust for fewer than two words
                                    impl == "rs" and g[4:] == "FakeTypeError" and
                                    len(w.replace("|", " ").split()) < 2):
                                t.bad(impl, op, s, w, "a lujvo or " + "/".join(sorted(MAKE_ERR)), g)
                            t.outcome(outcome_of(g))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk

    some = ["", "A1rg", "Fr2z", "1"]
    ck.sweep("all strings of at most 3 characters of 19 classes, 4 settings", S.chars(HOSTILE, 0, 3), words_chunk(some))
    ck.sweep("all strings of 4 characters of 19 classes", S.chars(HOSTILE, 4, 4), words_chunk(["A1rg"]))
    ck.sweep("all strings of at most 5 of ai'ytrmh-, 2 settings", S.chars("ai'ytrm", 1, 6 if THOROUGH else 5),
             words_chunk(["", "F1rg"]))
    ck.sweep("well-formed words with one hostile character put in or in place of another", [
        v for w in ("klama", "latymlatu", "spageti", "mai'ymlatu", "tosymabru", "re'enre'e", "a'u'ylatu", "latykla", "klamas")
        for i in range(len(w) + 1) for c in HOSTILE + ["\x00", "\U0001F600", "\u212a", "n"]
        for v in (w[:i] + c + w[i:], w[:i] + c + w[i + 1:])], words_chunk(["", "A1rg", "F2rz"]))
    ck.sweep("hostile words, 72 settings", HOSTILE_WORDS, words_chunk(ALL72))
    long = [p * n for p in HOSTILE_LONG for n in ((50, 600) if not THOROUGH else (50, 400, 1000, 2000))] + \
        [p * 40 + q * 40 for p in HOSTILE_LONG for q in HOSTILE_LONG] + \
        [p + q * 200 for p in ("lat", "mai", "to", "a", "spageti") for q in HOSTILE_LONG] + \
        [p * 200 + q for p in HOSTILE_LONG for q in ("mlatu", "bla", "s", "a", "spageti", "y")]
    ck.sweep("long inputs: repetitions of 26 pieces", long, words_chunk(["", "Ar"]))
    ck.sweep("all words of 3 pieces of 30", core.words(S.PIECES, 3, 3), words_chunk(["1r"]))

    hw = HOSTILE_WORDS
    ck.sweep("all tanru of at most 2 hostile components of 57, 4 settings", [w for w in S.tanru(hw, 1, 2)],
             tanru_chunk(["", "cA1rg", "Fr2z", "c"]))
    ck.sweep("every number of dashes around a component", S.dashed_tanru(), tanru_chunk(["", "cF1r"]))
    ck.sweep("all tanru of 3 hostile components", S.tanru(hw if THOROUGH else hw[::2], 3, 3), tanru_chunk(["r"]))
    ck.sweep("components of at most 3 characters of 13 classes, raw, shortened and plain", [
        t for w in S.chars("aitmry'hA-.0 ".replace(" ", "\u00e9"), 1, 3) for t in (f"{w}|klama", f"klama|{w}", f"-{w}-|klama",
                                                                      f"klama|-{w}-", f"{w}-|klama")],
        tanru_chunk(["", "cA1rg"]))
    ck.sweep("rafsi of 4 to 6 characters as components", [
        t for w in S.chars("aitmr'y", 4, 5 if THOROUGH else 4) for t in (f"-{w}-|klama", f"klama|-{w}-", f"{w}-|klama")],
        tanru_chunk(["", "cA1rg"]))
    pad = ["", " ", "\t", "\n", "\u00a0", "\u3000", "  ", "\r\n"]
    ck.sweep("whitespace around and between", [a + "klama" + b + "bangu" + c for a in pad for b in pad for c in pad] + pad,
             tanru_chunk(["", "c"]))
    ck.sweep("long tanru", ["|".join([a] * n + [b]) for a in ("klama", "-mai-", "spageti", "-a-", "", "-", "klingon-", "-tos-")
                            for b in ("klama", "-mai-", "") for n in (20, 60 if not THOROUGH else 150)] +
             ["|".join((x * n)) for x in (("klama", "-mai-"), ("spageti", "-tos-", "ismu")) for n in (10, 30)],
             tanru_chunk(["", "cAr"]), chunk=2)
    ck.sweep("wrong types (Python)", [None], wrong_types, nproc=1)
    ck.assumptions.append(f"hang: no answer within {core.CHUNK_LIMIT} s for one shard")


def wrong_types(t, items):
    import latkerlo_jvotci as J
    for f in (J.get_lujvo, J.get_lujvo_with_analytics):
        for x in (None, 5, ("klama", "bangu"), {"klama": 1}, b"klama bangu", {"klama"}, 1.5, iter(["klama"])):
            t.states += 1
            t.transitions += 1
            try:
                r = f(x)
                t.bad("py", "G", "", repr(x), "TypeError", r)
            except TypeError:
                t.outcome("TypeError")
            except Exception as e:
                t.bad("py", "G", "", repr(x), "TypeError", type(e).__name__)


# ------------------------------------------------------------------------ P13

def masks(w, full):
    """every way to capitalise some letters of w (all subsets if short, else singles, pairs and all)"""
    pos = [i for i, c in enumerate(w) if c.isalpha()]
    if len(pos) <= full:
        subsets = itertools.chain.from_iterable(itertools.combinations(pos, k) for k in range(1, len(pos) + 1))
    else:
        subsets = itertools.chain(itertools.combinations(pos, 1), itertools.combinations(pos, 2),
                                  [pos, pos[::2], pos[1::2], pos[:-1], pos[1:]])
    for sub in subsets:
        yield "".join(c.upper() if i in set(sub) else c for i, c in enumerate(w))


def apostrophes(w):
    pos = [i for i, c in enumerate(w) if c == "'"]
    for k in range(1, len(pos) + 1):
        for sub in itertools.combinations(pos, k):
            for ch in "hH":
                yield "".join(ch if i in sub else c for i, c in enumerate(w))


def commas(w):
    n = len(w)
    for i in range(n + 1):
        yield w[:i] + "," + w[i:]
        yield w[:i] + ",," + w[i:]
        for j in range(i + 1, n + 1):
            yield w[:i] + "," + w[i:j] + "," + w[j:]
    yield ",".join(w)


def spellings(w, full=6):
    out = dict.fromkeys(["." + w, ".," + w, "." + w.upper(), w.upper().replace("'", "h"), "." + ",".join(w.upper())])
    out.update(dict.fromkeys(itertools.chain(masks(w, full), apostrophes(w), commas(w))))
    if "'" in w:
        out.update(dict.fromkeys(v for x in apostrophes(w) for v in itertools.chain(masks(x, 0), commas(x))))
    out.pop(w, None)
    return list(out)


SPACES = [" ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000", " \t "]


def p13(ck):
    """Equivalent spellings of an input get the same answer."""
    def words_chunk(settings, full, ops="ABVS"):
        ss = ",".join(settings)

        def chunk(t, items):
            var = [(w, v) for w in items for v in spellings(w, full)]
            for impl in ck.impls:
                for op in ops:
                    base = ask(impl, [(op, ss, w) for w in items])
                    base = {w: base[i * len(settings):(i + 1) * len(settings)] for i, w in enumerate(items)}
                    got = ask(impl, [(op, ss, v) for _, v in var])
                    t.transitions += len(got)
                    for i, (w, v) in enumerate(var):
                        for s, a, b in zip(settings, base[w], got[i * len(settings):(i + 1) * len(settings)]):
                            if a != b:
                                t.bad(impl, op, s, v, f"as for {w}: {a}", b)
            t.states += len(var) * len(settings)
            t.outcome("spellings", len(var))
            t.sample.append(str(var[:3]))
        return chunk
    two = core.words(S.PIECES, 1, 2)
    ck.sweep("all words of at most 2 pieces of 30, every spelling", two, words_chunk(["", "A1rg"], 6 if THOROUGH else 0, "AB"))
    ck.sweep("words of every kind, every case mask, comma placement and apostrophe", [
        "klama", "bangu", "gimzu", "mlatu", "latmlatu", "laty'ismu", "maiklama", "re'enre'e", "spageti", "a'u'ylatu", "tosymabru",
        "rai'ymlatu", "klamas", "lojbangirz", "uinmo", "ki'ogra", "klingonytcan", "ia'yia", "xyz", "toi'y'ismu"],
        words_chunk(["", "A", "F1rgz"], 9 if THOROUGH else 7))
    ck.sweep("all words of 3 pieces of 12, every spelling", core.words(["lat", "mai", "bla", "fu'i", "y", "'y", "y'", "r", "a",
                                                                        "ia", "spageti", "klama"][:12 if THOROUGH else 9], 3, 3),
             words_chunk(["r"], 0, "AV"))

    ck.sweep("long words, one or two letters capitalised, one or two commas", [
        "lat" * 12, "mai" * 9 + "mlatu", "spageti'y" + "klamy" * 6 + "bla", "lat" * 9 + "fu'i", "laty" * 7 + "klama", "toskla" * 5 + "t"],
        words_chunk(["", "A1rg"], 0, "AV"), chunk=1)

    def tanru_chunk(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            var = []
            for w in items:
                a, b = w.split("|")
                vs = [x + "|" + b for x in spellings(a, 0)[:60]] + [a + "|" + x for x in spellings(b, 0)[:60]] + \
                    [a.upper() + "|" + b.upper(), "." + a + "|." + b]
                var += [(w, "M", v) for v in vs]
                var += [(w, "L", v.replace("|", " ")) for v in vs[::3]]
                var += [(w, "L", p + a + q + b + r) for q in SPACES for p in ("", " ", "\n") for r in ("", " ", "\t")]
            for impl in ck.impls:
                base = gen(impl, ss, items)
                base = {w: base[i * len(settings):(i + 1) * len(settings)] for i, w in enumerate(items)}
                vv = [(w, op if impl != "rs" else "L", v if impl != "rs" else v.replace("|", " ")) for w, op, v in var]
                got = ask(impl, [(op, ss, v) for _, op, v in vv])
                t.transitions += len(got)
                for i, (w, op, v) in enumerate(vv):
                    for s, a, b in zip(settings, base[w], got[i * len(settings):(i + 1) * len(settings)]):
                        if a != b:
                            t.bad(impl, op, s, v, f"as for {w}: {a}", b)
            t.states += len(var) * len(settings)
            t.outcome("spellings", len(var))
        return chunk
    tw = ["klama", "mlatu", "fi'u", "spageti", "-lat-", "-ku'i-", "klingon-", "ismu", "a'u", "-bla-"]
    # Rust documents that it takes away every period at either end
    def periods(t, items):
        for s in ("", "A1rg"):
            for op, x in items:
                base = ask("rs", [(op, s, x)])[0]
                xs = [" ".join(a + w + b for w in x.split(" ")) for a in ("", ".", "..", "...", "....") for b in ("", ".", "..", "...")]
                for y, g in zip(xs, ask("rs", [(op, s, y) for y in xs])):
                    t.transitions += 1
                    if g != base:
                        t.bad("rs", op, s, y, f"as for {x}: {base}", g)
                t.states += len(xs)
    if "rs" in ck.impls:
        ck.sweep("up to 4 periods before and 3 after every word (Rust)", [(op, w) for w in two[:400] if w[0] not in "'y" for op in "AV"] +
                 [("L", f"{a} {b}") for a in tw for b in tw], periods)
    ck.sweep("all tanru of 2 of 10 components, every spelling and spacing", S.tanru(tw, 2, 2), tanru_chunk(["", "c", "Ar"]))
    ck.sweep("tanru of 5 and 9 components, one of them spelled otherwise", [
        (q, i) for n in (5, 9) for q in (tw[:n], tw[:n][::-1], [tw[0]] * n, [tw[3], tw[4]] * 4 + [tw[3]]) for i in range(len(q))], respelled)
    ck.sweep("spacing of tanru of 3 components", [(a, b, c) for a in tw[:4] for b in tw[:4] for c in tw[:4]], spaced)

    # every dictionary word as a component, spelled with capitals, h and a period
    def dict_chunk(t, items):
        for impl in ck.impls:
            base = ask(impl, [("L", "", f"{w} klama") for w in items])
            for f in (str.upper, str.capitalize, lambda w: "." + w, lambda w: w.replace("'", "h"), lambda w: w[:2] + "," + w[2:]):
                got = ask(impl, [("L", "", f"{f(w)} klama") for w in items])
                t.transitions += len(got)
                for w, a, b in zip(items, base, got):
                    if a != b:
                        t.bad(impl, "L", "", f"{f(w)} klama", f"as for {w} klama: {a}", b)
        t.states += 5 * len(items)
    ck.sweep("every dictionary word in five spellings", list(MJ.RAFSI), dict_chunk)

    # leaving options out
    def defaults(t, items):
        for impl in ck.impls:
            if impl == "rs":
                continue
            for op, x in items:
                full = ask(impl, [(op, s, x) for s in both(ALL72)])
                less = ask(impl, [(op, s + "-", x) for s in both(ALL72)])
                t.transitions += len(less)
                for s, a, b in zip(both(ALL72), full, less):
                    if a != b:
                        t.bad(impl, op, s + "-", x, f"as with the defaults given: {a}", b)
        t.states += 144 * len(items)
    ws = ["klama", "gimzu", "rai'ymlatu", "re'enre'e", "mlatyfa'u'u", "nei'ynei", "a'ynei", "latyia", "ia'yia", "spageti",
          "tosymabru", "tosmabru", "latmlatu", "lojbangirz", "xyz", "tamyzba", "maiklama", "itku'ilybau"]
    ts = ["klama bangu", "fi'u gimzu", "-nei- -nei-", "-a- -nei-", "-lat- -ia-", "-ia- -ia-", "spageti ismu", "tamgu zbasu", "-toi- ismu"]
    ck.sweep("defaults left out, 144 settings", [(op, w) for w in ws for op in "ABVS"] + [(op, w) for w in ts for op in "LG"],
             defaults, chunk=9)

    def none(t, items):
        for impl in ck.impls:
            a = ask(impl, [("G" if " " in x else "A", "", x) for x in items])
            b = ask(impl, [("D", "", x) for x in items])
            t.transitions += len(b)
            for x, p, q in zip(items, a, b):
                if p != q:
                    t.bad(impl, "D", "", x, p, q, "without any options")
        t.states += len(items)
    ck.sweep("no options at all", two + ts + [w.replace("|", " ") for w in S.tanru(S.TANRU, 2, 2)], none)
    if "py" in ck.impls:
        ck.sweep("options by position (Python)", [(op, w) for w in ws for op in "ABVS"] + [(op, w) for w in ts for op in "LG"],
                 positional, nproc=1)


def respelled(t, items):
    for impl in CK.impls:
        for comps, i in items:
            base = ask(impl, [("L", ",".join(["", "cAr"]), " ".join(comps))])
            w = comps[i]
            vs = [" ".join(comps[:i] + [v] + comps[i + 1:]) for v in spellings(w, 0) if not v.startswith("..")]
            got = ask(impl, [("L", ",".join(["", "cAr"]), v) for v in vs])
            t.transitions += len(got)
            for j, v in enumerate(vs):
                for k, s in enumerate(["", "cAr"]):
                    if got[2 * j + k] != base[k]:
                        t.bad(impl, "L", s, v, f"as for {' '.join(comps)}: {base[k]}", got[2 * j + k])
            t.states += 2 * len(vs)


def spaced(t, items):
    for impl in CK.impls:
        base = ask(impl, [("L", "", " ".join(w)) for w in items])
        for p in SPACES:
            for q in SPACES:
                got = ask(impl, [("L", "", w[0] + p + w[1] + q + w[2]) for w in items])
                t.transitions += len(got)
                for w, a, b in zip(items, base, got):
                    if a != b:
                        t.bad(impl, "L", "", w[0] + p + w[1] + q + w[2], a, b)
    t.states += len(items) * len(SPACES) ** 2


def positional(t, items):
    import latkerlo_jvotci as J
    f = dict(A=lambda *a: "OK\t%s\t%s" % (lambda r: (r[0], "|".join(r[1])))(J.analyse_brivla(*a)),
             B=lambda *a: "OK\t" + str(J.is_brivla(*a)).lower(), V=lambda *a: "OK\t" + "|".join(J.get_veljvo(*a)),
             S=lambda *a: f"OK\t{J.score_lujvo(*a)}", L=lambda *a: core._analytics(J.get_lujvo_with_analytics(*a)),
             G=lambda *a: "OK\t" + J.get_lujvo(*a))
    for op, x in items:
        for s in both(ALL72):
            if "c" in s and op not in "LG":
                continue
            k = core.kwargs(s, op in "LG")
            t.states += 1
            t.transitions += 2
            want = core.py_answer(op, s, x)
            try:
                got = f[op](x, *k.values())
            except Exception as e:
                got = "ERR\t" + type(e).__name__
            if got != want:
                t.bad("py", op, s, x, want, got, "options given by position")


# ------------------------------------------------------------------------ P16

def p16(ck):
    """The implementations agree: all of them are asked everything, in lock step."""
    base, others = ck.impls[0], ck.impls[1:]

    def words_chunk(settings, ops="AVSB"):
        ss = ",".join(settings)

        def chunk(t, items):
            for op in ops:
                want = ask(base, [(op, ss, w) for w in items])
                t.transitions += len(want)
                for impl in others:
                    got = ask(impl, [(op, ss, w) for w in items])
                    t.transitions += len(got)
                    t.traces += len(got)
                    if got == want:
                        continue
                    for i, (a, b) in enumerate(zip(want, got)):
                        if a != b:
                            t.bad(impl, op, settings[i % len(settings)], items[i // len(settings)], f"as {base}: {a}", b)
                for a in want[::7]:
                    t.outcome(op + " " + (outcome_of(a) if op != "A" or a[0] != "O" else a.split("\t")[1]))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk

    def tanru_chunk(settings, ops="LG"):
        ss = ",".join(settings)

        def same(a, b, w):
            if not w.replace("|", " ").split():
                return a[0] == b[0] == "E"      # any documented error
            return a == b or b == "ERR\tFakeTypeError" and a == "ERR\tNoLujvoFoundError" and len(w.replace("|", " ").split()) < 2

        def chunk(t, items):
            for op in ops:
                ask_ = (lambda impl: ask(impl, [(op, ss, w.replace("|", " ")) for w in items]))
                want = ask_(base)
                t.transitions += len(want)
                for impl in others:
                    got = ask_(impl)
                    t.transitions += len(got)
                    t.traces += len(got)
                    if got == want:
                        continue
                    for i, (a, b) in enumerate(zip(want, got)):
                        w = items[i // len(settings)]
                        if not same(a, b, w):
                            t.bad(impl, op, settings[i % len(settings)], w, f"as {base}: {a}", b)
                for a in want[::7]:
                    t.outcome(outcome_of(a))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    if not others:
        raise SystemExit("nothing to compare with")
    ck.sweep("all words of at most 2 pieces of 30, 72 settings", core.words(S.PIECES, 1, 2), words_chunk(ALL72))
    ck.sweep("all words of 3 pieces of 30, 4 settings", core.words(S.PIECES, 3, 3), words_chunk(["", "A1rg", "F2z", "1r"]))
    ck.sweep("all words of 4 pieces of 14", core.words(S.PIECES_DEEP, 4, 4), words_chunk(["", "Ar"]))
    ck.sweep("experimental: all words of at most 3 pieces of 16, 6 settings", core.words(S.PIECES_EXP, 1, 3),
             words_chunk(["r", "Ar", "A1rg", "F2r", "rg", "1rz"]))
    ck.sweep("all strings of at most 5 characters", S.chars("ai'yrstm", 0, 5), words_chunk(["", "A1rg"], "AV"))
    ck.sweep("all strings of at most 3 characters of 19 classes, without a final period",
             [w for w in S.chars(HOSTILE, 0, 3) if not w.endswith(".")], words_chunk(["", "A1rg", "Fr2z"]))
    ck.sweep("consonant runs x vowel runs", S.zihevla_words(2), words_chunk(["", "z"], "A"))
    ck.sweep("every consonant pair in 18 contexts", S.pair_words(), words_chunk(["", "z"], "A"))
    ck.sweep("every run of at most 3 vowels in five contexts", S.vowel_words(3), words_chunk(["", "r"], "A"))
    ck.sweep("every dictionary rafsi and word in a lujvo", [f for w, v in MJ.RAFSI.items() for r in list(v) + [w, w[:-1]] for f in (
        r + "mlatu", r + "ymlatu", "lat" + r, "laty" + r, r)], words_chunk(["", "Ar"] if THOROUGH else ["Ar"], "AV"))
    ck.sweep("all tanru of 2 components of 33, 144 settings", S.tanru(S.TANRU, 2, 2), tanru_chunk(both(ALL72), "L"))
    ck.sweep("all tanru of 3 components of 14, 12 settings", S.tanru(S.TANRU3, 3, 3), tanru_chunk(both(SIX)))
    ck.sweep("all tanru of 4 components of 11", S.tanru(S.TANRU4, 4, 4), tanru_chunk(["", "cA"], "L"))
    ck.sweep("experimental: all tanru of at most 3 components of 20", S.tanru(S.TANRU_EXP, 2, 3),
             tanru_chunk(["r", "cA1rg", "F2rz"]))
    ck.sweep("hostile tanru of at most 2 components", [w for w in S.tanru(HOSTILE_WORDS, 1, 2) if ".-" not in w and not re.search(
        r"\.(\||$)", w)], tanru_chunk(["", "cA1rg"]))
    ck.sweep("components that are a word under some settings only, 144 settings", S.dependent_tanru(), tanru_chunk(both(ALL72), "L"))
    ck.sweep("every number of dashes around a component", S.dashed_tanru(), tanru_chunk(["", "cr"]))
    ck.sweep("every dictionary zi'evla first and last", S.zihevla_tanru(), tanru_chunk(["", "cF1r"], "L"))
    ck.sweep("every word of the dictionary, 4 settings", S.dictionary(), words_chunk(["", "Ar", "F1rgz", "A2"], "AV"))
    ck.sweep("every dictionary zi'evla in an extended lujvo", S.zihevla_lujvo(), words_chunk(["", "A1r"], "A"))
    ck.sweep("components of at most 4 characters", [
        t for w in S.chars("aitmr'y", 1, 4) for t in (f"-{w}-|klama", f"klama|-{w}-", f"{w}-|klama", f"{w}|klama")],
        tanru_chunk(["", "cA1rg"]))
    def tables(t, items):
        for impl in others:
            for op, x in items:
                if op == "N" and impl == "rs":
                    continue
                a, b = ask(base, [(op, "", x)])[0], ask(impl, [(op, "", x)])[0]
                if op == "N":
                    a = a.replace("False", "false").replace("True", "true")
                elif op == "T":
                    a, b = (sorted(x if "=" not in x else x.split("=")[0] + "=" + ",".join(sorted(x.split("=")[1].split(",")))
                                   for x in y[3:].split(";")) for y in (a, b))
                t.transitions += 2
                t.traces += 1
                if a != b:
                    t.bad(impl, op, "", x, f"as {base}: {str(a)[:200]}", str(b)[:200])
        t.states += len(items)
    ck.sweep("settings, rafsi tables and look-ups", [("T", ""), ("N", "")] + [("R", r) for r in S.chars("aiklmt'", 1, 4)],
             tables, nproc=1)
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             words_chunk(["", "F1r"]))
    ck.sweep("long runs of vowels or consonants, one different or alternating", S.letter_runs((6,), (10,)), words_chunk(["", "A1rgz"], "A"))
    ck.sweep("long tanru: all of 8 or 13 components with one different, alternating ones",
             S.runs(S.LONG_TANRU, (8, 13), (24,), "|"), tanru_chunk(["", "cA"], "L"))
    if THOROUGH:
        ck.sweep("all words of 3 pieces of 30, 72 settings", core.words(S.PIECES, 3, 3), words_chunk(ALL72, "AV"))
        ck.sweep("all words of 5 pieces of 10", core.words(S.PIECES_DEEP[:10], 5, 5), words_chunk(["", "A1r"], "AS"))
        ck.sweep("all tanru of 3 components of 24, 18 settings", S.tanru(S.TANRU[:24], 3, 3), tanru_chunk(both(NINE)))
        ck.sweep("all strings of 6 characters", S.chars("ai'yrstm", 6, 6), words_chunk(["A1rg"], "A"))


# ------------------------------------------------------------------------ P17

LISTS = os.path.join(VERIF, "model", "lists")


def holds(cond, s):
    """a list row's CONDITION under settings s"""
    atoms = dict(ELSE=True, ALLOW_Y="A" in s, FORCE_Y="F" in s, MORE_RAF="r" in s, TWO_CONSONANTS="2" in s,
                 ONE_CONSONANT="1" in s, GLIDES="g" in s, YES_MZ="z" in s)
    toks = re.findall(r"[A-Z_]+|[()&|]", cond or "ELSE")

    def atom():
        t = toks.pop(0)
        if t == "(":
            v = expr()
            toks.pop(0)
            return v
        return atoms[t]

    def expr():                     # right-associative, no precedence, as the lists are written
        v = atom()
        if toks and toks[0] in "&|":
            o = toks.pop(0)
            w = expr()
            return v and w if o == "&" else v or w
        return v
    return expr()


def rows(name, first=2):
    with open(os.path.join(LISTS, name), encoding="utf-8") as f:
        for line in f:
            r = line.rstrip("\n").split("\t")
            if line.startswith("#") or not any(r[:2]) or len(r) < 2:
                continue
            yield r


def groups(cells, n):
    return [(cells[i:i + n] + [""] * n)[:n] for i in range(0, len(cells), n)]


def pick(gs, s):
    for g in gs:
        if holds(g[0], s):
            return g
    raise SystemExit("no condition holds")


def p17(ck):
    """The maintained lists and the documented examples."""
    ss = ",".join(ALL72)

    def katna(t, items):
        for impl in ck.impls:
            A = ask(impl, [("A", ss, r[0]) for r in items])
            Vj = ask(impl, [("V", ss, r[0]) for r in items])
            t.transitions += len(A) + len(Vj)
            t.traces += len(A) + len(Vj)
            for i, r in enumerate(items):
                gs = groups(r[1:], 5)
                for j, s in enumerate(ALL72):
                    _, ty, dec, tan, ind = pick(gs, s)
                    a, v = A[72 * i + j], Vj[72 * i + j]
                    ty = dict(EXTENDED="EXTENDED_LUJVO").get(ty, ty)
                    if ty == "NONE":
                        if a != "ERR\tNotBrivlaError":
                            t.bad(impl, "A", s, r[0], "NotBrivlaError", a, "katna_test_list")
                        if v[0] == "O":
                            t.bad(impl, "V", s, r[0], "an error", v, "katna_test_list")
                        continue
                    f = a.split("\t")
                    raf = [p for p in f[2].split("|") if p not in MV.HYPHENS] if a[0] == "O" else []
                    if a[0] != "O" or f[1] != ty or " ".join(raf) != dec:
                        t.bad(impl, "A", s, r[0], f"{ty} {dec}", a, "katna_test_list")
                    elif ind and ",".join(f"{x}-{y}" for x, y in MV.indices(f[2].split("|"))) != ind:
                        t.bad(impl, "A", s, r[0], ind, a, "katna_test_list")
                    if ty in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
                        if v != "OK\t" + tan.replace(" ", "|"):
                            t.bad(impl, "V", s, r[0], tan, v, "katna_test_list")
                    elif v[0] == "O":
                        t.bad(impl, "V", s, r[0], "an error", v, "katna_test_list")
        t.states += 72 * len(items)
        t.sample.append(items[0][0])
    ck.sweep("katna_test_list: every row x 72 settings", list(rows("katna_test_list.tsv")), katna)

    def jvozba(t, items):
        for c in ("", "c"):
            some = [r for r in items if (r[1] == "C") == (c == "c")]
            if not some:
                continue
            st = [c + s for s in ALL72]
            for impl in ck.impls:
                L = ask(impl, [("L", ",".join(st), r[0]) for r in some])
                t.transitions += len(L)
                t.traces += len(L)
                for i, r in enumerate(some):
                    gs = groups(r[2:], 4)
                    for j, s in enumerate(ALL72):
                        _, word, score, ind = pick(gs, s)
                        g = L[72 * i + j]
                        f = g.split("\t")
                        if word == "NONE":
                            if g[0] == "O":
                                t.bad(impl, "L", c + s, r[0], "an error", g, "jvozba_test_list")
                        elif g[0] != "O" or f[1] != word or (score.isdigit() and f[2] != score) or (ind and f[3] != ind):
                            t.bad(impl, "L", c + s, r[0], f"{word} {score} {ind}", g, "jvozba_test_list")
        t.states += 72 * len(items)
        t.sample.append(items[0][0])
    ck.sweep("jvozba_test_list: every row x 72 settings", list(rows("jvozba_test_list.tsv")), jvozba)

    def basic(t, items):
        for impl in ck.impls:
            for lujvo, tanru, cond in items:
                if cond != "KATNA":
                    s = "c" if cond == "CMEVLA" else ""
                    g = ask(impl, [("G", s, tanru)])[0]
                    if g != "OK\t" + lujvo if lujvo != "FAIL" else g[0] == "O":
                        t.bad(impl, "G", s, tanru, lujvo, g, "basic_test_list")
                if cond != "JVOZBA" and tanru:
                    v = ask(impl, [("V", "", lujvo)])[0]
                    if v != "OK\t" + tanru.replace(" ", "|") if tanru != "FAIL" else v[0] == "O":
                        t.bad(impl, "V", "", lujvo, tanru, v, "basic_test_list")
                t.transitions += 2
                t.traces += 2
        t.states += len(items)
        t.sample.append(items[0][0])
    ck.sweep("basic_test_list: every row", [(r + [""])[:3] for r in rows("basic_test_list.tsv")], basic)

    def jvs(t, items):
        for impl in ck.impls:
            A = ask(impl, [("A", "", w) for _, w in items])
            B = ask(impl, [("B", "", w) for _, w in items])
            t.transitions += len(A) + len(B)
            t.traces += len(A) + len(B)
            for (ty, w), a, b in zip(items, A, B):
                got = a.split("\t")[1] if a[0] == "O" else "none"
                ok = dict(LUJVO=("LUJVO", "EXTENDED_LUJVO"), OTHER=("none", "CMEVLA")).get(ty, (ty,))
                if got not in ok:
                    t.bad(impl, "A", "", w, "/".join(ok), a, "jvs_words")
                if b != ("OK\tfalse" if ty == "OTHER" else "OK\ttrue"):
                    t.bad(impl, "B", "", w, ty != "OTHER", b, "jvs_words")
                t.outcome(ty)
        t.states += len(items)
        t.sample.append(str(items[0]))
    with open(os.path.join(LISTS, "jvs_words.json"), encoding="utf-8") as f:
        ck.sweep("the dictionary", [(k, w) for k, v in json.load(f).items() for w in v if w not in ("posytmo", "gudjrati")], jvs)

    def docs(t, items):
        for op, s, x, want in items:
            for impl in ck.impls:
                g = ask(impl, [(op, s, x)])[0]
                if g == "ERR\tNoHelper":
                    continue
                t.transitions += 1
                t.traces += 1
                if g != want and not (want[-1] == "*" and g.startswith(want[:-1])):
                    t.bad(impl, op, s, x, want, g, "documented example")
        t.states += len(items)
    ck.sweep("documented examples", DOCS, docs, nproc=1)


NB = "ERR\tNotBrivlaError"
README_MORE = [
    ("L", "", "mlatu kerlo", "OK\tlatkerlo\t7937\t0-3,3-8"), ("L", "", "tcana jatna", "OK\ttcanyja'a\t8997\t0-4,5-9"),
    ("I", "", "lat|kerlo", "OK\t0-3,3-8"), ("I", "", "tcan|y|ja'a", "OK\t0-4,5-9"),
    # y_hyphens
    ("A", "", "rai'ymlatu", NB), ("A", "A", "rai'ymlatu", "OK\tEXTENDED_LUJVO\t*"), ("A", "F", "rai'ymlatu", "OK\tLUJVO\t*"),
    ("A", "A", "re'enre'e", "OK\tLUJVO\t*"), ("A", "F", "re'enre'e", "OK\tZIhEVLA\t*"),
    # exp_rafsi_shapes
    ("A", "", "mlatyfa'u'u", NB), ("A", "r", "mlatyfa'u'u", "OK\tEXTENDED_LUJVO\t*"),
    # consonants
    ("A", "Ar", "lojycpa", "OK\tLUJVO\t*"), ("A", "A2r", "lojycpa", "OK\tLUJVO\t*"),
    ("A", "A1r", "lojycpa", "OK\tLUJVO\t*"), ("A", "Ar", "nei'ynei", NB), ("A", "Ar", "a'ynei", NB),
    ("A", "A2r", "nei'ynei", "OK\tEXTENDED_LUJVO\t*"), ("A", "A2r", "a'ynei", NB),
    ("A", "A1r", "nei'ynei", "OK\tEXTENDED_LUJVO\t*"), ("A", "A1r", "a'ynei", "OK\tEXTENDED_LUJVO\t*"),
    # glides
    ("A", "r", "latyia", NB), ("A", "rg", "latyia", "OK\tEXTENDED_LUJVO\t*"),
    ("A", "A1rg", "ia'yia", "OK\tEXTENDED_LUJVO\t*"), ("A", "F1rg", "ia'yia", "OK\tEXTENDED_LUJVO\t*"),
    # allow_mz
    ("A", "", "gimzu", NB), ("A", "z", "gimzu", "OK\tGISMU\tgimzu"),
    ("G", "", "-tam- zabna", "OK\ttamyza'a"), ("G", "z", "-tam- zabna", "OK\ttamza'a"),
]
DOCS = [
    # README
    ("G", "", "mlatu kerlo", "OK\tlatkerlo"), ("G", "c", "mlatu kerlo", "OK\tlatker"),
    ("V", "", "latkerlo", "OK\tmlatu|kerlo"), ("B", "", "latkerlo", "OK\ttrue"), ("B", "", "bisladru", "OK\tfalse"),
    ("B", "", "latker", "OK\tfalse"), ("A", "", "tcanyja'a", "OK\tLUJVO\ttcan|y|ja'a"),
    ("A", "", "re'ertren", "OK\tCMEVLA\tre'e|r|tren"), ("A", "", "mlatu", "OK\tGISMU\tmlatu"), ("A", "", "latkello", NB),
] + README_MORE + [
    # differences.md
    (("B", "", w, "OK\t" + b)) for w, b in (
        ("kerlyspa'ykerlo", "true"), ("kerlyspaspa'ykerlo", "true"), ("spaspa'ykerlo", "true"), ("toispa'ykerlo", "true"),
        ("spa'ykerlo", "false"), ("briiymle", "true"), ("plukauaiymle", "true"), ("plukauai'ymle", "true"),
        ("rai'y'ismu", "true"), ("torai'y'ismu", "false"), ("toiysmu", "false"))
]
