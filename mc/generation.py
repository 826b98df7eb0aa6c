"""Checks of lujvo making: P01 - P04 and the dictionary behind it, P15."""

import itertools
import re

import core
import jvozba as MJ
import spaces as S
import veljvo as MV
from core import ALL72, NINE, SIX, THOROUGH, ask, st_tuple
from lojban import C, CSET, INITIAL, V, VSET, normalise, shape

CK = None


# settings with experimental rafsi, without mz
EXP18 = [s for s in ALL72 if "r" in s and "z" not in s]


def both(settings):
    """the settings, making brivla and making cmevla"""
    return settings + ["c" + s for s in settings]


def gen(impl, ss, tanru):
    """get_lujvo_with_analytics of every tanru (components separated by |)"""
    if impl == "rs":
        return ask(impl, [("L", ss, w.replace("|", " ")) for w in tanru])
    return ask(impl, [("M", ss, w) for w in tanru])


def read_answer(a):
    """OK line -> (word, score, [(start, end)])"""
    _, w, sc, ix = a.split("\t")
    return w, int(sc), [tuple(map(int, p.split("-"))) for p in ix.split(",")] if ix else []


# --------------------------------------------------------------------- spaces

def dictionary_tanru(partners, both_ends=True):
    out = []
    for w in MJ.RAFSI:
        for p in partners:
            out.append(w + "|" + p)
            if both_ends:
                out.append(p + "|" + w)
    return out


def rafsi_tanru():
    """every dictionary rafsi as a raw component"""
    raf = sorted({r for v in MJ.RAFSI.values() for r in v if shape(r)})
    return [t for r in raf for t in (f"-{r}-|klama", f"mlatu|-{r}-", f"-{r}-|-{r}-", f"-tos-|-{r}-|bangu")]


INITIALS = sorted(INITIAL)


def junction_tanru():
    """every pair of consonants, and every consonant + initial pair, where two rafsi meet"""
    out = []
    for x in C:
        for y in C:
            out += [f"-ta{x}-|-{y}i'a-", f"-ta{x}-|-{y}al-|-mau-", f"-to{x}-|-{y}abr-|-mle-", f"-la{x}-|-{y}alta-",
                    f"-mau-|-{x}o{y}-|-mle-", f"-blo-|-ta{x}-|-{y}ai-", f"-sta{x}-|-{y}u'a-", f"-xa{x}-|-mau-|-{y}e'u-"]
        for i in INITIALS:
            out += [f"-ta{x}-|-{i}a-", f"-to{x}-|-{i}am-|-mau-", f"-to{x}-|-ma{i[0]}-|-{i[1]}a'u-", f"-mai-|-to{x}-|-{i}amu-",
                    f"-{i}a{x}-|klama", f"-ba{x}-|-{i}e-|-{i}e-"]
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------------ P01

def p01(ck):
    """A generated lujvo is accepted, under the same settings, as one."""
    def chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                G = gen(impl, ss, items)
                back = {}
                k = 0
                for w in items:
                    for s in settings:
                        g = G[k]
                        k += 1
                        if g[0] == "O":
                            back.setdefault((s, read_answer(g)[0]), []).append((w, g))
                keys = list(back)
                A = ask(impl, [("A", s, x) for s, x in keys])
                B = ask(impl, [("B", s, x) for s, x in keys])
                for key, a, b in zip(keys, A, B):
                    s, x = key
                    cm = "c" in s
                    for w, g in back[key]:
                        if a[0] != "O":
                            t.bad(impl, "L", s, w, "a word the analyser accepts", g, f"analysed: {a}")
                            continue
                        _, ty, pj = a.split("\t")
                        n = sum(p not in MV.HYPHENS for p in pj.split("|"))
                        if ty not in (("CMEVLA",) if cm else ("LUJVO", "EXTENDED_LUJVO")):
                            t.bad(impl, "L", s, w, "a cmevla lujvo" if cm else "a lujvo", g, f"analysed: {a}")
                        elif n != w.count("|") + 1:
                            t.bad(impl, "L", s, w, f"{w.count('|') + 1} rafsi", g, f"analysed: {a}")
                        elif (b == "OK\ttrue") == cm:
                            t.bad(impl, "L", s, w, "is_brivla " + str(not cm), g, f"is_brivla: {b}")
                t.transitions += k + 2 * len(keys)
                t.outcome("lujvo", len(keys))
                t.outcome("no lujvo", sum(g[0] != "O" for g in G))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    ck.sweep("all tanru of 2 components of 33, 72 settings, brivla and cmevla", S.tanru(S.TANRU, 2, 2),
             chunk_for(both(ALL72)))
    ck.sweep("all tanru of 3 components of 14, 6 settings", S.tanru(S.TANRU3, 3, 3), chunk_for(both(SIX)))
    ck.sweep("all tanru of 4 components of 11, 2 settings", S.tanru(S.TANRU4, 4, 4), chunk_for(["", "cA"]))
    ck.sweep("all tanru of 5 components of 6", S.tanru(S.TANRU5, 5, 5), chunk_for(["", "c", "F"]))
    ck.sweep("all tanru of 6 components of 4", S.tanru(S.TANRU6, 6, 6), chunk_for(["", "c", "A"]))
    ck.sweep("experimental: all tanru of 2 components of 20", S.tanru(S.TANRU_EXP, 2, 2),
             chunk_for(both([s for s in ALL72 if "r" in s])))
    ck.sweep("experimental: all tanru of 3 components of 12, 36 settings", S.tanru(S.TANRU_EXP3, 3, 3), chunk_for(both(EXP18)))
    ck.sweep("experimental: all tanru of 4 components of 6, 36 settings", S.tanru(S.TANRU_EXP4, 4, 4), chunk_for(both(EXP18)))
    ck.sweep("every dictionary word first and last", dictionary_tanru(["klama", "-mai-"]), chunk_for(["", "c", "Ar"]))
    ck.sweep("every dictionary rafsi", rafsi_tanru(), chunk_for(["", "cA"]))
    ck.sweep("every consonant pair and triple at a junction", junction_tanru(), chunk_for(["", "cz", "Fz"]))
    ck.sweep("components that are a word under some settings only, 144 settings", S.dependent_tanru(), chunk_for(both(ALL72)))
    ck.sweep("every dictionary zi'evla first and last", S.zihevla_tanru(), chunk_for(["", "cAr", "Fz"]))
    ck.sweep("long tanru: all of 8 or 13 components with one different, alternating ones", S.runs(S.LONG_TANRU, (8, 13), (24,), "|"),
             chunk_for(["", "cA"]), chunk=20)
    if THOROUGH:
        ck.sweep("all tanru of 3 components of 24, 18 settings", S.tanru(S.TANRU[:24], 3, 3), chunk_for(both(NINE)))
        ck.sweep("all tanru of 5 components of 9", S.tanru(S.TANRU4[:9], 5, 5), chunk_for(["", "cF"]))
        ck.sweep("all tanru of 8 components of 4", S.tanru(S.TANRU6, 8, 8), chunk_for(["", "c"]))
        ck.sweep("experimental: all tanru of 3 components of 20, 36 settings", S.tanru(S.TANRU_EXP, 3, 3), chunk_for(both(EXP18)))
        ck.sweep("experimental: all tanru of 5 components of 6, 36 settings", S.tanru(S.TANRU_EXP5, 5, 5), chunk_for(both(EXP18)))
        ck.sweep("every dictionary word, 8 partners, 9 settings", dictionary_tanru(
            ["bangu", "spageti", "-tos-", "-bla-", "gugde", "ismu", "-fi'u-", "klingon-"]), chunk_for(both(NINE)))


# ------------------------------------------------------------------------ P02

def p02(ck):
    """Generating and then decomposing gives back the tanru, piece by piece."""
    def comp_ok(word, piece):
        """piece is one of the rafsi of this component"""
        if word.endswith("-"):
            return piece == word.strip("-")
        word = normalise(word)
        if piece in MJ.RAFSI.get(word, ()):
            return True
        if piece == word:
            return True
        return len(word) == 5 and piece == word[:4] and word[-1] in VSET

    def chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                G = gen(impl, ss, items)
                back, k = {}, 0
                for w in items:
                    for s in settings:
                        g = G[k]
                        k += 1
                        if g[0] == "O":
                            back.setdefault((s, read_answer(g)[0]), []).append((w, g))
                keys = list(back)
                A = ask(impl, [("A", s, x) for s, x in keys])
                Vj = ask(impl, [("V", s, x) for s, x in keys])
                ps = sorted({a.split("\t")[2] for a in A if a[0] == "O"})
                I = dict(zip(ps, ask(impl, [("I", "", p) for p in ps]))) if ps else {}
                for key, a, v in zip(keys, A, Vj):
                    s, x = key
                    for w, g in back[key]:
                        comps = w.split("|")
                        _, _, ix = read_answer(g)
                        cut = [x[i:j] for i, j in ix]
                        if any(i >= j or j > len(x) for i, j in ix) or any(
                                q[0] < p[1] for p, q in zip(ix, ix[1:])):
                            t.bad(impl, "L", s, w, "ascending spans inside the word", g)
                            continue
                        if len(cut) != len(comps) or not all(map(comp_ok, comps, cut)):
                            t.bad(impl, "L", s, w, "spans that are rafsi of the components", g, str(cut))
                            continue
                        between = [x[p[1]:q[0]] for p, q in zip(ix, ix[1:])] + [x[:ix[0][0]], x[ix[-1][1]:]]
                        if any(h and h not in MV.HYPHENS for h in between[:-2]) or between[-2] or between[-1]:
                            t.bad(impl, "L", s, w, "nothing but hyphens outside the spans", g)
                            continue
                        if a[0] != "O":
                            continue                       # P01's business
                        pieces = a.split("\t")[2].split("|")
                        if MV.indices(pieces) != ix:
                            t.bad(impl, "L", s, w, "the spans of its analysis", g, a)
                            continue
                        if I["|".join(pieces)] not in ("OK\t" + g.split("\t")[3], "ERR\tNoHelper"):
                            t.bad(impl, "I", s, w, g, I["|".join(pieces)])
                        if v[0] != "O":
                            t.bad(impl, "V", s, x, w, v)
                            continue
                        for c, p, r in zip(comps, cut, v.split("\t")[1].split("|")):
                            if c[-1] == "-":
                                # a raw rafsi comes back as its word if it has one, else as that rafsi
                                d = MV.selrafsi(p)
                                ok = r == d if d is not None else r.strip("-") == p
                            else:
                                c = normalise(c)
                                ok = r == c or len(p) == len(c) - 1 and (
                                    # a shortened brivla: word- if no dictionary word has it,
                                    # or the first of two gismu that share their first four letters
                                    r == p + "-" if MV.selrafsi(p) is None else r == MV.selrafsi(p))
                            if not ok:
                                t.bad(impl, "V", s, x, w.replace("|", " "), v, "tanru of " + w)
                                break
                t.transitions += k + 2 * len(keys) + len(ps)
                t.outcome("round trips", len(keys))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    ck.sweep("all tanru of 2 components of 33, 72 settings, brivla and cmevla", S.tanru(S.TANRU, 2, 2),
             chunk_for(both(ALL72)))
    ck.sweep("all tanru of 3 components of 14, 6 settings", S.tanru(S.TANRU3, 3, 3), chunk_for(both(SIX)))
    ck.sweep("all tanru of 4 components of 11", S.tanru(S.TANRU4, 4, 4), chunk_for(["", "cA"]))
    ck.sweep("all tanru of 6 components of 4", S.tanru(S.TANRU6, 6, 6), chunk_for(["", "c"]))
    ck.sweep("every dictionary word first and last", dictionary_tanru(["klama", "spageti", "-mai-"]),
             chunk_for(["", "c", "Ar"]))
    ck.sweep("every dictionary rafsi", rafsi_tanru(), chunk_for(["", "cA"]))
    ck.sweep("every consonant pair and triple at a junction", junction_tanru(), chunk_for(["", "cz"]))
    ck.sweep("experimental: all tanru of 2 components of 20", S.tanru(S.TANRU_EXP, 2, 2),
             chunk_for(both(["r", "Ar", "A1rg", "F2rz"])))
    ck.sweep("components that are a word under some settings only, 144 settings", S.dependent_tanru(), chunk_for(both(ALL72)))
    ck.sweep("every dictionary zi'evla first and last", S.zihevla_tanru(), chunk_for(["", "cAr"]))
    ck.sweep("long tanru: all of 8 or 13 components with one different, alternating ones", S.runs(S.LONG_TANRU, (8, 13), (24,), "|"),
             chunk_for(["", "cA"]), chunk=20)
    if THOROUGH:
        ck.sweep("all tanru of 3 components of 24, 9 settings", S.tanru(S.TANRU[:24], 3, 3), chunk_for(both(NINE)))
        ck.sweep("all tanru of 5 components of 9", S.tanru(S.TANRU4[:9], 5, 5), chunk_for(["", "cF"]))
        ck.sweep("every dictionary word, 8 partners", dictionary_tanru(
            ["bangu", "gerku", "-tos-", "-bla-", "gugde", "ismu", "-fi'u-", "klingon-"]), chunk_for(both(SIX)))


# ------------------------------------------------------------------------ P03

def p03(ck):
    """The lujvo made is a best one; there is an error iff there is none."""
    def chunk_for(settings):
        ss = ",".join(settings)
        sts = [(st_tuple(s), "c" in s) for s in settings]

        def chunk(t, items):
            want = []
            for w in items:
                comps = w.split("|")
                for st, cm in sts:
                    try:
                        want.append(MJ.best(comps, st, cm))
                    except MJ.Bad as e:
                        want.append("bad")
            for impl in ck.impls:
                G = gen(impl, ss, items)
                k = 0
                for w in items:
                    for s in settings:
                        m, g = want[k], G[k]
                        k += 1
                        if m == "bad":
                            if g[0] == "O":
                                t.bad(impl, "L", s, w, "an error: a component has no rafsi", g)
                        elif m is None:
                            if g != "ERR\tNoLujvoFoundError":
                                t.bad(impl, "L", s, w, "NoLujvoFoundError", g)
                        elif g[0] != "O":
                            t.bad(impl, "L", s, w, say(m), g)
                        else:
                            x, sc, _ = read_answer(g)
                            if sc != m[0] or x not in {"".join(p) for p in m[1]}:
                                t.bad(impl, "L", s, w, say(m), g)
                t.transitions += k
                t.traces += k
            for m in want:
                t.outcome("none" if m is None else "bad component" if m == "bad" else f"{len(m[1])} best")
            t.states += len(want)
            t.sample.append(items[0] + " -> " + (say(want[0]) if want[0] and want[0] != "bad" else str(want[0])))
        return chunk

    def say(m):
        return f"{m[0]} " + " or ".join(sorted("-".join(p) for p in m[1]))
    ck.sweep("all tanru of 2 components of 33, 72 settings, brivla and cmevla", S.tanru(S.TANRU, 2, 2),
             chunk_for(both(ALL72)))
    ck.sweep("all tanru of 3 components of 14, 4 settings", S.tanru(S.TANRU3, 3, 3), chunk_for(["", "c", "A", "cFz"]))
    ck.sweep("all tanru of 4 components of 11", S.tanru(S.TANRU4, 4, 4), chunk_for([""]))
    ck.sweep("all tanru of 5 components of 4, 2 settings", S.tanru(S.TANRU6, 5, 5), chunk_for(["", "cA"]))
    ck.sweep("all tanru of 7 raw rafsi of 3", S.tanru(["-tos-", "-mai-", "-bla-"], 7, 7), chunk_for([""]))
    ck.sweep("experimental: all tanru of 2 components of 20, 36 settings", S.tanru(S.TANRU_EXP, 2, 2), chunk_for(both(EXP18)))
    ck.sweep("experimental: all tanru of 3 components of 12, 36 settings", S.tanru(S.TANRU_EXP3, 3, 3), chunk_for(both(EXP18)))
    ck.sweep("experimental: all tanru of 4 components of 6, 12 settings", S.tanru(S.TANRU_EXP4, 4, 4),
             chunk_for(both(["r", "Ar", "Fr", "A1r", "F2rg", "1rg"])))
    ck.sweep("every dictionary word first and last", dictionary_tanru(["klama", "-mai-", "bangu"]), chunk_for(["", "c"]))
    ck.sweep("every dictionary rafsi", rafsi_tanru(), chunk_for(["", "cA"]))
    ck.sweep("every consonant pair and triple at a junction", junction_tanru(), chunk_for(["", "cz"]))
    ck.sweep("components that are a word under some settings only, 144 settings", S.dependent_tanru(), chunk_for(both(ALL72)))
    ck.sweep("every dictionary zi'evla first and last", S.zihevla_tanru(), chunk_for(["", "Fr"]))
    ck.sweep("every number of dashes around a component", S.dashed_tanru(), chunk_for(["", "cr"]))
    ck.sweep("long tanru: all of 8 components with one different, alternating ones", S.runs(S.LONG_TANRU, (8,), sep="|"),
             chunk_for(["", "cA", "F"]), chunk=20)
    ck.sweep("long tanru: all of 12 components with one different, alternating ones", S.runs(S.LONG_TANRU[1:3] + S.LONG_TANRU[5:], (12,), sep="|"),
             chunk_for(["", "A"]), chunk=8)
    if THOROUGH:
        ck.sweep("all tanru of 3 components of 20, 18 settings", S.tanru(S.TANRU[:20], 3, 3), chunk_for(both(NINE)))
        ck.sweep("all tanru of 5 components of 6", S.tanru(S.TANRU5, 5, 5), chunk_for(["", "cA"]))
        ck.sweep("experimental: all tanru of 3 components of 20, 12 settings", S.tanru(S.TANRU_EXP, 3, 3),
                 chunk_for(both(["r", "Ar", "Fr", "A1r", "F2rg", "1rg"])))
        ck.sweep("experimental: all tanru of 5 components of 6, 12 settings", S.tanru(S.TANRU_EXP5, 5, 5),
                 chunk_for(both(["r", "Ar", "Fr", "A1r", "F2rg", "1rg"])))
        ck.sweep("all tanru of 9 raw rafsi of 3", S.tanru(["-tos-", "-mai-", "-bla-"], 9, 9), chunk_for([""]))
        ck.sweep("every dictionary word, 6 partners", dictionary_tanru(
            ["gugde", "spageti", "-tos-", "-bla-", "ismu", "klingon-"]), chunk_for(both(["", "A", "Fr"])))


# ------------------------------------------------------------------------ P04

def p04(ck):
    """The reported score is the documented formula, however it is asked for."""
    def chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                G = gen(impl, ss, items)
                back, k = {}, 0
                for w in items:
                    for s in settings:
                        g = G[k]
                        k += 1
                        if g[0] == "O":
                            back.setdefault((s, read_answer(g)[0]), []).append((w, g))
                keys = list(back)
                Sc = ask(impl, [("S", s, x) for s, x in keys])
                for key, sc in zip(keys, Sc):
                    s, x = key
                    for w, g in back[key]:
                        _, n, ix = read_answer(g)
                        pieces, e = [], 0
                        for i, j in ix:
                            if i > e:
                                pieces.append(x[e:i])
                            pieces.append(x[i:j])
                            e = j
                        m = MJ.lujvo_score(pieces)
                        if n != m:
                            t.bad(impl, "L", s, w, m, g, "score of " + "-".join(pieces))
                        if sc[0] == "O" and sc != f"OK\t{m}":
                            t.bad(impl, "S", s, x, m, sc, "score_lujvo of " + "-".join(pieces))
                t.transitions += k + len(keys)
                t.traces += 2 * len(keys)
                t.outcome("scores", len(keys))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk

    def words_chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                A = ask(impl, [("A", ss, w) for w in items])
                Sc = ask(impl, [("S", ss, w) for w in items])
                k = 0
                for w in items:
                    for s in settings:
                        a, sc = A[k], Sc[k]
                        k += 1
                        if a[0] == "O" and a.split("\t")[1] in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
                            m = f"OK\t{MJ.lujvo_score(a.split(chr(9))[2].split('|'))}"
                            t.traces += 1
                            t.outcome("scores")
                            if sc != m:
                                t.bad(impl, "S", s, w, m, sc, a)
                        elif sc[0] == "O":
                            t.bad(impl, "S", s, w, "an error: no lujvo", sc, a)
                t.transitions += 2 * k
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    ck.sweep("all tanru of 2 components of 33, 18 settings", S.tanru(S.TANRU, 2, 2), chunk_for(both(NINE)))
    ck.sweep("all tanru of 3 components of 14, 6 settings", S.tanru(S.TANRU3, 3, 3), chunk_for(both(SIX[:3])))
    ck.sweep("every dictionary word first and last", dictionary_tanru(["klama", "-mai-"]), chunk_for(["", "cAr"]))
    ck.sweep("every dictionary rafsi", rafsi_tanru(), chunk_for([""]))
    ck.sweep("all words of at most 2 pieces of 30, 72 settings", core.words(S.PIECES, 1, 2), words_chunk_for(ALL72))
    ck.sweep("all words of 3 pieces of 24, 6 settings", core.words(S.PIECES[:24], 3, 3), words_chunk_for(SIX))
    ck.sweep("all words of 4 pieces of 14", core.words(S.PIECES_DEEP, 4, 4), words_chunk_for(["", "A"]))
    ck.sweep("all words of 5 pieces of 8", core.words(S.CLL_LONG, 5, 5), words_chunk_for([""]))
    ck.sweep("experimental: all words of at most 3 pieces of 16", core.words(S.PIECES_EXP, 1, 3),
             words_chunk_for(["r", "A1rg", "F2rz"]))
    raf = sorted({r for v in MJ.RAFSI.values() for r in v})
    ck.sweep("every dictionary rafsi in every position", [f for r in raf for f in (
        r + "mlatu", r + "ymlatu", r + "'ymlatu", r + "rmlatu", "lat" + r, "laty" + r, "mai" + r, "mairbla" + r,
        "maiky" + r, "lat" + r + "bla", "laty" + r + "ybla", "lat" + r + "'ybla", "laty" + r[:-1], "laty" + r + "t")],
        words_chunk_for(["", "A"]))
    ck.sweep("components that are a word under some settings only, 144 settings", S.dependent_tanru(), chunk_for(both(ALL72)))
    ck.sweep("every dictionary zi'evla first and last", S.zihevla_tanru(), chunk_for(["", "A"]))
    ck.sweep("long tanru: all of 8 or 13 components with one different, alternating ones", S.runs(S.LONG_TANRU, (8, 13), (24,), "|"),
             chunk_for(["", "cA"]), chunk=20)
    if THOROUGH:
        ck.sweep("all tanru of 3 components of 24, 18 settings", S.tanru(S.TANRU[:24], 3, 3), chunk_for(both(NINE)))
        ck.sweep("all words of 3 pieces of 30, 72 settings", core.words(S.PIECES, 3, 3), words_chunk_for(ALL72))
        ck.sweep("all words of 4 pieces of 19, 4 settings", core.words(S.PIECES[:19], 4, 4),
                 words_chunk_for(["", "A", "F1rgz", "2r"]))


# ------------------------------------------------------------------------ P15

def p15(ck):
    """Every rafsi has one word; looking it up inverts the table; the three tables agree."""
    ref = {k: sorted(v) for k, v in MJ.RAFSI.items()}

    def tables(t, items):
        for impl in items:
            a = ask(impl, [("T", "", "")])[0]
            t.states += len(MJ.RAFSI)
            t.transitions += 1
            t.traces += 1
            t.outcome("tables")
            got = dict(x.split("=") for x in a[3:].split(";")) if a[0] == "O" else {}
            for k in sorted(set(got) | set(ref)):
                if ref.get(k) != sorted(filter(None, got.get(k, "-").split(","))):
                    t.bad(impl, "T", "", k, ref.get(k), got.get(k), "rafsi table")
                    break
    ck.sweep("the rafsi tables", list(ck.impls), tables, nproc=1)

    rev = {}
    for k, v in MJ.RAFSI.items():
        for r in v:
            rev.setdefault(r, []).append(k)

    def lookup(t, items):
        for impl in ck.impls:
            got = ask(impl, [("R", "", r) for r in items])
            for r, g in zip(items, got):
                m = "OK\t" + (MV.selrafsi(r) or "")
                if g != m:
                    t.bad(impl, "R", "", r, m, g)
                t.outcome("no word" if m == "OK\t" else "a word")
            t.transitions += len(got)
            t.traces += len(got)
        t.states += len(items)
        t.sample.append(items[0])
    strings = ["".join(x) for x in itertools.product(C, V, C)] + ["".join(x) for x in itertools.product(C, C, V)] + \
        [a + b + c for a in C for b in V for c in V] + [a + b + "'" + c for a in C for b in V for c in V] + \
        ["".join(x) for x in itertools.product(C, V, C, C)] + ["".join(x) for x in itertools.product(C, C, V, C)] + \
        [a + b for a in [""] + list(C) for b in V] + [a + "'" + b for a in V for b in V] + [a + b for a in V for b in V]
    strings += [r for r in rev if r not in set(strings)] + list(MJ.RAFSI)
    ck.sweep("every CVC, CCV, CVV, CV'V, CVCC, CCVC, V and CV string, every listed rafsi and word",
             list(dict.fromkeys(strings)), lookup)

    def use(t, items):
        """each listed rafsi, in a lujvo, is read as its word"""
        for impl in ck.impls:
            words = []
            for w, r in items:
                a = shape(r)
                if a in ("CVC",):
                    x = f"mlaty{r}", f"{r}ymlatu"
                elif a in ("CVCC", "CCVC"):
                    x = (f"{r}ymlatu",)
                elif a in ("CCV", "CVV", "CV'V"):
                    x = (f"laty{r}",)
                elif a in ("CVCCV", "CCVCV"):
                    x = (f"laty{r}",)
                else:
                    x = (f"{r}'ymlatu",) if r[0] in CSET else ()
                words += [(w, r, y, "Ar" if a is None else "") for y in x]
            for i, f in ((0, "V"), (1, "A")):
                got = ask(impl, [(f, s, y) for _, _, y, s in words])
                t.transitions += len(got)
                for (w, r, y, s), g in zip(words, got):
                    if f == "V":
                        if g[0] == "O" and w not in g.split("\t")[1].split("|"):
                            t.bad(impl, "V", s, y, f"{r} read as {w}", g)
                        t.outcome("read" if g[0] == "O" else "not a word")
        t.states += len(items)
        t.sample.append(str(items[0]))
    ck.sweep("every listed rafsi in a lujvo", [(w, r) for w, v in MJ.RAFSI.items() for r in v] +
             [(MV.selrafsi(w[:4]), w[:4]) for w in MJ.RAFSI
              if len(w) == 5 and w[:4] != "brod" and shape(w) in ("CVCCV", "CCVCV")], use)

    # a second history: the look-up asked again, and after lujvo were made and read, answers the same
    def again(t, items):
        for impl in ck.impls:
            a = ask(impl, [("R", "", r) for r in items])
            ask(impl, [("G", "", f"{w} klama") for r in items for w in rev.get(r, ())])
            b = ask(impl, [("R", "", r) for r in items])
            for r, x, y in zip(items, a, b):
                if x != y:
                    t.bad(impl, "R", "", r, x, y, "asked a second time")
            t.transitions += 2 * len(a)
        t.states += len(items)
        t.sample.append(items[0])
    ck.sweep("every listed rafsi looked up again after use", sorted(rev), again)

    def unique(t, items):
        for impl in items:
            a = ask(impl, [("T", "", "")])[0]
            seen = {}
            for x in a[3:].split(";"):
                k, v = x.split("=")
                for r in filter(None, v.split(",")):
                    if r in seen and seen[r] != k:
                        t.bad(impl, "T", "", r, "one word", seen[r] + " and " + k)
                    seen[r] = k
            t.states += len(seen)
            t.transitions += 1
    ck.sweep("no rafsi belongs to two words", list(ck.impls), unique, nproc=1)
