"""Checks of what counts as a word and how it is taken apart (P05 - P10, P12)."""

import itertools
import re
from functools import lru_cache

import core
import spaces as S
import veljvo as MV
from core import ALL72, NINE, SIX, THOROUGH, ask, st_tuple, words
from lojban import C, CSET, V, VSET, analyse, is_gismu, normalise, shape, starts_with_glide

CK = None


def fmt(m):
    return "ERR" if m is None else f"OK\t{m[0]}\t" + "|".join(m[1])


def cut(a):
    return a if a[0] == "O" else "ERR"


def kind(a):
    return a.split("\t", 2)[1] if a[0] == "O" else "none"


def vs_model(settings, kinds, impls=None):
    """Every word, every setting, every implementation: the analysis is the
    model's.  A difference counts when one side has a type in `kinds`."""
    ss = ",".join(settings)
    sts = [st_tuple(s) for s in settings]

    def chunk(t, items):
        want = [[fmt(analyse(w, st)) for st in sts] for w in items]
        for impl in impls or CK.impls:
            got = ask(impl, [("A", ss, w) for w in items])
            k = 0
            for w, row in zip(items, want):
                for s, x in zip(settings, row):
                    g = got[k]
                    k += 1
                    if x != g and (x != "ERR" or g[0] == "O") and (kind(x) in kinds or kind(g) in kinds):
                        t.bad(impl, "A", s, w, x, g)
            t.transitions += k
            t.traces += k
        for w, row in zip(items, want):
            t.states += len(row)
            for x in row:
                t.outcome(kind(x))
        if items:
            t.sample.append(f"{items[0]} [{settings[0]}] -> {want[0][0]}")
    return chunk


ANY = frozenset(("GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "CMEVLA", "none"))


# ------------------------------------------------------------------- P05

def p05(ck):
    """Lossless decomposition; the five reading functions tell one story."""
    def chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                A = ask(impl, [("A", ss, w) for w in items])
                B = ask(impl, [("B", ss, w) for w in items])
                Vj = ask(impl, [("V", ss, w) for w in items])
                Sc = ask(impl, [("S", ss, w) for w in items])
                ps = sorted({a.split("\t")[2] for a in A if a[0] == "O"})
                idx = dict(zip(ps, ask(impl, [("I", "", p) for p in ps])))
                t.transitions += len(ps)
                k = 0
                for w in items:
                    n = normalise(w)
                    for s in settings:
                        a, b, v, sc = A[k], B[k], Vj[k], Sc[k]
                        k += 1
                        if a[0] != "O":
                            if b != "OK\tfalse":
                                t.bad(impl, "B", s, w, "false (analysis refuses it)", b)
                            if v[0] == "O":
                                t.bad(impl, "V", s, w, "an error (analysis refuses it)", v)
                            if sc[0] == "O":
                                t.bad(impl, "S", s, w, "an error (analysis refuses it)", sc)
                            continue
                        _, ty, pj = a.split("\t")
                        pieces = pj.split("|")
                        if "".join(pieces) != n or "" in pieces:
                            t.bad(impl, "A", s, w, "pieces that spell the word", a)
                        raf = [p for p in pieces if p not in MV.HYPHENS]
                        hyph = [p in MV.HYPHENS for p in pieces]
                        if hyph[0] or hyph[-1] or any(x and y for x, y in zip(hyph, hyph[1:])):
                            t.bad(impl, "A", s, w, "hyphens single and between rafsi", a)
                        if (b == "OK\ttrue") != (ty != "CMEVLA"):
                            t.bad(impl, "B", s, w, ty != "CMEVLA", b, f"type {ty}")
                        if (ty == "CMEVLA") != (n[-1] in CSET):
                            t.bad(impl, "A", s, w, "CMEVLA iff it ends in a consonant", a)
                        if ty in ("GISMU", "ZIhEVLA"):
                            if len(pieces) != 1:
                                t.bad(impl, "A", s, w, "a single piece", a)
                            if v[0] == "O" or sc[0] == "O":
                                t.bad(impl, "V", s, w, f"an error ({ty} has no veljvo)", v + " / " + sc)
                        elif ty not in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
                            t.bad(impl, "A", s, w, "a documented type", a)
                        else:
                            if len(raf) < 2:
                                t.bad(impl, "A", s, w, "at least two rafsi", a)
                            m = "OK\t" + "|".join(MV.veljvo(pieces, st_tuple(s)))
                            t.traces += 2
                            if v != m:
                                t.bad(impl, "V", s, w, m, v, "components of " + pj)
                            m = f"OK\t{MV.lujvo_score(pieces)}"
                            if sc != m:
                                t.bad(impl, "S", s, w, m, sc, "score of " + pj)
                        if idx:
                            m = "OK\t" + ",".join(f"{x}-{y}" for x, y in MV.indices(pieces))
                            if idx[pj] not in (m, "ERR\tNoHelper"):
                                t.bad(impl, "I", "", pj, m, idx[pj])
                        t.outcome(ty)
                t.transitions += 4 * k
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    ck.sweep("all words of at most 2 pieces of 30, 72 settings", words(S.PIECES, 1, 2), chunk_for(ALL72))
    ck.sweep("all words of 3 pieces of 20, 6 settings", words(S.PIECES[:20], 3, 3), chunk_for(SIX))
    ck.sweep("all strings of at most 5 characters of ai'yrstm, 3 settings", S.chars("ai'yrstm", 1, 5 if THOROUGH else 4),
             chunk_for(["", "Ar", "F1rgz"]))
    rafsi = sorted({r for v in MV.RAFSI.values() for r in v})
    ck.sweep("every dictionary rafsi as first, middle and last piece",
             [f for r in rafsi for f in (r + "mlatu", r + "ymlatu", r + "'ymlatu", r + "rmlatu", "lat" + r, "laty" + r,
                                         "lat" + r + "bla", "laty" + r + "ybla", "lat" + r + "'ybla", "maiky" + r)],
             chunk_for(["", "A", "Ar"]))
    ck.sweep("every dictionary word whole and as the last component",
             [f for w in MV.RAFSI for f in (w, "lat" + w, "laty" + w, "lat" + w[:-1], "mai'y" + w, w[:-1] + "ybla")],
             chunk_for(["", "A", "Ar"]))
    ck.sweep("every word of the dictionary, 3 settings", S.dictionary(), chunk_for(["", "Ar", "F1rgz"]))
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             chunk_for(["", "A1rg"]), chunk=40)
    if THOROUGH:
        ck.sweep("all words of 3 pieces of 30, 72 settings", words(S.PIECES, 3, 3), chunk_for(ALL72))
        ck.sweep("all words of 4 pieces of 14, 6 settings", words(S.PIECES_DEEP, 4, 4), chunk_for(SIX))


# ------------------------------------------------------------------- P06

_CM = re.compile(r"[bcdfgjklmnprstvxz]?[aeiou]+('[aeiou]+)*$")
_CMY = re.compile(r"[bcdfgjklmnprstvxz]?[aeiou]+('[aeiou]+)*('y)?$")


def _one_syllable_each(h):
    for run in re.findall("[aeiou]+", h):
        if len(run) == 2 and (run in ("ai", "ei", "oi", "au") or run[0] in "iu"):
            continue
        if len(run) > 1:
            return False
    return True


@lru_cache(1 << 18)
def cmavo_sequence(p, std):
    """Is p one or more cmavo?  (Under STANDARD also CVV'y and CV'V'y ones.)"""
    if not p:
        return True
    for k in range(1, len(p) + 1):
        h = p[:k]
        if (_CMY if std else _CM).match(h) and _one_syllable_each(h) and cmavo_sequence(p[k:], std):
            return True
    return False


def splits(w, std):
    """Ways to read w as cmavo followed by something that could be a brivla."""
    out = []
    for k in range(1, len(w) - 2):
        if w[k] in "'y" or w[k - 1] in CSET:
            continue
        if w[k] in VSET and w[k - 1] in VSET and not (starts_with_glide(w[k:]) and not (
                w[k - 1] == w[k] and w[k - 2] in "aeo")):
            continue
        if cmavo_sequence(w[:k], std):
            out.append((w[:k], w[k:]))
    return out


def p06(ck):
    """No accepted brivla is also cmavo + an accepted brivla."""
    def chunk_for(settings):
        ss = ",".join(settings)

        def chunk(t, items):
            for impl in ck.impls:
                A = ask(impl, [("A", ss, w) for w in items])
                follow = {}
                k = 0
                for w in items:
                    for s in settings:
                        a = A[k]
                        k += 1
                        if a[0] == "O" and "\tCMEVLA\t" not in a:
                            for p, q in splits(w, s[:1] not in ("A", "F")):
                                follow.setdefault((s, q), []).append((w, p, a))
                t.transitions += k
                keys = sorted(follow)
                B = ask(impl, [("A", s, q) for s, q in keys])
                t.transitions += len(keys)
                for key, b in zip(keys, B):
                    if b[0] == "O" and "\tCMEVLA\t" not in b:
                        for w, p, a in follow[key]:
                            t.bad(impl, "A", key[0], w, "not a brivla", a, f"it is {p} + {key[1]} ({b})")
                t.outcome("splits ruled out", len(keys))
            t.states += len(items) * len(settings)
            t.sample.append(items[0])
        return chunk
    cmavo = ["to", "mai", "fu'i", "maimai", "maito", "tofu'i", "mai'y", "a", "u'i", "ma'ai"]
    ck.sweep("all words of at most 3 pieces of 25, 9 settings", words(
        ["lat", "tos", "mai", "fu'i", "bla", "klam", "bang", "mlatu", "mabru", "r", "n", "y", "'y", "y'", "a", "ia",
         "spageti", "gimzu", "spa", "latm", "'e'e", "to", "ismu", "tca", "la"], 1, 3), chunk_for(NINE if THOROUGH else SIX))
    deep = ["lat", "tos", "mai", "bla", "to", "la", "fu'i", "y", "'y", "spageti", "mabru", "klam"]
    ck.sweep("all words of 4 pieces of 12, 3 settings", words(deep, 4, 4), chunk_for(["", "A", "F2r"]))
    brivla = words(["lat", "tos", "mai", "bla", "pas", "klama", "mabru", "spageti", "y", "'y", "klam", "spa", "r"], 1, 3)
    ck.sweep("cmavo prefixes before every word of at most 3 pieces of 13, 3 settings",
             [c + w for w in brivla for c in (cmavo if THOROUGH else cmavo[:7])], chunk_for(["", "A", "F"]))
    ck.sweep("experimental rafsi: all words of at most 3 pieces of 16, 4 settings", words(S.PIECES_EXP, 1, 3),
             chunk_for(["r", "A1rg", "F2r", "1r"]))
    ck.sweep("all strings of at most 5 characters, 3 settings", S.chars("ai'yrstm", 1, 6 if THOROUGH else 5),
             chunk_for(["", "A2", "F1rg"] if THOROUGH else ["", "A1rg"]))
    ck.sweep("every cluster and every vowel pattern of zi'evla after a cmavo",
             [c + w for w in S.zihevla_words(2, S.CRUNS[:12], S.VRUNS[:6]) for c in ("", "ma", "u'i")],
             chunk_for(["", "z"]))
    ck.sweep("every word of the dictionary, alone and after a cmavo", [c + w for w in S.dictionary("LUJVO", "ZIhEVLA", "GISMU")
                                                                    for c in ("", "ma", "u'i")], chunk_for(["", "Ar"]))
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             chunk_for(["", "F"]), chunk=40)
    ck.sweep("long runs of vowels or consonants, also after a cmavo", [c + w for w in S.letter_runs((5,), (9,)) for c in ("", "pa")],
             chunk_for(["r"]))
    if THOROUGH:
        ck.sweep("all words of 5 pieces of 12, 2 settings", words(deep, 5, 5), chunk_for(["", "A"]))
        ck.sweep("experimental: all words of 4 pieces of 16, 3 settings", words(S.PIECES_EXP, 4, 4),
                 chunk_for(["A1rg", "Fr", "r"]))


# ------------------------------------------------------------------- P07

def p07(ck):
    """Gismu are exactly the CVCCV and CCVCV words with permissible clusters."""
    def gismu_chunk(t, items):
        for impl in ck.impls:
            got = ask(impl, [("A", ",z", w) for w in items])
            k = 0
            for w in items:
                for s, mz in (("", False), ("z", True)):
                    g = got[k]
                    k += 1
                    want = is_gismu(w, mz)
                    if want != (kind(g) == "GISMU") or want and g != f"OK\tGISMU\t{w}":
                        t.bad(impl, "A", s, w, f"GISMU {w}" if want else "not a gismu", g)
                    t.outcome("gismu" if want else "not gismu")
            t.transitions += k
            t.traces += k
        t.states += 2 * len(items)
        t.sample.append(items[0])
    ck.sweep("every CVCCV and CCVCV string (245650), both mz settings", S.gismu_words(), gismu_chunk)
    ck.sweep("all strings of at most 5 of atsmz'y", S.chars("atsmz'y", 1, 5), gismu_chunk)
    ck.sweep("six-letter neighbours of gismu", [g[:i] + x + g[i:] for g in ("klama", "bangu", "gimzu", "tcati", "mlatu")
                                                for i in range(6) for x in C + V + "'y"], gismu_chunk)
    other = [s for s in ALL72 if s not in ("", "z")]
    ck.sweep("gismu under every other setting", ["".join(t) for t in itertools.product("tkm", "ai", "lz", "mzt", "au")] +
             ["".join(t) for t in itertools.product("tkmz", "lszm", "a", "tz", "u")], vs_model(other, ("GISMU",)))
    ck.sweep("every consonant pair in the contexts that depend on it, 2 settings", S.pair_words(), vs_model(["", "z"], ANY))
    ck.sweep("every word of the dictionary", S.dictionary(), vs_model(["", "z"], ("GISMU",)))
    if THOROUGH:
        ck.sweep("every five-letter string of 9 letters", S.chars("atsmz'yrl", 5, 5), gismu_chunk)


# ------------------------------------------------------------------- P08

def p08(ck):
    """LUJVO/CMEVLA are exactly the well-formed CLL lujvo."""
    kinds = ("LUJVO", "CMEVLA")
    two = [s for s in ALL72 if s not in ("", "z")]
    ck.sweep("all words of at most 3 pieces of 28, 2 settings", words(S.CLL, 1, 3), vs_model(["", "z"], kinds))
    ck.sweep("all words of at most 2 pieces of 28, 70 settings", words(S.CLL, 1, 2), vs_model(two if THOROUGH else NINE[1:],
                                                                                             kinds))
    ck.sweep("all words of 4 pieces of 14, 2 settings", words(S.CLL_DEEP, 4, 4), vs_model(["", "F"], kinds))
    ck.sweep("all words of 5 pieces of 8", words(S.CLL_LONG, 5, 5), vs_model([""], kinds))
    ck.sweep("every consonant pair in the contexts that depend on it", S.pair_words(), vs_model(["", "z"], kinds))
    ck.sweep("every consonant triple where rafsi meet", S.triple_words(), vs_model([""], kinds))
    raf = sorted({r for v in MV.RAFSI.values() for r in v if shape(r)})
    some = ["bla", "mabru", "lat", "rau", "nolr", "mle"]
    ck.sweep("every dictionary rafsi before and after others", [f for r in raf for q in some for f in (r + q, q + r, r + "y" + q,
                                                                                                  q + "y" + r, r + "r" + q)],
             vs_model(["", "A"], kinds))
    ck.sweep("every word of the dictionary, 6 settings", S.dictionary("LUJVO", "OTHER", "GISMU"), vs_model(SIX, kinds))
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             vs_model(["", "z"], kinds), chunk=40)
    if THOROUGH:
        ck.sweep("all words of 4 pieces of 20, 2 settings", words(S.CLL[:20], 4, 4), vs_model(["", "A"], kinds))
        ck.sweep("all words of 6 pieces of 8", words(S.CLL_LONG, 6, 6), vs_model([""], kinds))
        ck.sweep("every pair of dictionary rafsi", [a + b for a in raf for b in raf], vs_model([""], kinds))


# ------------------------------------------------------------------- P09

def p09(ck):
    """ZIhEVLA are exactly the words of the zi'evla grammar."""
    kinds = ("ZIhEVLA",)
    ck.sweep("consonant runs x vowel runs, 2 syllable groups, 5 settings", S.zihevla_words(2),
             vs_model(["", "z", "A", "F", "rz"], kinds))
    ck.sweep("consonant runs x vowel runs, 3 groups", S.zihevla_words(3, S.CRUNS[:12], S.VRUNS[:6]) if THOROUGH else
             S.zihevla_words(3, ["", "t", "st", "ntr", "gl", "z"], ["a", "ai", "ia", "a'u", "aia"]),
             vs_model(["", "F"], kinds))
    ck.sweep("every consonant pair", S.pair_words(), vs_model(["", "z"], kinds))
    ck.sweep("every consonant triple", S.triple_words(), vs_model(["", "z"] if THOROUGH else [""], kinds))
    ck.sweep("every run of four consonants", S.quad_words(["a{}a'i", "{}a'i", "ka{}a"] if THOROUGH else ["a{}a'i"]),
             vs_model(["", "z"] if THOROUGH else [""], kinds))
    ck.sweep("every run of five consonants of some", S.quint_words("lrnmtsdjkc" if THOROUGH else "rntsdj"), vs_model([""], kinds))
    ck.sweep("every run of at most 5 vowels", S.vowel_words(6 if THOROUGH else 5), vs_model(["", "Ar"], kinds))
    ck.sweep("all strings of at most 5 characters of 9", S.chars("ai'yrstml", 1, 5), vs_model(["", "F"], kinds))
    ck.sweep("all words of at most 3 pieces of 30, 3 settings", words(S.PIECES, 1, 3), vs_model(["", "F", "z"], kinds))
    ck.sweep("every word of the dictionary, 3 settings", S.dictionary("ZIhEVLA", "OTHER"), vs_model(["", "F", "Arz"], kinds))
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             vs_model(["", "F"], kinds), chunk=40)
    ck.sweep("long runs of vowels or consonants, one different or alternating", S.letter_runs((4, 6), (9, 17)), vs_model(["", "r"], kinds))
    if THOROUGH:
        ck.sweep("long runs of every length to 12", S.letter_runs((5, 7, 8, 9, 10, 11, 12)), vs_model(["", "Frz"], kinds))
        ck.sweep("all strings of 6 characters of 8", S.chars("ai'yrstm", 6, 6), vs_model(["", "F", "z"], kinds))


# ------------------------------------------------------------------- P10

def p10(ck):
    """EXTENDED_LUJVO (and long CMEVLA) are exactly the documented extensions."""
    kinds = ("EXTENDED_LUJVO", "CMEVLA")
    ck.sweep("all words of at most 2 pieces of 30, 72 settings", words(S.PIECES, 1, 2), vs_model(ALL72, kinds))
    ck.sweep("all words of 3 pieces of 30, 9 settings", words(S.PIECES, 3, 3), vs_model(ALL72 if THOROUGH else SIX, kinds))
    ck.sweep("all words of 4 pieces of 14, 3 settings", words(S.PIECES_DEEP, 4, 4), vs_model(["", "A", "F2rgz"], kinds))
    ck.sweep("all strings of at most 4 characters of 8, 72 settings", S.chars("ai'yrstm", 1, 4), vs_model(ALL72, kinds))
    ck.sweep("experimental: all words of at most 3 pieces of 16, 18 settings", words(S.PIECES_EXP, 1, 3),
             vs_model([s for s in ALL72 if "r" in s and "z" not in s], kinds))
    ck.sweep("zi'evla parts before y, 4 settings", [w + c for w in S.zihevla_words(2, S.CRUNS[:12], S.VRUNS[:6])
                                                    for c in ("ymla", "'ymla", "ylat", "y'ismu", "yia")],
             vs_model(["", "Arz"], kinds))
    ck.sweep("every dictionary zi'evla in an extended lujvo", S.zihevla_lujvo(), vs_model(["", "A1r"], kinds))
    ck.sweep("3 parts joined with any y, 9 settings", S.y_groups(3, S.Y_PARTS, S.Y_ENDS),
             vs_model(["r", "", "Arg", "Fr", "1r", "2rg", "A1r", "A2rz", "F1rg"], kinds))
    ck.sweep("long runs of vowels or consonants, one different or alternating", S.letter_runs((5,), (9,)), vs_model(["", "A1rg"], kinds))
    ck.sweep("4 parts joined with any y, 4 settings", S.y_groups(4, S.Y_PARTS[:7], ["bla", "ta", "t"]),
             vs_model(["r", "A2r", "1rg", "Frz"], kinds))
    ck.sweep("long words: all of 8 or 11 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES, (8, 11), (16, 33)),
             vs_model(["", "A1rg", "F2"], kinds), chunk=40)
    if THOROUGH:
        ck.sweep("3 parts joined with any y, 72 settings", S.y_groups(3, S.Y_PARTS, S.Y_ENDS), vs_model(ALL72, kinds))
        ck.sweep("4 parts joined with any y, 18 settings", S.y_groups(4, S.Y_PARTS[:11], S.Y_ENDS[:8]),
                 vs_model([s for s in ALL72 if "r" in s and "z" not in s], kinds))
        ck.sweep("all strings of 5 characters of 8, 72 settings", S.chars("ai'yrstm", 5, 5), vs_model(ALL72, kinds))
        ck.sweep("all words of 4 pieces of 19, 4 settings", words(S.PIECES[:19], 4, 4), vs_model(["", "A", "F1rgz", "2r"],
                                                                                             kinds))
        ck.sweep("all words of 5 pieces of 10, 2 settings", words(S.PIECES_DEEP[:10], 5, 5), vs_model(["", "A1rg"], kinds))


# ------------------------------------------------------------------- P12

ORDER = {"": 0, "2": 1, "1": 2}


def parts(s):
    y = s[:1] if s[:1] in ("A", "F") else ""
    c = "2" if "2" in s else "1" if "1" in s else ""
    return y, c, "r" in s, "g" in s, "z" in s


def letters(y, c, r, g, z):
    return y + c + "r" * r + "g" * g + "z" * z


def edges():
    """One-option changes: (from, to, keeps) where keeps is 'same' (an accepted
    word stays accepted with the same reading), 'pieces' (the same pieces), 'equal' (no change at all) or
    'accepted' (stays accepted)."""
    out = []
    for s in ALL72:
        y, c, r, g, z = parts(s)
        if not z:
            out.append((s, letters(y, c, r, g, True), "pieces"))
        if not r:
            out.append((s, letters(y, c, True, g, z), "same"))
            if not g:
                out.append((s, letters(y, c, r, True, z), "equal"))
        if r and not g:
            out.append((s, letters(y, c, r, True, z), "same"))
        if c == "":
            out.append((s, letters(y, "2", r, g, z), "same"))
        if c == "2":
            out.append((s, letters(y, "1", r, g, z), "same"))
        if y == "":
            out.append((s, letters("A", c, r, g, z), "same"))
        if y == "F":
            out.append((s, letters("A", c, r, g, z), "accepted"))
    return out


def p12(ck):
    """Loosening one option never loses a word."""
    E = edges()
    ss = ",".join(ALL72)
    pos = {s: i for i, s in enumerate(ALL72)}
    E = [(pos[a], pos[b], a, b, k) for a, b, k in E]

    def chunk(t, items):
        for impl in ck.impls:
            got = ask(impl, [("A", ss, w) for w in items])
            for j, w in enumerate(items):
                row = got[72 * j:72 * j + 72]
                if len(set(row)) == 1:
                    t.transitions += len(E)
                    continue
                for ia, ib, a, b, k in E:
                    x, y = row[ia], row[ib]
                    if k == "equal":
                        ok = x == y or x[0] == y[0] == "E"
                    elif x[0] != "O":
                        ok = True
                    elif k == "same":
                        ok = x == y
                    elif k == "pieces":
                        # tamyzba: its y stops being needed once mz is allowed
                        ok = x == y or y == x.replace("\tLUJVO\t", "\tEXTENDED_LUJVO\t")
                    else:
                        ok = y[0] == "O"
                    if not ok:
                        t.bad(impl, "A", b, w, f"as with {a!r}: {x}", y, k)
                t.transitions += len(E)
                t.outcome("depends on settings")
        t.states += 72 * len(items)
        t.sample.append(items[0])
    ck.sweep("all words of at most 2 pieces of 30, all option changes", words(S.PIECES, 1, 2), chunk)
    ck.sweep("all words of 3 pieces, all option changes", words(S.PIECES if THOROUGH else S.PIECES_DEEP + ["ia", "gimzu"], 3, 3),
             chunk)
    ck.sweep("experimental: all words of at most 3 pieces, all option changes",
             words(S.PIECES_EXP if THOROUGH else S.PIECES_EXP[:11], 1, 3), chunk)
    ck.sweep("all strings of at most 4 characters of 8", S.chars("ai'yrstm", 1, 5 if THOROUGH else 4), chunk)
    mz = [w.replace("tm", "mz") for w in words(["latm", "tam", "zba", "gimzu", "y", "mai", "zan", "'y", "ta", "a", "spageti"],
                                               1, 3)]
    ck.sweep("words around mz", mz, chunk)

    # what each option is documented to switch on (README), on both sides of the switch
    def doc(t, items):
        for impl in ck.impls:
            for row in items:
                w, s, want = row
                g = ask(impl, [("A", s, w)])[0]
                t.transitions += 1
                if kind(g) not in want.split("/"):
                    t.bad(impl, "A", s, w, want, g, "README example")
        t.states += len(items)
    ck.sweep("long words: all of 7 equal pieces with one different, alternating pieces", S.runs(S.LONG_PIECES[:9], (7,), (24,)), chunk)
    ck.sweep("documented examples of each option", [
        ("rai'ymlatu", "", "none"), ("rai'ymlatu", "A", "LUJVO/EXTENDED_LUJVO"), ("re'enre'e", "A", "LUJVO"), ("rai'ymlatu", "F", "LUJVO/EXTENDED_LUJVO"),
        ("re'enre'e", "F", "ZIhEVLA"), ("mlatyfa'u'u", "", "none"), ("lojycpa", "Ar", "LUJVO"),
        ("nei'ynei", "Ar", "none"), ("a'ynei", "Ar", "none"), ("nei'ynei", "A2r", "EXTENDED_LUJVO"),
        ("a'ynei", "A2r", "none"), ("nei'ynei", "A1r", "EXTENDED_LUJVO"), ("a'ynei", "A1r", "EXTENDED_LUJVO"),
        ("latyia", "r", "none"), ("latyia", "rg", "EXTENDED_LUJVO"), ("ia'yia", "A1rg", "EXTENDED_LUJVO"),
        ("gimzu", "", "none"), ("gimzu", "z", "GISMU"), ("mlatyfa'u'u", "r", "LUJVO/EXTENDED_LUJVO")], doc, nproc=1)
