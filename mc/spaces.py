"""The enumerated spaces: alphabets simplest first, all words up to a bound."""

import itertools
import json
import os

from core import THOROUGH, VERIF, words
from lojban import C, V, normalise

# rafsi of every shape, hyphens, zi'evla and experimental pieces
PIECES = ["lat", "tos", "mai", "fu'i", "bla", "spa", "klam", "bang", "bangu", "mlatu", "r", "n", "y", "'y", "y'", "'y'",
          "a", "ia", "a'u", "spageti", "uinmo", "ismu", "latm", "iandi", "tsmib", "e'e", "kerl", "ai", "gimzu", "tam"]
PIECES_DEEP = ["lat", "tos", "mai", "fu'i", "bla", "klam", "mlatu", "mabru", "r", "y", "'y", "y'", "a", "spageti"]
PIECES_EXP = ["u'u", "ia", "'y", "to", "bau", "re'e", "a", "y", "'u", "mai", "bla", "klama", "e", "i", "sat", "y'"]

# CLL rafsi and hyphens only
CLL = ["lat", "tos", "mai", "fu'i", "bla", "spa", "klam", "bang", "bangu", "mlatu", "mabru", "r", "n", "y", "rai", "re'e",
       "tam", "zan", "cak", "nor", "ban", "dja", "sai", "tcan", "djar", "xamg", "jmaji", "catlu"]
CLL_DEEP = ["lat", "tos", "mai", "fu'i", "bla", "klam", "bang", "mabru", "klama", "r", "n", "y", "rai", "pas"]
CLL_LONG = ["lat", "tos", "mai", "bla", "y", "r", "mabru", "klama"]

# zi'evla: consonant runs and vowel runs
CRUNS = ["", "t", "m", "z", "mz", "st", "str", "ntr", "ndz", "lmn", "gl", "rlm", "mlm", "k", "tstr", "mr", "spr", "cv"]
VRUNS = ["a", "ai", "ia", "a'u", "ii", "aia", "au", "e'i", "oiu"]


def chars(alpha, lo, hi):
    return ["".join(t) for n in range(lo, hi + 1) for t in itertools.product(alpha, repeat=n)]


def zihevla_words(n, cruns=CRUNS, vruns=VRUNS):
    out = {}
    for k in range(2, n + 1):
        for t in itertools.product(*([cruns, vruns] * k)):
            out.setdefault("".join(t))
    return list(out)


def gismu_words():
    """Every CVCCV and CCVCV string."""
    return (["".join(t) for t in itertools.product(C, V, C, C, V)] +
            ["".join(t) for t in itertools.product(C, C, V, C, V)])


def pair_words():
    """Every pair of consonants in every context where a lujvo, a gismu, a
    zi'evla or a hyphen depends on it."""
    ctx = ["ta{}ta", "{}ata", "{}a", "ta{}yta'a", "{}atyta'a", "mlata{}a", "ti{}a'u", "{}a'uta", "sa{}'e", "spa{}aglo",
           "lat{}ata", "{}atmi", "ma{}amlo", "to{}abru", "toi{}atu", "toi{}aty'o", "a{}ami", "sta{}ala"]
    return [c.format(a + b) for c in ctx for a in C for b in C] + \
        [f"ta{a}{b}a{c}e" for a in C for b in C for c in "trms"] + \
        [f"{a}a{b}{c}a{d}a" for a in "tkl" for b in C for c in C for d in "st"]


def triple_words():
    """Every triple of consonants where two rafsi meet and inside a zi'evla."""
    ctx = ["ta{}a", "ta{}aska", "a{}a'i", "ta{}ati", "{}a'ita"]
    return [c.format(x + y + z) for c in ctx for x in C for y in C for z in C]


def quad_words(ctx):
    """Every run of four consonants."""
    return [c.format("".join(r)) for c in ctx for r in itertools.product(C, repeat=4)]


def quint_words(alpha):
    """Every run of five consonants of some."""
    return ["a" + "".join(r) + "a'i" for r in itertools.product(alpha, repeat=5)]


def vowel_words(n):
    """Every run of up to n vowels in five contexts."""
    runs = chars(V, 1, n)
    return [c.format(r) for r in runs for c in ("spa{}", "{}sta", "ast{}mo", "sta'{}", "{}'amla")]


# long inputs: what changes only after a certain length
LONG_PIECES = ["lat", "mai", "fu'i", "bla", "y", "'y", "r", "klam", "mlatu", "spageti", "a", "tosm"]
LONG_TANRU = ["bangu", "-tos-", "-mai-", "mabru", "klama", "spageti", "-bla-"]


def sequences(ws, ns, far=()):
    """Sequences of length n of at most two things: one that differs at every place, and alternating ones;
    for the lengths far only the first, middle and last place."""
    for a in ws:
        for b in ws:
            for n in tuple(ns) + tuple(far):
                for i in range(n) if n in ns else (0, n // 2, n - 1):
                    yield [a] * i + [b] + [a] * (n - 1 - i)
                yield [a, b] * (n // 2) + [a] * (n % 2)


def runs(ws, ns, far=(), sep=""):
    return list(dict.fromkeys(sep.join(q) for q in sequences(ws, ns, far)))


def letter_runs(ns, far=()):
    """Long runs of vowels and of consonants, of at most two things, inside words."""
    v = runs(["a", "i", "u", "o", "ia", "ua", "ai", "au", "a'", "ia'"], ns, far)
    c = runs(["l", "n", "m", "r", "t", "s", "st", "tr", "d", "z", "mr", "x"], ns, far)
    out = [f.format(r) for r in v for f in ("spa{}", "{}sta", "ast{}mo", "{}a'amla", "bla{}na", "ka{}lysta")]
    out += [f.format(r) for r in c for f in ("a{}a'i", "{}ata", "ka{}a", "laty{}a'o")]
    return list(dict.fromkeys(out))


# ---------------------------------------------------------------------- tanru

# components of every kind: gismu with long, short and no rafsi, cmavo, zi'evla,
# raw rafsi of every shape, shortened brivla
TANRU = ["klama", "mlatu", "bangu", "tavla", "gugde", "fi'u", "zdani", "spageti", "uinmo", "spa", "gerku", "ismu", "tcana",
         "ka'u", "latm-", "spaget-", "klingon-", "-lat-", "-bla-", "-ku'i-", "-mai-", "-bang-", "-gimz-", "-tam-",
         "-iandi-", "-bangu-", "mintu", "cmana", "tadni", "prenu", "-toi-", "gimzu", "xirma"]
TANRU3 = ["klama", "mlatu", "bangu", "gugde", "spageti", "uinmo", "ismu", "spaget-", "klingon-", "-tos-", "-bla-",
          "-ku'i-", "-mai-", "-tam-"]
TANRU4 = ["klama", "bangu", "gugde", "spageti", "ismu", "klingon-", "-tos-", "-bla-", "-mai-", "pastu", "mabru"]
TANRU5 = ["bangu", "spageti", "-tos-", "-bla-", "-mai-", "mabru"]
TANRU6 = ["bangu", "-tos-", "-mai-", "mabru"]
TANRU_EXP = ["klama", "bangu", "spageti", "ismu", "-tos-", "-bla-", "-mai-", "-a-", "-ia-", "-a'u-", "-e'e-", "-u'u-",
             "-ku-", "-fa'u'u-", "-ia'u-", "-ai-", "-i-", "lo'i'a", "-uai-", "-ke'e'e-"]
TANRU_EXP3 = ["klama", "bangu", "spageti", "-lat-", "-bla-", "-mai-", "-a-", "-ia-", "-a'u-", "-ku-", "-fa'u'u-", "-i-"]
TANRU_EXP4 = ["klama", "-lat-", "-mai-", "-a-", "-ia-", "-ku-"]
TANRU_EXP5 = ["-lat-", "-mai-", "-a-", "-ia-", "-ku-", "-bla-"]


def tanru(ws, lo, hi):
    return ["|".join(t) for n in range(lo, hi + 1) for t in itertools.product(ws, repeat=n)]


# words that are a zi'evla, or a gismu, under some settings only (every way this can happen is here)
DEPENDENT = ["mairbla", "fu'irmlatu", "voirli'u", "mairgimzu", "mlatugimzu", "gimzufu'i", "kerlgimzu", "gimzu"]


Y_PARTS = ["a", "ta", "t", "mai", "ai", "ia", "bla", "blat", "tat", "ta'o", "a'o", "i'ia", "spageti", "spaget", "mlat", "latna",
           "alk", "ki'orl", "uot", "blablat"]
Y_JOINS = ["y", "'y", "y'", "'y'"]
Y_ENDS = ["a", "kla", "mai", "ta", "ia", "t", "spageti", "blat", "mlatu", "a'o", "asna", "laa"]


def y_groups(n, parts, ends):
    """n parts joined with any of the four ways to write a y"""
    out = {}
    for ps in itertools.product(parts, repeat=n - 1):
        for js in itertools.product(Y_JOINS, repeat=n - 1):
            head = "".join(p + j for p, j in zip(ps, js))
            out.update((head + e, 0) for e in ends)
    return list(out)


# zi'evla without their last vowel, by how they begin: a glide, a vowel, a cluster, a consonant
SHORTS = ["iand-", "uinm-", "blai-", "asn-", "iarb-", "alk-", "ost-", "ki'orl-"]


def dependent_tanru():
    out = {}
    for w in DEPENDENT:
        for v in (w, w[:-1] + "-", "-" + w + "-"):
            for p in ("klama", "-mai-", "-tos-", "ismu", "-bla-", v):
                out.update(dict.fromkeys((v + "|" + p, p + "|" + v, "mlatu|" + v + "|" + p)))
    for w in SHORTS:
        for v in (w, "-" + w):
            for p in ("klama", "-mai-", "-tos-", "ismu", "-bla-", "spageti", v):
                out.update(dict.fromkeys((v + "|" + p, p + "|" + v, "mlatu|" + v + "|" + p, "mlatu|" + p + "|" + v)))
    return list(out)


def dashed_tanru():
    """every number of dashes up to 3 before, in and after a component"""
    out = {}
    for b in ("mla", "cid", "mai", "klingon", "spageti", "klama", "broda", "a", "t", "", "tr"):
        for i in range(4):
            for j in range(4):
                v = "-" * i + b + "-" * j
                out.update(dict.fromkeys((v + "|klama", "klama|" + v, v + "|" + v)))
                if len(b) > 2 and i < 2 and j < 2:
                    v = "-" * i + b[:2] + "-" + b[2:] + "-" * j
                    out.update(dict.fromkeys((v + "|klama", "klama|" + v)))
    return list(out)


def dictionary(*kinds):
    """the words of jbovlaste, by the kind listed for them"""
    with open(os.path.join(VERIF, "model", "lists", "jvs_words.json"), encoding="utf-8") as f:
        d = json.load(f)
    return list(dict.fromkeys(normalise(w) for k in kinds or d for w in d[k]))


def zihevla_tanru(partners=("klama",)):
    return [t for w in dictionary("ZIhEVLA") for p in partners for t in (w + "|" + p, p + "|" + w)]


def zihevla_lujvo():
    """every zi'evla of the dictionary as a part of an extended lujvo"""
    return [f for w in dictionary("ZIhEVLA") for f in (w + "'ymlatu", w[:-1] + "ybla", "laty" + w if w[0] not in "aeiou" else
                                                       "laty'" + w, "mai'y" + ("'" if w[0] in "aeiou" else "") + w)]
