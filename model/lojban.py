"""
Reference model of Lojban brivla morphology as this tool documents it
(CLL chapters 3 and 4, README "Advanced Options", differences.md).

It is written from those rules as predicates over a *decomposition* (rafsi and
hyphens), not by regenerating a lujvo and comparing strings as the code under
test does, and shares no code or table with /repo.  The checks bind it to the
code by running both on every word of an enumerated space.

A setting is a tuple (y, exp, cons, gl, mz):
  y    0 STANDARD, 1 ALLOW_Y, 2 FORCE_Y
  exp  experimental rafsi shapes allowed
  cons 0 CLUSTER, 1 TWO_CONSONANTS, 2 ONE_CONSONANT
  gl   glides count as consonants
  mz   "mz" is a permissible cluster
"""

import re
from functools import lru_cache

CACHE = 1 << 20

V = "aeiou"
C = "bcdfgjklmnprstvxz"
VSET, CSET = frozenset(V), frozenset(C)

# --------------------------------------------------------------- phonotactics

VOICED = frozenset("bdgjvz")
UNVOICED = frozenset("cfkpstx")
SONORANT = frozenset("lmnr")
SIBILANT = frozenset("cjsz")


def pair_ok(a, b, mz=False):
    """CLL 3.6: permissible consonant pairs."""
    if a == b:
        return False
    if (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED):
        return False
    if a in SIBILANT and b in SIBILANT:
        return False
    if a + b in ("cx", "kx", "xc", "xk"):
        return False
    if a + b == "mz":
        return mz
    return True


# CLL 3.7: permissible initial pairs, by second consonant
_INITIAL_BY_SECOND = {
    "l": "bcfgkmpsvx", "r": "bcdfgkmpstvx", "n": "cs", "m": "csjz",
    "p": "cs", "t": "cs", "k": "cs", "f": "cs",
    "b": "jz", "d": "jz", "g": "jz", "v": "jz",
    "c": "t", "s": "t", "j": "d", "z": "d",
}
INITIAL = frozenset(a + b for b, s in _INITIAL_BY_SECOND.items() for a in s)
BANNED = frozenset(("ndj", "ndz", "ntc", "nts"))
DIPHTHONGS = ("ai", "ei", "oi", "au")
NUCLEI = tuple(V) + DIPHTHONGS
GLIDE_SYLLABLES = frozenset(g + n for g in "iu" for n in NUCLEI)


@lru_cache(maxsize=CACHE)
def syllables(run):
    """Split a run of vowels into syllables, or None.

    A run is one nucleus (or glide syllable) followed by glide syllables; an
    i-glide may not follow ai/ei/oi and a u-glide may not follow au."""
    out = []
    while True:
        n = len(run)
        if n > 3 and run[-3:] in GLIDE_SYLLABLES:
            k = 3
        elif n > 2 and run[-2:] in GLIDE_SYLLABLES:
            k = 2
        elif run in NUCLEI or run in GLIDE_SYLLABLES:
            out.append(run)
            return tuple(reversed(out))
        else:
            return None
        syl, run = run[-k:], run[:-k]
        if run[-2:] in DIPHTHONGS and run[-1] == syl[0]:
            return None
        out.append(syl)


def starts_with_glide(s):
    return len(s) > 1 and s[0] in "iu" and s[1] in VSET


@lru_cache(maxsize=CACHE)
def shape(s):
    """Shape of a CLL rafsi as a string of C V ', or None if it is not one."""
    t = "".join("C" if c in CSET else "V" if c in VSET else c for c in s)
    return t if t in ("CVCCV", "CCVCV", "CVCC", "CCVC", "CVC", "CCV", "CVV", "CV'V") else None


def is_gismu(s, mz=False):
    t = shape(s)
    return (t == "CVCCV" and pair_ok(s[2], s[3], mz)) or (t == "CCVCV" and s[:2] in INITIAL)


def cll_rafsi_ok(s, mz=False):
    """Is s a well-formed CLL rafsi (any V V accepted in CVV)?"""
    t = shape(s)
    if t in ("CVCCV", "CVCC"):
        return pair_ok(s[2], s[3], mz)
    if t in ("CCVCV", "CCVC", "CCV"):
        return s[:2] in INITIAL
    return t is not None


# ------------------------------------------------------------------ CLL lujvo

@lru_cache(maxsize=CACHE)
def tokens(s, y, mz):
    """The unique split of s into CLL rafsi and hyphens, or None.

    (Nothing is said here about whether each hyphen is allowed.)"""
    out, i, n = [], 0, len(s)
    prev = None                                   # shape of the rafsi just read
    while i < n:
        c = s[i]
        if prev:
            if c == "y":
                out.append("y")
                i += 1
                prev = None
                continue
            if prev in ("CVV", "CV'V") and y != 2 and c in "rn" and i + 1 < n and s[i + 1] in CSET \
                    and ((c == "r") != (s[i + 1] == "r")) and (c == "r" or s[i + 1] == "r"):
                out.append(c)
                i += 1
                prev = None
                continue
            if y != 0 and s.startswith("'y", i):
                out.append("'y")
                i += 2
                prev = None
                continue
        t = None
        if shape(s[i:]) in ("CVCCV", "CCVCV"):
            t = s[i:]
            if not cll_rafsi_ok(t, mz):
                return None
        for k in (4, 3):
            if t:
                break
            cand = s[i:i + k]
            sh = shape(cand)
            if sh is None:
                continue
            if sh == "CV'V" or sh == "CCV" or sh == "CVC":
                t = cand
            elif sh == "CVV" and cand[1:] in DIPHTHONGS:
                t = cand
            elif sh in ("CVCC", "CCVC"):
                if not cll_rafsi_ok(cand, mz):
                    return None
                if i + 4 == n or s[i + 4] == "y":
                    t = cand
        if t is None:
            return None
        sh = shape(t)
        if sh == "CCV" and not cll_rafsi_ok(t, mz):
            return None
        if sh == "CVC" and s[i + 2:i + 5] in BANNED:
            return None
        out.append(t)
        i += len(t)
        prev = sh
    return tuple(out)


@lru_cache(maxsize=CACHE)
def cll_lujvo(s, y=0, cons=0, mz=False):
    """Pieces of s if it is a lujvo (or lujvo-shaped cmevla) under the CLL
    rules -- with 'y in place of r/n if y is FORCE_Y -- else None."""
    tk = tokens(s, y, mz)
    if not tk or len(tk[-1]) < 3:
        return None
    raf, hyp = [], []                       # hyp[i]: hyphen between raf[i] and raf[i+1]
    for t in tk:
        if len(t) > 2:
            if raf and len(hyp) < len(raf):
                hyp.append("")
            raf.append(t)
        else:
            if len(hyp) >= len(raf):
                return None                 # two hyphens in a row
            hyp.append(t)
    n = len(raf)
    if n < 2:
        return None
    sh = [shape(r) for r in raf]
    if not all(cll_rafsi_ok(r, mz) for r in raf):
        return None
    cmevla = s[-1] in CSET
    if sh[-1] in ("CVCC", "CCVC", "CVC") and not cmevla:
        return None
    for i in range(n - 1):
        p, q, h, ps, qs = raf[i], raf[i + 1], hyp[i], sh[i], sh[i + 1]
        if ps in ("CVCC", "CCVC"):
            ok = h == "y"
        elif ps == "CCV":
            ok = h == ""
        elif ps == "CVC":
            clash = q[0] in CSET and (not pair_ok(p[2], q[0], mz) or p[2] + q[:2] in BANNED)
            if h == "":
                ok = not clash and not (i == 0 and not cmevla and tosmabru(raf, hyp, sh))
            elif h == "y":
                ok = clash or (i == 0 and not cmevla and tosmabru(raf, ("",) + tuple(hyp[1:]), sh))
            else:
                ok = False
        else:                                # CVV, CV'V
            if i == 0 and not cmevla:
                bare_ok = n == 2 and qs == "CCV"
                if y == 2:
                    ok = h == ("" if bare_ok else "'y")
                else:
                    ok = h in ("r", "n") if not bare_ok else h in ("", "r", "n")
            elif y == 2:
                ok = h == ""
            else:
                # an unneeded r/n is tolerated
                ok = h == "" or (h in ("r", "n") and (i > 0 or qs in ("CCVCV", "CCVC", "CCV")))
        if not ok:
            return None
    if cons == 0 and not cmevla:
        if all(t in ("CVV", "CV'V") for t in sh) and not any(h in ("r", "n") for h in hyp):
            return None
    return tk


def tosmabru(raf, hyp, sh):
    """Would raf/hyp, which starts with CVC and no hyphen, fall apart into a
    CV cmavo and a word starting with that rafsi's final consonant?"""
    for i in range(len(raf) - 1):
        if hyp[i] or raf[i][2] + raf[i + 1][0] not in INITIAL:
            return False
        if sh[i + 1] == "CVCCV":
            return raf[i + 1][2:4] in INITIAL
        if sh[i + 1] != "CVC":
            return False
        if i + 1 < len(hyp) and hyp[i + 1] == "y":
            return True
    return False


@lru_cache(maxsize=CACHE)
def slinkuhi(s, y=0, mz=False):
    """Would a CV cmavo before s join onto it and make a lujvo?"""
    if s[0] in VSET:
        return False
    if cll_lujvo("to" + s, y, 0, mz):
        return True
    head, found, _ = s.partition("y")
    if not found or head[-1:] == "'" or s[-1] in CSET or head == "":
        return False
    return tokens(head, y, mz) is None and tokens("to" + head, y, mz) is not None


# -------------------------------------------------------------------- zi'evla

LIQUID_INITIAL = frozenset(p for p in INITIAL if p[1] in "lr" and p[0] not in "cs") - {"xl", "xr"}


def onset_ok(cl):
    """May this consonant cluster start a zi'evla (or a syllable of one)?"""
    if len(cl) == 1:
        return True
    if len(cl) == 2:
        return cl in INITIAL
    if len(cl) == 3:
        return cl[:2] in INITIAL and cl[1:] in LIQUID_INITIAL
    return False


@lru_cache(maxsize=CACHE)
def middle_ok(cl):
    """May this cluster stand inside a zi'evla?  (Pairs are checked elsewhere.)

    = optional coda consonant + any number of (consonant + syllabic sonorant)
      + onset."""
    n = len(cl)
    if n < 3:
        return True
    if n == 3:
        return cl[1] in SONORANT or cl[1:] in INITIAL
    for onset in (1, 2, 3):
        if onset > n or not onset_ok(cl[-onset:]):
            continue
        rest = cl[:-onset]
        for coda in (0, 1):
            mid = rest[coda:]
            if len(rest) >= coda and len(mid) % 2 == 0 and all(c in SONORANT for c in mid[1::2]):
                # a syllabic sonorant cannot be one that belongs to the onset
                if not (mid and mid[-1] + cl[-onset] in INITIAL):
                    return True
    return False


_RUNS = re.compile(r"[aeiou]+|[bcdfgjklmnprstvxz]+|.", re.S)


@lru_cache(maxsize=CACHE)
def zihevla_or_rafsi(s, require_zihevla, y, exp, mz):
    """'Z' (contains a cluster: zi'evla), 'R' (rafsi shape) or None."""
    if require_zihevla and len(s) < 4:
        return None
    pos, nsyl, ncons, cluster, last_cons, compound = 0, 0, 0, None, 0, False
    runs = _RUNS.findall(s)
    for k, run in enumerate(runs):
        if run[0] in CSET:
            if len(run) >= 2 and cluster is None:
                if ncons > 1:
                    return None
                cluster = pos
            for a, b in zip(run, run[1:]):
                if not pair_ok(a, b, mz):
                    return None
            for i in range(len(run) - 2):
                if run[i:i + 3] in BANNED:
                    return None
            if pos == 0:
                if not onset_ok(run):
                    return None
            elif not middle_ok(run):
                return None
            last_cons = pos
            ncons += len(run)
        elif run[0] in VSET:
            syl = syllables(run)
            if syl is None:
                return None
            if pos and syl[0] in GLIDE_SYLLABLES:
                return None
            compound = compound or len(syl) > 1
            nsyl += len(syl)
        elif run == "'":
            if k == 0 or runs[k - 1][0] not in VSET or k + 1 == len(runs) or runs[k + 1][0] not in VSET:
                return None
        else:
            return None
        pos += len(run)
    if nsyl < 2 and (require_zihevla or not exp):
        return None
    if nsyl > 2 and cluster:
        for i in range(1, cluster + 1):
            if i == cluster or s[i] in CSET or starts_with_glide(s[i:]):
                if brivla(s[i:], (y, False, 0, False, mz)):
                    return None              # cmavo + brivla
    if cluster is None:
        if require_zihevla or (s[0] not in CSET and not exp) or ncons > 1 or last_cons > 0:
            return None
        return None if compound else "R"     # several cmavo in a row
    if not (s[0] in VSET and s[1] in CSET) and slinkuhi(s, y, mz):
        return None
    return "Z"


# ------------------------------------------------------------- whole analysis

def normalise(w):
    if w[:1] == ".":
        w = w[1:]
    return w.lower().replace("h", "'").replace(",", "")


def brivla(w, st):
    r = analyse(w, st)
    return r is not None and r[0] != "CMEVLA"


def analyse(w, st):
    """(type, pieces) of an already normalised word, or None."""
    y, exp, cons, gl, mz = st
    if not w:
        return None
    if w[-1] in CSET:
        cm = True
        if is_gismu(w + "a", mz):
            return None
    elif w[-1] in VSET:
        cm = False
        if is_gismu(w, mz):
            return "GISMU", (w,)
    else:
        return None
    if shape(w[:3]) == "CCV" and w[:2] in INITIAL and w[3:5] == "'y":
        return None                           # CCV'y... is always a slinku'i
    tk = cll_lujvo(w, y, cons, mz)
    if tk:
        return ("CMEVLA" if cm else "LUJVO"), tk
    if w[0] not in VSET and w[0] not in CSET:
        return None
    if "y" not in w:
        if not cm and zihevla_or_rafsi(w, True, y, exp, mz):
            return "ZIhEVLA", (w,)
        return None
    return extended(w, y, exp, cons, gl, mz, cm)


def falls_off(kept, before_apostrophe, y, mz):
    """Does the first y-part (a CLL rafsi string) fall apart into one or more
    cmavo (leading CV, CVV or CV'V) and a word starting with the rest?"""
    k = 4 if shape(kept[:4]) == "CV'V" else 3 if shape(kept[:3]) == "CVV" else 2
    if k == 2 and not (kept[0] in CSET and kept[1:2] and kept[1] in VSET):
        return False
    rest = kept[k:]
    if not rest:
        return False
    if cll_rafsi_ok(rest, mz) and not (shape(rest) == "CCV" and before_apostrophe):
        return True
    return cll_lujvo(rest, y, 0, mz) is not None or falls_off(rest, before_apostrophe, y, mz)


@lru_cache(maxsize=CACHE)
def _decomposes(word, y, mz):
    r = analyse(word, (y, False, 0, False, mz))
    return r is not None and r[0] == "LUJVO"


@lru_cache(maxsize=CACHE)
def extended(w, y, exp, cons, gl, mz, cm):
    raw = w.split("y")
    n = len(raw)
    # (text, apostrophe before, apostrophe after)
    parts = []
    for i, t in enumerate(raw):
        if not t:
            return None
        a0 = a1 = False
        if t[0] == "'":
            a0, t = True, t[1:]
            if not t:
                return None
        if t[-1] == "'" and shape(t) != "CVC":
            a1, t = True, t[:-1]
            if not t:
                return None
        parts.append((t, a0, a1))
    pieces = []
    cluster = False          # a consonant cluster (possibly across y) was seen
    ncons = 0
    cmavo_like = True        # no part after the first starts with a consonant or glide
    cons_break = False       # the part before ended in a consonant, then y
    carry = ""
    type_y1 = shape(raw[1])
    for i, (t, a0, a1) in enumerate(parts):
        last = i == n - 1
        hy = carry + ("y" if i else "") + ("'" if a0 else "")
        carry = "'" if a1 else ""
        if a0:
            run = re.match("[aeiou]*", t).group()
            if not run:
                return None
            syl = syllables(run)
            if syl is None or syl[0] in GLIDE_SYLLABLES:
                return None
        elif i and t[0] in VSET and not starts_with_glide(t):
            return None
        if hy:
            pieces.append(hy)
        if shape(t) == "CVC" and not a1:
            pieces.append(t)
            cons_break = True
            ncons += 2
            continue
        starts_cons = t[0] in CSET
        starts_glide = starts_with_glide(t + ("'" if a1 else ""))
        if i and (starts_cons or starts_glide):
            cmavo_like = False
        if cons_break and (starts_cons or (gl and starts_glide)):
            cluster = True
        cons_break = False

        # which kinds of part may this be?
        need_cluster, short, cll_possible = False, False, True
        if a1:
            if t[-1] not in VSET:
                return None
            if y == 0 and not cluster and not last and not parts[i + 1][1]:
                need_cluster = True
        elif not last or cm:
            if t[-1] in VSET:
                cll_possible = False
            short = need_cluster = True
        if a1 and last:
            return None
        full = t + "a" if short else t        # the zi'evla this part stands for

        toks = None
        if cll_possible:
            if not a1 and not is_gismu((t + "a")[-5:], mz) and _decomposes(t + "a", y, mz):
                return None                   # lujvo minus its last vowel
            toks = tokens(t, y, mz)
            if toks is not None:
                if len(toks) < 2 and not cll_rafsi_ok(toks[0], mz):
                    return None
                pieces.extend(toks)
            for r in (toks if toks is not None else (full,)):
                sh = shape(r)
                if sh in ("CVV", "CV'V"):
                    ncons += 1
                elif sh or r in ("r", "n"):
                    ncons += 2
                    cluster = True
        if toks is not None:
            if shape(full) in ("CVV", "CV'V") and need_cluster and not cluster and not cm \
                    and (y == 0 or not (i == n - 2 and type_y1 in ("CVV", "CCV"))):
                return None
            if i == 0 and not cm and falls_off(t, a1, y, mz):
                return None
        else:
            z = zihevla_or_rafsi(full, need_cluster or not exp, y, exp, mz)
            if z is None:
                return None
            if z == "Z":
                if short and tokens(full, y, mz) is not None:
                    return None
                cluster = True
            if starts_cons or (gl and starts_with_glide(full)):
                ncons += 1
            pieces.append(t)
    if not cluster and not cm:
        if cons == 0 or ncons < 3 - cons or cmavo_like:
            return None
    if not cm and not (w[0] in VSET and (w[1] in CSET or w[1] == "y")) and slinkuhi(w, y, mz):
        return None
    return ("CMEVLA" if cm else "EXTENDED_LUJVO"), tuple(pieces)
