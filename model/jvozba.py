"""
Reference model of lujvo making: the best lujvo of a tanru is the lowest-scoring
word among *all* ways of choosing a rafsi for each component and a hyphen for
each junction that the reference analyser (lojban.analyse) reads back as exactly
that sequence of pieces.  Nothing here is incremental: candidates are built
whole, sorted by score, and filtered.
"""

import os
from heapq import heapify, heappop, heappush

from lojban import CSET, VSET, analyse, cll_rafsi_ok, normalise, shape, starts_with_glide, tokens, zihevla_or_rafsi

HERE = os.path.dirname(os.path.abspath(__file__))


def load_rafsi(path=os.path.join(HERE, "rafsi_list.txt")):
    d = {}
    with open(path, encoding="utf-8") as f:
        for line in f:
            k, *v = line.split()
            d[k] = v
    return d


RAFSI = load_rafsi()

TARMI = {"CVCCV": 1, "CVCC": 2, "CCVCV": 3, "CCVC": 4, "CVC": 5, "CV'V": 6, "CCV": 7, "CVV": 8}
LOJBAN = frozenset("aeioubcdfgjklmnprstvxz'")


def piece_score(p):
    """CLL 4.10 score of one piece (rafsi or hyphen), with this tool's scale:
    1000 L - 500 A + 100 H - 10 R - V, where an apostrophe is a full letter
    and H counts y-hyphens."""
    return 1000 * len(p) + 100 * p.count("y") - 10 * TARMI.get(shape(p), 0) - sum(c in VSET for c in p)


def tiebreak(prefix):
    return int(shape(prefix[:3]) == "CVV" and shape(prefix[3:]) in ("CCV", "CCVC", "CVC", "CVCC"))


def lujvo_score(pieces):
    total, prefix = 0, ""
    for i, p in enumerate(pieces):
        prefix += p
        total += piece_score(p)
        if i + 1 == len(pieces) or "y" not in pieces[i + 1]:
            total -= tiebreak(prefix)
    return total


class Bad(Exception):
    """The tanru has a component that can have no rafsi at all."""


def forms(word, st, last, cm):
    """All (rafsi, kind) of one tanru component; kind 'long' (needs 'y),
    'short' (needs y) or 'cll' / 'exp'."""
    y, exp, cons, gl, mz = st
    word = normalise(word)
    base = (y, exp, 0, False, mz)
    out = []
    if word.endswith("-"):
        short = word[0] != "-"
        body = word.strip("-")
        if not body or not set(body) <= LOJBAN or body[-1] == "'":
            raise Bad("characters")
        if short:
            r = analyse(body + "a", base)
            if r is None or r[0] not in ("GISMU", "ZIhEVLA"):
                raise Bad("not short brivla")
            if len(body) >= 6 and body[-1] in CSET and tokens(body, y, mz) is not None:
                raise Bad("falls apart")
            return [(body, "short")]
        if shape(body):
            if not cll_rafsi_ok(body, mz):
                raise Bad("cluster")
            return [(body, "cll")]
        if len(body) == 1 and body in CSET:
            raise Bad("a hyphen letter")
        r = analyse(body, base)
        if r is not None:
            if r[0] != "ZIhEVLA":
                raise Bad("shape")
            return [(body, "long")]
        if exp and zihevla_or_rafsi(body, False, y, exp, mz) == "R":
            return [(body, "exp")]
        raise Bad("shape")
    if not word or not set(word) <= LOJBAN:
        raise Bad("characters")
    for r in RAFSI.get(word, ()):
        if shape(r):
            out.append((r, "cll"))
        elif exp:
            out.append((r, "exp"))
    a = analyse(word, base)
    if a and a[0] == "GISMU":
        out.append((word[:-1], "short"))
        out.append((word, "cll"))
    elif a and a[0] == "ZIhEVLA":
        out.append((word, "long"))
    return out


def joins(p, kind, first, y):
    """Hyphens that could follow rafsi p without changing what it is."""
    sh = shape(p)
    if kind == "short" or sh in ("CVCC", "CCVC"):
        return ("y",)
    if kind == "long" or sh in ("CVCCV", "CCVCV"):
        return ("'y",)
    if kind == "exp":
        return ("'y",)
    if sh == "CVC":
        return ("", "y")
    if sh == "CCV":
        return ("", "'y")
    return ("", "'y", "r", "n") if first else ("", "'y")


def candidates(words, st, cm):
    """Every (score, pieces) that spells the tanru, unfiltered by validity, the lowest score first.

    The choices form a layered graph (a rafsi of each component, joined by a hyphen);
    its paths are listed in the order of their scores, with the exact cost of the
    cheapest way on as the bound (the tiebreak takes off one point at most)."""
    y = st[0]
    n = len(words)
    fl = [forms(w, st, i == n - 1, cm) for i, w in enumerate(words)]
    fl[-1] = [(q, k) for q, k in fl[-1] if cm == (q[-1] in CSET) and (cm or k != "short")]

    def hyphens(p, kind, first, q):
        o = []
        for h in joins(p, kind, first, y):
            if q[0] in VSET and not starts_with_glide(q):
                if "y" not in h:
                    continue
                h += "'"
            elif q[0] in VSET and "y" not in h:
                continue
            o.append(h)
        return o
    # rest[i][j]: the least that can follow form j of component i; steps: the ways on
    rest = [None] * n
    steps = [None] * n
    rest[-1] = [0] * len(fl[-1])
    for i in range(n - 2, -1, -1):
        rest[i], steps[i] = [], []
        for p, kind in fl[i]:
            ways = []
            for j, (q, _) in enumerate(fl[i + 1]):
                if rest[i + 1][j] is not None:
                    ways += [(piece_score(h) + piece_score(q), j, h) for h in hyphens(p, kind, i == 0, q)]
            steps[i].append(ways)
            rest[i].append(min((c + rest[i + 1][j] for c, j, _ in ways), default=None))
    heap = []
    for j, (p, _) in enumerate(fl[0]):
        if rest[0][j] is not None:
            c = piece_score(p)
            heap.append((c + rest[0][j] - 1, 0, c, 0, j, (p,)))
    heapify(heap)
    while heap:
        bound, whole, cost, i, j, pieces = heappop(heap)
        if whole:
            yield bound, pieces
            continue
        if i == n - 1:
            heappush(heap, (lujvo_score(pieces), 1, cost, i, j, pieces))
            continue
        for c, j2, h in steps[i][j]:
            q = fl[i + 1][j2][0]
            heappush(heap, (cost + c + rest[i + 1][j2] - 1, 0, cost + c, i + 1, j2, pieces + ((h, q) if h else (q,))))


def readable(pieces, st, cm):
    r = analyse("".join(pieces), st)
    return r is not None and r[1] == pieces and (r[0] == "CMEVLA") == cm and (cm or r[0] in ("LUJVO", "EXTENDED_LUJVO"))


def outside_joining_rules(pieces, st, cm):
    """Words the analyser accepts although the y_hyphens setting does not make
    their hyphens: a cmevla that starts with CVV/CV'V + 'y under STANDARD or with
    CVV/CV'V + r or n (only brivla get these), and a brivla that starts with CVV/CV'V + CCV'y under FORCE_Y (which always puts a
    y-hyphen after the first)."""
    if len(pieces) < 3 or shape(pieces[0]) not in ("CVV", "CV'V"):
        return False
    if cm:
        return st[0] == 0 and pieces[1] == "'y" or pieces[1] in ("r", "n")
    return st[0] == 2 and shape(pieces[1]) == "CCV" and pieces[2] in ("'y", "'y'")


def best(words, st, cm):
    """(score, set of equally good piece tuples) or None if there is no lujvo.
    Raises Bad when a component is no rafsi source."""
    if len(words) < 2:
        return None
    found, top = set(), None
    for sc, pieces in candidates(words, st, cm):
        if top is not None and sc > top:
            break
        if readable(pieces, st, cm) and not outside_joining_rules(pieces, st, cm):
            top = sc
            found.add(pieces)
    return (top, found) if found else None
