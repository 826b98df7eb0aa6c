"""
Reference model of reading a lujvo back: from the pieces of an analysed word to
its components, its indices and its score.
"""

from jvozba import RAFSI, lujvo_score
from lojban import CSET, VSET, analyse, shape

HYPHENS = frozenset(("r", "n", "y", "'y", "y'", "'y'"))

_BY_RAFSI = {}
for _k, _v in RAFSI.items():
    for _r in _v:
        _BY_RAFSI.setdefault(_r, _k)


def selrafsi(r):
    """The one dictionary word that has the rafsi r (a gismu has its first four
    letters as a rafsi, except that brod belongs to broda alone), or None."""
    if len(r) == 4 and "'" not in r and r != "brod":
        for v in "aeiou":
            if r + v in RAFSI:
                return r + v
    return _BY_RAFSI.get(r)


def is_brivla(w, y, mz):
    r = analyse(w, (y, False, 0, False, mz))
    return r is not None and r[0] != "CMEVLA"


def veljvo(pieces, st):
    """Components of a word with these pieces: the dictionary word where the
    rafsi has one, else the full word, 'word-' or '-rafsi-'."""
    y, mz = st[0], st[4]
    out = []
    for i, p in enumerate(pieces):
        if p in HYPHENS:
            continue
        s = selrafsi(p)
        if s is None:
            if i < len(pieces) - 2 and pieces[i + 1][0] == "y" and is_brivla(p + "a", y, mz):
                s = p + "-"
            elif is_brivla(p, y, mz):
                s = p
            elif i == len(pieces) - 1 and is_brivla(p + "a", y, mz):
                s = p + "-"
            else:
                s = "-" + p + "-"
        out.append(s)
    return out


def indices(pieces):
    out, k = [], 0
    for p in pieces:
        if p not in HYPHENS:
            out.append((k, k + len(p)))
        k += len(p)
    return out


def read(word, st):
    """(type, pieces, veljvo, score, indices), veljvo and score None unless the
    word is a lujvo; or None if it is not a word."""
    r = analyse(word, st)
    if r is None:
        return None
    t, pieces = r
    if t in ("GISMU", "ZIhEVLA"):
        return t, pieces, None, None, indices(pieces)
    return t, pieces, veljvo(pieces, st), lujvo_score(pieces), indices(pieces)
