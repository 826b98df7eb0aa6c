"""P21: the interactive prompts of the Python modules (python -m latkerlo_jvotci.jvozba / .katna)."""

import contextlib
import io
import itertools
import re
import runpy
import sys
import warnings

import core
import spaces as S
from core import THOROUGH
from purity import child

CK = None

# what is typed -> (part of the settings, its value); settings are (cmevla, y, exp, consonants, glides, mz)
COMMANDS = dict(cmevla=(0, True), brivla=(0, False), standard=(1, "STANDARD"), allow=(1, "ALLOW_Y"), force=(1, "FORCE_Y"),
                more=(2, True), less=(2, False), cluster=(3, "CLUSTER"), glide=(4, True), glidnt=(4, False), mz=(5, True),
                mznt=(5, False))
COMMANDS["2c"] = (3, "TWO_CONSONANTS")
COMMANDS["1c"] = (3, "ONE_CONSONANT")
DEFAULT = (False, "STANDARD", False, "CLUSTER", False, False)
STATES = list(itertools.product((False, True), ("STANDARD", "ALLOW_Y", "FORCE_Y"), (False, True),
                                ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), (False, True), (False, True)))
PROMPT = re.compile(r"\(([TF]?[SAF][TF][CTO][TF][TF])\)[^\n:]*: ?")


def name(part, value):
    return next(k for k, v in COMMANDS.items() if v == (part, value))


def go_to(st):
    """the line that leads to a settings from any other"""
    return "/" + " ".join(name(i, v) for i, v in enumerate(st))


def step(st, line, module):
    """settings after a line of commands"""
    st = list(st)
    for w in line[1:].lower().split():
        if w in COMMANDS and not (module == "katna" and COMMANDS[w][0] == 0):
            st[COMMANDS[w][0]] = COMMANDS[w][1]
    return tuple(st)


def initials(st, module):
    return "".join(str(v)[0] for v in st[module == "katna":])


def answer(line, st, module):
    """what the library says, as the prompt shows it"""
    kw = dict(y_hyphens=st[1], exp_rafsi_shapes=st[2], consonants=st[3], glides=st[4], allow_mz=st[5])
    out = []
    J = core._J
    if module == "jvozba":
        try:
            out.append(str(J.get_lujvo_with_analytics(line, generate_cmevla=st[0], **kw)))
        except Exception as e:
            out.append(str(e))
    else:
        try:
            out.append(str(J.analyse_brivla(line, **kw)))
            out.append(str(J.get_veljvo(line, **kw)))
        except Exception as e:
            out.append("Error: " + str(e))
    return "\n".join(out)


def model(lines, module):
    st, out = DEFAULT, []
    for x in lines:
        if x == "":
            return out + [(initials(st, module), "")]
        if x[0] == "/":
            out.append((initials(st, module), ""))
            st = step(st, x, module)
        else:
            out.append((initials(st, module), answer(x, st, module)))
    raise AssertionError("a session ends with an empty line")


def real(lines, module):
    """one session of the real prompt, in the forked process this runs in"""
    out = io.StringIO()
    stdin, sys.stdin = sys.stdin, io.StringIO("".join(x + "\n" for x in lines) + "klama mlatu\n\n")
    end = "ended"
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            runpy.run_module("latkerlo_jvotci." + module, run_name="__main__")
        except SystemExit as e:
            end = "ended" if not e.code else f"exit {e.code}"
        except Exception as e:
            end = "died of " + type(e).__name__
    rest = sys.stdin.read().count("\n")
    sys.stdin = stdin
    got = PROMPT.split(out.getvalue())
    pairs = [(got[i], got[i + 1].strip("\n")) for i in range(1, len(got), 2)]
    return pairs, end if rest or end != "ended" else "went on after an empty line"


def p21(ck):
    """The Python prompts answer with the settings typed so far."""
    def chunk_for(module):
        def chunk(t, items):
            for h, (pairs, end) in zip(items, child(lambda: [real(h, module) for h in items], 110)):
                want = model(h, module)
                t.transitions += len(h)
                t.traces += len(want)
                for k, w in enumerate(want):
                    if k >= len(pairs) or pairs[k] != w:
                        t.bad("py", module, w[0], " ; ".join(h[:k + 1]), w, pairs[k] if k < len(pairs) else end)
                        break
                else:
                    if end != "ended" or len(pairs) != len(want):
                        t.bad("py", module, "", " ; ".join(h), "the end of the session", f"{end}, {len(pairs)} prompts")
                t.outcome(end)
            t.states += len(items)
            t.sample.append(" ; ".join(items[0]))
        return chunk
    words = list(COMMANDS)
    probe = dict(jvozba=["traji mlatu", "-tam- zabna", "-nei- -nei-", "mlatu -ia-", "klama"],
                 katna=["rai'ymlatu", "gimzu", "nei'ynei", "latyia", "mlatu", "latykla", "klamas", "x"])
    odd = ["/", "/x", "/allow x more", "/ALLOW", "/  mz   force ", "//", " ", " /mz", "/mz glide 1c cmevla less"]
    for mod in ("jvozba", "katna"):
        ps = probe[mod]
        # every command in every settings, with every probe before and after
        ck.sweep(f"{mod}: every command word in each of the 144 settings",
                 [[go_to(st), *ps, "/" + w, *ps, ""] for st in STATES for w in words], chunk_for(mod))
        lines = ["/" + w for w in words] + odd + ps[:5]
        ck.sweep(f"{mod}: all histories of at most {4 if THOROUGH else 3} of {len(lines)} lines", [
            [*h, ps[0], ""] for n in range(4 if THOROUGH else 3) for h in itertools.product(lines, repeat=n)] + [
                [*h, ps[-1], ""] for h in itertools.product(lines[:len(words)] + ps[:2], repeat=4 if THOROUGH else 3)], chunk_for(mod))
        ck.sweep(f"{mod}: all pairs of command words on one line", [
            [f"/{a} {b}", *ps, f"/{b}", ps[0], ""] for a in words + ["x"] for b in words + ["x"]], chunk_for(mod))
        ck.sweep(f"{mod}: 12 or 60 equal lines with one different, alternating lines", [
            [*h, *ps, ""] for h in S.sequences(lines, (), (12, 60))], chunk_for(mod))
    many = [w.replace("|", " ") for w in S.tanru(S.TANRU, 1, 2)] + [w.replace("|", " ") for w in S.dashed_tanru() if w.strip()] + \
        S.runs(S.LONG_TANRU, (), (7, 24), " ") + \
        ["-zmz- klama", "-tamz- klama", "-ktk- klama", "klam\u00e9 klama", "' '", "- -", "klama  mlatu", "\tklama mlatu"]
    many = [w for w in many if w and w[0] != "/"]
    sets = STATES if THOROUGH else [DEFAULT, STATES[-1], (True, "ALLOW_Y", True, "ONE_CONSONANT", False, False)]
    ck.sweep("jvozba: tanru of at most 2 components of 33, long and odd ones",
             [[go_to(st), *many[i:i + 30], ""] for st in sets for i in range(0, len(many), 30)], chunk_for("jvozba"))
    ws = core.words(S.PIECES, 1, 2) + S.chars("ai'yr.-K ", 1, 3) + S.runs(S.LONG_PIECES, (), (8, 33))
    ws = [w for w in ws if w.strip("\n")]
    ck.sweep("katna: words of at most 2 pieces of 30, long ones, and all strings of at most 3 characters",
             [[go_to(st), *ws[i:i + 30], ""] for st in sets for i in range(0, len(ws), 30)], chunk_for("katna"))
    ck.assumptions.append("the prompts read lines from a stand-in for the terminal; a session ends with an empty line")


p21.opts = dict(impls=())
