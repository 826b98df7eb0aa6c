#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 -B tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "py/latkerlo_jvotci/"
ALL_JVOZBA = [PY + "jvozba.py", PY + "tarmi.py", PY + "rafsi.py", "js/src/jvozba.ts", "js/docs/jvozba.js",
              "rs/src/jvozba.rs"]
ALL_KATNA = [PY + "katna.py", "js/src/katna.ts", "js/docs/katna.js", "rs/src/katna.rs"]
ALL_TOOLS = [PY + "tools.py", PY + "tarmi.py", PY + "data.py", "js/src/tools.ts", "js/docs/tools.js",
             "rs/src/tools.rs", "rs/src/tarmi.rs"]


def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]


P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                            why_tests_cant=why, anchors=dict(files=files, mechanism=mech)),
                  technique=technique, note=note))


TRUST = " Trusted: the explorer, the two batch bridges, CPython/node/rustc; inputs outside the listed alphabets and bounds are not covered."

prop("P01", "Every lujvo the tool makes is one the tool accepts",
     "Whenever get_lujvo (or get_lujvo_with_analytics) returns a word, analysing that word with the same settings "
     "accepts it: as a lujvo or extended lujvo with is_brivla true, or, when a cmevla was asked for, as a cmevla with "
     "is_brivla false. The accepted analysis has exactly as many rafsi as the tanru has components. This holds for "
     "every tanru, every combination of settings and each of the three implementations.",
     ["inputs", "configurations"],
     "for every tanru of at least two components (gismu, cmavo, zi'evla, raw rafsi -x-, shortened brivla x-), every one "
     "of the 144 settings, in Python, JavaScript and Rust",
     "The suite makes about 200 tanru into lujvo under a few settings and compares strings; whether generator and "
     "analyser agree on hyphens is a matter of every pairing of rafsi under every setting.",
     ALL_JVOZBA + ALL_TOOLS,
     m(("hyphen insertion when rafsi are combined", "combine / get_lujvo_from_list"),
       ("analysis of a whole word", "analyse_brivla"), ("tosmabru and slinku'i checks on both sides",
                                                        "combine, analyse_brivla, is_slinkuhi")),
     "explicit-state exploration of the real code: all tanru over a component alphabet x all settings, generator-analyser agreement as the invariant",
     "Exhaustive within the listed alphabets and lengths in all three implementations, rebuilt from the working tree; "
     "the oracle is the tool's own analyser (whose answers P05-P10 judge against the model)." + TRUST)

prop("P02", "Making a lujvo and taking it apart gives the tanru back",
     "The spans returned with a lujvo are ascending, cover the word except for single hyphens, and each is a rafsi of "
     "the component in its place; they equal the spans of the word's own analysis. Decomposing the lujvo returns the "
     "components in order, except that a raw rafsi comes back as the word it belongs to (if any), a shortened brivla "
     "with no dictionary entry comes back as 'x-', and of two gismu that share their first four letters the first is "
     "returned.",
     ["inputs", "configurations"],
     "for every tanru for which a lujvo is made, every combination of settings, all three implementations",
     "The suite checks some 100 fixed lujvo-veljvo pairs; losing or swapping a component depends on which rafsi were "
     "chosen, on which hyphens stand between them and on the settings.",
     ALL_JVOZBA + ALL_KATNA + [PY + "tools.py"],
     m(("index bookkeeping while joining", "combine"), ("splitting and looking up", "jvokaha, get_veljvo, get_rafsi_indices")),
     "explicit-state exploration of the real code: all tanru x settings, round trip generate-analyse-decompose checked on each",
     "Exhaustive within the listed alphabets and lengths; the round trip needs only the published rafsi list as its "
     "reference." + TRUST)

prop("P03", "The lujvo made is the best one, and there is an error iff none exists",
     "Among all words that join one rafsi of every component with the hyphens the chosen settings require, get_lujvo "
     "returns one with the lowest score (the documented formula), and for equal scores one preferred by the tie-break "
     "rule. If no such word exists it fails with the documented no-lujvo error, and it never fails when one exists.",
     ["inputs", "configurations"],
     "for every tanru, every combination of settings, brivla and cmevla, all three implementations",
     "Tests compare one winner per tanru; that no cheaper combination was pruned (the search keeps only the best "
     "candidate per last letter and hyphen state) is a statement about all combinations.",
     ALL_JVOZBA,
     m(("dynamic programme over candidates by last letter", "get_lujvo_from_list, update_current_best"),
       ("candidate rafsi of a component", "get_rafsi_list_list, get_rafsi_for_rafsi"), ("tosmabru/slinku'i of the joined word", "combine")),
     "explicit-state exploration: all tanru x settings; reference model enumerates every combination of rafsi and hyphens; implementation compared on each",
     "The reference (model/jvozba.py) enumerates all forms by brute force and filters with an independent word grammar; "
     "every implementation answer is compared with it." + TRUST)

prop("P04", "Scores follow the documented formula, however they are asked for",
     "The score reported with a generated lujvo, and the score reported for any lujvo or lujvo cmevla that the analyser "
     "accepts, is the documented formula applied to that word's pieces; both ways of asking agree. A word that is not a "
     "lujvo has no score.",
     ["inputs", "configurations"],
     "for every accepted word and every generated lujvo, all settings, all implementations",
     "Tests fix the score of a few generated lujvo; the formula has a weight per rafsi shape, hyphen and vowel and every "
     "shape can stand in every position.",
     ALL_JVOZBA + ALL_KATNA,
     m(("score of one rafsi", "score, tiebreak, rafsi_tarmi"), ("score of a given word", "score_lujvo")),
     "explicit-state exploration: all words over pieces and all tanru; each score compared with the reference formula",
     "Exhaustive within the alphabets; the reference formula is 10 lines in model/jvozba.py taken from CLL and "
     "differences.md." + TRUST)

prop("P05", "Analysis is lossless, and the reading functions agree with each other",
     "The pieces of an accepted word spell it exactly, hyphens are single and stand between two rafsi, and the type "
     "fits the pieces (one piece for gismu and zi'evla, two or more rafsi for lujvo; cmevla iff it ends in a "
     "consonant). is_brivla is true exactly when the word is accepted and is no cmevla, and decomposition, score and "
     "rafsi positions succeed exactly for lujvo and describe those same pieces.",
     ["inputs", "configurations"],
     "for every string over the Lojban alphabet, every combination of settings, all implementations",
     "Each function is tested on its own list; agreement between them, and losslessness, concern every word, most of all "
     "those with several readings.",
     ALL_TOOLS + ALL_KATNA,
     m(("splitting into pieces", "analyse_brivla, jvokaha, jvokaha_2"), ("decomposition", "get_veljvo, selrafsi_list_from_rafsi_list")),
     "explicit-state exploration: all words over piece and letter alphabets x settings, invariants on and between the five functions' answers",
     "Exhaustive within the alphabets; invariants need no word grammar, only the hyphen list and rafsi list." + TRUST)

prop("P06", "A word accepted as one brivla never falls apart into several words",
     "No word accepted as a gismu, zi'evla, lujvo or extended lujvo can also be read, under the same settings, as one or "
     "more cmavo followed by a word that is itself accepted as a brivla.",
     ["inputs", "configurations"],
     "for every accepted word, every place where leading cmavo could be split off, every combination of settings",
     "The suite lists some tosmabru and slinku'i traps; unambiguous resolution is a claim about every accepted string.",
     ALL_TOOLS + [PY + "jvozba.py"],
     m(("tosmabru and slinku'i tests", "is_slinkuhi, analyse_brivla, check_zihevla_or_rafsi"),
       ("falls-apart test of zi'evla", "is_gismu_or_lujvo, check_zihevla_or_rafsi")),
     "explicit-state exploration: all words over the alphabets x all cmavo splits; rejection of the remainder checked with the real analyser",
     "Exhaustive within the alphabets; the cmavo grammar used for splitting is independent of the code." + TRUST)

prop("P07", "Gismu are exactly the CVCCV and CCVCV words with permissible clusters",
     "A word is accepted as a gismu iff it has shape CVCCV with a permissible medial pair or CCVCV with a permissible "
     "initial pair (mz permissible exactly when that option is on); no other setting changes this, and a gismu is one "
     "piece equal to the word.",
     ["inputs", "configurations"],
     "for every one of the 245650 CVCCV and CCVCV strings, their neighbours and other strings up to 5 letters, all settings",
     "The repository's one stable test goes through the dictionary's gismu, which says nothing about the strings that "
     "must be refused.",
     [PY + "tarmi.py", PY + "data.py", "js/src/tarmi.ts", "js/src/data.ts", "rs/src/tarmi.rs", "rs/src/data.rs"] + ALL_TOOLS[:1],
     m(("gismu test", "is_gismu, is_gismu_shape"), ("consonant pair tables", "VALID, INITIAL, BANNED_TRIPLES")),
     "explicit-state exploration: all CVCCV/CCVCV strings and neighbours; reference predicate compared on each",
     "Complete for five-letter gismu shapes in all three implementations." + TRUST)

prop("P08", "LUJVO and CMEVLA are given exactly to well-formed CLL lujvo",
     "A word is typed LUJVO iff it is a sequence of CLL rafsi joined with the hyphens the settings allow or require "
     "(permissible pairs and triples, y and r/n hyphens, tosmabru), and CMEVLA iff the same holds with a final "
     "consonant; the pieces returned are those rafsi and hyphens.",
     ["inputs", "configurations"],
     "for every string, every combination of settings, all implementations",
     "The suite has about 400 words; the rules are about every pair, triple and sequence of rafsi.",
     ALL_TOOLS + ALL_KATNA,
     m(("rafsi splitting", "jvokaha, jvokaha_2"), ("comparison with the hyphens required", "compare_lujvo_pieces, get_lujvo_from_list"),
       ("cluster rules", "is_valid_rafsi, data tables")),
     "explicit-state exploration: all words over piece alphabets, all pairs and triples at junctions; independent word grammar compared on each",
     "The reference grammar (model/lojban.py) is written from CLL and the repository's documents, and every answer is "
     "compared with it." + TRUST)

prop("P09", "ZIhEVLA are exactly the words of the zi'evla grammar",
     "A word is typed ZIhEVLA iff its consonant runs and vowel runs are permitted for a zi'evla (initial and medial "
     "clusters, no banned triple, glides and diphthongs), it has no y, has at least two syllables, is no gismu or "
     "lujvo, and no slinku'i and does not fall apart.",
     ["inputs", "configurations"],
     "for every string, every combination of settings, all implementations",
     "A few dozen zi'evla are tested; the grammar is about every consonant run and vowel run in every position.",
     ALL_TOOLS,
     m(("zi'evla test", "check_zihevla_or_rafsi, is_zihevla_initial_cluster, is_zihevla_middle_cluster, split_vowel_cluster"),
       ("slinku'i", "is_slinkuhi")),
     "explicit-state exploration: all words from consonant-run and vowel-run alphabets; independent grammar compared on each",
     "The reference grammar is independent of the code; all consonant pairs, triples and (thorough) quadruples occur." + TRUST)

prop("P10", "Extended lujvo are accepted exactly as documented",
     "A word is typed EXTENDED_LUJVO iff it is a sequence of CLL rafsi, zi'evla, zi'evla rafsi, short zi'evla rafsi and "
     "(when switched on) experimental rafsi joined with y, 'y, y' and 'y' as differences.md describes for the chosen "
     "settings; the pieces are those.",
     ["inputs", "configurations"],
     "for every string, every combination of the 72 settings, all implementations",
     "Tests cover one or two words per feature; features interact (short zi'evla rafsi, glides, consonant requirement, "
     "hyphen style) and only all combinations show it.",
     ALL_TOOLS + ALL_KATNA,
     m(("splitting at y", "analyse_brivla"), ("experimental shapes", "rafsi_tarmi, check_zihevla_or_rafsi"),
       ("choice of hyphen", "combine")),
     "explicit-state exploration: all words over mixed piece alphabets x 72 settings; independent grammar compared on each",
     "The reference grammar follows differences.md; every answer and decomposition is compared with it." + TRUST)

prop("P11", "Any input gets an answer or a documented error",
     "For any string or list of strings and any settings, every public function returns promptly with an answer or "
     "raises one of the errors documented for it: analysis only the not-a-brivla error, decomposition and scores that "
     "or the decomposition error, lujvo making the no-lujvo, bad-character, bad-zi'evla or bad-cluster error (and a type "
     "error for wrong types in Python). is_brivla never fails, nothing hangs, and the Rust library never panics.",
     ["inputs", "configurations", "fault_sequences"],
     "for every string over an alphabet of letters of each class, digits, blanks, punctuation, capitals, control "
     "characters and non-ASCII letters, and every tanru of such components",
     "The suite feeds well-formed words only.",
     ALL_TOOLS + ALL_KATNA + [PY + "jvozba.py", PY + "exceptions.py", "js/src/jvozba.ts", "rs/src/jvozba.rs", "rs/src/exceptions.rs"],
     m(("documented exceptions", "exceptions.py / exceptions.ts / exceptions.rs"), ("input cleaning", "normalise, process_tanru")),
     "explicit-state exploration of the real code: all strings over a hostile alphabet, all hostile tanru; the set of allowed outcomes as the invariant",
     "Exhaustive for the hostile alphabet up to the stated lengths, plus parametrised families of long inputs." + TRUST)

prop("P12", "Loosening one option never loses a word",
     "Turning on experimental rafsi, glides or mz, loosening the consonant requirement, or moving from STANDARD or "
     "FORCE_Y to ALLOW_Y never makes an accepted word unacceptable and leaves its pieces unchanged (save for FORCE_Y, "
     "and that a y made unnecessary by mz may make a lujvo an extended one). The glides option has no effect without "
     "experimental rafsi.",
     ["inputs", "configurations"],
     "for every string and every pair of settings that differ in one option",
     "Tests use a handful of settings per word and never compare settings with each other.",
     ALL_TOOLS + ALL_KATNA,
     m(("settings handed down", "analyse_brivla, check_zihevla_or_rafsi, jvokaha")),
     "explicit-state exploration: all words x all 72 settings, every edge of the settings lattice checked",
     "All 72 settings and all one-option changes for every word of the alphabets; needs no reference model." + TRUST)

prop("P13", "Equivalent spellings of an input get the same answer",
     "Capitals, h for the apostrophe, commas and a leading period (in Rust, any number of periods at either end, as it documents) make no difference to any analysis; a tanru given as a "
     "string with any whitespace or as a list gives the same lujvo; leaving out the options is the same as giving the "
     "defaults.",
     ["inputs", "configurations"],
     "for every word, every subset of capitalised letters, every placement of commas, h and apostrophe, and every "
     "spacing of a tanru",
     "Tests use one spelling per word.",
     [PY + "tools.py", PY + "jvozba.py", PY + "katna.py", "js/src/tools.ts", "js/src/jvozba.ts", "rs/src/tools.rs", "rs/src/jvozba.rs"],
     m(("input cleaning", "normalise, process_tanru")),
     "explicit-state exploration: every spelling variant of each word and tanru, answers compared with the plain spelling's",
     "All case masks and comma placements of the listed words; no reference model needed." + TRUST)

prop("P14", "Answers do not depend on earlier or concurrent calls",
     "Every call's answer depends only on its arguments and options, whatever calls were made before it in the process "
     "and, in Python, whatever other thread is running in the library at the same time. Arguments are left unchanged, "
     "and changing a returned list or the iteration state of one settings iterator changes no later answer.",
     ["histories", "schedules"],
     "for every sequence of public calls up to a length, and every interleaving of two calls with bounded preemptions",
     "Tests make each call once, in one order, in one thread.",
     ALL_JVOZBA + ALL_KATNA + ALL_TOOLS,
     m(("module-level tables and caches", "rafsi.py, tarmi.py (SettingsIterator), jvozba.py"), ("list building", "get_lujvo_from_list, jvokaha")),
     "stateless model checking: all call histories in fresh processes, and all thread interleavings up to a preemption bound under a line-level scheduler",
     "Histories are complete up to the stated length over the operation alphabet; schedules are complete for the stated "
     "preemption bound at source-line granularity (not bytecode)." + TRUST)

prop("P15", "Every rafsi belongs to exactly one word, and look-up inverts the table",
     "The rafsi tables of the three implementations are the published one, no rafsi belongs to two words, looking a "
     "rafsi up returns the word that lists it (or the gismu it begins), and any other string has no word; looking up "
     "again, before or after other calls, answers the same.",
     ["inputs", "histories"],
     "for every string of a rafsi shape, every listed word and rafsi",
     "Tests look up a handful.",
     [PY + "rafsi.py", "js/src/rafsi.ts", "js/docs/rafsi.js", "rs/src/rafsi.rs"] + ALL_KATNA,
     m(("reverse look-up", "search_selrafsi_from_rafsi"), ("tables", "RAFSI_LIST / RAFSI")),
     "explicit-state exploration: all strings of every rafsi shape looked up, compared with the reference table",
     "Complete for all CVC, CCV, CVV, CV'V, CVCC, CCVC strings. The reference table is a copy of the repository's own "
     "list at the pinned commit." + TRUST)

prop("P16", "The three implementations give the same answers",
     "Python, JavaScript (sources and the compiled files that are shipped) and Rust give the same type, pieces, score, "
     "components, spans, lujvo and kind of error for the same input and settings. (Periods other than one at the start of "
     "a word are outside this: Rust documents that it trims them.)",
     ["inputs", "configurations"],
     "for every word and tanru and every combination of settings",
     "Each implementation's suite runs alone on its own lists; nothing compares them.",
     ALL_JVOZBA + ALL_KATNA + ALL_TOOLS,
     m(("three parallel code bases", "py, js, rs"), ("checked-in compiled JavaScript", "js/docs")),
     "explicit-state exploration: lock-step differential run of the three real implementations over all words and tanru of the alphabets",
     "Exhaustive within the alphabets; js/docs and a fresh compile of js/src are both driven when they differ." + TRUST)

prop("P17", "The maintained word lists and documented examples hold everywhere",
     "Every row of the maintained lists (words with the settings under which they are accepted, tanru with their lujvo "
     "and scores, lujvo with their components), the word dictionary and the documented examples give the listed result "
     "under each of the 72 settings their conditions cover, in all three implementations.",
     ["inputs", "configurations"],
     "for every listed word x every combination of settings x implementation",
     "Only one of the suite's tests is stable, and each implementation's own tests apply the lists to itself alone.",
     ["tests/basic_test_list.tsv", "tests/jvozba_test_list.tsv", "tests/katna_test_list.tsv", "tests/jvs_words.json", "README.md",
      "differences.md"] + ALL_TOOLS,
     m(("lists", "tests/*.tsv"), ("documentation", "README.md, differences.md")),
     "explicit-state exploration: every list row x 72 settings x 3 implementations against the row's condition",
     "Complete for the listed rows; the lists at the pinned commit are copied into the check so that changing them "
     "does not hide a regression." + TRUST)

prop("P18", "Settings flags form one consistent state machine",
     "In the Rust library and CLI, every settings value has exactly one printed form, parsing a printed form gives the "
     "value back, and a string parses iff it names each option at most once. Applying flags toggles exactly the named "
     "options, refuses a string with an unknown letter without changing anything, and '/' returns to the defaults; the "
     "settings iterators of all implementations visit every combination exactly once.",
     ["histories", "configurations"],
     "for every one of the 144 settings x every flag string up to a length, and every session of settings commands",
     "Tests parse a few settings strings; the flags are a state machine with 144 states.",
     ["rs/src/tarmi.rs", "rs/src/main.rs", PY + "tarmi.py", "js/src/tarmi.ts"],
     m(("parsing, printing, toggling", "Settings FromStr, Display, apply_flags"), ("iteration", "SETTINGS_ITERATOR, SettingsIterator, makeSettingsIterator")),
     "explicit-state model checking: breadth-first search of the 144-state settings machine with every flag string, reference machine replayed against the library and the real CLI",
     "All reachable states and all transitions of the flag alphabet, in the library and through the CLI's prompt." + TRUST)

prop("P19", "The CLI prints what the library answers",
     "For every input and settings the CLI prints the word's type, pieces, score and components, the rafsi it is or has, "
     "the best lujvo with its score whenever that is a different word, or the lujvo of a tanru, exactly as the library "
     "answers; it exits with status 1 exactly when it printed an error and was given its input as arguments. An "
     "interactive session goes on after an error, and ends at /q or at the end of its input.",
     ["inputs", "histories"],
     "for every word and tanru of the alphabet, every settings, one-shot and in every session up to a length",
     "No test runs the CLI.",
     ["rs/src/main.rs", "rs/src/cli_docs.rs"],
     m(("main loop", "main.rs"), ("settings commands", "Settings::apply_flags")),
     "explicit-state exploration: all sessions up to a depth over a command alphabet driven through the real binary, reference CLI model compared on the transcript",
     "Transcripts (without colours) are compared with a model of the CLI built from the reference grammar." + TRUST)

prop("P20", "The demo page shows, for every settings, the library's answer",
     "After any sequence of typing and button clicks, once no timer is pending the table shows for each combination of "
     "settings exactly one cell (in easy mode there is one cell, for the default settings), whose content and colour are "
     "the library's answer for the text now in the box and the word kind now selected; an option has a row or column iff "
     "it matters. Button highlights always show the current mode.",
     ["histories", "inputs", "schedules"],
     "for every sequence of clicks, typed texts and timer firings up to a length",
     "The page has no tests at all.",
     ["demo_page.js", "js/docs/tools.js", "js/docs/tarmi.js"],
     m(("table building", "demo_page.js go()"), ("debouncing", "goDebounced"), ("mode buttons", "click handlers")),
     "explicit-state model checking: all event histories (clicks, input, timer) up to a depth over the real page script in a stub DOM, reference state compared in every state",
     "The DOM and timers are stand-ins; layout and browser differences are not covered." + TRUST)

prop("P21", "The Python prompts answer with exactly the settings typed so far",
     "In the interactive prompts of the Python modules jvozba and katna, after any sequence of lines, the prompt shows the "
     "initials of the current settings, a line of setting words after / sets exactly the named options (in order; unknown "
     "words are skipped), and any other line is answered with what the library returns for it under the current settings, or with "
     "the text of its error. Neither errors nor settings lines end a session; an empty line does.",
     ["histories", "inputs", "configurations"],
     "for every session up to a length, from every one of the 144 (72) settings",
     "No test starts the prompts.",
     [PY + "jvozba.py", PY + "katna.py"],
     m(("the loops under __main__", "jvozba.py, katna.py")),
     "explicit-state model checking: all sessions up to a depth of the real prompts, every setting word in each settings, compared with a reference machine",
     "The terminal is a stand-in; the answers expected are the library's own (judged by the other properties)." + TRUST)

CLAIMED = os.environ.get("CLAIMED", "").split() or [p["prop"]["id"] for p in P]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="python3 -B tools/setup.py", checks=[], not_applicable=[],
           notes="One process per check: python3 -B check.py PID [--thorough]. Every check rebuilds JavaScript (tsc) and "
                 "Rust (cargo, offline) from /repo's working tree into a scratch directory it removes. No hooks in /repo.")
for p in P:
    pid = p["prop"]["id"]
    if pid in CLAIMED:
        man["checks"].append(dict(property=pid, quick_cmd=f"python3 -B check.py {pid}",
                                  thorough_cmd=f"python3 -B check.py {pid} --thorough",
                                  evidence_file=f"evidence/{pid}.json", technique=p["technique"],
                                  level="model_checking", level_note=p["note"]))
    else:
        man["not_applicable"].append(dict(property=pid, reason="check under construction"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
