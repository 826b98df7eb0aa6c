From 68e233e20dcda52f83a862e805337f13d6260000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 01/32] fix: import is_slinkuhi in jvozba (every get_lujvo call
 raised NameError)

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From b328b779197d8eb6941152552b76551b26ad45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 02/32] fix: apply the vowel-only rafsi restriction to the
 preceding rafsi in jvozba.combine

---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..d498372 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From 8c48f1136875872b121894b0cd47a23bc5845392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 03/32] fix: jvokaha_2 raised IndexError on a string ending in
 CVV + r

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..26f7bef 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From 8e504bc9dc5ad36610ea02238ccd5d5db43fe500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 04/32] fix: analyse_brivla raised IndexError on "" and on a
 double y after an apostrophe

---
 py/latkerlo_jvotci/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..484f887 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word.startswith("."):
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
@@ -348,7 +348,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and not y_parts[i+1].startswith("'"):
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 2b0b297cd1211810133d23f70a4d6a74a0ef3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 05/32] fix: analyse_brivla leaked DecompositionError on a bad
 vowel sequence after an apostrophe

---
 py/latkerlo_jvotci/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 484f887..4f835b7 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,7 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+            try:
+                starts_with_glide = is_vowel(part[0]) and split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS
+            except DecompositionError:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}")
+            if not is_vowel(part[0]) or starts_with_glide:
                 raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
-- 
2.43.0


From d325c5a84eb109a28a503884473538ce88536c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 06/32] fix: get_lujvo raised IndexError on tanru with an empty
 word or fewer than two words

---
 py/latkerlo_jvotci/jvozba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index d498372..6686abe 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -167,7 +167,7 @@ def get_rafsi_list_list(
         rafsi_list: list[tuple[str, int]] = []
         is_first = i == 0
         is_last = i == len(valsi_list) - 1
-        if valsi[-1] == "-":
+        if valsi.endswith("-"):
             is_short_brivla = valsi[0] != "-"
             valsi = valsi.strip('-')
             if not is_only_lojban_characters(valsi):
@@ -442,6 +442,8 @@ def get_lujvo_from_list(
     :return: The best lujvo, its score, and list of rafsi start/end indices.
     """
     rafsi_list_list = get_rafsi_list_list(valsi_list, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
+    if len(rafsi_list_list) < 2:
+        raise NoLujvoFoundError(f"Not enough words to make a lujvo: {{{' '.join(valsi_list)}}}")
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-- 
2.43.0


From 38e5441338f51a458f9e39337d0b193f91cf0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 07/32] fix: score_lujvo disagreed with the score that
 get_lujvo_with_analytics gives the same lujvo

---
 js/docs/katna.js            | 12 +++++++++++-
 js/src/katna.ts             | 14 +++++++++++---
 py/latkerlo_jvotci/katna.py | 16 ++++++++++------
 rs/src/katna.rs             | 19 ++++++++++++-------
 4 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 54883e5..08d013f 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,17 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    let total = 0;
+    let prefix = "";
+    decomp.forEach((piece, i) => {
+        prefix += piece;
+        total += score(piece);
+        // same as in jvozba: the tiebreak applies whenever a rafsi is added,
+        // with the y-hyphen (if any) being part of the rafsi before it
+        if (i + 1 === decomp.length || !decomp[i + 1].includes("y"))
+            total -= tiebreak(prefix);
+    });
+    return total;
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 7f0abbe..f933fa6 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,9 +300,17 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r =>
-    ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)
-  ).reduce((a, b) => a + b) - tiebreak(lujvo);
+  let total = 0;
+  let prefix = "";
+  decomp.forEach((piece, i) => {
+    prefix += piece;
+    total += score(piece);
+    // same as in jvozba: the tiebreak applies whenever a rafsi is added,
+    // with the y-hyphen (if any) being part of the rafsi before it
+    if (i + 1 === decomp.length || !decomp[i + 1].includes("y"))
+      total -= tiebreak(prefix);
+  });
+  return total;
 }
 
 /**
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 26f7bef..955a2ac 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,12 +257,16 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    total = 0
+    prefix = ""
+    for i, piece in enumerate(decomp):
+        prefix += piece
+        total += score(piece)
+        # same as in jvozba: the tiebreak applies whenever a rafsi is added,
+        # with the y-hyphen (if any) being part of the rafsi before it
+        if i + 1 == len(decomp) or "y" not in decomp[i + 1]:
+            total -= tiebreak(prefix)
+    return total
 
 
 def get_veljvo(
diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 518efcf..0089c1d 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -256,13 +256,18 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp
-        .iter()
-        .map(|r| {
-            if ["y", "n", "r", ""].contains(&r.as_str()) { 1100 * r.len() as i32 } else { score(r) }
-        })
-        .sum::<i32>()
-        - tiebreak(lujvo))
+    let mut total = 0;
+    let mut prefix = String::new();
+    for (i, piece) in decomp.iter().enumerate() {
+        prefix += piece;
+        total += score(piece);
+        // same as in jvozba: the tiebreak applies whenever a rafsi is added,
+        // with the y-hyphen (if any) being part of the rafsi before it
+        if decomp.get(i + 1).is_none_or(|next| !next.contains('y')) {
+            total -= tiebreak(&prefix);
+        }
+    }
+    Ok(total)
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From 5b82b9f90d41e4bd17a005964a8411f1dac08dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 08/32] fix: reject slinku'i that start with a short zi'evla
 rafsi (klingonygu'e)

---
 js/docs/tools.js            | 22 +++++++++++++++++++---
 js/src/tools.ts             | 22 +++++++++++++++++++---
 py/latkerlo_jvotci/tools.py | 18 +++++++++++++++++-
 rs/src/tools.rs             | 16 ++++++++++++++--
 4 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4ee6fe0..affca1b 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -69,11 +69,27 @@ function isSlinkuhi(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ = fal
         return true;
     }
     catch (e) {
-        if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-            return false;
-        else
+        if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
             throw e;
     }
+    // a short zi'evla rafsi can also combine into a string of rafsi
+    // (toklingonygu'e = tok-lin-gon-y-gu'e)
+    const head = aString.split("y")[0];
+    if (head === aString || head.slice(-1) === "'" || isConsonant(aString.slice(-1)))
+        return false;
+    const decomposes = (s) => {
+        try {
+            jvokaha2(s, { yHyphens: yHyphens, allowMZ: allowMZ });
+            return true;
+        }
+        catch (e) {
+            if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+                return false;
+            else
+                throw e;
+        }
+    };
+    return !decomposes(head) && decomposes("to" + head);
 }
 /**
  * Check morphology rules that are specific to zi'evla and
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 48a32f5..f34ab8a 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -87,11 +87,27 @@ function isSlinkuhi(
     jvokaha("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
     return true;
   } catch (e) {
-    if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-      return false;
-    else
+    if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
       throw e;
   }
+
+  // a short zi'evla rafsi can also combine into a string of rafsi
+  // (toklingonygu'e = tok-lin-gon-y-gu'e)
+  const head = aString.split("y")[0];
+  if (head === aString || head.slice(-1) === "'" || isConsonant(aString.slice(-1)))
+    return false;
+  const decomposes = (s: string): boolean => {
+    try {
+      jvokaha2(s, { yHyphens: yHyphens, allowMZ: allowMZ });
+      return true;
+    } catch (e) {
+      if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+        return false;
+      else
+        throw e;
+    }
+  };
+  return !decomposes(head) && decomposes("to" + head);
 }
 
 /**
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 4f835b7..e6449c6 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -64,13 +64,29 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
     :param allow_mz: True if mz is a valid consonant cluster.
     :return: True if string fails slinku'i test.
     """
-    from latkerlo_jvotci.katna import jvokaha
+    from latkerlo_jvotci.katna import jvokaha, jvokaha_2
     if (is_vowel(string[0])):
         # words starting with vowels have an invisible `.` at the start
         return False
     try:
         jvokaha("to" + string, y_hyphens=y_hyphens, allow_mz=allow_mz)
         return True
+    except (DecompositionError, InvalidClusterError):
+        pass
+
+    # a short zi'evla rafsi can also combine into a string of rafsi
+    # (toklingonygu'e = tok-lin-gon-y-gu'e)
+    head, y, _ = string.partition("y")
+    if not y or head.endswith("'") or is_consonant(string[-1]):
+        return False
+    try:
+        jvokaha_2(head, y_hyphens=y_hyphens, allow_mz=allow_mz)
+        return False
+    except (DecompositionError, InvalidClusterError):
+        pass
+    try:
+        jvokaha_2("to" + head, y_hyphens=y_hyphens, allow_mz=allow_mz)
+        return True
     except (DecompositionError, InvalidClusterError):
         return False
 
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..801644c 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -120,9 +120,21 @@ pub fn is_slinkuhi(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
         Ok(false)
     } else if let Err(e) = jvokaha(&format!("pa{s}"), &extract!(settings; y_hyphens, allow_mz)) {
         match e {
-            DecompositionError(_) | InvalidClusterError(_) => Ok(false),
-            _ => Err(e),
+            DecompositionError(_) | InvalidClusterError(_) => (),
+            _ => return Err(e),
         }
+        // a short zi'evla rafsi can also combine into a string of rafsi
+        // (toklingonygu'e = tok-lin-gon-y-gu'e)
+        let Some((head, _)) = s.split_once('y') else { return Ok(false) };
+        if head.ends_with('\'') || s.ends_with(is_consonant) {
+            return Ok(false);
+        }
+        let decomposes = |s: &str| match jvokaha2(s, &extract!(settings; y_hyphens, allow_mz)) {
+            Ok(_) => Ok(true),
+            Err(DecompositionError(_) | InvalidClusterError(_)) => Ok(false),
+            Err(e) => Err(e),
+        };
+        Ok(!decomposes(head)? && decomposes(&format!("pa{head}"))?)
     } else {
         Ok(true)
     }
-- 
2.43.0


From 700a30c2b857fbd3110c8afdd5366937b5b67b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 09/32] fix: allow_mz was ignored in three-consonant zi'evla
 clusters (py, js)

---
 js/docs/tarmi.js            | 2 +-
 js/src/tarmi.ts             | 2 +-
 py/latkerlo_jvotci/tarmi.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index d30af4e..ac413bf 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -226,7 +226,7 @@ function isZihevlaMiddleCluster(cluster) {
     if (cluster.length === 3) {
         if (SONORANT_CONSONANTS.includes(cluster[1]))
             return true;
-        return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+        return INITIAL.includes(cluster.slice(1)); // Pairs are already checked outside this function
     }
     else if (cluster.length < 3) {
         return true; // Pairs are already checked outside this function
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 3f2814d..a8b1984 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -237,7 +237,7 @@ function isZihevlaMiddleCluster(cluster: string): boolean {
   if (cluster.length === 3) {
     if (SONORANT_CONSONANTS.includes(cluster[1]))
       return true;
-    return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+    return INITIAL.includes(cluster.slice(1));  // Pairs are already checked outside this function
   } else if (cluster.length < 3) {
     return true;  // Pairs are already checked outside this function
   }
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..cc51595 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -221,7 +221,7 @@ def is_zihevla_middle_cluster(cluster: str) -> bool:
     if len(cluster) == 3:
         if cluster[1] in SONORANT_CONSONANTS:
             return True
-        return cluster[:2] in VALID and cluster[1:] in INITIAL
+        return cluster[1:] in INITIAL  # Pairs are already checked outside this function
     elif len(cluster) < 3:
         return True  # Pairs are already checked outside this function
 
-- 
2.43.0


From 1a47ae5bdcde2439fe61c94c994dfd44266a7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 10/32] fix: rafsi_tarmi treated y and ' as consonants in CCV,
 CVCC and CCVC (rs)

---
 rs/src/tarmi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index b574f09..376bff4 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -377,14 +377,18 @@ pub fn rafsi_tarmi(r: &str) -> Tarmi {
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-            (false, true) => Ccv,
+            (false, true) if is_consonant(strin!(r, 1)) => Ccv,
             _ => OtherRafsi,
         },
         4 if strin!(r, 3) != '\'' => {
             match (is_vowel(strin!(r, 1)), strin!(r, 2), is_vowel(strin!(r, 3))) {
                 (true, '\'', true) => Cvhv,
-                (true, _, false) if is_consonant(strin!(r, 3)) => Cvcc,
-                (false, v, false) if is_vowel(v) => Ccvc,
+                (true, c, false) if is_consonant(c) && is_consonant(strin!(r, 3)) => Cvcc,
+                (false, v, false)
+                    if is_vowel(v) && is_consonant(strin!(r, 1)) && is_consonant(strin!(r, 3)) =>
+                {
+                    Ccvc
+                }
                 _ => OtherRafsi,
             }
         }
-- 
2.43.0


From 2947db70e9540c658f78d250c1d7e01bb2124434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 11/32] fix: analyze_brivla accepted short zi'evla rafsi that
 are lujvo without their final vowel (rs)

---
 rs/src/tools.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 801644c..8a2c84e 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -645,6 +645,15 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if added_a {
+                    match jvokaha2(part, &extract!(settings; y_hyphens, allow_mz)) {
+                        Err(DecompositionError(_) | InvalidClusterError(_)) => (),
+                        Err(e) => return Err(e),
+                        Ok(_) => {
+                            return Err(NotBrivlaError(format!("{{{part}}} is a lujvo")));
+                        }
+                    }
+                }
                 has_cluster = true;
             }
             if is_consonant(strin!(part, 0)) || settings.glides && is_glide(part) {
-- 
2.43.0


From 15f0d49aa4fbd30276b962b4d7005aab523c055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 12/32] fix: analyze_brivla panicked on a bad vowel sequence
 after an apostrophe (rs)

---
 rs/src/tools.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 8a2c84e..9d233e0 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -460,13 +460,10 @@ pub fn analyze_brivla(
                 )));
             }
             if !is_vowel(strin!(part, 0))
-                || FOLLOW_VOWEL_CLUSTERS.contains(
-                    &split_vowel_cluster(
-                        &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
-                    )
-                    .unwrap()[0]
-                        .as_str(),
+                || split_vowel_cluster(
+                    &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
                 )
+                .map_or(true, |v| FOLLOW_VOWEL_CLUSTERS.contains(&v[0].as_str()))
             {
                 return Err(NotBrivlaError(format!(
                     "{{{valsi}}} contains an apostrophe not followed by a non-glide vowel"
-- 
2.43.0


From e831d414001f356e91befe1252f56592ab3e375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 13/32] fix: undocumented errors on a bad vowel sequence and on
 one-word tanru (js)

---
 js/docs/jvozba.js |  2 ++
 js/docs/tools.js  | 12 +++++++++++-
 js/src/jvozba.ts  |  2 ++
 js/src/tools.ts   | 11 ++++++++++-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 0cb9709..745bb4a 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -392,6 +392,8 @@ function updateCurrentBest(candidate, currentBest) {
  */
 function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphenSetting.STANDARD, expRafsiShapes = false, consonants = ConsonantSetting.CLUSTER, glides = false, allowMZ = false } = {}) {
     const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+    if (rafsiListList.length < 2)
+        throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
     let currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
diff --git a/js/docs/tools.js b/js/docs/tools.js
index affca1b..77dbf23 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -321,7 +321,17 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 throw new NotBrivlaError("that was only a '");
             let firstCons = [...part].findIndex(c => !isVowel(c));
             let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-            if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+            let startsWithGlide;
+            try {
+                startsWithGlide = isVowel(part[0]) && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+            }
+            catch (e) {
+                if (e instanceof DecompositionError)
+                    throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+                else
+                    throw e;
+            }
+            if (!isVowel(part[0]) || startsWithGlide)
                 throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
         }
         else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 10f67b8..6740beb 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -481,6 +481,8 @@ function getLujvoFromList(
   } = {}
 ): [string, number, [number, number][]] {
   const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+  if (rafsiListList.length < 2)
+    throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
   let currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][] = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index f34ab8a..78ca5a3 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -391,7 +391,16 @@ function analyseBrivla(
         throw new NotBrivlaError("that was only a '");
       let firstCons = [...part].findIndex(c => !isVowel(c));
       let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-      if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+      let startsWithGlide;
+      try {
+        startsWithGlide = isVowel(part[0]) && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+      } catch (e) {
+        if (e instanceof DecompositionError)
+          throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+        else
+          throw e;
+      }
+      if (!isVowel(part[0]) || startsWithGlide)
         throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
     } else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
       throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
-- 
2.43.0


From 742ac939bf09bbfeea0148b17534f73fb76d6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 14/32] fix: js/docs/rafsi.js lacked the rafsi of fizbu and
 jicfo

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From c18ce10f24aa82e0cdc1332007bf5ca1b36f972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 15/32] fix: outdated score in the README's tcanyja'a example

---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index bf6ee8f..db7239f 100644
--- a/README.md
+++ b/README.md
@@ -165,7 +165,7 @@ get_lujvo_with_analytics("mlatu kerlo")
 # -> ["latkerlo", 7937, [(0, 3), (3, 8)]]
 
 get_lujvo_with_analytics("tcana jatna")
-# -> ["tcanyja'a", 8597, [(0, 4), (5, 9)]]
+# -> ["tcanyja'a", 8997, [(0, 4), (5, 9)]]
 ```
 
 ```javascript
@@ -174,7 +174,7 @@ getLujvoWithAnalytics("mlatu kerlo");
 // -> ["latkerlo", 7937, [[0, 3], [3, 8]]]
 
 getLujvoWithAnalytics("tcana jatna");
-// -> ["tcanyja'a", 8597, [[0, 4], [5, 9]]]
+// -> ["tcanyja'a", 8997, [[0, 4], [5, 9]]]
 ```
 \
 `get_rafsi_indices` / `getRafsiIndices` can be used to get the corresponding
-- 
2.43.0


From 1560164ac2f92343912279e738dbd62251675fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 16/32] fix: allow_mz was ignored when checking whether a
 zi'evla or lujvo falls apart (o'agimzu)

---
 js/docs/tools.js            | 6 +++---
 js/src/tools.ts             | 6 +++---
 py/latkerlo_jvotci/tools.py | 6 +++---
 rs/src/tools.rs             | 9 ++++++---
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 77dbf23..b48c4d9 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -193,11 +193,11 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     }
     else if (numSyllables > 2) {
         if (clusterPos !== null && clusterPos > 0) {
-            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
                 throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
             for (let i = 1; i < clusterPos; i++) {
                 if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
                         throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
                 }
             }
@@ -436,7 +436,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = smabruPart.slice(0, -1);
                     else
                         smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 78ca5a3..0cf77d4 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -232,12 +232,12 @@ function checkZihevlaOrRafsi(
 
   } else if (numSyllables > 2) {
     if (clusterPos !== null && clusterPos > 0) {
-      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
         throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
 
       for (let i = 1; i < clusterPos; i++) {
         if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
         }
       }
@@ -511,7 +511,7 @@ function analyseBrivla(
           else
             smabruPart = stripHyphens(smabruPart);
 
-          if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index e6449c6..306ad36 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -201,12 +201,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
@@ -437,7 +437,7 @@ def analyse_brivla(
                     else:
                         smabru_part = strip_hyphens(smabru_part)
 
-                    if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 9d233e0..c4c0e43 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -301,7 +301,10 @@ pub fn check_zihevla_or_rafsi(
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens)) {
+        if is_brivla(
+            strsl!(valsi_, cluster_pos.unwrap()..),
+            &extract!(settings; y_hyphens, allow_mz),
+        ) {
             return Err(NotZihevlaError(format!(
                 "{{{valsi_}}} is a tosmabru: {{{} {}}}",
                 strsl!(valsi_, 0..cluster_pos.unwrap()),
@@ -313,7 +316,7 @@ pub fn check_zihevla_or_rafsi(
                 || is_glide(strsl!(valsi_, cluster_pos.unwrap() - i..)))
                 && is_brivla(
                     strsl!(valsi_, cluster_pos.unwrap() - i..),
-                    &extract!(settings; y_hyphens),
+                    &extract!(settings; y_hyphens, allow_mz),
                 )
             {
                 return Err(NotZihevlaError(format!(
@@ -586,7 +589,7 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &Settings::default())
+                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
                         && !(rafsi_tarmi(smabru_part) == Ccv
                             && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
                     {
-- 
2.43.0


From 480be0a57b3f4b9853a9cf5d4fd64a50fe70d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 17/32] fix: get_lujvo generated cmevla that analyse_brivla
 rejects as slinku'i or tosmabru (klingonytcan, baulatyklingon)

---
 js/docs/tools.js            | 4 ++--
 js/src/tools.ts             | 4 ++--
 py/latkerlo_jvotci/tools.py | 4 ++--
 rs/src/tools.rs             | 8 ++++----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index b48c4d9..59dde63 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -416,7 +416,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     throw new NotBrivlaError("falls off because y");
                 }
             }
-            if (i === 0) {
+            if (i === 0 && !isCmevlatai) {
                 let toPart = "";
                 let smabruPart = "";
                 if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -495,7 +495,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
         else if (isMahortai)
             throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
     }
-    if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+    if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
         if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
     }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 0cf77d4..343e249 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -489,7 +489,7 @@ function analyseBrivla(
         }
       }
 
-      if (i === 0) {
+      if (i === 0 && !isCmevlatai) {
         let toPart = "";
         let smabruPart = "";
         if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -577,7 +577,7 @@ function analyseBrivla(
       throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
   }
 
-  if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+  if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
     if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
       throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
   }
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 306ad36..6af899a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -418,7 +418,7 @@ def analyse_brivla(
                         not (i == len(y_parts) - 2 and rafsi_tarmi(y_parts[1]) in [CVV, CCV])):
                     raise NotBrivlaError("falls off because y")
 
-            if i == 0:
+            if i == 0 and not is_cmevlatai:
                 to_part = ""
                 smabru_part = ""
                 if rafsi_tarmi(part[:4]) == CVhV:
@@ -483,7 +483,7 @@ def analyse_brivla(
         elif is_mahortai:
             raise NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped")
 
-    if not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
+    if not is_cmevlatai and not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
         if is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
             raise NotBrivlaError("slinku'i")
 
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index c4c0e43..8a4fba4 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -569,7 +569,7 @@ pub fn analyze_brivla(
             }
         }
         if katnad {
-            if i == 0 {
+            if i == 0 && !is_cmetai {
                 let mut to_part = "";
                 let mut smabru_part = "";
                 if rafsi_tarmi(strsl!(part, 0..4)) == Cvhv {
@@ -610,7 +610,6 @@ pub fn analyze_brivla(
                         )));
                     }
                 } else if settings.y_hyphens == Standard
-                    && !is_cmetai
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
                 {
@@ -676,8 +675,9 @@ pub fn analyze_brivla(
             return Err(NotBrivlaError(format!("{{{valsi}}} is just a cmavo or cmavo compound")));
         }
     }
-    if !(is_vowel(strin!(&valsi, 0))
-        && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
+    if !is_cmetai
+        && !(is_vowel(strin!(&valsi, 0))
+            && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
         && is_slinkuhi(&valsi, &extract!(settings; y_hyphens, allow_mz)).unwrap()
     {
         Err(NotBrivlaError(format!("{{{valsi}}} is a slinku'i")))
-- 
2.43.0


From 121648d66fa6cf40b88311c91a337a2c6589e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 18/32] fix: the tosmabru check only tried one leading cmavo
 (maimaimai'yspageti, maitosmabru'yspageti)

---
 js/docs/tools.js            | 32 ++++++++------------
 js/src/tools.ts             | 34 +++++++++------------
 py/latkerlo_jvotci/tools.py | 31 +++++++++----------
 rs/src/tools.rs             | 59 ++++++++++++++++++++++++-------------
 4 files changed, 79 insertions(+), 77 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 59dde63..4f696d7 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -417,26 +417,20 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 }
             }
             if (i === 0 && !isCmevlatai) {
-                let toPart = "";
-                let smabruPart = "";
-                if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
-                    toPart = part.slice(0, 4);
-                    smabruPart = part.slice(4);
-                }
-                else if (rafsiTarmi(part.slice(0, 3)) === Tarmi.CVV) {
-                    toPart = part.slice(0, 3);
-                    smabruPart = part.slice(3);
-                }
-                else if (isConsonant(part[0]) && isVowel(part[1])) {
-                    toPart = part.slice(0, 2);
-                    smabruPart = part.slice(2);
-                }
-                if (smabruPart.length > 0) {
-                    if (didAddA)
-                        smabruPart = smabruPart.slice(0, -1);
+                // more than one cmavo can fall off the front
+                let smabruPart = didAddA ? part.slice(0, -1) : part;
+                while (smabruPart.length > 1) {
+                    if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+                        smabruPart = smabruPart.slice(4);
+                    else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+                        smabruPart = smabruPart.slice(3);
+                    else if (isConsonant(smabruPart[0]) && isVowel(smabruPart[1]))
+                        smabruPart = smabruPart.slice(2);
                     else
-                        smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                        break;
+                    if (smabruPart.length === 0)
+                        break;
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(-1) === "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 343e249..3a27e51 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -490,28 +490,22 @@ function analyseBrivla(
       }
 
       if (i === 0 && !isCmevlatai) {
-        let toPart = "";
-        let smabruPart = "";
-        if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
-          toPart = part.slice(0, 4);
-          smabruPart = part.slice(4);
-        }
-        else if (rafsiTarmi(part.slice(0, 3)) === Tarmi.CVV) {
-          toPart = part.slice(0, 3);
-          smabruPart = part.slice(3);
-        }
-        else if (isConsonant(part[0]) && isVowel(part[1])) {
-          toPart = part.slice(0, 2);
-          smabruPart = part.slice(2);
-        }
-
-        if (smabruPart.length > 0) {
-          if (didAddA)
-            smabruPart = smabruPart.slice(0, -1);
+        // more than one cmavo can fall off the front
+        let smabruPart = didAddA ? part.slice(0, -1) : part;
+        while (smabruPart.length > 1) {
+          if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+            smabruPart = smabruPart.slice(4);
+          else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+            smabruPart = smabruPart.slice(3);
+          else if (isConsonant(smabruPart[0]) && isVowel(smabruPart[1]))
+            smabruPart = smabruPart.slice(2);
           else
-            smabruPart = stripHyphens(smabruPart);
+            break;
+
+          if (smabruPart.length === 0)
+            break;
 
-          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(-1) === "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 6af899a..047084e 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -419,25 +419,22 @@ def analyse_brivla(
                     raise NotBrivlaError("falls off because y")
 
             if i == 0 and not is_cmevlatai:
-                to_part = ""
-                smabru_part = ""
-                if rafsi_tarmi(part[:4]) == CVhV:
-                    to_part = part[:4]
-                    smabru_part = part[4:]
-                elif rafsi_tarmi(part[:3]) == CVV:
-                    to_part = part[:3]
-                    smabru_part = part[3:]
-                elif is_consonant(part[0]) and is_vowel(part[1]): # and not is_gismu(part):
-                    to_part = part[:2]
-                    smabru_part = part[2:]
-
-                if smabru_part:
-                    if did_add_a:
-                        smabru_part = smabru_part[:-1]
+                # more than one cmavo can fall off the front
+                smabru_part = part[:-1] if did_add_a else part
+                while len(smabru_part) > 1:
+                    if rafsi_tarmi(smabru_part[:4]) == CVhV:
+                        smabru_part = smabru_part[4:]
+                    elif rafsi_tarmi(smabru_part[:3]) == CVV:
+                        smabru_part = smabru_part[3:]
+                    elif is_consonant(smabru_part[0]) and is_vowel(smabru_part[1]): # and not is_gismu(part):
+                        smabru_part = smabru_part[2:]
                     else:
-                        smabru_part = strip_hyphens(smabru_part)
+                        break
 
-                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if not smabru_part:
+                        break
+
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][-1] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 8a4fba4..0c29ff9 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -583,31 +583,48 @@ pub fn analyze_brivla(
                     smabru_part = strsl!(part, 2..);
                 }
                 if !smabru_part.is_empty() {
-                    let hyphenless = strip_hyphens(smabru_part);
                     if added_a {
                         smabru_part = strsl!(smabru_part, 0..-1);
-                    } else {
-                        smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
-                        && !(rafsi_tarmi(smabru_part) == Ccv
-                            && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
-                    {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
-                    }
-                    if let Err(e) = jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz)) {
-                        match e {
-                            DecompositionError(_) | InvalidClusterError(_) | FakeTypeError(_) => (),
-                            _ => return Err(e),
+                    // more than one cmavo can fall off the front
+                    while !smabru_part.is_empty() {
+                        if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
+                            && !(rafsi_tarmi(smabru_part) == Ccv && y_parts[i].ends_with('\''))
+                        {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
                         }
-                    } else {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
+                        if let Err(e) =
+                            jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz))
+                        {
+                            match e {
+                                DecompositionError(_)
+                                | InvalidClusterError(_)
+                                | FakeTypeError(_) => (),
+                                _ => return Err(e),
+                            }
+                        } else {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
+                        }
+                        let cmavo_len = if rafsi_tarmi(strsl!(smabru_part, 0..4)) == Cvhv {
+                            4
+                        } else if rafsi_tarmi(strsl!(smabru_part, 0..3)) == Cvv {
+                            3
+                        } else if smabru_part.len() > 1
+                            && is_consonant(strin!(smabru_part, 0))
+                            && is_vowel(strin!(smabru_part, 1))
+                        {
+                            2
+                        } else {
+                            break;
+                        };
+                        to_part = strsl!(part, 0..(to_part.len() + cmavo_len) as isize);
+                        smabru_part = strsl!(smabru_part, cmavo_len as isize..);
                     }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
-- 
2.43.0


From e83f17fb62162bdb63db59458e38e3bacdc89e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 19/32] fix: get_lujvo under ONE_CONSONANT made cmavo compounds
 that analyse_brivla rejects (fa'u'u'y'e'e)

---
 js/docs/jvozba.js            | 3 ++-
 js/src/jvozba.ts             | 3 ++-
 py/latkerlo_jvotci/jvozba.py | 3 ++-
 rs/src/jvozba.rs             | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 745bb4a..4020612 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -350,7 +350,8 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         }
     }
     let totalConsonants = Math.min(2, lujvoConsonants + newConsonants);
-    if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0)
+    // vowel-initial rafsi do not stop the word from being cmavo-shaped
+    if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0 && rafsi[0] !== "'")
         totalConsonants = 2;
     return [
         tosmabruType,
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 6740beb..ff06c60 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -423,7 +423,8 @@ function combine(
   }
 
   let totalConsonants = Math.min(2, lujvoConsonants + newConsonants);
-  if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0)
+  // vowel-initial rafsi do not stop the word from being cmavo-shaped
+  if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0 && rafsi[0] !== "'")
     totalConsonants = 2;
 
   return [
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 6686abe..f455405 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -388,7 +388,8 @@ def combine(
                 new_consonants = 0
 
     total_consonants = min(2, lujvo_consonants + new_consonants)
-    if consonants == ONE_CONSONANT and total_consonants > 0:
+    # vowel-initial rafsi do not stop the word from being cmavo-shaped
+    if consonants == ONE_CONSONANT and total_consonants > 0 and rafsi[0] != "'":
         total_consonants = 2
 
     res = lujvo + hyphen + rafsi
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 56a2b3f..4059eea 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -465,7 +465,8 @@ pub fn combine(
             * 2;
     }
     let mut total_c = 2.min(lujvo_c + new_c);
-    if settings.consonants == OneConsonant && total_c > 0 {
+    // vowel-initial rafsi do not stop the word from being cmavo-shaped
+    if settings.consonants == OneConsonant && total_c > 0 && strin!(rafsi, 0) != '\'' {
         total_c = 2;
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
-- 
2.43.0


From 4e458e27eb361ff5f8589e6a2857e9382c474750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 20/32] fix: two cmavo in a row counted as one experimental
 rafsi, so the word fell apart (u'uia'yto, maiu'u'yklama)

---
 js/docs/tools.js            | 11 +++++------
 js/src/tools.ts             | 13 +++++--------
 py/latkerlo_jvotci/tools.py | 12 +++++-------
 rs/src/tools.rs             | 16 ++++++++--------
 4 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4f696d7..5e3d622 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -114,6 +114,7 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     let clusterPos = null;
     let numConsonants = 0;
     let finalConsonantPos = 0;
+    let isCompound = false; // only matters if there is no cluster
     while (valsi.length > 0) {
         if (isConsonant(valsi[0])) {
             while (valsi.length > 0 && isConsonant(valsi[0])) {
@@ -157,12 +158,8 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
             }
             try {
                 let syllables = splitVowelCluster(chunk);
-                if (clusterPos === null
-                    && valsiCopy[pos - 1] != "'"
-                    && syllables.length >= 2
-                    && pos + syllables.join("").length == valsiCopy.length) {
-                    throw new NotZihevlaError(`{${valsiCopy}} is just a cmavo compound`);
-                }
+                if (syllables.length >= 2)
+                    isCompound = true;
                 if (pos != 0 && syllables.length > 0 && FOLLOW_VOWEL_CLUSTERS.includes(syllables[0])) {
                     throw new NotZihevlaError(`{${valsiCopy}} contains a glide after a non-vowel`);
                 }
@@ -204,6 +201,8 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
         }
     }
     if (clusterPos === null) {
+        if (isCompound)
+            throw new NotZihevlaError(`{${valsiCopy}} is just a cmavo compound`);
         if (requireZihevla)
             throw new NotZihevlaError(`no cluster: {${valsiCopy}}`);
         if (!isConsonant(valsiCopy[0]) && !expRafsiShapes)
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 3a27e51..68cac2c 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -143,6 +143,7 @@ function checkZihevlaOrRafsi(
   let clusterPos: number | null = null;
   let numConsonants = 0;
   let finalConsonantPos = 0
+  let isCompound = false; // only matters if there is no cluster
 
   while (valsi.length > 0) {
     if (isConsonant(valsi[0])) {
@@ -193,14 +194,8 @@ function checkZihevlaOrRafsi(
 
       try {
         let syllables = splitVowelCluster(chunk);
-        if (
-          clusterPos === null
-          && valsiCopy[pos - 1] != "'"
-          && syllables.length >= 2
-          && pos + syllables.join("").length == valsiCopy.length
-        ) {
-          throw new NotZihevlaError(`{${valsiCopy}} is just a cmavo compound`);
-        }
+        if (syllables.length >= 2)
+          isCompound = true;
         if (pos != 0 && syllables.length > 0 && FOLLOW_VOWEL_CLUSTERS.includes(syllables[0])) {
           throw new NotZihevlaError(`{${valsiCopy}} contains a glide after a non-vowel`);
         }
@@ -245,6 +240,8 @@ function checkZihevlaOrRafsi(
   }
 
   if (clusterPos === null) {
+    if (isCompound)
+      throw new NotZihevlaError(`{${valsiCopy}} is just a cmavo compound`);
     if (requireZihevla)
       throw new NotZihevlaError(`no cluster: {${valsiCopy}}`);
     if (!isConsonant(valsiCopy[0]) && !expRafsiShapes)
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 047084e..8025348 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -125,6 +125,7 @@ def check_zihevla_or_rafsi(
     cluster_pos = None
     num_consonants = 0
     final_consonant_pos = 0
+    is_compound = False  # only matters if there is no cluster
     while len(valsi) > 0:
         if is_consonant(valsi[0]):
             while valsi and is_consonant(valsi[0]):
@@ -169,13 +170,8 @@ def check_zihevla_or_rafsi(
 
             try:
                 syllables = split_vowel_cluster(chunk)
-                if (
-                    cluster_pos is None
-                    and valsi_copy[pos - 1] != "'"
-                    and len(syllables) >= 2
-                    and pos + len("".join(syllables)) == len(valsi_copy)
-                ):
-                    raise NotZihevlaError(f"{{{valsi_copy}}} is just a cmavo compound")
+                if len(syllables) >= 2:
+                    is_compound = True
                 if pos != 0 and len(syllables) > 0 and syllables[0] in FOLLOW_VOWEL_CLUSTERS:
                     raise NotZihevlaError(f"{{{valsi_copy}}} contains a glide after a non-vowel")
                 num_syllables += len(syllables)
@@ -210,6 +206,8 @@ def check_zihevla_or_rafsi(
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
+        if is_compound:
+            raise NotZihevlaError(f"{{{valsi_copy}}} is just a cmavo compound")
         if require_zihevla:
             raise NotZihevlaError(f"no cluster: {{{valsi_copy}}}")
         if not is_consonant(valsi_copy[0]) and not exp_rafsi_shapes:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 0c29ff9..c719ba3 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -166,7 +166,8 @@ pub fn check_zihevla_or_rafsi(
         mut cluster_pos,
         mut num_consonants,
         mut final_consonant_pos,
-    ) = (String::new(), 0, 0, None, 0, 0);
+        mut is_compound, // only matters if there is no cluster
+    ) = (String::new(), 0, 0, None, 0, 0, false);
     while !valsi.is_empty() {
         if is_consonant(strin!(valsi, 0)) {
             while !valsi.is_empty() && is_consonant(strin!(valsi, 0)) {
@@ -257,12 +258,6 @@ pub fn check_zihevla_or_rafsi(
                     }
                     _ => return Err(e),
                 }
-            } else if cluster_pos.is_none()
-                && strin!(valsi_, pos - 1) != '\''
-                && let Ok(v @ [_, _, ..]) = syllables.as_deref()
-                && pos as usize + v.concat().len() == valsi_.len()
-            {
-                return Err(NotZihevlaError(format!("{{{valsi_}}} is just a cmavo compound")));
             }
             if pos != 0
                 && let Ok([first, ..]) = syllables.as_deref()
@@ -273,7 +268,9 @@ pub fn check_zihevla_or_rafsi(
                 )));
             }
 
-            num_syllables += syllables.unwrap().len();
+            let syllables = syllables.unwrap().len();
+            is_compound |= syllables >= 2;
+            num_syllables += syllables;
         } else if strin!(valsi, 0) == '\'' {
             chunk = "'".to_string();
             valsi = strsl!(valsi, 1..);
@@ -328,6 +325,9 @@ pub fn check_zihevla_or_rafsi(
         }
     }
     if cluster_pos.is_none() {
+        if is_compound {
+            return Err(NotZihevlaError(format!("{{{valsi_}}} is just a cmavo compound")));
+        }
         if require_zihevla {
             return Err(NotZihevlaError(format!("{{{valsi_}}} is just a cmavo or cmavo compound")));
         }
-- 
2.43.0


From bc8023f4bfb4be7d2293f09a4c02cf43e2fffb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 21/32] fix: get_lujvo missed the shorter CVV/CVhV + CCV'y
 start (toispa'y'ismu)

---
 js/docs/jvozba.js            | 3 +++
 js/src/jvozba.ts             | 3 +++
 py/latkerlo_jvotci/jvozba.py | 3 +++
 rs/src/jvozba.rs             | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 4020612..d72024c 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -304,6 +304,9 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         }
         if (tanruLen === 2 && raftai1 === Tarmi.CCV)
             hyphen = "";
+        // toispa'y'ismu does not fall apart, since spa'y'ismu is not a word
+        else if ("rn".includes(hyphen) && raftai1 === Tarmi.CCV && rafsi[rafsi.length - 1] === "y")
+            hyphen = "";
     }
     if (tosmabruType === TosyType.Tosmabru) {
         if (!INITIAL.includes(lujvoFinal + rafsiInitial)) {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index ff06c60..6d6d60b 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -376,6 +376,9 @@ function combine(
     }
     if (tanruLen === 2 && raftai1 === Tarmi.CCV)
       hyphen = "";
+    // toispa'y'ismu does not fall apart, since spa'y'ismu is not a word
+    else if ("rn".includes(hyphen) && raftai1 === Tarmi.CCV && rafsi[rafsi.length - 1] === "y")
+      hyphen = "";
   }
 
   if (tosmabruType === TosyType.Tosmabru) {
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index f455405..8c01db7 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -348,6 +348,9 @@ def combine(
                 hyphen = "r"
         if tanru_len == 2 and raftai_1 == CCV:
             hyphen = ""
+        # toispa'y'ismu does not fall apart, since spa'y'ismu is not a word
+        elif hyphen in ["r", "n"] and raftai_1 == CCV and rafsi[-1] == "y":
+            hyphen = ""
 
     if tosmabru_type == TOSMABRU:
         if lujvo[-1] + rafsi[0] not in INITIAL:
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 4059eea..1f7884a 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -423,6 +423,9 @@ pub fn combine(
             }
             if tanru_len == 2 && raftai1 == Ccv {
                 hyphen = "";
+            // toispa'y'ismu does not fall apart, since spa'y'ismu is not a word
+            } else if ["r", "n"].contains(&hyphen) && raftai1 == Ccv && rafsi.ends_with('y') {
+                hyphen = "";
             }
         }
     }
-- 
2.43.0


From a7f51df027240f15e01878ef959f6fbc81360cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 22/32] fix: the interactive CLI never ended at the end of its
 input

---
 rs/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 712fb31..6d2f341 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -72,7 +72,10 @@ fn main() {
                 if used_cli { input.clone() + "\n" } else { String::new() }
             );
             stdout().flush().unwrap();
-            stdin().read_line(&mut input).expect("failed to read stdin");
+            if stdin().read_line(&mut input).expect("failed to read stdin") == 0 {
+                println!("{RESET}");
+                return;
+            }
         }
         print!("{RESET}");
         stdout().flush().unwrap();
-- 
2.43.0


From eb66341e8469ade2968f702bd3bf702cb5db5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 23/32] fix: / did not return to the default settings in the
 interactive CLI

---
 rs/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 6d2f341..0d69ac4 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -89,7 +89,9 @@ fn main() {
                 println!("{}", *TUI_INSTRUCTIONS);
                 continue;
             }
-            if settings.apply_flags(arg).is_none() {
+            if arg.is_empty() {
+                settings = Settings::default();
+            } else if settings.apply_flags(arg).is_none() {
                 println!("{RED}invalid flags, see {BOLD}/h{RESET}");
             };
             continue;
-- 
2.43.0


From 40dbab481a7bb008750ae5f656fb57884b8f9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 24/32] fix: the CLI compared a cmevla with the best brivla and
 exited with an error (latker)

---
 rs/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 0d69ac4..7373ebc 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -12,6 +12,7 @@ use latkerlo_jvotci::{
     get_lujvo, get_lujvo_with_analytics, get_veljvo,
     katna::{search_selrafsi_from_rafsi, selrafsi_list_from_rafsi_list},
     normalize, score_lujvo,
+    tarmi::BrivlaType,
 };
 
 #[allow(clippy::too_many_lines)]
@@ -131,7 +132,11 @@ fn main() {
                 continue;
             }
             let veljvo = veljvo.unwrap().join(" ");
-            let best = get_lujvo_with_analytics(&veljvo, &settings);
+            // a cmevla is compared with the best cmevla, a brivla with the best brivla
+            let best = get_lujvo_with_analytics(
+                &veljvo,
+                &Settings { generate_cmevla: analysis == BrivlaType::Cmevla, ..settings },
+            );
             if let Ok((best_lujvo, best_score, _)) = best
                 && normalize(&input) != best_lujvo
             {
-- 
2.43.0


From 800f80127f06796bd31430345f958ae3e80ca461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 25/32] fix: the CLI printed the rafsi of an argument twice

---
 rs/src/main.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 7373ebc..2d1b343 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -47,16 +47,6 @@ fn main() {
                 );
                 exit(1);
             }
-            if (i == 0 || i == 1 && args[0].starts_with('-')) && args[i..].len() == 1 {
-                let arg = normalize(arg);
-                if let Some(selrafsi) = search_selrafsi_from_rafsi(&arg) {
-                    println!("{PINK}{{{arg}}} is a rafsi of {{{selrafsi}}}{RESET}");
-                }
-                if let Some(rafsi) = RAFSI.iter().find(|(s, _)| *s == &arg).map(|(_, r)| r) {
-                    let rafsi = rafsi.iter().join(" ");
-                    println!("{PINK}{{{arg}}} has rafsi {{{rafsi}}}{RESET}");
-                }
-            }
             arginput.push(arg);
         }
     }
-- 
2.43.0


From 14a8ac10034812b791fb2308068040fab9bd7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 26/32] fix: analyze_brivla panicked on words with non-ASCII
 characters (rs)

---
 rs/src/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index c719ba3..2a8dd60 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -394,6 +394,10 @@ pub fn analyze_brivla(
     if valsi.is_empty() {
         return Err(NotBrivlaError("empty string".to_string()));
     }
+    // also because slices by byte index would split non-ASCII characters
+    if !valsi.chars().all(|c| is_vowel(c) || is_consonant(c) || "'y".contains(c)) {
+        return Err(NotBrivlaError(format!("{{{valsi}}} contains a non-Lojban character")));
+    }
     if is_consonant(strin!(&valsi, -1)) {
         is_cmetai = true;
     } else if !is_vowel(strin!(&valsi, -1)) {
-- 
2.43.0


From 5c95f41471d4ebac3a91d5a2daa565647090a93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 27/32] fix: analyze_brivla took exponential time on a word
 after many cmavo (rs)

---
 rs/src/tools.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2a8dd60..a484cf8 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -181,6 +181,8 @@ pub fn check_zihevla_or_rafsi(
                         let to_part = strsl!(valsi_, ..*p);
                         let smabru_part = strsl!(valsi_, *p..);
                         (is_vowel(strin!(to_part, -1)) || strin!(to_part, -1) == 'y')
+                            // otherwise this is done again for every part of it
+                            && strsl!(valsi_, *p..pos).chars().filter(|c| is_consonant(*c)).count() <= 1
                             && is_cmavo_compound(to_part)
                             && (is_glide(smabru_part)
                                 || !START_VOWEL_CLUSTERS.iter().any(|v| {
-- 
2.43.0


From b0c7c4a205796f6eeab828df8d8475f836274650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 28/32] fix: get_lujvo raised TypeError on a raw rafsi like
 -tr- with experimental rafsi allowed (js)

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 08d013f..867d3c1 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -100,7 +100,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     const arr = jvokaha2(lujvo, { yHyphens: yHyphens, allowMZ: allowMZ });
     const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
     if (rafsiTanru.length == 1) {
-        throw new TypeError("not enough rafsi");
+        throw new DecompositionError("not enough rafsi");
     }
     let correctLujvo;
     try {
diff --git a/js/src/katna.ts b/js/src/katna.ts
index f933fa6..e2d8255 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -125,7 +125,7 @@ function jvokaha(
 
   const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
   if (rafsiTanru.length == 1) {
-    throw new TypeError("not enough rafsi");
+    throw new DecompositionError("not enough rafsi");
   }
   let correctLujvo: string;
   try {
-- 
2.43.0


From f7c405f085cfb19116c72783e6b4c5b38c9dac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 29/32] fix: rs: refuse a / argument with leading whitespace
 instead of looping forever

---
 rs/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 2d1b343..5bbbc3b 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -40,7 +40,7 @@ fn main() {
                 exit(1);
             }
         } else {
-            if arg.starts_with('/') {
+            if arg.trim_start().starts_with('/') {
                 println!(
                     "{RED}flags starting with {BOLD}/{RESET}{RED} can only be used in interactive \
                      mode{RESET}"
-- 
2.43.0


From 3a38d3332a61c87713a92821e8870c7c2d6a5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 30/32] fix: the interactive CLI quit when the word typed
 scores better than the best lujvo

---
 rs/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 5bbbc3b..c696366 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -182,7 +182,9 @@ fn main() {
                         "{RED}hm, the 'best' lujvo actually has a higher score? that can't be \
                          good...{RESET}"
                     );
-                    exit(1);
+                    if used_cli {
+                        exit(1);
+                    }
                 }
             }
         } else {
-- 
2.43.0


From d9771ed8475a5fbb3e1496c8bd3de89e0a96eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 31/32] fix: experimental rafsi after CVC + y: get_lujvo made
 words that fall apart (laty'a'ykla) and missed ones that do not
 (spageti'ylaty'a)

---
 js/docs/jvozba.js            | 104 ++++++++++++++++++--------------
 js/src/jvozba.ts             | 111 ++++++++++++++++++++---------------
 py/latkerlo_jvotci/jvozba.py |  91 +++++++++++++++-------------
 rs/src/jvozba.rs             | 108 ++++++++++++++++++----------------
 4 files changed, 231 insertions(+), 183 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index d72024c..605d5af 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -10,6 +10,10 @@ var TosyType;
     TosyType[TosyType["Tosmabru"] = 1] = "Tosmabru";
     TosyType[TosyType["Tosyhuhu"] = 2] = "Tosyhuhu";
 })(TosyType || (TosyType = {}));
+// A lujvo's number of consonants is at most 2. NOT_CMAVO is added if it has a
+// y followed by a consonant or glide, so that it is not just cmavo-shaped.
+const NOT_CMAVO = 3;
+const HAS_CLUSTER = 6;
 /**
  * Calculate the lujvo score for a rafsi.
  *
@@ -54,7 +58,8 @@ function processTanru(tanru) {
  * @param isLast True if the rafsi is the last tanru component.
  * @param consonants Which consonant rules to use.
  * @param glides True if glides count as consonants.
- * @returns List of possibly rafsi+hyphen forms.
+ * @returns List of possibly rafsi+hyphen forms, and how many
+    consonants each counts for (HAS_CLUSTER if it contains a cluster).
  */
 function getRafsiForRafsi(rafsi, rType, isFirst, isLast, consonants, // TODO: defaults?
 glides) {
@@ -63,15 +68,15 @@ glides) {
         rafsi = "'" + rafsi;
     if (["SHORT BRIVLA", Tarmi.CCVC, Tarmi.CVCC].includes(rType)) {
         if (!isLast)
-            result.push([rafsi + "y", 2]);
+            result.push([rafsi + "y", HAS_CLUSTER]);
         else if (!isVowel(rafsi.slice(-1)))
-            result.push([rafsi, 2]);
+            result.push([rafsi, HAS_CLUSTER]);
     }
     else if (["LONG BRIVLA", Tarmi.CCVCV, Tarmi.CVCCV].includes(rType)) {
         if (isLast)
-            result.push([rafsi, 2]);
+            result.push([rafsi, HAS_CLUSTER]);
         else
-            result.push([rafsi + "'y", 2]);
+            result.push([rafsi + "'y", HAS_CLUSTER]);
     }
     else if (rType === "EXPERIMENTAL RAFSI") {
         let numConsonants = 0;
@@ -93,11 +98,11 @@ glides) {
         result.push([rafsi, numConsonants]);
     }
     else if (rType === Tarmi.CCV) {
-        result.push([rafsi, 2]);
-        result.push([rafsi + "'y", 2]);
+        result.push([rafsi, HAS_CLUSTER]);
+        result.push([rafsi + "'y", HAS_CLUSTER]);
     }
     else if (rType === Tarmi.CVC) {
-        result.push([rafsi, 2]);
+        result.push([rafsi, HAS_CLUSTER]);
         if (!isLast)
             result.push([rafsi + "y", 2]);
     }
@@ -276,12 +281,13 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     const raftai1 = tarmiIgnoringHyphen(rafsi);
     if (!"y'".includes(lujvoFinal) && raftai1 === Tarmi.OtherRafsi)
         return null;
-    let prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
-    if ([Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(prulamrafsi))
-        && /^[aeiou']+$/.test(rafsi)
-        && (rafsi[0] == "'"
-            || isGlide(rafsi) && !glides && consonants == ConsonantSetting.CLUSTER))
-        return null;
+    const prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
+    if (yHyphens === YHyphenSetting.STANDARD
+        && lujvo.slice(-2) === "'y"
+        && rafsiInitial !== "'"
+        && lujvoConsonants < HAS_CLUSTER
+        && !(generateCmevla && [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(prulamrafsi))))
+        return null; // la ty'a'y mlatu, not laty'a'ymlatu
     let hyphen = "";
     if (lujvoFinal === "'") {
         if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD)
@@ -334,28 +340,24 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     const rafsiStart = lujvo.length + hyphen.length + (rafsi[0] === "'" ? 1 : 0);
     const rafsiEnd = rafsiStart + stripHyphens(rafsi).length;
     indexList = indexList.concat([[rafsiStart, rafsiEnd]]);
-    let newConsonants = rafsiConsonants;
-    if (hyphen.length > 0 && "nr".includes(hyphen)) {
-        newConsonants = 2;
+    // CVC + y is cmavo-shaped (la ty ba ny'a)
+    const isCvcy = raftai1 === Tarmi.CVC && rafsi.slice(-1) === "y";
+    let hasCluster = [lujvoConsonants, rafsiConsonants].includes(HAS_CLUSTER) || ["n", "r"].includes(hyphen);
+    if (!isCvcy) {
+        const lastLetter = lujvo.replace(/['y]+$/, "").slice(-1);
+        const firstLetters = rafsi.replace(/^'+/, "");
+        if (isConsonant(lastLetter) && (isConsonant(firstLetters[0]) || (glides && isGlide(firstLetters))))
+            hasCluster = true;
     }
-    else if (consonants == ConsonantSetting.CLUSTER) {
-        if (rafsiConsonants !== 2) {
-            let i = lujvo.length - 1;
-            while ("'y".includes(lujvo[i]))
-                i -= 1;
-            let j = 0;
-            while (rafsi[j] === "'")
-                j += 1;
-            if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
-                newConsonants = 2;
-            else
-                newConsonants = 0;
-        }
+    else if (hyphen === "" && isVowel(lujvoFinal)) {
+        hasCluster = true;
+    }
+    let totalConsonants = HAS_CLUSTER;
+    if (!hasCluster) {
+        totalConsonants = Math.min(2, lujvoConsonants % NOT_CMAVO + rafsiConsonants);
+        if (lujvoConsonants >= NOT_CMAVO || (rafsiInitial !== "'" && !isCvcy && (lujvo + hyphen).slice(-1) === "y"))
+            totalConsonants += NOT_CMAVO;
     }
-    let totalConsonants = Math.min(2, lujvoConsonants + newConsonants);
-    // vowel-initial rafsi do not stop the word from being cmavo-shaped
-    if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0 && rafsi[0] !== "'")
-        totalConsonants = 2;
     return [
         tosmabruType,
         totalConsonants,
@@ -364,6 +366,14 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         indexList
     ];
 }
+/**
+ * @returns An empty map for each combination of tosmabru type and number
+    of consonants.
+ */
+function emptyBest() {
+    const maps = () => Array.from({ length: HAS_CLUSTER + 1 }, () => new Map());
+    return [maps(), maps(), maps()];
+}
 /**
  * Add the candidate to current_best if it is the best.
  *
@@ -398,7 +408,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
     if (rafsiListList.length < 2)
         throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
-    let currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
+    let currentBest = emptyBest();
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
             let tosmabruType = TosyType.Tosynone;
@@ -411,11 +421,10 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     });
     let previousBest = currentBest;
     rafsiListList.slice(2).forEach((rafsiList) => {
-        currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
-        ;
+        currentBest = emptyBest();
         rafsiList.forEach((rafsi) => {
             for (let tosmabruType = 0; tosmabruType < 3; tosmabruType++) {
-                for (let numConsonants = 0; numConsonants < 3; numConsonants++) {
+                for (let numConsonants = 0; numConsonants <= HAS_CLUSTER; numConsonants++) {
                     previousBest[tosmabruType][numConsonants].forEach((lujvoAndScore, _) => {
                         const result = combine(lujvoAndScore[0], rafsi[0], numConsonants, rafsi[1], lujvoAndScore[1], lujvoAndScore[2], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
                         updateCurrentBest(result, currentBest);
@@ -428,12 +437,19 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     let bestLujvo = "";
     let bestScore = 10 ** 100;
     let bestIndexList = [];
-    previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
-        if ((isVowel(lerfu) && !generateCmevla)
-            || (isConsonant(lerfu) && generateCmevla)) {
-            if (lujvoAndScore[1] < bestScore)
-                [bestLujvo, bestScore, bestIndexList] = lujvoAndScore;
-        }
+    const enoughConsonants = {
+        [ConsonantSetting.CLUSTER]: [HAS_CLUSTER],
+        [ConsonantSetting.TWO_CONSONANTS]: [NOT_CMAVO + 2, HAS_CLUSTER],
+        [ConsonantSetting.ONE_CONSONANT]: [NOT_CMAVO + 1, NOT_CMAVO + 2, HAS_CLUSTER]
+    }[consonants];
+    enoughConsonants.forEach((numConsonants) => {
+        previousBest[0][numConsonants].forEach((lujvoAndScore, lerfu) => {
+            if ((isVowel(lerfu) && !generateCmevla)
+                || (isConsonant(lerfu) && generateCmevla)) {
+                if (lujvoAndScore[1] < bestScore)
+                    [bestLujvo, bestScore, bestIndexList] = lujvoAndScore;
+            }
+        });
     });
     if (bestLujvo === "")
         throw new NoLujvoFoundError("No lujvo found for {" + valsiList.join(" ") + "}");
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 6d6d60b..837f38a 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -13,6 +13,11 @@ enum TosyType {
   Tosyhuhu,
 }
 
+// A lujvo's number of consonants is at most 2. NOT_CMAVO is added if it has a
+// y followed by a consonant or glide, so that it is not just cmavo-shaped.
+const NOT_CMAVO = 3;
+const HAS_CLUSTER = 6;
+
 /**
  * Calculate the lujvo score for a rafsi.
  * 
@@ -62,7 +67,8 @@ function processTanru(tanru: string | string[]): string[] {
  * @param isLast True if the rafsi is the last tanru component.
  * @param consonants Which consonant rules to use.
  * @param glides True if glides count as consonants.
- * @returns List of possibly rafsi+hyphen forms.
+ * @returns List of possibly rafsi+hyphen forms, and how many
+    consonants each counts for (HAS_CLUSTER if it contains a cluster).
  */
 function getRafsiForRafsi(
   rafsi: string,
@@ -79,15 +85,15 @@ function getRafsiForRafsi(
 
   if (["SHORT BRIVLA", Tarmi.CCVC, Tarmi.CVCC].includes(rType)) {
     if (!isLast)
-      result.push([rafsi + "y", 2]);
+      result.push([rafsi + "y", HAS_CLUSTER]);
     else if (!isVowel(rafsi.slice(-1)))
-      result.push([rafsi, 2]);
+      result.push([rafsi, HAS_CLUSTER]);
 
   } else if (["LONG BRIVLA", Tarmi.CCVCV, Tarmi.CVCCV].includes(rType)) {
     if (isLast)
-      result.push([rafsi, 2]);
+      result.push([rafsi, HAS_CLUSTER]);
     else
-      result.push([rafsi + "'y", 2]);
+      result.push([rafsi + "'y", HAS_CLUSTER]);
 
   } else if (rType === "EXPERIMENTAL RAFSI") {
     let numConsonants = 0;
@@ -110,11 +116,11 @@ function getRafsiForRafsi(
     result.push([rafsi, numConsonants]);
 
   } else if (rType === Tarmi.CCV) {
-    result.push([rafsi, 2]);
-    result.push([rafsi + "'y", 2]);
+    result.push([rafsi, HAS_CLUSTER]);
+    result.push([rafsi + "'y", HAS_CLUSTER]);
 
   } else if (rType === Tarmi.CVC) {
-    result.push([rafsi, 2]);
+    result.push([rafsi, HAS_CLUSTER]);
     if (!isLast)
       result.push([rafsi + "y", 2]);
 
@@ -343,16 +349,15 @@ function combine(
   if (!"y'".includes(lujvoFinal) && raftai1 === Tarmi.OtherRafsi)
     return null;
 
-  let prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
+  const prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
   if (
-    [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(prulamrafsi))
-    && /^[aeiou']+$/.test(rafsi)
-    && (
-      rafsi[0] == "'"
-      || isGlide(rafsi) && !glides && consonants == ConsonantSetting.CLUSTER
-    )
+    yHyphens === YHyphenSetting.STANDARD
+    && lujvo.slice(-2) === "'y"
+    && rafsiInitial !== "'"
+    && lujvoConsonants < HAS_CLUSTER
+    && !(generateCmevla && [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(prulamrafsi)))
   )
-    return null;
+    return null;  // la ty'a'y mlatu, not laty'a'ymlatu
 
   let hyphen = "";
   if (lujvoFinal === "'") {
@@ -405,30 +410,24 @@ function combine(
   const rafsiEnd = rafsiStart + stripHyphens(rafsi).length;
   indexList = indexList.concat([[rafsiStart, rafsiEnd]]);
 
-  let newConsonants = rafsiConsonants
-  if (hyphen.length > 0 && "nr".includes(hyphen)) {
-    newConsonants = 2;
-  } else if (consonants == ConsonantSetting.CLUSTER) {
-    if (rafsiConsonants !== 2) {
-      let i = lujvo.length - 1;
-      while ("'y".includes(lujvo[i]))
-        i -= 1;
-
-      let j = 0;
-      while (rafsi[j] === "'")
-        j += 1;
-
-      if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
-        newConsonants = 2;
-      else
-        newConsonants = 0;
-    }
+  // CVC + y is cmavo-shaped (la ty ba ny'a)
+  const isCvcy = raftai1 === Tarmi.CVC && rafsi.slice(-1) === "y";
+  let hasCluster = [lujvoConsonants, rafsiConsonants].includes(HAS_CLUSTER) || ["n", "r"].includes(hyphen);
+  if (!isCvcy) {
+    const lastLetter = lujvo.replace(/['y]+$/, "").slice(-1);
+    const firstLetters = rafsi.replace(/^'+/, "");
+    if (isConsonant(lastLetter) && (isConsonant(firstLetters[0]) || (glides && isGlide(firstLetters))))
+      hasCluster = true;
+  } else if (hyphen === "" && isVowel(lujvoFinal)) {
+    hasCluster = true;
   }
 
-  let totalConsonants = Math.min(2, lujvoConsonants + newConsonants);
-  // vowel-initial rafsi do not stop the word from being cmavo-shaped
-  if (consonants === ConsonantSetting.ONE_CONSONANT && totalConsonants > 0 && rafsi[0] !== "'")
-    totalConsonants = 2;
+  let totalConsonants = HAS_CLUSTER;
+  if (!hasCluster) {
+    totalConsonants = Math.min(2, lujvoConsonants % NOT_CMAVO + rafsiConsonants);
+    if (lujvoConsonants >= NOT_CMAVO || (rafsiInitial !== "'" && !isCvcy && (lujvo + hyphen).slice(-1) === "y"))
+      totalConsonants += NOT_CMAVO;
+  }
 
   return [
     tosmabruType,
@@ -439,6 +438,15 @@ function combine(
   ];
 }
 
+/**
+ * @returns An empty map for each combination of tosmabru type and number
+    of consonants.
+ */
+function emptyBest(): bestLujvoMap[][] {
+  const maps = () => Array.from({ length: HAS_CLUSTER + 1 }, (): bestLujvoMap => new Map());
+  return [maps(), maps(), maps()];
+}
+
 /**
  * Add the candidate to current_best if it is the best.
  * 
@@ -448,7 +456,7 @@ function combine(
  */
 function updateCurrentBest(
   candidate: [TosyType, number, number, string, [number, number][]] | null,
-  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][]
+  currentBest: bestLujvoMap[][]
 ) {
   if (candidate == null)
     return;
@@ -487,7 +495,7 @@ function getLujvoFromList(
   const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
   if (rafsiListList.length < 2)
     throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
-  let currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][] = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
+  let currentBest = emptyBest();
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
       let tosmabruType = TosyType.Tosynone;
@@ -514,10 +522,10 @@ function getLujvoFromList(
   });
   let previousBest = currentBest;
   rafsiListList.slice(2).forEach((rafsiList) => {
-    currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];;
+    currentBest = emptyBest();
     rafsiList.forEach((rafsi) => {
       for (let tosmabruType = 0; tosmabruType < 3; tosmabruType++) {
-        for (let numConsonants = 0; numConsonants < 3; numConsonants++) {
+        for (let numConsonants = 0; numConsonants <= HAS_CLUSTER; numConsonants++) {
           previousBest[tosmabruType][numConsonants].forEach((lujvoAndScore, _) => {
             const result = combine(
               lujvoAndScore[0],
@@ -544,12 +552,19 @@ function getLujvoFromList(
   let bestLujvo = "";
   let bestScore = 10 ** 100;
   let bestIndexList: [number, number][] = [];
-  previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
-    if ((isVowel(lerfu) && !generateCmevla)
-      || (isConsonant(lerfu) && generateCmevla)) {
-      if (lujvoAndScore[1] < bestScore)
-        [bestLujvo, bestScore, bestIndexList] = lujvoAndScore;
-    }
+  const enoughConsonants = {
+    [ConsonantSetting.CLUSTER]: [HAS_CLUSTER],
+    [ConsonantSetting.TWO_CONSONANTS]: [NOT_CMAVO + 2, HAS_CLUSTER],
+    [ConsonantSetting.ONE_CONSONANT]: [NOT_CMAVO + 1, NOT_CMAVO + 2, HAS_CLUSTER]
+  }[consonants];
+  enoughConsonants.forEach((numConsonants) => {
+    previousBest[0][numConsonants].forEach((lujvoAndScore, lerfu) => {
+      if ((isVowel(lerfu) && !generateCmevla)
+        || (isConsonant(lerfu) && generateCmevla)) {
+        if (lujvoAndScore[1] < bestScore)
+          [bestLujvo, bestScore, bestIndexList] = lujvoAndScore;
+      }
+    });
   });
   if (bestLujvo === "")
     throw new NoLujvoFoundError("No lujvo found for {" + valsiList.join(" ") + "}");
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 8c01db7..8314aa4 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -16,6 +16,12 @@ TOSMABRU = 1
 TOSYhUhU = 2
 
 
+# A lujvo's number of consonants is at most 2. NOT_CMAVO is added if it has a
+# y followed by a consonant or glide, so that it is not just cmavo-shaped.
+NOT_CMAVO = 3
+HAS_CLUSTER = 6
+
+
 def score(rafsi: str) -> int:
     """
     Calculate the lujvo score for a rafsi.
@@ -84,7 +90,8 @@ def get_rafsi_for_rafsi(
     :param is_last: True if the rafsi is the last tanru component.
     :param consonants: Which consonant rules to use.
     :param glides: True if glides count as consonants.
-    :return: List of possibly rafsi+hyphen forms.
+    :return: List of possibly rafsi+hyphen forms, and how many
+    consonants each counts for (HAS_CLUSTER if it contains a cluster).
     """
     result: list[tuple[str, int]] = []
 
@@ -93,15 +100,15 @@ def get_rafsi_for_rafsi(
 
     if r_type in ["SHORT BRIVLA", CCVC, CVCC]:
         if not is_last:
-            result.append((rafsi + "y", 2))
+            result.append((rafsi + "y", HAS_CLUSTER))
         elif not is_vowel(rafsi[-1]):
-            result.append((rafsi, 2))
+            result.append((rafsi, HAS_CLUSTER))
 
     elif r_type in ["LONG BRIVLA", CCVCV, CVCCV]:
         if is_last:
-            result.append((rafsi, 2))
+            result.append((rafsi, HAS_CLUSTER))
         else:
-            result.append((rafsi + "'y", 2))
+            result.append((rafsi + "'y", HAS_CLUSTER))
 
     elif r_type == "EXPERIMENTAL RAFSI":
         if consonants != CLUSTER and (is_consonant(rafsi[0]) or (glides and is_glide(rafsi))):
@@ -128,11 +135,11 @@ def get_rafsi_for_rafsi(
         result.append((rafsi, num_consonants))
 
     elif r_type == CCV:
-        result.append((rafsi, 2))
-        result.append((rafsi + "'y", 2))
+        result.append((rafsi, HAS_CLUSTER))
+        result.append((rafsi + "'y", HAS_CLUSTER))
 
     elif r_type == CVC:
-        result.append((rafsi, 2))
+        result.append((rafsi, HAS_CLUSTER))
         if not is_last:
             result.append((rafsi + "y", 2))
 
@@ -282,7 +289,7 @@ def get_rafsi_list_list(
 def combine(
         lujvo: str,
         rafsi: str,
-        lujvo_consonants: int,  # Max 2, so we can use it as an index
+        lujvo_consonants: int,  # Max HAS_CLUSTER, so we can use it as an index
         rafsi_consonants: int,
         lujvo_score: int,
         index_list: [(int, int)],
@@ -327,8 +334,9 @@ def combine(
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
     prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
-        return
+    if y_hyphens == STANDARD and lujvo.endswith("'y") and rafsi[0] != "'" and lujvo_consonants < HAS_CLUSTER and \
+            not (generate_cmevla and rafsi_tarmi(prulamrafsi) in [CVV, CVhV]):
+        return  # la ty'a'y mlatu, not laty'a'ymlatu
     hyphen = ""
     if lujvo[-1] == "'":
         if rafsi[0] == "'" or y_hyphens != STANDARD:
@@ -372,28 +380,23 @@ def combine(
     rafsi_end = rafsi_start + len(strip_hyphens(rafsi))
     index_list = index_list + [(rafsi_start, rafsi_end)]
 
-    new_consonants = rafsi_consonants
-    if hyphen and hyphen in "nr":
-        new_consonants = 2
-    elif consonants == CLUSTER:
-        if rafsi_consonants != 2:
-            i = -1
-            while lujvo[i] in "'y":
-                i -= 1
-
-            j = 0
-            while rafsi[j] == "'":
-                j += 1
-
-            if is_consonant(lujvo[i]) and (is_consonant(rafsi[j]) or (glides and is_glide(rafsi[j:]))):
-                new_consonants = 2
-            else:
-                new_consonants = 0
-
-    total_consonants = min(2, lujvo_consonants + new_consonants)
-    # vowel-initial rafsi do not stop the word from being cmavo-shaped
-    if consonants == ONE_CONSONANT and total_consonants > 0 and rafsi[0] != "'":
-        total_consonants = 2
+    # CVC + y is cmavo-shaped (la ty ba ny'a)
+    is_cvcy = raftai_1 == CVC and rafsi[-1] == "y"
+    has_cluster = HAS_CLUSTER in [lujvo_consonants, rafsi_consonants] or hyphen in ["n", "r"]
+    if not is_cvcy:
+        last_letter = lujvo.rstrip("'y")[-1]
+        first_letters = rafsi.lstrip("'")
+        if is_consonant(last_letter) and (is_consonant(first_letters[0]) or (glides and is_glide(first_letters))):
+            has_cluster = True
+    elif not hyphen and is_vowel(lujvo[-1]):
+        has_cluster = True
+
+    if has_cluster:
+        total_consonants = HAS_CLUSTER
+    else:
+        total_consonants = min(2, lujvo_consonants % NOT_CMAVO + rafsi_consonants)
+        if lujvo_consonants >= NOT_CMAVO or (rafsi[0] != "'" and not is_cvcy and (lujvo + hyphen)[-1] == "y"):
+            total_consonants += NOT_CMAVO
 
     res = lujvo + hyphen + rafsi
     return (
@@ -448,7 +451,7 @@ def get_lujvo_from_list(
     rafsi_list_list = get_rafsi_list_list(valsi_list, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     if len(rafsi_list_list) < 2:
         raise NoLujvoFoundError(f"Not enough words to make a lujvo: {{{' '.join(valsi_list)}}}")
-    current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
+    current_best = [[{} for _ in range(HAS_CLUSTER + 1)] for _ in range(3)]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
             if tarmi_ignoring_hyphen(rafsi0) != CVC or generate_cmevla:
@@ -473,10 +476,10 @@ def get_lujvo_from_list(
             update_current_best(result, current_best)
     previous_best = current_best
     for rafsi_list in rafsi_list_list[2:]:
-        current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
+        current_best = [[{} for _ in range(HAS_CLUSTER + 1)] for _ in range(3)]
         for rafsi, rafsi_consonants in rafsi_list:
             for tosmabru_type in range(3):
-                for num_consonants in range(3):
+                for num_consonants in range(HAS_CLUSTER + 1):
                     for lerfu in previous_best[tosmabru_type][num_consonants]:
                         result = combine(
                             previous_best[tosmabru_type][num_consonants][lerfu][0],
@@ -497,11 +500,17 @@ def get_lujvo_from_list(
     best_lujvo = None
     best_score = 10**100
     best_index_list = None
-    for lerfu, lujvo_and_score in previous_best[0][2].items():
-        if (is_vowel(lerfu) and not generate_cmevla) or \
-                (is_consonant(lerfu) and generate_cmevla):
-            if lujvo_and_score[1] < best_score:
-                best_lujvo, best_score, best_index_list = lujvo_and_score
+    enough_consonants = {
+        CLUSTER: [HAS_CLUSTER],
+        TWO_CONSONANTS: [NOT_CMAVO + 2, HAS_CLUSTER],
+        ONE_CONSONANT: [NOT_CMAVO + 1, NOT_CMAVO + 2, HAS_CLUSTER]
+    }[consonants]
+    for num_consonants in enough_consonants:
+        for lerfu, lujvo_and_score in previous_best[0][num_consonants].items():
+            if (is_vowel(lerfu) and not generate_cmevla) or \
+                    (is_consonant(lerfu) and generate_cmevla):
+                if lujvo_and_score[1] < best_score:
+                    best_lujvo, best_score, best_index_list = lujvo_and_score
     if best_lujvo is None:
         raise NoLujvoFoundError(f"No lujvo found for {{{' '.join(valsi_list)}}}")
     if not generate_cmevla and is_slinkuhi(best_lujvo, y_hyphens=y_hyphens, allow_mz=allow_mz):
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 1f7884a..712f795 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -18,7 +18,7 @@ use crate::{
     strin, strsl,
     tarmi::{
         BrivlaType::{Gismu, Rafsi, Zihevla},
-        ConsonantSetting::{Cluster, OneConsonant},
+        ConsonantSetting::{Cluster, OneConsonant, TwoConsonants},
         Settings,
         Tarmi::{Ccv, Ccvc, Cvc, Cvcc, Cvccv, Cvhv, Cvv, OtherRafsi},
         YHyphenSetting::{ForceY, Standard},
@@ -44,6 +44,12 @@ pub enum Tosytype {
 }
 use Tosytype::{Tosmabru, Tosyhuhu, Tosynone};
 
+/// A lujvo's number of consonants is at most 2. `NOT_CMAVO` is added if it has a
+/// *y* followed by a consonant or glide, so that it is not just cmavo-shaped.
+pub const NOT_CMAVO: i32 = 3;
+/// The number of consonants of a lujvo or rafsi that contains a cluster.
+pub const HAS_CLUSTER: i32 = 6;
+
 /// Calculates the score for a rafsi (possibly including a hyphen). Use
 /// [`score_lujvo`][`crate::score_lujvo`] to find the score of a lujvo.
 /// # Panics
@@ -72,7 +78,8 @@ pub fn process_tanru(tanru: &str) -> Vec<String> {
     tanru.split_whitespace().map(normalize).collect_vec()
 }
 
-/// Finds possible rafsi-hyphen combinations.
+/// Finds possible rafsi-hyphen combinations, and how many consonants each
+/// counts for ([`HAS_CLUSTER`] if it contains a cluster).
 /// # Errors
 /// This *should* always be `Ok`. It will only `Err` if it encounters an
 /// unexpected `r_type`, which should never happen.
@@ -92,16 +99,16 @@ pub fn get_rafsi_for_rafsi(
     match r_type {
         "ShortBrivla" | "Ccvc" | "Cvcc" => {
             if !last {
-                res.push((format!("{r}y"), 2));
+                res.push((format!("{r}y"), HAS_CLUSTER));
             } else if !is_vowel(strin!(&r, -1)) {
-                res.push((r, 2));
+                res.push((r, HAS_CLUSTER));
             }
         }
         "LongBrivla" | "Ccvcv" | "Cvccv" => {
             if last {
-                res.push((r, 2));
+                res.push((r, HAS_CLUSTER));
             } else {
-                res.push((format!("{r}'y"), 2));
+                res.push((format!("{r}'y"), HAS_CLUSTER));
             }
         }
         "ExperimentalRafsi" => {
@@ -126,11 +133,11 @@ pub fn get_rafsi_for_rafsi(
             res.push((r, num_consonants));
         }
         "Ccv" => {
-            res.push((r.clone(), 2));
-            res.push((format!("{r}'y"), 2));
+            res.push((r.clone(), HAS_CLUSTER));
+            res.push((format!("{r}'y"), HAS_CLUSTER));
         }
         "Cvc" => {
-            res.push((r.clone(), 2));
+            res.push((r.clone(), HAS_CLUSTER));
             if !last {
                 res.push((format!("{r}y"), 2));
             }
@@ -390,12 +397,12 @@ pub fn combine(
             .contains(&format!("{lujvo_f}{rafsi_i}").as_str())
         || BANNED_TRIPLES.contains(&format!("{lujvo_f}{}", strsl!(rafsi, 0..2)).as_str())
         || !"y'".contains(lujvo_f) && raftai1 == OtherRafsi
-        || [Cvv, Cvc].contains(&rafsi_tarmi(prulamrafsi))
-            && rafsi.chars().all(|c| "aeiou'".contains(c))
-            && (rafsi.starts_with('\'')
-                || is_glide(rafsi)
-                    && !settings.glides
-                    && settings.consonants == Cluster)
+        // la ty'a'y mlatu, not laty'a'ymlatu
+        || settings.y_hyphens == Standard
+            && lujvo.ends_with("'y")
+            && rafsi_i != '\''
+            && lujvo_c < HAS_CLUSTER
+            && !(settings.generate_cmevla && [Cvv, Cvhv].contains(&rafsi_tarmi(prulamrafsi)))
     {
         return None;
     }
@@ -450,27 +457,29 @@ pub fn combine(
     let rafsi_start = lujvo.len() + hyphen.len() + (strin!(rafsi, 0) == '\'') as usize;
     let rafsi_end = rafsi_start + strip_hyphens(rafsi).len();
     let indices = indices.iter().chain(&[[rafsi_start, rafsi_end]]).copied().collect_vec();
-    let mut new_c = rafsi_c;
-    if !hyphen.is_empty() && "nr".contains(hyphen) {
-        new_c = 2;
-    } else if settings.consonants == Cluster && rafsi_c != 2 {
-        let mut i = lujvo.len() as isize - 1;
-        while "'y".contains(strin!(lujvo, i)) {
-            i -= 1;
-        }
-        let mut j = 0;
-        while strin!(rafsi, j) == '\'' {
-            j += 1;
+    // CVC + y is cmavo-shaped (la ty ba ny'a)
+    let is_cvcy = raftai1 == Cvc && rafsi.ends_with('y');
+    let mut has_cluster = [lujvo_c, rafsi_c].contains(&HAS_CLUSTER) || ["n", "r"].contains(&hyphen);
+    if !is_cvcy {
+        let last_letter = strin!(lujvo.trim_end_matches(['\'', 'y']), -1);
+        let first_letters = rafsi.trim_start_matches('\'');
+        if is_consonant(last_letter)
+            && (is_consonant(strin!(first_letters, 0))
+                || settings.glides && is_glide(first_letters))
+        {
+            has_cluster = true;
         }
-        new_c = (is_consonant(strin!(lujvo, i))
-            && (is_consonant(strin!(rafsi, j)) || settings.glides && is_glide(strsl!(rafsi, j..))))
-            as i32
-            * 2;
+    } else if hyphen.is_empty() && is_vowel(lujvo_f) {
+        has_cluster = true;
     }
-    let mut total_c = 2.min(lujvo_c + new_c);
-    // vowel-initial rafsi do not stop the word from being cmavo-shaped
-    if settings.consonants == OneConsonant && total_c > 0 && strin!(rafsi, 0) != '\'' {
-        total_c = 2;
+    let mut total_c = HAS_CLUSTER;
+    if !has_cluster {
+        total_c = 2.min(lujvo_c % NOT_CMAVO + rafsi_c);
+        if lujvo_c >= NOT_CMAVO
+            || rafsi_i != '\'' && !is_cvcy && (lujvo_f == 'y' && hyphen.is_empty() || hyphen.ends_with('y'))
+        {
+            total_c += NOT_CMAVO;
+        }
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
     let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak(&res);
@@ -484,8 +493,8 @@ type BestLujvoMap = IndexMap<char, (String, i32, Vec<[usize; 2]>)>;
 #[must_use]
 pub fn update_current_best(
     candidate: Candidate,
-    mut current_best: [[BestLujvoMap; 3]; 3],
-) -> [[BestLujvoMap; 3]; 3] {
+    mut current_best: [[BestLujvoMap; HAS_CLUSTER as usize + 1]; 3],
+) -> [[BestLujvoMap; HAS_CLUSTER as usize + 1]; 3] {
     if candidate.is_none() {
         return current_best;
     }
@@ -521,11 +530,7 @@ pub fn get_lujvo_from_list(
         valsi_list,
         &extract!(settings; y_hyphens, exp_rafsi, consonants, glides, allow_mz),
     );
-    let mut current_best = [
-        [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-        [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-        [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-    ];
+    let mut current_best = <[[BestLujvoMap; HAS_CLUSTER as usize + 1]; 3]>::default();
     let rafsi_list_list = rafsi_list_list?;
     if rafsi_list_list.len() < 2 {
         return Err(FakeTypeError(format!("{{{}}} is less than 2 words", valsi_list.join(" "))));
@@ -561,21 +566,17 @@ pub fn get_lujvo_from_list(
     }
     let mut previous_best = current_best;
     for rafsi_list in rafsi_list_list.iter().skip(2) {
-        current_best = [
-            [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-            [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-            [BestLujvoMap::new(), BestLujvoMap::new(), BestLujvoMap::new()],
-        ];
+        current_best = <[[BestLujvoMap; HAS_CLUSTER as usize + 1]; 3]>::default();
         for rafsi in rafsi_list {
             for tosmabru_type in [Tosynone, Tosmabru, Tosyhuhu] {
-                for (num_consonants, _) in previous_best.iter().enumerate() {
+                for num_consonants in 0..=HAS_CLUSTER {
                     for (_, lujvo_and_score) in
-                        &previous_best[tosmabru_type as usize][num_consonants]
+                        &previous_best[tosmabru_type as usize][num_consonants as usize]
                     {
                         let res = combine(
                             &lujvo_and_score.0,
                             &rafsi.0,
-                            num_consonants as i32,
+                            num_consonants,
                             rafsi.1,
                             lujvo_and_score.1,
                             &lujvo_and_score.2,
@@ -598,7 +599,14 @@ pub fn get_lujvo_from_list(
         previous_best = current_best;
     }
     let (mut best_lujvo, mut best_score, mut best_indices) = (String::new(), i32::MAX, vec![]);
-    for (c, lujvo_and_score) in &previous_best[0][2] {
+    let enough_consonants = match settings.consonants {
+        Cluster => vec![HAS_CLUSTER],
+        TwoConsonants => vec![NOT_CMAVO + 2, HAS_CLUSTER],
+        OneConsonant => vec![NOT_CMAVO + 1, NOT_CMAVO + 2, HAS_CLUSTER],
+    };
+    for (c, lujvo_and_score) in
+        enough_consonants.iter().flat_map(|n| &previous_best[0][*n as usize])
+    {
         if (is_vowel(*c) && !settings.generate_cmevla
             || is_consonant(*c) && settings.generate_cmevla)
             && lujvo_and_score.1 < best_score
-- 
2.43.0


From 9c042a289a3c408de29265428f87d7b9119a9504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 32/32] fix: the Python jvozba prompt died on a rafsi with an
 invalid cluster

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 8314aa4..8ce0d3b 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -634,5 +634,5 @@ if __name__ == "__main__":
             print(get_lujvo_with_analytics(string,
                             generate_cmevla=cmevla_setting, y_hyphens=y_setting,
                             exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
+        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError, InvalidClusterError) as e:
             print(e)
-- 
2.43.0

