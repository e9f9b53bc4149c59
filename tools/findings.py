#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (with their commits in /repo) and open ones."""
import json, subprocess, os
FIXED = [  # (property, start of the commit message, what failed)
 ("C01", "fix: apply the intents filter also", "an excluded intent was returned by a classifier with at most one intent, without features or for the empty text"),
 ("C07", "fix: leave the intent of the top result", "with a filter, or when another parser ranks differently, the best alternative was skipped or the top intent repeated"),
 ("C03", "fix: order intents of equal score", "intents of equal score came in hash table order from get_intents"),
 ("C04", "fix: return the text typed by the user", "extract_slot returned the lowercased, re-tokenized value as raw value"),
 ("C04", "fix: keep character ranges valid", "text with a character whose lower case has more characters shifted the ranges of all later slots"),
 ("C03", "fix: compute the scores of ambiguous", "five intents with 0, 1, 5, 5, 5 slots: score 0.5 or 0.50000006 (intent returned or not) depending on hash table order"),
 ("C11", "fix: do not match an input that contains", "a text containing an entity placeholder ('tea %DRINK%') panicked (debug) or was recognised without its slots"),
 ("C24", "fix: keep the spelling of word clusters", "a word cluster written 0010 was read as the number 10"),
 ("C22", "fix: refuse a word clusters file without", "an empty word clusters file, or a line without a cluster, panicked"),
 ("C20", "fix: refuse tagging scheme codes of features", "tagging_scheme_code 256 of an entity_match feature was read as 0 (BIO)"),
 ("C20", "fix: refuse a gazetteer name of an n-gram", "common_words_gazetteer_name 3 was read as if there were none"),
 ("C22", "fix: return an error when a file of the engine archive", "an archive with a file and a directory of the same name, or a full disk, panicked"),
 ("C22", "fix: do not overflow on features with extreme offsets", "offset -2147483648 panicked (debug) or read features of other tokens"),
 ("C22", "fix: refuse a lookup table with unknown", "a lookup table with an unknown intent or slot id panicked on the utterance"),
 ("C22", "fix: refuse a pattern with groups of unknown slots", "a pattern group without a slot, or a slot without an entity, panicked on a match"),
 ("C22", "fix: do not overflow on n-gram features", "n = 18446744073709551615 panicked (debug) or indexed out of bounds"),
 ("C22", "fix: refuse a vocabulary whose indexes", "a vocabulary index without an idf, or an empty vocabulary, panicked on a query"),
 ("C22", "fix: refuse word pairs whose indexes", "a word pair index out of bounds, or window_size 18446744073709551615, panicked on a query"),
 ("C22", "fix: refuse inconsistent coefficients", "coeffs without rows, or with rows of other lengths, panicked while loading"),
 ("C22", "fix: do not panic when the path of a model", "loading a missing model from a directory whose name is not UTF-8 panicked"),
 ("C26", "fix: recognise injected values with punctuation", "an injected value such as Jean-Pierre or İzmir was never recognised"),
 ("C27", "fix: do not write any injected parser before", "when the parser of one entity of a request could not be read, others had been injected already"),
 ("C28", "fix: do not lose the values of an entity when", "a stop or an I/O error while the parser directory was replaced lost all values of the entity, and the engine did not load any more"),
 ("C23", "fix: do not overflow when replacing the entities", "an entity after character 32767 of a text made the deterministic parser panic (debug) or return ranges outside of the text"),
 ("C23", "fix: do not enumerate subsets of entities", "a text with thirty entities made the lookup parser exhaust the memory"),
 ("C30", "fix: C30 report null pointers given", "a null element of a filter crashed the process, as did a null archive or a negative size"),
]
OPEN = []
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for p, m, w in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(m)]
    assert len(h) == 1, m
    fixed.append(f"fixed: property={p} {h[0]} {w}")
json.dump({"open": [{"property": p, "key": k, "what": w} for p, k, w in OPEN], "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
