#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": state or [], "observe_at": observe, "hook_needed": None}})

E = "src/nlu_engine.rs"
prop("C01", "Intent whitelists and blacklists are honoured everywhere",
 """Whatever whitelist and/or blacklist a parse query gives, every intent it returns, as the top result or as an alternative, is either 'no intent'
 or an intent that is in the whitelist (if given) and not in the blacklist (if given), and every allowed intent stays eligible: an intent is left out only because the
 filter excludes it. A filter naming an intent the engine was not trained on makes the query fail. Passing no filter is the same as whitelisting every intent.""",
 ["inputs", "configurations"], "every input, every whitelist/blacklist pair, every pipeline of intent parsers and every trained model",
 "the unit tests use one mocked parser and two filters; filtering has to be applied by each of three parsers, on each of their paths (single intent, empty input, untrained classifier), and again for alternatives",
 [E, "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/utils.rs"],
 [("whitelist computed from whitelist and blacklist", E), ("per-parser filtering", "src/intent_parser/"), ("filtering of classifier results", "src/intent_classifier/log_reg_intent_classifier.rs")],
 ["SnipsNluEngine::parse", "SnipsNluEngine::parse_with_alternatives"])

prop("C02", "get_intents returns a complete, correctly merged ranking",
 """The intent ranking of a query contains every intent the engine was trained on (every parser of an engine knows them all) and the 'no intent' entry, each exactly once, in non-increasing order of score, with all scores between 0 and 1.
 With several parsers, the score of an entry is the highest score any parser gives it.""",
 ["inputs", "configurations"], "every input and every pipeline of intent parsers", "tests look at one mocked two-parser merge on one sentence",
 [E, "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs", "src/intent_parser/probabilistic_intent_parser.rs", "src/intent_classifier/log_reg_intent_classifier.rs"],
 [("merge of the parsers' rankings by maximum score", E), ("completion with unmatched intents at score 0", "src/intent_parser/")],
 ["SnipsNluEngine::get_intents", "IntentParser::get_intents"])

prop("C03", "Answers depend only on the model and the query",
 """Two engines loaded from the same model directory answer every query identically (top intent, scores, order of the ranking and of the alternatives, slots and resolved values), in whichever process they
 run and however the process orders its hash tables. Repeating a query on one engine gives the same answer.""",
 ["inputs", "configurations", "histories"], "every iteration order of the hash tables, every model, every query",
 "a test run sees a single random hash order and rarely an actual tie between intents",
 [E, "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs", "src/intent_classifier/featurizer.rs"],
 [("sorting of the results", E), ("ambiguity rule: no intent when no candidate exceeds one half", "src/intent_parser/")],
 ["SnipsNluEngine::parse_with_alternatives", "SnipsNluEngine::get_intents"])

prop("C04", "Slot ranges and raw values point at the input text",
 """Every slot returned by any query has a non-empty range in characters that lies inside the input, and its raw value is exactly the input text at that range, with the case, accents, punctuation and spacing the user typed.
 The slots of one result are in order of position and never overlap.""",
 ["inputs", "configurations"], "every input text, including multi-byte characters, characters whose lower case has another length, repeated and unusual separators, and every slot-producing path (patterns, lookup table, sequence tagger, single-slot extraction)",
 "tests use a dozen ASCII or accented sentences; an offset error needs the right mix of widths, entity replacement and position",
 [E, "src/slot_utils.rs", "src/utils.rs", "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs", "src/slot_filler/crf_utils.rs", "src/entity_parser/custom_entity_parser.rs", "src/entity_parser/builtin_entity_parser.rs"],
 [("range mapping after entity replacement", "src/utils.rs, src/intent_parser/deterministic_intent_parser.rs"), ("shift computation after re-tokenization", "src/entity_parser/custom_entity_parser.rs"), ("overlap removal", "src/utils.rs")],
 ["Slot.range", "Slot.raw_value"])

prop("C05", "Slots conform to the intent's declared slots",
 """Every slot returned for an intent has a slot name declared for that intent, the entity declared for that slot, and a value of the kind of that entity: a custom value for a custom entity, a value of the builtin kind for a builtin entity.
 A 'no intent' result has no slots.""",
 ["inputs", "configurations"], "every input, filter, pipeline and trained model", "tests check named slots of a few sentences",
 [E, "src/slot_utils.rs", "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs", "src/slot_filler/crf_utils.rs"],
 [("slot name to entity mapping", "src/intent_parser/, src/slot_filler/"), ("resolution by entity kind", "src/slot_utils.rs")],
 ["IntentParserResult.slots", "IntentParserAlternative.slots", "SnipsNluEngine::get_slots"])

prop("C06", "Slot values are resolved against the right entity values",
 """A slot of a custom entity whose text is a known value of that entity is resolved to that value's canonical form with the entity's other candidates as alternatives; if its text is not a known value it keeps its raw text when the entity accepts
 unknown values, and is dropped when it does not. A slot of a builtin entity carries the value the builtin parser gives for the slot's text, and is dropped when there is none.
 At most the requested number of alternative values is attached to a slot, best first.""",
 ["inputs", "configurations"], "every text, slot position, entity configuration and number of alternatives", "tests cover six hand-written resolutions with mocked parsers",
 ["src/slot_utils.rs", E], [("resolution of custom and builtin slots", "src/slot_utils.rs"), ("entities extracted once on the whole text, then on the slot's text", E)],
 ["Slot.value", "Slot.alternatives", "SnipsNluEngine::parse_with_alternatives", "SnipsNluEngine::get_slots_with_alternatives"])

prop("C07", "Alternatives extend the top result and never repeat it",
 """Asking for n alternative intents leaves the input, intent and slots of the top result unchanged and adds at most n alternatives: distinct intents taken from the top of the query's ranking, in ranking order, never the intent of the top result.
 Each alternative carries the slots that a slots query for its intent returns, and fewer than n alternatives are returned only when no eligible intent is left.""",
 ["inputs", "configurations"], "every input, filter, pipeline, n and number of slot alternatives", "one mocked test with one alternative",
 [E], [("alternatives taken from the filtered ranking", E)], ["IntentParserResult.alternatives"])

prop("C08", "Slots queries name a known intent and follow the parser order",
 """A slots query for an intent the engine was not trained on fails (every parser of an engine knows the same intents). For a known intent it returns the resolved slots of the first parser, in configuration order, that finds any slot for that intent in the text, and an empty list when none does.
 The result does not depend on which intent the text would be classified as.""",
 ["inputs", "configurations"], "every text, intent name and pipeline", "tests query two intents on two sentences",
 [E, "src/intent_parser/"], [("first non-empty slots win", E), ("unknown intent errors", "src/intent_parser/")], ["SnipsNluEngine::get_slots", "SnipsNluEngine::get_slots_with_alternatives", "IntentParser::get_slots"])

prop("C09", "The first parser that recognises an intent decides",
 """The result of a parse is the intent, score and slots of the first parser in configuration order that recognises an allowed intent; parsers after it have no influence.
 When no parser recognises an intent, the result is 'no intent' with the score of the last parser and no slots, and an error of a consulted parser fails the query.""",
 ["inputs", "configurations", "fault_sequences"], "every input, every sequence of parsers (including none), every failing call to an entity parser", "one mocked two-parser test",
 [E], [("cascade over the parsers", E)], ["SnipsNluEngine::parse"])

D = "src/intent_parser/deterministic_intent_parser.rs"
prop("C10", "Pattern parser: exact match, entity placeholders, ambiguity rule",
 """The pattern-based parser recognises an intent exactly when the text, or the text with its entities replaced by placeholders, with the intent's stop words blanked out, matches one of the intent's patterns regardless of case; its slots are the named
 groups of the first matching pattern, mapped back to the original text. When several intents match, the scores are proportional to 1/(1 + number of slots) and sum to one, and an intent is returned only if its score exceeds one half.""",
 ["inputs", "configurations"], "every text and every set of patterns, entities, stop words and stop-word exceptions", "a score of examples; the mapping back through placeholders of other lengths and stop words is combinatorial",
 [D, "src/utils.rs"], [("matching raw then formatted text", D), ("entity replacement and range mapping", "src/utils.rs"), ("stop words per intent", D)],
 ["IntentParser for DeterministicIntentParser", "SnipsNluEngine::parse"])

L = "src/intent_parser/lookup_intent_parser.rs"
prop("C11", "Lookup parser: exactly the stored utterances, for any entity choice",
 """The lookup parser recognises an intent exactly when the normalised text, with some subset of the entities it contains replaced by placeholders and the intent's stop words removed, is a stored utterance of an allowed intent; its slots are the replaced entities in order,
 labelled with the stored slot names. Ambiguity is resolved as for patterns: scores proportional to 1/(1 + number of slots), an intent returned only above one half.""",
 ["inputs", "configurations"], "every text, table of utterances, grouping of intents into entity scopes, stop words and filter", "tests cover single-group examples; the subset enumeration and the interaction of scopes with filters are combinatorial",
 [L, "src/utils.rs"], [("candidates over all entity subsets", L), ("lookup by hash of the normalised text", L)], ["IntentParser for LookupIntentParser", "SnipsNluEngine::parse"])

prop("C12", "Classifier parser: the classifier's intent with that intent's slots",
 """The probabilistic parser returns the best allowed intent of its classifier with the classifier's score, and the slots tagged by the model trained for that very intent; with no intent there are no slots.
 An empty text, or a classifier without features, yields 'no intent' with score 1; a classifier that knows at most one intent yields that intent, if allowed, with score 1.""",
 ["inputs", "configurations"], "every text, filter, classifier and set of slot taggers", "one end-to-end example per model",
 ["src/intent_parser/probabilistic_intent_parser.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/slot_filler/crf_slot_filler.rs"],
 [("intent then slots", "src/intent_parser/probabilistic_intent_parser.rs"), ("degenerate classifiers", "src/intent_classifier/log_reg_intent_classifier.rs")], ["IntentParser for ProbabilisticIntentParser", "IntentClassifier for LogRegIntentClassifier"])

prop("C13", "Entity caching never changes an answer",
 """Whatever sequence of queries an engine has served before, and however small or large its entity caches are, every answer equals the one a freshly loaded engine gives to the same query.
 In particular queries for the same text that differ in the entities or the number of alternatives they need never receive each other's cached matches.""",
 ["histories"], "every sequence of queries of bounded length, every cache capacity", "tests issue each query to a fresh or barely used engine",
 ["src/entity_parser/utils.rs", "src/entity_parser/custom_entity_parser.rs", "src/entity_parser/builtin_entity_parser.rs"],
 [("least-recently-used cache keyed by text, kinds and number of alternatives", "src/entity_parser/")], ["every query of SnipsNluEngine after any history"],
 [{"name": "entity caches", "meaning": "memoised entity matches", "where": "src/entity_parser/"}])

prop("C14", "Concurrent queries behave as if run alone",
 """Any number of threads may query one engine at the same time: each query returns what it returns when run alone, no query waits for ever, and a query that fails or is refused leaves the engine usable for the others.""",
 ["schedules"], "every interleaving of bounded numbers of concurrent queries", "the tests are single-threaded",
 ["src/entity_parser/custom_entity_parser.rs", "src/entity_parser/builtin_entity_parser.rs", "src/slot_filler/crf_slot_filler.rs", E, "ffi/src/lib.rs"],
 [("mutexes around the caches and the tagger", "src/entity_parser/, src/slot_filler/crf_slot_filler.rs")], ["SnipsNluEngine shared between threads"],
 [{"name": "tagger state", "meaning": "the tagger holds the current sequence between set and tag/probability", "where": "src/slot_filler/crf_slot_filler.rs"}])

C = "src/slot_filler/crf_utils.rs"
prop("C15", "Tag sequences decode to slots by the tagging scheme",
 """For every sequence of tags the tagger can emit, in each of the IO, BIO and BILOU schemes, the slots returned are the maximal chunks the scheme defines: each covers whole tokens from the first to the last tagged one, outside tokens belong to no slot, chunks never overlap,
 and each is named after its (last) tag; malformed sequences are decoded leniently in the same way. A tag naming a slot the intent does not have is an error.""",
 ["inputs"], "every tag sequence up to a length, every scheme, every tokenised text", "a table of about forty sequences",
 [C, "src/slot_filler/crf_slot_filler.rs"], [("start/end predicates per scheme", C)], ["SlotFiller::get_slots"])

F = "src/slot_filler/features.rs"
prop("C16", "Tagger features are the ones the model was trained on",
 """For every text and every configured feature, the attributes given to the tagger for a token are exactly those defined by the feature (digit, length, position, word n-gram, shape, prefix, suffix, custom and builtin entity match with its scheme prefix, word cluster),
 under the name the training library uses, and a feature computed at distance d from a token appears there, and only there, with the offset d in its name. Features that do not exist at a position are absent, never empty.""",
 ["inputs", "configurations"], "every text, every feature configuration and every offset", "each feature has one or two example tokens",
 [F, "src/slot_filler/feature_processor.rs", "src/slot_filler/features_utils.rs", "src/slot_filler/macros.rs", C], [("feature factories", F), ("offsets", "src/slot_filler/feature_processor.rs")], ["CRFSlotFiller::compute_features"])

prop("C17", "Sequence probabilities are probabilities of the given tags",
 """The probability of a tag sequence for a text is the tagger's probability of exactly that sequence, a tag the tagger does not know being replaced by the outside tag (or the first known tag if there is none); over all sequences of known tags the probabilities sum to one.
 Without a tagger it is 1 for the all-outside sequence and 0 otherwise. Neither this probability nor the tagging of a text depends on what the same slot filler was asked before or is asked at the same time by other threads.""",
 ["inputs", "schedules", "histories"], "every text and every tag sequence, every interleaving", "three examples", ["src/slot_filler/crf_slot_filler.rs", C], [("substitution of unseen tags", C)], ["SlotFiller::get_sequence_probability"])

prop("C18", "Intent features are the weighted counts the model was trained on",
 """For every text the classifier's feature vector is the training-time one: for each vocabulary entry its number of occurrences among normalised (and stemmed) words, builtin entities, custom entities and word clusters, times the entry's weight, scaled to unit length, followed by one indicator per
 word pair that co-occurs within the window after entity replacement, honouring order, stop words and the unknown-word placeholder. A text with nothing in the vocabulary has the zero vector.""",
 ["inputs", "configurations"], "every text and every vectoriser configuration", "a few sentences with mocked entities", ["src/intent_classifier/featurizer.rs", "src/utils.rs"],
 [("tf-idf", "src/intent_classifier/featurizer.rs"), ("co-occurrence", "src/intent_classifier/featurizer.rs")], ["LogRegIntentClassifier::compute_features"])

prop("C19", "Classification scores are the logistic model's probabilities",
 """The score of each class is the logistic function of intercept plus the inner product of features and that class's weights; with a single weight row the two classes get complementary scores that sum to one, in the order (first class, second class).
 Scores are always within [0, 1], and features of the wrong length are rejected.""",
 ["inputs", "configurations"], "every weight matrix and feature vector", "two numeric examples", ["src/intent_classifier/logreg.rs", "src/intent_classifier/log_reg_intent_classifier.rs"],
 [("binary and multiclass scoring", "src/intent_classifier/logreg.rs")], ["IntentClassifier::get_intents", "MulticlassLogisticRegression::run"])

prop("C20", "Model files are read field for field, with the documented defaults",
 """Every field of a model file has exactly the meaning of its documented name and type: the value written by the training library is the value used, in any order of fields and with unknown fields ignored, optional fields may be absent or null, and a required field that is missing or of another type is an error rather than a default.
 The kinds of processing units are recognised by their documented snake-case names, and no others.""",
 ["inputs", "configurations"], "every presence/absence/type combination of the fields of every model file", "one deserialisation test",
 ["src/models/", "src/resources/loading.rs", "src/entity_parser/custom_entity_parser.rs"], [("serde models", "src/models/")], ["SnipsNluEngine::from_path", "the public model types"])

prop("C21", "Only models of the supported version are loaded",
 """An engine loads only from a model whose version is exactly the version the library reports; any other version, or an absent or unreadable one, is refused with an error that names both versions (or the file), before any other part of the model is judged.""",
 ["inputs"], "every version string and malformed version field", "one wrong version is tested", [E, "src/errors.rs", "src/lib.rs"], [("version check before deserialisation", E)], ["SnipsNluEngine::from_path", "SnipsNluError"])

prop("C22", "A damaged model directory is refused with an error",
 """Loading an engine from a directory (or archive) in which any file is missing, unreadable, truncated or of the wrong format returns an error that can be displayed; it never panics, hangs or yields an engine. The same holds for an I/O error at any point of the loading,
 and for a processing unit directory that holds another kind of unit.""",
 ["fault_sequences", "inputs", "crash_points"], "every file of the model, every truncation point, every failing file operation", "tests load intact models only",
 [E, "src/resources/loading.rs", "src/intent_parser/", "src/slot_filler/", "src/intent_classifier/", "src/entity_parser/"], [("error propagation in the loaders", "src/")], ["SnipsNluEngine::from_path", "SnipsNluEngine::from_zip"])

prop("C23", "No text makes a query panic",
 """No input text of any length, script, casing, punctuation or content (including the empty text, placeholder-like text, text with dozens of entities and text longer than 32767 characters) makes any query on a loaded engine panic, fail to end, or take time or memory exponential in the length of the text; each query returns a result or an error, and the result echoes the input unchanged, with slots whose character ranges lie in the text and hold their raw values, whatever the length of the text.""",
 ["inputs"], "every text", "tests use well-formed short sentences", ["src/"], [("index arithmetic on characters and bytes", "src/utils.rs, src/entity_parser/custom_entity_parser.rs, src/intent_parser/")], ["every query of SnipsNluEngine"])

prop("C24", "Linguistic resources answer exactly what their files contain",
 """A stemmer, gazetteer, word clustering or stop-word list loaded from a file answers exactly what the file says (up to collisions of the 32-bit hash under which words are kept): each listed form maps to its stem, cluster or membership, anything else to itself or to nothing, blank lines are ignored, and cluster names are returned character for character as written.""",
 ["inputs", "configurations"], "every file content over an alphabet of words and separators", "one small file per resource", ["src/resources/"], [("readers", "src/resources/")], ["features and words seen by SnipsNluEngine"])

prop("C25", "Loading from an archive equals loading from the directory",
 """An engine loaded from a zip archive of a model directory answers every query as the engine loaded from the directory, whatever the order of the archive's entries, their compression and whether directories have entries of their own.
 Extraction writes only inside a fresh temporary directory, whatever names the archive contains, and nothing is left behind when loading ends, whether it succeeds or fails.""",
 ["inputs", "configurations", "fault_sequences"], "every archive layout, hostile entry names, corrupted archives, failing file operations", "one well-formed archive is tested",
 [E, "src/utils.rs"], [("extraction", "src/utils.rs"), ("temporary directory removed on drop", E)], ["SnipsNluEngine::from_zip"])

I = "src/injection/injection.rs"
prop("C26", "Injected values are recognised, and nothing else changes",
 """After a successful injection, an engine loaded from the directory resolves every injected value of an entity, as the user wrote it and in any casing with as many letters, to the injected value, with priority over earlier values (with stemming only, as far as the engine does: by its stems); previous values are still recognised, unless the injection started from vanilla, which removes those injected before but not the trained ones.
 Other entities are unaffected, and injecting the same values again changes nothing.""",
 ["histories", "inputs"], "every sequence of injections over a set of values and entities, every way the engine uses stems", "single injections of one or two values into a fixed model",
 [I], [("normalisation and stemming of values", I), ("rewriting of the entity parser", I)], ["NluInjector::inject then SnipsNluEngine::from_path"])

prop("C27", "A refused injection changes nothing",
 """An injection that names an entity the engine does not have, a builtin entity that is not extensible, or an engine whose files cannot be read is refused with an error of the documented kind, and leaves every file of the engine directory exactly as it was, also when other entities of the same request are valid.""",
 ["inputs", "configurations", "fault_sequences"], "every combination of valid and invalid entities, every damaged engine file, every failing read", "four error cases; none checks the directory",
 [I, "src/injection/errors.rs"], [("validation of all entities before the first write", I)], ["NluInjector::inject"])

prop("C28", "An interrupted injection never loses entity values",
 """If an injection fails with an I/O error at any point, or the process stops at any point, the engine directory still loads and every entity answers with either all its previous values or all its new values.""",
 ["crash_points", "fault_sequences", "histories"], "every file operation of every injection, failed or torn", "tests never interrupt an injection", [I], [("replacement of the parser's directory", I)], ["SnipsNluEngine::from_path after an interrupted NluInjector::inject"])

prop("C29", "Single-slot extraction answers for the named slot only",
 """Extracting one slot of one intent fails for an unknown intent or slot. Otherwise it returns a slot with the requested name and its declared entity, at the position of a match of that entity in the text, resolved like any slot of that entity; with no match it returns the whole text for an entity accepting unknown values, and nothing for any other.""",
 ["inputs", "configurations"], "every text, intent, slot and number of alternatives", "four sentences", [E], [("extract_slot", E)], ["SnipsNluEngine::extract_slot", "SnipsNluEngine::extract_slot_with_alternatives"])

prop("C30", "The C interface returns what the library returns and owns its memory",
 """For every query, each function of the C interface returns the same data as the library, as structures and as JSON, or a failure code with the error's message retrievable on the same thread and no result written. Every object handed out is freed by its destroy function exactly once, without leaks,
 and invalid arguments (a null pointer for the engine, the text, the intent, the archive or an element of a filter, text that is not UTF-8, a negative size) are reported as failures. Texts contain no NUL.""",
 ["inputs", "histories"], "every sequence of create, query and destroy calls over a set of queries, including failing ones", "no test of the C interface exists", ["ffi/src/lib.rs", "platforms/c/libsnips_nlu.h", "platforms/python/ffi/src/lib.rs"],
 [("conversion and ownership", "ffi/src/lib.rs")], ["snips_nlu_engine_* functions"])

prop("C31", "The Python wrapper returns what the library returns",
 """For every query, the Python engine returns the decoded result the library gives for the same text, filters and numbers of alternatives (0 intent and 5 slot alternatives unless given), raises ValueError with the library's message when the library fails, and TypeError for a filter that is not iterable or has an element that is not a string. Texts contain no NUL, numbers of alternatives lie in [0, 2^31).
 It releases every string and engine it received exactly once, also when a query fails.""",
 ["inputs", "histories"], "every sequence of calls over a set of arguments, including failing ones", "three tests that need the compiled library", ["platforms/python/snips_nlu_rust/nlu_engine.py", "platforms/python/snips_nlu_rust/utils.py", "platforms/python/ffi/src/lib.rs"],
 [("ctypes marshalling", "platforms/python/snips_nlu_rust/nlu_engine.py"), ("release in a finally block", "platforms/python/snips_nlu_rust/utils.py")], ["snips_nlu_rust.NLUEngine"])

prop("C32", "A failed query leaves no trace",
 """When a query fails because an entity parser or tagger fails, the failure is reported to the caller as an error, and every later query on the same engine, including the same one again, is answered as by a fresh engine.""",
 ["fault_sequences", "histories"], "every point at which a component can fail during a query, followed by every query", "no test injects a failure", ["src/entity_parser/utils.rs", "src/entity_parser/", E, "src/slot_filler/crf_slot_filler.rs"],
 [("errors are not cached", "src/entity_parser/utils.rs")], ["every query of SnipsNluEngine after a failed one"])

prop("C33", "Loading and querying never modify anything on disk",
 """Loading an engine and running any queries on it leaves the model directory, and every other file, exactly as it was; only an injection writes to a model, and it writes only the entity parsers of the injected entities and the list that names them, leaving other entities' parsers and other files alone.""",
 ["histories", "configurations"], "every load, query and injection", "no test compares the directory", ["src/"], [("read-only loaders", "src/"), ("injection target directories", I)], ["the file system after SnipsNluEngine::from_path, queries and NluInjector::inject"])

prop("C34", "A C client built with the shipped header reads what the library answers",
"""A program in C or C++ compiled against platforms/c/libsnips_nlu.h and linked with the library can call every function the header declares and, reading the answers through the header's structures, enumerations and constants, gets for every call exactly the library's data: names, values and their kinds, grains, precisions and units, alternatives, ranges, scores, JSON texts, error messages, and the model version; every object is released by the function declared for it. The header's SNIPS_NLU_VERSION is the version of the library.""",
["inputs", "configurations"], "every kind of value, with and without its optional parts, in every function", "no test compiles the header", ["platforms/c/libsnips_nlu.h", "ffi/src/lib.rs"],
[("declared layouts and constants", "platforms/c/libsnips_nlu.h"), ("exported functions", "ffi/src/lib.rs")], ["the functions of libsnips_nlu.h, from C"])

prop("C35", "Engines answer from what they loaded, independently of each other",
"""An engine answers every query from the model its directory (or archive) held when it was loaded: loading, querying, dropping or failing to load other engines in the same process, of the same or of other models, and later changes to any directory (an injection, a replacement by another model, files emptied in place, a removal, a renaming) do not change its answers, on whichever thread it is used. An engine loaded afterwards from a directory answers from what that directory then holds.""",
["histories", "configurations"], "every sequence of loads, drops, injections, replacements and removals of two engines and two directories", "tests load one engine per fixture and never change its directory while it lives", [E, "src/resources/loading.rs", "src/slot_filler/crf_slot_filler.rs", "src/entity_parser/", I],
[("everything is read while loading", E), ("resources are loaded once per engine", "src/resources/loading.rs"), ("caches belong to one engine", "src/entity_parser/")], ["SnipsNluEngine::from_path", "SnipsNluEngine::from_zip", "NluInjector::inject", "every query of SnipsNluEngine"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
