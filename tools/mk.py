#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib.rs"; II = "src/inverted_index.rs"; DS = "src/document_store.rs"; PL = "src/pipeline.rs"
LM = "src/lang/mod.rs"; LC = "src/lang/common.rs"; CF = "src/config.rs"
MODEL = "model-based property testing (proptest) of the exported index against a reference index"
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, observe=("the JSON export",)):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)), technique, note))

p("C01", "Every indexed word, and nothing else, can be looked up in the exported index",
  "For every document added, every word of every field that survives the language's tokenizer and pipeline leads, by walking the exported index of that field one character at a time, to a term that lists that document. No other term, and no other document under a term, is there: a term lists exactly the documents whose field holds it. This holds for every built-in language, custom language and custom tokenizer (the field that serves as the document key is stored and not indexed).",
  ["inputs", "configurations", "histories"], "all sequences of documents, texts of any script and length, field sets, languages and tokenizers",
  "the tests look up a handful of words in small fixed indexes; shared prefixes, many documents, empty or all-stop-word fields, unusual scripts and their combinations are a product no fixed list reaches",
  [L, II, PL], [("Index::add_doc feeds tokenizer, pipeline and the field's inverted index", L), ("character trie", II)],
  MODEL, "Random search over index cases plus sizes at powers of two and ten; the reference text processing and trie walk are trusted. Lookup by UTF-16 unit of terms outside the BMP is the known finding utf16-lookup.")
p("C02", "Term weights are the square roots of occurrence counts, and df counts documents",
  "In the exported index the weight (tf) of a term for a document in a field is the square root of how often the processed term occurs in that field of that document. The document frequency (df) of a term is the number of documents listed under it. Both stay so for every number of occurrences, documents and fields, and when a document key is added again the new weights replace the old ones for the terms it holds, as in elasticlunr.js.",
  ["inputs", "histories"], "all occurrence counts, orders of occurrence, numbers of documents and repeated additions",
  "the tests check counts of one to a few in one or two documents; an error at larger counts, in interleaved occurrences or on re-adding passes",
  [L, II], [("token counting and sqrt in Index::add_doc", L), ("df bookkeeping in add_token", II)],
  MODEL, "Counts are compared with a relative tolerance of 1e-9; counts up to 100000, and documents, fields and characters up to 70000, are tried.")
p("C03", "What is indexed under a field comes from that field's text only",
  "The exported index of a field depends only on the texts given for that field, in document order, on that field's tokenizer and on the language. The other fields' texts, number, order, names and tokenizers make no difference to it.",
  ["inputs", "configurations"], "all field sets (1 to hundreds), positions of the field, tokenizer assignments and texts",
  "the tests use two or three fields with the same tokenizer; a mix-up that needs several fields, short rows or mixed tokenizers passes",
  [L], [("zip of fields, tokenizers and data in Index::add_doc", L)],
  "metamorphic property testing (field alone, other fields changed, fields rotated) and a reference index",
  "Random search; the reference index is trusted for the absolute part, the metamorphic part needs no reference.")
p("C04", "The document store keeps what was added, verbatim, and the field lengths",
  "With saving on, the exported store holds, for each key ever added, exactly the latest texts by field name together with the key under the reference field (or, where that is one of the fields, the text given for it), character for character. It holds the number of terms each field was processed to as its field length, and its length is the number of distinct keys.",
  ["inputs", "histories", "configurations"], "all texts (any Unicode), keys, reference fields, field counts, shorter rows and repeated keys",
  "the tests store a few short ASCII documents; escapes, odd keys, repeated keys, reference field colliding with a field and large documents are not reached",
  [L, DS], [("document assembly and add_field_length in Index::add_doc", L), ("DocumentStore", DS)],
  MODEL, "Random search; when the reference field is also an indexed field, only texts equal to the key are tried (elasticlunr.js takes the key from there).")
p("C05", "Turning document saving off removes the stored texts and changes nothing else",
  "With saving off, the export holds no text of any document and says that saving is off. Postings, weights, frequencies, field lengths, store length and configuration are exactly those of the same index with saving on, which is the default.",
  ["inputs", "configurations", "histories"], "all indexes and document sequences",
  "one test looks at one small index without saved documents; that everything else stays equal is a relation between two runs over all inputs",
  [L, DS], [("save flag passed to the store by IndexBuilder::build", L), ("the save test in DocumentStore::add_doc", DS)],
  "metamorphic property testing (saving on, off, default) plus a reference index", "Random search over pairs of indexes.")
p("C06", "The export is a function of the documents, not of their order or the run",
  "Building the same index again, in another thread, by another constructor, from texts handed over in other collections and string types, or exporting it twice gives byte-identical compact and pretty text. Adding documents with distinct keys in any order gives byte-identical text.",
  ["inputs", "histories"], "all indexes, all permutations of their documents, all hash seeds",
  "the tests compare one order in one process; hash iteration order and insertion order effects appear only across runs and permutations",
  [L, II, DS], [("ordered maps throughout", II), ("ordered maps throughout", DS), ("per-field token counts", L)],
  "metamorphic property testing (rebuild, other thread and hash seeds, permutations)", "Random search; needs no reference. Zh and ja instances are shared within a thread and not rebuilt in another thread.")
p("C07", "Adding a document changes only that document's entries",
  "After a document is added, the postings, stored texts, field lengths and weights of every other document are unchanged, df grows by one exactly at the terms that are new for the document, and the store's length grows by one exactly if its key is new. The document leaves the same entries as it leaves in an index of its own, and exporting in between has no effect.",
  ["histories", "inputs"], "all indexes, all further documents, new or with a known key",
  "the tests add documents and look at the new ones; what happens to the others, depending on history and shared prefixes, is not looked at",
  [L, II, DS], [("Index::add_doc", L), ("add_token", II), ("add_doc", DS)],
  "metamorphic property testing of index histories (before/after frame condition)", "Random search; needs no reference.")
p("C08", "Exports are valid JSON in elasticlunr.js's layout, whatever the texts hold",
  "Compact and pretty export are valid JSON denoting the same value, for any Unicode in field names, keys, texts, terms, language names and pipeline names. The value has the layout elasticlunr.js loads: fields, ref, version 0.9.5, pipeline stage names, lang, the trie with df and docs at each node, and the document store, with all numbers finite and non-negative and no duplicate members.",
  ["inputs", "configurations"], "all indexes, with all characters JSON has to escape and names that look like members of the layout",
  "the tests parse two or three exports of ASCII indexes; control characters, quotes, names like 'df' or 'docs' and empty names are not reached",
  [L, II, DS, PL], [("serde derives and to_json/to_json_pretty", L), ("hand-written serializers", II)],
  "property testing with a strict independent JSON reader and a reference index", "Random search; the harness's reader rejects duplicate members and lone surrogates.")
p("C09", "English stemming agrees with elasticlunr.js's stemmer on every word",
  "Every lowercase token the English pipeline stems becomes exactly what elasticlunr.js 0.9.5's Porter stemmer makes of it. This holds for words of any length, bare suffixes, chained suffixes, non-words, and words with digits or non-ASCII letters.",
  ["inputs"], "all strings without ASCII capitals", "the tests compare a few hundred words; Porter rules interact (measure, suffix order, y as vowel) so that errors hide on word shapes no list holds",
  ["src/lang/en.rs"], [("PorterStemmer steps 1 to 5", "src/lang/en.rs")],
  "differential property testing against a regex transcription of the JavaScript stemmer, plus exhaustive short words", "Complete for all words of up to 4 letters and all pairs of rule suffixes on short stems; random beyond. The oracle agreed with node on over a million words (refs/crosscheck_porter.sh).",
  ("the English pipeline stage 'stemmer'", "exported terms"))
p("C10", "Trimming removes exactly the non-word characters at a token's ends",
  "The trimming stage of every language removes from both ends of a token every character that is not a word character of that language, and nothing else; a token of only such characters yields no term. Characters inside the token are never changed.",
  ["inputs", "configurations"], "all tokens over all of Unicode, every language", "the tests trim a dozen tokens per language; one wrong range end in a character class, or an off-by-one on multi-byte characters, affects characters no test uses",
  ["src/lang/en.rs", LC, "src/lang"], [("trimmer", "src/lang/en.rs"), ("RegexTrimmer and the languages' word characters", LC)],
  "differential property testing against reference trimmers, with a sweep over every assigned character", "Every assigned character is tried in every language at the ends of, between and around letters; word-character classes are data of the harness.",
  ("the trimmer stage", "exported terms"))
p("C11", "Exactly the language's stop words are dropped",
  "A token is dropped by a language's stop-word filter if and only if it equals an entry of that language's stop-word list (as published with lunr-languages / elasticlunr.js), and it is otherwise passed on unchanged. In an index, a text consisting of a stop word leaves no term.",
  ["inputs", "configurations"], "all tokens, every language", "the tests filter whole corpora but compare only what those hold; most entries of most lists, and near misses, never occur in them",
  ["src/lang", LC], [("StopWordFilter", LC), ("word lists", "src/lang/*.rs")],
  "exhaustive check of every list entry and its variants plus random tokens against reference lists", "Complete for the lists' entries; the reference lists are data of the harness taken from the original tree.",
  ("the stop-word stage", "exported terms"))
p("C12", "Each language stems with its own Snowball algorithm, in the right order",
  "For every Snowball language, processing a text gives for each token the Snowball stem, by that language's algorithm, of the trimmed token if it is not a stop word. Korean keeps the trimmed token. Stage names and order in the export are those elasticlunr.js's language plug-ins register.",
  ["inputs", "configurations"], "all tokens and texts, every Snowball language and Korean", "the tests run one corpus per language; words on which stages interact (trim then stop then stem, or stop words that stem alike) are few there",
  ["src/lang", LC], [("make_pipeline of each language", "src/lang/*.rs"), ("RustStemmer", LC)],
  "differential property testing against trimming, stop list and rust-stemmers applied directly", "rust-stemmers, the library under the crate, is trusted for the algorithms themselves.",
  ("the pipelines", "exported terms", "pipeline names in the export"))
p("C13", "Arabic normalisation follows lunr.ar.js for every token",
  "The Arabic stemmer removes every diacritic and elongation mark from a token, folds alef variants to bare alef, and changes nothing else; a token left empty yields no term.",
  ["inputs"], "all tokens over all of Unicode", "one corpus file; combinations of several marks in a token and neighbouring code points do not occur in it",
  ["src/lang/ar.rs", "js/lunr.ar.js"], [("normalising stage", "src/lang/ar.rs")],
  "differential property testing against the JavaScript rules, with a sweep over every code point", "Tokens with two or more alef variants are the known finding arabic-alef, recognised by its exact output.",
  ("the Arabic pipeline", "exported terms"))
p("C14", "Chinese and Japanese texts become dictionary words, trimmed and filtered",
  "Chinese text is segmented as jieba's search-oriented cut with its default dictionary does, Japanese text as lindera's IPADIC tokenizer does, whatever other scripts, digits, punctuation or white space the text mixes in. The segments then pass trimming and stop words, in order and without loss.",
  ["inputs"], "all texts", "one corpus per language; mixed scripts, long texts and repeated use of one segmenter are not in it",
  ["src/lang/zh.rs", "src/lang/ja.rs"], [("tokenize", "src/lang/zh.rs"), ("tokenize", "src/lang/ja.rs")],
  "differential property testing against jieba-rs and lindera called directly", "The segmenters themselves are trusted; mode, dictionary and filtering are what is checked.",
  ("tokenize", "exported terms"))
p("C15", "White-space tokenization splits at spaces and hyphens and lowercases",
  "The tokenizer shared by the space-separated languages yields the maximal runs of characters that are neither white space nor a hyphen-minus, lowercased and in order, with no empty token. Nothing else separates and nothing is lost.",
  ["inputs"], "all texts over all of Unicode", "the tests split five short ASCII sentences; other white space, separators at ends or in runs, look-alike hyphens and special casing are not reached",
  [LM], [("tokenize_whitespace", LM)],
  "differential property testing against a reference splitter, with a sweep over every code point", "White space is Unicode's; differences from JavaScript's \\s (U+FEFF, U+0085) are not claimed. Lowercasing is the standard library's.",
  ("tokenize_whitespace", "tokenize of each language using it"))
p("C16", "Any text can be indexed in any language without panic, crash or hang",
  "For every text, tokenizing, processing and indexing it and exporting the index ends normally in every built-in language. Every term and stage result is valid text.",
  ["inputs", "configurations"], "all texts over all of Unicode, in any mixture, every language; stage by stage, pipeline, index and export",
  "crashes here come from particular multi-byte characters at particular positions and lengths; the tests hold ordinary text of each language",
  ["src/lang", L, II, PL], [("byte-level stemming", "src/lang/en.rs"), ("trimming by match positions", LC), ("trie", II)],
  "fuzzing with structured Unicode generators and a sweep over every code point, each case in a watched process", "Cases run with overflow checks and debug assertions on 512 MB of stack; the overflow of ordinary stacks by words of hundreds of thousands of characters is the known finding long-word-stack.",
  ("process exit, panics, results"))
p("C17", "A pipeline applies its functions in order; its building blocks do as configured",
  "Running a pipeline on tokens equals applying its functions to each token in sequence, dropping the token at the first function that drops it, keeping order and multiplicity; each function is called once per token that reaches it. A custom stop-word filter drops exactly its words, and a custom trimmer strips exactly the characters outside its set, for any list and set.",
  ["inputs", "programs"], "all pipelines of any functions, all token lists, all stop lists and word-character sets", "the tests run built-in pipelines; custom compositions, drops in the middle, empty tokens and custom lists are hardly touched",
  [PL, LC], [("Pipeline::run", PL), ("StopWordFilter, RegexTrimmer", LC)],
  "model-based property testing of random pipelines against function-by-function application", "Random search; needs only the plain meaning of each function.",
  ("Pipeline::run", "FnWrapper", "stage results"))
p("C18", "The inverted index answers as a map from terms to weighted documents",
  "After any sequence of additions and removals, membership, documents, term frequency and document frequency of every token are those of a map from tokens to documents with weights. Adding a known pair replaces its weight, removing an absent pair changes nothing, tokens sharing prefixes never influence one another, df equals the number of documents, and indexes compare equal exactly if they hold the same.",
  ["histories"], "all operation sequences on tokens with shared prefixes, prefixes of one another, empty and non-ASCII tokens", "the tests perform three or four operations on three tokens; counts that drift after removal and re-addition need longer histories",
  [II], [("add_token, remove_token, df bookkeeping", II)],
  "stateful model-based property testing (proptest histories against a map)", "All public answers are compared after every step; histories of up to 400 operations, single kinds of up to 70000.",
  ("InvertedIndex's public methods", "its JSON"))
p("C19", "The document store answers as a map of documents with a count",
  "After any sequence of additions, removals and field lengths, presence, retrieval, number of documents and field lengths are those of a map from keys to documents: adding a known key replaces the document without counting it again, removing forgets document and field lengths, and with saving off the documents count but are not retrievable as text.",
  ["histories", "configurations"], "all operation sequences, with saving on and off", "the tests perform single operations; re-adding after removal, removing twice and interleavings are not reached",
  [DS], [("add_doc, remove_doc, length", DS)],
  "stateful model-based property testing (proptest histories against a map)", "All public answers are compared after every step; histories of up to 200 operations, single kinds of up to 70000.",
  ("DocumentStore's public methods", "its JSON"))
p("C20", "Languages are found by exactly their code and name",
  "Looking a language up by its code, in any ASCII capitalisation, or by its exact English name gives the language with that code and name, and any other string gives none. The list of languages holds each supported one once, and a looked-up language behaves as the one constructed directly.",
  ["inputs", "configurations"], "all strings; every language; every route", "the tests look up a few codes and names; that nothing else is found, and that the result behaves as the right language, is not tested",
  [LM], [("from_code, from_name, languages", LM)],
  "exhaustive check of all short strings plus random ones, and differential check of behaviour", "Complete for all ASCII strings of up to 3 letters as codes.",
  ("from_code", "from_name", "languages", "behaviour"))
p("C21", "Builder calls take effect exactly, in order, and duplicate fields are refused",
  "After any sequence of builder calls the index has exactly the fields added, in order, each with its own tokenizer, the last reference field and save setting given, and the given language. A field name given twice is refused with a panic, and distinct names never are.",
  ["programs", "configurations", "inputs"], "all sequences of builder calls and field names", "the tests build a few fixed indexes; interleavings of kinds of fields and settings are not reached",
  [L], [("IndexBuilder", L), ("Index::with_language", L)],
  "model-based property testing of random builder programs", "Random search; the built index is judged by get_fields, its export and the documents added to it.",
  ("get_fields", "the JSON export", "refusal"))
p("C22", "An exported index can be read back and used as the original",
  "Reading back the export of an index of a built-in language, through any serde_json entry point, gives an index that exports the same and to which documents can be added with the same effect, whatever its size. The same holds for document stores and inverted indexes on their own, and damaged exports are refused or accepted without a panic.",
  ["inputs", "histories"], "all indexes of built-in languages with default tokenizers, all further documents", "no test reads an index back",
  [L, II, DS, PL], [("Deserialize for Index, ser_lang", L), ("Deserialize for Pipeline", PL)],
  "round-trip property testing, with further operations after the round trip, and mutation of exports", "Floating point is compared within 1e-12 (serde_json reads within one ulp); an export nesting 128 levels, which serde_json refuses, is the known finding deep-reload (the rest of such a case goes through serde_json::Value).",
  ("serde_json round trips",))
p("C23", "Search configurations serialize as elasticlunr.js expects and read back equal",
  "Every search configuration serializes to JSON with the member names and values elasticlunr.js understands (fields with boost, bool OR/AND and expand; absent options absent) and reads back equal. Boolean modes other than OR and AND are refused, and the defaults are elasticlunr.js's.",
  ["inputs"], "all configurations and field names", "two tests serialize one configuration each and none reads one back; combinations of options, odd field names and unknown values are not reached", [CF], [("serde derives", CF)],
  "round-trip and layout property testing, with exhaustive single-field configurations", "Complete for one field's options with chosen boosts; random for several fields.",
  ("serde_json of SearchOptions",))
p("C24", "A language behaves the same whatever other language features are compiled in",
  "For every set of language features the crate compiles, lists and finds exactly the enabled languages (English always), and each processes and indexes every text exactly as in a build with all features.",
  ["configurations", "inputs"], "sets of language features (none, each alone, all, every way three can be on and off) and texts", "the tests are run with one feature set",
  ["Cargo.toml", LM, "src/lang"], [("feature gates and the registry macro", LM)],
  "differential property testing of some 52 separately compiled feature sets on generated texts", "Some 52 of the 2^18 sets: none, each alone, all, and sets in which any three languages are on and off in all eight ways; differences that need a particular combination of four or more may be missed.",
  ("a probe program per feature set",))
p("C25", "Processing a token does not depend on what was processed before",
  "A language turns a text into the same terms whenever and wherever it does so: first or after any other texts, in a fresh instance or one used before, in a new pipeline or an old one, alone or joined by white space to other text (for languages split at white space).",
  ["histories", "inputs"], "all texts and all histories of texts", "the tests process each corpus once, from the start",
  ["src/lang", PL, LM], [("stateless stages; the segmenters' shared state", "src/lang/*.rs")],
  "metamorphic property testing over histories of texts", "Random search; histories of up to 20000 tokens, and of 2^16 and 70000.",
  ("tokenize, pipelines",))

p("C26", "Searching the exported index finds and ranks the documents that match",
  "elasticlunr.js's search over an exported index, under any search configuration the crate writes (boosts, AND/OR, expansion to longer terms, per field and global), finds exactly the documents whose own texts match the query. It gives each the score computed from its own texts (term counts, number of documents, field length), and hands out the stored document.",
  ["inputs", "configurations", "histories"], "all indexes, queries of terms, prefixes and other words, and search configurations", "no test searches an index; scores combine weights, frequencies, field lengths and the number of documents from different parts of the crate, and only their combination is what users see",
  [L, II, DS, CF], [("Index::add_doc", L), ("trie", II), ("field lengths, number of documents", DS), ("SearchOptions", CF)],
  "differential property testing: elasticlunr.js's search over the export against scoring each document", "elasticlunr.js's search is transcribed into the harness and trusted; scores are compared within 1e-9.",
  ("the JSON export", "the JSON of SearchOptions"))
p("C27", "Indexes do not influence one another",
  "An index exports the same whether it is built alone or while others are built, exported and dropped, by turns in one thread or at once in several, however much the others share with it in documents, field names, keys and languages.",
  ["histories", "schedules", "inputs"], "all sets of indexes and interleavings of their additions", "every test builds its indexes one after another and looks at one; anything shared behind them (caches, statics) shows only between indexes that differ",
  [L, II, DS, "src/lang"], [("Index::add_doc", L), ("lazily built data of the languages", "src/lang/*.rs")],
  "metamorphic property testing over interleaved histories and threads", "Interleavings of additions by turns are generated; those of threads are the operating system's.",
  ("the JSON export",))

p("C28", "An addition or export that fails part way leaves the index usable",
  "When adding a document panics part way (in a custom tokenizer, language, pipeline function, the iterator of its texts, or because there are more texts than fields), all other documents' postings, stored texts and lengths stay as they were, df still counts the documents listed, and adding it again, at once or later, gives exactly the index in which nothing had failed. A failed export changes nothing.",
  ["inputs", "histories", "fault_sequences"], "all indexes, all calls of caller-supplied code at which a panic or write error can occur, all histories after it", "no test makes anything fail; state taken out of the index or half updated when a panic passes through shows only in what is done afterwards",
  [L, II, DS, PL], [("Index::add_doc, which calls the caller's code between updates", L), ("Pipeline::run", PL), ("number of documents, field lengths", DS)],
  "fault injection in property testing: a panic at a generated call, metamorphic comparison with the index in which nothing failed", "Faults come from caller-supplied code and writers; the caller catches the panic.",
  ("the JSON export",))

with open(f"{root}/properties.jsonl", "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
GUIDED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C25"}
P = [(d, t + ("; coverage-guided fuzzing (libFuzzer)" if d["id"] in GUIDED else ""), n) for d, t, n in P]
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=d["id"], quick_cmd=f"./check.sh {d['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {d['id']}",
                 evidence_file=f"evidence/{d['id']}.json", technique=t, level="exploration", level_note=n) for d, t, n in P],
    not_applicable=[],
    notes="No hooks in /repo: everything is judged through the public API and the JSON export. See DESIGN.md.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
