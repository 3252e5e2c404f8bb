#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "A published index answers searches from exactly the completed adds",
 "A client that loads a written-out English index and searches it by elasticlunr.js's rules finds every document whose add completed, under each of its indexed words in the field that holds the word, with the stored text (if saving is on) and a score computed from exactly the completed adds: term frequency as the square root of the count, document frequency, field length and number of documents. It never finds a document that was never added, or under a field or word it does not have. This holds whatever adds failed on the way and were retried to completion before publishing, and whatever else ran at the same time.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every history of adds by several builders in every interleaving, with any adds failing part-way and being retried, and every point at which the index is published and fetched",
 "the tests index a handful of fixed documents once, with no failure, and compare with a fixture; no test looks at the index as a searching client does, or after any failed add",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/lang/en.rs", "src/pipeline.rs"],
 [("add_doc tokenizes, filters, counts and posts each field separately", "src/lib.rs Index::add_doc"),
  ("trie insertion with docs/df kept together", "src/inverted_index.rs IndexItem::add_token"),
  ("field lengths and document count", "src/document_store.rs")],
 [("index", "per field: term -> documents with weights", "src/lib.rs Index.index"),
  ("document_store", "stored texts, field lengths, count", "src/lib.rs Index.document_store")],
 ["the JSON image, parsed and searched by a reference model of the elasticlunr.js client"])

prop("C02", "An interrupted add is contained, and retrying it converges",
 "If the caller's document stream, tokenizer or pipeline function fails part-way through adding a document, everything recorded for other documents is exactly as before, each field of the interrupted document is either wholly as before or wholly indexed, and the document is not newly listed or counted as stored nor is its stored text replaced. The index stays usable, and adding the same document again to completion gives exactly the index that one uninterrupted add would have given.",
 ["fault_sequences", "histories", "crash_points"],
 "every history of adds and every point at which the caller's code can fail inside an add, repeatedly and in any combination",
 "no existing test makes any callback fail; the only expected panic in the tests is for duplicate field names",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs"],
 [("all caller code for a field runs before that field is touched", "src/lib.rs Index::add_doc"),
  ("the document is stored last", "src/lib.rs Index::add_doc"),
  ("postings and field lengths are overwritten, not accumulated", "src/inverted_index.rs, src/document_store.rs")],
 [("index", "postings per field", "src/lib.rs"), ("document_store", "texts, lengths, count", "src/lib.rs")],
 ["the JSON image of the index after each operation"])

prop("C03", "Indexes built at the same time do not influence each other",
 "Several indexes under construction at once, on different threads in any interleaving or one from inside another's callbacks, are each exactly what they would be if built alone. This includes the case where another builder's add fails or another builder is abandoned in the middle of an operation.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving (down to memory allocations inside the library) of any number of builders with any languages and field sets, including nested use and abandoned or failing builders",
 "every test builds one index at a time on one thread",
 ["src/lib.rs", "src/pipeline.rs", "src/lang/mod.rs", "src/lang/common.rs"],
 [("all state is owned by the index; no globals", "src/lib.rs Index"),
  ("pipelines and stop word sets are built per language instance", "src/lang/*.rs make_pipeline")],
 [("Index", "the whole state of one builder", "src/lib.rs")],
 ["the JSON image of each index"])

prop("C04", "The written index is byte-for-byte reproducible",
 "The bytes of a serialized index, compact or pretty, are determined by its configuration and the sequence of adds alone. They do not depend on the run, process or thread, hash seeds, memory addresses, the clock, what else the program does meanwhile, how often the index was saved before, or how the writer splits its writes.",
 ["schedules", "configurations", "histories"],
 "every history of adds, repeated under any hash seeds, clocks, threads, schedules, preceding work and writer behaviour",
 "the tests compare parsed values, which hides any difference in order, and run each history once under one set of hash seeds",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs"],
 [("ordered maps everywhere that is serialized", "src/lib.rs, src/inverted_index.rs, src/document_store.rs"),
  ("hash sets are used for membership only", "src/lang/common.rs StopWordFilter")],
 [], ["Index::to_json, Index::to_json_pretty and any serde serializer"])

prop("C05", "Arrival order and repeated delivery of documents do not matter",
 "For documents with distinct references, the index after adding them all is byte-for-byte the same in whatever order they arrive. Adding an unchanged document again changes nothing, whether or not other documents were added in between.",
 ["schedules", "fault_sequences", "histories"],
 "every delivery order of every document set, with any messages lost and resent, duplicated, delayed or interrupted while being added",
 "the tests add documents once, in one order",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
 [("ordered maps keyed by reference and term", "src/inverted_index.rs, src/document_store.rs"),
  ("insertion overwrites; df and length only grow for new references", "IndexItem::add_token, DocumentStore::add_doc")],
 [], ["the serialized index"])

prop("C06", "A saved index can be loaded after a restart and continued",
 "An index of a built-in language that was completely written out loads back with the same fields, reference field, language, pipeline, documents, field lengths, terms, document frequencies and term weights (to the precision of the JSON float reader). Building on from the loaded index gives the same result as if the builder had never stopped. Custom field tokenizers are not saved; terms longer than the JSON reader's nesting limit are out of scope.",
 ["crash_points", "histories", "fault_sequences"],
 "every history of adds, saves, crashes at any point and restarts, under lossy delivery of the documents to be added",
 "no existing test deserializes an index",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/lang/mod.rs", "src/pipeline.rs"],
 [("deserialization rebuilds the pipeline and tokenizer slots from the language", "src/lib.rs TryFrom<SavedIndex>"),
  ("flattened trie map", "src/inverted_index.rs IndexItem"),
  ("language lookup by name", "src/lang/mod.rs from_name")],
 [], ["the loaded index's own image, and later adds"])

prop("C07", "A failing sink is reported, loses nothing and leaves the index unchanged",
 "If the writer or serializer an index, inverted index or document store is saved to fails at any point, saving returns an error instead of success or a panic, and what was accepted by then is a prefix of the complete image. A save that reports success has delivered the complete image, exactly once and in order, however short, interrupted or slow the writes were. Saving never changes what is saved: a later save delivers exactly what an undisturbed one would have.",
 ["fault_sequences", "crash_points", "inputs"],
 "every index content and every sequence of short writes, interruptions, transient and permanent errors at every position of the output",
 "the tests serialize to strings and files that never fail",
 ["src/inverted_index.rs", "src/lib.rs", "src/pipeline.rs", "src/document_store.rs"],
 [("hand-written map serialization propagates each error", "src/inverted_index.rs IndexItem::serialize"),
  ("hand-written sequence serialization propagates each error", "src/pipeline.rs Pipeline::serialize"),
  ("language by name", "src/lib.rs serialize_lang")],
 [], ["result of the save and the bytes the sink accepted"])

prop("C08", "A damaged or incomplete saved image never crashes the loader",
 "Loading an index, inverted index, document store or search configuration from a truncated image, from a reader that fails, or from an image missing one of its required parts always returns an error; it is never accepted as a smaller index. Loading from an image with arbitrarily altered bytes returns an error or a value that can be queried and written out again, and never panics. How the reader splits or interrupts its reads makes no difference.",
 ["fault_sequences", "crash_points", "inputs"],
 "every saved image, every truncation point, every read error position and arbitrary stored-byte damage",
 "no existing test deserializes anything",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/config.rs"],
 [("all parts are required, none defaulted", "derived Deserialize of IndexItem, DocumentStore, SearchOptions, SavedIndex"),
  ("names are checked", "src/lib.rs TryFrom<SavedIndex>")],
 [], ["result of the load"])

prop("C09", "A shared inverted index is an exact map from tokens to documents",
 "After any interleaving of additions, removals and queries by clients sharing it under a lock, an inverted index reports for each token exactly the documents added under it and not removed since, each with its latest weight; the document frequency equals their number; a token and all its prefixes are known once added, even after removal, and nothing else is. Queries change nothing, and the same holds on after the index is saved, the process crashes and the index is loaded again.",
 ["histories", "schedules", "crash_points"],
 "every history of operations on overlapping tokens (prefixes, multi-byte characters) and references by any number of clients, with saves, crashes and reloads at any point",
 "the unit tests each run two or three operations on at most three tokens, and none saves and reloads",
 ["src/inverted_index.rs"],
 [("trie walk per character", "IndexItem::add_token, get_node, remove_token"),
  ("df changed only when membership changes", "IndexItem::add_token, remove_token")],
 [("root", "trie of characters with docs and df at each node", "src/inverted_index.rs InvertedIndex")],
 ["has_token, get_docs, get_term_frequency, get_doc_frequency and the JSON image"])

prop("C10", "A shared document store tracks exactly the documents it holds",
 "After any interleaving of operations by clients sharing it under a lock, a document store lists exactly the documents added and not removed since, with the latest text (an empty record when saving is off), its length and reported size equal their number, and field lengths are the latest recorded ones. Removing a document forgets it completely: adding the same reference later does not bring anything back. The same holds on after the store is saved, the process crashes and the store is loaded again.",
 ["histories", "schedules", "crash_points"],
 "every history of add, update, remove, field-length and query operations by any number of clients, with saving on or off and with saves, crashes and reloads at any point",
 "the unit tests each run a few operations, never update or re-add a removed document, and never save and reload",
 ["src/document_store.rs"],
 [("length counted on first add and on removal of a present document", "DocumentStore::add_doc, remove_doc"),
  ("doc_info removed with the document", "DocumentStore::remove_doc")],
 [("docs", "texts by reference", "src/document_store.rs"), ("doc_info", "field lengths", "src/document_store.rs"),
  ("length", "serialized document count", "src/document_store.rs")],
 ["the public queries and the JSON image"])

prop("C11", "Language processing depends on nothing but the text",
 "For every built-in language, the tokens produced for a text are the same whatever was processed before, with a new or a long-used instance, on whichever thread, under any hash seeds, interleaved with any other use of any language, and after an earlier call was abandoned; and what becomes of a token does not depend on the other tokens of its text.",
 ["schedules", "histories", "configurations"],
 "every language, every history of texts and every interleaving of language instances on any threads",
 "the language test processes one text per language once, with one instance on one thread",
 ["src/lang/mod.rs", "src/lang/common.rs", "src/lang/en.rs", "src/lang/ja.rs", "src/lang/zh.rs", "src/lang/de.rs", "src/lang/hu.rs", "src/lang/ru.rs", "src/pipeline.rs"],
 [("tokenizers and pipeline functions take &self and keep no state", "src/lang/*.rs, src/pipeline.rs"),
  ("stemmers work on a buffer of their own per word", "src/lang/en.rs PorterStemmer, src/lang/*.rs")],
 [], ["Language::tokenize and Pipeline::run"])

prop("C12", "Caller code runs exactly once, in order, on the right data",
 "Adding a document calls the tokenizer of each supplied field other than the reference field exactly once with exactly that field's text - the field's own tokenizer if it has one, else the language's - and each pipeline function, in pipeline order, exactly once per token that the functions before it let through, in token order. Once any caller code fails, none is called again for that add. Nothing is called at any other time.",
 ["histories", "fault_sequences", "schedules"],
 "every history of adds over any field set, tokenizer assignment and pipeline, with failures injected at any call and saves in between",
 "no existing test uses a custom field tokenizer, a custom language or a pipeline function that records its calls",
 ["src/lib.rs", "src/pipeline.rs"],
 [("tokenizer choice per field", "src/lib.rs Index::add_doc"), ("filter chain stops at None", "src/pipeline.rs Pipeline::run")],
 [], ["the recorded history of callback invocations"])

prop("C13", "Search configuration survives storage exactly",
 "A search configuration written out and read back is equal to the original, with every option that was left unset absent from the image and still unset afterwards and every option that was set present and unchanged. Failing or interrupted writes and reads are reported as errors and never yield a different configuration.",
 ["fault_sequences", "crash_points", "inputs"],
 "every configuration and every sequence of short, interrupted, failing or torn writes and reads",
 "two fixed configurations are serialized, none is read back",
 ["src/config.rs"],
 [("unset options are skipped when serializing and optional when reading", "src/config.rs SearchOptionsField"),
  ("boolean model in upper case", "src/config.rs SearchBool")],
 [], ["the JSON image and the loaded value"])

prop("C14", "Abandoned work leaves no memory behind",
 "Once an index and its builder are dropped, all memory taken on their behalf is released, however many adds failed part-way and however many saves or loads failed before. Repeating the same work with the same failures does not make the process grow.",
 ["fault_sequences", "histories"],
 "every history of adds, failed adds, failed saves and failed loads, repeated any number of times",
 "no test measures memory",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs", "src/lang/common.rs"],
 [("plain ownership; unwinding drops temporaries", "src/lib.rs Index::add_doc")],
 [], ["live bytes reported by the allocator"])

prop("C22", "A published index's parts can be loaded, queried and maintained on their own",
 "A program that loads the document store and the inverted indexes out of a published index with the library's own types gets from their queries exactly what the completed adds require: for every field each term's documents, weights and document frequency and nothing else, and for every document its text and field lengths. Taking a document out of the parts - each of its terms, then its record - leaves every other document exactly as it was, and putting it back restores what was there. This holds whatever adds failed and were retried before publishing, however readers fail on the way (which is reported as an error), and after the parts were saved on their own, the program crashed and loaded them again.",
 ["fault_sequences", "histories", "crash_points", "schedules"],
 "every history of adds and failures before publishing, every reader and writer fault, every history of edits, saves and crashes after loading, every interleaving",
 "the tests query parts only of indexes built in the same process; none loads a part of an index image",
 ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
 [("parts are members of the image in their own serialized form", "src/lib.rs Index"), ("nodes, documents, frequencies", "src/inverted_index.rs"), ("documents and field lengths", "src/document_store.rs")],
 [], ["answers of has_token, get_docs, get_term_frequency, get_doc_frequency, has_doc, get_doc, get_field_length, len; images of the parts"])

NA = []
def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
    NA.append({"property": id, "reason": reason})

PURE = "a pure function of its input: no schedule, clock, I/O, fault or interleaving it could depend on, so there is nothing for a simulator to control; "
na("C15", "English tokens equal those of elasticlunr.js for every word",
 "For every word, the English trimmer, stop word filter and stemmer produce the token elasticlunr.js 0.9.5 produces.",
 "every word", "the tests list about two hundred words",
 ["src/lang/en.rs"], [("Porter stemmer on bytes", "src/lang/en.rs PorterStemmer")],
 PURE + "the reference client in C01 uses an independent port of the elasticlunr.js pipeline, but only over its own vocabulary")
na("C16", "No text makes a built-in language panic",
 "Tokenizing any text and running any built-in language's pipeline on it terminates without panicking.",
 "every text in every language", "one text per language, and one family of English words",
 ["src/lang"], [("byte-level stemmers must stay on character boundaries", "src/lang/*.rs")],
 PURE + "it is fuzzing of one call, which the repository's own fuzz target does for English")
na("C17", "Whitespace tokenizer splits at whitespace and hyphens and loses no text",
 "The default tokenizer returns, in order and lower-cased, exactly the maximal runs of characters that are neither whitespace nor hyphens, and no empty token.",
 "every text", "four short ASCII strings", ["src/lang/mod.rs"], [("split, filter, trim, lower-case", "src/lang/mod.rs tokenize_whitespace")],
 PURE + "it would be input generation only")
na("C18", "Every language is found by its own name and code",
 "For every enabled language, looking it up by its name or (in any ASCII case) its code gives that language, and any other name or code gives none.",
 "every string and every feature set", "nothing looks languages up", ["src/lang/mod.rs"], [("impl_language macro", "src/lang/mod.rs")],
 PURE + "a finite table; C06 covers the lookup by name only as far as restarts need it")
na("C19", "Duplicate field names are always rejected, distinct ones always accepted",
 "Building an index panics if and only if two field names are equal, and fields keep the order in which they were given.",
 "every list of field names", "one list with a duplicate", ["src/lib.rs"], [("contains check", "src/lib.rs IndexBuilder::add_field")],
 PURE + "a check of one argument list before any state exists")
na("C20", "Stop words are dropped and trimmed tokens start and end in word characters",
 "For every built-in language with a stop word filter or trimmer, no token that equals a stop word passes the filter and no token leaves the trimmer with a non-word character at either end.",
 "every token in every language", "one text per language", ["src/lang/common.rs", "src/lang/en.rs"],
 [("hash set membership; anchored regex", "src/lang/common.rs")],
 PURE + "it constrains one call on one token")
na("C21", "Arabic normalisation replaces every occurrence",
 "The Arabic stemmer removes every diacritic and elongating character and replaces every alef variant of a word, as the bundled lunr.ar.js does.",
 "every word", "the fixture was written by the code under test", ["src/lang/ar.rs", "js/lunr.ar.js"],
 [("regex replacement", "src/lang/ar.rs Stemmer::filter")],
 PURE + "the code replaces only the first occurrence, which tests/data/ar.out.txt records as expected, so it cannot be repaired here without editing tests; noted in DESIGN.md")

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    print(len(P), "properties,", len(NA), "not applicable")
