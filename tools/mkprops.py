#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the long lines are editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Anchored n-grams count exactly the words within the window of an anchor",
  "With an anchor word and window size W, a word of the added content (whitespace-separated tokens starting with an alphanumeric character) takes part in the n-gram counts if and only if an anchor occurs at most W words to its left or right (an anchor is itself such a word). Every maximal run of consecutive participating words contributes each of its overlapping sequences of n words exactly once, joined by single spaces, and sequences never bridge a gap of non-participating words. Counts of successive additions add up, and content without an anchor contributes nothing.",
  ["inputs", "histories"], "every text, window size >= 1, n >= 1, anchor, and every sequence of additions to one table",
  "no test touches the ngrams module; whether a run is continued, split or dropped depends on the distances between all anchors in the text relative to the window, so single examples say nothing about other layouts",
  ["src/ngrams.rs"], [("sliding context window and continuous buffer", "Ngrams::add_anchored_content"), ("overlapping n-gram window", "Ngrams::record_words")],
  ["Ngrams::counts", "Ngrams::sorted", "Ngrams::get"],
  [("continuous_buffer", "the current run of justified words", "add_anchored_content"), ("context_window", "the last W words not yet justified", "add_anchored_content")])

p("C02", "Frequency tables and dictionaries stay consistent over any operation history",
  "A dictionary gives each distinct word a permanent index: the first word inserted gets 1 and each new one the next integer, re-inserting changes nothing, and the reported count equals the number of distinct words. An n-gram table reports for each phrase how many times it was inserted or recorded (0 for unseen phrases), and its number of distinct phrases; recording a word sequence adds each contiguous n-word sequence once and nothing when there are fewer than n words; by default it counts single words. The sorted listings contain every entry exactly once in descending order of index respectively count.",
  ["histories"], "every sequence of insert / record / query operations over any words, any n >= 1",
  "no test exercises these tables; off-by-one index or count drift only appears for particular interleavings of new and repeated words",
  ["src/ngrams.rs"], [("entry-or-insert with a running index", "Dictionary::insert"), ("counter map", "Ngrams::insert/record_words/sorted")],
  ["Dictionary::map/count/sorted", "Ngrams::counts/get/sorted/distinct_count"])

p("C03", "Math nodes map to normalized lexeme strings",
  "The lexeme string of a math node is the contents of its application/x-llamapun annotations anywhere below it, in document order, joined by single spaces; inside each, tokens are separated by whitespace and additionally after every ':end' and ':start' and around lexeme end markers such as 'ID:end' that were serialized without a space. Tokens beginning with NUM, ARRAY, ATOM or SUPERSCRIPTOP collapse to exactly that word, and in every other token ':' and '-' become '_'. The result is never empty: a math node without lexemes yields 'mathformula'.",
  ["inputs"], "every math subtree and every annotation text",
  "tests only see the lexemes of two fixed articles; marker fusions, nested annotations and empty annotations are not sampled",
  ["src/dnm/node.rs"], [("annotation selection by XPath", "lexematize_math"), ("end-marker regex and collapse rules", "lexematize_math")], ["return value of lexematize_math"])

p("C04", "Pattern files: XML helpers accept exactly well-shaped nodes",
  "Reading a simple text node succeeds only if its sole child is text (empty text for no child) and returns that text, trimmed on request; listing non-text children keeps document order, skips comments and whitespace and, in its strict form, fails on any other text. A required property is returned or reported missing; a property that is already set is reported as duplicate.",
  ["inputs", "histories"], "every XML node shape",
  "no test loads a pattern file",
  ["src/patterns/utils.rs"], [("node helpers", "get_simple_node_content, get_non_text_children, fast_get_non_text_children, require_node_property, check_found_property_already, assert_no_child*")], ["Result values of the helpers"])

p("C05", "Pattern file loading accepts exactly valid files and keeps their rules",
  "Loading a pattern file succeeds if and only if the root is a pattern_file, every element is one the format knows with its required attributes and children, no rule or single-valued property is given twice, and every referenced rule is defined somewhere in the file, before or after its use. After a successful load each rule name of each kind (word, POS, math, symbol, sequence) leads to the rule that was defined under that name in that kind, with its description and pattern. A failed load reports an error and never panics.",
  ["inputs"], "every pattern file (well-formed XML), in any order of definitions and references",
  "no test loads a pattern file; forward references, duplicates across kinds and late definitions need many rule orders",
  ["src/patterns/rules.rs", "src/patterns/utils.rs"], [("two-phase name table (reserve position, fill in later)", "PCtx, PatternFile::load"), ("per-kind recursive loaders", "*Pattern::load_from_node")], ["PatternFile::load result, rule names and rules"],
  [("*_name_map / *_rules", "reserved index and optional definition of each rule name", "rules.rs PCtx")])

p("C06", "Sequence patterns match sentences exactly as their rules say",
  "Matching a sentence tries the sequence rule at every word, and the markers returned, their order and nesting, and their text ranges are exactly those prescribed by the pattern: words by text, tag, alternatives and negation, sequences in order, alternatives by their first / longest / any policy, phrases by the parse tree (shortest or longest, with start and end conditions). A negated word pattern matches exactly the words its inner pattern does not. Marked ranges denote exactly the characters from the first to the last matched word, also in non-ASCII text; matching never panics.",
  ["inputs", "programs"], "every (non left-recursive) pattern, every tagged and parsed sentence",
  "no test runs the matcher; the policies interact (markers of failed branches must vanish, ends propagate), so no finite sample of patterns settles it",
  ["src/patterns/matching.rs"], [("recursive match functions", "match_seq, match_word, match_pos, get_phrase_matches")], ["match_sentence result"])

p("C07", "Math patterns match formula trees exactly as their rules say",
  "A math pattern matches a formula node exactly when its name, text symbol and children conditions hold (children matched exactly, at the start, at the end, or at the first fitting position), alternatives are taken in order, and descendant patterns consider the node itself and all nodes below it in depth-first order with their first / at-least-one / any policy. The markers returned are those of the matching branches only, in order. A formula word is matched against the content of its math element, unwrapping a semantics wrapper; other words never match a math pattern.",
  ["inputs", "programs"], "every math pattern and every formula tree",
  "no test runs the matcher on math",
  ["src/patterns/matching.rs"], [("recursive math matching", "match_math, match_mtext, WordPattern::MathWord")], ["match_sentence result"])

p("C08", "The plain text of a document follows the normalization rules",
  "The plain text is the concatenation, in document order, of the text nodes and of the replacement tokens: an element whose class list (checked in document order) or, failing that, whose tag name has a rule is entered, skipped, or replaced by its fixed or computed token, wrapped in single spaces if so configured; all other elements are entered. Text is transliterated, lowercased or stemmed as configured and, with whitespace normalization, every run of whitespace, also across node boundaries, becomes one space and leading whitespace disappears. A parameter left at its default means: whitespace is normalized, nothing else is changed, nothing has a rule. The result depends only on the document and the parameters: building it again, or concurrently in other threads, gives the same text.",
  ["inputs", "configurations", "schedules"], "every document tree, every parameter combination, repeated and concurrent construction",
  "tests check a handful of fixed documents with few parameter combinations; interactions between rules, wrapping and whitespace state carried across nodes are unbounded",
  ["src/dnm/mod.rs", "src/dnm/parameters.rs"], [("depth-first construction", "DNM::recurse_node_create"), ("rule order", "intermediate_node_create"), ("whitespace state", "normalize_whitespace, push_whitespace!")], ["DNM::plaintext"],
  [("had_whitespace", "the text so far ends in whitespace", "RuntimeParseData")])

p("C09", "Text offsets and document nodes map to each other consistently",
  "For every document and parameters, each character of the plain text has a byte offset, and with back mapping (which does not combine with stemming: a text to be stemmed is then refused with a panic) it has the node it came from and the position of its source character in that node (or -1 for replacement tokens), positions never decrease within a node, and each source character accounts for its own transliteration and lower case. Every visited node maps to the range of text produced by its subtree: ranges of children are consecutive and nested in their parent's, skipped elements have an empty range, nodes below skipped or replaced elements have none, and the root covers the whole text. Asking for the range of a node outside the document text fails without panicking.",
  ["inputs", "configurations"], "every document tree and parameter combination that supports back mapping",
  "tests check the offsets of two nodes in one file",
  ["src/dnm/mod.rs"], [("record_node_map!", "dnm/mod.rs"), ("offset vectors carried through the normalization steps", "text_node_create, normalize_unicode, normalize_whitespace")],
  ["DNM::byte_offsets, back_map, node_map, get_range_of_node"])

p("C10", "Canonical form and hash ignore markup noise and are stable under concurrency",
  "The canonical form of a node lists its elements, each with its class tokens in sorted order, and its non-blank text in document order, ignoring every other attribute, comments and whitespace-only text, dropping annotation and annotation-xml subtrees and unwrapping semantics. Two nodes with the same canonical form have the same hash, which is the MD5 of that form. Hashing from any number of threads at the same time returns the same values as hashing sequentially.",
  ["inputs", "schedules"], "every document tree; every interleaving of concurrent hash requests",
  "tests hash three fixed documents sequentially; the shared hasher's interleavings are never exercised",
  ["src/dnm/c14n.rs"], [("recursive canonicalization", "DNM::canonical_internal"), ("one global hasher behind a lock, reset per use", "MD5_HASHER, node_hash_basic")], ["to_c14n_basic, node_c14n_basic, to_hash_basic, node_hash_basic"])

p("C11", "Range operations stay inside the text and count characters",
  "The text of a range is exactly the characters between its two offsets, whatever their encoding. Trimming removes exactly the leading and trailing whitespace characters (a blank range becomes an empty range at its end), a subrange is shifted by the start of its parent, and a subrange given in bytes denotes exactly the characters those bytes overlap, which for no bytes is an empty range at their place. None of these panics for offsets inside the range.",
  ["inputs"], "every text (ASCII or not) and every sub-interval",
  "tests trim ASCII text only; byte and character offsets coincide there",
  ["src/dnm/range.rs"], [("trim", "DNMRange::trim"), ("bisection over byte offsets", "get_subrange_from_byte_offsets, byte_offset_bisection")], ["DNMRange start/end/get_plaintext"])

p("C12", "Ranges survive an XPointer round trip",
  "Serializing a non-empty text range to an XPointer and resolving it against the same document gives back the range, where an end point that falls inside the replacement of an element, or of one transliterated character, extends to the whole replacement. This holds for ranges starting or ending anywhere, including the end of the document text, next to comments or other non-element nodes, in namespaced, repeated or id-carrying elements. Only a range that ends with a replaced element after which nothing follows inside the text's root is exempt. (Ids are unique and free of quotes, commas and brackets.)",
  ["inputs"], "every document and every non-empty range in it",
  "tests serialize two ranges of one file and never resolve them; end-of-text, ids, sibling kinds and numbering need many shapes",
  ["src/dnm/range.rs"], [("serialization", "serialize, serialize_offset, serialize_node, get_node_number, get_next_sibling"), ("resolution", "deserialize, xpointer_to_offset")], ["serialize, deserialize"])

p("C13", "Sentence splitting is ordered, loses no words and follows the break rules",
  "The sentences of a text are non-empty trimmed ranges in text order that do not overlap, and every letter of the text lies in one of them. A break is made after '.' or ':' before a capitalized word unless an abbreviation or single letter precedes and the next word is not a stopword, before '*', '\"' or '(', and before a formula; after '?' and '!' unless enclosed in matching brackets or quotes; at a blank line unless a formula, a lowercase word or a non-letter follows; and before a capital directly following a formula. The ranges are the same whether the characters are ASCII or not, and splitting never panics.",
  ["inputs"], "every text",
  "tests compare two ASCII articles and one paragraph; the decision depends on a 12-character window, lookahead and consumed words in combinations that sampling cannot cover",
  ["src/tokenizer.rs"], [("scanner with left window and lookahead", "Tokenizer::sentences, abbreviation_check, next_word_with_length, is_bounded")], ["Tokenizer::sentences ranges"],
  [("left_window", "last up to 11 characters of the current sentence", "sentences"), ("start/end", "current sentence", "sentences")])

p("C14", "Word splitting covers exactly the wordlike characters",
  "Words are the maximal runs of alphanumeric characters of a range, where an apostrophe directly before an 's' counts as alphanumeric, in order and without overlap. With punctuation, every non-whitespace character lies in exactly one non-empty token, whitespace in none, punctuation characters stand alone, and an apostrophe is attached to the letters after it only for the known contractions (t, s, un, th, ll, d, ve, il, re, m). The ranges denote those characters whether the text is ASCII or not, and splitting never panics.",
  ["inputs"], "every text range",
  "tests never call the word splitters on non-ASCII text nor check their ranges",
  ["src/tokenizer.rs"], [("words", "Tokenizer::words"), ("words and punctuation", "Tokenizer::words_and_punct")], ["returned ranges"])

p("C15", "Parallel corpus catalogs equal the sequential sum",
  "Walking a corpus in parallel calls the given function exactly once for each selected document and returns, for each key, the sum over all documents of what the function returned; the pair-valued variant does so for both catalogs independently. The result does not depend on the number of threads, the order in which documents are found, or the order in which they finish.",
  ["schedules", "inputs"], "every corpus, closure result, thread count, directory order and completion order",
  "the tests run one corpus once with whatever schedule occurs and compare totals only",
  ["src/parallel_data/corpus.rs"], [("par_bridge + map + reduce", "catalog_with_parallel_walk, catalogs_with_parallel_walk")], ["returned maps, closure invocations"])

p("C16", "Corpus traversal selects exactly the right files and survives bad ones",
  "Traversing a corpus yields one document for every file below the root whose name ends in the configured extension (.html or .xhtml by default), and nothing for any other file or for folders (names are valid UTF-8; the parallel walk leaves out hidden files and folders). Files that cannot be loaded are skipped without losing any other document, ending the walk or crashing, both in the sequential and the parallel walk. XHTML files are read as XML, all others as HTML.",
  ["inputs", "fault_sequences"], "every directory tree and extension setting, any number of unreadable or unparseable files at any position",
  "tests walk one flat directory of good files",
  ["src/data.rs", "src/parallel_data/corpus.rs"], [("directory iterator", "DocumentIterator::next"), ("parallel walk filter", "catalog_with_parallel_walk"), ("document loading", "Document::new")], ["documents yielded"])

p("C17", "The token model file and its counts agree with the corpus",
  "Extracting a token model writes, for each document, one contiguous block with one line per valid paragraph (in the order abstract, keywords, paragraphs, acknowledgement, captions), each token followed by a space: lowercased words and punctuation, NUM for numbers, citationelement for citations, and the formula's lexemes (nothing when math is discarded). A paragraph containing a token longer than 25 characters (counted in UTF-8 bytes) is left out and counted as overflow. The returned document, paragraph, word, formula, citation, number and overflow counts are the totals of exactly these events, and the file's blocks are those of all documents in some order, never interleaved, for any schedule.",
  ["inputs", "schedules", "configurations"], "every corpus, math option, thread count and completion order",
  "the only test checks the totals of one corpus with one schedule and never reads the file",
  ["src/util/token_model.rs"], [("per-document buffer written under one lock", "extract"), ("word classification", "extract")], ["output file, returned counts"])

p("C18", "Document selectors return exactly the intended nodes in document order",
  "Paragraph, heading, math, reference and caption selection return exactly the matching nodes in document order: paragraphs are ltx_para divs and headings ltx_title headings other than the document title, both only when free of ltx_ERROR markup (and, for paragraphs, without a preceding ltx_ERROR sibling); references are span or a elements whose class is, or has followed by a space, ltx_ref. The extended selection lists the first abstract paragraph, first keywords, all paragraphs, first acknowledgement and all captions, each only if error free. A custom filter visits every node once in depth-first order, and a malformed XPath selects nothing.",
  ["inputs"], "every document tree",
  "tests count nodes in fixed articles",
  ["src/parallel_data/document.rs", "src/data.rs"], [("XPath selectors", "heading_nodes, paragraph_nodes, abstract_p_node, keywords_node, acknowledgement_node, caption_nodes, ref_nodes, math_nodes"), ("DFS filter", "dfs_filter_nodes")], ["returned node lists"])

p("C19", "Heading normalization is total, stable and ignores numbering",
  "Normalizing a heading always terminates, and returns either nothing or its category: numbering (NUM markers, standalone roman numerals, single letters), generic leading phrases, trailing link words and common plurals are removed repeatedly until nothing changes, and the remainder is mapped by the fixed table of known headings, beginnings and endings or returned as is. Removals never join two separate words. The category of a heading with a word of its own does not change when numbering is added around it.",
  ["inputs"], "every lowercase word sequence",
  "no test calls it; the rules are applied recursively and interact",
  ["src/util/data_helpers.rs"], [("regex cascade with recursion", "normalize_heading_title"), ("table", "normalize_heading_title")], ["return value"])

p("C20", "Environment names map to the documented categories",
  "A theorem-like class maps to an environment exactly when it is 'ltx_proof' or contains 'ltx_theorem', with the named environment normalized by the fixed table and anything unknown mapped to Other; other classes map to nothing. A structural heading maps to the environment of its normalized title regardless of letter case, or to Other. Every environment's display name is its fixed lowercase label, and a document has AMS markup exactly if it contains a div with ltx_theorem in its class.",
  ["inputs"], "every class string, environment name and heading",
  "no test calls these functions; the tables have over a thousand entries",
  ["src/ams.rs"], [("class regex and tables", "class_to_env, normalize_env"), ("heading table", "StructuralEnv::from"), ("labels", "Display impls"), ("XPath", "has_markup_xmldoc")], ["return values"])

p("C21", "Word normalization for the AMS model follows its options",
  "A word is lowercased and, unless punctuation is kept, reduced to its alphanumeric characters; longer than 25 characters (counted in UTF-8 bytes) it is rejected. Otherwise a word containing 'mathformula' becomes the lexemes of its formula (or nothing when math is discarded), one containing 'citationelement' becomes that word, a number (digits with optional sign, decimals, exponent or one letter a-k) becomes NUM, and every other word stays as it is. A heading's text is its normalized words without empty ones and numbers, each followed by a space, or nothing at all if a word is rejected.",
  ["inputs", "configurations"], "every word range, every option combination",
  "no test calls it directly",
  ["src/util/data_helpers.rs"], [("normalization cascade", "ams_normalize_word_range"), ("heading text", "heading_from_node_aux")], ["return values"])

p("C22", "Path-to-words conversion yields one line per sentence of each valid paragraph",
  "Converting a document path to words returns, for each error-free paragraph in order and each of its sentences that has words, one line of its normalized words each followed by a space. A paragraph containing an overlong word contributes nothing, and other paragraphs are unaffected. Through the C interface every input, including unreadable paths and invalid UTF-8, returns a valid string (empty on failure) instead of aborting.",
  ["inputs", "fault_sequences"], "every document, and every path including bad ones",
  "no test calls it",
  ["src/util/path_helpers.rs", "src/extern_use.rs"], [("sentence loop with paragraph buffer", "path_to_words"), ("C wrapper", "word_tokenize_for_vec2doc")], ["returned string"])

p("C23", "The stopword set is exactly the documented list",
  "Loading the stopwords always gives the same set: every word of the fixed English list and nothing else, all lowercase, without blanks or duplicates, regardless of how often or from which thread it is loaded. Sentence splitting uses this set.",
  ["inputs", "histories"], "every word",
  "the tests look up a few words",
  ["src/stopwords.rs"], [("static list into a HashSet", "stopwords::load")], ["stopwords::load"])

p("C24", "Plain strings round trip through a document",
  "Turning a text into a document gives one that contains exactly that text in a single paragraph, so that its plain text is the text normalized by the given parameters, and both stay usable as long as the caller keeps them. Rebuilding tokenized AMS paragraph text drops empty lines, replaces every maximal run of math lexemes (NUM, or words with an underscore inside) by one 'mathformula', capitalizes the first letter of each line and joins the lines by ' . '.",
  ["inputs", "configurations"], "every text, including markup characters and non-ASCII text",
  "tests convert two fixed paragraphs",
  ["src/dnm/mod.rs", "src/dnm/c14n.rs"], [("synthetic DOM", "DNM::from_str"), ("lexeme regex and title case", "rebuild_normalized_text, make_ascii_titlecase")], ["returned DNM and Document"])

p("C25", "Sentence and word iterators tie every word to its place in the document",
  "Iterating a document, paragraph or selection yields its sentences in order, and iterating a sentence yields its words in order, each with a range inside the sentence whose text is that word; empty ranges are skipped. With the tagger, run with the options the corpus has, the words are the tagger's words with their tags, and each word's range denotes exactly the characters the tagger reported, also for non-ASCII text; the sequential and the parallel interfaces agree with each other.",
  ["inputs", "configurations"], "every document and every tagger output",
  "tests print or count words of fixed articles",
  ["src/data.rs", "src/parallel_data.rs"], [("iterators", "SentenceIterator, SimpleWordIterator, SennaWordIterator, DNMRangeIterator"), ("byte offset conversion", "get_subrange_from_byte_offsets")], ["iterator items"])

p("C26", "The default normalization replaces and hides what it documents",
  "With the default document normalization, formulas become 'mathformula', displayed equations and equation groups 'mathformula' on a line of its own, citations 'CitationElement' and references 'REF', while images, tables, document heads, footers, author blocks, tables of contents, note marks and outer notes, bibliographies and figure or table tags leave no text. Replacement tokens are surrounded by spaces, line breaks of the source are kept, and non-ASCII characters are transliterated. Everything else in the document appears in the text.",
  ["inputs"], "every document tree",
  "tests look at single documents",
  ["src/dnm/parameters.rs", "src/dnm/mod.rs"], [("rule tables", "DNMParameters::llamapun_normalization")], ["DNM::plaintext with default parameters"])

p("C27", "Language filter and parameter checks never reject valid English text",
  "A text is rejected by the language filter only when the detector reports a non-Latin script, or a language other than English with confidence above 0.93; formula, citation and reference placeholders are removed before detection and an undetectable text is accepted. Checking parameters only warns: it says something exactly if both ways of stemming, stemming and lowercasing, or stemming and back mapping are asked for together, never changes the parameters and never panics, for every combination.",
  ["inputs", "configurations"], "every detector verdict and every parameter combination",
  "no test calls them",
  ["src/util/data_helpers.rs", "src/dnm/parameters.rs"], [("verdict rule", "invalid_for_english_latin"), ("warnings", "DNMParameters::check")], ["return values"])

p("C28", "A plot shows every entry at its place under its own labels",
  "Plotting a list of (key, count) pairs draws one picture with exactly one point per entry, in the order given: horizontally at the key, vertically at the binary logarithm of the count, whatever the number, order or repetition of the entries. The picture is written to the given path as PNG, and the title and both axis labels are the given texts, each in its own place and whatever characters they contain.",
  ["inputs"], "every list of entries and every label text",
  "no test plots anything",
  ["src/util/plot.rs"], [("figure set-up", "plot_simple")], ["the script sent to the plotting program"])

p("C29", "The resource list names every test document exactly once",
  "The preloaded list of resource documents holds, for every .html and .xhtml file anywhere below ./tests/resources, its file name without that extension, exactly once, and nothing for any other file, for folders whatever their name, or for what lies behind linked folders. Every thread sees the same list, and without the folder the list is empty. (Names are valid UTF-8.)",
  ["inputs"], "every tree of files",
  "tests compare its length with the documents found in the one tree at hand",
  ["src/util/test.rs"], [("walk and filters", "RESOURCE_DOCUMENTS")], ["the list"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
