#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Lines are code, comment or blank by their language's lexical rules",
  "For every supported language that does not embed another one, and every source text in which all comments and strings are closed, each physical line is counted exactly once: as code if it holds any character outside comments and whitespace, otherwise as a comment if it holds any part of a comment other than whitespace, otherwise as blank. Comment openers inside strings, string openers inside comments, escapes, nested comments, doubled quotes, here-strings and the four line endings (LF, CRLF, CR, FF) are honoured as that language defines them. Every line is attributed to the language being parsed, also when several languages share one grammar.",
  ["inputs"],"all texts over each language's own token alphabet (delimiters, escapes, quotes, an ordinary letter, a space and all line endings) up to a stated number of tokens",
  "Each language's tests run a handful of fixed snippets; the interactions of delimiters (a quote in a comment, an escape before a terminator, a nested close at end of line) form an unbounded set of texts.",
  ["src/parsers/*.rl","src/parsers/common.rl","src/parser_macros.h","src/parser.c"],
  [("one Ragel scanner per language","src/parsers/*.rl"),("line state flags and newline macros","src/parser_macros.h"),("enqueue/commit of tentative multi-line strings","src/parsers/common.rl")],
  [("line_contains_code / whole_line_comment / line_start","what the current line holds so far","src/parser_macros.h")],
  ["line callback of the parser","code/comment/blank counts"])

p("C02","Embedded languages: each line goes to the right language and kind",
  "In formats that host other languages (HTML, PHP, JSP, ERB, ASPX variants, HAML, MXML, ClearSilver templates, CoffeeScript with JavaScript, Nix with shell, MetaPost with TeX), every line of a well-formed document is counted exactly once, in the host or the embedded language that its text belongs to, with code outranking comment outranking blank. An embedded section ends exactly at its closing delimiter and the host language resumes there.",
  ["inputs"],"all documents over the format's opening and closing delimiters, host text, embedded code and comments, and line endings, up to a stated number of tokens",
  "Tests contain a few documents per format; the language of a line depends on the order of delimiters and newlines before it, an unbounded set.",
  ["src/parsers/html.rl","src/parsers/phphtml.rl","src/parsers/jsp.rl","src/parsers/rhtml.rl","src/parsers/cs_aspx.rl","src/parsers/vb_aspx.rl","src/parsers/haml.rl","src/parsers/mxml.rl","src/parsers/clearsilverhtml.rl","src/parsers/coffeescript.rl","src/parsers/nix.rl","src/parsers/metapost_with_tex.rl"],
  [("fcall/fret between host and embedded machines","src/parsers/*.rl"),("language seen on the current line","src/parser_macros.h emb_newline")],
  None,["line callback of the parser"])

p("C03","Line reports are in range, in order, never overlap and lose no text",
  "For any byte content at all in any supported language, the line reports are non-empty ranges inside the content, in increasing order and without overlap, each labelled code, comment or blank and with the name of a supported language. Every character that is not whitespace lies inside exactly one report, a report labelled blank holds only whitespace, and the whole content is always examined to its end.",
  ["inputs"],"all byte strings up to a stated length over all 256 byte values, and all token strings over each language's alphabet, malformed and unterminated ones included",
  "Tests only use well-formed text; malformed and binary text (unterminated constructs, control bytes, NUL, non-ASCII) is reached only by enumerating inputs.",
  ["src/parser_macros.h","src/parser.c","src/parsers/*.rl"],
  [("scanner catch-all patterns","src/parsers/*.rl"),("line_start bookkeeping","src/parser_macros.h")],None,["line callback of the parser"])

p("C04","Entity reports are in range, in order, and carry a known language",
  "When asked for entities instead of lines, the tool reports for any content a sequence of non-empty, in-bounds, non-overlapping ranges in increasing order, each with the name of a supported language. Whitespace runs, comments and strings that are closed are each reported as one entity of that kind by languages that support entities.",
  ["inputs"],"all byte strings and token strings up to a stated length, in every language",
  "The entity tests check a few one-line snippets per language.",
  ["src/parsers/*.rl","src/parser.c","src/ohcount.c"],
  [("entity machines","src/parsers/*.rl")],None,["entity callback","-re output"])

p("C05","The result for a file never depends on what was parsed before",
  "Parsing a text in a language gives the same line and entity reports, under the same language names, whatever texts in whatever languages and modes (including truncated or malformed ones) were parsed earlier in the same process.",
  ["histories"],"all sequences of parses up to a stated length over a set of (language, text, mode) operations that leave every scanner in every kind of intermediate state",
  "Each test parses from a fresh or arbitrary state and never compares orders; parser state lives in process-wide variables, so the property is about histories.",
  ["src/parser_macros.h","src/parser.c","src/parsers/c.rl","src/parsers/*.rl"],
  [("state reset at the start of each parse","src/parser_macros.h init"),("language name swapped and restored by shared grammars","src/parsers/c.rl and others")],
  [("scanner state, line flags, callback queue","global parser state","src/parser_macros.h")],["line and entity callbacks"])

p("C06","No input makes the tool read or write outside its buffers, crash or hang",
  "Parsing, language detection, licence detection, diffing and the accessors finish and touch only memory they own, for any file name, any content (empty, truncated in the middle of any construct, binary) and any combination of companion file names.",
  ["inputs","configurations"],"all contents and names over small alphabets chosen per component, truncated at every point, under address and undefined-behaviour instrumentation",
  "Tests run uninstrumented on valid files only; a one-byte overrun shows on particular lengths and endings.",
  ["src/detector.c","src/parser_macros.h","src/parsers/*.rl","src/sourcefile.c","src/diff.c","src/licenses.c","src/ohcount.c"],
  [("bounds checks of the hand-written scanners","src/detector.c"),("NUL terminator after contents","src/sourcefile.c")],None,["process exit","sanitizer report"])

p("C07","Line diff is exact: added and removed lines are the minimum edit",
  "Comparing two texts reports as removed and added exactly the lines outside a longest common subsequence of their non-empty lines, so that added minus removed is the difference in line count, identical texts report nothing, and swapping the two texts swaps the two numbers. Two lines count as equal only if they are the same text.",
  ["inputs"],"all pairs of texts of up to a stated number of lines over small line alphabets, including lines that are easily confused (permutations, same length, empty, unterminated last line)",
  "The existing tests diff one or two fixed pairs.",
  ["src/diff.c","src/sourcefile.c"],
  [("Hunt-McIlroy candidate search over hashed lines","src/diff.c")],None,["added/removed counts"])

p("C08","Counts and deltas per language always add up",
  "A list of line counts or of line-count deltas behaves as a map from language to sums: after any sequence of additions and merges it has one entry per language, each entry is the sum of what was added for that language, and every total is the sum over entries. Compacting drops exactly the entries without lines (or changes), keeps order and leaves the original unchanged; no operation alters or shares its arguments.",
  ["histories"],"all sequences of add, merge, compact and query operations up to a stated depth over a few languages and small count values",
  "The tests run one short sequence per operation.",
  ["src/loc.c","src/loc.h"],
  [("list search and merge by language","src/loc.c")],None,["all totals and lookups"])

p("C09","Name tables recognise exactly their documented keys",
  "Lookup of a language name, file extension, special file name, C++ header name or command-line flag succeeds exactly for the listed keys, compared in full and case-sensitively, and returns that key's own entry; every language an extension, file name or rule can select has a name entry and a parser of its own, and every language that lines are counted for (all but the composite formats cs_aspx, vb_aspx, jsp, rhtml and metapost_with_tex) has a display name. Setting a file's language and asking whether a file name is binary follow the same tables.",
  ["inputs"],"every listed key, every string at edit distance one from a key (over a stated alphabet), all strings up to a stated length, and every key cut or extended at every point",
  "Tests look up a few dozen names; exactness is a statement about all strings, and the perfect-hash tables are generated at build time.",
  ["src/hash/*.gperf","src/hash/generate_headers","src/languages.h"],
  [("generated perfect hashes","src/hash/generate_headers")],None,["lookup functions"])

p("C10","Language detection follows one fixed order of evidence",
  "A file's language is decided by the first of these that applies: its extension as written, its extension in lower case, an emacs mode line in its first lines, its special file name, then what the content sniffer (magic database) says; ambiguous extensions are passed to their content rule, binary extensions and names give no language. The outcome depends only on the name, the content, the companion file names and the sniffer's answer, and a file whose language cannot be determined reports none.",
  ["inputs","configurations"],"all combinations of file-name shapes, first-line shapes and sniffer answers (including every language name the sniffer can mention and sniffer failures)",
  "Detection tests use a directory of real files; they cannot vary the sniffer's answer or cross every source of evidence with every other.",
  ["src/detector.c","src/sourcefile.c","src/hash/extensions.gperf","src/hash/filenames.gperf"],
  [("ordered tests in language detection","src/detector.c ohcount_detect_language"),("mode-line and magic-output parsing","src/detector.c")],None,["detected language"])

p("C11","Ambiguous extensions are resolved by the content rules documented for them",
  "For every ambiguous extension (aspx, asx, b, bas/bi, cs, dat, def, f/for/..., fs, h, in, inc, m, mod, pl, pp, pro, r, rs, st), the chosen language is the one whose content markers, companion file names or counts satisfy that extension's rule, wherever in the file the markers stand and whatever surrounds them (rules for lines look at the first 80 characters of a line, the one for .pp at the first 10000 bytes, the shebang of .pl at 100). Without any marker the documented default (or no language) is chosen.",
  ["inputs","configurations"],"all contents up to a stated number of tokens over each rule's markers, near-markers, line endings and filler, crossed with all relevant companion file names",
  "One or two fixture files exist per language and extension; the rules are hand-written scans whose outcome depends on marker order, position and truncation.",
  ["src/detector.c","src/hash/disambiguatefuncs.gperf","src/hash/cppheaders.gperf"],
  [("one disambiguation function per ambiguous extension","src/detector.c")],None,["detected language"])

p("C12","A source file's answers do not depend on the order of questions",
  "For one source file, the language, content, content size, per-language code and comment text, counts and licences are each the same value whatever other queries were made before, however often, and whether the content came from memory or from disk. The recorded code and comment text of each language is the concatenation of its lines without leading indentation, and its counts are the numbers of those lines.",
  ["histories"],"all sequences of accessor calls up to a stated length, on files with content on disk, on a separate disk path, in memory, empty or missing, and in every kind of language",
  "Tests call each accessor once in a fixed order; the object caches and releases content lazily.",
  ["src/sourcefile.c","src/parsed_language.c"],
  [("lazy caches with release of contents after parsing","src/sourcefile.c")],
  [("contents/size/language/loc_list caches","what has been computed","src/structs.h SourceFile")],["accessor results"])

p("C13","Any I/O failure leaves a clean, truthful result",
  "If opening, reading or seeking a file, listing a directory, examining an entry, asking the content sniffer, writing the log or comparing through temporary files and a helper process fails at any point, the program neither crashes, ends early nor corrupts memory. A file whose reading fails is reported truthfully, or as a file without content (its language then by its name alone), never with part of its lines; files and directories unaffected by the failure are reported exactly as without it, differences between contents that were read stay exact; and no open file, directory or temporary file is left behind.",
  ["fault_sequences"],"every single failing call (and every pair, in the thorough tier) of every I/O call made by count, detect, licence, diff and directory-walk runs",
  "No test injects a fault.",
  ["src/sourcefile.c","src/diff.c","src/log.c","src/detector.c","src/ohcount.c"],
  [("checks on fopen/fread/opendir/popen results","src/sourcefile.c, src/diff.c, src/log.c")],None,["exit status, output, leftover files"])

p("C14","A directory walk visits each regular file under it exactly once",
  "Walking a directory yields every regular file at any depth exactly once, with the directory as path prefix, regardless of the order the file system lists entries; symbolic links are never followed or reported, directories whose name starts with a dot are skipped, and other file types are ignored.",
  ["inputs","configurations"],"all directory trees up to a stated size over regular files, directories, hidden directories, symlinks (to files, directories, parents, nothing) and fifos, in all listing orders",
  "The tests walk two fixed directories.",
  ["src/sourcefile.c"],[("recursive readdir with lstat","src/sourcefile.c ohcount_sourcefile_list_add_directory")],None,["file list"])

p("C15","All command-line reports agree with each other and with the files",
  "For any set of files, the summary's per-language numbers are the sums of the individual report, its totals are the sums of its rows, and both equal the lines shown by the annotated listing, which reproduces every reported line's text unchanged. Rows come in the documented order, every path argument and flag spelling behaves as documented, and each report lists each file's own language and lines.",
  ["inputs","configurations"],"all small sets of files over a pool of contents and languages, all flag spellings, and argument lists of up to a stated length including missing paths and directories",
  "No test runs the command-line program.",
  ["src/ohcount.c","src/sourcefile.c","src/loc.c","src/hash/options.gperf"],
  [("report printers and sorts","src/ohcount.c")],None,["standard output"])

p("C16","A file's licences are exactly those its comments state",
  "The licences reported for a file are exactly those whose wording appears in its comment lines, in any of its languages, irrespective of letter case, of white space and punctuation at the start of lines and of line breaks between the words of the wording, minus those whose wording, where it first appears in the comments of a language, is only part of another reported licence's wording there, and minus GPL where a GPL 3 wording, GPL 3 where GPL 3 or later, and the 2-clause BSD where the BSD wording is also found. Text outside comment lines never contributes, a misspelt wording or one inside a longer word states nothing, and the result does not depend on how many or which other files were examined before.",
  ["inputs","histories"],"all combinations (subsets and orders up to a stated size) of licence phrases, decorations, line-break positions, code lines and languages",
  "Each licence has one fixture file; combinations of licences, decorations and languages are not covered.",
  ["src/licenses.c"],
  [("regular-expression table and containment filter","src/licenses.c")],None,["licence list"])

p("C17","A source diff reports each language's change once and the nets add up",
  "Comparing two versions of a file yields exactly one delta for every language present in either version; for each language and each kind (code, comment, blank), lines added minus lines removed equals the difference between the two versions' counts, and lines moved between kinds or languages show as removed from one and added to the other. Comparing a version with itself reports no change, and swapping the versions swaps added and removed.",
  ["inputs"],"all pairs of small documents over code, comment and blank lines of one to three languages",
  "Tests diff a few fixed pairs.",
  ["src/sourcefile.c","src/diff.c","src/loc.c"],
  [("per-language delta computation","src/sourcefile.c")],None,["delta list"])

p("C18","The Ruby interface reports the same facts as the library",
  "For any name, content, file location and companion file names, the Ruby objects report the same language, counts, text, licences, diffs and file lists as the library does, for every order in which the attributes are read. Each enumeration visits every element exactly once.",
  ["inputs","histories"],"all combinations of constructor options over a pool of names and contents, and all accessor orders up to a stated length",
  "The Ruby tests construct a few objects.",
  ["ruby/ohcount.i","ruby/ohcount.rb","src/sourcefile.c"],
  [("SWIG wrapper and list-to-array helpers","ruby/ohcount.i, ruby/ohcount.rb")],None,["Ruby return values"])

p("C19","Platform facts follow from the rules and the files examined, in any order",
  "A project's platform and tool facts are exactly those whose rule (a combination by and, or, not of file-name, keyword, header, import, build-file and language conditions) holds for the set of files examined. The outcome does not depend on the order in which files are examined, examining an irrelevant file changes nothing, and two examinations do not influence each other.",
  ["inputs","histories"],"all rule combinations up to a stated size over all small sets and orders of files that do or do not trigger each condition",
  "The tests examine a few fixed directories.",
  ["ruby/gestalt.rb","ruby/gestalt/gestalt_engine.rb","ruby/gestalt/rules/*.rb","ruby/gestalt/definitions.rb"],
  [("rule objects with trigger counting","ruby/gestalt/rules")],None,["list of facts"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
