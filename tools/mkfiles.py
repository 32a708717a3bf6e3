#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique, ready=True, state=None, observe=None):
    P.append(dict(
        id=id, ready=ready, note=note, technique=technique,
        line=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=m, where=", ".join(files)) for m in mechanism], **({"state": state} if state else {}),
                         **({"observe_at": observe} if observe else {})),
        )))


SIM = "deterministic simulation with fault injection: "

prop("R01", "Readers return exactly the document, however it is delivered",
     "Reading a valid UTF-8 document as characters, or any data as bytes, returns every character (byte) exactly once and in order, and then the end of input. This holds for every way in which the source splits the data into reads, also inside of a character that has several bytes, and for every number and position of interrupted reads. Documents in memory, files, the standard input and other sources behave the same.",
     ["inputs", "fault_sequences", "schedules"], "every document, reader kind and source kind; every sequence of read sizes and interruptions",
     "The existing tests read short ASCII documents from memory, where one read always delivers everything; no test controls the sizes of reads or interrupts them.",
     ["src/reader.rs", "src/input.rs"],
     ["buffered reading and UTF-8 decoding in Reader", "buffered reading in ByteReader", "retry of interrupted reads"],
     "seeded search over documents, read sizes and EINTR, real readers over simulated reads, compared with a model of the stream",
     SIM + "scripted short and interrupted reads against a reference stream model",
     state=[{"name": "byte_buf, char_buf", "meaning": "bytes and characters that were read but not returned", "where": "src/reader.rs"}],
     observe=["results of reading operations", "reported errors", "error count"])

prop("R02", "Failed reads and malformed UTF-8 are reported, and lose nothing else",
     "An operation that meets a failing read, or bytes that are not UTF-8 while characters are read, returns a fatal error, prints one error message with the cause, and adds exactly one to the number of errors of the input. All data in front of the problem is returned first. After a failed read or a temporary end of input, later operations continue with exactly the data that comes next: nothing is lost, repeated or invented.",
     ["inputs", "fault_sequences", "histories"], "every document, corruption, position and kind of read failure, and sequence of reading operations",
     "No existing test makes a read fail or feeds malformed UTF-8; the number of positions of failures relative to buffers and characters is unbounded.",
     ["src/reader.rs", "src/input.rs", "src/span.rs"],
     ["error paths of Reader and ByteReader", "fatal error logger"],
     "seeded search over failing reads (8 errno), temporary ends, flipped, inserted and cut bytes",
     SIM + "hard and transient read errors, transient ends of file and corrupted bytes against a reference stream model")

prop("R03", "Peek, unread, skip and collect keep characters and locations consistent",
     "Peeking consumes nothing, a character that is put back is the next one to be read, and skipping or collecting stops in front of the first character that satisfies the condition or at the end of input. At any time the current location is the line and column of the last consumed character, lines counted from 1 and columns starting from 1 after each newline, and spans of characters and collected runs reach from the first to the last of their characters. This holds for any sequence of such operations, any reader or other input stream implementation, and any delivery of the data.",
     ["inputs", "histories", "fault_sequences"], "every sequence of input stream operations over every document and delivery, including failing ones",
     "The existing tests run a few fixed operation sequences on in-memory documents.",
     ["src/input.rs", "src/reader.rs", "src/span.rs"],
     ["InputStream methods and their overrides in the readers", "Location::update"],
     "seeded search over operation sequences mixed with deliveries and faults",
     SIM + "random operation histories over faulty sources against a reference stream model")

prop("T01", "Token streams never lose, duplicate or reorder tokens",
     "For any sequence of reading, peeking (one, two or n tokens), looking ahead, expecting, skipping, collecting and putting back tokens, a token stream behaves like a plain queue of the tokens that its tokenizer produces: peeking and looking ahead consume nothing, tokens that are put back come first, and a token that is not the expected one stays in place and is reported. A failure of the tokenizer reaches the caller exactly once and in its place, without losing any token in front of or behind it. Nothing is read from the tokenizer before an operation needs it, and the same holds for other implementations that only provide the required methods.",
     ["inputs", "histories", "fault_sequences"], "every token sequence with failures at any position, and every sequence of token stream operations",
     "The existing tests peek at tokens of error-free inputs only, in fixed orders.",
     ["src/token.rs", "laps_macros/src/token_ast.rs"],
     ["TokenBuffer", "provided methods of TokenStream", "Lookahead and its destructor"],
     "seeded search over token scripts with failures and operation sequences",
     SIM + "failing tokenizers and random operation histories against a reference queue")

prop("T02", "Tokens are values of their kind",
     "A token is compared, hashed, displayed and borrowed exactly as its kind, wherever it comes from: tokens of equal kinds are equal and are found in tables of tokens, also by their kind alone, and changing the kind of a copy changes nothing else. A value that is put into a kind comes back by the conversion of its type, by value and by reference, and by no other conversion. A kind is displayed as its documentation (in lower case, without the final period, literally) or as the words of its name, followed by its value if it has exactly one; a failing writer gets the beginning of this text and its error is returned. Going over a parsed sequence (by value, by reference, to change it) visits all of its items once and in order. This holds for every history of tokens and tables, and every hash function and seed.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every shape of kinds, every history of tokens and tables of tokens, every hash function and seed, every failure of the tokenizer and the writer",
     "The existing tests compare single tokens of a few kinds.",
     ["src/token.rs", "src/ast.rs", "laps_macros/src/token_kind.rs", "laps_macros/src/utils.rs"],
     ["Token, token_kind", "iteration over sequences"],
     "seeded histories of symbol tables over tokens of a failing tokenizer, with simulated hash seeds and colliding hash functions",
     SIM + "histories of symbol tables of tokens against a model")

prop("D02", "Reporting never fails, and counts exactly, whatever happened to the file",
     "Reporting an error or a warning always prints its message and, if it has a location, the name of the input and the start location. It returns an error of the right severity and increases the number of errors or warnings by exactly one, for all spans of the same input at once; the summary prints these numbers. This holds for every span, also one outside of the file, and whatever happened to the file: it may be missing, unreadable, corrupted, shorter, changed, or failing while it is read, and writes to the standard error may be short or interrupted.",
     ["inputs", "fault_sequences", "histories"], "every span, message, sequence of reports, file state and sequence of read and write outcomes",
     "The existing tests report a few errors for in-memory inputs and never touch a file.",
     ["src/span.rs"],
     ["log functions", "shared counters", "excerpt printing that ignores failures"],
     "seeded search over spans, file states, read and write faults in a simulated file system",
     SIM + "simulated file system and standard error with open, read and write faults against a model of the reports")

prop("D03", "Excerpts show the reported lines and mark exactly the reported characters",
     "When the file of a reported span can be read, the report contains the first and the last line of the span with their numbers, and of the lines in between all (up to four) or the first two and the last one. The marks start below the first character and end below the last character of the span, also in lines with tabs, wide characters and characters without width. In colours, the report is the same text, its marks have the colour of its label, and warnings another one than errors. This holds for spans obtained by reading the file as characters, and is independent of how the file is delivered to the reader and to the logger.",
     ["inputs", "fault_sequences"], "every file and range of characters, every delivery of the file to the reader and the logger",
     "No existing test checks the text of a report, or uses a file.",
     ["src/span.rs", "src/reader.rs"],
     ["single line and multiple line excerpts", "column width computation"],
     "seeded search over documents, ranges and deliveries, the complete text is compared",
     SIM + "simulated file system with short and interrupted reads against a model of the excerpt")

prop("D05", "Spans are values that belong to one input, and compose",
     "A span belongs to one input for its whole life, and no operation changes any span but the one it is applied to. Updating a span by a character moves its start as the type of the character says and makes it the end; extending it by another span changes its end to the end of the other. The span of a token, box, tuple, optional or vector reaches from the first to the last of its parts that have one, and there is none if no part has. Spans are equal exactly if they belong to the same input and have the same locations, a span is in the same line as another one if it ends in the line where the other starts, and they are displayed as `line:col-line:col`. Errors and warnings are counted per input, seen by all its spans, and by no span of another input of the same name, also when the input itself is gone. This holds for every history of operations on any number of inputs.",
     ["inputs", "histories", "fault_sequences"], "every history of operations on spans of several inputs, every type of characters, every structure of spans",
     "The existing tests update a few spans and print them.",
     ["src/span.rs", "src/token.rs"],
     ["Span, Location, Spanned, TrySpan", "shared counters"],
     "seeded histories over pools of spans of several faulty inputs, all spans are compared after every operation",
     SIM + "histories of spans of several faulty inputs against a model of all spans")

prop("L01", "Derived lexers split every input into the declared tokens",
     "A derived lexer repeatedly takes the longest text that can still become one of the declared tokens; if this text matches a token it is returned with the declared kind and the value parsed from exactly this text, and if it matches several, the one declared first wins. Skipped tokens are left out, the span of a token reaches from its first to its last character, and at the end of input the declared end token is returned. This holds for characters and bytes, for serially and parallelly constructed lexers, in every build, and for every delivery of the input.",
     ["programs", "inputs", "configurations", "fault_sequences"], "every lexer definition without tokens that match the empty text, every document, every delivery, and every hash seed of the macro's process",
     "The existing tests use a few small lexers on a few in-memory documents; whether the generated tables are right depends on the definition, the input and hash seeds.",
     ["laps_macros/src/tokenize.rs", "laps_regex/src", "src/lexer.rs", "src/token.rs"],
     ["state-transition tables generated by the macro", "next_token of derived lexers"],
     "dozens of fixed and seeded random lexer definitions, compared with a derivative-based tokenizer",
     SIM + "seeded lexer definitions, documents and deliveries against a derivative-based reference tokenizer")

prop("L02", "Lexers report bad input and failed reads, and resume where they stopped",
     "Text that cannot become a token, an incomplete token at the end of input, a value that cannot be parsed, and an end of input without a declared end token are each reported as one error with the span of the text that was read, and the call returns the error. Characters behind that text stay in the input, so later calls return the following tokens exactly as if the lexer were started there. A read that fails between two tokens is returned as a fatal error, and the following tokens and locations are not affected by it.",
     ["programs", "inputs", "fault_sequences", "histories"], "every lexer definition, every document including malformed ones, every failure of a read between tokens",
     "The existing tests only lex valid documents, from memory.",
     ["laps_macros/src/tokenize.rs", "src/lexer.rs", "src/reader.rs"],
     ["error paths of next_token of derived lexers"],
     "as L01, with malformed documents and failing reads",
     SIM + "malformed documents and failing reads against a reference tokenizer")

prop("L03", "Literal tokens carry exactly the value that the source spells",
     "Integer tokens in decimal, binary, octal and hexadecimal notation, with or without a sign, carry the number they spell for every integer type, and are reported as invalid when the type cannot hold it or the notation is wrong; unsigned types wrap around behind a minus sign, as documented. Character and string tokens carry the text they spell after replacing the documented escapes, and are reported as invalid for every other escape, for raw line breaks and tabs, and for code points that do not exist. This holds for every delivery of the source.",
     ["inputs", "fault_sequences"], "every literal, valid or not, every integer type, every delivery of the source",
     "The existing tests check about a hundred fixed literals.",
     ["src/lexer.rs"],
     ["int_literal, signed_int_literal, str_literal, char_literal"],
     "seeded search over valid and invalid literals, lexed from a faulty source, against an independent parser",
     SIM + "literals lexed from faulty sources against independent literal parsers")

prop("L04", "Lexers can be switched and bypassed at every token boundary",
     "After every call a derived lexer has taken exactly the text of what it returned or reported (and of tokens it skipped) from its input, and keeps nothing else: the input stands directly behind this text, with the location there. So the input may be used through the lexer, or taken out of it (also out of a token buffer that has not peeked) and be read, peeked, skipped, collected, or given another line and column; the same or another lexer on it continues exactly there. An end of input ends a text, the declared end token is returned as soon as there is nothing in front of it, and if the source goes on, later calls return what follows; a read that fails inside of a text drops what was read of this text and nothing else. This holds for every sequence of such operations and every delivery of the input.",
     ["programs", "inputs", "fault_sequences", "histories"], "every set of lexer definitions, every document, every sequence of tokens, switches and direct operations, every delivery with failures and temporary ends",
     "The existing tests use one lexer per input, on complete documents in memory.",
     ["laps_macros/src/tokenize.rs", "src/lexer.rs", "src/token.rs", "src/input.rs", "src/reader.rs"],
     ["into_input, input_mut", "next_token of derived lexers"],
     "two to four lexers per input, chosen from all definitions, against a model of the input and a derivative-based tokenizer",
     SIM + "several lexers and direct operations on one faulty input against a model of the input")

prop("P01", "Deciding whether a construct starts here consumes nothing",
     "Asking any predefined or derived construct whether it may be parsed from a token stream leaves the stream as it was, whether the answer is yes, no or a failure of the tokenizer. The answer only depends on the tokens ahead, and it is yes for every token sequence that the construct can be parsed from.",
     ["programs", "inputs", "fault_sequences", "histories"], "every composition of constructs, every token sequence, every position of a tokenizer failure",
     "The existing tests parse a few error-free inputs, and do not compare the stream before and after the decision.",
     ["src/parse.rs", "src/ast.rs", "src/token.rs", "laps_macros/src/parse.rs", "laps_macros/src/token_ast.rs"],
     ["maybe of all constructs", "Lookahead"],
     "about a hundred constructs over random token sequences with failures",
     SIM + "failing tokenizers and random token sequences against a reference grammar interpreter")

prop("P02", "Parsers build exactly the declared structure, or report the offending token",
     "Parsing a construct (token, tuple, box, optional, sequences, separated sequences and lists, prefixes, derived structs and enums) succeeds exactly if the declared left-to-right grammar accepts a prefix of the tokens, then contains exactly these tokens in order, and leaves the rest in the stream. Choices are made by looking ahead only: an optional or repeated part is taken if it may start here, and the first variant of an enum that may start here is taken, or else the last one. Spans reach from the first to the last token that the structure holds. Otherwise the first token that does not fit is reported, or the failure of the tokenizer is returned, and no later token has been consumed.",
     ["programs", "inputs", "fault_sequences"], "every composition of constructs, every token sequence, every position of a tokenizer or read failure",
     "The existing tests parse a handful of fixed inputs with a handful of constructs.",
     ["src/parse.rs", "src/ast.rs", "src/token.rs", "src/span.rs", "laps_macros/src/parse.rs", "laps_macros/src/spanned.rs", "laps_macros/src/token_ast.rs"],
     ["parse of all constructs", "derived Parse and Spanned"],
     "about a hundred constructs over random token sequences with failures, also end to end from faulty readers",
     SIM + "failing tokenizers and faulty readers against a reference grammar interpreter")

prop("D01", "Concurrent reports from several threads are all counted and printed",
     "When spans of one input are used by several threads, every reported error and warning is counted exactly once, no count is ever seen to decrease, and the final counts are the numbers of reports. Every message is printed completely and exactly once.",
     ["schedules", "histories"], "every interleaving of threads that report through spans of one or more inputs",
     "No existing test starts a thread.",
     ["src/span.rs"],
     ["atomic counters shared by all spans of an input"],
     "real threads under a simulated scheduler that preempts at every memory access of the code under test",
     SIM + "seeded preemptive scheduling of real threads, counters checked during and after each run")

prop("D04", "Without the logger, errors carry location and message, and counts are exact",
     "When the logger is disabled, every reported error is returned with its severity and a text of the form `input:line:column: message` (only the message if it was reported without location), nothing is printed, and the numbers of errors and warnings are the same as with the logger. The results of readers, lexers and parsers are the same as with the logger.",
     ["configurations", "inputs", "fault_sequences"], "every report, document, delivery and failure without the logger feature",
     "The existing tests are never built without the logger.",
     ["src/span.rs", "src/reader.rs", "src/token.rs", "laps_macros/src/tokenize.rs"],
     ["variants of Error and of the log functions without feature logger"],
     "the reader, lexer and parser simulations again without the logger feature, error texts compared",
     SIM + "faulty sources against reference models, crate built without the logger")

prop("X01", "Compiled matchers accept exactly the language of their expressions",
     "A matcher built from tagged regular expressions returns, for every text, the smallest tag of the expressions that match the whole text, or nothing if none does; when it is fed symbol by symbol, a symbol is accepted exactly if some longer text can still match. This holds for all supported syntax, for characters and bytes, for expressions in any order and with duplicates, for every hash seed of the process. Malformed and unsupported expressions are rejected with an error, and construction never crashes.",
     ["programs", "inputs", "configurations"], "every list of supported expressions with tags, every text, every hash seed",
     "The existing tests check a dozen expressions on a few texts, under one hash seed per run.",
     ["laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/table.rs", "laps_regex/src/re.rs"],
     ["MIR optimisation and alphabet partition", "Thompson and powerset construction", "minimisation", "table compression"],
     "seeded expressions, hash seeds and texts, compared with Brzozowski derivatives",
     SIM + "seeded expressions under simulated entropy against a derivative-based reference matcher")

prop("X02", "Parallel and concurrent construction give the same matcher",
     "Constructing a matcher in parallel yields a matcher that accepts exactly the same texts with the same tags as serial construction, under every schedule of the worker threads and any number of workers. Matchers that are constructed at the same time on several threads do not influence each other, and a matcher that several threads use at the same time gives each of them the results it gives alone.",
     ["schedules", "programs", "configurations"], "every schedule of worker threads, every number of workers, every list of expressions",
     "The existing tests construct small matchers under whatever schedule the machine happens to choose.",
     ["laps_regex/src/dfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/re.rs"],
     ["parallel powerset construction with shared caches", "global state identifiers"],
     "real worker threads under a simulated scheduler that preempts at memory accesses and blocking calls",
     SIM + "seeded preemptive scheduling of the real worker threads against a derivative-based reference matcher")

prop("X03", "Every stage of the construction keeps the language, for any symbols and tags",
     "The stages from which a matcher is made can be used on their own, with symbols and tags of any type: an expression over ranges of symbols, its optimized form (optimized any number of times), the nondeterministic automaton of both, the deterministic automaton and the transition table all accept the same texts, and give each of them the smallest tag of the alternatives that match it. The deterministic automaton has one transition per symbol at most, all its states can be reached, exactly the tagged ones are final, and no two of them are equivalent; the table has the same number of states. Expressions with a part that matches nothing are rejected by the optimisation. Automata are dumped as their final states and edges; when the writer fails, its error is returned and what was written is the beginning of the dump.",
     ["programs", "inputs", "configurations", "fault_sequences"], "every expression tree, symbol type, tag type and hash seed; every sequence of short writes, interruptions and failures of the writer",
     "The existing tests build matchers for characters and bytes from a dozen expressions, and never look at the stages, at other symbols, or at dumps.",
     ["laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/table.rs"],
     ["optimisation of Mir for any SymbolOp", "NFA::new and into_fa_tags", "DFA::new, its minimisation and into_fa_tags", "StateTransTable::new", "dump of automata"],
     "seeded expression trees over four types of symbols, every stage walked through together with derivatives, dumps into writers with faults",
     SIM + "seeded expression trees under simulated entropy, every stage against a derivative-based reference, dumps into faulty writers")

prop("X04", "An automaton is exactly what was put into it",
     "A finite automaton has exactly the states, edges, final states and initial state that it was given by adding states and edges, marking states and uniting automata, in any order and for any kind of state, also one written by the user; states of different automata never have the same number, unknown states are refused and change nothing. Closures of states over empty edges, and of the states behind a symbol, are exactly the reachable ones, whatever was asked and cached before. A dump shows exactly the final states and the edges; when the writer fails, its error is returned and what was written is the beginning of the dump.",
     ["histories", "inputs", "fault_sequences"], "every sequence of operations on several automata, every sequence of questions with one cache, every sequence of short writes, interruptions and failures of the writer",
     "There are no tests of automata, closures or dumps.",
     ["laps_regex/src/fa.rs"],
     ["FiniteAutomaton, DenseState, MultiState, State", "ClosureBuilder with CachedClosures", "dump"],
     "seeded histories of operations on several automata, compared with a reference after every operation",
     SIM + "seeded histories of operations and questions under simulated entropy against a reference automaton, dumps into faulty writers")

prop("E01", "A whole front end gives the same trees and reports for every delivery",
     "A front end that is put together from a reader, a derived lexer, a token buffer and derived parsers, and reports through spans, turns a source into the same trees, values, spans, reports with excerpts, numbers of errors and warnings, and summary, whether the source is in memory, a file, the standard input or anything else that can be read, and however it is delivered. Every lexical error, syntax error and failed read is reported exactly once, where it is, and after each of them the front end can resume with exactly the tokens that follow.",
     ["inputs", "fault_sequences", "histories"], "every program of a language, with and without mistakes, every source, delivery and failure between tokens",
     "The existing tests of whole front ends (doc tests) parse a few valid texts from memory; how errors of all layers interact with each other, with buffered tokens and with the delivery of the source is not tested.",
     ["src", "laps_macros/src"],
     ["composition of reader, lexer, token buffer and parsers", "recovery with skip_until, collect_until and unread", "reports with excerpts while the source is read"],
     "seeded search over programs with mistakes, sources and faults, compared with a hand-written front end",
     SIM + "programs with mistakes from faulty sources, a driver with error recovery, against a hand-written reference front end")

prop("E02", "Nothing is taken from the source before it is needed",
     "Readers, derived lexers, token buffers and parsers work on sources whose contents are still being written (a terminal, a pipe, a socket): an operation asks its source for more only if its result depends on something that was not delivered yet. Reading or peeking a character needs one character; skipping and collecting need everything up to the character or token that stops them; the next token needs everything up to the first character that can not belong to it; a decision or a parse needs the tokens up to the last one it has to look at, and nothing behind the last token of the construct unless an optional part could follow.",
     ["inputs", "schedules", "histories"], "every document, every split of it into deliveries, every sequence of operations",
     "All tests read documents which are in memory, where reading too much can not be observed; with a source that blocks until there is more, it hangs.",
     ["src/reader.rs", "src/input.rs", "src/token.rs", "src/lexer.rs", "src/parse.rs", "src/ast.rs", "laps_macros/src/tokenize.rs", "laps_macros/src/parse.rs"],
     ["calls of Read::read by readers", "one character of lookahead by derived lexers", "calls of the tokenizer by TokenBuffer, Lookahead and the parsers"],
     "seeded search over documents, deliveries and operations, each call of the source compared with the demand of a reference model",
     SIM + "operations of readers, parsers and whole front ends over sources in arbitrary pieces, each call of the source against the demand of a reference model")

prop("E03", "Endless sources are processed exactly, in bounded memory",
     "Readers, derived lexers, token buffers and parsers can work on sources without end. However much has been read, skipped, reported, peeked, put back or parsed before, the results, locations and counts stay exact, and what is kept at any time is bounded by a constant, the text of the current token, the tokens that are peeked or put back, and the result under construction; skipping keeps nothing. The stack that is used does not grow with the number of characters or tokens that an operation passes, whether they are returned, skipped or part of a sequence (nested and recursive structures aside). Failing reads and temporary ends change none of this.",
     ["inputs", "histories", "fault_sequences"], "every source, of any length, every delivery with failures and temporary ends, every sequence of operations",
     "The existing tests read short documents; memory and stack that grow with each token are only observed on long ones.",
     ["src/reader.rs", "src/input.rs", "src/token.rs", "src/lexer.rs", "src/parse.rs", "src/span.rs", "laps_macros/src/tokenize.rs"],
     ["buffers of readers, derived lexers, TokenBuffer and Lookahead", "loops over characters, skipped tokens and elements"],
     "seeded search over repeated lists of texts and operations, with an allocator and a source that measure memory and stack",
     SIM + "long repetitions of seeded texts, faults and operations, results against a model, memory and stack measured at the seams")

prop("E04", "The example programs print exactly the result or the mistake of their input",
     "The programs in examples/ are what users start from. Run as processes, from a file that is named by the argument or from the standard input (calc and sexp: only from the latter), they print exactly what the grammar in their source makes of the text: calc the value of an arithmetic expression, json the value of a document, sexp every expression as soon as it is complete, clike the numbers that the program prints with putint, in order, and they exit with 0, or for clike with the value of main. For text that is not in the language, numbers out of range, files that can not be read, and mistakes at run time of clike programs, they print what was computed before, one report with the message, the location and, for files, the excerpt, then the summary (clike and json), and exit with 1. How the input and the lines for getint are delivered, and how the outputs accept what is written, does not matter.",
     ["inputs", "fault_sequences", "histories"], "every text, every delivery of the source and of the standard input, every split of the written output, every failure between tokens",
     "No test runs the example programs, cargo test only builds them; they compose everything that laps offers with evaluation at the same time as parsing, and with other users of the standard input.",
     ["examples", "src", "laps_macros/src"],
     ["evaluation of declarations while the rest is still being read (clike)", "reports, summary and exit code of a process", "input shared with std::io::Stdin"],
     "seeded search over texts with mistakes, deliveries and failures, compared with hand-written interpreters",
     SIM + "the example programs as simulated processes (arguments, files, standard input, output and error, exit), against hand-written reference interpreters")

NA = [
]

ready = [p for p in P if p["ready"]]
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p["line"], ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="./check --setup",
    hooks=dict(guard="none", enable="no hooks: every seam is either a trait of the crate or a libc function that the harness defines", source_commits=[]),
    checks=[dict(
        property=p["id"],
        quick_cmd=f"./check {p['id']} quick",
        thorough_cmd=f"./check {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p["technique"],
        level="exploration",
        level_note=p["note"],
    ) for p in ready],
    not_applicable=[dict(property=p["id"], reason="the check is still under construction") for p in P if not p["ready"]] + NA,
    notes="see DESIGN.md",
)
json.dump(manifest, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
for p in P:
    assert len(p["line"]["title"]) <= 80, p["id"]
