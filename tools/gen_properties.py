#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
S = "src/log_surgeon/"
F = S + "finite_automata/"
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

HOOK = "compile-time size of the parser's fixed input buffer (a guarded constant), so that half-buffer boundaries are frequent"

prop("C01", "Parsing is lossless: the events partition the input bytes",
     "For every schema that is accepted and every log input, concatenating the text of all events returned until the parser reports it is done reproduces the input byte for byte, in order, with nothing lost, duplicated or altered. This holds for both the reader-driven and the buffer-driven parser. Within an event, concatenating its tokens gives the event's text.",
     ["inputs", "histories", "configurations"],
     "all accepted schemas, all byte strings as logs (with and without timestamps, final newline, empty lines, events longer than any buffer), every way of delivering the input",
     "No existing test parses a log at all; losslessness quantifies over every input and every position of a token relative to the internal buffer's boundaries, which examples can only sample.",
     [S+"Lexer.tpp", S+"LogParser.cpp", S+"ParserInputBuffer.cpp", S+"LogEvent.cpp", S+"Token.cpp", S+"BufferParser.cpp", S+"ReaderParser.cpp"],
     [("scan emits uncaught text between variables", S+"Lexer.tpp Lexer::scan"),
      ("splitting of the newline from the next event's first token", S+"LogParser.cpp LogParser::parse"),
      ("half-buffer reads only over consumed data", S+"ParserInputBuffer.cpp read_is_safe/increase_capacity"),
      ("wrap-around token text", S+"Token.cpp to_string_view")],
     [("m_start_of_log_message", "first token of the next event, carried over", S+"LogParser.hpp"),
      ("m_consumed_pos", "bytes before this may be overwritten", S+"ParserInputBuffer.hpp")],
     ["LogEventView::to_string", "LogEventView::get_log_output_buffer"], HOOK)

prop("C02", "Log events end exactly where the documentation says",
     "An event that begins with a timestamp extends to, and includes, the first newline that is immediately followed by a timestamp, or to the end of input; an event without a timestamp ends at its first newline (inclusive) or at the end of input. A timestamp starts an event only as the very first thing in the input or directly after a newline, and once an event starts with one it is reported as that event's timestamp with the longest matching text. No other place ever starts a new event. (Where a variable rule matches more text than the timestamp rules do at the same place, there is no timestamp there: the longest match wins.)",
     ["inputs", "histories"],
     "all schemas with any number of timestamp rules (including none), all interleavings of newlines, timestamp-like text and other text, including failed partial timestamps and timestamps in mid-line",
     "Segmentation is decided by lookahead over arbitrary text; the existing tests never segment a log.",
     [S+"LogParser.cpp", S+"Lexer.tpp"],
     [("firstTimestamp / newLineTimestamp rules", S+"LogParser.cpp add_rules"), ("found_start_of_next_message", S+"LogParser.cpp parse"),
      ("start-of-file pseudo character", S+"Lexer.tpp prepend_start_of_file_char")],
     [("m_has_start_of_log", "the next event's first token is already known", S+"LogParser.hpp")],
     ["sequence of LogEventView::to_string / get_timestamp"], HOOK)

prop("C03", "Variables are found exactly as the schema specifies",
     "Within events, every token whose text (after a delimiter or the start of the input) is matched by a variable rule and is followed by a delimiter or the end of the input is reported as a variable with that rule's type and the longest such match; everything else is static text. (Rules and delimiters are the schema's alone: no byte of the input has a meaning of its own but the newline, which is a token by itself where no other starts with it.) No token matching a rule is missed and no text that matches no rule is reported as a variable. The result depends only on the schema and the text, not on preceding text, failed partial matches, or the position within the input.",
     ["inputs", "configurations"],
     "all schemas (delimiter sets, variable rules, repeated names, reserved names int/float/hex, timestamps) and all log texts over bytes other than the reserved pseudo characters",
     "Needs an independent matcher compared on arbitrary schemas and logs; the existing tests only print ASTs and one NFA and never run the lexer on a log.",
     [S+"Lexer.tpp", S+"LogParser.cpp", F+"RegexAST.hpp", F+"RegexDFA.tpp"],
     [("longest match with delimiter lookahead", S+"Lexer.tpp scan"), ("delimiter prefix added to rules", S+"LogParser.cpp add_rules"),
      ("skip to next possible token start", S+"Lexer.tpp scan"), ("subset construction", S+"Lexer.tpp nfa_to_dfa")],
     None, ["Token types and texts in the event's output buffer", "LogEventView::get_variables"], HOOK)

prop("C04", "Results do not depend on how the input is delivered or buffered",
     "The sequence of events, tokens, types and texts produced for an input is the same whatever sizes the reader's reads return (including one byte at a time and short reads before the end of input), wherever tokens fall relative to the internal buffer's half and end boundaries, and however much the buffer has to grow for long events. The reader-driven parser and the buffer-driven parser produce the same sequence. The line number that each token carries is the number of newlines in the input up to the token's end, however the input is delivered. End of input is only what the reader reports as end of file or as zero bytes read.",
     ["inputs", "schedules", "histories"],
     "all inputs, all partitions of the input into reads, all alignments of tokens and events to buffer boundaries, events from one byte to many buffer sizes",
     "The boundary cases occur only for particular alignments of a >24,000-byte input; no existing test reads a log through a Reader.",
     [S+"ParserInputBuffer.cpp", S+"ParserInputBuffer.hpp", S+"Lexer.tpp", S+"Buffer.hpp", S+"ReaderParser.cpp", S+"BufferParser.cpp", S+"Token.cpp"],
     [("double-half ring buffer", S+"ParserInputBuffer.cpp"), ("flip_states / increase_buffer_capacity", S+"Lexer.tpp"),
      ("resume of a suspended scan", S+"Lexer.tpp m_asked_for_more_data/m_prev_state")],
     [("m_last_read_first_half", "which half holds the newest data", S+"ParserInputBuffer.hpp"), ("m_pos_last_read_char", "end of valid data", S+"ParserInputBuffer.hpp")],
     ["event and token sequences of ReaderParser vs BufferParser over the whole input"], HOOK)

prop("C05", "BufferParser resumes exactly where it stopped",
     "When the caller's buffer ends before an event does, parse_next_event returns BufferOutOfBounds and leaves the offset at the first byte of the first event not yet returned (unchanged if it already is there); presenting the same bytes from that offset again together with more input - moved to the start of a buffer or left in place in a larger one - yields exactly the events of the uninterrupted input, none lost, repeated or merged. The parser never writes to the caller's buffer, never reads outside it, and reports done only after all of the input marked as finished has been returned. A newly constructed parser behaves like one that was just reset.",
     ["inputs", "schedules", "histories"],
     "all inputs, all sequences of buffer sizes and refills, with and without timestamps, both ways of refilling",
     "The resume protocol is only exercised by an example program; correctness depends on every possible split point.",
     [S+"BufferParser.cpp", S+"BufferParser.hpp", S+"LogParser.cpp", S+"ParserInputBuffer.cpp", "docs/design-objectives.md"],
     [("offset restoration on BufferOutOfBounds", S+"BufferParser.cpp parse_next_event"), ("set_storage", S+"ParserInputBuffer.cpp")],
     [("m_done", "all finished input returned", S+"BufferParser.hpp")], ["return codes, offset, done(), events"], None)

prop("C06", "A deep copy of an event equals the view and outlives it",
     "A LogEvent made from a view (by constructor or deep_copy) has the same text, timestamp, tokens with the same types and texts, variables per type in the same order, log type and multi-line flag as the view had. It stays so, without touching memory it does not own, after the parser continues, is reset, reuses or frees its buffers, or the caller's buffer is overwritten, as long as the parser object itself lives.",
     ["inputs", "histories"],
     "all non-empty events (with/without timestamp, multi-line, wrapped around the buffer end, thousands of tokens), all later uses of the parser",
     "No existing test copies an event; ownership errors only show after the source buffer is reused.",
     [S+"LogEvent.cpp", S+"LogEvent.hpp", S+"Token.cpp", S+"LogParserOutputBuffer.cpp"],
     [("LogEvent constructor", S+"LogEvent.cpp"), ("token vector growth", S+"LogParserOutputBuffer.cpp advance_to_next_token")],
     [("m_buffer", "owned bytes", S+"LogEvent.hpp")], ["all LogEventView accessors on the copy, under AddressSanitizer"], HOOK)

prop("C07", "An event's accessors agree with its tokens",
     "For every event: each token gives its length, its text and each of its characters consistently; the timestamp accessor returns the first token iff the event starts with a timestamp; get_variables(id) lists exactly the event's tokens of that type in order; the log type is the event's text (less its timestamp) with each variable's text replaced by its name in angle brackets while its leading delimiter, if any, is kept (the newline that is a token of its own counts as a variable named newLine without a delimiter); an event is multi-line iff it has a timestamp and contains characters after a newline. Names and ids of variables map to each other one to one, unknown names give no id, and repeated calls of any accessor give the same answer.",
     ["inputs", "histories"],
     "all schemas and events, including events whose tokens wrap around the buffer end and variables at the very start of an event",
     "Existing tests never build an event view.",
     [S+"LogEvent.cpp", S+"LogParser.cpp", S+"LogEvent.hpp", S+"Parser.tpp"],
     [("generate_log_event_view_metadata", S+"LogParser.cpp"), ("get_logtype", S+"LogEvent.cpp")],
     [("m_log_var_occurrences", "tokens per type", S+"LogEvent.hpp"), ("m_multiline", "flag", S+"LogEvent.hpp")],
     ["LogEventView accessors"], HOOK)

prop("C08", "Patterns match exactly the language they denote",
     "For every pattern of the schema's regular-expression syntax (literals and escapes, concatenation, alternation, groups and negated groups, ranges, *, +, {N}, {N,M} including N=0, sub-expressions, captures, \\d, \\s and '.'), the generated automaton accepts a string if and only if the string is in the pattern's language; '.' stands for any non-delimiter in variable rules. Several rules in one automaton do not influence each other's languages, and captures do not change what is matched.",
     ["inputs", "programs"],
     "all patterns of the documented syntax, nested to any depth, alone or several together, and all byte strings",
     "Equality of languages cannot be settled by a handful of strings; the existing tests compare printed ASTs and one printed NFA and never match a string.",
     [F+"RegexAST.hpp", F+"RegexNFA.hpp", F+"RegexNFAState.hpp", F+"RegexDFA.hpp", F+"RegexDFA.tpp", S+"Lexer.tpp", S+"SchemaParser.cpp"],
     [("add_to_nfa of each AST node", F+"RegexAST.hpp"), ("subset construction", S+"Lexer.tpp nfa_to_dfa/epsilon_closure"),
      ("pattern grammar and semantic rules", S+"SchemaParser.cpp")],
     None, ["Lexer::get_dfa walk", "tokens of a parser built from the schema"], None)

prop("C09", "Rule priority is the schema's order, always",
     "A token matched by several rules carries all their types, each once, ordered as the rules appear in the schema (programmatic insertion positions included), and is reported under the first of them. The order never depends on memory layout, allocation history, names, reserved type ids, or how many schemas the process built before. Rules sharing a name act as one alternation.",
     ["inputs", "histories", "configurations"],
     "all schemas with overlapping rules, all orders and insertion positions, all heap states of the process",
     "With a fresh heap the order happens to come out right; only a changed heap or particular rule sets expose it. No existing test looks at types.",
     [S+"Lexer.tpp", F+"RegexDFA.tpp", F+"RegexNFA.hpp", S+"Schema.cpp", S+"SchemaParser.hpp"],
     [("collection of matching ids in a DFA state", F+"RegexDFA.tpp new_state"), ("add_schema_var position", S+"SchemaParser.hpp")],
     [("m_matching_variable_ids", "types of an accepting state in priority order", F+"RegexDFA.hpp")],
     ["Token::m_type_ids_ptr"], None)

prop("C10", "Schema text is parsed as written, or rejected with an error",
     "Every schema text in the documented syntax is accepted, and the resulting rules have the names, patterns, order, delimiters and source lines that the text says, whether it is given as a string or a file, with LF or CRLF line ends, blank lines, comments, or leading spaces, and however long it is. Every text outside the syntax is rejected by a std::exception. A syntax error message names the line and column of the first offending token, says what was found there and what was expected instead, and quotes that line (up to a NUL byte, as messages are C strings).",
     ["inputs", "programs"],
     "all byte strings as schema text, in particular generated valid schemas and small mutations of them, from one byte to several internal buffers long",
     "The existing tests parse about fifteen one-line schemas, all valid.",
     [S+"SchemaParser.cpp", S+"SchemaParser.hpp", S+"LALR1Parser.tpp", S+"LALR1Parser.hpp", S+"FileReader.cpp"],
     [("grammar and semantic rules", S+"SchemaParser.cpp"), ("LALR(1) table generation and driver", S+"LALR1Parser.tpp"), ("report_error", S+"LALR1Parser.tpp")],
     [("m_all_children", "children of reduced symbols", S+"LALR1Parser.hpp")], ["SchemaAST contents, exceptions"], None)

prop("C11", "A schema is rejected iff its rules break the delimiter constraints",
     "Building a parser fails with a std::exception if the schema has no delimiters or if a non-timestamp rule's pattern can contain a delimiter, and the error names the offending rule, its line and a delimiter the pattern really can contain; otherwise it succeeds. Only the last delimiters rule counts, '.' never stands for a delimiter, and timestamp patterns may contain delimiters. Programmatically added variables end up at the requested position, and releasing a schema hands it over whole and leaves an empty one.",
     ["inputs", "configurations", "histories"],
     "all schemas x all delimiter sets, all sequences of add_variable/release operations",
     "No existing test builds a log parser, so no schema is ever validated.",
     [S+"LogParser.cpp", S+"Schema.cpp", S+"Schema.hpp", F+"RegexAST.hpp"],
     [("contains-delimiter check", S+"LogParser.cpp add_rules"), ("set_possible_inputs_to_true / remove_delimiters_from_wildcard", F+"RegexAST.hpp")],
     None, ["exceptions from parser constructors", "SchemaAST after add_variable/release_schema_ast_ptr"], None)

prop("C12", "No log input can corrupt memory, trap or hang the parser",
     "For every accepted schema and every byte sequence as log input, delivered in any way, parsing terminates after a bounded number of calls and steps, without reading or writing outside the objects and buffers it owns, without undefined behaviour or failed assertions, and with memory use proportional to the longest event. This includes all 256 byte values and reading any token or accessor of any returned event.",
     ["inputs", "schedules", "histories"],
     "all byte strings (including NUL, 0x80-0xFF, the reserved pseudo characters) x schemas x delivery and buffer sizes",
     "Memory errors need particular inputs and alignments and a sanitizer to be seen; the existing tests neither parse logs nor run sanitizers.",
     [S+"Lexer.tpp", S+"LogParser.cpp", S+"ParserInputBuffer.cpp", S+"Buffer.hpp", S+"Token.cpp", S+"LogEvent.cpp", S+"LogParserOutputBuffer.cpp"],
     [("bounds kept by the ring buffer and token buffer", S+"ParserInputBuffer.cpp, "+S+"LogParserOutputBuffer.cpp")],
     None, ["AddressSanitizer/UBSan reports, assertions, step and allocation counts"], HOOK)

prop("C13", "No schema text can corrupt memory, trap or hang the schema parser",
     "For every byte sequence as schema text, via string, file or add_variable, building a schema and a parser from it either succeeds or throws a std::exception, in time and memory bounded by the size of the patterns written out (repetitions expanded, x+ counting as xx*) and of their minimal automata's construction, without touching memory out of bounds, undefined behaviour, leaks or failed assertions. A failed attempt leaves later attempts unaffected.",
     ["inputs", "histories"],
     "all byte strings as schema text, including unbalanced and nested brackets, reversed ranges, odd repetition counts, non-ASCII bytes, very long lines and very long schemas, in any sequence",
     "The existing tests parse only valid one-line schemas.",
     [S+"SchemaParser.cpp", S+"LALR1Parser.tpp", S+"LALR1Parser.cpp", F+"RegexAST.hpp", S+"Schema.cpp"],
     [("semantic-rule type checks", S+"SchemaParser.cpp"), ("child storage", S+"LALR1Parser.cpp m_all_children"), ("error reporting", S+"LALR1Parser.tpp report_error")],
     [("m_next_children_start", "next free child slot", S+"LALR1Parser.cpp")], ["sanitizer reports, assertions, exception types"], None)

prop("C14", "A reset parser is as good as new",
     "After reset (or after setting a new reader) at any moment - before use, in mid-input, after an error or an exception of the reader, after the end - the parser's results on the next input are identical to those of a freshly constructed parser with the same schema, however long or oddly ended the previous inputs were.",
     ["histories", "fault_sequences"],
     "all sequences of inputs abandoned at any point, followed by any input, for both parsers",
     "Leftover state shows only for particular abandonment points; no existing test resets a parser.",
     [S+"LogParser.cpp", S+"Lexer.tpp", S+"ParserInputBuffer.cpp", S+"ReaderParser.cpp", S+"BufferParser.cpp", S+"LogEvent.cpp"],
     [("LogParser::reset, Lexer::reset, ParserInputBuffer::reset", S)],
     [("m_has_start_of_log, m_asked_for_more_data, m_match", "carry-over state", S)], ["event sequences before and after reset"], HOOK)

prop("C15", "Reader errors reach the caller, and only then",
     "If the reader returns an error other than end of file, the parse_next_event call during which it happened returns that same error code; if it never does, no call returns one. Events returned before the error are exactly those of an error-free run, the reader is not called again after it reported end of file, and after setting a new reader the parser works as new.",
     ["fault_sequences", "inputs"],
     "all error codes injected at every read of every input, at start, in mid-event, and during buffer growth",
     "Faults at particular reads are never injected by the existing tests.",
     [S+"ReaderParser.cpp", S+"ParserInputBuffer.cpp", S+"Reader.hpp"],
     [("error forwarding", S+"ReaderParser.cpp parse_next_event"), ("EndOfFile handling", S+"ParserInputBuffer.cpp read")],
     [("m_finished_reading_input", "end of input seen", S+"ParserInputBuffer.hpp")], ["return codes and reader call log"], HOOK)

prop("C16", "Building schemas and parsers has no memory of earlier ones",
     "Any number of schemas and parsers, valid or not, of any size, can be built, used and destroyed one after another in one process, in any order, and each behaves exactly as it would in a fresh process. None of them keeps memory after destruction.",
     ["histories"],
     "all sequences of schema constructions (string, file, programmatic; valid, invalid, large) and parser lifetimes",
     "Shared static state accumulates over hundreds of constructions; each existing test makes one or two.",
     [S+"LALR1Parser.cpp", S+"LALR1Parser.hpp", S+"SchemaParser.cpp", S+"SchemaParser.hpp", S+"Schema.cpp"],
     [("child storage reset", S+"LALR1Parser.cpp"), ("static special-character table", S+"SchemaParser.hpp")],
     [("m_all_children, m_next_children_start", "process-wide", S+"LALR1Parser.cpp")], ["results in sequence vs fresh process; leak checker"], None)

prop("C17", "Separate parsers can be used from separate threads",
     "Threads that each build their own schemas and parsers and parse their own inputs at the same time do not race with each other, and every thread gets exactly the results it would get alone.",
     ["schedules", "histories"],
     "all interleavings of construction, parsing and destruction in several threads sharing no objects",
     "No existing test starts a thread; hidden static state only fails under particular interleavings.",
     [S+"LALR1Parser.cpp", S+"LALR1Parser.hpp", S+"SchemaParser.cpp", S+"SchemaParser.hpp", S+"Lexer.hpp"],
     [("static state of the schema parser", S+"LALR1Parser.cpp, "+S+"SchemaParser.hpp")],
     None, ["ThreadSanitizer reports; per-thread results vs single-threaded results"], None)

prop("C18", "Capture groups are tagged consistently in patterns and automata",
     "In the tree of a pattern, each alternative is annotated with exactly the capture names that occur in the other alternative, and each optional part with the names inside it. On every path through the automaton built from a pattern without repeated captures, each capture is either marked matched by exactly one start and one later end enclosing the text it matches, or marked unmatched exactly once; under repetition, every start is followed by its end. Cloning a pattern yields an independent equal pattern that stays valid after the original is gone, and the printed tree and automaton describe the tree and the automaton.",
     ["programs", "inputs"],
     "all patterns with captures nested in and around alternation, concatenation, repetition and other captures; all accepting paths",
     "The existing tests check a dozen printed trees and one printed automaton.",
     [F+"RegexAST.hpp", F+"RegexNFA.hpp", F+"RegexNFAState.hpp", F+"TaggedTransition.hpp", F+"Tag.hpp"],
     [("negative and positive tag propagation", F+"RegexAST.hpp"), ("tagged transitions", F+"RegexNFA.hpp, "+F+"RegexNFAState.hpp")],
     [("m_subtree_positive_tags, m_negative_tags", "captures in the subtree / in the alternative", F+"RegexAST.hpp")],
     ["RegexAST::serialize", "walks over RegexNFA states via its public accessors and serialize()"], None)

prop("C19", "The intersection query returns exactly the types that can match",
     "For any two rule sets, intersecting the first automaton with the second returns exactly the types T such that some string is matched as T by the first and matched by the second, independent of memory layout, and without changing either automaton.",
     ["programs", "inputs"],
     "all pairs of rule sets, including empty intersections, cycles, and rules sharing strings",
     "Emptiness of intersections of arbitrary regular languages cannot be sampled by examples; it is exercised only by an example program.",
     [F+"RegexDFA.hpp", F+"RegexDFA.tpp"],
     [("get_intersect, get_reachable_pairs", F+"RegexDFA.tpp")], None, ["RegexDFA::get_intersect"], None)

prop("C20", "Capture registers keep independent, exact histories",
     "After any sequence of inserts, sets, copies, appends and register additions, each register's reversed position list is exactly the sequence of positions recorded along its own branch, latest first. Setting a node's position changes exactly the lists of the branches that contain the node (a copied register shares its source's branch until either one appends); no other operation on one register or branch ever changes another's list, and node ids handed out stay valid as storage grows. Requests for ids that do not exist are rejected with an exception.",
     ["histories", "inputs"],
     "all operation sequences of any length over many registers and branching nodes, all int positions, invalid ids",
     "The existing tests run a few fixed short sequences.",
     [F+"PrefixTree.hpp", F+"PrefixTree.cpp", F+"RegisterHandler.hpp"],
     [("parent-linked nodes", F+"PrefixTree.hpp"), ("append/copy of register nodes", F+"RegisterHandler.hpp")],
     [("m_nodes", "prefix tree storage", F+"PrefixTree.hpp"), ("m_registers", "current node per register", F+"RegisterHandler.hpp")],
     ["PrefixTree::get_reversed_positions, RegisterHandler::get_reversed_positions"], None)

prop("C21", "FileReader delivers exactly the file's bytes and documented codes",
     "Reading an opened file in requests of any sizes returns exactly the file's bytes in order and then EndOfFile; reading up to a delimiter returns exactly the text up to the next delimiter or the end of the file, keeping or appending as asked. Reading with a reader that is not open gives NotInit, opening a missing path FileNotFound, reading into a null buffer BadParam, and a reader can be closed and reopened any number of times without leaking descriptors.",
     ["inputs", "histories", "fault_sequences"],
     "all file contents (empty, binary, long lines, no final newline), all sequences of open/read/read-to-delimiter/close",
     "No existing test reads a file.",
     [S+"FileReader.cpp", S+"FileReader.hpp"],
     [("fread/getdelim wrappers", S+"FileReader.cpp")], [("m_file", "open stream", S+"FileReader.hpp")], ["return codes and bytes; open descriptors"], None)

prop("C22", "The parser generator accepts LALR(1) grammars and parses their languages",
     "LALR1Parser, given any terminals that can't be mistaken for each other and any productions whose nonterminals all derive some text: generate() succeeds if the grammar is LALR(1), and throws a std::exception if it isn't. A generated parser accepts exactly the sentences of the grammar (the text being cut into the longest terminals), however the reader delivers them and however often the parser was used before, on accepted or rejected texts. For a sentence, the semantic actions last given for the productions are called once for each node of its derivation, bottom-up from left to right, with the children's tokens and values, and the result carries the start symbol's value. Any other text is rejected by a std::exception that names the line and column of the first token that can't follow the ones before it, and quotes its line. If the reader fails, parse throws, and later texts are parsed as if it had not been called.",
     ["inputs", "programs", "histories"],
     "all grammars (with empty productions, recursion on either side, several levels of precedence, conflicts), all terminals (characters of any value, groups, words, repetitions), all texts, all orders of productions, all sequences of parses",
     "The existing tests only ever generate the schema's own grammar, which needs none of the distinctions between SLR, LALR and LR, and parse a few short texts with it.",
     [S+"LALR1Parser.tpp", S+"LALR1Parser.hpp", S+"LALR1Parser.cpp", S+"Parser.tpp"],
     [("item sets, lookahead propagation, conflict detection", S+"LALR1Parser.tpp"), ("shift/reduce driver", S+"LALR1Parser.tpp parse_symbol"), ("terminals", S+"Parser.tpp")],
     [("m_lr1_item_sets", "the automaton", S+"LALR1Parser.hpp"), ("m_all_children", "children of reduced symbols", S+"LALR1Parser.hpp")], ["exceptions of generate() and parse(), semantic actions, NonTerminal::get_parser_ast"], None)

prop("C23", "The interval tree is an ordered map with exact overlap queries",
     "After any sequence of operations on a UnicodeIntervalTree, all() lists exactly the inserted and not yet removed intervals, once each, in ascending order, each with the value last inserted for it; find(i) returns exactly those that overlap with the closed interval i, in the same order, and changes nothing; pop(i) removes and returns exactly those; reset() empties the tree. An empty tree is no exception, and neither the order of insertion nor the number of intervals makes any operation fail.",
     ["histories", "inputs"],
     "all sequences of insert, find, pop, all and reset over all intervals of 32-bit numbers (single points, nested, touching, equal, extreme), up to about a hundred thousand entries in ascending, descending and mixed order",
     "No existing test uses the tree.",
     [F+"UnicodeIntervalTree.hpp", F+"UnicodeIntervalTree.tpp"],
     [("search pruning by subtree bounds", F+"UnicodeIntervalTree.tpp"), ("rebalancing", F+"UnicodeIntervalTree.tpp")],
     [("m_lower/m_upper/m_height", "bounds and height of each subtree", F+"UnicodeIntervalTree.hpp")], ["UnicodeIntervalTree::all/find/pop"], None)

prop("C24", "Moving a parser, an event or a schema keeps everything it stands for",
     "A ReaderParser, a BufferParser, a LogEvent or a Schema can be moved at any moment - before use, in mid-input, while it shows an event, after the end, after an error, over an unused object or over one in use, by swapping, in a growing vector - and the object moved to then behaves exactly as the original would have: same return codes, reads, offsets, done(), event shown, events to come and symbols. Deep copies taken earlier stay valid. What was moved from can be destroyed or assigned to. A type that can't be copied soundly can't be copied: no two FileReaders own the same file, no buffer refers to another one's storage.",
     ["histories", "inputs"],
     "all schemas and logs, all interleavings of calls with moves of every kind, for several parsers at once",
     "No existing test moves a parser; the defects need the old object to be gone.",
     [S+"BufferParser.hpp", S+"ReaderParser.hpp", S+"LogParser.hpp", S+"LogEvent.hpp", S+"Buffer.hpp", S+"FileReader.hpp", S+"Schema.hpp"],
     [("m_log_parser behind a pointer", S+"ReaderParser.hpp"), ("LogEvent's own buffer", S+"LogEvent.cpp"), ("Buffer's active storage", S+"Buffer.hpp")],
     [("m_active_storage", "may point into the object itself", S+"Buffer.hpp"), ("m_log_parser", "a view's parser", S+"LogEvent.hpp")], ["everything public of parsers, events and schemas"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
