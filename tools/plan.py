"""What each check runs: configurations (how /repo is compiled), harnesses, numbers of cases."""

SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CONFIGS = {
    # ASan+UBSan, with the hook making the static input buffer 64 (or 22) bytes instead of 48000, so
    # that refills, wrap-arounds and growth happen within inputs of a few hundred bytes
    "small": {"flags": SAN + ["-DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE=64"]},
    "tiny": {"flags": SAN + ["-DLOG_SURGEON_VERIF_STATIC_BUFF_SIZE=22"]},
    # Buffers as shipped
    "asan": {"flags": SAN},
    "real": {"flags": ["-O1", "-D_GLIBCXX_ASSERTIONS"], "address_space": 3_500_000_000},
    "tsan": {"flags": ["-O1", "-fsanitize=thread"]},
}

LOG_RULE = (
    "Each case draws a schema (1-8 variable rules over shared alphabets, timestamps, delimiters) and several "
    "logs made from strings of the rules, near misses, delimiters, timestamps, newlines and arbitrary bytes; "
    "an evaluation is one comparison of one parser run with the oracle; it is non-trivial if the run returned "
    "at least one event with a variable or a timestamp, and distinct by schema, log and way of driving the parser."
)


def log_plan(small, real, t_small, t_real, t_tiny, t_asan, rule=LOG_RULE):
    h = "h_log"
    return {
        "quick": [("small", h, small, 150), ("real", h, real, 150)],
        "thorough": [("small", h, t_small, 1800), ("tiny", h, t_tiny, 900), ("real", h, t_real, 1800),
                     ("asan", h, t_asan, 1200)],
        "rule": rule,
    }


RE_RULE = (
    "Each case draws patterns of the schema's regular-expression syntax (random trees over every operator, "
    "written out as text), builds the automata the library makes from them and walks the product of automaton "
    "and Brzozowski derivatives of the pattern over all bytes; an evaluation is one rule set; it is non-trivial "
    "if the product has more than two states, and distinct by the text of the rules."
)


def re_plan(n, t, real):
    return {
        "quick": [("small", "h_regex", n, 200), ("real", "h_regex", real, 120)],
        "thorough": [("small", "h_regex", t, 2400), ("real", "h_regex", 4 * t, 2400)],
        "rule": RE_RULE,
    }




def schema_plan(small, real, rule):
    h = "h_schema"
    return {
        "quick": [("small", h, small, 150), ("real", h, real, 120)],
        "thorough": [("small", h, 25 * small, 1800), ("real", h, 25 * real, 1800), ("asan", h, 10 * small, 1200)],
        "rule": rule,
    }


PLAN = {
    "C01": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C02": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C03": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C04": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C05": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C06": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C07": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C08": re_plan(400, 12000, 2400),
    "C09": re_plan(400, 12000, 800),
    "C10": schema_plan(
        96, 320,
        "Each case draws 12 schema texts straight from the documented grammar (all elements, LF/CRLF, comments, "
        "blank lines, up to thousands of rules) and damages about 60% of them; each is parsed from a string and "
        "often also from a file, and compared with an independent recursive-descent parser: rules, names, lines, "
        "delimiters and pattern languages, or the line, column and quotation of the error. An evaluation is one "
        "text; it is non-trivial if it defines a rule or has a syntax error, and distinct by its bytes.",
    ),
    "C11": schema_plan(
        96, 320,
        "Each case draws 6 schemas whose rules may or may not be able to contain a delimiter, builds parsers from "
        "them in two of five ways and compares acceptance and message with the set of bytes each pattern can "
        "contain; then a history of add_variable (also with wrong positions and texts) and release against a "
        "list. An evaluation is one construction or insertion; it is non-trivial if the schema has rules (or the "
        "insertion is valid), distinct by text and way or by history.",
    ),
    "C12": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C13": schema_plan(
        120, 240,
        "Each case gives 14 texts - random bytes, pieces of syntax, damaged and undamaged grammar texts, deep "
        "nesting, lengths around buffer sizes - to the schema parser as string, file or add_variable, and builds "
        "and uses parsers of those whose automata are small; then a fixed good schema must still give its "
        "results. Watched by ASan+UBSan+LSan and a watchdog. An evaluation is one text; non-trivial if longer "
        "than two bytes, distinct by its bytes and way of delivery.",
    ),
    "C14": log_plan(320, 320, 12000, 8000, 4000, 1500),
    "C15": log_plan(480, 400, 12000, 8000, 4000, 1500),
    "C16": schema_plan(
        40, 120,
        "Each case draws 3-8 items (schemas valid, invalid, large, with and without added variables; logs), takes "
        "the transcript of each in a process forked from one that never used the library, and then runs them in "
        "this process in random order with repetition, with overlapping lifetimes and abandoned midway, comparing "
        "every transcript, and the bytes in use after repeated rounds. An evaluation is one item run after others, "
        "distinct by item and everything before it.",
    ),
    "C17": {
        "quick": [("tsan", "h_thread", 120, 200)],
        "thorough": [("tsan", "h_thread", 6000, 3600)],
        "rule": "Each case is a process with 2-8 threads, started together, that each build schemas and parsers "
                "and parse logs with random yields and delays, under ThreadSanitizer; every transcript is then "
                "compared with the one the same work gives alone. An evaluation is one such process, distinct by "
                "the work of its threads.",
        "assumptions": ["ThreadSanitizer sees races between accesses that happen in the executed schedules"],
    },
    "C18": re_plan(400, 12000, 4000),
    "C19": re_plan(200, 8000, 1600),
    "C20": {
        "quick": [("small", "h_misc", 800, 100), ("real", "h_misc", 4000, 60)],
        "thorough": [("small", "h_misc", 40000, 1200), ("real", "h_misc", 200000, 1200)],
        "rule": "Random sequences of operations on prefix trees and register handlers (deep, bushy and mixed "
                "shapes, extreme positions, ids that don't exist) against a model in which branches share cells "
                "of their common past; an evaluation is one sequence, non-trivial with more than a few "
                "operations, distinct by its operations.",
    },
    "C21": {
        "quick": [("small", "h_misc", 6000, 100), ("real", "h_misc", 20000, 60)],
        "thorough": [("small", "h_misc", 30000, 1200), ("real", "h_misc", 100000, 1200)],
        "rule": "Random files (empty, binary, long lines, with and without final delimiter) and random sequences "
                "of open/read/read-to-delimiter/close over them, with missing paths and directories, compared with "
                "the contents byte for byte and with the table of codes; descriptors are counted. An evaluation "
                "is one sequence, distinct by its operations.",
    },
    "C22": {
        "quick": [("small", "h_grammar", 8000, 120), ("real", "h_grammar", 30000, 60)],
        "thorough": [("small", "h_grammar", 400000, 1500), ("real", "h_grammar", 2000000, 1500)],
        "rule": "Random grammars (composed from lists, options, brackets, expressions, LALR-but-not-SLR and "
                "LR-but-not-LALR patterns, and purely random ones, with damage) over characters, groups, words and "
                "repetitions; generate() is compared with the reference's class of the grammar, parses with Earley's "
                "algorithm, actions with the derivation. An evaluation is one grammar, with up to twenty texts, "
                "distinct by its productions and terminals.",
    },
    "C23": {
        "quick": [("small", "h_misc", 5000, 100), ("real", "h_misc", 12000, 60)],
        "thorough": [("small", "h_misc", 200000, 1200), ("real", "h_misc", 800000, 1200)],
        "rule": "Random sequences of operations on interval trees (points, narrow and wide intervals, ascending, "
                "descending and random, two kinds of values), and trees of up to a hundred thousand entries, against an "
                "ordered map. An evaluation is one sequence, distinct by its operations.",
    },
    "C24": {
        "quick": [("small", "h_move", 240, 200), ("real", "h_move", 700, 100)],
        "thorough": [("small", "h_move", 8000, 2400), ("real", "h_move", 20000, 1200)],
        "rule": "Each case drives two parsers of different schemas through random inputs (some with failing readers, "
                "some in partial buffers) in lockstep with twins that never move, and moves them between calls in "
                "seven ways; deep copies are taken on the way. An evaluation is one move and the comparison after "
                "it; non-trivial if the parser shows an event, distinct by schema, log, and calls and moves so far.",
    },
}
