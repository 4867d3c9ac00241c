// Monitors for the schema properties: C10 (text to rules), C11 (delimiter constraints), C13 (memory
// safety of the schema parser), C16 (no memory of earlier schemas).
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "automata.hpp"
#include "refschema.hpp"
#include "work.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();  // GCC has no header for it
#include <sanitizer/lsan_interface.h>
#define VERIF_ASAN 1
#endif
#elif defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();  // GCC has no header for it
#include <sanitizer/lsan_interface.h>
#define VERIF_ASAN 1
#endif

using namespace verif;

namespace {
using AstP = std::unique_ptr<ls::SchemaAST>;

void check_leaks([[maybe_unused]] Ctx& c) {
#ifdef VERIF_ASAN
    if (__lsan_do_recoverable_leak_check() != 0) {
        c.fail("leak", "memory allocated in this case or a few before it was never freed");
    }
#endif
}

struct Outcome {
    AstP ast;
    string error;
};

template <typename F>
Outcome attempt(F f) {
    Outcome o;
    try {
        o.ast = f();
    } catch (std::exception const& e) {
        o.error = e.what();
        if (o.error.empty()) {
            o.error = "(no message)";
        }
    }
    return o;
}

void write_file(string const& path, string_view text) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f << text;
}

vector<vector<uint32_t>> delimiters_of(ls::SchemaAST const& ast) {
    vector<vector<uint32_t>> r;
    for (auto const& d : ast.m_delimiters) {
        auto* p = dynamic_cast<ls::DelimiterStringAST*>(d.get());
        r.push_back(p == nullptr ? vector<uint32_t>{} : p->m_delimiters);
    }
    return r;
}

ls::SchemaVarAST& var_of(ls::SchemaAST const& ast, size_t i) {
    return dynamic_cast<ls::SchemaVarAST&>(*ast.m_schema_vars[i]);
}

// What the tree says, to be compared with what the text says
void check_ast(Ctx& c, ls::SchemaAST const& ast, SchemaText const& want) {
    if (ast.m_schema_vars.size() != want.vars.size()) {
        c.fail("rules", "got " + std::to_string(ast.m_schema_vars.size()) + " rules, the text has " + std::to_string(want.vars.size()));
    }
    for (size_t i = 0; i < want.vars.size(); i++) {
        auto& v = var_of(ast, i);
        if (v.m_name != want.vars[i].name) {
            c.fail("rule-name", "rule " + std::to_string(i) + " is called " + escape(v.m_name) + ", in the text " + want.vars[i].name);
        }
        if (v.m_line_num != want.vars[i].line) {
            c.fail("rule-line", "rule " + std::to_string(i) + " (" + v.m_name + ") is on line " + std::to_string(v.m_line_num) + ", in the text on " + std::to_string(want.vars[i].line));
        }
        if (v.m_regex_ptr == nullptr) {
            c.fail("rule-pattern", "rule " + std::to_string(i) + " has no pattern");
        }
    }
    auto ds = delimiters_of(ast);
    if (ds != want.delimiters) {
        c.fail("delimiters", "got " + std::to_string(ds.size()) + " lines of delimiters, the text has " + std::to_string(want.delimiters.size()) + ", or their contents differ");
    }
}

// Compares the rules' patterns (taken out of the tree) with the text's
void check_patterns(Ctx& c, ls::SchemaAST& ast, SchemaText const& want, Rng& rng, size_t max_rules) {
    size_t n = want.vars.size();
    for (size_t k = 0; k < std::min(n, max_rules); k++) {
        size_t i = n <= max_rules ? k : rng.below(n);
        auto& v = var_of(ast, i);
        if (v.m_regex_ptr == nullptr) {
            continue;
        }
        if (re_size(*want.vars[i].re) > 60 || expanded_size(*want.vars[i].re) > 150 || Deriv(*want.vars[i].re, {}).states("abcdefxyz019-_=.: z[^\\tnrD", 40) > 40) {
            c.count("patterns_too_large_to_compare");
            continue;
        }
        string saved = c.context;
        c.set_context("pattern " + escape(want.vars[i].pattern) + " of " + saved);
        ls::lexers::ByteLexer lexer;
        vector<RefRule> rules;
        lexer.add_rule(10, std::move(v.m_regex_ptr));
        rules.push_back(RefRule{10, Deriv(*want.vars[i].re, {})});
        lexer.generate();
        Bytes skip;
        if (uses_kind(*want.vars[i].re, Re::Space)) {
            skip.set('\n');
        }
        std::function<bool(Re const&)> has_space = [&](Re const& r) {
            for (auto const& e : r.elems) {
                if (e.kind == Elem::Space) {
                    return true;
                }
            }
            for (auto const& x : r.kids) {
                if (has_space(*x)) {
                    return true;
                }
            }
            return r.kind == Re::Space;
        };
        if (has_space(*want.vars[i].re)) {
            skip.set('\n');
        }
        bool complete = true;
        auto pairs = compare_automata(c, lexer.get_dfa()->get_root(), rules, skip, 200, complete);
        c.count("state_pairs", pairs);
        c.count("patterns_compared");
        c.set_context(saved);
    }
}

// What the message says was expected, and what was found instead
void check_expected(Ctx& c, string const& message, string const& text, size_t pos, bool at_line_start, string const& shown) {
    auto first_line = message.substr(0, message.find('\n'));
    auto says = first_line.find(": error: ");
    says = says == string::npos ? first_line.size() : says + 9;
    auto said = first_line.substr(says);
    if (pos >= text.size()) {
        if (at_line_start ? said != "empty file" : said.find("expected '") != 0 || !said.ends_with("' before the end of the input")) {
            c.fail("error-found", "the text ends where more is needed, but the message says something else" + shown);
        }
        return;
    }
    if ('\0' == text[pos]) {
        return;
    }
    auto written = [](char ch) -> string {
        switch (ch) {
            case '\t': return "\\t";
            case '\r': return "\\r";
            case '\n': return "\\n";
            case '\v': return "\\v";
            case '\f': return "\\f";
            default: return {ch};
        }
    };
    char ch = text[pos];
    auto tail = " before '" + written(ch) + "' token";
    if (said.find("expected '") != 0 || said.size() < tail.size() || !said.ends_with(tail)) {
        c.fail("error-found", "the message doesn't say that '" + written(ch) + "' was found where something else was expected" + shown);
    }
    auto expected = said.substr(9, said.size() - 9 - tail.size());
    if (expected.size() < 3 || expected.back() != '\'') {
        c.fail("error-expected", "the message names nothing that was expected" + shown);
    }
    if (text.compare(pos, 10, "delimiters") == 0 || ',' == ch || '\'' == ch) {
        return;
    }
    auto lists = [&](string const& what) {
        return expected.find("'" + what + "'") != string::npos;
    };
    bool digit = '0' <= ch && ch <= '9';
    bool alnum = digit || ('a' <= ch && ch <= 'z') || ('A' <= ch && ch <= 'Z');
    if (lists(written(ch)) || (alnum && lists("AlphaNumeric")) || (digit && lists("Numeric")) || ('\n' != ch && '\r' != ch && lists("CommentCharacters"))) {
        c.fail("error-expected", "the message says that what was found was expected" + shown);
    }
    c.count("expectations_checked");
}

void check_error(Ctx& c, string const& message, string const& text, SchemaText const& want) {
    if (want.semantic_error) {
        c.count("semantic_errors");
        return;
    }
    c.count("syntax_errors");
    auto pos = want.error_pos;
    auto shown = "\nmessage: " + escape(message, 1500);
    uint32_t line = 0;
    uint32_t col = 0;
    if (sscanf(message.c_str(), "Schema:%u:%u: error: ", &line, &col) != 2) {
        c.fail("error-format", "the message doesn't name line and column" + shown);
    }
    size_t want_line = 1 + std::count(text.begin(), text.begin() + static_cast<ptrdiff_t>(pos), '\n');
    if (line != want_line) {
        c.fail("error-line", "the first offending token is at byte " + std::to_string(pos) + ", line " + std::to_string(want_line) + shown);
    }
    if (pos > 0 && text[pos - 1] == '\r') {
        return;  // a lone carriage return: what its line is isn't defined
    }
    size_t bol = pos;
    while (bol > 0 && text[bol - 1] != '\n') {
        bol--;
    }
    if (col != pos - bol + 1) {
        c.fail("error-column", "the first offending token is at byte " + std::to_string(pos) + ", column " + std::to_string(pos - bol + 1) + shown);
    }
    check_expected(c, message, text, pos, pos == bol, shown);
    size_t eol = pos;
    while (eol < text.size() && text[eol] != '\n' && text[eol] != '\r') {
        eol++;
    }
    auto quoted_line = text.substr(bol, eol - bol);
    auto nl = message.find('\n');
    auto rest = nl == string::npos ? "" : message.substr(nl + 1);
    string want_start = string(10, ' ') + quoted_line;
    // Messages are C strings, which end at the first NUL
    if (pos < text.size() && '\0' == text[pos] && nl == string::npos) {
        return;
    }
    if (auto nul = want_start.find('\0'); nul != string::npos) {
        if (rest != want_start.substr(0, nul)) {
            c.fail("error-quote", "the message doesn't quote the line \"" + escape(quoted_line) + "\" up to its first NUL" + shown);
        }
        return;
    }
    if (rest.substr(0, want_start.size()) != want_start) {
        c.fail("error-quote", "the message doesn't quote the line \"" + escape(quoted_line) + "\"" + shown);
    }
    // Nothing of the following line may be quoted, and the caret is below the token
    auto tail = rest.substr(std::min(rest.size(), want_start.size()));
    size_t i = 0;
    while (i < tail.size() && (tail[i] == '\n' || tail[i] == '\r')) {
        i++;
    }
    if (text.empty() || (pos == text.size() && pos == bol)) {
        return;
    }
    if (i == 0 || tail.substr(i) != string(10 + pos - bol, ' ') + "^\n") {
        c.fail("error-quote", "the caret is not below the offending token, or more than its line is quoted" + shown);
    }
}

// ---- C10 ----------------------------------------------------------------------------------------

void c10(Ctx& c, Rng& rng, uint64_t case_no) {
    uint64_t n = 12;
    for (uint64_t k = 0; k < n; k++) {
        bool large = k == 0 && (case_no / 8) % 8 == 0;
        string text = large ? random_schema_text(rng, c.mode == "real" || c.mode == "asan" ? 4000 : 300, 2) : random_schema_text(rng, rng.chance(50) ? 3 : 12);
        bool mutated = !large ? rng.chance(60) : rng.chance(20);
        SchemaText want = SchemaReader::read(text);
        if (!mutated && want.syntax_error) {
            fprintf(stderr, "harness error: generated text \"%s\" is rejected by the reference: %s\n", escape(text, 4000).c_str(), want.show().c_str());
            exit(3);
        }
        if (mutated) {
            text = mutate_text(rng, text, rng.chance(70) ? 2 : 8);
            want = SchemaReader::read(text);
        }
        if (k == 1 && (case_no / 8) % 16 == 3) {
            // Line and column numbers of more than one or two bytes
            auto n = c.mode == "real" ? 65'530 + rng.below(60) : 200 + rng.below(100);
            if (rng.chance(50)) {
                string before;
                while (n-- > 0) {
                    before += "//c\n";
                }
                text = before + text;
            } else {
                text = "n:a\n" + string(n, 'n') + ":" + text;
            }
            want = SchemaReader::read(text);
            c.count("texts_with_large_line_or_column_numbers");
        }
        if (k == 2 && (case_no / 8) % 4 == 1) {
            // A rule with an error (mostly) in front of a long rest of the line
            auto n = c.mode == "real" && rng.chance(30) ? 65'500 + rng.below(100) : 50 + rng.below(600);
            static std::array<char const*, 7> const cStarts{"a b", "a:b)", "a:(b", "a:[", "a:{", "delimiters:", "0a:"};
            string rest;
            while (rest.size() < n) {
                rest += static_cast<char>('a' + rng.below(26));
                if (rng.chance(4)) {
                    rest += " :)]}\\"[rng.below(6)];
                }
            }
            text = (rng.chance(50) ? text + "\n" : string{}) + cStarts[rng.below(cStarts.size())] + rest
                   + (rng.chance(50) ? "\n" : rng.chance(50) ? "\nnext:one\n" : "");
            want = SchemaReader::read(text);
            c.count("texts_with_a_long_rest_of_line");
        }
        auto h = hash_str(text);
        c.set_context("schema text=" + escape(text, 1500));
        auto check = [&](Outcome& o, string const& how) {
            if (want.accepted()) {
                if (o.ast == nullptr) {
                    c.fail("rejected", how + ": a text in the syntax is rejected: " + escape(o.error, 1500));
                }
                check_ast(c, *o.ast, want);
            } else {
                if (o.ast != nullptr) {
                    c.fail("accepted", how + ": a text outside the syntax is accepted; reference: " + want.show());
                }
                check_error(c, o.error, text, want);
            }
        };
        auto s = attempt([&]() { return ls::SchemaParser::try_schema_string(text); });
        check(s, "string");
        if (rng.chance(50)) {
            auto path = c.scratch + "/c10_" + std::to_string(c.shard) + ".txt";
            write_file(path, text);
            auto f = rng.chance(50) ? attempt([&]() { return ls::SchemaParser::try_schema_file(path); })
                                    : attempt([&]() { return ls::Schema(path).release_schema_ast_ptr(); });
            check(f, "file");
            if (f.error != s.error) {
                c.fail("file-differs", "the messages for the string and for a file with the same text differ: " + escape(s.error) + " / " + escape(f.error));
            }
            c.count("files");
        }
        if (s.ast != nullptr) {
            check_patterns(c, *s.ast, want, rng, 4);
        }
        c.count("texts");
        c.count("bytes", text.size());
        c.count(want.accepted() ? "accepted" : "rejected");
        c.maximum("text_bytes", text.size());
        c.maximum("rules", want.vars.size());
        c.evaluated(h, want.vars.size() > 0 || want.syntax_error);
        if (c.wants_sample() && !want.accepted()) {
            c.sample("\"" + escape(text, 300) + "\": " + want.show() + "; got " + escape(s.error, 300));
        }
    }
    // Files that can't be read
    if ((case_no / 8) % 16 == 5) {
        auto file = c.scratch + "/plain";
        std::ofstream{file} << "int:a";
        for (string const& path : {c.scratch + "/does-not-exist", c.scratch, string(""), file + "/x"}) {
            c.set_context("schema file " + path);
            auto f = attempt([&]() { return ls::SchemaParser::try_schema_file(path); });
            if (f.ast != nullptr) {
                c.fail("accepted", "a schema was read from a path that is no file");
            }
            c.count("unreadable_files");
        }
    }
}

// ---- C11 ----------------------------------------------------------------------------------------

void c11_parser(Ctx& c, Rng& rng, bool many_lines) {
    string delims = random_delims(rng);
    Bytes ds;
    for (unsigned char ch : delims) {
        ds.set(ch);
    }
    ReGen g;
    g.alphabet = "abc01-_=.x:";
    g.allow_cap = true;
    g.allow_space = rng.chance(20);
    string bad_alphabet = g.alphabet + delims;
    Bytes forbidden = ds;
    static vector<string> const names{"int", "a", "b", "timestampX", "x9", "hasNumber"};
    RefSchema s;
    s.delims = ds;
    auto n = rng.below(6);
    int style = static_cast<int>(rng.below(3));
    if (many_lines) {
        // Rules to complain about
        n += 2;
        style = 0;
    }
    for (uint64_t i = 0; i < n; i++) {
        Rule r;
        r.name = rng.chance(20) ? "timestamp" : rng.pick(names);
        if (rng.chance(4)) {
            r.name += string(rng.chance(50) ? 240 + rng.below(40) : rng.below(20), 'n');
        }
        bool bad = style == 0 ? rng.chance(30) : style == 1 && rng.chance(5);
        if (bad || r.name == "timestamp") {
            g.forbidden.reset();
            g.alphabet = bad_alphabet;
        } else {
            g.forbidden = forbidden;
            g.alphabet.clear();
            for (char ch : string("abc01-_=.x:")) {
                if (!ds[static_cast<unsigned char>(ch)]) {
                    g.alphabet += ch;
                }
            }
        }
        do {
            r.re = g.gen(rng, static_cast<int>(rng.below(4)));
        } while (re_size(*r.re) > 40 || expanded_size(*r.re) > 100 || Deriv(*r.re, forbidden).states("abcxyz019-_=.: ,!", 40) > 40);
        r.text = print_re(*r.re, &rng);
        s.rules.push_back(r);
    }
    vector<uint32_t> lines;
    bool no_delimiters = rng.chance(6);
    if (no_delimiters) {
        s.text.clear();
        for (auto const& r : s.rules) {
            lines.push_back(lines.size());
            s.text += r.name + ":" + r.text + "\n";
        }
        if (s.rules.empty()) {
            s.text = "//x";
        }
    } else {
        s.text = write_schema(rng, s, delims, true, &lines);
        if (many_lines) {
            // Line numbers of more than one or two bytes
            uint32_t n = c.mode == "real" ? 65'500 + rng.below(100) : 200 + rng.below(100);
            string before;
            for (uint32_t i = 0; i < n; i++) {
                before += "//c\n";
            }
            s.text = before + s.text;
            for (auto& l : lines) {
                l += n;
            }
            c.count("schemas_with_many_lines");
        }
    }
    c.set_context("schema=" + escape(s.text, 2000));
    int first_bad = -1;
    Bytes possible;
    for (size_t i = 0; i < s.rules.size() && first_bad < 0; i++) {
        if (s.rules[i].name == "timestamp") {
            continue;
        }
        Bytes b;
        possible_bytes(*s.rules[i].re, forbidden, b);
        if ((b & ds).any()) {
            first_bad = static_cast<int>(i);
            possible = b & ds;
        }
    }
    // The three ways of giving a schema to a parser
    auto path = c.scratch + "/c11_" + std::to_string(c.shard) + ".txt";
    write_file(path, s.text);
    auto build = [&](int how) -> string {
        try {
            switch (how) {
                case 0:
                    ls::ReaderParser{ls::SchemaParser::try_schema_string(s.text)};
                    break;
                case 1:
                    ls::ReaderParser{path};
                    break;
                case 2:
                    ls::BufferParser{path};
                    break;
                case 3: {
                    auto ast = ls::SchemaParser::try_schema_string(s.text);
                    ast->m_file_path = path;  // makes the message quote the file
                    ls::BufferParser{std::move(ast)};
                    break;
                }
                default: {
                    ls::Schema schema{path};
                    ls::BufferParser{schema.release_schema_ast_ptr()};
                }
            }
        } catch (std::exception const& e) {
            return string("error: ") + e.what();
        }
        return "";
    };
    for (int t = 0; t < 2; t++) {
        int how = many_lines && t == 0 ? 3 : static_cast<int>(rng.below(5));
        string e = build(how);
        c.evaluated(hash_str(s.text, how), !s.rules.empty());
        if (no_delimiters) {
            c.count("without_delimiters");
            if (e.empty()) {
                c.fail("accepted", "a schema without delimiters is accepted");
            }
            continue;
        }
        if (first_bad < 0) {
            c.count("valid");
            if (!e.empty()) {
                c.fail("rejected", "no rule can contain a delimiter, but: " + escape(e, 1000));
            }
            continue;
        }
        c.count("invalid");
        auto const& r = s.rules[first_bad];
        if (e.empty()) {
            c.fail("accepted", "rule " + std::to_string(first_bad) + " (" + r.name + ":" + escape(r.text) + ") can contain a delimiter, but the schema is accepted");
        }
        auto q = "'" + r.name + "'";
        auto at = e.find(q);
        if (at == string::npos) {
            c.fail("message-rule", "the message doesn't name the rule " + q + ": " + escape(e, 1000));
        }
        auto l = ":" + std::to_string(lines[first_bad] + 1) + ":";
        if (e.find(l) == string::npos || e.find(l) > at) {
            c.fail("message-line", "the message doesn't name line " + std::to_string(lines[first_bad] + 1) + ": " + escape(e, 1000));
        }
        auto d = e.find("delimiter '", at);
        if (d == string::npos || d + 12 >= e.size() || e[d + 12] != '\'') {
            c.fail("message-delimiter", "the message names no delimiter: " + escape(e, 1000));
        }
        auto ch = static_cast<unsigned char>(e[d + 11]);
        if (!possible[ch]) {
            c.fail("message-delimiter", "the message names a delimiter that the pattern can't contain or that is none: " + escape(e, 1000));
        }
        if (how == 3) {
            vector<string> file_lines;
            std::istringstream is(s.text);
            string x;
            while (std::getline(is, x)) {
                file_lines.push_back(x);
            }
            auto const& bad_line = file_lines[lines[first_bad]];
            auto quote = e.find(string(10, ' ') + bad_line + "\n");
            if (quote == string::npos) {
                c.fail("message-quote", "the message doesn't quote the rule's line \"" + escape(bad_line) + "\": " + escape(e, 1500));
            }
            // The pattern, which is what follows the first colon, is marked
            auto mark_line = quote + 10 + bad_line.size() + 1;
            auto mark = e.find('^', mark_line);
            auto colon = bad_line.find(':');
            auto length = bad_line.size() - colon - 1 - (bad_line.ends_with('\r') ? 1 : 0);
            if (mark == string::npos || mark != mark_line + 10 + colon + 1 || e.substr(mark, length) != string(length, '^')) {
                c.fail("message-mark", "the message doesn't mark the pattern: " + escape(e, 1500));
            }
            c.count("quoting_messages");
            c.maximum("quoted_line_number", lines[first_bad] + 1);
            c.maximum("marked_column", colon + 1);
        }
        if (c.wants_sample()) {
            c.sample(escape(s.text, 300) + " -> " + escape(e, 300));
        }
    }
}

void c11_insertions(Ctx& c, Rng& rng) {
    struct Entry {
        string name;
        uint32_t line;
    };

    vector<Entry> model;
    vector<vector<uint32_t>> delims;
    std::unique_ptr<ls::Schema> schema;
    auto path = c.scratch + "/c11_" + std::to_string(c.shard) + ".txt";
    string history;
    auto load = [&]() {
        string text = random_schema_text(rng, 5, 1);
        auto t = SchemaReader::read(text);
        while (!t.accepted()) {
            text = random_schema_text(rng, 5, 1);
            t = SchemaReader::read(text);
        }
        write_file(path, text);
        schema = std::make_unique<ls::Schema>(path);
        model.clear();
        for (auto const& v : t.vars) {
            model.push_back({v.name, v.line});
        }
        delims = t.delimiters;
        history = "file:" + escape(text, 500);
    };
    auto compare = [&](AstP const& ast) {
        if (ast == nullptr) {
            c.fail("release", "released nothing");
        }
        bool same = ast->m_schema_vars.size() == model.size() && delimiters_of(*ast) == delims;
        string got;
        for (size_t i = 0; i < ast->m_schema_vars.size(); i++) {
            auto& v = var_of(*ast, i);
            got += v.m_name + "@" + std::to_string(v.m_line_num) + " ";
            same = same && v.m_name == model[i].name && v.m_line_num == model[i].line && v.m_regex_ptr != nullptr;
        }
        if (!same) {
            string want;
            for (auto const& m : model) {
                want += m.name + "@" + std::to_string(m.line) + " ";
            }
            c.fail("insertion", "the schema has rules " + got + ", should have " + want);
        }
    };
    if (rng.chance(50)) {
        load();
    } else {
        schema = std::make_unique<ls::Schema>();
        history = "empty schema";
    }
    auto n = 1 + rng.below(14);
    for (uint64_t i = 0; i < n; i++) {
        if (rng.chance(12)) {
            c.set_context(history);
            compare(schema->release_schema_ast_ptr());
            model.clear();
            delims.clear();
            compare(schema->release_schema_ast_ptr());
            history += "; release";
            c.count("releases");
            if (rng.chance(40)) {
                load();
            }
            continue;
        }
        string text;
        if (rng.chance(80)) {
            text = "v" + std::to_string(i) + ":" + PatternText(rng).regex(1);
            if (rng.chance(20)) {
                text = "//c\n" + text;
            }
            if (rng.chance(20)) {
                text += "\nw:b";
            }
        } else {
            text = rng.chance(30) ? "delimiters: a" : mutate_text(rng, "v:[a-b]|c", 4);
        }
        auto want = SchemaReader::read(text);
        int priority = -1;
        if (rng.chance(70)) {
            priority = static_cast<int>(rng.range(-3, static_cast<int64_t>(model.size()) + 2));
        }
        history += "; add " + escape(text) + " at " + std::to_string(priority);
        c.set_context(history);
        bool ok = want.accepted() && !want.vars.empty() && priority >= -1 && priority <= static_cast<int64_t>(model.size());
        string error;
        try {
            schema->add_variable(text, priority);
        } catch (std::exception const& e) {
            error = string("threw ") + e.what();
        }
        if (ok != error.empty()) {
            c.fail("insertion", ok ? "add_variable " + escape(error) : "add_variable did not reject its arguments");
        }
        if (ok) {
            model.insert(priority < 0 ? model.end() : model.begin() + priority, {want.vars[0].name, want.vars[0].line});
        }
        c.count(ok ? "insertions" : "rejected_insertions");
        c.evaluated(hash_str(history), ok);
    }
    c.set_context(history);
    auto ast = schema->release_schema_ast_ptr();
    schema.reset();
    compare(ast);
}

void c11(Ctx& c, Rng& rng, uint64_t case_no) {
    for (int k = 0; k < 6; k++) {
        c11_parser(c, rng, k == 0 && case_no % 41 == 3);
    }
    c11_insertions(c, rng);
}

// ---- C13 ----------------------------------------------------------------------------------------

constexpr char const* kGoodSchema = "//c\ndelimiters: \\n,\ntimestamp:\\d{2}:\\d{2}\nint:\\-{0,1}[0-9]+\nid:(a|b)+x{1,2}[^\\d \\n,]*\n";

// A failed attempt must not change what later ones do
void check_good_schema(Ctx& c) {
    static vector<EventRec> expected;
    static string const log = "12:34 a 5,abxx abxxq\nfoo 7 -8\n12:35 aax\n\n x";
    auto p = ls::ReaderParser{ls::SchemaParser::try_schema_string(kGoodSchema)};
    auto r = run_reader(p, log, Delivery{}, 1);
    if (!r.done || r.text() != log) {
        c.fail("later-attempt", "a good schema doesn't parse its log any more");
    }
    if (expected.empty()) {
        expected = r.events;
    }
    if (r.events != expected) {
        c.fail("later-attempt", "a good schema gives other results than before: " + diff_events(r.events, expected));
    }
    c.count("good_schemas_in_between");
}

// Whether building automata for the rules stays small by construction
bool buildable(SchemaText const& t) {
    uint64_t total = 0;
    Bytes delims;
    if (!t.delimiters.empty()) {
        for (auto d : t.delimiters.back()) {
            delims.set(d & 0xFF);
        }
    }
    vector<ReP> all;
    for (auto const& v : t.vars) {
        total += expanded_size(*v.re);
        if (total > 400) {
            return false;
        }
        all.push_back(v.re);
    }
    return all.empty() || Deriv(*re_kind(Re::Or, all), delims).states("abcdefnrtxyz019-_=.: ,!\\\n", 150) <= 150;
}

void c13_one(Ctx& c, Rng& rng, string const& text) {
    c.set_context("schema text=" + escape(text, 3000));
    auto want = SchemaReader::read(text);
    bool build = want.accepted() && buildable(want);
    auto path = c.scratch + "/c13_" + std::to_string(c.shard) + ".txt";
    auto how = rng.below(4);
    if (how != 0) {
        write_file(path, text);
    }
    try {
        AstP ast;
        if (how <= 1) {
            ast = how == 0 ? ls::SchemaParser::try_schema_string(text) : ls::SchemaParser::try_schema_file(path);
        } else if (how == 2) {
            ls::Schema s{path};
            s.add_variable("zz:\\d+", 0);
            ast = s.release_schema_ast_ptr();
        } else {
            ls::Schema s;
            // An exactly sized, unterminated copy
            vector<char> copy(text.begin(), text.end());
            copy.shrink_to_fit();
            try {
                s.add_variable(string_view(copy.data(), copy.size()), static_cast<int>(rng.range(-2, 2)));
            } catch (std::exception const&) {
                c.count("add_variable_threw");
            }
            ast = s.release_schema_ast_ptr();
        }
        c.count("schemas_built");
        if (ast == nullptr) {
            c.fail("null", "no schema and no exception");
        }
        // Use all of it
        for (auto const& v : ast->m_schema_vars) {
            auto copy = std::unique_ptr<Ast>(dynamic_cast<ls::SchemaVarAST&>(*v).m_regex_ptr->clone());
            auto a = copy->serialize();
            c.count("serialized_chars", a.size());
        }
        if (build || how >= 2) {
            if (!build && !(want.accepted() && want.vars.empty())) {
                return;
            }
            if (rng.chance(50)) {
                ls::BufferParser p{std::move(ast)};
                run_buffer(p, "12 ab\nx 9\n");
            } else {
                ls::ReaderParser p{std::move(ast)};
                run_reader(p, "12 ab\nx 9\n", Delivery{}, 1);
            }
            c.count("parsers_built");
        } else {
            c.count("parsers_not_tried");
        }
    } catch (std::exception const& e) {
        c.count("threw_std_exception");
        if (c.wants_sample()) {
            c.sample("\"" + escape(text, 200) + "\": " + escape(e.what(), 200));
        }
    } catch (CaseFailed const&) {
        throw;
    } catch (...) {
        c.fail("exception", "something other than a std::exception was thrown");
    }
    c.count("texts");
    c.maximum("text_bytes", text.size());
    c.evaluated(hash_str(text, how), text.size() > 2);
}

void c13(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no == 0) {
        // A pattern so long that recursion over its tree exhausts the stack
        c.set_context("a rule with a pattern of 400,000 characters");
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            rlimit no_core{0, 0};
            setrlimit(RLIMIT_CORE, &no_core);
            rlimit stack{8 << 20, 8 << 20};
            setrlimit(RLIMIT_STACK, &stack);
            if (freopen("/dev/null", "w", stderr) == nullptr) {
                _exit(2);
            }
            try {
                auto ast = ls::SchemaParser::try_schema_string("a:" + string(400000, 'b'));
                bool const one = ast->m_schema_vars.size() == 1;
                ast.reset();
                _exit(one ? 0 : 4);
            } catch (std::exception const&) {
                _exit(0);
            }
        }
        int status = 0;
        waitpid(pid, &status, 0);
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
            c.known.push_back({case_no, "long-pattern-stack-overflow", "parsing \"a:\" followed by 400,000 times b ends the process (status " + std::to_string(status) + ")"});
        }
        c.count("very_long_patterns");
    }
    for (int k = 0; k < 14; k++) {
        string text;
        switch (rng.below(8)) {
            case 0: {  // arbitrary bytes
                auto n = rng.below(200);
                for (uint64_t i = 0; i < n; i++) {
                    text += static_cast<char>(rng.below(256));
                }
                break;
            }
            case 1: {  // bytes after a good start
                text = rng.chance(50) ? "a:" : "delimiters:";
                auto n = rng.below(60);
                for (uint64_t i = 0; i < n; i++) {
                    text += static_cast<char>(rng.below(rng.chance(80) ? 128 : 256));
                }
                break;
            }
            case 2: {  // pieces of syntax
                static vector<string> const pieces{"delimiters:", "a:", "timestamp:", "\n", "\r\n", "//", "(", ")", "(?<", "<", ">", "[", "[^", "]", "-", "{", "}", "{0}", "{0,0}", "{1,2}", "{2}", ",", "|", "*", "+", ".", "\\d", "\\s", "\\t", "\\n", "\\", "a", "b", "0", " ", "\xff", "\xfd", "\x80", string(1, '\0')};
                auto n = rng.below(40);
                for (uint64_t i = 0; i < n; i++) {
                    text += rng.pick(pieces);
                }
                break;
            }
            case 3:  // long, around the sizes of buffers
                text = "a:" + string(rng.below(2 * std::min<size_t>(kBuf, 700)), 'b') + "\nb:c";
                if (rng.chance(50)) {
                    text = "//" + string(rng.below(3 * kBuf), '/') + "\na:b";
                }
                if (rng.chance(30)) {
                    text = mutate_text(rng, text, 2);
                }
                break;
            case 4: {  // deep nesting
                auto n = rng.below(150);
                string open;
                string close;
                for (uint64_t i = 0; i < n; i++) {
                    auto w = rng.below(3);
                    open += w == 0 ? "(" : (w == 1 ? "(?<n" + std::to_string(i) + ">" : "(a|");
                    close += rng.chance(90) ? ")" : ")*";
                    if (w == 2) {
                        open.back() = 'b';  // (a then b
                    }
                }
                text = "delimiters: \nn:" + open + "x" + close;
                if (rng.chance(30)) {
                    text = mutate_text(rng, text, 1);
                }
                break;
            }
            case 5:  // many rules, many lines
                text = random_schema_text(rng, 200, 1);
                if (rng.chance(60)) {
                    text = mutate_text(rng, text, 3);
                }
                break;
            default:
                text = random_schema_text(rng, rng.chance(50) ? 3 : 8, 1 + rng.below(3));
                if (rng.chance(50)) {
                    text = mutate_text(rng, text, rng.chance(70) ? 2 : 20);
                }
                if (rng.chance(75)) {
                    text = (rng.chance(50) ? "delimiters:\\n\n" : "delimiters: \\n,\n") + text;
                }
        }
        c13_one(c, rng, text);
    }
    check_good_schema(c);
    if (case_no % 64 < 8) {
        check_leaks(c);
    }
}
// ---- C16 ----------------------------------------------------------------------------------------

// A process that has never used the code under test, and forks one that does for each request
class Zygote {
public:
    explicit Zygote(string scratch) : m_path(scratch + "/zygote" + std::to_string(getpid()) + ".txt") {
        int to[2];
        int from[2];
        if (pipe(to) != 0 || pipe(from) != 0) {
            perror("pipe");
            exit(2);
        }
        fflush(nullptr);
        m_pid = fork();
        if (m_pid == 0) {
            close(to[1]);
            close(from[0]);
            serve(to[0], from[1]);
            _exit(0);
        }
        close(to[0]);
        close(from[1]);
        m_to = to[1];
        m_from = from[0];
    }

    ~Zygote() {
        close(m_to);
        close(m_from);
        waitpid(m_pid, nullptr, 0);
    }

    string run(WorkItem const& w) {
        string r;
        auto put = [&](string const& s) {
            uint64_t n = s.size();
            r.append(reinterpret_cast<char*>(&n), sizeof n);
            r += s;
        };
        put(w.schema);
        put(w.added);
        put(std::to_string(w.how));
        put(std::to_string(w.seed));
        for (auto const& l : w.logs) {
            put(l);
        }
        send(m_to, r);
        string out;
        if (!receive(m_from, out)) {
            fprintf(stderr, "harness error: the zygote died\n");
            exit(2);
        }
        return out;
    }

private:
    static void send(int fd, string const& s) {
        uint64_t n = s.size();
        string all(reinterpret_cast<char*>(&n), sizeof n);
        all += s;
        size_t done = 0;
        while (done < all.size()) {
            auto k = write(fd, all.data() + done, all.size() - done);
            if (k <= 0) {
                _exit(2);
            }
            done += static_cast<size_t>(k);
        }
    }

    static bool fetch(int fd, char* p, size_t n) {
        while (n > 0) {
            auto k = read(fd, p, n);
            if (k <= 0) {
                return false;
            }
            p += k;
            n -= static_cast<size_t>(k);
        }
        return true;
    }

    static bool receive(int fd, string& s) {
        uint64_t n = 0;
        if (!fetch(fd, reinterpret_cast<char*>(&n), sizeof n)) {
            return false;
        }
        s.resize(n);
        return fetch(fd, s.data(), n);
    }

    void serve(int in, int out) {
        string r;
        while (receive(in, r)) {
            int p[2];
            if (pipe(p) != 0) {
                _exit(2);
            }
            pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                WorkItem w;
                vector<string> parts;
                for (size_t i = 0; i < r.size();) {
                    uint64_t n = 0;
                    memcpy(&n, r.data() + i, sizeof n);
                    parts.push_back(r.substr(i + sizeof n, n));
                    i += sizeof n + n;
                }
                w.schema = parts[0];
                w.added = parts[1];
                w.how = atoi(parts[2].c_str());
                w.seed = strtoull(parts[3].c_str(), nullptr, 10);
                w.logs.assign(parts.begin() + 4, parts.end());
                {
                    Work work{w, m_path};
                    work.run();
                    send(p[1], work.transcript());
                }
                _exit(0);
            }
            close(p[1]);
            string result;
            if (!receive(p[0], result)) {
                result = "(the fresh process crashed)";
            }
            close(p[0]);
            waitpid(pid, nullptr, 0);
            send(out, result);
        }
    }

    string m_path;
    pid_t m_pid;
    int m_to;
    int m_from;
};

#ifdef VERIF_ASAN
size_t memory_in_use() {
    return __sanitizer_get_current_allocated_bytes();
}
#endif

Zygote* g_zygote = nullptr;

void c16(Ctx& c, Rng& rng, uint64_t case_no) {
    vector<WorkItem> items;
    vector<string> fresh;
    auto n = 3 + rng.below(6);
    string all;
    for (uint64_t i = 0; i < n; i++) {
        items.push_back(random_work(rng, 300));
        if (rng.chance(15) && i > 0) {
            items.back() = items[rng.below(i)];
        }
        c.set_context("in a fresh process: " + items.back().show());
        fresh.push_back(g_zygote->run(items.back()));
        all += "\n" + std::to_string(i) + ": " + items.back().show();
        c.count("fresh_processes");
    }
    auto path = c.scratch + "/c16_" + std::to_string(c.shard) + "_";
    string order;
    auto compare = [&](Work const& w, uint64_t i) {
        if (w.transcript() != fresh[i]) {
            auto const& a = w.transcript();
            auto const& b = fresh[i];
            size_t p = 0;
            while (p < a.size() && p < b.size() && a[p] == b[p]) {
                p++;
            }
            auto from = p < 80 ? 0 : p - 80;
            c.fail("history", "item " + std::to_string(i) + " behaves differently than in a fresh process.\n  here:  ..." + escape(string_view(a).substr(from), 400)
                                      + "\n  fresh: ..." + escape(string_view(b).substr(from), 400) + "\norder of the items:" + order + all.substr(0, 4000));
        }
        c.evaluated(hash_str(items[i].schema, hash_str(order)), true);
    };
    // One after another
    for (int round = 0; round < 2; round++) {
        for (uint64_t k = 0; k < n; k++) {
            auto i = rng.below(n);
            order += " " + std::to_string(i);
            c.set_context("in sequence: item " + std::to_string(i) + " after" + order + all);
            Work w{items[i], path + "0"};
            w.run();
            compare(w, i);
            c.count("in_sequence");
        }
    }
    // Lifetimes that overlap, destroyed in any order
    {
        struct Live {
            uint64_t i;
            std::unique_ptr<Work> w;
        };

        vector<Live> live;
        order += " |";
        uint64_t started = 0;
        while (started < n || !live.empty()) {
            if (started < n && (live.empty() || rng.chance(20))) {
                live.push_back({started, std::make_unique<Work>(items[started], path + std::to_string(live.size()))});
                order += " +" + std::to_string(started);
                started++;
                continue;
            }
            auto k = rng.below(live.size());
            c.set_context("overlapping: item " + std::to_string(live[k].i) + " in" + order + all);
            auto steps = 1 + rng.below(6);
            bool more = true;
            while (more && steps-- > 0) {
                more = live[k].w->step();
            }
            if (!more) {
                compare(*live[k].w, live[k].i);
                order += " -" + std::to_string(live[k].i);
                live.erase(live.begin() + static_cast<ptrdiff_t>(k));
                c.count("overlapping");
            }
        }
    }
    // Abandoned midway
    for (uint64_t i = 0; i < n; i++) {
        c.set_context("abandoning item " + std::to_string(i) + all);
        Work w{items[i], path + "0"};
        auto steps = rng.below(8);
        while (steps-- > 0 && w.step()) {
        }
        c.count("abandoned");
    }
#ifdef VERIF_ASAN
    // Nothing may be kept, round after round (the sanitizer's allocator counts the bytes exactly)
    c.set_context("memory kept after using and destroying, in order:" + all);
    auto round = [&]() {
        for (uint64_t i = 0; i < n; i++) {
            Work w{items[i], path + "0"};
            w.run();
        }
    };
    round();
    auto before = memory_in_use();
    round();
    round();
    auto after = memory_in_use();
    if (after > before) {
        c.fail("memory", std::to_string(after - before) + " bytes more are in use after building, using and destroying the same schemas and parsers two more times");
    }
    c.count("memory_rounds");
#endif
    if (c.wants_sample()) {
        c.sample("items in order" + order + ":" + all.substr(0, 700));
    }
    if (case_no % 64 < 8) {
        check_leaks(c);
    }
}
}  // namespace

int main(int argc, char** argv) {
    Ctx c = parse_args(argc, argv);
    if (c.prop == "C10") {
        return run_cases(c, c10);
    }
    if (c.prop == "C11") {
        return run_cases(c, c11);
    }
    if (c.prop == "C13") {
        return run_cases(c, c13);
    }
    if (c.prop == "C16") {
        Zygote z{c.scratch};
        g_zygote = &z;
        return run_cases(c, c16);
    }
    fprintf(stderr, "unknown property\n");
    return 2;
}
