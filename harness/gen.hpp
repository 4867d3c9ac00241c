// Generators of schemas and of logs for them.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include "reflog.hpp"

namespace verif {
struct SchemaGenOptions {
    bool crlf_and_comments{true};
    bool timestamps{true};
    bool no_rules_sometimes{true};
    bool many_rules{false};
    bool newline_free{false};  // sometimes the newline is no delimiter, and in no variable
};

inline ReP parse_simple(string const& what);

// Rules modelled on those of real schemas
inline ReP lib_digits() { return re_kind(Re::Plus, {re_kind(Re::Digit)}); }

inline ReP lib_int() {
    return re_kind(Re::Cat, {re_rep(re_lit('-'), 0, 1, false), lib_digits()});
}

inline ReP lib_float() {
    return re_kind(Re::Cat, {re_rep(re_lit('-'), 0, 1, false), lib_digits(), re_lit('.'), lib_digits()});
}

inline ReP lib_hex() {
    return re_kind(Re::Plus, {re_set(false, {Elem{Elem::Range, 'a', 'f'}, Elem{Elem::Range, '0', '9'}})});
}

inline ReP lib_has_number() {
    return re_kind(Re::Cat, {re_kind(Re::Star, {re_kind(Re::Dot)}), re_kind(Re::Digit), re_kind(Re::Star, {re_kind(Re::Dot)})});
}

inline ReP lib_equals() {
    return re_kind(Re::Cat, {re_kind(Re::Star, {re_kind(Re::Dot)}), re_lit('='), re_kind(Re::Star, {re_kind(Re::Dot)})});
}

inline ReP dig(uint32_t n) { return re_rep(re_kind(Re::Digit), n, n, true); }

inline ReP random_timestamp(Rng& rng, bool time_with_spaces = true) {
    switch (rng.below(time_with_spaces ? 7 : 5)) {
        case 0:
            return re_kind(Re::Cat, {dig(2), re_lit(':'), dig(2)});
        case 1:
            return re_kind(Re::Cat, {re_lit('T'), lib_digits()});
        case 2:
            return re_kind(Re::Cat, {re_lit('['), lib_digits(), re_lit(']')});
        case 3:
            return re_kind(Re::Cat, {dig(1), re_lit('/'), dig(1)});
        case 4:
            return re_kind(Re::Cat, {re_lit('#'), re_kind(Re::Or, {re_str("ab"), re_str("a"), re_str("abc")})});
        case 5:
            return re_kind(Re::Cat, {dig(4), re_lit('-'), dig(2), re_lit(' '), dig(2), re_lit(':'), dig(2), re_rep(re_kind(Re::Cat, {re_lit(','), dig(3)}), 0, 1, false)});
        default:
            return re_kind(Re::Cat, {re_rep(re_set(false, {Elem{Elem::Range, 'A', 'C'}}), 3, 3, true), re_lit(' '), re_kind(Re::Plus, {re_kind(Re::Digit)}), re_rep(re_str(" x y"), 0, 2, false)});
    }
}

inline string delim_line(Rng& rng, string const& delims) {
    string s = "delimiters:";
    for (char c : delims) {
        s += rng.chance(10) ? "(" + print_char(c) + ")" : print_char(c);
    }
    return s;
}

// Writes the schema text; lines[i] gets the 0-based line of rule i.
inline string write_schema(Rng& rng, RefSchema const& s, string const& delims, bool decorate, vector<uint32_t>* lines = nullptr, bool stale_delims = true) {
    vector<string> out;
    vector<std::pair<size_t, size_t>> rule_lines;
    size_t delim_at = rng.chance(70) ? 0 : rng.below(s.rules.size() + 1);
    auto decoration = [&]() {
        while (decorate && rng.chance(25)) {
            if (rng.chance(50) && !out.empty()) {
                out.push_back("");
            } else {
                out.push_back("//" + string(1 + rng.below(30), rng.chance(50) ? '/' : 'x') + (rng.chance(50) ? " int:\\d+ *{[(\t" : " delimiters: \\n"));
            }
        }
    };
    for (size_t i = 0; i <= s.rules.size(); i++) {
        decoration();
        if (i == delim_at) {
            if (stale_delims && rng.chance(15)) {
                out.push_back("delimiters:" + string(rng.chance(50) ? "a\\n" : "qz,"));
                decoration();
            }
            out.push_back(delim_line(rng, delims));
            decoration();
        }
        if (i < s.rules.size()) {
            rule_lines.emplace_back(i, out.size());
            out.push_back((decorate && rng.chance(10) ? "  " : "") + s.rules[i].name + ":" + s.rules[i].text);
        }
    }
    if (lines != nullptr) {
        lines->assign(s.rules.size(), 0);
        for (auto [r, l] : rule_lines) {
            (*lines)[r] = l;
        }
    }
    string eol = decorate && rng.chance(20) ? "\r\n" : "\n";
    string text;
    for (size_t i = 0; i < out.size(); i++) {
        text += out[i];
        if (i + 1 < out.size() || rng.chance(70)) {
            text += eol;
        }
    }
    return text;
}

inline string random_delims(Rng& rng) {
    string d;
    string pool = " \t,:;=!%\r/[]()|&@\"'<>{}*+.?^\\-#$`~";
    if (rng.chance(10)) {
        pool = "azAZ09dnts_ ";
    }
    auto k = rng.below(10);
    if (k < 3) {
        d = " \t\r:,!;%";
    } else if (k < 5) {
        d = " ";
    } else if (k < 6) {
        d = "";
    } else {
        d = rng.chance(80) ? " " : "";
        auto n = rng.below(6);
        for (uint64_t i = 0; i < n; i++) {
            char c = rng.pick(pool);
            if (d.find(c) == string::npos) {
                d += c;
            }
        }
    }
    d.insert(rng.below(d.size() + 1), "\n");
    return d;
}

inline RefSchema random_schema(Rng& rng, SchemaGenOptions const& o = {}) {
    RefSchema s;
    string delims = random_delims(rng);
    bool const newline_free = o.newline_free && rng.chance(8);
    if (newline_free) {
        std::erase(delims, '\n');
        if (delims.empty()) {
            delims = " ";
        }
    }
    for (unsigned char c : delims) {
        s.delims.set(c);
    }
    vector<string> names{"int", "float", "hex", "hasNumber", "equals", "v1", "v2", "userID", "Name", "x", "timestampX"};
    uint64_t nvars = o.no_rules_sometimes && rng.chance(5) ? 0 : 1 + rng.below(5);
    ReGen g;
    g.forbidden = s.delims;
    if (newline_free) {
        g.forbidden.set('\n');
    }
    g.alphabet.clear();
    for (char c : string("abc01-_=.x:")) {
        if (!s.delims[static_cast<unsigned char>(c)]) {
            g.alphabet += c;
        }
    }
    auto fits = [&](ReP const& r) {
        Bytes b;
        possible_bytes(*r, s.delims, b);
        return (b & g.forbidden).none();
    };
    // Rarely more rules than fit into a byte's values
    bool const many = o.many_rules && rng.chance(2);
    if (many) {
        nvars = rng.chance(25) ? 250 + rng.below(60) : 10 + rng.below(60);
    }
    for (uint64_t i = 0; i < nvars; i++) {
        Rule r;
        r.name = many && rng.chance(95) ? "many" + std::to_string(i) : rng.pick(names);
        if (many && rng.chance(95)) {
            string word;
            for (auto n = 1 + rng.below(3); n > 0 && !g.alphabet.empty(); n--) {
                word += rng.pick(g.alphabet);
            }
            if (!word.empty()) {
                r.re = rng.chance(85) ? re_str(word) : re_kind(Re::Plus, {re_str(word)});
                s.rules.push_back(r);
                continue;
            }
        }
        for (int tries = 0; tries < 20; tries++) {
            switch (rng.below(9)) {
                case 0:
                    r.re = lib_int();
                    break;
                case 1:
                    r.re = lib_float();
                    break;
                case 2:
                    r.re = lib_hex();
                    break;
                case 3:
                    r.re = lib_has_number();
                    break;
                case 4:
                    r.re = lib_equals();
                    break;
                default:
                    r.re = g.gen(rng, 1 + static_cast<int>(rng.below(3)));
            }
            // Automata can be exponentially larger than patterns
            if (fits(r.re) && re_size(*r.re) < 100 && Deriv(*r.re, g.forbidden).states("abcxyz019-_=.: ,!", 80) <= 80) {
                break;
            }
            r.re = re_lit('a');
        }
        // Rarely keep nullable variables, which match at every delimiter
        Bytes none;
        if (Matcher(*r.re, none).matches("") && rng.chance(85)) {
            r.re = re_kind(Re::Cat, {re_lit('x'), r.re});
        }
        s.rules.push_back(r);
    }
    if (o.timestamps && rng.chance(80)) {
        auto n = 1 + rng.below(3);
        for (uint64_t i = 0; i < n; i++) {
            Rule r;
            r.name = "timestamp";
            r.re = random_timestamp(rng);
            s.rules.insert(s.rules.begin() + rng.below(s.rules.size() + 1), r);
        }
    }
    for (auto& r : s.rules) {
        r.text = print_re(*r.re, &rng);
    }
    s.text = write_schema(rng, s, delims, o.crlf_and_comments);
    return s;
}

struct LogGen {
    RefSchema const& s;
    vector<ReP> ts;
    vector<ReP> vars;
    string delims;
    Bytes dot_excludes;
    Bytes avoid;

    explicit LogGen(RefSchema const& schema) : s(schema) {
        for (auto const& r : s.rules) {
            (r.name == "timestamp" ? ts : vars).push_back(r.re);
        }
        for (int c = 0; c < 128; c++) {
            if (s.delims[c] && c != '\n') {
                delims += static_cast<char>(c);
            }
        }
        dot_excludes = s.delims;
        avoid.set('\n');
    }

    string timestamp(Rng& rng) const {
        if (ts.empty()) {
            return "12:34";
        }
        string x = sample_re(*rng.pick(ts), rng, {}, avoid);
        if (rng.chance(20) && !x.empty()) {
            x.resize(rng.below(x.size()) + (rng.chance(50) ? 0 : 1));  // partial
        }
        return x;
    }

    string word(Rng& rng) const {
        auto k = rng.below(20);
        if (k < 9 && !vars.empty()) {
            string x = sample_re(*rng.pick(vars), rng, dot_excludes, avoid);
            if (rng.chance(12)) {
                x.resize(x.size() - std::min<size_t>(x.size(), 1));
            }
            if (rng.chance(12)) {
                x += rng.pick(string("ab01.-="));
            }
            return x;
        }
        if (k < 11) {
            return std::to_string(rng.below(rng.chance(50) ? 10 : 100000));
        }
        if (k < 12) {
            return timestamp(rng);
        }
        if (k < 13) {
            string x;
            auto n = 1 + rng.below(5);
            for (uint64_t i = 0; i < n; i++) {
                unsigned char c = rng.below(256);
                x += static_cast<char>(c);
            }
            return x;
        }
        static vector<string> const words{"a", "the", "INFO", "error", "abc", "x", "user", "task-12", "k=v", "ab", "0", "zzz"};
        string x = rng.pick(words);
        if (rng.chance(4)) {
            x += string(rng.below(200), 'q');
        }
        if (rng.chance(2)) {
            x.insert(rng.chance(70) ? 0 : rng.below(x.size() + 1), 1, special_byte(rng));
        }
        return x;
    }

    // Bytes which the lexer also uses for the start of the file, errors and the end of the file
    static char special_byte(Rng& rng) { return "\xFD\xFD\xFE\xFF"[rng.below(4)]; }

    char delim(Rng& rng) const {
        if (delims.empty() || rng.chance(3)) {
            return rng.chance(50) ? ' ' : '\n';
        }
        return rng.pick(delims);
    }

    string line(Rng& rng, uint64_t max_words) const {
        string x;
        if (rng.chance(3)) {
            x += special_byte(rng);
        }
        if (rng.chance(45)) {
            x += timestamp(rng);
            if (rng.chance(85)) {
                x += delim(rng);
            }
        } else if (rng.chance(20)) {
            x += delim(rng);
        }
        auto n = rng.below(max_words + 1);
        for (uint64_t i = 0; i < n; i++) {
            x += word(rng);
            do {
                x += delim(rng);
            } while (rng.chance(10));
        }
        if (rng.chance(50)) {
            x += word(rng);
        }
        return x;
    }

    string log(Rng& rng, size_t size) const {
        string x;
        if (rng.chance(5)) {
            x += "\n";
        }
        uint64_t max_words = rng.chance(20) ? 40 : 1 + rng.below(8);
        while (x.size() < size) {
            x += line(rng, max_words);
            if (rng.chance(96)) {
                x += "\n";
            }
            while (rng.chance(8)) {
                x += "\n";
            }
        }
        if (rng.chance(30) && !x.empty()) {
            x.resize(rng.below(x.size() + 1));
        }
        return x;
    }

    size_t random_size(Rng& rng) const {
        auto k = rng.below(20);
        if (k < 1) {
            return 0;
        }
        if (k < 8) {
            return rng.below(40);
        }
        if (k < 16) {
            return rng.below(200);
        }
        if (k < 19) {
            return rng.below(800);
        }
        return rng.below(4000);
    }
};

inline string random_bytes(Rng& rng, size_t n, string const& interesting) {
    string x;
    int style = rng.below(4);
    while (x.size() < n) {
        if (style == 0 || interesting.empty() || rng.chance(30)) {
            x += static_cast<char>(rng.below(256));
        } else if (style == 1 && rng.chance(30)) {
            static char const special[] = {'\0', '\xFD', '\xFE', '\xFF', '\n', '\x80'};
            x += special[rng.below(6)];
        } else {
            auto p = rng.below(interesting.size());
            x += interesting.substr(p, 1 + rng.below(12));
        }
    }
    x.resize(n);
    return x;
}
}  // namespace verif

#endif
