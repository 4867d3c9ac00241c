// Reference parser of schema text: recursive descent over the documented syntax. It says which rules
// and delimiters a text defines, or where its first offending token is. Also generators of such
// texts. Shares nothing with the code under test.
#ifndef VERIF_REFSCHEMA_HPP
#define VERIF_REFSCHEMA_HPP

#include "refregex.hpp"

namespace verif {
struct SchemaText {
    struct Var {
        string name;
        ReP re;
        uint32_t line;
        string pattern;
    };

    vector<Var> vars;
    vector<vector<uint32_t>> delimiters;
    bool syntax_error{false};
    size_t error_pos{0};
    // Something that the syntax allows but that has no meaning, e.g. [b-a]
    bool semantic_error{false};

    [[nodiscard]] bool accepted() const { return !syntax_error && !semantic_error; }

    [[nodiscard]] string show() const {
        if (syntax_error) {
            return "syntax error at byte " + std::to_string(error_pos) + (semantic_error ? " (and a semantic one)" : "");
        }
        return semantic_error ? "semantic error" : std::to_string(vars.size()) + " rules";
    }
};

class SchemaReader {
public:
    static SchemaText read(string_view text) { return SchemaReader{text}.run(); }

private:
    static constexpr int cWord = 1000;  // the word "delimiters"
    static constexpr int cEnd = -1;

    struct Tok {
        int c;
        size_t pos;
    };

    struct Stop {};

    explicit SchemaReader(string_view text) : m_text(text) {
        size_t i = 0;
        while (i < text.size()) {
            if (text.substr(i, 10) == "delimiters") {
                m_toks.push_back({cWord, i});
                i += 10;
            } else {
                m_toks.push_back({static_cast<unsigned char>(text[i]), i});
                i++;
            }
        }
        m_toks.push_back({cEnd, text.size()});
    }

    [[nodiscard]] int at(size_t k = 0) const { return m_toks[std::min(m_i + k, m_toks.size() - 1)].c; }

    [[noreturn]] void bad() {
        m_r.syntax_error = true;
        m_r.error_pos = m_toks[std::min(m_i, m_toks.size() - 1)].pos;
        throw Stop{};
    }

    void expect(int c) {
        if (at() != c) {
            bad();
        }
        m_i++;
    }

    static bool alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

    static bool plain(int c) {
        return alnum(c) || (c > 0 && c < 128 && strchr(" !\"#$%&',/:;=@_`~", c) != nullptr);
    }

    static bool special(int c) { return c > 0 && c < 128 && special_chars().find(static_cast<char>(c)) != string::npos; }

    SchemaText run() {
        try {
            item();
            while (at() != cEnd) {
                if (at() == '\r') {
                    m_i++;
                }
                expect('\n');
                m_line++;
                if (at() != cEnd && at() != '\n' && at() != '\r') {
                    item();
                }
            }
        } catch (Stop const&) {
        }
        return m_r;
    }

    void item() {
        if (at() == '/') {
            m_i++;
            expect('/');
            if (at() == '\n' || at() == '\r' || at() == cEnd) {
                bad();
            }
            while (at() != '\n' && at() != '\r' && at() != cEnd) {
                m_i++;
            }
        } else if (at() == cWord) {
            m_i++;
            expect(':');
            vector<uint32_t> ds;
            do {
                ReP l = literal();
                if (l->kind != Re::Lit) {
                    m_r.semantic_error = true;
                } else {
                    ds.push_back(l->c);
                }
            } while (literal_follows());
            m_r.delimiters.push_back(ds);
        } else {
            while (at() == ' ') {
                m_i++;
            }
            string name = identifier();
            expect(':');
            auto from = m_toks[m_i].pos;
            ReP re = regex();
            m_r.vars.push_back({name, re, m_line, string(m_text.substr(from, m_toks[m_i].pos - from))});
        }
        if (at() != cEnd && at() != '\n' && at() != '\r') {
            bad();
        }
    }

    string identifier() {
        string s;
        if (!alnum(at())) {
            bad();
        }
        while (alnum(at())) {
            s += static_cast<char>(at());
            m_i++;
        }
        return s;
    }

    [[nodiscard]] bool literal_follows() const { return plain(at()) || at() == '\\' || at() == '('; }

    ReP regex() {
        vector<ReP> parts;
        do {
            parts.push_back(alternatives());
        } while (literal_follows() || at() == '[' || at() == '.');
        return parts.size() == 1 ? parts[0] : re_kind(Re::Cat, parts);
    }

    ReP alternatives() {
        vector<ReP> alts{repeated()};
        while (at() == '|') {
            m_i++;
            alts.push_back(literal());
        }
        return alts.size() == 1 ? alts[0] : re_kind(Re::Or, alts);
    }

    uint32_t integer() {
        if (at() < '0' || at() > '9') {
            bad();
        }
        uint64_t n = 0;
        while (at() >= '0' && at() <= '9') {
            n = n * 10 + (at() - '0');
            if (n > UINT32_MAX) {
                m_r.semantic_error = true;
                n = 0;
            }
            m_i++;
        }
        return static_cast<uint32_t>(n);
    }

    ReP repeated() {
        ReP x = group();
        if (at() == '*') {
            m_i++;
            return re_kind(Re::Star, {x});
        }
        if (at() == '+') {
            m_i++;
            return re_kind(Re::Plus, {x});
        }
        if (at() == '{') {
            m_i++;
            auto lo = integer();
            auto hi = lo;
            bool exact = true;
            if (at() == ',') {
                m_i++;
                exact = false;
                hi = integer();
            }
            expect('}');
            if (hi < lo) {
                m_r.semantic_error = true;
                hi = lo;
            }
            return re_rep(x, lo, hi, exact);
        }
        return x;
    }

    ReP group() {
        if (at() == '[') {
            return bracket();
        }
        if (at() == '.') {
            m_i++;
            return re_kind(Re::Dot);
        }
        if (at() == '\\' && (at(1) == 'd' || at(1) == 's')) {
            bool d = at(1) == 'd';
            m_i += 2;
            return re_kind(d ? Re::Digit : Re::Space);
        }
        return literal();
    }

    ReP bracket() {
        m_i++;
        bool neg = false;
        vector<Elem> es;
        if (at() == '^') {
            neg = true;
            m_i++;
        } else {
            element(es);
        }
        while (at() != ']') {
            element(es);
        }
        m_i++;
        return re_set(neg, es);
    }

    void element(vector<Elem>& es) {
        if (at() == '\\' && (at(1) == 'd' || at(1) == 's')) {
            es.push_back(Elem{at(1) == 'd' ? Elem::Digit : Elem::Space});
            m_i += 2;
            return;
        }
        auto one = [&]() {
            ReP l = literal();
            if (l->kind != Re::Lit) {
                m_r.semantic_error = true;
                return static_cast<unsigned char>('a');
            }
            return l->c;
        };
        auto a = one();
        if (at() == '-') {
            m_i++;
            auto b = one();
            if (b < a) {
                m_r.semantic_error = true;
                b = a;
            }
            es.push_back(Elem{Elem::Range, a, b});
            return;
        }
        es.push_back(Elem{Elem::One, a, a});
    }

    ReP literal() {
        if (plain(at())) {
            auto c = at();
            m_i++;
            return re_lit(static_cast<unsigned char>(c));
        }
        if (at() == '\\') {
            m_i++;
            auto c = at();
            static string const names = "tnvfr";
            static string const values = "\t\n\v\f\r";
            auto p = c > 0 && c < 128 ? names.find(static_cast<char>(c)) : string::npos;
            if (p != string::npos) {
                m_i++;
                return re_lit(values[p]);
            }
            if (special(c)) {
                m_i++;
                return re_lit(static_cast<unsigned char>(c));
            }
            bad();
        }
        if (at() == '(') {
            m_i++;
            if (at() == '?') {
                m_i++;
                expect('<');
                string name = identifier();
                expect('>');
                ReP x = regex();
                expect(')');
                return re_cap(name, x);
            }
            ReP x = regex();
            expect(')');
            return x;
        }
        bad();
    }

    string_view m_text;
    vector<Tok> m_toks;
    size_t m_i{0};
    uint32_t m_line{0};
    SchemaText m_r;
};

// How large the pattern is with its repetitions written out (x+ as xx*), up to a limit
inline uint64_t expanded_size(Re const& r, uint64_t limit = 1'000'000) {
    uint64_t n = 1;
    for (auto const& k : r.kids) {
        n += expanded_size(*k, limit);
    }
    if (r.kind == Re::Rep) {
        n *= std::max<uint64_t>(1, r.lo + 2 * (static_cast<uint64_t>(r.hi) - r.lo));
    }
    if (r.kind == Re::Star || r.kind == Re::Plus) {
        n *= 2;
    }
    return std::min(n, limit);
}

// ---- texts --------------------------------------------------------------------------------------

// Text of a pattern, straight from the grammar: also forms that no one would write
class PatternText {
public:
    explicit PatternText(Rng& rng) : m_rng(rng) {}

    string regex(int depth) {
        string s;
        auto n = m_rng.chance(60) ? 1 : 1 + m_rng.below(3);
        for (uint64_t i = 0; i < n; i++) {
            s += repeated(depth);
            while (m_rng.chance(12)) {
                s += "|" + literal(depth - 1);
            }
        }
        return s;
    }

    string repeated(int depth) {
        string s = group(depth);
        switch (m_rng.below(12)) {
            case 0:
                return s + "*";
            case 1:
                return s + "+";
            case 2:
                return s + "{" + number(0) + "}";
            case 3: {
                auto lo = m_rng.below(3);
                return s + "{" + number(lo) + "," + number(lo + m_rng.below(4)) + "}";
            }
            default:
                return s;
        }
    }

    string number(uint64_t n) {
        if (n == 0) {
            n = m_rng.below(4);
        }
        return string(m_rng.chance(15) ? m_rng.below(12) : 0, '0') + std::to_string(n);
    }

    string group(int depth) {
        switch (m_rng.below(12)) {
            case 0:
                return ".";
            case 1:
                return "\\d";
            case 2:
                return "\\s";
            case 3:
            case 4:
                return bracket();
            default:
                return literal(depth);
        }
    }

    string character() {
        if (m_rng.chance(60)) {
            return string(1, m_rng.pick(string("abcdnrtfvsxyzDELIMitersABZ0123456789")));
        }
        if (m_rng.chance(40)) {
            return string(1, m_rng.pick(string(" !\"#$%&',/:;=@_`~")));
        }
        if (m_rng.chance(40)) {
            return string("\\") + m_rng.pick(string("tnvfr"));
        }
        return string("\\") + m_rng.pick(special_chars());
    }

    string literal(int depth) {
        if (depth > 0 && m_rng.chance(35)) {
            if (m_rng.chance(25)) {
                static vector<string> const names{"a", "name", "0", "A1b2", "delim", "timestamp"};
                return "(?<" + m_rng.pick(names) + ">" + regex(depth - 1) + ")";
            }
            return "(" + regex(depth - 1) + ")";
        }
        return character();
    }

    string bracket() {
        string s = "[";
        uint64_t n = 1 + m_rng.below(4);
        if (m_rng.chance(30)) {
            s += "^";
            n--;
        }
        for (uint64_t i = 0; i < n; i++) {
            auto one = [&]() { return m_rng.chance(5) ? "(" + character() + ")" : character(); };
            switch (m_rng.below(8)) {
                case 0:
                    s += "\\d";
                    break;
                case 1:
                    s += "\\s";
                    break;
                case 2:
                    s += "a-f";
                    break;
                case 3:
                    s += "0-9";
                    break;
                case 4:
                    s += m_rng.chance(50) ? "A-z" : "\\t-~";
                    break;
                default:
                    s += one();
            }
        }
        return s + "]";
    }

private:
    Rng& m_rng;
};

// Text of a schema with every documented element
inline string random_schema_text(Rng& rng, uint64_t max_items, uint64_t max_depth = 3) {
    static vector<string> const names{"int", "float", "hex", "a", "Zz9", "timestamp", "0", "hasNumber", "equals", "delimiter", "elimiters", "verylongname0123456789verylongname0123456789verylongname0123456789"};
    PatternText p{rng};
    string text;
    bool crlf = rng.chance(20);
    bool mixed = rng.chance(10);
    auto n = 1 + rng.below(max_items);
    for (uint64_t i = 0; i < n; i++) {
        switch (rng.below(10)) {
            case 0: {
                text += "//";
                auto k = 1 + rng.below(rng.chance(10) ? 150 : 20);
                for (uint64_t j = 0; j < k; j++) {
                    if (rng.chance(5)) {
                        text += "delimiters";
                        continue;
                    }
                    char c = rng.chance(70) ? rng.pick(string("abc /:*{[(\\\t")) : static_cast<char>(rng.below(256));
                    text += c == '\n' || c == '\r' ? '/' : c;
                }
                break;
            }
            case 1: {
                text += "delimiters:";
                auto k = 1 + rng.below(6);
                for (uint64_t j = 0; j < k; j++) {
                    string c = p.character();
                    text += rng.chance(8) ? "(" + c + ")" : c;
                }
                break;
            }
            case 2:
                if (i > 0) {
                    break;  // an empty line
                }
                [[fallthrough]];
            default:
                text += string(rng.chance(20) ? rng.below(5) : 0, ' ') + rng.pick(names) + ":" + p.regex(static_cast<int>(rng.below(max_depth + 1)));
        }
        if (i + 1 < n || rng.chance(60)) {
            text += crlf || (mixed && rng.chance(50)) ? "\r\n" : "\n";
        }
        while (i + 1 == n && rng.chance(10)) {
            text += "\n";
        }
    }
    return text;
}

inline string mutate_text(Rng& rng, string s, uint64_t max_edits) {
    static string const soup = "()*+-.[\\]^{|}<>?:/ \n\r\tabd019,\x80\xfd\xff\v_=~!\"";
    auto n = 1 + rng.below(max_edits);
    for (uint64_t i = 0; i < n; i++) {
        auto pos = rng.below(s.size() + 1);
        auto c = rng.chance(90) ? rng.pick(soup) : static_cast<char>(rng.below(256));
        switch (rng.below(8)) {
            case 0:
            case 1:
                s.insert(pos, 1, c);
                break;
            case 2:
            case 3:
                if (pos < s.size()) {
                    s[pos] = c;
                }
                break;
            case 4:
                s.erase(pos, 1 + rng.below(3));
                break;
            case 5:
                s.insert(pos, s.substr(rng.below(s.size() + 1), rng.below(12)));
                break;
            case 6: {
                static vector<string> const words{"delimiters", "delimiters:", "{3,1}", "{0}", "{99999999999}", "(?<a>", "[^", "[b-a]", "\\", "\\q", "//", "\n\n", "\r", "()", "[]", "[(ab)]", "a|b*", "**", "(?<>a)", "a:", ":"};
                s.insert(pos, rng.pick(words));
                break;
            }
            default:
                if (rng.chance(20)) {
                    s.resize(pos);
                } else if (!s.empty()) {
                    std::swap(s[rng.below(s.size())], s[rng.below(s.size())]);
                }
        }
    }
    return s;
}
}  // namespace verif

#endif
