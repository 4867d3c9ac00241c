// Reference model of the schema's regular expressions, written from docs/schema.md: syntax tree,
// printing in schema syntax, language membership by position sets, sampling, and generation.
// Shares nothing with the code under test.
#ifndef VERIF_REFREGEX_HPP
#define VERIF_REFREGEX_HPP

#include <algorithm>
#include <bitset>
#include <memory>

#include "base.hpp"

namespace verif {
using Bytes = std::bitset<256>;

struct Re;
using ReP = std::shared_ptr<Re const>;

struct Elem {
    enum Kind {
        One,
        Range,
        Digit,
        Space
    } kind{One};

    unsigned char a{0};
    unsigned char b{0};
};

struct Re {
    enum Kind {
        Lit,
        Set,
        Dot,
        Digit,
        Space,
        Cat,
        Or,
        Star,
        Plus,
        Rep,
        Cap
    } kind{Lit};

    unsigned char c{0};
    bool neg{false};
    vector<Elem> elems;
    vector<ReP> kids;
    uint32_t lo{0};
    uint32_t hi{0};
    bool exact{false};
    string name;
};

inline ReP re_lit(unsigned char c) {
    auto r = std::make_shared<Re>();
    r->kind = Re::Lit;
    r->c = c;
    return r;
}

inline ReP re_kind(Re::Kind k, vector<ReP> kids = {}) {
    auto r = std::make_shared<Re>();
    r->kind = k;
    r->kids = std::move(kids);
    return r;
}

inline ReP re_rep(ReP x, uint32_t lo, uint32_t hi, bool exact) {
    auto r = std::make_shared<Re>();
    r->kind = Re::Rep;
    r->kids = {std::move(x)};
    r->lo = lo;
    r->hi = hi;
    r->exact = exact;
    return r;
}

inline ReP re_set(bool neg, vector<Elem> elems) {
    auto r = std::make_shared<Re>();
    r->kind = Re::Set;
    r->neg = neg;
    r->elems = std::move(elems);
    return r;
}

inline ReP re_cap(string name, ReP x) {
    auto r = std::make_shared<Re>();
    r->kind = Re::Cap;
    r->name = std::move(name);
    r->kids = {std::move(x)};
    return r;
}

inline ReP re_str(string_view s) {
    vector<ReP> k;
    for (unsigned char c : s) {
        k.push_back(re_lit(c));
    }
    return re_kind(Re::Cat, k);
}

inline bool is_leaf(Re const& r) {
    return r.kind == Re::Lit || r.kind == Re::Set || r.kind == Re::Dot || r.kind == Re::Digit
           || r.kind == Re::Space;
}

inline Bytes space_bytes() {
    Bytes b;
    for (unsigned char c : {' ', '\t', '\r', '\n', '\v', '\f'}) {
        b.set(c);
    }
    return b;
}

// The bytes a leaf can match; `dot_excludes` are the bytes '.' can't match.
inline Bytes leaf_bytes(Re const& r, Bytes const& dot_excludes) {
    Bytes b;
    switch (r.kind) {
        case Re::Lit:
            b.set(r.c);
            break;
        case Re::Dot:
            b.set();
            b &= ~dot_excludes;
            break;
        case Re::Digit:
            for (int c = '0'; c <= '9'; c++) {
                b.set(c);
            }
            break;
        case Re::Space:
            b = space_bytes();
            break;
        case Re::Set:
            for (auto const& e : r.elems) {
                if (e.kind == Elem::One) {
                    b.set(e.a);
                } else if (e.kind == Elem::Range) {
                    for (int c = e.a; c <= e.b; c++) {
                        b.set(c);
                    }
                } else if (e.kind == Elem::Digit) {
                    for (int c = '0'; c <= '9'; c++) {
                        b.set(c);
                    }
                } else {
                    b |= space_bytes();
                }
            }
            if (r.neg) {
                b = ~b;
            }
            break;
        default:
            break;
    }
    return b;
}

// Whether the pattern's language (any string in it) can contain each byte. Sub-patterns that are
// repeated zero times contribute nothing.
inline void possible_bytes(Re const& r, Bytes const& dot_excludes, Bytes& out) {
    if (is_leaf(r)) {
        out |= leaf_bytes(r, dot_excludes);
        return;
    }
    if (r.kind == Re::Rep && r.hi == 0) {
        return;
    }
    for (auto const& k : r.kids) {
        possible_bytes(*k, dot_excludes, out);
    }
}

inline bool uses_kind(Re const& r, Re::Kind k) {
    if (r.kind == k) {
        return true;
    }
    if (k == Re::Space) {
        for (auto const& e : r.elems) {
            if (e.kind == Elem::Space) {
                return true;
            }
        }
    }
    return std::any_of(r.kids.begin(), r.kids.end(), [&](ReP const& x) { return uses_kind(*x, k); });
}

inline size_t re_size(Re const& r) {
    size_t n = 1;
    for (auto const& k : r.kids) {
        n += re_size(*k);
    }
    if (r.kind == Re::Rep) {
        n *= std::max<size_t>(1, r.hi);
    }
    return n;
}

// ---- membership ---------------------------------------------------------------------------------

// Compiled form: leaves with their byte sets resolved.
struct Matcher {
    struct Node {
        Re::Kind kind;
        Bytes bytes;
        vector<int> kids;
        uint32_t lo, hi;
    };

    vector<Node> nodes;
    int root{-1};

    Matcher() = default;

    Matcher(Re const& r, Bytes const& dot_excludes) { root = add(r, dot_excludes); }

    int add(Re const& r, Bytes const& dot_excludes) {
        Node n{r.kind, {}, {}, r.lo, r.hi};
        if (is_leaf(r)) {
            n.bytes = leaf_bytes(r, dot_excludes);
            n.kind = Re::Lit;
        }
        for (auto const& k : r.kids) {
            n.kids.push_back(add(*k, dot_excludes));
        }
        nodes.push_back(n);
        return static_cast<int>(nodes.size()) - 1;
    }

    using Pos = vector<uint32_t>;

    static void normalize(Pos& p) {
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
    }

    [[nodiscard]] Pos step(int n, string_view t, Pos const& from) const {
        Node const& x = nodes[n];
        Pos out;
        switch (x.kind) {
            case Re::Lit:
                for (auto p : from) {
                    if (p < t.size() && x.bytes[static_cast<unsigned char>(t[p])]) {
                        out.push_back(p + 1);
                    }
                }
                return out;
            case Re::Cat: {
                out = from;
                for (int k : x.kids) {
                    if (out.empty()) {
                        break;
                    }
                    out = step(k, t, out);
                }
                return out;
            }
            case Re::Or:
                for (int k : x.kids) {
                    auto o = step(k, t, from);
                    out.insert(out.end(), o.begin(), o.end());
                }
                normalize(out);
                return out;
            case Re::Cap:
                return step(x.kids[0], t, from);
            case Re::Star:
            case Re::Plus: {
                Pos seen = x.kind == Re::Star ? from : Pos{};
                Pos frontier = from;
                while (!frontier.empty()) {
                    Pos nx = step(x.kids[0], t, frontier);
                    Pos fresh;
                    std::set_difference(nx.begin(), nx.end(), seen.begin(), seen.end(), std::back_inserter(fresh));
                    Pos merged;
                    std::set_union(seen.begin(), seen.end(), fresh.begin(), fresh.end(), std::back_inserter(merged));
                    seen = std::move(merged);
                    frontier = std::move(fresh);
                }
                return seen;
            }
            case Re::Rep: {
                Pos cur = from;
                for (uint32_t i = 0; i < x.lo && !cur.empty(); i++) {
                    cur = step(x.kids[0], t, cur);
                }
                Pos seen = cur;
                for (uint32_t i = x.lo; i < x.hi && !cur.empty(); i++) {
                    cur = step(x.kids[0], t, cur);
                    Pos merged;
                    std::set_union(seen.begin(), seen.end(), cur.begin(), cur.end(), std::back_inserter(merged));
                    seen = std::move(merged);
                }
                return seen;
            }
            default:
                return out;
        }
    }

    // All ends of matches of a prefix of t starting at `start`.
    [[nodiscard]] Pos ends(string_view t, uint32_t start) const { return step(root, t, {start}); }

    [[nodiscard]] bool matches(string_view t) const {
        auto e = ends(t, 0);
        return !e.empty() && e.back() == t.size();
    }
};

// ---- printing in schema syntax ------------------------------------------------------------------

inline string const& special_chars() {
    static string const s{"()*+-.[\\]^{|}<>?"};
    return s;
}

inline string print_char(unsigned char c) {
    switch (c) {
        case '\t':
            return "\\t";
        case '\n':
            return "\\n";
        case '\v':
            return "\\v";
        case '\f':
            return "\\f";
        case '\r':
            return "\\r";
        default:
            break;
    }
    if (special_chars().find(static_cast<char>(c)) != string::npos) {
        return string("\\") + static_cast<char>(c);
    }
    return string(1, static_cast<char>(c));
}

struct Printer {
    Rng* rng{nullptr};  // adds redundant parentheses at random if set

    bool coin(int percent) const { return rng != nullptr && rng->chance(percent); }

    string elem(Elem const& e) const {
        switch (e.kind) {
            case Elem::One:
                return print_char(e.a);
            case Elem::Range:
                return print_char(e.a) + "-" + print_char(e.b);
            case Elem::Digit:
                return "\\d";
            default:
                return "\\s";
        }
    }

    // What the grammar calls a Literal: a character or something in parentheses
    string literal(Re const& r) const {
        if (r.kind == Re::Lit && !coin(10)) {
            return print_char(r.c);
        }
        if (r.kind == Re::Cap) {
            return "(?<" + r.name + ">" + concat(*r.kids[0]) + ")";
        }
        return "(" + concat(r) + ")";
    }

    // What the grammar calls a CompleteGroup
    string group(Re const& r) const {
        if (coin(5)) {
            return literal(r);
        }
        switch (r.kind) {
            case Re::Lit:
            case Re::Cap:
                return literal(r);
            case Re::Dot:
                return ".";
            case Re::Digit:
                return "\\d";
            case Re::Space:
                return "\\s";
            case Re::Set: {
                string s = r.neg ? "[^" : "[";
                for (auto const& e : r.elems) {
                    s += elem(e);
                }
                return s + "]";
            }
            default:
                return literal(r);
        }
    }

    // First operand of an alternation, or a factor of a concatenation
    string base(Re const& r) const {
        switch (r.kind) {
            case Re::Star:
                return group(*r.kids[0]) + "*";
            case Re::Plus:
                return group(*r.kids[0]) + "+";
            case Re::Rep:
                if (r.exact) {
                    return group(*r.kids[0]) + "{" + std::to_string(r.lo) + "}";
                }
                return group(*r.kids[0]) + "{" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "}";
            default:
                return group(r);
        }
    }

    string alternation(Re const& r) const {
        if (r.kind == Re::Or && !coin(15)) {
            string s = r.kids[0]->kind == Re::Or || r.kids[0]->kind == Re::Cat ? literal(*r.kids[0]) : base(*r.kids[0]);
            for (size_t i = 1; i < r.kids.size(); i++) {
                s += "|" + literal(*r.kids[i]);
            }
            return s;
        }
        return base(r);
    }

    string concat(Re const& r) const {
        if (r.kind == Re::Cat) {
            string s;
            for (auto const& k : r.kids) {
                s += k->kind == Re::Cat && !coin(50) ? concat(*k) : alternation(*k);
            }
            return s;
        }
        return alternation(r);
    }
};

inline string print_re(Re const& r, Rng* rng = nullptr) {
    return Printer{rng}.concat(r);
}

// ---- sampling strings of the language -----------------------------------------------------------

inline void sample_into(Re const& r, Rng& rng, Bytes const& dot_excludes, Bytes const& avoid, string& out, int depth = 0) {
    if (out.size() > 4000) {
        return;
    }
    if (is_leaf(r)) {
        Bytes b = leaf_bytes(r, dot_excludes) & ~avoid;
        if (b.none()) {
            return;
        }
        vector<unsigned char> printable;
        vector<unsigned char> all;
        for (int c = 0; c < 256; c++) {
            if (b[c]) {
                all.push_back(c);
                if (c > 32 && c < 127) {
                    printable.push_back(c);
                }
            }
        }
        auto const& from = !printable.empty() && rng.chance(85) ? printable : all;
        out += static_cast<char>(rng.pick(from));
        return;
    }
    switch (r.kind) {
        case Re::Cat:
            for (auto const& k : r.kids) {
                sample_into(*k, rng, dot_excludes, avoid, out, depth + 1);
            }
            break;
        case Re::Or:
            sample_into(*rng.pick(r.kids), rng, dot_excludes, avoid, out, depth + 1);
            break;
        case Re::Cap:
            sample_into(*r.kids[0], rng, dot_excludes, avoid, out, depth + 1);
            break;
        case Re::Star:
        case Re::Plus: {
            uint64_t n = (r.kind == Re::Plus ? 1 : 0) + rng.below(depth > 6 ? 2 : 4);
            for (uint64_t i = 0; i < n; i++) {
                sample_into(*r.kids[0], rng, dot_excludes, avoid, out, depth + 1);
            }
            break;
        }
        case Re::Rep: {
            uint64_t n = r.lo + rng.below(r.hi - r.lo + 1);
            for (uint64_t i = 0; i < n; i++) {
                sample_into(*r.kids[0], rng, dot_excludes, avoid, out, depth + 1);
            }
            break;
        }
        default:
            break;
    }
}

inline string sample_re(Re const& r, Rng& rng, Bytes const& dot_excludes = {}, Bytes const& avoid = {}) {
    string s;
    sample_into(r, rng, dot_excludes, avoid, s);
    return s;
}

// ---- derivatives --------------------------------------------------------------------------------

// A second, independent decision procedure: Brzozowski derivatives over hash-consed terms, with the
// automaton they span built on demand. Linear in the text, unlike Matcher.
class Deriv {
public:
    explicit Deriv(Re const& r, Bytes const& dot_excludes) {
        m_empty = make(Term{T::Empty, 0, 0, {}});
        m_eps = make(Term{T::Eps, 0, 0, {}});
        m_start = from(r, dot_excludes);
    }

    // The longest match starting at `start` whose end `ok` accepts; false if there is none
    template <typename Ok>
    bool longest(string_view t, uint32_t start, Ok const& ok, uint32_t& end) {
        int s = m_start;
        bool found = false;
        for (uint32_t p = start;; p++) {
            if (m_terms[s].nullable && ok(p)) {
                found = true;
                end = p;
            }
            if (p >= t.size() || s == m_empty) {
                return found;
            }
            s = next(s, static_cast<unsigned char>(t[p]));
        }
    }

    bool matches(string_view t) {
        int s = m_start;
        for (unsigned char c : t) {
            s = next(s, c);
        }
        return m_terms[s].nullable;
    }

    [[nodiscard]] int start() const { return m_start; }

    [[nodiscard]] bool accepts(int s) const { return m_terms[s].nullable; }

    [[nodiscard]] bool dead(int s) const { return s == m_empty; }

    int next(int s, unsigned char c) {
        if (m_next.size() <= static_cast<size_t>(s)) {
            m_next.resize(m_terms.size());
        }
        auto& row = m_next[s];
        if (row.empty()) {
            row.assign(256, -1);
        }
        if (row[c] < 0) {
            int d = derive(s, c);
            m_next[s][c] = d;
            return d;
        }
        return row[c];
    }

    // Number of states of the automaton, or limit + 1 if there are more. Approximate: explores
    // with the given bytes only.
    size_t states(string_view bytes, size_t limit) {
        std::set<int> seen{m_start};
        vector<int> todo{m_start};
        while (!todo.empty()) {
            int s = todo.back();
            todo.pop_back();
            for (unsigned char c : bytes) {
                int d = next(s, c);
                if (seen.insert(d).second) {
                    if (seen.size() > limit) {
                        return limit + 1;
                    }
                    todo.push_back(d);
                }
            }
        }
        return seen.size();
    }

private:
    enum class T {
        Empty,
        Eps,
        Set,
        Cat,
        Or,
        Star
    };

    struct Term {
        T kind;
        int a, b;
        Bytes bytes;
        bool nullable{false};
    };

    int make(Term t) {
        auto key = std::to_string(static_cast<int>(t.kind)) + "," + std::to_string(t.a) + "," + std::to_string(t.b);
        if (t.kind == T::Set) {
            key += "," + t.bytes.to_string();
        }
        auto [it, fresh] = m_ids.try_emplace(key, static_cast<int>(m_terms.size()));
        if (fresh) {
            switch (t.kind) {
                case T::Eps:
                case T::Star:
                    t.nullable = true;
                    break;
                case T::Cat:
                    t.nullable = m_terms[t.a].nullable && m_terms[t.b].nullable;
                    break;
                case T::Or:
                    t.nullable = m_terms[t.a].nullable || m_terms[t.b].nullable;
                    break;
                default:
                    break;
            }
            m_terms.push_back(t);
        }
        return it->second;
    }

    int cat(int a, int b) {
        if (a == m_empty || b == m_empty) {
            return m_empty;
        }
        if (a == m_eps) {
            return b;
        }
        if (b == m_eps) {
            return a;
        }
        if (m_terms[a].kind == T::Cat) {
            int x = m_terms[a].a;
            int y = m_terms[a].b;
            return cat(x, cat(y, b));
        }
        return make({T::Cat, a, b, {}});
    }

    void alternatives(int x, std::set<int>& out) {
        if (m_terms[x].kind == T::Or) {
            alternatives(m_terms[x].a, out);
            alternatives(m_terms[x].b, out);
        } else if (x != m_empty) {
            out.insert(x);
        }
    }

    int alt(int a, int b) {
        std::set<int> xs;
        alternatives(a, xs);
        alternatives(b, xs);
        if (xs.empty()) {
            return m_empty;
        }
        int r = -1;
        for (auto it = xs.rbegin(); it != xs.rend(); ++it) {
            r = r < 0 ? *it : make({T::Or, *it, r, {}});
        }
        return r;
    }

    int star(int a) {
        if (a == m_empty || a == m_eps) {
            return m_eps;
        }
        if (m_terms[a].kind == T::Star) {
            return a;
        }
        return make({T::Star, a, 0, {}});
    }

    int from(Re const& r, Bytes const& dot_excludes) {
        if (is_leaf(r)) {
            Bytes b = leaf_bytes(r, dot_excludes);
            return b.none() ? m_empty : make({T::Set, 0, 0, b});
        }
        switch (r.kind) {
            case Re::Cat: {
                int x = m_eps;
                for (auto it = r.kids.rbegin(); it != r.kids.rend(); ++it) {
                    x = cat(from(**it, dot_excludes), x);
                }
                return x;
            }
            case Re::Or: {
                int x = m_empty;
                for (auto const& k : r.kids) {
                    x = alt(x, from(*k, dot_excludes));
                }
                return x;
            }
            case Re::Cap:
                return from(*r.kids[0], dot_excludes);
            case Re::Star:
                return star(from(*r.kids[0], dot_excludes));
            case Re::Plus: {
                int x = from(*r.kids[0], dot_excludes);
                return cat(x, star(x));
            }
            default: {  // Rep
                int x = from(*r.kids[0], dot_excludes);
                int y = m_eps;
                for (uint32_t i = r.lo; i < r.hi; i++) {
                    y = alt(m_eps, cat(x, y));
                }
                for (uint32_t i = 0; i < r.lo; i++) {
                    y = cat(x, y);
                }
                return y;
            }
        }
    }

    int derive(int s, unsigned char c) {
        Term const t = m_terms[s];
        switch (t.kind) {
            case T::Set:
                return t.bytes[c] ? m_eps : m_empty;
            case T::Cat: {
                int x = cat(next(t.a, c), t.b);
                return m_terms[t.a].nullable ? alt(x, next(t.b, c)) : x;
            }
            case T::Or: {
                int x = next(t.a, c);
                return alt(x, next(t.b, c));
            }
            case T::Star: {
                int x = next(t.a, c);
                return cat(x, s);
            }
            default:
                return m_empty;
        }
    }

    std::unordered_map<string, int> m_ids;
    vector<Term> m_terms;
    vector<vector<int>> m_next;
    int m_empty{0}, m_eps{0}, m_start{0};
};

// ---- random patterns ----------------------------------------------------------------------------

struct ReGen {
    string alphabet{"abc01"};  // characters of literals and ranges
    Bytes forbidden;  // bytes that no leaf may be able to match (delimiters)
    bool allow_dot{true};
    bool allow_space{false};
    bool allow_neg{true};
    bool allow_cap{false};
    bool allow_zero{true};  // {0} and {0,0}
    int max_rep{4};
    mutable int caps{0};

    unsigned char ch(Rng& rng) const { return rng.pick(alphabet); }

    ReP leaf(Rng& rng) const {
        auto k = rng.below(100);
        if (k < 50) {
            return re_lit(ch(rng));
        }
        if (k < 60 && !forbidden['0']) {
            return re_kind(Re::Digit);
        }
        if (k < 68 && allow_dot) {
            return re_kind(Re::Dot);
        }
        if (k < 72 && allow_space) {
            return re_kind(Re::Space);
        }
        for (int tries = 0; tries < 8; tries++) {
            vector<Elem> es;
            auto n = 1 + rng.below(3);
            for (uint64_t i = 0; i < n; i++) {
                Elem e;
                auto w = rng.below(10);
                if (w < 5) {
                    e.kind = Elem::One;
                    e.a = e.b = ch(rng);
                } else if (w < 9 || forbidden['0']) {
                    e.kind = Elem::Range;
                    e.a = ch(rng);
                    e.b = ch(rng);
                    if (e.a > e.b) {
                        std::swap(e.a, e.b);
                    }
                } else {
                    e.kind = allow_space && rng.chance(40) ? Elem::Space : Elem::Digit;
                }
                es.push_back(e);
            }
            bool neg = allow_neg && rng.chance(30);
            if (neg) {
                // List the forbidden bytes so that the complement can't match them
                for (int c = 0; c < 128; c++) {
                    if (forbidden[c]) {
                        es.insert(es.begin() + rng.below(es.size() + 1), Elem{Elem::One, static_cast<unsigned char>(c), static_cast<unsigned char>(c)});
                    }
                }
            }
            auto s = re_set(neg, es);
            Bytes b = leaf_bytes(*s, forbidden);
            if ((b & forbidden).none() && b.any()) {
                return s;
            }
        }
        return re_lit(ch(rng));
    }

    ReP gen(Rng& rng, int depth) const {
        auto k = rng.below(100);
        if (depth <= 0 || k < 20) {
            return leaf(rng);
        }
        if (k < 50) {
            vector<ReP> kids;
            auto n = 2 + rng.below(3);
            for (uint64_t i = 0; i < n; i++) {
                kids.push_back(gen(rng, depth - 1));
            }
            return re_kind(Re::Cat, kids);
        }
        if (k < 68) {
            vector<ReP> kids;
            auto n = 2 + rng.below(2);
            for (uint64_t i = 0; i < n; i++) {
                kids.push_back(gen(rng, depth - 1));
            }
            return re_kind(Re::Or, kids);
        }
        if (k < 76) {
            return re_kind(Re::Star, {gen(rng, depth - 1)});
        }
        if (k < 83) {
            return re_kind(Re::Plus, {gen(rng, depth - 1)});
        }
        if (k < 95 || !allow_cap) {
            auto x = gen(rng, depth - 1);
            if (re_size(*x) > 60) {
                return x;
            }
            auto lo = rng.below(max_rep + 1);
            auto hi = lo + rng.below(max_rep + 1);
            bool exact = rng.chance(40);
            if (exact) {
                hi = lo;
            }
            if (!allow_zero && hi == 0) {
                hi = 1;
                exact = false;
            }
            return re_rep(x, lo, hi, exact);
        }
        return re_cap("c" + std::to_string(caps++), gen(rng, depth - 1));
    }
};
}  // namespace verif

#endif
