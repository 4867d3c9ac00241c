// Context-free grammars: textbook classification (SLR(1), LALR(1)) and recognition (Earley), written from the
// definitions, to judge the library's parser generator with.
#ifndef VERIF_REFGRAMMAR_HPP
#define VERIF_REFGRAMMAR_HPP

#include "base.hpp"

namespace verif {
// A symbol: n >= 0 is nonterminal n, -1-t is terminal t
using Sym = int;

inline Sym term(int t) {
    return -1 - t;
}

inline bool is_term(Sym s) {
    return s < 0;
}

inline int term_of(Sym s) {
    return -1 - s;
}

struct Term {
    enum Kind {
        Char,
        Group,
        Chain,
        Plus
    } kind{Char};

    string name;
    string chars;  // the character, the group's members or the chain

    [[nodiscard]] size_t match(string_view text) const {
        switch (kind) {
            case Chain:
                return text.substr(0, chars.size()) == chars ? chars.size() : 0;
            case Plus: {
                size_t n = 0;
                while (n < text.size() && chars.find(text[n]) != string::npos) {
                    n++;
                }
                return n;
            }
            default:
                return !text.empty() && chars.find(text[0]) != string::npos ? 1 : 0;
        }
    }
};

struct Prod {
    int head;
    vector<Sym> body;
    bool operator==(Prod const& o) const { return head == o.head && body == o.body; }
};

struct Grammar {
    vector<Term> terms;
    vector<string> nts;
    vector<Prod> prods;  // prods[0].head is the start symbol

    [[nodiscard]] string show() const {
        string s;
        auto name = [&](Sym x) {
            return is_term(x) ? terms[term_of(x)].name : nts[x];
        };
        for (auto const& p : prods) {
            s += nts[p.head] + " ->";
            for (auto x : p.body) {
                s += " " + name(x);
            }
            s += "; ";
        }
        s += "where";
        for (auto const& t : terms) {
            s += " " + t.name + (t.kind == Term::Char ? "=" : t.kind == Term::Group ? "=one of " : t.kind == Term::Chain ? "=word " : "=some of ") + "\"" + escape(t.chars) + "\"";
        }
        return s;
    }

    // Nonterminals that derive some text
    [[nodiscard]] vector<bool> productive() const {
        vector<bool> r(nts.size());
        for (bool changed = true; changed;) {
            changed = false;
            for (auto const& p : prods) {
                bool all = true;
                for (auto x : p.body) {
                    all = all && (is_term(x) || r[x]);
                }
                if (all && !r[p.head]) {
                    r[p.head] = changed = true;
                }
            }
        }
        return r;
    }

    [[nodiscard]] vector<bool> nullable() const {
        vector<bool> r(nts.size());
        for (bool changed = true; changed;) {
            changed = false;
            for (auto const& p : prods) {
                bool all = true;
                for (auto x : p.body) {
                    all = all && !is_term(x) && r[x];
                }
                if (all && !r[p.head]) {
                    r[p.head] = changed = true;
                }
            }
        }
        return r;
    }

    [[nodiscard]] vector<std::set<int>> firsts() const {
        auto null = nullable();
        vector<std::set<int>> f(nts.size());
        for (bool changed = true; changed;) {
            changed = false;
            for (auto const& p : prods) {
                auto before = f[p.head].size();
                for (auto x : p.body) {
                    if (is_term(x)) {
                        f[p.head].insert(term_of(x));
                        break;
                    }
                    auto copy = f[x];
                    f[p.head].insert(copy.begin(), copy.end());
                    if (!null[x]) {
                        break;
                    }
                }
                changed = changed || f[p.head].size() != before;
            }
        }
        return f;
    }
};

constexpr int kEndTerm = 1 << 20;  // the terminal standing for the end of the text

struct Classes {
    bool known{false};
    bool slr{false};
    bool lalr{false};
    bool lr1{false};
    size_t states{0};
};

// Canonical LR(1) construction, merged by core for LALR(1); the cores are the LR(0) automaton for SLR(1).
inline Classes classify(Grammar const& g, size_t max_states) {
    struct It {
        int p;  // -1 is the augmented production S' -> S
        int dot;
        int la;
        auto operator<=>(It const&) const = default;
    };
    Classes r;
    auto null = g.nullable();
    auto firsts = g.firsts();
    vector<Sym> start_body{g.prods[0].head};
    auto body = [&](int p) -> vector<Sym> const& {
        return p < 0 ? start_body : g.prods[p].body;
    };
    auto close = [&](std::set<It> s) {
        vector<It> q(s.begin(), s.end());
        while (!q.empty()) {
            auto it = q.back();
            q.pop_back();
            auto const& b = body(it.p);
            if (it.dot >= static_cast<int>(b.size()) || is_term(b[it.dot])) {
                continue;
            }
            std::set<int> las;
            size_t i = it.dot + 1;
            for (; i < b.size(); i++) {
                if (is_term(b[i])) {
                    las.insert(term_of(b[i]));
                    break;
                }
                las.insert(firsts[b[i]].begin(), firsts[b[i]].end());
                if (!null[b[i]]) {
                    break;
                }
            }
            if (i == b.size()) {
                las.insert(it.la);
            }
            for (size_t p = 0; p < g.prods.size(); p++) {
                if (g.prods[p].head == b[it.dot]) {
                    for (auto la : las) {
                        It n{static_cast<int>(p), 0, la};
                        if (s.insert(n).second) {
                            q.push_back(n);
                        }
                    }
                }
            }
        }
        return s;
    };
    std::set<std::set<It>> states;
    vector<std::set<It>> todo{close({It{-1, 0, kEndTerm}})};
    states.insert(todo[0]);
    while (!todo.empty()) {
        auto s = todo.back();
        todo.pop_back();
        std::map<Sym, std::set<It>> next;
        for (auto const& it : s) {
            auto const& b = body(it.p);
            if (it.dot < static_cast<int>(b.size())) {
                next[b[it.dot]].insert(It{it.p, it.dot + 1, it.la});
            }
        }
        for (auto& [x, k] : next) {
            auto n = close(k);
            if (states.insert(n).second) {
                if (states.size() > max_states) {
                    return r;
                }
                todo.push_back(n);
            }
        }
    }
    // Follow sets, of what is reachable
    vector<std::set<int>> follow(g.nts.size());
    follow[g.prods[0].head].insert(kEndTerm);
    for (bool changed = true; changed;) {
        changed = false;
        for (auto const& p : g.prods) {
            for (size_t i = 0; i < p.body.size(); i++) {
                if (is_term(p.body[i])) {
                    continue;
                }
                auto& f = follow[p.body[i]];
                auto before = f.size();
                size_t j = i + 1;
                for (; j < p.body.size(); j++) {
                    if (is_term(p.body[j])) {
                        f.insert(term_of(p.body[j]));
                        break;
                    }
                    f.insert(firsts[p.body[j]].begin(), firsts[p.body[j]].end());
                    if (!null[p.body[j]]) {
                        break;
                    }
                }
                if (j == p.body.size()) {
                    auto copy = follow[p.head];
                    f.insert(copy.begin(), copy.end());
                }
                changed = changed || f.size() != before;
            }
        }
    }
    auto conflict = [&](std::set<It> const& s, bool use_follow) {
        std::set<int> shifts;
        std::map<int, std::set<int>> reduces;  // by lookahead
        for (auto const& it : s) {
            auto const& b = body(it.p);
            if (it.dot < static_cast<int>(b.size())) {
                if (is_term(b[it.dot])) {
                    shifts.insert(term_of(b[it.dot]));
                }
            } else if (it.p >= 0 && use_follow) {
                for (auto la : follow[g.prods[it.p].head]) {
                    reduces[la].insert(it.p);
                }
            } else {
                reduces[it.la].insert(it.p);
            }
        }
        for (auto const& [la, ps] : reduces) {
            if (ps.size() > 1 || shifts.count(la) > 0) {
                return true;
            }
        }
        return false;
    };
    std::map<std::set<std::pair<int, int>>, std::set<It>> merged;
    r.slr = r.lalr = r.lr1 = r.known = true;
    for (auto const& s : states) {
        std::set<std::pair<int, int>> core;
        for (auto const& it : s) {
            core.insert({it.p, it.dot});
        }
        merged[core].insert(s.begin(), s.end());
        r.lr1 = r.lr1 && !conflict(s, false);
    }
    for (auto const& [core, s] : merged) {
        r.lalr = r.lalr && !conflict(s, false);
        r.slr = r.slr && !conflict(s, true);
    }
    r.states = merged.size();
    return r;
}

struct TextToken {
    size_t pos;
    size_t len;
    int type;  // index of the terminal, -1 if no terminal matches here, kEndTerm at the end
};

// Longest match; ends at the first place where nothing matches
inline vector<TextToken> tokenize(Grammar const& g, string_view text) {
    vector<TextToken> r;
    size_t pos = 0;
    while (pos < text.size()) {
        TextToken best{pos, 0, -1};
        for (size_t t = 0; t < g.terms.size(); t++) {
            auto n = g.terms[t].match(text.substr(pos));
            if (n > best.len) {
                best.len = n;
                best.type = static_cast<int>(t);
            }
        }
        r.push_back(best);
        if (best.type < 0) {
            return r;
        }
        pos += best.len;
    }
    r.push_back({text.size(), 0, kEndTerm});
    return r;
}

// Earley's algorithm. Returns the index of the first token that cannot follow the ones before it, or the number of
// tokens if the text is a sentence.
inline size_t earley(Grammar const& g, vector<TextToken> const& toks) {
    struct E {
        int p;
        int dot;
        size_t from;
        auto operator<=>(E const&) const = default;
    };
    auto null = g.nullable();
    vector<vector<int>> by_head(g.nts.size());
    for (size_t p = 0; p < g.prods.size(); p++) {
        by_head[g.prods[p].head].push_back(static_cast<int>(p));
    }
    int start = g.prods[0].head;
    vector<std::set<E>> sets(toks.size() + 1);
    vector<std::map<int, vector<E>>> waiting(toks.size() + 1);  // by awaited nonterminal
    for (auto p : by_head[start]) {
        sets[0].insert({p, 0, 0});
    }
    for (size_t i = 0; i < toks.size(); i++) {
        vector<E> q(sets[i].begin(), sets[i].end());
        bool accepts = false;
        auto add = [&](E e) {
            if (sets[i].insert(e).second) {
                q.push_back(e);
            }
        };
        while (!q.empty()) {
            auto e = q.back();
            q.pop_back();
            auto const& b = g.prods[e.p].body;
            if (e.dot == static_cast<int>(b.size())) {
                auto head = g.prods[e.p].head;
                if (head == start && e.from == 0) {
                    accepts = true;
                }
                auto w = waiting[e.from][head];
                for (auto const& x : w) {
                    add({x.p, x.dot + 1, x.from});
                }
            } else if (is_term(b[e.dot])) {
                if (toks[i].type == term_of(b[e.dot])) {
                    sets[i + 1].insert({e.p, e.dot + 1, e.from});
                }
            } else {
                waiting[i][b[e.dot]].push_back(e);
                for (auto p : by_head[b[e.dot]]) {
                    add({p, 0, i});
                }
                if (null[b[e.dot]]) {
                    add({e.p, e.dot + 1, e.from});
                }
            }
        }
        if (toks[i].type == kEndTerm) {
            return accepts ? toks.size() : i;
        }
        if (sets[i + 1].empty()) {
            return i;
        }
    }
    return toks.size() - 1;
}
}  // namespace verif

#endif
