// Comparison of the automata of the code under test with the reference's.
#ifndef VERIF_AUTOMATA_HPP
#define VERIF_AUTOMATA_HPP

#include <deque>

#include "sut.hpp"

#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/LexicalRule.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>
#include <log_surgeon/finite_automata/RegexDFA.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>

namespace verif {
namespace fa = log_surgeon::finite_automata;
using Ast = fa::RegexAST<fa::RegexNFAByteState>;
using Dfa = fa::RegexDFA<fa::RegexDFAByteState>;
using DfaState = fa::RegexDFAByteState;

struct RefRule {
    uint32_t id;
    Deriv d;
};

// The pattern's tree built with the tree's classes, as an application without a schema would. The
// choices left open are made by `rng`.
inline std::unique_ptr<Ast> build_ast(Re const& r, Rng& rng) {
    using State = fa::RegexNFAByteState;
    using Literal = fa::RegexASTLiteral<State>;
    using Group = fa::RegexASTGroup<State>;
    auto add = [&](Group& g, unsigned char lo, unsigned char hi) {
        if (lo == hi && rng.chance(50)) {
            g.add_literal(lo);
        } else {
            g.add_range(lo, hi);
        }
    };
    auto bytes_group = [&](Bytes const& b) {
        vector<uint32_t> all;
        for (uint32_t i = 0; i < 256; i++) {
            if (b[i]) {
                all.push_back(i);
            }
        }
        return std::make_unique<Group>(all);
    };
    switch (r.kind) {
        case Re::Lit:
            if (rng.chance(15)) {
                return std::make_unique<Group>(r.c, r.c);
            }
            return std::make_unique<Literal>(r.c);
        case Re::Digit:
            return std::make_unique<Group>('0', '9');
        case Re::Space:
            return bytes_group(space_bytes());
        case Re::Dot: {
            auto g = std::make_unique<Group>(0, ls::cUnicodeMax);
            if (rng.chance(50)) {
                g->set_is_wildcard_true();
            }
            return g;
        }
        case Re::Set: {
            // A group is negated from its creation on or never
            std::unique_ptr<Group> g;
            size_t first = 0;
            if (r.neg) {
                g = std::make_unique<Group>();
            } else {
                auto const& e = r.elems[0];
                first = 1;
                if (e.kind == Elem::One) {
                    Literal l{e.a};
                    g = std::make_unique<Group>(&l);
                } else if (e.kind == Elem::Range) {
                    Literal a{e.a};
                    Literal b{e.b};
                    g = std::make_unique<Group>(&a, &b);
                } else if (e.kind == Elem::Digit) {
                    g = std::make_unique<Group>('0', '9');
                } else {
                    g = bytes_group(space_bytes());
                }
            }
            for (size_t i = first; i < r.elems.size(); i++) {
                auto const& e = r.elems[i];
                if (e.kind == Elem::Digit) {
                    add(*g, '0', '9');
                } else if (e.kind == Elem::Space) {
                    for (int b = 0; b < 256; b++) {
                        if (space_bytes()[b]) {
                            add(*g, b, b);
                        }
                    }
                } else if (rng.chance(50)) {
                    add(*g, e.a, e.b);
                } else if (e.kind == Elem::One) {
                    Literal l{e.a};
                    g = std::make_unique<Group>(g.get(), &l);
                } else {
                    Group more(e.a, e.b);
                    g = std::make_unique<Group>(g.get(), &more);
                }
            }
            return g;
        }
        case Re::Cat:
        case Re::Or: {
            if (r.kids.empty()) {
                return std::make_unique<fa::RegexASTEmpty<State>>();
            }
            // Nested to the left, as when parsed, or to the right
            bool left = rng.chance(50);
            auto join = [&](std::unique_ptr<Ast> a, std::unique_ptr<Ast> b) -> std::unique_ptr<Ast> {
                if (r.kind == Re::Cat) {
                    return std::make_unique<fa::RegexASTCat<State>>(std::move(a), std::move(b));
                }
                return std::make_unique<fa::RegexASTOr<State>>(std::move(a), std::move(b));
            };
            vector<std::unique_ptr<Ast>> kids;
            for (auto const& k : r.kids) {
                kids.push_back(build_ast(*k, rng));
            }
            if (left) {
                auto x = std::move(kids.front());
                for (size_t i = 1; i < kids.size(); i++) {
                    x = join(std::move(x), std::move(kids[i]));
                }
                return x;
            }
            auto x = std::move(kids.back());
            for (size_t i = kids.size() - 1; i-- > 0;) {
                x = join(std::move(kids[i]), std::move(x));
            }
            return x;
        }
        case Re::Star:
        case Re::Plus:
        case Re::Rep: {
            uint32_t lo = r.kind == Re::Rep ? r.lo : r.kind == Re::Plus ? 1 : 0;
            uint32_t hi = r.kind == Re::Rep ? r.hi : 0;
            auto kid = build_ast(*r.kids[0], rng);
            if (r.kind == Re::Rep && hi == 0) {
                return std::make_unique<fa::RegexASTEmpty<State>>();
            }
            if (lo > 0) {
                return std::make_unique<fa::RegexASTMultiplication<State>>(std::move(kid), lo, hi);
            }
            std::unique_ptr<Ast> empty = std::make_unique<fa::RegexASTEmpty<State>>();
            std::unique_ptr<Ast> some = std::make_unique<fa::RegexASTMultiplication<State>>(std::move(kid), 1, hi);
            if (rng.chance(50)) {
                std::swap(empty, some);
            }
            return std::make_unique<fa::RegexASTOr<State>>(std::move(empty), std::move(some));
        }
        case Re::Cap:
            return std::make_unique<fa::RegexASTCapture<State>>(
                    build_ast(*r.kids[0], rng),
                    std::make_unique<fa::Tag>(r.name)
            );
    }
    return nullptr;
}

inline string show_ids(vector<uint32_t> const& v) {
    string s;
    for (auto x : v) {
        s += (s.empty() ? "" : ",") + std::to_string(x);
    }
    return "[" + s + "]";
}

// Walks the automaton and the reference's in step over every string, as far as `limit` pairs of
// states. Returns the number of pairs; `complete` tells whether these were all.
inline size_t compare_automata(Ctx& c, DfaState const* root, vector<RefRule>& rules, Bytes const& skip, size_t limit, bool& complete, bool ordered = true) {
    using Key = std::pair<DfaState const*, vector<int>>;
    struct Item {
        Key key;
        string text;
    };

    std::set<Key> seen;
    std::deque<Item> todo;
    Key start{root, {}};
    for (auto& r : rules) {
        start.second.push_back(r.d.start());
    }
    seen.insert(start);
    todo.push_back({start, ""});
    complete = true;
    while (!todo.empty()) {
        auto [key, text] = std::move(todo.front());
        todo.pop_front();
        vector<uint32_t> want;
        for (size_t i = 0; i < rules.size(); i++) {
            if (rules[i].d.accepts(key.second[i]) && std::find(want.begin(), want.end(), rules[i].id) == want.end()) {
                want.push_back(rules[i].id);
            }
        }
        auto got = key.first->get_matching_variable_ids();
        if (!ordered) {
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
        }
        if (got != want) {
            c.fail("language", "\"" + escape(text) + "\" is matched as " + show_ids(got) + " but should be as " + show_ids(want));
        }
        if (key.first->is_accepting() != !want.empty()) {
            c.fail("language", "\"" + escape(text) + "\" accepting=" + std::to_string(key.first->is_accepting()));
        }
        for (int b = 0; b < 256; b++) {
            if (skip[b]) {
                continue;
            }
            auto const* next = key.first->next(b);
            vector<int> ds;
            bool alive = false;
            for (size_t i = 0; i < rules.size(); i++) {
                ds.push_back(rules[i].d.next(key.second[i], static_cast<unsigned char>(b)));
                alive = alive || !rules[i].d.dead(ds.back());
            }
            if (next == nullptr) {
                if (alive) {
                    c.fail("language", "no string starting with \"" + escape(text + static_cast<char>(b)) + "\" is matched, but some should be");
                }
                continue;
            }
            Key k{next, std::move(ds)};
            if (seen.size() >= limit) {
                if (seen.count(k) == 0) {
                    complete = false;
                }
                continue;
            }
            if (seen.insert(k).second) {
                todo.push_back({k, text + static_cast<char>(b)});
            }
        }
    }
    return seen.size();
}

}  // namespace verif

#endif
