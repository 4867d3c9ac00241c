// Monitor for C22: the LALR(1) parser generator, with grammars other than the schema's.
#include "sut.hpp"

#include <log_surgeon/LALR1Parser.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>

#include "refgrammar.hpp"

using namespace verif;

namespace {
using NS = ls::finite_automata::RegexNFAByteState;
using DS = ls::finite_automata::RegexDFAByteState;
using Base = ls::LALR1Parser<NS, DS>;

// ---- Random grammars ------------------------------------------------------------------------------

struct Gen {
    Rng& rng;
    Grammar g{};
    string free_chars;
    bool is_large{false};

    explicit Gen(Rng& r) : rng(r) {
        free_chars = "abcdefghijklmnopqrstuvwxyzABCDEF()[]{}<>+-*/=;:,.!?&|^~ \t\"'$#@%_\\";
        if (rng.chance(20)) {
            // Not \r (what a lone one means for lines is undefined), NUL (it ends messages)
            for (int b = 1; b < 256; b++) {
                char ch = static_cast<char>(b);
                if (free_chars.find(ch) == string::npos && ch != '\r' && ch != '\n') {
                    free_chars += ch;
                }
            }
        }
        if (rng.chance(30)) {
            free_chars += "\n";
        }
        for (size_t i = free_chars.size(); i > 1; i--) {
            std::swap(free_chars[i - 1], free_chars[rng.below(i)]);
        }
    }

    char take() {
        if (free_chars.empty()) {
            return 0;
        }
        char c = free_chars.back();
        free_chars.pop_back();
        return c;
    }

    // A terminal no other terminal can be mistaken for
    Sym terminal() {
        if (free_chars.size() < 6) {
            return term(static_cast<int>(rng.below(g.terms.size())));
        }
        Term t;
        t.name = "T" + std::to_string(g.terms.size());
        auto k = rng.below(10);
        t.chars = string(1, take());
        if (k == 0 && t.chars != "\n") {
            t.kind = Term::Group;
            t.chars += take();
            if (t.chars.back() == '\n') {
                t.chars.pop_back();
            }
        } else if ((k == 1 || (is_large && g.terms.empty())) && t.chars != "\n") {
            t.kind = Term::Chain;
            for (auto n = 1 + rng.below(3); n > 0; n--) {
                // May go on with any printable character
                t.chars += static_cast<char>('a' + rng.below(26));
            }
        } else if (k == 2 && t.chars != "\n") {
            t.kind = Term::Plus;
        }
        g.terms.push_back(t);
        return term(static_cast<int>(g.terms.size() - 1));
    }

    int nonterminal() {
        g.nts.push_back((rng.chance(50) ? "N" : "n_") + std::to_string(g.nts.size()));
        return static_cast<int>(g.nts.size() - 1);
    }

    void prod(int head, vector<Sym> body) { g.prods.push_back({head, std::move(body)}); }

    // A construct made for being parsed without conflicts (when its parts are)
    int construct(int depth) {
        int n = nonterminal();
        auto part = [&]() -> Sym {
            return depth <= 0 || rng.chance(35) ? terminal() : construct(depth - 1);
        };
        switch (rng.below(depth <= 0 ? 3 : 14)) {
            case 0:  // choice
                for (auto k = 1 + rng.below(3); k > 0; k--) {
                    prod(n, {terminal()});
                }
                break;
            case 1:  // optional
                prod(n, {terminal()});
                prod(n, {});
                break;
            case 2: {  // sequence of terminals
                vector<Sym> b;
                for (auto k = 1 + rng.below(4); k > 0; k--) {
                    b.push_back(terminal());
                }
                prod(n, b);
                break;
            }
            case 3: {  // list, left recursive
                auto p = part();
                prod(n, {n, p});
                prod(n, rng.chance(50) ? vector<Sym>{p} : vector<Sym>{});
                break;
            }
            case 4: {  // list, right recursive
                auto p = part();
                prod(n, {p, n});
                prod(n, rng.chance(50) ? vector<Sym>{p} : vector<Sym>{});
                break;
            }
            case 5: {  // list with separators
                auto p = part();
                auto s = terminal();
                if (rng.chance(50)) {
                    prod(n, {n, s, p});
                } else {
                    prod(n, {p, s, n});
                }
                prod(n, {p});
                break;
            }
            case 6: {  // nested brackets around something
                auto o = terminal();
                auto c = terminal();
                prod(n, {o, n, c});
                prod(n, {part()});
                break;
            }
            case 7: {  // expressions with two levels and brackets
                int m = nonterminal();
                int f = nonterminal();
                auto plus = terminal();
                auto times = terminal();
                auto o = terminal();
                auto c = terminal();
                prod(n, {n, plus, m});
                prod(n, {m});
                prod(m, {m, times, f});
                prod(m, {f});
                prod(f, {o, n, c});
                prod(f, {part()});
                break;
            }
            case 8: {  // assignments: LALR(1), but not SLR(1)
                int l = nonterminal();
                int r = nonterminal();
                auto eq = terminal();
                auto star = terminal();
                auto id = part();
                prod(n, {l, eq, r});
                prod(n, {r});
                prod(l, {star, r});
                prod(l, {id});
                prod(r, {l});
                break;
            }
            case 9: {  // sequence of parts
                vector<Sym> b;
                for (auto k = 2 + rng.below(3); k > 0; k--) {
                    b.push_back(part());
                }
                prod(n, b);
                if (rng.chance(30)) {
                    prod(n, {terminal()});
                }
                break;
            }
            case 10:
            case 11:
            case 12: {  // something and then a row of parts that may each be missing
                vector<Sym> b;
                if (rng.chance(70)) {
                    b.push_back(part());
                }
                for (auto k = 2 + rng.below(4); k > 0; k--) {
                    int o = nonterminal();
                    prod(o, {rng.chance(75) ? terminal() : part()});
                    prod(o, {});
                    b.push_back(o);
                }
                if (rng.chance(40)) {
                    b.push_back(part());
                }
                // Or the row is a nonterminal of its own, after which something else follows
                if (rng.chance(50) && b.size() > 2) {
                    int row = nonterminal();
                    size_t from = rng.below(2);
                    size_t to = b.size() - rng.below(2);
                    prod(row, vector<Sym>(b.begin() + from, b.begin() + to));
                    b.erase(b.begin() + from, b.begin() + to);
                    b.insert(b.begin() + from, row);
                }
                prod(n, b);
                break;
            }
            default: {  // LR(1), but not LALR(1) if both right-hand sides are the same
                int a = nonterminal();
                int b = nonterminal();
                auto c = terminal();
                auto x = terminal();
                auto y = terminal();
                auto d = terminal();
                auto e = terminal();
                prod(n, {x, a, d});
                prod(n, {y, b, d});
                prod(n, {x, b, e});
                if (rng.chance(60)) {
                    prod(n, {y, a, e});
                }
                prod(a, {c});
                prod(b, {c});
            }
        }
        return n;
    }

    void random_rules() {
        auto n = 1 + rng.below(4);
        vector<Sym> ts;
        for (auto k = 1 + rng.below(5); k > 0; k--) {
            ts.push_back(terminal());
        }
        for (size_t i = 0; i < n; i++) {
            nonterminal();
        }
        for (size_t i = 0; i < n; i++) {
            for (auto k = 1 + rng.below(3); k > 0; k--) {
                vector<Sym> b;
                auto len = rng.below(4);
                for (size_t j = 0; j < len; j++) {
                    b.push_back(rng.chance(j == 0 ? 70 : 50) ? ts[rng.below(ts.size())] : static_cast<Sym>(rng.below(n)));
                }
                Prod p{static_cast<int>(i), b};
                if (std::find(g.prods.begin(), g.prods.end(), p) == g.prods.end()) {
                    g.prods.push_back(p);
                }
            }
        }
    }

    // Bodies, symbols and states that a byte can't count
    void large() {
        int n = nonterminal();
        vector<Sym> ts;
        for (auto k = 1 + rng.below(5); k > 0; k--) {
            ts.push_back(terminal());
        }
        if (rng.chance(50) && g.terms[0].kind == Term::Chain) {
            for (auto k = 250 + rng.below(20); k > 0; k--) {
                g.terms[0].chars += static_cast<char>('a' + rng.below(26));
            }
        }
        if (rng.chance(50)) {
            vector<Sym> b;
            for (auto k = 250 + rng.below(60); k > 0; k--) {
                b.push_back(rng.pick(ts));
            }
            prod(n, b);
            if (rng.chance(50)) {
                // Another that differs far into it
                b[b.size() - 1 - rng.below(10)] = terminal();
                prod(n, b);
            }
        } else {
            for (auto k = 120 + rng.below(160); k > 0; k--) {
                int next = nonterminal();
                prod(n, {rng.pick(ts), next});
                if (rng.chance(30)) {
                    prod(n, {terminal()});
                }
                n = next;
            }
            prod(n, {terminal()});
        }
    }

    // The grammar, with the start symbol's productions first and the others in any order; or nothing
    bool make() {
        is_large = rng.below(1500) == 0;
        if (is_large) {
            large();
        } else if (rng.chance(45)) {
            random_rules();
        } else {
            construct(1 + static_cast<int>(rng.below(3)));
            // Some extra production may bring a conflict
            if (rng.chance(25)) {
                vector<Sym> b;
                for (auto k = rng.below(3); k > 0; k--) {
                    b.push_back(rng.chance(50) ? term(static_cast<int>(rng.below(g.terms.size()))) : static_cast<Sym>(rng.below(g.nts.size())));
                }
                prod(static_cast<int>(rng.below(g.nts.size())), b);
            }
        }
        // Nothing twice, nothing that derives no text
        vector<Prod> ps;
        auto good = g.productive();
        for (auto const& p : g.prods) {
            bool ok = good[p.head] && std::find(ps.begin(), ps.end(), p) == ps.end();
            for (auto x : p.body) {
                ok = ok && (is_term(x) || good[x]);
            }
            if (ok) {
                ps.push_back(p);
            }
        }
        if (ps.empty() || !good[0]) {
            return false;
        }
        // Any order, but the start symbol's first
        for (size_t i = ps.size(); i > 1; i--) {
            std::swap(ps[i - 1], ps[rng.below(i)]);
        }
        for (size_t i = 0; i < ps.size(); i++) {
            if (ps[i].head == 0) {
                std::swap(ps[0], ps[i]);
                break;
            }
        }
        g.prods = ps;
        // The derivation of a text has to end
        return true;
    }
};

// A random sentence of at most about `budget` terminals
string sentence(Grammar const& g, Rng& rng, size_t budget) {
    // Least heights of derivations
    vector<int> height(g.nts.size(), 1 << 20);
    auto prod_height = [&](Prod const& p) {
        int h = 0;
        for (auto x : p.body) {
            if (!is_term(x)) {
                h = std::max(h, height[x]);
            }
        }
        return h + 1;
    };
    for (bool changed = true; changed;) {
        changed = false;
        for (auto const& p : g.prods) {
            auto h = prod_height(p);
            if (h < height[p.head]) {
                height[p.head] = h;
                changed = true;
            }
        }
    }
    string out;
    size_t steps = 0;
    vector<Sym> stack{g.prods[0].head};
    while (!stack.empty()) {
        auto x = stack.back();
        stack.pop_back();
        if (is_term(x)) {
            auto const& t = g.terms[term_of(x)];
            switch (t.kind) {
                case Term::Group:
                    out += t.chars[rng.below(t.chars.size())];
                    break;
                case Term::Plus:
                    out += string(1 + rng.below(3), t.chars[0]);
                    break;
                default:
                    out += t.chars;
            }
            continue;
        }
        steps++;
        bool wind_up = steps + stack.size() > budget;
        vector<Prod const*> choices;
        for (auto const& p : g.prods) {
            if (p.head == x && (!wind_up || prod_height(p) == height[x])) {
                choices.push_back(&p);
            }
        }
        auto const& p = *choices[rng.below(choices.size())];
        for (size_t i = p.body.size(); i > 0; i--) {
            stack.push_back(p.body[i - 1]);
        }
        if (steps > 20000) {
            return out;  // gives up; what it has is a text like any other
        }
    }
    return out;
}

// ---- The library's parser -------------------------------------------------------------------------

struct Node;
using NodePtr = std::shared_ptr<Node>;

struct Node {
    int prod;
    vector<NodePtr> kids;  // null for tokens
    vector<string> texts;  // of tokens
    uint64_t serial;
};

using NodeAST = ls::ParserValue<NodePtr>;

struct Parser {
    Base lib;
    uint64_t serial{0};
    vector<uint64_t> replaced_called;

    // With `replace`, productions are first added with another action, which the second addition replaces
    Parser(Grammar const& g, Rng& rng, bool with_actions) {
        for (auto const& t : g.terms) {
            switch (t.kind) {
                case Term::Char:
                    lib.add_token(t.name, t.chars[0]);
                    break;
                case Term::Group: {
                    if (rng.chance(50)) {
                        auto group = std::make_unique<ls::finite_automata::RegexASTGroup<NS>>();
                        // A group made without arguments is a negated one
                        group = std::make_unique<ls::finite_automata::RegexASTGroup<NS>>(static_cast<unsigned char>(t.chars[0]), static_cast<unsigned char>(t.chars[0]));
                        for (size_t i = 1; i < t.chars.size(); i++) {
                            group->add_literal(static_cast<unsigned char>(t.chars[i]));
                        }
                        lib.add_token_group(t.name, std::move(group));
                    } else {
                        // Several rules for one terminal
                        for (char c : t.chars) {
                            auto b = static_cast<unsigned char>(c);
                            lib.add_token_group(t.name, std::make_unique<ls::finite_automata::RegexASTGroup<NS>>(b, b));
                        }
                    }
                    break;
                }
                case Term::Chain:
                    lib.add_token_chain(t.name, t.chars);
                    break;
                case Term::Plus:
                    lib.add_rule(
                            t.name,
                            std::make_unique<ls::finite_automata::RegexASTMultiplication<NS>>(
                                    std::make_unique<ls::finite_automata::RegexASTLiteral<NS>>(static_cast<unsigned char>(t.chars[0])),
                                    1,
                                    0
                            )
                    );
                    break;
            }
        }
        auto add = [&](size_t i, bool other) {
            auto const& p = g.prods[i];
            vector<string> body;
            for (auto x : p.body) {
                body.push_back(is_term(x) ? g.terms[term_of(x)].name : g.nts[x]);
            }
            ls::SemanticRule rule;
            if (other) {
                rule = [this, i](ls::NonTerminal*) -> std::unique_ptr<ls::ParserAST> {
                    replaced_called.push_back(i);
                    return nullptr;
                };
            } else if (with_actions) {
                rule = [this, i, &g](ls::NonTerminal* m) -> std::unique_ptr<ls::ParserAST> {
                    auto n = std::make_shared<Node>();
                    n->prod = static_cast<int>(i);
                    for (uint32_t k = 0; k < g.prods[i].body.size(); k++) {
                        if (is_term(g.prods[i].body[k])) {
                            n->kids.push_back(nullptr);
                            n->texts.push_back(m->token_cast(k)->to_string());
                        } else {
                            auto& ast = m->non_terminal_cast(k)->get_parser_ast();
                            n->kids.push_back(ast->get<NodePtr>());
                            n->texts.emplace_back();
                        }
                    }
                    n->serial = serial++;
                    return std::make_unique<NodeAST>(n);
                };
            } else {
                rule = nullptr;
            }
            lib.add_production(g.nts[p.head], body, rule);
        };
        if (with_actions && rng.chance(20)) {
            // The start symbol's production has to come first also then
            auto k = rng.chance(50) ? 0 : rng.below(g.prods.size());
            for (size_t i = 0; i < g.prods.size(); i++) {
                add(i, i == k);
            }
            add(k, false);
        } else {
            for (size_t i = 0; i < g.prods.size(); i++) {
                add(i, false);
            }
        }
    }
};

// The result must be a derivation of the text, and the actions called bottom-up, from left to right, once for each node
void check_tree(Ctx& c, Grammar const& g, Parser const& p, NodePtr const& root, string_view text, uint64_t serial_before) {
    string yield;
    uint64_t next = serial_before;
    // Explicit stack: trees may be as deep as texts are long
    struct Frame {
        Node const* n;
        Sym want;
        size_t i;
    };
    vector<Frame> stack{{root.get(), g.prods[0].head, 0}};
    uint64_t nodes = 0;
    while (!stack.empty()) {
        auto& f = stack.back();
        if (f.n == nullptr) {
            c.fail("tree", "a nonterminal of the tree has no value");
        }
        auto const& prod = g.prods[f.n->prod];
        if (f.i == 0 && (prod.head != f.want || f.n->kids.size() != prod.body.size())) {
            c.fail("tree", "the tree has production " + std::to_string(f.n->prod) + " where " + g.nts[f.want] + " has to be");
        }
        if (f.i == prod.body.size()) {
            if (f.n->serial != next++) {
                c.fail("order", "the actions are not called bottom-up from left to right, once each: production " + std::to_string(f.n->prod) + " was action " + std::to_string(f.n->serial - serial_before) + ", should be " + std::to_string(next - 1 - serial_before));
            }
            nodes++;
            stack.pop_back();
            continue;
        }
        auto x = prod.body[f.i];
        auto const* kid = f.n->kids[f.i].get();
        if (is_term(x)) {
            auto const& t = f.n->texts[f.i];
            if (g.terms[term_of(x)].match(t) != t.size() || t.empty()) {
                c.fail("tree", "\"" + escape(t) + "\" stands for the terminal " + g.terms[term_of(x)].name);
            }
            yield += t;
            f.i++;
        } else {
            f.i++;
            stack.push_back({kid, x, 0});
        }
    }
    if (yield != text) {
        c.fail("tree", "the tree's tokens are \"" + escape(yield, 300) + "\"");
    }
    if (p.serial != next) {
        c.fail("order", std::to_string(p.serial - next) + " actions called for nodes that are not in the tree");
    }
    c.count("tree_nodes", nodes);
}

// Frees deep trees without recursion
void release(NodePtr root) {
    vector<NodePtr> q{std::move(root)};
    while (!q.empty()) {
        auto n = std::move(q.back());
        q.pop_back();
        if (n != nullptr && n.use_count() == 1) {
            for (auto& k : n->kids) {
                q.push_back(std::move(k));
            }
        }
    }
}

void check_text(Ctx& c, Grammar const& g, Parser& p, string const& text, Rng& rng, bool with_actions) {
    auto toks = tokenize(g, text);
    auto at = earley(g, toks);
    bool sentence = at == toks.size();
    Feed feed;
    feed.data = text;
    feed.delivery = random_delivery(rng);
    feed.rng = Rng{rng.next()};
    auto reader = feed.reader();
    c.set_context("grammar: " + g.show() + "\ntext \"" + escape(text, 1500) + "\" delivery " + feed.delivery.show());
    auto before = p.serial;
    string error;
    bool accepted = false;
    if (rng.chance(8)) {
        // A reader that fails ends the attempt, but has no influence on later ones
        feed.fail_at = static_cast<int64_t>(rng.below(rng.chance(70) ? 2 : 8));
        feed.fail_by_exception = rng.chance(40);
        feed.partial_on_fail = rng.chance(50);
        bool threw = false;
        try {
            auto result = p.lib.parse(reader);
            if (with_actions && result.get_parser_ast() != nullptr) {
                release(std::move(result.get_parser_ast()->get<NodePtr>()));
            }
        } catch (std::exception const&) {
            threw = true;
        } catch (ReaderThrew const&) {
            threw = true;
        }
        if (feed.failed) {
            if (!threw) {
                c.fail("reader-error", "the reader failed, but the text is accepted");
            }
            c.count("readers_that_failed");
        }
        return;
    }
    try {
        auto result = p.lib.parse(reader);
        accepted = true;
        if (!sentence) {
            c.fail("accepted", "a text that is not a sentence is accepted; its token " + std::to_string(at) + " can't follow");
        }
        if (with_actions) {
            auto& ast = result.get_parser_ast();
            if (ast == nullptr) {
                c.fail("tree", "the result has no value");
            }
            auto root = ast->get<NodePtr>();
            ast.reset();
            check_tree(c, g, p, root, text, before);
            release(std::move(root));
        }
    } catch (CaseFailed const&) {
        throw;
    } catch (std::exception const& e) {
        error = e.what();
        if (accepted) {
            throw;
        }
    }
    c.count("texts");
    c.count("bytes", text.size());
    c.maximum("text_bytes", text.size());
    if (accepted) {
        c.count("sentences");
        return;
    }
    if (sentence) {
        c.fail("rejected", "a sentence is rejected: " + escape(error, 1000));
    }
    c.count("rejected");
    auto pos = toks[at].pos;
    auto colon = error.find(':');
    uint32_t line = 0;
    uint32_t col = 0;
    if (colon == string::npos || sscanf(error.c_str() + colon, ":%u:%u: error: ", &line, &col) != 2) {
        c.fail("error-format", "the message doesn't name line and column: " + escape(error, 1000));
    }
    size_t want_line = 1 + std::count(text.begin(), text.begin() + static_cast<ptrdiff_t>(pos), '\n');
    auto nl = text.rfind('\n', pos == 0 ? 0 : pos - 1);
    size_t bol = pos == 0 || nl == string::npos ? 0 : nl + 1;
    if (line != want_line || col != pos - bol + 1) {
        c.fail("error-place", "the first token that can't follow is at byte " + std::to_string(pos) + ", line " + std::to_string(want_line) + ", column " + std::to_string(pos - bol + 1) + "; the message: " + escape(error, 1000));
    }
    // The line is quoted, with a caret below the token (unless there are characters that no terminal matches, which
    // the lexer takes together, even over line ends)
    if (toks.back().type != kEndTerm && text.find('\n') != string::npos) {
        return;
    }
    size_t eol = std::min(text.size(), text.find('\n', pos));
    auto message = escape(error, 1000);
    auto nl1 = error.find('\n');
    auto quoted = nl1 == string::npos ? "" : error.substr(nl1 + 1);
    string want = string(10, ' ') + text.substr(bol, eol - bol);
    if (quoted.substr(0, want.size()) != want) {
        c.fail("error-quote", "the message doesn't quote the line \"" + escape(text.substr(bol, eol - bol)) + "\": " + message);
    }
    auto rest = quoted.substr(want.size());
    rest.erase(0, std::min(rest.size(), rest.find_first_not_of('\n')));
    if (pos < text.size() && rest != string(10 + pos - bol, ' ') + "^\n") {
        c.fail("error-quote", "the caret is not below the token, or more than its line is quoted: " + message);
    }
    // What was found is not among what was expected
    if (pos < text.size() && toks[at].type >= 0) {
        auto const& t = g.terms[toks[at].type];
        if (t.kind != Term::Char && error.substr(0, nl1).find("'" + t.name + "'") != string::npos) {
            c.fail("error-expected", "the message says that the terminal found was expected: " + message);
        }
    }
}

void c22(Ctx& c, Rng& rng, uint64_t) {
    for (int k = 0; k < 10; k++) {
        Gen gen(rng);
        if (!gen.make()) {
            c.count("unusable_grammars");
            continue;
        }
        auto const& g = gen.g;
        c.set_context("grammar: " + g.show());
        auto cls = classify(g, gen.is_large ? 1500 : 250);
        if (gen.is_large) {
            c.count("large_grammars");
        }
        bool with_actions = rng.chance(90);
        std::unique_ptr<Parser> p;
        string error;
        auto make = [&]() {
            p = std::make_unique<Parser>(g, rng, with_actions);
            p->lib.generate();
        };
        try {
            make();
        } catch (std::exception const& e) {
            error = e.what();
            p.reset();
            if (error.empty()) {
                c.fail("conflict-message", "a conflict is reported without a word");
            }
        }
        bool made = p != nullptr;
        c.count("grammars");
        c.evaluated(hash_str(g.show()), true);
        if (cls.known) {
            c.maximum("states", cls.states);
            c.count(cls.slr ? "grammars_slr" : cls.lalr ? "grammars_lalr_not_slr" : cls.lr1 ? "grammars_lr1_not_lalr" : "grammars_not_lr1");
            if (cls.lalr && !made) {
                c.fail("grammar-rejected", string("an LALR(1) grammar") + (cls.slr ? " (even SLR(1))" : "") + " is rejected: " + escape(error));
            }
            if (!cls.lalr && made) {
                c.fail("grammar-accepted", "a grammar with an LALR(1) conflict is accepted");
            }
        } else {
            c.count("grammars_too_large_to_classify");
        }
        if (c.wants_sample()) {
            c.sample(g.show() + ": " + (made ? "parser made" : "conflict: " + error));
        }
        if (!made) {
            continue;
        }
        // A second parser of the same grammar is used in between
        auto other = rng.chance(30) ? std::make_unique<Parser>(g, rng, with_actions) : nullptr;
        if (other != nullptr) {
            other->lib.generate();
        }
        string all;
        for (auto const& t : g.terms) {
            all += t.chars;
        }
        auto texts = 8 + rng.below(12);
        for (size_t i = 0; i < texts; i++) {
            string text = sentence(g, rng, rng.chance(70) ? 12 : rng.chance(70) ? 60 : 300);
            if (rng.chance(40)) {
                for (auto m = 1 + rng.below(2); m > 0; m--) {
                    auto at = rng.below(text.size() + 1);
                    switch (rng.below(5)) {
                        case 0:
                            text.insert(at, 1, all[rng.below(all.size())]);
                            break;
                        case 1:
                            if (at < text.size()) {
                                text.erase(at, 1 + rng.below(3));
                            }
                            break;
                        case 2:
                            if (at < text.size()) {
                                text[at] = all[rng.below(all.size())];
                            }
                            break;
                        case 3:
                            text += sentence(g, rng, 8);
                            break;
                        default:
                            text.resize(at);
                    }
                }
            } else if (rng.chance(10)) {
                text.clear();
                for (auto m = rng.below(8); m > 0; m--) {
                    auto const& t = g.terms[rng.below(g.terms.size())];
                    text += t.kind == Term::Chain && rng.chance(80) ? t.chars : string(1, t.chars[rng.below(t.chars.size())]);
                }
            }
            if (text.size() > 3000) {
                text.resize(3000);
            }
            check_text(c, g, other != nullptr && rng.chance(40) ? *other : *p, text, rng, with_actions);
        }
        if (!p->replaced_called.empty()) {
            c.fail("replaced", "an action that was replaced by adding the production again is called");
        }
    }
}
}  // namespace

int main(int argc, char** argv) {
    Ctx c = parse_args(argc, argv);
    if (c.prop == "C22") {
        return run_cases(c, c22);
    }
    fprintf(stderr, "unknown property\n");
    return 2;
}
