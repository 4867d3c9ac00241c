// Monitors for the automata properties: C08 (language), C09 (priorities), C18 (captures),
// C19 (intersection).
#include <deque>

#include "automata.hpp"

using namespace verif;

namespace {
// Makes the addresses of following allocations unrelated to their order
class HeapNoise {
public:
    void stir(Rng& rng) {
        static size_t const sizes[] = {24, 32, 48, 64, 96, 128, 256, 6200, 6208, 6216, 6224, 6232, 6240, 6248, 6256, 6264, 6272, 6288, 6304, 6320, 6336};
        auto n = rng.below(120);
        for (uint64_t i = 0; i < n; i++) {
            size_t size = rng.pick(vector<size_t>(std::begin(sizes), std::end(sizes)));
            m_blocks.emplace_back(new char[size]);
        }
        for (size_t i = m_blocks.size(); i > 1; i--) {
            std::swap(m_blocks[i - 1], m_blocks[rng.below(i)]);
        }
        m_blocks.resize(m_blocks.size() - rng.below(m_blocks.size() + 1));
        if (m_blocks.size() > 600) {
            m_blocks.resize(300);
        }
    }

private:
    vector<std::unique_ptr<char[]>> m_blocks;
};

// Pattern with the reference's view of it
struct Pat {
    ReP re;
    string text;
};

Pat random_pattern(Rng& rng, ReGen const& g, size_t max_states = 60, bool counts = false) {
    if (counts && rng.below(150) == 0) {
        // Counts of several digits
        Pat p;
        ReGen part = g;
        part.max_rep = 1;
        ReP x = rng.chance(60) ? re_lit(rng.pick(g.alphabet)) : part.gen(rng, 1);
        if (Deriv(*x, {}).states("abc019-_=.x: z[^" + g.alphabet, 4) <= 3) {
            auto lo = rng.chance(30) ? rng.below(10) : rng.chance(70) ? 9 + rng.below(30) : 95 + rng.below(30);
            bool exact = rng.chance(50) && lo > 0;
            auto hi = exact ? lo : lo + (rng.chance(70) ? rng.below(25) : 90 + rng.below(30));
            p.re = re_rep(x, lo, hi, exact);
            if (rng.chance(50)) {
                p.re = re_kind(rng.chance(70) ? Re::Cat : Re::Or, {p.re, re_lit(rng.pick(g.alphabet))});
            }
            if (hi > 0 && re_size(*p.re) < 260) {
                p.text = print_re(*p.re, &rng);
                return p;
            }
        }
    }
    while (true) {
        Pat p;
        p.re = g.gen(rng, 1 + static_cast<int>(rng.below(4)));
        if (re_size(*p.re) > 90 || Deriv(*p.re, {}).states("abc019-_=.x: z[^" + g.alphabet, max_states) > max_states) {
            continue;
        }
        p.text = print_re(*p.re, &rng);
        return p;
    }
}

// Parses patterns with the code under test, all as rules of one schema
vector<std::unique_ptr<Ast>> parse_patterns(Ctx& c, vector<Pat> const& ps, Rng* build = nullptr) {
    if (build != nullptr) {
        // Not parsed but built
        vector<std::unique_ptr<Ast>> out;
        for (auto const& p : ps) {
            c.set_context("building " + escape(p.text, 3000));
            out.push_back(build_ast(*p.re, *build));
        }
        return out;
    }
    string text;
    for (size_t i = 0; i < ps.size(); i++) {
        text += "r" + std::to_string(i) + ":" + ps[i].text + "\n";
    }
    c.set_context("parsing schema=" + escape(text, 3000));
    auto ast = ls::SchemaParser::try_schema_string(text);
    if (ast->m_schema_vars.size() != ps.size()) {
        c.fail("rules-lost", std::to_string(ast->m_schema_vars.size()) + " rules of " + std::to_string(ps.size()));
    }
    vector<std::unique_ptr<Ast>> out;
    for (auto& v : ast->m_schema_vars) {
        out.push_back(std::move(dynamic_cast<ls::SchemaVarAST&>(*v).m_regex_ptr));
    }
    return out;
}

// What the code does with '\n' in \s isn't documented
Bytes undocumented(vector<Pat> const& ps) {
    Bytes b;
    for (auto const& p : ps) {
        if (uses_kind(*p.re, Re::Space)) {
            b.set('\n');
        }
    }
    return b;
}

string const cAnyBytes{"a\0\xff\x80\x7f\xfd\xfe\n\x01", 9};

ReGen pattern_gen(Rng& rng, bool any_byte) {
    ReGen g;
    static char const* const alphabets[] = {"abc01", "ab", "abcxyz019-_=.", "aA0 ^-]", "a\t\n .|*+?"};
    g.alphabet = any_byte && rng.chance(60) ? cAnyBytes : alphabets[rng.below(5)];
    g.allow_space = rng.chance(40);
    g.allow_cap = rng.chance(40);
    g.allow_dot = rng.chance(70);
    g.max_rep = 1 + static_cast<int>(rng.below(5));
    return g;
}

void cross_check(Ctx& c, Pat const& p, Rng& rng) {
    // The two reference procedures must agree, otherwise the machinery is wrong
    Deriv d{*p.re, {}};
    Matcher m{*p.re, {}};
    for (int k = 0; k < 6; k++) {
        string s = sample_re(*p.re, rng);
        if (s.size() > 200) {
            continue;
        }
        if (k % 2 == 1 && !s.empty()) {
            s[rng.below(s.size())] = static_cast<char>("abc01xz"[rng.below(7)]);
        }
        if (m.matches(s) != d.matches(s)) {
            fprintf(stderr, "harness error: references disagree on \"%s\" for %s\n", escape(s).c_str(), p.text.c_str());
            exit(3);
        }
        c.count("reference_cross_checks");
    }
}

// Counts beyond a byte, where the product with derivatives gets slow: before<x>{lo,hi}after
void c08_large_counts(Ctx& c, Rng& rng) {
    auto lo = rng.chance(30) ? rng.below(3) : 200 + rng.below(400);
    auto hi = lo + (rng.chance(30) ? 0 : rng.chance(50) ? rng.below(5) : rng.below(400));
    hi = std::max<uint64_t>(hi, 1);
    string before = rng.chance(50) ? "b" : "";
    string after = rng.chance(50) ? "c" : "";
    // "x" is a character, a choice or a sequence
    string const xs[] = {"x", "[x-z]", "(x|y)", "(xy)"};
    auto kind = rng.below(4);
    auto text = before + xs[kind] + "{" + std::to_string(lo) + (lo == hi && rng.chance(50) ? "" : "," + std::to_string(hi)) + "}" + after;
    c.set_context("pattern " + text);
    auto ast = ls::SchemaParser::try_schema_string("r:" + text);
    ls::lexers::ByteLexer lexer;
    auto id = static_cast<uint32_t>(rng.next());
    lexer.add_rule(id, std::move(dynamic_cast<ls::SchemaVarAST&>(*ast->m_schema_vars.at(0)).m_regex_ptr));
    lexer.generate();
    auto const* root = lexer.get_dfa()->get_root();
    auto step = [](auto const* s, string const& w) {
        for (unsigned char ch : w) {
            s = s == nullptr ? nullptr : s->next(ch);
        }
        return s;
    };
    auto const* s = step(root, before);
    for (uint64_t n = 0; n <= hi + 2; n++) {
        auto const* end = step(s, after);
        bool accepted = end != nullptr && end->is_accepting();
        if (accepted != (n >= lo && n <= hi)) {
            c.fail("count", text + (accepted ? " accepts " : " doesn't accept ") + std::to_string(n) + " repetitions");
        }
        if (accepted && (end->get_matching_variable_ids().size() != 1 || end->get_matching_variable_ids()[0] != id)) {
            c.fail("count-id", text + " is matched under the wrong id");
        }
        c.count("repetitions_walked");
        s = step(s, kind == 3 ? "xy" : kind == 0 ? "x" : rng.chance(50) ? "x" : "y");
    }
    c.maximum("repetition_count", hi);
    c.evaluated(hash_str(text), true);
}

void c08(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no % 31 == 13) {
        c08_large_counts(c, rng);
    }
    if (case_no % 3 == 2) {
        // The automaton of a log parser
        RefSchema s = random_schema(rng);
        c.set_context("parser for schema=" + escape(s.text, 3000));
        ls::ReaderParser parser{make_ast(s)};
        auto const& lp = parser.get_log_parser();
        Bytes starts = s.delims;
        starts.set(0xFD);
        vector<RefRule> rules;
        auto add = [&](string const& name, Bytes const& first, Re const* re, Bytes const& dot) {
            auto id = lp.get_symbol_id(name);
            if (!id.has_value()) {
                c.fail("symbol", "no id for " + name);
            }
            auto group = std::make_shared<Re>();
            group->kind = Re::Set;
            for (int b = 0; b < 256; b++) {
                if (first[b]) {
                    group->elems.push_back(Elem{Elem::One, static_cast<unsigned char>(b), static_cast<unsigned char>(b)});
                }
            }
            vector<ReP> kids{group};
            if (re != nullptr) {
                kids.push_back(std::make_shared<Re>(*re));
            }
            rules.push_back(RefRule{*id, Deriv(*re_kind(Re::Cat, kids), dot)});
        };
        Bytes nl;
        nl.set('\n');
        Bytes sof;
        sof.set(0xFD);
        add("newLine", nl, nullptr, {});
        Bytes skip;
        bool overlapping_space = false;
        for (auto const& r : s.rules) {
            overlapping_space = overlapping_space || uses_kind(*r.re, Re::Space);
            if (r.name == "timestamp") {
                add("firstTimestamp", sof, r.re.get(), {});
                add("newLineTimestamp", nl, r.re.get(), {});
            } else {
                add(r.name, starts, r.re.get(), s.delims);
            }
        }
        bool complete = true;
        auto n = compare_automata(c, parser.get_log_parser().m_lexer.get_dfa()->get_root(), rules, skip, c.thorough ? 6000 : 1500, complete);
        auto const& lexer = lp.m_lexer;
        for (int b = 0; b < 256; b++) {
            auto byte = static_cast<uint8_t>(b);
            if (!lexer.get_has_delimiters() || (b != 0xFD && lexer.is_delimiter(byte) != s.delims[b])) {
                c.fail("delimiters", "the lexer says that byte " + std::to_string(b) + " is " + (lexer.is_delimiter(byte) ? "a" : "no") + " delimiter");
            }
            if (lexer.is_first_char(byte) != (lexer.get_dfa()->get_root()->next(byte) != nullptr)) {
                c.fail("first-character", "the lexer says that a token " + string(lexer.is_first_char(byte) ? "can" : "can't") + " start with byte " + std::to_string(b));
            }
        }
        c.count("parser_automata");
        c.count("state_pairs", n);
        c.count(complete ? "compared_on_all_strings" : "compared_up_to_limit");
        c.evaluated(hash_str(s.text), n > 3);
        return;
    }
    bool build = rng.chance(35);
    auto g = pattern_gen(rng, build);
    vector<Pat> ps;
    auto n = 20 + rng.below(30);
    for (uint64_t i = 0; i < n; i++) {
        if (i % 8 == 0) {
            g = pattern_gen(rng, build);
        }
        ps.push_back(random_pattern(rng, g, 60, true));
        cross_check(c, ps.back(), rng);
    }
    auto asts = parse_patterns(c, ps, build ? &rng : nullptr);
    if (build) {
        c.count("built_not_parsed", ps.size());
    }
    // Alone or several in one automaton
    size_t i = 0;
    while (i < ps.size()) {
        auto k = std::min<size_t>(ps.size() - i, rng.chance(50) ? 1 : 1 + rng.below(4));
        for (size_t j = 0; j < k; j++) {
            // Together they could need very many states
            if (re_size(*ps[i + j].re) > 100) {
                k = std::max<size_t>(j, 1);
            }
        }
        ls::lexers::ByteLexer lexer;
        vector<RefRule> rules;
        vector<Pat> group;
        string what;
        for (size_t j = 0; j < k; j++) {
            auto id = static_cast<uint32_t>(rng.chance(15) && j > 0 ? rules[0].id : rng.chance(30) ? rng.next() : 10 + j * 7);
            lexer.add_rule(id, std::move(asts[i + j]));
            rules.push_back(RefRule{id, Deriv(*ps[i + j].re, {})});
            group.push_back(ps[i + j]);
            what += " " + std::to_string(id) + ":" + ps[i + j].text;
        }
        c.set_context("automaton of" + (build ? escape(what) : what));
        lexer.generate();
        bool complete = true;
        auto pairs = compare_automata(c, lexer.get_dfa()->get_root(), rules, undocumented(group), c.thorough ? 6000 : 1500, complete);
        c.count("automata");
        c.count("patterns", k);
        c.count("state_pairs", pairs);
        c.count(complete ? "compared_on_all_strings" : "compared_up_to_limit");
        c.evaluated(hash_str(what), pairs > 2);
        if (c.wants_sample() && pairs > 5) {
            c.sample("automaton of" + escape(what) + ": " + std::to_string(pairs) + " pairs of states");
        }
        i += k;
    }
}

// ---- C09 ----------------------------------------------------------------------------------------

void c09(Ctx& c, Rng& rng, uint64_t case_no) {
    static HeapNoise noise;
    static vector<string> const names{"int", "float", "hex", "a", "b", "z", "A9", "x1", "timestampX", "equals", "hasNumber", "verylongvariablename0123456789", "0", "9"};
    // Patterns which overlap a lot
    static char const* const common[] = {"a", "b", "ab", "[a-c]+", ".*", "[a-z]*b", "a|b", "(a|b)+", "[a-c]{1,3}", "a{1,2}b{0,1}", "\\d+", "[0-9]+", "1", "12", "\\d{2}", "[a-z0-9]+", "a.", ".b", "(ab)|(12)"};
    (void)common;
    ReGen g;
    g.alphabet = rng.chance(50) ? "ab" : "ab1";
    g.allow_neg = false;
    g.allow_space = false;
    g.forbidden.set(' ');
    g.forbidden.set('\n');
    vector<Rule> order;
    bool programmatic = rng.chance(40);
    auto n = 2 + rng.below(rng.chance(15) ? 40 : 9);
    // Rarely more types than fit into a byte's values
    bool const many = case_no % (c.mode == "real" ? 41 : 81) == 7;
    if (many) {
        n = c.mode == "real" ? 260 + rng.below(80) : 20 + rng.below(40);
    }
    string text = "delimiters: \\n\n";
    string history;
    auto path = c.scratch + "/c09_" + std::to_string(c.shard) + ".txt";
    {
        std::ofstream f(path);
        f << text;
    }
    ls::Schema schema{path};
    for (uint64_t i = 0; i < n; i++) {
        Rule r;
        r.name = rng.pick(names);
        if (many && rng.chance(95)) {
            r.name += "n" + std::to_string(i);
        }
        do {
            r.re = g.gen(rng, many ? static_cast<int>(rng.below(2)) : 1 + static_cast<int>(rng.below(3)));
        } while (re_size(*r.re) > 25 || Deriv(*r.re, g.forbidden).states("ab1 c", 12) > 12);
        r.text = print_re(*r.re, &rng);
        if (programmatic) {
            if (rng.chance(30)) {
                noise.stir(rng);
            }
            int pos = rng.chance(40) ? -1 : static_cast<int>(rng.below(order.size() + 1));
            schema.add_variable(r.name + ":" + r.text, pos);
            history += "add(" + r.name + ":" + r.text + "," + std::to_string(pos) + ") ";
            order.insert(pos < 0 ? order.end() : order.begin() + pos, r);
        } else {
            text += r.name + ":" + r.text + "\n";
            order.push_back(r);
        }
    }
    c.set_context(programmatic ? history : "schema=" + escape(text, 3000));
    noise.stir(rng);
    std::unique_ptr<ls::SchemaAST> ast;
    if (programmatic) {
        ast = schema.release_schema_ast_ptr();
    } else {
        ast = ls::SchemaParser::try_schema_string(text);
    }
    noise.stir(rng);
    ls::BufferParser parser{std::move(ast)};
    auto const& lp = parser.get_log_parser();
    // The order over all strings, from the automaton
    vector<RefRule> rules;
    Bytes starts;
    starts.set(' ');
    starts.set('\n');
    auto nl = re_lit('\n');
    rules.push_back(RefRule{*lp.get_symbol_id("newLine"), Deriv(*nl, {})});
    for (auto const& r : order) {
        auto id = lp.get_symbol_id(r.name);
        if (!id.has_value()) {
            c.fail("symbol", "no id for " + r.name);
        }
        auto first = re_set(false, {Elem{Elem::One, ' ', ' '}, Elem{Elem::One, '\n', '\n'}, Elem{Elem::One, 0xFD, 0xFD}});
        rules.push_back(RefRule{*id, Deriv(*re_kind(Re::Cat, {first, r.re}), starts)});
    }
    bool complete = true;
    auto pairs = compare_automata(c, lp.m_lexer.get_dfa()->get_root(), rules, {}, 400, complete);
    c.count("state_pairs", pairs);
    // The order in tokens
    string log;
    vector<string> words;
    for (int i = 0; i < 40; i++) {
        string w = sample_re(*rng.pick(order).re, rng, g.forbidden, starts);
        if (w.empty() || w.size() > 40) {
            continue;
        }
        words.push_back(w);
        log += (i % 7 == 6 ? "\n" : " ") + w;
    }
    log += "\n";
    c.context += " log=" + escape(log, 1000);
    auto r = run_buffer(parser, log, [&](ls::LogEventView const& v) {
        // Reported under the first type, and only there
        std::map<uint32_t, vector<string>> by_type;
        auto const& b = v.get_log_output_buffer();
        for (uint32_t i = first_token(v); i < b->pos(); i++) {
            auto& t = b->get_mutable_token(i);
            by_type[t.m_type_ids_ptr->at(0)].push_back(t.to_string());
        }
        for (auto const& rule : order) {
            auto id = *lp.get_symbol_id(rule.name);
            vector<string> got;
            for (auto* t : v.get_variables(id)) {
                got.push_back(t->to_string());
            }
            if (got != by_type[id]) {
                c.fail("reported-type", "type " + rule.name + " is reported for " + std::to_string(got.size()) + " tokens instead of " + std::to_string(by_type[id].size()));
            }
        }
    });
    if (r.error != ErrorCode::Success || r.text() != log) {
        c.fail("parse", "the log isn't returned as it is");
    }
    uint64_t multi = 0;
    for (auto const& e : r.events) {
        for (auto const& t : e.tokens) {
            if (t.types[0] == kUncaught || t.types[0] == kNewline || t.text.empty()) {
                continue;
            }
            string body = t.text[0] == ' ' || t.text[0] == '\n' ? t.text.substr(1) : t.text;
            vector<string> want;
            for (size_t i = 0; i < order.size(); i++) {
                if (std::find(want.begin(), want.end(), order[i].name) == want.end() && Deriv(*order[i].re, starts).matches(body)) {
                    want.push_back(order[i].name);
                }
            }
            if (t.text == "\n") {
                continue;
            }
            if (t.types != want) {
                string g2;
                string w2;
                for (auto const& x : t.types) {
                    g2 += x + " ";
                }
                for (auto const& x : want) {
                    w2 += x + " ";
                }
                c.fail("token-order", "token \"" + escape(t.text) + "\" has types " + g2 + "instead of " + w2);
            }
            multi += want.size() > 1 ? 1 : 0;
            c.count("tokens");
        }
    }
    c.count("tokens_of_several_types", multi);
    c.count(programmatic ? "programmatic_schemas" : "text_schemas");
    c.count("rules", order.size());
    c.maximum("symbols", lp.m_lexer.m_id_symbol.size());
    c.evaluated(hash_str(history + text), multi > 0);
    if (c.wants_sample() && multi > 2 && order.size() < 8) {
        c.sample((programmatic ? history : text) + "\nlog: " + escape(log));
    }
    (void)case_no;
}

// ---- C18 ----------------------------------------------------------------------------------------

vector<string> negative_tags(Ast const& a) {
    string s;
    for (auto ch : a.serialize()) {
        s += ch < 128 ? static_cast<char>(ch) : '?';
    }
    vector<string> out;
    while (s.size() >= 4 && s.back() == '>') {
        auto i = s.rfind("<~");
        if (i == string::npos || s.find('>', i) != s.size() - 1) {
            break;
        }
        out.insert(out.begin(), s.substr(i + 2, s.size() - i - 3));
        s.resize(i);
    }
    return out;
}

using OrAst = fa::RegexASTOr<fa::RegexNFAByteState>;
using CatAst = fa::RegexASTCat<fa::RegexNFAByteState>;
using MultAst = fa::RegexASTMultiplication<fa::RegexNFAByteState>;
using CapAst = fa::RegexASTCapture<fa::RegexNFAByteState>;
using EmptyAst = fa::RegexASTEmpty<fa::RegexNFAByteState>;
using LitAst = fa::RegexASTLiteral<fa::RegexNFAByteState>;
using GroupAst = fa::RegexASTGroup<fa::RegexNFAByteState>;

// A node is printed as its class says, from the printed forms of its children
void check_print(Ctx& c, Ast const& a, vector<string> const& neg) {
    std::u32string want;
    auto put = [&](string const& s) { want.insert(want.end(), s.begin(), s.end()); };
    if (auto const* o = dynamic_cast<OrAst const*>(&a)) {
        want = U"(" + o->get_left()->serialize() + U")|(" + o->get_right()->serialize() + U")";
    } else if (auto const* q = dynamic_cast<CatAst const*>(&a)) {
        want = q->get_left()->serialize() + q->get_right()->serialize();
    } else if (auto const* m = dynamic_cast<MultAst const*>(&a)) {
        want = U"(" + m->get_operand()->serialize() + U"){";
        put(std::to_string(m->get_min()) + "," + (m->get_max() == 0 ? "inf" : std::to_string(m->get_max())) + "}");
    } else if (auto const* k = dynamic_cast<CapAst const*>(&a)) {
        want = U"(" + k->get_group_regex_ast()->serialize() + U")<";
        put(string(k->get_group_name()) + ">");
    } else if (auto const* l = dynamic_cast<LitAst const*>(&a)) {
        want = std::u32string(1, static_cast<char32_t>(l->get_character()));
    } else if (auto const* g = dynamic_cast<GroupAst const*>(&a)) {
        put(g->is_negated() ? "[^" : "[");
        if (g->is_wildcard()) {
            put("*");
        } else {
            bool first = true;
            for (auto const& [lo, hi] : g->get_ranges()) {
                put(first ? "" : ", ");
                first = false;
                want += static_cast<char32_t>(lo);
                put("-");
                want += static_cast<char32_t>(hi);
            }
        }
        put("]");
    } else if (dynamic_cast<EmptyAst const*>(&a) == nullptr) {
        return;
    }
    for (auto const& t : neg) {
        put("<~" + t + ">");
    }
    auto const got = a.serialize();
    if (got != want) {
        auto show = [](std::u32string const& s) {
            string x;
            for (auto ch : s) {
                x += ch < 256 ? static_cast<char>(ch) : '?';
            }
            return escape(x, 400);
        };
        c.fail("tree-print", "a node is printed as " + show(got) + " instead of " + show(want));
    }
    c.count("printed_nodes");
}

std::multiset<string> check_tree(Ctx& c, Ast const& a, std::set<string> const& want_negative) {
    auto neg = negative_tags(a);
    check_print(c, a, neg);
    if (std::set<string>(neg.begin(), neg.end()) != want_negative || neg.size() != want_negative.size()) {
        string w;
        for (auto const& x : want_negative) {
            w += x + " ";
        }
        string g;
        for (auto const& x : neg) {
            g += x + " ";
        }
        c.fail("tree-tags", "a node is annotated with { " + g + "} instead of { " + w + "}");
    }
    std::multiset<string> names;
    if (auto const* o = dynamic_cast<OrAst const*>(&a)) {
        // The names of each side are needed before its tags can be checked
        std::function<void(Ast const&, std::set<string>&)> collect = [&](Ast const& x, std::set<string>& out) {
            if (auto const* p = dynamic_cast<OrAst const*>(&x)) {
                collect(*p->get_left(), out);
                collect(*p->get_right(), out);
            } else if (auto const* q = dynamic_cast<CatAst const*>(&x)) {
                collect(*q->get_left(), out);
                collect(*q->get_right(), out);
            } else if (auto const* m = dynamic_cast<MultAst const*>(&x)) {
                collect(*m->get_operand(), out);
            } else if (auto const* k = dynamic_cast<CapAst const*>(&x)) {
                out.insert(string(k->get_group_name()));
                collect(*k->get_group_regex_ast(), out);
            }
        };
        std::set<string> l;
        std::set<string> r;
        collect(*o->get_left(), l);
        collect(*o->get_right(), r);
        names = check_tree(c, *o->get_left(), r);
        names.merge(check_tree(c, *o->get_right(), l));
    } else if (auto const* q = dynamic_cast<CatAst const*>(&a)) {
        names = check_tree(c, *q->get_left(), {});
        names.merge(check_tree(c, *q->get_right(), {}));
    } else if (auto const* m = dynamic_cast<MultAst const*>(&a)) {
        names = check_tree(c, *m->get_operand(), {});
        if (m->get_min() == 0) {
            c.fail("tree-optional", "a repetition which may be empty isn't an alternative of the empty string");
        }
    } else if (auto const* k = dynamic_cast<CapAst const*>(&a)) {
        names = check_tree(c, *k->get_group_regex_ast(), {});
        names.insert(string(k->get_group_name()));
    }
    std::multiset<string> got;
    for (auto const* t : a.get_subtree_positive_tags()) {
        got.insert(string(t->get_name()));
    }
    if (got != names) {
        c.fail("tree-tags", "a node lists " + std::to_string(got.size()) + " captures in its subtree instead of " + std::to_string(names.size()));
    }
    return names;
}

using NfaState = fa::RegexNFAByteState;
using Nfa = fa::RegexNFA<NfaState>;

struct Edge {
    enum Kind {
        Byte,
        Eps,
        Start,
        End,
        Neg
    } kind;

    int byte{0};
    vector<string> tags;
    NfaState const* to;
};

vector<string> split(string const& s, char d) {
    vector<string> out;
    string x;
    for (char ch : s) {
        if (ch == d) {
            out.push_back(x);
            x.clear();
        } else {
            x += ch;
        }
    }
    out.push_back(x);
    return out;
}

template <typename T>
vector<string> tags_of(T const& t) {
    std::unordered_map<NfaState const*, uint32_t> ids{{t.get_dest_state(), 0}};
    string s = t.serialize(ids).value_or("?");  // 0[a,b]
    auto i = s.find('[');
    return split(s.substr(i + 1, s.size() - i - 2), ',');
}

struct Graph {
    std::map<NfaState const*, vector<Edge>> edges;

    vector<Edge> const& of(NfaState const* s) {
        auto it = edges.find(s);
        if (it != edges.end()) {
            return it->second;
        }
        vector<Edge> es;
        for (int b = 0; b < 256; b++) {
            for (auto const* to : s->get_byte_transitions(b)) {
                es.push_back(Edge{Edge::Byte, b, {}, to});
            }
        }
        for (auto const* to : s->get_epsilon_transitions()) {
            es.push_back(Edge{Edge::Eps, 0, {}, to});
        }
        for (auto const& t : s->get_positive_tagged_start_transitions()) {
            es.push_back(Edge{Edge::Start, 0, tags_of(t), t.get_dest_state()});
        }
        if (auto const& t = s->get_positive_tagged_end_transition(); t.has_value()) {
            es.push_back(Edge{Edge::End, 0, tags_of(*t), t->get_dest_state()});
        }
        if (auto const& t = s->get_negative_tagged_transition(); t.has_value()) {
            es.push_back(Edge{Edge::Neg, 0, tags_of(*t), t->get_dest_state()});
        }
        return edges.emplace(s, std::move(es)).first->second;
    }
};

struct CapInfo {
    string name;
    ReP inner;
    bool repeated;
};

void collect_caps(Re const& r, bool repeated, vector<CapInfo>& out) {
    if (r.kind == Re::Cap) {
        out.push_back({r.name, r.kids[0], repeated});
    }
    bool rep = repeated || r.kind == Re::Star || r.kind == Re::Plus || (r.kind == Re::Rep && r.hi > 1);
    for (auto const& k : r.kids) {
        collect_caps(*k, rep, out);
    }
}

bool zero_capture(Re const& r) {
    vector<CapInfo> caps;
    if (r.kind == Re::Rep && r.hi == 0) {
        collect_caps(*r.kids[0], false, caps);
        if (!caps.empty()) {
            return true;
        }
    }
    return std::any_of(r.kids.begin(), r.kids.end(), [](ReP const& x) { return zero_capture(*x); });
}

// Every path of the automaton, as far as captures can tell them apart
size_t check_paths(Ctx& c, Nfa& nfa, Graph& graph, vector<CapInfo> const& caps) {
    enum : char {
        None,
        Open,
        Matched,
        Unmatched
    };

    using Key = std::pair<NfaState const*, string>;
    std::map<Key, string> seen;  // with how it was reached
    std::deque<Key> todo;
    Key start{nfa.get_root(), string(caps.size(), None)};
    seen[start] = "";
    todo.push_back(start);
    auto index = [&](string const& tag) {
        for (size_t i = 0; i < caps.size(); i++) {
            if (caps[i].name == tag) {
                return static_cast<int>(i);
            }
        }
        c.fail("path", "the automaton has a tag " + tag + " which isn't in the pattern");
        return -1;
    };
    while (!todo.empty() && seen.size() < 60000) {
        Key key = todo.front();
        todo.pop_front();
        string how = seen[key];
        if (key.first->is_accepting()) {
            for (size_t i = 0; i < caps.size(); i++) {
                char st = key.second[i];
                if (st == Open || (!caps[i].repeated && st == None)) {
                    c.fail("path", "capture " + caps[i].name + (st == Open ? " isn't ended" : " is neither matched nor unmatched") + " at the end of the path" + how);
                }
            }
        }
        for (auto const& e : graph.of(key.first)) {
            Key next{e.to, key.second};
            string step = how;
            if (e.kind == Edge::Byte) {
                step += " " + escape(string(1, static_cast<char>(e.byte)));
            }
            for (auto const& tag : e.tags) {
                int i = index(tag);
                char& st = next.second[i];
                step += (e.kind == Edge::Start ? " <" : e.kind == Edge::End ? " >" : " ~") + tag;
                bool rep = caps[i].repeated;
                if (e.kind == Edge::Start) {
                    if (st == Open || (!rep && st != None)) {
                        c.fail("path", "capture " + tag + " starts twice or after it was marked:" + step);
                    }
                    st = Open;
                } else if (e.kind == Edge::End) {
                    if (st != Open) {
                        c.fail("path", "capture " + tag + " ends without having started:" + step);
                    }
                    st = Matched;
                } else {
                    if (st == Open || (!rep && st != None)) {
                        c.fail("path", "capture " + tag + " is marked unmatched after it was marked:" + step);
                    }
                    if (st == None) {
                        st = Unmatched;
                    }
                }
                if (rep && e.kind != Edge::Start) {
                    st = None;
                }
            }
            if (seen.size() < 60000 && seen.try_emplace(next, step.size() > 300 ? step.substr(0, 300) : step).second) {
                todo.push_back(next);
            }
        }
    }
    return seen.size();
}

// Random paths: the text a path spells is in the language, the text between a capture's start and
// end in the capture's.
uint64_t check_spans(Ctx& c, Nfa& nfa, Graph& graph, Pat const& p, vector<CapInfo> const& caps, Rng& rng) {
    uint64_t spans = 0;
    Deriv whole{*p.re, {}};
    std::map<string, Deriv> inner;
    for (auto const& cap : caps) {
        inner.emplace(cap.name, Deriv(*cap.inner, {}));
    }
    for (int walk = 0; walk < 12; walk++) {
        NfaState const* s = nfa.get_root();
        string text;
        std::map<string, size_t> open;
        vector<std::pair<string, string>> found;
        bool ok = false;
        for (int steps = 0; steps < 300; steps++) {
            auto const& es = graph.of(s);
            if (s->is_accepting() && (es.empty() || rng.chance(40))) {
                ok = true;
                break;
            }
            if (es.empty()) {
                break;
            }
            auto const& e = rng.pick(es);
            if (e.kind == Edge::Byte) {
                text += static_cast<char>(e.byte);
            } else if (e.kind == Edge::Start) {
                open[e.tags[0]] = text.size();
            } else if (e.kind == Edge::End) {
                found.emplace_back(e.tags[0], text.substr(open[e.tags[0]]));
            }
            s = e.to;
        }
        if (!ok) {
            continue;
        }
        if (text.find('\n') == string::npos && !whole.matches(text)) {
            c.fail("span", "the path for \"" + escape(text) + "\" is accepted, but the text isn't in the language");
        }
        for (auto const& [tag, span] : found) {
            if (span.find('\n') == string::npos && !inner.at(tag).matches(span)) {
                c.fail("span", "on a path for \"" + escape(text) + "\" capture " + tag + " encloses \"" + escape(span) + "\"");
            }
            spans++;
        }
    }
    return spans;
}

// Checks that the printed form describes the automaton. Ids are matched from the root on.
void check_serialized(Ctx& c, Nfa& nfa, Graph& graph, string const& text) {
    struct Printed {
        bool accepting{false};
        uint64_t accepting_tag{0};
        // By kind of transition: byte, destination, tags
        vector<std::tuple<int, uint64_t, string>> edges[5];
    };

    std::map<uint64_t, Printed> states;
    size_t at = 0;
    auto bad = [&](string const& what) {
        c.fail("serialize", what + " at " + std::to_string(at) + ": " + escape(text.substr(at, 100)));
    };
    auto accept = [&](string const& s) {
        if (text.compare(at, s.size(), s) == 0) {
            at += s.size();
            return true;
        }
        return false;
    };
    auto expect = [&](string const& s) {
        if (!accept(s)) {
            bad("expected " + s);
        }
    };
    auto number = [&]() {
        uint64_t n = 0;
        size_t start = at;
        while (at < text.size() && text[at] >= '0' && text[at] <= '9') {
            n = n * 10 + static_cast<uint64_t>(text[at++] - '0');
        }
        if (at == start) {
            bad("expected a number");
        }
        return n;
    };
    while (at < text.size()) {
        auto id = number();
        Printed p;
        expect(":");
        if (accept("accepting_tag=")) {
            p.accepting = true;
            p.accepting_tag = number();
            expect(",");
        }
        char const* const names[] = {"byte_transitions", "epsilon_transitions", "positive_tagged_start_transitions", "positive_tagged_end_transitions", "negative_tagged_transition"};
        for (int k = 0; k < 5; k++) {
            expect(string(k > 0 ? "," : "") + names[k] + "={");
            bool first = true;
            // A byte may be any, so also one that looks like the end
            while (k == 0 ? text.compare(at + (first ? 1 : 2), 3, "-->") == 0 : text.compare(at, 1, "}") != 0) {
                if (!first) {
                    expect(",");
                }
                first = false;
                int byte = -1;
                if (k == 0) {
                    byte = static_cast<unsigned char>(text[at++]);
                    expect("-->");
                }
                auto to = number();
                string tags;
                if (k >= 2) {
                    expect("[");
                    auto end = text.find(']', at);
                    if (end == string::npos) {
                        bad("no ]");
                    }
                    tags = text.substr(at, end - at);
                    at = end + 1;
                }
                p.edges[k].emplace_back(byte, to, tags);
            }
            expect("}");
        }
        expect("\n");
        if (!states.emplace(id, std::move(p)).second) {
            c.fail("serialize", "state " + std::to_string(id) + " is printed twice");
        }
    }
    std::map<NfaState const*, uint64_t> id_of{{nfa.get_root(), 0}};
    std::set<uint64_t> used{0};
    std::deque<NfaState const*> todo{nfa.get_root()};
    auto bind = [&](NfaState const* s, uint64_t id) {
        auto it = id_of.find(s);
        if (it == id_of.end()) {
            if (!used.insert(id).second) {
                c.fail("serialize", "id " + std::to_string(id) + " stands for two states");
            }
            id_of[s] = id;
            todo.push_back(s);
        } else if (it->second != id) {
            c.fail("serialize", "a state is printed as " + std::to_string(it->second) + " and as " + std::to_string(id));
        }
    };
    while (!todo.empty()) {
        auto const* s = todo.front();
        todo.pop_front();
        auto it = states.find(id_of[s]);
        if (it == states.end()) {
            c.fail("serialize", "state " + std::to_string(id_of[s]) + " isn't printed");
        }
        auto& f = it->second;
        if (f.accepting != s->is_accepting() || (s->is_accepting() && f.accepting_tag != s->get_matching_variable_id())) {
            c.fail("serialize", "wrong accepting tag of state " + std::to_string(it->first));
        }
        size_t done[5] = {0, 0, 0, 0, 0};
        for (auto const& e : graph.of(s)) {
            int k = static_cast<int>(e.kind);
            if (done[k] >= f.edges[k].size()) {
                c.fail("serialize", "a transition of state " + std::to_string(it->first) + " isn't printed");
            }
            auto const& [byte, to, tags] = f.edges[k][done[k]++];
            string want;
            for (auto const& t : e.tags) {
                want += (want.empty() ? "" : ",") + t;
            }
            if ((e.kind == Edge::Byte && byte != e.byte) || tags != want) {
                c.fail("serialize", "a transition of state " + std::to_string(it->first) + " by byte " + std::to_string(e.byte) + " with tags [" + want + "] is printed as byte " + std::to_string(byte) + " with tags [" + tags + "]");
            }
            bind(e.to, to);
        }
        for (int k = 0; k < 5; k++) {
            if (done[k] != f.edges[k].size()) {
                c.fail("serialize", "state " + std::to_string(it->first) + " is printed with transitions it doesn't have");
            }
        }
    }
    if (id_of.size() != states.size()) {
        c.fail("serialize", "states that can't be reached are printed");
    }
}

void c18(Ctx& c, Rng& rng, uint64_t) {
    ReGen g;
    g.allow_cap = true;
    g.allow_zero = false;
    g.allow_dot = rng.chance(20);
    g.allow_neg = rng.chance(20);
    bool build = rng.chance(40);
    if (build && rng.chance(60)) {
        g.alphabet = cAnyBytes;
    }
    g.max_rep = 3;
    vector<Pat> ps;
    auto n = 12 + rng.below(12);
    for (uint64_t i = 0; i < n; i++) {
        g.caps = 0;
        ReP re;
        vector<CapInfo> caps;
        int tries = 0;
        do {
            caps.clear();
            g.caps = 0;
            re = g.gen(rng, 2 + static_cast<int>(rng.below(4)));
            // More captures than the generator makes on its own
            std::function<ReP(ReP const&)> wrap = [&](ReP const& x) -> ReP {
                auto y = std::make_shared<Re>(*x);
                for (auto& k : y->kids) {
                    k = wrap(k);
                }
                return rng.chance(15) ? re_cap("c" + std::to_string(g.caps++), y) : y;
            };
            re = wrap(re);
            collect_caps(*re, false, caps);
        } while (++tries < 300 && (re_size(*re) > 70 || caps.size() > 7 || (caps.empty() && rng.chance(95)) || zero_capture(*re) || Deriv(*re, {}).states(build ? "abc01 -" + cAnyBytes : "abc01 -", 60) > 60));
        if (tries >= 300) {
            re = re_cap("c0", re_lit('a'));
        }
        Pat p{re, print_re(*re, &rng)};
        ps.push_back(p);
    }
    auto asts = parse_patterns(c, ps, build ? &rng : nullptr);
    for (size_t i = 0; i < ps.size(); i++) {
        c.set_context((build ? "built pattern " : "pattern ") + escape(ps[i].text));
        vector<CapInfo> caps;
        collect_caps(*ps[i].re, false, caps);
        std::multiset<string> want_names;
        for (auto const& cap : caps) {
            want_names.insert(cap.name);
        }
        auto names = check_tree(c, *asts[i], {});
        if (names != want_names) {
            c.fail("tree-captures", "the tree has " + std::to_string(names.size()) + " captures instead of " + std::to_string(want_names.size()));
        }
        // Clone, and clone of a clone after its original is gone
        auto before = asts[i]->serialize();
        std::unique_ptr<Ast> clone{asts[i]->clone()};
        if (clone->serialize() != before || asts[i]->serialize() != before) {
            c.fail("clone", "the clone's or the original's tree isn't the original's");
        }
        auto make_nfa = [](std::unique_ptr<Ast> a) {
            vector<ls::LexicalRule<NfaState>> rules;
            rules.emplace_back(3, std::move(a));
            return std::make_unique<Nfa>(std::move(rules));
        };
        string printed;
        {
            auto nfa = make_nfa(std::move(asts[i]));
            Graph graph;
            auto pairs = check_paths(c, *nfa, graph, caps);
            c.count("path_states", pairs);
            c.count("spans", check_spans(c, *nfa, graph, ps[i], caps, rng));
            printed = nfa->serialize();
            check_serialized(c, *nfa, graph, printed);
            c.count("printed_automata");
        }
        // The original is gone now
        if (clone->serialize() != before) {
            c.fail("clone", "the clone changed when the original went away");
        }
        check_tree(c, *clone, {});
        std::unique_ptr<Ast> second{clone->clone()};
        // A cloned tree can be part of another one
        if (rng.chance(50)) {
            clone.reset();
        }
        auto nfa = make_nfa(std::move(second));
        Graph graph;
        check_paths(c, *nfa, graph, caps);
        if (nfa->serialize() != printed) {
            c.fail("clone", "the clone's automaton differs:\n" + nfa->serialize() + "\noriginal:\n" + printed);
        }
        c.count("patterns");
        c.count("captures", caps.size());
        c.evaluated(hash_str(ps[i].text), caps.size() > 1);
        if (c.wants_sample() && caps.size() > 2) {
            c.sample(c.context + "\n" + escape(printed.substr(0, 800)));
        }
    }
}

// ---- C19 ----------------------------------------------------------------------------------------

struct RuleSet {
    vector<Pat> pats;
    vector<uint32_t> ids;
    std::unique_ptr<ls::lexers::ByteLexer> lexer;

    [[nodiscard]] vector<RefRule> reference() const {
        vector<RefRule> r;
        for (size_t i = 0; i < pats.size(); i++) {
            r.push_back(RefRule{ids[i], Deriv(*pats[i].re, {})});
        }
        return r;
    }

    [[nodiscard]] string show() const {
        string s;
        for (size_t i = 0; i < pats.size(); i++) {
            s += " " + std::to_string(ids[i]) + ":" + pats[i].text;
        }
        return s;
    }
};

bool expected_intersection(RuleSet const& a, RuleSet const& b, Bytes const& skip, std::set<uint32_t>& out, size_t& pairs) {
    auto ra = a.reference();
    auto rb = b.reference();
    using Key = std::pair<vector<int>, vector<int>>;
    Key start;
    for (auto& r : ra) {
        start.first.push_back(r.d.start());
    }
    for (auto& r : rb) {
        start.second.push_back(r.d.start());
    }
    std::set<Key> seen{start};
    std::deque<Key> todo{start};
    while (!todo.empty()) {
        Key k = todo.front();
        todo.pop_front();
        bool second = false;
        for (size_t i = 0; i < rb.size(); i++) {
            second = second || rb[i].d.accepts(k.second[i]);
        }
        for (size_t i = 0; i < ra.size() && second; i++) {
            if (ra[i].d.accepts(k.first[i])) {
                out.insert(ra[i].id);
            }
        }
        for (int ch = 0; ch < 256; ch++) {
            if (skip[ch]) {
                continue;
            }
            Key n;
            bool la = false;
            bool lb = false;
            for (size_t i = 0; i < ra.size(); i++) {
                n.first.push_back(ra[i].d.next(k.first[i], static_cast<unsigned char>(ch)));
                la = la || !ra[i].d.dead(n.first.back());
            }
            for (size_t i = 0; i < rb.size(); i++) {
                n.second.push_back(rb[i].d.next(k.second[i], static_cast<unsigned char>(ch)));
                lb = lb || !rb[i].d.dead(n.second.back());
            }
            if (la && lb && seen.insert(n).second) {
                if (seen.size() > 4000) {
                    return false;
                }
                todo.push_back(n);
            }
        }
    }
    pairs = seen.size();
    return true;
}

void c19(Ctx& c, Rng& rng, uint64_t) {
    static HeapNoise noise;
    ReGen g;
    g.alphabet = rng.chance(50) ? "ab0" : "abcd019-";
    g.allow_cap = rng.chance(20);
    g.max_rep = 3;
    vector<Pat> ps;
    vector<RuleSet> sets;
    auto nsets = 6 + rng.below(5);
    for (uint64_t i = 0; i < nsets; i++) {
        RuleSet s;
        auto k = 1 + rng.below(4);
        for (uint64_t j = 0; j < k; j++) {
            Pat p;
            if (!ps.empty() && rng.chance(25)) {
                p = rng.pick(ps);
            } else if (!ps.empty() && rng.chance(25)) {
                // A string of another pattern, possibly repeated
                string x = sample_re(*rng.pick(ps).re, rng).substr(0, 12);
                x.erase(std::remove_if(x.begin(), x.end(), [](char ch) { return ch < 33 || ch > 126; }), x.end());
                auto re = re_str(x.empty() ? "a" : x);
                p.re = rng.chance(30) ? re_kind(Re::Plus, {re}) : re;
                p.text = print_re(*p.re, &rng);
            } else {
                p = random_pattern(rng, g, 25);
            }
            ps.push_back(p);
            s.pats.push_back(p);
            s.ids.push_back(static_cast<uint32_t>(rng.chance(15) && j > 0 ? s.ids[0] : rng.below(1000)));
        }
        sets.push_back(std::move(s));
    }
    vector<Pat> all;
    for (auto const& s : sets) {
        all.insert(all.end(), s.pats.begin(), s.pats.end());
    }
    auto asts = parse_patterns(c, all);
    size_t at = 0;
    for (auto& s : sets) {
        noise.stir(rng);
        s.lexer = std::make_unique<ls::lexers::ByteLexer>();
        for (size_t j = 0; j < s.pats.size(); j++) {
            s.lexer->add_rule(s.ids[j], std::move(asts[at++]));
        }
        s.lexer->generate();
    }
    for (size_t i = 0; i < sets.size(); i++) {
        for (size_t j = 0; j < sets.size(); j++) {
            auto const& a = sets[i];
            auto const& b = sets[j];
            vector<Pat> both = a.pats;
            both.insert(both.end(), b.pats.begin(), b.pats.end());
            c.set_context("intersecting" + a.show() + " with" + b.show());
            if (undocumented(both).any()) {
                continue;
            }
            std::set<uint32_t> want;
            size_t pairs = 0;
            if (!expected_intersection(a, b, {}, want, pairs)) {
                c.count("too_large");
                continue;
            }
            for (int k = 0; k < 2; k++) {
                auto got = a.lexer->get_dfa()->get_intersect(b.lexer->get_dfa());
                if (got != want) {
                    c.fail("intersection", "got " + show_ids(vector<uint32_t>(got.begin(), got.end())) + " instead of "
                           + show_ids(vector<uint32_t>(want.begin(), want.end())) + (k > 0 ? " the second time" : ""));
                }
            }
            c.count("intersections");
            c.count(want.empty() ? "empty_results" : want.size() > 1 ? "results_of_several" : "results_of_one");
            c.evaluated(hash_str(c.context), pairs > 1);
            if (c.wants_sample() && want.size() > 1) {
                c.sample(c.context + " = " + show_ids(vector<uint32_t>(want.begin(), want.end())));
            }
        }
    }
    // The automata are what they were
    for (auto const& s : sets) {
        c.set_context("after intersections:" + s.show());
        auto rules = s.reference();
        bool complete = true;
        compare_automata(c, s.lexer->get_dfa()->get_root(), rules, undocumented(s.pats), 500, complete);
        c.count("automata_rechecked");
    }
}
}  // namespace

int main(int argc, char** argv) {
    auto c = parse_args(argc, argv);
    auto fn = [](Ctx& ctx, Rng& rng, uint64_t i) {
        if (ctx.prop == "C08") {
            c08(ctx, rng, i);
        } else if (ctx.prop == "C09") {
            c09(ctx, rng, i);
        } else if (ctx.prop == "C18") {
            c18(ctx, rng, i);
        } else if (ctx.prop == "C19") {
            c19(ctx, rng, i);
        } else {
            fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
            exit(2);
        }
    };
    return run_cases(c, fn);
}
