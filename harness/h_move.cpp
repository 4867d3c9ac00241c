// Monitor for C24: moving a parser, an event or a schema keeps everything it stands for.
//
// Every parser that is moved around has a twin, built from the same schema and given the same calls,
// which never moves. After every call and after every move the two must be indistinguishable, and the
// object that was moved from is destroyed or assigned to, so that the sanitizers see whatever still
// refers to it.
#include "logcase.hpp"

#include <fstream>
#include <optional>
#include <type_traits>

#include <log_surgeon/FileReader.hpp>

namespace {
FullRec full_with_lines(ls::LogEventView const& v) {
    return record_full(v);
}

bool same(FullRec const& a, FullRec const& b) {
    return a == b && a.lines == b.lines;
}

// Builds the AST from a Schema object that was moved around
std::unique_ptr<ls::SchemaAST> moved_schema_ast(Ctx& c, Rng& rng, RefSchema const& s) {
    string path = c.scratch + "/moved.schema";
    {
        std::ofstream f(path, std::ios::binary);
        f << s.text;
    }
    auto in = [&](string_view, auto schema) {
        using S = decltype(schema);
        if constexpr (std::is_move_constructible_v<S> && std::is_move_assignable_v<S>) {
            for (int i = static_cast<int>(rng.below(3)); i >= 0; i--) {
                auto p = std::make_unique<S>(std::move(schema));
                if (rng.chance(50)) {
                    S q;
                    q = std::move(*p);
                    p.reset();
                    schema = std::move(q);
                } else {
                    schema = std::move(*p);
                }
                c.count("schema_moves");
            }
        }
        return schema.release_schema_ast_ptr();
    };
    if constexpr (std::is_move_constructible_v<ls::Schema>) {
        return in("", ls::Schema{path});
    } else {
        return make_ast(s);
    }
}

template <class P>
constexpr bool kIsReader = std::is_same_v<P, ls::ReaderParser>;

// A parser that moves, its twin that doesn't, and the input that both are parsing
template <class P>
struct Lane {
    struct Side {
        std::unique_ptr<P> p;
        std::unique_ptr<Feed> feed;  // ReaderParser
        size_t offset{0};  // BufferParser
        ErrorCode error{ErrorCode::Success};
    };

    RefSchema const* schema{nullptr};
    LogGen const* gen{nullptr};
    Side moved;
    Side twin;
    std::unique_ptr<string> log;
    std::unique_ptr<char[]> buf;
    size_t visible{0};  // BufferParser: how much of the input it was given
    uint64_t calls{0};
    bool started{false};
    bool shown{false};  // whether the last call returned an event
    bool failed{false};
    std::unique_ptr<Copies> copies{std::make_unique<Copies>()};
    string history;

    void note(string const& what) { history += (history.empty() ? "" : " ") + what; }

    [[nodiscard]] string context() const {
        return string(kIsReader<P> ? "ReaderParser" : "BufferParser") + " history=" + history + " schema=" + escape(schema->text, 1000) + " log=" + escape(log ? *log : "", 800);
    }
};

template <class P>
void start(Ctx& c, Rng& rng, Lane<P>& l) {
    l.copies->items.clear();
    l.log = std::make_unique<string>(any_log(rng, *l.gen));
    l.history.clear();
    l.note("start");
    c.set_context(l.context());
    if constexpr (kIsReader<P>) {
        auto d = random_delivery(rng);
        if (l.log->size() > 4000 && d.kind != Delivery::Full) {
            d.size += l.log->size() / 8;
        }
        auto seed = rng.next();
        int64_t fail_at = rng.chance(15) ? static_cast<int64_t>(rng.below(4)) : -1;
        bool by_exception = rng.chance(30);
        for (auto* s : {&l.moved, &l.twin}) {
            auto feed = std::make_unique<Feed>();
            feed->data = *l.log;
            feed->delivery = d;
            feed->rng = Rng{seed};
            feed->fail_at = fail_at;
            feed->fail_by_exception = by_exception;
            auto reader = feed->reader();
            s->p->reset_and_set_reader(reader);
            s->feed = std::move(feed);
            s->error = ErrorCode::Success;
        }
    } else {
        l.buf.reset(new char[l.log->size()]);
        memcpy(l.buf.get(), l.log->data(), l.log->size());
        l.visible = rng.chance(50) ? l.log->size() : rng.below(l.log->size() + 1);
        for (auto* s : {&l.moved, &l.twin}) {
            s->p->reset();
            s->offset = 0;
            s->error = ErrorCode::Success;
        }
    }
    l.calls = 0;
    l.started = true;
    l.shown = false;
    l.failed = false;
    c.count("inputs");
}

// What a caller can see of both parsers must agree
template <class P>
void compare(Ctx& c, Lane<P>& l, string const& when) {
    auto const& m = *l.moved.p;
    auto const& t = *l.twin.p;
    c.set_context(l.context());
    if (l.moved.error != l.twin.error) {
        c.fail("result-differs", when + " the moved parser returned " + std::to_string(static_cast<int>(l.moved.error)) + " but the other one " + std::to_string(static_cast<int>(l.twin.error)));
    }
    if (m.done() != t.done()) {
        c.fail("done-differs", when + " done() is " + std::to_string(m.done()) + " for the moved parser, not for the other one");
    }
    if (l.moved.offset != l.twin.offset) {
        c.fail("offset-differs", when + " the offsets are " + std::to_string(l.moved.offset) + " and " + std::to_string(l.twin.offset));
    }
    if constexpr (kIsReader<P>) {
        if (l.started && (l.moved.feed->pos != l.twin.feed->pos || l.moved.feed->calls != l.twin.feed->calls)) {
            c.fail("reads-differ", when + " the moved parser has read " + std::to_string(l.moved.feed->pos) + " bytes, the other one " + std::to_string(l.twin.feed->pos));
        }
    }
    auto const& mp = m.get_log_parser();
    auto const& tp = t.get_log_parser();
    if (l.shown) {
        auto const& v = mp.get_log_event_view();
        if (&v.get_log_parser() != &mp) {
            c.fail("event-of-another-parser", when + " the moved parser's event says that it belongs to another parser");
        }
        auto got = full_with_lines(v);
        auto want = full_with_lines(tp.get_log_event_view());
        if (!same(got, want)) {
            c.fail("event-differs", when + " the moved parser's event is\n  " + show_full(got) + "\n  but the other one's is\n  " + show_full(want));
        }
        c.count("views_compared");
    }
    for (auto const& r : l.schema->rules) {
        auto a = mp.get_symbol_id(r.name);
        if (a != tp.get_symbol_id(r.name) || (a.has_value() && mp.get_id_symbol(*a) != r.name)) {
            c.fail("symbols-differ", when + " the symbol of " + r.name + " differs");
        }
    }
    l.copies->check_all(c, when);
}

template <class P>
void step(Ctx& c, Rng& rng, Lane<P>& l) {
    auto call = [&](auto& s) {
        if constexpr (kIsReader<P>) {
            s.feed->curr_event = l.calls;
            try {
                s.error = s.p->parse_next_event();
            } catch (ReaderThrew const&) {
                s.error = static_cast<ErrorCode>(-1);
            }
        } else {
            s.error = s.p->parse_next_event(l.buf.get(), l.visible, s.offset, l.visible == l.log->size());
        }
    };
    l.note("parse");
    c.set_context(l.context());
    if (++l.calls > 2 * max_events(l.log->size()) + 40) {
        c.fail("no-termination", "more events than the input has bytes");
    }
    call(l.twin);
    call(l.moved);
    l.shown = l.twin.error == ErrorCode::Success;
    if (!l.shown) {
        if constexpr (kIsReader<P>) {
            l.failed = true;
        } else {
            if (l.twin.error != ErrorCode::BufferOutOfBounds || l.visible == l.log->size()) {
                l.failed = true;
            } else {
                size_t rest = l.log->size() - l.visible;
                l.visible += rng.chance(50) ? rest : 1 + rng.below(rest);
            }
        }
        c.count("failed_calls");
    } else {
        c.count("events");
    }
    compare(c, l, "after a call");
    if (l.shown && rng.chance(30)) {
        l.copies->take(c, l.moved.p->get_log_parser().get_log_event_view(), rng);
    }
}

template <class P>
void one_case(Ctx& c, Rng& rng) {
    if constexpr (std::is_move_constructible_v<P> && std::is_move_assignable_v<P>) {
        constexpr size_t cSetups = 2;
        vector<Setup> setups;
        for (size_t i = 0; i < cSetups; i++) {
            setups.push_back(make_setup(c, rng, false, false, false));
        }
        auto fresh = [&](RefSchema const& s) {
            return std::make_unique<P>(rng.chance(30) ? moved_schema_ast(c, rng, s) : make_ast(s));
        };
        vector<Lane<P>> lanes(cSetups);
        for (size_t i = 0; i < cSetups; i++) {
            lanes[i].schema = &setups[i].schema;
            lanes[i].gen = setups[i].gen.get();
            lanes[i].moved.p = fresh(setups[i].schema);
            lanes[i].twin.p = std::make_unique<P>(make_ast(setups[i].schema));
        }
        uint64_t steps = kSmall ? 220 : 80;
        uint64_t interesting_moves = 0;
        string trace;
        for (uint64_t n = 0; n < steps; n++) {
            auto& l = lanes[rng.below(cSetups)];
            auto& o = &l == &lanes[0] ? lanes[1] : lanes[0];
            if (!l.started || ((l.moved.p->done() || l.failed) && rng.chance(60))) {
                if (rng.chance(90)) {
                    start(c, rng, l);
                    continue;
                }
            } else if (!l.moved.p->done() && !l.failed && rng.chance(70)) {
                step(c, rng, l);
                continue;
            } else if (rng.chance(4)) {
                start(c, rng, l);  // in mid-input
                continue;
            }
            // Move it
            string state = !l.started ? "before any input" : l.failed ? "after an error" : l.moved.p->done() ? "after the end" : l.shown ? "while it shows an event" : "before the first event";
            // Those that need another new parser are slow
            static int const kinds[] = {0, 3, 4, 5, 6, 1, 2};
            int kind = kinds[rng.chance(kSmall ? 8 : 25) ? 5 + rng.below(2) : rng.below(5)];
            static char const* const names[] = {"construct", "assign-to-unused", "assign-over-other", "swap", "vector", "return", "optional"};
            l.note(names[kind]);
            c.set_context(l.context());
            if (kind == 0) {
                auto q = std::make_unique<P>(std::move(*l.moved.p));
                l.moved.p = std::move(q);  // destroys what was moved from
            } else if (kind == 1) {
                auto q = fresh(*o.schema);
                *q = std::move(*l.moved.p);
                l.moved.p = std::move(q);
            } else if (kind == 2) {
                // Over one that is in use, whose state is dropped
                o.copies->items.clear();
                *o.moved.p = std::move(*l.moved.p);
                l.moved.p = std::move(o.moved.p);
                o.moved.p = fresh(*o.schema);
                o.twin.p = std::make_unique<P>(make_ast(*o.schema));
                o.started = false;
                o.shown = false;
                o.failed = false;
                o.moved.error = o.twin.error = ErrorCode::Success;
                o.moved.offset = o.twin.offset = 0;
                o.history = "replaced";
            } else if (kind == 3) {
                // Both in use
                o.note("swap");
                std::swap(*l.moved.p, *o.moved.p);
                std::swap(l.moved.p, o.moved.p);
                compare(c, o, "after a swap");
            } else if (kind == 4) {
                vector<P> many;
                many.push_back(std::move(*l.moved.p));
                many.push_back(std::move(*o.moved.p));
                // Moved-from objects can be assigned to
                *l.moved.p = std::move(many[0]);
                *o.moved.p = std::move(many[1]);
                many.clear();
                o.note("vector");
                compare(c, o, "after a growing vector");
            } else if (kind == 5) {
                auto f = [](P p) { return p; };
                auto q = std::make_unique<P>(f(std::move(*l.moved.p)));
                l.moved.p = std::move(q);
            } else {
                std::optional<P> opt;
                opt = std::move(*l.moved.p);
                l.moved.p.reset();
                l.moved.p = std::make_unique<P>(std::move(*opt));
            }
            c.count(string("moves_") + names[kind]);
            c.count("moves " + state);
            compare(c, l, string("after a move (") + names[kind] + ") " + state);
            interesting_moves += l.started && !l.moved.p->done();
            if (trace.size() < 700) {
                trace += string(names[kind]) + " " + state + "; ";
            }
            c.evaluated(hash_str(l.history, run_hash(*l.schema, l.log ? *l.log : "", names[kind])), l.shown);
        }
        // Events outlive further moves in containers
        for (auto& l : lanes) {
            if constexpr (std::is_move_constructible_v<ls::LogEvent>) {
                vector<ls::LogEvent> events;
                vector<FullRec> want;
                for (auto& it : l.copies->items) {
                    events.push_back(std::move(*it.copy));
                    want.push_back(it.want);
                }
                l.copies->items.clear();
                for (size_t i = 0; i < events.size(); i++) {
                    auto got = record_full(events[i]);
                    if (!(got == want[i])) {
                        c.fail("event-differs", "an event in a growing vector is\n  " + show_full(got) + "\n  but was\n  " + show_full(want[i]));
                    }
                    c.count("events_in_vectors");
                }
            }
        }
        if (c.wants_sample()) {
            c.sample(string(kIsReader<P> ? "ReaderParser" : "BufferParser") + ", " + std::to_string(interesting_moves) + " moves in mid-input; schema:\n" + setups[0].schema.text + "\nmoves: " + trace);
        }
    } else {
        c.count("not_movable");
    }
}

// ---- Types that can't be copied today: should one become copyable or movable, then the copy must be sound

template <class F>
void check_file_reader(Ctx& c, Rng& rng) {
    string path = c.scratch + "/file";
    string data;
    for (int i = 0, n = 1 + static_cast<int>(rng.below(60)); i < n; i++) {
        data += string(rng.below(200), 'a' + static_cast<char>(rng.below(26))) + "\n";
    }
    {
        std::ofstream f(path, std::ios::binary);
        f << data;
    }
    c.set_context("FileReader on " + escape(data, 200));
    size_t before = data.find('\n') + 1;
    auto rest = [&](F& f, string& out) {
        string s;
        while (f.try_read_to_delimiter('\n', true, false, s) == ErrorCode::Success) {
            out += s;
        }
    };
    auto opened = [&] {
        auto f = std::make_unique<F>();
        string s;
        if (f->try_open(path) != ErrorCode::Success || f->try_read_to_delimiter('\n', true, false, s) != ErrorCode::Success || s != data.substr(0, before)) {
            c.fail("file-reader", "reading the first line fails");
        }
        return f;
    };
    [[maybe_unused]] auto expect_rest = [&](F& f, string const& what) {
        string got;
        rest(f, got);
        if (got != data.substr(before)) {
            c.fail("file-reader", what + " delivers \"" + escape(got, 200) + "\" as the rest of the file");
        }
    };
    {
        auto f = opened();
        expect_rest(*f, "FileReader");
        f->close();
    }
    if constexpr (std::is_move_constructible_v<F> && !std::is_copy_constructible_v<F>) {
        auto f = opened();
        auto g = std::make_unique<F>(std::move(*f));
        f.reset();
        expect_rest(*g, "a moved FileReader");
        c.count("file_reader_moves");
    }
    if constexpr (std::is_copy_constructible_v<F>) {
        auto f = opened();
        {
            F g{*f};
            if (rng.chance(50)) {
                g.close();
            }
        }
        expect_rest(*f, "a FileReader whose copy is gone");
        f->close();
        c.count("file_reader_copies");
    }
    if constexpr (std::is_copy_assignable_v<F>) {
        auto f = opened();
        {
            F g;
            g = *f;
        }
        expect_rest(*f, "a FileReader whose copy is gone");
        f->close();
    } else if constexpr (std::is_move_assignable_v<F>) {
        auto f = opened();
        auto g = opened();
        *g = std::move(*f);
        f.reset();
        expect_rest(*g, "a FileReader that was assigned to");
    }
    c.evaluated(hash_str(data), true);
}

template <class B>
void check_buffer(Ctx& c, Rng& rng) {
    c.set_context("buffers");
    if constexpr (std::is_move_constructible_v<B>) {
        auto b = std::make_unique<B>();
        vector<char> want;
        size_t n = rng.below(3 * kBuf);
        for (size_t i = 0; i < n; i++) {
            if (b->pos() == b->size()) {
                b->double_size();
                b->copy(want.data(), want.data() + want.size(), 0);
            }
            want.push_back(static_cast<char>(rng.below(256)));
            b->set_curr_value(want.back());
            b->increment_pos();
        }
        auto moved = std::make_unique<B>(std::move(*b));
        b.reset();
        if (moved->pos() != n) {
            c.fail("buffer", "a moved Buffer forgets its position");
        }
        for (size_t i = 0; i < n; i++) {
            if (moved->get_value(i) != want[i]) {
                c.fail("buffer", "a moved Buffer has other contents");
            }
        }
        c.count("buffer_moves");
    }
}

// A LogParser used directly; movable only if that's sound
template <class L>
void check_log_parser(Ctx& c, Rng& rng) {
    if constexpr (std::is_move_constructible_v<L>) {
        auto s = make_setup(c, rng, false, false, false);
        auto p = std::make_unique<L>(make_ast(s.schema));
        ls::BufferParser twin{make_ast(s.schema)};
        string log = model_log(rng, *s.gen);
        c.set_context("LogParser schema=" + escape(s.schema.text, 800) + " log=" + escape(log, 800));
        size_t offset = 0;
        size_t twin_offset = 0;
        while (!twin.done()) {
            p->reset_log_event_view();
            p->set_input_buffer(log.data(), log.size(), offset, true);
            typename L::ParsingAction action{L::ParsingAction::None};
            if (twin.parse_next_event(log.data(), log.size(), twin_offset, true) != p->parse_and_generate_metadata(action)) {
                c.fail("log-parser", "a moved LogParser returns another code");
            }
            offset = p->get_input_pos();
            if (rng.chance(50)) {
                p = std::make_unique<L>(std::move(*p));
            }
            auto got = record_full(p->get_log_event_view());
            auto want = record_full(twin.get_log_parser().get_log_event_view());
            if (!same(got, want)) {
                c.fail("log-parser", "a moved LogParser's event is\n  " + show_full(got) + "\n  expected\n  " + show_full(want));
            }
            c.count("log_parser_moves");
        }
    }
}

// Copies of a parser, if there can be any, are independent
template <class P>
void check_parser_copies(Ctx& c, Rng& rng) {
    if constexpr (std::is_copy_constructible_v<P>) {
        auto s = make_setup(c, rng, false, false, false);
        string log = model_log(rng, *s.gen);
        c.set_context("copied parser schema=" + escape(s.schema.text, 800) + " log=" + escape(log, 800));
        auto events = [&](P& p, size_t limit) {
            vector<FullRec> out;
            Feed feed;
            feed.data = log;
            auto reader = feed.reader();
            size_t offset = 0;
            if constexpr (kIsReader<P>) {
                p.reset_and_set_reader(reader);
            } else {
                p.reset();
            }
            while (!p.done() && out.size() < limit) {
                if constexpr (kIsReader<P>) {
                    p.parse_next_event();
                } else {
                    p.parse_next_event(log.data(), log.size(), offset, true);
                }
                out.push_back(record_full(p.get_log_parser().get_log_event_view()));
            }
            return out;
        };
        P twin{make_ast(s.schema)};
        auto want = events(twin, max_events(log.size()));
        auto p = std::make_unique<P>(make_ast(s.schema));
        events(*p, 1);
        auto shown = record_full(p->get_log_parser().get_log_event_view());
        P q{*p};
        if (events(q, max_events(log.size())) != want) {
            c.fail("parser-copy", "a copied parser finds other events");
        }
        if (!(record_full(p->get_log_parser().get_log_event_view()) == shown)) {
            c.fail("parser-copy", "using a copy of a parser changes the event that the original shows");
        }
        p.reset();
        if (events(q, max_events(log.size())) != want) {
            c.fail("parser-copy", "a copied parser finds other events once the original is gone");
        }
        c.count("parser_copies");
    }
}

void c24(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no % 2 == 0) {
        one_case<ls::ReaderParser>(c, rng);
    } else {
        one_case<ls::BufferParser>(c, rng);
    }
    check_file_reader<ls::FileReader>(c, rng);
    check_buffer<ls::Buffer<char>>(c, rng);
    check_log_parser<ls::LogParser>(c, rng);
    check_parser_copies<ls::ReaderParser>(c, rng);
    check_parser_copies<ls::BufferParser>(c, rng);
}
}  // namespace

int main(int argc, char** argv) {
    auto c = parse_args(argc, argv);
    return run_cases(c, [](Ctx& ctx, Rng& rng, uint64_t i) { c24(ctx, rng, i); });
}
