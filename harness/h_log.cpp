// Monitors for the log parsing properties: C01-C07, C12, C14, C15.
#include "logcase.hpp"

#if !VERIF_ASAN
#include <sys/mman.h>
#endif

namespace {
// ---- C01 ----------------------------------------------------------------------------------------

struct TextMonitor {
    Ctx& c;
    string text{};

    void operator()(ls::LogEventView const& v) {
        string whole = v.to_string();
        string joined;
        auto const& b = v.get_log_output_buffer();
        for (uint32_t i = first_token(v); i < b->pos(); i++) {
            auto& t = b->get_mutable_token(i);
            joined += t.to_string_view();
        }
        if (joined != whole) {
            c.fail("tokens-differ-from-event", "tokens join to \"" + escape(joined) + "\" but the event's text is \"" + escape(whole) + "\"");
        }
        text += whole;
    }
};

void check_lossless(Ctx& c, string const& got, string_view log, string const& who) {
    if (got == log) {
        return;
    }
    size_t i = 0;
    while (i < got.size() && i < log.size() && got[i] == log[i]) {
        i++;
    }
    c.fail("text-differs", who + ": events' text differs from the input at byte " + std::to_string(i) + " (got " + std::to_string(got.size())
           + " bytes of " + std::to_string(log.size()) + "): got \"" + escape(string_view(got).substr(i, 60)) + "\" expected \""
           + escape(log.substr(i, 60)) + "\"");
}

// Feeds the input to a BufferParser in windows, following the documented protocol. Calls back for
// every event; returns the windows used.
struct Windows {
    uint64_t refills{0};
    uint64_t in_place{0};
    uint64_t no_growth{0};
    bool done{false};
};

struct WindowOptions {
    bool move{true};  // move unparsed bytes to the start of a new buffer, otherwise grow in place
    size_t max_step{64};
    size_t start_offset{0};  // unrelated bytes before the input in the first buffer
    bool check{false};  // check the protocol (C05) instead of only following it
    bool late_finish{false};  // say that the input is finished only in a separate call
};

Windows run_windows(Ctx& c, ls::BufferParser& p, string_view data, WindowOptions const& o, Rng& rng, EventFn const& on_event) {
    Windows w;
    p.reset();
    size_t returned = 0;  // bytes of the events returned so far
    size_t base = 0;  // input position of buf[pad]
    size_t pad = o.start_offset;
    size_t avail = std::min<size_t>(data.size(), rng.below(o.max_step + 1));  // input bytes in the buffer
    size_t offset = pad;
    uint64_t calls = 0;
    bool finished_flag = !o.late_finish && avail == data.size();
    vector<std::unique_ptr<char[]>> keep;
    while (!p.done()) {
        size_t size = pad + avail;
        std::unique_ptr<char[]> buf(new char[size]);
        memset(buf.get(), 'P', pad);
        memcpy(buf.get() + pad, data.data() + base, avail);
        bool refill = false;
        while (!p.done() && !refill) {
            if (++calls > 4 * (data.size() + 8)) {
                c.fail("no-termination", "more calls than the input has bytes");
            }
            string before;
            if (o.check) {
                before.assign(buf.get(), size);
            }
            size_t offset_before = offset;
            auto err = p.parse_next_event(buf.get(), size, offset, finished_flag);
            if (o.check && memcmp(before.data(), buf.get(), size) != 0) {
                c.fail("buffer-written", "the caller's buffer was modified");
            }
            if (offset > size || offset < pad) {
                c.fail("offset-range", "offset " + std::to_string(offset) + " outside the buffer of " + std::to_string(size));
            }
            if (err == ErrorCode::Success) {
                auto const& v = p.get_log_parser().get_log_event_view();
                returned += v.to_string().size();
                on_event(v);
                if (o.check && offset < offset_before) {
                    c.fail("offset-backwards", "offset went from " + std::to_string(offset_before) + " to " + std::to_string(offset) + " on success");
                }
                if (o.check && p.done() && (!finished_flag || returned != data.size())) {
                    c.fail("done-early", "done after returning " + std::to_string(returned) + " of " + std::to_string(data.size()) + " bytes, finished="
                           + std::to_string(finished_flag));
                }
            } else if (err == ErrorCode::BufferOutOfBounds) {
                if (finished_flag) {
                    c.fail("out-of-bounds-when-finished", "BufferOutOfBounds although the input was said to be finished");
                }
                if (p.done()) {
                    c.fail("done-early", "done together with BufferOutOfBounds");
                }
                if (offset - pad + base != returned && o.check) {
                    c.fail("offset-wrong", "after BufferOutOfBounds the offset is at input byte " + std::to_string(offset - pad + base)
                           + " but the first event not returned starts at " + std::to_string(returned));
                }
                refill = true;
            } else {
                c.fail("unexpected-error", "error code " + std::to_string(static_cast<int>(err)));
            }
        }
        if (p.done()) {
            break;
        }
        w.refills++;
        size_t used = offset - pad;
        size_t end = base + avail;
        if (end == data.size()) {
            finished_flag = true;
        } else {
            size_t step = rng.below(o.max_step + 1);
            w.no_growth += step == 0 ? 1 : 0;
            end = std::min(data.size(), end + step);
            finished_flag = end == data.size() && !o.late_finish;
        }
        if (o.move) {
            base += used;
            pad = rng.chance(20) ? rng.below(5) : 0;
            offset = pad;
        } else {
            w.in_place++;
        }
        avail = end - base;
    }
    w.done = p.done();
    return w;
}

WindowOptions random_windows(Rng& rng, size_t log_size) {
    WindowOptions o;
    o.move = rng.chance(60);
    o.max_step = rng.chance(30) ? 1 + rng.below(3) : 1 + rng.below(1 + std::min<size_t>(log_size, 300));
    o.late_finish = rng.chance(40);
    o.start_offset = rng.chance(30) ? rng.below(9) : 0;
    // Reparsing makes the work quadratic in the number of windows
    if (log_size > 400) {
        o.max_step += log_size / 20;
    }
    return o;
}

void c01(Ctx& c, Rng& rng, uint64_t case_no) {
    auto s = make_setup(c, rng);
    int logs = kSmall ? 30 : 12;
    for (int i = 0; i < logs; i++) {
        string log = any_log(rng, *s.gen);
        if (!kSmall && i == 0 && (case_no / 8) % 4 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf));
        }
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        {
            TextMonitor m{c};
            auto r = run_reader(*s.reader, log, d, rng.next(), [&](auto const& v) { m(v); });
            check_ended(c, r, "ReaderParser");
            check_lossless(c, m.text, log, "ReaderParser");
            check_lossless(c, r.text(), log, "ReaderParser tokens");
            note_run(c, r, log);
            c.evaluated(run_hash(s.schema, log, "r" + d.show()), interesting(r.events));
            if (c.wants_sample() && r.events.size() > 2 && log.size() < 200) {
                c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log) + "\n" + std::to_string(r.events.size()) + " events");
            }
        }
        {
            c.set_context(case_context(s.schema, log, "buffer whole"));
            TextMonitor m{c};
            auto r = run_buffer(*s.buffer, log, [&](auto const& v) { m(v); });
            check_ended(c, r, "BufferParser");
            check_lossless(c, m.text, log, "BufferParser");
            c.evaluated(run_hash(s.schema, log, "b"), interesting(r.events));
        }
        if (log.size() < 3000 || i == 1) {
            auto o = random_windows(rng, log.size());
            c.set_context(case_context(s.schema, log, "buffer windows"));
            TextMonitor m{c};
            auto w = run_windows(c, *s.buffer, log, o, rng, [&](auto const& v) { m(v); });
            check_lossless(c, m.text, log, "BufferParser in windows");
            c.count("window_refills", w.refills);
        }
    }
}

// ---- C02, C03 -----------------------------------------------------------------------------------

void check_segments(Ctx& c, vector<EventRec> const& got, vector<EventRec> const& want) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
        if (i >= got.size() || i >= want.size() || got[i].text() != want[i].text() || got[i].has_timestamp != want[i].has_timestamp
            || (got[i].has_timestamp && got[i].tokens[0].text != want[i].tokens[0].text))
        {
            c.fail("segmentation", diff_events(got, want));
        }
    }
}

string dense_log(Rng& rng, LogGen const& g) {
    // Newlines, timestamps, pieces of timestamps and variables right next to each other
    string x;
    auto n = 1 + rng.below(25);
    for (uint64_t i = 0; i < n; i++) {
        auto k = rng.below(10);
        if (k < 3) {
            x += '\n';
        } else if (k < 6) {
            x += g.timestamp(rng);
        } else if (k < 8) {
            x += g.word(rng);
        } else {
            x += g.delim(rng);
        }
    }
    return x;
}

// A known finding: where the newline is no delimiter, a variable at the start of the input may contain it
void c02_newline_in_variable(Ctx& c, uint64_t case_no) {
    string const schema = "delimiters: :\nv:[a-z][^ :]+\n";
    string const log = "ab\ncd:x\n";
    c.set_context("schema=" + escape(schema) + " log=" + escape(log));
    ls::BufferParser p{ls::SchemaParser::try_schema_string(schema)};
    auto const r = run_buffer(p, log);
    check_ended(c, r, "BufferParser");
    if (r.events.empty() || r.events[0].text() != "ab\n") {
        c.known.push_back({case_no, "newline-in-variable-at-start", "the first event of \"" + escape(log) + "\" isn't \"ab\\n\""});
    }
}

void c02_c03(Ctx& c, Rng& rng, uint64_t case_no, bool tokens) {
    if (!tokens && case_no == 0) {
        c02_newline_in_variable(c, case_no);
    }
    auto s = make_setup(c, rng);
    int logs = kSmall ? 60 : 16;
    for (int i = 0; i < logs; i++) {
        string log = rng.chance(35) ? dense_log(rng, *s.gen) : model_log(rng, *s.gen);
        if (!kSmall && i == 0 && (case_no / 8) % 4 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf / 2));
        }
        auto want = s.ref->parse(log);
        auto compare = [&](Run const& r, string const& who) {
            check_ended(c, r, who);
            if (tokens) {
                if (r.events != want) {
                    c.fail("tokens", who + ": " + diff_events(r.events, want));
                }
            } else {
                check_segments(c, r.events, want);
            }
        };
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        auto r = run_reader(*s.reader, log, d, rng.next());
        compare(r, "ReaderParser");
        note_run(c, r, log);
        c.evaluated(run_hash(s.schema, log, ""), interesting(r.events));
        c.set_context(case_context(s.schema, log, "buffer whole"));
        auto b = run_buffer(*s.buffer, log);
        compare(b, "BufferParser");
        if (c.wants_sample() && r.events.size() > 2 && log.size() < 200) {
            string ev;
            for (auto const& e : want) {
                ev += "\n  " + show_event(e);
            }
            c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log) + ev);
        }
    }
}

// ---- C04 ----------------------------------------------------------------------------------------

void c04(Ctx& c, Rng& rng, uint64_t case_no) {
    auto s = make_setup(c, rng);
    vector<vector<uint32_t>> want_lines;
    auto compare = [&](string const& log, Delivery d, vector<EventRec> const& want) {
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        auto r = run_reader(*s.reader, log, d, rng.next());
        check_ended(c, r, "ReaderParser");
        if (r.feed.pos != log.size() || !r.feed.reported_eof) {
            c.fail("input-not-read", "ReaderParser was done after reading " + std::to_string(r.feed.pos) + " of " + std::to_string(log.size())
                   + " bytes, end reported: " + std::to_string(r.feed.reported_eof));
        }
        if (r.events != want) {
            c.fail("delivery", "ReaderParser (" + d.show() + ") differs from BufferParser over the whole input: " + diff_events(r.events, want));
        }
        if (r.lines != want_lines) {
            size_t e = 0;
            while (e + 1 < r.lines.size() && r.lines[e] == want_lines[e]) {
                e++;
            }
            c.fail("delivery-lines", "ReaderParser (" + d.show() + ") and BufferParser over the whole input give the tokens of event " + std::to_string(e)
                   + " different line numbers: " + show_event(r.events[e]));
        }
        c.count("deliveries_compared");
        c.evaluated(run_hash(s.schema, log, d.show()), interesting(r.events) && log.size() > kBuf / 2);
        note_run(c, r, log);
    };
    auto reference = [&](string const& log) {
        c.set_context(case_context(s.schema, log, "buffer whole"));
        c.maximum("lines", std::count(log.begin(), log.end(), '\n'));
        auto b = run_buffer(*s.buffer, log);
        check_ended(c, b, "BufferParser");
        want_lines = b.lines;
        // A token is on the line it ends on, counted from the start of the input
        uint32_t line = 0;
        for (size_t e = 0; e < b.events.size(); e++) {
            for (size_t t = 0; t < b.events[e].tokens.size(); t++) {
                auto const& text = b.events[e].tokens[t].text;
                line += std::count(text.begin(), text.end(), '\n');
                if (line != b.lines[e][t]) {
                    c.fail("token-line", "BufferParser says that token " + std::to_string(t) + " of event " + std::to_string(e) + " ends on line "
                           + std::to_string(b.lines[e][t]) + ", but it ends on line " + std::to_string(line) + ": " + show_event(b.events[e]));
                }
                c.count("token_lines");
            }
        }
        return b.events;
    };
    // Random logs and deliveries
    int logs = kSmall ? 10 : 3;
    for (int i = 0; i < logs; i++) {
        string log = any_log(rng, *s.gen);
        auto want = reference(log);
        compare(log, Delivery{}, want);
        for (int k = 0; k < 3; k++) {
            compare(log, random_delivery(rng), want);
        }
    }
    // Every alignment of a piece of text to a buffer boundary
    string base = s.gen->log(rng, 20 + rng.below(60));
    string tail = s.gen->log(rng, rng.below(2 * kBuf > 400 ? 100 : 2 * kBuf));
    int style = static_cast<int>(rng.below(4));
    size_t m = 1 + rng.below(kSmall ? 6 : 4);
    uint64_t fill_seed = rng.next();
    size_t step = kSmall ? 1 : 1 + base.size() / 25;
    for (size_t j = 0; j <= base.size() + 1; j += step) {
        if (m * kBuf / 2 < j) {
            break;
        }
        Rng fr{fill_seed};
        string log = filler(fr, *s.gen, m * kBuf / 2 - j, style) + base + tail;
        auto want = reference(log);
        compare(log, Delivery{}, want);
        if (j % 5 == 0) {
            compare(log, random_delivery(rng), want);
        }
        c.count("alignments");
    }
    // Inputs that end at or next to a boundary
    for (int delta = -2; delta <= 2; delta++) {
        string log = filler(rng, *s.gen, m * kBuf / 2 + delta, static_cast<int>(rng.below(5)));
        if (rng.chance(50)) {
            log.back() = '7';
        }
        compare(log, random_delivery(rng), reference(log));
    }
    // Long events
    if (kSmall || (case_no / 8) % 4 == 0) {
        string log = s.gen->log(rng, 30);
        log += many_tokens_log(rng, *s.gen, kSmall ? rng.below(400) : kBuf / 2 + rng.below(kBuf));
        log += s.gen->log(rng, rng.below(kBuf));
        compare(log, random_delivery(rng), reference(log));
        c.count("long_event_logs");
    }
    if (c.wants_sample()) {
        c.sample("schema:\n" + s.schema.text + "\nbase text placed at every offset around byte " + std::to_string(m * kBuf / 2) + ": " + escape(base));
    }
}

// ---- C05 ----------------------------------------------------------------------------------------

// The two internal names of timestamp matches tell whether the input started with them; an event
// resumed in a new buffer starts one.
void normalize_timestamp_types(vector<EventRec>& events) {
    for (auto& e : events) {
        if (!e.tokens.empty()) {
            for (auto& t : e.tokens[0].types) {
                if (t == kFirstTs || t == kNewlineTs) {
                    t = "timestamp";
                }
            }
        }
    }
}

// Positions beyond 2 and 4 GiB: a caller may, for example, map a file of that size. Only the pages with text are touched.
void c05_far(Ctx& c, Rng& rng, Setup& s, ls::BufferParser& whole) {
    static uint64_t const boundaries[] = {uint64_t{1} << 31, uint64_t{1} << 32, uint64_t{1} << 30, 3 * (uint64_t{1} << 31)};
    uint64_t const boundary = boundaries[rng.below(4)];
    size_t const mapped = boundary + (1 << 20);
    void* m = mmap(nullptr, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) {
        c.count("large_mappings_refused");
        return;
    }
    std::unique_ptr<void, std::function<void(void*)>> unmap(m, [mapped](void* x) { munmap(x, mapped); });
    char* const base = static_cast<char*>(m);
    {
        // The text is around the boundary
        string log = s.gen->log(rng, 30 + rng.below(300));
        auto want = run_buffer(whole, log);
        check_ended(c, want, "BufferParser");
        normalize_timestamp_types(want.events);
        size_t const start = boundary - rng.below(log.size() + 1);
        size_t const end = start + log.size();
        memcpy(base + start, log.data(), log.size());
        size_t cut = rng.chance(50) ? end : start + rng.below(log.size() + 1);
        c.set_context(case_context(s.schema, log, "in a buffer of " + std::to_string(end) + " bytes, from " + std::to_string(start) + " on, first up to " + std::to_string(cut)));
        s.buffer->reset();
        size_t offset = start;
        size_t at = start;
        vector<EventRec> got;
        uint64_t calls = 0;
        while (!s.buffer->done()) {
            auto e = s.buffer->parse_next_event(base, cut, offset, cut == end);
            if (++calls > log.size() + 3) {
                c.fail("no-termination", "more calls than bytes");
            }
            if (e == ErrorCode::BufferOutOfBounds && cut != end) {
                cut = end;
                if (offset != at) {
                    c.fail("offset-wrong", "offset " + std::to_string(offset) + " after events up to " + std::to_string(at));
                }
            } else if (e != ErrorCode::Success) {
                c.fail("unexpected-error", "error code " + std::to_string(static_cast<int>(e)));
            } else {
                got.push_back(record(s.buffer->get_log_parser().get_log_event_view()));
                at += got.back().text().size();
            }
        }
        normalize_timestamp_types(got);
        if (got != want.events) {
            c.fail("resume", "events differ from those of the input at the start of a buffer: " + diff_events(got, want.events));
        }
        c.evaluated(run_hash(s.schema, log, "far" + std::to_string(start)), interesting(got));
        c.count("texts_beyond_1GiB");
    }
    {
        // The text is at the start and much follows
        static string const schema = "delimiters: \\n\ntimestamp:[0-9]{2}:[0-9]{2}\nint:[0-9]+\n";
        string const log = "ab 12 c\n10:15 x 7\n  more\n10:16 y\nlast 3\n10:17 z\n";
        memcpy(base, log.data(), log.size());
        ls::BufferParser p{ls::SchemaParser::try_schema_string(schema)};
        size_t offset = 0;
        size_t const size = boundary + rng.below(3);
        bool finished = rng.chance(50);
        c.set_context("log at the start of a buffer of " + std::to_string(size) + " bytes");
        for (string const want : {"ab 12 c\n", "10:15 x 7\n  more\n", "10:16 y\nlast 3\n"}) {
            auto e = p.parse_next_event(base, size, offset, finished);
            if (e != ErrorCode::Success) {
                c.fail("unexpected-error", "error code " + std::to_string(static_cast<int>(e)) + " while the buffer has complete events");
            }
            auto text = p.get_log_parser().get_log_event_view().to_string();
            if (text != want || p.done()) {
                c.fail("resume", "got \"" + escape(text) + "\", should be \"" + escape(want) + "\"");
            }
        }
        c.count("very_large_buffers");
    }
}

// A known finding: where the newline is no delimiter, a variable is found at the start of the input, but not at the
// start of a later event, unless parsing resumes there
void c05_without_newline_delimiter(Ctx& c, uint64_t case_no) {
    string const schema = "delimiters: \nint:[0-9]+\n";
    string log = "12 a\n13 b\n";
    c.set_context("schema=" + escape(schema) + " log=" + escape(log));
    ls::BufferParser p{ls::SchemaParser::try_schema_string(schema)};
    auto const whole = run_buffer(p, log);
    check_ended(c, whole, "BufferParser");
    p.reset();
    size_t offset = 0;
    vector<EventRec> got;
    while (p.parse_next_event(log.data(), 7, offset, false) == ErrorCode::Success) {
        got.push_back(record(p.get_log_parser().get_log_event_view()));
    }
    while (!p.done() && p.parse_next_event(log.data(), log.size(), offset, true) == ErrorCode::Success) {
        got.push_back(record(p.get_log_parser().get_log_event_view()));
    }
    if (got != whole.events) {
        c.known.push_back({case_no, "resume-without-newline-delimiter", "events of \"" + escape(log) + "\" presented in two parts: " + diff_events(got, whole.events)});
    }
}

void c05(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no == 0) {
        c05_without_newline_delimiter(c, case_no);
    }
    auto s = make_setup(c, rng, true, false, true, false);
    int logs = kSmall ? 20 : 8;
    // The reference is a second parser which gets every input in one piece
    ls::BufferParser whole{make_ast(s.schema)};
    if ((case_no / 8) % 4 == 1) {
        c05_far(c, rng, s, whole);
    }
    bool used = false;
    for (int i = 0; i < logs; i++) {
        string log = rng.chance(25) ? dense_log(rng, *s.gen) : rng.chance(90) ? s.gen->log(rng, s.gen->random_size(rng)) : any_log(rng, *s.gen);
        if (!kSmall && i == 0 && (case_no / 8) % 6 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf / 2));
        }
        c.set_context(case_context(s.schema, log, "buffer whole"));
        auto want = run_buffer(whole, log);
        check_ended(c, want, "BufferParser");
        normalize_timestamp_types(want.events);
        int splits = log.size() < 2000 ? 6 : 2;
        for (int k = 0; k < splits; k++) {
            auto o = random_windows(rng, log.size());
            o.check = true;
            if (!used && rng.chance(50)) {
                // A new parser must do without reset
                s.buffer = std::make_unique<ls::BufferParser>(make_ast(s.schema));
            }
            used = true;
            std::ostringstream how;
            how << "windows move=" << o.move << " step=" << o.max_step << " pad=" << o.start_offset << " late=" << o.late_finish;
            c.set_context(case_context(s.schema, log, how.str()));
            vector<EventRec> got;
            auto w = run_windows(c, *s.buffer, log, o, rng, [&](auto const& v) { got.push_back(record(v)); });
            normalize_timestamp_types(got);
            if (got != want.events) {
                c.fail("resume", "events differ from those of the uninterrupted input: " + diff_events(got, want.events));
            }
            c.count("window_refills", w.refills);
            c.count("refills_in_place", w.in_place);
            c.count("refills_without_new_data", w.no_growth);
            c.count("events", got.size());
            c.evaluated(run_hash(s.schema, log, how.str()), w.refills > 0 && interesting(got));
            if (c.wants_sample() && w.refills > 2 && log.size() < 200) {
                c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log) + "\n" + how.str() + ": " + std::to_string(w.refills) + " refills");
            }
        }
        // Every split point of a short input
        if (log.size() <= 60 && i < 8) {
            for (size_t cut = 0; cut <= log.size(); cut++) {
                for (bool move : {true, false}) {
                    c.set_context(case_context(s.schema, log, "split at " + std::to_string(cut) + (move ? " move" : " in place")));
                    s.buffer->reset();
                    vector<EventRec> got;
                    size_t offset = 0;
                    std::unique_ptr<char[]> b1(new char[cut]);
                    memcpy(b1.get(), log.data(), cut);
                    ErrorCode e = ErrorCode::Success;
                    size_t returned = 0;
                    uint64_t calls = 0;
                    while ((e = s.buffer->parse_next_event(b1.get(), cut, offset, false)) == ErrorCode::Success) {
                        auto const& v = s.buffer->get_log_parser().get_log_event_view();
                        returned += v.to_string().size();
                        got.push_back(record(v));
                        if (++calls > log.size() + 3) {
                            c.fail("no-termination", "more events than bytes");
                        }
                    }
                    if (e != ErrorCode::BufferOutOfBounds) {
                        c.fail("unexpected-error", "error code " + std::to_string(static_cast<int>(e)));
                    }
                    if (offset != returned) {
                        c.fail("offset-wrong", "offset " + std::to_string(offset) + " after events of " + std::to_string(returned) + " bytes");
                    }
                    size_t from = move ? offset : 0;
                    size_t size = log.size() - from;
                    size_t off2 = move ? 0 : offset;
                    b1.reset();
                    std::unique_ptr<char[]> b2(new char[size]);
                    memcpy(b2.get(), log.data() + from, size);
                    while (!s.buffer->done()) {
                        e = s.buffer->parse_next_event(b2.get(), size, off2, true);
                        if (e != ErrorCode::Success || ++calls > 2 * log.size() + 6) {
                            c.fail("unexpected-error", "error code " + std::to_string(static_cast<int>(e)) + " on the finished input");
                        }
                        got.push_back(record(s.buffer->get_log_parser().get_log_event_view()));
                    }
                    normalize_timestamp_types(got);
                    if (got != want.events) {
                        c.fail("resume", "events differ from those of the uninterrupted input: " + diff_events(got, want.events));
                    }
                    c.count("split_points");
                    c.evaluated(run_hash(s.schema, log, std::to_string(cut) + (move ? "m" : "p")), interesting(got));
                }
            }
        }
    }
}

void c06(Ctx& c, Rng& rng, uint64_t case_no) {
    auto s = make_setup(c, rng);
    int logs = kSmall ? 12 : 4;
    for (int i = 0; i < logs; i++) {
        string log = any_log(rng, *s.gen);
        if (!kSmall && i == 0 && case_no % 3 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf / 2));
        }
        size_t limit = kSmall ? 40 : 4;
        int percent = kSmall ? 60 : 10;
        Copies copies;
        Rng r2 = rng.fork();
        auto taker = [&](ls::LogEventView const& v) {
            if (copies.items.size() < limit && (r2.chance(percent) || v.to_string().size() > kBuf)) {
                copies.take(c, v, r2);
            } else if (r2.chance(10)) {
                copies.check_all(c, "while parsing goes on");
            }
        };
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        auto r = run_reader(*s.reader, log, d, rng.next(), taker, false);
        check_ended(c, r, "ReaderParser");
        copies.check_all(c, "after the end");
        {
            // The reader's parser goes on with something else
            Feed other;
            string junk = random_bytes(rng, kBuf + 50, log + "x\n");
            other.data = junk;
            auto reader = other.reader();
            s.reader->reset_and_set_reader(reader);
            copies.check_all(c, "after reset");
            uint64_t guard = 0;
            while (!s.reader->done() && guard++ < 200) {
                if (s.reader->parse_next_event() != ErrorCode::Success) {
                    break;
                }
            }
            copies.check_all(c, "after parsing other input");
        }
        Copies copies2;
        {
            c.set_context(case_context(s.schema, log, "buffer"));
            std::unique_ptr<char[]> buf(new char[log.size()]);
            memcpy(buf.get(), log.data(), log.size());
            s.buffer->reset();
            size_t offset = 0;
            uint64_t guard = 0;
            while (!s.buffer->done() && guard++ < log.size() + 3) {
                if (s.buffer->parse_next_event(buf.get(), log.size(), offset, true) != ErrorCode::Success) {
                    break;
                }
                auto const& v = s.buffer->get_log_parser().get_log_event_view();
                if (copies2.items.size() < limit && r2.chance(percent)) {
                    copies2.take(c, v, r2);
                }
            }
            memset(buf.get(), 'X', log.size());
            copies2.check_all(c, "after the caller's buffer was overwritten");
        }
        s.buffer->reset();
        copies2.check_all(c, "after the caller's buffer was freed");
        copies.check_all(c, "at the end");
        size_t n = copies.items.size() + copies2.items.size();
        c.evaluated(run_hash(s.schema, log, ""), n >= 1);
        if (c.wants_sample() && n > 2 && log.size() < 200) {
            c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log) + "\n" + std::to_string(n) + " copies, e.g. " + show_full(copies.items.empty() ? copies2.items[0].want : copies.items[0].want));
        }
    }
}

// ---- C07 ----------------------------------------------------------------------------------------

void check_accessors(Ctx& c, ls::LogEventView const& v, RefSchema const& schema) {
    auto const& b = v.get_log_output_buffer();
    auto const& parser = v.get_log_parser();
    uint32_t start = first_token(v);
    // Raw text of tokens straight from their buffers
    vector<string> raw;
    for (uint32_t i = start; i < b->pos(); i++) {
        auto& t = b->get_mutable_token(i);
        string x;
        uint32_t len = t.m_start_pos <= t.m_end_pos ? t.m_end_pos - t.m_start_pos : t.m_buffer_size - t.m_start_pos + t.m_end_pos;
        for (uint32_t k = 0; k < len; k++) {
            uint32_t p = t.m_start_pos + k;
            x += t.m_buffer[p < t.m_buffer_size ? p : p - t.m_buffer_size];
        }
        if (t.to_string() != x || t.to_string_view() != x || t.get_length() != x.size()) {
            c.fail("token-accessors", "token text \"" + escape(x) + "\" but to_string \"" + escape(t.to_string()) + "\" to_string_view \"" + escape(t.to_string_view())
                   + "\" length " + std::to_string(t.get_length()));
        }
        if (x.size() > 256) {
            c.count("tokens_of_over_256_bytes");
        }
        for (size_t k = 0; k < x.size(); k++) {
            if (t.get_char(k) != x[k]) {
                c.fail("token-get-char", "get_char(" + std::to_string(k) + ") of \"" + escape(x) + "\"");
            }
        }
        if (!x.empty() && t.get_delimiter() != x.substr(0, 1)) {
            c.fail("token-get-delimiter", "get_delimiter of \"" + escape(x) + "\" is \"" + escape(t.get_delimiter()) + "\"");
        }
        if (t.to_string() != x || t.to_string_view() != x) {
            c.fail("token-accessors", "second call differs for \"" + escape(x) + "\"");
        }
        if (t.m_start_pos > t.m_end_pos) {
            c.count("wrapped_tokens");
        }
        raw.push_back(x);
    }
    string text;
    for (auto const& x : raw) {
        text += x;
    }
    auto type0 = [&](size_t i) { return parser.get_id_symbol(b->get_token(start + i).m_type_ids_ptr->at(0)); };
    for (int call = 0; call < 2; call++) {
        if (v.to_string() != text) {
            c.fail("to-string", "to_string \"" + escape(v.to_string()) + "\" but the tokens are \"" + escape(text) + "\"");
        }
        // Timestamp
        bool starts_with_ts = !raw.empty() && (type0(0) == kFirstTs || type0(0) == kNewlineTs);
        auto* ts = v.get_timestamp();
        if ((ts != nullptr) != starts_with_ts) {
            c.fail("timestamp", string("get_timestamp is ") + (ts != nullptr ? "set" : "null") + " for " + show_event(record(v)));
        }
        if (ts != nullptr && ts != &b->get_mutable_token(0)) {
            c.fail("timestamp", "get_timestamp isn't the first token");
        }
        // Occurrences
        for (size_t id = 0; id < num_types(parser); id++) {
            vector<ls::Token*> want;
            for (uint32_t i = start; i < b->pos(); i++) {
                if (b->get_token(i).m_type_ids_ptr->at(0) == id) {
                    want.push_back(&b->get_mutable_token(i));
                }
            }
            if (v.get_variables(id) != want) {
                c.fail("get-variables", "get_variables(" + std::to_string(id) + "=" + parser.get_id_symbol(id) + ") has " + std::to_string(v.get_variables(id).size())
                       + " tokens, the event " + std::to_string(want.size()) + " (or other ones): " + show_event(record(v)));
            }
        }
        // Log type
        string logtype;
        for (size_t i = starts_with_ts ? 1 : 0; i < raw.size(); i++) {
            auto t = type0(i);
            if (t == kUncaught) {
                logtype += raw[i];
                continue;
            }
            if (t != kNewline && !raw[i].empty() && schema.delims[static_cast<unsigned char>(raw[i][0])]) {
                logtype += raw[i][0];
            }
            logtype += "<" + t + ">";
        }
        if (v.get_logtype() != logtype) {
            c.fail("logtype", "get_logtype \"" + escape(v.get_logtype()) + "\" expected \"" + escape(logtype) + "\" for " + show_event(record(v)));
        }
        // Multi-line
        size_t body = starts_with_ts ? raw[0].size() : 0;
        auto nl = text.find('\n', body);
        bool multiline = starts_with_ts && nl != string::npos && nl + 1 < text.size();
        if (v.is_multiline() != multiline) {
            c.fail("multiline", "is_multiline is " + std::to_string(v.is_multiline()) + " for " + show_event(record(v)));
        }
        c.count(multiline ? "multiline_events" : "single_line_events");
    }
}

void check_names(Ctx& c, ls::LogParser const& p, RefSchema const& schema) {
    std::set<string> seen;
    for (size_t id = 0; id < num_types(p); id++) {
        string n = p.get_id_symbol(static_cast<uint32_t>(id));
        if (!seen.insert(n).second) {
            c.fail("names", "two ids have the name " + n);
        }
        auto back = p.get_symbol_id(n);
        if (!back.has_value() || *back != id) {
            c.fail("names", "id " + std::to_string(id) + " has the name " + n + " which has another id");
        }
    }
    std::set<string> want{"$end", "$UncaughtString", "int", "float", "hex", kFirstTs, kNewlineTs, kNewline};
    for (auto const& r : schema.rules) {
        if (r.name != "timestamp") {
            want.insert(r.name);
        }
    }
    if (want != seen) {
        c.fail("names", "the parser knows " + std::to_string(seen.size()) + " names, the schema has " + std::to_string(want.size()));
    }
    for (string n : {"", "nosuch", "timestamp", "Int", "in", "intt", "$", "newline"}) {
        if (seen.count(n) == 0 && p.get_symbol_id(n).has_value()) {
            c.fail("names", "unknown name '" + n + "' has an id");
        }
    }
    c.count("name_tables");
}

void c07(Ctx& c, Rng& rng, uint64_t case_no) {
    auto s = make_setup(c, rng);
    check_names(c, s.reader->get_log_parser(), s.schema);
    for (auto const& r : s.schema.rules) {
        if (r.name != "timestamp"
            && (s.reader->get_variable_id(r.name) != s.reader->get_log_parser().get_symbol_id(r.name)
                || s.buffer->get_variable_id(r.name) != s.buffer->get_log_parser().get_symbol_id(r.name) || !s.reader->get_variable_id(r.name).has_value()))
        {
            c.fail("names", "get_variable_id and get_symbol_id disagree on " + r.name);
        }
    }
    int logs = kSmall ? 25 : 8;
    for (int i = 0; i < logs; i++) {
        string log = rng.chance(30) ? dense_log(rng, *s.gen) : any_log(rng, *s.gen);
        for (char& ch : log) {
            ch = ch == '\xFD' ? 'f' : ch;
        }
        if (!kSmall && i == 0 && (case_no / 8) % 4 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf / 2));
        }
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        uint64_t n = 0;
        auto fn = [&](ls::LogEventView const& v) {
            check_accessors(c, v, s.schema);
            n++;
        };
        auto r = run_reader(*s.reader, log, d, rng.next(), fn);
        check_ended(c, r, "ReaderParser");
        note_run(c, r, log);
        c.set_context(case_context(s.schema, log, "buffer"));
        auto b = run_buffer(*s.buffer, log, fn);
        check_ended(c, b, "BufferParser");
        c.evaluated(run_hash(s.schema, log, ""), interesting(r.events));
        c.count("events_checked", n);
        if (c.wants_sample() && r.events.size() > 2 && log.size() < 200) {
            c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log));
        }
    }
}

// ---- C12 ----------------------------------------------------------------------------------------

void touch(ls::LogEventView const& v, uint64_t& sum) {
    auto const& b = v.get_log_output_buffer();
    for (uint32_t i = first_token(v); i < b->pos(); i++) {
        auto& t = b->get_mutable_token(i);
        for (char ch : t.to_string_view()) {
            sum = sum * 31 + static_cast<unsigned char>(ch);
        }
        sum += t.get_length();
        if (t.get_length() > 0) {
            sum += static_cast<unsigned char>(t.get_char(0)) + static_cast<unsigned char>(t.get_delimiter()[0]);
            sum += static_cast<unsigned char>(t.get_char(t.get_length() - 1));
        }
        for (auto id : *t.m_type_ids_ptr) {
            sum += v.get_log_parser().get_id_symbol(id).size();
        }
        sum += t.to_string().size();
    }
    sum += v.to_string().size() + v.get_logtype().size() + (v.is_multiline() ? 1 : 0);
    if (auto* t = v.get_timestamp(); t != nullptr) {
        sum += t->to_string_view().size();
    }
    for (size_t id = 0; id < num_types(v.get_log_parser()); id++) {
        for (auto* t : v.get_variables(id)) {
            sum += t->get_length();
        }
    }
}

RefSchema hostile_schema(Rng& rng) {
    // Timestamps that contain delimiters and newlines, nullable variables, rules matching most bytes
    RefSchema s = random_schema(rng);
    if (rng.chance(50)) {
        static vector<string> const pats{"a\\nb", "\\n", "(\\n)*x", ".*", "[^q]+", ".{1,3}\\n.", "\\s+", "(a|b\\n)*c", "\\d*"};
        auto n = 1 + rng.below(3);
        for (uint64_t i = 0; i < n; i++) {
            s.text += (s.text.back() == '\n' ? "" : "\n") + string("timestamp:") + rng.pick(pats) + "\n";
        }
        if (s.text.find("\r\n") != string::npos) {
            string t;
            for (char ch : s.text) {
                if (ch != '\r') {
                    t += ch;
                }
            }
            s.text = t;
        }
    }
    return s;
}

void c12(Ctx& c, Rng& rng, uint64_t case_no) {
    Setup s;
    bool no_newline_delim = false;
    s.schema = rng.chance(50) ? hostile_schema(rng) : random_schema(rng);
    if (rng.chance(10)) {
        // No newline among the delimiters
        s.schema.text = "delimiters: :\n" + string(rng.chance(50) ? "timestamp:\\d+:\\d+\n" : "") + "v:[^ :]+\nint:\\d+";
        no_newline_delim = true;
    }
    c.set_context("building parser, schema=" + escape(s.schema.text, 1500));
    s.reader = std::make_unique<ls::ReaderParser>(make_ast(s.schema));
    s.buffer = std::make_unique<ls::BufferParser>(make_ast(s.schema));
    s.gen = std::make_unique<LogGen>(s.schema);
    c.count("schemas");
    if (no_newline_delim) {
        c.count("schemas_without_newline_delimiter");
    }
    int logs = kSmall ? 30 : 12;
    uint64_t sum = 0;
    for (int i = 0; i < logs; i++) {
        string log;
        switch (rng.below(6)) {
            case 0:
                log = dense_log(rng, *s.gen);
                break;
            case 1:
                log = model_log(rng, *s.gen);
                break;
            case 2: {
                string all;
                for (int k = 0; k < 256; k++) {
                    all += static_cast<char>(k);
                }
                log = random_bytes(rng, s.gen->random_size(rng), all + s.gen->log(rng, 300));
                break;
            }
            case 3:
                log = random_bytes(rng, s.gen->random_size(rng), string("\xFD\xFF\xFE\0\n", 5) + dense_log(rng, *s.gen));
                break;
            default:
                log = any_log(rng, *s.gen);
        }
        if (!kSmall && i == 0 && (case_no / 8) % 4 == 0) {
            log = many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf / 2));
        }
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, log, "reader " + d.show()));
        Run r;
        r.feed.data = log;
        r.feed.delivery = d;
        r.feed.rng = rng.fork();
        size_t max_event = 0;
        uint64_t n = 0;
        run_reader(*s.reader, r, [&](auto const& v) {
            touch(v, sum);
            max_event = std::max(max_event, v.to_string().size());
            n++;
        }, UINT64_MAX, false);
        check_ended(c, r, "ReaderParser");
        // Calls to the reader: every one delivers something, except those at the end
        if (r.feed.calls > log.size() + 4) {
            c.fail("reader-calls", std::to_string(r.feed.calls) + " calls of the reader for " + std::to_string(log.size()) + " bytes");
        }
        c.count("events", n);
        c.count("bytes", log.size());
        c.count("reader_calls", r.feed.calls);
        c.evaluated(run_hash(s.schema, log, d.show()), n > 0 && log.size() > 1);
        if (c.wants_sample() && n > 2 && log.size() < 150) {
            c.sample("schema:\n" + s.schema.text + "\nlog: " + escape(log));
        }
        c.set_context(case_context(s.schema, log, "buffer"));
        auto b = run_buffer(*s.buffer, log, [&](auto const& v) { touch(v, sum); }, false);
        check_ended(c, b, "BufferParser");
        if (log.size() < 1500) {
            c.set_context(case_context(s.schema, log, "windows"));
            // Only memory safety and termination are of interest with these schemas
            auto o = random_windows(rng, log.size());
            o.move = true;
            try {
                run_windows(c, *s.buffer, log, o, rng, [&](auto const& v) { touch(v, sum); });
            } catch (CaseFailed const&) {
                auto key = c.violations.back().key;
                if (key == "no-termination" || key == "unexpected-error" || key == "offset-range" || key == "out-of-bounds-when-finished") {
                    throw;
                }
                c.violations.pop_back();
            }
        }
    }
    // Memory stays bounded by the longest event over a long input
    {
        size_t reps = kSmall ? 400 : 40;
        string piece = s.gen->log(rng, 40 + rng.below(kBuf));
        if (piece.size() > 3000 && kSmall) {
            piece.resize(3000);
        }
        if (rng.chance(40) && (kSmall || (case_no / 8) % 8 == 0)) {
            // Events for which the buffers grow
            piece = rng.chance(70) ? many_tokens_log(rng, *s.gen, kBuf + rng.below(kBuf)) : string(kBuf + rng.below(2 * kBuf), 'z');
            c.count("memory_runs_long_events");
        }
        piece += "\n";
        string log;
        for (size_t k = 0; k < reps && log.size() < 2'000'000; k++) {
            log += piece;
        }
        c.set_context(case_context(s.schema, piece, "memory over " + std::to_string(reps) + " repetitions"));
        Run r;
        r.feed.data = log;
        r.feed.delivery = Delivery{};
        size_t max_event = 0;
        size_t base = 0;
        size_t peak = 0;
        size_t max_tokens = 0;
        uint64_t n = 0;
        uint64_t every = kSmall ? 16 : 4;
        auto reader = r.feed.reader();
        s.reader->reset_and_set_reader(reader);
        base = allocated_bytes();
        while (!s.reader->done()) {
            if (s.reader->parse_next_event() != ErrorCode::Success || ++n > max_events(log.size())) {
                c.fail("unexpected-error", "error or no end on a long input");
            }
            auto const& v = s.reader->get_log_parser().get_log_event_view();
            max_tokens = std::max<size_t>(max_tokens, num_tokens(v));
            size_t bytes = 0;
            auto const& ob = v.get_log_output_buffer();
            for (uint32_t k = first_token(v); k < ob->pos(); k++) {
                bytes += ob->get_token(k).get_length();
            }
            max_event = std::max(max_event, bytes);
            if (n % every == 0 || bytes == max_event) {
                size_t now = allocated_bytes();
                peak = std::max(peak, now > base ? now - base : 0);
            }
        }
        // Buffers double, and tokens take on the order of a hundred bytes each
        size_t bound = 64 * 1024 + 16 * kBuf + 32 * max_event + 1000 * max_tokens;
        c.maximum("peak_allocated_bytes", peak);
        c.count("memory_runs");
        if (peak > bound) {
            c.fail("memory", "parsing " + std::to_string(log.size()) + " bytes with events of at most " + std::to_string(max_event) + " bytes and "
                   + std::to_string(max_tokens) + " tokens allocated " + std::to_string(peak) + " bytes");
        }
    }
    c.count("checksum", sum & 1);
}

// ---- C14 ----------------------------------------------------------------------------------------

void c14(Ctx& c, Rng& rng, uint64_t) {
    auto s = make_setup(c, rng, true, true, false);
    // What new parsers make of each probe
    struct Probe {
        string log;
        vector<FullRec> want;
    };

    vector<Probe> probes;
    auto full_reader = [&](ls::ReaderParser& p, string const& log, Delivery d, uint64_t seed) {
        vector<FullRec> out;
        auto r = run_reader(p, log, d, seed, [&](auto const& v) { out.push_back(record_full(v)); }, false);
        check_ended(c, r, "ReaderParser");
        return out;
    };
    auto full_buffer = [&](ls::BufferParser& p, string const& log, bool reset_first) {
        vector<FullRec> out;
        if (reset_first) {
            p.reset();
        }
        std::unique_ptr<char[]> buf(new char[log.size()]);
        memcpy(buf.get(), log.data(), log.size());
        size_t offset = 0;
        uint64_t n = 0;
        while (!p.done()) {
            if (p.parse_next_event(buf.get(), log.size(), offset, true) != ErrorCode::Success || ++n > max_events(log.size())) {
                c.fail("unexpected-error", "BufferParser fails on the finished input");
            }
            out.push_back(record_full(p.get_log_parser().get_log_event_view()));
        }
        return out;
    };
    for (int i = 0; i < 3; i++) {
        Probe p;
        do {
            p.log = i == 0 ? dense_log(rng, *s.gen) : i == 1 ? s.gen->log(rng, 100) : boundary_log(rng, *s.gen);
        } while (p.log.empty());
        c.set_context(case_context(s.schema, p.log, "new reader parser"));
        ls::ReaderParser fresh{make_ast(s.schema)};
        p.want = full_reader(fresh, p.log, Delivery{}, 1);
        if (i == 0) {
            ls::BufferParser fresh_b{make_ast(s.schema)};
            auto w = full_buffer(fresh_b, p.log, false);
            if (w != p.want) {
                c.fail("new-parsers-differ", "a new BufferParser and a new ReaderParser differ");
            }
        }
        probes.push_back(p);
    }
    auto compare = [&](vector<FullRec> const& got, Probe const& p, string const& history) {
        size_t i = 0;
        while (i < got.size() && i < p.want.size() && got[i] == p.want[i] && got[i].lines == p.want[i].lines) {
            c.count("token_lines_compared", got[i].lines.size());
            i++;
        }
        if (i == got.size() && i == p.want.size()) {
            return;
        }
        c.fail("reset", "after " + history + " the parser differs from a new one at event " + std::to_string(i) + ":\n  got "
               + (i < got.size() ? show_full(got[i]) : "<none>") + "\n  new " + (i < p.want.size() ? show_full(p.want[i]) : "<none>"));
    };
    int rounds = kSmall ? 40 : 12;
    for (int i = 0; i < rounds; i++) {
        string history;
        uint64_t h = 0;
        auto steps = rng.below(4);
        // Reader parser: abandon inputs after some events, at an error, or before the first
        for (uint64_t k = 0; k < steps; k++) {
            string log = any_log(rng, *s.gen);
            Run r;
            r.feed.data = log;
            r.feed.delivery = random_delivery(rng);
            r.feed.rng = rng.fork();
            if (rng.chance(30)) {
                r.feed.fail_at = static_cast<int64_t>(rng.below(4));
                r.feed.partial_on_fail = rng.chance(50);
                r.feed.fail_by_exception = rng.chance(25);
            }
            uint64_t limit = rng.chance(30) ? UINT64_MAX : rng.below(6);
            c.set_context(case_context(s.schema, log, "abandoned after " + std::to_string(limit)));
            try {
                run_reader(*s.reader, r, {}, limit, false);
                // What further calls do is up to the parser, but reset must undo it
                for (auto more = rng.chance(20) ? rng.below(3) : 0; more > 0; more--) {
                    (void)s.reader->parse_next_event();
                }
            } catch (ReaderThrew const&) {
                c.count("readers_that_threw");
            }
            history += "[" + escape(log, 80) + " limit " + std::to_string(limit) + " fail_at " + std::to_string(r.feed.fail_at)
                       + (r.feed.fail_by_exception ? " throwing" : "") + "]";
            h = hash_str(log, h + limit);
            c.count("abandoned_inputs");
        }
        auto const& p = rng.pick(probes);
        auto d = random_delivery(rng);
        c.set_context(case_context(s.schema, p.log, "reader after " + history));
        compare(full_reader(*s.reader, p.log, d, rng.next()), p, history);
        c.count("probes_after_reset");
        c.evaluated(hash_str(history, run_hash(s.schema, p.log, "r")), steps > 0);
        // Buffer parser
        history.clear();
        steps = rng.below(4);
        for (uint64_t k = 0; k < steps; k++) {
            string log = any_log(rng, *s.gen);
            std::unique_ptr<char[]> buf(new char[log.size()]);
            memcpy(buf.get(), log.data(), log.size());
            size_t offset = rng.chance(20) ? rng.below(log.size() + 1) : 0;
            bool fin = rng.chance(40);
            uint64_t limit = rng.below(6);
            c.set_context(case_context(s.schema, log, "buffer abandoned"));
            s.buffer->reset();
            for (uint64_t e = 0; e < limit && !s.buffer->done(); e++) {
                if (s.buffer->parse_next_event(buf.get(), log.size(), offset, fin) != ErrorCode::Success) {
                    break;
                }
            }
            history += "[" + escape(log, 80) + " limit " + std::to_string(limit) + " finished " + std::to_string(fin) + "]";
            c.count("abandoned_inputs");
        }
        auto const& q = rng.pick(probes);
        c.set_context(case_context(s.schema, q.log, "buffer after " + history));
        compare(full_buffer(*s.buffer, q.log, true), q, history);
        c.count("probes_after_reset");
        c.evaluated(hash_str(history, run_hash(s.schema, q.log, "b")), steps > 0);
        if (c.wants_sample() && steps > 1) {
            c.sample("schema:\n" + s.schema.text + "\nafter abandoning " + history + "\nprobe " + escape(q.log, 200));
        }
    }
}

// ---- C15 ----------------------------------------------------------------------------------------

void c15(Ctx& c, Rng& rng, uint64_t case_no) {
    auto s = make_setup(c, rng, false, true);
    static vector<ErrorCode> const codes{ErrorCode::Errno, ErrorCode::BadParam, ErrorCode::NotInit, ErrorCode::FileNotFound, ErrorCode::Truncated,
                                         ErrorCode::LogFullyConsumed, ErrorCode::BufferOutOfBounds};
    int logs = kSmall ? 6 : 3;
    for (int i = 0; i < logs; i++) {
        string log = any_log(rng, *s.gen);
        if (kSmall && log.size() < kBuf && rng.chance(60)) {
            log += filler(rng, *s.gen, kBuf * (1 + rng.below(4)), static_cast<int>(rng.below(5)));
        }
        if (!kSmall && rng.chance(70)) {
            log += filler(rng, *s.gen, kBuf * (1 + rng.below(3)), static_cast<int>(rng.below(5)));
        }
        auto d = random_delivery(rng);
        if (log.size() > 4000 && d.kind != Delivery::Full) {
            d.size = d.size + log.size() / 8;
        }
        uint64_t seed = rng.next();
        c.set_context(case_context(s.schema, log, "no errors, " + d.show()));
        auto clean = run_reader(*s.reader, log, d, seed);
        check_ended(c, clean, "ReaderParser");
        if (clean.feed.calls_after_eof != 0) {
            c.fail("read-after-eof", "the reader was called " + std::to_string(clean.feed.calls_after_eof) + " times after it reported the end of the input");
        }
        // After done, another call doesn't touch the reader either
        uint64_t calls = clean.feed.calls;
        c.count("clean_runs");
        c.count("reader_calls", calls);
        vector<uint64_t> at;
        for (uint64_t k = 0; k < calls && k < 30; k++) {
            at.push_back(calls <= 30 ? k : rng.below(calls));
        }
        for (auto k : at) {
            Run r;
            r.feed.data = log;
            r.feed.delivery = d;
            r.feed.rng = Rng{seed};
            r.feed.fail_at = static_cast<int64_t>(k);
            r.feed.fail_with = codes[rng.below(codes.size())];
            r.feed.partial_on_fail = rng.chance(30);
            c.set_context(case_context(s.schema, log, d.show() + " error " + std::to_string(static_cast<int>(r.feed.fail_with)) + " at read " + std::to_string(k)));
            run_reader(*s.reader, r);
            if (!r.feed.failed) {
                c.fail("different-reads", "read " + std::to_string(k) + " was not repeated in a second run");
            }
            if (r.error != r.feed.fail_with) {
                c.fail("error-lost", "read " + std::to_string(k) + " of " + std::to_string(calls) + " failed with " + std::to_string(static_cast<int>(r.feed.fail_with))
                       + " in the call for event " + std::to_string(r.feed.fail_in_event) + " but the parser returned " + std::to_string(static_cast<int>(r.error))
                       + " after " + std::to_string(r.events.size()) + " events, done=" + std::to_string(r.done));
            }
            if (r.events.size() != r.feed.fail_in_event) {
                c.fail("error-late", "the call in which the read failed was for event " + std::to_string(r.feed.fail_in_event) + " but it returned after "
                       + std::to_string(r.events.size()) + " events");
            }
            if (r.feed.calls != k + 1) {
                c.fail("read-after-error", "the reader was called again in the call in which it failed");
            }
            for (size_t e = 0; e < r.events.size(); e++) {
                if (e >= clean.events.size() || !(r.events[e] == clean.events[e])) {
                    c.fail("events-before-error", diff_events(r.events, clean.events));
                }
            }
            if (s.reader->done()) {
                c.fail("done-after-error", "done after an error");
            }
            c.count("injected_errors");
            c.count("events_before_errors", r.events.size());
            c.evaluated(hash_str(std::to_string(k) + "/" + std::to_string(static_cast<int>(r.feed.fail_with)), run_hash(s.schema, log, d.show())), log.size() > 1);
        }
        // Works as new afterwards
        c.set_context(case_context(s.schema, log, "after errors, " + d.show()));
        auto again = run_reader(*s.reader, log, d, seed);
        check_ended(c, again, "ReaderParser after errors");
        if (again.events != clean.events) {
            c.fail("reset-after-error", diff_events(again.events, clean.events));
        }
        if (c.wants_sample()) {
            c.sample("schema:\n" + s.schema.text + "\nlog of " + std::to_string(log.size()) + " bytes, delivery " + d.show() + ", errors injected at " + std::to_string(at.size()) + " of "
                     + std::to_string(calls) + " reads; log starts " + escape(log, 200));
        }
    }
    (void)case_no;
}
}  // namespace

int main(int argc, char** argv) {
    auto c = parse_args(argc, argv);
    auto fn = [](Ctx& ctx, Rng& rng, uint64_t i) {
        if (ctx.prop == "C01") {
            c01(ctx, rng, i);
        } else if (ctx.prop == "C02") {
            c02_c03(ctx, rng, i, false);
        } else if (ctx.prop == "C03") {
            c02_c03(ctx, rng, i, true);
        } else if (ctx.prop == "C04") {
            c04(ctx, rng, i);
        } else if (ctx.prop == "C05") {
            c05(ctx, rng, i);
        } else if (ctx.prop == "C06") {
            c06(ctx, rng, i);
        } else if (ctx.prop == "C07") {
            c07(ctx, rng, i);
        } else if (ctx.prop == "C12") {
            c12(ctx, rng, i);
        } else if (ctx.prop == "C14") {
            c14(ctx, rng, i);
        } else if (ctx.prop == "C15") {
            c15(ctx, rng, i);
        } else {
            fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
            exit(2);
        }
    };
    return run_cases(c, fn);
}
