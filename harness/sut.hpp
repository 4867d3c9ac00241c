// Adapters to the code under test: readers with chosen delivery, and recording of what the public
// interface shows of each event.
#ifndef VERIF_SUT_HPP
#define VERIF_SUT_HPP

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/Constants.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>
#include <log_surgeon/SchemaParser.hpp>

#include "gen.hpp"

namespace verif {
namespace ls = log_surgeon;
using ls::ErrorCode;

constexpr size_t kBuf = ls::cStaticByteBuffSize;

// How a reader delivers its input
struct Delivery {
    enum Kind {
        Full,  // as much as asked for
        Fixed,  // at most `size` bytes at a time
        Random  // 1..size bytes at a time
    } kind{Full};

    size_t size{0};
    bool eof_as_zero_success{false};  // report the end as zero bytes read instead of EndOfFile

    [[nodiscard]] string show() const {
        return (kind == Full ? string("full") : (kind == Fixed ? "fixed" : "random") + std::to_string(size))
               + (eof_as_zero_success ? "/zero" : "");
    }
};

inline Delivery random_delivery(Rng& rng) {
    Delivery d;
    d.eof_as_zero_success = rng.chance(30);
    switch (rng.below(5)) {
        case 0:
            break;
        case 1:
            d.kind = Delivery::Fixed;
            d.size = 1;
            break;
        case 2:
            d.kind = Delivery::Fixed;
            d.size = 1 + rng.below(kBuf);
            break;
        case 3:
            d.kind = Delivery::Random;
            d.size = 1 + rng.below(kBuf);
            break;
        default:
            d.kind = Delivery::Random;
            d.size = 1 + rng.below(7);
    }
    return d;
}

// A reader over a string that records every call made to it
struct ReaderThrew {};

struct Feed {
    string_view data;
    Delivery delivery;
    Rng rng{0};
    size_t pos{0};
    uint64_t calls{0};
    uint64_t calls_after_eof{0};
    bool reported_eof{false};
    int64_t fail_at{-1};  // index of the call that fails
    ErrorCode fail_with{ErrorCode::Errno};
    bool partial_on_fail{false};
    bool fail_by_exception{false};
    bool failed{false};
    uint64_t fail_in_event{0};
    uint64_t curr_event{0};

    ls::Reader reader() {
        ls::Reader r;
        r.read = [this](char* buf, size_t count, size_t& n) { return read(buf, count, n); };
        return r;
    }

    ErrorCode read(char* buf, size_t count, size_t& n) {
        auto call = calls++;
        if (reported_eof) {
            ++calls_after_eof;
        }
        if (static_cast<int64_t>(call) == fail_at) {
            failed = true;
            fail_in_event = curr_event;
            if (partial_on_fail && pos < data.size()) {
                n = std::min<size_t>(count, 1);
                memcpy(buf, data.data() + pos, n);
            } else {
                n = 0;
            }
            if (fail_by_exception) {
                throw ReaderThrew{};
            }
            return fail_with;
        }
        size_t k = std::min(count, data.size() - pos);
        if (delivery.kind == Delivery::Fixed) {
            k = std::min(k, delivery.size);
        } else if (delivery.kind == Delivery::Random) {
            k = std::min<size_t>(k, 1 + rng.below(delivery.size));
        }
        n = k;
        if (k == 0) {
            if (count > 0) {
                reported_eof = true;
            }
            return delivery.eof_as_zero_success ? ErrorCode::Success : ErrorCode::EndOfFile;
        }
        memcpy(buf, data.data() + pos, k);
        pos += k;
        return ErrorCode::Success;
    }
};

inline uint32_t first_token(ls::LogEventView const& v) {
    return v.get_log_output_buffer()->has_timestamp() ? 0 : 1;
}

inline uint32_t num_tokens(ls::LogEventView const& v) {
    auto p = v.get_log_output_buffer()->pos();
    auto s = first_token(v);
    return p > s ? p - s : 0;
}

inline vector<string> type_names(ls::LogParser const& p, ls::Token const& t) {
    vector<string> names;
    for (auto id : *t.m_type_ids_ptr) {
        names.push_back(p.get_id_symbol(id));
    }
    return names;
}

inline EventRec record(ls::LogEventView const& v) {
    EventRec e;
    auto const& b = v.get_log_output_buffer();
    e.has_timestamp = b->has_timestamp();
    for (uint32_t i = first_token(v); i < b->pos(); i++) {
        auto& t = b->get_mutable_token(i);
        // The one called first builds the text of a token that wraps around the end of the buffer
        ls::Token fresh{t};
        string text = i % 2 == 0 ? fresh.to_string() : string(fresh.to_string_view());
        if (text != t.to_string_view() || text != t.to_string()) {
            text += "[to_string: " + t.to_string() + ", to_string_view: " + string(t.to_string_view()) + "]";
        }
        e.tokens.push_back({text, type_names(v.get_log_parser(), t)});
    }
    return e;
}

// Bound on the calls that parsing an input may take; more means it does not end.
inline uint64_t max_events(size_t size) {
    return size + 3;
}

// Where each token of an event says it is
inline vector<uint32_t> record_lines(ls::LogEventView const& v) {
    vector<uint32_t> lines;
    auto const& b = v.get_log_output_buffer();
    for (uint32_t i = first_token(v); i < b->pos(); i++) {
        lines.push_back(b->get_token(i).m_line);
    }
    return lines;
}

struct Run {
    vector<EventRec> events;
    vector<vector<uint32_t>> lines;  // of each event's tokens
    bool done{false};
    ErrorCode error{ErrorCode::Success};
    bool too_many{false};
    Feed feed;

    [[nodiscard]] string text() const {
        string s;
        for (auto const& e : events) {
            s += e.text();
        }
        return s;
    }
};

using EventFn = std::function<void(ls::LogEventView const&)>;

// Parses all of the feed's input, or at most `limit` events of it
inline void run_reader(ls::ReaderParser& p, Run& r, EventFn const& on_event = {}, uint64_t limit = UINT64_MAX, bool rec = true) {
    auto reader = r.feed.reader();
    p.reset_and_set_reader(reader);
    uint64_t n = 0;
    while (!p.done() && n < limit) {
        if (n > max_events(r.feed.data.size())) {
            r.too_many = true;
            return;
        }
        r.feed.curr_event = n;
        r.error = p.parse_next_event();
        if (r.error != ErrorCode::Success) {
            return;
        }
        n++;
        auto const& v = p.get_log_parser().get_log_event_view();
        if (rec) {
            r.events.push_back(record(v));
            r.lines.push_back(record_lines(v));
        }
        if (on_event) {
            on_event(v);
        }
    }
    r.done = p.done();
}

inline Run run_reader(ls::ReaderParser& p, string_view data, Delivery d, uint64_t seed, EventFn const& on_event = {}, bool rec = true) {
    Run r;
    r.feed.data = data;
    r.feed.delivery = d;
    r.feed.rng = Rng{seed};
    run_reader(p, r, on_event, UINT64_MAX, rec);
    return r;
}

// Parses all of the input from one exactly sized heap buffer
inline Run run_buffer(ls::BufferParser& p, string_view data, EventFn const& on_event = {}, bool rec = true) {
    Run r;
    p.reset();
    std::unique_ptr<char[]> buf(new char[data.size()]);
    memcpy(buf.get(), data.data(), data.size());
    size_t offset = 0;
    uint64_t n = 0;
    while (!p.done()) {
        if (n > max_events(data.size())) {
            r.too_many = true;
            return r;
        }
        r.error = p.parse_next_event(buf.get(), data.size(), offset, true);
        if (r.error != ErrorCode::Success) {
            return r;
        }
        n++;
        auto const& v = p.get_log_parser().get_log_event_view();
        if (rec) {
            r.events.push_back(record(v));
            r.lines.push_back(record_lines(v));
        }
        if (on_event) {
            on_event(v);
        }
    }
    r.done = true;
    return r;
}

inline string diff_events(vector<EventRec> const& got, vector<EventRec> const& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) {
        i++;
    }
    string s = "first difference at event " + std::to_string(i) + " of " + std::to_string(got.size()) + " (expected "
               + std::to_string(want.size()) + ")";
    s += "\n  got:      " + (i < got.size() ? show_event(got[i]) : "<no event>");
    s += "\n  expected: " + (i < want.size() ? show_event(want[i]) : "<no event>");
    return s;
}

inline string case_context(RefSchema const& s, string_view log, string const& how) {
    return "schema=" + escape(s.text, 1200) + " log=" + escape(log, 1200) + " how=" + how;
}

inline std::unique_ptr<ls::SchemaAST> make_ast(RefSchema const& s) {
    return ls::SchemaParser::try_schema_string(s.text);
}
}  // namespace verif

#endif
