// Shared by the harnesses that parse logs: schemas with parsers, log generation, event records.
#pragma once
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#endif
#ifndef VERIF_ASAN
#define VERIF_ASAN 0
#endif
#include <cstddef>

#if VERIF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();  // GCC has no header for it
#else
#include <malloc.h>
#endif

#include "sut.hpp"

using namespace verif;

namespace {
bool const kSmall = kBuf < 10000;

size_t allocated_bytes() {
#if VERIF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return mallinfo2().uordblks + mallinfo2().hblkhd;
#endif
}

// A schema with the parsers built from it
struct Setup {
    RefSchema schema;
    std::unique_ptr<ls::ReaderParser> reader;
    std::unique_ptr<ls::BufferParser> buffer;
    std::unique_ptr<LogGen> gen;
    std::unique_ptr<RefParser> ref;
};

RefSchema fixed_schema(int which) {
    RefSchema s;
    string d = which == 1 ? " \n" : " \t\r\n:,!;%";
    for (unsigned char c : d) {
        s.delims.set(c);
    }
    auto add = [&](string const& n, ReP r) {
        s.rules.push_back({n, r, print_re(*r)});
    };
    if (which != 2) {
        add("timestamp", re_kind(Re::Cat, {dig(4), re_lit('-'), dig(2), re_lit(' '), dig(2), re_lit(':'), dig(2)}));
    }
    add("timestamp", re_kind(Re::Cat, {re_lit('['), lib_digits(), re_lit(']')}));
    add("int", lib_int());
    add("float", lib_float());
    add("hex", lib_hex());
    add("equals", lib_equals());
    add("hasNumber", lib_has_number());
    Rng r{7};
    s.text = write_schema(r, s, d, false, nullptr, false);
    return s;
}

Setup make_setup(Ctx& c, Rng& rng, bool want_buffer = true, bool want_reader = true, bool many_rules = true, bool newline_free = true) {
    Setup s;
    SchemaGenOptions o;
    o.many_rules = many_rules;
    o.newline_free = newline_free;
    s.schema = rng.chance(12) ? fixed_schema(static_cast<int>(rng.below(3))) : random_schema(rng, o);
    c.set_context("building parser, schema=" + escape(s.schema.text, 1500));
    if (want_reader) {
        s.reader = std::make_unique<ls::ReaderParser>(make_ast(s.schema));
    }
    if (want_buffer) {
        s.buffer = std::make_unique<ls::BufferParser>(make_ast(s.schema));
    }
    s.gen = std::make_unique<LogGen>(s.schema);
    s.ref = std::make_unique<RefParser>(s.schema);
    c.count("schemas");
    if (!s.schema.delims['\n']) {
        c.count("schemas_without_newline_delimiter");
    }
    return s;
}

// Text that brings the position to `len`: short lines, one long line, or one long event.
string filler(Rng& rng, LogGen const& g, size_t len, int style) {
    string x;
    if (len == 0) {
        return x;
    }
    if (style == 0) {
        while (x.size() < len) {
            x += "w" + string(rng.below(30), 'k') + "\n";
        }
    } else if (style == 1) {
        x = string(len, 'L');
    } else if (style == 4) {
        while (x.size() < len) {
            x += rng.chance(90) ? "\n" : "x\n";
        }
    } else if (style == 2) {
        while (x.size() < len) {
            x += g.line(rng, 6) + "\n";
        }
    } else {
        x = g.timestamp(rng) + " ";
        while (x.size() < len) {
            x += rng.chance(20) ? "zz\n" : "1 zq ";
        }
    }
    x.resize(len);
    x.back() = '\n';
    return x;
}

// A log that places a rich piece of text around a boundary of the internal buffer
string boundary_log(Rng& rng, LogGen const& g) {
    string base = g.log(rng, 10 + rng.below(120));
    size_t half = kBuf / 2;
    size_t m = 1 + rng.below(kSmall ? 9 : 5);
    size_t target = m * half;
    size_t j = rng.below(base.size() + 3);
    size_t len = target > j ? target - j : 0;
    string x = filler(rng, g, len, static_cast<int>(rng.below(5))) + base;
    if (rng.chance(50)) {
        x += filler(rng, g, rng.below(kBuf), static_cast<int>(rng.below(5))) + g.log(rng, rng.below(60));
    }
    return x;
}

// A log for model-based checks (no reserved pseudo characters)
string model_log(Rng& rng, LogGen const& g) {
    int k = rng.below(100);
    if (kSmall) {
        return k < 75 ? g.log(rng, g.random_size(rng)) : boundary_log(rng, g);
    }
    return k < 60 ? g.log(rng, g.random_size(rng)) : boundary_log(rng, g);
}

string any_log(Rng& rng, LogGen const& g) {
    if (rng.chance(70)) {
        return model_log(rng, g);
    }
    string x = random_bytes(rng, g.random_size(rng), g.log(rng, 300));
    if (rng.chance(15)) {
        x = filler(rng, g, kBuf / 2 + rng.below(kBuf), static_cast<int>(rng.below(5))) + x;
    }
    return x;
}

// One event with more tokens than the output buffer holds
string many_tokens_log(Rng& rng, LogGen const& g, size_t tokens) {
    string x = g.ts.empty() ? "" : sample_re(*rng.pick(g.ts), rng, {}, g.avoid);
    if (g.vars.empty()) {
        return x + string(tokens, 'x') + "\n";
    }
    vector<string> words;
    for (int i = 0; i < 20; i++) {
        words.push_back(sample_re(*rng.pick(g.vars), rng, g.dot_excludes, g.avoid).substr(0, 12));
    }
    for (size_t i = 0; i < tokens; i++) {
        x += (g.delims.empty() ? ' ' : rng.pick(g.delims));
        x += rng.pick(words);
    }
    x += "\n";
    x += g.log(rng, 50);
    return x;
}

void check_ended(Ctx& c, Run const& r, string const& who) {
    if (r.too_many) {
        c.fail("no-termination", who + " returned more events than the input has bytes without being done");
    }
    if (r.error != ErrorCode::Success) {
        c.fail("unexpected-error", who + " returned error code " + std::to_string(static_cast<int>(r.error)));
    }
    if (!r.done) {
        c.fail("not-done", who + " stopped without being done");
    }
}

void note_run(Ctx& c, Run const& r, string_view log) {
    c.count("events", r.events.size());
    uint64_t tokens = 0;
    uint64_t vars = 0;
    uint64_t multi = 0;
    for (auto const& e : r.events) {
        tokens += e.tokens.size();
        multi += e.has_timestamp ? 1 : 0;
        for (auto const& t : e.tokens) {
            vars += t.types[0] != kUncaught && t.types[0] != kNewline ? 1 : 0;
        }
        c.maximum("tokens_per_event", e.tokens.size());
    }
    c.count("tokens", tokens);
    c.count("variable_tokens", vars);
    c.count("events_with_timestamp", multi);
    c.count("bytes", log.size());
    c.count("logs");
    c.maximum("log_bytes", log.size());
}

uint64_t run_hash(RefSchema const& s, string_view log, string const& how) {
    return hash_str(how, hash_str(log, hash_str(s.text)));
}

bool interesting(vector<EventRec> const& ev) {
    size_t n = 0;
    for (auto const& e : ev) {
        n += e.tokens.size();
    }
    return n >= 3;
}

// ---- C06 ----------------------------------------------------------------------------------------

// Everything the public interface shows of an event
struct FullRec {
    EventRec ev;
    string text;
    string logtype;
    bool multiline{false};
    bool has_ts{false};
    string ts;
    vector<vector<string>> vars;
    vector<uint32_t> lines;  // where each token says it is: not compared here, since copies don't keep it

    bool operator==(FullRec const& o) const {
        return ev == o.ev && text == o.text && logtype == o.logtype && multiline == o.multiline && has_ts == o.has_ts && ts == o.ts
               && vars == o.vars;
    }
};

size_t num_types(ls::LogParser const& p) {
    return p.m_lexer.m_id_symbol.size();
}

FullRec record_full(ls::LogEventView const& v) {
    FullRec r;
    r.ev = record(v);
    r.text = v.to_string();
    r.logtype = v.get_logtype();
    r.multiline = v.is_multiline();
    if (auto* t = v.get_timestamp(); t != nullptr) {
        r.has_ts = true;
        r.ts = t->to_string();
    }
    for (size_t id = 0; id < num_types(v.get_log_parser()); id++) {
        vector<string> xs;
        for (auto* t : v.get_variables(id)) {
            xs.push_back(t->to_string());
        }
        r.vars.push_back(xs);
    }
    r.lines = record_lines(v);
    return r;
}

string show_full(FullRec const& r) {
    string s = show_event(r.ev) + " text=" + escape(r.text, 200) + " logtype=" + escape(r.logtype, 200) + " multiline=" + std::to_string(r.multiline)
               + " ts=" + (r.has_ts ? escape(r.ts) : "-") + " vars=";
    for (size_t i = 0; i < r.vars.size(); i++) {
        for (auto const& x : r.vars[i]) {
            s += std::to_string(i) + ":" + escape(x, 40) + " ";
        }
    }
    s += " lines=";
    for (auto l : r.lines) {
        s += std::to_string(l) + " ";
    }
    return s;
}

struct Copies {
    struct Item {
        FullRec want;
        std::unique_ptr<ls::LogEvent> copy;
        int kind;
    };

    vector<Item> items;

    void take(Ctx& c, ls::LogEventView const& v, Rng& rng) {
        if (v.to_string().empty()) {
            return;
        }
        Item it;
        it.want = record_full(v);
        it.kind = static_cast<int>(rng.below(4));
        if (it.kind == 0) {
            it.copy = std::make_unique<ls::LogEvent>(v);
        } else if (it.kind == 1) {
            it.copy = std::make_unique<ls::LogEvent>(v.deep_copy());
        } else if (it.kind == 2) {
            ls::LogEvent e{v.deep_copy()};
            it.copy = std::make_unique<ls::LogEvent>(std::move(e));
        } else {
            ls::LogEvent e{v};
            it.copy = std::make_unique<ls::LogEvent>(e.deep_copy());
        }
        // Taking the copy must not change the view
        if (!(record_full(v) == it.want)) {
            c.fail("view-changed", "copying changed the view: " + show_full(record_full(v)) + "\n expected " + show_full(it.want));
        }
        check(c, it, "right after copying");
        items.push_back(std::move(it));
        c.count("copies");
    }

    static void check(Ctx& c, Item const& it, string const& when) {
        auto got = record_full(*it.copy);
        if (!(got == it.want)) {
            c.fail("copy-differs", when + " (kind " + std::to_string(it.kind) + ") the copy is\n  " + show_full(got) + "\n  but the view was\n  " + show_full(it.want));
        }
        // Tokens must lie in memory of the copy
        auto const& b = it.copy->get_log_output_buffer();
        for (uint32_t i = first_token(*it.copy); i < b->pos(); i++) {
            auto const& t = b->get_token(i);
            if (t.get_length() != it.want.ev.tokens[i - first_token(*it.copy)].text.size()) {
                c.fail("copy-differs", "token length");
            }
        }
    }

    void check_all(Ctx& c, string const& when) {
        for (auto const& it : items) {
            check(c, it, when);
            c.count("copy_checks");
        }
    }
};

}  // namespace
