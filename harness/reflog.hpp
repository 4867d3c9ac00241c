// Reference model of log parsing, written from README.md and docs/: works on the whole text at
// once, by looking for the longest match at every place where a token may start. Shares nothing
// with the code under test.
#ifndef VERIF_REFLOG_HPP
#define VERIF_REFLOG_HPP

#include "refregex.hpp"

namespace verif {
struct Rule {
    string name;
    ReP re;
    string text;  // the pattern as written in the schema
};

struct RefSchema {
    Bytes delims;
    vector<Rule> rules;
    string text;  // the whole schema text
};

struct TokRec {
    string text;
    vector<string> types;

    bool operator==(TokRec const& o) const { return text == o.text && types == o.types; }
};

struct EventRec {
    bool has_timestamp{false};
    vector<TokRec> tokens;

    [[nodiscard]] string text() const {
        string s;
        for (auto const& t : tokens) {
            s += t.text;
        }
        return s;
    }

    bool operator==(EventRec const& o) const {
        return has_timestamp == o.has_timestamp && tokens == o.tokens;
    }
};

inline string show_event(EventRec const& e) {
    string s = e.has_timestamp ? "TS{" : "{";
    size_t n = 0;
    for (auto const& t : e.tokens) {
        if (++n > 40) {
            s += "...";
            break;
        }
        s += "[" + escape(t.text, 80) + ":";
        for (size_t i = 0; i < t.types.size(); i++) {
            s += (i ? "," : "") + t.types[i];
        }
        s += "]";
    }
    return s + "}";
}

inline string const kUncaught{"$UncaughtString"};
inline string const kNewline{"newLine"};
inline string const kFirstTs{"firstTimestamp"};
inline string const kNewlineTs{"newLineTimestamp"};

class RefParser {
public:
    explicit RefParser(RefSchema const& s) : m_schema(s) {
        Bytes dot_excludes = s.delims;
        for (auto const& r : s.rules) {
            bool ts = r.name == "timestamp";
            m_is_ts.push_back(ts);
            m_matchers.emplace_back(*r.re, ts ? Bytes{} : dot_excludes);
        }
    }

    [[nodiscard]] vector<EventRec> parse(string_view text) const {
        vector<TokRec> toks = tokenize(text);
        vector<EventRec> events;
        size_t i = 0;
        // The part of a split token that starts the next event
        bool pending = false;
        TokRec stash;
        auto is_ts = [](TokRec const& t) { return t.types[0] == kFirstTs || t.types[0] == kNewlineTs; };
        auto newline = [] { return TokRec{"\n", {kUncaught}}; };
        while (true) {
            EventRec e;
            bool ended = false;
            // An event in which nothing has been put yet
            while (!ended) {
                TokRec t;
                if (pending) {
                    t = stash;
                    pending = false;
                } else if (i < toks.size()) {
                    t = toks[i++];
                    bool starts_with_newline = !t.text.empty() && t.text[0] == '\n';
                    bool plain_newline = t.types[0] == kNewline;
                    bool ends_event = e.has_timestamp ? t.types[0] == kNewlineTs : starts_with_newline;
                    if (ends_event) {
                        if (plain_newline) {
                            e.tokens.push_back(t);
                        } else {
                            e.tokens.push_back(newline());
                            stash = t;
                            stash.text = t.text.substr(1);
                            pending = true;
                        }
                        ended = true;
                        continue;
                    }
                } else {
                    events.push_back(e);
                    return events;
                }
                if (e.tokens.empty()) {
                    e.has_timestamp = is_ts(t);
                }
                e.tokens.push_back(t);
            }
            events.push_back(e);
        }
    }

    struct Candidate {
        uint32_t end{0};
        vector<string> types;
        bool found{false};
    };

    // The longest token starting with the delimiter at `start` (or with the start of the input)
    [[nodiscard]] Candidate longest(string_view t, uint32_t start, bool at_start_of_input) const {
        Candidate best;
        auto consider = [&](uint32_t end, string const& type) {
            if (!best.found || end > best.end) {
                best = Candidate{end, {type}, true};
            } else if (end == best.end && std::find(best.types.begin(), best.types.end(), type) == best.types.end()) {
                best.types.push_back(type);
            }
        };
        bool newline = !at_start_of_input && t[start] == '\n';
        if (newline) {
            consider(start + 1, kNewline);
        }
        uint32_t body = at_start_of_input ? start : start + 1;
        for (size_t r = 0; r < m_matchers.size(); r++) {
            if (m_is_ts[r] ? !newline && !at_start_of_input : newline && !is_delim('\n')) {
                continue;
            }
            string const& type = m_is_ts[r] ? (at_start_of_input ? kFirstTs : kNewlineTs) : m_schema.rules[r].name;
            uint32_t end = 0;
            // A match at the start of the input needs at least a character
            auto ok = [&](uint32_t p) { return (p > start) && (p == t.size() || is_delim(t[p]) || (newline && p == body)); };
            if (m_matchers[r].longest(t, body, ok, end)) {
                consider(end, type);
            }
        }
        return best;
    }

    [[nodiscard]] bool is_delim(char c) const { return m_schema.delims[static_cast<unsigned char>(c)]; }

    [[nodiscard]] vector<TokRec> tokenize(string_view t) const {
        vector<TokRec> out;
        uint32_t last = 0;
        uint32_t pos = 0;
        auto emit = [&](uint32_t start, Candidate const& c) {
            if (start > last) {
                out.push_back({string(t.substr(last, start - last)), {kUncaught}});
            }
            out.push_back({string(t.substr(start, c.end - start)), c.types});
            last = pos = c.end;
        };
        if (auto c = longest(t, 0, true); c.found) {
            emit(0, c);
        }
        while (pos < t.size()) {
            if (is_delim(t[pos]) || t[pos] == '\n') {
                if (auto c = longest(t, pos, false); c.found) {
                    emit(pos, c);
                    continue;
                }
            }
            pos++;
        }
        if (last < t.size()) {
            out.push_back({string(t.substr(last)), {kUncaught}});
        }
        return out;
    }

private:
    RefSchema const& m_schema;
    vector<bool> m_is_ts;
    mutable vector<Deriv> m_matchers;
};
}  // namespace verif

#endif
