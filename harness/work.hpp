// A piece of work for the history and thread properties: build a schema and parsers in one of several
// ways and parse logs, in small steps; everything observable goes into a transcript.
#ifndef VERIF_WORK_HPP
#define VERIF_WORK_HPP

#include "automata.hpp"
#include "refschema.hpp"

namespace verif {
struct WorkItem {
    string schema;
    string added;  // variable to add, if any
    vector<string> logs;
    int how{0};  // how the schema is given and which parser is used
    uint64_t seed{0};

    [[nodiscard]] string show() const {
        return "schema=" + escape(schema, 400) + (added.empty() ? "" : " added=" + escape(added)) + " how=" + std::to_string(how);
    }
};

class Work {
public:
    Work(WorkItem const& item, string scratch_file) : m_item(item), m_path(std::move(scratch_file)), m_rng(item.seed) {}

    // Does a step; returns whether there is more to do.
    bool step() {
        switch (m_stage) {
            case 0:
                build();
                return m_stage != 3;
            case 1:
                if (m_log == m_item.logs.size()) {
                    m_stage = 3;
                    m_reader.reset();
                    m_buffer.reset();
                    return false;
                }
                start_log();
                m_stage = 2;
                return true;
            case 2:
                if (!next_event()) {
                    m_log++;
                    m_stage = 1;
                }
                return true;
            default:
                return false;
        }
    }

    void run() {
        while (step()) {
        }
    }

    [[nodiscard]] string const& transcript() const { return m_out; }

private:
    void build() {
        m_stage = 3;
        try {
            AstP ast;
            if (m_item.how % 3 == 0) {
                ast = ls::SchemaParser::try_schema_string(m_item.schema);
                if (!m_item.added.empty()) {
                    auto more = ls::SchemaParser::try_schema_string(m_item.added);
                    if (!more->m_schema_vars.empty()) {
                        ast->add_schema_var(std::move(more->m_schema_vars[0]), -1);
                    }
                }
            } else {
                {
                    std::ofstream f(m_path, std::ios::binary | std::ios::trunc);
                    f << m_item.schema;
                }
                ls::Schema schema{m_path};
                if (!m_item.added.empty()) {
                    schema.add_variable(m_item.added, static_cast<int>(m_rng.below(2)) - 1);
                }
                ast = schema.release_schema_ast_ptr();
            }
            for (auto const& v : ast->m_schema_vars) {
                auto& var = dynamic_cast<ls::SchemaVarAST&>(*v);
                auto text = var.m_regex_ptr->serialize();
                m_out += var.m_name + "@" + std::to_string(var.m_line_num) + "=" + std::to_string(hash_str(string_view(reinterpret_cast<char const*>(text.data()), text.size() * sizeof(text[0])))) + ";";
            }
            for (auto const& d : ast->m_delimiters) {
                for (auto x : dynamic_cast<ls::DelimiterStringAST&>(*d).m_delimiters) {
                    m_out += std::to_string(x) + ",";
                }
            }
            m_out += "\n";
            if (m_item.logs.empty()) {
                return;
            }
            if (m_item.how < 3) {
                m_reader = std::make_unique<ls::ReaderParser>(std::move(ast));
            } else {
                m_buffer = std::make_unique<ls::BufferParser>(std::move(ast));
            }
            auto const& lp = parser();
            for (uint32_t id = 0; id < 60; id++) {
                try {
                    m_out += std::to_string(id) + ":" + lp.get_id_symbol(id) + " ";
                } catch (std::exception const&) {
                    break;
                }
            }
            m_out += "\n";
            m_stage = 1;
        } catch (std::exception const& e) {
            string what = e.what();
            // The scratch file's name may occur in it
            for (auto p = what.find(m_path); !m_path.empty() && p != string::npos; p = what.find(m_path)) {
                what.replace(p, m_path.size(), "FILE");
            }
            m_out += "threw " + what + "\n";
            m_reader.reset();
            m_buffer.reset();
        }
    }

    ls::LogParser const& parser() const { return m_reader != nullptr ? m_reader->get_log_parser() : m_buffer->get_log_parser(); }

    void start_log() {
        m_events = 0;
        if (m_reader != nullptr) {
            m_feed = Feed{};
            m_feed.data = m_item.logs[m_log];
            m_feed.rng = Rng{m_item.seed};
            m_feed.delivery = m_item.seed % 3 == 0 ? Delivery{} : Delivery{Delivery::Random, 1 + m_item.seed % 90, false};
            m_ls_reader = m_feed.reader();
            m_reader->reset_and_set_reader(m_ls_reader);
        } else {
            m_buffer->reset();
            m_offset = 0;
        }
    }

    bool next_event() {
        auto const& log = m_item.logs[m_log];
        bool done = m_reader != nullptr ? m_reader->done() : m_buffer->done();
        if (done || m_events > max_events(log.size())) {
            m_out += done ? "done\n" : "too many events\n";
            return false;
        }
        auto e = m_reader != nullptr ? m_reader->parse_next_event() : m_buffer->parse_next_event(const_cast<char*>(log.data()), log.size(), m_offset, true);
        if (e != ErrorCode::Success) {
            m_out += "error " + std::to_string(static_cast<int>(e)) + "\n";
            return false;
        }
        m_events++;
        auto const& v = parser().get_log_event_view();
        m_out += show_event(record(v)) + (v.is_multiline() ? "M" : "") + v.get_logtype() + "\n";
        return true;
    }

    using AstP = std::unique_ptr<ls::SchemaAST>;

    WorkItem const& m_item;
    string m_path;
    Rng m_rng;
    int m_stage{0};
    size_t m_log{0};
    size_t m_offset{0};
    uint64_t m_events{0};
    Feed m_feed;
    ls::Reader m_ls_reader;
    std::unique_ptr<ls::ReaderParser> m_reader;
    std::unique_ptr<ls::BufferParser> m_buffer;
    string m_out;
};

inline WorkItem random_work(Rng& rng, size_t max_log) {
    WorkItem w;
    w.seed = rng.next();
    w.how = static_cast<int>(rng.below(6));
    switch (rng.below(10)) {
        case 0:  // large, parsed only
            w.schema = random_schema_text(rng, 120, 1);
            return w;
        case 1:  // a syntax error, early or late
            w.schema = mutate_text(rng, random_schema_text(rng, rng.chance(20) ? 80 : 6, 2), 3);
            return w;
        case 2:  // a rule with a delimiter
            w.schema = "delimiters: \\n\n" + string(rng.below(4), '\n') + "a:b\nbad:x y\nc:d";
            w.logs.emplace_back("a b");
            return w;
        case 3:
            w.schema = "a:b";  // no delimiters
            w.logs.emplace_back("a b");
            return w;
        default:
            break;
    }
    RefSchema s = random_schema(rng);
    w.schema = s.text;
    LogGen lg{s};
    auto n = 1 + rng.below(3);
    for (uint64_t i = 0; i < n; i++) {
        w.logs.push_back(lg.log(rng, std::min(max_log, lg.random_size(rng))));
    }
    if (rng.chance(40)) {
        w.added = rng.chance(80) ? "added:z[a-c]+" : "added:z[";
    }
    return w;
}
}  // namespace verif

#endif
