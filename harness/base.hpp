// Common machinery of the harnesses: deterministic case generation, monitors' verdicts, evidence.
//
// A harness process runs the cases [0, n) with case % shards == shard. Everything random in a case
// comes from (seed, property, case number), so that a single case can be replayed with --only.
#ifndef VERIF_BASE_HPP
#define VERIF_BASE_HPP

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace verif {
using std::string;
using std::vector;
using std::string_view;

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

inline uint64_t hash_str(string_view s, uint64_t h = 0xcbf29ce484222325ULL) {
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ULL;
    }
    return mix(h);
}

struct Rng {
    uint64_t s;

    explicit Rng(uint64_t seed) : s(mix(seed)) {}

    uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        return mix(s);
    }

    // Uniform in [0, n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }

    // Uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(hi - lo + 1)); }

    bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }

    template <typename C>
    auto pick(C const& c) -> typename C::value_type const& {
        return c[below(c.size())];
    }

    Rng fork() { return Rng{next()}; }
};

inline string escape(string_view s, size_t limit = 600) {
    string r;
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > limit) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        char buf[8];
        if (c == '\n') {
            r += "\\n";
        } else if (c == '\r') {
            r += "\\r";
        } else if (c == '\t') {
            r += "\\t";
        } else if (c == '\\') {
            r += "\\\\";
        } else if (c < 32 || c >= 127) {
            snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}

inline string json_str(string_view s) {
    string r = "\"";
    for (unsigned char c : s) {
        char buf[8];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c >= 127) {
            snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

// Thrown by a monitor to end the case after reporting a violation.
struct CaseFailed {};

struct Ctx {
    string prop;
    string mode;
    uint64_t seed{1};
    uint64_t cases{100};
    uint64_t shard{0};
    uint64_t shards{1};
    int64_t only{-1};
    bool thorough{false};
    bool verbose{false};
    string out_path;
    string progress_path;
    string scratch;
    // Seconds after which no new case is started
    uint64_t budget{0};

    uint64_t curr_case{0};
    uint64_t evaluations{0};
    std::map<string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    vector<string> samples;

    struct Violation {
        uint64_t case_no;
        string key;
        string message;
    };

    vector<Violation> violations;
    vector<Violation> known;
    // What the current case is doing, shown with violations and crashes
    string context;
    char* progress{nullptr};

    void count(string const& name, uint64_t n = 1) { counters[name] += n; }

    void maximum(string const& name, uint64_t v) {
        auto& c = counters["max_" + name];
        if (v > c) {
            c = v;
        }
    }

    // Records one evaluation; `content` identifies it, `nontrivial` says whether it counts.
    void evaluated(uint64_t content, bool nontrivial) {
        ++evaluations;
        if (nontrivial) {
            distinct.insert(content);
        }
    }

    void sample(string const& s) {
        if (samples.size() < 4) {
            samples.push_back(s.substr(0, 1500));
        }
    }

    [[nodiscard]] bool wants_sample() const { return samples.size() < 4; }

    void fail(string const& key, string const& message) {
        violations.push_back({curr_case, key, message + "\n[" + context + "]"});
        if (verbose) {
            fprintf(stderr, "FAIL %s: %s\n[%s]\n", key.c_str(), message.c_str(), context.c_str());
        }
        throw CaseFailed{};
    }

    void set_progress(string const& what) {
        if (progress != nullptr) {
            size_t n = std::min<size_t>(what.size(), 4000);
            memcpy(progress + 64, what.data(), n);
            progress[64 + n] = 0;
        }
    }

    void set_context(string c) {
        context = std::move(c);
        set_progress(context);
    }
};

inline Ctx parse_args(int argc, char** argv) {
    Ctx c;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i];
        string v = argv[i + 1];
        if (a == "--prop") {
            c.prop = v;
        } else if (a == "--mode") {
            c.mode = v;
        } else if (a == "--seed") {
            c.seed = strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--cases") {
            c.cases = strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--shard") {
            c.shard = strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--shards") {
            c.shards = strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--only") {
            c.only = strtoll(v.c_str(), nullptr, 10);
        } else if (a == "--thorough") {
            c.thorough = v == "1";
        } else if (a == "--verbose") {
            c.verbose = v == "1";
        } else if (a == "--out") {
            c.out_path = v;
        } else if (a == "--progress") {
            c.progress_path = v;
        } else if (a == "--scratch") {
            c.scratch = v;
        } else if (a == "--budget") {
            c.budget = strtoull(v.c_str(), nullptr, 10);
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            exit(2);
        }
    }
    if (!c.progress_path.empty()) {
        int fd = open(c.progress_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 8192) != 0) {
            perror("progress");
            exit(2);
        }
        c.progress = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    return c;
}

inline void write_out(Ctx const& c, bool finished) {
    std::ofstream o(c.out_path);
    o << "{\"finished\":" << (finished ? "true" : "false") << ",\"evaluations\":" << c.evaluations
      << ",\"counters\":{";
    bool first = true;
    for (auto const& [k, v] : c.counters) {
        o << (first ? "" : ",") << json_str(k) << ":" << v;
        first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto const& s : c.samples) {
        o << (first ? "" : ",") << json_str(s);
        first = false;
    }
    auto list = [&](vector<Ctx::Violation> const& vs) {
        bool f = true;
        for (auto const& v : vs) {
            o << (f ? "" : ",") << "{\"case\":" << v.case_no << ",\"key\":" << json_str(v.key)
              << ",\"message\":" << json_str(v.message) << "}";
            f = false;
        }
    };
    o << "],\"violations\":[";
    list(c.violations);
    o << "],\"known\":[";
    list(c.known);
    o << "],\"distinct\":[";
    first = true;
    for (auto h : c.distinct) {
        o << (first ? "" : ",") << h;
        first = false;
    }
    o << "]}\n";
}

// Runs the cases of this shard with `fn(ctx, rng, case)`.
inline int run_cases(Ctx& c, std::function<void(Ctx&, Rng&, uint64_t)> const& fn) {
    auto const begin = std::chrono::steady_clock::now();
    for (uint64_t i = c.shard; i < c.cases; i += c.shards) {
        if (c.budget > 0 && std::chrono::steady_clock::now() - begin > std::chrono::seconds(c.budget)) {
            c.count("cases_not_started", (c.cases - i + c.shards - 1) / c.shards);
            break;
        }
        if (c.only >= 0 && static_cast<uint64_t>(c.only) != i) {
            continue;
        }
        c.curr_case = i;
        if (c.progress != nullptr) {
            snprintf(c.progress, 64, "%llu", static_cast<unsigned long long>(i));
        }
        c.set_context("");
        auto started = std::chrono::steady_clock::now();
        Rng rng{mix(c.seed) ^ hash_str(c.prop + "/" + c.mode) ^ mix(i * 2 + 1)};
        try {
            fn(c, rng, i);
            c.count("cases");
        } catch (CaseFailed const&) {
            if (c.violations.size() >= 5) {
                break;
            }
        } catch (std::exception const& e) {
            c.violations.push_back(
                    {i, "unexpected-exception", string("unexpected exception: ") + e.what() + "\n[" + c.context + "]"}
            );
            if (c.violations.size() >= 5) {
                break;
            }
        }
        auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - started).count();
        c.maximum("case_ms", ms);
        if (c.verbose && ms > 3000) {
            fprintf(stderr, "case %llu took %lld ms\n", (unsigned long long)i, (long long)ms);
        }
    }
    if (c.progress != nullptr) {
        snprintf(c.progress, 64, "end");
    }
    write_out(c, true);
    if (c.verbose) {
        for (auto const& v : c.violations) {
            fprintf(stderr, "VIOLATION case %llu key %s\n%s\n", (unsigned long long)v.case_no, v.key.c_str(), v.message.c_str());
        }
    }
    return 0;
}
}  // namespace verif

#endif
