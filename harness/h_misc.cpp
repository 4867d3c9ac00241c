// Monitors for C20 (capture registers), C21 (FileReader) and C23 (interval tree).
#include <climits>
#include <cstdlib>
#include <functional>

#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include "sut.hpp"

#include <log_surgeon/FileReader.hpp>
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>

using namespace verif;
namespace fa = log_surgeon::finite_automata;

namespace {
using Position = fa::PrefixTree::position_t;
using Cell = std::shared_ptr<Position>;
// A branch, oldest position first. Branches share the cells of their common past.
using Branch = vector<Cell>;

string show(vector<Position> const& v) {
    string s;
    for (size_t i = 0; i < v.size() && i < 40; i++) {
        s += (i > 0 ? " " : "") + std::to_string(v[i]);
    }
    return "[" + s + "]";
}

vector<Position> reversed(Branch const& b) {
    vector<Position> r;
    for (size_t i = b.size(); i > 0; i--) {
        r.push_back(*b[i - 1]);
    }
    return r;
}

Position random_position(Rng& rng) {
    switch (rng.below(6)) {
        case 0:
            return INT32_MAX;
        case 1:
            return INT32_MIN;
        case 2:
            return static_cast<Position>(rng.below(3)) - 1;
        default:
            return static_cast<Position>(rng.next());
    }
}

template <typename F>
bool throws(F f) {
    try {
        f();
    } catch (std::exception const&) {
        return true;
    }
    return false;
}

void c20_tree(Ctx& c, Rng& rng, uint64_t steps) {
    fa::PrefixTree tree;
    vector<Branch> nodes{{}};  // by id; the root has none
    string history = "tree:";
    uint64_t done = 0;
    auto check_node = [&](uint32_t id) {
        auto got = tree.get_reversed_positions(id);
        auto want = reversed(nodes[id]);
        if (got != want) {
            c.fail("positions", "node " + std::to_string(id) + " has positions " + show(got) + ", should have " + show(want));
        }
        c.count("lists_compared");
    };
    auto shape = rng.below(3);
    for (uint64_t i = 0; i < steps; i++) {
        c.set_context(history.size() > 3000 ? history.substr(0, 1000) + " ... " + history.substr(history.size() - 1500) : history);
        auto any_id = [&]() -> uint32_t {
            if (shape == 0 && !rng.chance(10)) {
                return static_cast<uint32_t>(nodes.size() - 1);  // deep
            }
            return static_cast<uint32_t>(shape == 1 && rng.chance(60) ? rng.below(std::min<size_t>(nodes.size(), 3)) : rng.below(nodes.size()));
        };
        auto bad_id = [&]() -> uint32_t {
            switch (rng.below(3)) {
                case 0:
                    return static_cast<uint32_t>(nodes.size());
                case 1:
                    return UINT32_MAX - static_cast<uint32_t>(rng.below(2));
                default:
                    return static_cast<uint32_t>(nodes.size() + rng.below(1000));
            }
        };
        auto k = rng.below(100);
        if (k < 55) {
            auto parent = any_id();
            auto pos = random_position(rng);
            auto id = tree.insert(parent, pos);
            history += " " + std::to_string(id) + "=insert(" + std::to_string(parent) + "," + std::to_string(pos) + ")";
            if (id != nodes.size()) {
                // Ids may be any, but must be new
                c.fail("id", "insert gave id " + std::to_string(id) + " to node number " + std::to_string(nodes.size()));
            }
            Branch b = nodes[parent];
            b.push_back(std::make_shared<Position>(pos));
            nodes.push_back(std::move(b));
        } else if (k < 70) {
            auto id = any_id();
            auto pos = random_position(rng);
            history += " set(" + std::to_string(id) + "," + std::to_string(pos) + ")";
            tree.set(id, pos);
            if (!nodes[id].empty()) {
                *nodes[id].back() = pos;
            }
        } else if (k < 80) {
            auto bad = bad_id();
            history += " bad(" + std::to_string(bad) + ")";
            bool ok = throws([&]() { tree.insert(bad, 1); }) && throws([&]() { tree.set(bad, 1); }) && throws([&]() { (void)tree.get_reversed_positions(bad); });
            if (!ok) {
                c.fail("accepted", "an id that does not exist is accepted: " + std::to_string(bad));
            }
            c.count("bad_ids");
        } else {
            check_node(any_id());
        }
        if (tree.size() != nodes.size()) {
            c.fail("size", "the tree says it has " + std::to_string(tree.size()) + " nodes, it has " + std::to_string(nodes.size()));
        }
        done++;
        if (shape == 0 && nodes.size() > 700) {
            break;  // keep the model's memory small
        }
    }
    for (uint32_t id = 0; id < nodes.size(); id++) {
        check_node(id);
    }
    if (rng.chance(30)) {
        // A copy is independent
        fa::PrefixTree copy = tree;
        if (nodes.size() > 1) {
            auto id = static_cast<uint32_t>(1 + rng.below(nodes.size() - 1));
            copy.set(id, 12345);
            copy.insert(id, 6);
            check_node(id);
        }
    }
    c.count("operations", done);
    c.maximum("nodes", nodes.size());
    c.evaluated(hash_str(history), nodes.size() > 2);
}

void c20_registers(Ctx& c, Rng& rng, uint64_t steps) {
    fa::RegisterHandler h;
    vector<Branch> regs;
    // Branches by the id of their node: what add_register may continue
    vector<Branch> nodes{{}};
    string history = "registers:";
    uint64_t done = 0;
    auto check_reg = [&](size_t r) {
        auto got = h.get_reversed_positions(r);
        auto want = reversed(regs[r]);
        if (got != want) {
            c.fail("positions", "register " + std::to_string(r) + " has positions " + show(got) + ", should have " + show(want));
        }
        c.count("lists_compared");
    };
    for (uint64_t i = 0; i < steps; i++) {
        c.set_context(history.size() > 3000 ? history.substr(0, 1000) + " ... " + history.substr(history.size() - 1500) : history);
        auto k = rng.below(100);
        auto pos = random_position(rng);
        if (regs.empty() || k < 15) {
            auto parent = static_cast<uint32_t>(rng.chance(60) ? 0 : rng.below(nodes.size()));
            history += " add(" + std::to_string(parent) + "," + std::to_string(pos) + ")";
            h.add_register(parent, pos);
            Branch b = nodes[parent];
            b.push_back(std::make_shared<Position>(pos));
            nodes.push_back(b);
            regs.push_back(std::move(b));
        } else if (k < 40) {
            auto r = rng.below(regs.size());
            history += " append(" + std::to_string(r) + "," + std::to_string(pos) + ")";
            h.append_position(r, pos);
            regs[r].push_back(std::make_shared<Position>(pos));
            nodes.push_back(regs[r]);
        } else if (k < 55) {
            auto r = rng.below(regs.size());
            history += " set(" + std::to_string(r) + "," + std::to_string(pos) + ")";
            h.set_register(r, pos);
            *regs[r].back() = pos;
        } else if (k < 75) {
            auto d = rng.below(regs.size());
            auto s = rng.below(regs.size());
            history += " copy(" + std::to_string(d) + "," + std::to_string(s) + ")";
            h.copy_register(d, s);
            regs[d] = Branch{regs[s]};
        } else if (k < 82) {
            size_t bad = rng.chance(50) ? regs.size() : (rng.chance(50) ? SIZE_MAX : regs.size() + rng.below(100));
            auto good = rng.below(regs.size());
            history += " bad(" + std::to_string(bad) + ")";
            bool ok = throws([&]() { h.set_register(bad, 1); }) && throws([&]() { h.append_position(bad, 1); })
                      && throws([&]() { h.copy_register(bad, good); }) && throws([&]() { h.copy_register(good, bad); })
                      && throws([&]() { (void)h.get_reversed_positions(bad); });
            ok = ok && throws([&]() { h.add_register(static_cast<uint32_t>(nodes.size() + rng.below(5)), 1); });
            if (!ok) {
                c.fail("accepted", "an id that does not exist is accepted: register " + std::to_string(bad) + " or a node");
            }
            c.count("bad_ids");
        } else {
            check_reg(rng.below(regs.size()));
        }
        done++;
        if (i % 32 == 31) {
            for (size_t r = 0; r < regs.size(); r++) {
                check_reg(r);
            }
        }
        if (regs.size() > 0 && regs[0].size() > 2000) {
            break;
        }
    }
    for (size_t r = 0; r < regs.size(); r++) {
        check_reg(r);
    }
    c.count("operations", done);
    c.maximum("registers", regs.size());
    c.evaluated(hash_str(history), done > 3);
    if (c.wants_sample()) {
        c.sample(history.substr(0, 600));
    }
}

// More nodes than 16 bits can number
void c20_many(Ctx& c, Rng& rng) {
    c.set_context("a tree of very many nodes");
    fa::PrefixTree tree;
    fa::RegisterHandler h;
    h.add_register(0, 7);
    vector<uint32_t> parents{0};
    vector<Position> positions{0};
    uint32_t const n = 66'000 + rng.below(1000);
    auto width = 1 + rng.below(4000);
    for (uint32_t i = 1; i < n; i++) {
        auto parent = static_cast<uint32_t>(rng.below(100) < 2 ? rng.below(i) : i - std::min<uint64_t>(i, 1 + rng.below(width)));
        auto pos = random_position(rng);
        auto id = tree.insert(parent, pos);
        if (id != i) {
            c.fail("id", "insert gave id " + std::to_string(id) + " to node number " + std::to_string(i));
        }
        parents.push_back(parent);
        positions.push_back(pos);
        h.add_register(0, static_cast<Position>(i));
    }
    auto check_node = [&](uint32_t id) {
        vector<Position> want;
        for (auto i = id; i != 0 && want.size() <= n; i = parents[i]) {
            want.push_back(positions[i]);
        }
        auto got = tree.get_reversed_positions(id);
        if (got != want) {
            c.fail("positions", "of " + std::to_string(n) + " nodes node " + std::to_string(id) + " has " + std::to_string(got.size()) + " positions, should have " + std::to_string(want.size()) + ", or others");
        }
        c.count("lists_compared");
    };
    for (int k = 0; k < 300; k++) {
        auto id = static_cast<uint32_t>(k < 20 ? n - 1 - k : rng.below(n));
        if (rng.chance(50) && id != 0) {
            auto pos = random_position(rng);
            tree.set(id, pos);
            positions[id] = pos;
        }
        check_node(static_cast<uint32_t>(rng.chance(50) ? id & 0xFFFF : id));
        check_node(id);
        // Register i holds the position i
        auto r = 1 + rng.below(n / 2 - 1) * 2;
        if (h.get_reversed_positions(r) != vector<Position>{static_cast<Position>(r)}) {
            c.fail("positions", "of " + std::to_string(n) + " registers register " + std::to_string(r) + " has positions " + show(h.get_reversed_positions(r)));
        }
        if (rng.chance(50)) {
            auto to = rng.below(n / 2) * 2;
            h.copy_register(to, r);
            h.append_position(to, 5);
            if (h.get_reversed_positions(to) != vector<Position>{5, static_cast<Position>(r)} || h.get_reversed_positions(r) != vector<Position>{static_cast<Position>(r)}) {
                c.fail("positions", "of " + std::to_string(n) + " registers register " + std::to_string(to) + ", a copy of " + std::to_string(r) + " with 5 appended, has " + show(h.get_reversed_positions(to)));
            }
        }
    }
    c.count("operations", n);
    c.maximum("nodes", n);
    c.evaluated(hash_str("many", n), true);
}

void c20(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no % 50 == 7) {
        c20_many(c, rng);
    }
    for (int k = 0; k < 8; k++) {
        c20_tree(c, rng, rng.chance(80) ? rng.below(60) : rng.below(1200));
        c20_registers(c, rng, rng.chance(80) ? rng.below(80) : rng.below(500));
    }
}

// ---- C21 ----------------------------------------------------------------------------------------

// Descriptors of what lies in `dir`. Others come and go: the sanitizers' background thread reads /proc.
size_t open_descriptors(string const& dir) {
    char real[PATH_MAX];
    if (realpath(dir.c_str(), real) == nullptr) {
        fprintf(stderr, "harness error: no such folder %s\n", dir.c_str());
        exit(3);
    }
    string prefix = real;
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (d == nullptr) {
        return 0;
    }
    while (auto* e = readdir(d)) {
        char target[PATH_MAX];
        auto k = readlinkat(dirfd(d), e->d_name, target, sizeof(target));
        if (k > 0 && string_view(target, k).substr(0, prefix.size()) == prefix) {
            n++;
        }
    }
    closedir(d);
    return n;
}

string random_content(Rng& rng, char delim, bool large) {
    string s;
    auto n = rng.chance(10) ? 0 : (rng.chance(70) ? rng.below(200) : rng.below(large ? 300'000 : 20'000));
    auto style = rng.below(4);
    while (s.size() < n) {
        switch (style) {
            case 0:
                s += static_cast<char>(rng.below(256));
                break;
            case 1:
                s += rng.chance(10) ? delim : static_cast<char>('a' + rng.below(3));
                break;
            case 2:
                s += string(rng.below(large ? 150'000 : 3000), 'x') + (rng.chance(70) ? string(1, delim) : "");
                break;
            default:
                s += rng.chance(50) ? delim : '\0';
        }
    }
    if (rng.chance(40)) {
        s += delim;
    }
    return s;
}

void c21(Ctx& c, Rng& rng, uint64_t case_no) {
    auto dir = c.scratch + "/c21_" + std::to_string(c.shard);
    mkdir(dir.c_str(), 0755);
    char delim = rng.chance(60) ? '\n' : static_cast<char>(rng.below(256));
    bool const large = (case_no / 8) % 16 == 3;
    vector<string> contents;
    vector<string> paths;
    auto nfiles = 1 + rng.below(3);
    for (uint64_t i = 0; i < nfiles; i++) {
        contents.push_back(random_content(rng, delim, large));
        paths.push_back(dir + "/f" + std::to_string(i));
        std::ofstream f(paths.back(), std::ios::binary | std::ios::trunc);
        f << contents.back();
    }
    // Descriptors of others must stay open
    std::ofstream other{dir + "/other"};
    auto before = open_descriptors(dir);
    if (before != 1) {
        c.count("no_descriptor_counts");
    }
    {
        auto reader = std::make_unique<ls::FileReader>();
        bool open = false;
        size_t file = 0;
        size_t pos = 0;
        string history;
        string kept = "old";  // the string that read_to_delimiter works on
        auto steps = 5 + rng.below((case_no / 8) % 8 == 0 ? 400 : 60);
        int huge_reads = 2;
        auto expect = [&](ErrorCode got, ErrorCode want, string const& what) {
            if (got != want) {
                c.fail("code", what + " returned " + std::to_string(static_cast<int>(got)) + ", should return " + std::to_string(static_cast<int>(want)));
            }
        };
        for (uint64_t i = 0; i < steps; i++) {
            auto k = rng.below(100);
            string const& content = contents[file];
            size_t left = content.size() - pos;
            if (k < 14) {
                file = rng.below(nfiles);
                history += "; open(" + std::to_string(file) + ")";
                c.set_context(history);
                expect(reader->try_open(paths[file]), ErrorCode::Success, "try_open");
                open = true;
                pos = 0;
                c.count("opens");
            } else if (k < 17) {
                history += "; open(missing)";
                c.set_context(history);
                expect(reader->try_open(rng.chance(50) ? dir + "/missing" : dir + "/no/such"), ErrorCode::FileNotFound, "try_open of a missing path");
                open = false;
                c.count("missing_paths");
            } else if (k < 19) {
                history += "; open(file/x)";
                c.set_context(history);
                expect(reader->try_open(paths[0] + "/x"), ErrorCode::Errno, "try_open of a path through a file");
                open = false;
            } else if (k < 21) {
                history += "; open(directory)";
                c.set_context(history);
                auto e = reader->try_open(dir);
                open = false;
                if (e == ErrorCode::Success) {
                    char b[4];
                    size_t n = 0;
                    expect(reader->read(b, 4, n), ErrorCode::Errno, "read of a directory");
                    string s;
                    expect(reader->try_read_to_delimiter('a', false, false, s), ErrorCode::Errno, "try_read_to_delimiter of a directory");
                    reader->close();
                }
                c.count("directories");
            } else if (k < 26) {
                history += "; close";
                reader->close();
                if (rng.chance(20)) {
                    reader->close();
                }
                open = false;
            } else if (k < 28) {
                history += "; new";
                reader = std::make_unique<ls::FileReader>();
                open = false;
            } else if (k < 32) {
                size_t n = 77;
                history += "; read(null)";
                c.set_context(history);
                expect(reader->read(nullptr, 5, n), open ? ErrorCode::BadParam : ErrorCode::NotInit, "read into a null buffer");
            } else if (k == 32 && open && huge_reads-- > 0) {
                // More than 4 GiB at once, of memory that is only reserved
                size_t const want = (uint64_t{1} << 32) * (1 + rng.below(2)) + rng.below(20);
                void* const m = mmap(nullptr, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (m == MAP_FAILED) {
                    c.count("large_mappings_refused");
                    continue;
                }
                std::unique_ptr<void, std::function<void(void*)>> unmap(m, [want](void* x) { munmap(x, want); });
                history += "; read(" + std::to_string(want) + ")";
                c.set_context(history);
                size_t n = 12345;
                auto e = reader->read(static_cast<char*>(m), want, n);
                if (left == 0) {
                    expect(e, ErrorCode::EndOfFile, "read at the end");
                } else {
                    expect(e, ErrorCode::Success, "read");
                    if (n != left || memcmp(m, content.data() + pos, left) != 0) {
                        c.fail("bytes", "a read of " + std::to_string(want) + " bytes gave " + std::to_string(n) + ", should be the remaining " + std::to_string(left) + " bytes");
                    }
                    pos += left;
                }
                c.count("reads_of_over_4GiB");
            } else if (k < 70 || !open) {
                size_t want = rng.chance(10) ? 0 : (rng.chance(30) ? left + rng.below(3) : 1 + rng.below(rng.chance(70) ? 20 : large ? 140'000 : 9000));
                std::unique_ptr<char[]> buf(new char[want + 1]);
                size_t n = 12345;
                history += "; read(" + std::to_string(want) + ")";
                c.set_context(history);
                memset(buf.get(), 0x5A, want + 1);
                auto e = reader->read(buf.get(), want, n);
                if (!open) {
                    expect(e, ErrorCode::NotInit, "read without a file");
                    c.count("reads_without_file");
                    continue;
                }
                if (want > 0 && left == 0) {
                    expect(e, ErrorCode::EndOfFile, "read at the end");
                    c.count("reads_at_end");
                } else {
                    expect(e, ErrorCode::Success, "read");
                    auto m = std::min(want, left);
                    if (n != m || memcmp(buf.get(), content.data() + pos, m) != 0) {
                        c.fail("bytes", "read gave " + std::to_string(n) + " bytes \"" + escape(string_view(buf.get(), std::min(n, want)), 200) + "\", should be " + std::to_string(m) + " from position " + std::to_string(pos));
                    }
                    pos += m;
                    c.count("bytes", m);
                }
                for (size_t j = std::min(want, left); j < want + 1; j++) {
                    if (buf[j] != 0x5A) {
                        c.fail("bytes", "read wrote beyond the bytes it delivered");
                    }
                }
                c.count("reads");
            } else {
                bool keep = rng.chance(50);
                bool append = rng.chance(50);
                char d = rng.chance(80) ? delim : static_cast<char>(rng.below(256));
                if (kept.size() > 5000) {
                    kept = "";
                }
                history += string("; line(") + escape(string(1, d)) + (keep ? ",keep" : "") + (append ? ",append" : "") + ")";
                c.set_context(history);
                string base = append ? kept : "";
                auto e = reader->try_read_to_delimiter(d, keep, append, kept);
                if (left == 0) {
                    expect(e, ErrorCode::EndOfFile, "try_read_to_delimiter at the end");
                    if (kept != base) {
                        c.fail("line", "at the end the string became \"" + escape(kept) + "\"");
                    }
                    c.count("lines_at_end");
                    continue;
                }
                expect(e, ErrorCode::Success, "try_read_to_delimiter");
                auto at = content.find(d, pos);
                auto end = at == string::npos ? content.size() : at + 1;
                auto text = content.substr(pos, end - pos);
                if (at != string::npos && !keep) {
                    text.pop_back();
                }
                if (kept != base + text) {
                    c.fail("line", "got \"" + escape(kept, 300) + "\", should be \"" + escape(base + text, 300) + "\"");
                }
                pos = end;
                c.count("lines");
            }
        }
        c.evaluated(hash_str(history), true);
        c.count("operations", steps);
        if (c.wants_sample()) {
            c.sample(history.substr(0, 500));
        }
        // Many descriptors can't be open at once: one reader has at most one
        if (open_descriptors(dir) > before + 1) {
            c.fail("descriptors", std::to_string(open_descriptors(dir) - before) + " descriptors open with one reader");
        }
    }
    if (open_descriptors(dir) != before) {
        c.fail("descriptors", "a destroyed reader leaves descriptors open, or closes those of others");
    }
}

// ---- C23: interval tree ---------------------------------------------------------------------------

using Interval = fa::Interval;

template <typename T>
void c23_tree(Ctx& c, Rng& rng, uint64_t steps, std::function<T(uint32_t)> const& make) {
    fa::UnicodeIntervalTree<T> tree;
    std::map<Interval, T> model;
    string history;
    uint32_t max = rng.chance(30) ? UINT32_MAX : rng.chance(50) ? 0x10FFFF : 1 + static_cast<uint32_t>(rng.below(300));
    bool single = rng.chance(20);
    auto bound = [&]() -> uint32_t {
        switch (rng.below(12)) {
            case 0:
                return 0;
            case 1:
                return max;
            default:
                return static_cast<uint32_t>(rng.next() % (static_cast<uint64_t>(max) + 1));
        }
    };
    auto interval = [&](bool wide) -> Interval {
        auto a = bound();
        if (single) {
            return {a, a};
        }
        if (wide) {
            auto b = bound();
            return {std::min(a, b), std::max(a, b)};
        }
        auto len = static_cast<uint32_t>(rng.below(1 + max / 20));
        return {a, max - a < len ? max : a + len};
    };
    auto known = [&]() -> Interval {
        if (model.empty() || rng.chance(50)) {
            return interval(rng.chance(25));
        }
        auto it = model.lower_bound(interval(false));
        return it == model.end() ? model.begin()->first : it->first;
    };
    auto overlapping = [&](Interval i) {
        std::map<Interval, T> r;
        for (auto const& [k, v] : model) {
            if (k.first <= i.second && i.first <= k.second) {
                r.emplace(k, v);
            }
        }
        return r;
    };
    auto written = [](Interval i) {
        return std::to_string(i.first) + "-" + std::to_string(i.second);
    };
    auto compare = [&](auto const& got, std::map<Interval, T> const& want, char const* what, bool ordered) {
        std::map<Interval, T> m;
        Interval last{};
        string shown;
        for (auto const& d : got) {
            if (shown.size() < 300) {
                shown += " " + written(d.m_interval);
            }
            if (ordered && !m.empty() && d.m_interval <= last) {
                c.fail("order", string(what) + " gives " + written(d.m_interval) + " after " + written(last));
            }
            last = d.m_interval;
            if (!m.emplace(d.m_interval, d.m_value).second) {
                c.fail("contents", string(what) + " gives " + written(d.m_interval) + " twice");
            }
        }
        if (m != want) {
            string wanted;
            for (auto const& [k, v] : want) {
                if (wanted.size() < 300) {
                    wanted += " " + written(k);
                }
            }
            c.fail("contents", string(what) + " gives" + shown + ", should give" + wanted + (shown == wanted ? " with other values" : ""));
        }
        c.count("entries_compared", want.size());
    };
    uint32_t next_value = 1;
    int shape = static_cast<int>(rng.below(4));
    uint32_t at = shape == 1 ? max : 0;
    for (uint64_t i = 0; i < steps; i++) {
        c.set_context(history.size() > 3000 ? history.substr(0, 1000) + " ... " + history.substr(history.size() - 1500) : history);
        auto k = rng.below(100);
        if (k < (shape == 3 ? 45 : 60)) {
            auto iv = rng.chance(15) ? known() : interval(rng.chance(10));
            if (shape == 0 || shape == 1) {
                // Ascending or descending
                auto step = static_cast<uint32_t>(rng.below(1 + max / 100));
                at = shape == 0 ? (max - at < step ? 0 : at + step) : (at < step ? max : at - step);
                auto len = single ? 0 : static_cast<uint32_t>(rng.below(1 + max / 50));
                iv = {at, max - at < len ? max : at + len};
            }
            auto v = make(next_value++);
            history += " insert(" + written(iv) + ")";
            tree.insert(iv, v);
            model[iv] = v;
            c.count("inserts");
        } else if (k < 80) {
            auto iv = known();
            history += " find(" + written(iv) + ")";
            c.set_context(history.size() > 3000 ? history.substr(history.size() - 2500) : history);
            auto got = tree.find(iv);
            if (got == nullptr) {
                c.fail("contents", "find gives no result");
            }
            compare(*got, overlapping(iv), "find", true);
            c.count("finds");
        } else if (k < 92) {
            auto iv = rng.chance(80) && !single ? Interval{known().first, 0} : known();
            iv.second = std::max(iv.first, iv.second);
            history += " pop(" + written(iv) + ")";
            c.set_context(history.size() > 3000 ? history.substr(history.size() - 2500) : history);
            auto got = tree.pop(iv);
            auto want = overlapping(iv);
            if (got == nullptr) {
                c.fail("contents", "pop gives no result");
            }
            compare(*got, want, "pop", false);
            for (auto const& [w, v] : want) {
                model.erase(w);
            }
            c.count("pops");
            c.count("popped", want.size());
            compare(tree.all(), model, "all after pop", true);
        } else if (k < 99 || i + 1 < steps / 2) {
            history += " all";
            compare(tree.all(), model, "all", true);
            c.count("alls");
        } else {
            history += " reset";
            tree.reset();
            model.clear();
            compare(tree.all(), model, "all after reset", true);
        }
        c.maximum("entries", model.size());
    }
    compare(tree.all(), model, "all", true);
    c.evaluated(hash_str(history), steps > 3);
    if (c.wants_sample()) {
        c.sample(history.substr(0, 400));
    }
}

// Many entries, in an order that makes a tree that isn't balanced a list
void c23_large(Ctx& c, Rng& rng) {
    fa::UnicodeIntervalTree<uint32_t> tree;
    uint32_t n = 60000 + static_cast<uint32_t>(rng.below(40000));
    auto shape = rng.below(3);
    auto nth = [&](uint32_t i) -> uint32_t {
        return shape == 0 ? i : shape == 1 ? n - 1 - i : (i % 2 == 0 ? i / 2 : n - 1 - i / 2);
    };
    c.set_context("inserting " + std::to_string(n) + " intervals, order " + std::to_string(shape));
    for (uint32_t i = 0; i < n; i++) {
        auto a = nth(i) * 10;
        tree.insert({a, a + 5}, nth(i));
    }
    for (int i = 0; i < 300; i++) {
        auto a = static_cast<uint32_t>(rng.below(n));
        auto b = std::min<uint32_t>(n - 1, a + static_cast<uint32_t>(rng.below(20)));
        auto got = tree.find({a * 10 + static_cast<uint32_t>(rng.below(6)), b * 10 + static_cast<uint32_t>(rng.below(6))});
        if (a == b) {
            continue;
        }
        if (got->size() != b - a + 1) {
            c.fail("contents", "find gives " + std::to_string(got->size()) + " of " + std::to_string(b - a + 1) + " intervals");
        }
        for (size_t j = 0; j < got->size(); j++) {
            if ((*got)[j].m_value != a + j) {
                c.fail("contents", "find gives other values than were inserted");
            }
        }
    }
    auto lo = static_cast<uint32_t>(rng.below(n / 2));
    auto hi = lo + static_cast<uint32_t>(rng.below(n / 2));
    auto popped = tree.pop({lo * 10, hi * 10});
    auto all = tree.all();
    if (popped->size() != hi - lo + 1 || all.size() != n - popped->size()) {
        c.fail("contents", "pop removes " + std::to_string(popped->size()) + " of " + std::to_string(hi - lo + 1) + " intervals and leaves " + std::to_string(all.size()));
    }
    for (size_t j = 0; j < all.size(); j++) {
        auto want = j < lo ? j : j + popped->size();
        if (all[j].m_value != want || all[j].m_interval.first != want * 10) {
            c.fail("contents", "all gives other intervals than are left");
        }
    }
    c.count("large_trees");
    c.maximum("entries", n);
    c.evaluated(mix(n) ^ shape, true);
}

void c23(Ctx& c, Rng& rng, uint64_t case_no) {
    if (case_no % 50 == 3) {
        c23_large(c, rng);
        return;
    }
    for (int i = 0; i < 5; i++) {
        uint64_t steps = rng.chance(50) ? 2 + rng.below(15) : rng.chance(80) ? 20 + rng.below(150) : 600;
        if (rng.chance(60)) {
            c23_tree<uint32_t>(c, rng, steps, [](uint32_t v) { return v; });
        } else {
            c23_tree<vector<string>>(c, rng, steps, [](uint32_t v) { return vector<string>{v % 4, "value number " + std::to_string(v)}; });
        }
    }
}
}  // namespace

int main(int argc, char** argv) {
    Ctx c = parse_args(argc, argv);
    if (c.prop == "C20") {
        return run_cases(c, c20);
    }
    if (c.prop == "C21") {
        return run_cases(c, c21);
    }
    if (c.prop == "C23") {
        return run_cases(c, c23);
    }
    fprintf(stderr, "unknown property\n");
    return 2;
}
