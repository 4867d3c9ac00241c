// Monitor for C17: threads that share no objects, under ThreadSanitizer, each compared with what the
// same work gives alone.
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "work.hpp"

using namespace verif;

namespace {
constexpr rlim_t kCpuLimit = 120;

void c17(Ctx& c, Rng& rng, uint64_t) {
    // Each case is a process of its own, so that the first uses race as well
    auto threads = 2 + rng.below(7);
    vector<vector<WorkItem>> items(threads);
    string all;
    bool same = rng.chance(30);
    for (uint64_t t = 0; t < threads; t++) {
        auto n = 1 + rng.below(3);
        for (uint64_t i = 0; i < n; i++) {
            items[t].push_back(same && t > 0 ? items[0][0] : random_work(rng, 250));
            all += "\n" + std::to_string(t) + ": " + items[t].back().show();
        }
    }
    c.set_context(std::to_string(threads) + " threads:" + all);
    auto seed = rng.next();
    auto dir = c.scratch;
    int p[2];
    if (pipe(p) != 0) {
        perror("pipe");
        exit(2);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        // It may not end on its own: when threads spoil each other's data
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit limit{kCpuLimit, kCpuLimit + 5};
        setrlimit(RLIMIT_CPU, &limit);
        vector<vector<string>> together(threads);
        std::atomic<int> ready{0};
        std::atomic<uint64_t> switches{0};
        auto body = [&](uint64_t t) {
            Rng r{seed + t};
            ready++;
            while (ready < static_cast<int>(threads)) {
            }
            uint64_t yields = 0;
            // The last round starts a second object while the first is alive
            for (size_t i = 0; i < items[t].size(); i++) {
                Work w{items[t][i], dir + "/t" + std::to_string(t)};
                bool more = true;
                while (more) {
                    more = w.step();
                    if (r.chance(15)) {
                        std::this_thread::yield();
                        yields++;
                    }
                    if (r.chance(2)) {
                        std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
                        yields++;
                    }
                }
                together[t].push_back(w.transcript());
            }
            switches += yields;
        };
        vector<std::thread> ts;
        for (uint64_t t = 0; t < threads; t++) {
            ts.emplace_back(body, t);
        }
        for (auto& t : ts) {
            t.join();
        }
        string report = std::to_string(switches.load());
        for (uint64_t t = 0; t < threads; t++) {
            for (size_t i = 0; i < items[t].size(); i++) {
                Work w{items[t][i], dir + "/alone"};
                w.run();
                if (w.transcript() != together[t][i]) {
                    report = "!item " + std::to_string(i) + " of thread " + std::to_string(t) + " differs.\n  together: " + escape(together[t][i], 900) + "\n  alone:    " + escape(w.transcript(), 900);
                }
            }
        }
        if (write(p[1], report.data(), report.size()) < 0) {
            _exit(2);
        }
        close(p[1]);
        // exit(), not _exit(): the sanitizer's exit code matters
        exit(0);
    }
    close(p[1]);
    string report;
    char buf[4096];
    ssize_t n = 0;
    while ((n = read(p[0], buf, sizeof buf)) > 0) {
        report.append(buf, static_cast<size_t>(n));
    }
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    uint64_t works = 0;
    for (auto const& i : items) {
        works += i.size();
    }
    c.count("threads", threads);
    c.count("works", works);
    c.evaluated(hash_str(all), threads > 1);
    if (report.starts_with("!")) {
        c.fail("result", report.substr(1));
    }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU) {
        c.fail("hang", "the process with the threads did not end within " + std::to_string(kCpuLimit) + " s of processor time");
    }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        c.fail(WIFEXITED(status) && WEXITSTATUS(status) == 66 ? "race" : "crash", "the process with the threads ended with status " + std::to_string(status) + "; its report is in the log of this run");
    }
    c.count("yields_and_delays", strtoull(report.c_str(), nullptr, 10));
    if (c.wants_sample()) {
        c.sample(std::to_string(threads) + " threads:" + all.substr(0, 600));
    }
}
}  // namespace

int main(int argc, char** argv) {
    Ctx c = parse_args(argc, argv);
    if (c.prop == "C17") {
        return run_cases(c, c17);
    }
    fprintf(stderr, "unknown property\n");
    return 2;
}
