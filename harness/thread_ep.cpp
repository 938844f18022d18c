// C22, parallel schedules: each thread owns its databases and runs one core workload; ThreadSanitizer watches for shared state
// and every thread's observable outcome must equal that of the same workload run alone.
#include "core.h"
#include <atomic>
#include <thread>

void threadEpisode(const std::string &, uint64_t seed, uint64_t ix, bool th) {
    static const char *SUB[] = {"C19", "C10", "C23", "C13", "C07", "C02", "C03", "C05", "C09", "C31", "C24"};
    Rng r(mix(mix(seed, 0x7d), ix));
    int n = 2 + r.below(3);
    struct Work { std::string p; uint64_t seed, ix, alone, together; bool failed; Violation v; std::map<std::string, uint64_t> c; std::set<uint64_t> s; };
    std::vector<Work> w(n);
    bool query = r.pct(25);
    for (int i = 0; i < n; i++) {
        w[i].p = query ? std::vector<std::string>{"C15", "C16", "C17"}[r.below(3)] : SUB[r.below(11)];
        w[i].seed = r.next() % 100000;
        w[i].ix = r.below(1000);
        if (i && r.pct(30)) w[i] = w[0];  // the same workload twice
        w[i].failed = false;
    }
    auto one = [&](Work &x, uint64_t &out) {
        g_digest = 77;
        try {
            // core or query episodes; the sub-profile's own kind of episode is only used for the operator pipelines
            if (x.p == "C15" || x.p == "C16" || x.p == "C17") queryEpisode(x.p, x.seed, x.ix, false);
            else coreEpisode(x.p == "C09" ? "C19" : x.p, x.seed, x.ix, false);
        } catch (Violation &v) { x.failed = true; x.v = v; }
        out = g_digest;
    };
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([&, i] {
            g_sharedStdout = true;
            ready++;
            while (ready < n) std::this_thread::yield();
            one(w[i], w[i].together);
            w[i].c = g_cnt;
            w[i].s = g_states;
        });
    for (auto &t : ts) t.join();
    for (auto &x : w) {
        if (x.failed) throw x.v;
        for (auto &c : x.c) cnt(c.first.c_str(), c.second);
        for (auto s : x.s) g_states.insert(s);
    }
    uint64_t h = 0;
    for (int i = 0; i < n; i++) {
        TRACE("thread %d: workload %s seed %llu index %llu", i, w[i].p.c_str(), (unsigned long long)w[i].seed, (unsigned long long)w[i].ix);
        one(w[i], w[i].alone);
        if (w[i].failed) throw w[i].v;
        if (w[i].alone != w[i].together)
            viol("thread-dependent", fmt("a %s workload on its own database behaves differently when %d other databases are used in parallel threads", w[i].p.c_str(), n - 1));
        h = mix(h, w[i].alone);
    }
    g_digest = h;
    cnt("threads_run", n);
    cnt("parallel_episodes");
    g_nontrivial = true;
}
