// Explores the schedules of one program and collects the distinct traces as a tree (one line per event, with the
// numbers of its children): every schedule with at most `bound` deviations, as far as `cap` allows, and random ones.
#pragma once
#include "simsched.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
namespace sim
{
// What the parent process sees of the child
struct Shared { volatile uint64_t runs; volatile uint32_t ndev; volatile uint64_t rnd; volatile uint32_t permille; Dev devs[16]; };
struct Limits { int bound = 2; uint32_t cap = 3000; uint32_t random = 20; uint32_t permille = 150; uint64_t seed = 1; uint32_t leaves = 400; bool spurious = true; };

struct Trie
{
    std::vector<std::map<std::string, uint32_t>> kids{1};
    std::vector<std::pair<uint32_t, std::string>> lines{{0u, std::string()}};
    uint32_t leaves = 0;
    // The root becomes line `root` of the file
    void Write(std::FILE* f, uint64_t root, const std::string& head) const
    {
        std::vector<std::vector<uint32_t>> down(lines.size());
        for (uint32_t i = 1; i < lines.size(); ++i) down[lines[i].first].push_back(i);
        for (size_t i = 0; i < lines.size(); ++i)
        {
            std::string k;
            for (uint32_t c : down[i]) k += (k.empty() ? "" : ",") + std::to_string(root + c);
            std::fprintf(f, "{\"k\":[%s],%s\n", k.c_str(), i == 0 ? (head + "}").c_str() : lines[i].second.c_str() + 1);
        }
        std::fflush(f);
    }
    bool Add(const std::vector<std::string>& trace, const std::string& last)
    {
        uint32_t n = 0;
        bool fresh = false;
        auto step = [&](const std::string& e, const std::string& line)
        {
            auto it = kids[n].find(e);
            if (it != kids[n].end()) { n = it->second; return; }
            const uint32_t k = static_cast<uint32_t>(lines.size());
            kids[n][e] = k;
            kids.emplace_back();
            lines.emplace_back(n, line);
            n = k;
            fresh = true;
        };
        for (const std::string& e : trace) step(e, e);
        step("end", last);
        if (fresh) ++leaves;
        return fresh;
    }
};
inline std::string Schedule(const std::vector<Dev>& devs, uint64_t rnd, uint32_t permille)
{
    std::string s = "[";
    for (const Dev& d : devs) s += (s.size() > 1 ? ",[" : "[") + std::to_string(d.step) + "," + std::to_string(d.alt) + "]";
    return s + "],\"rnd\":" + std::to_string(rnd) + ",\"pm\":" + std::to_string(permille);
}

// runOne(devs, options, onStuck): a fresh run of the program.  write(trie): called once, in the end.
template <class RunOne, class Write> void Explore(const Limits& lim, Shared* sh, const RunOne& runOne, const Write& write, const Options& base)
{
    Trie trie;
    std::mt19937_64 gen(lim.seed * 7919 + 13);
    auto go = [&](const std::vector<Dev>& devs, uint64_t rnd, uint32_t permille) -> Result
    {
        Options o = base;
        o.rnd = rnd; o.rndPermille = permille;
        sh->ndev = static_cast<uint32_t>(devs.size());
        for (size_t i = 0; i < devs.size() && i < 16; ++i) sh->devs[i] = devs[i];
        sh->rnd = rnd; sh->permille = permille;
        sh->runs = sh->runs + 1;
        const std::string sch = Schedule(devs, rnd, permille);
        Result r = runOne(devs, o, [&](const Result& bad)
        {
            trie.Add(bad.trace, "{\"e\":\"Dead\",\"what\":\"" + bad.stuck + "\",\"d\":" + sch + "}");
            write(trie);
            _exit(93);
        });
        trie.Add(r.trace, "{\"e\":\"End\",\"d\":" + sch + "}");
        return r;
    };
    // level by level; within a level in a random order when there are more than the cap allows
    std::vector<std::vector<Dev>> level{{}};
    uint32_t runs = 0;
    for (int b = 0; b <= lim.bound && !level.empty(); ++b)
    {
        std::vector<std::vector<Dev>> next;
        if (runs + level.size() > lim.cap) std::shuffle(level.begin(), level.end(), gen);
        for (const auto& devs : level)
        {
            if (runs >= lim.cap || trie.leaves >= lim.leaves) break;
            ++runs;
            Result r = go(devs, 0, 0);
            if (b == lim.bound) continue;
            const uint32_t from = devs.empty() ? 0 : devs.back().step + 1;
            for (uint32_t s = from; s < r.steps && next.size() < 400000; ++s)
            {
                for (uint32_t a = 0; a < r.alts[s]; ++a) { next.push_back(devs); next.back().push_back({s, a}); }
                if (lim.spurious) for (uint32_t a = 0; a < r.spur[s]; ++a) { next.push_back(devs); next.back().push_back({s, 1000 + a}); }
            }
        }
        level.swap(next);
    }
    for (uint32_t i = 0; i < lim.random && trie.leaves < lim.leaves; ++i) go({}, gen() | 1, i % 3 == 0 ? lim.permille * 3 : i % 3 == 1 ? lim.permille : lim.permille / 4 + 1);
    write(trie);
}

// Runs child(shared) in a process of its own.  Returns its status; -1 when it did not make progress for `seconds`.
template <class Child> int Isolated(Shared* sh, int seconds, const Child& child)
{
    std::fflush(nullptr);
    sh->runs = 0;
    const pid_t p = fork();
    if (p < 0) { std::perror("fork"); std::exit(3); }
    if (p == 0)
    {
        cpu_set_t all, one;
        if (sched_getaffinity(0, sizeof all, &all) == 0)
        {
            // control is handed from thread to thread: one processor is faster than many
            int n = CPU_COUNT(&all), pick = static_cast<int>(getppid()) % (n > 0 ? n : 1);
            for (int i = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &all) && pick-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
        child();
        std::fflush(nullptr);
        _exit(0);
    }
    uint64_t last = 0;
    int idle = 0, st = 0;
    for (uint64_t k = 0;; ++k)
    {
        const pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) return st;
        usleep(k < 20 ? 1000 : 10000);
        if (sh->runs != last) { last = sh->runs; idle = 0; }
        else if (++idle > seconds * 100) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
    }
}
inline Shared* MakeShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
    return static_cast<Shared*>(p);
}
inline std::string SharedSchedule(const Shared* sh)
{
    std::vector<Dev> d;
    for (uint32_t i = 0; i < sh->ndev && i < 16; ++i) d.push_back(sh->devs[i]);
    return Schedule(d, sh->rnd, sh->permille);
}
}
