// Runs programs of lock operations (one per line: {"k":"plain"|"rec","p":[[["R",1],["u",1],...],...]}) in the real
// ReadWriteMutex / RecursiveReadWriteMutex in many schedules and writes the distinct traces.
#include "ReadWriteMutex.h"
#include "explore.h"
#include <fstream>
#include <iostream>
#include <optional>
using nlohmann::json;
struct Act { char a; int m; };
using Prog = std::vector<std::vector<Act>>;

template <class M> struct Held
{
    std::optional<mvlt::ReadLock<M>> r;
    std::optional<mvlt::WriteLock<M>> w;
    M* m; bool guard;
    char a;
};
static std::string Ev(const char* e, int t, const Act& a)
{ return std::string("{\"e\":\"") + e + "\",\"t\":" + std::to_string(t + 1) + ",\"a\":\"" + a.a + "\",\"m\":" + std::to_string(a.m) + "}"; }

template <class M> sim::Result RunOne(const Prog& p, const std::vector<sim::Dev>& devs, const sim::Options& o, const std::function<void(const sim::Result&)>& stuck)
{
    alignas(M) static unsigned char mem[2][sizeof(M)];
    M* m[2] = {new (mem[0]) M(), new (mem[1]) M()};
    auto body = [&](int t)
    {
        std::deque<Held<M>> held;
        for (const Act& a : p[static_cast<size_t>(t)])
        {
            sim::Between();
            sim::Resume();
            sim::Event(Ev("Call", t, a));
            if (a.a == 'u')
            {
                Held<M>& h = held.back();
                if (h.guard) { h.r.reset(); h.w.reset(); }
                else if (h.a == 'R') h.m->ReadUnlock();
                else h.m->WriteUnlock();
                held.pop_back();
            }
            else
            {
                // threads take turns in using the guards and the methods
                held.emplace_back();
                Held<M>& h = held.back();
                h.m = m[a.m - 1]; h.a = a.a; h.guard = t % 2 == 0;
                if (h.guard) { if (a.a == 'R') h.r.emplace(*h.m); else h.w.emplace(*h.m); }
                else if (a.a == 'R') h.m->ReadLock();
                else h.m->WriteLock();
            }
            sim::Event(Ev("Ret", t, a));
        }
        sim::Between();
    };
    sim::Result r = sim::Run(static_cast<int>(p.size()), body, devs, o, stuck);
    m[0]->~M();
    m[1]->~M();
    return r;
}
int main(int argc, char** argv)
{
    std::string in = argv[1], out = argv[2];
    sim::Limits lim;
    long only = -1;
    std::string replay;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--bound") lim.bound = std::stoi(v);
        if (k == "--cap") lim.cap = static_cast<uint32_t>(std::stoul(v));
        if (k == "--random") lim.random = static_cast<uint32_t>(std::stoul(v));
        if (k == "--leaves") lim.leaves = static_cast<uint32_t>(std::stoul(v));
        if (k == "--seed") lim.seed = std::stoull(v);
        if (k == "--only") only = std::stol(v);
    }
    std::ifstream f(in);
    std::string line;
    std::FILE* fo = std::fopen(out.c_str(), "w");
    if (!fo) return 3;
    sim::Shared* sh = sim::MakeShared();
    long n = -1, bad = 0;
    uint64_t node = 0, runs = 0, *pnode = static_cast<uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    while (std::getline(f, line))
    {
        if (line.empty()) continue;
        ++n;
        if (only >= 0 && n != only) continue;
        const json j = json::parse(line);
        Prog p;
        for (const json& t : j["p"]) { p.emplace_back(); for (const json& a : t) p.back().push_back({a[0].get<std::string>()[0], a[1].get<int>()}); }
        const bool rec = j["k"] == "rec";
        // a line per event: its number is the number of the node, "k" are its children
        const uint64_t root = ++node;
        std::fflush(fo);
        sim::Limits l = lim;
        l.seed = lim.seed * 1000003 + static_cast<uint64_t>(n);
        const int st = sim::Isolated(sh, 60, [&]
        {
            auto write = [&](const sim::Trie& t) { t.Write(fo, root, "\"e\":\"Begin\",\"i\":" + std::to_string(n) + ",\"th\":" + std::to_string(p.size())); pnode[0] = root + t.lines.size() - 1; };
            sim::Options o;
            sim::Explore(l, sh, [&](const std::vector<sim::Dev>& d, const sim::Options& oo, const std::function<void(const sim::Result&)>& stuck)
            { return rec ? RunOne<mvlt::RecursiveReadWriteMutex>(p, d, oo, stuck) : RunOne<mvlt::ReadWriteMutex>(p, d, oo, stuck); }, write, o);
        });
        runs += sh->runs;
        const bool ok = st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok) ++bad;
        if (!ok && !(st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 93))
        {
            if (st != -1 && WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 95 || WEXITSTATUS(st) == 94)) return 3;
            std::fprintf(fo, "{\"k\":[%llu],\"e\":\"Begin\",\"i\":%ld,\"th\":%zu}\n{\"k\":[],\"e\":\"Dead\",\"what\":\"%s\",\"d\":%s}\n", static_cast<unsigned long long>(root + 1), n, p.size(), st == -1 ? "Hang" : "Crash",
                         sim::SharedSchedule(sh).c_str());
            pnode[0] = root + 1;
        }
        node = pnode[0];
        if (bad >= 12) break;
    }
    std::fprintf(fo, "{\"k\":[],\"e\":\"Eof\",\"runs\":%llu}\n", static_cast<unsigned long long>(runs));
    std::fclose(fo);
    return 0;
}
