// Runs programs of concurrent calls (one per line: {"init":[calls],"p":[[calls of thread 1],...]}) in the real library
// in many schedules and writes the distinct histories as trees: Call and Ret of every call, and the state in the end.
#include "../driver.cpp"
#include "explore.h"

static J ResultOf(const J& ev)
{
    J r = J::object();
    for (const char* f : {"ok", "code", "key", "rt", "sv", "oin", "out", "seq", "rows", "names", "tot"}) r[f] = ev[f];
    return r;
}
static std::string Ev(const char* e, int t, int d, const char* f, const J& x)
{
    J o = {{"e", e}, {"t", t + 1}, {"d", d}};
    if (std::strcmp(f, "res") == 0) for (auto it = x.begin(); it != x.end(); ++it) o[it.key()] = it.value();
    else o[f] = x;
    return o.dump(-1, ' ', true);
}
static thread_local int Deep = 0;
static void OneCall(World& w, const J& op)
{
    const int t = sim::Self();
    { Calm c; sim::Event(Ev("Call", t, Deep, "op", op)); }
    J ev;
    { Calm c; ev = J{{"ok", true}, {"code", "-"}, {"key", "-"}, {"rt", "-"}, {"sv", "-"}, {"oin", 0}, {"out", 0}, {"seq", J::array()}, {"rows", J::array()}, {"names", J::array()}, {"tot", 0}}; }
    RunOp(w, op, ev);
    {
        Calm c;
        J r = ResultOf(ev);
        // the record that the call put into a ref; -1: the call does not
        const std::string o = op.at("o").get<std::string>();
        int ref = -1;
        if ((o == "Create" && op.at("r").get<int>() != 0) || o == "GetRec" || o == "SortRef") ref = w.IdOf(*w.R[op.at("r").get<int>()]);
        r["ref"] = ref;
        sim::Event(Ev("Ret", t, Deep, "res", r));
    }
}
static void Nested(World& w, const J& op, int n)
{
    if (!sim::InRun() || n != 1 || !op.contains("cb")) return;
    ++Deep;
    for (const J& x : op.at("cb")) { sim::Point(sim::kUser); OneCall(w, x); }
    --Deep;
}

static sim::Result RunOne(const J& init, const J& prog, int salt, const std::vector<sim::Dev>& devs, const sim::Options& o, const std::function<void(const sim::Result&)>& stuck)
{
    sim::Result r;
    std::function<void(const std::string&)> outside = [&](const std::string& what) { sim::Result b = r; b.stuck = what; stuck(b); };
    sim::SetOutside(&outside);
    {
        World w;
        w.Salt = salt;
        for (const J& op : init)
        {
            J ev = J::object();
            if (!Possible(w, op)) { std::fprintf(stderr, "concdriver: impossible call %s\n", op.dump().c_str()); _exit(3); }
            RunOp(w, op, ev);
        }
        w.ByKey = true;
        const auto body = [&](int t) { Deep = 0; for (const J& op : prog[static_cast<size_t>(t)]) { sim::Point(sim::kUser); OneCall(w, op); } };
        sim::RaceBegin(static_cast<int>(prog.size()));
        r = sim::Run(static_cast<int>(prog.size()), body, devs, o, stuck);
        sim::RaceEnd();
        w.ByKey = false;
        J e = {{"e", "Final"}, {"view", View(w)}};
        J pb = J::array();
        for (int i = 1; i <= NV; ++i) if (w.V[i] && w.V[i]->Size() != 0) pb.push_back(ProbeHost(w, "v", i));
        for (int i = 1; i <= NS; ++i) if (w.S[i] && w.S[i]->GetIsParentVaultValid()) pb.push_back(ProbeHost(w, "s", i));
        e["pb"] = pb;
        r.trace.push_back(e.dump(-1, ' ', true));
    }
    sim::SetOutside(nullptr);
    return r;
}

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };

int main(int argc, char** argv)
{
    if (!std::getenv("MV_NOASLR"))
    {
        setenv("MV_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string in = argv[1], out = argv[2];
    sim::Limits lim;
    lim.spurious = false;
    long only = -1;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--bound") lim.bound = std::stoi(v);
        if (k == "--cap") lim.cap = static_cast<uint32_t>(std::stoul(v));
        if (k == "--random") lim.random = static_cast<uint32_t>(std::stoul(v));
        if (k == "--leaves") lim.leaves = static_cast<uint32_t>(std::stoul(v));
        if (k == "--seed") lim.seed = std::stoull(v);
        if (k == "--only") only = std::stol(v);
    }
    mvlt::SetBackTraceFormat(mvlt::BackTraceFormat::None);
    AllOps = {MakeOps_int(), MakeOps_str(), MakeOps_dbl(), MakeOps_bool(), MakeOps_u64(), MakeOps_cus()};
    for (auto* o : AllOps) for (int i = 0; i < o->DomSize(); ++i) o->Str(i);      // function statics come into being
    static NullBuf none;
    std::cout.rdbuf(&none);
    std::ifstream f(in);
    std::string line;
    std::FILE* fo = std::fopen(out.c_str(), "w");
    if (!fo) return 3;
    sim::Shared* sh = sim::MakeShared();
    long n = -1, bad = 0;
    uint64_t node = 0, runs = 0, *pnode = static_cast<uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    while (std::getline(f, line))
    {
        if (line.empty()) continue;
        ++n;
        if (only >= 0 && n != only) continue;
        const J j = J::parse(line);
        const J& init = j.at("init");
        const J& prog = j.at("p");
        const uint64_t root = ++node;
        std::fflush(fo);
        sim::Limits l = lim;
        l.seed = lim.seed * 1000003 + static_cast<uint64_t>(n);
        const std::string head = "\"e\":\"Begin\",\"i\":" + std::to_string(n) + ",\"init\":" + init.dump(-1, ' ', true);
        const int st = sim::Isolated(sh, 60, [&]
        {
            auto write = [&](const sim::Trie& t) { t.Write(fo, root, head); pnode[0] = root + t.lines.size() - 1; };
            sim::Options o;
            o.quiet = false; o.fair = 4000; o.maxSteps = 60000;
            sim::Explore(l, sh, [&](const std::vector<sim::Dev>& d, const sim::Options& oo, const std::function<void(const sim::Result&)>& stuck)
            { return RunOne(init, prog, static_cast<int>(n % 8), d, oo, stuck); }, write, o);
        });
        runs += sh->runs;
        const bool ok = st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok) ++bad;
        if (!ok && !(st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 93))
        {
            if (st != -1 && WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 95 || WEXITSTATUS(st) == 94)) return 3;
            std::fprintf(fo, "{\"k\":[%llu],%s}\n{\"k\":[],\"e\":\"Dead\",\"what\":\"%s\",\"d\":%s}\n", static_cast<unsigned long long>(root + 1), head.c_str(), st == -1 ? "Hang" : "Crash",
                         sim::SharedSchedule(sh).c_str());
            pnode[0] = root + 1;
        }
        node = pnode[0];
        if (bad >= 12) break;
    }
    std::fprintf(fo, "{\"k\":[],\"e\":\"Eof\",\"runs\":%llu}\n", static_cast<unsigned long long>(runs));
    std::fclose(fo);
    return 0;
}
