#include "simsched.h"
#include <semaphore.h>
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
namespace sim
{
enum State { Runnable, Blocked, BlockedCv, Finished };
struct Thread { State st = Runnable; const void* obj = nullptr; sem_t sem; bool between = true; pthread_t tid; int n; };
static const int MaxThreads = 8;
static Thread Th[MaxThreads];
static int N = 0, Cur = -1;
static thread_local int Me = -1;
static thread_local bool Off = false;
static Result* Res = nullptr;
static const std::vector<Dev>* Devs = nullptr;
static size_t NextDev = 0;
static Options Opt;
static uint64_t Rnd = 0;
static sem_t MainSem;
static const std::function<void(int)>* Body = nullptr;
static const std::function<void(const Result&)>* OnStuck = nullptr;
static uint32_t Spin = 0, Alone = 0, OffSpin = 0;
static int Workers = 0;

bool InRun() { return Me >= 0; }
int Self() { return Me; }
void NoPoints(bool on) { Off = on; }
bool PointsOff() { return Off; }
void Event(const std::string& e) { if (Res && Me >= 0) { Res->trace.push_back(e); Alone = 0; } }

static const std::function<void(const std::string&)>* Outside = nullptr;
void SetOutside(const std::function<void(const std::string&)>* f) { Outside = f; }
static void Stuck(const std::string& what)
{
    Off = true;
    Res->stuck = what;
    (*OnStuck)(*Res);       // does not come back
    _exit(93);
}
void Misuse(const char* what)
{
    if ((Me < 0 || !Res) && Outside) (*Outside)(what);
    if (Me < 0 || !Res) { std::fprintf(stderr, "sim: misuse outside of a run: %s\n", what); _exit(94); }
    Stuck(what);
}
static uint64_t Random() { Rnd ^= Rnd << 13; Rnd ^= Rnd >> 7; Rnd ^= Rnd << 17; return Rnd; }

// Everybody is outside of a call, blocked or finished: a moment at which who waits must have a reason to
static void Quiet()
{
    if (!Opt.quiet) return;
    std::string b;
    for (int i = 0; i < N; ++i)
    {
        if (Th[i].st == Finished) continue;
        if (Th[i].st == Runnable && !Th[i].between) return;
        if (Th[i].st != Runnable) b += (b.empty() ? "" : ",") + std::to_string(i + 1);
    }
    if (b.empty()) return;
    const std::string e = "{\"e\":\"Q\",\"b\":[" + b + "]}";
    if (!Res->trace.empty() && Res->trace.back() == e) return;
    Res->trace.push_back(e);
}

// Chooses who runs next.  canStay: the current thread may go on
static int Choose(bool canStay)
{
    const uint32_t step = Res->steps++;
    if (Res->steps > Opt.maxSteps) Stuck("Livelock");
    Quiet();
    int others[MaxThreads], n = 0, cv[MaxThreads], m = 0;
    for (int k = 1; k <= N; ++k)
    {
        const int i = (Cur + k) % N;
        if (i == Cur && k == N && Th[i].st != BlockedCv) continue;
        if (Th[i].st == Runnable && i != Cur) others[n++] = i;
        if (Th[i].st == BlockedCv) cv[m++] = i;
    }
    Res->alts.push_back(static_cast<uint8_t>(canStay ? n : n > 0 ? n - 1 : 0));
    Res->spur.push_back(static_cast<uint8_t>(m));
    int next = canStay ? Cur : n > 0 ? others[0] : -1;
    while (Devs && NextDev < Devs->size() && (*Devs)[NextDev].step <= step)
    {
        const Dev d = (*Devs)[NextDev++];
        if (d.step != step) continue;
        if (d.alt >= 1000)
        {
            const int w = static_cast<int>(d.alt - 1000);
            if (w < m) { Th[cv[w]].st = Runnable; Th[cv[w]].obj = nullptr; next = cv[w]; }
        }
        else
        {
            const int a = static_cast<int>(d.alt) + (canStay ? 0 : 1);
            if (a < n) next = others[a];
        }
    }
    if (Opt.rndPermille && n > 0 && Random() % 1000 < Opt.rndPermille) next = others[Random() % static_cast<uint64_t>(n)];
    ++Alone;
    if (canStay && next == Cur && (Spin > Opt.spin || Alone > Opt.fair) && n > 0) next = others[0];     // a thread that waits by trying again needs the others
    if (next != Cur) { Spin = 0; Alone = 0; }
    return next;
}
static void Switch(int next)
{
    const int me = Me;
    if (next == me) return;
    Cur = next;
    sem_post(&Th[next].sem);
    while (sem_wait(&Th[me].sem) != 0) {}
}
void Point(Kind k)
{
    if (Me < 0) return;
    if (Off)
    {   // even then a thread that tries again and again lets the others run
        if (k == kAtomic && ++OffSpin > 100) { OffSpin = 0; const int next = Choose(false); if (next >= 0) Switch(next); }
        return;
    }
    if (k == kAtomic || k == kNotify) ++Spin; else if (k != kAlloc) Spin = 0;
    Switch(Choose(true));
}
static void BlockAs(const void* obj, State s)
{
    if (Me < 0 && Outside) (*Outside)("a lock is still held in the end");
    if (Me < 0) { std::fprintf(stderr, "sim: a lock is held by nobody who can release it\n"); _exit(95); }
    Th[Me].st = s;
    Th[Me].obj = obj;
    const int next = Choose(false);
    if (next < 0)
    {
        // a waiter may still be woken by a deviation, but nobody has to
        Stuck("Deadlock");
    }
    Switch(next);
}
void Block(const void* obj) { BlockAs(obj, Blocked); }
void BlockCv(const void* obj) { BlockAs(obj, BlockedCv); }
void Wake(const void* obj, bool all)
{
    for (int i = 0; i < N; ++i)
        if ((Th[i].st == Blocked || Th[i].st == BlockedCv) && Th[i].obj == obj)
        {
            Th[i].st = Runnable;
            Th[i].obj = nullptr;
            if (!all) return;
        }
}
void Between() { if (Me < 0) return; Th[Me].between = true; Point(kBetween); }
void Resume() { if (Me >= 0) Th[Me].between = false; }

static void* Main(void* p)
{
    const int t = static_cast<int>(reinterpret_cast<intptr_t>(p));
    while (true)
    {
        while (sem_wait(&Th[t].sem) != 0) {}
        Me = t;
        Off = false;
        (*Body)(t);
        Th[t].between = true;
        Th[t].st = Finished;
        bool all = true;
        for (int i = 0; i < N; ++i) all = all && Th[i].st == Finished;
        if (all) { Me = -1; sem_post(&MainSem); continue; }
        const int next = Choose(false);
        if (next < 0) Stuck("Deadlock");
        Me = -1;
        Cur = next;
        sem_post(&Th[next].sem);
    }
    return nullptr;
}
Result Run(int threads, const std::function<void(int)>& body, const std::vector<Dev>& devs, const Options& o, const std::function<void(const Result&)>& onStuck)
{
    Result r;
    Res = &r; N = threads; Devs = &devs; NextDev = 0; Opt = o; Rnd = o.rnd * 0x9E3779B97F4A7C15ull + 88172645463325252ull; Body = &body; OnStuck = &onStuck; Spin = 0; Alone = 0;
    r.alts.reserve(512); r.spur.reserve(512);
    if (Workers == 0) sem_init(&MainSem, 0, 0);
    for (; Workers < N; ++Workers)
    {
        sem_init(&Th[Workers].sem, 0, 0);
        if (pthread_create(&Th[Workers].tid, nullptr, Main, reinterpret_cast<void*>(static_cast<intptr_t>(Workers))) != 0) { std::fprintf(stderr, "sim: no thread\n"); _exit(3); }
    }
    for (int i = 0; i < N; ++i) { Th[i].st = Runnable; Th[i].obj = nullptr; Th[i].between = true; }
    Cur = 0;
    // the first thread to run may deviate as well: step 0 is the first point of thread 0
    sem_post(&Th[0].sem);
    while (sem_wait(&MainSem) != 0) {}
    Res = nullptr;
    return r;
}
}
