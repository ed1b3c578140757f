// Cooperative scheduler of real threads: exactly one runs, and control changes hands only at scheduling
// points (operations of the replaced primitives of shim.h, and whatever else calls sim::Point).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sim
{
enum Kind { kLock, kUnlock, kAtomic, kWait, kNotify, kAlloc, kUser, kBetween };

// What the running thread may call
bool InRun();                       // this thread belongs to a run
int Self();                         // its number, -1 outside a run
void Point(Kind k);                 // a scheduling point
void Block(const void* obj);        // waits until Wake(obj); returns after it was woken and scheduled
void BlockCv(const void* obj);      // the same, but a schedule may wake it without a reason
void Wake(const void* obj, bool all);
void Event(const std::string& e);   // appends to the trace of the run
void Misuse(const char* what);      // an operation whose behaviour is undefined

// One deviation from the default schedule (run on; when blocked, the next thread in order)
struct Dev { uint32_t step; uint32_t alt; };    // alt: which other thread; 1000 + i: wake waiter i of a condition variable
struct Result
{
    std::vector<std::string> trace;
    std::vector<uint8_t> alts;      // how many other threads could have run at the step
    std::vector<uint8_t> spur;      // how many waiters could have been woken at the step
    uint32_t steps = 0;
    std::string stuck;              // "" or "Deadlock" or "Livelock" or a misuse: the process cannot go on after that
};
// The threads live as long as the process does.  body(t): the work of thread t.  It calls Between() where it is outside of any call.
void Between();
void Resume();
struct Options
{
    bool quiet = true;              // record quiet moments (see Quiet)
    uint32_t maxSteps = 20000;      // more is a livelock
    uint32_t spin = 6;              // so many atomic steps in a row, or
    uint32_t fair = 150;            // so many steps of any kind without an event: the others get a turn
    uint64_t rnd = 0;
    uint32_t rndPermille = 0;       // random switches
};
Result Run(int threads, const std::function<void(int)>& body, const std::vector<Dev>& devs, const Options& o, const std::function<void(const Result&)>& onStuck);
bool PointsOff();
// A lock that blocks, or a misuse, outside of a run: the program left something behind.  Does not come back.
void SetOutside(const std::function<void(const std::string&)>* f);
void NoPoints(bool on);             // this thread: no scheduling points (a blocked operation still switches)
}
