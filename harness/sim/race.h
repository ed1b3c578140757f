// Happens-before tracking of the memory accesses of a run.  The library is compiled with -fsanitize=thread; race.cpp
// answers the calls the compiler inserts (instead of libtsan), so that the order in which the scheduler happened to
// run the threads is not mistaken for synchronisation.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim
{
static const int kMaxRace = 4;
struct Clock { uint32_t run = 0; uint32_t c[kMaxRace] = {0, 0, 0, 0}; };
void Acquire(const Clock& k);       // everything released into k happened before
void Release(Clock& k);
void RaceBegin(int threads);        // a run begins / ends (main thread)
void RaceEnd();
// While it is on, what the thread does is the harness's own: no scheduling points, no tracking
void Mute(bool on);
bool IsMuted();
// While one exists in a thread its memory accesses are not the library's
struct In { In(); ~In(); };
}
