#pragma once
#include <stdint.h>
namespace sched {
struct Config {
  uint64_t seed;
  unsigned rate;       // of 65536, per point
  unsigned spurious;   // of 65536, per wait
  uint64_t max_switches;
  uint64_t max_steps;
  bool verbose;
};
struct Stats {
  uint64_t steps, switches, schedule, locks, contended, spurious, threads, accesses;
};
extern Stats stats;
extern void (*on_deadlock)(const char*);
void Start(const Config&);
void Stop();
bool Active();
int Self();
void Point();
}  // namespace sched
