// The outside world of a case: virtual time, background threads, random seeds, TF, files.
#pragma once
#include <cstdint>
namespace world
{
// A fresh world: no files, no transforms, time at 1000 s; random devices give numbers derived from
// `seed`.
void reset(uint64_t seed);
int64_t begin_ns();                  // when it was
// Lets `seconds` of virtual time pass. Background threads run in order of their wake-up times, one
// at a time, each until it sleeps again.
void advance(double seconds);
// Waits until every background thread has come to its first stop
void settle();
// For stand-ins running in background threads: the thread stops here for `seconds` of virtual time, so
// that others run in between. Goes on by itself when nothing happens for a while of real time (the
// others may be waiting for a lock that this thread holds).
void pause(double seconds);
// For stand-ins running in any thread: `seconds` pass here, in which other threads run
void lapse(double seconds);
// Is a thread in such a pause?
bool pausing();
// From now on, threads are interrupted for a while, in which others run, at locking and unlocking, logging, asking
// for the time and publishing: each time with `percent` probability, drawn from `seed`. Ends with reset() or stop().
void interrupt(uint64_t seed, unsigned percent);
// How often that happened
unsigned interruptions();
// In a background thread?
bool background();
// Ends the world: rclcpp::ok() becomes false and sleeping threads go on
void stop();
}  // namespace world
