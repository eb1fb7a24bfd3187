// The clock seen by the code under test. Linked with --wrap, so that only the harness decides what time it is.
#pragma once
#include <cstdint>
namespace vclock {
extern volatile int64_t system_ns; // what system_clock::now() says, since the epoch
extern volatile int64_t steady_ns; // what steady_clock::now() says
extern volatile int64_t auto_advance_ns; // added to both after each reading
extern volatile uint64_t readings;
extern volatile bool real; // pass the real clocks through
void reset();
void advance(int64_t ns); // real passage of time
void jump(int64_t ns); // somebody adjusts the system clock
} // namespace vclock
