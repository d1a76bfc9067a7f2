#ifndef VERIF_CLOCK_HH
#define VERIF_CLOCK_HH
#include <cstdint>
namespace simclock { extern bool active; extern uint64_t ns, queries; extern int pid; }
#endif
