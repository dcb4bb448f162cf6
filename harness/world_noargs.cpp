#define WORLD_NOARGS
#include "world.hpp"
namespace vf { void world_noargs(const profile& p, uint64_t s) { run_world<4>(p, s); } }
