#include "world.hpp"
namespace vf { void world_int(const profile& p, uint64_t s) { run_world<0>(p, s); } }
