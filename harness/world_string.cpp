#include "world.hpp"
namespace vf { void world_string(const profile& p, uint64_t s) { run_world<2>(p, s); } }
