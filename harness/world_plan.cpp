#include "world.hpp"
namespace vf { void world_plan(const profile& p, uint64_t s) { run_world<3>(p, s); } }
