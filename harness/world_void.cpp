#include "world.hpp"
namespace vf { void world_void(const profile& p, uint64_t s) { run_world<1>(p, s); } }
