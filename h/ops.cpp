#include "ops.hpp"
std::vector<TypeOps>& registry() { static std::vector<TypeOps> r; return r; }
