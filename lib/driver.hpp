#include <string>
#include <vector>
#include <map>
#include <functional>
#include "src/main/vx/core.hpp"
typedef vx_core::Type_any (*vf_fn)(std::vector<vx_core::Type_any>&);
