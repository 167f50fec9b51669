#pragma once
#include <string>
struct LibExp {
   std::string file, fn, expr, level;
   int line = 0, value = 0;
};
