#include "c19.hpp"

using mc::P;
using mc::PB;

MC_SCENARIO(atomic_signed, "C19", 4) {
  switch (P(5)) {
    case 0:
      return c19::Run<std::int8_t>("int8");
    case 1:
      return c19::Run<std::int16_t>("int16");
    case 2:
      return c19::Run<std::int32_t>("int32");
    case 3:
      return c19::Run<std::int64_t>("int64");
    default:
      return c19::Run<char>("char");
  }
}
