#include "c19.hpp"

using mc::P;
using mc::PB;

MC_SCENARIO(atomic_unsigned, "C19", 4) {
  switch (P(6)) {
    case 0:
      return c19::Run<std::uint8_t>("uint8");
    case 1:
      return c19::Run<std::uint16_t>("uint16");
    case 2:
      return c19::Run<std::uint32_t>("uint32");
    case 3:
      return c19::Run<std::uint64_t>("uint64");
    case 4:
      return c19::Run<char16_t>("char16_t");
    default:
      return c19::Run<unsigned long long>("ull");
  }
}
