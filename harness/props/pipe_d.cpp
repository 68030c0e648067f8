#include "pipe_attach.hpp"

template void pl::DetachWith<h::Val, 0>(pl::Any&&, pl::Step&);
template void pl::DetachWith<h::Val, 1>(pl::Any&&, pl::Step&);
template void pl::DetachWith<void, 0>(pl::Any&&, pl::Step&);
template void pl::DetachWith<void, 1>(pl::Any&&, pl::Step&);
