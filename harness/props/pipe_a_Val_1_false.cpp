#include "pipe_attach.hpp"

template pl::Any pl::Attach<h::Val, 1, false>(pl::Any&&, pl::Step&);
