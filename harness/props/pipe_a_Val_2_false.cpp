#include "pipe_attach.hpp"

template pl::Any pl::Attach<h::Val, 2, false>(pl::Any&&, pl::Step&);
