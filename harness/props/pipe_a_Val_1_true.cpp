#include "pipe_attach.hpp"

template pl::Any pl::Attach<h::Val, 1, true>(pl::Any&&, pl::Step&);
