#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 1, false>(pl::Any&&, pl::Step&);
