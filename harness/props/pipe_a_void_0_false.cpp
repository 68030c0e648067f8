#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 0, false>(pl::Any&&, pl::Step&);
