#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 2, false>(pl::Any&&, pl::Step&);
