#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 0, true>(pl::Any&&, pl::Step&);
