#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 1, true>(pl::Any&&, pl::Step&);
