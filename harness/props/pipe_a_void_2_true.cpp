#include "pipe_attach.hpp"

template pl::Any pl::Attach<void, 2, true>(pl::Any&&, pl::Step&);
