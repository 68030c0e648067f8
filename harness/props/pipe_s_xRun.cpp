#include "pipe_src.hpp"

template pl::Any pl::RunOne<pl::xRun>(pl::Step&, int);
template pl::Any pl::RunOne<pl::xRunE>(pl::Step&, int);
