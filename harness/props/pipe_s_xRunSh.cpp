#include "pipe_src.hpp"

template pl::Any pl::RunOne<pl::xRunSh>(pl::Step&, int);
template pl::Any pl::RunOne<pl::xRunShE>(pl::Step&, int);
