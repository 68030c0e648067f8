#include "pipe_src.hpp"

template pl::Any pl::RunOne<pl::xSchedule>(pl::Step&, int);
template pl::Any pl::RunOne<pl::xScheduleE>(pl::Step&, int);
