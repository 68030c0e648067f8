// C02: a pipeline computes what its steps say
#include "pipe_run.hpp"

namespace {

using namespace pl;

MC_SCENARIO(pipeline, "C02", 3) {
  Body(false, P(3) == 2);
}
MC_SCENARIO(pipeline_refused, "C02", 1) {
  Body(true, P(3) == 2);
}

}  // namespace
