// Extraction root: logs of a running model.
#include <cmath>
#include <spdlog/spdlog.h>
#include "knp/base-framework/impl/monitoring/model.cpp"
