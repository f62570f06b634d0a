// Extraction root: devices and their selection.
#include <cmath>
#include <spdlog/spdlog.h>
#include "knp/core-library/impl/backend.cpp"
#include "knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"
