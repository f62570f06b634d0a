// Extraction root: the single-threaded backend and the backend base class.
#include <cmath>
#include <spdlog/spdlog.h>
#include "knp/core-library/impl/backend.cpp"
#include "knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp"
#include "knp/backends/cpu/cpu-single-threaded-backend/impl/get_network.cpp"
