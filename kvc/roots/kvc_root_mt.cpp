// Extraction root: the multi-threaded backend and its thread pool.
#include <cmath>
#include <spdlog/spdlog.h>
#include "knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp"
#include "knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp"
#include "knp/backends/cpu/cpu-multi-threaded-backend/impl/get_network.cpp"
