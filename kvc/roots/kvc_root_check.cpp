// Extraction root: validation of networks.
#include <spdlog/spdlog.h>
#include "knp/base-framework/impl/network_validation/executor.cpp"
#include "knp/base-framework/impl/network_validation/validators/connectivity.cpp"
