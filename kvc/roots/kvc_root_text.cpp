// Extraction root: messages and identifiers compared and as text.
#include <spdlog/spdlog.h>
#include "knp/core-library/impl/messaging/spike_message.cpp"
#include "knp/core-library/impl/messaging/synaptic_impact_message.cpp"
#include "knp/core-library/impl/message_header.cpp"
#include "knp/core-library/impl/uid.cpp"
