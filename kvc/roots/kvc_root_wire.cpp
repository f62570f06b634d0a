// Extraction root: messages as bytes and as text, and the message bus over sockets.
#include <spdlog/spdlog.h>
#include "knp/core-library/impl/messaging/message_envelope.cpp"
#include "knp/core-library/impl/messaging/spike_message.cpp"
#include "knp/core-library/impl/messaging/synaptic_impact_message.cpp"
#include "knp/core-library/impl/message_bus_zmq_impl/message_endpoint_zmq_impl.cpp"
#include "knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp"
