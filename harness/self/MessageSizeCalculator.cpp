#include "MessageSizeCalculator.h"
uint32_t f() { EmbeddedProto::MessageSizeCalculator c; c.push(static_cast<uint8_t>(1)); c.clear(); return c.get_size() + c.get_max_size() + c.get_available_size(); }
