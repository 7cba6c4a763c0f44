#include "ReadBufferSection.h"
bool f(EmbeddedProto::ReadBufferInterface& b) { EmbeddedProto::ReadBufferSection s(b, 3); uint8_t x; return s.peek(x) || s.pop(x) || s.advance() || s.advance(2) || s.get_size(); }
