#include "WireFormatter.h"
bool f(EmbeddedProto::WriteBufferInterface& w, EmbeddedProto::ReadBufferInterface& r)
{ using W = EmbeddedProto::WireFormatter; uint32_t a = 0; uint64_t b = 0; W::WireType t; W::DeserializeVarint(r, a); W::DeserializeVarint(r, b);
  W::DeserializeTag(r, t, a); float x = 0; double y = 0; W::DeserializeFloat(r, x); W::DeserializeDouble(r, y);
  return W::SerializeVarint(b, w) == EmbeddedProto::Error::NO_ERRORS && W::MakeTag(1, W::WireType::VARINT) == 8; }
