#include "Fields.h"
enum class E : uint32_t { A = 0, B = 1 };
namespace EmbeddedProto {
template class FieldTemplate<Field::FieldTypes::int32, int32_t, WireFormatter::WireType::VARINT>;
}
template<class F> bool use(EmbeddedProto::WriteBufferInterface& w, EmbeddedProto::ReadBufferInterface& r)
{ F f; F g(f); g = f; f.clear(); f.serialize(w); f.serialize_with_id(1, w, true); f.deserialize(r); f.deserialize_check_type(r, EmbeddedProto::WireFormatter::WireType::VARINT); return f == g && f.get() == g.get(); }
using namespace EmbeddedProto;
bool all(WriteBufferInterface& w, ReadBufferInterface& r)
{
  return use<int32>(w, r) && use<int64>(w, r) && use<uint32>(w, r) && use<uint64>(w, r) && use<sint32>(w, r) && use<sint64>(w, r) && use<boolean>(w, r)
      && use<fixed32>(w, r) && use<fixed64>(w, r) && use<sfixed32>(w, r) && use<sfixed64>(w, r) && use<floatfixed>(w, r) && use<doublefixed>(w, r)
      && use<enumeration<E>>(w, r);
}
