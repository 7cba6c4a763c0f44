#include "RepeatedFieldFixedSize.h"
#include "FieldStringBytes.h"
template class EmbeddedProto::RepeatedFieldFixedSize<EmbeddedProto::uint32, 3>;
template class EmbeddedProto::RepeatedFieldFixedSize<EmbeddedProto::floatfixed, 3>;
template class EmbeddedProto::RepeatedFieldFixedSize<EmbeddedProto::FieldString<4>, 3>;
