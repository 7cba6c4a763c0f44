#include "FieldStringBytes.h"
template class EmbeddedProto::FieldString<8>;
template class EmbeddedProto::FieldBytes<8>;
