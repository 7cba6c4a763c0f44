#include "WriteBufferFixedSize.h"
template class EmbeddedProto::WriteBufferFixedSize<8>;
