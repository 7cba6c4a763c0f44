#include "ReadBufferFixedSize.h"
template class EmbeddedProto::ReadBufferFixedSize<8>;
