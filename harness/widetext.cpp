// Text rendering of fields with many elements into a short array: it ends, and the text is terminated.
#include "io.h"
#include <RepeatedFieldFixedSize.h>
#include <Fields.h>
#include <FieldStringBytes.h>
using namespace EmbeddedProto;

template<class F> static void show(const F& f)
{
  ep_must("C20 C23: rendering many elements ends");
  char room[40];
  string_view all{room, 40};
  const string_view left = f.to_string(all, 2, "m", true);
  ep_check(0 == left.size, "C20: what is left of the array is returned");
  ep_check(0 == room[39], "C20: the text is terminated");
}
ENTRY widetext_bytes() { FieldBytes<260> f; for(uint32_t i = 0; i < 260; i = i + 1) { f[i] = 1; } show(f); }
ENTRY widetext_rep() { RepeatedFieldFixedSize<boolean, 260> f; (void)f.get(259); show(f); }
ENTRY widetext_string() { FieldString<260> f; for(uint32_t i = 0; i < 260; i = i + 1) { f[i] = 'x'; } show(f); }
