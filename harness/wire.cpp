// The static functions of the wire formatter (C06, C07, C10) and the value semantics of the scalar fields (C19).
#include "scalar.h"
#include <utility>
using namespace EmbeddedProto;

#define WRITERS(X) X(int32, SerializeInt) X(int64, SerializeInt) X(uint32, SerializeUInt) X(uint64, SerializeUInt) \
  X(sint32, SerializeSInt) X(sint64, SerializeSInt) X(fixed32, SerializeFixed) X(fixed64, SerializeFixed) \
  X(sfixed32, SerializeSFixed) X(sfixed64, SerializeSFixed) X(floatfixed, SerializeFloat) X(doublefixed, SerializeDouble) X(boolean, SerializeBool)
#define W1(T, F) \
ENTRY wire_##T() \
{ \
  using R = Ref<T>::R; const R v = Ref<T>::any(); const uint32_t number = ep_any_range(1, 536870911U); \
  if(ep_any_bool()) \
  { \
    Out out(64); const Error e = WireFormatter::F(number, v, out); uint32_t pos = 0; \
    ep_check(Error::NO_ERRORS == e, "C06: encoding into a buffer with space succeeds"); \
    expect_tag(out, pos, number, Ref<T>::wire, "C06: the tag is the field number with the wire type of the field"); \
    if(Ref<T>::fixed) { expect_fixed(out, pos, Ref<T>::payload(v), Ref<T>::bytes, "C06: the encoding is the little endian fixed width value"); } \
    else { expect_varint(out, pos, Ref<T>::payload(v), "C06: the encoding is the shortest varint of the value"); } \
    ep_check(pos == out.n, "C06: nothing but the tag and the value is written"); \
  } \
  else \
  { \
    Flaky out; const Error e = WireFormatter::F(number, v, out); \
    ep_check(out.refused == (Error::NO_ERRORS != e), "C10: a refused write is reported, and only that"); \
  } \
}
WRITERS(W1)

ENTRY wire_enum()
{
  const uint32_t v = ep_any_u32(); const uint32_t number = ep_any_range(1, 536870911U);
  Out out(64); const Error e = WireFormatter::SerializeEnum(number, v, out); uint32_t pos = 0;
  ep_check(Error::NO_ERRORS == e, "C06: encoding into a buffer with space succeeds");
  expect_tag(out, pos, number, 0, "C06: the tag is the field number with the wire type of the field");
  expect_varint(out, pos, v, "C06: the encoding is the shortest varint of the value");
  ep_check(pos == out.n, "C06: nothing but the tag and the value is written");
}

enum class Color : uint32_t { RED = 0, BLUE = 0x7FFFFFFF };

// One value of a scalar field: every way to put it in, every way to look at it.
template<class T> static void wrap()
{
  using R = typename Ref<T>::R;
  const R a = Ref<T>::any();
  const R other = Ref<T>::any();
  T f(other);
  R w = a;
  T g(a);
  const T cg(a);
  switch(ep_any_range(0, 9))
  {
    case 0: f.set(a); break;
    case 1: f.set(std::move(w)); break;
    case 2: f.set(g); break;
    case 3: f.set(std::move(g)); break;
    case 4: f = a; break;
    case 5: f = std::move(w); break;
    case 6: f = cg; break;
    case 7: f = std::move(g); break;
    case 8: f.get() = a; break;
    default: { T h(cg); f = static_cast<R>(h); break; }
  }
  const T& c = f;
  ep_check(same_bits<R>(a, c.get()), "C19: a scalar field holds the value put into it");
  ep_check(same_bits<R>(a, f.get()), "C19: both forms of get give the value");
  const R conv = c;
  ep_check(same_bits<R>(a, conv), "C19: a scalar field converts to its value");
  ep_check(same_bits<R>(a, cg.get()), "C19: a field put into another one is unchanged");
  const T copy(f);
  ep_check(same_bits<R>(a, copy.get()), "C19: a copy holds the value");
}
#define CMP(OP) ep_check((f OP b) == (a OP b), "C19: comparing a field with a value compares the values"); \
                ep_check((f OP g) == (a OP b), "C19: comparing two fields compares the values");
template<class T> static void compare()
{
  using R = typename Ref<T>::R;
  const R a = Ref<T>::any();
  const R b = Ref<T>::any();
  T f(a);
  const T g(b);
  switch(ep_any_range(0, 5))
  {
    case 0: CMP(==) break;
    case 1: CMP(!=) break;
    case 2: CMP(<) break;
    case 3: CMP(>) break;
    case 4: CMP(<=) break;
    default: CMP(>=) break;
  }
  ep_check(same_bits<R>(a, f.get()) && same_bits<R>(b, g.get()), "C19: comparing does not change a field");
}
#define ALL(X) X(int32) X(int64) X(uint32) X(uint64) X(sint32) X(sint64) X(boolean) X(fixed32) X(fixed64) X(sfixed32) \
  X(sfixed64) X(floatfixed) X(doublefixed)
#define V1(T) ENTRY wrap_##T() { wrap<T>(); } ENTRY comp_##T() { compare<T>(); }
ALL(V1)
ENTRY wrap_enumeration() { wrap<enumeration<Color>>(); }
ENTRY comp_enumeration() { compare<enumeration<Color>>(); }

// Fields of different types, where the language compares the values without converting a negative one to unsigned.
template<class T, class U> static void mixed()
{
  const typename Ref<T>::R a = Ref<T>::any();
  const typename Ref<U>::R b = Ref<U>::any();
  T f(a);
  const U g(b);
  ep_check((f == g) == (a == b), "C19: comparing two fields compares the values");
  ep_check((f != g) == (a != b), "C19: comparing two fields compares the values");
  ep_check((f < g) == (a < b), "C19: comparing two fields compares the values");
  ep_check((f > g) == (a > b), "C19: comparing two fields compares the values");
  ep_check((f <= g) == (a <= b), "C19: comparing two fields compares the values");
  ep_check((f >= g) == (a >= b), "C19: comparing two fields compares the values");
}
ENTRY comp_i32_i64() { mixed<int32, int64>(); }
ENTRY comp_u64_u32() { mixed<uint64, fixed32>(); }
ENTRY comp_i64_u32() { mixed<sint64, uint32>(); }
ENTRY comp_s32_i32() { mixed<sfixed32, sint32>(); }

// The size a scalar field announces.
template<class T> static void size()
{
  const typename Ref<T>::R v = Ref<T>::any();
  const T f(v);
  Out out(16);
  const uint32_t n = f.serialized_size();
  f.serialize(out);
  ep_check(n == out.n, "C13: the size announced by a scalar field is the number of bytes written");
  ep_check(same_bits<typename Ref<T>::R>(v, f.get()), "C14: computing the size does not change the field");
}
#define Z1(T) ENTRY size_##T() { size<T>(); }
ALL(Z1)
ENTRY size_enumeration() { size<enumeration<Color>>(); }

ENTRY wire_read_enum()
{
  In in(ep_any_range(0, 0xFFFFFFFFU));
  const uint32_t old = ep_any_u32();
  Color c = static_cast<Color>(old);
  uint32_t pos = 0;
  uint64_t p = 0;
  const int r = ref_varint(in, pos, 10, p);
  const Error e = WireFormatter::DeserializeEnum(in, c);
  if(0 == r)
  {
    ep_check(Error::NO_ERRORS == e, "C07: a complete encoding is accepted");
    ep_check(static_cast<uint32_t>(p) == static_cast<uint32_t>(c), "C07: the value decoded is the value encoded");
    ep_check(pos == in.pos, "C07: exactly the bytes of the encoding are consumed");
  }
  else
  {
    ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "C07: a truncated or overlong encoding is reported");
    ep_check(old == static_cast<uint32_t>(c), "C07: a rejected encoding leaves the value");
  }
}
