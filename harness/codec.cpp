// Scalar encodings (C06) and decodings (C07), for every value and every byte string.
#include "scalar.h"
#include <MessageSizeCalculator.h>
using namespace EmbeddedProto;

enum class Enumeration : uint32_t { A = 0, B = 1, C = 0x7FFFFFFF };

template<class T> static void expect_value(const Out& out, uint32_t& pos, const typename Ref<T>::R v)
{
  if(Ref<T>::fixed) { expect_fixed(out, pos, Ref<T>::payload(v), Ref<T>::bytes, "the encoding is the little endian fixed width value"); }
  else { expect_varint(out, pos, Ref<T>::payload(v), "the encoding is the shortest varint of the value"); }
}

template<class T> static void encode()
{
  const typename Ref<T>::R v = Ref<T>::any();
  T f;
  f.set(v);
  ep_check(same_bits<typename Ref<T>::R>(v, f.get()), "get returns the value set");
  Out out(64);
  if(ep_any_bool())
  {
    const Error e = f.serialize(out);
    ep_check(Error::NO_ERRORS == e, "encoding into a buffer with space succeeds");
    uint32_t pos = 0;
    expect_value<T>(out, pos, v);
    ep_check(pos == out.n, "nothing but the value is written");
  }
  else
  {
    const uint32_t number = ep_any_range(1, 536870911U);
    const Error e = f.serialize_with_id(number, out, ep_any_bool());
    ep_check(Error::NO_ERRORS == e, "encoding into a buffer with space succeeds");
    uint32_t pos = 0;
    expect_tag(out, pos, number, Ref<T>::wire, "the tag is the field number with the wire type of the field");
    expect_value<T>(out, pos, v);
    ep_check(pos == out.n, "nothing but the tag and the value is written");
  }
  ep_check(same_bits<typename Ref<T>::R>(v, f.get()), "encoding does not change the field");
}

template<class T> static void decode()
{
  const typename Ref<T>::R old = Ref<T>::any();
  T f;
  f.set(old);
  In in(ep_any_range(0, 0xFFFFFFFFU));
  uint32_t pos = 0;
  uint64_t p = 0;
  const int r = Ref<T>::fixed ? ref_fixed(in, pos, Ref<T>::bytes, p) : ref_varint(in, pos, Ref<T>::bytes, p);
  const Error e = f.deserialize(in);
  if(0 == r)
  {
    ep_check(Error::NO_ERRORS == e, "a complete encoding is accepted");
    ep_check(same_bits<typename Ref<T>::R>(Ref<T>::back(p), f.get()), "the value decoded is the value encoded");
    ep_check(pos == in.pos, "exactly the bytes of the encoding are consumed");
  }
  else
  {
    ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "a truncated or overlong encoding is reported");
    ep_check(same_bits<typename Ref<T>::R>(old, f.get()), "a rejected encoding leaves the field");
  }
}

template<class T> static void check_type()
{
  const typename Ref<T>::R old = Ref<T>::any();
  T f;
  f.set(old);
  In in(ep_any_range(0, 16));
  const uint32_t wt = ep_any_range(0, 5);
  ep_assume(wt != Ref<T>::wire);
  const Error e = f.deserialize_check_type(in, static_cast<WireFormatter::WireType>(wt));
  ep_check(Error::INVALID_WIRETYPE == e, "a value with another wire type is refused");
  ep_check(same_bits<typename Ref<T>::R>(old, f.get()), "a refused value leaves the field");
  ep_check(0 == in.pos, "a refused value is not consumed");
}

template<class T> static void clear_()
{
  T f;
  f.set(Ref<T>::any());
  f.clear();
  ep_check(same_bits<typename Ref<T>::R>(static_cast<typename Ref<T>::R>(0), f.get()), "clear sets the default value");
  T g{};
  ep_check(same_bits<typename Ref<T>::R>(static_cast<typename Ref<T>::R>(0), g.get()), "a value-initialised field holds the default value");
  g.set(Ref<T>::any());
  T h(g);
  ep_check(same_bits<typename Ref<T>::R>(h.get(), g.get()), "a copy holds the value of the original");
  T k;
  k = g;
  ep_check(same_bits<typename Ref<T>::R>(k.get(), g.get()), "assignment copies the value");
  const typename Ref<T>::R w = Ref<T>::any();
  k = w;
  ep_check(same_bits<typename Ref<T>::R>(k.get(), w), "assignment of a value sets the value");
}

#define ALL(X) X(int32) X(int64) X(uint32) X(uint64) X(sint32) X(sint64) X(boolean) X(fixed32) X(fixed64) X(sfixed32) \
  X(sfixed64) X(floatfixed) X(doublefixed)
#define E1(T) ENTRY enc_##T() { encode<T>(); } ENTRY dec_##T() { decode<T>(); } ENTRY wt_##T() { check_type<T>(); } ENTRY val_##T() { clear_<T>(); }
ALL(E1)
ENTRY enc_enumeration() { encode<enumeration<Enumeration>>(); }
ENTRY dec_enumeration() { decode<enumeration<Enumeration>>(); }
ENTRY wt_enumeration() { check_type<enumeration<Enumeration>>(); }
ENTRY val_enumeration() { clear_<enumeration<Enumeration>>(); }

// Tags: for every byte string.
ENTRY dec_tag()
{
  In in(ep_any_range(0, 0xFFFFFFFFU));
  WireFormatter::WireType type = WireFormatter::WireType::VARINT;
  uint32_t id = 0;
  uint32_t pos = 0;
  uint64_t p = 0;
  const int r = ref_varint(in, pos, 5, p);
  const Error e = WireFormatter::DeserializeTag(in, type, id);
  if(0 == r)
  {
    const uint32_t t = static_cast<uint32_t>(p);
    if((t & 7U) <= 5U)
    {
      ep_check(Error::NO_ERRORS == e, "a tag with a known wire type is accepted");
      ep_check((t >> 3) == id, "the field number is the tag shifted by three bits");
      ep_check((t & 7U) == static_cast<uint32_t>(type), "the wire type is the low three bits of the tag");
    }
    else
    {
      ep_check(Error::INVALID_WIRETYPE == e, "a tag with an unknown wire type is refused");
    }
  }
  else
  {
    ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "a truncated or overlong tag is reported");
  }
}
