// Repeated fields: containment (C04), value semantics (C05), wire format (C08), sizes (C13), errors (C10, C11), for every
// state of the field and every argument. Every state is reached by adding elements to a new field, given that no
// operation leaves anything but default elements behind the length, which is checked after every operation.
#include "io.h"
#include <RepeatedFieldFixedSize.h>
#include <FieldStringBytes.h>
#include <Fields.h>
using namespace EmbeddedProto;

// Elements: an arbitrary one, equality, default, reference encoding (of the payload in a packed field, with tag else).
template<class T> struct El;
#define VARINT_EL(T, C, ANY, PAYLOAD) template<> struct El<T> { static const bool packed = true; \
  static T any() { T t; t.set(static_cast<C>(ANY)); return t; } \
  static bool eq(const T& a, const T& b) { return a.get() == b.get(); } \
  static bool def(const T& a) { return static_cast<C>(0) == a.get(); } \
  static uint32_t size(const T& a) { uint64_t v = PAYLOAD; uint32_t n = 1; while(v > 0x7FU) { v >>= 7; n = n + 1; } return n; } \
  static void expect(const Out& b, uint32_t& pos, const T& a) { expect_varint(b, pos, PAYLOAD, "C08: the elements are encoded in order"); } \
  static int parse(const In& b, uint32_t& pos, T& v); };
#define FIXED_EL(T, C, ANY, BYTES) template<> struct El<T> { static const bool packed = true; \
  static T any() { T t; t.set(static_cast<C>(ANY)); return t; } \
  static bool eq(const T& a, const T& b) { return a.get() == b.get(); } \
  static bool def(const T& a) { return static_cast<C>(0) == a.get(); } \
  static uint32_t size(const T&) { return BYTES; } \
  static void expect(const Out& b, uint32_t& pos, const T& a) { expect_fixed(b, pos, static_cast<uint64_t>(a.get()), BYTES, "C08: the elements are encoded in order"); } \
  static int parse(const In& b, uint32_t& pos, T& v); };
VARINT_EL(uint32, uint32_t, ep_any_range(0, 40000), a.get())
VARINT_EL(sint32, int32_t, ep_any_range(0, 300), static_cast<uint32_t>(a.get()) << 1)
VARINT_EL(boolean, bool, ep_any_bool(), (a.get() ? 1U : 0U))
FIXED_EL(fixed32, uint32_t, ep_any_u32(), 4)
FIXED_EL(sfixed64, int64_t, ep_any_u64(), 8)
static int narrow(const int r) { return r; }
int El<uint32>::parse(const In& b, uint32_t& pos, uint32& v) { uint64_t x; const int r = ref_varint(b, pos, 5, x); v.set(static_cast<uint32_t>(x)); return narrow(r); }
int El<sint32>::parse(const In& b, uint32_t& pos, sint32& v)
{ uint64_t x; const int r = ref_varint(b, pos, 10, x); const uint32_t y = static_cast<uint32_t>(x); v.set(static_cast<int32_t>((y >> 1) ^ (0U - (y & 1U)))); return r; }
int El<boolean>::parse(const In& b, uint32_t& pos, boolean& v) { uint64_t x; const int r = ref_varint(b, pos, 10, x); v.set(0 != x); return r; }
int El<fixed32>::parse(const In& b, uint32_t& pos, fixed32& v) { uint64_t x; const int r = ref_fixed(b, pos, 4, x); v.set(static_cast<uint32_t>(x)); return r; }
int El<sfixed64>::parse(const In& b, uint32_t& pos, sfixed64& v) { uint64_t x; const int r = ref_fixed(b, pos, 8, x); v.set(static_cast<int64_t>(x)); return r; }
using S2 = FieldString<2>;
template<> struct El<S2>
{
  static const bool packed = false;
  static S2 any() { S2 t; const uint32_t n = ep_any_range(0, 2); t.set(reinterpret_cast<const char*>(ep_any_array(n)), n); return t; }
  static bool eq(const S2& a, const S2& b) { return (a.get_length() == b.get_length()) && (a.get_const()[0] == b.get_const()[0]) && (a.get_const()[1] == b.get_const()[1]); }
  static bool def(const S2& a) { return (0 == a.get_length()) && (0 == a.get_const()[0]) && (0 == a.get_const()[1]); }
  static uint32_t size(const S2& a) { return a.get_length(); }
  static void expect(const Out& b, uint32_t& pos, const S2& a)
  {
    expect_varint(b, pos, a.get_length(), "C08 C13: the length prefix is the length");
    expect_bytes(b, pos, reinterpret_cast<const uint8_t*>(a.get_const()), a.get_length(), "C08: the elements are encoded in order");
  }
};

// The state before the operation: elements a[0..L).
template<class T, uint32_t N> struct Pre
{
  T a[N];
  uint32_t L;
  RepeatedFieldFixedSize<T, N> f;
  explicit Pre(const uint32_t n) : a(), L(n), f()
  {
    for(uint32_t i = 0; i < L; i = i + 1)
    {
      a[i] = El<T>::any();
      const Error e = f.add(a[i]);
      ep_check(Error::NO_ERRORS == e, "C05: an element is added while there is space");
    }
    ep_check(L == f.get_length(), "C05: adding an element adds one to the length");
    ep_check(N == f.get_max_length(), "C05: the reported capacity is the capacity");
  }
  bool at(const uint32_t k, const T& v) const { return (k < L) ? El<T>::eq(a[k], v) : El<T>::def(v); }
};
template<class T, uint32_t N> static void tail(const RepeatedFieldFixedSize<T, N>& f)
{
  const uint32_t l = f.get_length();
  ep_check(l <= N, "C04: the length never exceeds the capacity");
  for(uint32_t k = l; k < N; k = k + 1) { ep_check(El<T>::def(f.get_data_const()[k]), "C05: nothing is left behind the end"); }
}
template<class T, uint32_t N> static void unchanged(const Pre<T, N>& p, const char* what)
{
  ep_check(p.L == p.f.get_length(), what);
  for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], p.f.get_data_const()[k]), what); }
  tail(p.f);
}
template<class T, uint32_t N> static Pre<T, N> pre() { return Pre<T, N>(ep_any_range(0, N)); }

template<class T, uint32_t N> static void rep_add()
{
  Pre<T, N> p(ep_any_range(0, N));
  RepeatedField<T>& f = p.f;
  const T v = El<T>::any();
  const Error e = f.add(v);
  if(p.L < N)
  {
    ep_check(Error::NO_ERRORS == e, "C05: an element is added while there is space");
    ep_check(p.L + 1 == f.get_length(), "C05: adding an element adds one to the length");
    ep_check(El<T>::eq(v, p.f.get_data_const()[p.L]), "C05: an element is added at the end");
    for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], p.f.get_data_const()[k]), "C05: adding an element leaves the others"); }
    tail(p.f);
  }
  else
  {
    ep_check(Error::ARRAY_FULL == e, "C04: an element that does not fit is refused");
    unchanged(p, "C04: a refused element leaves the field");
  }
}
template<class T, uint32_t N> static void rep_set()
{
  Pre<T, N> p(ep_any_range(0, N));
  RepeatedField<T>& f = p.f;
  const T v = El<T>::any();
  const uint32_t i = ep_any_range(0, 0xFFFFFFFFU);
  const uint32_t ii = (i < N) ? i : (N - 1);
  switch(ep_any_range(0, 2)) { case 0: f.set(i, v); break; case 1: f.get(i) = v; break; default: f[i] = v; break; }
  const uint32_t l = (ii < p.L) ? p.L : (ii + 1);
  ep_check(l == f.get_length(), "C05: writing an element extends the length to include it");
  for(uint32_t k = 0; k < l; k = k + 1)
  {
    if(k == ii) { ep_check(El<T>::eq(v, p.f.get_data_const()[k]), "C05: writing an element stores it"); }
    else { ep_check(p.at(k, p.f.get_data_const()[k]), "C05: writing an element leaves the others"); }
  }
  tail(p.f);
}
template<class T, uint32_t N> static void rep_read()
{
  Pre<T, N> p(ep_any_range(0, N));
  const RepeatedField<T>& f = p.f;
  const uint32_t i = ep_any_range(0, 0xFFFFFFFFU);
  const uint32_t ii = (i < N) ? i : (N - 1);
  T v = El<T>::any();
  const T v0 = v;
  switch(ep_any_range(0, 2))
  {
    case 0: ep_check(p.at(ii, f.get_const(i)), "C05: reading returns the element"); break;
    case 1: ep_check(p.at(ii, f[i]), "C05: reading returns the element"); break;
    default:
    {
      const Error e = f.get_const(i, v);
      if(i < p.L)
      {
        ep_check(Error::NO_ERRORS == e, "C05: reading an element in use succeeds");
        ep_check(El<T>::eq(p.a[i], v), "C05: reading returns the element");
      }
      else
      {
        ep_check(Error::INDEX_OUT_OF_BOUND == e, "C05: reading beyond the length is reported");
        ep_check(El<T>::eq(v0, v), "C05: a failed read leaves the output");
      }
    }
  }
  ep_check(f.get_size() == sizeof(T) * p.L, "C05: the memory in use is that of the elements");
  ep_check(f.get_max_size() == sizeof(T) * N, "C05: the memory available is that of the capacity");
  unchanged(p, "C05: reading leaves the field");
}
template<class T, uint32_t N> static void rep_set_data(const uint32_t n)
{
  Pre<T, N> p(ep_any_range(0, N));
  T src[N + 2];
  for(uint32_t k = 0; (k < n) && (k < N + 2); k = k + 1) { src[k] = El<T>::any(); }
  const Error e = p.f.set_data(src, n);
  if(n <= N)
  {
    ep_check(Error::NO_ERRORS == e, "C05: data that fits is accepted");
    ep_check(n == p.f.get_length(), "C05: set takes the length given");
    for(uint32_t k = 0; k < n; k = k + 1) { ep_check(El<T>::eq(src[k], p.f.get_data_const()[k]), "C05: set takes the data given"); }
    tail(p.f);
  }
  else
  {
    ep_check(Error::ARRAY_FULL == e, "C04: data that does not fit is refused");
    unchanged(p, "C04: refused data leaves the field");
  }
}
template<class T, uint32_t N> static void rep_clear()
{
  Pre<T, N> p(ep_any_range(0, N));
  p.f.clear();
  ep_check(0 == p.f.get_length(), "C05: clear empties the field");
  tail(p.f);
}
template<class T, uint32_t N, uint32_t M> static void rep_copy()
{
  Pre<T, N> p(ep_any_range(0, N));
  switch(ep_any_range(0, 3))
  {
    case 0:
    {
      Pre<T, N> q(ep_any_range(0, N));
      q.f = p.f;
      ep_check(p.L == q.f.get_length(), "C05: assignment takes the length");
      for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], q.f.get_data_const()[k]), "C05: assignment takes the content"); }
      tail(q.f);
      break;
    }
    case 1:
    {
      const RepeatedFieldFixedSize<T, N> q(p.f);
      ep_check(p.L == q.get_length(), "C05: a copy has the length of the original");
      for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], q.get_data_const()[k]), "C05: a copy has the content of the original"); }
      tail(q);
      break;
    }
    case 2:
    {
      const RepeatedFieldFixedSize<T, M> q(p.f);
      ep_check(p.L == q.get_length(), "C05: a copy has the length of the original");
      for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], q.get_data_const()[k]), "C05: a copy has the content of the original"); }
      tail(q);
      break;
    }
    default:
    {
      RepeatedFieldFixedSize<T, N> c(p.f);
      const RepeatedFieldFixedSize<T, M> q(static_cast<RepeatedFieldFixedSize<T, N>&&>(c));
      ep_check(p.L == q.get_length(), "C05: a copy has the length of the original");
      for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<T>::eq(p.a[k], q.get_data_const()[k]), "C05: a copy has the content of the original"); }
      tail(q);
      break;
    }
  }
  unchanged(p, "C05: assignment leaves the source");
}
template<class T, uint32_t N> static void rep_self()
{
  Pre<T, N> p(ep_any_range(0, N));
  RepeatedFieldFixedSize<T, N>& r = p.f;
  p.f = r;
  unchanged(p, "C05: self assignment leaves the field");
}
// The encoding.
template<class T, uint32_t N> static uint32_t payload(const Pre<T, N>& p)
{
  uint32_t n = 0;
  for(uint32_t k = 0; k < p.L; k = k + 1) { n = n + El<T>::size(p.a[k]); }
  return n;
}
template<class T, uint32_t N> static void rep_write(const uint32_t L, const uint32_t number)
{
  Pre<T, N> p(L);
  const bool optional = El<T>::packed ? ep_any_bool() : false;
  Out out(200);
  const RepeatedField<T>& c = p.f;
  const Error e = c.serialize_with_id(number, out, optional);
  ep_check(Error::NO_ERRORS == e, "C08: encoding into a buffer with space succeeds");
  uint32_t pos = 0;
  if(El<T>::packed)
  {
    if((0 < L) || optional)
    {
      expect_tag(out, pos, number, 2, "C08: the tag is the field number with the length delimited wire type");
      expect_varint(out, pos, payload(p), "C08 C13: the length prefix is the length");
      for(uint32_t k = 0; k < L; k = k + 1) { El<T>::expect(out, pos, p.a[k]); }
    }
    ep_check(payload(p) == c.serialized_size_packed(), "C13: the reported size is the number of bytes of content");
  }
  else
  {
    for(uint32_t k = 0; k < L; k = k + 1)
    {
      expect_tag(out, pos, number, 2, "C08: the tag is the field number with the length delimited wire type");
      El<T>::expect(out, pos, p.a[k]);
    }
    ep_check(out.n == c.serialized_size_unpacked(number), "C13: the reported size is the number of bytes of content");
  }
  ep_check(pos == out.n, "C08: nothing else is written, and nothing at all for an empty field");
  unchanged(p, "C14: encoding leaves the field");
}
template<class T, uint32_t N> static void rep_flaky()
{
  Pre<T, N> p(ep_any_range(0, N));
  Flaky out;
  const RepeatedField<T>& c = p.f;
  const Error e = c.serialize_with_id(ep_any_range(1, 15), out, ep_any_bool());
  ep_check(out.refused == (Error::NO_ERRORS != e), "C10: encoding fails exactly when the buffer refused a byte");
  if(out.refused) { ep_check(Error::BUFFER_FULL == e, "C10: a refusal is reported as a full buffer"); }
}
template<class T, uint32_t N> static void rep_tight()
{
  Pre<T, N> p(ep_any_range(0, N));
  Out out(ep_any_range(0, 60));
  const RepeatedField<T>& c = p.f;
  const bool optional = El<T>::packed ? ep_any_bool() : false;
  const Error e = c.serialize_with_id(1, out, optional);
  const uint32_t n = payload(p);
  const uint32_t need = El<T>::packed ? (((0 < p.L) || optional) ? (n + 2) : 0) : (n + 2 * p.L);
  ep_check((need <= out.cap) == (Error::NO_ERRORS == e), "C10: encoding succeeds exactly when the buffer has space");
  if(Error::NO_ERRORS != e) { ep_check(Error::BUFFER_FULL == e, "C10: a refusal is reported as a full buffer"); }
}
// Packed bytes from the wire: a length prefix of one byte, then arbitrary bytes.
template<class T, uint32_t N> static void rep_parse(const uint32_t L, const uint32_t len, const uint32_t have)
{
  Pre<T, N> p(L);
  In in(have + 1);
  in.data[0] = static_cast<uint8_t>(len);
  const Error e = p.f.deserialize(in);
  // reference
  uint32_t pos = 1;
  uint32_t n = L;
  int r = 0;
  T v[N];
  In cut(in.data, (len < have) ? (len + 1) : (have + 1));
  while((0 == r) && (pos < cut.n))
  {
    T x;
    r = El<T>::parse(cut, pos, x);
    if(0 == r)
    {
      if(n < N) { v[n] = x; n = n + 1; }
      else { r = 3; }
    }
  }
  if((0 == r) && (len > have)) { r = 1; }
  if(0 == r)
  {
    ep_check(Error::NO_ERRORS == e, "C05: complete content that fits is accepted");
    ep_check(n == p.f.get_length(), "C05: parsing appends the elements");
    for(uint32_t k = L; k < n; k = k + 1) { ep_check(El<T>::eq(v[k], p.f.get_data_const()[k]), "C05: the content decoded is the content encoded"); }
    ep_check(len + 1 == in.pos, "C05: exactly the bytes of the field are consumed");
  }
  else if(1 == r) { ep_check(Error::END_OF_BUFFER == e, "C11: truncated content is reported"); }
  else if(2 == r) { ep_check(Error::OVERLONG_VARINT == e, "C11: an overlong element is reported"); }
  else { ep_check(Error::ARRAY_FULL == e, "C04 C11: more elements than fit are refused"); }
  for(uint32_t k = 0; k < L; k = k + 1) { ep_check(El<T>::eq(p.a[k], p.f.get_data_const()[k]), "C05: parsing leaves the elements already there"); }
  tail(p.f);
}
// The length prefix itself.
template<class T, uint32_t N> static void rep_prefix()
{
  Pre<T, N> p(ep_any_range(0, N));
  In in(ep_any_range(0, 5));
  uint32_t pos = 0;
  uint64_t len = 0;
  const int r = ref_varint(in, pos, 5, len);
  ep_assume(0 != r);
  const Error e = p.f.deserialize(in);
  ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "C11: a bad length is reported");
  unchanged(p, "C05: a bad length leaves the field");
}
// Elements with a length of their own.
template<uint32_t N> static void rep_parse_text()
{
  Pre<S2, N> p(ep_any_range(0, N));
  In in(ep_any_range(0, 0xFFFFFFFFU));
  uint32_t pos = 0;
  uint64_t len = 0;
  const int r = ref_varint(in, pos, 5, len);
  const uint32_t n = static_cast<uint32_t>(len);
  const Error e = p.f.deserialize(in);
  if(N == p.L)
  {
    ep_check(Error::ARRAY_FULL == e, "C04 C11: more elements than fit are refused");
    unchanged(p, "C04: a refused element leaves the field");
    return;
  }
  if(0 != r) { ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "C11: a bad length is reported"); }
  else if(n > 2) { ep_check(Error::ARRAY_FULL == e, "C04 C11: content that does not fit is refused"); }
  else if(n > in.n - pos) { ep_check(Error::END_OF_BUFFER == e, "C11: truncated content is reported"); }
  else
  {
    ep_check(Error::NO_ERRORS == e, "C05: complete content that fits is accepted");
    ep_check(p.L + 1 == p.f.get_length(), "C05: parsing appends the elements");
    const S2& x = p.f.get_data_const()[p.L];
    ep_check(n == x.get_length(), "C05: the length decoded is the length encoded");
    for(uint32_t k = 0; k < n; k = k + 1) { ep_check(in.data[pos + k] == static_cast<uint8_t>(x.get_const()[k]), "C05: the content decoded is the content encoded"); }
    ep_check(pos + n == in.pos, "C05: exactly the bytes of the field are consumed");
  }
  for(uint32_t k = 0; k < p.L; k = k + 1) { ep_check(El<S2>::eq(p.a[k], p.f.get_data_const()[k]), "C05: parsing leaves the elements already there"); }
  ep_check(p.f.get_length() <= N, "C04: the length never exceeds the capacity");
}
template<class T, uint32_t N> static void rep_type()
{
  Pre<T, N> p(ep_any_range(0, N));
  In in(ep_any_range(0, 0xFFFFFFFFU));
  const uint32_t wt = ep_any_range(0, 5);
  ep_assume(2 != wt);
  const Error e = p.f.deserialize_check_type(in, static_cast<WireFormatter::WireType>(wt));
  ep_check(Error::INVALID_WIRETYPE == e, "C11: another wire type is refused");
  ep_check(0 == in.pos, "C11: a refused value is not consumed");
  unchanged(p, "C11: a refused value leaves the field");
}
// Any history of calls stays in bounds.
template<class T, uint32_t N> static void rep_history()
{
  RepeatedFieldFixedSize<T, N> f;
  while(ep_more())
  {
    T v{};
    switch(ep_any_range(0, 5))
    {
      case 0: f.add(v); break;
      case 1: f.set(ep_any_range(0, 0xFFFFFFFFU), v); break;
      case 2: f.get(ep_any_range(0, 0xFFFFFFFFU)) = v; break;
      case 3: (void)f.get_const(ep_any_range(0, 0xFFFFFFFFU)); break;
      case 4: (void)f.get_const(ep_any_range(0, 0xFFFFFFFFU), v); break;
      default: f.clear(); break;
    }
  }
  ep_check(f.get_length() <= N, "C04: the length never exceeds the capacity");
  ep_check(N == f.get_max_length(), "C05: the reported capacity is the capacity");
}
template<class T, uint32_t N> static void rep_hostile()
{
  RepeatedFieldFixedSize<T, N> f;
  In in(ep_any_range(0, 0xFFFFFFFFU));
  while(ep_more()) { (void)f.deserialize(in); }
  ep_check(f.get_length() <= N, "C04: the length never exceeds the capacity");
}

#define R1(SUF, T, N) \
  ENTRY rep_add_##SUF() { rep_add<T, N>(); } ENTRY rep_set_##SUF() { rep_set<T, N>(); } \
  ENTRY rep_read_##SUF() { rep_read<T, N>(); } ENTRY rep_clear_##SUF() { rep_clear<T, N>(); } \
  ENTRY rep_copy_##SUF() { rep_copy<T, N, N + 2>(); } ENTRY rep_self_##SUF() { rep_self<T, N>(); } \
  ENTRY rep_data0_##SUF() { rep_set_data<T, N>(0); } ENTRY rep_data1_##SUF() { rep_set_data<T, N>(1); } \
  ENTRY rep_datafull_##SUF() { rep_set_data<T, N>(N); } ENTRY rep_dataover_##SUF() { rep_set_data<T, N>(N + 1); } \
  ENTRY rep_flaky_##SUF() { rep_flaky<T, N>(); } \
  ENTRY rep_tight_##SUF() { rep_tight<T, N>(); } ENTRY rep_type_##SUF() { rep_type<T, N>(); } \
  ENTRY rep_history_##SUF() { rep_history<T, N>(); } \
  ENTRY rep_write0_##SUF() { rep_write<T, N>(0, 1); } ENTRY rep_write1_##SUF() { rep_write<T, N>(1, 15); } \
  ENTRY rep_writen_##SUF() { rep_write<T, N>(N, 16); } ENTRY rep_writebig_##SUF() { rep_write<T, N>(N, 536870911U); }
R1(u1, uint32, 1) R1(u3, uint32, 3) R1(z2, sint32, 2) R1(o3, boolean, 3) R1(f3, fixed32, 3) R1(g2, sfixed64, 2) R1(s2, S2, 2)
#define R2(SUF, T, N) ENTRY rep_prefix_##SUF() { rep_prefix<T, N>(); } \
  ENTRY rep_parse0_##SUF() { rep_parse<T, N>(0, 0, 2); } ENTRY rep_parse1_##SUF() { rep_parse<T, N>(0, 1, 3); } \
  ENTRY rep_parse2_##SUF() { rep_parse<T, N>(1, 2, 3); } ENTRY rep_parse3_##SUF() { rep_parse<T, N>(0, 3, 4); } \
  ENTRY rep_parse4_##SUF() { rep_parse<T, N>(0, 4, 4); } ENTRY rep_parse5_##SUF() { rep_parse<T, N>(N, 1, 5); } \
  ENTRY rep_cut1_##SUF() { rep_parse<T, N>(0, 2, 1); } ENTRY rep_cut2_##SUF() { rep_parse<T, N>(0, 120, 2); } \
  ENTRY rep_cut3_##SUF() { rep_parse<T, N>(0, 4, 3); } ENTRY rep_cut4_##SUF() { rep_parse<T, N>(1, 1, 0); }
R2(u1, uint32, 1) R2(u3, uint32, 3) R2(z2, sint32, 2) R2(o3, boolean, 3) R2(f3, fixed32, 3) R2(g2, sfixed64, 2)
ENTRY rep_parse8_f3() { rep_parse<fixed32, 3>(0, 8, 9); }
ENTRY rep_parse11_f3() { rep_parse<fixed32, 3>(0, 11, 20); }
ENTRY rep_parse12_f3() { rep_parse<fixed32, 3>(0, 12, 20); }
ENTRY rep_parse16_f3() { rep_parse<fixed32, 3>(0, 16, 20); }
ENTRY rep_parse16_g2() { rep_parse<sfixed64, 2>(0, 16, 16); }
ENTRY rep_parse24_g2() { rep_parse<sfixed64, 2>(0, 24, 24); }
ENTRY rep_parse_full_f300() { rep_parse<fixed32, 30>(0, 120, 121); }
ENTRY rep_text_s2() { rep_parse_text<2>(); }
ENTRY rep_history_u300() { rep_history<uint32, 300>(); }
ENTRY rep_history_g600() { rep_history<sfixed64, 600>(); }
ENTRY rep_hostile_u3() { rep_hostile<uint32, 3>(); }
ENTRY rep_hostile_g2() { rep_hostile<sfixed64, 2>(); }
ENTRY rep_hostile_s2() { rep_hostile<S2, 2>(); }
