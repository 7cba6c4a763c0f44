// String and bytes fields: containment (C04), value semantics (C05), wire format (C08), errors (C11), for every state of the field and every argument.
// Every state of a field is reached from a new one by one set(array, length) provided that no operation leaves
// anything but zeros behind the length, which is checked after every operation: an induction over histories.
#include "io.h"
#include <FieldStringBytes.h>
using namespace EmbeddedProto;

template<class F> struct El;
template<uint32_t N> struct El<FieldString<N>> { using D = char; static const uint32_t n = N; };
template<uint32_t N> struct El<FieldBytes<N>> { using D = uint8_t; static const uint32_t n = N; };

// The abstract state before the operation: content a[0..L).
template<class F> struct Pre
{
  using D = typename El<F>::D;
  static const uint32_t N = El<F>::n;
  const D* a;
  uint32_t L;
  F f;
  Pre() : a(nullptr), L(ep_any_range(0, N)), f()
  {
    a = reinterpret_cast<const D*>(ep_any_array(L));
    const Error e = f.set(a, L);
    ep_check(Error::NO_ERRORS == e, "C05: data that fits is accepted");
    ep_check(L == f.get_length(), "C05: set takes the length given");
    ep_check(N == f.get_max_length(), "C05: the reported capacity is the capacity");
  }
  D at(const uint32_t k) const { return (k < L) ? a[k] : static_cast<D>(0); }
};

template<class F> static void tail(const F& f)
{
  const uint32_t l = f.get_length();
  ep_check(l <= El<F>::n, "C04: the length never exceeds the capacity");
  if(l < El<F>::n)
  {
    const uint32_t k = ep_any_range(l, El<F>::n - 1);
    ep_check(0 == f.get_const()[k], "C05: nothing is left behind the end");
  }
}
template<class F> static void unchanged(const Pre<F>& p, const char* what)
{
  ep_check(p.L == p.f.get_length(), what);
  if(0 < p.L)
  {
    const uint32_t k = ep_any_range(0, p.L - 1);
    ep_check(p.a[k] == p.f.get_const()[k], what);
  }
  tail(p.f);
}

template<class F> static void text_set()
{
  Pre<F> p;
  const uint32_t n = ep_any_range(0, 0xFFFFFFFFU);
  const typename El<F>::D* src = reinterpret_cast<const typename El<F>::D*>(ep_any_array(n));
  const Error e = p.f.set(src, n);
  if(n <= El<F>::n)
  {
    ep_check(Error::NO_ERRORS == e, "C05: data that fits is accepted");
    ep_check(n == p.f.get_length(), "C05: set takes the length given");
    if(0 < n)
    {
      const uint32_t k = ep_any_range(0, n - 1);
      ep_check(src[k] == p.f.get_const()[k], "C05: set takes the data given");
    }
    tail(p.f);
  }
  else
  {
    ep_check(Error::ARRAY_FULL == e, "C04: data that does not fit is refused");
    unchanged(p, "C04: refused data leaves the field");
  }
}
template<class F> static void text_get()
{
  Pre<F> p;
  const uint32_t N = El<F>::n;
  const uint32_t i = ep_any_range(0, 0xFFFFFFFFU);
  const uint32_t ii = (i < N) ? i : (N - 1);
  const typename El<F>::D v = static_cast<typename El<F>::D>(ep_any_u8());
  if(ep_any_bool()) { p.f.get(i) = v; } else { p.f[i] = v; }
  const uint32_t l = (ii < p.L) ? p.L : (ii + 1);
  ep_check(l == p.f.get_length(), "C05: writing an element extends the length to include it");
  const uint32_t k = ep_any_range(0, l - 1);
  if(k == ii) { ep_check(v == p.f.get_const()[k], "C05: writing an element stores it"); }
  else { ep_check(p.at(k) == p.f.get_const()[k], "C05: writing an element leaves the others"); }
  tail(p.f);
}
template<class F> static void text_get_const()
{
  Pre<F> p;
  const uint32_t N = El<F>::n;
  const uint32_t i = ep_any_range(0, 0xFFFFFFFFU);
  const F& c = p.f;
  typename El<F>::D v = static_cast<typename El<F>::D>(ep_any_u8());
  const typename El<F>::D v0 = v;
  switch(ep_any_range(0, 2))
  {
    case 0: ep_check(p.at((i < N) ? i : (N - 1)) == c.get_const(i), "C05: reading returns the element"); break;
    case 1: ep_check(p.at((i < N) ? i : (N - 1)) == c[i], "C05: reading returns the element"); break;
    default:
    {
      const Error e = c.get_const(i, v);
      if(i < p.L)
      {
        ep_check(Error::NO_ERRORS == e, "C05: reading an element in use succeeds");
        ep_check(p.a[i] == v, "C05: reading returns the element");
      }
      else
      {
        ep_check(Error::INDEX_OUT_OF_BOUND == e, "C05: reading beyond the length is reported");
        ep_check(v0 == v, "C05: a failed read leaves the output");
      }
    }
  }
  unchanged(p, "C05: reading leaves the field");
}
template<class F> static void text_clear()
{
  Pre<F> p;
  p.f.clear();
  ep_check(0 == p.f.get_length(), "C05: clear empties the field");
  tail(p.f);
}
template<class F> static void text_copy()
{
  Pre<F> p;
  Pre<F> q;
  switch(ep_any_range(0, 2))
  {
    case 0: q.f = p.f; break;
    case 1: q.f.set(p.f); break;
    default:
    {
      const F r(p.f);
      ep_check(p.L == r.get_length(), "C05: a copy has the length of the original");
      if(0 < p.L) { const uint32_t k = ep_any_range(0, p.L - 1); ep_check(p.a[k] == r.get_const()[k], "C05: a copy has the content of the original"); }
      tail(r);
      return;
    }
  }
  ep_check(p.L == q.f.get_length(), "C05: assignment takes the length");
  if(0 < p.L) { const uint32_t k = ep_any_range(0, p.L - 1); ep_check(p.a[k] == q.f.get_const()[k], "C05: assignment takes the content"); }
  tail(q.f);
  unchanged(p, "C05: assignment leaves the source");
}
// Self assignment, from another capacity.
template<class F, class G> static void text_other()
{
  Pre<F> p;
  Pre<G> q;
  bool refused = false;
  const Error e = p.f.set(q.f);
  refused = (Error::NO_ERRORS != e);
  ep_check(refused == (q.L > El<F>::n), "C04: content of another field is accepted exactly when it fits");
  if(refused) { ep_check(Error::ARRAY_FULL == e, "C04: data that does not fit is refused"); unchanged(p, "C04: refused data leaves the field"); }
  else
  {
    ep_check(q.L == p.f.get_length(), "C05: assignment takes the length");
    if(0 < q.L) { const uint32_t k = ep_any_range(0, q.L - 1); ep_check(q.a[k] == p.f.get_const()[k], "C05: assignment takes the content"); }
    tail(p.f);
  }
}
template<class F, class G> static void text_assign_other()
{
  Pre<F> p;
  Pre<G> q;
  p.f = q.f;
  if(q.L > El<F>::n) { unchanged(p, "C04: refused data leaves the field"); }
  else
  {
    ep_check(q.L == p.f.get_length(), "C05: assignment takes the length");
    if(0 < q.L) { const uint32_t k = ep_any_range(0, q.L - 1); ep_check(q.a[k] == p.f.get_const()[k], "C05: assignment takes the content"); }
    tail(p.f);
  }
}
// C strings: `len` characters before the terminator.
template<class F> static void text_cstr(const uint32_t len)
{
  Pre<F> p;
  char* s = reinterpret_cast<char*>(ep_any_array(len + 1));
  for(uint32_t i = 0; i < len; i = i + 1) { ep_assume(s[i] != 0); }
  s[len] = 0;
  if(ep_any_bool()) { p.f = s; } else { p.f.set(s); }
  const uint32_t l = (len < El<F>::n) ? len : El<F>::n;
  ep_check(l == p.f.get_length(), "C05: a text is taken up to the capacity");
  for(uint32_t i = 0; i < l; i = i + 1) { ep_check(s[i] == p.f.get_const()[i], "C05: the characters of a text are taken"); }
  tail(p.f);
}
template<class F> static void text_null()
{
  Pre<F> p;
  p.f.set(static_cast<const char*>(nullptr));
  ep_check(0 == p.f.get_length(), "C05: a null text empties the field");
  tail(p.f);
}
// Arbitrary bytes from the wire.
template<class F> static void text_parse()
{
  Pre<F> p;
  In in(ep_any_range(0, 0xFFFFFFFFU));
  uint32_t pos = 0;
  uint64_t len = 0;
  const int r = ref_varint(in, pos, 5, len);
  const uint32_t n = static_cast<uint32_t>(len);
  const Error e = p.f.deserialize(in);
  if(0 != r)
  {
    ep_check(((1 == r) ? Error::END_OF_BUFFER : Error::OVERLONG_VARINT) == e, "C11: a bad length is reported");
    unchanged(p, "C05: a bad length leaves the field");
  }
  else if(n > El<F>::n)
  {
    ep_check(Error::ARRAY_FULL == e, "C04: content that does not fit is refused");
    unchanged(p, "C04: refused data leaves the field");
  }
  else if(n > in.n - pos)
  {
    ep_check(Error::END_OF_BUFFER == e, "C11: truncated content is reported");
    tail(p.f);
  }
  else
  {
    ep_check(Error::NO_ERRORS == e, "C05: complete content that fits is accepted");
    ep_check(n == p.f.get_length(), "C05: the length decoded is the length encoded");
    ep_check(pos + n == in.pos, "C05: exactly the bytes of the field are consumed");
    if(0 < n)
    {
      const uint32_t k = ep_any_range(0, n - 1);
      ep_check(in.data[pos + k] == static_cast<uint8_t>(p.f.get_const()[k]), "C05: the content decoded is the content encoded");
    }
    tail(p.f);
  }
}
template<class F> static void text_type()
{
  Pre<F> p;
  In in(ep_any_range(0, 0xFFFFFFFFU));
  const uint32_t wt = ep_any_range(0, 5);
  ep_assume(2 != wt);
  const Error e = p.f.deserialize_check_type(in, static_cast<WireFormatter::WireType>(wt));
  ep_check(Error::INVALID_WIRETYPE == e, "C11: another wire type is refused");
  ep_check(0 == in.pos, "C11: a refused value is not consumed");
  unchanged(p, "C11: a refused value leaves the field");
}
// The encoding, into a buffer of any size.
template<class F> static void text_write()
{
  Pre<F> p;
  const uint32_t number = ep_any_range(1, 536870911U);
  const bool optional = ep_any_bool();
  Out ideal(El<F>::n + 16);
  const F& c = p.f;
  const Error e = c.serialize_with_id(number, ideal, optional);
  ep_check(Error::NO_ERRORS == e, "C08: encoding into a buffer with space succeeds");
  uint32_t pos = 0;
  if((0 < p.L) || optional)
  {
    expect_tag(ideal, pos, number, 2, "C08: the tag is the field number with the length delimited wire type");
    expect_varint(ideal, pos, p.L, "C08 C13: the length prefix is the length");
    expect_bytes(ideal, pos, reinterpret_cast<const uint8_t*>(p.a), p.L, "C08: the content follows the length");
  }
  ep_check(pos == ideal.n, "C08: nothing else is written, and nothing at all for an empty field");
  unchanged(p, "C14: encoding leaves the field");
  ep_check(p.L == c.serialized_size(), "C13: the reported size is the number of bytes of content");
}
template<class F> static void text_flaky()
{
  Pre<F> p;
  Flaky out;
  const F& c = p.f;
  const Error e = ep_any_bool() ? c.serialize_with_id(ep_any_range(1, 536870911U), out, ep_any_bool()) : c.serialize(out);
  ep_check(out.refused == (Error::NO_ERRORS != e), "C10: encoding fails exactly when the buffer refused a byte");
  if(out.refused) { ep_check(Error::BUFFER_FULL == e, "C10: a refusal is reported as a full buffer"); }
}
template<class F> static void text_tight()
{
  Pre<F> p;
  Out out(ep_any_range(0, El<F>::n + 4));
  const bool optional = ep_any_bool();
  const F& c = p.f;
  const Error e = c.serialize_with_id(ep_any_range(1, 15), out, optional);
  const uint32_t need = ((0 < p.L) || optional) ? (p.L + ((p.L < 128) ? 2 : ((p.L < 16384) ? 3 : 4))) : 0;
  ep_check((need <= out.cap) == (Error::NO_ERRORS == e), "C10: encoding succeeds exactly when the buffer has space");
  if(Error::NO_ERRORS != e) { ep_check(Error::BUFFER_FULL == e, "C10: a refusal is reported as a full buffer"); }
}
// A long field: `len` bytes announced, `have` bytes present.
template<class F> static void text_parse_long(const uint32_t len, const uint32_t have)
{
  Pre<F> p;
  In in(have + 3);
  in.data[0] = static_cast<uint8_t>((len & 0x7FU) | 0x80U);
  in.data[1] = static_cast<uint8_t>(((len >> 7) & 0x7FU) | 0x80U);
  in.data[2] = static_cast<uint8_t>(len >> 14);
  const Error e = p.f.deserialize(in);
  if(len > El<F>::n)
  {
    ep_check(Error::ARRAY_FULL == e, "C04: content that does not fit is refused");
    unchanged(p, "C04: refused data leaves the field");
  }
  else if(len > have)
  {
    ep_check(Error::END_OF_BUFFER == e, "C11: truncated content is reported");
  }
  else
  {
    ep_check(Error::NO_ERRORS == e, "C05: complete content that fits is accepted");
    ep_check(len == p.f.get_length(), "C05: the length decoded is the length encoded");
    ep_check(len + 3 == in.pos, "C05: exactly the bytes of the field are consumed");
    for(uint32_t k = 0; k < len; k = k + 1)
    {
      ep_check(in.data[3 + k] == static_cast<uint8_t>(p.f.get_const()[k]), "C05: the content decoded is the content encoded");
    }
  }
}
// Any history of calls stays in bounds.
template<class F> static void text_history()
{
  F f;
  while(ep_more())
  {
    switch(ep_any_range(0, 5))
    {
      case 0: { const uint32_t n = ep_any_range(0, 0xFFFFFFFFU); f.set(reinterpret_cast<const typename El<F>::D*>(ep_any_array(n)), n); break; }
      case 1: f.get(ep_any_range(0, 0xFFFFFFFFU)) = static_cast<typename El<F>::D>(ep_any_u8()); break;
      case 2: f.clear(); break;
      case 3: { In in(ep_any_range(0, 0xFFFFFFFFU)); f.deserialize(in); break; }
      case 4: (void)f.get_const(ep_any_range(0, 0xFFFFFFFFU)); break;
      default: { Flaky out; (void)f.serialize_with_id(1, out, ep_any_bool()); break; }
    }
  }
  ep_check(f.get_length() <= El<F>::n, "C04: the length never exceeds the capacity");
}

#define T1(SUF, ...) \
  ENTRY text_set_##SUF() { text_set<__VA_ARGS__>(); } ENTRY text_get_##SUF() { text_get<__VA_ARGS__>(); } \
  ENTRY text_read_##SUF() { text_get_const<__VA_ARGS__>(); } ENTRY text_clear_##SUF() { text_clear<__VA_ARGS__>(); } \
  ENTRY text_copy_##SUF() { text_copy<__VA_ARGS__>(); } ENTRY text_parse_##SUF() { text_parse<__VA_ARGS__>(); } \
  ENTRY text_type_##SUF() { text_type<__VA_ARGS__>(); } ENTRY text_write_##SUF() { text_write<__VA_ARGS__>(); } \
  ENTRY text_flaky_##SUF() { text_flaky<__VA_ARGS__>(); } ENTRY text_tight_##SUF() { text_tight<__VA_ARGS__>(); } \
  ENTRY text_history_##SUF() { text_history<__VA_ARGS__>(); }
#define T2(SUF, N, ...) ENTRY text_long_fits_##SUF() { text_parse_long<__VA_ARGS__>(N, N); } \
  ENTRY text_long_over_##SUF() { text_parse_long<__VA_ARGS__>(N + 1, N + 1); } \
  ENTRY text_long_wrap_##SUF() { text_parse_long<__VA_ARGS__>(N + 65536, N); } \
  ENTRY text_long_more_##SUF() { text_parse_long<__VA_ARGS__>(N - 1, N + 5); } \
  ENTRY text_long_cut_##SUF() { text_parse_long<__VA_ARGS__>(N, N - 1); }
T2(b300, 300, FieldBytes<300>) T2(s300, 300, FieldString<300>) T2(s5, 5, FieldString<5>)
T1(s1, FieldString<1>) T1(s5, FieldString<5>) T1(b5, FieldBytes<5>) T1(b300, FieldBytes<300>) T1(s300, FieldString<300>)
T1(b70000, FieldBytes<70000>)
#define C1(SUF, N) ENTRY text_null_##SUF() { text_null<FieldString<N>>(); } \
  ENTRY text_cstr0_##SUF() { text_cstr<FieldString<N>>(0); } ENTRY text_cstr_less_##SUF() { text_cstr<FieldString<N>>(N - 1); } \
  ENTRY text_cstr_fits_##SUF() { text_cstr<FieldString<N>>(N); } ENTRY text_cstr_over_##SUF() { text_cstr<FieldString<N>>(N + 1); } \
  ENTRY text_cstr_long_##SUF() { text_cstr<FieldString<N>>(N + 3); }
C1(s1, 1) C1(s5, 5)
ENTRY text_other_up() { text_other<FieldString<5>, FieldString<3>>(); }
ENTRY text_other_down() { text_other<FieldString<3>, FieldString<5>>(); }
ENTRY text_other_bytes() { text_other<FieldBytes<3>, FieldBytes<5>>(); }
ENTRY text_assign_up() { text_assign_other<FieldString<5>, FieldString<3>>(); }
ENTRY text_assign_down() { text_assign_other<FieldString<3>, FieldString<5>>(); }
ENTRY text_assign_bytes_up() { text_assign_other<FieldBytes<5>, FieldBytes<3>>(); }
ENTRY text_assign_bytes_down() { text_assign_other<FieldBytes<3>, FieldBytes<5>>(); }
