// Repeated fields of many elements: neither an index nor a length is limited to the range of a narrower type.
#include "io.h"
#include <RepeatedFieldFixedSize.h>
#include <Fields.h>
#include <FieldStringBytes.h>
using namespace EmbeddedProto;

static boolean yes() { boolean v; v.set(true); return v; }
// The elements from one index up to the length are true, the others false. Of very many elements those are looked at
// which an index or length cut to 8 or 16 bits would reach, and their neighbours.
template<uint32_t N> static void holds(const RepeatedFieldFixedSize<boolean, N>& f, const uint32_t n, const uint32_t from, const char* what)
{
  ep_check(n == f.get_length(), what);
  for(uint32_t i = 0; i < ((N < 1000) ? N : 24); i = i + 1)
  {
    const uint32_t at[8] = {0, 255, from & 0xFFU, n & 0xFFU, 65535, from & 0xFFFFU, n & 0xFFFFU, N - 2};
    const uint32_t j = (N < 1000) ? i : (at[i / 3] + (((0 == i / 3) || (0 < at[i / 3])) ? (i % 3) : 1) - ((0 == i / 3) ? 0 : 1));
    if(j < N) { ep_check(((j >= from) && (j < n)) == f.get_data_const()[j].get(), what); }
  }
}
template<uint32_t N> static void wide_set(const uint32_t how, const uint32_t k)
{
  RepeatedFieldFixedSize<boolean, N> f;
  RepeatedField<boolean>& r = f;
  switch(how) { case 0: r.set(k, yes()); break; case 1: r.get(k) = yes(); break; default: r[k] = yes(); break; }
  holds(f, k + 1, k, "C05: writing an element extends the length to include it and leaves the others");
  ep_check(r.get_const(k).get(), "C05: reading returns the element");
  const RepeatedField<boolean>& c = f;
  ep_check(c[k].get(), "C05: reading returns the element");
  boolean v; ep_check((Error::NO_ERRORS == c.get_const(k, v)) && v.get(), "C05: reading returns the element");
  const Error e = r.add(yes());
  if(k + 1 < N)
  {
    ep_check(Error::NO_ERRORS == e, "C05: an element is added while there is space");
    holds(f, k + 2, k, "C05: adding an element adds it at the end and leaves the others");
    ep_check(Error::INDEX_OUT_OF_BOUND == c.get_const(k + 2, v), "C05: reading beyond the length is refused");
  }
  else
  {
    ep_check(Error::ARRAY_FULL == e, "C04: an element that does not fit is refused");
    holds(f, k + 1, k, "C04: a refused element leaves the field");
  }
  f.clear();
  holds(f, 0, 0, "C05: clearing leaves nothing");
}
static boolean all[70002];
template<uint32_t N> static void wide_data(const uint32_t before, const uint32_t n)
{
  for(uint32_t i = 0; i < n; i = i + 1) { all[i] = yes(); }
  RepeatedFieldFixedSize<boolean, N> f;
  f.set(before, yes());
  const Error e = f.set_data(all, n);
  if(n <= N)
  {
    ep_check(Error::NO_ERRORS == e, "C05: data that fits is accepted");
    holds(f, n, 0, "C05: the field holds the data and nothing else");
  }
  else
  {
    ep_check(Error::ARRAY_FULL == e, "C04: data that does not fit is refused");
    holds(f, before + 1, before, "C04: refused data leaves the field");
  }
}
template<uint32_t N> static void wide_copy(const uint32_t k)
{
  RepeatedFieldFixedSize<boolean, N> a;
  RepeatedFieldFixedSize<boolean, N> b;
  a.set(k, yes());
  b.set(N - 1, yes());
  b = a;
  holds(b, k + 1, k, "C05: a copy holds the same elements");
  ep_check(a.get_length() == k + 1, "C05: copying leaves the source");
}
// The content follows the prefix: elements which are all true.
class Ones final : public EmbeddedProto::ReadBufferInterface
{
  public:
    explicit Ones(const uint32_t k) : n(k), pos(0) {}
    ~Ones() override = default;
    uint32_t get_size() const override { return 3 + n - pos; }
    uint32_t get_max_size() const override { return 3 + n; }
    bool peek(uint8_t& byte) const override { if(pos >= 3 + n) { return false; } byte = at(); return true; }
    bool advance() override { if(pos >= 3 + n) { return false; } pos = pos + 1; return true; }
    bool advance(const uint32_t k) override { if(k > 3 + n - pos) { return false; } pos = pos + k; return true; }
    bool pop(uint8_t& byte) override { if(pos >= 3 + n) { return false; } byte = at(); pos = pos + 1; return true; }
    uint8_t at() const { return (0 == pos) ? ((n & 0x7FU) | 0x80U) : (1 == pos) ? (((n >> 7) & 0x7FU) | 0x80U) : (2 == pos) ? (n >> 14) : 1U; }
    uint32_t n;
    uint32_t pos;
};
template<uint32_t N> static void wide_parse(const uint32_t k, const uint32_t n)
{
  RepeatedFieldFixedSize<boolean, N> f;
  if(0 < k) { f.set(k - 1, yes()); }
  Ones in(n);
  const Error e = f.deserialize(in);
  if(k + n <= N)
  {
    ep_check(Error::NO_ERRORS == e, "C05: complete content that fits is accepted");
    holds(f, k + n, (0 < k) ? (k - 1) : 0, "C05: parsing appends the elements");
    ep_check(3 + n == in.pos, "C05: exactly the bytes of the field are consumed");
  }
  else { ep_check(Error::ARRAY_FULL == e, "C04: more elements than fit are refused"); ep_check(f.get_length() <= N, "C04: the length never exceeds the capacity"); }
}
template<uint32_t N> static void wide_caps()
{
  RepeatedFieldFixedSize<boolean, N> f;
  ep_check(N == f.get_max_length(), "C05: the reported capacity is the capacity");
}
// Elements with a length of their own, and large ones.
template<uint32_t N> static void wide_text()
{
  RepeatedFieldFixedSize<FieldString<1>, N> f;
  (void)f.get(N - 2);
  uint8_t bytes[2] = {1, 'x'};
  In in(bytes, 2);
  ep_check(Error::NO_ERRORS == f.deserialize(in), "C05: complete content that fits is accepted");
  ep_check(N == f.get_length(), "C05: parsing appends the elements");
  ep_check((1 == f.get_data_const()[N - 1].get_length()) && ('x' == f.get_data_const()[N - 1].get_const()[0]), "C05: parsing appends the elements");
  ep_check((0 == f.get_data_const()[(N - 1) & 0xFFU].get_length()) && (0 == f.get_data_const()[((N - 1) & 0xFFFFU) - 1].get_length()), "C05: parsing leaves the elements already there");
  in.pos = 0;
  ep_check(Error::ARRAY_FULL == f.deserialize(in), "C04: more elements than fit are refused");
}
ENTRY wide_text_300() { wide_text<300>(); }
ENTRY wide_text_70000() { wide_text<70000>(); }
static char letters[400];
template<uint32_t N> static void wide_cstr(const uint32_t len)
{
  for(uint32_t i = 0; i < len; i = i + 1) { letters[i] = 'x'; }
  letters[len] = 0;
  FieldString<N> f;
  ep_must("C04 C05: taking over characters ends");
  f.set(letters);
  const uint32_t l = (len < N) ? len : N;
  ep_check(l == f.get_length(), "C05: a text is taken up to the capacity");
  ep_check(('x' == f.get_const()[l - 1]) && ('x' == f.get_const()[0]), "C05: the characters of a text are taken");
}
ENTRY wide_cstr_less_300() { wide_cstr<300>(299); } ENTRY wide_cstr_fits_300() { wide_cstr<300>(300); } ENTRY wide_cstr_over_300() { wide_cstr<300>(302); }
ENTRY wide_bytes()
{
  RepeatedFieldFixedSize<FieldString<300>, 3> f;
  (void)f.get(1);
  ep_check(2 * sizeof(FieldString<300>) == f.get_size(), "C05: the bytes reported are those of the elements");
  ep_check(3 * sizeof(FieldString<300>) == f.get_max_size(), "C05: the bytes reported are those of the elements");
}
#define W(N) \
  ENTRY wide_set_##N() { wide_caps<N>(); wide_set<N>(0, N - 1); } ENTRY wide_get_##N() { wide_set<N>(1, N - 1); } ENTRY wide_at_##N() { wide_set<N>(2, N - 1); } \
  ENTRY wide_add0_##N() { wide_set<N>(0, N - 2); } ENTRY wide_add1_##N() { wide_set<N>(1, N - 2); } ENTRY wide_add2_##N() { wide_set<N>(2, N - 2); } \
  ENTRY wide_less_##N() { wide_data<N>(N - 1, N - 2); } ENTRY wide_full_##N() { wide_data<N>(0, N); } \
  ENTRY wide_over_##N() { wide_data<N>(N - 2, N + 1); } ENTRY wide_few_##N() { wide_data<N>(N - 1, 3); } \
  ENTRY wide_copy_##N() { wide_copy<N>(N - 2); } \
  ENTRY wide_parse_##N() { wide_parse<N>(0, N); } ENTRY wide_append_##N() { wide_parse<N>(N - 2, 2); } ENTRY wide_excess_##N() { wide_parse<N>(N - 1, 2); }
W(300) W(70000)
