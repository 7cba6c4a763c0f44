// Messages of more than 65535 bytes: contents of symbolic length, every length prefix of one to three bytes.
#include "io.h"
#include <big.h>
using namespace EmbeddedProto;

static const uint32_t MAX = 70000;
static uint32_t vsize(const uint32_t v) { return (v < 0x80U) ? 1 : (v < 0x4000U) ? 2 : 3; }
static uint32_t field(const uint32_t v) { return 1 + vsize(v) + v; }      // tag, length, content
static void fill(big::Data& m, const uint8_t* p, const uint32_t n) { ep_check(Error::NO_ERRORS == m.mutable_b().set(p, n), "C05: data that fits is accepted"); }

// Written: the size announced, the bytes, nothing else.
template<class M> static void write(const M& m, Out& o, const uint32_t total)
{
  ep_check(total == m.serialized_size(), "C13: the size announced is the size of the encoding");
  ep_check(Error::NO_ERRORS == m.serialize(o), "C08 C10: a buffer that is large enough suffices");
  ep_check(total == o.n, "C08 C13: as many bytes are written as announced");
}
static const char* const BYTES = "C08: the bytes are those of the encoding";
static const char* const PREFIX = "C08 C13: a length prefix is the length of what follows";
static void see(const Out& o, uint32_t& pos, const uint32_t tag, const uint32_t n) { expect_varint(o, pos, tag, BYTES); expect_varint(o, pos, n, PREFIX); }

ENTRY big_write_data()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Data m; fill(m, p, n); Out o(MAX + 20); write(m, o, field(n));
  uint32_t pos = 0; see(o, pos, 0x0A, n); expect_bytes(o, pos, p, n, BYTES);
}
ENTRY big_write_note()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Note m; ep_check(Error::NO_ERRORS == m.mutable_s().set(reinterpret_cast<const char*>(p), n), "C05: data that fits is accepted");
  Out o(MAX + 20); write(m, o, field(n));
  uint32_t pos = 0; see(o, pos, 0x12, n); expect_bytes(o, pos, p, n, BYTES);
}
ENTRY big_write_wrap()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Wrap m; fill(m.mutable_d(), p, n); m.set_u(5); Out o(MAX + 20); write(m, o, field(field(n)) + 2);
  uint32_t pos = 0; see(o, pos, 0x0A, field(n)); see(o, pos, 0x0A, n); expect_bytes(o, pos, p, n, BYTES);
  expect_varint(o, pos, 0x10, BYTES); expect_varint(o, pos, 5, BYTES);
}
ENTRY big_write_deep()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Deep m; fill(m.mutable_w().mutable_d(), p, n); Out o(MAX + 20); write(m, o, field(field(field(n))));
  uint32_t pos = 0; see(o, pos, 0x1A, field(field(n))); see(o, pos, 0x0A, field(n)); see(o, pos, 0x0A, n); expect_bytes(o, pos, p, n, BYTES);
}
ENTRY big_write_choice()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Choice m; Out o(MAX + 20); uint32_t pos = 0;
  if(ep_any_bool()) { fill(m.mutable_d(), p, n); write(m, o, field(field(n))); see(o, pos, 0x0A, field(n)); see(o, pos, 0x0A, n); }
  else if(ep_any_bool()) { m.mutable_b().set(p, n); write(m, o, field(n)); see(o, pos, 0x12, n); }
  else { m.mutable_s().set(reinterpret_cast<const char*>(p), n); write(m, o, field(n)); see(o, pos, 0x1A, n); }
  expect_bytes(o, pos, p, n, BYTES);
}
ENTRY big_write_two()
{
  const uint32_t n = ep_any_range(1, MAX); const uint8_t* p = ep_new_array(n);
  big::Two m; big::Data a; fill(a, p, n); m.add_d(a); const big::Data b; m.add_d(b);
  Out o(2 * MAX + 40); write(m, o, field(field(n)) + 2);
  uint32_t pos = 0; see(o, pos, 0x0A, field(n)); see(o, pos, 0x0A, n); expect_bytes(o, pos, p, n, BYTES); see(o, pos, 0x0A, 0);
}
// Too small by any number of bytes.
template<class M> static void small(const M& m, const uint32_t total)
{
  Out o(ep_any_range(0, MAX + 20)); ep_assume(o.cap < total);
  ep_check(Error::BUFFER_FULL == m.serialize(o), "C10: a message that does not fit is reported");
}
ENTRY big_small_wrap()
{
  const uint32_t n = ep_any_range(1, MAX);
  big::Wrap m; fill(m.mutable_d(), ep_new_array(n), n); small(m, field(field(n)));
}
ENTRY big_small_deep()
{
  const uint32_t n = ep_any_range(1, MAX);
  big::Deep m; fill(m.mutable_w().mutable_d(), ep_new_array(n), n); small(m, field(field(field(n))));
}

// Unknown fields of any length.
struct Cur { uint8_t* d; uint32_t pos; void varint(uint32_t v) { while(v > 0x7FU) { d[pos] = static_cast<uint8_t>((v & 0x7FU) | 0x80U); pos = pos + 1; v >>= 7; } d[pos] = static_cast<uint8_t>(v); pos = pos + 1; }
             void part(const uint32_t tag, const uint32_t n) { varint(tag); varint(n); } };
template<class M> static void read(M& m, In& b)
{
  ep_check(Error::NO_ERRORS == m.deserialize(b), "C09: a valid encoding is accepted");
  ep_check(b.n == b.pos, "C09: all of it is read");
}
ENTRY big_skip()
{
  const uint32_t n = ep_any_range(0, 200000); const uint32_t t = 2 + vsize(n) + n + 2; In b(ep_new_array(t), t);
  Cur c{b.data, 0}; c.varint(0xFA); c.varint(n); c.pos = c.pos + n; c.varint(0x10); c.varint(9);
  big::Wrap m; read(m, b); ep_check(9 == m.get_u(), "C09: an unknown field is skipped, what follows is read");
}

// Packed fields of any number of elements, all the same.
template<class T> class Same final : public RepeatedField<T>
{
  public:
    explicit Same(const uint32_t k) : n(k), x() { x.set(1); }
    ~Same() override = default;
    uint32_t get_length() const override { return n; }
    uint32_t get_max_length() const override { return n; }
    uint32_t get_size() const override { return n * sizeof(T); }
    uint32_t get_max_size() const override { return n * sizeof(T); }
    T& get(uint32_t) override { return x; }
    const T& get_const(uint32_t) const override { return x; }
    Error get_const(const uint32_t, T& value) const override { value = x; return Error::NO_ERRORS; }
    void set(uint32_t, const T&) override {}
    Error set_data(const T*, const uint32_t) override { return Error::NO_ERRORS; }
    Error add(const T&) override { return Error::NO_ERRORS; }
    void clear() override {}
    uint32_t n;
    T x;
};
// Keeps the first bytes, counts all.
class Head final : public EmbeddedProto::WriteBufferInterface
{
  public:
    Head() : n(0), k(0) { for(uint32_t i = 0; i < 8; i = i + 1) { first[i] = 0; } }
    ~Head() override = default;
    void clear() override { n = 0; k = 0; }
    uint32_t get_size() const override { return n; }
    uint32_t get_max_size() const override { return 0xFFFFFFFFU; }
    uint32_t get_available_size() const override { return 0xFFFFFFFFU - n; }
    bool push(const uint8_t byte) override { if(k < 8) { first[k] = byte; k = k + 1; } n = n + 1; return true; }
    bool push(const uint8_t* bytes, const uint32_t length) override
    {
      for(uint32_t i = 0; (i < length) && (k < 8); i = i + 1) { first[k] = bytes[i]; k = k + 1; }
      n = n + length;
      return true;
    }
    uint8_t first[8];
    uint32_t n;
    uint32_t k;
};
template<class T> static void packed(const uint32_t bytes)
{
  uint32_t lo = 1, hi = 127;
  const uint32_t c = ep_any_range(0, 2);
  if(1 == c) { lo = 128; hi = 16383; } else if(2 == c) { lo = 16384; hi = 600000; }
  ep_case(lo);
  const uint32_t n = ep_any_range((lo + bytes - 1) / bytes, hi / bytes); const Same<T> f(n);
  ep_must("C08 C10 C12 C13: writing many elements ends");
  Head o; ep_check(Error::NO_ERRORS == f.serialize_with_id(1, o, false), "C08 C10: a buffer that is large enough suffices");
  ep_check(field(bytes * n) == o.n, "C08 C13: as many bytes are written as announced");
  uint32_t v = bytes * n; ep_check(0x0A == o.first[0], BYTES);
  for(uint32_t i = 0; i < vsize(bytes * n); i = i + 1) { ep_check(o.first[i + 1] == static_cast<uint8_t>((v & 0x7FU) | ((v > 0x7FU) ? 0x80U : 0U)), PREFIX); v >>= 7; }
}
ENTRY big_write_bits() { packed<boolean>(1); }
ENTRY big_write_uint32() { packed<uint32>(1); }
