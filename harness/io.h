// Ideal buffers for the harnesses: unbounded knowledge of what was written/read, arbitrary capacity and content.
#ifndef EP_IO_H
#define EP_IO_H
#include "ep.h"
#include <WriteBufferInterface.h>
#include <ReadBufferInterface.h>
#include <Errors.h>

// Holds `cap` bytes; refuses what does not fit.
class Out final : public EmbeddedProto::WriteBufferInterface
{
  public:
    explicit Out(const uint32_t c) : data(ep_raw_array(c)), cap(c), n(0) {}
    ~Out() override = default;
    void clear() override { n = 0; }
    uint32_t get_size() const override { return n; }
    uint32_t get_max_size() const override { return cap; }
    uint32_t get_available_size() const override { return cap - n; }
    bool push(const uint8_t byte) override
    {
      if(n < cap) { data[n] = byte; n = n + 1; return true; }
      return false;
    }
    bool push(const uint8_t* bytes, const uint32_t length) override
    {
      if(length <= cap - n) { memcpy(data + n, bytes, length); n = n + length; return true; }
      return false;
    }
    uint8_t* data;
    uint32_t cap;
    uint32_t n;
};

// Accepts or refuses every push at will; counts the refusals.
class Flaky final : public EmbeddedProto::WriteBufferInterface
{
  public:
    Flaky() : refused(false) {}
    ~Flaky() override = default;
    void clear() override {}
    uint32_t get_size() const override { return 0; }
    uint32_t get_max_size() const override { return 0xFFFFFFFFU; }
    uint32_t get_available_size() const override { return 0xFFFFFFFFU; }
    bool push(const uint8_t) override { return outcome(); }
    bool push(const uint8_t*, const uint32_t) override { return outcome(); }
    bool refused;
  private:
    bool outcome()
    {
      if(ep_any_bool()) { return true; }
      refused = true;
      return false;
    }
};

// n bytes of arbitrary content.
class In final : public EmbeddedProto::ReadBufferInterface
{
  public:
    explicit In(const uint32_t size) : data(ep_any_array(size)), n(size), pos(0), starved(false) {}
    In(uint8_t* d, const uint32_t size) : data(d), n(size), pos(0), starved(false) {}
    ~In() override = default;
    uint32_t get_size() const override { return n; }
    uint32_t get_max_size() const override { return n; }
    bool peek(uint8_t& byte) const override
    {
      if(pos < n) { byte = data[pos]; return true; }
      return false;
    }
    bool advance() override
    {
      if(pos < n) { pos = pos + 1; return true; }
      starved = true;
      return false;
    }
    bool advance(const uint32_t k) override
    {
      if(k <= n - pos) { pos = pos + k; return true; }
      starved = true;
      return false;
    }
    bool pop(uint8_t& byte) override
    {
      if(pos < n) { byte = data[pos]; pos = pos + 1; return true; }
      starved = true;
      return false;
    }
    uint8_t* data;
    uint32_t n;
    uint32_t pos;
    bool starved;
};

// Data that may end anywhere; asking again and again at its end without any progress is reported.
class Wild final : public EmbeddedProto::ReadBufferInterface
{
  public:
    Wild(uint8_t* d, const uint32_t size) : data(d), n(size), pos(0), fails(0) {}
    ~Wild() override = default;
    uint32_t get_size() const override { return n; }
    uint32_t get_max_size() const override { return n; }
    bool peek(uint8_t& byte) const override
    {
      if(pos < n) { byte = data[pos]; return true; }
      return failed();
    }
    bool advance() override
    {
      if(pos < n) { pos = pos + 1; return true; }
      return failed();
    }
    bool advance(const uint32_t k) override
    {
      if(k <= n - pos) { pos = pos + k; return true; }
      return failed();
    }
    bool pop(uint8_t& byte) override
    {
      if(pos < n) { byte = data[pos]; pos = pos + 1; return true; }
      return failed();
    }
    uint8_t* data;
    uint32_t n;
    uint32_t pos;
    mutable uint32_t fails;
  private:
    bool failed() const
    {
      fails = fails + 1;
      ep_check(fails <= 100, "C12: parsing stops at the end of the data");
      return false;
    }
};

// ---- reference encoder: checks that the bytes at `pos` are the standard encoding, and steps over them
// What was written there, nothing outside of it.
static inline uint8_t byte_at(const Out& b, const uint32_t pos) { return (pos < b.n) ? b.data[pos] : 0; }
static inline void expect_varint(const Out& b, uint32_t& pos, uint64_t v, const char* what)
{
  while(v > 0x7FU)
  {
    ep_check(pos < b.n, what);
    ep_check(byte_at(b, pos) == static_cast<uint8_t>((v & 0x7FU) | 0x80U), what);
    pos = pos + 1;
    v >>= 7;
  }
  ep_check(pos < b.n, what);
  ep_check(byte_at(b, pos) == static_cast<uint8_t>(v), what);
  pos = pos + 1;
}
static inline void expect_fixed(const Out& b, uint32_t& pos, uint64_t v, const uint32_t bytes, const char* what)
{
  for(uint32_t i = 0; i < bytes; i = i + 1)
  {
    ep_check(pos < b.n, what);
    ep_check(byte_at(b, pos) == static_cast<uint8_t>(v & 0xFFU), what);
    v >>= 8;
    pos = pos + 1;
  }
}
static inline void expect_tag(const Out& b, uint32_t& pos, const uint32_t number, const uint32_t wiretype, const char* what)
{
  expect_varint(b, pos, (static_cast<uint64_t>(number) << 3) | wiretype, what);
}
static inline void expect_bytes(const Out& b, uint32_t& pos, const uint8_t* src, const uint32_t n, const char* what)
{
  ep_check(n <= b.n - pos, what);
  if((0 < n) && (n <= b.n - pos))
  {
    const uint32_t j = ep_any_range(0, n - 1);
    ep_check(b.data[pos + j] == src[j], what);
  }
  pos = pos + n;
}
template<class T, class U> static inline T as(const U& u) { T t; static_assert(sizeof(T) == sizeof(U), ""); memcpy(&t, &u, sizeof(T)); return t; }

// ---- reference decoder for a varint of at most `max` bytes starting at pos; result 0: value, 1: truncated, 2: overlong
static inline int ref_varint(const In& b, uint32_t& pos, const uint32_t max, uint64_t& v)
{
  v = 0;
  for(uint32_t i = 0; i < max; i = i + 1)
  {
    if(pos >= b.n) { return 1; }
    const uint8_t x = b.data[pos];
    pos = pos + 1;
    v |= static_cast<uint64_t>(x & 0x7FU) << (7 * i);
    if(0 == (x & 0x80U)) { return 0; }
  }
  return 2;
}
static inline int ref_fixed(const In& b, uint32_t& pos, const uint32_t bytes, uint64_t& v)
{
  v = 0;
  for(uint32_t i = 0; i < bytes; i = i + 1)
  {
    if(pos >= b.n) { return 1; }
    v |= static_cast<uint64_t>(b.data[pos]) << (8 * i);
    pos = pos + 1;
  }
  return 0;
}
#endif
