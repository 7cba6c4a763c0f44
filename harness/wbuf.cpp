#include "ep.h"
#include <WriteBufferFixedSize.h>
using namespace EmbeddedProto;

// An arbitrary sequence of public calls.
template<uint32_t N> static void history(WriteBufferFixedSize<N>& b)
{
  while(ep_more())
  {
    switch(ep_any_range(0, 2))
    {
      case 0: b.push(ep_any_u8()); break;
      case 1: { const uint32_t n = ep_any_range(0, 0xFFFFFFFFU); b.push(ep_any_array(n), n); break; }
      default: b.clear(); break;
    }
  }
}

template<uint32_t N> static void contract()
{
  WriteBufferFixedSize<N> real;
  history<N>(real);
  WriteBufferInterface& b = real;
  const uint32_t s = b.get_size();
  ep_check(s <= N, "C02: the number of bytes held never exceeds the capacity");
  ep_check(N == b.get_max_size(), "C02: the reported capacity is the capacity");
  ep_check(N - s == b.get_available_size(), "C02: size plus available space is the capacity");
  const bool have = 0 < s;
  uint32_t i = 0;
  uint8_t old = 0;
  if(have)
  {
    i = ep_any_range(0, s - 1);
    old = real.get_data()[i];
  }
  switch(ep_any_range(0, 2))
  {
    case 0:
    {
      const uint8_t v = ep_any_u8();
      const bool r = b.push(v);
      ep_check(r == (s < N), "C02: pushing a byte succeeds exactly when there is space");
      if(r)
      {
        ep_check(s + 1 == b.get_size(), "C02: a pushed byte adds one to the size");
        ep_check(v == real.get_data()[s], "C02: a pushed byte is stored at the end");
      }
      else
      {
        ep_check(s == b.get_size(), "C02: a refused byte leaves the size");
      }
      break;
    }
    case 1:
    {
      const uint32_t n = ep_any_range(0, 0xFFFFFFFFU);
      const uint8_t* src = ep_any_array(n);
      const bool r = b.push(src, n);
      ep_check(r == (n <= N - s), "C02: pushing an array succeeds exactly when it fits");
      if(r)
      {
        ep_check(s + n == b.get_size(), "C02: a pushed array adds its length to the size");
        if(0 < n)
        {
          const uint32_t j = ep_any_range(0, n - 1);
          ep_check(src[j] == real.get_data()[s + j], "C02: a pushed array is stored at the end in order");
        }
      }
      else
      {
        ep_check(s == b.get_size(), "C02: a refused array leaves the size");
      }
      break;
    }
    default:
      b.clear();
      ep_check(0 == b.get_size(), "C02: clear empties the buffer");
      ep_check(N == b.get_available_size(), "C02: clear frees all space");
      return;
  }
  if(have)
  {
    ep_check(old == real.get_data()[i], "C02: bytes already held are not changed by a push");
  }
  ep_check(N - b.get_size() == b.get_available_size(), "C02: size plus available space is the capacity");
}

ENTRY wbuf_1() { contract<1>(); }
ENTRY wbuf_5() { contract<5>(); }
ENTRY wbuf_300() { contract<300>(); }
ENTRY wbuf_70000() { contract<70000>(); }
