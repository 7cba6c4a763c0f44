#include "ep.h"
#include <ReadBufferFixedSize.h>
#include <ReadBufferSection.h>
using namespace EmbeddedProto;

// Simulation of the buffer by two counters (bytes written, bytes consumed) over an arbitrary sequence of public calls.
template<uint32_t N> static void contract()
{
  ReadBufferFixedSize<N> b;
  const ReadBufferFixedSize<N>& cb = b;
  uint32_t w = 0;
  uint32_t c = 0;
  while(ep_more())
  {
    const uint8_t before = ep_any_u8();
    uint8_t x = before;
    switch(ep_any_range(0, 7))
    {
      case 0:
      {
        const uint8_t v = ep_any_u8();
        const bool r = b.push(v);
        ep_check(r == (w < N), "C03: a received byte is accepted exactly when there is space");
        if(r)
        {
          ep_check(v == b.get_data()[w], "C03: a received byte is stored after the bytes received before");
          w = w + 1;
        }
        break;
      }
      case 1:
      {
        const bool r = b.pop(x);
        ep_check(r == (c < w), "C03: pop succeeds exactly when an unread byte is held");
        if(r)
        {
          ep_check(x == b.get_data()[c], "C03: pop yields the oldest unread byte");
          c = c + 1;
        }
        else
        {
          ep_check(before == x, "C03: a failed pop leaves its output");
        }
        break;
      }
      case 2:
      {
        const bool r = cb.peek(x);
        ep_check(r == (c < w), "C03: peek succeeds exactly when an unread byte is held");
        ep_check(x == (r ? b.get_data()[c] : before), "C03: peek yields the oldest unread byte");
        break;
      }
      case 3:
      {
        const bool r = b.advance();
        ep_check(r == (c < w), "C03: advance succeeds exactly when an unread byte is held");
        if(r)
        {
          c = c + 1;
        }
        break;
      }
      case 4:
      {
        const uint32_t n = ep_any_range(0, 0xFFFFFFFFU);
        const bool r = b.advance(n);
        ep_check(r == ((c <= w) && (n <= w - c)), "C03: advance(n) succeeds exactly when n unread bytes are held");
        if(r)
        {
          c = c + n;
        }
        break;
      }
      case 5:
      {
        const uint32_t n = ep_any_range(0, 0xFFFFFFFFU);
        b.set_bytes_written(n);
        w = (n < N) ? n : N;
        break;
      }
      case 6:
        b.clear();
        w = 0;
        c = 0;
        break;
      default:
        ep_any_bytes(b.get_data(), N);
        break;
    }
    ep_check(w == cb.get_size(), "C03: the number of bytes held is the number received");
    ep_check(N == cb.get_max_size(), "C03: the reported capacity is the capacity");
  }
}

// A section over a buffer: exposes at most `size` bytes, the next ones of the parent, each exactly once.
template<uint32_t N> static void section(const bool backed)
{
  ReadBufferFixedSize<N> parent;
  ep_any_bytes(parent.get_data(), N);
  const uint32_t w = ep_any_range(0, N);
  parent.set_bytes_written(w);
  const uint32_t c = ep_any_range(0, w);
  ep_check(parent.advance(c), "C03: advance(n) succeeds when n bytes are held");
  const uint32_t k = ep_any_range(0, 0xFFFFFFFFU);
  if(backed)
  {
    ep_assume(k <= w - c);
  }
  else if(k <= w)
  {
    ep_case(1);
  }
  ReadBufferSection s(parent, k);
  const ReadBufferInterface& cs = s;
  ReadBufferInterface& b = s;
  uint32_t u = 0;
  const uint32_t m = cs.get_max_size();
  ep_check(m <= k, "C03: a section is not larger than requested");
  if(backed)
  {
    ep_check(m == k, "C03: a section held completely by its buffer has the requested size");
  }
  while(ep_more())
  {
    const uint8_t before = ep_any_u8();
    uint8_t x = before;
    const bool more = (u < k) && (c + u < w);
    switch(ep_any_range(0, 3))
    {
      case 0:
      {
        const bool r = b.pop(x);
        ep_check(r == more, "C03: pop on a section succeeds exactly while bytes of the section are left");
        if(r)
        {
          ep_check(x == parent.get_data()[c + u], "C03: pop on a section yields the next byte of its buffer");
          u = u + 1;
        }
        else
        {
          ep_check(before == x, "C03: a failed pop leaves its output");
          if(u < k) { return; }     // the buffer ran out before the section did
        }
        break;
      }
      case 1:
      {
        const bool r = cs.peek(x);
        {
          ep_check(r == more, "C03: peek on a section succeeds exactly while bytes of the section are left");
          ep_check(x == (r ? parent.get_data()[c + u] : before), "C03: peek on a section yields the next byte of its buffer");
        }
        break;
      }
      case 2:
      {
        const bool r = b.advance();
        ep_check(r == more, "C03: advance on a section succeeds exactly while bytes of the section are left");
        if(r)
        {
          u = u + 1;
        }
        else
        {
          if(u < k) { return; }
        }
        break;
      }
      default:
      {
        const uint32_t n = ep_any_range(0, 0xFFFFFFFFU);
        if(backed)
        {
          const uint32_t left = k - u;
          const bool r = b.advance(n);
          if(0 < n)
          {
            ep_check(r == (n <= left), "C03: advance(n) on a section succeeds exactly when n bytes are left");
          }
          u = u + ((n < left) ? n : left);
        }
        break;
      }
    }
    ep_check(cs.get_size() <= k - u, "C03: a section never offers more than what is left of its size");
    if(backed)
    {
      ep_check(cs.get_size() == k - u, "C03: the size of a section is the number of bytes left");
    }
    ep_check(m == cs.get_max_size(), "C03: the capacity of a section does not change");
  }
  {
    uint8_t y = 0;
    const bool r = parent.pop(y);
    ep_check(r == (c + u < w), "C03: a section consumes from its buffer exactly the bytes read through it");
    if(r)
    {
      ep_check(y == parent.get_data()[c + u], "C03: a section leaves its buffer at the byte after the last one read");
    }
  }
}

ENTRY rbuf_1() { contract<1>(); }
ENTRY rbuf_5() { contract<5>(); }
ENTRY rbuf_300() { contract<300>(); }
ENTRY rbuf_70000() { contract<70000>(); }
ENTRY section_5() { section<5>(false); }
ENTRY section_5_backed() { section<5>(true); }
ENTRY section_300_backed() { section<300>(true); }
ENTRY section_70000() { section<70000>(false); }
ENTRY section_70000_backed() { section<70000>(true); }
