#ifndef EP_SCALAR_H
#define EP_SCALAR_H
#include "io.h"
#include <Fields.h>
using namespace EmbeddedProto;

// The oracle: how each scalar type is encoded (varint payload or fixed width), and its value from the decoded payload.
template<class T> struct Ref;
#define VAR(T, ANY, PAYLOAD, MAXBYTES, BACK) template<> struct Ref<T> { \
  static const bool zigzag = ('s' == #T[0]); static const bool fixed = false; static const uint32_t bytes = MAXBYTES; using R = T::TYPE; static const uint32_t wire = 0; \
  static R any() { return static_cast<R>(ANY()); } \
  static uint64_t payload(const R v) { return PAYLOAD; } \
  static R back(const uint64_t p) { return BACK; } };
#define FIX(T, U, ANY, BYTES) template<> struct Ref<T> { \
  static const bool zigzag = false; static const bool fixed = true; static const uint32_t bytes = BYTES; using R = T::TYPE; static const uint32_t wire = (4 == BYTES) ? 5 : 1; \
  static R any() { return as<R>(ANY()); } \
  static uint64_t payload(const R v) { return as<U>(v); } \
  static R back(const uint64_t p) { return as<R>(static_cast<U>(p)); } };
VAR(int32, ep_any_u32, static_cast<uint32_t>(v), 10, static_cast<int32_t>(static_cast<uint32_t>(p)))
VAR(int64, ep_any_u64, static_cast<uint64_t>(v), 10, static_cast<int64_t>(p))
VAR(uint32, ep_any_u32, v, 5, static_cast<uint32_t>(p))
VAR(uint64, ep_any_u64, v, 10, p)
VAR(sint32, ep_any_u32, (v < 0) ? ~(static_cast<uint32_t>(v) << 1) : (static_cast<uint32_t>(v) << 1), 10,
    static_cast<int32_t>((p & 1) ? ~static_cast<uint32_t>(static_cast<uint32_t>(p) >> 1) : (static_cast<uint32_t>(p) >> 1)))
VAR(sint64, ep_any_u64, (v < 0) ? ~(static_cast<uint64_t>(v) << 1) : (static_cast<uint64_t>(v) << 1), 10,
    static_cast<int64_t>((p & 1) ? ~(p >> 1) : (p >> 1)))
VAR(boolean, ep_any_bool, v ? 1 : 0, 10, 0 != p)
FIX(fixed32, uint32_t, ep_any_u32, 4)
FIX(fixed64, uint64_t, ep_any_u64, 8)
FIX(sfixed32, uint32_t, ep_any_u32, 4)
FIX(sfixed64, uint64_t, ep_any_u64, 8)
FIX(floatfixed, uint32_t, ep_any_float, 4)
FIX(doublefixed, uint64_t, ep_any_double, 8)

template<class E> struct Ref<EmbeddedProto::enumeration<E>> {
  static const bool zigzag = false; static const bool fixed = false; static const uint32_t bytes = 10; using R = E; static const uint32_t wire = 0;
  static R any() { return static_cast<R>(ep_any_u32()); }
  static uint64_t payload(const R v) { return static_cast<uint32_t>(v); }
  static R back(const uint64_t p) { return static_cast<R>(static_cast<uint32_t>(p)); } };

template<class V> static bool same_bits(const V& a, const V& b) { return a == b; }
template<> bool same_bits<float>(const float& a, const float& b) { return as<uint32_t>(a) == as<uint32_t>(b); }
template<> bool same_bits<double>(const double& a, const double& b) { return as<uint64_t>(a) == as<uint64_t>(b); }
#endif
