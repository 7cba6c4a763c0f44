// Support for the generated message harnesses (epsa/msgs.py): reference encoding of ghost values into three kinds of sinks.
#ifndef EP_MSG_H
#define EP_MSG_H
#include "scalar.h"
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>

// One of lo..hi, each in a partition of its own.
static inline uint32_t pick(const uint32_t lo, const uint32_t hi)
{
  for(uint32_t i = lo; i < hi; i = i + 1) { if(ep_any_bool()) { ep_case(i); return i; } }
  ep_case(hi);
  return hi;
}
struct Sink { void enter() {} void leave() {} void mark() {} void tagged() {} };
struct Put : Sink
{
  explicit Put(Out& o) : b(o) {}
  void byte(const uint8_t v) { b.data[b.n] = v; b.n = b.n + 1; }
  void bytes(const uint8_t* p, const uint32_t n) { if(0 < n) { memcpy(b.data + b.n, p, n); b.n = b.n + n; } }
  Out& b;
};
struct Expect : Sink
{
  Expect(const Out& o, const char* w) : b(o), pos(0), what(w) {}
  void byte(const uint8_t v) { ep_check(pos < b.n, what); ep_check(byte_at(b, pos) == v, what); pos = pos + 1; }
  void bytes(const uint8_t* p, const uint32_t n)
  {
    ep_check(n <= b.n - pos, what);
    if((0 < n) && (n <= b.n - pos)) { const uint32_t j = ep_any_range(0, n - 1); ep_check(b.data[pos + j] == p[j], what); }
    pos = pos + n;
  }
  const Out& b;
  uint32_t pos;
  const char* what;
};
struct Count : Sink
{
  Count() : n(0) {}
  void byte(const uint8_t) { n = n + 1; }
  void bytes(const uint8_t*, const uint32_t k) { n = n + k; }
  uint32_t n;
};
// Is byte k the beginning of a field of the outermost message?
struct Cut
{
  explicit Cut(const uint32_t at) : n(0), k(at), depth(0), boundary(false), intag(false), start(0) {}
  void byte(const uint8_t) { n = n + 1; }
  void bytes(const uint8_t*, const uint32_t l) { n = n + l; }
  void enter() { depth = depth + 1; }
  void leave() { depth = depth - 1; }
  void mark() { start = n; if((0 == depth) && (n == k)) { boundary = true; } }
  void tagged() { if((0 == depth) && (start < k) && (k < n)) { intag = true; } }
  uint32_t n;
  uint32_t k;
  uint32_t depth;
  bool boundary;
  bool intag;
  uint32_t start;
};
template<class S> static void put_varint(S& s, uint64_t v)
{
  while(v > 0x7FU) { s.byte(static_cast<uint8_t>((v & 0x7FU) | 0x80U)); v >>= 7; }
  s.byte(static_cast<uint8_t>(v));
}
template<class S> static void put_fixed(S& s, uint64_t v, const uint32_t n)
{
  for(uint32_t i = 0; i < n; i = i + 1) { s.byte(static_cast<uint8_t>(v & 0xFFU)); v >>= 8; }
}
template<class S> static void put_tag(S& s, const uint32_t number, const uint32_t wire) { s.mark(); put_varint(s, (static_cast<uint64_t>(number) << 3) | wire); s.tagged(); }

// The reference decoder reads from here. It accepts, rejects, or leaves open what is to happen.
struct Src { const uint8_t* d; uint32_t end; uint32_t pos; };
enum { ACCEPT = 0, REJECT = 1, OPEN = 2 };
static inline int get_varint(Src& s, const uint32_t max, uint64_t& v, const int cut)
{
  v = 0;
  for(uint32_t i = 0; i < max; i = i + 1)
  {
    if(s.pos >= s.end) { return cut; }
    const uint8_t b = s.d[s.pos];
    s.pos = s.pos + 1;
    v |= static_cast<uint64_t>(b & 0x7FU) << (7 * i);
    if(b < 0x80U) { return ACCEPT; }
  }
  return REJECT;
}
static inline int get_fixed(Src& s, const uint32_t n, uint64_t& v)
{
  v = 0;
  if(n > s.end - s.pos) { return REJECT; }
  for(uint32_t i = 0; i < n; i = i + 1) { v |= static_cast<uint64_t>(s.d[s.pos + i]) << (8 * i); }
  s.pos = s.pos + n;
  return ACCEPT;
}
// The content of a length delimited field; s is left behind it.
static inline int get_part(Src& s, Src& part)
{
  uint64_t n = 0;
  const int r = get_varint(s, 5, n, REJECT);
  if(ACCEPT != r) { return r; }
  const uint32_t l = static_cast<uint32_t>(n);
  if(l > s.end - s.pos) { return REJECT; }
  part.d = s.d; part.pos = s.pos; part.end = s.pos + l;
  s.pos = s.pos + l;
  return ACCEPT;
}
static inline int skip_unknown(Src& s, const uint32_t wt)
{
  uint64_t v = 0;
  switch(wt)
  {
    case 0: return get_varint(s, 10, v, REJECT);
    case 1: return get_fixed(s, 8, v);
    case 5: return get_fixed(s, 4, v);
    case 2:
    {
      const int r = get_varint(s, 5, v, REJECT);
      if(ACCEPT != r) { return r; }
      const uint32_t l = static_cast<uint32_t>(v);
      if(l > s.end - s.pos) { return OPEN; }      // see known_findings.txt
      s.pos = s.pos + l;
      return ACCEPT;
    }
    default: return REJECT;
  }
}

#ifdef MSG_TO_STRING
#include <cstdio>
#include <cinttypes>
extern "C" void ep_tokens();        // from here on the text of a number is an opaque word of fixed length
// A text to compare with what is expected, white space between its words being of no interest.
struct Text
{
  const char* p;
  uint32_t pos;
  uint32_t n;
  const char* what;
  void white() { while((pos < n) && ((' ' == p[pos]) || ('\n' == p[pos]) || ('\t' == p[pos]) || ('\r' == p[pos]))) { pos = pos + 1; } }
  void raw(const char* s, const uint32_t k)
  {
    for(uint32_t i = 0; i < k; i = i + 1) { ep_check(pos < n, what); ep_check(p[pos] == s[i], what); pos = pos + 1; }
  }
  void lit(const char* s) { white(); raw(s, static_cast<uint32_t>(strlen(s))); }
};
template<class T> struct Say;
#define SAY(T, F, X) template<> struct Say<T> { static void say(Text& t, const Ref<T>::R v) { char w[400]; const int k = snprintf(w, sizeof(w), F, X); t.white(); t.raw(w, k); } };
SAY(int32, "%" PRId32, v) SAY(sint32, "%" PRId32, v) SAY(sfixed32, "%" PRId32, v)
SAY(int64, "%" PRId64, v) SAY(sint64, "%" PRId64, v) SAY(sfixed64, "%" PRId64, v)
SAY(uint32, "%" PRIu32, v) SAY(fixed32, "%" PRIu32, v) SAY(uint64, "%" PRIu64, v) SAY(fixed64, "%" PRIu64, v)
SAY(floatfixed, "%f", static_cast<double>(v)) SAY(doublefixed, "%f", v) SAY(boolean, "%s", v ? "true" : "false")
template<class E> struct Say<EmbeddedProto::enumeration<E>> { static void say(Text& t, const E v) { char w[400]; const int k = snprintf(w, sizeof(w), "%" PRId32, static_cast<int32_t>(v)); t.white(); t.raw(w, k); } };
#endif

struct W { const char* val; const char* pres; const char* one; };

template<class V> static bool is_zero(const V& v) { return static_cast<V>(0) == v; }
template<> bool is_zero<float>(const float& v) { return 0U == as<uint32_t>(v); }
template<> bool is_zero<double>(const double& v) { return 0U == as<uint64_t>(v); }

// Scalars. R: 0 all values, 1 one or two byte varints, 2 one byte varints.
template<class T, int R> struct KScalar
{
  using V = typename Ref<T>::R;
  static const uint32_t wire = Ref<T>::wire;
  static const uint32_t elem_wire = Ref<T>::wire;
  static V def() { return static_cast<V>(0); }
  static V any()
  {
    if((0 == R) || Ref<T>::fixed || (1 == sizeof(V))) { return Ref<T>::any(); }
    if(Ref<T>::zigzag) { return static_cast<V>(ep_any_u8() & 0x3FU); }
    return static_cast<V>(ep_any_range(0, (2 == R) ? 60 : 150));
  }
  static bool is_def(const V& v) { return is_zero(v); }
  static void eq(const V& a, const V& b, const W& w) { ep_check(same_bits<V>(a, b), w.val); }
  template<class S> static void put(S& s, const V& v)
  {
    if(Ref<T>::fixed) { put_fixed(s, Ref<T>::payload(v), Ref<T>::bytes); } else { put_varint(s, Ref<T>::payload(v)); }
  }
#ifdef MSG_TO_STRING
  static void few(const V&) {}
  static void say(Text& t, const V& v) { Say<T>::say(t, v); }
#endif
  static int get(Src& s, V& v)
  {
    uint64_t p = 0;
    const int r = Ref<T>::fixed ? get_fixed(s, Ref<T>::bytes, p) : get_varint(s, Ref<T>::bytes, p, REJECT);
    if(ACCEPT == r) { v = Ref<T>::back(p); }
    return r;
  }
};

struct Txt { Txt() : p(nullptr), n(0) {} Txt(const uint8_t* a, const uint32_t l) : p(a), n(l) {} const uint8_t* p; uint32_t n; };
template<class F, class C, uint32_t N> struct KText
{
  using V = Txt;
  static const uint32_t wire = 2;
  static V def() { return V(); }
  static V any() { const uint32_t n = (N <= 20) ? ep_any_range(0, N) : length(); return V(ep_new_array(n), n); }
  static uint32_t length() { switch(pick(0, 4)) { case 0: return 0; case 1: return 1; case 2: return 127; case 3: return 128; default: return N; } }
  static bool is_def(const V& v) { return 0 == v.n; }
  static void assign(F& f, const V& v)
  {
    const Error e = f.set(reinterpret_cast<const C*>(v.p), v.n);
    ep_check(Error::NO_ERRORS == e, "C09: data that fits is accepted");
  }
  static F make(const V& v) { F f; assign(f, v); return f; }
  static void eq(const V& a, const F& f, const W& w)
  {
    ep_check(a.n == f.get_length(), w.val);
    if(N > 20) { for(uint32_t k = 0; k < a.n; k = k + 1) { ep_check(a.p[k] == static_cast<uint8_t>(f.get_const()[k]), w.val); } }
    else if(0 < a.n) { const uint32_t k = ep_any_range(0, a.n - 1); ep_check(a.p[k] == static_cast<uint8_t>(f.get_const()[k]), w.val); }
  }
  template<class S> static void put(S& s, const V& v) { put_varint(s, v.n); s.bytes(v.p, v.n); }
#ifdef MSG_TO_STRING
  static bool is_string() { return static_cast<C>(-1) < static_cast<C>(0); }
  static void few(const V& v) { ep_assume(v.n <= 2); for(uint32_t i = 0; i < v.n; i = i + 1) { if(is_string()) { ep_assume(0 != v.p[i]); } } }
  static void say(Text& t, const V& v)
  {
    if(is_string()) { t.lit("\""); t.raw(reinterpret_cast<const char*>(v.p), v.n); t.raw("\"", 1); return; }
    t.lit("[");
    for(uint32_t i = 0; i < v.n; i = i + 1) { if(0 < i) { t.lit(","); } Say<EmbeddedProto::uint32>::say(t, v.p[i]); }
    t.lit("]");
  }
#endif
  static int get(Src& s, V& v)
  {
    Src c = s;
    const int r = get_part(s, c);
    if(ACCEPT != r) { return r; }
    if((c.end - c.pos) > N) { return REJECT; }
    v = V(c.d + c.pos, c.end - c.pos);
    return ACCEPT;
  }
};
template<class K, uint32_t N> struct Rep { Rep() : n(0) { for(uint32_t i = 0; i < N; i = i + 1) { v[i] = K::def(); } } ~Rep() {} Rep(const Rep& r) : n(r.n) { for(uint32_t i = 0; i < N; i = i + 1) { v[i] = r.v[i]; } } Rep& operator=(const Rep& r) { n = r.n; for(uint32_t i = 0; i < N; i = i + 1) { v[i] = r.v[i]; } return *this; } typename K::V v[N]; uint32_t n; };
static inline bool same_text(const char* a, const char* b)
{
  uint32_t i = 0;
  while((a[i] == b[i]) && (0 != a[i])) { i = i + 1; }
  return a[i] == b[i];
}
#endif
