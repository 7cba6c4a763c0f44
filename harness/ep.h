// Vocabulary of the analysis harnesses. None of these functions is ever defined: the harnesses are not linked or run,
// they state, for the abstract interpreter, which calls are made on which abstract values and what must hold after.
#ifndef EP_H
#define EP_H
#include <cstdint>
#include <cstring>
extern "C" {
bool ep_any_bool();                 // both values
bool ep_more();                     // loop condition of an arbitrary history
uint8_t ep_any_u8();
uint16_t ep_any_u16();
uint32_t ep_any_u32();
uint64_t ep_any_u64();
float ep_any_float();
double ep_any_double();
uint32_t ep_any_range(uint32_t lo, uint32_t hi);
void ep_assume(bool c);
void ep_check(bool c, const char* what);
void ep_any_bytes(void* p, uint32_t n);
uint8_t* ep_any_array(uint32_t n);  // exactly n bytes, arbitrary content
uint8_t* ep_new_array(uint32_t n);  // the same, distinct from those of earlier calls
uint8_t* ep_raw_array(uint32_t n);  // exactly n bytes, uninitialised
bool ep_same_array(const void* a, const void* b);
void ep_merge();
void ep_case(uint32_t n);           // keep apart what follows from partitions with another number
void ep_must(const char* what);     // some of these partitions get to the end
void ep_note(const char* what);
void ep_dump(uint64_t v);
}
#define ENTRY extern "C" __attribute__((visibility("default"), used)) void
#endif
