// attaches the header-only hash helpers of internal_helper.h
#include "internal_helper.h"
#include <libjungle/jungle.h>
using namespace jungle;
extern "C" size_t tu_h32(const SizedBuf& b) { return get_murmur_hash_32(b); }
extern "C" size_t tu_h(const SizedBuf& b, size_t l) { return get_murmur_hash(b, l); }
extern "C" uint64_t tu_h64(const SizedBuf& b) { return get_murmur_hash_64(b); }
extern "C" bool tu_hp(const DBConfig* c, const SizedBuf& k, bool p, uint64_t* o) { return get_hash_pair(c, k, p, o); }
