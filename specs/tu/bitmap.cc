// Forces the inline members of GenericBitmap into one object file; contains no logic of its own.
#include "generic_bitmap.h"
extern "C" {
bool use_get(GenericBitmap& b, uint64_t i) { return b.get(i); }
bool use_set(GenericBitmap& b, uint64_t i, bool v) { return b.set(i, v); }
void use_misc(GenericBitmap& b, void* p, size_t n, size_t k) { b.moveFrom(p, n, k); b.size(); b.getMemorySize(); b.getPtr(); GenericBitmap c(n), d(p, n, k); (void)c; (void)d; }
}
