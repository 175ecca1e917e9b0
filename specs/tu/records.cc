// Forces the inline members of SizedBuf, KV and Record into one object file; contains no logic of its own.
#include <libjungle/record.h>
using namespace jungle;
extern "C" {
int use_cmp(const SizedBuf& a, const SizedBuf& b) { return SizedBuf::cmp(a, b); }
bool use_rel(const SizedBuf& a, const SizedBuf& b, int k) { switch (k) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
void use_sb(SizedBuf& a, SizedBuf& b, size_t n, void* d, const char* s, const std::string& str) {
    a.alloc(n, d); a.alloc(n); a.alloc(b); a.alloc(s); a.alloc(str); a.set(n, d); a.set(b); a.set(s); a.set(str); a.moveTo(b); a.copyTo(b); a.referTo(b); a = b; a.free(); a.clear(); a.resize(n); a.empty(); a.setNeedToFree(); a.setNeedToDelete();
    SizedBuf c(a), e(n), f(n, d), g(str), i(s), k; SizedBuf::Holder h(c); (void)e; (void)f; (void)g; (void)i; (void)k;
}
void use_kv(KV& a, KV& b, const SizedBuf& k, const SizedBuf& v, const char* s, const std::string& str) {
    a.moveTo(b); a.copyTo(b); a.set(k, v); a.set(s, s); a.set(str, str); a.alloc(k, v); a.alloc(s, s); a.alloc(str, str); a.free(); a.clear(); a.size(); KV c(a), d(k, v), e(str, str), f(s, s); KV::Holder h(c);
}
void use_rec(Record& a, Record& b) { a.moveTo(b); a.copyTo(b); a.clone(b); a.free(); a.clear(); a.size(); a.empty(); a.isIns(); a.isDel(); a.isCmd(); Record c(Record::DELETION), d(1, Record::DELETION); Record::Holder h(c); Record::Less l; l(&a, &b); }
}
