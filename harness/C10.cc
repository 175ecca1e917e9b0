#include "common.h"
#include "avltree.h"
#include <map>
#include <set>
#include <vector>
#include <algorithm>
using h::Rng;
struct N { avl_node n; int key; };
static int cmpf(avl_node* a, avl_node* b, void* aux) { CHECK(aux == (void*)0x77, "aux pointer"); int x = ((N*)a)->key, y = ((N*)b)->key; return x < y ? -5 : x > y ? 3 : 0; }
static int chk(avl_node* n, avl_node* par, std::vector<int>& out) {
    if (!n) return 0;
    CHECK(avl_parent(n) == par, "parent link of %d", ((N*)n)->key);
    int l = chk(n->left, n, out); out.push_back(((N*)n)->key); int r = chk(n->right, n, out);
    CHECK(r - l == avl_bf(n), "balance of %d recorded %d, is %d", ((N*)n)->key, avl_bf(n), r - l); CHECK(r - l <= 1 && l - r <= 1, "unbalanced at %d", ((N*)n)->key);
    return 1 + std::max(l, r);
}
struct Tree {
    avl_tree t; std::map<int, N*> m; 
    Tree() { t.root = (avl_node*)0x1; avl_init(&t, (void*)0x77); CHECK(!t.root, "init"); }
    ~Tree() { for (auto& e : m) free(e.second); }
    void check() {
        std::vector<int> o; chk(t.root, nullptr, o); std::vector<int> e; for (auto& x : m) e.push_back(x.first); CHECK(o == e, "in-order content: %zu elements, expected %zu", o.size(), e.size());
        avl_node* f = avl_first(&t), *l = avl_last(&t); CHECK(f == (m.empty() ? nullptr : &m.begin()->second->n), "first"); CHECK(l == (m.empty() ? nullptr : &m.rbegin()->second->n), "last");
        size_t c = 0; for (auto& x : m) { CHECK(f == &x.second->n, "next reaches %d", x.first); f = avl_next(f); ++c; } CHECK(!f, "next after the last");
        for (auto it = m.rbegin(); it != m.rend(); ++it) { CHECK(l == &it->second->n, "prev reaches %d", it->first); l = avl_prev(l); } CHECK(!l, "prev before the first");
    }
    bool ins(int k) { N* n = (N*)malloc(sizeof(N)); memset((void*)n, 0xff, sizeof(N)); n->n.parent = (avl_node*)(uint64_t)(k & 3); n->key = k; avl_node* r = avl_insert(&t, &n->n, cmpf); auto it = m.find(k); if (it != m.end()) { CHECK(r == &it->second->n, "insert of a duplicate returns the existing node"); free(n); return false; } CHECK(r == &n->n, "insert returns the node"); m[k] = n; return true; }
    void rem(int k) { auto it = m.find(k); avl_remove(&t, &it->second->n); memset((void*)it->second, 0xEE, sizeof(N)); free(it->second); m.erase(it); }
    void find(int k) {
        N q; q.key = k; auto it = m.find(k); CHECK(avl_search(&t, &q.n, cmpf) == (it == m.end() ? nullptr : &it->second->n), "search %d", k);
        auto g = m.lower_bound(k); CHECK(avl_search_greater(&t, &q.n, cmpf) == (g == m.end() ? nullptr : &g->second->n), "search_greater %d", k);
        auto s = m.upper_bound(k); CHECK(avl_search_smaller(&t, &q.n, cmpf) == (s == m.begin() ? nullptr : &std::prev(s)->second->n), "search_smaller %d", k);
    }
};
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed); unsigned round = (unsigned)(h::seed % 7);
    while (h::more()) {
        if (r.chance(60)) {
            // every removal from a small tree built in a random order
            int n = 1 + (int)r.below(14); std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(2 * i); for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
            for (int d = 0; d < n; ++d) { h::begin("small"); Tree t; for (int x : p) { h::log("insert %d", x); t.ins(x); t.check(); } h::log("remove %d", 2 * d); t.rem(2 * d); t.check(); for (int k = -1; k <= 2 * n; ++k) t.find(k); while (!t.m.empty()) { auto it = t.m.begin(); std::advance(it, r.below(t.m.size())); h::log("remove %d", it->first); t.rem(it->first); t.check(); } }
            ++h::nontrivial;
        } else {
            h::begin("random"); Tree t; int range = 4 + (int)r.below(400), ops = (int)r.below(400), mode = (int)r.below(4), run = 0;
            for (int i = 0; i < ops; ++i) {
                int k = mode == 1 ? run++ : mode == 2 ? range - run++ : (int)r.below(range); bool grow = (i / 60) % 2 == 0 ? r.chance(75) : r.chance(25);
                if (grow || t.m.empty()) { h::log("insert %d", k); t.ins(k); } else { auto it = t.m.lower_bound((int)r.below(range)); if (it == t.m.end()) it = t.m.begin(); h::log("remove %d", it->first); t.rem(it->first); }
                t.check(); t.find(k); t.find((int)r.below(range));
            }
            if (ops > 50) ++h::nontrivial;
        }
    }
    (void)round; return h::done();
}
