#include "common.h"
#include "skiplist.h"
#include <sched.h>
using h::Rng;
struct N { skiplist_node n; int key; int grabs; bool in; };
static Rng* R; static int mode = 0, want_height = 0, drawn = 0; static unsigned yields = 0; static bool active = true;
extern "C" int rand() noexcept { ++drawn; if (mode == 0) return (int)(R->next() >> 34); return drawn <= want_height ? 4 * (int)R->below(1000) : 4 * (int)R->below(1000) + 1 + (int)R->below(3); }
extern "C" int sched_yield() noexcept { if (active && ++yields > 100) { active = false; FAIL("waits although no other thread uses the list"); } return 0; }
static int cmpf(skiplist_node* a, skiplist_node* b, void* aux) { CHECK(aux == (void*)0x55, "aux pointer"); int x = ((N*)a)->key, y = ((N*)b)->key; return x < y ? -7 : x > y ? 9 : 0; }
struct List {
    skiplist_raw s; std::vector<N*> all;          // elements in list order
    List() { memset((void*)&s, 0xEE, sizeof s); skiplist_init(&s, cmpf); skiplist_raw_config c = skiplist_get_config(&s); CHECK(c.fanout == 4 && c.maxLayer == 12 && !c.aux, "default configuration"); c.aux = (void*)0x55; skiplist_set_config(&s, c); }
    ~List() { for (N* n : all) { skiplist_free_node(&n->n); free(n); } skiplist_free(&s); }
    static N* mk(int k) { N* n = (N*)malloc(sizeof(N)); memset((void*)n, 0xEE, sizeof(N)); skiplist_init_node(&n->n); n->key = k; n->grabs = 0; n->in = false; return n; }
    size_t count(int k) { size_t c = 0; for (N* n : all) c += n->key == k; return c; }
    void check() {
        CHECK(skiplist_get_size(&s) == all.size(), "size %zu, expected %zu", skiplist_get_size(&s), all.size());
        std::vector<size_t> per(12, 0); int top = 0;
        for (N* n : all) { CHECK(n->n.top_layer < 12, "height"); ++per[n->n.top_layer]; top = std::max(top, (int)n->n.top_layer); CHECK(n->n.is_fully_linked && !n->n.being_modified && !n->n.removed && !n->n.accessing_next, "state of element %d", n->key); CHECK(n->n.ref_count == n->grabs, "reference count of element %d: %d, expected %d", n->key, n->n.ref_count, n->grabs); }
        CHECK(s.top_layer >= top && s.top_layer < 12, "top layer %d, tallest element %d", s.top_layer, top);
        for (int l = 0; l < 12; ++l) {
            CHECK(s.layer_entries[l] == per[l], "layer %d counts %u elements, expected %zu", l, s.layer_entries[l], per[l]);
            skiplist_node* c = s.head.next[l]; for (N* n : all) if (n->n.top_layer >= l) { CHECK(c == &n->n, "layer %d misses or misplaces element %d", l, n->key); c = n->n.next[l]; }
            CHECK(c == &s.tail, "layer %d has extra elements", l);
        }
        for (skiplist_node* x : {&s.head, &s.tail}) CHECK(x->is_fully_linked && !x->being_modified && !x->removed && !x->accessing_next, "state of an end");
    }
    void got(skiplist_node* r, const char* what, int k) { N* n = (N*)r; if (!r) return; CHECK(n->in, "%s %d returns an element not in the list", what, k); CHECK(n->n.ref_count == n->grabs + 1, "%s %d takes one reference", what, k); skiplist_release_node(r); }
    void find(int k) {
        N q; skiplist_init_node(&q.n); q.key = k; bool eq = count(k) > 0; N* lo = nullptr, *hi = nullptr; for (N* n : all) if (n->key < k) lo = n; for (auto i = all.rbegin(); i != all.rend(); ++i) if ((*i)->key > k) hi = *i;
        skiplist_node* r = skiplist_find(&s, &q.n); CHECK(eq ? r && ((N*)r)->key == k : !r, "find %d", k); got(r, "find", k);
        r = skiplist_find_smaller_or_equal(&s, &q.n); CHECK(eq ? r && ((N*)r)->key == k : r == (skiplist_node*)lo, "find smaller or equal %d", k); got(r, "find smaller or equal", k);
        r = skiplist_find_greater_or_equal(&s, &q.n); CHECK(eq ? r && ((N*)r)->key == k : r == (skiplist_node*)hi, "find greater or equal %d", k); got(r, "find greater or equal", k);
    }
    void steps() {
        skiplist_node* r = skiplist_begin(&s); CHECK(r == (all.empty() ? nullptr : &all.front()->n), "begin"); got(r, "begin", 0);
        r = skiplist_end(&s); CHECK(r == (all.empty() ? nullptr : &all.back()->n), "end"); got(r, "end", 0);
        for (size_t i = 0; i < all.size(); ++i) {
            r = skiplist_next(&s, &all[i]->n); CHECK(r == (i + 1 < all.size() ? &all[i + 1]->n : nullptr), "next of %d", all[i]->key); got(r, "next", all[i]->key);
            N* lo = nullptr; for (N* n : all) if (n->key < all[i]->key) lo = n; r = skiplist_prev(&s, &all[i]->n); CHECK(r == (skiplist_node*)lo, "prev of %d", all[i]->key); got(r, "prev", all[i]->key);
        }
    }
    bool ins(N* n, bool nodup, int height) {
        yields = 0; drawn = 0; mode = height >= 0; want_height = height; bool dup = count(n->key) > 0; h::log("insert%s %d height %d", nodup ? "_nodup" : "", n->key, height);
        int r = nodup ? skiplist_insert_nodup(&s, &n->n) : skiplist_insert(&s, &n->n);
        if (nodup && dup) { CHECK(r == -1, "duplicate %d accepted", n->key); CHECK(!n->n.accessing_next && !n->n.being_modified && !n->n.is_fully_linked, "refused element %d stays locked", n->key); return false; }
        CHECK(r == 0, "insert returns %d", r); if (height >= 0) CHECK(n->n.top_layer == std::min(height, 11), "height drawn");
        // place among equals is free
        size_t i = 0; for (skiplist_node* c = s.head.next[0]; c != &s.tail && c != &n->n; c = c->next[0]) { ++i; CHECK(i <= all.size(), "inserted element %d is not reachable", n->key); }
        CHECK(i <= all.size() && (i == 0 || all[i - 1]->key <= n->key) && (i == all.size() || all[i]->key >= n->key), "place of %d", n->key); all.insert(all.begin() + i, n); n->in = true; return true;
    }
    void gone(N* n, int r) { CHECK(r == 0, "erase returns %d", r); CHECK(n->n.removed && !n->n.is_fully_linked && !n->n.being_modified && !n->n.accessing_next, "state of the erased element"); CHECK(skiplist_is_safe_to_free(&n->n) == (n->grabs == 0), "safe to free"); CHECK(!skiplist_is_valid_node(&n->n), "erased element is valid"); n->in = false; CHECK(skiplist_erase_node_passive(&s, &n->n) == -1, "second erase"); }
};
int main(int c, char** v) {
    h::init(c, v); Rng r(h::seed); R = &r;
    while (h::more()) {
        h::begin("list"); yields = 0; List l; int range = 1 + (int)r.below(r.chance(50) ? 8 : 40), ops = (int)r.below(120), style = (int)r.below(4); std::vector<N*> spare;
        for (int i = 0; i < ops; ++i) {
            int k = (int)r.below(range) - 2; yields = 0; bool grow = (i / 25) % 2 == 0 ? r.chance(70) : r.chance(30);
            if (grow || l.all.empty()) {
                N* n; if (!spare.empty() && r.chance(60)) { n = spare.back(); spare.pop_back(); n->key = k; } else n = List::mk(k);
                int ht = style == 0 ? -1 : style == 1 ? (int)r.below(3) : style == 2 ? (int)r.below(14) : (r.chance(50) ? 0 : (int)r.below(6));
                if (!l.ins(n, r.chance(50), ht)) { h::log("refused"); spare.push_back(n); }
                else if (r.chance(10)) { skiplist_grab_node(&n->n); ++n->grabs; }
            } else {
                size_t j = r.below(l.all.size()); N* n = l.all[j]; int how = (int)r.below(3); h::log("erase(%d) %d", how, n->key);
                if (how == 2) {
                    N q; skiplist_init_node(&q.n); q.key = n->key; std::vector<N*> before = l.all; int x = skiplist_erase(&l.s, &q.n); n = nullptr; for (N* e : before) if (e->n.removed) { CHECK(!n, "one element erased"); n = e; } CHECK(n && n->key == q.key, "erase by key"); l.gone(n, x);
                } else l.gone(n, how ? skiplist_erase_node(&l.s, &n->n) : skiplist_erase_node_passive(&l.s, &n->n));
                l.all.erase(std::find(l.all.begin(), l.all.end(), n));
                skiplist_node* nx = skiplist_next(&l.s, &n->n); N* want = nullptr; for (auto e = l.all.rbegin(); e != l.all.rend(); ++e) if ((*e)->key >= n->key) want = *e; CHECK(nx == (skiplist_node*)want, "next of an erased element"); l.got(nx, "next of an erased element", n->key);
                while (n->grabs) { skiplist_release_node(&n->n); --n->grabs; } CHECK(skiplist_is_safe_to_free(&n->n), "safe to free after release");
                if (r.chance(30)) { skiplist_free_node(&n->n); free(n); } else spare.push_back(n);
            }
            l.check(); l.find(k); l.find((int)r.below(range)); if (r.chance(20)) l.steps();
            N q; skiplist_init_node(&q.n); q.key = 1000; CHECK(skiplist_erase(&l.s, &q.n) == -4, "erase of an absent key");
        }
        l.steps(); for (N* n : l.all) while (n->grabs) { skiplist_release_node(&n->n); --n->grabs; }
        for (N* n : spare) { skiplist_free_node(&n->n); free(n); }
        if (ops > 20) ++h::nontrivial;
    }
    active = false; return h::done();
}
