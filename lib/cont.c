/* Exhaustive enumeration of operation sequences on the container modules, against models kept here.
 * cont <depth> <shard> <nshards> ; one binary per part (-DPART_xxx). Prints "STAT ..." and "FAIL <what> | <sequence>". */
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void __asan_set_death_callback(void (*)(void));

/* ---------------------------------------------------------------- reporting */
static char SEQ[8192];
static int seqlen, nfail, bad;
static long long nseq, nops, nobs;
static void seq_add(const char* f, ...) {
    va_list a;
    va_start(a, f);
    if (seqlen < (int)sizeof(SEQ) - 200) {
        seqlen += vsnprintf(SEQ + seqlen, 180, f, a);
    }
    va_end(a);
}
static void fail(const char* f, ...) {
    if (bad) {
        return;
    }
    bad = 1;
    nfail++;
    char m[400];
    va_list a;
    va_start(a, f);
    vsnprintf(m, sizeof m, f, a);
    va_end(a);
    printf("FAIL %s | %s\n", m, SEQ);
    fflush(stdout);
    if (nfail >= 3) {
        exit(0);
    }
}
#define CHECK(c, ...)                                                                                                  \
    do {                                                                                                               \
        nobs++;                                                                                                        \
        if (!(c)) fail(__VA_ARGS__);                                                                                   \
    } while (0)
static void death(void) {
    printf("FAIL memory error or crash | %s\n", SEQ);
    fflush(stdout);
}
static void on_alarm(int s) {
    (void)s;
    printf("FAIL an operation does not end | %s\n", SEQ);
    fflush(stdout);
    _exit(0);
}
static void seq_begin(void) {
    SEQ[0] = 0;
    seqlen = 0;
    bad = 0;
    nseq++;
    if (nseq % 1000 == 1) {
        alarm(30);
    }
}

/* ---------------------------------------------------------------- counted objects */
typedef struct Item {
    int key, val, dead, cell;
} Item;
#define NPOOL 4096
static Item pool[NPOOL];
static int npool;
static void items_reset(void) {
    npool = 0;
}
static Item* item_new(int key, int val) {
    if (npool >= NPOOL) {
        abort();
    }
    Item* it = &pool[npool++];
    it->key = key;
    it->val = val;
    it->dead = 0;
    it->cell = 0;
    return it;
}
static void* item_copy(void* p) {
    Item* it = p;
    if (it->dead) {
        fail("copied an object that was already deleted");
    }
    Item* c = item_new(it->key, it->val);
    c->cell = it->cell;
    return c;
}
static void item_delete(void* p) {
    Item* it = p;
    if (it < pool || it >= pool + npool) {
        fail("deleted something that is not an object");
        return;
    }
    if (it->dead) {
        fail("deleted an object twice");
    }
    it->dead = 1;
}
static int HASH[16];
static int item_hash(void* p) {
    Item* it = p;
    if (it->dead) {
        fail("hashed an object that was already deleted");
    }
    return HASH[it->key];
}
static int item_cmp(void* a, void* b) {
    Item *x = a, *y = b;
    if (x->dead || y->dead) {
        fail("compared an object that was already deleted");
    }
    return x->key - y->key;
}
static int live(void) {
    int n = 0;
    for (int i = 0; i < npool; i++) {
        n += !pool[i].dead;
    }
    return n;
}

static int DEPTH, SHARD, NSHARDS;
static long shardctr;
static int mine(void) {
    return (shardctr++ % NSHARDS) == SHARD;
}

#ifdef PART_VECTOR
#include "vector/vector.h"
static BaseType T = {.copy_object = item_copy, .delete_object = item_delete};
typedef struct {
    Item* p[256];
    int val[256];
    int n;
} M;
static void mcheck(Vector* v, M* m) {
    CHECK(vector_size(v) == m->n, "size %d instead of %d", vector_size(v), m->n);
    for (int i = 0; i < m->n && !bad; i++) {
        Item* it = vector_at(v, i);
        CHECK(it != NULL, "item %d is missing", i);
        if (bad) {
            break;
        }
        CHECK(!it->dead, "item %d is deleted", i);
        CHECK(it->val == m->val[i], "item %d is %d instead of %d", i, it->val, m->val[i]);
        CHECK(m->p[i] == NULL || m->p[i] == it, "item %d is another object", i);
        m->p[i] = it;
        for (int j = 0; j < i; j++) {
            if (m->p[j] == it) {
                fail("items %d and %d are the same object", i, j);
            }
        }
    }
    if (!bad) {
        CHECK(vector_at(v, -1) == NULL && vector_at(v, m->n) == NULL && vector_at(v, m->n + 1) == NULL &&
                  vector_at(v, 1000000) == NULL && vector_at(v, -2147483647 - 1) == NULL,
              "an index out of range gives an item");
    }
}
static int V;
static void ins(M* m, int i, Item* it) {
    memmove(m->p + i + 1, m->p + i, (m->n - i) * sizeof(m->p[0]));
    memmove(m->val + i + 1, m->val + i, (m->n - i) * sizeof(m->val[0]));
    m->p[i] = it;
    m->val[i] = it->val;
    m->n++;
}
static void del(M* m, int i) {
    memmove(m->p + i, m->p + i + 1, (m->n - i - 1) * sizeof(m->p[0]));
    memmove(m->val + i, m->val + i + 1, (m->n - i - 1) * sizeof(m->val[0]));
    m->n--;
}
/* operations: number 0.. ; returns 0 when not applicable */
#define NOPS 22
static int idx(M* m, int k) { /* 0 first, 1 middle, 2 last */
    return k == 0 ? 0 : k == 1 ? m->n / 2 : m->n - 1;
}
static int apply(Vector** pv, M* m, int op) {
    Vector* v = *pv;
    Item* it;
    nops++;
    switch (op) {
    case 0:
        it = item_new(0, ++V);
        seq_add("push; ");
        vector_push(v, it);
        ins(m, m->n, it);
        return 1;
    case 1:
        if (m->n == 0) {
            return 0;
        }
        seq_add("pop; ");
        it = vector_pop(v);
        CHECK(it == m->p[m->n - 1] && !it->dead, "pop gives another item");
        item_delete(it);
        del(m, m->n - 1);
        return 1;
    case 2:
    case 3:
    case 4:
    case 5: {
        int n = op == 2 ? m->n + 1 : op == 3 ? m->n + 4 : op == 4 ? m->n - 1 : m->n;
        if (n < 0) {
            return 0;
        }
        it = item_new(0, ++V);
        seq_add("fill up to %d; ", n);
        vector_fill(v, n, it);
        CHECK(it->dead || n > m->n, "fill keeps its object");
        while (m->n < n) {
            m->p[m->n] = NULL;
            m->val[m->n++] = V;
        }
        return 1;
    }
    case 6:
    case 7:
    case 8:
    case 9:
    case 10: {
        int i = op == 9 ? m->n : op == 10 ? -1 : idx(m, op - 6);
        if (op < 9 && (m->n == 0 || (op > 6 && idx(m, op - 7) == i))) {
            return 0;
        }
        it = item_new(0, ++V);
        seq_add("set %d; ", i);
        int r = vector_set(v, i, it);
        if (op >= 9) {
            CHECK(!r, "set accepts an index out of range");
            if (!it->dead) {
                item_delete(it);
            }
            return 1;
        }
        CHECK(r, "set refuses an index in range");
        CHECK(m->p[i]->dead, "set does not delete the item it replaces");
        m->p[i] = it;
        m->val[i] = V;
        return 1;
    }
    case 11:
    case 12:
    case 13:
    case 14:
    case 15: {
        int i = op == 13 ? m->n : op == 14 ? m->n + 1 : op == 15 ? -1 : idx(m, op - 11);
        if (op < 14 && (m->n == 0 ? op != 13 : op == 12 && i == 0)) {
            return 0;
        }
        it = item_new(0, ++V);
        seq_add("insert at %d; ", i);
        vector_insert(v, i, it);
        if (op >= 14) {
            if (!it->dead) {
                item_delete(it);
            }
            return 1;
        }
        ins(m, i, it);
        return 1;
    }
    case 16:
    case 17:
    case 18: {
        int i = idx(m, op - 16);
        if (m->n && op > 16 && idx(m, op - 17) == i) {
            return 0;
        }
        it = m->n ? m->p[i] : NULL;
        seq_add("erase %d; ", i);
        vector_erase(v, i);
        if (m->n) {
            CHECK(it->dead, "erase does not delete the item");
            del(m, i);
        }
        return 1;
    }
    case 19: { /* continue with a copy, the original is deleted */
        seq_add("copy, delete the original; ");
        int n0 = live();
        Vector* c = vector_copy(v);
        CHECK(live() - n0 == m->n, "copy of %d items made %d objects", m->n, live() - n0);
        mcheck(v, m);
        delete_vector(v);
        for (int i = 0; i < m->n; i++) {
            CHECK(m->p[i]->dead, "item %d survives its vector", i);
            m->p[i] = NULL;
        }
        *pv = c;
        return 1;
    }
    case 20: { /* change and delete a copy */
        seq_add("change and delete a copy; ");
        Vector* c = vector_copy(v);
        int n0 = live();
        vector_push(c, item_new(0, ++V));
        if (m->n) {
            vector_erase(c, 0);
        }
        delete_vector(c);
        CHECK(n0 - live() == m->n, "deleting a copy of %d items deletes %d", m->n, n0 - live());
        return 1;
    }
    case 21: { /* extend by two others, which stay usable */
        seq_add("extend by 0, 1, 3; ");
        int sz[] = {0, 1, 3};
        for (int k = 0; k < 3; k++) {
            Vector* o = new_vector(&T);
            Item* its[3];
            for (int i = 0; i < sz[k]; i++) {
                its[i] = item_new(0, ++V);
                vector_push(o, its[i]);
            }
            vector_extend(v, o);
            for (int i = 0; i < sz[k]; i++) {
                ins(m, m->n, its[i]);
            }
            CHECK(vector_size(o) == 0 && vector_at(o, 0) == NULL, "the other vector keeps its items");
            Item *a = item_new(0, ++V), *b = item_new(0, ++V);
            vector_push(o, a);
            vector_push(o, b);
            CHECK(vector_size(o) == 2 && vector_at(o, 0) == a && vector_at(o, 1) == b, "the other vector is not usable");
            delete_vector(o);
            CHECK(a->dead && b->dead, "delete does not delete the items");
        }
        return 1;
    }
    }
    return 0;
}
static int ops[64];
static int replay(int start, int n) {
    seq_begin();
    items_reset();
    V = 0;
    static M m;
    m.n = 0;
    Vector* v = new_vector(&T);
    int grow = start / 3, shrink = start % 3;
    seq_add("%d times push, %d times pop; ", grow, shrink);
    for (int i = 0; i < grow; i++) {
        Item* it = item_new(0, ++V);
        vector_push(v, it);
        ins(&m, m.n, it);
    }
    for (int i = 0; i < shrink; i++) {
        Item* it = vector_pop(v);
        CHECK(it == m.p[m.n - 1], "pop gives another item");
        item_delete(it);
        del(&m, m.n - 1);
    }
    int ok = 1;
    for (int i = 0; i < n && ok && !bad; i++) {
        ok = apply(&v, &m, ops[i]);
        if (i < n - 1) { /* refresh identities of copies */
            for (int j = 0; j < m.n; j++) {
                m.p[j] = vector_at(v, j);
                if (m.p[j] == NULL) {
                    fail("item %d is missing", j);
                    break;
                }
            }
        }
    }
    if (ok && !bad) {
        mcheck(v, &m);
    }
    if (!bad) {
        delete_vector(v);
        CHECK(live() == 0, "%d objects are never deleted", live());
    }
    return ok;
}
static void dfs(int start, int n) {
    if (n == 2 && !mine()) {
        return;
    }
    if (!replay(start, n) || n == DEPTH) {
        return;
    }
    for (int o = 0; o < NOPS; o++) {
        ops[n] = o;
        dfs(start, n + 1);
    }
}
static void run(void) {
    for (int start = 0; start < 3 * 10; start++) {
        if (start % 3 <= start / 3) {
            dfs(start, 0);
        }
    }
}
#endif

#ifdef PART_MAP
#include "map/map.h"
static HashableType TK = {.copy_object = item_copy, .delete_object = item_delete, .hash_object = item_hash, .compare_object = item_cmp};
static BaseType TV = {.copy_object = item_copy, .delete_object = item_delete};
#define NK 5
static int nk;
static int val[NK];
static int V;
static void mcheck(Map* map) {
    Item probe = {0, 0, 0, 0}, dflt = {0, -7, 0, 0};
    for (int k = 0; k < NK && !bad; k++) {
        probe.key = k;
        Item* it = map_get(map, &probe);
        int in = map_contains(map, &probe) != 0;
        Item* d = map_get_with_default(map, &probe, &dflt);
        CHECK(in == (val[k] != 0), "contains(key %d) is %d", k, in);
        CHECK((it != NULL) == (val[k] != 0), "get(key %d) gives %s", k, it ? "a value" : "nothing");
        if (it && !bad) {
            CHECK(!it->dead && it->val == val[k], "get(key %d) gives value %d instead of %d", k, it->val, val[k]);
        }
        CHECK(d == (val[k] ? it : &dflt), "get_with_default(key %d) gives something else", k);
    }
    int seen[NK] = {0}, n = 0;
    for (MapIter* i = map_iter_begin(map); !map_iter_end(i, map); i = map_iter_next(i, map)) {
        Item *k = map_iter_key(i, map), *v = map_iter_value(i, map);
        if (bad || !k || !v || ++n > 20) {
            CHECK(k && v, "the iterator gives nothing");
            CHECK(n <= 20, "the iteration does not end");
            map_iter_exit(i);
            break;
        }
        CHECK(!k->dead && !v->dead, "the iterator gives a deleted object");
        CHECK(val[k->key] && v->val == val[k->key], "the iterator gives key %d value %d", k->key, v->val);
        CHECK(!seen[k->key], "the iterator gives key %d twice", k->key);
        seen[k->key] = 1;
    }
    for (int k = 0; k < NK && !bad; k++) {
        CHECK(seen[k] == (val[k] != 0), "the iterator misses key %d", k);
    }
}
static void apply(Map** pm, int op) {
    nops++;
    if (op < nk) {
        seq_add("add %d; ", op);
        map_add(*pm, item_new(op, 0), item_new(0, ++V));
        val[op] = V;
    } else if (op < 2 * nk) {
        Item probe = {op - nk, 0, 0, 0};
        seq_add("remove %d; ", op - nk);
        map_remove(*pm, &probe);
        val[op - nk] = 0;
    } else if (op == 2 * nk) {
        seq_add("copy, delete the original; ");
        Map* c = map_copy(*pm);
        mcheck(*pm);
        delete_map(*pm);
        *pm = c;
    } else {
        seq_add("change and delete a copy; ");
        Map* c = map_copy(*pm);
        for (int k = 0; k < nk; k++) {
            Item probe = {k, 0, 0, 0};
            if (k & 1) {
                map_remove(c, &probe);
            } else {
                map_add(c, item_new(k, 0), item_new(0, ++V));
            }
        }
        delete_map(c);
    }
}
static int ops[64];
static const char* HNAME;
static void replay(int n) {
    seq_begin();
    items_reset();
    V = 0;
    memset(val, 0, sizeof val);
    Map* m = new_map(&TK, &TV);
    seq_add("hashes %s: ", HNAME);
    for (int i = 0; i < n && !bad; i++) {
        apply(&m, ops[i]);
    }
    if (!bad) {
        mcheck(m);
    }
    if (!bad) {
        delete_map(m);
        CHECK(live() == 0, "%d objects are never deleted", live());
    }
}
static void dfs(int n) {
    if (n == 3 && !mine()) {
        return;
    }
    replay(n);
    if (n == DEPTH) {
        return;
    }
    for (int o = 0; o < 2 * nk + 2; o++) {
        ops[n] = o;
        dfs(n + 1);
    }
}
static void run(void) {
    static const struct {
        const char* n;
        int k, h[NK];
    } F[] = {
        {"all 0", 3, {0, 0, 0, 0, 0}},        {"all 6", 3, {6, 6, 6, 6, 6}},          {"0 1 2", 3, {0, 1, 2, 3, 4}},
        {"2 2 0", 3, {2, 2, 0, 1, 5}},        {"0 0 1", 3, {0, 0, 1, 1, 2}},          {"1 0 0 1", 4, {1, 0, 0, 1, 3}},
        {"6 6 0 5", 4, {6, 6, 0, 5, 2}},      {"0 7 14 1", 4, {0, 7, 14, 1, 3}},      {"big", 4, {2147483647, 2147483646, 2147483640, 104, 7}},
        {"2 5 2 5", 4, {2, 5, 2, 5, 6}},      {"3 0 3 6 0", 5, {3, 0, 3, 6, 0}},      {"all 14", 5, {14, 14, 14, 14, 14}},
    };
    for (unsigned f = 0; f < sizeof F / sizeof F[0]; f++) {
        HNAME = F[f].n;
        nk = F[f].k;
        memcpy(HASH, F[f].h, sizeof F[f].h);
        int d = DEPTH;
        if (nk == 4 && DEPTH > 2) {
            DEPTH--;
        }
        if (nk == 5 && DEPTH > 3) {
            DEPTH -= 2;
        }
        dfs(0);
        DEPTH = d;
    }
}
#endif

#ifdef PART_SET
#include "set/set.h"
static HashableType TK = {.copy_object = item_copy, .delete_object = item_delete, .hash_object = item_hash, .compare_object = item_cmp};
#define NK 3
static int mask[2];
static int bits(Set* s) {
    int r = 0, n = 0;
    for (SetIter* i = set_iter_begin(s); !set_iter_end(i, s); i = set_iter_next(i, s)) {
        Item* k = set_iter_item(i, s);
        if (!k || ++n > 20) {
            fail("the iteration gives nothing or does not end");
            set_iter_exit(i);
            break;
        }
        if (k->dead) {
            fail("the iterator gives a deleted object");
        }
        if (r & 1 << k->key) {
            fail("the iterator gives item %d twice", k->key);
        }
        r |= 1 << k->key;
    }
    for (int k = 0; k < NK + 1; k++) {
        Item probe = {k, 0, 0, 0};
        int c = set_contains(s, &probe) != 0;
        CHECK(c == (r >> k & 1), "contains(%d) is %d", k, c);
    }
    nobs++;
    return r;
}
static void mcheck(Set** s) {
    for (int i = 0; i < 2; i++) {
        int b = bits(s[i]);
        CHECK(b == mask[i], "set %d has items %x instead of %x", i, b, mask[i]);
    }
    for (int i = 0; i < 2 && !bad; i++) {
        for (int j = 0; j < 2 && !bad; j++) {
            struct {
                Set* (*f)(Set*, Set*);
                int want;
                const char* n;
            } F[] = {{set_intersection, mask[i] & mask[j], "intersection"},
                     {set_union, mask[i] | mask[j], "union"},
                     {set_difference, mask[i] & ~mask[j], "difference"}};
            for (int f = 0; f < 3; f++) {
                int n0 = live();
                Set* r = F[f].f(s[i], s[j]);
                int b = bits(r);
                CHECK(b == F[f].want, "%s of sets %d and %d has items %x instead of %x", F[f].n, i, j, b, F[f].want);
                delete_set(r);
                CHECK(live() == n0, "%s takes or keeps objects", F[f].n);
            }
            int sub = set_issubset(s[i], s[j]) != 0, eq = set_equals(s[i], s[j]) != 0;
            CHECK(sub == ((mask[j] & ~mask[i]) == 0), "issubset of %x and %x is %d", mask[i], mask[j], sub);
            CHECK(eq == (mask[i] == mask[j]), "equals of %x and %x is %d", mask[i], mask[j], eq);
        }
    }
    for (int i = 0; i < 2 && !bad; i++) {
        CHECK(bits(s[i]) == mask[i], "set %d changes by being read", i);
    }
}
static int ops[64];
static const char* HNAME;
static void replay(int n) {
    seq_begin();
    items_reset();
    mask[0] = mask[1] = 0;
    Set* s[2] = {new_set(&TK), new_set(&TK)};
    seq_add("hashes %s: ", HNAME);
    for (int i = 0; i < n && !bad; i++) {
        int o = ops[i];
        nops++;
        if (o == 4 * NK || o == 4 * NK + 1) {
            int w = o - 4 * NK;
            seq_add("set %d becomes a copy of set %d; ", w, 1 - w);
            Set* c = set_copy(s[1 - w]);
            delete_set(s[w]);
            s[w] = c;
            mask[w] = mask[1 - w];
            continue;
        }
        int w = o % 2, k = o / 2 % NK, rm = o / 2 / NK;
        if (rm) {
            Item probe = {k, 0, 0, 0};
            seq_add("remove %d from set %d; ", k, w);
            set_remove(s[w], &probe);
            mask[w] &= ~(1 << k);
        } else {
            seq_add("add %d to set %d; ", k, w);
            set_add(s[w], item_new(k, 0));
            mask[w] |= 1 << k;
        }
    }
    if (!bad) {
        mcheck(s);
    }
    if (!bad) {
        delete_set(s[0]);
        delete_set(s[1]);
        CHECK(live() == 0, "%d objects are never deleted", live());
    }
}
static void dfs(int n) {
    if (n == 2 && !mine()) {
        return;
    }
    replay(n);
    if (n == DEPTH) {
        return;
    }
    for (int o = 0; o < 4 * NK + 2; o++) {
        ops[n] = o;
        dfs(n + 1);
    }
}
static void run(void) {
    static const struct {
        const char* n;
        int h[4];
    } F[] = {{"all 0", {0, 0, 0, 0}}, {"0 1 2", {0, 1, 2, 3}}, {"2 2 0", {2, 2, 0, 2}}};
    for (int f = 0; f < 3; f++) {
        HNAME = F[f].n;
        memcpy(HASH, F[f].h, sizeof F[f].h);
        dfs(0);
    }
}
#endif

#ifdef PART_KEYS
/* the key types of the compiler: every set of histories over many keys */
#include "map/map.h"
static int N;
static char NAMES[1200][8];
static int nn;
static char* name(int i) {
    return NAMES[i];
}
static int present[1200], value[1200];
static int isstr;
static int ki;
static void* key(int i, int own) {
    if (isstr) {
        return own ? new_string(name(i)) : name(i);
    }
    ki = i % 2 ? -(i / 2 + 1) : i / 2;
    return own ? (void*)new_integer(ki) : (void*)&ki;
}
static void all(Map* m, int total) {
    int cnt = 0, want = 0;
    for (int i = 0; i < total && !bad; i++) {
        int* v = map_get(m, key(i, 0));
        CHECK((v != NULL) == present[i], "key %d is %s", i, v ? "there" : "missing");
        if (v && !bad) {
            CHECK(*v == value[i], "key %d has value %d instead of %d", i, *v, value[i]);
        }
        want += present[i];
    }
    for (MapIter* it = map_iter_begin(m); !map_iter_end(it, m); it = map_iter_next(it, m)) {
        if (++cnt > 5000) {
            map_iter_exit(it);
            break;
        }
    }
    CHECK(cnt == want, "%d keys in the iteration instead of %d", cnt, want);
}
static void run(void) {
    static const char al[] = "ab_Z9\xff";
    for (int a = 0; a < 6; a++) {
        sprintf(NAMES[nn++], "%c", al[a]);
        for (int b = 0; b < 6; b++) {
            sprintf(NAMES[nn++], "%c%c", al[a], al[b]);
            for (int c = 0; c < 6; c++) {
                sprintf(NAMES[nn++], "%c%c%c", al[a], al[b], al[c]);
            }
        }
    }
    for (isstr = 0; isstr < 2; isstr++) {
        for (N = 1; N <= (isstr ? nn : 300); N = N < 40 ? N + 1 : N * 5 / 4) {
            for (int order = 0; order < 3; order++) {
                for (int rm = 0; rm < 6; rm++) {
                    if (!mine()) {
                        continue;
                    }
                    seq_begin();
                    memset(present, 0, sizeof present);
                    seq_add("%s keys, %d of them, order %d, removal %d", isstr ? "string" : "int", N, order, rm);
                    Map* m = isstr ? new_map(&t_hashable_string, &t_integer) : new_map(&t_hashable_integer, &t_integer);
                    int total = isstr ? nn : 300;
                    for (int k = 0; k < N && !bad; k++) {
                        int i = order == 0 ? k : order == 1 ? N - 1 - k : (k * 7) % N;
                        map_add(m, key(i, 1), new_integer(i * 3));
                        present[i] = 1;
                        value[i] = i * 3;
                        nops++;
                        if (N <= 40) {
                            all(m, total);
                        }
                    }
                    all(m, total);
                    for (int i = 0; i < N && !bad; i++) {
                        int drop = rm == 0 ? 0 : rm == 1 ? 1 : rm == 2 ? i % 2 : rm == 3 ? i < N / 2 : rm == 4 ? i % 5 != 0 : i == N - 1;
                        if (drop) {
                            map_remove(m, key(i, 0));
                            present[i] = 0;
                            nops++;
                            if (N <= 40) {
                                all(m, total);
                            }
                        }
                    }
                    all(m, total);
                    for (int i = N - 1; i >= 0 && !bad; i--) { /* put them back, replacing those left */
                        map_add(m, key(i, 1), new_integer(i + 1));
                        present[i] = 1;
                        value[i] = i + 1;
                        nops++;
                        if (N <= 40) {
                            all(m, total);
                        }
                    }
                    all(m, total);
                    Map* c = map_copy(m);
                    for (int i = 0; i < N && !bad; i++) {
                        map_remove(m, key(i, 0));
                        nops++;
                    }
                    all(c, total);
                    memset(present, 0, sizeof present);
                    all(m, total);
                    if (!bad) {
                        delete_map(m);
                        delete_map(c);
                    }
                }
            }
        }
    }
}
#endif

#ifdef PART_PAIR
#include "pair/pair.h"
static BaseType T1 = {.copy_object = item_copy, .delete_object = item_delete};
static BaseType T2 = {.copy_object = item_copy, .delete_object = item_delete};
static int ops[64], V;
static void replay(int n) {
    seq_begin();
    items_reset();
    V = 0;
    Pair* p = new_pair(&T1, &T2);
    int val[2] = {0, 0};
    int gone = 0;
    for (int i = 0; i < n && !bad && !gone; i++) {
        Item *a, *b;
        nops++;
        switch (ops[i]) {
        case 0:
            seq_add("set; ");
            a = item_new(0, ++V);
            val[0] = V;
            b = item_new(0, ++V);
            val[1] = V;
            pair_set(p, a, b);
            CHECK(pair_first(p) == a && pair_second(p) == b, "set stores other objects");
            break;
        case 1:
            seq_add("set first; ");
            a = item_new(0, ++V);
            val[0] = V;
            pair_set_first(p, a);
            CHECK(pair_first(p) == a, "set_first stores another object");
            break;
        case 2:
            seq_add("set second; ");
            b = item_new(0, ++V);
            val[1] = V;
            pair_set_second(p, b);
            CHECK(pair_second(p) == b, "set_second stores another object");
            break;
        case 3:
        case 4: {
            seq_add(ops[i] == 3 ? "copy, delete the original; " : "copy, delete the copy; ");
            int n0 = live();
            Pair* c = pair_copy(p);
            CHECK(live() == 2 * n0, "copy makes %d objects from %d", live() - n0, n0);
            delete_pair(ops[i] == 3 ? p : c);
            CHECK(live() == n0, "deleting one of two leaves %d objects of %d", live(), n0);
            p = ops[i] == 3 ? c : p;
            break;
        }
        case 5: {
            seq_add("assign; ");
            void *x, *y;
            pair_assign(&x, &y, p);
            gone = 1;
            a = x;
            b = y;
            CHECK((a ? a->val : 0) == val[0] && (b ? b->val : 0) == val[1], "assign gives other objects");
            if (a && !bad) {
                item_delete(a);
            }
            if (b && !bad) {
                item_delete(b);
            }
            break;
        }
        }
        if (!gone && !bad) {
            a = pair_first(p);
            b = pair_second(p);
            CHECK((a ? a->val : 0) == val[0] && !(a && a->dead), "first is wrong");
            CHECK((b ? b->val : 0) == val[1] && !(b && b->dead), "second is wrong");
        }
    }
    if (!bad) {
        if (!gone) {
            delete_pair(p);
        }
        CHECK(live() == 0, "%d objects are never deleted", live());
    }
}
static void dfs(int n) {
    if (n == 2 && !mine()) {
        return;
    }
    replay(n);
    if (n == DEPTH) {
        return;
    }
    for (int o = 0; o < 6; o++) {
        ops[n] = o;
        dfs(n + 1);
    }
}
static void run(void) {
    dfs(0);
}
#endif

#ifdef PART_SYMTAB
#include "symtab/symtab.h"
#include "tagtab/tagtab.h"
/* a stack of scopes; names 0..2; kinds: label, memory (char, int, long, 5 chars), integer constant */
#define MAXS 16
typedef struct {
    int kind[3]; /* 0 none, 1.. */
    void* sym[3];
    int tag[3];
    void* dt[3];
} Scope;
static Scope st[MAXS];
static int depth;
static char* NM[] = {"a", "ab", "_"};
static int ops[64];
static int nbytes_of(int kind) {
    return kind == 2 ? 1 : kind == 3 ? 4 : kind == 4 ? 8 : 5;
}
static DType* mkt(int kind) {
    return kind == 2 ? new_integer_dtype(DTYPE_CHAR) : kind == 4 ? new_integer_dtype(DTYPE_LONG) : kind == 5 ? new_array_dtype(new_integer_dtype(DTYPE_CHAR), 5) : new_integer_dtype(DTYPE_INT);
}
static int is_kind(Symbol* s, int kind, int n) {
    if (!s || strcmp(s->name, NM[n])) {
        return 0;
    }
    if (kind == 1) {
        return s->type == SYMBOL_LABEL;
    }
    if (kind == 6) {
        return s->type == SYMBOL_INT;
    }
    return s->type == SYMBOL_MEM && dtype_nbytes(s->dtype) == nbytes_of(kind);
}
static void mcheck(SymbolTable* t, TagTable* g, int copied) {
    for (int n = 0; n < 3 && !bad; n++) {
        int d = depth;
        while (d >= 0 && !st[d].kind[n]) {
            d--;
        }
        Symbol* s = symboltable_search(t, NM[n]);
        CHECK((s != NULL) == (d >= 0), "search finds %s for name %d", s ? "something" : "nothing", n);
        if (s && !bad) {
            CHECK(copied || s == st[d].sym[n], "search finds another declaration of name %d", n);
            CHECK(is_kind(s, st[d].kind[n], n), "name %d is found as something else", n);
        }
        CHECK((symboltable_can_define(t, NM[n]) != 0) == !st[depth].kind[n], "can_define is wrong for name %d", n);
        d = depth;
        while (d >= 0 && !st[d].tag[n]) {
            d--;
        }
        DType* dt = tagtable_search(g, NM[n]);
        CHECK((dt != NULL) == (d >= 0), "search finds %s for tag %d", dt ? "something" : "nothing", n);
        if (dt && !bad) {
            CHECK(copied || dt == st[d].dt[n], "search finds another tag %d", n);
            CHECK(dt->type == (st[d].tag[n] == 1 ? DTYPE_STRUCT : DTYPE_ENUM), "tag %d is found as something else", n);
        }
        CHECK((tagtable_can_define(g, NM[n]) != 0) == !st[depth].tag[n], "can_define is wrong for tag %d", n);
    }
    /* storage of objects in open scopes is disjoint */
    int lo[64], hi[64], k = 0;
    for (int d = 0; d <= depth && !copied; d++) {
        for (int n = 0; n < 3; n++) {
            if (st[d].kind[n] >= 2 && st[d].kind[n] <= 5) {
                Symbol* s = st[d].sym[n];
                lo[k] = -s->memory_offset;
                hi[k] = lo[k] + nbytes_of(st[d].kind[n]);
                CHECK(hi[k] <= 0, "an object reaches above the frame");
                k++;
            }
        }
    }
    for (int i = 0; i < k && !bad; i++) {
        for (int j = 0; j < i; j++) {
            CHECK(hi[i] <= lo[j] || hi[j] <= lo[i], "two live objects share storage");
        }
    }
}
static Vector* members(int kind) {
    Vector* v = new_vector(kind == 1 ? &t_dstructmember : &t_denummember);
    vector_push(v, kind == 1 ? (void*)new_dstructmember(new_string("m"), new_integer_dtype(DTYPE_INT)) : (void*)new_denummember(new_string("m"), 0));
    return v;
}
static int replay(int n) {
    seq_begin();
    memset(st, 0, sizeof st);
    depth = 0;
    SymbolTable* t = new_symboltable();
    TagTable* g = new_tagtable();
    int ok = 1;
    for (int i = 0; i < n && !bad && ok; i++) {
        int o = ops[i];
        nops++;
        if (o == 0) {
            seq_add("enter; ");
            t = symboltable_enter_scope(t);
            g = tagtable_enter_scope(g);
            depth++;
            memset(&st[depth], 0, sizeof st[0]);
        } else if (o == 1) {
            if (depth == 0) {
                ok = 0;
                break;
            }
            seq_add("exit; ");
            t = symboltable_exit_scope(t);
            g = tagtable_exit_scope(g);
            depth--;
            CHECK(t && g, "the outer scope is lost");
        } else if (o < 2 + 3 * 6) {
            int nm = (o - 2) / 6, kind = (o - 2) % 6 + 1;
            seq_add("define name %d kind %d; ", nm, kind);
            char* s = new_string(NM[nm]);
            DType* dt = mkt(kind);
            IntegerLiteral* il = kind == 6 ? new_signed_iliteral(INTEGER_INT, 5) : NULL;
            Symbol* r = kind == 1   ? symboltable_define_label(t, s, dt)
                        : kind == 6 ? symboltable_define_integer(t, s, dt, il)
                                    : symboltable_define_memory(t, s, dt);
            if (st[depth].kind[nm]) {
                CHECK(r == NULL, "a second definition of name %d is accepted", nm);
                delete_dtype(dt);
                if (il) {
                    delete_iliteral(il);
                }
                free(s);
            } else {
                CHECK(is_kind(r, kind, nm), "definition of name %d gives something else", nm);
                st[depth].kind[nm] = kind;
                st[depth].sym[nm] = r;
            }
        } else {
            int nm = (o - 20) / 2, kind = (o - 20) % 2 + 1;
            seq_add("define tag %d kind %d; ", nm, kind);
            char* s = new_string(NM[nm]);
            Vector* ms = members(kind);
            DType* r = kind == 1 ? tagtable_define_struct(g, s, ms) : tagtable_define_enum(g, s, ms);
            if (st[depth].tag[nm]) {
                CHECK(r == NULL, "a second definition of tag %d is accepted", nm);
                delete_vector(ms);
                free(s);
            } else {
                CHECK(r != NULL, "definition of tag %d gives nothing", nm);
                st[depth].tag[nm] = kind;
                st[depth].dt[nm] = r;
            }
        }
    }
    if (ok && !bad) {
        mcheck(t, g, 0);
        SymbolTable* tc = symboltable_copy(t);
        TagTable* gc = tagtable_copy(g);
        mcheck(tc, gc, 1);
        if (!bad) {
            delete_symboltable(tc);
            delete_tagtable(gc);
        }
        mcheck(t, g, 0);
    }
    if (!bad) {
        delete_symboltable(t);
        delete_tagtable(g);
    }
    return ok;
}
static void dfs(int n) {
    if (n == 2 && !mine()) {
        return;
    }
    if (!replay(n) || n == DEPTH) {
        return;
    }
    for (int o = 0; o < 26; o++) {
        if ((o >= 14 && o < 20) || o >= 24) {
            continue; /* two names of each kind suffice */
        }
        ops[n] = o;
        dfs(n + 1);
    }
}
static void run(void) {
    dfs(0);
}
#endif

#ifdef PART_LIVESEQ
#include "liveseq/liveness.h"
#include "liveseq/liveseq.h"
/* every sequence of up to 4 disjoint intervals on 0..L, every position, with copies on the way */
static int LIM;
static int lo[8], hi[8], k;
static void one(void) {
    for (int cp = -1; cp <= LIM; cp++) {
        seq_begin();
        Liveseq* s = new_liveseq();
        for (int i = 0; i < k; i++) {
            Liveness* l = new_liveness(lo[i]);
            l->last_use_index = hi[i];
            vector_push(s->livenesses, l);
            seq_add("[%d,%d) ", lo[i], hi[i]);
        }
        seq_add("copied at %d", cp);
        for (int pos = 0; pos <= LIM && !bad; pos++) {
            int want = 0;
            for (int i = 0; i < k; i++) {
                want |= lo[i] <= pos && pos < hi[i];
            }
            if (pos == cp) {
                Liveseq* c = liveseq_copy(s);
                delete_liveseq(s);
                s = c;
            }
            int got = liveseq_isalive(s) != 0;
            CHECK(got == want, "alive at %d is %d", pos, got);
            liveseq_goto_next(s);
            nops++;
        }
        delete_liveseq(s);
    }
}
static void rec(int from) {
    one();
    if (k == 4) {
        return;
    }
    for (int a = from; a < LIM; a++) {
        if (k == 0 && !mine()) {
            continue;
        }
        for (int b = a; b <= LIM; b++) { /* empty intervals: defined, never used */
            lo[k] = a;
            hi[k] = b;
            k++;
            rec(b > a ? b : b + 1);
            k--;
        }
    }
}
static void run(void) {
    LIM = DEPTH;
    rec(1); /* the first instruction of a function defines no register */
}
#endif

int main(int argc, char** argv) {
    DEPTH = argc > 1 ? atoi(argv[1]) : 3;
    SHARD = argc > 2 ? atoi(argv[2]) : 0;
    NSHARDS = argc > 3 ? atoi(argv[3]) : 1;
    signal(SIGALRM, on_alarm);
#ifdef __SANITIZE_ADDRESS__
    __asan_set_death_callback(death);
#endif
    (void)HASH;
    (void)item_hash;
    (void)item_cmp;
    (void)item_copy;
    (void)item_new;
    (void)live;
    (void)death;
    run();
    printf("STAT %lld %lld %lld\n", nseq, nops, nobs);
    return 0;
}
