/* C16: containers against arrays */
#include "common.h"
#include "mod.h"
static void left_(void) { if (mod_blocks()) mc_fail("%ld blocks are left after the container was released", mod_blocks()); }
/* ---- hash table ---- */
static const struct { const char *k; int n; } K[] = {{"a", 1}, {"ab", 2}, {"a\0b", 3}, {"a\0c", 3}, {"\0", 1}, {"abcdefgh", 8}, {"abcdefgi", 8}, {"b", 1}};
static const struct { const char *v; int n; } VV[] = {{"1", 1}, {"\0zz", 3}, {"longer value", 12}};
static int have[8]; static ezhash_t *H; static int nk;
static void hcheck(void) { uint64_t h = 7; for (int i = 0; i < nk; i++) { unsigned char *key = malloc(K[i].n); memcpy(key, K[i].k, K[i].n); char *v = ezhash_find(H, key, K[i].n); free(key); if (!v != !have[i]) mc_fail("key %d is %s", i, v ? "found although it is not in the table" : "not found"); if (v && memcmp(v, VV[have[i] - 1].v, VV[have[i] - 1].n)) mc_fail("key %d has another value", i); h = mc_mix(h, have[i]); } mc_state(mc_mix(h, nk)); mc_trans(1); }
static void hhist(long a) {
    int space = a & 255, len = a >> 8 & 15, nv = a >> 16 & 3; nk = a >> 12 & 15; mod_begin(); memset(have, 0, sizeof have); H = NULL;
    if (a >> 20 & 1) mod_faults("a");
    if (ezhash_create(&H, space)) { if (!mod_injected()) mc_fail("no table"); left_(); mc_outcome(77); return; }
    for (int i = 0; i < len; i++) {
        int k = mc_choose(nk * (nv + 1), 0, "operation"), key = k % nk, op = k / nk; long inj = mod_injected();
        if (op < nv) { unsigned char kb[8]; memcpy(kb, K[key].k, K[key].n); mc_note("   add key %d value %d", key, op); int r = ezhash_add(H, kb, K[key].n, (void *)VV[op].v, VV[op].n); memset(kb, 0, 8); if (r && mod_injected() == inj) mc_fail("adding key %d fails", key); if (!r && !have[key]) have[key] = op + 1; mc_outcome(r); }
        else { mc_note("   delete key %d", key); ezhash_del(H, (void *)K[key].k, K[key].n); have[key] = 0; }
        hcheck();
    }
    mod_faults(""); ezhash_free(H); left_();
}
/* keys and values of more than one block size, told apart by their last byte only, or one the beginning of the other */
static void hlong(long a) {
    static const int L[] = {1, 511, 512, 513, 1024, 1025, 4096, 16000}; mod_begin(); int n = L[mc_choose(8, 0, "key length")], vn = L[mc_choose(8, 0, "value length")], c = 3; char *k[3], *v[3]; int kl[3] = {n, n, n > 1 ? n - 1 : n + 1}, have[3] = {0};
    static char *kb[6]; for (int i = 0; i < 6; i++) { free(kb[i]); kb[i] = NULL; } if (ezhash_create(&H, a)) mc_fail("no table");
    for (int i = 0; i < 3; i++) { k[i] = kb[i] = malloc(kl[i]); v[i] = kb[3 + i] = malloc(vn); memset(k[i], 'k', kl[i]); memset(v[i], 'v', vn); v[i][0] += i; v[i][vn - 1] += i; } k[1][n - 1] = 'l';
    for (int i = 0; i < 4; i++) { int o = mc_choose(2 * c, 0, "operation"), x = o % c; if (o < c) { if (ezhash_add(H, k[x], kl[x], v[x], vn)) mc_fail("adding key %d fails", x); have[x] = 1; } else { ezhash_del(H, k[x], kl[x]); have[x] = 0; }
        for (x = 0; x < c; x++) { char *f = ezhash_find(H, k[x], kl[x]); if (!f != !have[x]) mc_fail("key %d of %d bytes is %s", x, kl[x], f ? "found although it is not in the table" : "not found"); if (f && memcmp(f, v[x], vn)) mc_fail("key %d has another value", x); }
        mc_trans(1); mc_state(mc_mix(mc_mix(n, vn), have[0] * 4 + have[1] * 2 + have[2])); mc_outcome(o); }
    ezhash_free(H); left_();
}
/* a key that is there already is not added once more */
static void hagain(long a) {
    mod_begin(); if (ezhash_create(&H, a)) mc_fail("no table"); int n = mc_choose(4, 0, "other keys"); char k = 'k'; if (ezhash_add(H, &k, 1, "first", 6)) mc_fail("adding fails");
    for (int i = 0; i < 5000; i++) if (ezhash_add(H, &k, 1, "again", 6)) mc_fail("adding a key that is there fails the %dth time", i + 1);
    char *f = ezhash_find(H, &k, 1); if (!f || strcmp(f, "first")) mc_fail("the first value is replaced"); for (int i = 0; i < n; i++) { char o = 'a' + i; if (ezhash_add(H, &o, 1, "other", 6)) mc_fail("another key cannot be added"); }
    mc_trans(5000); mc_state(a * 4 + n); mc_outcome(n); ezhash_del(H, &k, 1); if (ezhash_find(H, &k, 1)) mc_fail("a deleted key is found"); ezhash_free(H); left_();
}
/* ---- queue ---- */
static void qhist(long a) {
    int n = a & 15, len = a >> 4 & 15, L[8], c = 0, in[8] = {0}; mod_begin(); queue_t h, q[8]; memset(q, 0, sizeof q); queue_init(&h);
    for (int i = 0; i < len; i++) {
        int k = mc_choose(2 * n, 0, "operation"), x = k % n, w = k / n;
        if (in[x]) { if (w) mc_prune(); queue_remove(&q[x]); int j = 0; while (L[j] != x) j++; memmove(L + j, L + j + 1, (c - j - 1) * sizeof(int)); c--; in[x] = 0; mc_note("   remove %d", x); }
        else if (w) { queue_insert(&h, &q[x]); memmove(L + 1, L, c * sizeof(int)); L[0] = x; c++; in[x] = 1; mc_note("   %d in front", x); }
        else { queue_insert_tail(&h, &q[x]); L[c++] = x; in[x] = 1; mc_note("   %d at the end", x); }
        if (!!queue_empty(&h) != !c) mc_fail("the queue with %d entries says it is %sempty", c, c ? "" : "not ");
        queue_t *p = queue_head(&h); int j = 0; while (p != queue_tail(&h)) { if (j >= c || p != &q[L[j]]) mc_fail("entry %d is another one", j); j++; p = queue_next(p); } if (j != c) mc_fail("%d of %d entries are found", j, c);
        p = queue_prev(&h); j = c; while (p != &h) { j--; if (j < 0 || p != &q[L[j]]) mc_fail("backwards, entry %d is another one", j); p = queue_prev(p); } if (j) mc_fail("backwards, %d entries are missing", j);
        uint64_t s = 3; for (j = 0; j < c; j++) s = mc_mix(s, L[j]); mc_state(mc_mix(s, n)); mc_trans(1); mc_outcome(c);
    }
}
/* ---- array and list ---- */
static void arr(long a) {
    static const int SZ[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 500, 512, 1024, 4000}; int size = SZ[mc_choose(16, 0, "element size")], n = mc_choose(a, 0, "elements"), c = 0; mod_begin(); mod_faults("a"); mem_arr_t *m = NULL; void *P[64]; 
    if (mem_arr_create(&m, size)) { if (!mod_injected()) mc_fail("no array"); left_(); return; }
    for (int i = 0; i < n; i++) {
        long inj = mod_injected(); void *p = mem_arr_push(m);
        if (!p) { if (mod_injected() == inj) mc_fail("no element"); } else { for (int k = 0; k < size; k++) if (((char *)p)[k]) mc_fail("a new element is not zero"); memset(p, 1 + c, size); P[c++] = p; }
        for (int k = 0; k < c; k++) { unsigned char *e = mem_arr_get(m, k + 1); if (e != P[k]) mc_fail("element %d is another one", k + 1); for (int x = 0; x < size; x++) if (e[x] != 1 + k) mc_fail("element %d changed", k + 1); }
        if (mem_arr_get(m, 0) || mem_arr_get(m, c + 1) || mem_arr_get(m, -1) || mem_arr_get(m, c + 100)) mc_fail("an element outside the array is returned");
        mc_trans(1); mc_state(mc_mix(size * 64 + c, 5)); mc_outcome(!!p);
    }
    mod_faults(""); mem_arr_free(m); left_();
}
static void list(long len) {
    static char *S[] = {"", "x", "hello", "a much longer string with some spaces inside", 0, 0}; static char *big, *big2; if (!big) { big = malloc(601); memset(big, 'b', 600); big[600] = 0; big2 = malloc(3001); memset(big2, 'c', 3000); big2[3000] = 0; S[4] = big; S[5] = big2; } mod_begin(); mod_faults("a"); mem_list_t *h = NULL; int L[16], c = 0;
    for (int i = 0; i < len; i++) {
        int k = mc_choose(6, 0, "string"); long inj = mod_injected(); int r = mem_list_push(&h, S[k]); if (r && mod_injected() == inj) mc_fail("no element"); if (!r) L[c++] = k;
        int j = 0; for (mem_list_t *p = h; p; p = p->next, j++) if (j >= c || p->datan != (int)strlen(S[L[j]]) || strcmp(p->data, S[L[j]])) mc_fail("element %d changed", j); if (j != c) mc_fail("%d of %d elements", j, c);
        uint64_t s = 9; for (j = 0; j < c; j++) s = mc_mix(s, L[j]); mc_state(s); mc_trans(1); mc_outcome(r);
    }
    mod_faults(""); mem_list_free(h); left_();
}
/* ---- search tree ---- */
static bst_t *B; static const long long *KEY; static int cnt[8], tot, nkey; static long long ord[32]; static int no;
static void walk(bst_node_t *n, int d) { if (!n) return; if (d > 40 || no > 30) mc_fail("the tree has a cycle"); walk(n->left, d + 1); ord[no++] = n->num; walk(n->right, d + 1); }
static void bcheck(void) {
    no = 0; walk(B->head.right, 0); int j = 0; uint64_t s = 0;
    for (int i = 0; i < nkey; i++) { bst_node_t *f = bst_find(B, KEY[i]); if (!f != !cnt[i]) mc_fail("key %lld is %s", KEY[i], f ? "found although it is not in the tree" : "not found"); if (f && f->num != KEY[i]) mc_fail("another key is found"); for (int k = 0; k < cnt[i]; k++, j++) if (j >= no || ord[j] != KEY[i]) mc_fail("the tree is not in order"); }
    if (j != no) mc_fail("the tree has %d keys, not %d", no, j);
    if (tot && bst_min(B->head.right)->num != ord[0]) mc_fail("the smallest key is another one");
    if (B->elem_num != tot) mc_fail("the tree counts %d keys, not %d", B->elem_num, tot);
    for (int i = 0; i < nkey; i++) s = mc_mix(s, cnt[i]); if (tot) s = mc_mix(s, B->head.right->num); mc_state(mc_mix(s, nkey)); mc_trans(1);
}
static const long long KS[3][8] = {{1, 2, 3, 4, 5, 6, 7, 8}, {-0x7fffffffffffffffLL - 1, -2, -1, 0, 1, 0x7fffffffffffffffLL, 0, 0}, {3, 5, 7, 0, 0, 0, 0, 0}};
static void badd(int i) { mc_note("   add %lld", KEY[i]); long inj = mod_injected(); int r = bst_add(B, KEY[i]); if (r && inj == mod_injected()) mc_fail("adding %lld fails", KEY[i]); if (!r) cnt[i]++, tot++; bcheck(); }
static void bdel(int i) { mc_note("   delete %lld", KEY[i]); int r = bst_del(B, KEY[i]); if (!r != !!cnt[i]) mc_fail("deleting key %lld %s", KEY[i], r ? "fails" : "succeeds although it is not there"); if (!r) cnt[i]--, tot--; mc_outcome(r); bcheck(); }
static void bbegin(int ks, int n) { mod_begin(); KEY = KS[ks]; nkey = n; memset(cnt, 0, sizeof cnt); tot = 0; }
static void bhist(long a) {
    int n = a & 15, len = a >> 4 & 15; bbegin(a >> 8 & 3, n); if (a >> 10 & 1) mod_faults("a"); if (bst_create(&B)) { if (!mod_injected()) mc_fail("no tree"); left_(); return; }
    bcheck();
    for (int i = 0; i < len; i++) { int k = mc_choose(2 * n, 0, "operation"); if (k < n) badd(k); else bdel(k - n); }
    mod_faults(""); bst_free(B); left_();
}
/* every insertion order of n keys, then every order of deleting d of them */
static void bshape(long a) {
    int n = a & 15, d = a >> 4 & 15, used = 0; bbegin(a >> 8 & 3, n); if (bst_create(&B)) mc_fail("no tree");
    for (int i = 0; i < n; i++) { int k = mc_choose(n - i, 0, "insert"), x; for (x = 0; x < n; x++) if (!(used >> x & 1) && !k--) break; used |= 1 << x; badd(x); }
    for (int i = 0; i < d; i++) { int k = mc_choose(n - i, 0, "delete"), x; for (x = 0; x < n; x++) if (used >> x & 1 && !k--) break; used &= ~(1 << x); bdel(x); }
    bst_free(B); left_();
}
static void bladder(long n) { /* a long ladder: every node of a right-leaning (left-leaning) chain has a leaf on the other side */
    mod_begin(); bst_t *b; if (bst_create(&b)) mc_fail("no tree"); int dir = mc_choose(2, 0, "direction");
    for (long i = 1; i <= n; i++) { long k = dir ? -2 * i : 2 * i; bst_add(b, k); bst_add(b, dir ? k + 1 : k - 1); }
    for (long i = 1; i <= n; i += n / 7) if (!bst_find(b, dir ? -2 * i : 2 * i) || bst_find(b, dir ? 2 * i : -2 * i)) mc_fail("a key is lost");
    mc_trans(2 * n); mc_state(n * 2 + dir); bst_free(b); left_();
}
/* ---- binary heap ---- */
static const long long HK[4][7] = {{0, 1, 2, 3, 4, 5, 6}, {1, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x180000000ll}, {-0x7fffffffffffffffll - 1, -0x80000001ll, -1, 0, 1, 0x80000000ll, 0x7fffffffffffffffll}, {5, 5, 5, 6, 6, 7, 7}};
static void heap(long a) {
    int n = a & 15, len = a >> 4 & 15, cap = a >> 8 & 15, far = a >> 12 & 3, in[8] = {0}, c = 0; mod_begin(); heap_t *h = NULL; heap_node_t N[8]; memset(N, 0, sizeof N); if (heap_create(&h, cap)) mc_fail("no heap");
    for (int i = 0; i < len; i++) {
        int k = mc_choose(2 * n + 1, 0, "operation");
        if (k == 2 * n) { if (c) { heap_node_t *m = heap_min(h); int x = m - N; heap_del(h, m->index); in[x] = 0; c--; mc_note("   take the smallest (%d)", x); } }
        else { int x = k >> 1; if (in[x]) { if (k & 1) mc_prune(); mc_note("   delete %d", x); if (heap_del(h, N[x].index)) mc_fail("deleting fails"); in[x] = 0; c--; } else { N[x].key = k & 1 ? HK[far][6 - x] : HK[far][x]; mc_note("   add %d key %lld", x, (long long)N[x].key); int r = heap_add(h, &N[x]); if (!r != (c < cap)) mc_fail("adding to a heap with %d of %d entries %s", c, cap, r ? "fails" : "succeeds"); if (!r) in[x] = 1, c++; mc_outcome(r); } }
        if (heap_num(h) != c || !!heap_empty(h) != !c) mc_fail("the heap counts %d entries, not %d", heap_num(h), c);
        heap_node_t *m = heap_min(h); if (!m != !c) mc_fail("the smallest entry is %s", m ? "there in an empty heap" : "missing");
        uint64_t s = c; for (int x = 0; x < n; x++) { if (in[x] && m->key > N[x].key) mc_fail("the smallest entry is not the smallest"); s = mc_mix(s, in[x] ? N[x].index * 16 + N[x].key : 0); }
        if (m && !in[m - N]) mc_fail("the smallest entry is one that was deleted"); mc_state(mc_mix(s, a)); mc_trans(1);
    }
    heap_free(h); left_();
}
/* every order of adding 7 keys, then all taken out in order */
static void hsort(long f) {
    mod_begin(); heap_t *h = NULL; heap_node_t N[7]; memset(N, 0, sizeof N); int used = 0; if (heap_create(&h, 7)) mc_fail("no heap");
    for (int i = 0; i < 7; i++) { int k = mc_choose(7 - i, 0, "insert"), x; for (x = 0; x < 7; x++) if (!(used >> x & 1) && !k--) break; used |= 1 << x; N[x].key = HK[f][x]; if (heap_add(h, &N[x])) mc_fail("adding fails"); }
    if (mc_choose(2, 0, "delete one")) { int x = mc_choose(7, 0, "which"); if (heap_del(h, N[x].index)) mc_fail("deleting fails"); used &= ~(1 << x); }
    uint64_t s = f; for (int c = 0; used; c++) { heap_node_t *m = heap_min(h); if (!m) mc_fail("an entry is lost"); int x = m - N; if (!(used >> x & 1)) mc_fail("the smallest entry is one that was taken out"); for (int y = 0; y < 7; y++) if (used >> y & 1 && N[y].key < m->key) mc_fail("key %lld comes before %lld", (long long)m->key, (long long)N[y].key); s = mc_mix(s, m->index * 8 + x); if (heap_del(h, m->index)) mc_fail("deleting fails"); used &= ~(1 << x); mc_trans(1); }
    if (!heap_empty(h)) mc_fail("an entry is left"); mc_state(s); mc_outcome(s & 7); heap_free(h); left_();
}
MOD_REGISTER(C16) {
    int t = mc_thorough(); static const int SLOTS[] = {1, 2, 7, 211};
    for (int i = 0; i < 4; i++) { mc_add(hhist, SLOTS[i] | (5 + t) << 8 | 4 << 12 | 2 << 16, 0, "hash table, %d slots, 4 keys", SLOTS[i]); mc_add(hhist, SLOTS[i] | (4 + t) << 8 | 8 << 12 | 1 << 16, 0, "hash table, %d slots, 8 keys", SLOTS[i]); }
    mc_add(hhist, 2 | 3 << 8 | 3 << 12 | 3 << 16 | 1 << 20, 2, "hash table, 3 values, allocations fail");
    mc_add(hhist, 3 | 7 + t << 8 | 2 << 12 | 1 << 16, 0, "hash table, long histories of 2 keys");
    mc_add(qhist, 3 | (7 + t) << 4, 0, "queue, 3 entries"); mc_add(qhist, 5 | (5 + t) << 4, 0, "queue, 5 entries");
    mc_add(arr, 12, 1, "array"); mc_add(list, 5 + t, 1, "list");
    mc_add(bhist, 4 | (6 + t) << 4, 0, "tree, 4 keys"); mc_add(bhist, 6 | (5 + t) << 4 | 1 << 8, 0, "tree, extreme keys"); mc_add(bhist, 3 | (7 + t) << 4 | 2 << 8, 0, "tree, 3 keys (duplicates)"); mc_add(bhist, 2 | 4 << 4 | 1 << 10, 2, "tree, allocations fail");
    for (int n = 3; n <= 6 + t; n++) mc_add(bshape, n | n << 4, 0, "tree of %d keys, every shape, every deletion order", n); mc_add(bshape, 7 | 2 << 4, 0, "tree of 7 keys, every shape, two deletions"); mc_add(bshape, 6 | 6 << 4 | 1 << 8, 0, "tree of 6 extreme keys, every shape and deletion order");
    mc_add(bladder, 9000, 0, "tree of 18000 keys");
    mc_add(heap, 3 | (6 + t) << 4 | 3 << 8, 0, "heap, 3 entries"); mc_add(heap, 4 | 5 << 4 | 2 << 8, 0, "heap with room for 2"); mc_add(heap, 7 | (4 + t) << 4 | 7 << 8, 0, "heap, 7 entries"); for (int f = 1; f < 4; f++) { mc_add(heap, 3 | (6 + t) << 4 | 3 << 8 | f << 12, 0, "heap, 3 entries, keys %d", f); mc_add(heap, 7 | (4 + t) << 4 | 7 << 8 | f << 12, 0, "heap, 7 entries, keys %d", f); mc_add(hsort, f, 0, "heap, every order of 7 keys %d", f); } mc_add(hsort, 0, 0, "heap, every order of 7 keys");
    mc_add(hlong, 3, 0, "hash table, long keys and values"); mc_add(hagain, 1, 0, "hash table, a key added again and again"); mc_add(hagain, 211, 0, "hash table, a key added again and again, 211 slots");
}
