/*
 * B-tree monitor (C13).  Threads insert into one dynamic tree while others
 * look keys up and walk ranges in both directions; every answer is judged
 * against the history of each key.  Then trees are packed from walks and
 * merges, and everything about the packed tree is compared with the stream.
 */
#include "comp.h"
#include "btree.h"
#include "merge.h"
#include "splinterdb/data.h"
static comp         C;
static uint64_t     SEED;
static data_config  DC;
static btree_config BC;
#define DISK (6000 * ESZ)
#define MAXT 8
static uint32_t NT, U, MAXPAD, KPAD, MAXMSGLEN, NREAD;
static int      REV, kind;
static __thread vf_rng R;
static __thread btree_scratch *SCR;
static uint64_t S_ins, S_look, S_itsteps, S_turns, S_scans, S_concscans, S_packs, S_packed, S_counts, S_async, S_susp,
   S_unique, S_merged, S_limit, S_shared, S_height, S_seek, S_over, S_tuples, S_emptypack, S_multi;
#define ADD(x, n) __sync_fetch_and_add(&(x), (n))

/* ---- keys ---- */
static uint32_t
mk_key(uint64_t id, uint8_t *b)
{
   uint32_t v = REV ? 0x7fffffff - id : id;
   b[0] = v >> 24, b[1] = v >> 16, b[2] = v >> 8, b[3] = v;
   vf_rng   r = {vf_mix(SEED ^ vf_mix(id))};
   uint32_t n = 4;
   if (kind == 1)
      n = 4 + KPAD;
   else if (kind == 2)
      n = 4 + vf_below(&r, KPAD + 1);
   else if (kind == 3)
      n = vf_chance(&r, 1, 10) ? 512 : 4 + vf_below(&r, 16);
   for (uint32_t i = 4; i < n; i++)
      b[i] = vf_rand(&r);
   return n;
}
static int64_t
key_id(key k)
{
   const uint8_t *d = key_data(k);
   if (key_length(k) < 4)
      return -1;
   int64_t v = (uint32_t)d[0] << 24 | d[1] << 16 | d[2] << 8 | d[3];
   v         = REV ? 0x7fffffff - v : v;
   uint8_t b[600];
   if (v < 0 || v >= U)
      return -1;
   uint32_t n = mk_key(v, b);
   return n == key_length(k) && !memcmp(b, d, n) ? v : -1;
}
static int
cb_cmp(const data_config *cfg, slice a, slice b)
{
   size_t n = a.length < b.length ? a.length : b.length;
   int    c = memcmp(a.data, b.data, n);
   if (!c)
      c = a.length < b.length ? -1 : a.length > b.length;
   return REV ? -c : c;
}
static void
cb_str(const data_config *cfg, slice k, char *s, uint64 n)
{
   snprintf(s, n, "k%lu", k.length);
}
static void
cb_mstr(const data_config *cfg, message m, char *s, uint64 n)
{
   snprintf(s, n, "m%lu", message_length(m));
}
/* ---- messages: elements [u32 op][u16 len][len bytes]; update = append ---- */
static uint32_t
mk_elem(uint32_t op, uint32_t len, uint8_t *b)
{
   memcpy(b, &op, 4);
   uint16_t l = len;
   memcpy(b + 4, &l, 2);
   for (uint32_t i = 0; i < len; i++)
      b[6 + i] = op * 31 + i * 7;
   return 6 + len;
}
static int
cb_merge(const data_config *cfg, slice k, message old, merge_accumulator *new)
{
   VF_CHECK(merge_accumulator_message_class(new) == MESSAGE_TYPE_UPDATE, "merge callback with a newer message of class %d",
            merge_accumulator_message_class(new));
   uint64_t no = message_length(old), nn = merge_accumulator_length(new);
   uint8_t  t[8192];
   VF_CHECK(no + nn <= sizeof(t), "merge callback with messages of %lu and %lu bytes", no, nn);
   memcpy(t, message_data(old), no);
   memcpy(t + no, merge_accumulator_data(new), nn);
   if (!merge_accumulator_resize(new, no + nn))
      return -1;
   memcpy(merge_accumulator_data(new), t, no + nn);
   merge_accumulator_set_class(new, message_class(old));
   return 0;
}
static int
cb_final(const data_config *cfg, slice k, merge_accumulator *new)
{
   merge_accumulator_set_class(new, MESSAGE_TYPE_INSERT);
   return 0;
}
/* ---- history ---- */
typedef struct op {
   uint32_t     id; /* op number in bytes */
   uint16_t     len;
   uint8_t      t;
   uint8_t      c;
   uint64_t     gen;
} op;
typedef struct khist {
   volatile uint32_t done, started;
   uint32_t          cap;
   op               *o; /* owned: in order; shared: by completion */
   uint32_t          bytes;
   uint64_t          lastgen;
   volatile uint32_t uniques;
} khist;
typedef struct tree {
   uint64_t       root;
   page_type      type;
   mini_allocator mini;
   khist         *k;
   uint64_t       n;
} tree;
static bool
is_shared(uint64_t id)
{
   return NT > 1 && id % 5 == 0;
}
/* content of key after v operations (owned keys) */
static bool
state(khist *h, uint32_t v, message_type *c, uint8_t *b, uint32_t *n)
{
   *n = 0;
   *c = MESSAGE_TYPE_INVALID;
   for (uint32_t i = 0; i < v; i++) {
      op *o = &h->o[i];
      if (o->c == MESSAGE_TYPE_UPDATE) {
         if (*c == MESSAGE_TYPE_INVALID)
            *c = MESSAGE_TYPE_UPDATE;
         else if (*c == MESSAGE_TYPE_DELETE) {
            *c = MESSAGE_TYPE_INSERT;
            *n = 0;
         }
      } else {
         *c = o->c;
         *n = 0;
      }
      if (o->c != MESSAGE_TYPE_DELETE)
         *n += mk_elem(o->id, o->len, b + *n);
   }
   return v > 0;
}
static const char *CLS[] = {"invalid", "insert", "update", "delete"};
/* does (m) fit the history of the key between versions lo and now? */
static void
judge(tree *T, uint64_t id, uint32_t lo, bool found, message m, const char *how)
{
   khist   *h  = &T->k[id];
   uint32_t hi = h->started;
   __sync_synchronize();
   if (!found) {
      VF_CHECK(lo == 0, "%s: key %lu is not found although %u messages had been inserted for it", how, id, lo);
      return;
   }
   VF_CHECK(hi > 0, "%s: key %lu is found but was never inserted", how, id);
   if (is_shared(id) && T->type == PAGE_TYPE_MEMTABLE) {
      /* updates only: all those completed before must be in there, each once,
       * each thread's in order */
      VF_CHECK(message_class(m) == MESSAGE_TYPE_UPDATE, "%s: shared key %lu has class %d", how, id, message_class(m));
      const uint8_t *p = message_data(m);
      uint64_t       n = message_length(m), off = 0, cnt = 0;
      uint32_t       lastof[MAXT + 1] = {0};
      static __thread uint32_t seen[2048];
      while (off + 6 <= n) {
         uint32_t o;
         uint16_t l;
         memcpy(&o, p + off, 4);
         memcpy(&l, p + off + 4, 2);
         VF_CHECK(off + 6 + l <= n, "%s: shared key %lu: damaged message", how, id);
         for (uint32_t i = 0; i < l; i++)
            VF_CHECK(p[off + 6 + i] == (uint8_t)(o * 31 + i * 7), "%s: shared key %lu: damaged bytes", how, id);
         uint32_t t = o >> 24;
         VF_CHECK(t < NT && (o & 0xffffff) > lastof[t], "%s: shared key %lu: thread %u's updates out of order", how, id, t);
         lastof[t] = o & 0xffffff;
         VF_CHECK(cnt < 2048, "internal");
         seen[cnt++] = o;
         off += 6 + l;
      }
      VF_CHECK(off == n, "%s: shared key %lu: trailing bytes", how, id);
      VF_CHECK(cnt <= hi, "%s: shared key %lu: %lu updates found, %u begun", how, id, cnt, hi);
      for (uint32_t i = 0; i < lo; i++) {
         uint32_t j;
         for (j = 0; j < cnt && seen[j] != h->o[i].id; j++)
            ;
         VF_CHECK(j < cnt, "%s: shared key %lu: a completed update is missing", how, id);
      }
      return;
   }
   for (uint32_t v = lo ? lo : 1; v <= hi; v++) {
      uint8_t      b[8192];
      uint32_t     n;
      message_type c;
      state(h, v, &c, b, &n);
      if (c == message_class(m) && n == message_length(m) && (!n || !memcmp(b, message_data(m), n)))
         return;
   }
   vf_violation("%s: key %lu: class %s, %lu bytes, matches none of the versions %u to %u", how, id,
                message_class(m) < 4 ? CLS[message_class(m)] : "?", message_length(m), lo, hi);
}
static void
lookup(tree *T, uint64_t id, const char *how)
{
   khist   *h  = &T->k[id];
   uint32_t lo = h->done;
   __sync_synchronize();
   uint8_t           kb[600];
   uint32_t          n = mk_key(id, kb);
   merge_accumulator a;
   merge_accumulator_init(&a, C.hid);
   platform_status rc = btree_lookup(C_CC(&C), &BC, T->root, T->type, key_create(n, kb), &a);
   VF_CHECK(SUCCESS(rc), "lookup failed");
   bool f = btree_found(&a);
   judge(T, id, lo, f, f ? merge_accumulator_to_message(&a) : NULL_MESSAGE, how);
   merge_accumulator_deinit(&a);
   ADD(S_look, 1);
}
/* ---- inserting ---- */
static volatile uint32_t opno[MAXT];
static void
insert(tree *T, uint32_t t, uint64_t id)
{
   khist *h = &T->k[id];
   op     o = {.t = t};
   bool   sh = is_shared(id);
   o.len     = vf_chance(&R, 1, 3) ? 0 : vf_below(&R, MAXPAD + 1);
   if (!sh && vf_chance(&R, 1, 60))
      o.len = MAXMSGLEN - 6;
   if (sh) {
      o.c = MESSAGE_TYPE_UPDATE;
      if (o.len > 60)
         o.len = 60;
      /* reserve room: the merged message must fit */
      if (__sync_add_and_fetch(&h->bytes, 6 + o.len) > MAXMSGLEN) {
         __sync_fetch_and_sub(&h->bytes, 6 + o.len);
         return;
      }
   } else {
      uint32_t d = vf_below(&R, 10);
      o.c        = d < 5 ? MESSAGE_TYPE_UPDATE : d < 9 ? MESSAGE_TYPE_INSERT : MESSAGE_TYPE_DELETE;
      if (o.c == MESSAGE_TYPE_UPDATE && h->bytes + 6 + o.len > MAXMSGLEN)
         o.c = MESSAGE_TYPE_INSERT;
      if (o.c == MESSAGE_TYPE_UPDATE)
         h->bytes += 6 + o.len;
      else
         h->bytes = o.c == MESSAGE_TYPE_DELETE ? 0 : 6 + o.len;
      if (h->done == h->cap)
         return;
   }
   o.id = t << 24 | __sync_add_and_fetch(&opno[t], 1);
   uint8_t  kb[600], mb[8192];
   uint32_t n = mk_key(id, kb), ml = o.c == MESSAGE_TYPE_DELETE ? 0 : mk_elem(o.id, o.len, mb);
   if (!sh)
      h->o[h->done] = o;
   __sync_synchronize();
   __sync_fetch_and_add(&h->started, 1);
   uint64 gen  = ~0ull;
   bool32 uniq = 99;
   key    k    = key_create(n, kb);
   /* the arguments are the caller's, exactly as long as they say */
   uint8_t *hk = malloc(n), *hm = malloc(ml + 1);
   memcpy(hk, kb, n);
   memcpy(hm, mb, ml);
   k                  = key_create(n, hk);
   platform_status rc = btree_insert(C_CC(&C), &BC, C.hid, SCR, T->root, &T->mini, k, message_create(o.c, slice_create(ml, hm)), &gen, &uniq);
   memset(hk, 0xEE, n);
   memset(hm, 0xEE, ml);
   free(hk);
   free(hm);
   VF_CHECK(SUCCESS(rc), "insertion failed: %s", platform_status_to_string(rc));
   VF_CHECK(gen != ~0ull && uniq <= 1, "insertion reports no generation or uniqueness");
   ADD(S_ins, 1);
   if (uniq) {
      uint32_t u = __sync_add_and_fetch(&h->uniques, 1);
      VF_CHECK(u == 1, "key %lu is reported new %u times", id, u);
      ADD(S_unique, 1);
      ADD(T->n, 1);
   } else
      ADD(S_merged, 1);
   if (sh) {
      ADD(S_shared, 1);
      o.gen = gen;
      /* publish by completion */
      static volatile int lk[64];
      while (__sync_lock_test_and_set(&lk[id & 63], 1))
         ;
      VF_CHECK(h->done < h->cap, "internal: shared history full");
      h->o[h->done] = o;
      __sync_synchronize();
      h->done++;
      __sync_lock_release(&lk[id & 63]);
   } else {
      VF_CHECK(uniq == (h->done == 0), "key %lu: reported new: %d, but %u messages came before", id, uniq, h->done);
      VF_CHECK(h->done == 0 || gen > h->lastgen, "key %lu: generation %lu after %lu", id, gen, h->lastgen);
      h->lastgen       = gen;
      h->o[h->done].gen = gen;
      __sync_synchronize();
      h->done++;
   }
}
/* ---- walks ---- */
static bool
known(uint32_t *snap, int64_t a, int64_t b, int64_t *which)
{
   for (int64_t i = a; i < b; i++)
      if (snap[i]) {
         *which = i;
         return true;
      }
   return false;
}
#define NOGAP(from, to, what)                                                                                          \
   do {                                                                                                                \
      int64_t w_;                                                                                                      \
      VF_CHECK(!known(snap, (from), (to), &w_),                                                                        \
               "%s iterator over [%ld,%ld): %s skips key %ld, which was there before the walk (between %ld and %ld)",  \
               how, a, b, what, w_, (int64_t)(from), (int64_t)(to));                                                   \
   } while (0)
static const char *CN[] = {"<", "<=", ">", ">="};
static void
scan(tree *T, bool quiet, const char *how)
{
   uint32_t *snap = malloc((U + 1) * 4);
   int64_t   a = 0, b = U;
   bool      ai = vf_chance(&R, 1, 3), bi = vf_chance(&R, 1, 3);
   if (!ai)
      a = vf_below(&R, U);
   if (!bi)
      b = vf_chance(&R, 1, 8) ? a + vf_below(&R, 3) : a + vf_below(&R, U - a + 1);
   if (b > U)
      b = U;
   if (b == U)
      bi = true;
   int64_t    s  = a + vf_below(&R, b - a + 1);
   comparison st = vf_below(&R, 4);
   if (vf_chance(&R, 1, 2)) {
      s  = a;
      st = greater_than_or_equal;
   } else if (vf_chance(&R, 1, 3)) {
      s  = b;
      st = less_than_or_equal;
   }
   if (s == b && st == greater_than)
      st = greater_than_or_equal; /* a start beyond the range */
   for (uint32_t i = 0; i < U; i++)
      snap[i] = T->k[i].done;
   __sync_synchronize();
   uint8_t        ka[600], kb[600], ks[600];
   uint32_t       na = ai ? 0 : mk_key(a, ka), nb = bi ? 0 : mk_key(b, kb), ns = s < U ? mk_key(s, ks) : 0;
   key            min = ai ? NEGATIVE_INFINITY_KEY : key_create(na, ka), max = bi ? POSITIVE_INFINITY_KEY : key_create(nb, kb);
   key            sk  = s == U ? POSITIVE_INFINITY_KEY : s == a && ai && vf_chance(&R, 1, 2) ? NEGATIVE_INFINITY_KEY : key_create(ns, ks);
   bool sinf = key_is_negative_infinity(sk);
   btree_iterator bit;
   btree_iterator_init(C_CC(&C), &BC, &bit, T->root, T->type, min, max, sk, st, vf_chance(&R, 1, 2), 0);
   iterator *it = &bit.super;
   int64_t   cur;
   uint32_t  budget = vf_chance(&R, 1, 4) ? 20 + vf_below(&R, 60) : 2 * U + 20, steps = 0;
   bool      fwd    = st == greater_than || st == greater_than_or_equal;
   uint64_t  any    = 0;
   if (quiet)
      for (int64_t i = a; i < b; i++)
         any += snap[i] > 0;
   /* -- where is it? -- */
   bool first = true, dir = fwd;
   int64_t from = 0;
   for (;;) {
      bool cn = iterator_can_next(it), cp = iterator_can_prev(it);
      if (cn && cp) {
         key     k;
         message m;
         iterator_curr(it, &k, &m);
         VF_CHECK(key_is_user_key(k), "%s iterator returns a special key", how);
         cur = key_id(k);
         VF_CHECK(cur >= 0, "%s iterator over [%ld,%ld) returns a key (length %lu) that was never inserted", how, a, b, key_length(k));
         VF_CHECK(cur >= a && cur < b, "%s iterator over [%ld,%ld) returns key %ld", how, a, b, cur);
         judge(T, cur, snap[cur], true, m, how);
      } else if (!cn)
         cur = b;
      else
         cur = a - 1;
      if (quiet) {
         if (any)
            VF_CHECK(cn == (cur != b) && cp == (cur != a - 1), "%s iterator over [%ld,%ld) at %ld: can_next %d can_prev %d", how, a, b, cur, cn, cp);
         else
            VF_CHECK(!(cn && cp), "%s iterator over empty [%ld,%ld)", how, a, b);
      }
      if (first) {
         first = false;
         if (quiet || any) {
            /* fall through to gap checks */
         }
         switch (st) {
            case greater_than_or_equal:
               VF_CHECK(cur >= s || (sinf && cur >= a) || (!cn && !cp), "%s iterator started at %s %ld is at %ld", how, CN[st], s, cur);
               NOGAP(s, cur, "the start (>=)");
               break;
            case greater_than:
               VF_CHECK(cur > s || (sinf && cur >= s) || cur == b, "%s iterator started at %s %ld is at %ld", how, CN[st], s, cur);
               NOGAP(sinf ? s : s + 1, cur, "the start (>)");
               break;
            case less_than_or_equal:
               if (!cn && !cp) {
                  NOGAP(a, s < b && !sinf ? s + 1 : s, "the start (<=)");
               } else {
                  VF_CHECK(cur <= s, "%s iterator started at %s %ld is at %ld", how, CN[st], s, cur);
                  NOGAP(cur + 1, s < b && !sinf ? s + 1 : s, "the start (<=)");
               }
               break;
            case less_than:
               if (!cn && !cp)
                  NOGAP(a, s, "the start (<)");
               else {
                  VF_CHECK(cur < s || sinf, "%s iterator started at %s %ld is at %ld", how, CN[st], s, cur);
                  NOGAP(cur + 1, s, "the start (<)");
               }
               break;
         }
      } else if (dir) {
         VF_CHECK(cur > from, "%s iterator over [%ld,%ld): next goes from %ld to %ld", how, a, b, from, cur);
         NOGAP(from + 1, cur, "next");
      } else {
         VF_CHECK(cur < from, "%s iterator over [%ld,%ld): prev goes from %ld to %ld", how, a, b, from, cur);
         NOGAP(cur + 1, from, "prev");
      }
      if (steps++ >= budget || (!cn && !cp))
         break;
      if (vf_chance(&R, 1, 24)) {
         dir = !dir;
         ADD(S_turns, 1);
      }
      if (dir ? !cn : !cp) {
         if (vf_chance(&R, 1, 3))
            break;
         dir = !dir;
         ADD(S_turns, 1);
      }
      from               = cur;
      platform_status rc = dir ? iterator_next(it) : iterator_prev(it);
      VF_CHECK(SUCCESS(rc), "step failed");
      ADD(S_itsteps, 1);
   }
   btree_iterator_deinit(&bit);
   ADD(S_scans, 1);
   if (!quiet)
      ADD(S_concscans, 1);
   free(snap);
}
/* ---- threads on the dynamic tree ---- */
static tree         *DT;
static volatile int  writers_left;
static uint32_t      OPS;
static int           order;
static void *
writer(void *x)
{
   uint32_t t = (uintptr_t)x;
   R          = (vf_rng){vf_mix(SEED * 131 + t)};
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   SCR = aligned_alloc(64, sizeof(btree_scratch));
   uint64_t pos = vf_below(&R, U);
   for (uint32_t i = 0; i < OPS; i++) {
      uint64_t id;
      switch (order) {
         case 0: id = vf_below(&R, U); break;
         case 1: id = (uint64_t)i * U / OPS; break;
         case 2: id = U - 1 - (uint64_t)i * U / OPS; break;
         case 3: /* clusters */
            if (vf_chance(&R, 1, 30))
               pos = vf_below(&R, U);
            id = (pos + vf_below(&R, 8)) % U;
            break;
         default: id = vf_chance(&R, 1, 2) ? i % U : U - 1 - i % U; break;
      }
      if (!is_shared(id))
         id = id - id % NT + t;
      if (id >= U || (NT > 1 && !is_shared(id) && id % NT != t))
         continue;
      insert(DT, t, id);
      if (vf_chance(&R, 1, 8))
         lookup(DT, vf_below(&R, U), "lookup between insertions");
   }
   __sync_fetch_and_sub(&writers_left, 1);
   free(SCR);
   task_deregister_this_thread(C.ts);
   return NULL;
}
static void *
reader(void *x)
{
   R = (vf_rng){vf_mix(SEED * 733 + (uintptr_t)x)};
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   while (writers_left) {
      if (vf_chance(&R, 1, 3))
         scan(DT, false, "concurrent");
      else
         for (int i = 0; i < 40; i++)
            lookup(DT, vf_below(&R, U), "concurrent lookup");
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}
static void
tree_make(tree *T)
{
   memset(T, 0, sizeof(*T));
   T->type = PAGE_TYPE_MEMTABLE;
   T->root = btree_create(C_CC(&C), &BC, &T->mini, PAGE_TYPE_MEMTABLE);
   T->k    = calloc(U, sizeof(khist));
   for (uint32_t i = 0; i < U; i++) {
      T->k[i].cap = is_shared(i) ? 300 : 64;
      T->k[i].o   = malloc(T->k[i].cap * sizeof(op));
   }
}
static void
tree_drop(tree *T)
{
   if (T->type == PAGE_TYPE_MEMTABLE) {
      mini_release(&T->mini, NULL_KEY);
      bool32 f = btree_dec_ref(C_CC(&C), &BC, T->root, PAGE_TYPE_MEMTABLE);
      VF_CHECK(f, "the tree is not freed with its last reference");
   } else if (T->root) {
      bool32 f = btree_dec_ref_range(C_CC(&C), &BC, T->root, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY);
      VF_CHECK(f, "the packed tree is not freed with its last reference");
   }
   for (uint32_t i = 0; i < U; i++)
      free(T->k[i].o);
   free(T->k);
}
/* shared keys: the order of the updates is the order of the generations */
static void
check_gens(tree *T)
{
   for (uint32_t id = 0; id < U; id++) {
      khist *h = &T->k[id];
      if (!is_shared(id) || !h->done)
         continue;
      VF_CHECK(h->uniques == 1, "shared key %u is reported new %u times", id, h->uniques);
      uint8_t           kb[600];
      uint32_t          n = mk_key(id, kb);
      merge_accumulator a;
      merge_accumulator_init(&a, C.hid);
      btree_lookup(C_CC(&C), &BC, T->root, T->type, key_create(n, kb), &a);
      VF_CHECK(btree_found(&a), "shared key %u is not found", id);
      uint8_t *p   = merge_accumulator_data(&a);
      uint64_t len = merge_accumulator_length(&a), off = 0, last = 0, cnt = 0;
      op      *sorted = malloc(h->done * sizeof(op));
      while (off < len) {
         uint32_t o;
         uint16_t l;
         memcpy(&o, p + off, 4);
         memcpy(&l, p + off + 4, 2);
         uint32_t j;
         for (j = 0; j < h->done && h->o[j].id != o; j++)
            ;
         VF_CHECK(j < h->done, "shared key %u: unknown update", id);
         VF_CHECK(cnt == 0 || h->o[j].gen > last, "shared key %u: update %lu has generation %lu, the one before %lu", id, cnt, h->o[j].gen, last);
         last          = h->o[j].gen;
         sorted[cnt++] = h->o[j];
         off += 6 + l;
      }
      VF_CHECK(cnt == h->done, "shared key %u: %lu updates instead of %u", id, cnt, h->done);
      /* from now on the history is in order */
      memcpy(h->o, sorted, cnt * sizeof(op));
      free(sorted);
      merge_accumulator_deinit(&a);
   }
}
static void
full_check(tree *T, const char *how)
{
   for (uint32_t i = 0; i < U; i++)
      lookup(T, i, how);
   for (int i = 0; i < 8; i++)
      scan(T, true, how);
}
/* ---- packing ---- */
static uint32_t
fp_hash(const void *in, size_t n, uint32_t seed)
{
   return vf_hash_bytes(in, n, seed);
}
/* newer on top of older */
static void
stack(khist *lo, khist *hi)
{
   lo->o    = realloc(lo->o, (lo->done + hi->done + 1) * sizeof(op));
   if (hi->done)
      memcpy(lo->o + lo->done, hi->o, hi->done * sizeof(op));
   lo->done += hi->done;
   lo->started = lo->done;
}
typedef struct alook {
   btree_async_ctxt  ctxt;
   cache_async_ctxt  cctxt;
   merge_accumulator acc;
   volatile int      fired;
   int               waits;
   bool              active;
   uint64_t          id;
   uint32_t          kn;
   uint8_t           kb[600];
} alook;
static void
async_cb(btree_async_ctxt *x)
{
   __sync_fetch_and_add(&((alook *)((char *)x - offsetof(alook, ctxt)))->fired, 1);
}
static void
async_many(tree *T, uint32_t total)
{
   alook   *A  = calloc(8, sizeof(*A));
   uint32_t na = 1 + vf_below(&R, 8), issued = 0, done = 0;
   while (done < total) {
      for (uint32_t k = 0; k < na; k++) {
         alook *x = &A[k];
         if (!x->active) {
            if (issued == total)
               continue;
            issued++;
            x->active = true, x->fired = 0, x->waits = 0;
            x->id = vf_below(&R, U);
            x->kn = mk_key(x->id, x->kb);
            merge_accumulator_init(&x->acc, C.hid);
            btree_ctxt_init(&x->ctxt, &x->cctxt, async_cb);
         }
         if (x->fired < x->waits)
            continue;
         VF_CHECK(x->fired == x->waits, "%d notifications for %d suspensions", x->fired, x->waits);
         x->waits++;
         cache_async_result r = btree_lookup_async(C_CC(&C), &BC, T->root, key_create(x->kn, x->kb), &x->acc, &x->ctxt);
         if (r == async_io_started) {
            ADD(S_susp, 1);
            continue;
         }
         x->waits--;
         VF_CHECK(x->fired == x->waits, "%d notifications for %d suspensions", x->fired, x->waits);
         if (r == async_success) {
            bool f = btree_found(&x->acc);
            judge(T, x->id, T->k[x->id].done, f, f ? merge_accumulator_to_message(&x->acc) : NULL_MESSAGE, "asynchronous lookup");
            merge_accumulator_deinit(&x->acc);
            x->active = false;
            done++;
            ADD(S_async, 1);
         }
      }
      cache_cleanup(C_CC(&C));
   }
   free(A);
}
static void
check_packed(tree *T, uint64_t n, bool reread)
{
   /* counts over random ranges are exact */
   uint64_t *cn = calloc(U + 1, 8), *ck = calloc(U + 1, 8), *cm = calloc(U + 1, 8);
   for (uint32_t i = 0; i < U; i++) {
      cn[i + 1] = cn[i], ck[i + 1] = ck[i], cm[i + 1] = cm[i];
      if (T->k[i].done) {
         uint8_t      kb[600], b[8192];
         uint32_t     ml;
         message_type c;
         state(&T->k[i], T->k[i].done, &c, b, &ml);
         cn[i + 1]++;
         ck[i + 1] += mk_key(i, kb);
         cm[i + 1] += ml;
      }
   }
   VF_CHECK(cn[U] == n, "internal: model %lu, packed %lu", cn[U], n);
   for (int q = 0; q < 12; q++) {
      uint32_t          a = q == 0 ? 0 : vf_below(&R, U), b = q == 0 ? U : a + vf_below(&R, U - a + 1);
      uint8_t           ka[600], kb[600];
      uint32_t          na = mk_key(a, ka), nb = b < U ? mk_key(b, kb) : 0;
      key               lo = a == 0 && q == 0 ? NEGATIVE_INFINITY_KEY : key_create(na, ka);
      key               hi = b == U ? POSITIVE_INFINITY_KEY : key_create(nb, kb);
      btree_pivot_stats s  = {0};
      btree_count_in_range(C_CC(&C), &BC, T->root, lo, hi, &s);
      VF_CHECK(s.num_kvs == cn[b] - cn[a] && s.key_bytes == ck[b] - ck[a] && s.message_bytes == cm[b] - cm[a],
               "count of [%u,%u): %u tuples, %u key bytes, %u message bytes; should be %lu, %lu, %lu", a, b, s.num_kvs,
               s.key_bytes, s.message_bytes, cn[b] - cn[a], ck[b] - ck[a], cm[b] - cm[a]);
      ADD(S_counts, 1);
      if (vf_chance(&R, 1, 3)) {
         btree_count_in_range_by_iterator(C_CC(&C), &BC, T->root, lo, hi, &s);
         VF_CHECK(s.num_kvs == cn[b] - cn[a] && s.key_bytes == ck[b] - ck[a] && s.message_bytes == cm[b] - cm[a],
                  "count by iterator of [%u,%u): %u tuples, %u key bytes, %u message bytes; should be %lu, %lu, %lu", a,
                  b, s.num_kvs, s.key_bytes, s.message_bytes, cn[b] - cn[a], ck[b] - ck[a], cm[b] - cm[a]);
      }
   }
   VF_CHECK(btree_verify_tree(C_CC(&C), &BC, T->root, PAGE_TYPE_BRANCH), "btree_verify_tree rejects a packed tree");
   free(cn), free(ck), free(cm);
}
static void
pack(tree **src, uint32_t ns, tree *out, int mode)
{
   /* model */
   memset(out, 0, sizeof(*out));
   out->type = PAGE_TYPE_BRANCH;
   out->k    = calloc(U, sizeof(khist));
   int64_t a = 0, b = U;
   bool    ai = true, bi = true;
   if (vf_chance(&R, 1, 3)) {
      a  = vf_below(&R, U);
      b  = a + vf_below(&R, U - a + 1);
      ai = bi = false;
      if (b == U)
         bi = true;
   }
   if (vf_chance(&R, 1, 12))
      b = a;
   uint8_t  ka[600], kb[600];
   uint32_t na = mk_key(a, ka), nb = b < U ? mk_key(b, kb) : 0;
   if (b < U)
      bi = false;
   key      lo = ai ? NEGATIVE_INFINITY_KEY : key_create(na, ka), hi = bi ? POSITIVE_INFINITY_KEY : key_create(nb, kb);
   uint64_t n = 0, kbytes = 0, mbytes = 0;
   uint32_t *fp = malloc((U + 1) * 4);
   for (int64_t id = a; id < b; id++) {
      khist *h = &out->k[id];
      for (uint32_t s = 0; s < ns; s++)
         stack(h, &src[s]->k[id]);
      if (!h->done)
         continue;
      uint8_t      m[8192], k[600];
      uint32_t     ml;
      message_type c;
      state(h, h->done, &c, m, &ml);
      if (mode == 2) {
         if (c == MESSAGE_TYPE_DELETE) {
            h->done = h->started = 0;
            continue;
         }
         if (c == MESSAGE_TYPE_UPDATE) {
            /* as if on top of a delete */
            h->o = realloc(h->o, (h->done + 1) * sizeof(op));
            memmove(h->o + 1, h->o, h->done * sizeof(op));
            h->o[0] = (op){.c = MESSAGE_TYPE_DELETE};
            h->started = ++h->done;
         }
      }
      state(h, h->done, &c, m, &ml);
      uint32_t kl = mk_key(id, k);
      fp[n++]     = fp_hash(k, kl, 42);
      kbytes += kl;
      mbytes += ml;
   }
   btree_iterator *bit = calloc(ns, sizeof(*bit));
   iterator      **arr = calloc(ns, sizeof(*arr));
   for (uint32_t s = 0; s < ns; s++) {
      btree_iterator_init(C_CC(&C), &BC, &bit[s], src[s]->root, src[s]->type, lo, hi, lo, greater_than_or_equal,
                          src[s]->type == PAGE_TYPE_BRANCH && vf_chance(&R, 3, 4), 0);
      arr[s] = &bit[s].super;
   }
   merge_iterator *mi = NULL;
   iterator       *it = arr[0];
   if (ns > 1 || mode != 0) {
      platform_status rc = merge_iterator_create(C.hid, &DC, ns, arr, mode == 2 ? MERGE_FULL : MERGE_INTERMEDIATE, &mi);
      VF_CHECK(SUCCESS(rc), "merge failed");
      it = (iterator *)mi;
   }
   btree_pack_req  req;
   uint64_t        max = n && vf_chance(&R, 1, 8) ? vf_below(&R, n) : n + (vf_chance(&R, 1, 2) ? 0 : vf_below(&R, 50));
   bool            hash = vf_chance(&R, 3, 4);
   uint64_t        inuse = allocator_in_use(C_AL(&C));
   platform_status rc = btree_pack_req_init(&req, C_CC(&C), &BC, it, max, hash ? fp_hash : NULL, 42, C.hid);
   VF_CHECK(SUCCESS(rc), "pack_req_init");
   rc = btree_pack(&req);
   if (max < n) {
      VF_CHECK(STATUS_IS_EQ(rc, STATUS_LIMIT_EXCEEDED), "packing %lu tuples with a limit of %lu: %s", n, max, platform_status_to_string(rc));
      ADD(S_limit, 1);
      for (int64_t id = 0; id < U; id++)
         out->k[id].done = out->k[id].started = 0;
      out->root = 0;
      VF_CHECK(allocator_in_use(C_AL(&C)) == inuse, "a refused pack leaves %ld extents", allocator_in_use(C_AL(&C)) - inuse);
   } else {
      VF_CHECK(SUCCESS(rc), "packing failed: %s", platform_status_to_string(rc));
      VF_CHECK(req.num_tuples == n && req.key_bytes == kbytes && req.message_bytes == mbytes,
               "packing reports %lu tuples, %lu key bytes, %lu message bytes; should be %lu, %lu, %lu", req.num_tuples,
               req.key_bytes, req.message_bytes, n, kbytes, mbytes);
      VF_CHECK((n == 0) == (req.root_addr == 0), "packing %lu tuples gives root %lu", n, req.root_addr);
      if (hash && n)
         for (uint64_t i = 0; i < n; i++)
            VF_CHECK(req.fingerprint_arr[i] == fp[i], "fingerprint %lu of %lu is wrong", i, n);
      if (n == 0) {
         VF_CHECK(allocator_in_use(C_AL(&C)) == inuse, "packing nothing leaves %ld extents", allocator_in_use(C_AL(&C)) - inuse);
         ADD(S_emptypack, 1);
      }
      out->root = req.root_addr;
      out->n    = n;
      ADD(S_packs, 1);
      ADD(S_packed, n);
      if (ns > 1)
         ADD(S_multi, 1);
   }
   btree_pack_req_deinit(&req, C.hid);
   if (mi)
      merge_iterator_destroy(C.hid, &mi);
   for (uint32_t s = 0; s < ns; s++)
      btree_iterator_deinit(&bit[s]);
   free(bit), free(arr), free(fp);
   if (out->root) {
      check_packed(out, n, false);
      if (vf_chance(&R, 2, 3)) {
         cache_flush(C_CC(&C));
#if !SPLINTER_DEBUG /* its own check of the result looks at the wrong page */
         cache_evict(C_CC(&C), TRUE);
#endif
         async_many(out, 100 + vf_below(&R, 300));
      }
      full_check(out, "packed");
   }
}
int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng r        = {vf_mix(SEED)};
   NT              = 1 + vf_below(&r, vf_chance(&r, 1, 3) ? 1 : MAXT);
   NREAD           = vf_below(&r, 4);
   kind            = vf_below(&r, 4);
   KPAD            = vf_chance(&r, 1, 3) ? 508 : 1 + vf_below(&r, 120);
   REV             = vf_chance(&r, 1, 4);
   MAXMSGLEN       = 35 * PSZ / 100;
   MAXPAD          = vf_chance(&r, 1, 3) ? 20 : vf_below(&r, vf_chance(&r, 1, 2) ? 1000 : 200);
   order           = vf_arg_u64(argc, argv, "order", vf_below(&r, 5));
   U               = vf_arg_u64(argc, argv, "keys", vf_chance(&r, 1, 4) ? 20 + vf_below(&r, 100) : 300 + vf_below(&r, 2500));
   uint32_t ntree  = 1 + vf_below(&r, 3);
   MAXMSGLEN /= ntree; /* merges across trees must fit, too */
   if (MAXPAD > MAXMSGLEN - 6)
      MAXPAD = MAXMSGLEN - 6;
   OPS             = vf_arg_u64(argc, argv, "ops", (vf_chance(&r, 1, 3) ? 2 * U : 6000) / NT / ntree + 10);
   comp_quiet();
   DC = (data_config){.max_key_size       = 512,
                      .key_compare        = cb_cmp,
                      .key_hash           = platform_hash32,
                      .merge_tuples       = cb_merge,
                      .merge_tuples_final = cb_final,
                      .key_to_string      = cb_str,
                      .message_to_string  = cb_mstr};
   vf_dev_cfg d = {vf_chance(&r, 1, 4) ? VF_DEV_PASS : VF_DEV_EMU, vf_below(&r, 40), true, SEED};
   vf_dev_config(&d);
   if (NT > 1)
      vf_perturb_config(SEED, 300 + vf_below(&r, 2000), 20000);
   uint64_t cachesz = (32 + vf_below(&r, 32)) << 20;
   comp_open(&C, dir, DISK, cachesz, 64, 0, 0, 0, 0, false, false);
   VF_ENV(truncate(C.file, DISK) == 0, "truncate");
   btree_config_init(&BC, &C.cc_cfg.super, &DC);
   uint64_t base = allocator_in_use(C_AL(&C));
   R             = (vf_rng){vf_mix(SEED + 5)};
   tree      T[3], P[3];
   pthread_t th[MAXT + 4];
   for (uint32_t q = 0; q < ntree; q++) {
      DT = &T[q];
      tree_make(DT);
      if (q)
         order = vf_below(&r, 5);
      writers_left = NT;
      for (uint32_t i = 0; i < NT + NREAD; i++)
         pthread_create(&th[i], NULL, i < NT ? writer : reader, (void *)(uintptr_t)i);
      for (uint32_t i = 0; i < NT + NREAD; i++)
         pthread_join(th[i], NULL);
      check_gens(DT);
      uint64_t cnt = 0;
      for (uint32_t i = 0; i < U; i++)
         cnt += DT->k[i].done > 0;
      VF_CHECK(cnt == DT->n, "%lu keys inserted, %lu reported new", cnt, DT->n);
      ADD(S_tuples, cnt);
      full_check(DT, "dynamic");
      VF_CHECK(btree_verify_tree(C_CC(&C), &BC, DT->root, PAGE_TYPE_MEMTABLE), "btree_verify_tree rejects a dynamic tree");
      tree *s = DT;
      pack(&s, 1, &P[q], vf_below(&R, 2));
   }
   if (ntree > 1) {
      tree *src[6];
      uint32_t ns = 0;
      for (uint32_t q = 0; q < ntree; q++)
         src[ns++] = P[q].root && vf_chance(&R, 1, 2) ? &P[q] : &T[q];
      tree M, M2;
      pack(src, ns, &M, 1 + vf_below(&R, 2));
      if (M.root) {
         tree *s2[1] = {&M};
         pack(s2, 1, &M2, 2);
         tree_drop(&M2);
      }
      tree_drop(&M);
   }
   for (uint32_t q = 0; q < ntree; q++) {
      tree_drop(&P[q]);
      tree_drop(&T[q]);
   }
   VF_CHECK(allocator_in_use(C_AL(&C)) == base, "%lu extents in use after all trees were dropped, %lu before",
               allocator_in_use(C_AL(&C)), base);
   comp_close(&C, false);
   vf_stat("insertions", S_ins);
   vf_stat("new_keys", S_unique);
   vf_stat("merged_in_place", S_merged);
   vf_stat("updates_of_shared_keys", S_shared);
   vf_stat("lookups", S_look);
   vf_stat("iterator_steps", S_itsteps);
   vf_stat("changes_of_direction", S_turns);
   vf_stat("walks", S_scans);
   vf_stat("walks_during_insertions", S_concscans);
   vf_stat("trees_packed", S_packs);
   vf_stat("trees_packed_from_merges", S_multi);
   vf_stat("tuples_packed", S_packed);
   vf_stat("packs_of_nothing", S_emptypack);
   vf_stat("packs_over_the_limit", S_limit);
   vf_stat("range_counts", S_counts);
   vf_stat("asynchronous_lookups", S_async);
   vf_stat("suspensions", S_susp);
   vf_distinct("shapes", vf_mix(NT * 1000 + kind * 100 + order * 10 + REV));
   vf_finish();
   return 0;
}
