/* Shared by the harnesses that drive the public SplinterDB API: key universes,
 * self-describing values, a composable merge operator, a reference model and
 * randomly drawn configurations. */
#ifndef VF_DBCOMMON_H
#define VF_DBCOMMON_H
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "rt.h"
#include "splinterdb/splinterdb.h"
#include "splinterdb/default_data_config.h"
#include "splinterdb/public_platform.h"

/* exported by the library for tests/observability */
extern void splinterdb_cache_flush(const splinterdb *kvs);

#define MAXKEYLEN 128
#define MAXVAL 1433

/* ------------------------------------------------------------ universe --- */
typedef struct ukey {
   uint16_t len;
   uint8_t  b[MAXKEYLEN];
} ukey;
typedef struct universe {
   uint32_t n;
   ukey    *k; /* ascending in the comparator's order */
   int      reversed;
   uint32_t max_key;
   int      kind;
} universe;

static int g_reversed;
static int
ukey_cmp_bytes(const void *a, size_t al, const void *b, size_t bl)
{
   size_t m = al < bl ? al : bl;
   int    c = m ? memcmp(a, b, m) : 0;
   if (c == 0)
      c = al < bl ? -1 : (al > bl ? 1 : 0);
   return c < 0 ? -1 : (c > 0 ? 1 : 0);
}
static int
ukey_cmp(const void *pa, const void *pb)
{
   const ukey *a = pa, *b = pb;
   int         c = ukey_cmp_bytes(a->b, a->len, b->b, b->len);
   return g_reversed ? -c : c;
}
static void
universe_make(universe *u, vf_rng *r, uint32_t n, int kind, uint32_t max_key,
              int reversed)
{
   memset(u, 0, sizeof *u);
   u->k        = calloc(n + 16, sizeof(ukey));
   u->kind     = kind;
   u->max_key  = max_key;
   u->reversed = reversed;
   g_reversed  = reversed;
   uint8_t prefix[MAXKEYLEN];
   for (int i = 0; i < MAXKEYLEN; i++)
      prefix[i] = 'a' + vf_below(r, 3);
   uint32_t plen = max_key > 24 ? vf_below(r, max_key - 20) : 0;
   uint32_t m    = 0;
   for (uint32_t round = 0; m < n && round < 8; round++) {
      for (uint32_t i = 0; m < n && i < n; i++) {
         ukey *k = &u->k[m];
         switch (kind) {
            case 0: { /* fixed width big-endian counter */
               k->len     = max_key < 8 ? max_key : 8;
               uint64_t v = ((uint64_t)round * n + i) * 7 + 1;
               for (int j = 0; j < k->len; j++)
                  k->b[j] = v >> (8 * (k->len - 1 - j));
               break;
            }
            case 1: /* random length, random bytes */
               k->len = 1 + vf_below(r, max_key);
               if (vf_chance(r, 1, 4))
                  k->len = max_key;
               for (int j = 0; j < k->len; j++)
                  k->b[j] = vf_rand(r);
               break;
            case 2: { /* long shared prefix, keys that are prefixes of others */
               uint32_t s = 1 + vf_below(r, max_key - plen);
               k->len     = plen + s;
               memcpy(k->b, prefix, plen);
               for (uint32_t j = 0; j < s; j++)
                  k->b[plen + j] = vf_chance(r, 1, 3) ? 0 : (vf_rand(r) & 7);
               break;
            }
            case 3: /* extreme bytes */
               k->len = 1 + vf_below(r, max_key);
               for (int j = 0; j < k->len; j++) {
                  static const uint8_t ext[] = {0, 0xff, 0x7f, 0x80, 1, 0xfe};
                  k->b[j] = vf_chance(r, 1, 2) ? ext[vf_below(r, 6)] : vf_rand(r);
               }
               break;
            default: /* clustered: few groups, dense inside */
            {
               k->len     = max_key < 12 ? max_key : 12;
               uint64_t g = vf_below(r, 5);
               memset(k->b, 0, k->len);
               k->b[0]    = g * 50;
               uint64_t v = (uint64_t)round * n + i;
               for (int j = 0; j < 4 && j + 1 < k->len; j++)
                  k->b[k->len - 1 - j] = v >> (8 * j);
            }
         }
         m++;
      }
      qsort(u->k, m, sizeof(ukey), ukey_cmp);
      uint32_t o = 0;
      for (uint32_t i = 0; i < m; i++)
         if (o == 0 || ukey_cmp(&u->k[o - 1], &u->k[i]) != 0) {
            if (o != i)
               u->k[o] = u->k[i];
            o++;
         }
      m = o;
      if (kind == 0 || kind > 3)
         break;
   }
   u->n = m;
}
static inline slice
ukey_slice(const ukey *k)
{
   return slice_create(k->len, k->b);
}
/* index of first universe key >= (len,b), in comparator order */
static uint32_t
universe_lower(const universe *u, const void *b, size_t len)
{
   uint32_t lo = 0, hi = u->n;
   while (lo < hi) {
      uint32_t mid = (lo + hi) / 2;
      int      c   = ukey_cmp_bytes(u->k[mid].b, u->k[mid].len, b, len);
      if (u->reversed)
         c = -c;
      if (c < 0)
         lo = mid + 1;
      else
         hi = mid;
   }
   return lo;
}

/* -------------------------------------------------------------- values --- */
/* A value is the composition, in order, of the elements of the operations that
 * produced it: an affine hash over a free monoid, so a lost, duplicated or
 * reordered update changes every byte of the value. */
#define VF_P 0x9E3779B97F4A7C15ULL
typedef struct mval {
   uint64_t cnt;
   uint64_t h;
} mval;
static int      g_merge;   /* data config has merge callbacks */
static uint32_t g_maxpad;  /* values are up to this long (plus header) */
static uint32_t g_salt;

static inline uint64_t
vf_pow(uint64_t b, uint64_t e)
{
   uint64_t r = 1;
   while (e) {
      if (e & 1)
         r *= b;
      b *= b;
      e >>= 1;
   }
   return r;
}
static inline mval
mval_elem(uint64_t keyid, uint64_t opid)
{
   mval v = {1, vf_mix(keyid * 0x10001 + 77) ^ vf_mix(opid)};
   return v;
}
static inline mval
mval_cat(mval old, mval new)
{
   mval v = {old.cnt + new.cnt, old.h * vf_pow(VF_P, new.cnt) + new.h};
   return v;
}
static inline uint32_t
mval_len(mval v)
{
   uint64_t x = vf_mix(v.h ^ v.cnt ^ g_salt);
   if (g_merge)
      return 16 + (g_maxpad ? x % (g_maxpad + 1) : 0);
   /* plain mode: occasionally empty or tiny or maximal */
   uint32_t c = (x >> 40) & 63;
   if (c == 0)
      return 0;
   if (c == 1)
      return 1 + (x & 7);
   if (c == 2)
      return g_maxpad + 16;
   return 16 + (g_maxpad ? x % (g_maxpad + 1) : 0);
}
static inline void
fill_bytes(uint8_t *p, uint32_t n, uint64_t s)
{
   uint32_t i = 0;
   while (i < n) {
      s          = s * 6364136223846793005ULL + 1442695040888963407ULL;
      uint64_t w = s ^ (s >> 29);
      uint32_t m = n - i < 8 ? n - i : 8;
      memcpy(p + i, &w, m);
      i += m;
   }
}
static inline uint32_t
mval_encode(mval v, uint8_t *buf)
{
   uint32_t len = mval_len(v);
   if (len >= 16) {
      memcpy(buf, &v.cnt, 8);
      memcpy(buf + 8, &v.h, 8);
      fill_bytes(buf + 16, len - 16, v.h ^ 0xabcdef);
   } else
      fill_bytes(buf, len, v.h ^ 0xabcdef);
   return len;
}
static inline bool
mval_decode(const void *d, size_t len, mval *out)
{
   if (len < 16)
      return false;
   memcpy(&out->cnt, d, 8);
   memcpy(&out->h, (const char *)d + 8, 8);
   return true;
}
/* are these bytes a well-formed encoding of some value, and which? */
static inline bool
mval_valid_bytes(const void *d, size_t len, mval *out)
{
   uint8_t  buf[4096];
   if (!mval_decode(d, len, out))
      return false;
   if (mval_len(*out) != len)
      return false;
   mval_encode(*out, buf);
   return memcmp(buf, d, len) == 0;
}
static inline bool
mval_equal_bytes(mval v, const void *d, size_t len)
{
   uint8_t buf[4096];
   if (len != mval_len(v))
      return false;
   mval_encode(v, buf);
   return len == 0 || memcmp(buf, d, len) == 0;
}

/* ------------------------------------------------------- data_config ----- */
static volatile uint64_t g_cb_merge, g_cb_final, g_cb_bad;

/* all keys ever handed to the database live in this universe */
static universe *g_cb_universe;
static uint32_t
uni_find(const universe *u, slice k)
{
   uint32_t i = universe_lower(u, slice_data(k), slice_length(k));
   if (i < u->n && u->k[i].len == slice_length(k)
       && !memcmp(u->k[i].b, slice_data(k), u->k[i].len))
      return i;
   return UINT32_MAX;
}

static int
cb_compare(const data_config *cfg, slice a, slice b)
{
   (void)cfg;
   if (slice_data(a) == NULL || slice_data(b) == NULL)
      vf_violation("key_compare callback given a null key");
   int c = ukey_cmp_bytes(slice_data(a), slice_length(a), slice_data(b),
                          slice_length(b));
   return g_reversed ? -c : c;
}
static int
cb_merge(const data_config *cfg, slice key, message old, merge_accumulator *new)
{
   (void)cfg;
   __sync_fetch_and_add(&g_cb_merge, 1);
   mval o, n;
   if (merge_accumulator_message_class(new) != MESSAGE_TYPE_UPDATE)
      vf_violation("merge callback called with a newer message that is not an "
                   "update (class %d)",
                   merge_accumulator_message_class(new));
   if (message_class(old) != MESSAGE_TYPE_INSERT
       && message_class(old) != MESSAGE_TYPE_UPDATE)
      vf_violation("merge callback called with an older message of class %d",
                   message_class(old));
   if (g_cb_universe && uni_find(g_cb_universe, key) == UINT32_MAX)
      vf_violation("merge callback called with a key (length %lu) that was "
                   "never written",
                   slice_length(key));
   if (!mval_valid_bytes(message_data(old), message_length(old), &o))
      vf_violation("merge callback got a corrupt older message (length %lu)",
                   message_length(old));
   if (!mval_valid_bytes(merge_accumulator_data(new),
                         merge_accumulator_length(new), &n))
      vf_violation("merge callback got a corrupt newer message (length %lu)",
                   merge_accumulator_length(new));
   mval    v = mval_cat(o, n);
   uint8_t buf[4096];
   uint32_t len = mval_encode(v, buf);
   if (!merge_accumulator_resize(new, len))
      return -1;
   memcpy(merge_accumulator_data(new), buf, len);
   merge_accumulator_set_class(new, message_class(old));
   return 0;
}
static int
cb_final(const data_config *cfg, slice key, merge_accumulator *new)
{
   (void)cfg;
   (void)key;
   __sync_fetch_and_add(&g_cb_final, 1);
   if (merge_accumulator_message_class(new) != MESSAGE_TYPE_UPDATE)
      vf_violation("final-merge callback called with a message of class %d",
                   merge_accumulator_message_class(new));
   mval n;
   if (!mval_valid_bytes(merge_accumulator_data(new),
                         merge_accumulator_length(new), &n))
      vf_violation("final-merge callback got a corrupt message");
   merge_accumulator_set_class(new, MESSAGE_TYPE_INSERT);
   return 0;
}

/* ------------------------------------------------------------- config ---- */
typedef struct dbcfg {
   splinterdb_config cfg;
   data_config       dc;
   char              path[512];
   universe          u;
   int               merge;
} dbcfg;

static void
dbcfg_describe(const dbcfg *c, char *out, size_t n)
{
   snprintf(out, n,
            "keys=%u kind=%d maxkey=%u rev=%d merge=%d maxval=%u mt=%luK "
            "fanout=%lu maxbr=%lu cache=%luM bg=%lu/%lu qsp=%lu log=%d shm=%d "
            "filt=%lu/%lu reclaim=%lx",
            c->u.n, c->u.kind, c->u.max_key, c->u.reversed, c->merge,
            g_maxpad + 16, c->cfg.memtable_capacity >> 10, c->cfg.fanout,
            c->cfg.max_branches_per_node, c->cfg.cache_size >> 20,
            c->cfg.num_memtable_bg_threads, c->cfg.num_normal_bg_threads,
            c->cfg.queue_scale_percent, c->cfg.use_log, c->cfg.use_shmem,
            c->cfg.filter_remainder_size, c->cfg.filter_index_size,
            c->cfg.reclaim_threshold);
}
enum {
   CF_NOBG   = 1, /* no background threads: deterministic */
   CF_BG     = 2, /* force background threads */
   CF_MERGE  = 4,
   CF_NOMERGE = 8,
   CF_SMALL  = 16,
   CF_NOSHM  = 32,
   CF_SHORTKEY = 64, /* keys of at most 64 bytes */
};
static void
dbcfg_random(dbcfg *c, vf_rng *r, const char *dir, const char *name,
             uint32_t nkeys, int flags)
{
   memset(c, 0, sizeof *c);
   snprintf(c->path, sizeof c->path, "%s/%s", dir, name);
   static const uint32_t mks[] = {8, 16, 24, 40, 64, 100};
   uint32_t              mk    = mks[vf_below(r, (flags & CF_SHORTKEY) ? 5 : 6)];
   int                   kind  = vf_below(r, 5);
   int                   rev   = vf_chance(r, 1, 5);
   if (kind == 2 && mk < 16)
      mk = 24;
   if (mk < 4)
      kind = 0;
   universe_make(&c->u, r, nkeys, kind, mk, rev);
   c->merge = (flags & CF_MERGE)     ? 1
              : (flags & CF_NOMERGE) ? 0
                                     : vf_chance(r, 1, 2);
   g_merge = c->merge;
   static const uint32_t pads[] = {0, 20, 80, 300, 600, 1400};
   g_maxpad = pads[vf_below(r, 6)];
   g_salt   = vf_rand(r);
   default_data_config_init(mk, &c->dc);
   if (rev || c->merge)
      c->dc.key_compare = cb_compare;
   if (c->merge) {
      c->dc.merge_tuples       = cb_merge;
      c->dc.merge_tuples_final = cb_final;
   }
   splinterdb_config *f = &c->cfg;
   f->filename          = c->path;
   f->data_cfg          = &c->dc;
   static const uint64_t caches[] = {4, 6, 8, 16, 32, 64};
   f->cache_size = caches[vf_below(r, 6)] << 20;
   f->disk_size  = 2048ull << 20;
   static const uint64_t mts[] = {1024, 1152, 1536, 2048, 4096};
   f->memtable_capacity = mts[vf_below(r, (flags & CF_SMALL) ? 3 : 5)] << 10;
   /* memtables stay in the cache until compacted */
   if (f->cache_size < 8 * f->memtable_capacity)
      f->cache_size = 8 * f->memtable_capacity;
   static const uint64_t fos[] = {4, 5, 6, 8, 8, 10};
   f->fanout                   = fos[vf_below(r, 6)];
   static const uint64_t mbs[] = {6, 8, 12, 16, 24};
   f->max_branches_per_node    = mbs[vf_below(r, 5)];
   /* trunk nodes hold fanout pivots and must fit a page */
   if (mk > 64 && f->fanout > 8)
      f->fanout = 8;
   f->queue_scale_percent      = vf_chance(r, 1, 3) ? 100 : 0;
   if (flags & CF_BG || (!(flags & CF_NOBG) && vf_chance(r, 1, 2))) {
      f->num_memtable_bg_threads = 1 + vf_below(r, 2);
      f->num_normal_bg_threads   = 1 + vf_below(r, 4);
   }
   if (!(flags & CF_NOSHM) && vf_chance(r, 1, 6)) {
      f->use_shmem  = true;
      f->shmem_size = 2048ull << 20;
   }
   f->use_log = vf_chance(r, 1, 8);
   if (vf_chance(r, 1, 4))
      f->filter_remainder_size = 4 + vf_below(r, 5);
   if (vf_chance(r, 1, 4))
      f->filter_index_size = 256 << vf_below(r, 2);
   f->use_stats = vf_chance(r, 1, 4);
   g_cb_universe = &c->u;
   (void)flags;
}

/* ------------------------------------------------------------- model ----- */
typedef struct model {
   uint32_t n;
   uint8_t *present;
   mval    *v;
} model;
static void
model_init(model *m, uint32_t n)
{
   m->n       = n;
   m->present = calloc(n, 1);
   m->v       = calloc(n, sizeof(mval));
}
static void
model_copy(model *d, const model *s)
{
   d->n = s->n;
   memcpy(d->present, s->present, s->n);
   memcpy(d->v, s->v, s->n * sizeof(mval));
}
static uint64_t
model_count(const model *m)
{
   uint64_t c = 0;
   for (uint32_t i = 0; i < m->n; i++)
      c += m->present[i];
   return c;
}
enum { OP_INSERT, OP_UPDATE, OP_DELETE };
static inline void
model_apply(model *m, uint32_t id, int op, uint64_t opid)
{
   mval e = mval_elem(id, opid);
   switch (op) {
      case OP_INSERT:
         m->present[id] = 1;
         m->v[id]       = e;
         break;
      case OP_UPDATE:
         m->v[id]       = m->present[id] ? mval_cat(m->v[id], e) : e;
         m->present[id] = 1;
         break;
      case OP_DELETE:
         m->present[id] = 0;
         break;
   }
}
static int
db_apply(splinterdb *db, const universe *u, uint32_t id, int op, uint64_t opid)
{
   uint8_t buf[4096];
   mval    e   = mval_elem(id, opid);
   slice   k   = ukey_slice(&u->k[id]);
   int     rc;
   if (op == OP_DELETE)
      rc = splinterdb_delete(db, k);
   else {
      uint32_t len = mval_encode(e, buf);
      slice    v   = slice_create(len, buf);
      rc = op == OP_INSERT ? splinterdb_insert(db, k, v)
                           : splinterdb_update(db, k, v);
   }
   return rc;
}
static void
hexkey(const ukey *k, char *out)
{
   for (int i = 0; i < k->len && i < 40; i++)
      sprintf(out + 2 * i, "%02x", k->b[i]);
   if (k->len == 0)
      out[0] = 0;
}
static void
check_lookup(splinterdb *db, const universe *u, const model *m, uint32_t id,
             splinterdb_lookup_result *res, const char *where)
{
   char hx[128];
   int  rc = splinterdb_lookup(db, ukey_slice(&u->k[id]), res);
   hexkey(&u->k[id], hx);
   VF_CHECK(rc == 0, "%s: lookup of key #%u (%s) failed with %d", where, id, hx,
            rc);
   bool found = splinterdb_lookup_found(res);
   VF_CHECK(found == (bool)m->present[id],
            "%s: lookup of key #%u (%s) says %s, but the history says %s",
            where, id, hx, found ? "present" : "absent",
            m->present[id] ? "present" : "absent");
   slice val;
   rc = splinterdb_lookup_result_value(res, &val);
   if (!found) {
      VF_CHECK(rc != 0, "%s: value of a not-found result returned rc 0", where);
      return;
   }
   VF_CHECK(rc == 0, "%s: value of a found result returned %d", where, rc);
   if (!mval_equal_bytes(m->v[id], slice_data(val), slice_length(val))) {
      mval got = {0, 0};
      bool ok  = mval_valid_bytes(slice_data(val), slice_length(val), &got);
      vf_violation("%s: lookup of key #%u (%s) returned a wrong value: expected "
                   "cnt=%lu h=%lx len=%u, got len=%lu wellformed=%d cnt=%lu "
                   "h=%lx",
                   where, id, hx, m->v[id].cnt, m->v[id].h, mval_len(m->v[id]),
                   slice_length(val), ok, got.cnt, got.h);
   }
}
/* expected neighbours */
static inline int64_t
model_next(const model *m, int64_t i)
{
   for (i++; i < m->n; i++)
      if (m->present[i])
         return i;
   return m->n;
}
static inline int64_t
model_prev(const model *m, int64_t i)
{
   for (i--; i >= 0; i--)
      if (m->present[i])
         return i;
   return -1;
}
static void
check_iter_at(splinterdb_iterator *it, const universe *u, const model *m,
              int64_t pos, const char *where)
{
   /* pos in [-1, n]: -1 before first, n past last */
   bool valid = splinterdb_iterator_valid(it);
   bool cn = splinterdb_iterator_can_next(it), cp = splinterdb_iterator_can_prev(it);
   VF_CHECK(splinterdb_iterator_status(it) == 0, "%s: iterator status %d", where,
            splinterdb_iterator_status(it));
   bool evalid = pos >= 0 && pos < m->n;
   VF_CHECK(valid == evalid,
            "%s: iterator validity is %d but %d expected at position %ld of %u",
            where, valid, evalid, (long)pos, m->n);
   if (!evalid && model_next(m, -1) == m->n)
      return; /* nothing to step to in an empty database */
   VF_CHECK(cn == (pos < m->n), "%s: can_next is %d at position %ld of %u", where,
            cn, (long)pos, m->n);
   VF_CHECK(cp == (pos >= 0), "%s: can_prev is %d at position %ld of %u", where,
            cp, (long)pos, m->n);
   if (!evalid)
      return;
   slice k, v;
   splinterdb_iterator_get_current(it, &k, &v);
   const ukey *e = &u->k[pos];
   if (slice_length(k) != e->len || memcmp(slice_data(k), e->b, e->len)) {
      uint32_t got = uni_find(u, k);
      vf_violation("%s: iterator is at key #%d, expected key #%ld (present=%d)",
                   where, (int)got, (long)pos,
                   got == UINT32_MAX ? -1 : m->present[got]);
   }
   if (!mval_equal_bytes(m->v[pos], slice_data(v), slice_length(v)))
      vf_violation("%s: iterator returned a wrong value for key #%ld (length "
                   "%lu, expected %u)",
                   where, (long)pos, slice_length(v), mval_len(m->v[pos]));
}
static uint64_t
check_full_scan(splinterdb *db, const universe *u, const model *m,
                const char *where)
{
   splinterdb_iterator *it;
   int                  rc = splinterdb_iterator_init(db, &it, NULL_SLICE);
   VF_CHECK(rc == 0, "%s: iterator init failed %d", where, rc);
   int64_t  pos = model_next(m, -1);
   uint64_t n   = 0;
   for (;;) {
      check_iter_at(it, u, m, pos, where);
      if (pos >= m->n)
         break;
      n++;
      splinterdb_iterator_next(it);
      pos = model_next(m, pos);
   }
   splinterdb_iterator_deinit(it);
   return n;
}
static void
check_all_lookups(splinterdb *db, const universe *u, const model *m,
                  const char *where)
{
   splinterdb_lookup_result res;
   splinterdb_lookup_result_init(db, &res, 0, NULL);
   for (uint32_t i = 0; i < m->n; i++)
      check_lookup(db, u, m, i, &res, where);
   splinterdb_lookup_result_deinit(&res);
}
static int
db_open_or_create(const dbcfg *c, splinterdb **db, bool open)
{
   *db = NULL;
   return open ? splinterdb_open(&c->cfg, db) : splinterdb_create(&c->cfg, db);
}
#endif
