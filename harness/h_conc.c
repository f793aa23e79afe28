/*
 * Concurrent history checker.
 *
 *  --mode owner : every key has one writing thread; every version of the key is
 *                 announced before and acknowledged after the write, so a
 *                 concurrent lookup by any thread has an exact set of allowed
 *                 versions: at least the newest version acknowledged or
 *                 observed by anybody before the lookup began, at most the
 *                 newest one announced before it ended.  For single-writer
 *                 registers this is linearizability.
 *  --mode wgl   : any thread writes any of a few hot keys; values carry the
 *                 complete list of operations since the last reset; each key's
 *                 recorded call/return history is searched for a
 *                 linearization.
 *  --mode iter  : as owner, plus threads that iterate in both directions.
 */
#include "dbcommon.h"

#define MAXT 24
typedef struct vers {
   uint8_t present;
   mval    v;
} vers;
typedef struct okey {
   volatile uint64_t started, acked, observed;
   uint32_t          cap;
   vers             *st; /* [0..started]; st[0] = absent */
} okey;

static dbcfg            C;
static splinterdb      *DB;
static okey            *K;
static uint32_t         NK;
static int              nwriters, nreaders, niters, nfill;
static uint64_t         SEED, OPS, MAXVER;
static int              SLOW;
static volatile uint64_t writers_left;
static volatile uint64_t S_lookup, S_amb, S_window, S_write, S_iter, S_iterkeys,
   S_conflict, S_rereg;
static pthread_barrier_t BAR;
static double            DEADLINE; /* writers stop early on a slow machine */
static double
now(void)
{
   struct timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint32_t          STR; /* tracked key i is universe key i * STR */
#define UK(i) (&C.u.k[(i) * STR])

static uint64_t
load(volatile uint64_t *p)
{
   return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
static void
amax(volatile uint64_t *p, uint64_t v)
{
   uint64_t o = load(p);
   while (o < v && !__atomic_compare_exchange_n(p, &o, v, false, __ATOMIC_SEQ_CST,
                                                __ATOMIC_SEQ_CST))
      ;
}
static void
owner_write(vf_rng *r, uint32_t id, int opmix)
{
   okey    *k = &K[id];
   uint64_t v = k->started + 1;
   if (v >= k->cap)
      return;
   int      op;
   uint64_t y = vf_below(r, 100);
   if (opmix == 0)
      op = y < 90 ? OP_INSERT : OP_DELETE;
   else if (opmix == 1)
      op = y < 20 ? OP_INSERT : y < 85 ? OP_UPDATE : OP_DELETE;
   else if (opmix == 3)
      op = y < 3 ? OP_INSERT : y < 98 ? OP_UPDATE : OP_DELETE;
   else
      op = y < 40 ? OP_INSERT : y < 60 ? OP_UPDATE : OP_DELETE;
   if (op == OP_UPDATE && !C.merge)
      op = OP_INSERT;
   uint64_t opid = (SEED << 40) ^ ((uint64_t)id << 20) ^ v;
   mval     e    = mval_elem(id * STR, opid);
   vers     n    = k->st[v - 1];
   if (op == OP_INSERT) {
      n.present = 1;
      n.v       = e;
   } else if (op == OP_UPDATE) {
      n.v       = n.present ? mval_cat(n.v, e) : e;
      n.present = 1;
   } else
      n.present = 0;
   k->st[v] = n;
   __atomic_store_n(&k->started, v, __ATOMIC_SEQ_CST);
   int rc = db_apply(DB, &C.u, id * STR, op, opid);
   VF_CHECK(rc == 0, "concurrent write failed with %d", rc);
   __atomic_store_n(&k->acked, v, __ATOMIC_SEQ_CST);
   __sync_fetch_and_add(&S_write, 1);
}
/* smallest version in [lo,hi] equal to the observation, or UINT64_MAX */
static uint64_t
match(okey *k, uint64_t lo, uint64_t hi, bool found, const void *d, size_t len)
{
   for (uint64_t v = lo; v <= hi; v++) {
      if (k->st[v].present != found)
         continue;
      if (!found || mval_equal_bytes(k->st[v].v, d, len))
         return v;
   }
   return UINT64_MAX;
}
static void
owner_read(uint32_t id, splinterdb_lookup_result *res)
{
   okey    *k  = &K[id];
   uint64_t lo = load(&k->acked), ob = load(&k->observed);
   if (ob > lo)
      lo = ob;
   int      rc = splinterdb_lookup(DB, ukey_slice(UK(id)), res);
   VF_CHECK(rc == 0, "concurrent lookup failed with %d", rc);
   uint64_t hi    = load(&k->started);
   bool     found = splinterdb_lookup_found(res);
   slice    val   = NULL_SLICE;
   if (found)
      splinterdb_lookup_result_value(res, &val);
   uint64_t v = match(k, lo, hi, found, slice_data(val), slice_length(val));
   if (v == UINT64_MAX) {
      uint64_t any = match(k, 0, hi, found, slice_data(val), slice_length(val));
      vf_violation(
         "lookup of key #%u concurrent with its writer returned %s: newest "
         "acknowledged or observed version before the lookup is %lu, newest "
         "started is %lu, %s (version %ld)",
         id, found ? "a value" : "absent", lo, hi,
         any == UINT64_MAX ? "the result matches no version ever written"
                           : "the result is an older version",
         (long)any);
   }
   amax(&k->observed, v);
   __sync_fetch_and_add(&S_lookup, 1);
   __sync_fetch_and_add(&S_window, hi - lo);
   if (hi > lo)
      __sync_fetch_and_add(&S_conflict, 1);
   if (hi > lo && v > lo)
      vf_distinct("overlap", ((uint64_t)id << 32) ^ (v - lo) << 16 ^ (hi - lo));
}
static void *
writer(void *a)
{
   long   t = (long)a;
   vf_rng r = {vf_mix(SEED * 77 + t)};
   splinterdb_register_thread(DB);
   splinterdb_lookup_result res;
   splinterdb_lookup_result_init(DB, &res, 0, NULL);
   pthread_barrier_wait(&BAR);
   int      mix = SLOW ? 3 : vf_below(&r, 3);
   uint32_t own = (NK + nwriters - 1 - t) / nwriters;
   uint32_t hot = 1 + vf_below(&r, own);
   for (uint64_t i = 0; i < OPS; i++) {
      if (i % 64 == 0 && now() > DEADLINE)
         break;
      if (vf_chance(&r, 1, 500)) {
         mix = SLOW ? 3 : vf_below(&r, 3);
         hot = vf_chance(&r, 1, 2) ? own : 1 + vf_below(&r, own);
      }
      uint32_t id = t + nwriters * vf_below(&r, hot);
      if (id >= NK)
         continue;
      owner_write(&r, id, mix);
      if (vf_chance(&r, 1, 6))
         owner_read(id, &res);
      if (vf_chance(&r, 1, 6))
         owner_read(vf_below(&r, NK), &res);
      if (vf_chance(&r, 1, 20000)) {
         splinterdb_deregister_thread(DB);
         splinterdb_register_thread(DB);
         __sync_fetch_and_add(&S_rereg, 1);
      }
   }
   splinterdb_lookup_result_deinit(&res);
   splinterdb_deregister_thread(DB);
   __sync_fetch_and_sub(&writers_left, 1);
   return NULL;
}
static void *
reader(void *a)
{
   long   t = (long)a;
   vf_rng r = {vf_mix(SEED * 99 + t)};
   splinterdb_register_thread(DB);
   splinterdb_lookup_result res;
   char                     ub[200];
   splinterdb_lookup_result_init(DB, &res, sizeof ub, ub);
   pthread_barrier_wait(&BAR);
   vf_stall_me = 1;
   while (load((void *)&writers_left) & 0xffffffff) {
      uint32_t base = vf_below(&r, NK);
      for (int i = 0; i < 64 && writers_left; i++)
         owner_read(vf_chance(&r, 3, 4) ? (base + vf_below(&r, 8)) % NK
                                        : vf_below(&r, NK),
                    &res);
   }
   splinterdb_lookup_result_deinit(&res);
   splinterdb_deregister_thread(DB);
   return NULL;
}
/* key id must be explained as absent in the window [lo, started] */
static void
must_allow_absent(uint32_t id, uint64_t lo)
{
   uint64_t hi = load(&K[id].started);
   if (match(&K[id], lo, hi, false, NULL, 0) == UINT64_MAX)
      vf_violation("an iterator passed over key #%u although every version in "
                   "its window [%lu,%lu] is present",
                   id, lo, hi);
}
static void *
iterer(void *a)
{
   long     t = (long)a;
   vf_rng   r = {vf_mix(SEED * 131 + t)};
   uint64_t *lo = malloc(NK * 8);
   splinterdb_register_thread(DB);
   pthread_barrier_wait(&BAR);
   while (load((void *)&writers_left) & 0xffffffff) {
      /* open iterators hold back compactions, so leave gaps without any */
      double t0 = now();
      while (t0 - (long)(t0 * 20) / 20.0 > 0.025 && writers_left) {
         usleep(1000);
         t0 = now();
      }
      for (uint32_t i = 0; i < NK; i++) {
         lo[i]       = load(&K[i].acked);
         uint64_t ob = load(&K[i].observed);
         if (ob > lo[i])
            lo[i] = ob;
      }
      splinterdb_iterator *it;
      int64_t              pos; /* all keys < pos are out of scope */
      slice                st = NULL_SLICE;
      int                  back = vf_chance(&r, 1, 3);
      if (vf_chance(&r, 1, 3) && !back) {
         pos = 0;
      } else {
         pos = vf_below(&r, NK);
         st  = ukey_slice(UK(pos));
      }
      int rc = splinterdb_iterator_init(DB, &it, st);
      VF_CHECK(rc == 0, "iterator init failed with %d under concurrency", rc);
      __sync_fetch_and_add(&S_iter, 1);
      uint64_t limit = vf_chance(&r, 1, 3) ? UINT64_MAX : 1 + vf_below(&r, 400);
      uint64_t n     = 0;
      int64_t  last  = pos - 1; /* forward: last index accounted for */
      bool     first = true;
      int64_t  lastuid = -1;
      for (;; n++) {
         bool valid = splinterdb_iterator_valid(it);
         VF_CHECK(splinterdb_iterator_status(it) == 0, "iterator status %d",
                  splinterdb_iterator_status(it));
         if (!valid) {
            if (!back || first) {
               if (!back)
                  for (int64_t i = last + 1; i < NK; i++)
                     must_allow_absent(i, lo[i]);
            } else
               for (int64_t i = (last < NK ? last : NK) - 1; i >= 0; i--)
                  must_allow_absent(i, lo[i]);
            break;
         }
         slice kk, vv;
         splinterdb_iterator_get_current(it, &kk, &vv);
         uint32_t uid = uni_find(&C.u, kk);
         VF_CHECK(uid != UINT32_MAX,
                  "an iterator returned a key that was never written");
         if (lastuid >= 0)
            VF_CHECK(back ? (int64_t)uid < lastuid : (int64_t)uid > lastuid,
                     "iterator keys not strictly %s: #%u after #%ld",
                     back ? "descending" : "ascending", uid, (long)lastuid);
         lastuid = uid;
         if (uid % STR || uid / STR >= NK) { /* a filler key */
            mval fv;
            VF_CHECK(slice_length(vv) < 16
                        || mval_valid_bytes(slice_data(vv), slice_length(vv), &fv),
                     "an iterator returned a torn value");
            if (first && back) {
               /* everything between the start and here is absent */
               for (int64_t i = last + 1; i < NK && i * STR < uid; i++)
                  must_allow_absent(i, lo[i]);
               last  = (uid + STR - 1) / STR;
               first = false;
            }
            if (n >= limit || now() - t0 > 0.2)
               break;
            if (back)
               splinterdb_iterator_prev(it);
            else
               splinterdb_iterator_next(it);
            continue;
         }
         uint32_t id = uid / STR;
         if (!back || first) {
            VF_CHECK((int64_t)id > last,
                     "iterator keys not strictly ascending: #%u after #%ld", id,
                     (long)last);
            for (int64_t i = last + 1; i < id; i++)
               must_allow_absent(i, lo[i]);
         } else {
            VF_CHECK((int64_t)id < last,
                     "iterator keys not strictly descending: #%u after #%ld", id,
                     (long)last);
            for (int64_t i = (last < NK ? last : NK) - 1; i > id; i--)
               must_allow_absent(i, lo[i]);
         }
         uint64_t hi = load(&K[id].started);
         uint64_t v  = match(&K[id], lo[id], hi, true, slice_data(vv),
                             slice_length(vv));
         if (v == UINT64_MAX) {
            uint64_t any =
               match(&K[id], 0, hi, true, slice_data(vv), slice_length(vv));
            vf_violation("an iterator returned a value of key #%u that is %s "
                         "(window [%lu,%lu], matched %ld)",
                         id,
                         any == UINT64_MAX ? "no version ever written"
                                           : "older than a version acknowledged "
                                             "before the iterator started",
                         lo[id], hi, (long)any);
         }
         last  = id;
         first = false;
         __sync_fetch_and_add(&S_iterkeys, 1);
         if (hi > lo[id])
            __sync_fetch_and_add(&S_conflict, 1);
         if (n >= limit || now() - t0 > 0.2)
            break;
         if (back)
            splinterdb_iterator_prev(it);
         else
            splinterdb_iterator_next(it);
      }
      vf_distinct("iter", vf_mix(n) ^ vf_mix(last * 7 + back) ^ vf_mix(lo[NK / 2]));
      splinterdb_iterator_deinit(it);
      usleep(vf_below(&r, 3000) + (useconds_t)((now() - t0) * 1e6));
   }
   free(lo);
   splinterdb_deregister_thread(DB);
   return NULL;
}

/* filler: moves data through the tree; its keys are outside [0,NK) */
static uint32_t FILL0;
static uint32_t
fillkey(vf_rng *r)
{
   for (;;) {
      uint32_t id = vf_below(r, C.u.n);
      if (id % STR || id / STR >= FILL0)
         return id;
   }
}
static volatile uint64_t S_fill;
static void *
filler(void *a)
{
   long   t = (long)a;
   vf_rng r = {vf_mix(SEED * 171 + t)};
   splinterdb_register_thread(DB);
   pthread_barrier_wait(&BAR);
   uint8_t  buf[4096];
   while (load((void *)&writers_left) & 0xffffffff) {
      uint32_t id = fillkey(&r);
      mval     e  = mval_elem(id, vf_rand(&r));
      uint32_t l  = mval_encode(e, buf);
      int      rc = splinterdb_insert(DB, ukey_slice(&C.u.k[id]), slice_create(l, buf));
      VF_CHECK(rc == 0, "filler insert failed with %d", rc);
      __sync_fetch_and_add(&S_fill, 1);
      while (S_fill > 2000 + (SLOW ? 10 : 2) * S_write && writers_left)
         usleep(100);
   }
   splinterdb_deregister_thread(DB);
   return NULL;
}

/* --------------------------------------------------------------- wgl mode */
#define WOPS 60
typedef struct wop {
   uint64_t call, ret;
   int      kind; /* OP_* or 3 = read */
   uint64_t id;   /* unique element id for writes */
   uint64_t hash; /* read: hash of the observed list; 0 = absent */
} wop;
typedef struct whist {
   volatile uint64_t n;
   wop               o[WOPS + 1];
} whist;
static whist            *H;
static volatile uint64_t LCLK;
static volatile uint64_t S_wglkeys, S_wglops, S_wglnodes, S_wglconc;

/* list values: cnt elements of 8 bytes; encoded by the callbacks below */
static uint64_t
list_hash(const void *d, size_t len)
{
   return vf_hash_bytes(d, len, 0x51) | 1;
}
static int
wcb_merge(const data_config *cfg, slice key, message old, merge_accumulator *new)
{
   (void)cfg;
   (void)key;
   uint8_t  tmp[2048];
   uint64_t ol = message_length(old), nl = merge_accumulator_length(new);
   if (ol % 8 || nl % 8 || ol + nl > sizeof tmp)
      vf_violation("merge callback got malformed lists (%lu,%lu)", ol, nl);
   memcpy(tmp, message_data(old), ol);
   memcpy(tmp + ol, merge_accumulator_data(new), nl);
   if (!merge_accumulator_resize(new, ol + nl))
      return -1;
   memcpy(merge_accumulator_data(new), tmp, ol + nl);
   merge_accumulator_set_class(new, message_class(old));
   return 0;
}
static int
wcb_final(const data_config *cfg, slice key, merge_accumulator *new)
{
   (void)cfg;
   (void)key;
   merge_accumulator_set_class(new, MESSAGE_TYPE_INSERT);
   return 0;
}
typedef struct lstate {
   uint32_t n;
   uint64_t e[WOPS + 1];
} lstate;
typedef struct wseen {
   uint64_t *t;
   uint64_t  cap, n;
} wseen;
static bool
seen_add(wseen *s, uint64_t h)
{
   h |= 1;
   uint64_t i = h & (s->cap - 1);
   while (s->t[i] && s->t[i] != h)
      i = (i + 1) & (s->cap - 1);
   if (s->t[i])
      return false;
   s->t[i] = h;
   s->n++;
   return true;
}
#define WLIMIT (1 << 19)
/* 1 = linearizable, 0 = not, -1 = gave up */
static int
wgl(whist *h, uint64_t done, lstate *st, wseen *seen)
{
   uint64_t n = h->n;
   if (done == (n == 64 ? ~0ull : (1ull << n) - 1))
      return 1;
   if (seen->n > WLIMIT)
      return -1;
   if (!seen_add(seen, vf_mix(done) ^ vf_hash_bytes(st->e, st->n * 8, st->n)))
      return 0;
   uint64_t minret = UINT64_MAX;
   for (uint64_t i = 0; i < n; i++)
      if (!(done >> i & 1) && h->o[i].ret < minret)
         minret = h->o[i].ret;
   int gave = 0;
   for (uint64_t i = 0; i < n; i++) {
      if (done >> i & 1 || h->o[i].call > minret)
         continue;
      wop     *o = &h->o[i];
      uint64_t b = done | 1ull << i;
      int      rc;
      if (o->kind == 3) {
         uint64_t cur = st->n ? list_hash(st->e, st->n * 8) : 0;
         if (cur != o->hash)
            continue;
         rc = wgl(h, b, st, seen);
      } else {
         lstate s2;
         if (o->kind == OP_UPDATE) {
            s2        = *st;
            s2.e[s2.n++] = o->id;
         } else if (o->kind == OP_INSERT) {
            s2.n    = 1;
            s2.e[0] = o->id;
         } else
            s2.n = 0;
         rc = wgl(h, b, &s2, seen);
      }
      if (rc == 1)
         return 1;
      if (rc < 0)
         gave = 1;
   }
   return gave ? -1 : 0;
}
static uint32_t          WK; /* hot keys per round */
static volatile uint64_t WSTOP = UINT64_MAX;
static int               WT;
static void *
wworker(void *a)
{
   long   t = (long)a;
   vf_rng r = {vf_mix(SEED * 31 + t)};
   splinterdb_register_thread(DB);
   splinterdb_lookup_result res;
   splinterdb_lookup_result_init(DB, &res, 0, NULL);
   pthread_barrier_wait(&BAR);
   for (uint64_t round = 0; round < OPS; round++) {
      if (round == WSTOP)
         break;
      int style = vf_below(&r, 4);
      for (int i = 0; i < (int)(WK * WOPS / WT); i++) {
         uint32_t k    = vf_below(&r, WK);
         whist   *h    = &H[round * WK + k];
         uint64_t slot = __sync_fetch_and_add(&h->n, 1);
         if (slot >= WOPS) {
            __sync_fetch_and_sub(&h->n, 1);
            continue;
         }
         wop     *o  = &h->o[slot];
         uint32_t id = (round * WK + k) % FILL0;
         uint64_t x  = vf_below(&r, 10);
         o->kind = x < 4 ? 3
                   : style == 0 ? (x < 9 ? OP_UPDATE : OP_INSERT)
                   : style == 1 ? (x < 7 ? OP_INSERT : OP_DELETE)
                   : (x < 6 ? OP_UPDATE : x < 8 ? OP_INSERT : OP_DELETE);
         o->id = (round << 32) | (k << 16) | (slot << 8) | t | 1ull << 60;
         slice ks = ukey_slice(UK(id));
         int   rc;
         o->call = __sync_add_and_fetch(&LCLK, 1);
         if (o->kind == 3) {
            rc = splinterdb_lookup(DB, ks, &res);
         } else if (o->kind == OP_DELETE)
            rc = splinterdb_delete(DB, ks);
         else if (o->kind == OP_INSERT)
            rc = splinterdb_insert(DB, ks, slice_create(8, &o->id));
         else
            rc = splinterdb_update(DB, ks, slice_create(8, &o->id));
         o->ret = __sync_add_and_fetch(&LCLK, 1);
         VF_CHECK(rc == 0, "concurrent operation %d failed with %d", o->kind, rc);
         if (o->kind == 3) {
            if (splinterdb_lookup_found(&res)) {
               slice v;
               splinterdb_lookup_result_value(&res, &v);
               o->hash = list_hash(slice_data(v), slice_length(v));
            } else
               o->hash = 0;
         }
      }
      if (pthread_barrier_wait(&BAR) == PTHREAD_BARRIER_SERIAL_THREAD
          && now() > DEADLINE)
         WSTOP = round + 1;
      pthread_barrier_wait(&BAR);
   }
   splinterdb_lookup_result_deinit(&res);
   splinterdb_deregister_thread(DB);
   __sync_fetch_and_sub(&writers_left, 1);
   return NULL;
}

int
main(int argc, char **argv)
{
   SEED              = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir   = vf_arg_str(argc, argv, "dir", "/tmp");
   const char *mode  = vf_arg_str(argc, argv, "mode", "owner");
   OPS               = vf_arg_u64(argc, argv, "ops", 0);
   int         M_w   = !strcmp(mode, "wgl"), M_i = !strcmp(mode, "iter");
   int         bg    = vf_arg_u64(argc, argv, "bg", 2);
   SLOW              = vf_arg_u64(argc, argv, "slow", 0);
   if (OPS == 0)
      OPS = M_w ? 250 : 6000;
   vf_rng      r     = {vf_mix(SEED * 1000 + 23)};
   static const uint32_t nk[] = {8, 40, 200, 1000, 3000};
   NK                = nk[vf_below(&r, M_i ? 5 : 4)];
   if (M_i && NK < 200)
      NK = 200;
   uint32_t fillspan = 300 + vf_below(&r, 6000);
   uint32_t wkeys    = M_w ? 4000 : NK;
   dbcfg_random(&C, &r, dir, "conc.db", wkeys + fillspan,
                (bg == 2 ? 0 : bg ? CF_BG : CF_NOBG) | CF_SMALL
                   | CF_SHORTKEY
                   | (M_w || SLOW ? CF_MERGE : 0));
   if (C.u.n < 50)
      vf_harness_error("universe too small");
   /* interleave tracked and filler keys in key order: sort order is fixed by
    * the universe, so tracked keys are the first ones of a random renaming */
   if (wkeys + fillspan > C.u.n) {
      wkeys = C.u.n / 2;
      if (!M_w)
         NK = NK < wkeys ? NK : wkeys;
   }
   FILL0 = M_w ? wkeys : NK;
   STR   = C.u.n / FILL0;
   if (STR < 1)
      STR = 1;
   if (vf_chance(&r, 1, 4))
      STR = 1;
   if (g_maxpad < 300 && (SLOW || vf_chance(&r, 2, 3)))
      g_maxpad = 300 + vf_below(&r, 900);
   if (M_w) {
      C.dc.merge_tuples       = wcb_merge;
      C.dc.merge_tuples_final = wcb_final;
   }
   /* several threads pin memtables and pages at the same time */
   if (C.cfg.cache_size < 32 * C.cfg.memtable_capacity)
      C.cfg.cache_size = 32 * C.cfg.memtable_capacity;
   /* let writers help with compactions rather than outrun them (finding F1) */
   C.cfg.queue_scale_percent = 0;
   char desc[512];
   dbcfg_describe(&C, desc, sizeof desc);
   fprintf(stderr, "config %s\n", desc);
   static const uint32_t per[] = {0, 400, 1000, 4000, 20000};
   uint32_t              p     = per[vf_below(&r, 5)];
   uint32_t              dl    = vf_chance(&r, 1, 2) ? 4000 : 30000;
   vf_perturb_config(SEED, p, dl);
   if (SLOW) {
      /* readers stall for as long as flushes and compactions take */
      vf_perturb_config(SEED, 0, 0);
      vf_stall_config(SEED, 8 + vf_mix(SEED) % 60, 60000, 1000000000);
      vf_stall_only_marked();
   } else if (vf_mix(SEED + 5) % 3 == 0)
      vf_stall_config(SEED, 1 + vf_mix(SEED) % 40, 12000, 1000000);
   int        devmon = vf_arg_u64(argc, argv, "devmon", 0);
   vf_dev_cfg dv = {.mode = vf_chance(&r, 1, 2) || devmon ? VF_DEV_EMU : VF_DEV_PASS,
                    .max_delay_us = vf_chance(&r, 1, 3) ? 300 : 20,
                    .monitor      = devmon,
                    .seed         = SEED};
   vf_dev_config(&dv);
   int rc = db_open_or_create(&C, &DB, false);
   VF_CHECK(rc == 0, "create failed with %d: %s", rc, desc);
   pthread_t th[64];
   int       n = 0;
   DEADLINE    = now() + vf_arg_u64(argc, argv, "secs", 6);
   if (M_w) {
      WT           = 2 + vf_below(&r, 5);
      nfill        = vf_below(&r, 3);
      static const uint32_t wk[] = {1, 2, 5, 12};
      WK           = wk[vf_below(&r, 4)];
      uint64_t maxr = FILL0 / WK;
      if (OPS > maxr)
         OPS = maxr;
      H            = calloc(OPS * WK + 1, sizeof(whist));
      writers_left = WT;
      /* fillers join the start barrier through their own gate */
      pthread_barrier_init(&BAR, NULL, WT);
      vf_sample("seed=%lu mode=wgl threads=%d hotkeys=%u rounds=%lu perturb=%u/%u "
                "%s", SEED, WT, WK, OPS, p, dl, desc);
      splinterdb_deregister_thread(DB);
      pthread_t wt[32];
      for (long i = 0; i < WT; i++)
         pthread_create(&wt[i], NULL, wworker, (void *)i);
      /* churn from the main thread */
      splinterdb_register_thread(DB);
      vf_rng fr = {SEED};
      uint8_t buf[4096];
      while (writers_left) {
         uint32_t id = fillkey(&fr);
         uint32_t l  = (8 + vf_below(&fr, 1200)) & ~7u;
         memset(buf, id, l);
         rc = splinterdb_insert(DB, ukey_slice(&C.u.k[id]), slice_create(l, buf));
         VF_CHECK(rc == 0, "filler insert failed with %d", rc);
         S_fill++;
         while (S_fill > 2000 + LCLK / 4 && writers_left)
            usleep(100);
      }
      for (int i = 0; i < WT; i++)
         pthread_join(wt[i], NULL);
      /* final state of each key must agree with a linearization: append a
       * last read to every history */
      splinterdb_lookup_result res;
      splinterdb_lookup_result_init(DB, &res, 0, NULL);
      uint64_t inconclusive = 0;
      wseen    seen = {calloc(1 << 21, 8), 1 << 21, 0};
      if (OPS > WSTOP)
         OPS = WSTOP;
      for (uint64_t i = 0; i < OPS * WK; i++) {
         whist *h = &H[i];
         wop    o = {.kind = 3};
         o.call   = ++LCLK;
         rc       = splinterdb_lookup(DB, ukey_slice(UK(i % FILL0)), &res);
         VF_CHECK(rc == 0, "lookup failed with %d", rc);
         if (splinterdb_lookup_found(&res)) {
            slice v;
            splinterdb_lookup_result_value(&res, &v);
            o.hash = list_hash(slice_data(v), slice_length(v));
         }
         o.ret       = ++LCLK;
         h->o[h->n++] = o;
         if (seen.n)
            memset(seen.t, 0, seen.cap * 8);
         seen.n = 0;
         lstate st = {0};
         int    ok = wgl(h, 0, &st, &seen);
         S_wglkeys++;
         S_wglops += h->n;
         S_wglnodes += seen.n;
         uint64_t conc = 0;
         for (uint64_t x = 0; x < h->n; x++)
            for (uint64_t y = 0; y < x; y++)
               if (h->o[x].call < h->o[y].ret && h->o[y].call < h->o[x].ret)
                  conc++;
         S_wglconc += conc;
         vf_distinct("history", conc * 1000003 ^ vf_hash_bytes(h->o, sizeof(wop) * h->n, 1));
         if (ok < 0)
            inconclusive++;
         if (ok == 0) {
            fprintf(stderr, "history of key %lu:\n", i);
            for (uint64_t x = 0; x < h->n; x++)
               fprintf(stderr, " [%lu,%lu] %s %lx %lx\n", h->o[x].call,
                       h->o[x].ret,
                       h->o[x].kind == 3 ? "read" : h->o[x].kind == OP_INSERT ? "insert"
                       : h->o[x].kind == OP_UPDATE ? "update" : "delete",
                       h->o[x].id, h->o[x].hash);
            vf_violation("the history of hot key %lu (%lu operations by %d "
                         "threads) has no linearization",
                         i, h->n, WT);
         }
      }
      splinterdb_lookup_result_deinit(&res);
      vf_stat("histories_checked", S_wglkeys);
      vf_stat("history_ops", S_wglops);
      vf_stat("checker_states", S_wglnodes);
      vf_stat("concurrent_pairs", S_wglconc);
      vf_stat("histories_inconclusive", inconclusive);
      splinterdb_close(&DB);
      unlink(C.path);
      vf_stat("filler_inserts", S_fill);
      vf_finish();
   }
   nwriters = 1 + vf_below(&r, 4);
   if ((uint32_t)nwriters > NK)
      nwriters = NK;
   nreaders = vf_below(&r, 4);
   niters   = M_i ? 1 + vf_below(&r, 3) : 0;
   nfill    = vf_below(&r, 3);
   if (!M_i && nreaders == 0 && nwriters == 1)
      nreaders = 2;
   if (M_i)
      nreaders = vf_below(&r, 2);
   if (SLOW) {
      nwriters = 1 + vf_below(&r, 2);
      nreaders = 3;
      nfill    = 2;
   }
   writers_left = nwriters;
   K            = calloc(NK, sizeof(okey));
   MAXVER       = OPS * nwriters * 8 / NK + 64;
   if (MAXVER > OPS + 2)
      MAXVER = OPS + 2;
   for (uint32_t i = 0; i < NK; i++) {
      K[i].cap = MAXVER;
      K[i].st  = calloc(MAXVER, sizeof(vers));
   }
   vf_sample("seed=%lu mode=%s tracked=%u writers=%d readers=%d iterators=%d "
             "fillers=%d perturb=%u/%u %s", SEED, mode, NK, nwriters, nreaders,
             niters, nfill, p, dl, desc);
   pthread_barrier_init(&BAR, NULL, nwriters + nreaders + niters + nfill);
   for (long i = 0; i < nwriters; i++)
      pthread_create(&th[n++], NULL, writer, (void *)i);
   for (long i = 0; i < nreaders; i++)
      pthread_create(&th[n++], NULL, reader, (void *)i);
   for (long i = 0; i < niters; i++)
      pthread_create(&th[n++], NULL, iterer, (void *)i);
   for (long i = 0; i < nfill; i++)
      pthread_create(&th[n++], NULL, filler, (void *)i);
   for (int i = 0; i < n; i++)
      pthread_join(th[i], NULL);
   /* quiescent contents must be exactly the last versions */
   for (int pass = 0; pass < 2; pass++) {
      splinterdb_lookup_result res;
      splinterdb_lookup_result_init(DB, &res, 0, NULL);
      for (uint32_t i = 0; i < NK; i++) {
         okey *k = &K[i];
         VF_CHECK(k->acked == k->started, "bookkeeping");
         rc = splinterdb_lookup(DB, ukey_slice(UK(i)), &res);
         VF_CHECK(rc == 0, "final lookup failed with %d", rc);
         bool  f = splinterdb_lookup_found(&res);
         slice v = NULL_SLICE;
         if (f)
            splinterdb_lookup_result_value(&res, &v);
         if (match(k, k->acked, k->acked, f, slice_data(v), slice_length(v))
             == UINT64_MAX)
            vf_violation("after all threads finished%s key #%u does not have its "
                         "last acknowledged version %lu (lookup says %s)",
                         pass ? " and a reopen" : "", i, k->acked,
                         f ? "present" : "absent");
      }
      splinterdb_lookup_result_deinit(&res);
      if (pass == 0) {
         splinterdb_close(&DB);
         rc = db_open_or_create(&C, &DB, true);
         VF_CHECK(rc == 0, "reopen failed with %d", rc);
      }
   }
   splinterdb_close(&DB);
   unlink(C.path);
   vf_stat("concurrent_lookups", S_lookup);
   vf_stat("lookups_racing_a_write", S_conflict);
   vf_stat("acked_writes", S_write);
   vf_stat("filler_inserts", S_fill);
   vf_stat("concurrent_iterators", S_iter);
   vf_stat("iterator_keys_checked", S_iterkeys);
   vf_stat("thread_reregistrations", S_rereg);
   vf_statmax("device_inflight", vf_dev_inflight_max);
   vf_stat("device_async_requests", vf_dev_submits);
   vf_finish();
   return 0;
}
