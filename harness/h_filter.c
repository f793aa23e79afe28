/*
 * Filter monitor (C14).  Threads build chains of filters, each from the one
 * before plus a set of keys under a number; everyone looks keys up, with and
 * without waiting, while the cache is too small for all filters.  The monitor
 * knows which keys are in which filter under which numbers.
 */
#include "comp.h"
#include "routing_filter.h"
#include "splinterdb/default_data_config.h"
#include <math.h>
static comp           C;
static uint64_t       SEED;
#define DISK (12000 * ESZ)
static data_config    DC;
static routing_config RC;
static uint32_t       NT, MAXKEY, MAXLEN, NF_MAX, mode_dup, rounds;
#define MAXT 8
#define MAXF 33
typedef struct chain {
   pthread_rwlock_t lock;
   uint64_t         salt;
   uint32_t         n;       /* filters; f[0] is empty */
   uint32_t         U;       /* keys are 0..U-1, U.. are never added */
   uint32_t        *mask;    /* [U]: index of first filter with key under value v is at first[v] */
   uint8_t         *first;   /* unused when mask per filter is kept */
   uint32_t       **fm;      /* fm[i][id]: bit v set if filter i has id under v */
   uint32_t         vals[MAXF];
   uint32_t         uniq[MAXF];
   routing_filter   f[MAXF];
} chain;
static chain              CH[MAXT];
static pthread_barrier_t  B;
static __thread vf_rng    R;
static uint64_t S_pos, S_neg, S_fp, S_adds, S_async, S_susp, S_retry, S_est, S_estm, S_fps, S_zaps, S_shared, S_grow, S_thrash;

static uint32_t
mk_key(uint64_t salt, uint64_t id, uint8_t *b)
{
   vf_rng   r = {vf_mix(salt ^ vf_mix(id))};
   uint32_t n = MAXLEN <= 8 ? MAXLEN : 8 + vf_below(&r, MAXLEN - 7);
   memcpy(b, &id, n < 8 ? n : 8);
   for (uint32_t i = 8; i < n; i++)
      b[i] = vf_rand(&r);
   return n;
}
static void
judge(chain *c, uint32_t i, uint64_t id, uint64_t found, const char *how)
{
   if (id < c->U) {
      uint64_t want = c->fm[i][id];
      VF_CHECK((found & want) == want,
               "%s: key %lu is in filter %u under numbers %lx, lookup says %lx (value bits %u, %u fingerprints)",
               how, id, i, want, found, c->f[i].value_size, c->f[i].num_fingerprints);
      for (uint32_t v = 0; v < 32; v++)
         if (want & (1u << v))
            VF_CHECK(routing_filter_is_value_found(found, v), "%s: number %u is in %lx but not reported", how, v, found);
   }
   VF_CHECK((found & ~(uint64_t)c->vals[i]) == 0, "%s: filter %u reports numbers %lx, only %x were added", how, i,
            found, c->vals[i]);
   /* the walk over the numbers, newest first */
   uint16_t v = ROUTING_NOT_FOUND;
   uint64_t rest = found;
   while ((v = routing_filter_get_next_value(found, v)) != ROUTING_NOT_FOUND) {
      VF_CHECK(rest && v == 63 - __builtin_clzll(rest), "%s: numbers %lx are not walked newest first", how, found);
      rest &= ~(1ull << v);
   }
   VF_CHECK(rest == 0, "%s: the walk over %lx leaves out %lx", how, found, rest);
}
static uint64_t
look(chain *c, uint32_t i, uint64_t id)
{
   uint8_t  kb[512];
   uint32_t n = mk_key(c->salt, id, kb);
   uint64_t found = 0xdeadbeef;
   platform_status rc = routing_filter_lookup(C_CC(&C), &RC, &c->f[i], key_create(n, kb), &found);
   VF_CHECK(SUCCESS(rc), "lookup failed");
   if (c->f[i].addr == 0)
      VF_CHECK(found == 0, "empty filter reports %lx", found);
   judge(c, i, id, found, "lookup");
   return found;
}
typedef struct alook {
   routing_async_ctxt ctxt;
   cache_async_ctxt   cctxt;
   volatile int       fired;
   int                waits;
   bool               active, waiting;
   uint64_t           id;
   uint32_t           fi, kn;
   uint8_t            kb[512];
} alook;
static void
async_cb(routing_async_ctxt *x)
{
   alook *a = (alook *)((char *)x - offsetof(alook, ctxt));
   __sync_fetch_and_add(&a->fired, 1);
}
static void
async_many(chain *c, uint32_t total)
{
   alook   *A  = calloc(8, sizeof(*A));
   uint32_t na = 1 + vf_below(&R, 8), issued = 0, done = 0;
   while (done < total) {
      for (uint32_t k = 0; k < na; k++) {
         alook *a = &A[k];
         if (!a->active) {
            if (issued == total)
               continue;
            issued++;
            a->active = true, a->waiting = false, a->fired = 0, a->waits = 0;
            do
               a->fi = vf_below(&R, c->n);
            while (c->f[a->fi].addr == 0);
            a->id = vf_below(&R, c->U + c->U / 2 + 2);
            a->kn = mk_key(c->salt, a->id, a->kb);
            routing_filter_ctxt_init(&a->ctxt, &a->cctxt, async_cb);
         }
         if (a->waiting) {
            if (a->fired < a->waits)
               continue;
            VF_CHECK(a->fired == a->waits, "%d notifications for %d suspensions", a->fired, a->waits);
            a->waiting = false;
         }
         uint64_t found = 0xdeadbeef;
         /* may complete before it returns */
         a->waits++;
         cache_async_result r =
            routing_filter_lookup_async(C_CC(&C), &RC, &c->f[a->fi], key_create(a->kn, a->kb), &found, &a->ctxt);
         if (r == async_io_started) {
            a->waiting = true;
            __sync_fetch_and_add(&S_susp, 1);
         } else {
            a->waits--;
            VF_CHECK(a->fired == a->waits, "%d notifications for %d suspensions", a->fired, a->waits);
            if (r == async_success) {
               judge(c, a->fi, a->id, found, "asynchronous lookup");
               __sync_fetch_and_add(&S_async, 1);
               a->active = false;
               done++;
            } else
               __sync_fetch_and_add(&S_retry, 1);
         }
      }
      cache_cleanup(C_CC(&C));
   }
   free(A);
}
static int
build(chain *c)
{
   /* one more filter on top of the newest */
   uint32_t i = c->n - 1;
   uint32_t lastv = i ? 31 - __builtin_clz(c->vals[i]) : 0;
   uint32_t v = i == 0 ? vf_below(&R, 3) : lastv + (vf_chance(&R, 1, 8) ? 0 : 1 + (vf_chance(&R, 1, 8) ? vf_below(&R, 4) : 0));
   if (v >= 32 || c->n >= MAXF - 1)
      return 0;
   uint32_t maxn = 1 + vf_below(&R, c->U), n = 0;
   if (vf_chance(&R, 1, 4))
      maxn = 1 + vf_below(&R, 20);
   uint32_t *ids = malloc(4 * (maxn + 1)), *m = malloc(4 * c->U);
   memcpy(m, c->fm[i], 4 * c->U);
   if (mode_dup && vf_chance(&R, 1, 2)) {
      /* the same keys again */
      uint32_t a = vf_below(&R, c->U);
      for (uint32_t k = 0; k < maxn && a + k < c->U; k++)
         ids[n++] = a + k;
   } else if (vf_chance(&R, 1, 2)) {
      for (uint32_t k = 0; k < c->U && n < maxn; k++)
         if (vf_below(&R, c->U - k) < maxn - n)
            ids[n++] = k;
   } else {
      /* with repetitions: a set may hold a key once only, fingerprints may collide */
      uint32_t a = vf_below(&R, c->U), step = 1 + vf_below(&R, 3);
      for (uint32_t k = a; k < c->U && n < maxn; k += step)
         ids[n++] = k;
   }
   if (!n)
      ids[n++] = 0;
   uint32_t *fp = malloc(4 * n);
   for (uint32_t k = 0; k < n; k++) {
      uint8_t  kb[512];
      uint32_t l = mk_key(c->salt, ids[k], kb);
      fp[k]      = RC.hash(kb, l, RC.seed);
      m[ids[k]] |= 1u << v;
   }
   routing_filter f;
   memset(&f, 0xa5, sizeof(f));
   platform_status rc = routing_filter_add(C_CC(&C), &RC, &c->f[i], &f, fp, n, v);
   VF_CHECK(SUCCESS(rc), "routing_filter_add");
   if (getenv("VF_DBG")) fprintf(stderr, "add i %u v %u n %u -> %u fps %u unique\n", i, v, n, f.num_fingerprints, f.num_unique);
   VF_CHECK(f.num_fingerprints == n + c->f[i].num_fingerprints, "%u fingerprints, %u were there and %u added",
            f.num_fingerprints, c->f[i].num_fingerprints, n);
   free(fp);
   free(ids);
   uint32_t u = 0;
   for (uint32_t k = 0; k < c->U; k++)
      u += m[k] != 0;
   if (i && (31 - __builtin_clz(f.num_fingerprints)) > (31 - __builtin_clz(c->f[i].num_fingerprints)))
      __sync_fetch_and_add(&S_grow, 1);
   pthread_rwlock_wrlock(&c->lock);
   c->fm[c->n]   = m;
   c->f[c->n]    = f;
   c->vals[c->n] = c->vals[i] | 1u << v;
   c->uniq[c->n] = u;
   c->n++;
   pthread_rwlock_unlock(&c->lock);
   uint32_t est = routing_filter_estimate_unique_keys(&f, &RC);
   double   tol = 0.05 * u + 6 * sqrt(u) + 20;
   VF_CHECK(fabs((double)est - u) <= tol, "estimate of %u unique keys for %u (fingerprint size %u, %u fingerprints, %u unique)",
            est, u, RC.fingerprint_size, f.num_fingerprints, f.num_unique);
   __sync_fetch_and_add(&S_adds, 1);
   __sync_fetch_and_add(&S_est, 1);
   __sync_fetch_and_add(&S_fps, n);
   vf_distinct("filters", vf_mix(f.num_fingerprints * 64 + v) ^ f.num_unique);
   return 1;
}
static void
verify(chain *c, uint32_t i)
{
   uint32_t step = c->U > 4000 ? 1 + vf_below(&R, c->U / 2000) : 1;
   uint64_t pos = 0;
   for (uint32_t id = vf_below(&R, step); id < c->U; id += step) {
      look(c, i, id);
      pos += c->fm[i][id] != 0;
   }
   uint32_t M = 1500, hits = 0;
   for (uint32_t k = 0; k < M; k++)
      hits += look(c, i, c->U + (vf_rand(&R) >> 8)) != 0;
   double p = ldexp(c->uniq[i], -(int)RC.fingerprint_size), e = M * p;
   VF_CHECK(hits <= e + 7 * sqrt(e) + 8, "%u false positives in %u lookups, %.2f expected (%u keys, fingerprint size %u)",
            hits, M, e, c->uniq[i], RC.fingerprint_size);
   __sync_fetch_and_add(&S_pos, pos);
   __sync_fetch_and_add(&S_neg, M);
   __sync_fetch_and_add(&S_fp, hits);
}
static void
estimate_across(chain *c)
{
   /* the newest filter of this chain and of a second chain over the same keys would
    * share keys; here: filters of one chain, so the newest holds them all */
   uint32_t n = c->n - 1;
   if (n < 1 || c->f[1].num_fingerprints < 16 * RC.index_size)
      return;
   uint32_t k = 1 + vf_below(&R, n < 8 ? n : 8);
   if (k > n) k = n;
   uint32_t s = routing_filter_estimate_unique_fp(C_CC(&C), &RC, C.hid, &c->f[n - k + 1], k);
   uint32_t est = routing_filter_estimate_unique_keys_from_count(&RC, s);
   double   u = c->uniq[n];
   VF_CHECK(fabs(est - u) <= 0.1 * u + 4 * 8 * sqrt(u) + 50, "estimate of %u unique keys over %u filters with %.0f", est, k, u);
   __sync_fetch_and_add(&S_estm, 1);
}
static uint32_t NBAL;
static uint64_t ballast[256];
static void
thrash(void)
{
   /* push other pages out of the cache */
   for (uint32_t e = 0; e < NBAL; e++)
      for (int p = 0; p < PPE; p++) {
         page_handle *h = cache_get(C_CC(&C), ballast[e] + p * PSZ, TRUE, PAGE_TYPE_MISC);
         VF_CHECK(*(uint64_t *)h->data == ballast[e] + p * PSZ, "page %lu holds %lx", ballast[e] + p * PSZ,
                  *(uint64_t *)h->data);
         cache_unget(C_CC(&C), h);
      }
   __sync_fetch_and_add(&S_thrash, 1);
}
static void
drop(chain *c, uint32_t i)
{
   routing_filter_zap(C_CC(&C), &c->f[i]);
   free(c->fm[i]);
   c->fm[i] = NULL;
   __sync_fetch_and_add(&S_zaps, 1);
}
static void *
worker(void *arg)
{
   int me = (int)(intptr_t)arg;
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   R.s = vf_mix(SEED * 77 + me);
   chain *c = &CH[me];
   for (uint32_t round = 0; round < rounds; round++) {
      pthread_rwlock_wrlock(&c->lock);
      c->salt  = vf_rand(&R);
      c->U     = 1 + (vf_chance(&R, 1, 4) ? vf_below(&R, 60) : vf_below(&R, vf_chance(&R, 1, 3) ? MAXKEY : MAXKEY / 10 + 2));
      if (MAXLEN == 4 && c->U > 60000) c->U = 60000;
      c->n     = 1;
      memset(c->f, 0, sizeof(c->f));
      c->fm[0] = calloc(4, c->U);
      pthread_rwlock_unlock(&c->lock);
      uint32_t nf = 1 + vf_below(&R, NF_MAX);
      for (uint32_t k = 0; k < nf && build(c); k++) {
         if (vf_chance(&R, 2, 3))
            verify(c, c->n - 1);
         if (vf_chance(&R, 1, 3))
            verify(c, vf_below(&R, c->n - 1) + 1);
         if (vf_chance(&R, 1, 2))
            async_many(c, 100 + vf_below(&R, 300));
         if (vf_chance(&R, 1, 2))
            thrash();
         if (vf_chance(&R, 1, 3))
            async_many(c, 50 + vf_below(&R, 100));
         if (NT > 1 && vf_chance(&R, 1, 2)) {
            chain *o = &CH[vf_below(&R, NT)];
            pthread_rwlock_rdlock(&o->lock);
            if (o->n > 1) {
               for (int q = 0; q < 400; q++)
                  look(o, vf_below(&R, o->n), vf_below(&R, o->U * 2));
               if (vf_chance(&R, 1, 2))
                  async_many(o, 100);
               __sync_fetch_and_add(&S_shared, 1);
            }
            pthread_rwlock_unlock(&o->lock);
         }
      }
      if (!mode_dup)
         estimate_across(c);
      verify(c, c->n - 1);
      /* dropping one filter leaves the others as they are */
      pthread_rwlock_wrlock(&c->lock);
      uint32_t keep = 1 + vf_below(&R, c->n - 1);
      for (uint32_t i = 1; i < c->n; i++)
         if (i != keep)
            drop(c, i);
      verify(c, keep);
      drop(c, keep);
      free(c->fm[0]);
      c->n = 0;
      pthread_rwlock_unlock(&c->lock);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}
int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng r        = {vf_mix(SEED)};
   NT              = 1 + vf_below(&r, vf_chance(&r, 1, 2) ? 2 : MAXT);
   rounds          = vf_arg_u64(argc, argv, "rounds", NT == 1 ? 4 : 2);
   MAXKEY          = vf_arg_u64(argc, argv, "keys", vf_chance(&r, 1, 6) ? 60000 : 8000);
   MAXLEN          = vf_chance(&r, 1, 4) ? 8 : 8 + vf_below(&r, vf_chance(&r, 1, 3) ? 400 : 32);
   NF_MAX          = vf_chance(&r, 1, 3) ? 31 : 1 + vf_below(&r, 12);
   mode_dup        = vf_arg_u64(argc, argv, "dup", vf_chance(&r, 1, 3));
   comp_quiet();
   default_data_config_init(128, &DC);
   vf_dev_cfg d = {vf_chance(&r, 1, 4) ? VF_DEV_PASS : VF_DEV_EMU, vf_below(&r, 60), true, SEED};
   vf_dev_config(&d);
   if (NT > 1)
      vf_perturb_config(SEED, 300 + vf_below(&r, 2000), 20000);
   uint64_t cachesz = (5 + 2 * NT + vf_below(&r, 4)) << 20;
   NBAL             = (cachesz >> 17) + 4;
   comp_open(&C, dir, DISK, cachesz, 64, 0, 0, 0, 0, false, false);
   VF_ENV(truncate(C.file, DISK) == 0, "truncate");
   memset(&RC, 0, sizeof(RC));
   RC.cache_cfg      = &C.cc_cfg.super;
   RC.data_cfg       = &DC;
   RC.index_size     = vf_chance(&r, 1, 2) ? 512 : 256;
   RC.log_index_size = 31 - __builtin_clz(RC.index_size);
   RC.fingerprint_size = 20 + vf_below(&r, 8);
   RC.seed           = 42;
   RC.hash           = platform_hash32;
   pthread_barrier_init(&B, NULL, NT + 1);
   for (uint32_t e = 0; e < NBAL; e++) {
      platform_status rc = allocator_alloc(C_AL(&C), &ballast[e], PAGE_TYPE_MISC);
      VF_ENV(SUCCESS(rc), "alloc");
      for (int p = 0; p < PPE; p++) {
         page_handle *h = cache_alloc(C_CC(&C), ballast[e] + p * PSZ, PAGE_TYPE_MISC);
         memset(h->data, 0, PSZ);
         *(uint64_t *)h->data = ballast[e] + p * PSZ;
         cache_unlock(C_CC(&C), h);
         cache_unclaim(C_CC(&C), h);
         cache_unget(C_CC(&C), h);
      }
   }
   uint64_t base = allocator_in_use(C_AL(&C));
   for (uint32_t i = 0; i < NT; i++) {
      pthread_rwlock_init(&CH[i].lock, NULL);
      CH[i].fm = calloc(MAXF, sizeof(*CH[i].fm));
   }
   pthread_t th[MAXT];
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   VF_CHECK(allocator_in_use(C_AL(&C)) == base, "%lu extents in use after all filters were dropped, %lu before",
            allocator_in_use(C_AL(&C)), base);
   comp_close(&C, false);
   vf_stat("filters_built", S_adds);
   vf_stat("fingerprints_added", S_fps);
   vf_stat("filters_that_grew", S_grow);
   vf_stat("lookups_of_added_keys", S_pos);
   vf_stat("lookups_of_absent_keys", S_neg);
   vf_stat("false_positives", S_fp);
   vf_stat("async_lookups", S_async);
   vf_stat("async_suspensions", S_susp);
   vf_stat("async_retries", S_retry);
   vf_stat("estimates_compared", S_est);
   vf_stat("estimates_over_filters", S_estm);
   vf_stat("lookups_in_filters_of_others", S_shared);
   vf_stat("cache_sweeps", S_thrash);
   vf_stat("filters_dropped", S_zaps);
   vf_sample("seed %lu threads %u fingerprint size %u index size %u keys<=%u filters %lu fingerprints %lu", SEED, NT,
             RC.fingerprint_size, RC.index_size, MAXKEY, S_adds, S_fps);
   vf_finish();
   return 0;
}
