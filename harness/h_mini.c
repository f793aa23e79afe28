/*
 * Mini-allocator monitor (C17).
 *
 * Keyed groups are built as packing a b-tree does; then threads take, split,
 * hand over and drop references on key ranges while a model counts, for each
 * extent, the references that cover it.  A holder looks at pages of its range
 * all the time; when everybody pauses the allocator's counts must be the
 * model's.  Unkeyed groups are filled by many threads at once.
 */
#include "comp.h"
#include "mini_allocator.h"
#include "splinterdb/default_data_config.h"

static comp        C;
static uint64_t    SEED;
static data_config DC;
static uint32_t    NT, OPS, maxkey;
static uint64_t S_pages, S_ext, S_inc, S_dec, S_blocks, S_looks, S_audits, S_groups, S_freed, S_counts, S_ureload, S_urefs;
#define DISK (1600 * ESZ)

/* ---- keys: big-endian number plus filler that depends on it ---- */
typedef struct kbuf {
   uint8_t  b[1024];
   uint32_t n;
} kbuf;
static key
mk(uint64_t v, kbuf *k)
{
   vf_rng r = {vf_mix(v ^ SEED)};
   k->n     = 8 + vf_below(&r, maxkey - 7);
   memset(k->b, 0x33, k->n);
   for (int i = 0; i < 8; i++)
      k->b[i] = v >> (56 - 8 * i);
   return key_create(k->n, k->b);
}
#define NEG 0ull
#define POS UINT64_MAX
static key
bound(uint64_t v, kbuf *k)
{
   return v == NEG ? NEGATIVE_INFINITY_KEY : v == POS ? POSITIVE_INFINITY_KEY : mk(v, k);
}

/* ---- keyed groups ---- */
#define MAXE 1500
#define MAXG 3
#define MAXR 400
typedef struct ext {
   uint64_t addr;
   uint64_t lo, hi;  /* key range served, inclusive; NEG/POS at the ends */
   uint32_t batch, pages;
} ext;
typedef struct rref {
   uint64_t lo, hi;
} rref;
typedef struct group {
   uint64_t        meta_head, base;
   ext             e[MAXE];
   uint32_t        ne, nb;
   uint64_t        maxk;
   uint32_t        meta_extents;
   bool            live;
   volatile uint32_t cleaned;
   volatile uint32_t nrefs; /* references in the model */
   pthread_mutex_t m;
   rref            pool[MAXR]; /* references nobody holds at the moment */
   uint32_t        np;
} group;
static group G[MAXG];
static pthread_barrier_t B;
static volatile int      STOP;
static volatile uint64_t ROUND;

static bool
covers(const ext *e, rref r)
{
   return e->hi >= r.lo && e->lo <= r.hi;
}
static void
tag(uint64_t addr, uint64_t v)
{
   page_handle *p = cache_alloc(C_CC(&C), addr, PAGE_TYPE_BRANCH);
   ((uint64_t *)p->data)[0] = addr;
   ((uint64_t *)p->data)[1] = v;
   cache_unlock(C_CC(&C), p);
   cache_unclaim(C_CC(&C), p);
   cache_unget(C_CC(&C), p);
}
static void
build(group *g, int gi, vf_rng *r)
{
   memset(g, 0, offsetof(group, m));
   pthread_mutex_init(&g->m, NULL);
   g->np            = 0;
   uint64_t        before = allocator_in_use(C_AL(&C));
   platform_status rc     = allocator_alloc(C_AL(&C), &g->meta_head, PAGE_TYPE_BRANCH);
   VF_ENV(SUCCESS(rc), "alloc");
   mini_allocator mini;
   g->nb = 1 + vf_below(r, MINI_MAX_BATCHES);
   mini_init(&mini, C_CC(&C), &DC, g->meta_head, 0, g->nb, PAGE_TYPE_BRANCH, TRUE);
   uint32_t top = g->nb - 1, want = 1 + vf_below(r, 300);
   if (g->nb == 1)
      want = 1; /* one extent serves everything */
   int32_t  cur[MINI_MAX_BATCHES];
   uint64_t nxt[MINI_MAX_BATCHES] = {0}, k = 0;
   memset(cur, -1, sizeof(cur));
   uint32_t fill = vf_chance(r, 1, 2) ? PPE : 1 + vf_below(r, PPE);
   bool     rooted = false;
   while (1) {
      k += 1 + vf_below(r, 5);
      for (uint32_t b = 0; b < g->nb; b++) {
         if (b == top && g->nb > 1) {
            if (rooted)
               break;
            rooted = true; /* the root's batch: one page */
         } else if (b && !vf_chance(r, 1, 1ull << (2 * b)))
            continue;
         kbuf     kb;
         uint64_t ne = 0, a = mini_alloc(&mini, b, mk(k, &kb), &ne);
         VF_CHECK(a % PSZ == 0, "page at %lu", a);
         uint64_t base = a - a % ESZ;
         S_pages++;
         if (a == base) {
            VF_CHECK(nxt[b] == 0 || nxt[b] == base, "batch %u went on to extent %lu, announced was %lu", b, base / ESZ, nxt[b] / ESZ);
            for (uint32_t i = 0; i < g->ne; i++)
               VF_CHECK(g->e[i].addr != base, "extent %lu was given to the group twice", base / ESZ);
            VF_CHECK(allocator_get_refcount(C_AL(&C), base) == 2, "extent %lu of a group has count %u", base / ESZ,
                     allocator_get_refcount(C_AL(&C), base));
            VF_ENV(g->ne < MAXE, "too many extents");
            g->e[g->ne] = (ext){.addr = base, .batch = b, .lo = cur[b] < 0 ? NEG : k, .hi = POS, .pages = 1};
            if (cur[b] >= 0)
               g->e[cur[b]].hi = k;
            cur[b] = g->ne++;
         } else {
            VF_CHECK(cur[b] >= 0 && g->e[cur[b]].addr == base && a == base + g->e[cur[b]].pages * PSZ,
                     "batch %u: page %lu does not follow page %u of extent %lu", b, a / PSZ,
                     cur[b] < 0 ? 0 : g->e[cur[b]].pages, cur[b] < 0 ? 0 : g->e[cur[b]].addr / ESZ);
            g->e[cur[b]].pages++;
         }
         nxt[b] = ne;
         if (a == base || vf_chance(r, 1, 16))
            tag(a, gi);
      }
      if (g->ne >= want && (g->nb == 1 || rooted) && (fill == PPE || vf_chance(r, 1, 3)))
         break;
   }
   g->maxk = k + 1;
   kbuf kb;
   mini_release(&mini, mk(g->maxk, &kb));
   uint64_t used = allocator_in_use(C_AL(&C)) - before;
   VF_CHECK(used >= g->ne + 1, "group of %u extents holds %lu", g->ne, used);
   g->meta_extents = used - g->ne;
   VF_CHECK(mini_num_extents(&mini) >= g->ne, "num_extents");
   g->live         = true;
   g->nrefs        = 1;
   g->pool[g->np++] = (rref){NEG, POS};
   S_groups++;
   S_ext += g->ne;
}
static void
g_inc(group *g, rref x)
{
   kbuf a, b;
   mini_keyed_inc_ref(C_CC(&C), &DC, PAGE_TYPE_BRANCH, g->meta_head, bound(x.lo, &a), bound(x.hi, &b));
   __sync_fetch_and_add(&S_inc, 1);
}
static void
g_dec(group *g, rref x)
{
   kbuf   a, b;
   bool32 gone =
      mini_keyed_dec_ref(C_CC(&C), &DC, PAGE_TYPE_BRANCH, g->meta_head, bound(x.lo, &a), bound(x.hi, &b));
   __sync_fetch_and_add(&S_dec, 1);
   uint32_t left = __sync_sub_and_fetch(&g->nrefs, 1);
   if (gone) {
      VF_CHECK(__sync_add_and_fetch(&g->cleaned, 1) == 1, "a group was released twice");
      __sync_fetch_and_add(&S_freed, 1);
   }
   (void)left;
}
/* the caller holds x: everything it covers must be there */
static void
inspect(group *g, rref x, vf_rng *r, int gi)
{
   for (int n = 0; n < 6; n++) {
      ext *e = &g->e[vf_below(r, g->ne)];
      if (!covers(e, x))
         continue;
      uint8_t c = allocator_get_refcount(C_AL(&C), e->addr);
      VF_CHECK(c >= 2, "extent %lu serves keys %lu..%lu of range %lu..%lu, which is referenced, but has count %u",
               e->addr / ESZ, e->lo, e->hi, x.lo, x.hi, c);
      page_handle *p = cache_get(C_CC(&C), e->addr, TRUE, PAGE_TYPE_BRANCH);
      VF_CHECK(((uint64_t *)p->data)[0] == e->addr && ((uint64_t *)p->data)[1] == gi,
               "extent %lu is referenced, but its first page shows page %lu of group %lu", e->addr / ESZ,
               ((uint64_t *)p->data)[0] / PSZ, ((uint64_t *)p->data)[1]);
      cache_unget(C_CC(&C), p);
      __sync_fetch_and_add(&S_looks, 1);
   }
   if (vf_chance(r, 1, 6)) {
      kbuf     a, b;
      uint64_t n = mini_keyed_extent_count(C_CC(&C), &DC, PAGE_TYPE_BRANCH, g->meta_head, bound(x.lo, &a), bound(x.hi, &b)), m = 0;
      for (uint32_t i = 0; i < g->ne; i++)
         m += covers(&g->e[i], x);
      VF_CHECK(n == m, "range %lu..%lu: %lu extents counted, %lu serve it", x.lo, x.hi, n, m);
      __sync_fetch_and_add(&S_counts, 1);
   }
}
static rref
subrange(group *g, rref x, vf_rng *r)
{
   uint64_t lo = x.lo == NEG ? 1 : x.lo, hi = x.hi == POS ? g->maxk + 5 : x.hi, t;
   if (hi <= lo)
      return x;
   rref y = {lo + vf_below(r, hi - lo + 1), lo + vf_below(r, hi - lo + 1)};
   if (vf_chance(r, 1, 3)) { /* exactly where an extent starts */
      ext *e = &g->e[vf_below(r, g->ne)];
      if (e->lo >= lo && e->lo <= hi && e->lo != NEG)
         y.lo = e->lo;
      if (e->hi >= lo && e->hi <= hi && e->hi != POS)
         y.hi = e->hi;
   }
   if (y.lo > y.hi)
      t = y.lo, y.lo = y.hi, y.hi = t;
   if (vf_chance(r, 1, 8))
      y.lo = x.lo;
   if (vf_chance(r, 1, 8))
      y.hi = x.hi;
   return y;
}
static bool
take(group *g, vf_rng *r, rref *x)
{
   bool ok = false;
   pthread_mutex_lock(&g->m);
   if (g->np) {
      uint32_t i = vf_below(r, g->np);
      *x         = g->pool[i];
      g->pool[i] = g->pool[--g->np];
      ok         = true;
   }
   pthread_mutex_unlock(&g->m);
   return ok;
}
static bool
give(group *g, rref x)
{
   bool ok = false;
   pthread_mutex_lock(&g->m);
   if (g->np < MAXR) {
      g->pool[g->np++] = x;
      ok               = true;
   }
   pthread_mutex_unlock(&g->m);
   return ok;
}
static volatile bool draining;
static void *
worker(void *a)
{
   int             id = (int)(intptr_t)a;
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   while (1) {
      pthread_barrier_wait(&B);
      if (STOP)
         break;
      vf_rng r = {vf_mix(SEED * 131 + ROUND * 64 + id)};
      for (uint32_t i = 0; i < OPS; i++) {
         int    gi = vf_below(&r, MAXG);
         group *g  = &G[gi];
         rref   x;
         if (!take(g, &r, &x))
            continue;
         inspect(g, x, &r, gi);
         uint32_t w = vf_below(&r, 100);
         if (w < (draining ? 10 : 45) && g->nrefs < 60) {
            /* another reference inside this one; sometimes a split in two */
            rref y = subrange(g, x, &r);
            __sync_fetch_and_add(&g->nrefs, 1);
            g_inc(g, y);
            if (vf_chance(&r, 1, 3) && x.lo < y.lo) {
               rref z = {x.lo, y.lo};
               __sync_fetch_and_add(&g->nrefs, 1);
               g_inc(g, z);
               g_dec(g, x);
               x = z;
            }
            inspect(g, y, &r, gi);
            VF_ENV(give(g, y), "pool");
            VF_ENV(give(g, x), "pool");
         } else if (w < (draining ? 25 : 60)) {
            /* readers hold back the release while somebody drops what they read */
            mini_block_dec_ref(C_CC(&C), g->meta_head);
            VF_ENV(give(g, x), "pool");
            for (int n = vf_below(&r, 5); n >= 0; n--) {
               vf_pause(&r);
               inspect(g, x, &r, gi);
            }
            __sync_fetch_and_add(&S_blocks, 1);
            mini_unblock_dec_ref(C_CC(&C), g->meta_head);
         } else if (g->nrefs > 1 || draining) {
            g_dec(g, x);
         } else
            VF_ENV(give(g, x), "pool");
         if (vf_chance(&r, 1, 20))
            vf_pause(&r);
      }
      pthread_barrier_wait(&B);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}
static uint64_t base_use;
static void
audit(const char *when)
{
   uint64_t want = base_use, h = SEED + ROUND;
   for (int gi = 0; gi < MAXG; gi++) {
      group *g = &G[gi];
      VF_CHECK(g->np == g->nrefs, "harness: %u of %u references pooled", g->np, g->nrefs);
      VF_CHECK((g->cleaned == 1) == (g->np == 0), "group %d: %s although %u references are left", gi,
               g->cleaned ? "released" : "not released", g->np);
      if (!g->np)
         continue;
      want += g->meta_extents;
      for (uint32_t i = 0; i < g->ne; i++) {
         uint32_t n = 0;
         for (uint32_t k = 0; k < g->np; k++)
            n += covers(&g->e[i], g->pool[k]);
         if (n) {
            uint8_t c = allocator_get_refcount(C_AL(&C), g->e[i].addr);
            VF_CHECK(c == n + 1, "%s: extent %lu (keys %lu..%lu) has count %u, %u references cover it", when,
                     g->e[i].addr / ESZ, g->e[i].lo, g->e[i].hi, c, n);
            want++;
         }
         h = vf_mix(h ^ n);
      }
   }
   vf_distinct("range_counts", h);
   uint64_t u = allocator_in_use(C_AL(&C));
   VF_CHECK(u == want, "%s: %lu extents in use, %lu are referenced", when, u, want);
   S_audits++;
}

/* ---- unkeyed ---- */
static mini_allocator U;
static uint32_t       unb, uper;
static uint8_t       *useen; /* by page number */
static volatile uint64_t unext[6000];
static uint64_t uext[6000];
static volatile uint32_t nuext;
static void *
uworker(void *a)
{
   vf_rng          r  = {vf_mix(SEED * 31 + ROUND * 64 + (intptr_t)a)};
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   for (uint32_t i = 0; i < uper; i++) {
      uint64_t ne, b = vf_below(&r, unb), p = mini_alloc(&U, b, NULL_KEY, &ne);
      VF_CHECK(p % PSZ == 0 && p < DISK, "page at %lu", p);
      VF_CHECK(__sync_lock_test_and_set(&useen[p / PSZ], 1) == 0, "page %lu was handed out twice", p / PSZ);
      uint64_t base = p - p % ESZ;
      VF_CHECK(allocator_get_refcount(C_AL(&C), base) == 2, "extent %lu of a group has count %u", base / ESZ,
               allocator_get_refcount(C_AL(&C), base));
      uint64_t o = __sync_val_compare_and_swap(&unext[base / ESZ], 0, ne);
      VF_CHECK(o == 0 || o == ne, "extent %lu: following extent announced as %lu and %lu", base / ESZ, o / ESZ, ne / ESZ);
      if (p == base)
         uext[__sync_fetch_and_add(&nuext, 1)] = base;
      if (vf_chance(&r, 1, 4)) {
         page_handle *h = cache_alloc(C_CC(&C), p, PAGE_TYPE_FILTER);
         *(uint64_t *)h->data = p;
         cache_unlock(C_CC(&C), h);
         cache_unclaim(C_CC(&C), h);
         cache_unget(C_CC(&C), h);
      }
      __sync_fetch_and_add(&S_pages, 1);
      if (vf_chance(&r, 1, 60))
         vf_pause(&r);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}
static volatile uint32_t udone;
static uint64_t          umeta;
static void *
udrop(void *a)
{
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   if (mini_unkeyed_dec_ref(C_CC(&C), umeta, PAGE_TYPE_FILTER, FALSE) == 0)
      __sync_fetch_and_add(&udone, 1);
   task_deregister_this_thread(C.ts);
   return NULL;
}
static void
unkeyed_round(vf_rng *r)
{
   uint64_t before = allocator_in_use(C_AL(&C));
   memset(useen, 0, DISK / PSZ);
   memset((void *)unext, 0, sizeof(unext));
   nuext = 0;
   platform_status rc = allocator_alloc(C_AL(&C), &umeta, PAGE_TYPE_FILTER);
   VF_ENV(SUCCESS(rc), "alloc");
   unb             = 1 + vf_below(r, MINI_MAX_BATCHES);
   uint64_t tail   = 0;
   uint32_t reload = vf_below(r, 3);
   for (uint32_t k = 0; k <= reload; k++) {
      uint64_t first = mini_init(&U, C_CC(&C), NULL, umeta, tail, unb, PAGE_TYPE_FILTER, FALSE);
      VF_CHECK(first % ESZ == 0 && first, "first extent at %lu", first);
      uint32_t n0 = nuext;
      uper = vf_below(r, vf_chance(r, 1, 4) ? 8000 : 2000) / NT + 1;
      pthread_t th[64];
      for (uint32_t i = 0; i < NT; i++)
         pthread_create(&th[i], NULL, uworker, (void *)(intptr_t)(i + 64 * k));
      for (uint32_t i = 0; i < NT; i++)
         pthread_join(th[i], NULL);
      /* each extent but the first of its batch follows an announced one */
      uint32_t starts = 0;
      for (uint32_t i = n0; i < nuext; i++) {
         bool announced = false;
         for (uint32_t j = n0; j < nuext; j++)
            announced |= unext[uext[j] / ESZ] == uext[i];
         starts += !announced;
      }
      VF_CHECK(starts <= unb, "%u extents were used without being announced by %u batches", starts, unb);
      mini_release(&U, NULL_KEY);
      tail = mini_meta_tail(&U);
      S_ureload += k > 0;
   }
   uint64_t used = allocator_in_use(C_AL(&C)) - before;
   VF_CHECK(used > nuext && used <= nuext + 3, "a group of %u extents holds %lu", nuext, used);
   S_ext += nuext;
   uint32_t nref = vf_below(r, 20);
   if (vf_chance(r, 1, 2)) {
      cache_flush(C_CC(&C));
      cache_evict(C_CC(&C), TRUE);
   }
   if (vf_chance(r, 1, 4))
      mini_unkeyed_prefetch(C_CC(&C), PAGE_TYPE_FILTER, umeta);
   for (uint32_t i = 0; i < nref; i++)
      mini_unkeyed_inc_ref(C_CC(&C), umeta);
   S_urefs += nref;
   udone = 0;
   pthread_t th[64];
   for (uint32_t i = 0; i < nref; i++)
      pthread_create(&th[i], NULL, udrop, NULL);
   for (uint32_t i = 0; i < nref; i++)
      pthread_join(th[i], NULL);
   VF_CHECK(udone == 0, "a group was released while it is referenced");
   for (uint32_t i = 0; i < nuext; i++)
      VF_CHECK(allocator_get_refcount(C_AL(&C), uext[i]) == 2, "extent %lu of a referenced group has count %u", uext[i] / ESZ,
               allocator_get_refcount(C_AL(&C), uext[i]));
   VF_CHECK(mini_unkeyed_dec_ref(C_CC(&C), umeta, PAGE_TYPE_FILTER, FALSE) == 0, "the last reference did not release the group");
   VF_CHECK(allocator_in_use(C_AL(&C)) == before, "%lu extents in use after the group was released, %lu before",
            allocator_in_use(C_AL(&C)), before);
   vf_distinct("unkeyed", vf_mix(SEED * 100 + ROUND) ^ nuext);
   S_groups++;
   S_freed++;
}

int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng      r   = {vf_mix(SEED)};
   comp_quiet();
   uint32_t rounds = vf_arg_u64(argc, argv, "rounds", 3);
   NT     = 1 + vf_below(&r, 10);
   OPS    = vf_arg_u64(argc, argv, "ops", 200 + vf_below(&r, 3000)) / NT + 10;
   maxkey = vf_chance(&r, 1, 2) ? 24 : 8 + vf_below(&r, 600);
   vf_perturb_config(SEED, vf_chance(&r, 1, 5) ? 0 : 20 + vf_below(&r, 300), 2000 + vf_below(&r, 40000));
   if (vf_chance(&r, 1, 2))
      vf_stall_config(SEED, 30, 1 + vf_below(&r, 2000), 200000);
   vf_dev_cfg d = {.mode = vf_chance(&r, 1, 2) ? VF_DEV_EMU : VF_DEV_PASS, .max_delay_us = 1 + vf_below(&r, 60), .monitor = true, .seed = SEED};
   vf_dev_config(&d);
   default_data_config_init(maxkey, &DC);
   comp_open(&C, dir, DISK, 24ull << 20, 256, 0, 0, 0, 0, false, false);
   VF_ENV(truncate(C.file, DISK) == 0, "truncate");
   useen = calloc(1, DISK / PSZ);
   pthread_barrier_init(&B, NULL, NT + 1);
   pthread_t th[64];
   base_use = allocator_in_use(C_AL(&C));
   for (ROUND = 0; ROUND < rounds; ROUND++)
      unkeyed_round(&r);
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   for (ROUND = 0; ROUND < rounds; ROUND++) {
      draining = false;
      for (int gi = 0; gi < MAXG; gi++)
         build(&G[gi], gi, &r);
      audit("after building");
      for (int k = 0; k < 3; k++) {
         draining = k == 2;
         pthread_barrier_wait(&B);
         pthread_barrier_wait(&B);
         audit("at rest");
         if (vf_chance(&r, 1, 3)) {
            cache_flush(C_CC(&C));
            cache_evict(C_CC(&C), TRUE);
         }
      }
      for (int gi = 0; gi < MAXG; gi++) {
         rref x;
         while (take(&G[gi], &r, &x)) {
            inspect(&G[gi], x, &r, gi);
            g_dec(&G[gi], x);
            if (vf_chance(&r, 1, 3))
               audit("while dropping");
         }
      }
      audit("when all references are dropped");
      VF_CHECK(allocator_in_use(C_AL(&C)) == base_use, "extents left");
   }
   STOP = 1;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   comp_close(&C, true);
   vf_stat("groups", S_groups);
   vf_stat("groups_released", S_freed);
   vf_stat("pages_allocated", S_pages);
   vf_stat("extents", S_ext);
   vf_stat("range_references_taken", S_inc);
   vf_stat("range_references_dropped", S_dec);
   vf_stat("release_blocks", S_blocks);
   vf_stat("referenced_pages_read", S_looks);
   vf_stat("extent_counts_compared", S_counts);
   vf_stat("count_audits", S_audits);
   vf_stat("groups_reloaded", S_ureload);
   vf_stat("group_references", S_urefs);
   vf_sample("seed %lu threads %u keys<=%u pages %lu extents %lu references %lu blocks %lu", SEED, NT, maxkey, S_pages,
             S_ext, S_inc, S_blocks);
   vf_finish();
   return 0;
}
