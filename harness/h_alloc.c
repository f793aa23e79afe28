/*
 * Extent allocator monitor (C16): threads allocate, share, reference and
 * release extents on a device that is often nearly full; an owner table tells
 * double hand-outs, a model of the counts is compared when all threads pause
 * and again after unmounting and mounting.
 */
#include "comp.h"

static comp     C;
static uint64_t SEED, DISK, NEXT;
static uint32_t NT, OPS;
static uint64_t S_alloc, S_full, S_inc, S_dec, S_frees, S_audits, S_mounts, S_shared, S_super, S_fullfree;

/* model: what the threads hold */
#define MAXX 4096
static volatile uint32_t owner[MAXX];  /* allocated as seen by users */
static volatile int32_t  refs[MAXX];   /* references users hold */
static volatile uint64_t epoch[MAXX];  /* changes with every allocation */
static uint32_t          reserved;
static volatile uint32_t inflight;

typedef struct pool {
   pthread_mutex_t m;
   uint32_t        x[65536];
   uint32_t        n;
} pool;
static pool SH; /* references that any thread may drop */

static void
got(uint64_t addr, uint32_t id)
{
   VF_CHECK(addr % ESZ == 0 && addr / ESZ < NEXT, "allocated extent at %lu is outside the device of %lu extents", addr, NEXT);
   uint32_t x = addr / ESZ;
   VF_CHECK(x >= reserved, "allocated extent %u, which is reserved", x);
   uint32_t o = __sync_lock_test_and_set(&owner[x], id);
   VF_CHECK(o == 0, "extent %u was handed out to thread %u while thread %u holds it", x, id, o);
   __sync_fetch_and_add(&epoch[x], 1);
   int32_t r = __sync_fetch_and_add(&refs[x], 2);
   VF_CHECK(r == 0, "extent %u was handed out while %d references to it are held", x, r);
}
/* drop one reference; the model says goodbye before the allocator may reuse it */
static void
drop(uint32_t x, page_type t)
{
   int32_t left = __sync_sub_and_fetch(&refs[x], 1);
   VF_ENV(left >= 0, "refs");
   if (left == 0) {
      /* (another thread may be about to drop what it already said goodbye to) */
      uint8_t c = allocator_get_refcount(C_AL(&C), x * ESZ);
      VF_CHECK(c >= 1, "extent %u: count %u, at least one reference is left", x, c);
      owner[x] = 0;
   }
   uint64_t ep = epoch[x];
   __sync_synchronize();
   uint8_t r = allocator_dec_ref(C_AL(&C), x * ESZ, t);
   if (r == 0) {
      int32_t now = refs[x];
      __sync_synchronize();
      VF_CHECK(now == 0 || epoch[x] != ep, "extent %u was freed while %d references are held", x, now);
      __sync_fetch_and_add(&S_frees, 1);
   }
   __sync_fetch_and_add(&S_dec, 1);
}
static void
ref(uint32_t x)
{
   /* the caller holds a reference */
   uint8_t r = allocator_inc_ref(C_AL(&C), x * ESZ);
   VF_CHECK(r >= 2, "extent %u: count %u after taking a reference", x, r);
   __sync_fetch_and_add(&refs[x], 1);
   __sync_fetch_and_add(&S_inc, 1);
}

static pthread_barrier_t B;
static volatile int      STOP;
static volatile uint64_t ROUND;
typedef struct hold {
   uint32_t x;
   uint32_t n; /* references of mine */
   page_type t;
} hold;
static hold     H[64][MAXX];
static uint32_t HN[64];
static uint32_t goal; /* extents in use aimed at */

static void *
worker(void *a)
{
   int      id = (int)(intptr_t)a;
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   hold    *h = H[id];
   uint64_t freed_since[MAXX];
   (void)freed_since;
   while (1) {
      pthread_barrier_wait(&B);
      if (STOP)
         break;
      vf_rng r = {vf_mix(SEED * 131 + ROUND * 64 + id)};
      for (uint32_t i = 0; i < OPS; i++) {
         uint32_t w = vf_below(&r, 100), n = HN[id];
         if (w < 45 && (n < goal / NT + 1 || vf_chance(&r, 1, 6)) && n < MAXX) {
            page_type t = PAGE_TYPE_TRUNK + vf_below(&r, NUM_PAGE_TYPES - 1);
            uint64_t  addr = UINT64_MAX;
            /* extents free before the call */
            static __thread uint64_t ep[MAXX];
            static __thread uint8_t  fr[MAXX];
            bool probe = vf_chance(&r, 1, 4) || goal >= NEXT - reserved;
            if (probe)
               for (uint32_t x = reserved; x < NEXT; x++) {
                  ep[x] = epoch[x];
                  fr[x] = !owner[x] && allocator_get_refcount(C_AL(&C), x * ESZ) == 0;
               }
            __sync_synchronize();
            __sync_fetch_and_add(&inflight, 1);
            rc = allocator_alloc(C_AL(&C), &addr, t);
            /* other calls under way may each be about to take an extent */
            uint32_t others = __sync_sub_and_fetch(&inflight, 1);
            if (SUCCESS(rc)) {
               got(addr, id + 1);
               uint8_t c = allocator_get_refcount(C_AL(&C), addr);
               VF_CHECK(c == 2, "extent %lu: count %u after allocation", addr / ESZ, c);
               h[HN[id]++] = (hold){addr / ESZ, 2, t};
               __sync_fetch_and_add(&S_alloc, 1);
            } else {
               __sync_fetch_and_add(&S_full, 1);
               if (probe) {
                  __sync_fetch_and_add(&S_fullfree, 1);
                  uint32_t nfree = 0, one = 0;
                  for (uint32_t x = reserved; x < NEXT; x++)
                     if (fr[x] && allocator_get_refcount(C_AL(&C), x * ESZ) == 0 && !owner[x] && epoch[x] == ep[x])
                        nfree++, one = x;
                  VF_CHECK(nfree <= others, "allocation failed although %u extents (such as %u) were free all the time and only %u other allocations are under way", nfree, one, others);
               }
               if (vf_chance(&r, 1, 2) && HN[id]) { /* make room */
                  hold *v = &h[vf_below(&r, HN[id])];
                  while (v->n) {
                     v->n--;
                     drop(v->x, v->t);
                  }
                  *v = h[--HN[id]];
               }
            }
         } else if (w < 60 && n) {
            hold *v = &h[vf_below(&r, n)];
            if (v->n < 60) {
               ref(v->x);
               v->n++;
            }
         } else if (w < 68 && n) {
            /* give a reference away */
            hold *v = &h[vf_below(&r, n)];
            pthread_mutex_lock(&SH.m);
            if (SH.n < 65536 && refs[v->x] < 180) {
               ref(v->x);
               SH.x[SH.n++] = v->x | v->t << 16;
               __sync_fetch_and_add(&S_shared, 1);
            }
            pthread_mutex_unlock(&SH.m);
         } else if (w < 78) {
            pthread_mutex_lock(&SH.m);
            uint32_t x = UINT32_MAX;
            if (SH.n) {
               uint32_t k = vf_below(&r, SH.n);
               x = SH.x[k];
               SH.x[k] = SH.x[--SH.n];
            }
            pthread_mutex_unlock(&SH.m);
            if (x != UINT32_MAX)
               drop(x & 0xffff, x >> 16);
         } else if (n) {
            hold *v = &h[vf_below(&r, n)];
            drop(v->x, v->t);
            if (--v->n == 0)
               *v = h[--HN[id]];
         }
         if (vf_chance(&r, 1, 50))
            vf_pause(&r);
      }
      pthread_barrier_wait(&B);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}

static void
audit(const char *when)
{
   uint64_t used = 0, h = SEED;
   for (uint32_t x = reserved; x < NEXT; x++) {
      uint8_t c = allocator_get_refcount(C_AL(&C), x * ESZ);
      VF_CHECK(c == refs[x], "%s: extent %u has count %u, %d references are held", when, x, c, refs[x]);
      used += c != 0;
      h = vf_mix(h ^ c);
   }
   uint64_t u = allocator_in_use(C_AL(&C));
   VF_CHECK(u == used + reserved, "%s: %lu extents in use reported, %lu are", when, u, used + reserved);
   VF_CHECK(allocator_get_capacity(C_AL(&C)) == DISK, "%s: capacity", when);
   vf_distinct("counts", h);
   S_audits++;
}

int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   uint32_t    rounds = vf_arg_u64(argc, argv, "rounds", 6);
   vf_rng      r   = {vf_mix(SEED)};
   comp_quiet();
   NT   = vf_chance(&r, 1, 6) ? 1 : 2 + vf_below(&r, 14);
   OPS  = vf_arg_u64(argc, argv, "ops", 1000 + vf_below(&r, 6000)) / NT + 10;
   NEXT = vf_chance(&r, 1, 2) ? 8 + vf_below(&r, 60) : 40 + vf_below(&r, 900);
   DISK = NEXT * ESZ;
   vf_perturb_config(SEED, vf_chance(&r, 1, 5) ? 0 : 10 + vf_below(&r, 200), 2000 + vf_below(&r, 40000));
   if (vf_chance(&r, 1, 2))
      vf_stall_config(SEED, 30, 1 + vf_below(&r, 2000), 200000);
   vf_dev_cfg d = {.mode = VF_DEV_PASS, .monitor = true, .seed = SEED};
   vf_dev_config(&d);
   comp_open(&C, dir, DISK, 0, 64, 0, 0, 0, 0, false, false);
   reserved = allocator_in_use(C_AL(&C));
   /* super block extent and ref counts */
   VF_CHECK(reserved == 2, "a new device of %lu extents has %u in use", NEXT, reserved);
   goal = vf_chance(&r, 1, 2) ? NEXT : NEXT * (1 + vf_below(&r, 9)) / 10;
   pthread_mutex_init(&SH.m, NULL);
   pthread_barrier_init(&B, NULL, NT + 1);
   /* one id is taken by comp_open */
   uint64_t roots[64], raddr[64];
   uint32_t nroots = 1, rid = 1;
   roots[0] = 1;
   allocator_get_super_addr(C_AL(&C), 1, &raddr[0]);
   pthread_t th[64];
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   platform_status rc;
   for (ROUND = 0; ROUND < rounds; ROUND++) {
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      audit("at rest");
      for (int k = vf_below(&r, 8); k; k--) {
         uint64_t a = 0;
         if (vf_chance(&r, 2, 3) || !nroots) {
            rc = allocator_alloc_super_addr(C_AL(&C), ++rid, &a);
            VF_CHECK(SUCCESS(rc) == (nroots < 30), "root id %u: %s with %u in use", rid,
                     SUCCESS(rc) ? "accepted" : "refused", nroots);
            if (SUCCESS(rc)) {
               VF_CHECK(a % PSZ == 0 && a >= PSZ && a < ESZ, "super block of root %u at %lu", rid, a);
               roots[nroots]   = rid;
               raddr[nroots++] = a;
            }
         } else {
            uint32_t v = vf_below(&r, nroots);
            allocator_remove_super_addr(C_AL(&C), roots[v]);
            VF_CHECK(!SUCCESS(allocator_get_super_addr(C_AL(&C), roots[v], &a)), "removed root %lu is still known", roots[v]);
            roots[v] = roots[--nroots];
            raddr[v] = raddr[nroots];
         }
         S_super++;
      }
      for (int m = 0; m < 2; m++) {
         for (uint32_t k = 0; k < nroots; k++) {
            uint64_t a = 0;
            rc = allocator_get_super_addr(C_AL(&C), roots[k], &a);
            VF_CHECK(SUCCESS(rc) && a == raddr[k], "root %lu: super block at %lu, was given %lu", roots[k], a, raddr[k]);
            for (uint32_t l = 0; l < k; l++)
               VF_CHECK(raddr[l] != a, "roots %lu and %lu share a super block", roots[l], roots[k]);
         }
         if (m == 0 && vf_chance(&r, 2, 3)) {
            rc_allocator_unmount(&C.al);
            rc = rc_allocator_mount(&C.al, &C.al_cfg, (io_handle *)&C.io, C.hid, platform_get_module_id());
            VF_CHECK(SUCCESS(rc), "mount failed");
            S_mounts++;
            audit("after mount");
         } else
            break;
      }
   }
   STOP = 1;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   for (uint32_t i = 0; i < NT; i++)
      for (uint32_t k = 0; k < HN[i]; k++)
         while (H[i][k].n) {
            H[i][k].n--;
            drop(H[i][k].x, H[i][k].t);
         }
   while (SH.n) {
      uint32_t x = SH.x[--SH.n];
      drop(x & 0xffff, x >> 16);
   }
   audit("at the end");
   VF_CHECK(allocator_in_use(C_AL(&C)) == reserved, "%lu extents in use when all were released", allocator_in_use(C_AL(&C)));
   comp_close(&C, true);
   vf_stat("allocations", S_alloc);
   vf_stat("allocations_refused", S_full);
   vf_stat("refusals_checked", S_fullfree);
   vf_stat("references_taken", S_inc);
   vf_stat("references_dropped", S_dec);
   vf_stat("extents_freed", S_frees);
   vf_stat("references_passed_between_threads", S_shared);
   vf_stat("count_audits", S_audits);
   vf_stat("mounts", S_mounts);
   vf_stat("root_id_changes", S_super);
   vf_sample("seed %lu threads %u extents %lu goal %u allocations %lu refused %lu mounts %lu", SEED, NT, NEXT, goal,
             S_alloc, S_full, S_mounts);
   vf_finish();
   return 0;
}
