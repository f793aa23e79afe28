/*
 * Batch reader-writer lock monitor (C12).  Counters kept by the harness tell
 * who is inside each index of the lock; plain words written under the write
 * lock tell whether what a writer stored is seen by every later holder.
 */
#include "comp.h"

#define NIDX (PLATFORM_CACHELINE_SIZE / 2)
static comp                  C;
static uint64_t              SEED;
static platform_batch_rwlock L[2];
static uint32_t              NT, OPS, NI;
static volatile int32_t      rd[2][NIDX], cl[2][NIDX], wr[2][NIDX];
static uint64_t              data[2][NIDX][8]; /* written under the write lock */
static volatile uint64_t     written[2][NIDX]; /* lower bound for later holders */
static uint64_t S_get, S_claim, S_refused, S_lock, S_loop, S_shared, S_nested, S_waits, S_claimread;
static pthread_barrier_t B;

static void
look(int l, int x, const char *who)
{
   uint64_t lo = written[l][x];
   __sync_synchronize();
   uint64_t v = data[l][x][0];
   for (int i = 1; i < 8; i++)
      VF_CHECK(data[l][x][i] == v, "index %d: a %s sees a half-written value", x, who);
   VF_CHECK(v >= lo, "index %d: a %s sees value %lu, but %lu was written before", x, who, v, lo);
}
static void
readers(int l, int x, const char *who)
{
   VF_CHECK(wr[l][x] == 0, "index %d: a %s is inside together with a writer", x, who);
}
static void
get(int l, int x)
{
   platform_batch_rwlock_get(&L[l], x);
   int32_t n = __sync_add_and_fetch(&rd[l][x], 1);
   readers(l, x, "reader");
   if (n > 1)
      __sync_fetch_and_add(&S_shared, 1);
   if (cl[l][x])
      __sync_fetch_and_add(&S_claimread, 1);
   look(l, x, "reader");
   __sync_fetch_and_add(&S_get, 1);
}
static void
unget(int l, int x)
{
   look(l, x, "reader");
   readers(l, x, "reader");
   __sync_fetch_and_sub(&rd[l][x], 1);
   platform_batch_rwlock_unget(&L[l], x);
}
static void
write_it(int l, int x, vf_rng *r)
{
   uint64_t v = data[l][x][0] + 1;
   for (int i = 0; i < 8; i++) {
      data[l][x][i] = v;
      if (i == 3 && vf_chance(r, 1, 4))
         vf_pause(r);
   }
   __sync_synchronize();
   written[l][x] = v;
}

static volatile int idle_go;
static void *
idler(void *a)
{
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   pthread_barrier_wait(&B);
   while (!idle_go)
      usleep(1000);
   task_deregister_this_thread(C.ts);
   return NULL;
}

static uint32_t wpct;
static void *
worker(void *a)
{
   int             id = (int)(intptr_t)a;
   vf_rng          r  = {vf_mix(SEED * 577 + id)};
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < OPS; i++) {
      int l = vf_below(&r, 2), x = vf_below(&r, NI) * (NIDX - 1) / (NI > 1 ? NI - 1 : 1);
      if (NI == 1)
         x = SEED % NIDX;
      int outer = -1;
      if (vf_chance(&r, 1, 6) && x > 0) { /* hold a smaller index meanwhile */
         outer = vf_below(&r, x);
         get(l, outer);
         __sync_fetch_and_add(&S_nested, 1);
      }
      get(l, x);
      if (vf_chance(&r, 1, 3))
         vf_pause(&r);
      if (!vf_chance(&r, wpct, 100)) {
         unget(l, x);
         goto next;
      }
      bool got;
      if (vf_chance(&r, 1, 3)) {
         /* may let go of the read lock for a while */
         __sync_fetch_and_sub(&rd[l][x], 1);
         platform_batch_rwlock_claim_loop(&L[l], x);
         got = true;
         __sync_fetch_and_add(&S_loop, 1);
      } else {
         __sync_fetch_and_sub(&rd[l][x], 1);
         got = platform_batch_rwlock_try_claim(&L[l], x);
         if (!got) {
            __sync_fetch_and_add(&rd[l][x], 1);
            readers(l, x, "reader whose claim was refused");
            look(l, x, "reader whose claim was refused");
            __sync_fetch_and_add(&S_refused, 1);
         }
      }
      if (!got) {
         unget(l, x);
         goto next;
      }
      int32_t c = __sync_add_and_fetch(&cl[l][x], 1);
      VF_CHECK(c == 1, "index %d: %d threads hold the claim", x, c);
      VF_CHECK(wr[l][x] == 0, "index %d: a claim was granted while a writer is inside", x);
      __sync_fetch_and_add(&S_claim, 1);
      look(l, x, "claimant");
      if (vf_chance(&r, 1, 3))
         vf_pause(&r);
      if (vf_chance(&r, 3, 4)) {
         if (rd[l][x])
            __sync_fetch_and_add(&S_waits, 1);
         platform_batch_rwlock_lock(&L[l], x);
         int32_t w = __sync_add_and_fetch(&wr[l][x], 1);
         VF_CHECK(w == 1, "index %d: %d writers are inside", x, w);
         VF_CHECK(rd[l][x] <= 0, "index %d: a writer is inside together with %d readers", x, rd[l][x]);
         VF_CHECK(cl[l][x] == 1, "index %d: a writer is inside together with another claimant", x);
         look(l, x, "writer");
         write_it(l, x, &r);
         VF_CHECK(rd[l][x] <= 0, "index %d: a writer is inside together with %d readers", x, rd[l][x]);
         VF_CHECK(wr[l][x] == 1 && cl[l][x] == 1, "index %d: a writer is not alone", x);
         __sync_fetch_and_add(&S_lock, 1);
         __sync_fetch_and_sub(&wr[l][x], 1);
         if (vf_chance(&r, 1, 2)) {
            __sync_fetch_and_sub(&cl[l][x], 1);
            platform_batch_rwlock_full_unlock(&L[l], x);
            goto next;
         }
         platform_batch_rwlock_unlock(&L[l], x);
         VF_CHECK(cl[l][x] == 1, "index %d: two claimants", x);
         look(l, x, "claimant");
      }
      __sync_fetch_and_sub(&cl[l][x], 1);
      platform_batch_rwlock_unclaim(&L[l], x);
      __sync_fetch_and_add(&rd[l][x], 1);
      readers(l, x, "former claimant");
      look(l, x, "former claimant");
      unget(l, x);
   next:
      if (outer >= 0)
         unget(l, outer);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}

int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng      r   = {vf_mix(SEED)};
   comp_quiet();
   NT = vf_chance(&r, 1, 8) ? MAX_THREADS - 2 : 2 + vf_below(&r, 14);
   uint32_t idle = vf_chance(&r, 1, 2) ? 0 : MAX_THREADS - 2 - NT;
   OPS  = vf_arg_u64(argc, argv, "ops", 2000 + vf_below(&r, 8000)) / NT + 20;
   NI   = vf_chance(&r, 1, 2) ? 1 : 1 + vf_below(&r, NIDX);
   wpct = 1 + vf_below(&r, vf_chance(&r, 1, 2) ? 20 : 90);
   vf_perturb_config(SEED, vf_chance(&r, 1, 6) ? 0 : 5 + vf_below(&r, 100), 2000 + vf_below(&r, 40000));
   if (vf_chance(&r, 1, 2))
      vf_stall_config(SEED, 30, 1 + vf_below(&r, 1000), 200000);
   vf_dev_cfg d = {.mode = VF_DEV_PASS, .seed = SEED};
   vf_dev_config(&d);
   comp_open(&C, dir, 64 * ESZ, 0, 64, 0, 0, 0, 0, false, false);
   memset(L, 0x5a, sizeof(L));
   platform_batch_rwlock_init(&L[0]);
   platform_batch_rwlock_init(&L[1]);
   pthread_barrier_init(&B, NULL, NT + idle);
   pthread_t th[128];
   for (uint32_t i = 0; i < NT + idle; i++)
      pthread_create(&th[i], NULL, i < idle ? idler : worker, (void *)(intptr_t)i);
   for (uint32_t i = idle; i < NT + idle; i++)
      pthread_join(th[i], NULL);
   idle_go = 1;
   for (uint32_t i = 0; i < idle; i++)
      pthread_join(th[i], NULL);
   /* everything was released: one thread may write every index */
   uint64_t sum = 0;
   for (int l = 0; l < 2; l++)
      for (uint32_t x = 0; x < NIDX; x++) {
         get(l, x);
         VF_CHECK(platform_batch_rwlock_try_claim(&L[l], x), "index %u: claim refused although nobody holds it", x);
         platform_batch_rwlock_lock(&L[l], x);
         sum += data[l][x][0];
         vf_distinct("final", vf_mix(SEED * 64 + l * 32 + x) ^ data[l][x][0]);
         platform_batch_rwlock_full_unlock(&L[l], x);
      }
   VF_CHECK(sum == S_lock, "%lu writes took place under the lock, %lu are there", S_lock, sum);
   comp_close(&C, false);
   vf_stat("reads", S_get);
   vf_stat("claims", S_claim);
   vf_stat("claims_refused", S_refused);
   vf_stat("claim_loops", S_loop);
   vf_stat("writes", S_lock);
   vf_stat("reads_shared", S_shared);
   vf_stat("reads_beside_a_claimant", S_claimread);
   vf_stat("nested_holds", S_nested);
   vf_stat("writers_that_met_readers", S_waits);
   vf_sample("seed %lu threads %u idle %u indexes %u reads %lu claims %lu writes %lu refused %lu", SEED, NT, idle, NI,
             S_get, S_claim, S_lock, S_refused);
   vf_finish();
   return 0;
}
