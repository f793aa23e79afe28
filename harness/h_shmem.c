/*
 * Shared-memory heap monitor (C22).  Threads allocate, grow, shrink and free
 * fragments; an owner map with one word per cache line sees every overlap, the
 * contents of each fragment are checked as long as it lives, and the figures
 * the heap reports are compared with what was taken from it.
 */
#include "comp.h"
#include "shmem.h"
#define LINE 64ull
#if SPLINTER_DEBUG
#   define LARGE (90 * 1024ull)
#else
#   define LARGE (38 * 1024ull)
#endif
static uint64_t          SEED, SEGSZ, BIGSZ, big[4];
static uint32_t          NT, NBIG, nclass, OPS, ROUNDS;
static platform_heap_id  HID;
static char             *BASE, *CTRL;
static volatile uint32_t *own; /* per line */
static volatile uint32_t next_id = 1;
static pthread_barrier_t B;
static volatile int      STOP;
static comp              C;
static uint64_t S_alloc, S_free, S_realloc, S_big, S_refused, S_shared, S_audits, S_recycled, S_undo, S_grow, S_shrink, S_zero;
typedef struct frag {
   uint8_t *p;
   uint64_t n, cap; /* asked, rounded */
   uint32_t id;
   bool     large;
} frag;
#define MAXH 400
static __thread vf_rng R;
/* fragments passed between threads */
static frag            SH[64];
static uint32_t        nsh;
static pthread_mutex_t shl = PTHREAD_MUTEX_INITIALIZER;

static uint64_t
rup(uint64_t n)
{
   return (n + LINE - 1) / LINE * LINE;
}
static void
take(frag *f)
{
   char *p = (char *)f->p;
   VF_CHECK(p >= CTRL && p + f->cap <= BASE + SEGSZ, "fragment of %lu bytes at offset %ld of a segment of %lu bytes",
            f->n, p - BASE, SEGSZ);
   VF_CHECK((uint64_t)p % LINE == 0, "fragment at %p is not aligned", p);
   f->id = __sync_fetch_and_add(&next_id, 1);
   for (uint64_t l = (p - BASE) / LINE, e = l + f->cap / LINE; l < e; l++) {
      uint32_t o = __sync_val_compare_and_swap(&own[l], 0, f->id);
      VF_CHECK(o == 0, "fragment %u of %lu bytes overlaps the live fragment %u at offset %lu", f->id, f->n, o, l * LINE);
   }
}
static void
drop_own(frag *f)
{
   for (uint64_t l = ((char *)f->p - BASE) / LINE, e = l + f->cap / LINE; l < e; l++) {
      VF_CHECK(own[l] == f->id, "harness lost track of fragment %u", f->id);
      own[l] = 0;
   }
   __sync_synchronize();
}
static inline uint64_t
pat(uint32_t id, uint64_t i)
{
   return (uint64_t)id * 0x9e3779b97f4a7c15ull + i;
}
static void
fill(frag *f, uint64_t from)
{
   uint64_t w = f->n / 8;
   for (uint64_t i = from / 8; i < w; i++)
      ((uint64_t *)f->p)[i] = pat(f->id, i);
   for (uint64_t i = w * 8; i < f->n; i++)
      f->p[i] = f->id;
}
static void
check(frag *f, uint64_t n, const char *when)
{
   uint64_t w = n / 8;
   for (uint64_t i = 0; i < w; i++)
      VF_CHECK(((uint64_t *)f->p)[i] == pat(f->id, i), "%s: byte %lu of %lu of fragment %u changed", when, i * 8, f->n, f->id);
   if (n == f->n)
      for (uint64_t i = w * 8; i < n; i++)
         VF_CHECK(f->p[i] == (uint8_t)f->id, "%s: byte %lu of %lu of fragment %u changed", when, i, f->n, f->id);
}
static bool
get(frag *f, uint64_t n, bool zero)
{
   f->n   = n;
   f->cap = rup(n);
   char *x;
   f->p = zero ? (uint8_t *)TYPED_ARRAY_ZALLOC(HID, x, n) : (uint8_t *)TYPED_ARRAY_MALLOC(HID, x, n);
   if (!f->p)
      return false;
   f->large = f->cap >= LARGE;
   take(f);
   if (zero) {
      for (uint64_t i = 0; i < n; i++)
         VF_CHECK(f->p[i] == 0, "byte %lu of %lu of a zeroed fragment is %x", i, n, f->p[i]);
      __sync_fetch_and_add(&S_zero, 1);
   }
   fill(f, 0);
   __sync_fetch_and_add(&S_alloc, 1);
   if (f->large)
      __sync_fetch_and_add(&S_big, 1);
   return true;
}
static void
put(frag *f)
{
   check(f, f->n, "at its end");
   memset(f->p, 0xee, f->n);
   drop_own(f);
   void *p = f->p;
   platform_free(HID, p);
   __sync_fetch_and_add(&S_free, 1);
}
static bool
change(frag *f, uint64_t n)
{
   check(f, f->n, "before reallocation");
   frag g = {.n = n, .cap = rup(n)};
   /* the old one stays ours until the call returns; the new one may not be it */
   g.p = platform_realloc(HID, f->n, f->p, n);
   if (!g.p)
      return false;
   g.large = g.cap >= LARGE;
   /* the old lines can have new owners by now, so they were released before */
   uint32_t oid = f->id;
   (void)oid;
   take(&g);
   uint64_t keep = n < f->n ? n : f->n;
   frag     o    = {.p = g.p, .n = keep, .id = f->id};
   check(&o, keep & ~7ull, "after reallocation");
   fill(&g, 0);
   if (n > f->n)
      __sync_fetch_and_add(&S_grow, 1);
   else
      __sync_fetch_and_add(&S_shrink, 1);
   *f = g;
   __sync_fetch_and_add(&S_realloc, 1);
   return true;
}
static uint64_t
size_small(void)
{
   switch (vf_below(&R, 6)) {
      case 0: return 1 + vf_below(&R, 64);
      case 1: return LINE * (1 + vf_below(&R, 4));
      case 2: return 1 + vf_below(&R, 4000);
      case 3: return 1 + vf_below(&R, 300);
      default: return 8 + vf_below(&R, 200);
   }
}
static void
run_ops(int me, frag *H, uint32_t *n, frag *L, uint32_t *nl)
{
   for (uint32_t i = 0; i < OPS; i++) {
      uint32_t x = vf_below(&R, 100);
      if (x < 30) {
         if (*n < MAXH && get(&H[*n], size_small(), vf_chance(&R, 1, 3)))
            (*n)++;
      } else if (x < 50) {
         if (*n) {
            uint32_t k = vf_chance(&R, 1, 2) ? *n - 1 : vf_below(&R, *n);
            put(&H[k]);
            H[k] = H[--*n];
         }
      } else if (x < 58) {
         /* take back at once */
         frag f;
         if (get(&f, size_small(), false))
            put(&f);
      } else if (x < 66) {
         if (*n) {
            uint32_t k   = vf_below(&R, *n);
            frag    *f   = &H[k];
            uint64_t nsz = vf_chance(&R, 1, 4) ? 1 + vf_below(&R, f->n) : size_small();
            drop_own(f); /* the old lines are free as soon as the new ones are filled */
            if (!change(f, nsz)) {
               for (uint64_t l = ((char *)f->p - BASE) / LINE, e = l + f->cap / LINE; l < e; l++)
                  VF_CHECK(__sync_val_compare_and_swap(&own[l], 0, f->id) == 0, "a failed reallocation lost its fragment");
               check(f, f->n, "after a refused reallocation");
            }
         }
      } else if (x < 84) {
         if (*nl < NBIG && vf_chance(&R, 2, 3)) {
            uint64_t s = big[vf_below(&R, nclass)];
            VF_CHECK(get(&L[*nl], s - vf_below(&R, 60), vf_chance(&R, 1, 3)),
                     "no large fragment of %lu bytes although %u of %u were given back", s, NT * NBIG - *nl, NT * NBIG);
            (*nl)++;
         } else if (*nl) {
            uint32_t k = vf_below(&R, *nl);
            put(&L[k]);
            L[k] = L[--*nl];
         }
      } else if (x < 88) {
         uint64_t s = SEGSZ - (CTRL - BASE) + 1 + (vf_chance(&R, 1, 2) ? 0 : 1ull << vf_below(&R, 42));
         char    *c = TYPED_ARRAY_MALLOC(HID, c, s);
         VF_CHECK(c == NULL, "a fragment of %lu bytes from a segment of %lu bytes", s, SEGSZ);
         __sync_fetch_and_add(&S_refused, 1);
      } else if (x < 94) {
         if (*n) {
            check(&H[vf_below(&R, *n)], 0, "");
            frag *f = &H[vf_below(&R, *n)];
            check(f, f->n, "while alive");
         }
      } else if (*n) {
         /* freed by another thread */
         pthread_mutex_lock(&shl);
         if (nsh < 64 && vf_chance(&R, 1, 2)) {
            uint32_t k = vf_below(&R, *n);
            SH[nsh++]  = H[k];
            H[k]       = H[--*n];
         } else if (nsh && *n < MAXH) {
            H[(*n)++] = SH[--nsh];
            __sync_fetch_and_add(&S_shared, 1);
         }
         pthread_mutex_unlock(&shl);
      }
   }
}
static void *
worker(void *arg)
{
   int      me = (int)(intptr_t)arg;
   uint32_t n = 0, nl = 0;
   frag    *H = calloc(MAXH, sizeof(*H)), *L = calloc(64, sizeof(*L));
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   R.s = vf_mix(SEED * 131 + me);
   while (1) {
      pthread_barrier_wait(&B);
      if (STOP)
         break;
      run_ops(me, H, &n, L, &nl);
      pthread_barrier_wait(&B);
   }
   for (uint32_t i = 0; i < n; i++)
      put(&H[i]);
   for (uint32_t i = 0; i < nl; i++)
      put(&L[i]);
   free(H);
   free(L);
   task_deregister_this_thread(C.ts);
   return NULL;
}
static void
audit(void)
{
   uint64_t used = platform_shmbytes_used(HID), fre = platform_shmbytes_free(HID);
   char    *next = platform_shm_next_free_addr(HID);
   VF_CHECK(platform_shmsize(HID) == SEGSZ, "size of the segment reported as %lu", platform_shmsize(HID));
   VF_CHECK(used + fre == SEGSZ - (CTRL - BASE), "%lu bytes used and %lu free of %lu", used, fre, SEGSZ - (CTRL - BASE));
   VF_CHECK(next == CTRL + used, "next free address is at %ld, %lu bytes are used", next - CTRL, used);
   for (uint64_t l = (next - BASE) / LINE; l < SEGSZ / LINE; l++)
      VF_CHECK(own[l] == 0, "fragment %u lives in free memory", own[l]);
   S_audits++;
   vf_distinct("usage", vf_mix(used) ^ vf_mix(next - BASE));
}
static void
quiescent(vf_rng *r)
{
   audit();
   /* a small fragment given back at once costs nothing */
   uint64_t used = platform_shmbytes_used(HID);
   for (int i = 0; i < 20; i++) {
      frag f;
      if (!get(&f, size_small(), false))
         break;
      put(&f);
      VF_CHECK(platform_shmbytes_used(HID) == used, "%lu bytes used, %lu before a fragment was taken and given back",
               platform_shmbytes_used(HID), used);
      S_undo++;
   }
   /* a large fragment given back serves the next request that fits */
   frag f;
   if (get(&f, big[0], false)) {
      put(&f);
      used = platform_shmbytes_used(HID);
      for (int i = 0; i < 5; i++) {
         bool ok = get(&f, LARGE + vf_below(r, big[0] - LARGE + 1), vf_chance(r, 1, 2));
         VF_CHECK(ok && platform_shmbytes_used(HID) == used, "a large fragment given back is not used again");
         put(&f);
         S_recycled++;
      }
   }
   audit();
}
int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng r        = {vf_mix(SEED)};
   NT              = 1 + vf_below(&r, 12);
   OPS             = vf_arg_u64(argc, argv, "ops", 1500);
   ROUNDS          = 6;
   nclass          = 1 + vf_below(&r, 3);
   NBIG            = 1 + vf_below(&r, 36 / NT < 4 ? 36 / NT : 4);
   BIGSZ           = 0;
   for (uint32_t i = 0; i < nclass; i++) {
      /* sizes a line apart, too: a recycled fragment must be large enough */
      big[i] = i && vf_chance(&r, 1, 2) ? big[i - 1] + LINE * (1 + vf_below(&r, 2)) : rup(LARGE + vf_below(&r, 200000) + 64);
      if (big[i] > BIGSZ)
         BIGSZ = big[i];
   }
   /* big[0] is the largest */
   for (uint32_t i = 1; i < nclass; i++)
      if (big[i] > big[0]) {
         uint64_t t = big[0];
         big[0] = big[i], big[i] = t;
      }
   /* room for every class of large fragments once for all holders, and for
    * the small ones, which the heap gives back to nobody */
   SEGSZ = (NT * NBIG * nclass + 2) * BIGSZ + (uint64_t)ROUNDS * NT * OPS * 2 * 3000 / 2 + (8 << 20);
   SEGSZ = (SEGSZ + 4095) / 4096 * 4096;
   comp_quiet();
   comp_open(&C, dir, 64 * ESZ, 0, 64, 0, 0, 0, 0, false, false);
   vf_perturb_config(SEED, 100 + vf_below(&r, 1000), 20000);
   HID                = NULL;
   platform_status rc = platform_heap_create(platform_get_module_id(), SEGSZ, true, &HID);
   VF_ENV(SUCCESS(rc), "platform_heap_create of %lu bytes", SEGSZ);
   BASE = (char *)HID;
   CTRL = platform_shm_next_free_addr(HID);
   VF_CHECK((uint64_t)CTRL % LINE == 0 && platform_shmbytes_used(HID) == 0, "a new segment");
   own = calloc(SEGSZ / LINE + 1, 4);
   R.s = vf_mix(SEED * 3 + 1);
   pthread_barrier_init(&B, NULL, NT + 1);
   pthread_t th[64];
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   for (uint32_t k = 0; k < ROUNDS; k++) {
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      quiescent(&r);
   }
   STOP = 1;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   while (nsh)
      put(&SH[--nsh]);
   audit();
   for (uint64_t l = 0; l < SEGSZ / LINE; l++)
      VF_CHECK(own[l] == 0, "harness: fragment %u left", own[l]);
   if (SEED % 3 == 0) {
      /* fill it up: what fits is granted, then refused, and it goes on working */
      frag *F = calloc(SEGSZ / (1 << 15) + 16, sizeof(*F));
      uint64_t n = 0, got = 0, fre0 = platform_shmbytes_free(HID);
      while (get(&F[n], 32768, false))
         got += F[n++].cap;
      VF_CHECK(got == fre0 / 32768 * 32768, "%lu bytes were free, %lu could be taken", fre0, got);
      uint64_t fre = platform_shmbytes_free(HID);
      if (fre >= LINE) {
         frag f;
         VF_CHECK(get(&f, fre, false), "%lu bytes are free but are not given", fre);
         put(&f);
      }
      VF_CHECK(platform_shmbytes_free(HID) == fre, "%lu bytes free, %lu before", platform_shmbytes_free(HID), fre);
      audit();
      for (uint64_t i = 0; i < n; i++)
         check(&F[i], F[i].n, "when full");
      while (n)
         put(&F[--n]);
      free(F);
      S_refused++;
   }
   platform_heap_destroy(&HID);
   VF_CHECK(HID == NULL, "heap handle after its end");
   comp_close(&C, false);
   vf_stat("fragments", S_alloc);
   vf_stat("large_fragments", S_big);
   vf_stat("frees", S_free);
   vf_stat("reallocations_larger", S_grow);
   vf_stat("reallocations_smaller", S_shrink);
   vf_stat("zeroed_fragments", S_zero);
   vf_stat("requests_refused", S_refused);
   vf_stat("fragments_passed_between_threads", S_shared);
   vf_stat("usage_audits", S_audits);
   vf_stat("large_fragments_recycled_at_rest", S_recycled);
   vf_stat("small_fragments_undone_at_rest", S_undo);
   vf_sample("seed %lu threads %u segment %lu KB large %u x %u fragments %lu", SEED, NT, SEGSZ >> 10, NBIG, nclass, S_alloc);
   vf_finish();
   return 0;
}
