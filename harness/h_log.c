/*
 * Log monitor (C19).  Threads append entries to a log in a cache so small that
 * half-written log pages are written back and evicted in between.  When every
 * thread has gone on to a new page, the iterator must return exactly what was
 * written, in the order of the generation numbers; before that, a prefix of
 * what each thread wrote.
 */
#include "comp.h"
#include "shard_log.h"
#include "splinterdb/default_data_config.h"

bool32 shard_log_valid(shard_log_config *cfg, page_handle *page, uint64 magic);
uint64 shard_log_next_extent_addr(shard_log_config *cfg, page_handle *page);
static comp             C;
static uint64_t         SEED;
#define DISK (768 * ESZ)
static data_config      DC;
static shard_log_config LC;
static shard_log        LOG;
static uint32_t         NT, PER, maxmsg, maxkey;
static uint64_t         stride;
static volatile uint64_t gen_next;
static pthread_barrier_t B;
static volatile int     STOP;
static uint64_t ROUND, S_entries, S_returned, S_logs, S_partial, S_thrash, S_reopened, S_evicted;
#define MAXE 400000
typedef struct ent {
   uint64_t gen, seed;
   uint16_t thr;
   uint8_t  filler;
   uint32_t seq;
} ent;
static ent              E[MAXE]; /* by gen index */
static volatile uint64_t NE;
static uint64_t         tseq[64];

/* keys start with the index of the entry, which the monitor reads back */
static uint32_t
mk_key(uint64_t seed, uint32_t idx, uint8_t *b)
{
   vf_rng   r = {seed};
   uint32_t n = vf_chance(&r, 1, 20) ? maxkey : 4 + vf_below(&r, maxkey - 3);
   for (uint32_t i = 0; i < n; i++)
      b[i] = vf_rand(&r);
   memcpy(b, &idx, 4);
   return n;
}
static uint32_t
mk_msg(uint64_t seed, bool filler, uint8_t *b, message_type *t)
{
   vf_rng   r = {seed ^ 0x5555};
   uint32_t n = filler ? 1500 : vf_chance(&r, 1, 30) ? maxmsg : vf_below(&r, maxmsg + 1);
   static const message_type ts[] = {MESSAGE_TYPE_INSERT, MESSAGE_TYPE_UPDATE, MESSAGE_TYPE_DELETE};
   *t = ts[vf_below(&r, 3)];
   for (uint32_t i = 0; i < n; i++)
      b[i] = vf_rand(&r);
   return n;
}
static void
append(int thr, vf_rng *r, bool filler)
{
   uint8_t      kb[512], mb[4096];
   message_type t;
   uint64_t     idx = __sync_fetch_and_add(&NE, 1);
   VF_ENV(idx < MAXE, "too many entries");
   ent *e    = &E[idx];
   e->gen    = (idx + 1) * stride;
   e->seed   = vf_rand(r);
   e->thr    = thr;
   e->filler = filler;
   e->seq    = tseq[thr]++;
   uint32_t kl = mk_key(e->seed, idx, kb), ml = mk_msg(e->seed, filler, mb, &t);
   int      rc = log_write((log_handle *)&LOG, key_create(kl, kb),
                           message_create(t, slice_create(ml, mb)), e->gen);
   VF_CHECK(rc == 0, "log_write failed with %d", rc);
   __sync_fetch_and_add(&S_entries, 1);
}

/* other pages, read to push the log's pages out of the cache */
#define NOTHER 64
static uint64_t other[NOTHER];
static uint32_t nother;
static void
thrash(vf_rng *r)
{
   uint64_t     a = other[vf_below(r, nother)] + vf_below(r, PPE) * PSZ;
   page_handle *p = cache_get(C_CC(&C), a, TRUE, PAGE_TYPE_MISC);
   VF_CHECK(*(uint64_t *)p->data == a, "page %lu shows %lu", a, *(uint64_t *)p->data);
   if (vf_chance(r, 1, 2) && cache_try_claim(C_CC(&C), p)) {
      cache_lock(C_CC(&C), p);
      cache_mark_dirty(C_CC(&C), p);
      ((uint64_t *)p->data)[1]++;
      cache_unlock(C_CC(&C), p);
      cache_unclaim(C_CC(&C), p);
   }
   cache_unget(C_CC(&C), p);
   __sync_fetch_and_add(&S_thrash, 1);
}
static uint32_t thrash_per;
static bool     finish_log;
static void *
worker(void *a)
{
   int             id = (int)(intptr_t)a;
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   while (1) {
      pthread_barrier_wait(&B);
      if (STOP)
         break;
      vf_rng r = {vf_mix(SEED * 77 + ROUND * 64 + id)};
      for (uint32_t i = 0; i < PER; i++) {
         append(id, &r, false);
         for (uint32_t j = vf_below(&r, thrash_per + 1); j; j--)
            thrash(&r);
         if (vf_chance(&r, 1, 40))
            vf_pause(&r);
      }
      pthread_barrier_wait(&B);
      /* main looks at the unfinished log */
      pthread_barrier_wait(&B);
      /* (iterators prefetch pages that the log has not allocated yet, so a log
       * that was read cannot be written to any more) */
      for (int i = 0; i < 5 && finish_log; i++)
         append(id, &r, true);
      pthread_barrier_wait(&B);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}
static int
cmp_gen(const void *a, const void *b)
{
   uint64_t x = ((ent *)a)->gen, y = ((ent *)b)->gen;
   return x < y ? -1 : x > y;
}
static void
check_log(uint64_t addr, uint64_t magic, bool complete)
{
   static uint32_t    seen[64];
   shard_log_iterator it;
   memset(seen, 0, sizeof(seen));
   /* the chain of extents must end */
   uint64_t ext = addr, nx = 0;
   for (uint64_t n = 0; ext; ext = nx, n++) {
      VF_CHECK(n < DISK / ESZ, "the log's extents are linked in a circle");
      nx = 0;
      if (allocator_get_refcount(C_AL(&C), ext) == 0)
         break;
      for (int i = 0; i < PPE; i++) {
         page_handle *p  = cache_get(C_CC(&C), ext + i * PSZ, TRUE, PAGE_TYPE_LOG);
         bool         ok = shard_log_valid(&LC, p, magic);
         if (ok)
            nx = shard_log_next_extent_addr(&LC, p);
         if (getenv("VF_DBG"))
            printf("page %lu valid %d next %lu n %u\n", ext + i * PSZ, ok, nx, ((shard_log_hdr *)p->data)->num_entries);
         cache_unget(C_CC(&C), p);
         if (!ok) {
            nx = 0;
            break;
         }
      }
   }
   platform_status rc = shard_log_iterator_init(C_CC(&C), &LC, C.hid, addr, magic, &it);
   VF_CHECK(SUCCESS(rc), "log iterator failed");
   iterator *ih  = (iterator *)&it;
   uint64_t  n = NE, got = 0, last = 0;
   uint64_t  fresh = 0;
   for (; iterator_can_curr(ih) && iterator_can_next(ih); got++) {
      key     k;
      message m;
      iterator_curr(ih, &k, &m);
      uint32_t idx = UINT32_MAX;
      if (key_length(k) >= 4)
         memcpy(&idx, key_data(k), 4);
      VF_CHECK(idx < n, "log iterator returned an entry that was not written (position %lu)", got);
      uint8_t      kb[512], mb[4096];
      message_type t;
      ent         *e  = &E[idx];
      uint32_t     kl = mk_key(e->seed, idx, kb);
      VF_CHECK(kl == key_length(k) && !memcmp(kb, key_data(k), kl), "log entry of generation %lu: key differs",
               e->gen);
      uint32_t ml = mk_msg(e->seed, e->filler, mb, &t);
      VF_CHECK(message_length(m) == ml && !memcmp(mb, message_data(m), ml) && message_class(m) == t,
               "log entry of generation %lu: message differs (length %lu, written %u)", e->gen,
               message_length(m), ml);
      VF_CHECK(e->seq == seen[e->thr], "thread %u: entry %u returned, expected entry %u", e->thr, e->seq,
               seen[e->thr]);
      VF_CHECK(got == 0 || e->gen > last, "log iterator returned generation %lu after %lu", e->gen, last);
      last = e->gen;
      seen[e->thr]++;
      fresh += !e->filler;
      rc = iterator_next(ih);
      VF_CHECK(SUCCESS(rc), "iterator_next failed");
   }
   if (complete) {
      uint64_t real = 0;
      for (uint64_t j = 0; j < n; j++)
         real += !E[j].filler;
      VF_CHECK(fresh == real, "log returned %lu of %lu entries", fresh, real);
   } else
      S_partial++;
   S_returned += got;
   vf_distinct("iteration", vf_mix(got * 131 + fresh + complete * 7 + SEED * 1000003 + ROUND));
   shard_log_iterator_deinit(C.hid, &it);
}

int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   vf_rng      r   = {vf_mix(SEED)};
   uint32_t    rounds = vf_arg_u64(argc, argv, "rounds", 3);
   NT              = vf_chance(&r, 1, 4) ? 1 : 1 + vf_below(&r, 8);
   PER             = vf_arg_u64(argc, argv, "ops", 200 + vf_below(&r, 4000)) / NT + 1;
   maxkey          = vf_chance(&r, 1, 2) ? 24 : 4 + vf_below(&r, 200);
   maxmsg          = vf_chance(&r, 1, 2) ? 100 : 1 + vf_below(&r, 2500);
   static const uint64_t sts[] = {1, 1, 3, 1000003, 0x80000001ull, 0x1000000000ull};
   stride          = sts[vf_below(&r, 6)];
   thrash_per      = vf_chance(&r, 1, 5) ? 0 : 1 + vf_below(&r, 30);
   nother          = 16 + vf_below(&r, 48);
   vf_perturb_config(SEED, vf_chance(&r, 1, 4) ? 0 : 20 + vf_below(&r, 400), 2000 + vf_below(&r, 60000));
   if (vf_chance(&r, 1, 2))
      vf_stall_config(SEED, 40, 1 + vf_below(&r, 3000), 200000);
   vf_dev_cfg d = {.mode = vf_chance(&r, 3, 4) ? VF_DEV_EMU : VF_DEV_PASS,
                   .max_delay_us = 1 + vf_below(&r, NT > 1 ? 100 : 300), .monitor = true, .seed = SEED};
   vf_dev_config(&d);
   default_data_config_init(maxkey, &DC);
   uint64_t disk = DISK, cachesz = (NT == 1 ? 2 : 4 + NT + vf_below(&r, 4)) << 20;
   comp_open(&C, dir, disk, cachesz, 64, 0, 0, 0, 0, false, false);
   /* a device of its full size: reading pages never written to is allowed */
   VF_ENV(truncate(C.file, DISK) == 0, "truncate");
   shard_log_config_init(&LC, &C.cc_cfg.super, &DC);
   for (uint32_t i = 0; i < nother; i++) {
      platform_status rc = allocator_alloc(C_AL(&C), &other[i], PAGE_TYPE_MISC);
      VF_ENV(SUCCESS(rc), "alloc");
      for (int p = 0; p < PPE; p++) {
         page_handle *h = cache_alloc(C_CC(&C), other[i] + p * PSZ, PAGE_TYPE_MISC);
         memset(h->data, 0, PSZ);
         *(uint64_t *)h->data = other[i] + p * PSZ;
         cache_unlock(C_CC(&C), h);
         cache_unclaim(C_CC(&C), h);
         cache_unget(C_CC(&C), h);
      }
   }
   pthread_barrier_init(&B, NULL, NT + 1);
   pthread_t th[64];
   uint64_t  base = allocator_in_use(C_AL(&C));
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   for (ROUND = 0; ROUND < rounds; ROUND++) {
      NE = 0;
      memset(tseq, 0, sizeof(tseq));
      platform_status rc = shard_log_init(&LOG, C_CC(&C), &LC);
      VF_CHECK(SUCCESS(rc), "shard_log_init");
      uint64_t addr = log_addr((log_handle *)&LOG), magic = log_magic((log_handle *)&LOG);
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      finish_log = vf_chance(&r, 3, 4);
      if (!finish_log)
         check_log(addr, magic, false);
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      S_logs++;
      if (vf_chance(&r, 1, 2)) {
         cache_flush(C_CC(&C));
         cache_evict(C_CC(&C), TRUE);
         S_evicted++;
      }
      check_log(addr, magic, finish_log);
      if (vf_chance(&r, 1, 2)) {
         /* what is on the device is the log, too */
         cache_flush(C_CC(&C));
         clockcache_deinit(&C.ccache);
         rc = clockcache_init(&C.ccache, &C.cc_cfg, (io_handle *)&C.io, C_AL(&C), "again", C.hid,
                              platform_get_module_id());
         VF_ENV(SUCCESS(rc), "clockcache_init");
         check_log(addr, magic, finish_log);
         S_reopened++;
      }
      shard_log_zap(&LOG);
      VF_CHECK(allocator_in_use(C_AL(&C)) == base, "%lu extents in use after the log was dropped, %lu before",
               allocator_in_use(C_AL(&C)), base);
   }
   STOP = 1;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   comp_close(&C, true);
   vf_stat("log_entries_written", S_entries);
   vf_stat("log_entries_returned", S_returned);
   vf_stat("logs", S_logs);
   vf_stat("logs_read_while_unfinished", S_partial);
   vf_stat("logs_read_after_eviction", S_evicted);
   vf_stat("logs_read_in_new_cache", S_reopened);
   vf_stat("cache_pressure_gets", S_thrash);
   vf_sample("seed %lu threads %u entries %lu stride %lu keys<=%u messages<=%u cache %lu KB", SEED, NT,
             S_entries, stride, maxkey, maxmsg, cachesz >> 10);
   vf_finish();
   return 0;
}
