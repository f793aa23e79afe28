/*
 * Space accounting.  Overwrite/delete/reopen histories with bounded live data
 * on a small device.  Oracles:
 *  - every operation succeeds although many times the device is written,
 *  - the space in use by tables and filters on the quiescent database stays
 *    within a multiple of the live data that does not grow with the volume,
 *  - conservation: when the table is finally destroyed, exactly the extents
 *    of the allocator itself remain in use, and each has one reference: a lost
 *    release shows as a remainder, a double release as an underflow or as a
 *    wrong value,
 *  - contents are compared with the model throughout.
 */
#include "dbcommon.h"
#include "platform.h"
#include "rc_allocator.h"
#include "trunk.h"
#include "splinterdb_tests_private.h"

static dbcfg       C;
static splinterdb *DB;
static uint64_t    SEED, VOL, S_writes;
static int         NT;
static model       M;
static uint64_t    TOPS, REOP;

static rc_allocator *
ALLOC(void)
{
   return (rc_allocator *)splinterdb_get_allocator_handle(DB);
}
static uint64_t
extents(page_type t)
{
   rc_allocator *al = ALLOC();
   return al->stats.extent_allocs[t] - al->stats.extent_deallocs[t];
}
typedef struct targ {
   int      id;
   uint64_t opbase, n;
} targ;
static int DIST;
static void *
worker(void *p)
{
   targ  *t = p;
   vf_rng r = {vf_mix(SEED * 31 + t->opbase + t->id)};
   if (NT > 1)
      splinterdb_register_thread(DB);
   uint32_t cur = vf_below(&r, C.u.n);
   for (uint64_t i = 0; i < t->n; i++) {
      uint32_t id;
      switch (DIST) {
         case 0: id = vf_below(&r, C.u.n); break;
         case 1: id = cur++ % C.u.n; break;
         case 2: id = C.u.n - 1 - (cur++ % C.u.n); break;
         default:
            id = (vf_below(&r, C.u.n) * vf_below(&r, C.u.n)) / C.u.n;
      }
      id = id / NT * NT + t->id; /* each key has one writing thread */
      if (id >= C.u.n)
         continue;
      uint64_t y  = vf_below(&r, 100);
      int      op = y < 70 ? OP_INSERT : y < 85 && C.merge ? OP_UPDATE : OP_DELETE;
      if (y >= 70 && y < 85 && !C.merge)
         op = OP_INSERT;
      uint64_t opid = t->opbase + i * NT + t->id;
      int      rc   = db_apply(DB, &C.u, id, op, opid);
      VF_CHECK(rc == 0, "write failed with %d", rc);
      model_apply(&M, id, op, opid);
      if (vf_chance(&r, 1, 3000)) {
         splinterdb_iterator *it;
         rc = splinterdb_iterator_init(DB, &it, ukey_slice(&C.u.k[vf_below(&r, C.u.n)]));
         VF_CHECK(rc == 0, "iterator init failed");
         for (int s = 0; s < 200 && splinterdb_iterator_valid(it); s++)
            splinterdb_iterator_next(it);
         splinterdb_iterator_deinit(it);
      }
   }
   if (NT > 1)
      splinterdb_deregister_thread(DB);
   __sync_fetch_and_add(&S_writes, t->n);
   return NULL;
}
static void
quiesce(void)
{
   task_system *ts = (task_system *)splinterdb_get_task_system_handle(DB);
   platform_status rc = task_perform_until_quiescent(ts);
   VF_CHECK(SUCCESS(rc), "background work did not finish");
}

int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", "/tmp");
   int   phases    = vf_arg_u64(argc, argv, "phases", 10);
   vf_rng r        = {vf_mix(SEED * 1000 + 41)};
   static const uint32_t nk[] = {40, 1000, 3000, 8000};
   uint32_t nkeys = vf_arg_u64(argc, argv, "keys", 0);
   NT = vf_chance(&r, 1, 3) ? 2 + vf_below(&r, 3) : 1;
   dbcfg_random(&C, &r, dir, "space.db", nkeys ? nkeys : nk[vf_below(&r, 4)],
                CF_SMALL | CF_NOSHM | CF_SHORTKEY);
   C.cfg.use_log = false;
   if (NT > 1) {
      C.cfg.cache_size          = 32 * C.cfg.memtable_capacity;
      C.cfg.queue_scale_percent = 0;
   }
   if (C.cfg.queue_scale_percent)
      C.cfg.queue_scale_percent = 0;
   if (g_maxpad < 300)
      g_maxpad = 300 + vf_below(&r, 700);
   C.cfg.disk_size = 2048ull << 20;
   char desc[512];
   dbcfg_describe(&C, desc, sizeof desc);
   fprintf(stderr, "config %s threads %d\n", desc, NT);
   vf_sample("seed=%lu threads=%d %s", SEED, NT, desc);
   vf_perturb_config(SEED, vf_chance(&r, 1, 2) ? 4000 : 0, 20000);
   vf_dev_cfg dv = {.mode = VF_DEV_PASS, .seed = SEED};
   vf_dev_config(&dv);
   model_init(&M, C.u.n);
   int rc = db_open_or_create(&C, &DB, false);
   VF_CHECK(rc == 0, "create failed with %d", rc);
   uint64_t meta_head =
      ((trunk_handle *)splinterdb_get_trunk_handle(DB))->mini.meta_head;
   uint64_t opid = SEED << 32, peak_early = 0, peak_late = 0, reopens = 0,
            trunk_total = 0, audits = 0;
   uint64_t ext = 128 * 1024;
   REOP = vf_arg_u64(argc, argv, "reopen", 1);
   TOPS         = vf_arg_u64(argc, argv, "ops", 0);
   if (!TOPS)
      TOPS = 2000 + vf_below(&r, 8000);
   for (int ph = 0; ph < phases; ph++) {
      DIST = vf_below(&r, 4);
      targ      ta[8];
      pthread_t th[8];
      for (int i = 0; i < NT; i++) {
         ta[i] = (targ){i, opid, TOPS / NT};
         if (NT > 1)
            pthread_create(&th[i], NULL, worker, &ta[i]);
      }
      if (NT == 1)
         worker(&ta[0]);
      else
         for (int i = 0; i < NT; i++)
            pthread_join(th[i], NULL);
      opid += TOPS + 10;
      quiesce();
      uint64_t tables = ALLOC()->stats.curr_allocated;
      if (reopens == 0) {
         tables = extents(PAGE_TYPE_BRANCH) + extents(PAGE_TYPE_FILTER)
                  + extents(PAGE_TYPE_MEMTABLE);
         if (ph < phases / 2)
            peak_early = tables > peak_early ? tables : peak_early;
         else
            peak_late = tables > peak_late ? tables : peak_late;
         trunk_total = extents(PAGE_TYPE_TRUNK);
         audits++;
         vf_distinct("usage", tables * 1000 + ph);
      }
      vf_statmax("table_extents_in_use", tables);
      if (REOP && (ph == phases - 2 || (vf_chance(&r, 1, 6) && ph >= phases / 2))) {
         check_all_lookups(DB, &C.u, &M, "before close");
         splinterdb_close(&DB);
         rc = db_open_or_create(&C, &DB, true);
         VF_CHECK(rc == 0, "reopen failed with %d", rc);
         reopens++;
      }
   }
   check_all_lookups(DB, &C.u, &M, "final");
   check_full_scan(DB, &C.u, &M, "final scan");
   /* the second half of a long overwrite history must not need much more
    * space than the first half */
   VF_CHECK(peak_late <= 3 * peak_early + 256,
            "space in use by tables grows with the volume written: %lu extents "
            "early, %lu later",
            peak_early, peak_late);
   /* conservation */
   rc_allocator *al   = ALLOC();
   uint64_t      cap  = al->cfg->extent_capacity;
   uint64_t      bufs = (cap + 4095) / 4096 * 4096;
   uint64_t      own  = 1 + (bufs + ext - 1) / ext;
   uint64_t      before = allocator_in_use((allocator *)al);
   /* a remounted trunk does not know the head of its page list; this function
    * is not part of the API */
   ((trunk_handle *)splinterdb_get_trunk_handle(DB))->mini.meta_head = meta_head;
   trunk_destroy((trunk_handle *)splinterdb_get_trunk_handle(DB));
   uint64_t left = allocator_in_use((allocator *)al);
   uint64_t nz = 0, refs = 0;
   for (uint64_t i = 0; i < cap; i++) {
      uint8_t ref = allocator_get_refcount((allocator *)al, i * ext);
      if (ref) {
         nz++;
         refs += ref;
         if (i >= own && nz < 40)
            fprintf(stderr, "left extent %lu refs %u\n", i, ref);
      }
   }
   VF_CHECK(left == nz, "allocator reports %lu extents in use, %lu have references",
            left, nz);
   if (left > own) {
      fprintf(stderr, "leak by type since mount:");
      for (int t = 0; t < NUM_PAGE_TYPES; t++)
         fprintf(stderr, " %s=%ld", page_type_str[t],
                 (long)(al->stats.extent_allocs[t] - al->stats.extent_deallocs[t]));
      fprintf(stderr, "\n");
   }
   VF_CHECK(left == own,
            "after the table was destroyed %lu extents are still in use, the "
            "allocator's own are %lu (before: %lu)",
            left, own, before);
   unlink(C.path);
   vf_stat("writes", S_writes);
   vf_stat("reopens", reopens);
   vf_stat("usage_audits", audits);
   vf_stat("conservation_audits", 1);
   vf_stat("extents_released_by_destroy", before - left);
   vf_stat("device_bytes_written", vf_dev_bytes_written);
   vf_statmax("index_extents", trunk_total);
   vf_finish();
   return 0;
}
