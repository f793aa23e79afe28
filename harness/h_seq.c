/*
 * Sequential history checker: one application thread drives a randomly drawn
 * configuration with a long random history, and every answer (point lookups,
 * iterators in both directions, contents after reopen) is compared with a
 * reference model computed from the history alone.
 *
 * --focus point|scan|reopen chooses the mix.
 */
#include "dbcommon.h"

static uint64_t n_lookup, n_insert, n_update, n_delete, n_iter, n_itersteps,
   n_reopen, n_lookup_found, n_lookup_abs, n_revs;

static uint32_t
pick(vf_rng *r, int dist, uint32_t n, uint64_t step, uint32_t *cursor)
{
   switch (dist) {
      case 0:
         return vf_below(r, n);
      case 1: { /* skewed */
         uint64_t a = vf_below(r, n), b = vf_below(r, n), c = vf_below(r, n);
         uint64_t m = a < b ? a : b;
         return m < c ? m : c;
      }
      case 2: /* ascending */
         return (*cursor)++ % n;
      case 3: /* descending */
         return n - 1 - ((*cursor)++ % n);
      case 4: /* hot set */
         return vf_chance(r, 9, 10) ? (vf_mix(step >> 12) + vf_below(r, 40)) % n
                                    : vf_below(r, n);
      case 5: /* strided */
         *cursor += 97;
         return *cursor % n;
      default: /* local cluster that drifts */
         return (step / 50 + vf_below(r, 64)) % n;
   }
}

static void
iter_walk(splinterdb *db, const universe *u, const model *m, vf_rng *r)
{
   splinterdb_iterator *it;
   slice                start = NULL_SLICE;
   uint8_t              kb[MAXKEYLEN];
   uint32_t             kl   = 0;
   int64_t              pos;
   int                  kind = vf_below(r, 8);
   uint64_t             npresent_hint = 1;
   if (kind == 0) {
      pos = model_next(m, -1);
   } else {
      /* start from an existing key, a neighbour in byte space, or random */
      const ukey *k = &u->k[vf_below(r, u->n)];
      memcpy(kb, k->b, k->len);
      kl = k->len;
      if (kind >= 5) {
         int t = vf_below(r, 4);
         if (t == 0 && kl > 1)
            kl--;
         else if (t == 1 && kl < u->max_key)
            kb[kl++] = vf_rand(r);
         else if (t == 2)
            kb[kl - 1]++;
         else
            for (uint32_t i = 0; i < kl; i++)
               kb[i] = vf_rand(r);
      }
      if (kind == 4) { /* extremes */
         kl = u->max_key;
         memset(kb, vf_chance(r, 1, 2) ? 0xff : 0, kl);
      }
      start = slice_create(kl, kb);
      pos   = model_next(m, (int64_t)universe_lower(u, kb, kl) - 1);
   }
   (void)npresent_hint;
   int rc = splinterdb_iterator_init(db, &it, start);
   VF_CHECK(rc == 0, "iterator init failed with %d", rc);
   n_iter++;
   uint64_t total = model_count(m);
   if (total == 0) {
      VF_CHECK(!splinterdb_iterator_valid(it), "iterator valid on an empty database");
      splinterdb_iterator_deinit(it);
      return;
   }
   check_iter_at(it, u, m, pos, "iterator start");
   int      style = vf_below(r, 5);
   uint64_t steps = vf_chance(r, 1, 6) ? m->n * 2 + 50 : 10 + vf_below(r, 300);
   int      dir   = vf_chance(r, 1, 3) ? -1 : 1;
   uint64_t dirsig = kind;
   for (uint64_t s = 0; s < steps; s++) {
      if (style == 0)
         dir = 1;
      else if (style == 1)
         dir = -1;
      else if (style == 2) {
         if (vf_chance(r, 1, 8))
            dir = -dir;
      } else if (style == 3)
         dir = vf_chance(r, 1, 2) ? 1 : -1;
      else { /* bounce at the ends */
         if (pos >= m->n)
            dir = -1;
         else if (pos < 0)
            dir = 1;
         else if (vf_chance(r, 1, 64))
            dir = -dir;
      }
      if (dir > 0) {
         if (pos >= m->n) {
            if (style == 0)
               break;
            continue;
         }
         splinterdb_iterator_next(it);
         pos = model_next(m, pos);
      } else {
         if (pos < 0) {
            if (style == 1)
               break;
            continue;
         }
         splinterdb_iterator_prev(it);
         pos = model_prev(m, pos);
      }
      if (s < 12)
         dirsig = dirsig * 3 + (dir > 0);
      n_itersteps++;
      check_iter_at(it, u, m, pos, "iterator step");
   }
   vf_distinct("iter", dirsig * 1000003 + pos);
   splinterdb_iterator_deinit(it);
}

int
main(int argc, char **argv)
{
   uint64_t    seed  = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir   = vf_arg_str(argc, argv, "dir", "/tmp");
   uint64_t    nops  = vf_arg_u64(argc, argv, "ops", 60000);
   const char *focus = vf_arg_str(argc, argv, "focus", "point");
   uint32_t    nkeys = vf_arg_u64(argc, argv, "keys", 0);
   uint32_t    maxpad = vf_arg_u64(argc, argv, "maxpad", 9999);
   uint32_t    iterevery = vf_arg_u64(argc, argv, "iterevery", 0);
   int         scan = !strcmp(focus, "scan"), reop = !strcmp(focus, "reopen");
   vf_rng      r = {vf_mix(seed * 1000 + 17)};
   if (!nkeys) {
      static const uint32_t nk[] = {50, 300, 2000, 6000, 20000};
      nkeys = nk[vf_below(&r, 5)];
   }
   dbcfg c;
   dbcfg_random(&c, &r, dir, "seq.db", nkeys,
                vf_arg_u64(argc, argv, "merge", 0) ? CF_MERGE : 0);
   if (maxpad != 9999)
      g_maxpad = maxpad;
   char desc[512];
   dbcfg_describe(&c, desc, sizeof desc);
   vf_sample("config seed=%lu focus=%s %s", seed, focus, desc);
   fprintf(stderr, "config %s\n", desc);
   vf_perturb_config(seed, vf_chance(&r, 1, 2) ? 3000 : 0, 20000);
   int        devmon = vf_arg_u64(argc, argv, "devmon", 0);
   vf_dev_cfg dv = {.mode = vf_chance(&r, 1, 3) || devmon ? VF_DEV_EMU : VF_DEV_PASS,
                    .max_delay_us = devmon ? 60 : 5,
                    .monitor      = devmon,
                    .seed         = seed};
   vf_dev_config(&dv);

   splinterdb *db;
   int         rc = db_open_or_create(&c, &db, false);
   VF_CHECK(rc == 0, "create failed with %d for a valid configuration: %s", rc,
            desc);
   model m;
   model_init(&m, c.u.n);
   uint64_t opid   = seed << 32;
   uint32_t cursor = vf_below(&r, c.u.n);
   int      dist = 0, wmix = 0;
   splinterdb_lookup_result res;
   char ubuf[300];
   splinterdb_lookup_result_init(db, &res, vf_chance(&r, 1, 2) ? sizeof ubuf : 0, ubuf);

   uint64_t phase_left = 0;
   uint64_t full_every = nops / (scan ? 6 : 4) + 1;
   uint64_t reopen_every = reop ? nops / 10 + 1 : nops / 2 + 1;
   /* keys below this index are never written: they must stay absent */
   uint32_t hole = vf_below(&r, 10);
   for (uint64_t step = 0; step < nops; step++) {
      if (phase_left-- == 0) {
         dist       = vf_below(&r, 7);
         wmix       = vf_below(&r, 5);
         phase_left = 200 + vf_below(&r, nops / 6 + 1);
      }
      uint64_t x  = vf_below(&r, 100);
      uint32_t id = pick(&r, dist, c.u.n, step, &cursor);
      uint32_t rp = scan ? 5 : 25; /* read percentage */
      if (x < rp) {
         if (vf_chance(&r, 1, 3))
            id = vf_below(&r, c.u.n);
         check_lookup(db, &c.u, &m, id, &res, "point lookup");
         n_lookup++;
         if (m.present[id])
            n_lookup_found++;
         else
            n_lookup_abs++;
      } else {
         if (id % 10 == hole)
            continue;
         int      op;
         uint64_t y = vf_below(&r, 100);
         /* mixes: insert-heavy, update-heavy, delete-heavy, balanced */
         static const int mixes[5][2] = {{95, 98}, {30, 95}, {40, 50}, {50, 80},
                                         {10, 95}};
         if (y < (uint64_t)mixes[wmix][0])
            op = OP_INSERT;
         else if (y < (uint64_t)mixes[wmix][1])
            op = c.merge ? OP_UPDATE : OP_INSERT;
         else
            op = OP_DELETE;
         opid++;
         rc = db_apply(db, &c.u, id, op, opid);
         VF_CHECK(rc == 0, "write op %d failed with %d", op, rc);
         model_apply(&m, id, op, opid);
         if (op == OP_INSERT)
            n_insert++;
         else if (op == OP_UPDATE)
            n_update++;
         else
            n_delete++;
         if (vf_chance(&r, 1, 50)) { /* read your own write */
            check_lookup(db, &c.u, &m, id, &res, "read after write");
            n_lookup++;
         }
      }
      if (vf_chance(&r, 1, iterevery ? iterevery : scan ? 150 : 4000))
         iter_walk(db, &c.u, &m, &r);
      if (step % full_every == full_every - 1) {
         if (!scan)
            check_all_lookups(db, &c.u, &m, "full verification");
         check_full_scan(db, &c.u, &m, "full scan");
      }
      if (step % reopen_every == reopen_every - 1) {
         splinterdb_lookup_result_deinit(&res);
         splinterdb_close(&db);
         if (vf_chance(&r, 1, 3)) { /* settings that may change between opens */
            c.cfg.cache_size += vf_below(&r, 3) << 20;
            c.cfg.num_memtable_bg_threads = vf_below(&r, 3);
            c.cfg.num_normal_bg_threads =
               c.cfg.num_memtable_bg_threads ? 1 + vf_below(&r, 3) : 0;
            c.cfg.use_stats = vf_chance(&r, 1, 2);
         }
         rc = db_open_or_create(&c, &db, true);
         VF_CHECK(rc == 0, "reopen after a clean close failed with %d", rc);
         splinterdb_lookup_result_init(db, &res, 0, NULL);
         n_reopen++;
         if (reop || vf_chance(&r, 1, 2)) {
            check_all_lookups(db, &c.u, &m, "after reopen");
            check_full_scan(db, &c.u, &m, "scan after reopen");
         }
      }
      if (step % 512 == 0)
         vf_distinct("state", vf_hash_bytes(m.present, m.n, m.v[step % m.n].h));
   }
   check_all_lookups(db, &c.u, &m, "final");
   check_full_scan(db, &c.u, &m, "final scan");
   splinterdb_lookup_result_deinit(&res);
   splinterdb_close(&db);
   if (reop) {
      rc = db_open_or_create(&c, &db, true);
      VF_CHECK(rc == 0, "final reopen failed with %d", rc);
      check_all_lookups(db, &c.u, &m, "final reopen");
      check_full_scan(db, &c.u, &m, "final reopen scan");
      splinterdb_close(&db);
   }
   unlink(c.path);
   vf_stat("lookups", n_lookup);
   vf_stat("lookups_present", n_lookup_found);
   vf_stat("lookups_absent", n_lookup_abs);
   vf_stat("inserts", n_insert);
   vf_stat("updates", n_update);
   vf_stat("deletes", n_delete);
   vf_stat("iterators", n_iter);
   vf_stat("iterator_steps", n_itersteps);
   vf_stat("reopens", n_reopen);
   vf_stat("device_writes", vf_dev_writes);
   vf_stat("device_async_requests", vf_dev_submits);
   vf_statmax("device_inflight", vf_dev_inflight_max);
   vf_stat("merge_callbacks", g_cb_merge);
   vf_stat("final_merge_callbacks", g_cb_final);
   vf_finish();
   return 0;
}
