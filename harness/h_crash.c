/*
 * Crash-point explorer.
 *
 * A scripted life of a database (several epochs of create/open, operations,
 * close) runs in a child process that dies at a chosen device write, of which
 * a chosen prefix still reaches the device.  A second child then opens the
 * file.  The oracle: the open is refused with an error (and the file can be
 * created anew), or the contents are exactly those of the last completed
 * close, or of the close or create that was in progress; an accepted database
 * must also keep working: written to, closed, reopened and compared again.
 */
#include "dbcommon.h"
#include <sys/mman.h>

#define MAXEP 8
typedef struct shared {
   volatile int      epoch;     /* epoch in progress */
   volatile int      phase;     /* 0 opening, 1 operating, 2 closing, 3 closed */
   volatile uint64_t w_open[MAXEP], w_ops[MAXEP], w_close[MAXEP], w_end[MAXEP];
   volatile uint64_t total;
   volatile int      outcome;   /* of a recovery: 1 refused, 2 accepted */
   volatile int      state;     /* which epoch's contents were found */
   volatile uint64_t checked;
} shared;

static dbcfg     C;
static shared   *S;
static int       NEP, PRIOR;
static uint64_t  EPOPS;
static model     M[MAXEP + 1]; /* M[e+1] = contents after epoch e; M[0] empty */
static uint64_t  SEED;
static vf_dev_cfg DV;

static void
epoch_ops(splinterdb *db, model *m, int e)
{
   vf_rng r = {vf_mix(SEED * 77 + e)};
   uint64_t n = EPOPS / 4 + vf_below(&r, EPOPS);
   if (vf_chance(&r, 1, 8))
      n = vf_below(&r, 5);
   for (uint64_t i = 0; i < n; i++) {
      uint32_t id = vf_below(&r, C.u.n);
      uint64_t y  = vf_below(&r, 100);
      int      op = y < 70 ? OP_INSERT : y < 85 ? (C.merge ? OP_UPDATE : OP_INSERT)
                                                : OP_DELETE;
      uint64_t opid = (SEED << 32) + ((uint64_t)e << 24) + i;
      if (db) {
         int rc = db_apply(db, &C.u, id, op, opid);
         VF_CHECK(rc == 0, "write failed with %d", rc);
      } else
         model_apply(m, id, op, opid);
   }
}
static void
life(uint64_t crash_at, uint64_t torn)
{
   vf_dev_config(&DV);
   if (crash_at)
      vf_dev_crash_at(crash_at, torn);
   for (int e = 0; e < NEP; e++) {
      S->epoch      = e;
      S->phase      = 0;
      S->w_open[e]  = vf_dev_writes;
      splinterdb *db;
      int rc = db_open_or_create(&C, &db, e > 0 && e != PRIOR);
      VF_CHECK(rc == 0, "epoch %d: %s failed with %d", e, e ? "open" : "create",
               rc);
      S->w_ops[e] = vf_dev_writes;
      S->phase    = 1;
      epoch_ops(db, NULL, e);
      S->w_close[e] = vf_dev_writes;
      S->phase      = 2;
      splinterdb_close(&db);
      S->w_end[e] = vf_dev_writes;
      S->phase    = 3;
   }
   S->total = vf_dev_writes;
}
static bool
contents_equal(splinterdb *db, const model *m)
{
   splinterdb_lookup_result res;
   splinterdb_lookup_result_init(db, &res, 0, NULL);
   bool ok = true;
   for (uint32_t i = 0; ok && i < C.u.n; i++) {
      int rc = splinterdb_lookup(db, ukey_slice(&C.u.k[i]), &res);
      VF_CHECK(rc == 0, "lookup after recovery failed with %d", rc);
      bool f = splinterdb_lookup_found(&res);
      if (f != (bool)m->present[i])
         ok = false;
      else if (f) {
         slice v;
         splinterdb_lookup_result_value(&res, &v);
         ok = mval_equal_bytes(m->v[i], slice_data(v), slice_length(v));
      }
   }
   splinterdb_lookup_result_deinit(&res);
   return ok;
}
static void
recover(int epoch, int phase)
{
   vf_dev_config(&DV);
   splinterdb *db = NULL;
   int         rc = db_open_or_create(&C, &db, true);
   char        what[100];
   static const char *ph[] = {"opening", "operating", "closing", "closed"};
   snprintf(what, sizeof what, "after a crash in epoch %d while %s", epoch, ph[phase]);
   if (rc != 0) {
      VF_CHECK(phase != 3, "%s (nothing was in progress) open failed with %d",
               what, rc);
      S->outcome = 1;
      /* the file can be created anew */
      model m;
      model_init(&m, C.u.n);
      rc = db_open_or_create(&C, &db, false);
      VF_CHECK(rc == 0, "%s: creating the refused file anew failed with %d", what, rc);
      check_all_lookups(db, &C.u, &m, "contents of the file created anew");
      for (uint32_t i = 0; i < 300; i++) {
         uint32_t id = vf_mix(i) % C.u.n;
         db_apply(db, &C.u, id, OP_INSERT, 1000 + i);
         model_apply(&m, id, OP_INSERT, 1000 + i);
      }
      splinterdb_close(&db);
      rc = db_open_or_create(&C, &db, true);
      VF_CHECK(rc == 0, "%s: reopening the file created anew failed with %d", what, rc);
      check_all_lookups(db, &C.u, &m, "contents of the recreated file after reopen");
      splinterdb_close(&db);
      return;
   }
   S->outcome = 2;
   /* allowed states: the last completed close; the close in progress; an
    * opened database may also be found as the opening left it */
   int cand[3], nc = 0;
   if (phase == 3)
      cand[nc++] = epoch + 1;
   else {
      cand[nc++] = epoch; /* M[epoch] = contents when epoch began */
      if (phase == 2)
         cand[nc++] = epoch + 1;
      if (phase == 0 && (epoch == 0 || epoch == PRIOR))
         cand[nc++] = 0;
   }
   int found = -1;
   for (int i = 0; i < nc && found < 0; i++)
      if (contents_equal(db, &M[cand[i]]))
         found = cand[i];
   if (found < 0) {
      for (int i = 0; i <= NEP; i++)
         if (contents_equal(db, &M[i]))
            vf_violation("%s open succeeded with the contents of the wrong "
                         "state (%d)", what, i);
      vf_violation("%s open succeeded but the contents are those of no closed "
                   "state", what);
   }
   S->state = found;
   S->checked += C.u.n;
   check_full_scan(db, &C.u, &M[found], what);
   /* life goes on */
   model m;
   model_init(&m, C.u.n);
   model_copy(&m, &M[found]);
   vf_rng r = {vf_mix(SEED * 99 + epoch)};
   for (int round = 0; round < 2; round++) {
      uint64_t n = round ? 500 : EPOPS;
      for (uint64_t i = 0; i < n; i++) {
         uint32_t id = vf_below(&r, C.u.n);
         uint64_t opid = (77ull << 40) + round * 1000000 + i;
         int      op   = vf_chance(&r, 4, 5) ? OP_INSERT : OP_DELETE;
         rc = db_apply(db, &C.u, id, op, opid);
         VF_CHECK(rc == 0, "%s: write after recovery failed with %d", what, rc);
         model_apply(&m, id, op, opid);
      }
      check_all_lookups(db, &C.u, &m, what);
      splinterdb_close(&db);
      rc = db_open_or_create(&C, &db, true);
      VF_CHECK(rc == 0, "%s: reopen after recovery failed with %d", what, rc);
      check_all_lookups(db, &C.u, &m, what);
   }
   check_full_scan(db, &C.u, &m, what);
   splinterdb_close(&db);
}

static int child_quiet_fd = -1;
/* run fn in a child; returns wait status */
static int
in_child(void (*fn)(uint64_t, uint64_t), uint64_t a, uint64_t b)
{
   fflush(stdout);
   fflush(stderr);
   pid_t p = fork();
   VF_ENV(p >= 0, "fork failed");
   if (p == 0) {
      fn(a, b);
      _exit(0);
   }
   int st;
   /* a recovery that does not end is a violation of the property too */
   for (int i = 0;; i++) {
      int w = waitpid(p, &st, WNOHANG);
      if (w == p)
         return st;
      if (i > 60000) {
         kill(p, SIGKILL);
         waitpid(p, &st, 0);
         vf_violation("a process hung for 60 s after crash point");
      }
      usleep(i < 200 ? 200 : 1000);
   }
}
static void
recover_fn(uint64_t e, uint64_t ph)
{
   recover(e, ph);
}

int
main(int argc, char **argv)
{
   SEED               = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir    = vf_arg_str(argc, argv, "dir", "/tmp");
   uint64_t    points = vf_arg_u64(argc, argv, "points", 24);
   vf_rng      r      = {vf_mix(SEED * 1000 + 31)};
   static const uint32_t nk[] = {20, 300, 1500, 4000};
   dbcfg_random(&C, &r, dir, "crash.db", nk[vf_below(&r, 4)], CF_SMALL | CF_NOSHM);
   C.cfg.disk_size = (128 + 128 * vf_below(&r, 4)) << 20;
   EPOPS           = 200 + vf_below(&r, 5000);
   if (g_maxpad < 300)
      g_maxpad = 300;
   NEP   = 1 + vf_below(&r, 3);
   PRIOR = NEP > 1 && vf_chance(&r, 1, 3) ? 1 : -1; /* epoch 1 creates anew */
   char desc[512];
   dbcfg_describe(&C, desc, sizeof desc);
   fprintf(stderr, "config %s epochs %d prior %d\n", desc, NEP, PRIOR);
   DV = (vf_dev_cfg){.mode = vf_chance(&r, 1, 2) ? VF_DEV_EMU : VF_DEV_PASS,
                     .max_delay_us = 200,
                     .monitor      = false,
                     .seed         = SEED};
   S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   for (int e = 0; e <= NEP; e++) {
      model_init(&M[e], C.u.n);
      if (e) {
         if (e - 1 != PRIOR)
            model_copy(&M[e], &M[e - 1]);
         epoch_ops(NULL, &M[e], e - 1);
      }
   }
   /* M[PRIOR] is also what is there while epoch PRIOR creates anew */
   int st = in_child(life, 0, 0);
   VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0,
            "the uncrashed life died with status 0x%x", st);
   shared ref = *S;
   vf_sample("seed=%lu %s epochs=%d recreate=%d device=%s writes=%lu close windows:"
             " %lu-%lu", SEED, desc, NEP, PRIOR, DV.mode ? "emulated" : "real",
             ref.total, ref.w_close[0], ref.w_end[0]);
   uint64_t nref = 0, nacc = 0, nclosed = 0, nprog = 0, ntorn = 0, done = 0,
            checked = 0;
   for (uint64_t p = 0; p < points; p++) {
      int      e = vf_below(&r, NEP);
      uint64_t lo, hi, n;
      int      where = vf_below(&r, 8);
      switch (where) {
         case 0:
         case 1: /* opening */
            lo = ref.w_open[e] + 1;
            hi = ref.w_ops[e] + 1;
            break;
         case 2: /* last writes of the close */
         case 3:
         case 4:
            hi = ref.w_end[e];
            lo = hi > 3 ? hi - 3 : 1;
            break;
         case 5:
         case 6:
            lo = ref.w_close[e] + 1;
            hi = ref.w_end[e];
            break;
         default:
            lo = 1;
            hi = ref.total;
      }
      if (hi < lo)
         hi = lo;
      n = lo + vf_below(&r, hi - lo + 1);
      uint64_t torn;
      switch (vf_below(&r, 4)) {
         case 0:
            torn = 0;
            break;
         case 1:
            torn = UINT64_MAX;
            break;
         case 2:
            torn = 512 * (1 + vf_below(&r, 8));
            break;
         default:
            torn = 4096 * (1 + vf_below(&r, 8));
      }
      if (torn && torn != UINT64_MAX)
         ntorn++;
      unlink(C.path);
      memset(S, 0, sizeof *S);
      st = in_child(life, n, torn);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
         ; /* this schedule needed fewer writes: crash after everything */
      else
         VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 99,
                  "the life up to crash point %lu died with status 0x%x", n, st);
      int ce = S->epoch, cp = S->phase;
      S->outcome = 0;
      fprintf(stderr, "point %lu torn %ld: epoch %d phase %d\n", n, (long)torn, ce, cp);
      st = in_child(recover_fn, ce, cp);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
         static const char *ph[] = {"opening", "operating", "closing", "closed"};
         if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
            vf_violation("recovery from a crash at write %lu (torn %ld, epoch %d "
                         "while %s) found a violation, see above", n, (long)torn,
                         ce, ph[cp]);
         vf_violation("recovery from a crash while %s died with status 0x%x "
                      "(%s), write %lu of epoch %d, torn %ld",
                      ph[cp], st,
                      S->outcome == 0   ? "in open"
                      : S->outcome == 1 ? "after refusing"
                                        : "after accepting",
                      n, ce, (long)torn);
      }
      done++;
      checked += S->checked;
      if (S->outcome == 1)
         nref++;
      else {
         nacc++;
         if (S->state == ce && cp != 3)
            nclosed++;
         else
            nprog++;
      }
      static vf_wlog dummy;
      (void)dummy;
      vf_distinct("crash", (((uint64_t)ce * 4 + cp) * 100000 + n) * 64
                              + (torn == UINT64_MAX ? 63 : torn / 512));
   }
   unlink(C.path);
   vf_stat("crash_points", done);
   vf_stat("torn_crash_points", ntorn);
   vf_stat("opens_refused", nref);
   vf_stat("opens_accepted", nacc);
   vf_stat("accepted_with_contents_of_previous_close", nclosed);
   vf_stat("accepted_with_contents_of_close_in_progress", nprog);
   vf_stat("keys_compared", checked);
   vf_finish();
   return 0;
}
