/*
 * Merge monitor (C15).  Runs are arrays of (key, message) whose current item
 * lives in memory of its own that is scribbled over and freed as soon as the
 * run moves, as a page may be.  Walks in both directions are compared with a
 * fold over the messages of each key.
 */
#include "comp.h"
#include "merge.h"
#include "splinterdb/data.h"
/* empty messages have no address */
static int
same(const void *a, const void *b, size_t n)
{
   return n == 0 || memcmp(a, b, n) == 0;
}
static void
put_bytes(void *d, const void *s, size_t n)
{
   if (n)
      memcpy(d, s, n);
}
static data_config DC;
static vf_rng      R;
static int         REV;
static uint64_t    SEED;
static uint64_t S_items, S_runs, S_walks, S_turns, S_folds, S_maxdup, S_del_dropped, S_upd_final, S_raw, S_ends, S_arity, S_killed, S_cbm, S_cbf;

/* ---- messages: a list of operation ids; id&1023 == 0 removes the value ---- */
typedef struct msg {
   message_type c;
   uint32_t     n;
   uint32_t    *op;
} msg;
#define IS_KILL(x) (((x)&1023) == 0)
/* apply ops to (present, list) */
static bool
apply(bool present, uint32_t *l, uint32_t *n, const uint32_t *op, uint32_t nop)
{
   for (uint32_t i = 0; i < nop; i++) {
      if (IS_KILL(op[i])) {
         present = false;
         *n      = 0;
      } else {
         if (!present)
            *n = 0;
         present = true;
         l[(*n)++] = op[i];
      }
   }
   return present;
}
static int
set_acc(merge_accumulator *a, message_type c, const uint32_t *l, uint32_t n)
{
   if (!merge_accumulator_resize(a, n * 4))
      return -1;
   put_bytes(merge_accumulator_data(a), l, n * 4);
   merge_accumulator_set_class(a, c);
   return 0;
}
static int
cb_merge(const data_config *cfg, slice k, message old, merge_accumulator *new)
{
   S_cbm++;
   VF_CHECK(merge_accumulator_message_class(new) == MESSAGE_TYPE_UPDATE, "merge callback with a newer message of class %d",
            merge_accumulator_message_class(new));
   VF_CHECK(message_class(old) == MESSAGE_TYPE_INSERT || message_class(old) == MESSAGE_TYPE_UPDATE,
            "merge callback with an older message of class %d", message_class(old));
   uint32_t no = message_length(old) / 4, nn = merge_accumulator_length(new) / 4;
   uint32_t *l = malloc((no + nn + 1) * 4), *u = malloc((nn + 1) * 4);
   put_bytes(l, message_data(old), no * 4);
   put_bytes(u, merge_accumulator_data(new), nn * 4);
   int rc;
   if (message_class(old) == MESSAGE_TYPE_UPDATE) {
      put_bytes(l + no, u, nn * 4);
      rc = set_acc(new, MESSAGE_TYPE_UPDATE, l, no + nn);
   } else {
      uint32_t n = no;
      bool     p = apply(true, l, &n, u, nn);
      rc         = set_acc(new, p ? MESSAGE_TYPE_INSERT : MESSAGE_TYPE_DELETE, l, p ? n : 0);
   }
   free(l);
   free(u);
   return rc;
}
static int
cb_final(const data_config *cfg, slice k, merge_accumulator *new)
{
   S_cbf++;
   VF_CHECK(merge_accumulator_message_class(new) == MESSAGE_TYPE_UPDATE, "final merge callback with a message of class %d",
            merge_accumulator_message_class(new));
   uint32_t  nn = merge_accumulator_length(new) / 4, n = 0;
   uint32_t *l = malloc((nn + 1) * 4), *u = malloc((nn + 1) * 4);
   put_bytes(u, merge_accumulator_data(new), nn * 4);
   bool p  = apply(false, l, &n, u, nn);
   int  rc = set_acc(new, p ? MESSAGE_TYPE_INSERT : MESSAGE_TYPE_DELETE, l, p ? n : 0);
   free(l);
   free(u);
   return rc;
}
static int
cb_cmp(const data_config *cfg, slice a, slice b)
{
   size_t n = a.length < b.length ? a.length : b.length;
   int    c = memcmp(a.data, b.data, n);
   if (!c)
      c = a.length < b.length ? -1 : a.length > b.length;
   return REV ? -c : c;
}
static void
cb_str(const data_config *cfg, slice k, char *s, uint64 n)
{
   snprintf(s, n, "k%lu", k.length);
}
static void
cb_mstr(const data_config *cfg, message m, char *s, uint64 n)
{
   snprintf(s, n, "m%lu", message_length(m));
}

/* ---- keys: id -> bytes, ordered by id (or reversed) ---- */
static uint32_t PADMAX;
static uint32_t
mk_key(uint64_t id, uint8_t *b)
{
   uint32_t v = REV ? 0x7fffffff - id : id;
   b[0] = v >> 24, b[1] = v >> 16, b[2] = v >> 8, b[3] = v;
   vf_rng   r = {vf_mix(SEED ^ vf_mix(id))};
   uint32_t n = 4 + (PADMAX ? vf_below(&r, PADMAX) : 0);
   for (uint32_t i = 4; i < n; i++)
      b[i] = vf_rand(&r);
   return n;
}

/* ---- a run ---- */
typedef struct run {
   iterator  super;
   uint32_t  n;
   int64_t   i;
   uint32_t *id;
   msg      *m;
   uint8_t  *kb, *mb; /* where the current item lives */
   uint32_t  kn, mn;
   uint64_t  moves;
} run;
static void
drop(run *r)
{
   if (r->kb) {
      memset(r->kb, 0xEE, r->kn);
      free(r->kb);
   }
   if (r->mb) {
      memset(r->mb, 0xEE, r->mn);
      free(r->mb);
   }
   r->kb = r->mb = NULL;
}
static bool32
run_can_prev(iterator *it)
{
   run *r = (run *)it;
   return r->n && r->i >= 0;
}
static bool32
run_can_next(iterator *it)
{
   run *r = (run *)it;
   return r->n && r->i < (int64_t)r->n;
}
static void
run_curr(iterator *it, key *k, message *m)
{
   run *r = (run *)it;
   VF_CHECK(run_can_next(it) && run_can_prev(it), "the merge asks a run for an item at position %ld of %u", r->i, r->n);
   if (!r->kb) {
      uint8_t b[256];
      r->kn = mk_key(r->id[r->i], b);
      r->kb = malloc(r->kn);
      put_bytes(r->kb, b, r->kn);
      r->mn = r->m[r->i].n * 4;
      r->mb = malloc(r->mn + 1);
      put_bytes(r->mb, r->m[r->i].op, r->mn);
   }
   *k = key_create(r->kn, r->kb);
   *m = message_create(r->m[r->i].c, slice_create(r->mn, r->mb));
}
static platform_status
run_next(iterator *it)
{
   run *r = (run *)it;
   VF_CHECK(run_can_next(it), "the merge moves a run of %u past its end", r->n);
   drop(r);
   r->i++;
   r->moves++;
   return STATUS_OK;
}
static platform_status
run_prev(iterator *it)
{
   run *r = (run *)it;
   VF_CHECK(run_can_prev(it), "the merge moves a run of %u before its start", r->n);
   drop(r);
   r->i--;
   r->moves++;
   return STATUS_OK;
}
static void
run_print(iterator *it)
{
}
static const iterator_ops OPS = {
   .curr = run_curr, .can_prev = run_can_prev, .can_next = run_can_next, .next = run_next, .prev = run_prev, .print = run_print};

/* ---- model ---- */
typedef struct item {
   uint32_t id;
   msg      m;
   uint32_t copies;
} item;
static run      *RUNS;
static uint32_t  NR, U;
/* fold the messages of key id; newest run last */
static bool
fold(uint32_t id, msg *out, uint32_t *copies)
{
   bool         have = false, present = false;
   message_type c    = MESSAGE_TYPE_INVALID;
   uint32_t     cap = 1, n = 0;
   *copies = 0;
   for (uint32_t r = 0; r < NR; r++)
      for (uint32_t i = 0; i < RUNS[r].n; i++)
         if (RUNS[r].id[i] == id)
            cap += RUNS[r].m[i].n;
   uint32_t *l = malloc(cap * 4);
   for (uint32_t r = 0; r < NR; r++) {
      uint32_t lo = 0, hi = RUNS[r].n;
      while (lo < hi) {
         uint32_t mid = (lo + hi) / 2;
         if (RUNS[r].id[mid] < id)
            lo = mid + 1;
         else
            hi = mid;
      }
      if (lo == RUNS[r].n || RUNS[r].id[lo] != id)
         continue;
      msg *m = &RUNS[r].m[lo];
      (*copies)++;
      if (m->c == MESSAGE_TYPE_UPDATE) {
         if (!have || c == MESSAGE_TYPE_UPDATE) {
            put_bytes(l + n, m->op, m->n * 4);
            n += m->n;
            c = MESSAGE_TYPE_UPDATE;
         } else {
            present = apply(present, l, &n, m->op, m->n);
            c       = present ? MESSAGE_TYPE_INSERT : MESSAGE_TYPE_DELETE;
         }
      } else {
         put_bytes(l, m->op, m->n * 4);
         n       = m->n;
         c       = m->c;
         present = c == MESSAGE_TYPE_INSERT;
      }
      have = true;
   }
   out->c  = c;
   out->n  = n;
   out->op = l;
   if (!have)
      free(l);
   return have;
}
static item    *IT;
static uint32_t NI;
static void
build_model(int mode)
{
   IT = calloc(U + 1, sizeof(*IT));
   NI = 0;
   for (uint32_t id = 0; id < U; id++) {
      item x = {.id = id};
      if (!fold(id, &x.m, &x.copies))
         continue;
      if (x.copies > S_maxdup)
         S_maxdup = x.copies;
      if (x.copies > 1)
         S_folds++;
      if (mode == 2) {
         if (x.m.c == MESSAGE_TYPE_UPDATE) {
            uint32_t  n = 0;
            uint32_t *l = malloc((x.m.n + 1) * 4);
            bool      p = apply(false, l, &n, x.m.op, x.m.n);
            free(x.m.op);
            x.m.op = l;
            x.m.n  = n;
            x.m.c  = p ? MESSAGE_TYPE_INSERT : MESSAGE_TYPE_DELETE;
            S_upd_final++;
            S_killed += !p;
         }
         if (x.m.c == MESSAGE_TYPE_DELETE) {
            S_del_dropped++;
            free(x.m.op);
            continue;
         }
      }
      IT[NI++] = x;
   }
}
static const char *CLS[] = {"invalid", "insert", "update", "delete"};
static void
expect(merge_iterator *mi, int64_t pos, const char *where)
{
   iterator *it = (iterator *)mi;
   bool      in = pos >= 0 && pos < (int64_t)NI;
   VF_CHECK(!!iterator_can_curr(it) == in, "%s: position %ld of %u: can_prev %d can_next %d", where, pos, NI,
            iterator_can_prev(it), iterator_can_next(it));
   if (NI) {
      VF_CHECK(!!iterator_can_next(it) == (pos < (int64_t)NI), "%s: position %ld of %u: can_next %d", where, pos, NI,
               iterator_can_next(it));
      VF_CHECK(!!iterator_can_prev(it) == (pos >= 0), "%s: position %ld of %u: can_prev %d", where, pos, NI,
               iterator_can_prev(it));
   }
   if (!in) {
      S_ends++;
      return;
   }
   for (int rep = 0; rep < (vf_chance(&R, 1, 8) ? 2 : 1); rep++) {
      key     k;
      message m;
      iterator_curr(it, &k, &m);
      uint8_t  b[256];
      uint32_t n = mk_key(IT[pos].id, b);
      VF_CHECK(key_length(k) == n && !memcmp(key_data(k), b, n),
               "%s: position %ld of %u (key %u): another key is returned (length %lu, number %u)", where, pos, NI,
               IT[pos].id, key_length(k),
               key_length(k) >= 4 ? (((uint8_t *)key_data(k))[2] << 8 | ((uint8_t *)key_data(k))[3]) : 0);
      msg *x = &IT[pos].m;
      VF_CHECK(message_class(m) == x->c, "%s: key %u with %u copies: class %s, expected %s", where, IT[pos].id,
               IT[pos].copies, message_class(m) < 4 ? CLS[message_class(m)] : "?", CLS[x->c]);
      if (x->c != MESSAGE_TYPE_DELETE)
         VF_CHECK(message_length(m) == x->n * 4 && same(message_data(m), x->op, x->n * 4),
                  "%s: key %u with %u copies (%s): the %lu operations differ from the %u expected", where, IT[pos].id,
                  IT[pos].copies, CLS[x->c], message_length(m) / 4, x->n);
   }
   S_items++;
}
static void
place(bool fwd, int64_t start)
{
   /* forwards: first item >= start; backwards: last item <= start */
   for (uint32_t r = 0; r < NR; r++) {
      run *q = &RUNS[r];
      drop(q);
      q->i = 0;
      while (q->i < (int64_t)q->n && (int64_t)q->id[q->i] < start)
         q->i++;
      if (!fwd && (q->i == (int64_t)q->n || q->id[q->i] != start))
         q->i--;
   }
}
static void
walk(int mode)
{
   bool    fwd   = vf_chance(&R, 1, 2);
   int64_t start = vf_chance(&R, 1, 3) ? (fwd ? 0 : U) : vf_chance(&R, 1, 8) ? (fwd ? U : -1) : vf_below(&R, U + 1);
   place(fwd, start);
   iterator **arr = calloc(NR + 1, sizeof(*arr));
   for (uint32_t r = 0; r < NR; r++)
      arr[r] = &RUNS[r].super;
   merge_behavior  mb = mode == 0 ? MERGE_RAW : mode == 1 ? MERGE_INTERMEDIATE : MERGE_FULL;
   merge_iterator *mi = NULL;
   platform_status rc = fwd && vf_chance(&R, 1, 2) ? merge_iterator_create(PROCESS_PRIVATE_HEAP_ID, &DC, NR, arr, mb, &mi)
                                                   : merge_iterator_create_in_direction(PROCESS_PRIVATE_HEAP_ID, &DC, NR, arr, mb, fwd, &mi);
   VF_CHECK(SUCCESS(rc), "creating a merge of %u runs failed", NR);
   S_walks++;
   iterator *it = (iterator *)mi;
   if (mode == 0) {
      /* every copy comes out once, by key */
      int64_t  last = fwd ? -1 : (int64_t)U + 1;
      uint32_t total = 0, seen = 0;
      uint8_t *hit = calloc(NR + 1, 1);
      for (uint32_t r = 0; r < NR; r++)
         total += fwd ? RUNS[r].n - RUNS[r].i : RUNS[r].i + 1;
      while (iterator_can_curr(it)) {
         key     k;
         message m;
         iterator_curr(it, &k, &m);
         uint8_t *d = (uint8_t *)key_data(k);
         VF_CHECK(key_length(k) >= 4, "raw merge returns a key of %lu bytes", key_length(k));
         int64_t id = (uint32_t)d[0] << 24 | d[1] << 16 | d[2] << 8 | d[3];
         if (REV)
            id = 0x7fffffff - id;
         VF_CHECK(id < U && (fwd ? id >= last : id <= last), "raw merge returns key %ld after %ld", id, last);
         if (id != last)
            memset(hit, 0, NR);
         last = id;
         bool ok = false;
         for (uint32_t r = 0; r < NR && !ok; r++) {
            run *q = &RUNS[r];
            if (hit[r])
               continue;
            for (uint32_t i = 0; i < q->n; i++)
               if (q->id[i] == id && q->m[i].c == message_class(m) && q->m[i].n * 4 == message_length(m)
                   && same(q->m[i].op, message_data(m), q->m[i].n * 4)) {
                  ok     = true;
                  hit[r] = 1;
                  break;
               }
         }
         VF_CHECK(ok, "raw merge returns a message of key %ld that no run has, or has once", id);
         seen++;
         S_raw++;
         rc = fwd ? iterator_next(it) : iterator_prev(it);
         VF_CHECK(SUCCESS(rc), "step failed");
      }
      VF_CHECK(seen == total, "raw merge returns %u of %u items", seen, total);
      free(hit);
      goto out;
   }
   build_model(mode);
   int64_t pos;
   if (fwd) {
      for (pos = 0; pos < (int64_t)NI && (int64_t)IT[pos].id < start; pos++)
         ;
   } else {
      for (pos = (int64_t)NI - 1; pos >= 0 && (int64_t)IT[pos].id > start; pos--)
         ;
   }
   expect(mi, pos, fwd ? "at the start of a forward walk" : "at the start of a backward walk");
   uint32_t steps = 20 + vf_below(&R, 3 * NI + 40), i = 0;
   bool     dir   = vf_chance(&R, 3, 4) ? fwd : !fwd;
   while (i < steps) {
      uint32_t burst = vf_chance(&R, 1, 3) ? 1 : vf_chance(&R, 1, 4) ? NI + 1 : 1 + vf_below(&R, NI / 2 + 4);
      for (uint32_t j = 0; j < burst && i < steps; j++, i++) {
         if (dir ? !iterator_can_next(it) : !iterator_can_prev(it))
            break;
         VF_CHECK(NI == 0 || (dir ? pos < (int64_t)NI : pos >= 0), "internal");
         rc = dir ? iterator_next(it) : iterator_prev(it);
         VF_CHECK(SUCCESS(rc), "step failed");
         pos += dir ? 1 : -1;
         if (NI == 0)
            pos = dir ? 0 : -1;
         if (pos > (int64_t)NI)
            pos = NI;
         if (pos < -1)
            pos = -1;
         expect(mi, pos, dir ? "forward" : "backward");
      }
      i++;
      dir = !dir;
      S_turns++;
   }
   for (uint32_t x = 0; x < NI; x++)
      free(IT[x].m.op);
   free(IT);
out:
   merge_iterator_destroy(PROCESS_PRIVATE_HEAP_ID, &mi);
   free(arr);
}
int
main(int argc, char **argv)
{
   SEED = vf_arg_u64(argc, argv, "seed", 1);
   R    = (vf_rng){vf_mix(SEED + 77)};
   comp_quiet();
   DC = (data_config){.max_key_size       = 256,
                      .key_compare        = cb_cmp,
                      .key_hash           = platform_hash32,
                      .merge_tuples       = cb_merge,
                      .merge_tuples_final = cb_final,
                      .key_to_string      = cb_str,
                      .message_to_string  = cb_mstr};
   uint64_t rounds = vf_arg_u64(argc, argv, "rounds", 30);
   uint32_t opid   = 1;
   for (uint64_t rd = 0; rd < rounds; rd++) {
      REV    = vf_chance(&R, 1, 4);
      PADMAX = vf_chance(&R, 1, 2) ? 0 : 1 + vf_below(&R, 200);
      NR     = vf_chance(&R, 1, 40) ? 1023 : vf_chance(&R, 1, 12) ? vf_below(&R, 3) : 1 + vf_below(&R, vf_chance(&R, 1, 4) ? 60 : 9);
      if (NR > S_arity)
         S_arity = NR;
      U = 1 + vf_below(&R, NR > 500 ? 40 : vf_chance(&R, 1, 3) ? 12 : 200);
      uint32_t style = vf_below(&R, 4);
      uint32_t dens = 1 + vf_below(&R, 100), pu = vf_below(&R, 100), pd = vf_below(&R, 100), pk = vf_chance(&R, 1, 2) ? 0 : vf_below(&R, 40);
      RUNS          = calloc(NR + 1, sizeof(run));
      for (uint32_t r = 0; r < NR; r++) {
         run *q       = &RUNS[r];
         q->super.ops = &OPS;
         q->id        = malloc((U + 1) * 4);
         q->m         = malloc((U + 1) * sizeof(msg));
         uint32_t d   = vf_chance(&R, 1, 8) ? 0 : style == 1 ? 100 : style == 2 ? 1 + vf_below(&R, 100) : dens;
         uint32_t lo = 0, hi = U;
         if (style == 3) {
            lo = vf_below(&R, U);
            hi = lo + 1 + vf_below(&R, U - lo);
         }
         for (uint32_t id = lo; id < hi; id++) {
            if (!vf_chance(&R, d, 100))
               continue;
            msg *m    = &q->m[q->n];
            q->id[q->n++] = id;
            m->c = vf_chance(&R, pu, 100) ? MESSAGE_TYPE_UPDATE : vf_chance(&R, pd, 100) ? MESSAGE_TYPE_DELETE : MESSAGE_TYPE_INSERT;
            m->n = m->c == MESSAGE_TYPE_DELETE ? 0 : m->c == MESSAGE_TYPE_UPDATE ? 1 + vf_below(&R, 3) : vf_below(&R, 8);
            if (m->c != MESSAGE_TYPE_DELETE && vf_chance(&R, 1, 50))
               m->n = 100 + vf_below(&R, 250);
            m->op = malloc((m->n + 1) * 4);
            for (uint32_t i = 0; i < m->n; i++) {
               do {
                  opid++;
               } while (IS_KILL(opid));
               m->op[i] = opid;
               if (m->c == MESSAGE_TYPE_UPDATE && vf_chance(&R, pk, 100))
                  m->op[i] = opid & ~1023u;
            }
         }
         S_runs++;
      }
      for (int w = 0; w < 4; w++)
         walk(vf_chance(&R, 1, 6) ? 0 : 1 + vf_below(&R, 2));
      for (uint32_t r = 0; r < NR; r++) {
         drop(&RUNS[r]);
         for (uint32_t i = 0; i < RUNS[r].n; i++)
            free(RUNS[r].m[i].op);
         free(RUNS[r].id);
         free(RUNS[r].m);
      }
      free(RUNS);
      vf_distinct("shapes", vf_mix(NR * 1000003ull + U * 64 + style * 8 + REV));
   }
   vf_stat("items_compared", S_items);
   vf_stat("raw_items_compared", S_raw);
   vf_stat("runs", S_runs);
   vf_stat("walks", S_walks);
   vf_stat("changes_of_direction", S_turns);
   vf_stat("keys_with_several_messages", S_folds);
   vf_statmax("most_messages_for_a_key", S_maxdup);
   vf_statmax("most_runs_in_a_merge", S_arity);
   vf_stat("deletes_dropped", S_del_dropped);
   vf_stat("updates_finalised", S_upd_final);
   vf_stat("updates_that_remove", S_killed);
   vf_stat("positions_past_the_ends", S_ends);
   vf_stat("merge_callbacks", S_cbm);
   vf_stat("final_callbacks", S_cbf);
   vf_finish();
   return 0;
}
