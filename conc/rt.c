// The runtime behind the instrumentation of `-Zsanitizer=thread`: a controlled scheduler and a happens-before race
// detector. Only one controlled thread runs at a time. Every atomic operation, futex call, yield and thread start or
// end is a step; the schedule says at which steps another thread takes over. Plain memory accesses are checked with
// vector clocks that follow the memory orderings of the atomic operations.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;

#define MAXT 4
#define MAXSTEP (1 << 18)
#define MAXPRE 16
enum { LOAD, STORE, RMW, ADD, CAS, FENCE, WAIT, WAKE, YIELD, START, END };

struct step {
  u64 loc;
  u8 tid, kind, mo, enabled; // enabled: the threads that could run at this step
  u8 free;                   // the running thread could not go on: switching costs no preemption
  u8 last;                   // 1: a counter reached zero, 2: a counter was decreased
  u8 same;                   // repeats the previous load of a spin loop
  u8 chosen;                 // the thread that ran
};
struct pre {
  u32 step, tid;
  u64 hash; // of the steps before
};
struct exec { // shared with the explorer
  u32 npre, nsteps, finished, deadlock, livelock, diverged, nraces, truncated;
  struct pre pre[MAXPRE];
  u64 race_addr[8];
  u64 race_pc[8][2];
  u8 race_tid[8][2];
  u8 race_w[8][2];
  u64 accesses;
  char out[MAXT][8192];
  struct step steps[MAXSTEP];
};

static struct exec *X;
static int N;
static int state[MAXT]; // 0 runnable, 1 blocked, 2 ended
static u32 *wait_addr[MAXT];
static int wait_seq[MAXT], seqno, timed[MAXT], timed_out[MAXT];
static u32 sem[MAXT], ready[MAXT], all_done;
static int cur = -1;
static u32 stepno, nextpre;
static u64 hash;
static int streak, alone;
static u64 streak_loc;
static u64 last_val[MAXT];
static u64 last_loc[MAXT];
static u32 last_step[MAXT];
static __thread int me = -1;
static __thread char *stk_lo, *stk_hi;
static __thread int busy; // inside the runtime
static pthread_key_t key;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void sem_wait_(u32 *s) {
  while (1) {
    u32 one = 1;
    if (__atomic_compare_exchange_n(s, &one, 0, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return;
    raw6(SYS_futex, (long)s, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
}
static void sem_post_(u32 *s) {
  __atomic_store_n(s, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)s, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void stop_all(void) {
  __atomic_store_n(&all_done, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&all_done, FUTEX_WAKE_PRIVATE, 99, 0, 0, 0);
}
static void park_forever(void) {
  while (1) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static u8 enabled(void) {
  u8 m = 0;
  for (int i = 0; i < N; i++)
    if (state[i] == 0) m |= 1 << i;
  return m;
}
static int next_of(u8 m, int t) {
  for (int i = 1; i <= N; i++)
    if (m >> ((t + i) % N) & 1) return (t + i) % N;
  return -1;
}
static void go(int t) {
  if (t == me) return;
  cur = t;
  sem_post_(&sem[t]);
  if (state[me] != 2) sem_wait_(&sem[me]);
}

// One step of the running thread. can_go: it may go on. Returns when it is the turn of this thread.
static void point(int kind, u64 loc, int mo, int can_go) {
  u8 en = enabled();
  if (!en) {
    // nobody can run: a waiter with a time limit times out, else this is a deadlock
    for (int i = 0; i < N; i++)
      if (state[i] == 1 && timed[i]) {
        state[i] = 0;
        timed_out[i] = 1;
        en |= 1 << i;
        break;
      }
    if (!en) {
      int left = 0;
      for (int i = 0; i < N; i++) left |= state[i] != 2;
      if (left) X->deadlock = 1;
      else X->finished = 1;
      X->nsteps = stepno;
      stop_all();
      if (left) park_forever();
      return;
    }
  }
  if (stepno >= MAXSTEP) {
    X->livelock = 1;
    X->nsteps = stepno;
    stop_all();
    park_forever();
  }
  struct step *s = &X->steps[stepno];
  s->tid = me;
  s->kind = kind;
  s->mo = mo;
  s->loc = loc;
  s->enabled = en;
  s->last = 0;
  s->same = 0;
  s->free = !can_go || !(en >> me & 1);
  int to = s->free ? next_of(en, me) : me;
  // a thread that keeps using one location waits for another one
  if (!s->free) {
    if (loc == streak_loc) streak++;
    else streak = 0, streak_loc = loc;
    if ((streak > (kind == ADD ? 5000 : 300) || ++alone > 20000) && (en & ~(1 << me))) {
      s->free = 1;
      streak = 0;
      to = next_of(en, me);
    }
  } else
    streak = 0;
  if (nextpre < X->npre && X->pre[nextpre].step == stepno) {
    struct pre *p = &X->pre[nextpre++];
    if ((p->hash != ~0ull && p->hash != hash) || !(en >> p->tid & 1)) X->diverged = stepno + 1;
    else to = p->tid;
  }
  hash = (hash ^ (loc + kind * 977 + me * 131071 + mo)) * 0x100000001b3ull;
  s->chosen = to;
  stepno++;
  X->nsteps = stepno;
  if (to != me) streak = 0, alone = 0;
  go(to);
}

// ------------------------------------------------------------------------------------------ vector clocks

typedef struct { u32 c[MAXT]; } vc;
static vc C[MAXT], ACQ[MAXT], REL[MAXT];
static void join(vc *a, const vc *b) {
  for (int i = 0; i < MAXT; i++)
    if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
#define LOCS (1 << 16)
static struct { u64 a; vc v; } locs[LOCS];
static vc *loc_vc(u64 a) {
  u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 40) & (LOCS - 1);
  for (int i = 0; i < LOCS; i++) {
    if (locs[h].a == a) return &locs[h].v;
    if (!locs[h].a) {
      locs[h].a = a;
      return &locs[h].v;
    }
    h = (h + 1) & (LOCS - 1);
  }
  abort();
}
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static int is_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
static int is_rel(int mo) { return mo >= 3; }
static void hb_load(u64 a, int mo) {
  vc *l = loc_vc(a);
  if (is_acq(mo)) join(&C[me], l);
  else join(&ACQ[me], l);
}
static void hb_store(u64 a, int mo, int rmw) {
  vc *l = loc_vc(a);
  if (!rmw) memset(l, 0, sizeof *l);
  if (is_rel(mo)) {
    join(l, &C[me]);
    C[me].c[me]++;
  } else
    join(l, &REL[me]);
}
static void hb_fence(int mo) {
  if (is_acq(mo)) join(&C[me], &ACQ[me]);
  if (is_rel(mo)) {
    REL[me] = C[me];
    C[me].c[me]++;
  }
}

// ------------------------------------------------------------------------------------------ plain accesses

#define CELLS (1 << 18)
struct cell {
  u64 a; // address / 8 + 1
  u32 w[MAXT][8], r[MAXT][8];
  u32 pw[MAXT], pr[MAXT];
};
static struct cell *cells;
static u32 ncells;
static struct cell *cell_of(u64 g, int create) {
  // neighbours stay together
  u32 h = ((u32)(((g >> 6) * 0x9E3779B97F4A7C15ull) >> 40) << 6 | (g & 63)) & (CELLS - 1);
  for (int i = 0; i < CELLS; i++) {
    if (cells[h].a == g + 1) return &cells[h];
    if (!cells[h].a) {
      if (!create) return 0;
      if (ncells > CELLS * 3 / 4) {
        X->truncated = 1;
        return 0;
      }
      ncells++;
      cells[h].a = g + 1;
      return &cells[h];
    }
    h = (h + 1) & (CELLS - 1);
  }
  return 0;
}
static void race(u64 a, int t2, int w1, int w2, u64 pc, u64 pc2) {
  u32 n = X->nraces;
  if (n < 8) {
    X->race_addr[n] = a;
    X->race_tid[n][0] = me;
    X->race_tid[n][1] = t2;
    X->race_w[n][0] = w1;
    X->race_w[n][1] = w2;
    X->race_pc[n][0] = pc;
    X->race_pc[n][1] = pc2;
  }
  X->nraces = n + 1;
}
extern char __executable_start;
static void plain(u64 a, u64 n, int w, u64 pc) {
  if (me < 0 || busy || !n) return;
  if ((char *)a >= stk_lo && (char *)a < stk_hi) return;
  X->accesses++;
  u32 rel = (u32)(pc - (u64)&__executable_start);
  u64 end = a + n;
  while (a < end) {
    u64 g = a >> 3;
    struct cell *c = cell_of(g, 1);
    u64 stop = (g + 1) << 3;
    if (stop > end) stop = end;
    if (c) {
      for (u64 b = a; b < stop; b++) {
        int k = b & 7;
        for (int t = 0; t < N; t++) {
          if (t == me) continue;
          if (c->w[t][k] > C[me].c[t]) {
            race(b, t, w, 1, rel, c->pw[t]);
            c->w[t][k] = 0;
          }
          if (w && c->r[t][k] > C[me].c[t]) {
            race(b, t, w, 0, rel, c->pr[t]);
            c->r[t][k] = 0;
          }
        }
        if (w) c->w[me][k] = C[me].c[me], c->pw[me] = rel;
        else c->r[me][k] = C[me].c[me], c->pr[me] = rel;
      }
    }
    a = stop;
  }
}
// memory that is handed out is new
static void fresh(void *p, size_t n) {
  if (me < 0 || !p) return;
  u64 a = (u64)p >> 3, e = ((u64)p + n + 7) >> 3;
  if (e - a > CELLS) {
    for (u32 i = 0; i < CELLS; i++)
      if (cells[i].a && cells[i].a - 1 >= a && cells[i].a - 1 < e) {
        u64 k = cells[i].a;
        memset(&cells[i], 0, sizeof cells[i]);
        cells[i].a = k;
      }
    return;
  }
  for (; a < e; a++) {
    struct cell *c = cell_of(a, 0);
    if (c) {
      memset(c, 0, sizeof *c);
      c->a = a + 1;
    }
  }
}
// freeing is a write by this thread
static void freed(void *p, size_t n) {
  if (me < 0 || !p) return;
  plain((u64)p, n, 1, (u64)__builtin_return_address(0));
}

// The heap of an execution, with the stacks of its threads: addresses depend on the schedule only, and not on what
// the explorer has allocated. Blocks allocated by the explorer are never given back.
#define HEAP (1ull << 30)
#define STACK (4ull << 20)
static char *heap, *top;
static int on;
#define BLKS (1 << 20)
static struct blk { char *p; u64 c; } *blk; // the blocks ever made, by address
static u8 *mk;
static u32 nblk, *todo;
static void *bins[MAXT + 1][32];
static int class_of(size_t n) {
  int c = 4;
  while ((1ull << c) < n) c++;
  return c;
}
int rt_on(void) { return on; }
// Called by the explorer once, before anything else.
void rt_reserve(void) {
  heap = top = mmap((void *)0x200000000000, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  cells = mmap(0, CELLS * sizeof(struct cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blk = mmap(0, BLKS * (sizeof(struct blk) + sizeof(u32) + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (heap == MAP_FAILED || cells == MAP_FAILED || blk == MAP_FAILED) abort();
  todo = (u32 *)(blk + BLKS);
  mk = (u8 *)(todo + BLKS);
  top += MAXT * STACK;
}
// Called by the process of an execution, before it sets up the scenario.
void rt_begin(void) { on = 1; }
void *rt_alloc(size_t n) {
  int c = class_of(n);
  void **bin = &bins[me < 0 ? MAXT : me][c], *p = *bin;
  if (p) *bin = *(void **)p;
  else {
    u64 z = 1ull << c;
    u64 al = z < 4096 ? z : 4096;
    p = (void *)(((u64)top + al - 1) & ~(al - 1));
    top = (char *)p + z;
    if (top > heap + HEAP || nblk == BLKS) abort();
    blk[nblk].p = p;
    blk[nblk++].c = c;
  }
  fresh(p, n);
  return p;
}
void rt_free(void *p, size_t n) {
  freed(p, n);
  if ((char *)p >= heap && (char *)p < heap + HEAP) {
    void **bin = &bins[me < 0 ? MAXT : me][class_of(n)];
    *(void **)p = *bin;
    *bin = p;
  }
}
// ------------------------------------------------------------------------------------------ lost memory

static int block_of(u64 a) {
  if (!nblk || a < (u64)blk[0].p || a >= (u64)top) return -1;
  u32 lo = 0, hi = nblk;
  while (hi - lo > 1) {
    u32 m = (lo + hi) / 2;
    if ((u64)blk[m].p <= a) lo = m;
    else hi = m;
  }
  return a < (u64)blk[lo].p + (1ull << blk[lo].c) ? (int)lo : -1;
}
static u32 ntodo;
static void reach(u64 *a, u64 *e) {
  for (; a < e; a++) {
    int b = block_of(*a);
    if (b >= 0 && mk[b] == 1) {
      mk[b] = 2;
      todo[ntodo++] = b;
    }
  }
}
static int within(u64 a, void *p, u64 n) { return a >= (u64)p && a < (u64)p + n; }
// Counts the blocks that nobody has freed and that nothing refers to any more: neither the global variables, nor the
// stack and the thread-local variables of this thread, nor the heap of the explorer, nor another block that is in use.
// Called when the threads have ended, at the end of the process.
__attribute__((noinline)) u64 rt_lost(u64 *bytes, u64 *live) {
  // addresses that only the scheduler knows
  memset(locs, 0, sizeof locs);
  memset(last_loc, 0, sizeof last_loc);
  memset(last_val, 0, sizeof last_val);
  memset(wait_addr, 0, sizeof wait_addr);
  streak_loc = 0;
  memset(mk, 1, nblk);
  for (int i = 0; i <= MAXT; i++)
    for (int j = 0; j < 32; j++)
      for (void *p = bins[i][j]; p; p = *(void **)p) mk[block_of((u64)p)] = 0;
  memset(bins, 0, sizeof bins);
  static char maps[1 << 18];
  long fd = raw6(SYS_openat, -100, (long)"/proc/self/maps", 0, 0, 0, 0), n = 0, k;
  if (fd < 0) abort();
  while ((k = raw6(SYS_read, fd, (long)maps + n, sizeof maps - 1 - n, 0, 0, 0)) > 0) n += k;
  if (n == sizeof maps - 1) abort();
  maps[n] = 0;
  u64 sp = (u64)__builtin_frame_address(0);
  for (char *l = maps; *l;) {
    char *q;
    u64 a = strtoull(l, &q, 16), e = strtoull(q + 1, &q, 16);
    int use = q[1] == 'r' && q[2] == 'w' && q[4] == 'p';
    l = strchr(l, '\n');
    if (!l) break;
    l++;
    if (!use) continue;
    if (a <= sp && sp < e) a = sp & ~7ull;
    while (a < e) {
      u64 z = (a | 4095) + 1;
      if (!within(a, heap, HEAP) && !within(a, cells, CELLS * sizeof(struct cell)) && !within(a, blk, BLKS * (sizeof(struct blk) + sizeof(u32) + 1)) && !within(a, maps, sizeof maps - 4096)) reach((u64 *)a, (u64 *)z);
      a = z;
    }
  }
  while (ntodo) {
    struct blk *b = &blk[todo[--ntodo]];
    reach((u64 *)b->p, (u64 *)(b->p + (1ull << b->c)));
  }
  u64 lost = 0;
  *bytes = *live = 0;
  for (u32 i = 0; i < nblk; i++) {
    *live += mk[i] != 0;
    if (mk[i] == 1) {
      lost++;
      *bytes += 1ull << blk[i].c;
    }
  }
  return lost;
}
#define PC ((u64)__builtin_return_address(0))
#define RW(n)                                                             \
  void __tsan_read##n(void *a) { plain((u64)a, n, 0, PC); }               \
  void __tsan_write##n(void *a) { plain((u64)a, n, 1, PC); }              \
  void __tsan_unaligned_read##n(void *a) { plain((u64)a, n, 0, PC); }     \
  void __tsan_unaligned_write##n(void *a) { plain((u64)a, n, 1, PC); }    \
  void __tsan_read_write##n(void *a) { plain((u64)a, n, 1, PC); }         \
  void __tsan_unaligned_read_write##n(void *a) { plain((u64)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void *a) { plain((u64)a, n, 0, PC); }      \
  void __tsan_volatile_write##n(void *a) { plain((u64)a, n, 1, PC); }     \
  void __tsan_unaligned_volatile_read##n(void *a) { plain((u64)a, n, 0, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { plain((u64)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void **p) { plain((u64)p, 8, 0, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)v; plain((u64)p, 8, 1, PC); }
void __tsan_read_range(void *p, unsigned long n) { plain((u64)p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { plain((u64)p, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  plain((u64)s, n, 0, PC);
  plain((u64)d, n, 1, PC);
  return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  plain((u64)s, n, 0, PC);
  plain((u64)d, n, 1, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  plain((u64)d, n, 1, PC);
  return memset(d, c, n);
}

// ------------------------------------------------------------------------------------------ atomics

static void note_last(u64 old) {
  X->steps[stepno - 1].last = old == 1 ? 1 : 2;
}
static void note_load(u64 a, u64 v) {
  struct step *s = &X->steps[stepno - 1];
  // the same load twice in a row, with nothing of another thread in between: the wait of a spin loop
  if (s->tid == me && last_loc[me] == a && last_val[me] == v && last_step[me] + 1 == stepno - 1) s->same = 1;
  last_loc[me] = a;
  last_val[me] = v;
  last_step[me] = stepno - 1;
}
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(n, T)                                                                                     \
  T __tsan_atomic##n##_load(const volatile T *p, int mo) {                                                \
    if (me < 0) return __atomic_load_n(p, SC);                                                            \
    point(LOAD, (u64)p, mo, 1);                                                                           \
    hb_load((u64)p, mo);                                                                                  \
    T v = __atomic_load_n(p, SC);                                                                         \
    note_load((u64)p, (u64)v);                                                                            \
    return v;                                                                                             \
  }                                                                                                       \
  void __tsan_atomic##n##_store(volatile T *p, T v, int mo) {                                             \
    if (me >= 0) {                                                                                        \
      point(STORE, (u64)p, mo, 1);                                                                        \
      hb_store((u64)p, mo, 0);                                                                            \
    }                                                                                                     \
    __atomic_store_n(p, v, SC);                                                                           \
  }                                                                                                       \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) {                                             \
    if (me >= 0) {                                                                                        \
      point(RMW, (u64)p, mo, 1);                                                                          \
      hb_load((u64)p, mo);                                                                                \
      hb_store((u64)p, mo, 1);                                                                            \
    }                                                                                                     \
    return __atomic_exchange_n(p, v, SC);                                                                 \
  }                                                                                                       \
  static T rmw##n(volatile T *p, T v, int mo, int kind, int op) {                                         \
    if (me >= 0) {                                                                                        \
      point(kind, (u64)p, mo, 1);                                                                         \
      hb_load((u64)p, mo);                                                                                \
      hb_store((u64)p, mo, 1);                                                                            \
    }                                                                                                     \
    T old = __atomic_load_n(p, SC), x;                                                                    \
    do {                                                                                                  \
      x = op == 0 ? old + v : op == 1 ? old - v : op == 2 ? old & v : op == 3 ? old | v : op == 4 ? old ^ v : ~(old & v); \
    } while (!__atomic_compare_exchange_n(p, &old, x, 0, SC, SC));                                        \
    if (me >= 0 && op == 1) note_last(old == v);                                                          \
    return old;                                                                                           \
  }                                                                                                       \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, ADD, 0); }         \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, ADD, 1); }         \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, RMW, 2); }         \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, RMW, 3); }          \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, RMW, 4); }         \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { return rmw##n(p, v, mo, RMW, 5); }        \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                   \
    if (me >= 0) point(CAS, (u64)p, mo, 1);                                                               \
    T e = c;                                                                                              \
    int ok = __atomic_compare_exchange_n(p, &e, v, 0, SC, SC);                                            \
    if (me >= 0) {                                                                                        \
      hb_load((u64)p, ok ? mo : fmo);                                                                     \
      if (ok) hb_store((u64)p, mo, 1);                                                                    \
    }                                                                                                     \
    return e;                                                                                             \
  }                                                                                                       \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {             \
    T e = __tsan_atomic##n##_compare_exchange_val(p, *c, v, mo, fmo);                                     \
    int ok = e == *c;                                                                                     \
    *c = e;                                                                                               \
    return ok;                                                                                            \
  }                                                                                                       \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {               \
    return __tsan_atomic##n##_compare_exchange_strong(p, c, v, mo, fmo);                                  \
  }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  if (me >= 0) {
    point(FENCE, 0, mo, 1);
    hb_fence(mo);
  }
  __atomic_thread_fence(SC);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ------------------------------------------------------------------------------------------ blocking calls

static long futex_(u32 *addr, int op, u32 val, void *to) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(WAIT, (u64)addr, 0, 1);
    if (__atomic_load_n(addr, SC) != val) {
      errno = EAGAIN;
      return -1;
    }
    state[me] = 1;
    wait_addr[me] = addr;
    wait_seq[me] = ++seqno;
    timed[me] = to != 0;
    timed_out[me] = 0;
    point(WAIT, (u64)addr, 0, 0);
    if (timed_out[me]) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(WAKE, (u64)addr, 0, 1);
    int n = 0;
    while ((u32)n < val) {
      int best = -1;
      for (int i = 0; i < N; i++)
        if (state[i] == 1 && wait_addr[i] == addr && (best < 0 || wait_seq[i] < wait_seq[best])) best = i;
      if (best < 0) break;
      state[best] = 0;
      n++;
    }
    return n;
  }
  errno = ENOSYS;
  return -1;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && me >= 0) return futex_((u32 *)a[0], (int)a[1], (u32)a[2], (void *)a[3]);
  long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
static int yield_(void) {
  // whoever yields waits for the others
  if (me >= 0) point(YIELD, 0, 0, !(enabled() & ~(1 << me)));
  return 0;
}
int sched_yield(void) { return me >= 0 ? yield_() : (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (me >= 0) return yield_();
  return raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) ? -1 : 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (me >= 0) return yield_();
  return -(int)raw6(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0);
}
// the keys of hash tables are the same in every execution
ssize_t getrandom(void *p, size_t n, unsigned f) {
  (void)f;
  memset(p, 0x5a, n);
  return n;
}

// ------------------------------------------------------------------------------------------ executions

static void (*body_fn)(int);
static void on_exit_(void *v) {
  // after the destructors of thread-local values
  u64 k = (u64)v;
  if (k < 3) {
    pthread_setspecific(key, (void *)(k + 1));
    return;
  }
  state[me] = 2;
  point(END, 0, 0, 0);
  me = -1;
}
static void *start_(void *v) {
  int t = (int)(u64)v;
  pthread_attr_t at;
  void *lo;
  size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  stk_lo = lo;
  stk_hi = (char *)lo + sz;
  sem_post_(&ready[t]);
  sem_wait_(&sem[t]);
  me = t;
  if (stepno == 0) point(START, 0, 0, 0); // the first choice: who starts
  pthread_setspecific(key, (void *)1);
  body_fn(t);
  return 0;
}
// Runs n threads under the schedule in x. Called once per process.
void rt_execute(struct exec *x, int n, void (*body)(int)) {
  X = x;
  N = n;
  body_fn = body;
  pthread_key_create(&key, on_exit_);
  for (int i = 0; i < n; i++) C[i].c[i] = 1;
  // the threads are created one after the other, so that they find the same memory layout every time
  pthread_attr_t at;
  pthread_attr_init(&at);
  for (int i = 0; i < n; i++) {
    pthread_t th;
    pthread_attr_setstack(&at, heap + i * STACK, STACK);
    if (pthread_create(&th, &at, start_, (void *)(u64)i)) abort();
    sem_wait_(&ready[i]);
  }
  // thread n-1 takes the first step, whose default successor is thread 0
  sem_post_(&sem[n - 1]);
  while (!__atomic_load_n(&all_done, SC)) raw6(SYS_futex, (long)&all_done, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
