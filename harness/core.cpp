#include "core.hpp"
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace vf {

///////////////////////////////////////////////////////////////////////////
// Shared with the forked worker: survives its crash.
enum { MAXWALK = 4096, MAXCTR = 16, MAXBAD = 400 };
struct Shm
{
   volatile unsigned long beat;          // progress, for the watchdog
   int failed;
   char kind[16];
   char msg[600];
   int nwalk;                            // walk: groups executed (graph mode)
   int walk[MAXWALK];
   int start_op;                         // trace: lines written
   volatile unsigned long item;          // next work item, to resume after a failure
   long ctr[MAXCTR];
   int nbad;                             // transitions that fail for reasons out of focus
   int bad[MAXBAD];
};
static Shm *shm;
// Only these kinds of failure count (--kinds); empty: all.
static char kinds[200];
static bool muted; // a failure of another kind was seen in this walk
static bool counts(const char *kind)
{
   if (!kinds[0])
      return true;
   char k[32];
   snprintf(k, sizeof k, ",%s,", kind);
   return strstr(kinds, k) != 0;
}

bool failed() { return shm && shm->failed; }
void fail(const char *kind, const char *fmt, ...)
{
   if (!shm || shm->failed)
      return;
   if (!counts(kind))
   {
      muted = true;
      return;
   }
   snprintf(shm->kind, sizeof shm->kind, "%s", kind);
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
   va_end(ap);
   shm->failed = 1;
}

///////////////////////////////////////////////////////////////////////////
// operator new/delete
Mem mem;
long ncmp, ncopied, napplied;
struct Head { uint64_t magic; uint64_t form; };
static const uint64_t MAGIC = 0x5afe0b10c5a110c8ull, GONE = 0xdeadb10cdeadb10cull;
static void *get(size_t n, uint64_t form)
{
   if (n > (size_t)1 << 30 || mem.blocks > 2000000)
   {
      fail("hang", "runaway allocation");
      _exit(3);
   }
   Head *h = static_cast<Head *>(malloc(sizeof(Head) + n));
   h->magic = MAGIC;
   h->form = form;
   ++mem.allocs, ++mem.blocks;
   return h + 1;
}
static void put(void *p, uint64_t form)
{
   if (!p)
      return;
   Head *h = static_cast<Head *>(p) - 1;
   if (h->magic != MAGIC)
   {
      fail("life", "delete of a pointer that new did not return, or of a freed or overrun block");
      return;
   }
   if (h->form != form)
      fail("life", "block of new%s released by delete%s", h->form ? "[]" : "", form ? "[]" : "");
   h->magic = GONE;
   ++mem.frees, --mem.blocks;
   free(h);
}
} // namespace vf
void *operator new(size_t n) { return vf::get(n, 0); }
void *operator new[](size_t n) { return vf::get(n, 1); }
void operator delete(void *p) noexcept { vf::put(p, 0); }
void operator delete[](void *p) noexcept { vf::put(p, 1); }
void operator delete(void *p, size_t) noexcept { vf::put(p, 0); }
void operator delete[](void *p, size_t) noexcept { vf::put(p, 1); }
namespace vf {

///////////////////////////////////////////////////////////////////////////
// Registry of tracked objects: open addressing, tombstones rehashed away.
struct Ent { const void *p; long serial; };
static Ent *tab;
static size_t cap, used, alive_n;
static long serial_n;
static const void *const TOMB = (const void *)1;
static size_t hp(const void *p) { return (size_t)(((uint64_t)(uintptr_t)p >> 2) * 0x9E3779B97F4A7C15ull >> 20); }
static Ent *lookup(const void *p)
{
   if (!cap)
      return 0;
   for (size_t i = hp(p) & (cap - 1);; i = (i + 1) & (cap - 1))
   {
      if (!tab[i].p)
         return 0;
      if (tab[i].p == p)
         return tab + i;
   }
}
static void rehash()
{
   size_t oc = cap;
   Ent *ot = tab;
   cap = 1024;
   while (cap < alive_n * 4)
      cap *= 2;
   tab = static_cast<Ent *>(calloc(cap, sizeof *tab));
   used = alive_n;
   for (size_t i = 0; i < oc; ++i)
      if (ot[i].p && ot[i].p != TOMB)
      {
         size_t k = hp(ot[i].p) & (cap - 1);
         while (tab[k].p)
            k = (k + 1) & (cap - 1);
         tab[k] = ot[i];
      }
   free(ot);
}
long Reg::born(const void *p)
{
   if (lookup(p))
   {
      fail("life", "element constructed over a live element");
      return lookup(p)->serial;
   }
   if ((used + 1) * 2 > cap)
      rehash();
   size_t i = hp(p) & (cap - 1);
   while (tab[i].p && tab[i].p != TOMB)
      i = (i + 1) & (cap - 1);
   if (!tab[i].p)
      ++used;
   tab[i].p = p;
   ++alive_n;
   return tab[i].serial = ++serial_n;
}
void Reg::dies(const void *p)
{
   Ent *e = lookup(p);
   if (!e)
   {
      fail("life", "destructor run on something that is not a live element");
      return;
   }
   e->p = TOMB;
   --alive_n;
}
long Reg::check(const void *p, const char *what)
{
   Ent *e = lookup(p);
   if (e)
      return e->serial;
   fail("life", "element %s although not alive", what);
   return -2;
}
long Reg::count() { return (long)alive_n; }
void Reg::clear()
{
   if (tab)
      memset(tab, 0, cap * sizeof *tab);
   used = alive_n = 0;
}

///////////////////////////////////////////////////////////////////////////
// Graph
struct State { Inst inst[MAXINST]; int ninst; IV x; vec<int> groups; };
struct CallT { Op op; };
struct Outcome { IV r; int post; IV src; };
struct Group { int pre, call; vec<Outcome> out; };
static vec<State> states;
static vec<CallT> calls;
static vec<Group> groups;
static vec<int> script; // W line of a replay file
static int W = 1;

static int rdint(FILE *f) { int v; if (fscanf(f, "%d", &v) != 1) { fprintf(stderr, "bad graph file\n"); exit(2); } return v; }
static void load(const char *fn)
{
   FILE *f = fopen(fn, "r");
   if (!f) { perror(fn); exit(2); }
   char tag[8];
   while (fscanf(f, "%7s", tag) == 1)
   {
      switch (tag[0])
      {
      case '#': { int c; while ((c = getc(f)) != EOF && c != '\n') {} break; }
      case 'w': W = rdint(f); break;
      case 'S':
      {
         State s;
         s.ninst = rdint(f);
         for (int i = 0; i < s.ninst; ++i)
         {
            int n = rdint(f);
            s.inst[i].w = W;
            while (n--)
            {
               for (int k = 0; k < W; ++k)
                  s.inst[i].v.push_back(rdint(f));
               s.inst[i].id.push_back(-1);
            }
         }
         int nx = rdint(f);
         while (nx--)
            s.x.push_back(rdint(f));
         states.push_back(s);
         break;
      }
      case 'C':
      {
         char nm[64];
         if (fscanf(f, "%63s", nm) != 1) exit(2);
         CallT c;
         c.op.set(nm);
         c.op.n = rdint(f);
         for (int i = 0; i < c.op.n; ++i)
            c.op.a[i] = rdint(f);
         calls.push_back(c);
         break;
      }
      case 'G':
      {
         Group g;
         g.pre = rdint(f);
         g.call = rdint(f);
         int no = rdint(f);
         while (no--)
         {
            Outcome o;
            int n = rdint(f);
            while (n--) o.r.push_back(rdint(f));
            o.post = rdint(f);
            n = rdint(f);
            while (n--) o.src.push_back(rdint(f));
            g.out.push_back(o);
         }
         states[g.pre].groups.push_back((int)groups.size());
         groups.push_back(g);
         break;
      }
      case 'W':
      {
         int n = rdint(f);
         while (n--) script.push_back(rdint(f));
         break;
      }
      default: fprintf(stderr, "bad tag %s\n", tag); exit(2);
      }
   }
   fclose(f);
}

// strings for messages
struct Buf
{
   char s[400]; int n;
   Buf(): n(0) { s[0] = 0; }
   void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
   {
      if (n > 360) return;
      va_list ap; va_start(ap, fmt);
      n += vsnprintf(s + n, sizeof s - n, fmt, ap);
      va_end(ap);
      if (n > 390) n = 390;
   }
};
static void show(Buf &b, const Inst *in, int ninst, const IV &x)
{
   for (int i = 0; i < ninst; ++i)
   {
      b.add("%s[", i ? " " : "");
      for (int k = 0; k < in[i].size(); ++k)
         if (in[i].w == 2)
            b.add("%s%d:%d", k ? "," : "", in[i].v[2 * k], in[i].v[2 * k + 1]);
         else
            b.add("%s%d", k ? "," : "", in[i].v[k]);
      b.add("]");
   }
   if (!x.empty())
   {
      b.add(" x=");
      for (size_t k = 0; k < x.size(); ++k)
         b.add("%s%d", k ? "," : "", x[k]);
   }
}
static void showop(Buf &b, const Op &op)
{
   b.add("%s(", op.name);
   for (int i = 0; i < op.n; ++i)
      b.add("%s%d", i ? "," : "", op.a[i]);
   b.add(")");
}

static Driver *drv;
static Obs obs, prev;
static IV reply;

static bool same_contents(const State &s, const Obs &o)
{
   if (s.ninst != o.ninst || s.x != o.x)
      return false;
   for (int i = 0; i < s.ninst; ++i)
      if (s.inst[i].v != o.inst[i].v)
         return false;
   return true;
}
static bool same_objects(const Outcome &o, const LV &all)
{
   size_t k = 0;
   for (int i = 0; i < obs.ninst; ++i)
      for (int j = 0; j < obs.inst[i].size(); ++j, ++k)
         if (o.src[k] >= 0 && all[o.src[k]] != obs.inst[i].id[j])
            return false;
   return true;
}
static void clearobs(Obs &o)
{
   for (int i = 0; i < MAXINST; ++i)
      o.inst[i].clear(), o.inst[i].w = W;
   o.x.clear();
   o.aux.clear();
}
static void checks_after()
{
   if (muted)
      return; // the observation may be incomplete
   long want = drv->live(obs);
   if (!failed() && want >= 0 && want != Reg::count())
      fail("life", "%ld element objects alive, %ld expected", Reg::count(), want);
}
static void begin_walk()
{
   shm->nwalk = 0;
   muted = false;
   Reg::clear();
   mem.blocks = 0;
   drv->reset();
   clearobs(obs);
   drv->observe(obs);
   checks_after();
}
static void end_walk()
{
   if (failed())
      return;
   drv->finish();
   ++shm->beat;
   if (Reg::count())
      fail("leak", "%ld element objects still alive after all containers were destroyed", Reg::count());
   if (mem.blocks)
      fail("leak", "%ld memory blocks not released after all containers were destroyed", mem.blocks);
}
// Executes group g; returns the new model state, or -1 after a failure.
static int step(int g)
{
   const Group &G = groups[g];
   if (shm->nwalk < MAXWALK)
      shm->walk[shm->nwalk++] = g;
   ++shm->beat;
   ++shm->ctr[0];
   const Op &op = calls[G.call].op;
   prev = obs;
   reply.clear();
   drv->apply(op, reply);
   if (failed())
      return -1;
   clearobs(obs);
   drv->observe(obs);
   if (failed())
      return -1;
   const Outcome *hit = 0;
   bool cont = false;
   LV all;
   for (int i = 0; i < prev.ninst; ++i)
      all.insert(all.end(), prev.inst[i].id.begin(), prev.inst[i].id.end());
   for (size_t i = 0; i < G.out.size(); ++i)
      if (same_contents(states[G.out[i].post], obs))
      {
         cont = true;
         if (G.out[i].r == reply)
         {
            // outcomes may differ in which objects stay
            if (!hit || (drv->ids() && same_objects(G.out[i], all)))
               hit = &G.out[i];
         }
      }
   if (!hit)
   {
      Buf b, c, e;
      showop(b, op);
      const Outcome &o = G.out[0];
      if (!cont)
      {
         show(c, obs.inst, obs.ninst, obs.x);
         show(e, states[o.post].inst, states[o.post].ninst, states[o.post].x);
         fail("content", "%s: got %s, specified %s%s", b.s, c.s, e.s, G.out.size() > 1 ? " (or other)" : "");
      }
      else
      {
         for (size_t i = 0; i < reply.size(); ++i) c.add("%d ", reply[i]);
         for (size_t i = 0; i < o.r.size(); ++i) e.add("%d ", o.r[i]);
         fail("reply", "%s: replied < %s>, specified < %s>", b.s, c.s, e.s);
      }
      if (!failed())
         muted = false, checks_after(), muted = true;
      return -1;
   }
   if (drv->ids())
   {
      size_t k = 0;
      LV now;
      for (int i = 0; i < obs.ninst && !failed(); ++i)
         for (int j = 0; j < obs.inst[i].size(); ++j, ++k)
         {
            long id = obs.inst[i].id[j];
            int src = hit->src[k];
            if (src >= 0 && all[src] != id)
            {
               Buf b;
               showop(b, op);
               fail("ident", "%s: element %d of instance %d is not the object it was", b.s, j, i);
               break;
            }
            now.push_back(id);
         }
      for (size_t i = 0; i < now.size() && !failed(); ++i)
         for (size_t j = 0; j < i; ++j)
            if (now[i] == now[j])
            {
               Buf b;
               showop(b, op);
               fail("ident", "%s: one object is in two places", b.s);
               break;
            }
   }
   checks_after();
   return failed() ? -1 : hit->post;
}

static int nshards = 1, shard = 0;
static long budget = 1000000;
static uint64_t seed = 1;
static vec<uint8_t> isbad;
// --focus: names of operations; a failure counts only if it takes one of them.
static char focus[4000];
static bool infocus(int g)
{
   char k[40];
   snprintf(k, sizeof k, ",%s,", calls[groups[g].call].op.name);
   return strstr(focus, k) != 0;
}
static vec<int> parent_g, parent_s; // BFS tree over groups
static void bfs(bool avoid_focus = false)
{
   isbad.assign(groups.size(), 0);
   for (int i = 0; i < shm->nbad; ++i)
      isbad[shm->bad[i]] = 1;
   parent_g.assign(states.size(), -1);
   parent_s.assign(states.size(), -1);
   vec<int> q;
   q.push_back(0);
   parent_s[0] = 0;
   // deterministic steps first: reliable prefixes
   for (int pass = 0; pass < 2; ++pass)
   {
      for (size_t h = 0; h < q.size(); ++h)
      {
         const State &s = states[q[h]];
         for (size_t k = 0; k < s.groups.size(); ++k)
         {
            const Group &g = groups[s.groups[k]];
            if (g.out.size() != 1 && !pass)
               continue;
            if (isbad[s.groups[k]] || (avoid_focus && infocus(s.groups[k])))
               continue;
            for (size_t o = 0; o < g.out.size(); ++o)
               if (parent_s[g.out[o].post] < 0)
               {
                  parent_s[g.out[o].post] = q[h];
                  parent_g[g.out[o].post] = s.groups[k];
                  q.push_back(g.out[o].post);
               }
         }
      }
   }
}
static bool path_to(int s, vec<int> &p)
{
   p.clear();
   if (parent_s[s] < 0)
      return false;
   while (s != 0)
   {
      p.push_back(parent_g[s]);
      s = parent_s[s];
   }
   for (size_t i = 0, j = p.size(); i + 1 < j; ++i)
      std::swap(p[i], p[--j]);
   return true;
}
// Runs the path; returns the state reached (which may differ where the
// specification allows several outcomes), -1 after a failure.
static int run_path(const vec<int> &p)
{
   int s = 0;
   for (size_t i = 0; i < p.size(); ++i)
   {
      if (groups[p[i]].pre != s)
         return s; // another allowed outcome was taken
      s = step(p[i]);
      if (s < 0)
         return -1;
   }
   return s;
}

static vec<vec<uint8_t> > pairs; // per group: covered next-groups of this shard
static vec<int> nextp;
static vec<uint8_t> gcov;
static int pick(int g, int s, Rng &rng)
{
   const vec<int> &gs = states[s].groups;
   int n = (int)gs.size();
   if (!n)
      return -1;
   if (g >= 0)
   {
      vec<uint8_t> &c = pairs[g];
      if (c.empty())
         c.assign(n, 0);
      if ((int)c.size() == n)
         for (; nextp[g] < n; ++nextp[g])
         {
            int k = (nextp[g] + g) % n;
            if (!c[k] && (g + k) % nshards == shard)
            {
               c[k] = 1;
               if (isbad[gs[k]])
                  continue;
               ++shm->ctr[1]; // pairs
               return gs[k];
            }
         }
   }
   int r = gs[rng.below(n)];
   for (int i = 0; i < 20 && isbad[r]; ++i)
      r = gs[rng.below(n)];
   return isbad[r] ? -1 : r;
}
static void walk_worker()
{
   Rng rng(seed * 1000003 + shard);
   vec<int> p;
   pairs.resize(groups.size());
   nextp.assign(groups.size(), 0);
   unsigned long item = 0, skip = shm->item;
   // every transition, reached by a shortest history
   for (size_t g = 0; g < groups.size(); ++g)
   {
      if ((int)(g % nshards) != shard)
         continue;
      if (item++ < skip)
         continue;
      shm->item = item;
      if (isbad[g] || !path_to(groups[g].pre, p))
         continue;
      begin_walk();
      int s = run_path(p);
      if (s == groups[g].pre)
         s = step((int)g), ++shm->ctr[2]; // transitions
      end_walk();
      ++shm->ctr[3]; // walks
      if (failed())
         return;
   }
   // every pair of consecutive transitions, and whatever follows from there
   for (size_t g = 0; g < groups.size() && shm->ctr[0] < budget; ++g)
   {
      for (;;)
      {
         if (groups[g].out.size() != 1)
            break; // covered from the other side, as successors
         int n = (int)states[groups[g].out[0].post].groups.size();
         vec<uint8_t> &c = pairs[g];
         bool open = false;
         if (c.empty())
            c.assign(n, 0);
         for (int i = nextp[g]; i < n && !open; ++i)
            open = !c[(i + g) % n] && ((int)g + (i + (int)g) % n) % nshards == shard;
         if (!open || shm->ctr[0] >= budget)
            break;
         if (item++ < skip)
         {
            // resumed after a failure: treat as done
            for (; nextp[g] < n; ++nextp[g]) {}
            break;
         }
         shm->item = item;
         if (isbad[g] || !path_to(groups[g].pre, p))
            break;
         begin_walk();
         int s = run_path(p);
         if (s == groups[g].pre)
            s = step((int)g);
         int last = (int)g;
         for (int len = 0; s >= 0 && len < 80 && shm->ctr[0] < budget; ++len)
         {
            int k = pick(last, s, rng);
            if (k < 0)
               break;
            s = step(k);
            last = groups[k].out.size() == 1 ? k : -1;
         }
         end_walk();
         ++shm->ctr[3];
         if (failed())
            return;
      }
   }
   shm->ctr[4] = 1; // finished
}

static double cputime(int pid)
{
   clockid_t c;
   struct timespec t;
   if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t))
      return 0;
   return t.tv_sec + t.tv_nsec * 1e-9;
}
static char errfile[64];
static void run_child(void (*fn)())
{
   shm->failed = 0;
   int pid = fork();
   if (!pid)
   {
      int fd = open(errfile, O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd >= 0)
         dup2(fd, 2);
      fn();
      _exit(0);
   }
   unsigned long beat = shm->beat;
   time_t since = time(0);
   double cpu = cputime(pid);
   int st;
   for (long us = 200;;)
   {
      int r = waitpid(pid, &st, WNOHANG);
      if (r == pid)
         break;
      usleep(us);
      if (us < 20000)
         us *= 2;
      if (shm->beat != beat)
         beat = shm->beat, since = time(0), cpu = cputime(pid);
      else if (time(0) - since > 60 || (time(0) - since > 4 && cputime(pid) - cpu > 4))
      {
         kill(pid, SIGKILL);
         waitpid(pid, &st, 0);
         fail("hang", "the operation did not terminate");
         return;
      }
   }
   if (!failed() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
   {
      char sum[300] = "";
      FILE *f = fopen(errfile, "r");
      if (f)
      {
         char line[400];
         while (fgets(line, sizeof line, f))
            if (!sum[0] && (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error") || strstr(line, "terminate")))
            {
               line[strcspn(line, "\n")] = 0;
               char *e = strstr(line, "ERROR: AddressSanitizer");
               snprintf(sum, sizeof sum, "%.250s", e ? e + 7 : line);
               for (char *p = sum; *p; ++p) // addresses differ between runs
                  if (p[0] == '0' && p[1] == 'x') { *p = 0; break; }
            }
         fclose(f);
      }
      if (WIFSIGNALED(st))
         fail("crash", "signal %d %s", WTERMSIG(st), sum);
      else
         fail("crash", "%s", sum[0] ? sum : "process ended");
   }
}

static void jstr(const char *s)
{
   putchar('"');
   for (; *s; ++s)
      if (*s == '"' || *s == '\\') printf("\\%c", *s);
      else if ((unsigned char)*s < 32) printf(" ");
      else putchar(*s);
   putchar('"');
}
static void report(const char *what)
{
   printf("{\"fail\":1,\"kind\":");
   jstr(shm->kind);
   printf(",\"msg\":");
   jstr(shm->msg);
   printf(",\"where\":\"%s\",\"walk\":[", what);
   for (int i = 0; i < shm->nwalk; ++i)
      printf("%s%d", i ? "," : "", shm->walk[i]);
   printf("],\"ops\":[");
   for (int i = 0; i < shm->nwalk; ++i)
   {
      Buf b;
      showop(b, calls[groups[shm->walk[i]].call].op);
      if (i) putchar(',');
      jstr(b.s);
   }
   printf("]}\n");
   fflush(stdout);
}
static vec<int> fixed;
static void fixed_worker()
{
   begin_walk();
   for (size_t i = 0; i < fixed.size(); ++i)
   {
      if (!i && groups[fixed[0]].pre != 0)
         return;
      int s = step(fixed[i]);
      if (s < 0)
         return;
      if (i + 1 < fixed.size() && groups[fixed[i + 1]].pre != s)
         return;
   }
   end_walk();
}
// Tries shorter histories that end in the same operations.
static void shrink()
{
   vec<int> w(shm->walk, shm->walk + shm->nwalk);
   Shm keep = *shm;
   static const int tails[] = { 1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 32, 48 };
   for (size_t t = 0; t < sizeof tails / sizeof *tails && tails[t] < (int)w.size(); ++t)
   {
      int from = (int)w.size() - tails[t];
      vec<int> p;
      path_to(groups[w[from]].pre, p);
      if ((int)p.size() + tails[t] >= (int)w.size())
         break;
      fixed = p;
      fixed.insert(fixed.end(), w.begin() + from, w.end());
      run_child(fixed_worker);
      if (failed() && !strcmp(shm->kind, keep.kind))
      {
         memcpy(keep.msg, shm->msg, sizeof keep.msg);
         keep.nwalk = shm->nwalk;
         memcpy(keep.walk, shm->walk, sizeof keep.walk);
         break;
      }
   }
   unsigned long beat = shm->beat;
   *shm = keep;
   shm->beat = beat;
}

static bool attributable()
{
   if (!focus[0])
      return true;
   if (!shm->nwalk)
      return false;
   // a comparison, whatever led to what was compared
   if (!strcmp(shm->kind, "eq") && strstr(focus, ",eq,"))
      return true;
   Shm keep = *shm;
   vec<int> w(shm->walk, shm->walk + shm->nwalk);
   int g = w[w.size() - 1];
   if (infocus(g))
      return true;
   bool any = false;
   for (size_t i = 0; i < w.size(); ++i)
      any |= infocus(w[i]);
   bool mine = any;
   if (any)
   {
      bfs(true);
      vec<int> p;
      if (path_to(groups[g].pre, p))
      {
         p.push_back(g);
         fixed = p;
         run_child(fixed_worker);
         mine = !failed();
      }
      bfs();
   }
   unsigned long beat = shm->beat;
   *shm = keep;
   shm->beat = beat;
   if (!mine && shm->nbad < MAXBAD)
   {
      shm->bad[shm->nbad++] = g;
      bfs();
   }
   return mine;
}

///////////////////////////////////////////////////////////////////////////
// Recording
static FILE *tracef;
static const char *trace_out;
static long nsteps = 1000;
static Limits lim = { 20, 10, 4, 4 };
static int seglen = 200;
static vec<Op> oplist;
// What the call took: comparisons, applications, copies of elements, allocations.
static long spent[4];
static void measured(const Op &op)
{
   long before[4] = { ncmp, napplied, ncopied, mem.allocs };
   drv->apply(op, reply);
   long after[4] = { ncmp, napplied, ncopied, mem.allocs };
   for (int i = 0; i < 4; ++i)
      spent[i] = after[i] - before[i];
}
static void emit(const Op &op)
{
   fprintf(tracef, "{\"op\":\"%s\",\"args\":[", op.name);
   for (int i = 0; i < op.n; ++i)
      fprintf(tracef, "%s%d", i ? "," : "", op.a[i]);
   fprintf(tracef, "],\"r\":[");
   for (size_t i = 0; i < reply.size(); ++i)
      fprintf(tracef, "%s%d", i ? "," : "", reply[i]);
   fprintf(tracef, "],\"i\":[");
   for (int i = 0; i < obs.ninst; ++i)
   {
      const Inst &in = obs.inst[i];
      fprintf(tracef, "%s[", i ? "," : "");
      for (int k = 0; k < in.size(); ++k)
      {
         fprintf(tracef, "%s[%ld", k ? "," : "", in.id[k] < 0 ? k + 1000l * i + 1 : in.id[k]);
         for (int j = 0; j < in.w; ++j)
            fprintf(tracef, ",%d", in.v[k * in.w + j]);
         fprintf(tracef, "]");
      }
      fprintf(tracef, "]");
   }
   fprintf(tracef, "],\"x\":[");
   for (size_t i = 0; i < obs.x.size(); ++i)
      fprintf(tracef, "%s%d", i ? "," : "", obs.x[i]);
   // in units of elements, which may consist of several objects
   long want = drv->live(obs), elements = 0;
   for (int i = 0; i < obs.ninst; ++i)
      elements += obs.inst[i].size();
   fprintf(tracef, "],\"aux\":[");
   for (size_t i = 0; i < obs.aux.size(); ++i)
      fprintf(tracef, "%s%ld", i ? "," : "", obs.aux[i]);
   fprintf(tracef, "],\"w\":[%ld,%ld,%ld,%ld],\"live\":%ld}\n", spent[0], spent[1], spent[2], spent[3], want < 0 || !counts("life") ? -1 : Reg::count() - want + elements > 0 ? Reg::count() - want + elements : 0);
   fflush(tracef);
   ++shm->start_op;
}
static void begin_seg()
{
   muted = false;
   Reg::clear();
   mem.blocks = 0;
   drv->reset();
   clearobs(obs);
   drv->observe(obs);
   reply.clear();
   Op r;
   r.set("reset");
   emit(r);
}
static void end_seg()
{
   if (!failed())
      end_walk();
}
static void pending(const Op &op)
{
   // the call in progress, in case it does not return
   char *p = (char *)shm->walk;
   int n = snprintf(p, 200, "%s", op.name);
   for (int i = 0; i < op.n && n < 3000; ++i)
      n += snprintf(p + n, 20, " %d", op.a[i]);
   ++shm->beat;
   ++shm->ctr[0];
}
static void trace_worker()
{
   tracef = fopen(trace_out, "w");
   Rng rng(seed * 7919 + 13);
   long done = 0;
   if (!oplist.empty())
   {
      bool open = false;
      for (size_t i = 0; i < oplist.size() && !failed(); ++i)
      {
         if (oplist[i].h == H("reset"))
         {
            if (open)
               end_seg();
            begin_seg();
            open = true;
            continue;
         }
         reply.clear();
         pending(oplist[i]);
         measured(oplist[i]);
         clearobs(obs);
         if (!failed())
            drv->observe(obs);
         if (!failed() && !muted)
            emit(oplist[i]), checks_after();
      }
      if (open)
         end_seg();
   }
   else
      while (done < nsteps && !failed())
      {
         begin_seg();
         Limits l = lim;
         if (rng.chance(30)) // small ones, too: they are empty more often
            l.maxa = rng.in(1, 6), l.maxb = rng.in(1, 4);
         for (int k = 0; k < seglen && done < nsteps && !failed(); ++k, ++done)
         {
            Op op;
            int tries = 0;
            while (op.n = 0, !drv->random_call(rng, obs, l, op) && ++tries < 1000) {}
            if (tries >= 1000)
               break;
            reply.clear();
            pending(op);
            measured(op);
            clearobs(obs);
            if (!failed())
               drv->observe(obs);
            if (muted)
               break; // contents not readable: nothing to judge
            if (!failed())
               emit(op), checks_after();
         }
         end_seg();
      }
   fclose(tracef);
}
} // namespace vf

int main(int argc, char **argv)
{
   const char *mode = argc > 1 ? argv[1] : "", *config = component_configs[0], *graph = 0, *opsf = 0;
   int maxfail = 3;
   for (int i = 2; i + 1 < argc; i += 2)
   {
      const char *k = argv[i], *v = argv[i + 1];
      if (!strcmp(k, "--config")) config = v;
      else if (!strcmp(k, "--graph")) graph = v;
      else if (!strcmp(k, "--seed")) seed = strtoull(v, 0, 10);
      else if (!strcmp(k, "--shards")) nshards = atoi(v);
      else if (!strcmp(k, "--shard")) shard = atoi(v);
      else if (!strcmp(k, "--budget")) budget = atol(v);
      else if (!strcmp(k, "--maxfail")) maxfail = atoi(v);
      else if (!strcmp(k, "--out")) trace_out = v;
      else if (!strcmp(k, "--steps")) nsteps = atol(v);
      else if (!strcmp(k, "--seg")) seglen = atoi(v);
      else if (!strcmp(k, "--maxa")) lim.maxa = atoi(v);
      else if (!strcmp(k, "--maxb")) lim.maxb = atoi(v);
      else if (!strcmp(k, "--vals")) lim.nvals = atoi(v);
      else if (!strcmp(k, "--maxn")) lim.maxn = atoi(v);
      else if (!strcmp(k, "--w")) W = atoi(v);
      else if (!strcmp(k, "--ops")) opsf = v;
      else if (!strcmp(k, "--kinds")) snprintf(kinds, sizeof kinds, ",%s,harness,crash,hang,", v);
      else if (!strcmp(k, "--focus")) snprintf(focus, sizeof focus, ",%s,", v);
   }
   shm = static_cast<Shm *>(mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   const char *td = getenv("VF_TMP");
   snprintf(errfile, sizeof errfile, "%s/err.%d", td ? td : "/tmp", (int)getpid());
   if (!strcmp(mode, "configs"))
   {
      for (int i = 0; component_configs[i]; ++i)
         puts(component_configs[i]);
      return 0;
   }
   drv = make_driver(config);
   if (!drv)
   {
      fprintf(stderr, "unknown config %s\n", config);
      return 2;
   }
   int nfail = 0;
   if (!strcmp(mode, "walk"))
   {
      load(graph);
      bfs();
      for (;;)
      {
         run_child(walk_worker);
         if (!failed())
            break;
         if (strcmp(shm->kind, "hang"))
            shrink();
         if (!attributable())
         {
            if (shm->nbad >= MAXBAD)
               break;
            continue;
         }
         ++nfail;
         report("walk");
         if (nfail >= maxfail || !strcmp(shm->kind, "hang"))
            break;
      }
      unlink(errfile);
      printf("{\"steps\":%ld,\"pairs\":%ld,\"transitions\":%ld,\"walks\":%ld,\"finished\":%ld,\"bad\":%d,\"fails\":%d}\n",
             shm->ctr[0], shm->ctr[1], shm->ctr[2], shm->ctr[3], shm->ctr[4], shm->nbad, nfail);
   }
   else if (!strcmp(mode, "replay"))
   {
      load(graph);
      fixed = script;
      run_child(fixed_worker);
      if (failed())
         report("replay"), nfail = 1;
      unlink(errfile);
   }
   else if (!strcmp(mode, "trace"))
   {
      if (opsf)
      {
         FILE *f = fopen(opsf, "r");
         char line[6000];
         while (f && fgets(line, sizeof line, f))
         {
            if (line[0] == '#' || line[0] == '\n')
               continue;
            Op op;
            char *t = strtok(line, " \n");
            op.set(t);
            while ((t = strtok(0, " \n")) && op.n < MAXARGS)
               op.a[op.n++] = atoi(t);
            oplist.push_back(op);
         }
      }
      run_child(trace_worker);
      if (failed())
      {
         nfail = 1;
         printf("{\"fail\":1,\"kind\":");
         jstr(shm->kind);
         printf(",\"msg\":");
         jstr(shm->msg);
         printf(",\"where\":\"trace\",\"pending\":");
         ((char *)shm->walk)[3300] = 0;
         jstr((char *)shm->walk);
         printf("}\n");
      }
      unlink(errfile);
      printf("{\"steps\":%ld,\"lines\":%d,\"fails\":%d}\n", shm->ctr[0], shm->start_op, nfail);
   }
   else
      return 2;
   return nfail ? 1 : 0;
}
