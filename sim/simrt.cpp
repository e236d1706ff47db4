// Deterministic simulation runtime: cooperative scheduler over real threads, memory-access
// preemption points (via -fsanitize=thread callbacks), simulated heap, clock and fault-injecting
// file system boundary. Everything here is decided by g_cfg; nothing reads a real clock.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

const char* const opNames[OP_COUNT] = { "open_r","open_u","open_w","read","write","seek","close","stat","fstat",
	"unlink","rename","trunc","mkdir","rmdir","getcwd","chdir","copy","chmod","opendir","link","utime","sync","access","readlink" };
const char* const actionNames[AC_COUNT] = { "err","short","eof","torn","kill","killmid","intrude" };

Report* g_rep = nullptr;
SimConfig g_cfg;

// ---------------------------------------------------------------- raw system calls
static long rawcall(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}

#define REAL(name) ((decltype(&name)) realsym(#name))
static void* realsym(const char* name)
{
	// small cache keyed by the literal's address
	static struct { const char* k; void* v; } cache[256];
	size_t h = ((uintptr_t) name >> 3) & 255;
	for (;;)
	{
		if (cache[h].k == name) return cache[h].v;
		if (!cache[h].k) break;
		h = (h + 1) & 255;
	}
	void* p = dlsym(RTLD_NEXT, name);
	if (!p)
	{
		const char m[] = "simrt: missing libc symbol ";
		rawcall(SYS_write, 2, (long) m, sizeof(m) - 1);
		rawcall(SYS_write, 2, (long) name, strlen(name));
		rawcall(SYS_exit_group, 97);
	}
	cache[h].v = p;
	cache[h].k = name;
	return p;
}

// ---------------------------------------------------------------- PRNG (splitmix64)
struct Rng { uint64_t s; };
static uint64_t rnd(Rng& r)
{
	uint64_t z = (r.s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t rndBelow(Rng& r, uint64_t n) { return n ? rnd(r) % n : 0; }
static void fold(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }

// ---------------------------------------------------------------- threads
enum TState { T_FREE, T_RUN, T_BLOCK, T_DONE };
struct Dtor { void (*fn)(void*); void* obj; Dtor* next; };
struct SimThread {
	int id; TState st; int futex;
	const void* waitObj; int waitKind; bool timed, timedOut;
	int64_t wakeAt;
	uint64_t prio;
	pthread_t handle; bool handleValid; bool detached;
	void* (*fn)(void*); void* arg; void* ret;
	Dtor* dtors;
	uint64_t lastRun;
	// heap
	char* lo; char* hi; char* up; char* down;
	struct Lane { char* p; char* end; } lanes[16];
	Rng hrng;
};
enum { W_NONE, W_JOIN, W_MUTEX, W_COND, W_FUTEX, W_RW, W_ONCE, W_SEM, W_SLEEP };

static SimThread g_thr[MAXTHREADS];
static int g_nthr = 0, g_live = 0;
static bool g_active = false;
static Rng g_srng;
static uint64_t g_step = 0, g_cstep = 0, g_nextSwitch = ~0ull, g_expPos = 0, g_sinceSwitch = 0;
static uint64_t g_pctLow = 0;
static int64_t g_now = 0; // simulated ns beyond clockBase
static __thread SimThread* cur = nullptr;
static __thread SimThread* saved = nullptr;

[[noreturn]] void simDie(uint32_t status, const char* msg)
{
	if (g_rep)
	{
		if (g_rep->status == ST_RUNNING) g_rep->status = status;
		size_t n = strlen(msg); if (n > 1000) n = 1000;
		memcpy(g_rep->msg, msg, n); g_rep->msg[n] = 0;
		g_rep->steps = g_step; g_rep->csteps = g_cstep; g_rep->simNanos = g_now + (int64_t) g_step * 10;
	}
	rawcall(SYS_exit_group, 99);
	__builtin_unreachable();
}

static void park(SimThread* t)
{
	while (__atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 0)
		rawcall(SYS_futex, (long) &t->futex, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(&t->futex, 0, __ATOMIC_RELAXED);
}
static void grant(SimThread* t)
{
	__atomic_store_n(&t->futex, 1, __ATOMIC_RELEASE);
	rawcall(SYS_futex, (long) &t->futex, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void recordSwitch(SimThread* to)
{
	g_rep->nswitch++;
	if (g_rep->nSw < SW_MAX) { g_rep->sw[g_rep->nSw].c = g_cstep; g_rep->sw[g_rep->nSw].t = to->id; g_rep->nSw++; }
	fold(g_rep->evhash, g_cstep * 64 + to->id);
	g_sinceSwitch = 0;
	to->lastRun = g_rep->nswitch;
}

static int runnableCount() { int n = 0; for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_RUN) n++; return n; }

static SimThread* pickPrio()
{
	SimThread* b = nullptr;
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].st == T_RUN && (!b || g_thr[i].prio > b->prio)) b = &g_thr[i];
	return b;
}
static SimThread* pickRandom(SimThread* notThis)
{
	int n = 0;
	for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_RUN && &g_thr[i] != notThis) n++;
	if (!n) return notThis && notThis->st == T_RUN ? notThis : nullptr;
	int k = (int) rndBelow(g_srng, n);
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].st == T_RUN && &g_thr[i] != notThis && k-- == 0) return &g_thr[i];
	return nullptr;
}
static SimThread* pickOldest(SimThread* notThis) // least recently run
{
	SimThread* b = nullptr;
	for (int i = 0; i < g_nthr; i++)
		if (g_thr[i].st == T_RUN && &g_thr[i] != notThis && (!b || g_thr[i].lastRun < b->lastRun)) b = &g_thr[i];
	return b;
}
static SimThread* pickLowest()
{
	for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_RUN) return &g_thr[i];
	return nullptr;
}

static void armNext()
{
	switch (g_cfg.sched)
	{
	case SK_RAND:
	case SK_HOT:
	{
		uint64_t m = g_cfg.mean ? g_cfg.mean : 1;
		// mixture of short and long distances
		uint64_t k = rndBelow(g_srng, 4);
		uint64_t span = k == 0 ? 8 : k == 1 ? m / 8 + 1 : 2 * m;
		g_nextSwitch = g_cstep + 1 + rndBelow(g_srng, span);
		break;
	}
	case SK_PCT:
	{
		// change points were drawn at start; stored in g_pct
		extern uint64_t g_pct[]; extern int g_pctN, g_pctI;
		g_nextSwitch = g_pctI < g_pctN ? g_pct[g_pctI] : ~0ull;
		break;
	}
	case SK_EXPLICIT:
		while (g_expPos < g_cfg.expLen && g_cfg.exp[g_expPos].c <= g_cstep) g_expPos++;
		g_nextSwitch = g_expPos < g_cfg.expLen ? g_cfg.exp[g_expPos].c : ~0ull;
		break;
	default:
		g_nextSwitch = ~0ull;
	}
}
uint64_t g_pct[64]; int g_pctN = 0, g_pctI = 0;

// choose the thread that continues when the current one cannot (or at a switch point)
static SimThread* choose(bool forced)
{
	SimThread* me = cur;
	switch (g_cfg.sched)
	{
	case SK_SEQ: return pickPrio();
	case SK_RAND:
	case SK_HOT: return pickRandom(forced ? nullptr : me);
	case SK_PCT: return pickPrio();
	case SK_EXPLICIT:
		if (g_expPos < g_cfg.expLen && g_cfg.exp[g_expPos].c == g_cstep)
		{
			uint32_t t = g_cfg.exp[g_expPos].t;
			if (t < (uint32_t) g_nthr && g_thr[t].st == T_RUN) return &g_thr[t];
		}
		if (!forced) return me;
		return pickLowest();
	}
	return pickLowest();
}

static void transfer(SimThread* to)
{
	SimThread* me = cur;
	if (to == me) return;
	recordSwitch(to);
	grant(to);
	park(me);
}

static int64_t nowNs() { return g_cfg.clockBase + g_now + (int64_t) g_step * 10; }

// current thread is blocked: run somebody else until it is runnable again
static void blockCurrent()
{
	SimThread* me = cur;
	for (;;)
	{
		SimThread* to = choose(true);
		if (!to)
		{
			// nobody runnable: advance simulated time to the earliest timed waiter
			SimThread* b = nullptr;
			for (int i = 0; i < g_nthr; i++)
				if (g_thr[i].st == T_BLOCK && g_thr[i].timed && (!b || g_thr[i].wakeAt < b->wakeAt)) b = &g_thr[i];
			if (!b) simDie(ST_DEADLOCK, "deadlock: every thread is blocked");
			if (b->wakeAt > nowNs()) g_now += b->wakeAt - nowNs();
			b->timedOut = true; b->st = T_RUN; b->waitObj = nullptr; b->timed = false;
			continue;
		}
		if (g_cfg.sched == SK_EXPLICIT || g_cfg.sched == SK_RAND || g_cfg.sched == SK_HOT) armNext();
		if (to == me) return;
		recordSwitch(to);
		grant(to);
		if (me->st == T_DONE) return;
		park(me);
		return;
	}
}

static void wakeAll(const void* obj, int kind, int max = 1 << 30)
{
	for (int i = 0; i < g_nthr && max > 0; i++)
		if (g_thr[i].st == T_BLOCK && g_thr[i].waitObj == obj && g_thr[i].waitKind == kind)
		{
			g_thr[i].st = T_RUN; g_thr[i].waitObj = nullptr; g_thr[i].timed = false; max--;
		}
}
static void waitOn(const void* obj, int kind, bool timed = false, int64_t at = 0)
{
	SimThread* me = cur;
	++g_step; if (g_live >= 2) ++g_cstep; // a block is a step of its own: at most one switch per step
	me->st = T_BLOCK; me->waitObj = obj; me->waitKind = kind; me->timed = timed; me->timedOut = false; me->wakeAt = at;
	blockCurrent();
}

// ---------------------------------------------------------------- preemption points
static const uint64_t MAXQUANTUM = 3000000;
static uint8_t g_hotBits[65536 / 8];
static uint64_t g_hotSet[8192];
static inline uint32_t hotHash(uint64_t pc) { return (uint32_t) ((pc * 0x9E3779B97F4A7C15ull) >> 48); }
static bool isHot(uint64_t pc)
{
	uint32_t h = hotHash(pc);
	if (!(g_hotBits[h >> 3] & (1 << (h & 7)))) return false;
	for (uint32_t i = h & 8191;; i = (i + 1) & 8191)
	{
		if (g_hotSet[i] == pc) return true;
		if (!g_hotSet[i]) return false;
	}
}
static void addHot(uint64_t pc)
{
	if (isHot(pc)) return;
	uint32_t h = hotHash(pc);
	g_hotBits[h >> 3] |= 1 << (h & 7);
	uint32_t i = h & 8191, n = 0;
	while (g_hotSet[i] && n++ < 8000) i = (i + 1) & 8191;
	if (n < 4000) g_hotSet[i] = pc;
	if (g_rep->nHot < HOT_MAX) g_rep->hot[g_rep->nHot++] = pc;
}
static bool g_hotOn = false;

static void switchNow(bool mustSwitch)
{
	SimThread* to = mustSwitch ? nullptr : choose(false);
	if (mustSwitch)
	{
		// spinning or yielding thread: let somebody else make progress
		if (g_cfg.sched == SK_EXPLICIT)
		{
			if (g_expPos < g_cfg.expLen && g_cfg.exp[g_expPos].c == g_cstep)
			{
				uint32_t t = g_cfg.exp[g_expPos].t;
				if (t < (uint32_t) g_nthr && g_thr[t].st == T_RUN) to = &g_thr[t];
			}
			if (!to) to = pickOldest(cur);
		} else if (g_cfg.sched == SK_RAND || g_cfg.sched == SK_HOT) to = pickRandom(cur);
		else to = pickOldest(cur);
		g_sinceSwitch = 0;
	}
	armNext();
	if (to && to != cur) transfer(to);
}

static void stepSlow(uint64_t pc)
{
	if (g_step >= g_cfg.stepBudget) simDie(ST_STEPLIMIT, "step budget exceeded");
	if (g_live < 2) return;
	if (g_cstep >= g_nextSwitch)
	{
		if (g_cfg.sched == SK_PCT)
		{
			g_pctI++;
			cur->prio = g_pctLow--;
		}
		switchNow(false);
	}
	else if (g_sinceSwitch >= MAXQUANTUM) switchNow(true);
}

static inline void point(uint64_t pc, bool io = false)
{
	if (!cur) return;
	uint64_t s = ++g_step;
	if (g_live >= 2)
	{
		++g_cstep; ++g_sinceSwitch;
		if (g_hotOn)
		{
			bool h = io || isHot(pc);
			if (h)
			{
				fold(g_rep->ilhash, pc * 64 + cur->id);
				if (g_cfg.sched == SK_HOT && rndBelow(g_srng, 1024) < (io ? g_cfg.pmIo : g_cfg.pmHot)) { switchNow(false); return; }
			}
		}
		if (g_cstep >= g_nextSwitch || g_sinceSwitch >= MAXQUANTUM) stepSlow(pc);
	}
	if (s >= g_cfg.stepBudget) stepSlow(pc);
}

static uint64_t g_schedVar;
static void syncPoint(uint64_t pc) { if (cur) { g_rep->syncOps++; point(pc, true); } (void) g_schedVar; }
#define PC ((uint64_t) __builtin_return_address(0))

// ---------------------------------------------------------------- conflict profile (guidance only)
static int g_unjoined = 0; // threads created and not joined yet: what they share is unordered, whichever runs first
struct Shadow { uint64_t key; uint32_t r, w; uint64_t pc[4]; uint8_t ptid[4]; };
static Shadow* g_shadow = nullptr;
static const uint64_t SHADOW_N = 1u << 17;
static uint64_t g_shadowUsed = 0;

static void profileAccess(uint64_t addr, uint32_t size, bool write, uint64_t pc)
{
	for (uint64_t k = addr >> 3; k <= (addr + (size ? size - 1 : 0)) >> 3; k++)
	{
		uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> 47;
		uint64_t n = 0;
		while (g_shadow[i].key && g_shadow[i].key != k && n++ < 64) i = (i + 1) & (SHADOW_N - 1);
		Shadow& s = g_shadow[i];
		if (s.key != k)
		{
			if (s.key || g_shadowUsed > SHADOW_N * 3 / 4) continue;
			s.key = k; g_shadowUsed++;
		}
		uint32_t bit = 1u << cur->id;
		if (write) s.w |= bit; else s.r |= bit;
		uint32_t all = s.r | s.w;
		if (s.w && (all & (all - 1)))
		{
			addHot(pc);
			for (int j = 0; j < 4; j++) if (s.pc[j]) { addHot(s.pc[j]); }
		}
		int slot = (int) ((pc >> 1) & 3);
		s.pc[slot] = pc;
		if (k - (addr >> 3) > 64) break;
	}
}

// what is handed to a new thread was written before it: not a conflict
static void profileForget(const void* a, uint64_t size)
{
	for (uint64_t k = (uint64_t) a >> 3; k <= ((uint64_t) a + size) >> 3; k++)
	{
		uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> 47;
		uint64_t n = 0;
		while (g_shadow[i].key && g_shadow[i].key != k && n++ < 64) i = (i + 1) & (SHADOW_N - 1);
		if (g_shadow[i].key == k) { g_shadow[i].r = g_shadow[i].w = 0; memset(g_shadow[i].pc, 0, sizeof(g_shadow[i].pc)); }
	}
}

static inline void access(const volatile void* a, uint32_t size, bool write, uint64_t pc)
{
	if (!cur) return;
	if (g_shadow && g_unjoined > 0) profileAccess((uint64_t) a, size, write, pc);
	point(pc);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (cur) point(PC); }
void __tsan_func_exit() {}
void __tsan_read1(void* a) { access(a,1,false,PC); }
void __tsan_read2(void* a) { access(a,2,false,PC); }
void __tsan_read4(void* a) { access(a,4,false,PC); }
void __tsan_read8(void* a) { access(a,8,false,PC); }
void __tsan_read16(void* a) { access(a,16,false,PC); }
void __tsan_write1(void* a) { access(a,1,true,PC); }
void __tsan_write2(void* a) { access(a,2,true,PC); }
void __tsan_write4(void* a) { access(a,4,true,PC); }
void __tsan_write8(void* a) { access(a,8,true,PC); }
void __tsan_write16(void* a) { access(a,16,true,PC); }
void __tsan_unaligned_read2(void* a) { access(a,2,false,PC); }
void __tsan_unaligned_read4(void* a) { access(a,4,false,PC); }
void __tsan_unaligned_read8(void* a) { access(a,8,false,PC); }
void __tsan_unaligned_read16(void* a) { access(a,16,false,PC); }
void __tsan_unaligned_write2(void* a) { access(a,2,true,PC); }
void __tsan_unaligned_write4(void* a) { access(a,4,true,PC); }
void __tsan_unaligned_write8(void* a) { access(a,8,true,PC); }
void __tsan_unaligned_write16(void* a) { access(a,16,true,PC); }
void __tsan_volatile_read1(void* a) { access(a,1,false,PC); }
void __tsan_volatile_read2(void* a) { access(a,2,false,PC); }
void __tsan_volatile_read4(void* a) { access(a,4,false,PC); }
void __tsan_volatile_read8(void* a) { access(a,8,false,PC); }
void __tsan_volatile_read16(void* a) { access(a,16,false,PC); }
void __tsan_volatile_write1(void* a) { access(a,1,true,PC); }
void __tsan_volatile_write2(void* a) { access(a,2,true,PC); }
void __tsan_volatile_write4(void* a) { access(a,4,true,PC); }
void __tsan_volatile_write8(void* a) { access(a,8,true,PC); }
void __tsan_volatile_write16(void* a) { access(a,16,true,PC); }
void __tsan_read_range(void* a, long n) { access(a,(uint32_t) n,false,PC); }
void __tsan_write_range(void* a, long n) { access(a,(uint32_t) n,true,PC); }
void __tsan_vptr_update(void** a, void*) { access(a,8,true,PC); }
void __tsan_vptr_read(void** a) { access(a,8,false,PC); }
void __tsan_atomic_thread_fence(int) { syncPoint(PC); }
void __tsan_atomic_signal_fence(int) {}

#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { access(a,bits/8,false,PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access(a,bits/8,true,PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { access(a,bits/8,true,PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access(a,bits/8,true,PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access(a,bits/8,true,PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access(a,bits/8,true,PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
}

// ---------------------------------------------------------------- heap
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
static char* const ARENA = (char*) 0x200000000000ull;
static const size_t ARENA_MAIN = 3ull << 30, ARENA_THR = 128ull << 20;
static char* const BOOT = (char*) 0x1F0000000000ull;
static const size_t BOOT_SIZE = 64ull << 20;
static bool g_boot = true;
static char* g_bootPos = nullptr;
static uint64_t g_allocBytes = 0;
struct Hdr { uint64_t size; uint32_t magic; uint32_t back; }; // 16 bytes before every block; back: distance from raw start
static const uint32_t HM_LIVE = 0xA110CA7E, HM_FREE = 0xDEADF7EE;
struct FreeNode { FreeNode* next; };
static const int NCLASS = 33;
static struct { FreeNode* head; FreeNode* tail; } g_free[MAXTHREADS][NCLASS];

static inline bool inArena(const void* p) { return (const char*) p >= ARENA && (const char*) p < ARENA + ARENA_MAIN + (size_t) MAXTHREADS * ARENA_THR; }
static inline bool inBoot(const void* p) { return (const char*) p >= BOOT && (const char*) p < BOOT + BOOT_SIZE; }

static void fillJunk(char* p, size_t n, Rng& r, bool freed)
{
	switch (g_cfg.fillMode)
	{
	case 0: memset(p, 0, n); break;
	case 1: memset(p, freed ? 0x5D : 0xFF, n); break;
	case 2: memset(p, freed ? 0xDD : 0xCC, n); break;
	case 4: memset(p, 1, n); break;
	default:
	{
		uint64_t v = rnd(r);
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { v ^= v << 13; v ^= v >> 7; v ^= v << 17; memcpy(p + i, &v, 8); }
		for (; i < n; i++) p[i] = (char) (v >> (8 * (i & 7)));
	}
	}
}

static char* rawBlock(SimThread* t, size_t need)
{
	char* p;
	if (g_cfg.heapMode == 1)
	{
		t->down -= need;
		p = t->down;
	} else if (g_cfg.heapMode == 2)
	{
		SimThread::Lane& l = t->lanes[rndBelow(t->hrng, 16)];
		if ((size_t) (l.end - l.p) < need)
		{
			size_t chunk = need > 65536 ? need : 65536;
			// carve a chunk from a random end
			if (rndBelow(t->hrng, 2)) { l.p = t->up; t->up += chunk; l.end = t->up; }
			else { t->down -= chunk; l.p = t->down; l.end = l.p + chunk; }
		}
		p = l.p;
		l.p += need;
	} else {
		p = t->up;
		t->up += need;
	}
	if (t->up >= t->down) simDie(ST_MEMLIMIT, "simulated heap exhausted");
	return p;
}

static void* simAlloc(size_t n, size_t align, bool zero)
{
	SimThread* t = cur;
	if (n == 0) n = 1;
	g_rep->allocs++;
	g_allocBytes += n;
	if (n > (1ull << 40)) { errno = ENOMEM; return nullptr; }
	if (g_allocBytes > g_cfg.memBudget) simDie(ST_MEMLIMIT, "memory budget exceeded");
	size_t cls = (n + 31) / 32;
	size_t body = cls * 32 - 16; if (body < n) { cls++; body = cls * 32 - 16; }
	if (align <= 16 && cls < (size_t) NCLASS && g_cfg.heapReuse)
	{
		auto& f = g_free[t->id][cls];
		if (f.head)
		{
			FreeNode* b = f.head;
			f.head = b->next; if (!f.head) f.tail = nullptr;
			Hdr* h = (Hdr*) ((char*) b - 16);
			h->size = n; h->magic = HM_LIVE;
			if (zero) memset(b, 0, n); else fillJunk((char*) b, n, t->hrng, false);
			return b;
		}
	}
	size_t extra = g_cfg.heapMode == 2 ? 32 * rndBelow(t->hrng, 3) : 0;
	size_t need = 16 + (body > n ? body : n) + extra;
	if (align > 16) need += align;
	need = (need + 31) & ~(size_t) 31;
	char* raw = rawBlock(t, need);
	char* p = raw + 16;
	if (align > 16) p = (char*) (((uintptr_t) p + align - 1) & ~(uintptr_t) (align - 1));
	Hdr* h = (Hdr*) (p - 16);
	h->size = n; h->magic = HM_LIVE; h->back = align > 16 ? 1 : 0;
	if (zero) memset(p, 0, n); else fillJunk(p, n, t->hrng, false);
	return p;
}

static void* bootAlloc(size_t n, size_t align)
{
	if (!g_bootPos)
	{
		long r = rawcall(SYS_mmap, (long) BOOT, BOOT_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
		if ((char*) r != BOOT) rawcall(SYS_exit_group, 96);
		g_bootPos = BOOT;
	}
	if (align < 16) align = 16;
	char* p = (char*) (((uintptr_t) g_bootPos + 16 + align - 1) & ~(uintptr_t) (align - 1));
	((Hdr*) (p - 16))->size = n;
	((Hdr*) (p - 16))->magic = HM_LIVE;
	g_bootPos = p + n;
	if (g_bootPos > BOOT + BOOT_SIZE) rawcall(SYS_exit_group, 95);
	return p;
}
void simBootDone() { g_boot = false; }

static size_t usable(void* p)
{
	if (inArena(p) || inBoot(p)) return ((Hdr*) ((char*) p - 16))->size;
	return REAL(malloc_usable_size)(p);
}

extern "C" {
void* malloc(size_t n)
{
	if (cur) return simAlloc(n, 16, false);
	if (g_boot) return bootAlloc(n, 16);
	return __libc_malloc(n);
}
void free(void* p)
{
	if (!p || inBoot(p)) return;
	if (!inArena(p)) { __libc_free(p); return; }
	Hdr* h = (Hdr*) ((char*) p - 16);
	if (h->magic != HM_LIVE)
	{
		const char* m = h->magic == HM_FREE ? "double free" : "free of invalid pointer";
		if (g_rep->status == ST_RUNNING) { g_rep->status = ST_TERMINATE; strcpy(g_rep->msg, m); }
		g_rep->steps = g_step; g_rep->csteps = g_cstep;
		rawcall(SYS_exit_group, 99);
	}
	h->magic = HM_FREE;
	SimThread* t = cur;
	if (!t) return;
	fillJunk((char*) p, h->size, t->hrng, true);
	size_t n = h->size, cls = (n + 31) / 32;
	size_t body = cls * 32 - 16; if (body < n) { cls++; }
	if (g_cfg.heapReuse && cls < (size_t) NCLASS && !h->back)
	{
		auto& f = g_free[t->id][cls];
		FreeNode* b = (FreeNode*) p;
		if (g_cfg.heapReuse == 1 || !f.head) { b->next = f.head; f.head = b; if (!f.tail) f.tail = b; }
		else { b->next = nullptr; f.tail->next = b; f.tail = b; }
	}
}
void cfree(void* p) { free(p); }
void* calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	if (cur) return simAlloc(n, 16, true);
	if (g_boot) return bootAlloc(n, 16);
	return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	if (!cur && !inArena(p) && !inBoot(p)) return __libc_realloc(p, n);
	if (n == 0) { free(p); return nullptr; }
	void* q = malloc(n);
	if (!q) return nullptr;
	size_t o = usable(p);
	memcpy(q, p, o < n ? o : n);
	free(p);
	return q;
}
void* memalign(size_t a, size_t n)
{
	if (cur) return simAlloc(n, a, false);
	if (g_boot) return bootAlloc(n, a);
	return __libc_memalign(a, n);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { if (!p) return 0; return usable(p); }
}

// ---------------------------------------------------------------- thread creation
static char* const STACKS = (char*) 0x300000000000ull;
static const size_t STACK_SIZE = 8ull << 20;

static void initThreadHeap(SimThread* t)
{
	t->lo = t->id == 0 ? ARENA : ARENA + ARENA_MAIN + (size_t) (t->id - 1) * ARENA_THR;
	t->hi = t->lo + (t->id == 0 ? ARENA_MAIN : ARENA_THR);
	t->up = t->lo + 4096; t->down = t->hi - 4096;
	t->hrng.s = g_cfg.heapSeed * 1000003 + t->id * 7919 + 17;
	if (g_cfg.heapMode == 0) t->up += 16 * (g_cfg.heapSeed & 0xFF);
	for (auto& l : t->lanes) l.p = l.end = nullptr;
}

static uint64_t prioFor(int id)
{
	if (g_cfg.sched == SK_SEQ)
	{
		for (uint32_t i = 0; i < g_cfg.orderLen; i++) if (g_cfg.order[i] == id) return 1000 - i;
		return 500 - id;
	}
	return 1000000 + rndBelow(g_srng, 1000000) * 64 + id;
}

static void threadEnd(SimThread* me);
static int liveCount();

static void* trampoline(void* p)
{
	SimThread* me = (SimThread*) p;
	park(me);
	cur = me;
	me->ret = me->fn(me->arg);
	threadEnd(me);
	return me->ret;
}

static void runDtors(SimThread* me)
{
	while (me->dtors) { Dtor* d = me->dtors; me->dtors = d->next; d->fn(d->obj); }
}

static void threadEnd(SimThread* me)
{
	runDtors(me);
	syncPoint(1);
	me->st = T_DONE;
	wakeAll(me, W_JOIN);
	SimThread* keep = cur;
	if (g_live >= 2) { ++g_step; ++g_cstep; }
	g_live = liveCount();
	blockCurrent();   // hands the token over; returns at once because we are done
	(void) keep;
	// token given away: leave the simulation without touching shared state
	cur = nullptr;
}

static SimThread* newThread()
{
	if (g_nthr >= MAXTHREADS) simDie(ST_SIMERROR, "too many threads");
	SimThread* t = &g_thr[g_nthr];
	memset((void*) t, 0, sizeof(*t));
	t->id = g_nthr++;
	t->st = T_RUN;
	t->prio = prioFor(t->id);
	initThreadHeap(t);
	return t;
}

static void* threadStack(int id)
{
	char* base = STACKS + (size_t) id * (STACK_SIZE + 65536);
	long r = rawcall(SYS_mmap, (long) base, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if ((char*) r != base) simDie(ST_SIMERROR, "cannot map stack");
	// initial stack content is part of the simulated environment
	Rng q; q.s = g_cfg.heapSeed * 31 + id;
	size_t n = 192 * 1024;
	fillJunk(base + STACK_SIZE - n, n, q, false);
	return base;
}

static int liveCount() { int n = 0; for (int i = 0; i < g_nthr; i++) if (g_thr[i].st != T_DONE) n++; return n; }

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (!cur) return REAL(pthread_create)(out, attr, fn, arg);
	SimThread* t = newThread();
	t->fn = fn; t->arg = arg;
	if (attr)
	{
		int ds = 0;
		if (REAL(pthread_attr_getdetachstate)(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) t->detached = true;
	}
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstack(&a, threadStack(t->id), STACK_SIZE);
	int r = REAL(pthread_create)(&t->handle, &a, trampoline, t);
	pthread_attr_destroy(&a);
	if (r) simDie(ST_SIMERROR, "pthread_create failed");
	t->handleValid = true;
	g_unjoined++;
	if (g_shadow && arg && inArena(arg)) profileForget(arg, ((Hdr*) ((char*) arg - 16))->size);
	*out = t->handle;
	g_rep->threadsCreated++;
	g_live = liveCount();
	if ((uint64_t) g_live > g_rep->maxLive) g_rep->maxLive = g_live;
	if (g_nextSwitch == ~0ull) armNext();
	++g_step; ++g_cstep; g_rep->syncOps++;
	if (g_cfg.sched == SK_SEQ || g_cfg.sched == SK_PCT) { SimThread* to = pickPrio(); if (to != cur) transfer(to); }
	else if (g_cfg.sched == SK_EXPLICIT || rndBelow(g_srng, 2)) switchNow(false);
	return 0;
}

static SimThread* byHandle(pthread_t h)
{
	for (int i = 0; i < g_nthr; i++) if (g_thr[i].handleValid && pthread_equal(g_thr[i].handle, h)) return &g_thr[i];
	return nullptr;
}

extern "C" int pthread_join(pthread_t h, void** ret)
{
	if (!cur) return REAL(pthread_join)(h, ret);
	SimThread* t = byHandle(h);
	if (!t) return ESRCH;
	if (t == cur) return EDEADLK;
	syncPoint(PC);
	while (t->st != T_DONE) waitOn(t, W_JOIN);
	SimThread* me = cur;
	int r = REAL(pthread_join)(h, ret);
	cur = me;
	t->handleValid = false;
	g_unjoined--;
	g_live = liveCount();
	syncPoint(PC);
	return r;
}
extern "C" int pthread_detach(pthread_t h)
{
	if (cur) { SimThread* t = byHandle(h); if (t) { t->detached = true; return 0; } }
	return REAL(pthread_detach)(h);
}
extern "C" int pthread_tryjoin_np(pthread_t h, void** ret)
{
	if (!cur) return REAL(pthread_tryjoin_np)(h, ret);
	SimThread* t = byHandle(h);
	if (t && t->st == T_DONE) return pthread_join(h, ret);
	syncPoint(PC);
	return EBUSY;
}
extern "C" int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso)
{
	if (!cur)
	{
		typedef int (*F)(void (*)(void*), void*, void*);
		static F f = (F) dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
		return f(fn, obj, dso);
	}
	Dtor* d = (Dtor*) simAlloc(sizeof(Dtor), 16, true);
	d->fn = fn; d->obj = obj; d->next = cur->dtors; cur->dtors = d;
	return 0;
}

// ---------------------------------------------------------------- mutexes and friends
struct SyncObj { const void* addr; int owner; int count; int readers; int value; bool used; };
static SyncObj g_sync[4096];
static SyncObj* syncObj(const void* a)
{
	size_t i = (((uint64_t) a >> 3) * 0x9E3779B97F4A7C15ull) >> 52;
	size_t n = 0;
	SyncObj* freeSlot = nullptr;
	for (;; i = (i + 1) & 4095)
	{
		if (g_sync[i].addr == a) return &g_sync[i];
		if (!g_sync[i].addr) { if (!freeSlot) freeSlot = &g_sync[i]; break; }
		if (++n > 4000) simDie(ST_SIMERROR, "too many sync objects");
	}
	freeSlot->addr = a; freeSlot->owner = -1; freeSlot->count = 0; freeSlot->readers = 0; freeSlot->value = 0;
	return freeSlot;
}
static int64_t absNs(const struct timespec* ts, bool realtime) { (void) realtime; return ts->tv_sec * 1000000000ll + ts->tv_nsec; }

static int mutexLock(pthread_mutex_t* m, bool try_, const struct timespec* ts, uint64_t pc)
{
	syncPoint(pc);
	SyncObj* o = syncObj(m);
	int kind = m->__data.__kind & 3;
	if (o->owner == cur->id)
	{
		if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { o->count++; return 0; }
		if (try_) return EBUSY;
		if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
	}
	while (o->owner != -1)
	{
		if (try_) return EBUSY;
		waitOn(m, W_MUTEX, ts != nullptr, ts ? absNs(ts, true) : 0);
		if (cur->timedOut) { cur->timedOut = false; if (o->owner != -1) return ETIMEDOUT; }
	}
	o->owner = cur->id; o->count = 1;
	return 0;
}
static int mutexUnlock(pthread_mutex_t* m)
{
	SyncObj* o = syncObj(m);
	if (o->owner != cur->id) return 0; // locked before the simulation started
	if (--o->count > 0) return 0;
	o->owner = -1;
	wakeAll(m, W_MUTEX);
	return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!cur || !g_active) return REAL(pthread_mutex_lock)(m);
	return mutexLock(m, false, nullptr, PC);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!cur || !g_active) return REAL(pthread_mutex_trylock)(m);
	return mutexLock(m, true, nullptr, PC);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
	if (!cur || !g_active) return REAL(pthread_mutex_timedlock)(m, ts);
	return mutexLock(m, false, ts, PC);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return pthread_mutex_timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!cur || !g_active) return REAL(pthread_mutex_unlock)(m);
	mutexUnlock(m);
	syncPoint(PC);
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t at, uint64_t pc)
{
	syncPoint(pc);
	mutexUnlock(m);
	waitOn(c, W_COND, timed, at);
	bool to = cur->timedOut; cur->timedOut = false;
	SyncObj* o = syncObj(m);
	while (o->owner != -1) waitOn(m, W_MUTEX);
	o->owner = cur->id; o->count = 1;
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!cur) return REAL(pthread_cond_wait)(c, m);
	return condWait(c, m, false, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (!cur) return REAL(pthread_cond_timedwait)(c, m, ts);
	return condWait(c, m, true, absNs(ts, true), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
	if (!cur) return REAL(pthread_cond_timedwait)(c, m, ts);
	return condWait(c, m, true, absNs(ts, true), PC);
}
int pthread_cond_signal(pthread_cond_t* c)
{
	if (!cur) return REAL(pthread_cond_signal)(c);
	syncPoint(PC);
	wakeAll(c, W_COND, 1);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!cur) return REAL(pthread_cond_broadcast)(c);
	syncPoint(PC);
	wakeAll(c, W_COND);
	return 0;
}
static int rwLock(pthread_rwlock_t* l, bool write, bool try_, uint64_t pc)
{
	syncPoint(pc);
	SyncObj* o = syncObj(l);
	for (;;)
	{
		if (write ? (o->owner == -1 && o->readers == 0) : o->owner == -1) break;
		if (try_) return EBUSY;
		waitOn(l, W_RW);
	}
	if (write) o->owner = cur->id; else o->readers++;
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!cur || !g_active) return REAL(pthread_rwlock_rdlock)(l); return rwLock(l, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!cur || !g_active) return REAL(pthread_rwlock_wrlock)(l); return rwLock(l, true, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!cur || !g_active) return REAL(pthread_rwlock_tryrdlock)(l); return rwLock(l, false, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!cur || !g_active) return REAL(pthread_rwlock_trywrlock)(l); return rwLock(l, true, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if (!cur || !g_active) return REAL(pthread_rwlock_unlock)(l);
	SyncObj* o = syncObj(l);
	if (o->owner == cur->id) o->owner = -1; else if (o->readers > 0) o->readers--;
	wakeAll(l, W_RW);
	syncPoint(PC);
	return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)())
{
	if (!cur) return REAL(pthread_once)(ctl, fn);
	if (*ctl == 2) return 0;
	syncPoint(PC);
	while (*ctl == 1) waitOn(ctl, W_ONCE);
	if (*ctl == 2) return 0;
	*ctl = 1;
	fn();
	*ctl = 2;
	wakeAll(ctl, W_ONCE);
	return 0;
}
int sem_init(sem_t* s, int sh, unsigned v)
{
	if (!cur) return REAL(sem_init)(s, sh, v);
	syncObj(s)->value = (int) v;
	return 0;
}
int sem_wait(sem_t* s)
{
	if (!cur) return REAL(sem_wait)(s);
	syncPoint(PC);
	SyncObj* o = syncObj(s);
	while (o->value <= 0) waitOn(s, W_SEM);
	o->value--;
	return 0;
}
int sem_trywait(sem_t* s)
{
	if (!cur) return REAL(sem_trywait)(s);
	syncPoint(PC);
	SyncObj* o = syncObj(s);
	if (o->value <= 0) { errno = EAGAIN; return -1; }
	o->value--;
	return 0;
}
int sem_post(sem_t* s)
{
	if (!cur) return REAL(sem_post)(s);
	syncObj(s)->value++;
	wakeAll(s, W_SEM, 1);
	syncPoint(PC);
	return 0;
}

long syscall(long n, ...)
{
	va_list ap; va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (cur && n == SYS_futex)
	{
		int op = (int) b & FUTEX_CMD_MASK;
		syncPoint(PC);
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
		{
			if (__atomic_load_n((int*) a, __ATOMIC_SEQ_CST) != (int) c) { errno = EAGAIN; return -1; }
			const struct timespec* ts = (const struct timespec*) d;
			int64_t at = ts ? absNs(ts, true) + (op == FUTEX_WAIT ? nowNs() : 0) : 0;
			waitOn((void*) a, W_FUTEX, ts != nullptr, at);
			if (cur->timedOut) { cur->timedOut = false; errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wakeAll((void*) a, W_FUTEX, (int) c); return 0; }
	}
	if (cur && (n == SYS_write || n == SYS_read || n == SYS_open || n == SYS_openat || n == SYS_unlink || n == SYS_rename))
		simDie(ST_SIMERROR, "unsimulated raw system call");
	long r = rawcall(n, a, b, c, d, e, f);
	if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
	return r;
}

int sched_yield()
{
	if (!cur) return (int) rawcall(SYS_sched_yield);
	++g_step; if (g_live >= 2) { ++g_cstep; switchNow(true); }
	if (g_step >= g_cfg.stepBudget) stepSlow(0);
	return 0;
}
static void simSleep(int64_t ns)
{
	if (ns < 0) ns = 0;
	++g_step; if (g_live >= 2) ++g_cstep;
	if (g_step >= g_cfg.stepBudget) stepSlow(0);
	waitOn(&g_schedVar, W_SLEEP, true, nowNs() + ns);
	cur->timedOut = false;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
	if (!cur) return REAL(nanosleep)(ts, rem);
	simSleep(ts->tv_sec * 1000000000ll + ts->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem)
{
	if (!cur) return REAL(clock_nanosleep)(c, fl, ts, rem);
	int64_t ns = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	simSleep((fl & TIMER_ABSTIME) ? ns - nowNs() : ns);
	return 0;
}
int usleep(useconds_t us) { if (!cur) return REAL(usleep)(us); simSleep(us * 1000ll); return 0; }
unsigned sleep(unsigned s) { if (!cur) return REAL(sleep)(s); simSleep(s * 1000000000ll); return 0; }

int clock_gettime(clockid_t c, struct timespec* ts)
{
	if (!cur) return (int) rawcall(SYS_clock_gettime, c, (long) ts);
	int64_t n = nowNs();
	if (n < 0) n = 0;
	ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000;
	return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
	if (!cur) return (int) rawcall(SYS_gettimeofday, (long) tv, (long) tz);
	int64_t n = nowNs(); if (n < 0) n = 0;
	tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000;
	return 0;
}
time_t time(time_t* t)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
clock_t clock()
{
	if (!cur) return REAL(clock)();
	return (clock_t) (nowNs() / 1000);
}
static Rng g_userRng;
ssize_t getrandom(void* p, size_t n, unsigned fl)
{
	if (!cur) return REAL(getrandom)(p, n, fl);
	for (size_t i = 0; i < n; i++) ((uint8_t*) p)[i] = (uint8_t) rnd(g_userRng);
	return n;
}
int getentropy(void* p, size_t n)
{
	if (!cur) return REAL(getentropy)(p, n);
	getrandom(p, n, 0);
	return 0;
}
uint32_t arc4random() { if (!cur) return REAL(arc4random)(); uint32_t v = 0; getrandom(&v, sizeof(v), 0); return v; }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { unsigned v = 0; getrandom(&v, sizeof(v), 0); return v; }
int rand() { if (!cur) return REAL(rand)(); return (int) (rnd(g_userRng) & 0x7FFFFFFF); }
long random() { if (!cur) return REAL(random)(); return (long) (rnd(g_userRng) & 0x7FFFFFFF); }
pid_t getpid() { if (!cur) return (pid_t) rawcall(SYS_getpid); return (pid_t) (1000 + g_cfg.heapSeed % 30000); }
}

// ---------------------------------------------------------------- file system boundary
struct FdInfo { bool used; bool ours; bool wr; char rel[192]; };
static FdInfo g_fd[1024];
static int64_t g_diskUsed = 0;
// The simulated process sees its world mounted at /W; every path crossing the boundary is translated,
// so neither the location nor the name of the scratch directory can influence it.
static const char VROOT[] = "/W";
static char g_cwd[512]; // simulated process' cwd (virtual)
static bool relPath(const char* p, char* out, size_t cap);
// real path for a call on p (buffer is per call site)
static const char* realPath(const char* p, char* buf, size_t cap)
{
	char rel[192];
	if (!relPath(p, rel, sizeof(rel))) return p;
	if (rel[0] == '.' && !rel[1]) snprintf(buf, cap, "%s", g_cfg.root);
	else snprintf(buf, cap, "%s/%s", g_cfg.root, rel);
	return buf;
}
#define RP(p) ({ static __thread char b_[600]; (long) realPath(p, b_, sizeof(b_)); })

static void logEvent(int tid, Op op, const char* rel, int64_t ret, int err, const char* tag)
{
	Report* r = g_rep;
	char line[420];
	int n = snprintf(line, sizeof(line), "%d\t%s\t%s\t%lld\t%d\t%s\n", tid, opNames[op], rel, (long long) ret, err, tag);
	if (n >= (int) sizeof(line)) n = sizeof(line) - 1;
	for (int i = 0; i < n; i++) fold(r->evhash, (uint8_t) line[i]);
	fold(r->ilhash, tid * 64 + op);
	if (r->logLen + n < LOG_MAX) { memcpy(r->log + r->logLen, line, n); r->logLen += n; }
	else r->logTrunc++;
}
void simMarkRun(const char* what)
{
	char line[128];
	int n = snprintf(line, sizeof(line), "#\t%s\n", what);
	if (g_rep->logLen + n < LOG_MAX) { memcpy(g_rep->log + g_rep->logLen, line, n); g_rep->logLen += n; }
}

// relative name of a path inside the scratch world; returns false if outside
static bool relPath(const char* p, char* out, size_t cap)
{
	char buf[1024];
	size_t n = 0;
	if (p[0] != '/')
	{
		n = strlen(g_cwd);
		memcpy(buf, g_cwd, n);
		buf[n++] = '/';
	}
	size_t m = strlen(p);
	if (n + m >= sizeof(buf)) { snprintf(out, cap, "!toolong"); return false; }
	memcpy(buf + n, p, m + 1);
	// lexical normalisation
	char norm[1024]; size_t k = 0;
	for (char* q = buf; *q;)
	{
		while (*q == '/') q++;
		if (!*q) break;
		char* e = q; while (*e && *e != '/') e++;
		size_t l = e - q;
		if (l == 1 && q[0] == '.') {}
		else if (l == 2 && q[0] == '.' && q[1] == '.') { while (k > 0 && norm[k - 1] != '/') k--; if (k > 0) k--; }
		else { norm[k++] = '/'; memcpy(norm + k, q, l); k += l; }
		q = e;
	}
	norm[k] = 0;
	const size_t rl = sizeof(VROOT) - 1;
	if (strncmp(norm, VROOT, rl) == 0 && (norm[rl] == '/' || norm[rl] == 0))
	{
		snprintf(out, cap, "%s", norm[rl] ? norm + rl + 1 : ".");
		return true;
	}
	snprintf(out, cap, "!%s", norm);
	return false;
}

static void doIntrude(int idx);

// modification times come from the simulated clock; they live in the backing files, so later processes see them
static void stampFd(int fd)
{
	struct timespec t[2]; int64_t n = nowNs();
	t[0].tv_sec = n / 1000000000; t[0].tv_nsec = n % 1000000000; t[1] = t[0];
	rawcall(SYS_utimensat, fd, 0, (long) t, 0);
}
static void stampPath(const char* real)
{
	struct timespec t[2]; int64_t n = nowNs();
	t[0].tv_sec = n / 1000000000; t[0].tv_nsec = n % 1000000000; t[1] = t[0];
	rawcall(SYS_utimensat, AT_FDCWD, (long) real, (long) t, 0);
}
static void fixTimes(struct stat* st)
{
	if (S_ISDIR(st->st_mode)) { st->st_mtim.tv_sec = 1699000000; st->st_mtim.tv_nsec = 0; }
	st->st_atim = st->st_ctim = st->st_mtim;
}

struct Ctl { bool fail; int err; int64_t limit; bool eof; bool torn; int64_t tornN; bool killMid; int64_t killN; char tag[64]; };

static void killNow(const char* why) { g_rep->status = ST_KILLED; simDie(ST_KILLED, why); }

// decide what happens to this call; the preemption point precedes it
static void before(Op op, const char* rel, Ctl& c, uint64_t pc, bool empty = false)
{
	c.fail = c.eof = c.torn = c.killMid = false; c.err = 0; c.limit = -1; c.tornN = 0; c.killN = -1; c.tag[0] = '-'; c.tag[1] = 0;
	point(pc, true);
	g_rep->nevents++;
	g_rep->opCount[op]++;
	if (g_cfg.killEvent && g_rep->nevents == g_cfg.killEvent)
	{
		if (g_cfg.killMid == -1) { logEvent(cur->id, op, rel, 0, 0, "KILL"); killNow("killed before call"); }
		c.killMid = true; c.killN = g_cfg.killMid;
	}
	for (int i = 0; i < g_cfg.nFaults; i++)
	{
		Fault& f = g_cfg.faults[i];
		if (f.op != OP_COUNT && f.op != op) continue;
		if (f.path[0] != '*' && strcmp(f.path, rel) != 0) continue;
		f.matched++;
		if (f.matched < f.nth || f.matched >= f.nth + f.count) continue;
		if ((f.action == AC_EOF || f.action == AC_SHORT || f.action == AC_TORN) && op != OP_READ && op != OP_WRITE && op != OP_COPY) continue;
		if (f.action == AC_EOF && op == OP_WRITE) continue;
		// an empty file has no blocks that could fail to be read (and libstdc++'s copy_file aborts on it, whatever armips does)
		if (empty) continue;
		f.fired++;
		g_rep->fired[f.action]++;
		snprintf(c.tag, sizeof(c.tag), "F%d:%s", i, actionNames[f.action]);
		switch (f.action)
		{
		case AC_ERR: c.fail = true; c.err = f.err; break;
		case AC_SHORT: c.limit = f.arg < 1 ? 1 : f.arg; break;
		case AC_EOF: c.eof = true; break;
		case AC_TORN: c.torn = true; c.tornN = f.arg; c.err = f.err; break;
		case AC_KILL: logEvent(cur->id, op, rel, 0, 0, "KILL"); killNow("killed before call"); break;
		case AC_KILLMID: c.killMid = true; c.killN = f.arg; break;
		case AC_INTRUDE: doIntrude((int) f.arg); break;
		default: break;
		}
	}
}
static void after(Op op, const char* rel, int64_t ret, int err, Ctl& c)
{
	logEvent(cur->id, op, rel, ret, ret < 0 ? err : 0, c.tag);
	if (c.killMid) { killNow("killed after call"); }
}

// generic wrapper for calls returning -1/errno
#define SIMPLE(op, rel, pc, expr) \
	Ctl c; before(op, rel, c, pc); \
	if (c.fail) { after(op, rel, -1, c.err, c); errno = c.err; return -1; } \
	auto r_ = (expr); int e_ = errno; \
	after(op, rel, r_, e_, c); errno = e_; return r_;

static void escape(Op op, const char* rel)
{
	g_rep->escapes++;
	logEvent(cur ? cur->id : 0, op, rel, -1, EACCES, "ESCAPE");
}

static void doIntrude(int idx)
{
	if (idx < 0 || idx >= g_cfg.nIntr) return;
	Intruder& in = g_cfg.intr[idx];
	char p[600]; snprintf(p, sizeof(p), "%s/%s", g_cfg.root, in.path);
	if (in.kind == 1) { rawcall(SYS_unlink, (long) p); }
	else if (in.kind == 3) { rawcall(SYS_truncate, (long) p, (long) in.len); stampPath(p); }
	else {
		long fd = rawcall(SYS_open, (long) p, O_WRONLY | O_CREAT | (in.kind == 2 ? O_APPEND : O_TRUNC), 0644);
		if (fd >= 0) { rawcall(SYS_write, fd, (long) in.data, in.len); rawcall(SYS_close, fd); stampPath(p); }
	}
	logEvent(cur->id, OP_SYNC, in.path, in.kind, 0, "INTRUDER");
}

static bool isStd(int fd) { return fd >= 0 && fd <= 2; }
static bool ours(int fd) { return cur && fd >= 0 && fd < 1024 && g_fd[fd].used && g_fd[fd].ours; }

static void noteFd(int fd, const char* rel, bool in, bool wr)
{
	if (fd < 0 || fd >= 1024) return;
	g_fd[fd].used = true; g_fd[fd].ours = in; g_fd[fd].wr = wr;
	snprintf(g_fd[fd].rel, sizeof(g_fd[fd].rel), "%s", rel);
}

static Op openOp(int flags)
{
	if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return OP_OPEN_R;
	if (flags & (O_CREAT | O_TRUNC)) return OP_OPEN_W;
	return OP_OPEN_U;
}

static int simOpen(const char* path, int flags, mode_t mode, uint64_t pc)
{
	char rel[192];
	bool in = relPath(path, rel, sizeof(rel));
	Op op = openOp(flags);
	if (!in)
	{
		if (op != OP_OPEN_R) { escape(op, rel); errno = EACCES; return -1; }
		long r = rawcall(SYS_open, (long) path, flags, mode);
		if (r < 0) { errno = (int) -r; return -1; }
		noteFd((int) r, rel, false, false);
		return (int) r;
	}
	Ctl c; before(op, rel, c, pc);
	if (c.fail) { after(op, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(SYS_open, RP(path), flags, mode);
	int e = r < 0 ? (int) -r : 0;
	if (r >= 0) noteFd((int) r, rel, true, op != OP_OPEN_R);
	if (r >= 0 && op == OP_OPEN_W)
	{
		struct stat st;
		if (rawcall(SYS_fstat, r, (long) &st) == 0 && st.st_size == 0) stampFd((int) r);
	}
	after(op, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return (int) r;
}

static ssize_t simWrite(int fd, const void* p, size_t n, uint64_t pc)
{
	const char* rel = g_fd[fd].rel;
	Ctl c; before(OP_WRITE, rel, c, pc);
	if (c.fail) { after(OP_WRITE, rel, -1, c.err, c); errno = c.err; return -1; }
	size_t want = n;
	int64_t failAfter = -1; int failErr = 0;
	if (c.limit >= 0 && (size_t) c.limit < want) want = (size_t) c.limit;
	if (c.torn) { failAfter = c.tornN < (int64_t) want ? c.tornN : (int64_t) want - 1; if (failAfter < 0) failAfter = 0; failErr = c.err; want = (size_t) failAfter; }
	if (c.killMid && c.killN >= 0 && (size_t) c.killN < want) want = (size_t) c.killN;
	if (g_cfg.diskBudget >= 0 && failAfter < 0)
	{
		int64_t room = g_cfg.diskBudget - g_diskUsed;
		if (room <= 0 && n > 0)
		{
			g_rep->fired[AC_ERR]++;
			snprintf(c.tag, sizeof(c.tag), "DISKFULL");
			after(OP_WRITE, rel, -1, ENOSPC, c); errno = ENOSPC; return -1;
		}
		if ((int64_t) want > room) { want = (size_t) room; snprintf(c.tag, sizeof(c.tag), "DISKSHORT"); }
	}
	long pos = rawcall(SYS_lseek, fd, 0, SEEK_CUR);
	if (pos >= 0 && pos + (long) want > (24l << 20)) simDie(ST_FSLIMIT, "file grows beyond the simulated disk");
	long r = want || !n ? rawcall(SYS_write, fd, (long) p, want) : 0;
	if (r > 0) { g_diskUsed += r; stampFd(fd); }
	if (pos >= 0 && r > 0 && (uint64_t) (pos + r) > g_rep->fsPeak) g_rep->fsPeak = pos + r;
	int e = r < 0 ? (int) -r : 0;
	if (r < 0) r = -1;
	if (failAfter >= 0) { r = -1; e = failErr; }
	after(OP_WRITE, rel, r, e, c);
	if (r < 0) errno = e;
	return r;
}

static ssize_t simRead(int fd, void* p, size_t n, uint64_t pc)
{
	const char* rel = g_fd[fd].rel;
	struct stat sst; bool empty = rawcall(SYS_fstat, fd, (long) &sst) == 0 && S_ISREG(sst.st_mode) && sst.st_size == 0;
	Ctl c; before(OP_READ, rel, c, pc, empty);
	if (c.fail || c.torn) { after(OP_READ, rel, -1, c.err, c); errno = c.err; return -1; }
	if (c.eof) { after(OP_READ, rel, 0, 0, c); return 0; }
	size_t want = n;
	if (c.limit >= 0 && (size_t) c.limit < want) want = (size_t) c.limit;
	long r = rawcall(SYS_read, fd, (long) p, want);
	int e = r < 0 ? (int) -r : 0;
	if (r < 0) r = -1;
	after(OP_READ, rel, r, e, c);
	if (r < 0) errno = e;
	return r;
}

static off_t simSeek(int fd, off_t off, int wh, uint64_t pc)
{
	const char* rel = g_fd[fd].rel;
	Ctl c; before(OP_SEEK, rel, c, pc);
	if (c.fail) { after(OP_SEEK, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(SYS_lseek, fd, off, wh);
	int e = r < 0 ? (int) -r : 0;
	if (r < 0) r = -1;
	after(OP_SEEK, rel, r, e, c);
	if (r < 0) errno = e;
	return r;
}

static int simStat(const char* path, void* st, int nr, uint64_t pc)
{
	char rel[192];
	bool in = relPath(path, rel, sizeof(rel));
	if (!in) { long r = rawcall(nr, (long) path, (long) st); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	Ctl c; before(OP_STAT, rel, c, pc);
	if (c.fail) { after(OP_STAT, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(nr, RP(path), (long) st);
	if (r >= 0) fixTimes((struct stat*) st);
	int e = r < 0 ? (int) -r : 0;
	after(OP_STAT, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return 0;
}
static int simFstat(int fd, void* st, uint64_t pc)
{
	const char* rel = g_fd[fd].rel;
	Ctl c; before(OP_FSTAT, rel, c, pc);
	if (c.fail) { after(OP_FSTAT, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(SYS_fstat, fd, (long) st);
	if (r >= 0) fixTimes((struct stat*) st);
	int e = r < 0 ? (int) -r : 0;
	after(OP_FSTAT, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return 0;
}

// one- and two-path mutators
static bool mutPath(const char* path, Op op, char* rel, size_t cap)
{
	bool in = relPath(path, rel, cap);
	if (!in) { escape(op, rel); errno = EACCES; }
	return in;
}
static int pathCall(Op op, const char* path, long nr, long a1, long a2, long a3, uint64_t pc)
{
	char rel[192];
	if (!mutPath(path, op, rel, sizeof(rel))) return -1;
	Ctl c; before(op, rel, c, pc);
	if (c.fail) { after(op, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(nr, a1, a2, a3);
	if (r >= 0 && op == OP_TRUNC) stampPath((const char*) a1);
	int e = r < 0 ? (int) -r : 0;
	after(op, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return 0;
}

static int fopenFlags(const char* m)
{
	int fl;
	bool plus = strchr(m, '+') != nullptr;
	switch (m[0])
	{
	case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
	case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	default: fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	}
	if (strchr(m, 'x')) fl |= O_EXCL;
	return fl;
}

extern "C" {
FILE* fopen(const char* path, const char* mode)
{
	if (!cur) return REAL(fopen)(path, mode);
	int fd = simOpen(path, fopenFlags(mode), 0666, PC);
	if (fd < 0) return nullptr;
	int e = errno;
	FILE* f = REAL(fdopen)(fd, mode);
	if (!f) simDie(ST_SIMERROR, "fdopen failed");
	errno = e;
	return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }

int fclose(FILE* f)
{
	int fd = fileno(f);
	if (!ours(fd)) { if (cur && fd >= 0 && fd < 1024) g_fd[fd].used = false; return REAL(fclose)(f); }
	char rel[192]; snprintf(rel, sizeof(rel), "%s", g_fd[fd].rel);
	Ctl c; before(OP_CLOSE, rel, c, PC);
	g_fd[fd].used = false;
	int r = REAL(fclose)(f); int e = errno;
	if (c.fail) { r = EOF; e = c.err; }
	after(OP_CLOSE, rel, r, e, c);
	errno = e;
	return r;
}
int open(const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	if (!cur) { long r = rawcall(SYS_open, (long) path, flags, m); if (r < 0) { errno = (int) -r; return -1; } return (int) r; }
	return simOpen(path, flags, m, PC);
}
int open64(const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	if (!cur) { long r = rawcall(SYS_open, (long) path, flags, m); if (r < 0) { errno = (int) -r; return -1; } return (int) r; }
	return simOpen(path, flags, m, PC);
}
// the name a path relative to an open directory has for the program
static const char* dirPath(int dfd, const char* p, char* buf, size_t cap)
{
	if (dfd == AT_FDCWD || p[0] == '/') return p;
	if (!ours(dfd)) simDie(ST_SIMERROR, "path relative to an unknown directory");
	if (g_fd[dfd].rel[0] == '.' && !g_fd[dfd].rel[1]) snprintf(buf, cap, "%s/%s", VROOT, p);
	else snprintf(buf, cap, "%s/%s/%s", VROOT, g_fd[dfd].rel, p);
	return buf;
}
int openat(int dfd, const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	if (!cur) { long r = rawcall(SYS_openat, dfd, (long) path, flags, m); if (r < 0) { errno = (int) -r; return -1; } return (int) r; }
	char full[600];
	return simOpen(dirPath(dfd, path, full, sizeof(full)), flags, m, PC);
}
int __openat_2(int dfd, const char* path, int flags) { return openat(dfd, path, flags, 0); }
int __openat64_2(int dfd, const char* path, int flags) { return openat(dfd, path, flags, 0); }
int __open_2(const char* path, int flags) { return openat(AT_FDCWD, path, flags, 0); }
int __open64_2(const char* path, int flags) { return openat(AT_FDCWD, path, flags, 0); }
int openat64(int dfd, const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
	return openat(dfd, path, flags, m);
}
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
	if (!ours(fd)) { if (cur && fd >= 0 && fd < 1024) g_fd[fd].used = false; long r = rawcall(SYS_close, fd); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char rel[192]; snprintf(rel, sizeof(rel), "%s", g_fd[fd].rel);
	Ctl c; before(OP_CLOSE, rel, c, PC);
	g_fd[fd].used = false;
	long r = rawcall(SYS_close, fd); int e = r < 0 ? (int) -r : 0;
	if (c.fail) { r = -1; e = c.err; }
	after(OP_CLOSE, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return 0;
}
ssize_t write(int fd, const void* p, size_t n)
{
	if (!ours(fd))
	{
		if (cur && isStd(fd)) point(PC, true);
		long r = rawcall(SYS_write, fd, (long) p, n); if (r < 0) { errno = (int) -r; return -1; } return r;
	}
	return simWrite(fd, p, n, PC);
}
ssize_t read(int fd, void* p, size_t n)
{
	if (!ours(fd)) { long r = rawcall(SYS_read, fd, (long) p, n); if (r < 0) { errno = (int) -r; return -1; } return r; }
	return simRead(fd, p, n, PC);
}
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
	if (!ours(fd)) { long r = rawcall(SYS_writev, fd, (long) v, cnt); if (r < 0) { errno = (int) -r; return -1; } return r; }
	size_t n = 0; for (int i = 0; i < cnt; i++) n += v[i].iov_len;
	char* b = (char*) __libc_malloc(n + 1); size_t k = 0;
	for (int i = 0; i < cnt; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
	ssize_t r = simWrite(fd, b, n, PC);
	int e = errno; __libc_free(b); errno = e;
	return r;
}
ssize_t readv(int fd, const struct iovec* v, int cnt)
{
	if (!ours(fd)) { long r = rawcall(SYS_readv, fd, (long) v, cnt); if (r < 0) { errno = (int) -r; return -1; } return r; }
	return cnt ? simRead(fd, v[0].iov_base, v[0].iov_len, PC) : 0;
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o)
{
	if (!ours(fd)) { long r = rawcall(SYS_pwrite64, fd, (long) p, n, o); if (r < 0) { errno = (int) -r; return -1; } return r; }
	long old = rawcall(SYS_lseek, fd, 0, SEEK_CUR); rawcall(SYS_lseek, fd, o, SEEK_SET);
	ssize_t r = simWrite(fd, p, n, PC); rawcall(SYS_lseek, fd, old, SEEK_SET);
	return r;
}
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return pwrite(fd, p, n, o); }
ssize_t pread(int fd, void* p, size_t n, off_t o)
{
	if (!ours(fd)) { long r = rawcall(SYS_pread64, fd, (long) p, n, o); if (r < 0) { errno = (int) -r; return -1; } return r; }
	long old = rawcall(SYS_lseek, fd, 0, SEEK_CUR); rawcall(SYS_lseek, fd, o, SEEK_SET);
	ssize_t r = simRead(fd, p, n, PC); rawcall(SYS_lseek, fd, old, SEEK_SET);
	return r;
}
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return pread(fd, p, n, o); }
off_t lseek(int fd, off_t o, int w)
{
	if (!ours(fd)) { long r = rawcall(SYS_lseek, fd, o, w); if (r < 0) { errno = (int) -r; return -1; } return r; }
	return simSeek(fd, o, w, PC);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

int stat(const char* p, struct stat* st) { if (!cur) { long r = rawcall(SYS_stat, (long) p, (long) st); if (r < 0) { errno = (int) -r; return -1; } return 0; } return simStat(p, st, SYS_stat, PC); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*) st); }
int lstat(const char* p, struct stat* st) { if (!cur) { long r = rawcall(SYS_lstat, (long) p, (long) st); if (r < 0) { errno = (int) -r; return -1; } return 0; } return simStat(p, st, SYS_lstat, PC); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*) st); }
int fstat(int fd, struct stat* st) { if (!ours(fd)) { long r = rawcall(SYS_fstat, fd, (long) st); if (r < 0) { errno = (int) -r; return -1; } return 0; } return simFstat(fd, st, PC); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*) st); }
int fstatat(int dfd, const char* p, struct stat* st, int fl)
{
	if (!cur) { long r = rawcall(SYS_newfstatat, dfd, (long) p, (long) st, fl); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char full[600];
	p = dirPath(dfd, p, full, sizeof(full));
	return (fl & AT_SYMLINK_NOFOLLOW) ? lstat(p, st) : stat(p, st);
}
int fstatat64(int dfd, const char* p, struct stat64* st, int fl) { return fstatat(dfd, p, (struct stat*) st, fl); }
int access(const char* p, int m)
{
	if (!cur) { long r = rawcall(SYS_access, (long) p, m); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char rel[192];
	if (!relPath(p, rel, sizeof(rel))) { long r = rawcall(SYS_access, (long) p, m); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	SIMPLE(OP_ACCESS, rel, PC, ({ long r = rawcall(SYS_access, RP(p), m); if (r < 0) { errno = (int) -r; r = -1; } (int) r; }))
}

int unlink(const char* p) { if (!cur) { long r = rawcall(SYS_unlink, (long) p); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_UNLINK, p, SYS_unlink, RP(p), 0, 0, PC); }
int rmdir(const char* p) { if (!cur) { long r = rawcall(SYS_rmdir, (long) p); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_RMDIR, p, SYS_rmdir, RP(p), 0, 0, PC); }
int remove(const char* p)
{
	if (!cur) return REAL(remove)(p);
	struct stat st;
	bool dir = rawcall(SYS_lstat, RP(p), (long) &st) == 0 && S_ISDIR(st.st_mode);
	return dir ? rmdir(p) : unlink(p);
}
int unlinkat(int dfd, const char* p, int fl)
{
	if (!cur) { long r = rawcall(SYS_unlinkat, dfd, (long) p, fl); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char full[600];
	p = dirPath(dfd, p, full, sizeof(full));
	return (fl & AT_REMOVEDIR) ? rmdir(p) : unlink(p);
}
int mkdir(const char* p, mode_t m) { if (!cur) { long r = rawcall(SYS_mkdir, (long) p, m); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_MKDIR, p, SYS_mkdir, RP(p), m, 0, PC); }
int rename(const char* a, const char* b)
{
	if (!cur) { long r = rawcall(SYS_rename, (long) a, (long) b); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char ra[192], rb[192];
	if (!mutPath(a, OP_RENAME, ra, sizeof(ra)) || !mutPath(b, OP_RENAME, rb, sizeof(rb))) return -1;
	// log both names: the source as an unlink-like event first
	logEvent(cur->id, OP_RENAME, ra, 0, 0, "FROM");
	return pathCall(OP_RENAME, b, SYS_rename, RP(a), RP(b), 0, PC);
}
int renameat(int, const char* a, int, const char* b) { return rename(a, b); }
int link(const char* a, const char* b) { if (!cur) { long r = rawcall(SYS_link, (long) a, (long) b); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_LINK, b, SYS_link, RP(a), RP(b), 0, PC); }
int symlink(const char* a, const char* b) { if (!cur) { long r = rawcall(SYS_symlink, (long) a, (long) b); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_LINK, b, SYS_symlink, (long) a, RP(b), 0, PC); }
int truncate(const char* p, off_t n) { if (!cur) { long r = rawcall(SYS_truncate, (long) p, n); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_TRUNC, p, SYS_truncate, RP(p), n, 0, PC); }
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n)
{
	if (!ours(fd)) { long r = rawcall(SYS_ftruncate, fd, n); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	SIMPLE(OP_TRUNC, g_fd[fd].rel, PC, ({ long r = rawcall(SYS_ftruncate, fd, n); if (r < 0) { errno = (int) -r; r = -1; } else stampFd(fd); (int) r; }))
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int chmod(const char* p, mode_t m) { if (!cur) { long r = rawcall(SYS_chmod, (long) p, m); if (r < 0) { errno = (int) -r; return -1; } return 0; } return pathCall(OP_CHMOD, p, SYS_chmod, RP(p), m, 0, PC); }
int fchmod(int fd, mode_t m)
{
	if (!ours(fd)) { long r = rawcall(SYS_fchmod, fd, m); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	SIMPLE(OP_CHMOD, g_fd[fd].rel, PC, ({ long r = rawcall(SYS_fchmod, fd, m); if (r < 0) { errno = (int) -r; r = -1; } (int) r; }))
}
int fchmodat(int dfd, const char* p, mode_t m, int fl) { if (!cur) return REAL(fchmodat)(dfd, p, m, fl); return chmod(p, m); }
int utimensat(int dfd, const char* p, const struct timespec t[2], int fl)
{
	if (!cur) { long r = rawcall(SYS_utimensat, dfd, (long) p, (long) t, fl); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char rel[192]; if (!mutPath(p, OP_UTIME, rel, sizeof(rel))) return -1;
	SIMPLE(OP_UTIME, rel, PC, ({ long r = rawcall(SYS_utimensat, dfd, RP(p), (long) t, fl); if (r < 0) { errno = (int) -r; r = -1; } (int) r; }))
}
int fsync(int fd) { if (!ours(fd)) { long r = rawcall(SYS_fsync, fd); if (r < 0) { errno = (int) -r; return -1; } return 0; } SIMPLE(OP_SYNC, g_fd[fd].rel, PC, 0) }
int fdatasync(int fd) { return fsync(fd); }

static ssize_t simCopy(int out, int in, off_t* offIn, off_t* offOut, size_t n, uint64_t pc)
{
	// fault addressable both as a copy on the destination and as a read on the source
	char rel[192]; snprintf(rel, sizeof(rel), "%s", g_fd[out].rel);
	Ctl c; before(OP_COPY, rel, c, pc);
	if (c.fail || c.torn) { after(OP_COPY, rel, -1, c.err, c); errno = c.err; return -1; }
	size_t want = n;
	if (c.limit >= 0 && (size_t) c.limit < want) want = (size_t) c.limit;
	if (c.killMid && c.killN >= 0 && (size_t) c.killN < want) want = (size_t) c.killN;
	if (g_cfg.diskBudget >= 0)
	{
		int64_t room = g_cfg.diskBudget - g_diskUsed;
		if (room <= 0) { g_rep->fired[AC_ERR]++; snprintf(c.tag, sizeof(c.tag), "DISKFULL"); after(OP_COPY, rel, -1, ENOSPC, c); errno = ENOSPC; return -1; }
		if ((int64_t) want > room) want = (size_t) room;
	}
	if (c.eof) { after(OP_COPY, rel, 0, 0, c); return 0; }
	// transfer through a buffer so the split is deterministic
	ssize_t total = 0; int e = 0;
	char b[4096];
	while ((size_t) total < want)
	{
		size_t k = want - total; if (k > sizeof(b)) k = sizeof(b);
		long r = offIn ? rawcall(SYS_pread64, in, (long) b, k, *offIn) : rawcall(SYS_read, in, (long) b, k);
		if (r < 0) { e = (int) -r; if (!total) total = -1; break; }
		if (r == 0) break;
		long w = offOut ? rawcall(SYS_pwrite64, out, (long) b, r, *offOut) : rawcall(SYS_write, out, (long) b, r);
		if (w < 0) { e = (int) -w; if (!total) total = -1; break; }
		if (offIn) *offIn += r;
		if (offOut) *offOut += r;
		total += w; g_diskUsed += w;
	}
	if (total > 0) stampFd(out);
	after(OP_COPY, rel, total, e, c);
	if (total < 0) errno = e;
	return total;
}
ssize_t sendfile(int out, int in, off_t* off, size_t n)
{
	if (!ours(out)) { long r = rawcall(SYS_sendfile, out, in, (long) off, n); if (r < 0) { errno = (int) -r; return -1; } return r; }
	return simCopy(out, in, off, nullptr, n, PC);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl)
{
	if (!ours(out)) { long r = rawcall(SYS_copy_file_range, in, (long) oi, out, (long) oo, n, fl); if (r < 0) { errno = (int) -r; return -1; } return r; }
	return simCopy(out, in, oi, oo, n, PC);
}

char* getcwd(char* b, size_t n)
{
	if (!cur) return REAL(getcwd)(b, n);
	char rel[192]; relPath(".", rel, sizeof(rel));
	Ctl c; before(OP_GETCWD, rel, c, PC);
	if (c.fail) { after(OP_GETCWD, rel, -1, c.err, c); errno = c.err; return nullptr; }
	size_t l = strlen(g_cwd) + 1;
	char* r = b;
	if (!b) { if (n < l) n = l; r = (char*) malloc(n); }
	if (n < l) { after(OP_GETCWD, rel, -1, ERANGE, c); errno = ERANGE; return nullptr; }
	memcpy(r, g_cwd, l);
	after(OP_GETCWD, rel, 0, 0, c);
	return r;
}
int chdir(const char* p)
{
	if (!cur) { long r = rawcall(SYS_chdir, (long) p); if (r < 0) { errno = (int) -r; return -1; } return 0; }
	char rel[192];
	if (!relPath(p, rel, sizeof(rel))) { escape(OP_CHDIR, rel); errno = EACCES; return -1; }
	Ctl c; before(OP_CHDIR, rel, c, PC);
	if (c.fail) { after(OP_CHDIR, rel, -1, c.err, c); errno = c.err; return -1; }
	long r = rawcall(SYS_chdir, RP(p)); int e = r < 0 ? (int) -r : 0;
	if (r == 0) { if (rel[0] == '.' && !rel[1]) snprintf(g_cwd, sizeof(g_cwd), "%s", VROOT); else snprintf(g_cwd, sizeof(g_cwd), "%s/%s", VROOT, rel); }
	after(OP_CHDIR, rel, r < 0 ? -1 : 0, e, c);
	if (r < 0) { errno = e; return -1; }
	return 0;
}
DIR* opendir(const char* p)
{
	if (!cur) return REAL(opendir)(p);
	char rel[192];
	bool in = relPath(p, rel, sizeof(rel));
	if (!in) return REAL(opendir)(p);
	Ctl c; before(OP_OPENDIR, rel, c, PC);
	if (c.fail) { after(OP_OPENDIR, rel, -1, c.err, c); errno = c.err; return nullptr; }
	DIR* d = REAL(opendir)((const char*) RP(p)); int e = errno;
	after(OP_OPENDIR, rel, d ? 0 : -1, e, c); errno = e;
	return d;
}
ssize_t readlink(const char* p, char* b, size_t n)
{
	if (!cur) { long r = rawcall(SYS_readlink, (long) p, (long) b, n); if (r < 0) { errno = (int) -r; return -1; } return r; }
	char rel[192];
	if (!relPath(p, rel, sizeof(rel))) { long r = rawcall(SYS_readlink, (long) p, (long) b, n); if (r < 0) { errno = (int) -r; return -1; } return r; }
	SIMPLE(OP_READLINK, rel, PC, ({ long r = rawcall(SYS_readlink, RP(p), (long) b, n); if (r < 0) { errno = (int) -r; r = -1; } (ssize_t) r; }))
}
char* realpath(const char* p, char* out)
{
	if (cur)
	{
		char rel[192];
		bool in = relPath(p, rel, sizeof(rel));
		if (in)
		{
			Ctl c; before(OP_READLINK, rel, c, PC);
			if (c.fail) { after(OP_READLINK, rel, -1, c.err, c); errno = c.err; return nullptr; }
			struct stat st;
			long x = rawcall(SYS_stat, RP(p), (long) &st);
			char* r = nullptr; int e = (int) -x;
			if (x >= 0)
			{
				r = out ? out : (char*) malloc(4096);
				if (rel[0] == '.' && !rel[1]) snprintf(r, 4096, "%s", VROOT); else snprintf(r, 4096, "%s/%s", VROOT, rel);
			}
			after(OP_READLINK, rel, r ? 0 : -1, e, c); errno = e;
			return r;
		}
	}
	return REAL(realpath)(p, out);
}

// stdio on simulated files (not used by libstdc++ streams, which go through read/write)
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f)
{
	if (cur)
	{
		int fd = fileno(f);
		if (ours(fd))
		{
			size_t total = sz * n, done = 0;
			while (done < total)
			{
				ssize_t r = simWrite(fd, (const char*) p + done, total - done, PC);
				if (r < 0) { if (errno == EINTR) continue; f->_flags |= 0x20; break; }
				done += r;
			}
			return sz ? done / sz : 0;
		}
		point(PC, true);
	}
	return REAL(fwrite)(p, sz, n, f);
}
size_t fread(void* p, size_t sz, size_t n, FILE* f)
{
	if (cur)
	{
		int fd = fileno(f);
		if (ours(fd))
		{
			size_t total = sz * n, done = 0;
			while (done < total)
			{
				ssize_t r = simRead(fd, (char*) p + done, total - done, PC);
				if (r < 0) { if (errno == EINTR) continue; f->_flags |= 0x20; break; }
				if (r == 0) { f->_flags |= 0x10; break; }
				done += r;
			}
			return sz ? done / sz : 0;
		}
	}
	return REAL(fread)(p, sz, n, f);
}
int fseek(FILE* f, long o, int w) { if (cur && ours(fileno(f))) { f->_flags &= ~0x10; return simSeek(fileno(f), o, w, PC) < 0 ? -1 : 0; } return REAL(fseek)(f, o, w); }
int fseeko(FILE* f, off_t o, int w) { return fseek(f, o, w); }
int fseeko64(FILE* f, off64_t o, int w) { return fseek(f, o, w); }
long ftell(FILE* f) { if (cur && ours(fileno(f))) return simSeek(fileno(f), 0, SEEK_CUR, PC); return REAL(ftell)(f); }
off_t ftello(FILE* f) { return ftell(f); }
off64_t ftello64(FILE* f) { return ftell(f); }
int fputs(const char* s, FILE* f) { if (cur && ours(fileno(f))) { size_t n = strlen(s); return fwrite(s, 1, n, f) == n ? 1 : EOF; } if (cur) point(PC, true); return REAL(fputs)(s, f); }
int fputc(int c, FILE* f) { if (cur && ours(fileno(f))) { char b = (char) c; return fwrite(&b, 1, 1, f) == 1 ? c : EOF; } if (cur) point(PC, true); return REAL(fputc)(c, f); }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char* s) { if (cur) point(PC, true); return REAL(puts)(s); }
int fgetc(FILE* f) { if (cur && ours(fileno(f))) { unsigned char b; return fread(&b, 1, 1, f) == 1 ? b : EOF; } return REAL(fgetc)(f); }
int getc(FILE* f) { return fgetc(f); }
char* fgets(char* s, int n, FILE* f)
{
	if (!(cur && ours(fileno(f)))) return REAL(fgets)(s, n, f);
	int i = 0;
	while (i < n - 1) { int c = fgetc(f); if (c == EOF) break; s[i++] = (char) c; if (c == '\n') break; }
	if (!i) return nullptr;
	s[i] = 0;
	return s;
}
int vfprintf(FILE* f, const char* fmt, va_list ap)
{
	if (!(cur && ours(fileno(f)))) { if (cur) point(PC, true); return REAL(vfprintf)(f, fmt, ap); }
	char b[8192];
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	if (n > (int) sizeof(b) - 1) n = sizeof(b) - 1;
	return fwrite(b, 1, n, f) == (size_t) n ? n : -1;
}
int fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fflush(FILE* f) { if (cur) point(PC, true); if (cur && f && ours(fileno(f))) return 0; return REAL(fflush)(f); }
FILE* tmpfile() { if (!cur) return REAL(tmpfile)(); escape(OP_OPEN_W, "!tmpfile"); errno = EACCES; return nullptr; }

void exit(int code)
{
	if (cur) { char m[64]; snprintf(m, sizeof(m), "exit(%d) called", code); simDie(ST_EXIT, m); }
	REAL(fflush)(nullptr);
	rawcall(SYS_exit_group, code);
	__builtin_unreachable();
}
void _exit(int code)
{
	if (cur) { char m[64]; snprintf(m, sizeof(m), "_exit(%d) called", code); simDie(ST_EXIT, m); }
	rawcall(SYS_exit_group, code);
	__builtin_unreachable();
}
void _Exit(int code) { _exit(code); }
void quick_exit(int code) { _exit(code); }
void abort()
{
	if (cur) simDie(ST_TERMINATE, g_rep->msg[0] ? g_rep->msg : "abort() called");
	rawcall(SYS_exit_group, 134);
	__builtin_unreachable();
}
}

// ---------------------------------------------------------------- start-up
void simPrepare()
{
	long r = rawcall(SYS_mmap, (long) ARENA, ARENA_MAIN + (size_t) MAXTHREADS * ARENA_THR, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if ((char*) r != ARENA) simDie(ST_SIMERROR, "cannot map arena");
	g_srng.s = g_cfg.schedSeed * 0x9E3779B97F4A7C15ull + 0x1234567;
	g_userRng.s = g_cfg.heapSeed + 99;
	g_pctLow = 900000;
	if (g_cfg.sched == SK_PCT)
	{
		g_pctN = g_cfg.depth > 60 ? 60 : (int) g_cfg.depth;
		for (int i = 0; i < g_pctN; i++) g_pct[i] = 1 + rndBelow(g_srng, g_cfg.mean ? g_cfg.mean : 1);
		for (int i = 0; i < g_pctN; i++) for (int j = i + 1; j < g_pctN; j++) if (g_pct[j] < g_pct[i]) { uint64_t t = g_pct[i]; g_pct[i] = g_pct[j]; g_pct[j] = t; }
	}
	for (uint64_t i = 0; i < g_cfg.hotLen; i++) addHot(g_cfg.hot[i]);
	g_rep->nHot = 0;
	g_hotOn = g_cfg.hotLen > 0 || g_cfg.sched == SK_HOT;
	if (g_cfg.profile)
		g_shadow = (Shadow*) rawcall(SYS_mmap, 0, SHADOW_N * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	snprintf(g_cwd, sizeof(g_cwd), "%s", VROOT);
	g_rep->evhash = 0xcbf29ce484222325ull;
	g_rep->ilhash = 0xcbf29ce484222325ull;
}

struct MainArg { void (*fn)(void*); void* arg; };
static void* mainTramp(void* p)
{
	MainArg* a = (MainArg*) p;
	cur = &g_thr[0];
	g_active = true;
	a->fn(a->arg);
	g_rep->steps = g_step; g_rep->csteps = g_cstep; g_rep->simNanos = g_now + (int64_t) g_step * 10;
	cur = nullptr;
	return nullptr;
}
void simRunMain(void (*fn)(void*), void* arg)
{
	MainArg a { fn, arg };
	SimThread* t = newThread();
	(void) t;
	g_live = 1;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, threadStack(0), STACK_SIZE);
	pthread_t h;
	if (REAL(pthread_create)(&h, &at, mainTramp, &a)) simDie(ST_SIMERROR, "pthread_create");
	REAL(pthread_join)(h, nullptr);
}
void simLeave() { saved = cur; cur = nullptr; }
void simEnter() { cur = saved; }
