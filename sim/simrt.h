// Deterministic simulation runtime for armips: shared declarations.
// The runtime itself (simrt.cpp) uses no C++ library templates: it is called from
// instrumented code, and template instances are shared with that code at link time.
#pragma once
#include <stddef.h>
#include <stdint.h>

enum SimStatus : uint32_t {
	ST_RUNNING = 0, ST_DONE = 1, ST_KILLED = 2, ST_DEADLOCK = 3, ST_STEPLIMIT = 4,
	ST_MEMLIMIT = 5, ST_TERMINATE = 6, ST_EXIT = 7, ST_SIMERROR = 8, ST_FSLIMIT = 9,
};

enum Op : uint32_t {
	OP_OPEN_R, OP_OPEN_U, OP_OPEN_W, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_STAT, OP_FSTAT,
	OP_UNLINK, OP_RENAME, OP_TRUNC, OP_MKDIR, OP_RMDIR, OP_GETCWD, OP_CHDIR, OP_COPY, OP_CHMOD,
	OP_OPENDIR, OP_LINK, OP_UTIME, OP_SYNC, OP_ACCESS, OP_READLINK, OP_COUNT
};
extern const char* const opNames[OP_COUNT];

enum Action : uint32_t {
	AC_ERR,      // fail with errno
	AC_SHORT,    // transfer at most arg bytes
	AC_EOF,      // read: end of file
	AC_TORN,     // write: transfer arg bytes, then fail with errno
	AC_KILL,     // process dies before the call
	AC_KILLMID,  // process dies after arg bytes of a write, or after the call
	AC_INTRUDE,  // another process modifies a file before the call (intruder list index arg)
	AC_COUNT
};
extern const char* const actionNames[AC_COUNT];

enum SchedKind : uint32_t { SK_SEQ, SK_RAND, SK_PCT, SK_HOT, SK_EXPLICIT };

struct Fault {
	uint32_t op;          // OP_COUNT = any
	char path[192];       // relative path, or "*"
	uint64_t nth, count;  // fires for matches nth .. nth+count-1 (1-based)
	uint32_t action;
	int err;
	int64_t arg;
	uint64_t matched, fired;
};

struct Intruder { char path[192]; uint32_t kind; const char* data; size_t len; }; // kind 0 replace 1 delete 2 append 3 truncate(len=arg)

struct SwitchRec { uint64_t c; uint32_t t; uint32_t pad; };

static const int MAXFAULT = 64, MAXINTR = 16, MAXTHREADS = 32;

struct SimConfig {
	char root[256];       // absolute scratch directory of the simulated world
	uint32_t sched;
	uint64_t schedSeed;
	uint64_t mean;        // SK_RAND mean distance; SK_PCT number of steps
	uint32_t depth;       // SK_PCT change points
	uint32_t pmHot, pmIo, pmAny; // SK_HOT per-1024 probabilities
	uint8_t order[MAXTHREADS]; uint32_t orderLen; // SK_SEQ priority order
	const SwitchRec* exp; uint64_t expLen;
	const uint64_t* hot; uint64_t hotLen;
	bool profile;
	uint64_t stepBudget;
	uint64_t memBudget;
	uint32_t heapMode;    // 0 up, 1 down, 2 scatter
	uint32_t heapReuse;   // 0 never, 1 lifo, 2 fifo
	uint32_t fillMode;    // 0 zero, 1 0xFF, 2 0xCC, 3 random, 4 0x01
	uint64_t heapSeed;
	int64_t clockBase;
	int64_t diskBudget;   // -1 unlimited
	uint64_t killEvent;   // 0 none; event index (1-based) at which the process dies
	int64_t killMid;      // -1 before, >=0 bytes of a write transferred first, -2 after
	bool stdoutFail;
	Fault faults[MAXFAULT]; int nFaults;
	Intruder intr[MAXINTR]; int nIntr;
};

static const uint64_t LOG_MAX = 8u << 20, OUT_MAX = 96u << 20, SW_MAX = 1u << 19, HOT_MAX = 4096;

struct Report {
	volatile uint32_t status;
	char msg[1024];
	uint64_t steps, csteps, nswitch, nevents, evhash, ilhash, opCount[OP_COUNT], fired[AC_COUNT];
	uint64_t maxLive, threadsCreated, allocs, escapes, syncOps;
	uint64_t nSw, nHot, logLen, outLen, logTrunc;
	int64_t simNanos;
	uint64_t fsPeak;
	SwitchRec sw[SW_MAX];
	uint64_t hot[HOT_MAX];
	char log[LOG_MAX];
	char out[OUT_MAX];
};

extern Report* g_rep;
extern SimConfig g_cfg;

// child side
void simPrepare();                         // map arenas, load config
void simRunMain(void (*fn)(void*), void*); // run fn as simulated thread 0; returns when it ends
void simLeave();                           // current thread temporarily leaves the simulation (harness bookkeeping)
void simEnter();
void simBootDone();
void simMarkRun(const char* what);         // writes a marker into the event log
[[noreturn]] void simDie(uint32_t status, const char* msg);
