// Simulation server: reads scenarios from stdin, forks one child per simulated process and
// reports what happened as JSON on stdout (length-prefixed in both directions).
#include "simrt.h"

#include "Core/Assembler.h"
#include "Core/FileManager.h"
#include "Core/Misc.h"
#include "Main/CommandLineInterface.h"

#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <map>
#include <string>
#include <vector>

#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

struct RunSpec {
	bool mem = false;
	bool silent = false, useList = true, absNames = true;
	std::vector<std::string> args;  // cli
	// memory mode
	std::string content, temp, sym;
	int symVersion = 0;
	bool eow = false, stats = false;
	std::vector<std::pair<std::string, std::string>> equs;
	std::vector<std::pair<std::string, long long>> labels;
	long long header = 0;
	int failOpenEnc = 0, failOpenChk = 0; // 1: refuse
	int failWriteNth = 0, failWriteCount = 0;
	bool hostFixed = true;
	std::vector<std::pair<std::string, std::string>> edits; // files replaced by someone else before this run
};

struct ProcSpec {
	SimConfig cfg;
	std::vector<SwitchRec> exp;
	std::vector<uint64_t> hot;
	std::vector<std::string> intrData;
	std::vector<RunSpec> runs;
	bool wantEvents = true, wantSched = false;
	bool wantTrees = true;
	int locale = 0;
};

std::string g_root;      // scratch directory
std::string g_world;     // g_root/w : the simulated world
std::string g_stdoutPath;

// ---- JSON output -------------------------------------------------------
void jstr(std::string& o, const char* p, size_t n)
{
	static const char* hex = "0123456789abcdef";
	o += '"';
	for (size_t i = 0; i < n; i++)
	{
		unsigned char c = (unsigned char) p[i];
		if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
		else if (c < 0x20 || c >= 0x7F) { o += "\\u00"; o += hex[c >> 4]; o += hex[c & 15]; }
		else o += (char) c;
	}
	o += '"';
}
void jstr(std::string& o, const std::string& s) { jstr(o, s.data(), s.size()); }
void jnum(std::string& o, long long v) { char b[32]; snprintf(b, sizeof(b), "%lld", v); o += b; }

// ---- file tree ---------------------------------------------------------
void readTree(const std::string& abs, const std::string& rel, std::map<std::string, std::string>& out)
{
	DIR* d = opendir(abs.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent* e = readdir(d))
	{
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		names.push_back(e->d_name);
	}
	closedir(d);
	for (auto& n : names)
	{
		std::string a = abs + "/" + n, r = rel.empty() ? n : rel + "/" + n;
		struct stat st;
		if (lstat(a.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { out[r + "/"] = ""; readTree(a, r, out); }
		else if (S_ISREG(st.st_mode))
		{
			std::string data;
			int fd = open(a.c_str(), O_RDONLY);
			if (fd >= 0)
			{
				data.resize(st.st_size);
				size_t k = 0;
				while (k < data.size()) { ssize_t g = read(fd, &data[k], data.size() - k); if (g <= 0) break; k += g; }
				data.resize(k);
				close(fd);
			}
			out[r] = data;
		}
		else out[r] = "?";
	}
}
void jtree(std::string& o)
{
	std::map<std::string, std::string> t;
	readTree(g_world, "", t);
	o += '{';
	bool first = true;
	for (auto& kv : t)
	{
		if (!first) o += ',';
		first = false;
		jstr(o, kv.first);
		o += ':';
		if (kv.second.size() > (1u << 20))
		{
			// large: length and hash
			uint64_t h = 1469598103934665603ull;
			for (unsigned char c : kv.second) { h ^= c; h *= 1099511628211ull; }
			char b[96]; snprintf(b, sizeof(b), "\"#%zu:%016llx\"", kv.second.size(), (unsigned long long) h);
			o += b;
		}
		else jstr(o, kv.second);
	}
	o += '}';
}
void removeTree(const std::string& abs)
{
	DIR* d = opendir(abs.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent* e = readdir(d))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
	closedir(d);
	for (auto& n : names)
	{
		std::string a = abs + "/" + n;
		struct stat st;
		if (lstat(a.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { removeTree(a); rmdir(a.c_str()); }
		else unlink(a.c_str());
	}
}

// ---- host object for memory mode --------------------------------------
struct HostCall { char kind; long long a; long long n; std::string data; };

class SimHost : public AssemblerFile
{
public:
	SimHost(const RunSpec& s) : spec(s), name("memory") {}
	bool open(bool onlyCheck) override
	{
		note(onlyCheck ? 'o' : 'O', 0, 0, "");
		header = spec.header; va = header;
		if (onlyCheck ? spec.failOpenChk : spec.failOpenEnc) { note('x', 0, 0, ""); return false; }
		opened = true; checking = onlyCheck;
		return true;
	}
	void close() override { note('C', checking, opened, ""); opened = false; }
	bool isOpen() override { return opened && !checking; }
	bool write(void* data, size_t length) override
	{
		writes++;
		bool refuse = spec.failWriteCount && writes >= spec.failWriteNth && writes < spec.failWriteNth + spec.failWriteCount;
		note(refuse ? 'R' : (opened && !checking ? 'W' : 'B'), va, (long long) length, std::string((const char*) data, length));
		va += length;
		return !refuse;
	}
	int64_t getVirtualAddress() override { return va; }
	int64_t getPhysicalAddress() override { return va - header; }
	int64_t getHeaderSize() override { return header; }
	bool seekVirtual(int64_t v) override { if (v - header < 0) { Logger::queueError(Logger::Error, "Seeking to virtual address with negative physical address"); return false; } va = v; return true; }
	bool seekPhysical(int64_t p) override { if (p < 0) { Logger::queueError(Logger::Error, "Seeking to negative physical address"); return false; } va = p + header; return true; }
	bool hasFixedVirtualAddress() override { return spec.hostFixed; }
	const fs::path& getFileName() override { return name; }

	std::vector<HostCall> calls;
private:
	void note(char k, long long a, long long n, const std::string& d) { calls.push_back(HostCall{k, a, n, d}); }
	RunSpec spec;
	fs::path name;
	int64_t va = 0, header = 0;
	bool opened = false, checking = false;
	int writes = 0;
};

std::vector<std::pair<std::shared_ptr<SimHost>, size_t>> g_hosts;

// ---- child -------------------------------------------------------------
ProcSpec* g_proc;
std::string g_outbuf;
off_t g_stdoutPos = 0;

void outFlush()
{
	size_t n = std::min<size_t>(g_outbuf.size(), OUT_MAX - g_rep->outLen);
	memcpy(g_rep->out + g_rep->outLen, g_outbuf.data(), n);
	g_rep->outLen += n;
	g_outbuf.clear();
}

void onTerminate()
{
	simLeave();
	char msg[600] = "terminate called";
	if (std::type_info* t = abi::__cxa_current_exception_type())
	{
		int st = 0;
		char* dem = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
		const char* what = "";
		try { throw; } catch (std::exception& e) { what = e.what(); } catch (...) {}
		snprintf(msg, sizeof(msg), "uncaught exception %s: %s", dem ? dem : t->name(), what);
	}
	simDie(ST_TERMINATE, msg);
}

std::string takeStdout()
{
	fflush(stdout);
	std::string s;
	int fd = open(g_stdoutPath.c_str(), O_RDONLY);
	if (fd < 0) return s;
	lseek(fd, g_stdoutPos, SEEK_SET);
	char b[65536];
	ssize_t n;
	while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
	close(fd);
	g_stdoutPos += s.size();
	return s;
}

void writeFile(const std::string& path, const std::string& data, int64_t when)
{
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0) return;
	for (size_t k = 0; k < data.size();) { ssize_t n = write(fd, data.data() + k, data.size() - k); if (n <= 0) break; k += n; }
	struct timespec t[2] = {{when, 0}, {when, 0}};
	futimens(fd, t);
	close(fd);
}

void oneRun(const RunSpec& r)
{
	if (!r.edits.empty())
	{
		simLeave();
		for (auto& e : r.edits) writeFile(g_world + "/" + e.first, e.second, g_cfg.clockBase / 1000000000);
		simEnter();
	}
	std::vector<std::string> errors;
	std::shared_ptr<SimHost> host;
	int ret = -1;
	if (r.mem)
	{
		host = std::make_shared<SimHost>(r);
		ArmipsArguments s;
		s.mode = ArmipsMode::MEMORY;
		s.content = r.content;
		s.silent = r.silent;
		s.errorOnWarning = r.eow;
		s.showStats = r.stats;
		if (r.useList) s.errorsResult = &errors;
		if (!r.temp.empty()) s.tempFileName = r.temp;
		if (!r.sym.empty()) { s.symFileName = r.sym; s.symFileVersion = r.symVersion; }
		for (auto& e : r.equs) s.equList.emplace_back(EquationDefinition{Identifier(e.first), e.second});
		for (auto& e : r.labels) s.labels.emplace_back(LabelDefinition{Identifier(e.first), (int64_t) e.second});
		s.memoryFile = host;
		ret = runArmips(s) ? 0 : 1;
	}
	else
	{
		ArmipsArguments s;
		s.silent = r.silent;
		s.useAbsoluteFileNames = r.absNames;
		if (r.useList) s.errorsResult = &errors;
		ret = runFromCommandLine(r.args, s);
	}

	simLeave();
	std::string& o = g_outbuf;
	if (g_rep->outLen) o += ',';
	o += "{\"ret\":"; jnum(o, ret);
	o += ",\"errors\":[";
	for (size_t i = 0; i < errors.size(); i++) { if (i) o += ','; jstr(o, errors[i]); }
	o += "],\"out\":"; jstr(o, takeStdout());
	if (host)
	{
		// calls that reached the objects of earlier runs after those runs had returned
		size_t stale = 0;
		for (auto& h : g_hosts) stale += h.first->calls.size() - h.second;
		o += ",\"stale\":"; jnum(o, (long long) stale);
		g_hosts.push_back({host, host->calls.size()});
		o += ",\"host\":[";
		bool f = true;
		for (auto& c : host->calls)
		{
			if (!f) o += ',';
			f = false;
			o += '['; jstr(o, std::string(1, c.kind)); o += ','; jnum(o, c.a); o += ','; jnum(o, c.n); o += ','; jstr(o, c.data); o += ']';
		}
		o += ']';
	}
	if (g_proc->wantTrees && &r != &g_proc->runs.back()) { o += ",\"tree\":"; jtree(o); }
	o += '}';
	outFlush();
	simMarkRun("run-end");
	simEnter();
}

void childMain(void*)
{
	for (auto& r : g_proc->runs) oneRun(r);
	g_rep->status = ST_DONE;
}

void runChild(ProcSpec& p)
{
	g_proc = &p;
	if (chdir(g_world.c_str())) _exit(90);
	int so = open(g_stdoutPath.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
	if (so < 0) _exit(91);
	dup2(so, 1); dup2(so, 2);
	int dn = open("/dev/null", O_RDONLY);
	dup2(dn, 0);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 120; // safety net only; the step budget decides
	setrlimit(RLIMIT_CPU, &rl);
	g_cfg = p.cfg;
	snprintf(g_cfg.root, sizeof(g_cfg.root), "%s", g_world.c_str());
	g_cfg.exp = p.exp.data(); g_cfg.expLen = p.exp.size();
	g_cfg.hot = p.hot.data(); g_cfg.hotLen = p.hot.size();
	for (int i = 0; i < g_cfg.nIntr; i++) { g_cfg.intr[i].data = p.intrData[i].data(); if (g_cfg.intr[i].kind != 3) g_cfg.intr[i].len = p.intrData[i].size(); }
	std::set_terminate(onTerminate);
	simPrepare();
	simRunMain(childMain, nullptr);
	_exit(0);
}

// ---- server ------------------------------------------------------------
std::string unhex(const std::string& t)
{
	std::string s;
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (size_t i = 1; i + 1 < t.size(); i += 2) s += (char) (v(t[i]) * 16 + v(t[i + 1]));
	return s;
}

void defaults(SimConfig& c)
{
	memset(&c, 0, sizeof(c));
	c.sched = SK_SEQ; c.order[0] = 1; c.order[1] = 2; c.order[2] = 0; c.orderLen = 3;
	c.stepBudget = 40000000; c.memBudget = 1ull << 30;
	c.diskBudget = -1; c.clockBase = 1700000000ll * 1000000000ll;
	c.heapReuse = 1; c.fillMode = 2;
}

bool readAll(int fd, void* p, size_t n)
{
	char* b = (char*) p;
	while (n) { ssize_t r = read(fd, b, n); if (r <= 0) return false; b += r; n -= r; }
	return true;
}
void writeAll(int fd, const void* p, size_t n)
{
	const char* b = (const char*) p;
	while (n) { ssize_t r = write(fd, b, n); if (r <= 0) _exit(3); b += r; n -= r; }
}

void makeDirs(const std::string& rel)
{
	for (size_t i = 0; i < rel.size(); i++)
		if (rel[i] == '/') mkdir((g_world + "/" + rel.substr(0, i)).c_str(), 0755);
}

void serve(const std::string& text, std::string& out)
{
	std::vector<ProcSpec> procs;
	size_t pos = 0;
	ProcSpec* p = nullptr;
	RunSpec* run = nullptr;
	while (pos < text.size())
	{
		size_t e = text.find('\n', pos);
		if (e == std::string::npos) e = text.size();
		std::vector<std::string> w;
		size_t q = pos;
		while (q < e) { size_t s = text.find(' ', q); if (s == std::string::npos || s > e) s = e; if (s > q) w.push_back(text.substr(q, s - q)); q = s + 1; }
		pos = e + 1;
		if (w.empty()) continue;
		const std::string& k = w[0];
		auto num = [&](size_t i) { return i < w.size() ? strtoll(w[i].c_str(), nullptr, 10) : 0ll; };
		auto unum = [&](size_t i) { return i < w.size() ? strtoull(w[i].c_str(), nullptr, 10) : 0ull; };
		auto str = [&](size_t i) { return i < w.size() ? unhex(w[i]) : std::string(); };
		if (k == "reset") { removeTree(g_world); }
		else if (k == "dir") { std::string d = str(1); makeDirs(d + "/"); }
		else if (k == "file")
		{
			std::string n = str(1), d = str(2);
			makeDirs(n);
			writeFile(g_world + "/" + n, d, 1699000000);
		}
		else if (k == "proc") { procs.emplace_back(); p = &procs.back(); defaults(p->cfg); p->cfg.clockBase += (int64_t) (procs.size() - 1) * 3600 * 1000000000ll; run = nullptr; }
		else if (k == "heap") { p->cfg.heapMode = num(1); p->cfg.heapReuse = num(2); p->cfg.fillMode = num(3); p->cfg.heapSeed = unum(4); }
		else if (k == "clock") p->cfg.clockBase = num(1);
		else if (k == "budget") p->cfg.stepBudget = unum(1);
		else if (k == "membudget") p->cfg.memBudget = unum(1);
		else if (k == "seq") { p->cfg.sched = SK_SEQ; p->cfg.orderLen = w.size() - 1; for (size_t i = 1; i < w.size() && i < 20; i++) p->cfg.order[i - 1] = num(i); }
		else if (k == "rand") { p->cfg.sched = SK_RAND; p->cfg.schedSeed = unum(1); p->cfg.mean = unum(2); }
		else if (k == "pct") { p->cfg.sched = SK_PCT; p->cfg.schedSeed = unum(1); p->cfg.depth = num(2); p->cfg.mean = unum(3); }
		else if (k == "hots") { p->cfg.sched = SK_HOT; p->cfg.schedSeed = unum(1); p->cfg.pmHot = num(2); p->cfg.pmIo = num(3); p->cfg.mean = unum(4); }
		else if (k == "exp") { p->cfg.sched = SK_EXPLICIT; for (size_t i = 1; i + 1 < w.size(); i += 2) p->exp.push_back(SwitchRec{unum(i), (uint32_t) num(i + 1), 0}); }
		else if (k == "hotpc") { for (size_t i = 1; i < w.size(); i++) p->hot.push_back(unum(i)); }
		else if (k == "profile") p->cfg.profile = true;
		else if (k == "wantsched") p->wantSched = true;
		else if (k == "noevents") p->wantEvents = false;
		else if (k == "notrees") p->wantTrees = false;
		else if (k == "disk") p->cfg.diskBudget = num(1);
		else if (k == "kill") { p->cfg.killEvent = unum(1); p->cfg.killMid = num(2); }
		else if (k == "fault")
		{
			Fault& f = p->cfg.faults[p->cfg.nFaults];
			memset(&f, 0, sizeof(f));
			f.op = OP_COUNT;
			for (uint32_t i = 0; i < OP_COUNT; i++) if (w[1] == opNames[i]) f.op = i;
			snprintf(f.path, sizeof(f.path), "%s", str(2).c_str());
			f.nth = unum(3); f.count = unum(4);
			for (uint32_t i = 0; i < AC_COUNT; i++) if (w[5] == actionNames[i]) f.action = i;
			f.err = num(6); f.arg = num(7);
			if (p->cfg.nFaults < MAXFAULT - 1) p->cfg.nFaults++;
		}
		else if (k == "intr")
		{
			Intruder& in = p->cfg.intr[p->cfg.nIntr];
			snprintf(in.path, sizeof(in.path), "%s", str(1).c_str());
			in.kind = num(2);
			p->intrData.push_back(str(3));
			if (in.kind == 3) in.len = unum(4);
			if (p->cfg.nIntr < MAXINTR - 1) p->cfg.nIntr++;
		}
		else if (k == "run") { p->runs.emplace_back(); run = &p->runs.back(); run->mem = w[1] == "mem"; }
		else if (k == "edit") run->edits.emplace_back(str(1), str(2));
		else if (k == "silent") run->silent = num(1);
		else if (k == "uselist") run->useList = num(1);
		else if (k == "absnames") run->absNames = num(1);
		else if (k == "arg") run->args.push_back(str(1));
		else if (k == "content") run->content = str(1);
		else if (k == "temp") run->temp = str(1);
		else if (k == "sym") { run->sym = str(1); run->symVersion = num(2); }
		else if (k == "eow") run->eow = num(1);
		else if (k == "stats") run->stats = num(1);
		else if (k == "equ") run->equs.emplace_back(str(1), str(2));
		else if (k == "label") run->labels.emplace_back(str(1), num(2));
		else if (k == "header") run->header = num(1);
		else if (k == "hostfail") { run->failOpenEnc = num(1); run->failOpenChk = num(2); run->failWriteNth = num(3); run->failWriteCount = num(4); }
		else if (k == "hostfixed") run->hostFixed = num(1);
		else { fprintf(stderr, "bad command %s\n", k.c_str()); _exit(4); }
	}

	out = "{\"procs\":[";
	for (size_t i = 0; i < procs.size(); i++)
	{
		ProcSpec& ps = procs[i];
		size_t head = offsetof(Report, sw);
		memset((void*) g_rep, 0, head);
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) { runChild(ps); _exit(0); }
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (i) out += ',';
		const Report* r = g_rep;
		out += "{\"status\":"; jnum(out, r->status);
		out += ",\"sig\":"; jnum(out, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
		out += ",\"exit\":"; jnum(out, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
		out += ",\"msg\":"; jstr(out, r->msg, strnlen(r->msg, sizeof(r->msg)));
		out += ",\"steps\":"; jnum(out, r->steps);
		out += ",\"csteps\":"; jnum(out, r->csteps);
		out += ",\"nswitch\":"; jnum(out, r->nswitch);
		out += ",\"nevents\":"; jnum(out, r->nevents);
		out += ",\"threads\":"; jnum(out, r->threadsCreated);
		out += ",\"allocs\":"; jnum(out, r->allocs);
		out += ",\"sync\":"; jnum(out, r->syncOps);
		out += ",\"escapes\":"; jnum(out, r->escapes);
		out += ",\"simns\":"; jnum(out, r->simNanos);
		char hb[64];
		snprintf(hb, sizeof(hb), ",\"evhash\":\"%016llx\",\"ilhash\":\"%016llx\"", (unsigned long long) r->evhash, (unsigned long long) r->ilhash);
		out += hb;
		out += ",\"fired\":{";
		bool f = true;
		for (uint32_t a = 0; a < AC_COUNT; a++) if (r->fired[a]) { if (!f) out += ','; f = false; jstr(out, actionNames[a]); out += ':'; jnum(out, r->fired[a]); }
		out += '}';
		if (ps.wantSched)
		{
			out += ",\"sched\":[";
			for (uint64_t j = 0; j < r->nSw; j++) { if (j) out += ','; out += '['; jnum(out, r->sw[j].c); out += ','; jnum(out, r->sw[j].t); out += ']'; }
			out += ']';
		}
		if (ps.cfg.profile)
		{
			out += ",\"hot\":[";
			for (uint64_t j = 0; j < r->nHot; j++) { if (j) out += ','; jnum(out, (long long) r->hot[j]); }
			out += ']';
		}
		if (ps.wantEvents) { out += ",\"log\":"; jstr(out, r->log, r->logLen); }
		out += ",\"runs\":["; out.append(r->out, r->outLen); out += ']';
		if (r->status != ST_DONE)
		{
			std::string so;
			int fd = open(g_stdoutPath.c_str(), O_RDONLY);
			if (fd >= 0) { char b[4096]; ssize_t n = read(fd, b, sizeof(b)); if (n > 0) so.assign(b, n); close(fd); }
			out += ",\"stdout\":"; jstr(out, so);
		}
		out += ",\"tree\":"; jtree(out);
		out += '}';
	}
	out += "]}";
}
}

int main(int argc, char** argv)
{
	simBootDone();
	setlocale(LC_CTYPE, "");
	if (argc < 2) { fprintf(stderr, "usage: armsim SCRATCH\n"); return 2; }
	g_root = argv[1];
	g_world = g_root + "/w";
	g_stdoutPath = g_root + "/stdout";
	mkdir(g_root.c_str(), 0755);
	mkdir(g_world.c_str(), 0755);
	g_rep = (Report*) mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (g_rep == MAP_FAILED) { fprintf(stderr, "mmap report failed\n"); return 2; }
	std::string msg, out;
	for (;;)
	{
		uint32_t n;
		if (!readAll(0, &n, 4)) break;
		msg.resize(n);
		if (!readAll(0, &msg[0], n)) break;
		serve(msg, out);
		n = (uint32_t) out.size();
		writeAll(1, &n, 4);
		writeAll(1, out.data(), n);
	}
	removeTree(g_root);
	rmdir(g_root.c_str());
	_exit(0);
}
