#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#define CASE_TIMEOUT 40    // wall clock, a deadlocked case
#define CASE_CPU 15         // CPU seconds, a case that loops

static const int MAXTAG = 256;
struct Shared {
	volatile int status;       // 0 running, 1 ok, 2 fail, 3 discard
	volatile long cur;         // index within batch (number completed)
	char key[128];
	char msg[8192];
	char trace[65536];
	uint64_t hash;
	volatile int nontriv;
	// accumulated by the child (only one child writes at a time)
	struct { char name[56]; long count; } tags[MAXTAG];
	long ntags;
	long evals, nontrivial, discards;
	int nsamples;
	char samples[6][1400];
	long nhash;
	uint64_t hashes[1];        // flexible
};
static Shared *sh;
static long sh_cap;
static std::string scratch_base;
static std::string scratch_dir;
static int worker_no;
static bool in_fuzzer;

static std::string vfmt(const char *fmt, va_list ap)
{
	char *s = nullptr;
	if (vasprintf(&s, fmt, ap) < 0) return "";
	std::string r(s);
	free(s);
	return r;
}

std::string q(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '\\' || c == '"') { r += '\\'; r += c; }
		else if (c >= 32 && c < 127) r += c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	}
	return r + "\"";
}

static void put(char *dst, size_t cap, const std::string &s)
{
	size_t n = std::min(cap - 1, s.size());
	memcpy(dst, s.data(), n);
	dst[n] = 0;
}

void Ctx::log(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string s = vfmt(fmt, ap);
	va_end(ap);
	trace += s;
	trace += '\n';
	if (sh) put(sh->trace, sizeof sh->trace, trace);
}

struct FailEx {};
struct DiscardEx {};

void fail(Ctx &c, const char *key, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	std::string s = vfmt(fmt, ap);
	va_end(ap);
	if (sh) {
		put(sh->key, sizeof sh->key, key);
		put(sh->msg, sizeof sh->msg, s);
		put(sh->trace, sizeof sh->trace, c.trace);
		sh->status = 2;
	}
	if (in_fuzzer) {
		fprintf(stderr, "ORACLE FAILURE %s: %s\n%s\n", key, s.c_str(), c.trace.c_str());
		abort();
	}
	_exit(7);
}

void discard(Ctx &, const char *) { throw DiscardEx(); }

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rmtree(const std::string &d)
{
	if (d.size() > 5) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}

static long scratch_seq;
std::string scratch()
{
	if (scratch_dir.empty()) {
		char b[64];
		snprintf(b, sizeof b, "/w%d.%d.%ld", worker_no, (int)getpid(), scratch_seq++);
		scratch_dir = scratch_base + b;
		mkdir(scratch_dir.c_str(), 0700);
	}
	return scratch_dir;
}

static uint64_t fnv(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

// may be provided by the environment: looks at what happened in a case
void case_end(Ctx &) __attribute__((weak));

static void run_one(const Facet &f, const std::vector<uint8_t> &b, bool account)
{
	Ctx c;
	Src s(b.data(), b.size());
	bool disc = false;
	scratch_dir.clear();
	if (sh) { sh->trace[0] = 0; sh->status = 0; }
	try { f.run(s, c); if (case_end) case_end(c); } catch (DiscardEx &) { disc = true; }
	if (!scratch_dir.empty()) { if (chdir("/")) {} rmtree(scratch_dir); }
	if (!sh) return;
	sh->status = disc ? 3 : 1;
	if (!account) return;
	sh->evals++;
	if (disc) { sh->discards++; return; }
	for (auto &t : c.tags) {
		long i;
		for (i = 0; i < sh->ntags; i++) if (t == sh->tags[i].name) break;
		if (i == sh->ntags) {
			if (sh->ntags >= MAXTAG) continue;
			put(sh->tags[i].name, sizeof sh->tags[i].name, t);
			sh->ntags++;
		}
		sh->tags[i].count++;
	}
	if (c.nontriv) {
		sh->nontrivial++;
		if (sh->nhash < sh_cap) sh->hashes[sh->nhash++] = fnv(std::string(f.name) + "\n" + c.trace);
		if (sh->nsamples < 6 && c.trace.size() > 40 && (sh->nontrivial % 7) == 1)
			put(sh->samples[sh->nsamples++], sizeof sh->samples[0], "[" + std::string(f.name) + "] " + c.trace);
	}
}

// ---- deterministic case bytes -------------------------------------------
struct Rng {
	uint64_t s;
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
};

static std::vector<uint8_t> gen_case(const Facet &f, uint64_t seed, long idx)
{
	Rng r{seed * 0x2545F4914F6CDD1Dull + fnv(f.name) + (uint64_t)idx * 0xD1342543DE82EF95ull};
	r.next(); r.next();
	size_t nops;
	switch (r.next() % 8) {
	case 0: nops = r.next() % 4; break;
	case 1: case 2: nops = r.next() % (std::min<size_t>(f.maxops, 10) + 1); break;
	case 3: case 4: nops = r.next() % (std::max<size_t>(1, f.maxops / 4) + 1); break;
	case 5: nops = f.maxops; break;
	default: nops = r.next() % (f.maxops + 1); break;
	}
	std::vector<uint8_t> b(f.hdr + f.opw * nops);
	for (auto &x : b) x = (uint8_t)r.next();
	return b;
}

// ---- forked execution ----------------------------------------------------
struct Outcome {
	enum Kind { OK, FAIL, CRASH, HANG, DISCARD } kind = OK;
	std::string key, msg, trace, err;
	long index = 0;             // completed cases in the batch before failure
};

static std::string read_file(const std::string &p, size_t max = 200000)
{
	std::string r;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return r;
	char b[4096];
	size_t n;
	while (r.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f);
	return r;
}

// Summary of a sanitizer/assertion report: error kind and first repo frame.
static std::string crash_key(const std::string &err, int st)
{
	std::string kind, frame;
	size_t p = err.find("ERROR: AddressSanitizer: ");
	if (p != std::string::npos) {
		p += 25;
		kind = err.substr(p, err.find_first_of(" \n", p) - p);
	} else if ((p = err.find("runtime error: ")) != std::string::npos) {
		kind = "ubsan:" + err.substr(p + 15, std::min<size_t>(err.find('\n', p) - p - 15, 60));
	} else if ((p = err.find("assertion failed")) != std::string::npos || (p = err.find("ERROR:")) != std::string::npos) {
		kind = "assert:" + err.substr(p, std::min<size_t>(err.find('\n', p) - p, 100));
	} else if (WIFSIGNALED(st)) kind = "signal" + std::to_string(WTERMSIG(st));
	else kind = "exit" + std::to_string(WEXITSTATUS(st));
	p = 0;
	while ((p = err.find("/repo/", p)) != std::string::npos) {
		size_t e = err.find_first_of(" \n", p);
		size_t ls = err.rfind('\n', p);
		std::string line = err.substr(ls == std::string::npos ? 0 : ls + 1, e - ls - 1);
		size_t in = line.find(" in ");
		if (in != std::string::npos) {
			size_t fe = line.find(' ', in + 4);
			frame = line.substr(in + 4, fe - in - 4);
			break;
		}
		p = e;
	}
	return kind + (frame.empty() ? "" : "@" + frame);
}

static Outcome run_forked(const Facet &f, const std::vector<std::vector<uint8_t>> &cases, bool account)
{
	Outcome o;
	std::string errfile = scratch_base + "/err." + std::to_string(worker_no);
	sh->status = 0;
	sh->cur = 0;
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
		dup2(fd, 1);
		dup2(fd, 2);
		close(fd);
		int nul = open("/dev/null", O_RDONLY);
		dup2(nul, 0);
		close(nul);
		signal(SIGALRM, SIG_DFL);
		signal(SIGPIPE, SIG_IGN);
		struct rlimit rl = {(rlim_t)CASE_CPU + cases.size() / 20, (rlim_t)CASE_CPU + cases.size() / 20 + 5};
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit core = {0, 0};
		setrlimit(RLIMIT_CORE, &core);
		for (auto &b : cases) {
			alarm(CASE_TIMEOUT);
			run_one(f, b, account);
			sh->cur = sh->cur + 1;
		}
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	// clean scratch left by a dead child
	o.index = sh->cur;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->cur == (long)cases.size()) {
		o.kind = sh->status == 3 ? Outcome::DISCARD : Outcome::OK;
		o.trace = sh->trace;
		return o;
	}
	o.err = read_file(errfile);
	o.trace = sh->trace;
	char pat[64];
	snprintf(pat, sizeof pat, "/w%d.%d.", worker_no, (int)pid);
	if (DIR *d = opendir(scratch_base.c_str())) {
		while (struct dirent *e = readdir(d))
			if (!strncmp(e->d_name, pat + 1, strlen(pat) - 1)) rmtree(scratch_base + "/" + e->d_name);
		closedir(d);
	}
	if (sh->status == 2) { o.kind = Outcome::FAIL; o.key = sh->key; o.msg = sh->msg; return o; }
	if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) { o.kind = Outcome::HANG; o.key = "hang"; o.msg = "case did not finish within the per-case limit"; return o; }
	o.kind = Outcome::CRASH;
	o.key = crash_key(o.err, st);
	o.msg = "process died: " + o.key;
	return o;
}

static Outcome run_single(const Facet &f, const std::vector<uint8_t> &b)
{
	return run_forked(f, {b}, false);
}

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}

static bool same(const Outcome &a, const Outcome &b)
{
	if (a.kind != b.kind) return false;
	return a.key == b.key;
}

static std::vector<uint8_t> shrink(const Facet &f, std::vector<uint8_t> best, const Outcome &orig, double budget)
{
	double t0 = now();
	long execs = 0;
	auto ok = [&](const std::vector<uint8_t> &c) {
		execs++;
		Outcome o = run_single(f, c);
		return same(o, orig);
	};
	auto time_left = [&] { return now() - t0 < budget && execs < 6000; };
	bool progress = true;
	while (progress && time_left()) {
		progress = false;
		// drop whole operations
		for (size_t cnt = best.size() / std::max<size_t>(1, f.opw); cnt >= 1 && time_left(); cnt /= 2) {
			size_t w = cnt * f.opw;
			if (!w) break;
			for (size_t off = f.hdr; off < best.size() && time_left();) {
				std::vector<uint8_t> c(best);
				size_t e = std::min(best.size(), off + w);
				c.erase(c.begin() + off, c.begin() + e);
				if (ok(c)) { best = c; progress = true; }
				else off += w;
			}
			if (cnt == 1) break;
		}
		// zero then lower single bytes
		for (size_t i = best.size(); i-- > 0 && time_left();) {
			if (!best[i]) continue;
			std::vector<uint8_t> c(best);
			c[i] = 0;
			if (ok(c)) { best = c; progress = true; continue; }
			for (uint8_t v : {1, 2, 3}) {
				if (best[i] > v) { c[i] = v; if (ok(c)) { best = c; progress = true; break; } }
			}
		}
		while (!best.empty() && best.back() == 0 && time_left()) {
			std::vector<uint8_t> c(best);
			c.pop_back();
			if (ok(c)) best = c; else break;
		}
	}
	return best;
}

static std::string hex(const std::vector<uint8_t> &b)
{
	std::string r;
	char t[4];
	for (auto x : b) { snprintf(t, sizeof t, "%02x", x); r += t; }
	return r;
}

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

typedef std::vector<std::vector<uint8_t>> Cases;
struct Fault { std::string facet; Cases cases; };

static const Facet *facet_by_name(const std::string &n)
{
	for (auto &f : the_property.facets) if (n == f.name) return &f;
	return nullptr;
}

static Shared *alloc_shared(long cap)
{
	size_t sz = sizeof(Shared) + cap * 8;
	void *m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared *)m;
}

// Replay file: "facet <name>\nbytes <hex>\n# comments"
static bool load_replay(const std::string &path, Fault &f)
{
	std::string s = read_file(path);
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		if (e == std::string::npos) e = s.size();
		std::string l = s.substr(p, e - p);
		p = e + 1;
		if (l.rfind("facet ", 0) == 0) f.facet = l.substr(6);
		if (l.rfind("bytes ", 0) == 0 || l == "bytes") {
			std::string h = l.size() > 6 ? l.substr(6) : "";
			std::vector<uint8_t> b;
			for (size_t i = 0; i + 1 < h.size(); i += 2)
				b.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
			f.cases.push_back(b);
		}
	}
	return facet_by_name(f.facet) != nullptr && !f.cases.empty();
}

#ifdef FUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	in_fuzzer = true;
	signal(SIGPIPE, SIG_IGN);
	const char *t = getenv("FUZZ_SCRATCH");
	scratch_base = t ? t : "/tmp";
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	static const Facet *f = facet_by_name(getenv("FUZZ_FACET"));
	run_one(*f, std::vector<uint8_t>(d, d + n), false);
	return 0;
}
#else
// A check may run the program itself, as a process of its own that shares
// nothing with the one running the case.
extern int (*program_main)(int, char **) __attribute__((weak));
extern bool real_clock;

int main(int argc, char **argv)
{
	if (argc > 2 && !strcmp(argv[1], "--program") && &program_main) {
		real_clock = true;
		return program_main(argc - 2, argv + 2);
	}
	uint64_t seed = 1;
	std::string tier = "quick", evidence, replay, outdir = ".", only;
	int jobs = 8;
	double cap = 0, scale = 1;
	std::vector<std::string> fuzzinputs;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--tier") tier = val();
		else if (a == "--jobs") jobs = atoi(val().c_str());
		else if (a == "--evidence") evidence = val();
		else if (a == "--replay") replay = val();
		else if (a == "--outdir") outdir = val();
		else if (a == "--facet") only = val();
		else if (a == "--cap") cap = atof(val().c_str());
		else if (a == "--scale") scale = atof(val().c_str());
		else if (a == "--list") {
			for (auto &f : the_property.facets) if (f.thorough) printf("%s:%zu\n", f.name, f.hdr + f.opw * f.maxops);
			return 0;
		}
		else if (a == "--fuzzinput") fuzzinputs.push_back(val());
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
	}
	if (cap == 0) cap = tier == "quick" ? 150 : 5400;
	char tmpl[] = "/tmp/vpcase.XXXXXX";
	scratch_base = mkdtemp(tmpl);
	chmod(scratch_base.c_str(), 0700);
	double t0 = now();

	if (!replay.empty()) {
		Fault f;
		if (!load_replay(replay, f)) { fprintf(stderr, "cannot read replay %s\n", replay.c_str()); rmtree(scratch_base); return 2; }
		sh = alloc_shared(16);
		worker_no = 99;
		Outcome o = run_forked(*facet_by_name(f.facet), f.cases, false);
		printf("--- trace\n%s--- outcome: %s %s\n%s\n", o.trace.c_str(),
			o.kind == Outcome::OK ? "OK" : o.kind == Outcome::DISCARD ? "DISCARD" : o.kind == Outcome::FAIL ? "FAIL" : o.kind == Outcome::CRASH ? "CRASH" : "HANG",
			o.key.c_str(), o.msg.c_str());
		if (o.kind == Outcome::CRASH) printf("--- stderr\n%s\n", o.err.substr(0, 6000).c_str());
		rmtree(scratch_base);
		if (o.kind == Outcome::OK || o.kind == Outcome::DISCARD) return 0;
		printf("VIOLATION property=%s replay=%s\n", the_property.id, replay.c_str());
		return 1;
	}

	// ---- generate and run ----
	struct Work { const Facet *f; long count; };
	std::vector<Work> work;
	long total = 0;
	for (auto &f : the_property.facets) {
		if (!only.empty() && only != f.name) continue;
		long c = (long)((tier == "quick" ? f.quick : f.thorough) * scale);
		work.push_back({&f, c});
		total += c;
	}
	std::vector<Shared *> shs;
	std::vector<pid_t> pids;
	struct Res { volatile int failed; volatile int facet; volatile long idx; volatile long batch0; volatile int skipped; };
	Res *res = (Res *)mmap(nullptr, sizeof(Res) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	long percap = total / jobs + 4096;
	for (int w = 0; w < jobs; w++) shs.push_back(alloc_shared(percap));
	for (int w = 0; w < jobs; w++) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			worker_no = w;
			sh = shs[w];
			sh_cap = percap;
			int skips = 0;
			for (size_t fi = 0; fi < work.size(); fi++) {
				const Facet &f = *work[fi].f;
				// share of the time cap proportional to position
				double flimit = t0 + cap * (fi + 1) / work.size();
				for (long i0 = (long)w * f.batch; i0 < work[fi].count; i0 += (long)jobs * f.batch) {
					if (now() > flimit) break;
					bool other = false;
					for (int k = 0; k < jobs; k++) other |= res[k].failed;
					if (other) _exit(0);
					std::vector<std::vector<uint8_t>> cs;
					for (long i = i0; i < i0 + f.batch && i < work[fi].count; i++) cs.push_back(gen_case(f, seed, i));
					Outcome o = run_forked(f, cs, true);
					if (o.kind == Outcome::FAIL || o.kind == Outcome::CRASH || o.kind == Outcome::HANG) {
						if (skips < 5) {
							// not reproducible at all: note it and go on
							Cases upto(cs.begin(), cs.begin() + std::min<size_t>(cs.size(), o.index + 1));
							Outcome again = run_forked(f, upto, false);
							if (again.kind == Outcome::OK || again.kind == Outcome::DISCARD) {
								skips++;
								res[w].skipped = skips;
								fprintf(stderr, "note: %s (facet %s) happened once and not again; trace:\n%s\n", o.key.c_str(), f.name, getenv("VP_DEBUG") ? (o.msg + "\n" + o.trace + o.err.substr(0, 3000)).c_str() : "(set VP_DEBUG)");
								continue;
							}
						}
						res[w].facet = fi;
						res[w].idx = i0 + o.index;
						res[w].batch0 = i0;
						res[w].failed = 1;
						_exit(0);
					}
				}
			}
			_exit(0);
		}
		pids.push_back(pid);
	}
	for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }

	sh = alloc_shared(16);
	sh_cap = 0;
	worker_no = 98;
	int violations = 0;
	double shrunk = 0;
	int rc = 0;
	// Confirm (three times out of three), shrink, write the replay file.
	auto confirm = [&](const Facet &f, const Cases &cs, Outcome &o) {
		for (int k = 0; k < 3; k++) {
			Outcome x = run_forked(f, cs, false);
			if (x.kind == Outcome::OK || x.kind == Outcome::DISCARD) return false;
			if (k == 0) o = x;
			else if (!same(x, o)) return false;
			if (x.kind == Outcome::HANG) break;   // the worker has seen it twice already
		}
		return true;
	};
	auto report = [&](const Facet &f, Cases cs, const char *origin) {
		Outcome o;
		Cases last{cs.back()};
		if (confirm(f, last, o)) {
			cs = last;
			double s0 = now();
			cs[0] = shrink(f, cs[0], o, std::max(5.0, (tier == "quick" ? 75 : 300) - shrunk));
			shrunk += now() - s0;
		} else if (cs.size() > 1 && confirm(f, cs, o)) {
			// depends on earlier cases in the same process: drop what is not needed
			double s0 = now();
			for (size_t cnt = cs.size() / 2; cnt >= 1; cnt /= 2)
				for (size_t off = 0; off + cnt < cs.size() && now() - s0 < 60;) {
					Cases t(cs);
					t.erase(t.begin() + off, t.begin() + off + cnt);
					if (same(run_forked(f, t, false), o)) cs = t; else off += cnt;
				}
		} else {
			fprintf(stderr, "note: a failure in facet %s (%s) did not reproduce three times out of three; not reported\n", f.name, origin);
			return false;
		}
		o = run_forked(f, cs, false);
		std::string path = outdir + "/" + the_property.id + "-" + f.name + "-" + std::to_string(seed) + ".replay";
		FILE *fp = fopen(path.c_str(), "w");
		if (fp) {
			fprintf(fp, "facet %s\n", f.name);
			for (auto &b : cs) fprintf(fp, "bytes %s\n", hex(b).c_str());
			std::string body = "key: " + o.key + "\n" + o.msg + "\n--- trace\n" + o.trace + (o.kind == Outcome::CRASH ? "--- stderr\n" + o.err.substr(0, 6000) : "");
			size_t p = 0;
			while (p < body.size()) { size_t e = body.find('\n', p); if (e == std::string::npos) e = body.size(); fprintf(fp, "# %s\n", body.substr(p, e - p).c_str()); p = e + 1; }
			fclose(fp);
		}
		printf("--- %s/%s failed (%s): %s\n%s\n--- trace\n%s\n", the_property.id, f.name, origin, o.key.c_str(), o.msg.c_str(), o.trace.substr(0, 6000).c_str());
		if (o.kind == Outcome::CRASH) printf("--- stderr\n%s\n", o.err.substr(0, 4000).c_str());
		printf("VIOLATION property=%s replay=%s\n", the_property.id, path.c_str());
		violations++;
		rc = 1;
		return true;
	};
	long unconfirmed = 0;
	for (int w = 0; w < jobs && !rc; w++) {
		if (!res[w].failed) continue;
		const Facet &f = *work[res[w].facet].f;
		Cases cs;
		for (long i = res[w].batch0; i <= res[w].idx; i++) cs.push_back(gen_case(f, seed, i));
		if (!report(f, cs, ("generated case " + std::to_string(res[w].idx)).c_str())) unconfirmed++;
	}
	for (int w = 0; w < jobs; w++) unconfirmed += res[w].skipped;
	if (unconfirmed) fprintf(stderr, "note: %ld failures could not be reproduced and were not counted\n", unconfirmed);
	for (auto &fi : fuzzinputs) {
		if (rc == 1) break;
		size_t c = fi.find(':');
		const Facet *f = facet_by_name(fi.substr(0, c));
		if (!f) continue;
		std::string d = read_file(fi.substr(c + 1), 1 << 20);
		report(*f, Cases{std::vector<uint8_t>(d.begin(), d.end())}, "libFuzzer input");
	}

	// ---- evidence ----
	long evals = 0, nontriv = 0, disc = 0;
	std::map<std::string, long> tags;
	std::set<uint64_t> distinct;
	std::vector<std::string> samples;
	for (Shared *s : shs) {
		evals += s->evals;
		nontriv += s->nontrivial;
		disc += s->discards;
		for (long i = 0; i < s->ntags; i++) tags[s->tags[i].name] += s->tags[i].count;
		for (long i = 0; i < s->nhash; i++) distinct.insert(s->hashes[i]);
	}
	for (int k = 0; k < 6; k++) for (Shared *s : shs) if (k < s->nsamples && samples.size() < 6) samples.push_back(s->samples[k]);
	if (!evidence.empty()) {
		FILE *fp = fopen(evidence.c_str(), "w");
		if (!fp) { perror(evidence.c_str()); rmtree(scratch_base); return 2; }
		fprintf(fp, "{\"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": \"exploration\",\n", jstr(the_property.id).c_str(), jstr(tier).c_str(), (unsigned long long)seed);
		fprintf(fp, " \"coverage\": {\"evaluations\": %ld, \"distinct_nontrivial\": %zu, \"rule\": %s,\n  \"samples\": [", evals, distinct.size(), jstr(the_property.rule).c_str());
		for (size_t i = 0; i < samples.size(); i++) fprintf(fp, "%s%s", i ? ",\n   " : "", jstr(samples[i]).c_str());
		fprintf(fp, "],\n  \"discarded\": %ld, \"nontrivial\": %ld, \"unconfirmed_failures\": %ld, \"facets\": {", disc, nontriv, unconfirmed);
		for (size_t i = 0; i < work.size(); i++) fprintf(fp, "%s%s: %ld", i ? ", " : "", jstr(work[i].f->name).c_str(), work[i].count);
		fprintf(fp, "},\n  \"classes\": {");
		bool first = true;
		for (auto &t : tags) { fprintf(fp, "%s%s: %ld", first ? "" : ", ", jstr(t.first).c_str(), t.second); first = false; }
		fprintf(fp, "}},\n \"assumptions\": [");
		for (size_t i = 0; i < the_property.assumptions.size(); i++) fprintf(fp, "%s%s", i ? ", " : "", jstr(the_property.assumptions[i]).c_str());
		fprintf(fp, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", now() - t0, violations);
		fclose(fp);
	}
	printf("%s: %s tier, seed %llu: %ld cases of %ld planned, %zu distinct non-trivial, %ld discarded, %d violations, %.1fs\n", the_property.id, tier.c_str(), (unsigned long long)seed, evals, total, distinct.size(), disc, violations, now() - t0);
	rmtree(scratch_base);
	return rc;
}
#endif
