// A small stateless model checker: a body draws every input, operation and environment answer with
// choose(n); the explorer enumerates all choice sequences depth first and runs the body on each.
// A violation is the choice sequence that led to it, and is replayed before it is reported.
#pragma once

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

static const int MAX_CHOICES = 8192;
static const int MAX_WORKERS = 64;

struct Shared {
	volatile int n;                     // choices made so far in the running case
	volatile long long progress;        // cases finished
	volatile int in_case;               // past the shard point
	int choices[MAX_CHOICES];
};

struct Stop {};      // case abandoned by the body
struct Failed {};    // case failed

inline double now() {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
	return h ^ (h >> 29);
}

struct Ctx {
	Shared* sh;
	std::vector<int> prefix;            // choices to follow
	std::vector<int> limits;            // number of alternatives at each choice
	bool replay;
	bool verbose;
	int shard_index, shard_count;
	long long shard_counter;
	std::vector<int> shard_prefix;
	bool sharded;

	long long evaluations, nontrivial, transitions, schedules;
	std::unordered_set<uint64_t> outcomes;   // distinct observed outcomes
	std::unordered_set<uint64_t> states;     // distinct canonical states
	std::vector<std::string> samples;
	std::map<std::string, long long> group;  // evaluations per group
	std::string group_name;
	std::map<std::string, long long> known_hits;
	std::vector<std::string> known;
	std::string fail_signature, fail_detail;
	bool thorough;
	size_t set_cap;
	double deadline;

	Ctx() : sh(NULL), replay(false), verbose(false), shard_index(0), shard_count(1), shard_counter(0), sharded(false), evaluations(0), nontrivial(0), transitions(0), schedules(0), thorough(false), set_cap(4000000), deadline(0) {}

	// one of 0..n-1
	int choose(int n) {
		int pos = sh->n;
		if (n <= 0 || pos >= MAX_CHOICES) {
			fprintf(stderr, "mc: bad choice (%d alternatives, %d choices)\n", n, pos);
			_exit(9);
		}
		int c = 0;
		if (pos < (int)prefix.size()) {
			c = prefix[pos];
			if (c >= n) {
				fprintf(stderr, "mc: replay diverged at choice %d (%d of %d)\n", pos, c, n);
				_exit(9);
			}
		}
		if ((int)limits.size() > pos) {
			if (!replay && limits[pos] != n) {
				fprintf(stderr, "mc: nondeterministic body at choice %d (%d then %d alternatives)\n", pos, limits[pos], n);
				_exit(9);
			}
		} else {
			limits.push_back(n);
		}
		sh->choices[pos] = c;
		sh->n = pos + 1;
		return c;
	}

	// every case belongs to one worker; called once per case when the choices that identify it are made
	bool shard() {
		if (sharded) return true;
		if (!replay) {
			// choices made after this point stay in the same worker, so the count goes by the choices made before it
			if ((int)shard_prefix.size() != sh->n || memcmp(shard_prefix.data(), (const void*)sh->choices, sh->n * sizeof(int)) != 0) {
				shard_prefix.assign(sh->choices, sh->choices + sh->n);
				++shard_counter;
			}
			if (shard_counter % shard_count != shard_index) return false;
		}
		sharded = true;
		sh->in_case = 1;
		return true;
	}

	void outcome(uint64_t h) { if (outcomes.size() < set_cap) outcomes.insert(h); }
	void state(uint64_t h) { if (states.size() < set_cap) states.insert(h); }

	void sample(const std::string& s) { if (samples.size() < 2 && s.size() < 600) samples.push_back(s); }
	bool want_sample() const { return samples.size() < 2; }

	bool is_known(const std::string& signature) {
		for (size_t i = 0; i < known.size(); ++i) if (known[i] == signature) return true;
		return false;
	}

	// signature: what fails, independent of incidental detail; used to recognise known findings
	void fail(const std::string& signature, const std::string& detail) {
		if (is_known(signature)) { known_hits[signature]++; return; }
		fail_signature = signature;
		fail_detail = detail;
		throw Failed();
	}
	void check(bool ok, const char* signature, const std::string& detail) { if (!ok) fail(signature, detail); }

	bool out_of_time() const { return deadline > 0 && now() > deadline; }
};

typedef std::function<void(Ctx&)> Body;

struct Group { std::string name; Body body; bool quick; Group(const std::string& n, const Body& b, bool q = true) : name(n), body(b), quick(q) {} };

// leaks: whatever a case allocates has to be given back (where allocations are counted)
struct Suite { std::vector<Group> groups; std::function<void()> init; int hang_seconds; bool leaks; Suite() : hang_seconds(60), leaks(false) {} };

inline std::string join(const int* c, int n) {
	std::string s;
	for (int i = 0; i < n; ++i) { if (i) s += ","; char b[16]; snprintf(b, sizeof b, "%d", c[i]); s += b; }
	return s;
}

inline std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_COUNTS_MEMORY 1
#include <sanitizer/allocator_interface.h>
#endif
#endif
inline long long allocated() {
#ifdef MC_COUNTS_MEMORY
	return (long long)__sanitizer_get_current_allocated_bytes();
#elif defined(MC_COUNTS_BLOCKS)
	return mc_live;
#else
	return 0;
#endif
}

// runs one case; returns 0 passed/abandoned, 1 failed
inline int run_case(Ctx& c, Suite& suite) {
	c.sh->n = 0;
	c.sh->in_case = 0;
	c.sharded = false;
	try {
		int g = c.choose((int)suite.groups.size());
		c.group_name = suite.groups[g].name;
		if (!c.replay && !c.thorough && !suite.groups[g].quick) return 0;
		long long live = suite.leaks ? allocated() : 0;
		suite.groups[g].body(c);
		if (suite.leaks && c.sharded && allocated() > live) {
			// what is made once, like results kept by the explorer, is not made again when the case is run again
			std::vector<int> before = c.prefix;
			long long nontrivial = c.nontrivial, transitions = c.transitions, schedules = c.schedules, lost = 0;
			for (int again = 0; again < 4; ++again) {
				c.prefix.assign((int*)c.sh->choices, (int*)c.sh->choices + c.sh->n);
				c.sh->n = 0;
				live = allocated();
				c.choose((int)suite.groups.size());
				suite.groups[g].body(c);
				lost = allocated() - live;
				if (lost <= 0) break;
			}
			c.prefix = before;
			c.nontrivial = nontrivial; c.transitions = transitions; c.schedules = schedules;
			if (lost > 0) { char b[64]; snprintf(b, sizeof b, "%lld bytes", lost); c.fail("leak", b); }
		}
	} catch (Failed&) {
		return 1;
	} catch (Stop&) {
	}
	if (c.sharded) {
		c.evaluations++;
		c.group[c.group_name]++;
	}
	c.sh->progress = c.sh->progress + 1;
	return 0;
}

// advances prefix to the next choice sequence; false at the end
inline bool next_prefix(Ctx& c) {
	int n = c.sh->n;
	std::vector<int> p(c.sh->choices, c.sh->choices + n);
	c.limits.resize(n);
	while (n > 0) {
		if (p[n - 1] + 1 < c.limits[n - 1]) {
			p[n - 1]++;
			p.resize(n);
			c.limits.resize(n);
			c.prefix = p;
			return true;
		}
		--n;
	}
	return false;
}

inline void write_all(FILE* f, const std::string& s) { fwrite(s.data(), 1, s.size(), f); }

inline std::string read_file(const std::string& path, size_t cap = 1 << 30) {
	std::string s;
	FILE* f = fopen(path.c_str(), "rb");
	if (!f) return s;
	char buf[65536];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0 && s.size() < cap) s.append(buf, n);
	fclose(f);
	return s;
}

inline std::string run_dir() { const char* d = getenv("MC_DIR"); return d ? d : "/tmp"; }

inline void quiet(const std::string& err) {
	if (getenv("MC_LOUD")) return;
	int fd = open("/dev/null", O_WRONLY);
	dup2(fd, 1);
	close(fd);
	fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	dup2(fd, 2);
	close(fd);
}

inline void worker(Ctx& c, Suite& suite, const std::string& base) {
	// a runaway diagnostic must not fill the disk
	struct rlimit rl = { 1u << 28, 1u << 28 };
	setrlimit(RLIMIT_FSIZE, &rl);
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
	quiet(base + ".err");
	if (suite.init) suite.init();
	int failed = 0;
	bool capped = false;
	for (;;) {
		failed = run_case(c, suite);
		if (failed) break;
		if (c.out_of_time()) { capped = true; break; }
		if (!next_prefix(c)) break;
	}
	FILE* f = fopen((base + ".res").c_str(), "wb");
	fprintf(f, "E %lld\nN %lld\nT %lld\nS %lld\nC %d\n", c.evaluations, c.nontrivial, c.transitions, c.schedules, capped ? 1 : 0);
	for (std::map<std::string, long long>::iterator i = c.group.begin(); i != c.group.end(); ++i) fprintf(f, "G %lld %s\n", i->second, i->first.c_str());
	for (std::map<std::string, long long>::iterator i = c.known_hits.begin(); i != c.known_hits.end(); ++i) fprintf(f, "K %lld %s\n", i->second, i->first.c_str());
	for (size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "X %s\n", jstr(c.samples[i]).c_str());
	if (failed) {
		fprintf(f, "F %s\n", jstr(c.fail_signature).c_str());
		fprintf(f, "D %s\n", jstr(c.fail_detail).c_str());
		fprintf(f, "P %s\n", join(c.sh->choices, c.sh->n).c_str());
	}
	fclose(f);
	f = fopen((base + ".out").c_str(), "wb");
	for (std::unordered_set<uint64_t>::iterator i = c.outcomes.begin(); i != c.outcomes.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); }
	fclose(f);
	f = fopen((base + ".sta").c_str(), "wb");
	for (std::unordered_set<uint64_t>::iterator i = c.states.begin(); i != c.states.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); }
	fclose(f);
	_exit(failed ? 3 : 0);
}

struct Replay { int kind; std::string signature, detail; };  // kind 0 passed, 1 failed, 2 crashed, 3 hung, 9 error

inline std::string tail(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(s.size() - n); }
inline std::string head(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n); }

inline std::string crash_text(const std::string& err) {
	std::string s = read_file(err, 1 << 20);
	size_t p = s.find("ERROR: ");
	if (p == std::string::npos) p = s.find("runtime error");
	if (p != std::string::npos) return head(s.substr(p), 1500);
	return tail(s, 300);
}

inline Replay replay_once(Suite& suite, const std::vector<int>& choices, const std::vector<std::string>& known, bool thorough, int limit) {
	std::string base = run_dir() + "/replay";
	Shared* sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	remove((base + ".res").c_str());
	pid_t pid = fork();
	if (pid == 0) {
		Ctx c;
		c.sh = sh;
		c.prefix = choices;
		c.replay = true;
		c.thorough = thorough;
		c.known = known;
		quiet(base + ".err");
		if (suite.init) suite.init();
		int failed = run_case(c, suite);
		FILE* f = fopen((base + ".res").c_str(), "wb");
		if (failed) fprintf(f, "%s\n%s", c.fail_signature.c_str(), c.fail_detail.c_str());
		fclose(f);
		_exit(failed ? 3 : 0);
	}
	Replay r;
	r.kind = 0;
	double t0 = now();
	int status = 0;
	for (;;) {
		pid_t w = waitpid(pid, &status, WNOHANG);
		if (w == pid) break;
		if (now() - t0 > limit) {
			kill(pid, SIGKILL);
			waitpid(pid, &status, 0);
			r.kind = 3;
			r.signature = "hang";
			r.detail = "the case did not end";
			munmap(sh, sizeof(Shared));
			return r;
		}
		usleep(2000);
	}
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) r.kind = 0;
	else if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
		r.kind = 1;
		std::string s = read_file(base + ".res");
		size_t p = s.find('\n');
		r.signature = s.substr(0, p);
		r.detail = p == std::string::npos ? "" : s.substr(p + 1);
	} else if (WIFEXITED(status) && WEXITSTATUS(status) == 9) {
		r.kind = 9;
		r.detail = read_file(base + ".err");
	} else {
		r.kind = 2;
		char b[64];
		if (WIFSIGNALED(status)) snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(status));
		else snprintf(b, sizeof b, "crash: exit status %d", WEXITSTATUS(status));
		r.signature = "crash";
		r.detail = std::string(b) + " " + crash_text(base + ".err");
	}
	munmap(sh, sizeof(Shared));
	return r;
}

inline int run(Suite& suite, int argc, char** argv) {
	int jobs = 8;
	double budget = 0;
	std::string out, known_file, replay_file, only;
	bool thorough = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--jobs") jobs = atoi(argv[++i]);
		else if (a == "--budget") budget = atof(argv[++i]);
		else if (a == "--out") out = argv[++i];
		else if (a == "--known") known_file = argv[++i];
		else if (a == "--replay") replay_file = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--thorough") thorough = true;
	}
	if (jobs > MAX_WORKERS) jobs = MAX_WORKERS;
	std::vector<std::string> known;
	if (!known_file.empty()) {
		std::istringstream in(read_file(known_file));
		std::string line;
		while (std::getline(in, line)) if (!line.empty()) known.push_back(line);
	}
	if (!replay_file.empty()) {
		std::vector<int> choices;
		std::istringstream in(read_file(replay_file));
		std::string line;
		while (std::getline(in, line)) {
			if (line.compare(0, 8, "choices=") == 0) {
				std::istringstream l(line.substr(8));
				std::string t;
				while (std::getline(l, t, ',')) choices.push_back(atoi(t.c_str()));
			}
		}
		Replay r = replay_once(suite, choices, known, thorough, 600);
		printf("replay: kind=%d signature=%s\n%s\n", r.kind, r.signature.c_str(), r.detail.c_str());
		return r.kind == 0 ? 0 : 1;
	}
	if (!only.empty()) {
		for (size_t g = 0; g < suite.groups.size(); ++g)
			if ((suite.groups[g].name.find(only[0] == '!' ? only.substr(1) : only) == std::string::npos) == (only[0] != '!')) suite.groups[g].body = [](Ctx&) {};
	}

	double t0 = now();
	std::vector<pid_t> pids(jobs);
	std::vector<Shared*> shs(jobs);
	std::vector<std::string> bases(jobs);
	for (int k = 0; k < jobs; ++k) {
		shs[k] = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		char b[32];
		snprintf(b, sizeof b, "/w%d", k);
		bases[k] = run_dir() + b;
		fflush(stdout);
		pids[k] = fork();
		if (pids[k] == 0) {
			Ctx* c = new Ctx();
			c->sh = shs[k];
			c->thorough = thorough;
			c->known = known;
			c->shard_index = k;
			c->shard_count = jobs;
			c->deadline = budget > 0 ? t0 + budget : 0;
			worker(*c, suite, bases[k]);
		}
	}

	std::vector<int> alive(jobs, 1);
	std::vector<long long> last(jobs, -1);
	std::vector<double> last_t(jobs, now());
	int left = jobs;
	std::vector<int> bad;      // choices of the first failing case
	std::string bad_kind;
	int bad_worker = 0;
	bool error = false;
	std::string error_text;
	while (left > 0) {
		bool any = false;
		for (int k = 0; k < jobs; ++k) {
			if (!alive[k]) continue;
			int status;
			pid_t w = waitpid(pids[k], &status, WNOHANG);
			if (w == pids[k]) {
				any = true;
				alive[k] = 0;
				--left;
				if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
				if (WIFEXITED(status) && WEXITSTATUS(status) == 9) { error = true; error_text = read_file(bases[k] + ".err"); }
				else if (WIFEXITED(status) && WEXITSTATUS(status) == 3) bad_kind = "failed";
				else bad_kind = "crash";
				if (!error) bad.assign(shs[k]->choices, shs[k]->choices + shs[k]->n);
			} else {
				if (shs[k]->progress != last[k]) { last[k] = shs[k]->progress; last_t[k] = now(); }
				else if (now() - last_t[k] > suite.hang_seconds) {
					bad_kind = "hang";
					bad.assign(shs[k]->choices, shs[k]->choices + shs[k]->n);
				}
			}
			if (!bad_kind.empty() || error) { bad_worker = k; break; }
		}
		if (!bad_kind.empty() || error) {
			for (int k = 0; k < jobs; ++k) if (alive[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], NULL, 0); }
			break;
		}
		if (!any) usleep(3000);
	}

	long long E = 0, N = 0, T = 0, S = 0;
	bool capped = false;
	std::vector<int> first_bad = bad;
	std::string first_detail;
	if (!bad_kind.empty()) {
		std::istringstream in(read_file(bases[bad_worker] + ".res"));
		std::string line;
		while (std::getline(in, line)) if (line[0] == 'F' || line[0] == 'D') first_detail += line.substr(2) + " ";
	}
	std::map<std::string, long long> groups, hits;
	std::vector<std::string> samples;
	std::unordered_set<uint64_t> outs, stas;
	for (int k = 0; k < jobs; ++k) {
		std::istringstream in(read_file(bases[k] + ".res"));
		std::string line;
		while (std::getline(in, line)) {
			char tag = line.empty() ? 0 : line[0];
			std::string rest = line.size() > 2 ? line.substr(2) : "";
			if (tag == 'E') E += atoll(rest.c_str());
			if (tag == 'N') N += atoll(rest.c_str());
			if (tag == 'T') T += atoll(rest.c_str());
			if (tag == 'S') S += atoll(rest.c_str());
			if (tag == 'C') capped = capped || rest == "1";
			if (tag == 'G' || tag == 'K') {
				size_t p = rest.find(' ');
				(tag == 'G' ? groups : hits)[rest.substr(p + 1)] += atoll(rest.substr(0, p).c_str());
			}
			if (tag == 'X' && samples.size() < 6) samples.push_back(rest);
		}
		std::string o = read_file(bases[k] + ".out");
		for (size_t i = 0; i + 8 <= o.size(); i += 8) outs.insert(*(uint64_t*)&o[i]);
		o = read_file(bases[k] + ".sta");
		for (size_t i = 0; i + 8 <= o.size(); i += 8) stas.insert(*(uint64_t*)&o[i]);
	}

	Replay v;
	v.kind = 0;
	if (!bad_kind.empty() && !error) {
		Replay a = replay_once(suite, bad, known, thorough, suite.hang_seconds * 2);
		Replay b = a.kind == 3 ? a : replay_once(suite, bad, known, thorough, suite.hang_seconds * 2);
		// memory corruption may crash one way and then another: what must repeat is that the case fails
		if (a.kind == 9 || b.kind == 9) {
			error = true;
			error_text = "a failing case could not be replayed: " + a.detail + b.detail;
		} else if (a.kind == 0 || b.kind == 0) {
			// what failed needs the cases before it in the same process: run the worker's cases again from the first
			int same = 0;
			std::string detail;
			for (int t = 0; t < 2; ++t) {
				std::string base = run_dir() + "/again";
				remove((base + ".res").c_str());
				memset((void*)shs[bad_worker], 0, sizeof(Shared));
				pid_t pid = fork();
				if (pid == 0) {
					Ctx* c = new Ctx();
					c->sh = shs[bad_worker];
					c->thorough = thorough;
					c->known = known;
					c->shard_index = bad_worker;
					c->shard_count = jobs;
					worker(*c, suite, base);
				}
				int status = 0;
				double s0 = now(), l_t = now();
				long long l_p = -1;
				bool hung = false;
				while (waitpid(pid, &status, WNOHANG) != pid) {
					if (shs[bad_worker]->progress != l_p) { l_p = shs[bad_worker]->progress; l_t = now(); }
					if (now() - l_t > suite.hang_seconds || now() - s0 > 400) { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
					usleep(3000);
				}
				std::vector<int> got(shs[bad_worker]->choices, shs[bad_worker]->choices + shs[bad_worker]->n);
				if ((hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0) && got == bad) ++same;
				std::istringstream in(read_file(base + ".res"));
				std::string line;
				while (std::getline(in, line)) if (line[0] == 'F' || line[0] == 'D') detail += line.substr(2) + "\n";
				if (detail.empty()) detail = crash_text(base + ".err");
				bad = got;
			}
			if (same) {
				v.kind = 4;
				v.signature = "history dependent failure";
				char b[160];
				snprintf(b, sizeof b, "fails when the cases before it ran in the same process: worker %d of %d, from its first case\n", bad_worker, jobs);
				v.detail = b + detail;
			} else {
				error = true;
				error_text = "a failing case did not fail again when replayed: " + join(first_bad.data(), (int)first_bad.size()) + " (" + bad_kind + ") " + first_detail + " " + a.detail + b.detail;
			}
		} else v = a;
	}
	if (!out.empty()) {
		FILE* f = fopen(out.c_str(), "wb");
		std::ostringstream o;
		o << "{\"evaluations\":" << E << ",\"nontrivial\":" << N << ",\"transitions\":" << T << ",\"schedules\":" << S
		  << ",\"outcomes\":" << outs.size() << ",\"states\":" << stas.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << (now() - t0);
		o << ",\"groups\":{";
		bool first = true;
		for (std::map<std::string, long long>::iterator i = groups.begin(); i != groups.end(); ++i) { o << (first ? "" : ",") << jstr(i->first) << ":" << i->second; first = false; }
		o << "},\"known\":{";
		first = true;
		for (std::map<std::string, long long>::iterator i = hits.begin(); i != hits.end(); ++i) { o << (first ? "" : ",") << jstr(i->first) << ":" << i->second; first = false; }
		o << "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << samples[i];
		o << "]";
		if (v.kind) o << ",\"violation\":{\"signature\":" << jstr(v.signature) << ",\"detail\":" << jstr(v.detail) << ",\"choices\":" << jstr(join(bad.data(), (int)bad.size())) << "}";
		if (error) o << ",\"error\":" << jstr(head(error_text, 4000));
		o << "}\n";
		write_all(f, o.str());
		fclose(f);
	}
	if (error) { printf("ERROR %s\n", error_text.c_str()); return 2; }
	if (v.kind) { printf("FAILED %s\n%s\nchoices=%s\n", v.signature.c_str(), v.detail.c_str(), join(bad.data(), (int)bad.size()).c_str()); return 1; }
	printf("ok evaluations=%lld nontrivial=%lld transitions=%lld schedules=%lld outcomes=%zu states=%zu capped=%d wall=%.1f\n", E, N, T, S, outs.size(), stas.size(), capped, now() - t0);
	for (std::map<std::string, long long>::iterator i = groups.begin(); i != groups.end(); ++i) printf("  %s: %lld\n", i->first.c_str(), i->second);
	return 0;
}

}
