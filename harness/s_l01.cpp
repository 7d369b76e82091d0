// L01: what loggers are told and what comes out of them: text, levels, filters, time stamps, files, console, threads
#define MC_COUNTS_BLOCKS 1
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#undef MC_COUNTS_BLOCKS
#endif
#endif
extern "C" { extern long long mc_live; }
#include "repo.h"
#include "mc.h"
#include "mcsched.h"
#include <dirent.h>
#include <dlfcn.h>
using namespace mc;
static string num(long long a) { return std::to_string(a); }

// ---- the clock is ours
static bool fake; static time_t the_time;
extern "C" time_t time(time_t* t) {
	time_t r;
	if (fake) r = the_time; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if (t) *t = r;
	return r;
}
struct Zone { const char* tz; int minutes; const char* told; };
static const Zone ZONES[] = {
	{ "UTC0", 0, "0" }, { "XXX-8", 480, "+8" }, { "XXX5", -300, "-5" }, { "XXX-12", 720, "+12" }, { "XXX12", -720, "-12" }, { "XXX-13", 780, "+13" }, { "XXX-14", 840, "+14" },
	{ "XXX-5:30", 330, "+5:30" }, { "XXX3:30", -210, "-3:30" }, { "XXX-12:45", 765, "+12:45" }, { "XXX-5:45", 345, "+5:45" }, { "XXX-1", 60, "+1" }, { "XXX1", -60, "-1" }, { "XXX0:30", -30, "-0:30" },
};
static const int NZONES = 14;
static void set_zone(int z) { setenv("TZ", ZONES[z].tz, 1); tzset(); }
static string stamp(int z, const char* format) {
	time_t t = the_time + ZONES[z].minutes * 60;
	struct tm x; gmtime_r(&t, &x);
	char b[2048]; b[0] = 0;
	if (!strftime(b, 1024, format, &x)) b[0] = 0;
	return string(b) + " UTC " + ZONES[z].told;
}

// ---- a logger of our own
class Own : public log_logger {
public:
	vector<string> pieces;
	int* gone; bool yield;
	Own(const string& timestamp = "%Y/%m/%d %H:%M:%S", bool dir = false, int* g = NULL) : log_logger(timestamp, dir), gone(g), yield(false) {}
	~Own() { if (gone) ++*gone; }
	using log_logger::print;
	string all() const { string r; for (auto& p : pieces) r += p; return r; }
protected:
	virtual void print(const string& s) { if (yield) sched::point(); pieces.push_back(s); if (yield) sched::point(); }
};
static string base_name(const string& p) { size_t k = p.find_last_of("/\\"); return k == string::npos ? p : p.substr(k + 1); }
static string line(const string& level, const string& when, const string& tag, int at, const string& file, const string& msg) {
	string m = msg;
	if (tag == "performance") m += " If you don't want to see performance warning, you can add_filter 'basiclog_performance_warning'!";
	return "[" + level + "] [" + when + "] <" + tag + "> in line " + num(at) + " of <" + file + ">, " + m + "\n";
}
static string text(int n) { string s; for (int i = 0; i < n; ++i) s += (char)(i % 97 == 96 ? '\n' : i % 31 == 30 ? '%' : 33 + i * 7 % 90); return s; }
static string differ(const string& got, const string& want) {
	size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
	return num(got.size()) + " bytes instead of " + num(want.size()) + ", differ at " + num(k) + ": " + got.substr(k > 20 ? k - 20 : 0, 60) + " instead of " + want.substr(k > 20 ? k - 20 : 0, 60);
}

static void message_text(Ctx& c) {
	static const char* LEVEL[] = { "debug", "info", "warning", "error" };
	static const char* TAG[] = { "", "a", "performance", "A", "%s" };
	static const char* PATH[] = { "f.cpp", "/a b/c.d/f.cpp", "..\\src\\f.cpp", "" };
	static const int LEN[] = { 0, 1, 100, 4900, 4999, 5000, 5001, 9999, 10000, 12345, 40000 };
	int l = c.choose(4), t = c.choose(5), p = c.choose(4); bool dir = c.choose(2);
	if (!c.shard()) return;
	fake = true; the_time = 1700000000; set_zone(1);
	for (int n = 0; n < 11 + 12; ++n) for (int f = 0; f < 8; ++f) {
		if (n >= 11 && f) continue;
		Own o("%Y/%m/%d %H:%M:%S", dir);
		vector<string> filters;
		if (f & 1) filters.push_back("a");
		if (f & 2) filters.push_back("performance");
		if (f & 4) filters.push_back("");
		bool adding = (n + f) & 1;
		if (adding) for (auto& x : filters) o.add_filter(x); else { o.set_filter(vector<string>(1, "A")); o.set_filter(filters); }
		vector<string> got(2, "?");
		o.get_filter(got);
		if (got != filters) c.fail("filters", "set and read");
		// around the length at which messages are cut, the whole line counts
		int len = n < 11 ? LEN[n] : 5000 - (int)line(LEVEL[l], stamp(1, "%Y/%m/%d %H:%M:%S"), TAG[t], 77, dir ? PATH[p] : base_name(PATH[p]), "").size() - 6 + (n - 11);
		string msg = text(len);
		bool filtered = false;
		for (auto& x : filters) if (x == TAG[t]) filtered = true;
		o.print(LEVEL[l], TAG[t], msg, PATH[p], 77);
		string want = filtered ? "" : line(LEVEL[l], stamp(1, "%Y/%m/%d %H:%M:%S"), TAG[t], 77, dir ? PATH[p] : base_name(PATH[p]), msg);
		if (o.all() != want) c.fail("text", string(LEVEL[l]) + " of " + num(len) + " characters: " + differ(o.all(), want));
		for (auto& x : o.pieces) if (x.empty()) c.fail("text", "an empty piece");
		if (!filtered && want.size() <= 5000 && o.pieces.size() != 1) c.fail("pieces", "a short message was cut");
		o.print(LEVEL[l], "b", "next", PATH[p], -1);
		want += line(LEVEL[l], stamp(1, "%Y/%m/%d %H:%M:%S"), "b", -1, dir ? PATH[p] : base_name(PATH[p]), "next");
		if (o.all() != want) c.fail("text", "the next message: " + differ(o.all(), want));
		c.transitions += 2;
	}
	fake = false;
	c.nontrivial++;
	c.outcome(l * 64 + t * 8 + p);
}
static void time_stamps(Ctx& c) {
	static const char* FORMAT[] = { "%Y/%m/%d %H:%M:%S", "", "%H", "%j %y", NULL };
	int z = c.choose(NZONES), f = c.choose(5);
	if (!c.shard()) return;
	string format = FORMAT[f] ? FORMAT[f] : "";
	if (!FORMAT[f]) for (int i = 0; i < 300; ++i) format += "%Y-%m-%d ";
	set_zone(z);
	fake = true;
	// the middle of the year, the ends of months, years and leap years, one point of each hour and quarter
	static const time_t DAY[] = { 1718409600, 1735603200, 1735689600, 1709164800, 1709251200, 1704067200, 951782400, 4102358400ll, 0, 86400 };
	for (time_t d : DAY) for (int q = 0; q < 96; ++q) {
		the_time = d + q * 900 + q % 7;
		Own o(format);
		o.print("info", "t", "m", "f", 1);
		string want = line("info", stamp(z, format.c_str()), "t", 1, "f", "m");
		if (o.all() != want) c.fail("time", string(ZONES[z].tz) + ": " + differ(o.all(), want));
		c.transitions++;
	}
	fake = false;
	c.nontrivial++;
	c.outcome(z * 8 + f);
}

static int evaluated;
static string told(const string& s) { ++evaluated; return s; }
static bool condition(bool b) { ++evaluated; return b; }
static void levels(Ctx& c) {
	int start = c.choose(16), then = c.choose(16), what = c.choose(4);
	if (!c.shard()) return;
	fake = true; the_time = 1700000000; set_zone(0);
	Own* o = NULL; int gone = 0;
	if (what < 2) {
		o = new Own("", true, &gone);
		log_logger::init_logger(o);
		if (!o->is_enable_debug() || !o->is_enable_info() || !o->is_enable_warning() || !o->is_enable_error()) c.fail("levels", "not all are on at first");
	} else log_logger::release();
	if (log_logger::get_logger() != o) c.fail("logger", "another logger is told");
	string want;
	auto say = [&](bool on, const char* level, const string& tag, int at, const string& m) { if (on) want += line(level, " UTC 0", tag, at, __FILE__, m); };
	for (int round = 0; round < 2; ++round) {
		int m = round ? then : start;
		bool d = m & 1, i = m & 2, w = m & 4, e = m & 8;
		if (o) {
			o->enable_debug(d); o->enable_info(i); o->enable_warning(w); o->enable_error(e);
			if (o->is_enable_debug() != d || o->is_enable_info() != i || o->is_enable_warning() != w || o->is_enable_error() != e) c.fail("levels", "set and read");
		} else d = i = w = e = false;
		evaluated = 0;
		basiclog_debug("x", told("dbg") << 1); say(d, "debug", "x", __LINE__, "dbg1");
		basiclog_info("x", told("inf")); say(i, "info", "x", __LINE__, "inf");
		basiclog_warning("performance", told("wrn") << "," << 25); say(w, "warning", "performance", __LINE__, "wrn,25");
		basiclog_error("", told("err")); say(e, "error", "", __LINE__, "err");
		if (evaluated != d + i + w + e) c.fail("evaluated", num(evaluated));
		evaluated = 0;
		basiclog_assert("t", condition(true));
		basiclog_assert("t", condition(false)); say(e, "error", "t", __LINE__, "");
		basiclog_assert_message("t", condition(true), told("a"));
		basiclog_assert_message("t", condition(false), told("b")); say(e, "error", "t", __LINE__, "b");
		if (evaluated != 4 + e) c.fail("evaluated", "conditions " + num(evaluated));
		basiclog_unsupport("u"); say(e, "error", "u", __LINE__, "unsupport operation");
		basiclog_debug2("d"); say(d, "debug", "", __LINE__, "d");
		basiclog_info2("i"); say(i, "info", "", __LINE__, "i");
		basiclog_warning2("w"); say(w, "warning", "", __LINE__, "w");
		basiclog_error2("e"); say(e, "error", "", __LINE__, "e");
		basiclog_assert2(false); say(e, "error", "", __LINE__, "");
		basiclog_assert2(true);
		basiclog_assert_message2(false, "am"); say(e, "error", "", __LINE__, "am");
		basiclog_unsupport2(); say(e, "error", "", __LINE__, "unsupport operation");
		c.transitions += 16;
	}
	if (o && o->all() != want) c.fail("levels", differ(o->all(), want));
	if (what == 1) {
		log_logger::init_logger(new Own);
		if (gone != 1) c.fail("logger", "the logger before was not given back");
	}
	log_logger::release();
	if (log_logger::get_logger() != NULL || (o && gone != 1)) c.fail("logger", "the logger was not given back");
	fake = false;
	c.nontrivial++;
	c.outcome(start * 64 + then * 4 + what);
}

// ---- files
static string scratch;
static void enter_scratch() {
	if (scratch.empty()) { scratch = run_dir() + "/L" + num(getpid()); mkdir(scratch.c_str(), 0755); }
	if (chdir(scratch.c_str())) _exit(9);
}
static string read_all(const string& p) {
	string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return "?";
	char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f))) r.append(b, k);
	fclose(f); return r;
}
static void empty_dir(const string& dir) {
	DIR* d = opendir(dir.c_str()); if (!d) return;
	while (dirent* e = readdir(d)) {
		string n = e->d_name; if (n == "." || n == "..") continue;
		string p = dir + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { empty_dir(p); rmdir(p.c_str()); } else unlink(p.c_str());
	}
	closedir(d);
}
typedef std::map<string, string> Files;      // path -> content
static void list_files(Files& r, const string& dir) {
	DIR* d = opendir(dir.empty() ? "." : dir.c_str()); if (!d) return;
	while (dirent* e = readdir(d)) {
		string n = e->d_name; if (n == "." || n == "..") continue;
		string p = dir.empty() ? n : dir + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) list_files(r, p); else r[p] = read_all(p);
	}
	closedir(d);
}
class File_Logger : public log_file_logger {
public:
	File_Logger(const string& dir, int a, int b) : log_file_logger(dir, a, b) {}
	string title() const { return generate_new_file_title(); }
	using log_logger::print;
};
struct Log { string dir, content, title; int n; };    // one file of the logger
static void files(Ctx& c, int depth) {
	static const int OPS = 11;
	static const char* DIRS[] = { "", "A", "A/", "B/c", "file/x" };
	int first = c.choose(4), a = 1 + c.choose(2), b = 1 + c.choose(2);
	int ops[8]; for (int i = 0; i < 3; ++i) ops[i] = c.choose(OPS);
	if (!c.shard()) return;
	enter_scratch(); empty_dir(".");
	{ FILE* f = fopen("file", "wb"); fputs("mine", f); fclose(f); }
	string title;
	fake = true; the_time = 1700000000; set_zone(0);
	int value = 0;
	{
		string dir = DIRS[first];
		auto norm = [](string d) { if (!d.empty() && d.back() == '/') d.pop_back(); return d; };
		string what = "in '" + dir + "' with " + num(a) + " and " + num(b);
		File_Logger log(dir, a, b);
		dir = norm(dir);
		list<Log> mine;                           // those that count for the limit, oldest first
		vector<Log> left;                         // of directories that were left
		bool open = false, bad = false;
		Files others; others["file"] = "mine";
		// a file of somebody else with the name that comes next
		auto name = [&]() { char s[64]; struct tm t; gmtime_r(&the_time, &t); strftime(s, 64, "%Y-%m-%d %H-%M-%S UTC 0", &t); return string(s); };
		auto piece = [&](const string& s) {
			if (!open || mine.back().n >= a) {
				open = false;
				while (!mine.empty() && (int)mine.size() >= b) mine.pop_front();
				if (bad) return;
				mine.push_back({ dir, "", name(), 0 });
				open = true;
			}
			mine.back().content += s; mine.back().n++;
		};
		auto check = [&]() {
			Files now; list_files(now, "");
			for (auto& o : others) { if (!now.count(o.first) || now[o.first] != o.second) c.fail("others", what + ": " + o.first + " changed"); now.erase(o.first); }
			vector<std::pair<string, string>> want, got;
			auto expect = [&](const Log& l) {
				string found;
				for (auto& f : now) if (f.second == l.content && (l.dir.empty() ? f.first.find('/') == string::npos : f.first.compare(0, l.dir.size() + 1, l.dir + "/") == 0)) found = f.first;
				if (found.empty()) { string have; for (auto& f : now) have += "'" + f.first + "' (" + num(f.second.size()) + ") "; c.fail("files", what + ": a file with " + num(l.n) + " entries in '" + l.dir + "' is missing, there are " + have); }
				string n = base_name(found);
				if (n.compare(0, l.title.size(), l.title) || n.size() < 4 || n.substr(n.size() - 4) != ".txt") c.fail("name", what + ": " + n + " instead of " + l.title);
				now.erase(found);
			};
			for (auto& l : left) expect(l);
			for (auto& l : mine) expect(l);
			if (!now.empty()) c.fail("files", what + ": " + now.begin()->first + " is still or newly there");
		};
		for (int k = 0; k < depth; ++k) {
			int op = k < 3 ? ops[k] : c.choose(OPS);
			c.transitions++;
			if (op <= 2) {
				int n = op == 2 ? 6000 : 3;
				string m = num(++value) + "-" + text(n);
				what += op == 2 ? ", long" : ", message";
				log.print("info", "t", m, "f", 1);
				string s = line("info", stamp(0, "%Y/%m/%d %H:%M:%S"), "t", 1, "f", m);
				for (size_t at = 0; at < s.size(); at += 5000) piece(s.substr(at, 5000));
				if (op == 1) { what += " (clock)"; the_time++; }
			} else if (op == 3) { what += ", clock"; the_time++; }
			else if (op == 4) { a = 1; what += ", at most 1 per file"; log.set_file_max_log_number(a); }
			else if (op == 5) { a = 3; what += ", at most 3 per file"; log.set_file_max_log_number(a); }
			else if (op == 6) { b = 1; what += ", at most 1 file"; log.set_max_file_number(b); }
			else if (op == 7) { b = 3; what += ", at most 3 files"; log.set_max_file_number(b); }
			else if (op == 8) {
				int d = c.choose(5);
				what += string(", directory '") + DIRS[d] + "'";
				log.set_dir(DIRS[d]);
				for (auto& l : mine) left.push_back(l);
				mine.clear(); dir = norm(DIRS[d]); bad = d == 4; open = false;
			} else if (op == 9) {
				if (bad) throw Stop();
				what += ", somebody's file";
				string p = (dir.empty() ? "" : dir + "/") + name() + ".txt";
				if (access(p.c_str(), F_OK) == 0) throw Stop();
				FILE* f = fopen(p.c_str(), "wb"); if (!f) c.fail("directory", what + ": '" + dir + "' was not made");
				fputs("other", f); fclose(f);
				others[p] = "other";
			} else { b = 0; what += ", no files"; log.set_max_file_number(b); }
			check();
		}
		c.nontrivial++;
		if (c.want_sample()) c.sample(what);
		c.outcome(mix(mine.size() * 8 + left.size(), hash_bytes(what.data(), what.size())));
	}
	fake = false;
	empty_dir(".");
	(void)title;
}
static void console(Ctx& c) {
	int kind = c.choose(2), n = c.choose(5), m = c.choose(5);
	if (!c.shard()) return;
	static const string M[] = { "plain", "\xE4\xB8\xAD\xE6\x96\x87 \xFF\x80 \x01", "", text(5200), "%s %d" };
	enter_scratch();
	fflush(stdout);
	int save = dup(1), fd = open("out", O_CREAT | O_TRUNC | O_RDWR, 0644);
	dup2(fd, 1);
	fake = true; the_time = 1700000000; set_zone(0);
	string want, got; bool flushed = true;
	{
		log_logger* o = kind ? (log_logger*)new log_ide_console_logger("") : new log_console_logger("");
		int which[] = { n, m, 0 };
		for (int w : which) {
			o->print("info", "t", M[w], "f", 3); want += line("info", " UTC 0", "t", 3, "f", M[w]);
			if (kind == 0 && lseek(fd, 0, SEEK_END) > (off_t)want.size()) flushed = false;
		}
		fflush(stdout);
		delete o;
	}
	fake = false;
	dup2(save, 1); close(save); close(fd);
	got = read_all("out");
	unlink("out");
	if (got != want) c.fail("console", differ(got, want));
	if (!flushed) c.fail("console", "too much");
	c.transitions += 3; c.nontrivial++;
	c.outcome(kind * 32 + n * 5 + m);
}

// ---- threads
static void threads(Ctx& c, int n, int each, int bound) {
	static const int OPS = 7;
	int op[3][3];
	for (int t = 0; t < n; ++t) for (int k = 0; k < each; ++k) op[t][k] = c.choose(OPS);
	if (!c.shard()) return;
	fake = true; the_time = 1700000000; set_zone(0);
	string what; what.reserve(500);
	for (int t = 0; t < n; ++t) { what += t ? " | " : ""; for (int k = 0; k < each; ++k) what += num(op[t][k]) + " "; }
	Own o("");
	o.yield = true;
	vector<string> lines;         // those that must be there
	vector<string> maybe;         // those that may be, as another thread filters them
	bool filtering = false;
	for (int t = 0; t < n; ++t) for (int k = 0; k < each; ++k) if (op[t][k] == 3 || op[t][k] == 4) filtering = true;
	auto tag = [&](int t, int k) { return "t" + num(t * 10 + k); };
	for (int t = 0; t < n; ++t) for (int k = 0; k < each; ++k) {
		if (op[t][k] <= 1) lines.push_back(line("info", " UTC 0", tag(t, k), t, "f", text(op[t][k] ? 5100 : 4)));
		if (op[t][k] == 2) (filtering ? maybe : lines).push_back(line("error", " UTC 0", "f", t * 10 + k, "f", "x"));
	}
	vector<std::function<void()>> fns;
	bool wrong = false;
	for (int t = 0; t < n; ++t) fns.push_back([&, t]() {
		for (int k = 0; k < each; ++k) switch (op[t][k]) {
		case 0: case 1: o.print("info", tag(t, k), text(op[t][k] ? 5100 : 4), "f", t); break;
		case 2: o.print("error", "f", "x", "f", t * 10 + k); break;
		case 3: o.set_filter(vector<string>(2, "f")); break;
		case 4: o.add_filter("f"); break;
		case 5: { vector<string> f; o.get_filter(f); for (auto& x : f) if (x != "f") wrong = true; break; }
		default: o.enable_info(false); o.enable_info(true); o.enable_debug(o.is_enable_error()); o.enable_warning(o.is_enable_info() || true); o.enable_error(o.is_enable_warning());
		}
	});
	sched::S.reset_run();
	sched::S.hot.clear();
	sched::S.mode = sched::Explore; sched::S.explore_region = -1; sched::S.preempt_bound = bound; sched::S.log = true;
	uint64_t h = 1;
	sched::S.pick = [&](int k) { int x = c.choose(k); h = mix(h, x); return x; };
	sched::run_threads(fns);
	sched::S.mode = sched::Direct; sched::S.log = false; sched::S.pick = nullptr;
	c.transitions += sched::S.accesses; sched::S.accesses = 0;
	c.schedules++;
	c.outcome(h);
	fake = false;
	if (sched::S.deadlock || !sched::S.problem.empty()) c.fail("deadlock", what + sched::S.problem);
	if (!sched::S.conflicts.empty()) {
		const sched::Conflict& x = sched::S.conflicts[0];
		Dl_info a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
		dladdr(x.pc_a, &a); dladdr(x.pc_b, &b);
		c.fail("unsynchronised", what + ": " + (a.dli_sname ? a.dli_sname : "?") + " and " + (b.dli_sname ? b.dli_sname : "?"));
	}
	if (wrong) c.fail("filters", what);
	string rest = o.all();
	while (!rest.empty()) {
		bool found = false;
		for (vector<string>* v : { &lines, &maybe }) for (size_t i = 0; i < v->size() && !found; ++i)
			if (rest.compare(0, (*v)[i].size(), (*v)[i]) == 0) { rest.erase(0, (*v)[i].size()); v->erase(v->begin() + i); found = true; }
		if (!found) c.fail("torn", what + ": output does not consist of whole messages, " + rest.substr(0, 60));
	}
	if (!lines.empty()) c.fail("lost", what + ": " + num(lines.size()) + " messages are missing");
	c.nontrivial++;
	if (c.want_sample()) c.sample(what);
}
static void files3(Ctx& c) { files(c, c.thorough ? 5 : 3); }
static void two(Ctx& c) { threads(c, 2, 2, c.thorough ? 2 : 1); }
static void three(Ctx& c) { threads(c, 3, 1, c.thorough ? 2 : 1); }
static void one_each(Ctx& c) { threads(c, 2, 1, 3); }

int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "messages", message_text }, { "times", time_stamps }, { "levels", levels }, { "files", files3 }, { "console", console },
		{ "threads, two with one each", one_each }, { "threads, two with two each", two }, { "threads, three", three } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
