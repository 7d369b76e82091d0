// S06: texts in wide characters, UTF-8 and the local encoding against the tables of the Unicode standard.
#include "repo.h"
#include "mc.h"
#include <locale.h>
using namespace mc;

static string f(const char* t, ...) { char b[200]; va_list a; va_start(a, t); vsnprintf(b, sizeof b, t, a); va_end(a); return b; }
typedef vector<unsigned> Codes;
static string show(const Codes& v) { string s; for (size_t i = 0; i < v.size() && i < 24; ++i) s += f("%s%x", i ? " " : "", v[i]); return s; }
static Codes codes(const wstring& w) { Codes r; for (size_t i = 0; i < w.size(); ++i) r.push_back((unsigned)w[i]); return r; }
static Codes codes(const string& w) { Codes r; for (size_t i = 0; i < w.size(); ++i) r.push_back((unsigned char)w[i]); return r; }
static wstring wide(const Codes& v) { wstring r; for (size_t i = 0; i < v.size(); ++i) r += (wchar_t)v[i]; return r; }
static string bytes(const Codes& v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (char)v[i]; return r; }

// table 3-6: the bits of a character
static void encode(Codes& r, unsigned u) {
	if (u < 0x80) { r.push_back(u); return; }
	int n = u < 0x800 ? 2 : u < 0x10000 ? 3 : 4;
	unsigned lead = n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0;
	r.push_back(lead + (u >> (6 * (n - 1))));
	for (int i = n - 2; i >= 0; --i) r.push_back(0x80 + (u / (1u << (6 * i))) % 64);
}
static Codes ref_utf8(const Codes& w) {
	Codes r;
	for (size_t i = 0; i < w.size(); ++i) {
		unsigned u = w[i];
		if (u / 0x400 == 0x36 && i + 1 < w.size() && w[i + 1] / 0x400 == 0x37) { u = 0x10000 + (u % 0x400) * 0x400 + w[i + 1] % 0x400; ++i; }
		else if (u / 0x800 == 0x1B || u >= 0x110000) u = 0xFFFD;
		encode(r, u);
	}
	return r;
}
// table 3-7: the well-formed sequences; what fits none is replaced, the longest beginning of one at a time
static const int ROWS[9][9] = { // bytes, then the range of each
	{1, 0x00, 0x7F}, {2, 0xC2, 0xDF, 0x80, 0xBF}, {3, 0xE0, 0xE0, 0xA0, 0xBF, 0x80, 0xBF}, {3, 0xE1, 0xEC, 0x80, 0xBF, 0x80, 0xBF}, {3, 0xED, 0xED, 0x80, 0x9F, 0x80, 0xBF},
	{3, 0xEE, 0xEF, 0x80, 0xBF, 0x80, 0xBF}, {4, 0xF0, 0xF0, 0x90, 0xBF, 0x80, 0xBF, 0x80, 0xBF}, {4, 0xF1, 0xF3, 0x80, 0xBF, 0x80, 0xBF, 0x80, 0xBF}, {4, 0xF4, 0xF4, 0x80, 0x8F, 0x80, 0xBF, 0x80, 0xBF}};
static Codes ref_wide(const Codes& b) {
	Codes r;
	for (size_t i = 0; i < b.size();) {
		int best = 1; bool whole = false;
		for (int k = 0; k < 9; ++k) {
			int n = 0;
			while (n < ROWS[k][0] && i + n < b.size() && (int)b[i + n] >= ROWS[k][1 + 2 * n] && (int)b[i + n] <= ROWS[k][2 + 2 * n]) ++n;
			if (n == ROWS[k][0]) { best = n; whole = true; break; }
			best = std::max(best, n);
		}
		if (!whole) r.push_back(0xFFFD);
		else {
			unsigned u = best == 1 ? b[i] : b[i] % (1u << (7 - best));
			for (int k = 1; k < best; ++k) u = u * 64 + b[i + k] % 64;
			r.push_back(u);
		}
		i += best;
	}
	return r;
}
static void there(Ctx& c, const Codes& w) {
	Codes got = codes(sys_strconvert::utf8_from_utf16(wide(w))), want = ref_utf8(w);
	if (got != want) c.fail("UTF-8 of a text", show(w) + " gives " + show(got) + ", not " + show(want));
	c.transitions++;
}
static void back(Ctx& c, const Codes& b) {
	Codes got = codes(sys_strconvert::utf16_from_utf8(bytes(b))), want = ref_wide(b);
	if (got != want) c.fail("text of UTF-8", show(b) + " gives " + show(got) + ", not " + show(want));
	c.transitions++;
}
static void same(Ctx& c, const Codes& b) {
	if (codes(sys_strconvert::utf8_from_local(bytes(b))) != b || codes(sys_strconvert::local_from_utf8(bytes(b))) != b) c.fail("UTF-8 and local text", "of " + show(b) + " differ");
	c.transitions += 2;
}
static void local(Ctx& c, const Codes& w, const Codes& b) {
	Codes got = codes(sys_strconvert::local_from_utf16(wide(w)));
	if (got != b) c.fail("local text", show(w) + " gives " + show(got) + ", not " + show(b));
	got = codes(sys_strconvert::utf16_from_local(bytes(b)));
	if (got != w) c.fail("text of a local one", show(b) + " gives " + show(got) + ", not " + show(w));
	c.transitions += 2;
}
static void every_way(Ctx& c, const Codes& w, bool also_local = true) {
	there(c, w);
	Codes b = ref_utf8(w);
	back(c, b);
	same(c, b);
	if (also_local) local(c, w, b);
}
static const unsigned EDGE[] = {1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF};
static const unsigned BYTE[] = {0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF};
static const unsigned WIDE[] = {0x41, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
template<size_t N> static Codes pick(Ctx& c, const unsigned (&a)[N], int max_len) {
	Codes r;
	while ((int)r.size() < max_len) { int x = c.choose((int)N + 1); if (!x) break; r.push_back(a[x - 1]); }
	return r;
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() {
		basiclog::log_logger::release();
		setenv("LC_ALL", "C.UTF-8", 1);
		sys_strconvert::utf16_from_local("a");  // the C library keeps the locale it loaded
	};
	s.groups.push_back(Group("every character", [](Ctx& c) {
		int block = c.choose(0x110000 / 0x100);
		if (!c.shard()) return;
		Codes all;
		for (unsigned u = block * 0x100; u < (block + 1) * 0x100u; ++u) {
			if (!u || u / 0x800 == 0x1B) continue;
			all.push_back(u);
			every_way(c, Codes(1, u), c.thorough || u % 16 == 15);
			every_way(c, {0x41, u, 0x42}, c.thorough);
			every_way(c, {u, u, 0x20AC}, c.thorough);
		}
		every_way(c, all);
		c.nontrivial++;
	}));
	s.groups.push_back(Group("texts of boundary characters", [](Ctx& c) {
		Codes w = pick(c, EDGE, c.thorough ? 4 : 3);
		if (!c.shard()) return;
		every_way(c, w);
		c.nontrivial++;
	}));
	s.groups.push_back(Group("long texts", [](Ctx& c) {
		int n = c.choose(301), k = c.choose(20), m = c.choose(3);
		if (!c.shard()) return;
		static const int BIG[] = {1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32768, 65536, 100000, 1000000};
		if (n >= 270) { if (n - 270 >= (c.thorough ? 12 : 11)) return; n = BIG[n - 270]; }
		Codes w;
		for (int i = 0; i < n; ++i) w.push_back(m == 0 ? EDGE[k] : m == 1 ? EDGE[((long long)i * i + k) % 20] : i == n - 1 ? EDGE[k] : 0x61);
		every_way(c, w);
		c.nontrivial++;
	}));
	s.groups.push_back(Group("bytes that are not UTF-8, every byte", [](Ctx& c) {
		int a = 1 + c.choose(255), d = c.choose(256);
		if (!c.shard()) return;
		Codes b(1, a);
		if (d) b.push_back(d);
		back(c, b);
		same(c, b);
		if (c.thorough && d) for (unsigned e = 1; e < 256; ++e) { b.resize(2); b.push_back(e); back(c, b); }
		c.nontrivial++;
	}));
	s.groups.push_back(Group("bytes that are not UTF-8, boundary bytes", [](Ctx& c) {
		Codes b = pick(c, BYTE, c.thorough ? 5 : 4);
		if (!c.shard()) return;
		back(c, b);
		if (b.size() < 3) for (int k = 0; k < 23; ++k) { Codes l(20, BYTE[k]); l.insert(l.end(), b.begin(), b.end()); back(c, l); same(c, l); }
		c.nontrivial++;
	}));
	s.groups.push_back(Group("wide texts with halves of characters and none", [](Ctx& c) {
		Codes w = pick(c, WIDE, c.thorough ? 5 : 4);
		if (!c.shard()) return;
		there(c, w);
		c.nontrivial++;
	}));
	s.groups.push_back(Group("locales", [](Ctx& c) {
		int user = c.choose(5), process = c.choose(2), thread = c.choose(3), cut = c.choose(20);
		if (!c.shard()) return;
		static const char* USER[] = {"C", "POSIX", "C.UTF-8", "xx_YY.UTF-8", ""};
		static const char* PROCESS[] = {"C", "C.UTF-8"};
		// a locale that is not there, or none, leaves the one in effect
		setenv("LC_ALL", USER[user], 1);
		unsetenv("LANG"); unsetenv("LC_CTYPE");
		setlocale(LC_ALL, PROCESS[process]);
		locale_t mine = thread ? newlocale(LC_ALL_MASK, PROCESS[thread - 1], 0) : (locale_t)0;
		if (mine) uselocale(mine);
		locale_t before = uselocale(0);
		string name = setlocale(LC_ALL, 0);
		bool utf8 = user == 2 || (user == 3 && (thread ? thread == 2 : process == 1));
		Codes w = {0x61, 0x62, 0x63};
		local(c, w, w);
		w.push_back(EDGE[cut]); w.push_back(0x64);
		if (utf8 || EDGE[cut] < 0x80) local(c, w, ref_utf8(w));
		else {
			// what the locale has no character for ends the text
			Codes got = codes(sys_strconvert::local_from_utf16(wide(w)));
			if (got != Codes(w.begin(), w.begin() + 3)) c.fail("local text", show(w) + " gives " + show(got) + " in a locale without");
		}
		there(c, w);
		back(c, ref_utf8(w));
		if (name != setlocale(LC_ALL, 0)) c.fail("the locale of the process changed", name + " to " + setlocale(LC_ALL, 0));
		if (before != uselocale(0)) c.fail("the locale of the thread changed", f("user %d process %d thread %d", user, process, thread));
		uselocale(LC_GLOBAL_LOCALE);
		if (mine) freelocale(mine);
		setlocale(LC_ALL, "C");
		setenv("LC_ALL", "C.UTF-8", 1);
		c.nontrivial++;
	}));
	return run(s, argc, argv);
}
