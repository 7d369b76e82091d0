// S04: text helpers against their definitions: splitting, replacing, trimming, case, edit distance, composing.
#include "repo.h"
#include "mc.h"
using namespace mc;

static string word(Ctx& c, const char* letters, int max_len) {
	int k = (int)strlen(letters);
	string s;
	while ((int)s.size() < max_len) {
		int x = c.choose(k + 1);
		if (!x) break;
		s += letters[x - 1];
	}
	return s;
}
static string show(const vector<string>& v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jstr(v[i]); return s + "]"; }

static vector<string> ref_split(const string& text, const string& tag) {
	vector<string> r;
	if (text.empty()) return r;
	string cur;
	for (size_t i = 0; i < text.size();) {
		if (!tag.empty() && text.compare(i, tag.size(), tag) == 0) { r.push_back(cur); cur.clear(); i += tag.size(); }
		else cur += text[i++];
	}
	r.push_back(cur);
	return r;
}
static string ref_replace(const string& text, const string& to, const string& from) {
	if (from.empty()) return text;
	string r;
	for (size_t i = 0; i < text.size();) {
		if (text.compare(i, from.size(), from) == 0) { r += to; i += from.size(); }
		else r += text[i++];
	}
	return r;
}
static void splitting(Ctx& c, int text_len, int tag_len) {
	string tag = word(c, ",;", tag_len), text = word(c, ",;a", text_len);
	if (!c.shard()) return;
	vector<string> want = ref_split(text, tag), got(3, "old");
	sys_strhelper::split(got, text, tag);
	if (got != want) c.fail("split", jstr(text) + " by " + jstr(tag) + " gives " + show(got));
	if (sys_strhelper::split(text, tag) != want) c.fail("split", jstr(text) + " by " + jstr(tag) + ", returned");
	c.transitions++; c.nontrivial++;
	c.outcome(hash_bytes(show(want).data(), show(want).size()));
}
static void replacing(Ctx& c, int text_len) {
	string from = word(c, "ab", 3), to = word(c, "abc", 2), text = word(c, "abc", text_len);
	if (!c.shard()) return;
	string got = text, want = ref_replace(text, to, from);
	sys_strhelper::replace(got, to, from);
	if (got != want) c.fail("replace", jstr(from) + " by " + jstr(to) + " in " + jstr(text) + " gives " + jstr(got));
	if (to.empty() && from.size() == 1) {
		string t = text;
		sys_strhelper::trim_left(t, from[0]);
		size_t k = 0;
		while (k < text.size() && text[k] == from[0]) ++k;
		if (t != text.substr(k)) c.fail("trim_left", jstr(text) + " of " + jstr(from) + " gives " + jstr(t));
	}
	c.transitions++; c.nontrivial++;
	c.outcome(hash_bytes(want.data(), want.size()));
}
static char up(char x) { return x >= 'a' && x <= 'z' ? x - 32 : x; }
static char low(char x) { return x >= 'A' && x <= 'Z' ? x + 32 : x; }
static void cases(Ctx& c) {
	int a = c.choose(256), b = c.choose(256);
	if (!c.shard()) return;
	string s, u, l, t;
	s += (char)a; s += 'x'; s += (char)b; s += 'Q';
	for (size_t i = 0; i < s.size(); ++i) { u += up(s[i]); l += low(s[i]); }
	string g = s, h = s;
	sys_strhelper::upper(g);
	sys_strhelper::lower(h);
	if (g != u || h != l) c.fail("case", jstr(s) + " becomes " + jstr(g) + " and " + jstr(h));
	string p(1, (char)a), q(1, (char)b);
	if (sys_strhelper::equal(p, q) != (a == b) || sys_strhelper::equal(p, q, true) != (up((char)a) == up((char)b)) || !sys_strhelper::equal(s, u, true) || sys_strhelper::equal(s, s + p, true)) c.fail("equal", jstr(p) + " and " + jstr(q));
	c.transitions++; c.nontrivial++;
}
// cost of turning a into b, by the definition
static long long ref_dist(const string& a, const string& b, long long ins, long long rep, long long del) {
	vector<vector<long long> > d(2, vector<long long>(b.size() + 1));
	for (size_t j = 0; j <= b.size(); ++j) d[0][j] = j * ins;
	for (size_t i = 1; i <= a.size(); ++i) {
		vector<long long>& p = d[(i - 1) & 1];
		vector<long long>& q = d[i & 1];
		q[0] = i * del;
		for (size_t j = 1; j <= b.size(); ++j) q[j] = min(min(p[j] + del, q[j - 1] + ins), p[j - 1] + (a[i - 1] == b[j - 1] ? 0 : rep));
	}
	return d[a.size() & 1][b.size()];
}
static const int COST[][3] = {{1, 1, 1}, {1, 2, 3}, {3, 2, 1}, {2, 1, 5}, {100, 90, 80}, {0, 1, 1}, {1, 1, 0}, {1, 0, 1}, {5, 100, 7}, {1000, 1, 1000}};
static void distance(Ctx& c, const string& a, const string& b, int only = -1) {
	for (int k = 0; k < 10; ++k) for (int fold = 0; fold < 2; ++fold) {
		if (only >= 0 && (k != only || fold)) continue;
		string x = a, y = b;
		if (fold) { for (size_t i = 0; i < x.size(); ++i) x[i] = up(x[i]); for (size_t i = 0; i < y.size(); ++i) y[i] = up(y[i]); }
		long long want = ref_dist(x, y, COST[k][0], COST[k][1], COST[k][2]);
		int got = sys_strhelper::levenshtein_distance(a, b, COST[k][0], COST[k][1], COST[k][2], fold != 0);
		char t[160];
		snprintf(t, sizeof t, " with costs %d %d %d%s is %lld, not %d", COST[k][0], COST[k][1], COST[k][2], fold ? " ignoring case" : "", want, got);
		if (got != want) c.fail("edit distance", jstr(head(a, 60)) + " to " + jstr(head(b, 60)) + t);
		if (k == 0 && !fold && sys_strhelper::levenshtein_distance(a, b) != want) c.fail("edit distance", "with default costs");
		c.transitions++;
	}
	c.nontrivial++;
}
template <class T> static void composed(Ctx& c, T v, const string& want) {
	string got = sys_strcombine() << v;
	if (got != want) c.fail("composing text", "got " + jstr(head(got, 100)) + " instead of " + jstr(head(want, 100)));
	string twice = sys_strcombine(string("<")) << v << "|" << v << string(">");
	if (twice != "<" + want + "|" + want + ">") c.fail("composing text", "twice: " + jstr(head(twice, 200)));
	vector<T> list;
	string w = "[";
	for (int n = 0; n < 3; ++n) {
		string l = sys_strcombine() << list;
		if (l != w + "]") c.fail("composing text", "list: " + jstr(head(l, 200)));
		list.push_back(v);
		w += (n ? ", " : "") + want;
	}
	map<string, T> m;
	m.insert(make_pair(string("k"), v));
	string ms = sys_strcombine() << m;
	if (ms != "{\nk:" + want + "\n}") c.fail("composing text", "map: " + jstr(head(ms, 200)));
	c.transitions += 5;
}
static string f(const char* t, ...) { vector<char> b(2000); va_list a; va_start(a, t); vsnprintf(&b[0], b.size(), t, a); va_end(a); return string(&b[0]); }

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { log_logger::release(); };
	s.groups.push_back(Group("splitting: texts up to 8 letters, tags up to 3", [](Ctx& c) { splitting(c, 8, 3); }));
	s.groups.push_back(Group("splitting: texts up to 10 letters, tags up to 4", [](Ctx& c) { splitting(c, 10, 4); }, false));
	s.groups.push_back(Group("replacing and trimming: texts up to 7 letters", [](Ctx& c) { replacing(c, 7); }));
	s.groups.push_back(Group("replacing and trimming: texts up to 9 letters", [](Ctx& c) { replacing(c, 9); }, false));
	s.groups.push_back(Group("upper, lower, equal: pairs of characters", cases));
	s.groups.push_back(Group("edit distance: words up to 4 letters", [](Ctx& c) {
		string a = word(c, "aAb", 4), b = word(c, "aAb", 4);
		if (!c.shard()) return;
		distance(c, a, b);
		if (c.want_sample()) c.sample(a + " to " + b);
	}));
	s.groups.push_back(Group("edit distance: words up to 6 letters", [](Ctx& c) {
		string a = word(c, "aAb", 6), b = word(c, "aAb", 6);
		if (!c.shard()) return;
		for (int k = 0; k < 4; ++k) distance(c, a, b, k);
	}, false));
	s.groups.push_back(Group("edit distance: long words around buffer sizes", [](Ctx& c) {
		static const int N[] = {0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1023, 1024, 1025, 4047, 4048, 4049, 32766, 32767, 32768};
		int i = c.choose(28), j = c.choose(28), kind = c.choose(4);
		if (!c.shard()) return;
		long long work = (long long)N[i] * N[j];
		if (work > (c.thorough ? 40000000ll : 2000000ll) && !(N[i] > 30000 && N[j] < 40) && !(N[j] > 30000 && N[i] < 40)) return;
		string a, b;
		for (int k = 0; k < N[i]; ++k) a += kind == 0 ? 'x' : (char)('a' + (k * k + k / 3) % 5);
		for (int k = 0; k < N[j]; ++k) b += kind == 0 ? 'y' : kind == 1 ? (char)('a' + (k * k + k / 3) % 5) : (char)('a' + (k * (kind + 5)) % 7);
		for (int k = 0; k < 10; ++k) if (work < 2000000 || k == kind || k == 4) distance(c, a, b, k);
	}));
	s.groups.push_back(Group("composing text from values", [](Ctx& c) {
		int type = c.choose(13), i = c.choose(20);
		if (!c.shard()) return;
		static const long long I[] = {0, 1, -1, 9, 10, 127, -128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648ll, 4294967295ll, 9223372036854775807ll, (long long)0x8000000000000000ull, -10, 100, 1234567890123ll};
		static const double D[] = {0, 1, -1, 0.5, 0.1, 1.0 / 3, 123456.789, -1e-7, 1e-17, 1e20, 1e300, 16777217, 3.4e38, -2.5, 99.99999999, 1e-5, 7, -0.25, 1e10, 4503599627370497.5};
		long long v = I[i];
		switch (type) {
		case 0: composed<i32>(c, (i32)v, f("%d", (int)v)); break;
		case 1: composed<u32>(c, (u32)v, f("%u", (unsigned)v)); break;
		case 2: composed<i16>(c, (i16)v, f("%d", (int)(short)v)); break;
		case 3: composed<u16>(c, (u16)v, f("%u", (unsigned)(unsigned short)v)); break;
		case 4: composed<u8>(c, (u8)v, f("%u", (unsigned)(unsigned char)v)); break;
		case 5: composed<i64>(c, v, f("%lld", v)); break;
		case 6: composed<u64>(c, (u64)v, f("%llu", v)); break;
		case 7: composed<f32>(c, (f32)D[i], f("%.7f", (double)(float)D[i])); break;
		case 8: composed<f64>(c, D[i], f("%.16f", D[i])); break;
		case 9: composed<b8>(c, b8(v & 1 ? 1 : 0), v & 1 ? "true" : "false"); break;
		case 10: { char ch = (char)(' ' + i * 4); composed<i8>(c, ch, string(1, ch)); break; }
		case 11: { string t(i * i * i * 40, 'l'); t += "%s%n\\"; composed<string>(c, t, t); if (string(sys_strcombine() << t.c_str()) != t) c.fail("composing text", "of a literal"); break; }
		case 12: { string t(i * i * i * 40, 'm'); string g = sys_strhelper::combine("<%s|%d>", t.c_str(), i); if (g != "<" + t + f("|%d>", i)) c.fail("combine", f("%zu characters became %zu", t.size(), g.size())); break; }
		}
		c.nontrivial++;
	}));
	s.groups.push_back(Group("arguments of a program", [](Ctx& c) {
		int n = c.choose(5);
		if (!c.shard()) return;
		vector<string> want;
		vector<char*> av;
		for (int i = 0; i < n; ++i) want.push_back(string(i * 3, (char)('a' + i)));
		for (int i = 0; i < n; ++i) av.push_back((char*)want[i].c_str());
		vector<string> got(7, "x");
		sys_strhelper::wstring_from_char_array(got, n, av.data());
		if (got != want || sys_strhelper::wstring_from_char_array(n, av.data()) != want) c.fail("arguments", "differ");
		c.nontrivial++;
	}));
	return run(s, argc, argv);
}
