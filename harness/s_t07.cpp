// T07: sorting, selection and dynamic programming over every sequence up to a length
#include "repo.h"
#include "mc.h"
using namespace mc;

template<class T> static string show(const vector<T>& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << +v[i]; o << ")"; return o.str(); }
static string show(const vector<string>& v) { string o = "("; for (auto& s : v) o += " '" + s + "'"; return o + ")"; }
static string num(long long a) { return std::to_string(a); }
// bitwise equality of vectors: the library's own == on vectors of reals is approximate
template<class T> static bool same(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }

template<class T> struct Values {};
template<> struct Values<i32> { static i32 of(int k) { static const i32 v[] = { 0, 7, -3, 2147483647, -2147483647 - 1, 8, 1, -1 }; return v[k]; } };
template<> struct Values<u8> { static u8 of(int k) { static const u8 v[] = { 0, 255, 128, 127, 1, 2, 3, 254 }; return v[k]; } };
template<> struct Values<f64> { static f64 of(int k) { static const f64 v[] = { 0, 1e-300, -1e-300, 1.0, 1.0 + 2.3e-16, -1e300, 1e300, 0.5 }; return v[k]; } };
template<> struct Values<string> { static string of(int k) { static const char* v[] = { "", "a", "ab", "b", "B", "aa", "0", "z" }; return v[k]; } };

template<class T> static vector<T> sequence(Ctx& c, int length, int alphabet) {
	vector<T> v;
	for (int i = 0; i < length; ++i) v.push_back(Values<T>::of(c.choose(alphabet)));
	return v;
}
template<class T> static vector<T> ordered(vector<T> v, bool up) {
	if (up) std::sort(v.begin(), v.end(), [](const T& a, const T& b) { return a < b; });
	else std::sort(v.begin(), v.end(), [](const T& a, const T& b) { return b < a; });
	return v;
}
template<class T> static void sorting_of(Ctx& c, int alphabet, int longest) {
	int length = c.choose(longest + 1);
	vector<T> v = sequence<T>(c, length, alphabet);
	if (!c.shard()) return;
	for (int up = 0; up < 2; ++up) {
		vector<T> want = ordered(v, up);
		string what = show(v) + (up ? " upwards" : " downwards");
		vector<T> a = v;
		mt_sort::bubble_sort(a, up);
		if (!same(a, want)) c.fail("bubble", what + " gives " + show(a));
		// a heap of an empty sequence has no first element
		a = v;
		if (!a.empty()) {
			mt_sort::heap_sort(a, up);
			if (!same(a, want)) c.fail("heap", what + " gives " + show(a));
		}
		for (int had = 0; had < 3; ++had) {
			a = v;
			vector<i32> at(had * 3, 5);
			mt_sort::sort(at, a, up);
			if (!same(a, want)) c.fail("indexed", what + " gives " + show(a));
			if (at.size() != v.size()) c.fail("indexes", what + ": " + num((long long)at.size()) + " indexes");
			vector<bool> used(v.size());
			for (size_t i = 0; i < at.size(); ++i) {
				if (at[i] < 0 || at[i] >= (int)v.size() || used[at[i]] || !(v[at[i]] == a[i])) c.fail("indexes", what + ": indexes " + show(at));
				used[at[i]] = true;
				// equal elements keep their order
				if (i && a[i] == a[i - 1] && at[i] < at[i - 1]) c.fail("stable", what + ": indexes " + show(at));
			}
		}
		c.transitions += 5;
	}
	if (length > 1) c.nontrivial++;
	u64 h = length; for (auto& x : v) h = h * 31 + std::hash<T>()(x);
	c.outcome(h);
}
static void sorting(Ctx& c) {
	switch (c.choose(4)) {
	case 0: sorting_of<i32>(c, 5, c.thorough ? 8 : 6); break;
	case 1: sorting_of<u8>(c, 3, c.thorough ? 11 : 9); break;
	case 2: sorting_of<f64>(c, c.thorough ? 8 : 6, 6); break;
	default: sorting_of<string>(c, 5, c.thorough ? 7 : 5);
	}
}
// all orders of distinct elements: the deeper heaps
static void permutations(Ctx& c) {
	int length = 7 + c.choose(c.thorough ? 4 : 3);
	vector<i32> left, v;
	for (int i = 0; i < length; ++i) left.push_back(i * i - 9);
	for (int i = 0; i < length; ++i) { int k = c.choose((int)left.size()); v.push_back(left[k]); left.erase(left.begin() + k); if (i == 3 && !c.shard()) return; }
	vector<i32> up = ordered(v, true), down = ordered(v, false), a = v;
	mt_sort::heap_sort(a, sys_true);
	if (!same(a, up)) c.fail("heap", show(v) + " upwards gives " + show(a));
	a = v;
	mt_sort::heap_sort(a, sys_false);
	if (!same(a, down)) c.fail("heap", show(v) + " downwards gives " + show(a));
	for (int k = 1; k <= length; k += 2) {
		mt_top_k<i32> big(k), small(k, sys_false);
		for (i32 x : v) big.traverse(x), small.traverse(x);
		if (!same(ordered(big.get_top_k(), false), vector<i32>(down.begin(), down.begin() + k))) c.fail("largest", num(k) + " of " + show(v) + " are " + show(big.get_top_k()));
		if (!same(ordered(small.get_top_k(), true), vector<i32>(up.begin(), up.begin() + k))) c.fail("smallest", num(k) + " of " + show(v) + " are " + show(small.get_top_k()));
	}
	c.transitions += 4; c.nontrivial++;
	u64 h = 0; for (i32 x : v) h = h * 131 + (u32)x;
	c.outcome(h);
}
template<class T> static void top_of(Ctx& c, int alphabet, int longest) {
	int length = c.choose(longest + 1);
	vector<T> v = sequence<T>(c, length, alphabet);
	if (!c.shard()) return;
	for (int k = 1; k <= longest + 1; ++k) for (int big = 0; big < 2; ++big) {
		mt_top_k<T> top(k, big);
		// what it holds is right after every element
		for (int i = 0; i <= length; ++i) {
			if (i) top.traverse(v[i - 1]);
			vector<T> want = ordered(vector<T>(v.begin(), v.begin() + i), !big), sorted;
			if ((int)want.size() > k) want.resize(k);
			string what = num(k) + (big ? " largest of the first " : " smallest of the first ") + num(i) + " of " + show(v);
			if (!same(ordered(top.get_top_k(), !big), want)) c.fail("held", what + " are " + show(top.get_top_k()));
			sorted.assign(i % 3, T());
			top.get_sorted_top_k(sorted);
			if (!same(sorted, want)) c.fail("sorted", what + " sorted are " + show(sorted));
			c.transitions++;
		}
	}
	if (length > 1) c.nontrivial++;
	u64 h = length; for (auto& x : v) h = h * 31 + std::hash<T>()(x);
	c.outcome(h);
}
static void top(Ctx& c) {
	switch (c.choose(4)) {
	case 0: top_of<i32>(c, 5, c.thorough ? 7 : 5); break;
	case 1: top_of<u8>(c, 3, c.thorough ? 9 : 7); break;
	case 2: top_of<f64>(c, 6, c.thorough ? 6 : 5); break;
	default: top_of<string>(c, 4, c.thorough ? 6 : 5);
	}
}
template<class T> static void choosing_of(Ctx& c, int alphabet, int longest, bool negatable) {
	int length = 1 + c.choose(longest);
	vector<T> v;
	for (int i = 0; i < length; ++i) { T x = Values<T>::of(c.choose(alphabet)); if ((double)x == -2147483648.0) x = (T)(x + 1); v.push_back(x); }
	if (!c.shard()) return;
	vector<T> up = ordered(v, true);
	T mid = up[(length - 1) / 2];
	string what = show(v);
	if (!(mt_helper::median_with_unchanged_order(v) == mid)) c.fail("median", what);
	vector<T> a = v;
	if (!(mt_helper::median_with_changed_order(a) == mid)) c.fail("median", what);
	if (!same(ordered(a, true), up)) c.fail("median elements", what);
	if (!(mt_helper::compute_min<T>(length, &v[0]) == up[0]) || !(mt_helper::compute_max<T>(length, &v[0]) == up[length - 1])) c.fail("extremes", what);
	int lo = mt_helper::index_of_min_value<T>(length, &v[0]), hi = mt_helper::index_of_max_value<T>(length, &v[0]);
	int wlo = 0, whi = 0;
	for (int i = 1; i < length; ++i) { if (v[i] < v[wlo]) wlo = i; if (v[whi] < v[i]) whi = i; }
	if (lo != wlo || hi != whi) c.fail("positions", what + ": smallest at " + num(lo) + ", largest at " + num(hi));
	if (negatable) {
		T least = v[0] < 0 ? (T)-v[0] : v[0], least_of = v[0];
		for (int i = 1; i < length; ++i) { T m = v[i] < 0 ? (T)-v[i] : v[i]; if (m < least) { least = m; least_of = v[i]; } }
		if (!(mt_helper::compute_abs_min<T>(&v[0], length) == least)) c.fail("smallest magnitude", what);
		if (!(mt_helper::compute_min_in_abs<T>(&v[0], length) == least_of)) c.fail("value of the smallest magnitude", what);
	}
	for (int i = 0; i < length; ++i) for (int j = 0; j < length; ++j) {
		if (!(mt_helper::max(v[i], v[j]) == (v[i] < v[j] ? v[j] : v[i])) || !(mt_helper::min(v[i], v[j]) == (v[i] < v[j] ? v[i] : v[j]))) c.fail("extremes", what);
	}
	c.transitions += 8;
	if (length > 1) c.nontrivial++;
	u64 h = length; for (auto& x : v) h = h * 31 + std::hash<T>()(x);
	c.outcome(h);
}
static void choosing(Ctx& c) {
	switch (c.choose(3)) {
	case 0: choosing_of<i32>(c, 5, c.thorough ? 8 : 6, true); break;
	case 1: choosing_of<u8>(c, 4, c.thorough ? 9 : 7, false); break;
	default: choosing_of<f64>(c, 7, c.thorough ? 6 : 5, true);
	}
}
template<class T> static void substring_of(Ctx& c, int alphabet, int longest) {
	int n = 1 + c.choose(longest), m = 1 + c.choose(longest);
	vector<T> a = sequence<T>(c, n, alphabet);
	if (!c.shard()) return;
	vector<T> b = sequence<T>(c, m, alphabet);
	mt_longest_common_substring<T> s(a, b);
	int best = 0;
	std::set<std::pair<int, int>> where;
	for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
		int l = 0;
		while (i + l < n && j + l < m && a[i + l] == b[j + l]) ++l;
		if (l > best) best = l, where.clear();
		if (l == best && l) where.insert({ i, j });
	}
	string what = show(a) + " and " + show(b);
	if (s.length() != best) c.fail("length", what + ": " + num(s.length()));
	if (best ? !where.count({ s.a_begin_index(), s.b_begin_index() }) : s.a_begin_index() != -1 || s.b_begin_index() != -1) c.fail("place", what + ": " + num(s.a_begin_index()) + " and " + num(s.b_begin_index()));
	vector<i32> as(2, 77), bs(1, 77);
	s.all_a_begin_index(as);
	s.all_b_begin_index(bs);
	if (as.size() != where.size() || bs.size() != where.size()) c.fail("places", what + ": " + show(as) + " and " + show(bs));
	for (size_t i = 0; i < as.size(); ++i) if (!where.erase({ as[i], bs[i] })) c.fail("places", what + ": " + show(as) + " and " + show(bs));
	c.transitions++;
	if (best) c.nontrivial++;
	u64 h = n * 64 + m; for (auto& x : a) h = h * 31 + std::hash<T>()(x); for (auto& x : b) h = h * 37 + std::hash<T>()(x);
	c.outcome(h);
}
static void substring(Ctx& c) {
	switch (c.choose(3)) {
	case 0: substring_of<i32>(c, 2, c.thorough ? 8 : 6); break;
	case 1: substring_of<u8>(c, 3, c.thorough ? 6 : 4); break;
	default: substring_of<string>(c, 4, c.thorough ? 5 : 3);
	}
}
template<class T> static void run_of(Ctx& c, const vector<T>& alphabet, int longest) {
	int n = 1 + c.choose(longest);
	vector<T> v;
	for (int i = 0; i < n; ++i) v.push_back(alphabet[c.choose((int)alphabet.size())]);
	if (!c.shard()) return;
	mt_max_sum_for_continuous_element<T> s(v);
	T best = v[0];
	for (int i = 0; i < n; ++i) { T sum = 0; for (int j = i; j < n; ++j) { sum += v[j]; if (best < sum) best = sum; } }
	string what = show(v) + ": " + num((long long)s.max_sum()) + " of " + num(s.length()) + " at " + num(s.begin_index());
	if (!(s.max_sum() == best)) c.fail("sum", what);
	if (s.length() < 1 || s.begin_index() < 0 || s.begin_index() + s.length() > n) c.fail("range", what);
	T sum = 0;
	for (int i = 0; i < s.length(); ++i) sum += v[s.begin_index() + i];
	if (!(sum == best)) c.fail("range", what);
	c.transitions++;
	if (n > 1) c.nontrivial++;
	u64 h = n; for (auto& x : v) h = h * 31 + std::hash<T>()(x);
	c.outcome(h);
}
static void runs(Ctx& c) {
	switch (c.choose(3)) {
	case 0: run_of<i32>(c, { 0, 1, -1, 3, -4 }, c.thorough ? 9 : 7); break;
	case 1: run_of<i64>(c, { 5000000000LL, -2, -5000000001LL, 1 }, c.thorough ? 9 : 7); break;
	default: run_of<f64>(c, { 0.5, -0.25, -1, 2, 0 }, c.thorough ? 8 : 6);
	}
}
template<class W, class V> static void bag_of(Ctx& c, const vector<W>& weights, const vector<V>& values, const vector<W>& limits, int most) {
	int n = c.choose(most + 1);
	vector<W> w; vector<V> v;
	for (int i = 0; i < n; ++i) { w.push_back(weights[c.choose((int)weights.size())]); v.push_back(values[c.choose((int)values.size())]); }
	if (!c.shard()) return;
	for (W limit : limits) {
		mt_01_bag<W, V> bag(w, v, limit);
		V best = 0;
		for (int set = 0; set < (1 << n); ++set) {
			W weight = 0; V value = 0;
			for (int i = 0; i < n; ++i) if (set >> i & 1) weight += w[i], value += v[i];
			if (!(limit < weight) && best < value) best = value;
		}
		std::ostringstream o;
		o << "weights " << show(w) << " values " << show(v) << " limit " << limit << " gives " << bag.max_value();
		if (!(bag.max_value() == best)) c.fail("value", o.str());
		const vector<b8>& f = bag.flag_01();
		if ((int)f.size() != n) c.fail("choice", o.str());
		W weight = 0; V value = 0;
		for (int i = 0; i < n; ++i) if (f[i]) weight += w[i], value += v[i];
		if (limit < weight || !(value == best)) c.fail("choice", o.str());
		c.transitions++;
	}
	if (n > 1) c.nontrivial++;
	u64 h = n; for (int i = 0; i < n; ++i) h = (h * 31 + std::hash<W>()(w[i])) * 31 + std::hash<V>()(v[i]);
	c.outcome(h);
}
static void bag(Ctx& c) {
	switch (c.choose(3)) {
	case 0: bag_of<i32, i32>(c, { 1, 2, 3, 0 }, { 1, 2, 5 }, { 0, 1, 2, 3, 4, 5, 6, 7, 20 }, c.thorough ? 5 : 4); break;
	case 1: bag_of<f64, i32>(c, { 0.5, 1.25, 2 }, { 3, 1, 4 }, { 0.25, 0.5, 1.75, 2, 2.5, 3.25, 100 }, c.thorough ? 5 : 4); break;
	default: bag_of<i32, f64>(c, { 2, 3, 5 }, { 0.5, 0.75, 1.25, 0 }, { 0, 2, 4, 5, 7, 8, 10, 13 }, c.thorough ? 5 : 4);
	}
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups = { { "sort", sorting }, { "permutations", permutations }, { "top", top }, { "select", choosing }, { "substring", substring }, { "run", runs }, { "bag", bag } };
	return run(s, argc, argv);
}
