// S01: what the JSON writer wrote, the JSON reader gives back, through every kind of buffer and every way of reading.
#include "repo.h"
#include "mc.h"
#include <math.h>
#include <memory>
using namespace mc;

enum Kind { Text, B8, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, Map, Seq };
struct Val {
	Kind k;
	string s;
	long long i;
	double d;
	vector<pair<string, Val> > kids;
	Val(const string& t) : k(Text), s(t), i(0), d(0) {}
	Val(Kind kk = Map) : k(kk), i(0), d(0) {}
	Val(Kind kk, long long v) : k(kk), i(v), d(0) {}
	Val(Kind kk, double v) : k(kk), i(0), d(v) {}
	bool leaf() const { return k < Map; }
	void add(const string& key, const Val& v) { kids.push_back(make_pair(key, v)); }
	void add(const Val& v) { kids.push_back(make_pair(string(), v)); }
};
static const char* kname[] = {"text", "b8", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "map", "seq"};
static string show(const Val& v) {
	char b[64];
	if (v.k == Text) return jstr(head(v.s, 80));
	if (v.k == F32 || v.k == F64) { snprintf(b, 64, "%s:%.17g", kname[v.k], v.d); return b; }
	if (v.leaf()) { if (v.k == U64) snprintf(b, 64, "u64:%llu", v.i); else snprintf(b, 64, "%s:%lld", kname[v.k], v.i); return b; }
	string s = v.k == Map ? "{" : "[";
	for (size_t i = 0; i < v.kids.size() && i < 12; ++i) { if (i) s += ", "; if (v.k == Map) s += jstr(head(v.kids[i].first, 40)) + ": "; s += show(v.kids[i].second); }
	return s + (v.kids.size() > 12 ? ", .." : "") + (v.k == Map ? "}" : "]");
}

static void put(sys_json_writer& w, const Val& v);
static void put_kids(sys_json_writer& w, const Val& v) {
	for (size_t i = 0; i < v.kids.size(); ++i) {
		if (v.k == Map) w << v.kids[i].first;
		put(w, v.kids[i].second);
	}
}
static void put(sys_json_writer& w, const Val& v) {
	switch (v.k) {
	case Text: w << v.s; break;
	case B8: w << b8(v.i != 0); break;
	case I8: w << (i8)v.i; break;
	case U8: w << (u8)v.i; break;
	case I16: w << (i16)v.i; break;
	case U16: w << (u16)v.i; break;
	case I32: w << (i32)v.i; break;
	case U32: w << (u32)v.i; break;
	case I64: w << (i64)v.i; break;
	case U64: w << (u64)v.i; break;
	case F32: w << (f32)v.d; break;
	case F64: w << (f64)v.d; break;
	case Map: w << "{"; put_kids(w, v); w << "}"; break;
	case Seq: w << "["; put_kids(w, v); w << "]"; break;
	}
}

struct Bad { string what; };
static void need(bool ok, const string& what) { if (!ok) { Bad b; b.what = what; throw b; } }

template <class T> static T get(const sys_json_reader& r) { T t = T(); r >> t; return t; }
static bool real_ok(double got, double want, bool text, bool f32v) {
	if (f32v) want = (f32)want;
	if (got == want) return true;
	if (!text) return false;
	double half = f32v ? 0.5000001e-7 : 0.5000001e-16;
	double ulp = f32v ? fabs(want) * 1.2e-7 : fabs(want) * 2.3e-16;
	return fabs(got - want) <= half + ulp;
}
static void leaf(const sys_json_reader& r, const Val& v, bool text) {
	switch (v.k) {
	case Text: { string s = "left over"; r >> s; need(s == v.s, "text " + jstr(s)); need(r.to_string() == v.s, "to_string"); need(get<string>(r) == v.s, "second reading"); break; }
	case B8: need((bool)(u8)get<b8>(r) == (v.i != 0), "b8"); need((bool)(u8)sys_json_reader(r).to_b8() == (v.i != 0), "to_b8"); break;
	case I8: need(get<i8>(r) == (i8)v.i, "i8"); break;
	case U8: need(get<u8>(r) == (u8)v.i, "u8"); break;
	case I16: need(get<i16>(r) == (i16)v.i, "i16"); break;
	case U16: need(get<u16>(r) == (u16)v.i, "u16"); break;
	case I32: need(get<i32>(r) == (i32)v.i, "i32"); need(r.to_i32() == (i32)v.i, "to_i32"); need(get<f64>(r) == (f64)v.i, "i32 as f64"); need(get<i64>(r) == v.i, "i32 as i64"); break;
	case U32: need(get<u32>(r) == (u32)v.i, "u32"); break;
	case I64: need(get<i64>(r) == (i64)v.i, "i64"); break;
	case U64: need(get<u64>(r) == (u64)v.i, "u64"); break;
	case F32: need(real_ok(get<f32>(r), v.d, text, true), "f32"); break;
	case F64: need(real_ok(get<f64>(r), v.d, text, false), "f64"); break;
	default: break;
	}
	need(!r.is_map() && !r.is_seq() && r.size() == 1, "leaf kind");
	if (v.k == Text) { vector<string> one(2, "old"); r >> one; need(one.size() == 1 && one[0] == v.s, "single text as vector"); }
	if (v.k == I32) { vector<i32> one(2, 77); r >> one; need(one.size() == 1 && one[0] == (i32)v.i, "single number as vector"); }
}
template <class T> static bool typed(const sys_json_reader& r, const Val& v, Kind k, T (*conv)(const Val&)) {
	if (v.kids.empty()) return true;
	for (size_t i = 0; i < v.kids.size(); ++i) if (v.kids[i].second.k != k) return true;
	if (v.k == Seq) {
		vector<T> got(3, T());
		r >> got;
		if (got.size() != v.kids.size()) return false;
		for (size_t i = 0; i < got.size(); ++i) if (got[i] != conv(v.kids[i].second)) return false;
		if (v.kids.size() == 1) { T one = T(); r >> one; if (one != conv(v.kids[0].second)) return false; }
	} else {
		map<string, T> got;
		got["left over"] = T();
		r >> got;
		if (got.size() != v.kids.size()) return false;
		for (size_t i = 0; i < v.kids.size(); ++i) if (!got.count(v.kids[i].first) || got[v.kids[i].first] != conv(v.kids[i].second)) return false;
	}
	return true;
}
static string c_text(const Val& v) { return v.s; }
static i32 c_i32(const Val& v) { return (i32)v.i; }
static i64 c_i64(const Val& v) { return (i64)v.i; }
static u64 c_u64(const Val& v) { return (u64)v.i; }
static i8 c_i8(const Val& v) { return (i8)v.i; }
static u16 c_u16(const Val& v) { return (u16)v.i; }

static void look(const sys_json_reader& r, const Val& v, bool text, bool deep) {
	if (v.leaf()) { leaf(r, v, text); return; }
	need((bool)(u8)r.is_map() == (v.k == Map) && (bool)(u8)r.is_seq() == (v.k == Seq), "kind of node");
	need(r.size() == (i32)v.kids.size(), "size");
	// one by one, last first
	for (size_t n = v.kids.size(); n-- > 0;) {
		const string& key = v.kids[n].first;
		if (v.k == Map) {
			need(r.has_key(key), "has_key " + key);
			sys_json_reader kid = r[key];
			need(kid.node_name() == key, "name of node " + key);
			look(kid, v.kids[n].second, text, deep);
		} else {
			look(r[(i32)n], v.kids[n].second, text, deep);
		}
	}
	if (v.k == Map) need(!r.has_key("absent") && !r.has_key(""), "has_key of an absent key");
	if (!deep) return;
	// all of them, forwards and backwards
	std::map<string, const Val*> sorted;
	if (v.k == Map) for (size_t i = 0; i < v.kids.size(); ++i) sorted[v.kids[i].first] = &v.kids[i].second;
	vector<const Val*> order;
	vector<string> names;
	if (v.k == Map) for (std::map<string, const Val*>::iterator i = sorted.begin(); i != sorted.end(); ++i) { order.push_back(i->second); names.push_back(i->first); }
	else for (size_t i = 0; i < v.kids.size(); ++i) { order.push_back(&v.kids[i].second); names.push_back(""); }
	size_t n = 0;
	for (sys_json_reader_iteartor i = r.begin(); i != r.end(); n % 2 ? (void)i++ : (void)++i) {
		need(n < order.size(), "iterates past the last node");
		need((*i).node_name() == names[n], "iteration order");
		look(*i, *order[n], text, false);
		++n;
	}
	need(n == order.size(), "iteration ends early");
	sys_json_reader_iteartor i = r.end();
	while (n-- > 0) {
		if (n % 2) i--; else --i;
		look(*i, *order[n], text, false);
	}
	need(i == r.begin(), "backwards iteration ends elsewhere");
	if (v.k == Seq && v.kids.size() > 1) {
		sys_json_reader_iteartor j = r.begin();
		j += (int)v.kids.size() - 1;
		look(*j, *order.back(), text, false);
		j -= (int)v.kids.size() - 1;
		need(j == r.begin(), "jumps of an iterator");
	}
	need(typed<string>(r, v, Text, c_text), "container of texts");
	need(typed<i32>(r, v, I32, c_i32), "container of i32");
	need(typed<i64>(r, v, I64, c_i64), "container of i64");
	need(typed<u64>(r, v, U64, c_u64), "container of u64");
	need(typed<i8>(r, v, I8, c_i8), "container of i8");
	need(typed<u16>(r, v, U16, c_u16), "container of u16");
}

// sequences of the text kinds hold nodes of one kind only: all plain, all maps or all sequences
static bool text_ok(const Val& v) {
	for (size_t i = 0; i < v.kids.size(); ++i) {
		const Val& k = v.kids[i].second;
		if (v.k == Seq && i && (k.leaf() ? 0 : (int)k.k) != (v.kids[0].second.leaf() ? 0 : (int)v.kids[0].second.k)) return false;
		if (!text_ok(k)) return false;
	}
	return true;
}

static string file_name() { char b[32]; snprintf(b, sizeof b, "/j%d", (int)getpid()); return run_dir() + b; }

struct Store {      // one of the four kinds of buffer, first for writing and then for reading
	int kind;
	string text;
	vector<u8> bytes;
	std::unique_ptr<sys_buffer_writer> w;
	std::unique_ptr<sys_buffer_reader> r;
	Store(int k) : kind(k) {
		if (k == 0) w.reset(new sys_string_buffer_writer(&text));
		if (k == 1) w.reset(new sys_byte_buffer_writer(&bytes));
		if (k == 2) w.reset(new sys_string_file_buffer_writer(file_name()));
		if (k == 3) w.reset(new sys_byte_file_buffer_writer(file_name()));
	}
	~Store() { if (kind > 1) remove(file_name().c_str()); }
	bool is_text() const { return kind == 0 || kind == 2; }
	void turn() {
		w->close();
		need(w->get_status() == sys_IO_Status_OK, "status after writing");
		if (kind == 0) r.reset(new sys_string_buffer_reader(text));
		if (kind == 1) r.reset(new sys_byte_buffer_reader(bytes.data(), bytes.data() + bytes.size()));
		if (kind == 2) r.reset(new sys_string_file_buffer_reader(file_name()));
		if (kind == 3) r.reset(new sys_byte_file_buffer_reader(file_name()));
	}
};
static const char* store_name[] = {"string buffer", "byte buffer", "string file", "byte file"};

static void round_trip(Ctx& c, const Val& doc) {
	for (int kind = 0; kind < 4; ++kind) {
		Store st(kind);
		if (st.is_text() && !text_ok(doc)) continue;
		c.transitions++;
		try {
			{
				sys_json_writer w(st.w.get(), doc.k == Map);
				put_kids(w, doc);
			}
			st.turn();
			sys_json_reader first(st.r.get(), "", 0, -1, doc.k == Map ? sys_Node_Type_Map : sys_Node_Type_Seq);
			look(first, doc, st.is_text(), true);
			// a second reader on the same buffer, which stands wherever the first one left it, used by turns with the first one
			sys_json_reader second(st.r.get(), "", 0, -1, doc.k == Map ? sys_Node_Type_Map : sys_Node_Type_Seq);
			look(second, doc, st.is_text(), false);
			look(first, doc, st.is_text(), false);
			need(st.r->get_status() == sys_IO_Status_OK, "status after reading");
		} catch (Bad& b) {
			c.fail("json round trip", string(store_name[kind]) + ": " + b.what + " of " + show(doc));
		}
	}
	c.nontrivial++;
	c.outcome(hash_bytes(show(doc).data(), show(doc).size()));
}

static const char* LEAFS[] = {"", "b", "c:d e", "-17"};
static const char* KEYS[] = {"k", "q w", "A", "kk", "0", "z", "zz", "k k"};
// every document with n nodes below v
static void grow(Ctx& c, Val& v, int& left, int depth, int leafs) {
	while (left > 0) {
		int what = c.choose(depth > 0 ? 3 + leafs : 1 + leafs);
		if (what == 0) return;                       // no more nodes here
		--left;
		string key = v.k == Map ? KEYS[v.kids.size() % 8] : "";
		if (what <= leafs) { v.add(key, Val(string(LEAFS[what - 1]))); continue; }
		Val kid(what == leafs + 1 ? Map : Seq);
		grow(c, kid, left, depth - 1, leafs);
		v.add(key, kid);
	}
}

struct Scalars { vector<Val> all; Scalars() {
	const char* t[] = {"", "a", " ", "x y ", " lead", "true", "0", "a:b:c", ":", "\xe9\x98\x9c\xe9\x98\xb3", "\r", "\\", "\"q\"", ",", "=", "/", "%s%d%n"};
	for (size_t i = 0; i < sizeof t / sizeof *t; ++i) all.push_back(Val(string(t[i])));
	all.push_back(Val(string("n\0l", 3)));
	all.push_back(Val(B8, 0ll)); all.push_back(Val(B8, 1ll));
	long long e[] = {0, 1, 9, 10, 65, 123, 127};
	for (int i = 0; i < 7; ++i) for (int k = I8; k <= U64; ++k) all.push_back(Val((Kind)k, e[i]));
	long long n[] = {-1, -9, -128};
	for (int i = 0; i < 3; ++i) { all.push_back(Val(I8, n[i])); all.push_back(Val(I16, n[i])); all.push_back(Val(I32, n[i])); all.push_back(Val(I64, n[i])); }
	all.push_back(Val(U8, 128ll)); all.push_back(Val(U8, 200ll)); all.push_back(Val(U8, 255ll));
	all.push_back(Val(I16, 32767ll)); all.push_back(Val(I16, -32768ll)); all.push_back(Val(U16, 32768ll)); all.push_back(Val(U16, 65535ll));
	all.push_back(Val(I32, 2147483647ll)); all.push_back(Val(I32, -2147483648ll)); all.push_back(Val(U32, 2147483648ll)); all.push_back(Val(U32, 4294967295ll));
	all.push_back(Val(I64, 9223372036854775807ll)); all.push_back(Val(I64, (long long)0x8000000000000000ull)); all.push_back(Val(I64, 9007199254740993ll)); all.push_back(Val(I64, -4294967297ll));
	all.push_back(Val(U64, (long long)0x8000000000000000ull)); all.push_back(Val(U64, -1ll)); all.push_back(Val(U64, 9007199254740993ll));
	double d[] = {0, -0.5, 1, 0.1, 1.0 / 3, -123456.789, 16777217, 1e-3, 3e7, -2.5e-7, 3e38, 1e-20};
	for (size_t i = 0; i < sizeof d / sizeof *d; ++i) { all.push_back(Val(F32, d[i])); all.push_back(Val(F64, d[i])); }
	all.push_back(Val(F64, 1e300)); all.push_back(Val(F64, 4503599627370497.5)); all.push_back(Val(F64, -1.7976931348623157e308)); all.push_back(Val(F64, 0.1234567890123456));
} };

// containers written and read as a whole
template <class T> static void whole(Ctx& c, const T& v, const string& what) {
	for (int kind = 0; kind < 4; ++kind) {
		c.transitions++;
		try {
			Store st(kind);
			{ sys_json_writer w(st.w.get()); w << "before" << 1 << "v" << v << "after" << string("x"); }
			st.turn();
			sys_json_reader r(st.r.get());
			T got;
			r["v"] >> got;
			need(got == v, "value");
			r["v"] >> got;
			need(got == v, "value read twice into the same variable");
			need(get<i32>(r["before"]) == 1 && r["after"].to_string() == "x", "neighbours");
		} catch (Bad& b) { c.fail("json container round trip", string(store_name[kind]) + ": " + b.what + " of " + what); }
	}
	c.nontrivial++;
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { log_logger::release(); };
	for (int n = 1; n <= 6; ++n) {
		char b[80];
		snprintf(b, sizeof b, "documents with at most %d nodes below the root, depth 4", n);
		if (n != 4 && n != 5 && n != 6) continue;
		s.groups.push_back(Group(b, [n](Ctx& c) {
			Val doc(c.choose(2) ? Map : Seq);
			int left = n;
			grow(c, doc, left, 3, n == 4 ? 4 : n == 5 ? 3 : 2);
			if (!c.shard()) return;
			// a sequence without an end that holds only empty texts reads as an empty one
			if (doc.k == Seq) { bool e = true; for (size_t i = 0; i < doc.kids.size(); ++i) if (doc.kids[i].second.k != Text || !doc.kids[i].second.s.empty()) e = false; if (e) return; }
			round_trip(c, doc);
			if (c.want_sample()) c.sample(show(doc));
		}, n < 6));
	}
	s.groups.push_back(Group("pairs of values in a map, a sequence and a nested map", [](Ctx& c) {
		static Scalars S;
		int i = c.choose((int)S.all.size()), j = c.choose((int)S.all.size()), where = c.choose(4);
		if (!c.shard()) return;
		Val doc(where == 3 ? Seq : Map);
		if (where == 0) { doc.add("a", S.all[i]); doc.add("b", S.all[j]); }
		if (where == 1) { Val q(Seq); q.add(S.all[i]); q.add(S.all[j]); doc.add("q", q); doc.add("z", S.all[i]); }
		if (where == 2) { Val q(Seq), m(Map); m.add("a", S.all[i]); m.add("b", S.all[j]); q.add(m); m = Val(Map); m.add("a", S.all[j]); q.add(m); doc.add("q", q); }
		if (where == 3) { if (S.all[i].k == Text && S.all[i].s.empty() && S.all[j].k == Text && S.all[j].s.empty()) return; doc.add(S.all[i]); doc.add(S.all[j]); }
		round_trip(c, doc);
	}));
	s.groups.push_back(Group("every character in texts and keys", [](Ctx& c) {
		int ch = c.choose(256), form = c.choose(4);
		if (!c.shard()) return;
		if (strchr("\n\t{}[]", ch) && ch) return;
		string one(1, (char)ch), t = form == 0 ? one : form == 1 ? "a" + one : form == 2 ? one + "a" : one + one + "b" + one;
		Val doc(Map), q(Seq);
		q.add(Val(t)); q.add(Val(string("y"))); q.add(Val(t));
		doc.add("first", Val(t));
		if (ch != ':') doc.add(t, Val(string("v")));
		doc.add("list", q);
		round_trip(c, doc);
	}));
	s.groups.push_back(Group("long texts, wide and deep documents", [](Ctx& c) {
		int kind = c.choose(5), size = c.choose(14);
		if (!c.shard()) return;
		static const int N[] = {1, 2, 15, 16, 17, 63, 127, 128, 255, 256, 1000, 4095, 4096, 4097};
		int n = N[size];
		Val doc(Map);
		if (kind == 0) { string t; for (int i = 0; i < n * 16; ++i) t += (char)('a' + i % 26); doc.add("t", Val(t)); doc.add("u", Val(string("u"))); Val q(Seq); q.add(Val(t)); q.add(Val(t)); doc.add("q", q); }
		if (kind == 1) { if (n > 1000) return; Val q(Seq); for (int i = 0; i < n; ++i) q.add(Val(I32, (long long)i * 7919 - 1000)); doc.add("q", q); }
		if (kind == 2) { if (n > 1000) return; for (int i = 0; i < n; ++i) { char b[16]; snprintf(b, 16, "key %d", i); doc.add(b, Val(U64, (long long)i * 1000003)); } }
		if (kind == 3) { if (n > 64) return; Val v(string("leaf")); for (int i = 0; i < n; ++i) { Val o(i % 3 == 1 ? Map : Seq); if (o.k == Map) o.add("d", v); else { o.add(v); } v = o; } doc.add("deep", v); doc.add("x", Val(string("y"))); }
		if (kind == 4) { if (n > 64) return; Val v(string("leaf")); for (int i = 0; i < n; ++i) { Val o(Map); o.add("b", Val(I32, (long long)i)); o.add("d", v); o.add("e", Val(Seq)); v = o; } doc.add("deep", v); }
		for (int k = 0; k < 4; ++k) {
			Store st(k);
			c.transitions++;
			try {
				{ sys_json_writer w(st.w.get()); put_kids(w, doc); }
				st.turn();
				sys_json_reader r(st.r.get());
				look(r, doc, st.is_text(), n <= 256 && kind < 3);
			} catch (Bad& b) { c.fail("json round trip", string(store_name[k]) + ": " + b.what + " of " + head(show(doc), 300)); }
		}
		c.nontrivial++;
	}));
	s.groups.push_back(Group("documents one after another in a buffer", [](Ctx& c) {
		int prefix = c.choose(3), docs = 1 + c.choose(3), moved = c.choose(4), kind = c.choose(4);
		vector<Val> d;
		for (int k = 0; k < docs; ++k) {
			int t = c.choose(4);
			Val v(Map);
			if (t == 1) { v.add("a", Val(string("one"))); v.add("n", Val(I32, 5ll)); }
			if (t == 2) { Val q(Seq); q.add(Val(string("x"))); q.add(Val(string(""))); v.add("q", q); v.add("e", Val(Map)); }
			if (t == 3) { Val m(Map), q(Seq); m.add("f", Val(F64, 0.5)); q.add(m); q.add(m); v.add("q", q); }
			d.push_back(v);
		}
		if (!c.shard()) return;
		c.transitions++;
		try {
			Store st(kind);
			vector<i64> from, to;
			if (prefix == 1) st.w->write((u8)7);
			if (prefix == 2) st.w->write(string("some other data\n"));
			for (int k = 0; k < docs; ++k) {
				from.push_back(st.w->position());
				sys_json_writer w(st.w.get());
				put_kids(w, d[k]);
				to.push_back(st.w->position());
			}
			st.turn();
			if (moved) st.r->seek(moved == 1 ? st.r->size() : moved == 2 ? st.r->size() / 2 : 1, sys_File_Seek_Set);
			vector<sys_json_reader> r;
			for (int k = 0; k < docs; ++k) r.push_back(k == docs - 1 ? sys_json_reader(st.r.get(), "", from[k]) : sys_json_reader(st.r.get(), "", from[k], (i32)(to[k] - from[k])));
			for (int k = docs; k-- > 0;) look(r[k], d[k], st.is_text(), true);
			for (int k = 0; k < docs; ++k) look(r[k], d[k], st.is_text(), false);
		} catch (Bad& b) {
			string t;
			for (int k = 0; k < docs; ++k) t += " " + show(d[k]);
			c.fail("json documents in one buffer", string(store_name[kind]) + ": " + b.what + " of" + t);
		}
		c.nontrivial++;
	}));
	s.groups.push_back(Group("containers of values written and read whole", [](Ctx& c) {
		int kind = c.choose(6), n = c.choose(4), m = c.choose(4), salt = c.choose(3);
		if (!c.shard()) return;
		char b[80];
		snprintf(b, sizeof b, "kind %d sizes %d %d values %d", kind, n, m, salt);
		if (kind == 0) { vector<vector<i32> > v(n); for (int i = 0; i < n; ++i) for (int j = 0; j < (m + i * salt) % 4; ++j) v[i].push_back(i * 1000003 - j * salt); whole(c, v, b); }
		if (kind == 1) { vector<vector<string> > v(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v[i].push_back((i + j + salt) % 3 == 0 ? "" : string(i + j, 'x')); whole(c, v, b); }
		if (kind == 2) { map<string, vector<i64> > v; for (int i = 0; i < n; ++i) { vector<i64>& w = v[string(1 + i, 'k')]; for (int j = 0; j < m; ++j) w.push_back((i64)(i + 1) << (20 * j + salt)); } whole(c, v, b); }
		if (kind == 3) { vector<map<string, string> > v(n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v[i][string(1, (char)('a' + j))] = string(salt * i, 'v'); whole(c, v, b); }
		if (kind == 4) { vector<vector<vector<f64> > > v(n, vector<vector<f64> >(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < salt; ++k) v[i][j].push_back(i * 0.5 - j + k * 0.25); whole(c, v, b); }
		if (kind == 5) { map<string, map<string, vector<u8> > > v; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v[string(1, (char)('a' + i))][string(1, (char)('A' + j))] = vector<u8>(salt, (u8)(200 + i)); whole(c, v, b); }
	}));
	return run(s, argc, argv);
}
