// T04: a matrix saved and loaded again, through every kind of buffer, alone and inside documents
#include "mat_common.h"
#include <memory>

static string file_name() { char b[32]; snprintf(b, sizeof b, "/m%d", (int)getpid()); return run_dir() + b; }
// reals in text to the printed decimals
template<class T> static bool shown(T got, T want) {
	if (got == want) return true;
	double half = sizeof(T) == 4 ? 0.5000001e-7 : 0.5000001e-16, ulp = fabs((double)want) * (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16);
	return fabs((double)got - (double)want) <= half + ulp;
}

template<class T> static vector<T> special(int n, int salt) {
	vector<T> r, e;
	typedef std::numeric_limits<T> L;
	if (L::is_integer) { e = { (T)0, (T)1, L::max(), L::min(), (T)(L::max() - 1), (T)(L::min() + 1), (T)(L::max() / 2 + 1), (T)-1, (T)9, (T)10, (T)32, (T)127, (T)128, (T)'[', (T)'\n' }; }
	else e = { (T)0, (T)1, (T)-1.5, (T)0.125, (T)123456, (T)-0.0009765625, (T)(1.0 / 3), (T)1e10, (T)65535.5, L::max(), (T)-3.25e-5 };
	for (int i = 0; i < n; ++i) r.push_back(e[(i * 7 + salt) % e.size()]);
	return r;
}
template<class T> static void loaded(Ctx& c, const mt_mat& m, const Ints& size, int ch, const vector<T>& want, const string& what, bool text) {
	if (!has_shape(m, size, ch, Depth_Of<T>::d)) c.fail("shape", what);
	vector<T> got = values<T>(m, size, ch);
	for (size_t i = 0; i < want.size(); ++i) {
		bool ok = text && !std::is_integral<T>::value ? shown<T>(got[i], want[i]) : memcmp(&got[i], &want[i], sizeof(T)) == 0;
		if (!ok) c.fail("value", what + ": value " + num((int)i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]));
	}
	if (m.reference_number() != 1) c.fail("sharing", what);
}
template<class T> static void round_trip(Ctx& c, const Ints& size, int ch, int view, int salt) {
	int n = total(size) * ch;
	vector<T> v = special<T>(n, salt);
	mt_mat A = make_view(size, Depth_Of<T>::d, ch, view);
	fill(A, size, ch, v);
	string name = shape_name(size, ch, Depth_Of<T>::d, view);
	for (int kind = 0; kind < 4; ++kind) {
		bool text = kind % 2 == 0;
		string what = (kind == 0 ? "text file of " : kind == 1 ? "binary file of " : kind == 2 ? "text of " : "bytes of ") + name;
		mt_mat B;
		if (kind < 2) {
			mt_mat_helper::save(file_name(), A, text);
			B = mt_mat_helper::load(file_name(), text);
			loaded<T>(c, B, size, ch, v, what, text);
			// a shorter one over it
			mt_mat small(1, 1, mt_Depth_Channel(mt_U8, 1), 7);
			mt_mat_helper::save(file_name(), small, text);
			loaded<u8>(c, mt_mat_helper::load(file_name(), text), { 1, 1 }, 1, { 7 }, "over " + what, text);
			remove(file_name().c_str());
		} else {
			string s; vector<u8> b;
			{
				std::unique_ptr<sys_buffer_writer> w(text ? (sys_buffer_writer*)new sys_string_buffer_writer(&s) : new sys_byte_buffer_writer(&b));
				mt_mat_helper::save(w.get(), A);
				w->close();
			}
			std::unique_ptr<sys_buffer_reader> r(text ? (sys_buffer_reader*)new sys_string_buffer_reader(s) : new sys_byte_buffer_reader(b.data(), b.data() + b.size()));
			B = mt_mat_helper::load(r.get());
			loaded<T>(c, B, size, ch, v, what, text);
		}
		vector<T> after = values<T>(A, size, ch);
		if (after != v) c.fail("operand", what);
		c.transitions++;
	}
}
static const vector<Ints> SIZES = { { 1 }, { 5 }, { 3, 4 }, { 4, 1 }, { 1, 1 }, { 2, 3, 2 }, { 2, 1, 3, 2 }, { 1, 2, 1, 2, 3 }, { 2, 1, 1, 2, 1, 2 } };
static void all(Ctx& c) {
	int d = c.choose(10);
	const Ints& size = SIZES[c.choose((int)SIZES.size())];
	static const int chs[] = { 1, 2, 3, 5, 12 };
	int ch = chs[c.choose(5)], view = c.choose(VIEWS), salt = c.choose(c.thorough ? 15 : 3);
	if (!c.shard()) return;
	switch (d) {
	case mt_U8: round_trip<u8>(c, size, ch, view, salt); break;
	case mt_I8: round_trip<i8>(c, size, ch, view, salt); break;
	case mt_U16: round_trip<u16>(c, size, ch, view, salt); break;
	case mt_I16: round_trip<i16>(c, size, ch, view, salt); break;
	case mt_U32: round_trip<u32>(c, size, ch, view, salt); break;
	case mt_I32: round_trip<i32>(c, size, ch, view, salt); break;
	case mt_U64: round_trip<u64>(c, size, ch, view, salt); break;
	case mt_I64: round_trip<i64>(c, size, ch, view, salt); break;
	case mt_F32: round_trip<f32>(c, size, ch, view, salt); break;
	case mt_F64: round_trip<f64>(c, size, ch, view, salt); break;
	}
	c.nontrivial++;
	c.outcome(mix(mix(d, size.size() * 8 + size[0]), mix(ch * 8 + view, salt)));
}
// more than 65536 elements, sides beyond 32767
static void large(Ctx& c) {
	static const vector<Ints> S = { { 70001 }, { 2, 40000 }, { 40000, 2 }, { 301, 250 }, { 3, 5, 5001 } };
	const Ints& size = S[c.choose((int)S.size())];
	int d = c.choose(3), ch = 1 + d % 2, view = (d * 3 + size[0]) % VIEWS;
	if (!c.shard()) return;
	if (d == 0) round_trip<u8>(c, size, ch, view, 1);
	else if (d == 1) round_trip<i64>(c, size, ch, view, 1);
	else round_trip<f32>(c, size, ch, view, 1);
	c.nontrivial++;
	c.outcome(mix(mix(d, size.size() * 8 + size[0]), ch * 8 + view));
}
// several matrices and other values in one document, in every order of reading
struct Doc { vector<mt_mat> m; vector<int> kind; };
static mt_mat item(int kind) {
	switch (kind) {
	case 0: return mt_mat();
	case 1: { mt_mat m = make_view({ 2, 3 }, mt_I16, 2, 4); fill<i16>(m, { 2, 3 }, 2, special<i16>(12, 1)); return m; }
	case 2: { mt_mat m = make_view({ 3 }, mt_F64, 1, 2); fill<f64>(m, { 3 }, 1, { 0.5, -2, 7 }); return m; }
	default: { mt_mat m = make_view({ 2, 1, 2 }, mt_U64, 1, 0); fill<u64>(m, { 2, 1, 2 }, 1, special<u64>(4, 2)); return m; }
	}
}
static void check_item(Ctx& c, const mt_mat& m, int kind, const string& what, bool text) {
	switch (kind) {
	case 0: if (!m.is_empty() || m.dim() != 0) c.fail("empty", what); break;
	case 1: loaded<i16>(c, m, { 2, 3 }, 2, special<i16>(12, 1), what, text); break;
	case 2: loaded<f64>(c, m, { 3 }, 1, { 0.5, -2, 7 }, what, text); break;
	default: loaded<u64>(c, m, { 2, 1, 2 }, 1, special<u64>(4, 2), what, text);
	}
}
static void documents(Ctx& c) {
	int count = 1 + c.choose(3), kinds[3], form = c.choose(2), buffer = c.choose(4), order = c.choose(6);
	for (int i = 0; i < count; ++i) kinds[i] = c.choose(4);
	if (!c.shard()) return;
	bool text = buffer % 2 == 0;
	string s; vector<u8> b;
	string what = num(count) + (form ? " in a sequence" : " by name") + " in buffer " + num(buffer) + " of kinds";
	for (int i = 0; i < count; ++i) what += " " + num(kinds[i]);
	{
		std::unique_ptr<sys_buffer_writer> w;
		if (buffer == 0) w.reset(new sys_string_buffer_writer(&s));
		if (buffer == 1) w.reset(new sys_byte_buffer_writer(&b));
		if (buffer == 2) w.reset(new sys_string_file_buffer_writer(file_name()));
		if (buffer == 3) w.reset(new sys_byte_file_buffer_writer(file_name()));
		{
			sys_json_writer j(w.get());
			j << "before" << (i32)41;
			if (form) { j << "all" << "["; for (int i = 0; i < count; ++i) j << item(kinds[i]); j << "]"; }
			else for (int i = 0; i < count; ++i) j << "m" + num(i) << item(kinds[i]);
			j << "after" << (i32)42;
		}
		w->close();
	}
	{
		std::unique_ptr<sys_buffer_reader> r;
		if (buffer == 0) r.reset(new sys_string_buffer_reader(s));
		if (buffer == 1) r.reset(new sys_byte_buffer_reader(b.data(), b.data() + b.size()));
		if (buffer == 2) r.reset(new sys_string_file_buffer_reader(file_name()));
		if (buffer == 3) r.reset(new sys_byte_file_buffer_reader(file_name()));
		sys_json_reader j(r.get());
		static const int orders[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
		mt_mat target(4, 4, mt_Depth_Channel(mt_U8, 3), 9), keep = target;
		if (form == 1 && order == 0) {
			vector<mt_mat> v;
			j["all"] >> v;
			if ((int)v.size() != count) c.fail("number", what);
			for (int i = 0; i < count; ++i) check_item(c, v[i], kinds[i], what, text);
			v.clear();
		}
		for (int k = 0; k < 3; ++k) {
			int i = orders[order][k];
			if (i >= count) continue;
			// into a matrix that holds something, which others share
			if (form) j["all"][i] >> target; else j["m" + num(i)] >> target;
			check_item(c, target, kinds[i], what + ", element " + num(i), text);
			target = keep;
		}
		for (int y = 0; y < 4; ++y) for (int x = 0; x < 48 / 4; ++x) if (keep.data()[y * 12 + x] != 9) c.fail("sharing", what);
		i32 v = 0;
		j["after"] >> v;
		if (v != 42) c.fail("neighbour", what);
		j["before"] >> v;
		if (v != 41) c.fail("neighbour", what);
	}
	if (buffer > 1) remove(file_name().c_str());
	c.transitions++; c.nontrivial++;
	uint64_t h = count * 64 + form * 32 + buffer * 8 + order;
	for (int i = 0; i < count; ++i) h = mix(h, kinds[i]);
	c.outcome(h);
}
// every single value of a byte, and every power of two with its neighbours
template<class T> static void each(Ctx& c, T v) {
	mt_mat A(1, 1, mt_Depth_Channel(Depth_Of<T>::d, 1));
	*(T*)A.data() = v;
	for (int text = 0; text < 2; ++text) {
		string s; vector<u8> b;
		{
			std::unique_ptr<sys_buffer_writer> w(text ? (sys_buffer_writer*)new sys_string_buffer_writer(&s) : new sys_byte_buffer_writer(&b));
			mt_mat_helper::save(w.get(), A);
			w->close();
		}
		std::unique_ptr<sys_buffer_reader> r(text ? (sys_buffer_reader*)new sys_string_buffer_reader(s) : new sys_byte_buffer_reader(b.data(), b.data() + b.size()));
		loaded<T>(c, mt_mat_helper::load(r.get()), { 1, 1 }, 1, { v }, "one value " + std::to_string(v), text);
	}
	c.transitions++;
}
static void single(Ctx& c) {
	int d = c.choose(8), i = c.choose(d < 2 ? 256 : 64 * 3);
	if (!c.shard()) return;
	uint64_t v = d < 2 ? (uint64_t)i : ((uint64_t)1 << (i / 3)) + (uint64_t)(i % 3) - 1;
	switch (d) {
	case 0: each<u8>(c, (u8)v); break;
	case 1: each<i8>(c, (i8)v); break;
	case 2: each<u16>(c, (u16)v); break;
	case 3: each<i16>(c, (i16)v); break;
	case 4: each<u32>(c, (u32)v); each<f32>(c, (f32)((i32)(v & 0x3ff) / 8.0)); break;
	case 5: each<i32>(c, (i32)v); each<f64>(c, (f64)((i32)(v & 0xfff) / 8.0)); break;
	case 6: each<u64>(c, v); break;
	default: each<i64>(c, (i64)v);
	}
	c.nontrivial++;
	c.outcome(mix(d, i));
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups.push_back(Group("shapes and views", all));
	s.groups.push_back(Group("documents", documents));
	s.groups.push_back(Group("matrices of more than 65536 elements", large));
	s.groups.push_back(Group("single values", single));
	return run(s, argc, argv);
}
