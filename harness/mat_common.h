// matrices of every shape, depth and kind of view, for the suites of matrix operations
#pragma once
#include "repo.h"
#include "mc.h"
using namespace mc;

typedef vector<int> Ints;
static inline string num(int a) { return std::to_string(a); }
static inline Ints index_of(const Ints& size, int k) {
	Ints r(size.size());
	for (size_t i = size.size(); i-- > 0;) { r[i] = k % size[i]; k /= size[i]; }
	return r;
}
static inline int flat(const Ints& size, const Ints& at) { int r = 0; for (size_t i = 0; i < size.size(); ++i) r = r * size[i] + at[i]; return r; }
static inline int total(const Ints& size) { int r = 1; for (size_t i = 0; i < size.size(); ++i) r *= size[i]; return r; }

template<class T> struct Depth_Of {};
template<> struct Depth_Of<u8> { static const mt_Depth d = mt_U8; };
template<> struct Depth_Of<i8> { static const mt_Depth d = mt_I8; };
template<> struct Depth_Of<u16> { static const mt_Depth d = mt_U16; };
template<> struct Depth_Of<i16> { static const mt_Depth d = mt_I16; };
template<> struct Depth_Of<u32> { static const mt_Depth d = mt_U32; };
template<> struct Depth_Of<i32> { static const mt_Depth d = mt_I32; };
template<> struct Depth_Of<u64> { static const mt_Depth d = mt_U64; };
template<> struct Depth_Of<i64> { static const mt_Depth d = mt_I64; };
template<> struct Depth_Of<f32> { static const mt_Depth d = mt_F32; };
template<> struct Depth_Of<f64> { static const mt_Depth d = mt_F64; };

// kinds of views: dense, dimensions reversed, last flipped, all flipped, part of a larger one, some of its channels, every
// second element, and several at once
static const int VIEWS = 8;
static inline mt_mat make_view(const Ints& size, mt_Depth depth, int ch, int kind, mt_mat* whole = NULL) {
	int D = (int)size.size();
	Ints s = size;
	mt_mat r, w;
	switch (kind) {
	case 0: w = mt_mat(size, mt_Depth_Channel(depth, ch), 9.0); r = w; break;
	case 1:
		std::reverse(s.begin(), s.end());
		w = mt_mat(s, mt_Depth_Channel(depth, ch), 9.0); r = w;
		for (int a = 0, b = D - 1; a < b; ++a, --b) r = r.swap_dim(a, b);
		break;
	case 2: w = mt_mat(size, mt_Depth_Channel(depth, ch), 9.0); r = w.flip(D - 1); break;
	case 3: w = mt_mat(size, mt_Depth_Channel(depth, ch), 9.0); r = w.flip_all_dim(); break;
	case 4:
		for (int i = 0; i < D; ++i) s[i] += 3;
		w = mt_mat(s, mt_Depth_Channel(depth, ch), 9.0); r = w;
		for (int i = 0; i < D; ++i) r = r.sub(1, 1 + size[i], i);
		break;
	case 5: w = mt_mat(size, mt_Depth_Channel(depth, ch + 2), 9.0); r = w.sub_channel(1, 1 + ch); break;
	case 6: {
		for (int i = 0; i < D; ++i) s[i] = s[i] * 2;
		w = mt_mat(s, mt_Depth_Channel(depth, ch), 9.0);
		Ints two(D, 2);
		r = w.sub_stride(D, &two[0]);
		break;
	}
	default:
		std::reverse(s.begin(), s.end());
		for (int i = 0; i < D; ++i) s[i] += 2;
		w = mt_mat(s, mt_Depth_Channel(depth, ch + 1), 9.0); r = w;
		r = r.sub_channel(1, 1 + ch);
		for (int a = 0, b = D - 1; a < b; ++a, --b) r = r.swap_dim(a, b);
		for (int i = 0; i < D; ++i) r = r.sub(1, 1 + size[i], i);
		r = r.flip(0);
	}
	if (whole) *whole = w;
	return r;
}
template<class T> static T& cell(const mt_mat& m, const Ints& size, int k, int c) { return *(T*)const_cast<u8*>(m.ptr<u8>(index_of(size, k), c)); }
static inline void next_index(Ints& at, const Ints& size) { for (size_t d = size.size(); d-- > 0;) { if (++at[d] < size[d]) return; at[d] = 0; } }
template<class T> static void fill(mt_mat& m, const Ints& size, int ch, const vector<T>& v) {
	int n = total(size);
	Ints at(size.size(), 0);
	for (int k = 0; k < n; ++k, next_index(at, size)) for (int c = 0; c < ch; ++c) *(T*)const_cast<u8*>(m.ptr<u8>(at, c)) = v[k * ch + c];
}
template<class T> static vector<T> values(const mt_mat& m, const Ints& size, int ch) {
	vector<T> v;
	int n = total(size);
	Ints at(size.size(), 0);
	v.reserve((size_t)n * ch);
	for (int k = 0; k < n; ++k, next_index(at, size)) for (int c = 0; c < ch; ++c) v.push_back(*(const T*)m.ptr<u8>(at, c));
	return v;
}
static inline bool has_shape(const mt_mat& m, const Ints& size, int ch, mt_Depth d) {
	if (m.dim() != (int)size.size() || m.channel() != ch || m.depth() != d) return false;
	for (size_t i = 0; i < size.size(); ++i) if (m.size()[i] != size[i]) return false;
	return true;
}
// everything of the memory of a dense matrix except the cells of a view of it
struct Rest {
	vector<u8> bytes;
	const mt_mat* w;
	vector<bool> mine;
	Rest(const mt_mat& whole, const mt_mat& view, const Ints& size, int ch, int element) : w(&whole) {
		bytes.assign(whole.data(), whole.data() + whole.memory_size());
		mine.assign(bytes.size(), false);
		int n = total(size);
		Ints i(size.size(), 0);
		for (int k = 0; k < n; ++k, next_index(i, size)) for (int c = 0; c < ch; ++c) { size_t at = view.ptr<u8>(i, c) - whole.data(); for (int b = 0; b < element; ++b) mine[at + b] = true; }
	}
	bool same() const { for (size_t i = 0; i < bytes.size(); ++i) if (!mine[i] && w->data()[i] != bytes[i]) return false; return true; }
};
static inline string shape_name(const Ints& size, int ch, mt_Depth d, int view) {
	std::ostringstream o;
	for (size_t i = 0; i < size.size(); ++i) o << (i ? "x" : "") << size[i];
	o << "c" << ch << " of depth " << d << " as view " << view;
	return o.str();
}
template<class T> static bool near(T a, T b) {
	if (a == b || (a != a && b != b)) return true;
	double x = (double)a, y = (double)b, e = sizeof(T) == 4 ? 1e-5 : 1e-11;
	return fabs(x - y) <= e * (1 + std::max(fabs(x), fabs(y)));
}
// values over the range of the type, some of them zero and negative
template<class T> static vector<T> numbers(int n, int salt, bool nonzero) {
	static const double u[] = { 1, 3, 0, 250, 7, 200, 2, 100, 5, 90, 127, 128, 6 }, s[] = { 1, -3, 0, 120, 7, -100, 2, 50, -5, 90, -127, 4, 6 };
	vector<T> r;
	for (int i = 0; i < n; ++i) {
		int j = (i * 5 + salt * 3 + salt * i) % 13;
		double x = std::is_signed<T>::value ? s[j] : u[j];
		if (sizeof(T) > 1 && std::is_integral<T>::value) x *= sizeof(T) == 2 ? 181 : sizeof(T) == 4 ? 301 : 8000001;
		if (!std::is_integral<T>::value) x = x / 4 + (j == 2 ? 0 : 0.125);
		if (nonzero && x == 0) x = 2;
		r.push_back((T)x);
		if (sizeof(T) == 8 && std::is_integral<T>::value && x != 0) r.back() += 1;
	}
	return r;
}
