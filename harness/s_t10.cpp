// T10: every recorded computation up to a number of steps; the derivative of its result by every matrix in it against the
// chain rule on single elements
#include "mat_common.h"
#include "mt_auto_derivative.h"
#include <math.h>

struct Part { int from, to, out; double by; };      // node, its element, element of the result, local derivative
struct Node {
	mt_mat m; Ints size; int ch; vector<double> v; vector<Part> parts; bool tied; int same;
	Node() : ch(1), tied(true), same(-1) {}
};
static double scale_of(const vector<double>& v) { double r = 0; for (double x : v) r = std::max(r, fabs(x)); return r; }

enum Op {
	AddC, SubC, MulC, DivC, CSub, CDiv, Neg, Pow2, Pow3, PowM1, PowHalf, Exp, Log, Log10, Abs, Clone,
	Flat, Tall, Deep, Chan, Flip0, Flip1, FlipAll, Row, Col, Last, SubCh, Stride0, Stride1, Expand, Repeat0, Repeat1, RepeatCh,
	PoolMean, PoolSum, PoolMax, PoolMin, PoolFirst, PoolOver, Linear, Sigmoid, Tanh, TanhP, Relu, ReluP, Softmax, Quad, QuadMiss, LogLoss, LogMiss,
	UNARY,
	Add = UNARY, Sub, Mul, Div, AddB, SubB, MulB, DivB, Adds, Add3, Muls, Mul3, MergeCh, Merge0, Merge1,
#ifdef basicsys_enable_mkl
	MatMul, Conv, ConvStride0, ConvStride1,
#endif
	ALL
};
static const char* TEXT[] = {
	"+c", "-c", "*c", "/c", "c-", "c/", "neg", "pow2", "pow3", "pow-1", "pow.5", "exp", "log", "log10", "abs", "clone",
	"flat", "tall", "deep", "chan", "flip0", "flip1", "flipall", "row", "col", "last", "subch", "stride0", "stride1", "expand", "repeat0", "repeat1", "repeatch",
	"mean", "sum", "max", "min", "first", "overlapping", "linear", "sigmoid", "tanh", "tanhp", "relu", "relup", "softmax", "quadratic", "quadratic with missing targets", "logarithmic", "logarithmic with missing targets",
	"+", "-", "*", "/", "add_bias", "substract_bias", "mul_bias", "div_bias", "add list", "add list of three", "dot list", "dot list of three", "merge channels", "merge 0", "merge 1",
#ifdef basicsys_enable_mkl
	"product", "convolution", "convolution with strides", "convolution with strides aside",
#endif
};
static const double K[] = { 1.5, -0.75, 2.25, 0.5, 3.125, -1.25, 0.875, 1.75 };

struct Program {
	mt_Depth depth; vector<Node> n; string what; bool recording;
	Program() : depth(mt_F64), recording(true) {}

	double round(double x) const { return depth == mt_F32 ? (double)(f32)x : x; }
	void read(Node& o) {      // the values the code computed, so that rounding does not add up
		if (o.m.depth() == mt_F32) { vector<f32> g = values<f32>(o.m, o.size, o.ch); o.v.assign(g.begin(), g.end()); }
		else { vector<f64> g = values<f64>(o.m, o.size, o.ch); o.v.assign(g.begin(), g.end()); }
	}
	int elements(const Node& a) const { return total(a.size) * a.ch; }

	// false: does not fit
	bool apply(Ctx& c, int op, int ia, int ib) {
		n.push_back(Node());
		Node& o = n.back(); const Node& a = n[ia]; const Node& b = n[ib];
		int D = (int)a.size.size(), N = elements(a), ch = a.ch;
		o.size = a.size; o.ch = ch;
		vector<double> want;
		vector<f64> k(K, K + ch);
		if (ch > 3) k.resize(ch, 2.0);
		auto each = [&](std::function<double(double, int)> f, std::function<double(double, double, int)> d) {
			want.resize(N);
			for (int i = 0; i < N; ++i) { want[i] = f(a.v[i], i % ch); o.parts.push_back({ ia, i, i, d(a.v[i], want[i], i % ch) }); }
		};
		// element e of the result is element at of a
		auto move = [&](int e, int at) { if ((int)want.size() <= e) want.resize(e + 1); want[e] = a.v[at]; o.parts.push_back({ ia, at, e, 1.0 }); };
		auto positive = [&]() { for (double x : a.v) if (x < 1e-3) return false; return true; };
		auto away = [&](const Node& q) { for (double x : q.v) if (fabs(x) < 1e-3) return false; return true; };
		switch (op) {
		case AddC: o.m = ib % 2 || ch > 3 ? a.m + k : a.m + mt_scalar(k[0], k[ch > 1 ? 1 : 0], k[ch > 2 ? 2 : 0]); each([&](double x, int q) { return x + k[q]; }, [](double, double, int) { return 1.0; }); break;
		case SubC: o.m = a.m - k; each([&](double x, int q) { return x - k[q]; }, [](double, double, int) { return 1.0; }); break;
		case MulC: o.m = a.m * k; each([&](double x, int q) { return x * k[q]; }, [&](double, double, int q) { return k[q]; }); break;
		case DivC: o.m = a.m / k; each([&](double x, int q) { return x / k[q]; }, [&](double, double, int q) { return 1 / k[q]; }); break;
		case CSub: o.m = 2.5 - a.m; each([](double x, int) { return 2.5 - x; }, [](double, double, int) { return -1.0; }); break;
		case CDiv: if (!away(a)) return false; o.m = 2.5 / a.m; each([](double x, int) { return 2.5 / x; }, [](double x, double, int) { return -2.5 / (x * x); }); break;
		case Neg: o.m = -a.m; each([](double x, int) { return -x; }, [](double, double, int) { return -1.0; }); break;
		case Pow2: o.m = a.m.pow(2); each([](double x, int) { return x * x; }, [](double x, double, int) { return 2 * x; }); break;
		case Pow3: o.m = a.m.pow(3); each([](double x, int) { return x * x * x; }, [](double x, double, int) { return 3 * x * x; }); break;
		case PowM1: if (!away(a)) return false; o.m = a.m.pow(-1); each([](double x, int) { return 1 / x; }, [](double x, double, int) { return -1 / (x * x); }); break;
		case PowHalf: if (!positive()) return false; o.m = a.m.pow(0.5); each([](double x, int) { return sqrt(x); }, [](double, double y, int) { return 0.5 / y; }); break;
		case Exp: if (scale_of(a.v) > 12) return false; o.m = a.m.exp(); each([](double x, int) { return ::exp(x); }, [](double, double y, int) { return y; }); break;
		case Log: if (!positive()) return false; o.m = a.m.log(); each([](double x, int) { return ::log(x); }, [](double x, double, int) { return 1 / x; }); break;
		case Log10: if (!positive()) return false; o.m = a.m.log(10); each([](double x, int) { return ::log(x) / ::log(10.0); }, [](double x, double, int) { return 1 / (x * ::log(10.0)); }); break;
		case Abs: if (!away(a)) return false; o.m = a.m.abs(); each([](double x, int) { return fabs(x); }, [](double x, double, int) { return x > 0 ? 1.0 : -1.0; }); break;
		case Clone: o.m = a.m.clone(); each([](double x, int) { return x; }, [](double, double, int) { return 1.0; }); break;
		case Flat: case Tall: case Deep: case Chan: {
			if (!a.m.is_continuous()) return false;
			int t = total(a.size);
			if (op == Flat) o.size = { 1, t }; else if (op == Tall) o.size = { t, 1 };
			else if (op == Deep) { if (t % 2) return false; o.size = { 2, 1, t / 2 }; }
			else { for (int d = 0; d < D; ++d) if (a.m.step()[d] < 0) return false; o.size = { 1, t * ch }; o.ch = 1; if (ch == 1) { if (t % 2) return false; o.size = { t / 2, 1 }; o.ch = 2; } }
			o.m = op == Chan ? a.m.reshape(o.size, o.ch) : a.m.reshape(o.size);
			for (int i = 0; i < N; ++i) move(i, i);
			break;
		}
		case Flip0: case Flip1: case FlipAll: {
			if (op == Flip1 && D < 2) return false;
			o.m = op == FlipAll ? a.m.flip_all_dim() : a.m.flip(op == Flip0 ? 0 : 1);
			for (int i = 0; i < N; ++i) {
				Ints at = index_of(a.size, i / ch);
				for (int d = 0; d < D; ++d) if (op == FlipAll || (op == Flip0 && d == 0) || (op == Flip1 && d == 1)) at[d] = a.size[d] - 1 - at[d];
				move(i, flat(a.size, at) * ch + i % ch);
			}
			break;
		}
		case Row: case Col: case Last: {
			vector<mt_range> r(D);
			Ints at0(D, 0);
			for (int d = 0; d < D; ++d) {
				int lo = 0, hi = a.size[d];
				if (op == Row && d == 0) hi = 1;
				if (op == Col && d == D - 1) { lo = a.size[d] - 1; }
				if (op == Last) lo = a.size[d] > 1 ? 1 : 0;
				r[d] = mt_range(lo, hi); at0[d] = lo; o.size[d] = hi - lo;
			}
			if (op == Row) o.m = a.m.index(0, 0); else o.m = a.m.sub(r);
			for (int i = 0; i < total(o.size) * ch; ++i) {
				Ints at = index_of(o.size, i / ch);
				for (int d = 0; d < D; ++d) at[d] += at0[d];
				move(i, flat(a.size, at) * ch + i % ch);
			}
			break;
		}
		case SubCh:
			if (ch < 2) return false;
			o.ch = ch - 1; o.m = a.m.sub_channel(1, ch);
			for (int i = 0; i < total(a.size); ++i) for (int q = 1; q < ch; ++q) move(i * o.ch + q - 1, i * ch + q);
			break;
		case Stride0: case Stride1: {
			int d0 = op == Stride0 ? 0 : D - 1;
			Ints s(D, 1); s[d0] = 2;
			for (int d = 0; d < D; ++d) o.size[d] = (a.size[d] + s[d] - 1) / s[d];
			o.m = a.m.sub_stride(D, &s[0]);
			for (int i = 0; i < total(o.size) * ch; ++i) { Ints at = index_of(o.size, i / ch); for (int d = 0; d < D; ++d) at[d] *= s[d]; move(i, flat(a.size, at) * ch + i % ch); }
			break;
		}
		case Expand: {
			if (ch > 4) return false;
			Ints lo(D, 0), hi(D, 0); lo[0] = 1; hi[D - 1] = 1;
			for (int d = 0; d < D; ++d) o.size[d] += lo[d] + hi[d];
			o.m = a.m.expand(lo, hi, mt_scalar(3, 4, 5, 6));
			want.assign(total(o.size) * ch, 0);
			for (int i = 0; i < (int)want.size(); ++i) {
				Ints at = index_of(o.size, i / ch); bool in = true;
				for (int d = 0; d < D; ++d) { at[d] -= lo[d]; if (at[d] < 0 || at[d] >= a.size[d]) in = false; }
				if (in) move(i, flat(a.size, at) * ch + i % ch); else want[i] = 3 + i % ch;
			}
			break;
		}
		case Repeat0: case Repeat1: case RepeatCh: {
			Ints t(D, 1); int tc = 1;
			if (op == Repeat0) t[0] = 2; else if (op == Repeat1) t[D - 1] = 3; else { tc = 2; t[D - 1] = 2; }
			for (int d = 0; d < D; ++d) o.size[d] *= t[d];
			o.ch = ch * tc;
			if (o.ch > 8 || total(o.size) > 48) return false;
			o.m = a.m.repeat(t, tc);
			for (int i = 0; i < total(o.size) * o.ch; ++i) { Ints at = index_of(o.size, i / o.ch); for (int d = 0; d < D; ++d) at[d] %= a.size[d]; move(i, flat(a.size, at) * ch + i % o.ch % ch); }
			break;
		}
		case PoolMean: case PoolSum: case PoolMax: case PoolMin: case PoolFirst: case PoolOver: {
			Ints kernel(D, 2), stride(D, op == PoolOver ? 1 : 2);
			if (op == PoolMax) kernel[0] = stride[0] = 1;
			for (int d = 0; d < D; ++d) { o.size[d] = 0; for (int p = 0; p < a.size[d]; p += stride[d]) { ++o.size[d]; if (p + kernel[d] >= a.size[d]) break; } }
			mt_Pooling_Type t = op == PoolMean || op == PoolOver ? mt_Pooling_Type_Mean : op == PoolSum ? mt_Pooling_Type_Sum : op == PoolMax ? mt_Pooling_Type_Max : op == PoolMin ? mt_Pooling_Type_Min : mt_Pooling_Type_First_Value;
			o.m = a.m.pooling(t, kernel, stride);
			want.assign(total(o.size) * ch, 0);
			for (int i = 0; i < (int)want.size(); ++i) {
				Ints at = index_of(o.size, i / ch);
				vector<int> in;
				for (int e = 0; e < total(kernel); ++e) {
					Ints w = index_of(kernel, e); bool ok = true;
					for (int d = 0; d < D; ++d) { w[d] += at[d] * stride[d]; if (w[d] >= a.size[d]) ok = false; }
					if (ok) in.push_back(flat(a.size, w) * ch + i % ch);
				}
				if (t == mt_Pooling_Type_Mean || t == mt_Pooling_Type_Sum) {
					double by = t == mt_Pooling_Type_Sum ? 1.0 : 1.0 / in.size();
					for (int e : in) { want[i] += a.v[e] * by; o.parts.push_back({ ia, e, i, by }); }
				} else {
					int best = in[0];
					if (t != mt_Pooling_Type_First_Value) for (int e : in) {
						if (e != best && fabs(a.v[e] - a.v[best]) < 1e-4) return false;         // no derivative
						if (t == mt_Pooling_Type_Max ? a.v[e] > a.v[best] : a.v[e] < a.v[best]) best = e;
					}
					move(i, best);
				}
			}
			break;
		}
		case Linear: o.m = a.m.activate(mt_Activate_Type_Linear); each([](double x, int) { return x; }, [](double, double, int) { return 1.0; }); break;
		case Sigmoid: o.m = a.m.activate(mt_Activate_Type_Sigmoid); each([](double x, int) { return 1 / (1 + ::exp(-x)); }, [](double, double y, int) { return y * (1 - y); }); break;
		case Tanh: case TanhP: {
			double A = op == Tanh ? 1.7159 : 0.5, B = op == Tanh ? 0.666667 : 1.25;
			vector<f64> p; if (op == TanhP) { p.push_back(A); p.push_back(B); }
			o.m = op == Tanh ? a.m.activate(mt_Activate_Type_Tanh) : a.m.activate(mt_Activate_Type_Tanh, p);
			each([=](double x, int) { return A * tanh(B * x); }, [=](double x, double, int) { double t = tanh(B * x); return A * B * (1 - t * t); });
			break;
		}
		case Relu: case ReluP: {
			double s = op == Relu ? 0 : 0.25;
			if (!away(a)) return false;
			o.m = op == Relu ? a.m.activate(mt_Activate_Type_Relu) : a.m.activate(mt_Activate_Type_Relu, vector<f64>(1, s));
			each([=](double x, int) { return x > 0 ? x : s * x; }, [=](double x, double, int) { return x > 0 ? 1.0 : s; });
			break;
		}
		case Softmax: {
			if (D != 2 || ch != 1) return false;
			o.m = a.m.activate(mt_Activate_Type_Softmax);
			want.resize(N);
			int C = a.size[1];
			for (int r = 0; r < a.size[0]; ++r) {
				double s = 0, top = a.v[r * C];
				for (int i = 0; i < C; ++i) top = std::max(top, a.v[r * C + i]);
				for (int i = 0; i < C; ++i) s += ::exp(a.v[r * C + i] - top);
				for (int i = 0; i < C; ++i) want[r * C + i] = ::exp(a.v[r * C + i] - top) / s;
				for (int i = 0; i < C; ++i) for (int j = 0; j < C; ++j) o.parts.push_back({ ia, r * C + j, r * C + i, want[r * C + i] * ((i == j) - want[r * C + j]) });
			}
			break;
		}
		case Quad: case QuadMiss: {
			mt_mat t(a.size, mt_Depth_Channel(depth, ch));
			vector<double> tv(N);
			for (int i = 0; i < N; ++i) tv[i] = op == QuadMiss && i % 3 == 0 ? NAN : K[(i * 3 + 1) % 8];
			put(t, a.size, ch, tv);
			o.m = a.m.loss(t, mt_Loss_Type_Quadratic);
			o.size = { 1, 1 };
			want.assign(ch, 0);
			for (int i = 0; i < N; ++i) { double e = std::isnan(tv[i]) ? 0 : a.v[i] - tv[i]; want[i % ch] += e * e / 2; o.parts.push_back({ ia, i, i % ch, e }); }
			break;
		}
		case LogLoss: case LogMiss: {      // of a sigmoid or softmax
			if (D != 2 || ch != 1) return false;
			int C = a.size[1];
			mt_mat t(a.size, mt_Depth_Channel(depth, 1));
			vector<double> tv(N, 0.0);
			for (int r = 0; r < a.size[0]; ++r) { if (C == 1) tv[r] = r % 2; else tv[r * C + (r + 1) % C] = 1; }
			if (op == LogMiss) for (int i = 0; i < C; ++i) tv[i] = NAN;      // the first row
			put(t, a.size, 1, tv);
			mt_mat p = a.m.activate(C == 1 ? mt_Activate_Type_Sigmoid : mt_Activate_Type_Softmax);
			o.m = p.loss(t, mt_Loss_Type_Logarithmic);
			o.size = { 1, 1 };
			want.assign(1, 0);
			for (int r = 0; r < a.size[0]; ++r) {
				if (std::isnan(tv[r * C])) { for (int i = 0; i < C; ++i) o.parts.push_back({ ia, r * C + i, 0, 0.0 }); continue; }
				if (C == 1) { double y = 1 / (1 + ::exp(-a.v[r])); want[0] -= ::log(tv[r] ? y : 1 - y); o.parts.push_back({ ia, r, 0, y - tv[r] }); continue; }
				double s = 0;
				for (int i = 0; i < C; ++i) s += ::exp(a.v[r * C + i]);
				for (int i = 0; i < C; ++i) { double y = ::exp(a.v[r * C + i]) / s; if (tv[r * C + i]) want[0] -= ::log(y); o.parts.push_back({ ia, r * C + i, 0, y - tv[r * C + i] }); }
			}
			break;
		}
		case Add: case Sub: case Mul: case Div: case Adds: case Add3: case Muls: case Mul3: {
			if (a.size != b.size || a.ch != b.ch) return false;
			if (op == Div && !away(b)) return false;
			vector<mt_mat> l; l.push_back(a.m); l.push_back(b.m); if (op == Add3 || op == Mul3) l.push_back(a.m);
			o.m = op == Add ? a.m + b.m : op == Sub ? a.m - b.m : op == Mul ? a.m * b.m : op == Div ? a.m / b.m : op == Adds || op == Add3 ? mt_mat_helper::add(l, false) : mt_mat_helper::dot(l, false);
			want.resize(N);
			for (int i = 0; i < N; ++i) {
				double x = a.v[i], y = b.v[i], dx = 1, dy = 1;
				switch (op) {
				case Add: case Adds: want[i] = x + y; break;
				case Add3: want[i] = x + y + x; dx = 2; break;
				case Sub: want[i] = x - y; dy = -1; break;
				case Mul: case Muls: want[i] = x * y; dx = y; dy = x; break;
				case Mul3: want[i] = x * y * x; dx = 2 * x * y; dy = x * x; break;
				default: want[i] = x / y; dx = 1 / y; dy = -x / (y * y);
				}
				o.parts.push_back({ ia, i, i, dx }); o.parts.push_back({ ib, i, i, dy });
			}
			break;
		}
		case AddB: case SubB: case MulB: case DivB: {
			if (b.size.size() != a.size.size() || (b.ch != a.ch && b.ch != 1) || a.ch % b.ch) return false;
			if (b.ch != a.ch) return false;
			for (int d = 0; d < D; ++d) if (a.size[d] % b.size[d]) return false;
			if (op == DivB && !away(b)) return false;
			o.m = op == AddB ? a.m.add_bias(b.m) : op == SubB ? a.m.substract_bias(b.m) : op == MulB ? a.m.mul_bias(b.m) : a.m.div_bias(b.m);
			want.resize(N);
			for (int i = 0; i < N; ++i) {
				Ints at = index_of(a.size, i / ch);
				for (int d = 0; d < D; ++d) at[d] %= b.size[d];
				int j = flat(b.size, at) * b.ch + i % ch % b.ch;
				double x = a.v[i], y = b.v[j], dx = 1, dy = 1;
				switch (op) {
				case AddB: want[i] = x + y; break;
				case SubB: want[i] = x - y; dy = -1; break;
				case MulB: want[i] = x * y; dx = y; dy = x; break;
				default: want[i] = x / y; dx = 1 / y; dy = -x / (y * y);
				}
				o.parts.push_back({ ia, i, i, dx }); o.parts.push_back({ ib, j, i, dy });
			}
			break;
		}
		case MergeCh: {
			if (a.size != b.size || a.ch + b.ch > 6) return false;
			vector<mt_mat> l; l.push_back(a.m); l.push_back(b.m);
			o.m = mt_mat_helper::merge_align_channel(l, false);
			o.ch = a.ch + b.ch;
			for (int i = 0; i < total(a.size); ++i) {
				for (int q = 0; q < a.ch; ++q) move(i * o.ch + q, i * a.ch + q);
				for (int q = 0; q < b.ch; ++q) { want.resize(std::max((int)want.size(), i * o.ch + a.ch + q + 1)); want[i * o.ch + a.ch + q] = b.v[i * b.ch + q]; o.parts.push_back({ ib, i * b.ch + q, i * o.ch + a.ch + q, 1.0 }); }
			}
			break;
		}
		case Merge0: case Merge1: {
			if (a.ch != b.ch || b.size.size() != a.size.size()) return false;
			int d = op == Merge0 ? 0 : D - 1;
			for (int e = 0; e < D; ++e) if (e != d && a.size[e] != b.size[e]) return false;
			vector<mt_mat> l; l.push_back(a.m); l.push_back(b.m);
			o.m = mt_mat_helper::merge_align_dim(l, d, false);
			o.size[d] += b.size[d];
			if (total(o.size) > 64) return false;
			want.resize(total(o.size) * ch);
			for (int i = 0; i < (int)want.size(); ++i) {
				Ints at = index_of(o.size, i / ch);
				if (at[d] < a.size[d]) move(i, flat(a.size, at) * ch + i % ch);
				else { at[d] -= a.size[d]; int j = flat(b.size, at) * ch + i % ch; want[i] = b.v[j]; o.parts.push_back({ ib, j, i, 1.0 }); }
			}
			break;
		}
#ifdef basicsys_enable_mkl
		case MatMul: {
			if (a.size.size() != 2 || b.size.size() != 2 || a.size[1] != b.size[0] || a.ch != b.ch) return false;
			o.m = a.m.mul(b.m);
			o.size[1] = b.size[1];
			want.assign(total(o.size) * ch, 0);
			for (int i = 0; i < o.size[0]; ++i) for (int j = 0; j < o.size[1]; ++j) for (int q = 0; q < ch; ++q) for (int x = 0; x < a.size[1]; ++x) {
				int e = (i * o.size[1] + j) * ch + q, ea = (i * a.size[1] + x) * ch + q, eb = (x * o.size[1] + j) * ch + q;
				want[e] += a.v[ea] * b.v[eb];
				o.parts.push_back({ ia, ea, e, b.v[eb] }); o.parts.push_back({ ib, eb, e, a.v[ea] });
			}
			break;
		}
		case Conv: case ConvStride0: case ConvStride1: {
			if (a.size.size() != b.size.size() || b.ch % a.ch) return false;
			for (int d = 0; d < D; ++d) if (b.size[d] > a.size[d]) return false;
			Ints st(D, 1);
			if (op == ConvStride0) st[0] = 2;
			if (op == ConvStride1) st[D - 1] = 2;
			o.m = a.m.conv(b.m, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Row, op == Conv ? NULL : &st[0]);
			o.ch = b.ch / a.ch;
			for (int d = 0; d < D; ++d) o.size[d] = (a.size[d] - b.size[d]) / st[d] + 1;
			want.assign(total(o.size) * o.ch, 0);
			for (int i = 0; i < total(o.size); ++i) for (int j = 0; j < total(b.size); ++j) {
				Ints at = index_of(o.size, i), k = index_of(b.size, j);
				for (int d = 0; d < D; ++d) at[d] = at[d] * st[d] + b.size[d] - 1 - k[d];
				for (int q = 0; q < o.ch; ++q) for (int f = 0; f < a.ch; ++f) {
					int e = i * o.ch + q, ea = flat(a.size, at) * a.ch + f, eb = j * b.ch + f * o.ch + q;
					want[e] += a.v[ea] * b.v[eb];
					o.parts.push_back({ ia, ea, e, b.v[eb] }); o.parts.push_back({ ib, eb, e, a.v[ea] });
				}
			}
			break;
		}
#endif
		}
		if (!has_shape(o.m, o.size, o.ch, depth)) c.fail("shape", what);
		read(o);
		double eps = depth == mt_F32 ? 1e-3 : 1e-9;
		for (size_t i = 0; i < want.size(); ++i) {
			if (!(fabs(want[i]) < 1e4)) return false;
			if (!(fabs(o.v[i] - want[i]) <= eps * (1 + fabs(want[i])))) c.fail("value", what + ": element " + num((int)i) + " is " + std::to_string(o.v[i]) + " instead of " + std::to_string(want[i]));
		}
		if (!recording) o.parts.clear();
		for (int i = 0; i + 1 < (int)n.size() && o.same < 0; ++i) if (n[i].same < 0 && n[i].m.is_same(o.m)) o.same = i;
		return true;
	}
	void put(mt_mat& m, const Ints& size, int ch, const vector<double>& v) {
		if (depth == mt_F32) fill<f32>(m, size, ch, vector<f32>(v.begin(), v.end())); else fill<f64>(m, size, ch, v);
	}
	void input(const Ints& size, int ch, int view, int from, bool positive) {
		n.push_back(Node());
		Node& o = n.back();
		o.size = size; o.ch = ch;
		o.m = make_view(size, depth, ch, view);
		vector<double> v(total(size) * ch);
		for (size_t i = 0; i < v.size(); ++i) { double x = ((i * 7 + from * 5) % 13 + 1) * 0.17 + from * 0.03; v[i] = !positive && (i + from) % 3 == 1 ? -x : x; }
		put(o.m, size, ch, v);
		read(o);
	}
	int real(int i) const { while (n[i].same >= 0) i = n[i].same; return i; }

	// the chain rule
	void chain(int src, vector<vector<double>>& g, vector<bool>& on) {
		g.assign(n.size(), vector<double>());
		on.assign(n.size(), false);
		for (size_t i = 0; i < n.size(); ++i) g[i].assign(elements(n[i]), 0.0);
		src = real(src);
		on[src] = true;
		for (double& x : g[src]) x = 1;
		for (int i = (int)n.size() - 1; i >= 0; --i) if (n[i].same < 0 && on[i]) for (const Part& p : n[i].parts) { int f = real(p.from); on[f] = true; g[f][p.to] += p.by * g[i][p.out]; }
	}
	void expect(Ctx& c, const mt_mat& r, int t, const vector<double>& g, bool on, const string& w) {
		c.transitions++;
		if (!on) { if (!r.is_empty()) c.fail("unrelated", w + ": a derivative although nothing depends on it"); return; }
		if (r.is_empty()) c.fail("missing", w);
		if (!has_shape(r, n[t].size, n[t].ch, depth)) c.fail("derivative shape", w);
		vector<double> v;
		if (depth == mt_F32) { vector<f32> q = values<f32>(r, n[t].size, n[t].ch); v.assign(q.begin(), q.end()); } else v = values<f64>(r, n[t].size, n[t].ch);
		double eps = depth == mt_F32 ? 2e-3 : 1e-8, top = scale_of(g);
		for (size_t i = 0; i < g.size(); ++i) if (!(fabs(v[i] - g[i]) <= eps * (1 + top))) c.fail("derivative", w + ": element " + num((int)i) + " is " + std::to_string(v[i]) + " instead of " + std::to_string(g[i]));
	}
	bool tame(const vector<vector<double>>& g) { for (auto& x : g) if (!(scale_of(x) < 1e6)) return false; return true; }
};

struct Step { int op, a, b; };
// every step leads to the last one
static bool all_used(const vector<Step>& s, int inputs) {
	vector<bool> used(s.size(), false);
	used[s.size() - 1] = true;
	for (int i = (int)s.size() - 1; i >= 0; --i) {
		if (!used[i]) return false;
		if (s[i].a >= inputs) used[s[i].a - inputs] = true;
		if (s[i].op >= UNARY && s[i].b >= inputs) used[s[i].b - inputs] = true;
	}
	return true;
}
static string dims_text(const Ints& v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "x" : "") + num(v[i]); return r; }
struct Shape { Ints x, y; int ch; int ych; };   // ych: channels of the second, 0 for as many
static const vector<Shape>& shapes() {
	static const vector<Shape> s = {
		{ { 2, 2 }, { 2, 2 }, 1 }, { { 2, 3 }, { 1, 3 }, 1 }, { { 2, 2 }, { 1, 1 }, 2 }, { { 4, 2 }, { 2, 1 }, 2 }, { { 2, 1, 3 }, { 2, 1, 3 }, 1 }, { { 3, 1 }, { 3, 1 }, 1 },
		{ { 1, 2 }, { 1, 2 }, 3 }, { { 2, 2, 2 }, { 1, 2, 1 }, 1 }, { { 2, 1, 2, 1 }, { 2, 1, 2, 1 }, 1 },
	};
	return s;
}
// of factors and kernels
static const vector<Shape>& fitting() {
	static const vector<Shape> s = {
		{ { 2, 2 }, { 2, 2 }, 1 }, { { 3, 3 }, { 2, 2 }, 1 }, { { 2, 3 }, { 3, 2 }, 1 }, { { 4, 2 }, { 2, 1 }, 2 }, { { 1, 3 }, { 3, 1 }, 1 }, { { 3, 4 }, { 2, 2 }, 2, 4 }, { { 4, 3 }, { 2, 1 }, 1, 3 }, { { 5, 2 }, { 3, 1 }, 2 },
		{ { 3, 2, 2 }, { 2, 1, 2 }, 1, 2 }, { { 2, 2, 1, 2, 2 }, { 1, 2, 1, 2, 1 }, 1 }, { { 3 }, { 2 }, 1 }, { { 3, 1 }, { 1, 2 }, 3 },
	};
	return s;
}

static void programs(Ctx& c, int steps, const vector<int>& ops, int nshapes, const vector<int>& views, int depths, int signs, bool products = false) {
	Program p;
	const Shape& sh = (products ? fitting() : shapes())[c.choose(nshapes)];
	int view = views[c.choose((int)views.size())], d = c.choose(depths), sign = c.choose(signs);
	vector<Step> s;
	for (int i = 0; i < steps; ++i) {
		Step t;
		t.op = ops[c.choose((int)ops.size())];
		t.a = c.choose(2 + i);
		t.b = t.op >= UNARY ? c.choose(2 + i) : 0;
		if (t.op < UNARY && t.a == 1 && sh.x == sh.y) throw Stop();       // like the first
		s.push_back(t);
		if (i == 0 && !c.shard()) return;
	}
	if (!all_used(s, 2)) throw Stop();
	if (products) { bool any = false; for (Step& t : s) any = any || t.op > Merge1; if (!any) throw Stop(); }
	p.depth = d ? mt_F32 : mt_F64;
	p.n.reserve(16);
	p.input(sh.x, sh.ch, view, 0, sign == 0);
	p.input(sh.y, sh.ych ? sh.ych : sh.ch, view, 1, sign == 0);
	p.what = dims_text(sh.x) + "(" + num(sh.ch) + ") and " + dims_text(sh.y) + (d ? " f32" : "") + " view " + num(view) + ":";
	{
		mt_auto_derivative ad;
		ad.attach(p.n[0].m); ad.attach(p.n[1].m);
		bool ok = true;
		for (Step& t : s) {
			p.what += string(" ") + TEXT[t.op] + "(" + num(t.a) + (t.op >= UNARY ? "," + num(t.b) : "") + ")";
			if (!p.apply(c, t.op, t.a, t.b)) { ok = false; break; }
		}
		if (ok) {
			vector<vector<double>> g; vector<bool> on;
			int last = (int)p.n.size() - 1;
			vector<vector<double>> before;
			for (Node& q : p.n) before.push_back(q.v);
			for (int src = last; src >= 0 && src >= last - 1; --src) {
				p.chain(src, g, on);
				if (!p.tame(g)) break;
				for (int t = 0; t <= last; ++t) if (p.n[t].same < 0) {
					string w = p.what + "; " + num(src) + " by " + num(t);
					p.expect(c, ad.derivative(p.n[t].m, p.n[src].m), t, g[t], on[t], w);
				}
				// again
				p.expect(c, p.n[src].m.derivative(p.n[0].m), 0, g[0], on[0], p.what + "; " + num(src) + " by 0 again");
			}
			if (ad.stage() != mt_auto_derivative::Stage_Record_Computing) c.fail("stage", p.what);
			for (int i = 0; i <= last; ++i) { vector<double> v = p.n[i].v; p.read(p.n[i]); if (v != before[i] || p.n[i].v != before[i]) c.fail("operand", p.what + ": " + num(i) + " changed"); }
			c.nontrivial++;
			c.outcome(hash_bytes(g.back().data(), g.back().size() * 8, hash_bytes(g[0].data(), g[0].size() * 8)));
			if (c.want_sample()) c.sample(p.what);
		}
		for (Node& q : p.n) q.m.detach();
	}
}

// what is recorded when, and requests of every kind in between
static void histories(Ctx& c, int steps, const vector<int>& ops, const vector<int>& caches) {
	Program p;
	p.depth = mt_F64;
	int cache = caches[c.choose((int)caches.size())], attached = c.choose(3);      // both, the first only, the second only
	enum { Apply, Stages, Single, Several, Lists, Reset, KINDS };
	mt_auto_derivative ad(cache);
	p.n.reserve(16);
	p.input({ 2, 2 }, 1, 0, 0, true);
	p.input({ 2, 2 }, 1, 0, 1, true);
	if (attached == 0) { vector<mt_mat> l; l.push_back(p.n[0].m); l.push_back(p.n[1].m); ad.attach(l); p.n[0].m = l[0]; p.n[1].m = l[1]; }
	else ad.attach(p.n[attached - 1].m);
	p.what = "cache " + num(cache) + " attached " + num(attached) + ":";
	vector<bool> known(2, true);
	known[0] = attached != 2; known[1] = attached != 1;
	int asked = 0;
	bool ok = true;
	vector<vector<double>> before;
	auto remember = [&]() { before.clear(); for (Node& q : p.n) before.push_back(q.v); };
	auto gradient = [&](const vector<int>& srcs, int t, vector<double>& g, bool& on) {
		g.assign(p.elements(p.n[t]), 0.0); on = false;
		for (int s : srcs) {
			vector<vector<double>> gs; vector<bool> ons;
			p.chain(s, gs, ons);
			if (ons[p.real(t)]) { on = true; for (size_t i = 0; i < g.size(); ++i) g[i] += gs[p.real(t)][i]; }
			if (!p.tame(gs)) ok = false;
		}
	};
	remember();
	for (int s = 0; s < steps && ok; ++s) {
		int kind = s == 0 ? Apply : s + 1 == steps ? Single + c.choose(3) : c.choose(KINDS);
		if (s == 1 && !c.shard()) { ok = false; break; }
		int last = (int)p.n.size() - 1;
		switch (kind) {
		case Apply: {
			int op = ops[c.choose((int)ops.size())], a = c.choose(last + 1), b = op >= UNARY ? c.choose(last + 1) : 0;
			// an operation is recorded where one of its operands is attached
			bool rec = p.recording && (known[a] || (op >= UNARY && known[b]));
			p.what += string(" ") + TEXT[op] + "(" + num(a) + (op >= UNARY ? "," + num(b) : "") + ")";
			bool r = p.recording;
			p.recording = rec;
			ok = p.apply(c, op, a, b);
			p.recording = r;
			if (!ok) break;
			known.push_back(p.n.back().m.auto_derivative() != NULL);
			if (rec && !known.back()) c.fail("attached", p.what);
			if (rec && op >= UNARY && (op < Adds || op > Merge1)) known[a] = known[b] = true;      // lists hold copies
			remember();
			break;
		}
		case Stages:
			p.recording = !p.recording;
			p.what += p.recording ? " record" : " ignore";
			ad.set_stage(p.recording ? mt_auto_derivative::Stage_Record_Computing : mt_auto_derivative::Stage_Ignore);
			break;
		case Single: {
			int src = c.choose(last + 1), t = c.choose(last + 1);
			vector<double> g; bool on;
			gradient(vector<int>(1, src), t, g, on);
			if (!ok) break;
			p.what += " d" + num(src) + "/d" + num(t);
			mt_mat r = ad.derivative(p.n[t].m, p.n[src].m);
			p.expect(c, r, t, g, on, p.what);
			if (!r.is_empty()) r.set(77);
			++asked;
			break;
		}
		case Several: {
			int s1 = c.choose(last + 1), s2 = last, t = c.choose(last + 1);
			if (p.n[s1].v.size() > 16 || p.n[s2].v.size() > 16) { ok = false; break; }
			vector<double> g; bool on;
			gradient({ s1, s2 }, t, g, on);
			if (!ok) break;
			p.what += " d(" + num(s1) + "," + num(s2) + ")/d" + num(t);
			vector<mt_mat> l; l.push_back(p.n[s1].m); l.push_back(p.n[s2].m);
			mt_mat r = ad.derivative(p.n[t].m, l);
			p.expect(c, r, t, g, on, p.what);
			if (!r.is_empty()) r.set(78);
			++asked;
			break;
		}
		case Lists: {
			int s1 = c.choose(last + 1), s2 = last, both = c.choose(2), given = c.choose(2);
			vector<int> srcs(1, s1);
			if (both) srcs.push_back(s2);
			vector<mt_mat> l, targets, r;
			for (int x : srcs) l.push_back(p.n[x].m);
			for (Node& q : p.n) targets.push_back(q.m);
			p.what += " d(" + num(s1) + (both ? "," + num(s2) : "") + ")/all";
			if (given) { r.resize(1); if (both) ad.derivative(r, targets, l); else ad.derivative(r, targets, l[0]); }
			else r = both ? ad.derivative(targets, l) : ad.derivative(targets, l[0]);
			if (r.size() != targets.size()) c.fail("count", p.what);
			for (int t = 0; t <= last; ++t) {
				vector<double> g; bool on;
				gradient(srcs, t, g, on);
				if (!ok) break;
				p.expect(c, r[t], t, g, on, p.what + ": " + num(t));
			}
			for (size_t t = 0; t < r.size(); ++t) if (!r[t].is_empty()) r[t].set(79);
			++asked;
			break;
		}
		case Reset:
			p.what += " reset";
			ad.reset();
			for (Node& q : p.n) q.parts.clear();
			p.recording = true;
			break;
		}
		if (!ok) break;
		if (ad.stage() != (p.recording ? mt_auto_derivative::Stage_Record_Computing : mt_auto_derivative::Stage_Ignore)) c.fail("stage", p.what);
		for (size_t i = 0; i < p.n.size(); ++i) { p.read(p.n[i]); if (p.n[i].v != before[i]) c.fail("operand", p.what + ": " + num((int)i) + " changed"); }
	}
	if (ok && asked) { c.nontrivial++; c.outcome(hash_bytes(p.what.data(), p.what.size())); if (c.want_sample()) c.sample(p.what); }
	for (Node& q : p.n) q.m.detach();
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.hang_seconds = 120;
	s.init = []() { log_logger::release(); };
	vector<int> all, core = { AddC, MulC, CSub, Pow2, Exp, Log, Abs, Clone, Flat, Flip1, Row, SubCh, Expand, Repeat1, PoolMax, Sigmoid, Quad, Add, Sub, Mul, Div, MulB, Muls, Merge0 };
	for (int i = 0; i < ALL; ++i) all.push_back(i);
	vector<int> v0 = { 0 }, vs = { 0, 4, 5, 6, 1 };
	s.groups.push_back(Group("one step", [=](Ctx& c) { programs(c, 1, all, 9, vs, 2, 2); }));
	s.groups.push_back(Group("two steps", [=](Ctx& c) { programs(c, 2, all, 9, v0, 1, 1); }));
	s.groups.push_back(Group("two steps of views", [=](Ctx& c) { programs(c, 2, core, c.thorough ? 9 : 4, { 4, 5, 6, 1 }, c.thorough ? 2 : 1, c.thorough ? 2 : 1); }));
	vector<int> chosen = { MulC, CSub, Exp, Flat, Row, Softmax, Quad, Add, Mul, Div, MulB, Muls, Merge0 };
	s.groups.push_back(Group("three steps", [=](Ctx& c) { programs(c, 3, c.thorough ? core : chosen, c.thorough ? 9 : 3, v0, 1, 1); }));
	vector<int> few = { MulC, Exp, Mul, Adds, Row, Merge0 };
	s.groups.push_back(Group("histories", [=](Ctx& c) { histories(c, c.thorough ? 4 : 3, few, { 30, 1 }); }));
#ifdef basicsys_enable_mkl
	vector<int> mixed = { MulC, CSub, Exp, Flat, FlipAll, Row, Clone, Quad, Sigmoid, PoolMax, Expand, Add, Mul, MulB, MatMul, Conv, ConvStride0, ConvStride1 }, p5 = { MulC, Exp, Quad, MatMul, Conv }, p4 = { MatMul, Conv, ConvStride0, ConvStride1 };
	s.groups.push_back(Group("one product", [=](Ctx& c) { programs(c, 1, p4, 12, { 0, 1, 2, 3, 4, 5, 6, 7 }, 2, 2, true); }));
	s.groups.push_back(Group("a product and a step", [=](Ctx& c) { programs(c, 2, c.thorough ? all : mixed, 12, v0, 1, 1, true); }));
	s.groups.push_back(Group("a product and two steps", [=](Ctx& c) { programs(c, 3, c.thorough ? mixed : p5, c.thorough ? 12 : 4, v0, 1, 1, true); }));
	s.groups.push_back(Group("a product in a history", [=](Ctx& c) { histories(c, c.thorough ? 4 : 3, c.thorough ? vector<int>{ MulC, Add, MatMul, Conv } : vector<int>{ Add, MatMul, Conv }, c.thorough ? vector<int>{ 30, 1 } : vector<int>{ 30 }); }));
#endif
	return run(s, argc, argv);
}
