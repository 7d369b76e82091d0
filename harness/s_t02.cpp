// T02: arithmetic on matrices: every operation on every kind of view against its definition on the elements
#include "mat_common.h"

static const vector<Ints> SIZES = { { 5 }, { 3, 4 }, { 2, 3, 2 }, { 2, 1, 3, 2 }, { 1, 2, 1, 2, 3 }, { 4, 1 } };

template<class T> static T apply(int op, T a, T b) { return (T)(op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b); }
static const char* OPS[] = { "+", "-", "*", "/" };

template<class T> static void same(Ctx& c, const mt_mat& m, const Ints& size, int ch, const vector<T>& want, const string& what, bool exact = true) {
	if (!has_shape(m, size, ch, Depth_Of<T>::d)) c.fail("shape", what);
	vector<T> got = values<T>(m, size, ch);
	for (size_t i = 0; i < want.size(); ++i) if (exact ? !(got[i] == want[i] || (got[i] != got[i] && want[i] != want[i])) : !near(got[i], want[i]))
		c.fail("result", what + ": value " + num((int)i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]));
}

// two matrices
template<class T> static void binary(Ctx& c, const Ints& size, int ch, int va, int vb, int op) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size) * ch;
	string what = string(OPS[op]) + " of " + shape_name(size, ch, d, va) + " and view " + num(vb);
	vector<T> a = numbers<T>(n, 1, false), b = numbers<T>(n, 2, op == 3), r;
	for (int i = 0; i < n; ++i) r.push_back(apply<T>(op, a[i], b[i]));
	mt_mat wa, wb, A = make_view(size, d, ch, va, &wa), B = make_view(size, d, ch, vb, &wb);
	fill(A, size, ch, a); fill(B, size, ch, b);
	Rest ra(wa, A, size, ch, sizeof(T)), rb(wb, B, size, ch, sizeof(T));
	mt_mat R = op == 0 ? A + B : op == 1 ? A - B : op == 2 ? A * B : A / B;
	same(c, R, size, ch, r, what);
	if (R.is_memory_shared(A) || R.is_memory_shared(B)) c.fail("sharing", what);
	same(c, A, size, ch, a, what + ": first operand afterwards");
	same(c, B, size, ch, b, what + ": second operand afterwards");
	mt_mat& Q = op == 0 ? A += B : op == 1 ? A -= B : op == 2 ? A *= B : A /= B;
	if (&Q != &A) c.fail("result", "in place " + what);
	same(c, A, size, ch, r, "in place " + what);
	same(c, B, size, ch, b, "in place " + what + ": second operand afterwards");
	if (!ra.same() || !rb.same()) c.fail("outside", what + " changes something outside the view");
	if (va == vb) {
		fill(A, size, ch, b);
		if (op == 0) A += A; if (op == 1) A -= A; if (op == 2) A *= A; if (op == 3) A /= A;
		for (int i = 0; i < n; ++i) r[i] = apply<T>(op, b[i], b[i]);
		same(c, A, size, ch, r, what + " with itself");
		vector<mt_mat> three(3, B);
		three[0] = A;
		if (op == 0) { for (int i = 0; i < n; ++i) r[i] = (T)((T)(r[i] + b[i]) + b[i]); same(c, mt_mat_helper::add(three), size, ch, r, what + " of three"); if (mt_mat_helper::add(three).is_memory_shared(A)) c.fail("sharing", what); }
		if (op == 2 && sizeof(T) >= 4 && d >= mt_F32) { for (int i = 0; i < n; ++i) r[i] = (T)((T)(r[i] * b[i]) * b[i]); same(c, mt_mat_helper::dot(three), size, ch, r, what + " of three"); }
	}
	c.transitions += 2;
}
// a matrix and numbers
template<class T> static void scalar(Ctx& c, const Ints& size, int ch, int va, int op) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size) * ch;
	string what = string(OPS[op]) + " of " + shape_name(size, ch, d, va);
	mt_mat w, A = make_view(size, d, ch, va, &w);
	vector<T> a = numbers<T>(n, 1, true), r(n);
	fill(A, size, ch, a);
	Rest rest(w, A, size, ch, sizeof(T));
	static const double pos[] = { 3, 2, 5, 7, 11, 13 }, neg[] = { -3, 2, 5, -7, 11, 13 };
	const double* v = std::is_signed<T>::value ? neg : pos;
	vector<double> list(v, v + ch);
	for (int form = 0; form < 4; ++form) {
		if (form == 1 && ch > 4) continue;
		mt_scalar four(v[0], ch > 1 ? v[1] : 1, ch > 2 ? v[2] : 1, ch > 3 ? v[3] : 1);
		for (int i = 0; i < n; ++i) { T x = (T)v[form == 1 || form == 2 ? i % ch : 0]; r[i] = form == 3 ? apply<T>(op, x, a[i]) : apply<T>(op, a[i], x); }
		mt_mat R;
		string w2 = what + (form == 0 ? " and a number" : form == 1 ? " and a scalar" : form == 2 ? " and a list" : " from a number");
		if (form == 0) R = op == 0 ? A + v[0] : op == 1 ? A - v[0] : op == 2 ? A * v[0] : A / v[0];
		if (form == 1) R = op == 0 ? A + four : op == 1 ? A - four : op == 2 ? A * four : A / four;
		if (form == 2) R = op == 0 ? A + list : op == 1 ? A - list : op == 2 ? A * list : A / list;
		if (form == 3) R = op == 0 ? v[0] + A : op == 1 ? v[0] - A : op == 2 ? v[0] * A : v[0] / A;
		same(c, R, size, ch, r, w2);
		if (R.is_memory_shared(A)) c.fail("sharing", w2);
		same(c, A, size, ch, a, w2 + ": operand afterwards");
		if (form == 3) continue;
		if (form == 0) { if (op == 0) A += v[0]; if (op == 1) A -= v[0]; if (op == 2) A *= v[0]; if (op == 3) A /= v[0]; }
		if (form == 1) { if (op == 0) A += four; if (op == 1) A -= four; if (op == 2) A *= four; if (op == 3) A /= four; }
		if (form == 2) { if (op == 0) A += list; if (op == 1) A -= list; if (op == 2) A *= list; if (op == 3) A /= list; }
		same(c, A, size, ch, r, "in place " + w2);
		if (!rest.same()) c.fail("outside", w2 + " changes something outside the view");
		fill(A, size, ch, a);
	}
	if (op == 1 && std::is_signed<T>::value) { for (int i = 0; i < n; ++i) r[i] = (T)(0 - a[i]); same(c, -A, size, ch, r, what + " negated"); }
	c.transitions += 7;
}
// a matrix and a smaller one repeated over it
template<class T> static void bias(Ctx& c, const Ints& size, int ch, int va, int vb, int op) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size), D = (int)size.size();
	for (int cut = 0; cut < (1 << D); ++cut) {
		Ints bs = size;
		for (int i = 0; i < D; ++i) if (cut >> i & 1) bs[i] = size[i] % 2 == 0 && cut % 3 == 0 ? size[i] / 2 : 1;
		mt_mat w, A = make_view(size, d, ch, va, &w), B = make_view(bs, d, ch, vb);
		vector<T> a = numbers<T>(n * ch, 1, false), b = numbers<T>(total(bs) * ch, 4, op == 3), r(n * ch);
		fill(A, size, ch, a); fill(B, bs, ch, b);
		for (int k = 0; k < n; ++k) {
			Ints at = index_of(size, k);
			for (int i = 0; i < D; ++i) at[i] %= bs[i];
			for (int q = 0; q < ch; ++q) r[k * ch + q] = apply<T>(op, a[k * ch + q], b[flat(bs, at) * ch + q]);
		}
		string what = "bias " + string(OPS[op]) + " of " + shape_name(size, ch, d, va) + " and " + shape_name(bs, ch, d, vb);
		mt_mat R = op == 0 ? A.add_bias(B) : op == 1 ? A.substract_bias(B) : op == 2 ? A.mul_bias(B) : A.div_bias(B);
		bool unit = total(bs) == 1;
		bool wide = unit && sizeof(T) == 8 && std::is_integral<T>::value;   // a single element passes through a double
		if (wide) for (size_t i = 0; i < b.size(); ++i) if ((T)(double)b[i] != b[i]) return;
		same(c, R, size, ch, r, what);
		same(c, A, size, ch, a, what + ": first operand afterwards");
		same(c, B, bs, ch, b, what + ": second operand afterwards");
		c.transitions++;
	}
}
// comparison with another matrix, or with zero
template<class T> static void masks(Ctx& c, const Ints& size, int ch, int va, int vb) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size) * ch;
	vector<T> a = numbers<T>(n, 1, false), b = a;
	for (int i = 0; i < n; ++i) { if (i % 3 == 1) b[i] = (T)(b[i] + 1); if (i % 3 == 2 && (std::is_signed<T>::value || b[i] > 0)) b[i] = (T)(b[i] - 1); }
	mt_mat A = make_view(size, d, ch, va), B = make_view(size, d, ch, vb);
	fill(A, size, ch, a); fill(B, size, ch, b);
	for (int zero = 0; zero < 2; ++zero) for (int t = 0; t < 5; ++t) {
		vector<T> r(n);
		for (int i = 0; i < n; ++i) {
			T y = zero ? (T)0 : b[i];
			bool m = t == 0 ? a[i] > y : t == 1 ? a[i] < y : t == 2 ? a[i] == y : t == 3 ? a[i] <= y : a[i] >= y;
			r[i] = (T)(m ? 100 : 3);
		}
		string what = "task " + num(t) + (zero ? " with zero" : "") + " of " + shape_name(size, ch, d, va) + " and view " + num(vb);
		mt_mat R = A.element_compared_mask(zero ? mt_mat() : B, (mt_mat::Compare_Task)t, 100, 3);
		same(c, R, size, ch, r, what);
		same(c, A, size, ch, a, what + ": operand afterwards");
		if (!zero && d != mt_F64 && sizeof(T) < 8) same(c, A.element_compared_mask(B.convert(mt_F64), (mt_mat::Compare_Task)t, 100, 3), size, ch, r, what + " of another depth");
		c.transitions++;
	}
}
template<class T, class F> static void unary(Ctx& c, const Ints& size, int ch, int va, const vector<T>& a, const string& name, F f, std::function<mt_mat(const mt_mat&)> make, std::function<void(mt_mat&)> inplace, bool exact) {
	mt_mat w, A = make_view(size, Depth_Of<T>::d, ch, va, &w);
	fill(A, size, ch, a);
	Rest rest(w, A, size, ch, sizeof(T));
	vector<T> r;
	for (size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i], (int)i));
	string what = name + " of " + shape_name(size, ch, Depth_Of<T>::d, va);
	mt_mat R = make(A);
	same(c, R, size, ch, r, what, exact);
	if (R.is_memory_shared(A)) c.fail("sharing", what);
	same(c, A, size, ch, a, what + ": operand afterwards");
	if (inplace) {
		inplace(A);
		same(c, A, size, ch, r, "in place " + what, exact);
		if (!rest.same()) c.fail("outside", what + " changes something outside the view");
	}
	c.transitions++;
}
template<class T> static void functions(Ctx& c, const Ints& size, int ch, int va) {
	int n = total(size) * ch;
	bool whole = std::is_integral<T>::value;
	vector<T> a = numbers<T>(n, 1, false), p(n), s(n);
	for (int i = 0; i < n; ++i) { p[i] = (T)(1 + i % 9); s[i] = (T)(std::is_signed<T>::value ? i % 9 - 4 : i % 5); if (!whole) { p[i] = (T)(p[i] + 0.25); s[i] = (T)(s[i] + 0.25); } }
	if (std::is_signed<T>::value) unary<T>(c, size, ch, va, a, "abs", [](T x, int) { return (T)(x < 0 ? -x : x); }, [](const mt_mat& m) { return m.abs(); }, [](mt_mat& m) { m.self_abs(); }, true);
	for (int e = 0; e < 4; ++e) {
		if (whole && e == 3) continue;
		double ex = e == 3 ? 0.5 : e;
		unary<T>(c, size, ch, va, p, "pow", [=](T x, int) { return (T)std::pow((double)x, ex); }, [=](const mt_mat& m) { return m.pow(ex); }, [=](mt_mat& m) { m.self_pow(ex); }, whole);
	}
	if (whole) { for (int i = 0; i < n; ++i) { s[i] = (T)(i % 5); } }
	if (!whole) {
		unary<T>(c, size, ch, va, s, "exp", [](T x, int) { return (T)std::exp((double)x); }, [](const mt_mat& m) { return m.exp(); }, [](mt_mat& m) { m.self_exp(); }, false);
		unary<T>(c, size, ch, va, p, "log", [](T x, int) { return (T)std::log((double)x); }, [](const mt_mat& m) { return m.log(); }, [](mt_mat& m) { m.self_log(); }, false);
		unary<T>(c, size, ch, va, p, "log to 2", [](T x, int) { return (T)(std::log((double)x) / std::log(2.0)); }, [](const mt_mat& m) { return m.log(2); }, [](mt_mat& m) { m.self_log(2); }, false);
		unary<T>(c, size, ch, va, s, "linear", [](T x, int) { return x; }, [](const mt_mat& m) { return m.activate(mt_Activate_Type_Linear, 0, NULL); }, [](mt_mat& m) { m.self_activate(mt_Activate_Type_Linear, 0, NULL); }, true);
		unary<T>(c, size, ch, va, s, "relu", [](T x, int) { return x > 0 ? x : (T)0; }, [](const mt_mat& m) { return m.activate(mt_Activate_Type_Relu, 0, NULL); }, [](mt_mat& m) { m.self_activate(mt_Activate_Type_Relu, 0, NULL); }, true);
		vector<f64> slope(1, 0.5), tp = { 1.5, 0.75 };
		unary<T>(c, size, ch, va, s, "leaky relu", [](T x, int) { return (T)(x > 0 ? x : x * 0.5); }, [=](const mt_mat& m) { return m.activate(mt_Activate_Type_Relu, slope); }, [=](mt_mat& m) { m.self_activate(mt_Activate_Type_Relu, slope); }, true);
		unary<T>(c, size, ch, va, s, "sigmoid", [](T x, int) { return (T)(1 / (1 + std::exp(-(double)x))); }, [](const mt_mat& m) { return m.activate(mt_Activate_Type_Sigmoid, 0, NULL); }, [](mt_mat& m) { m.self_activate(mt_Activate_Type_Sigmoid, 0, NULL); }, false);
		unary<T>(c, size, ch, va, s, "tanh", [](T x, int) { return (T)(1.5 * std::tanh(0.75 * (double)x)); }, [=](const mt_mat& m) { return m.activate(mt_Activate_Type_Tanh, tp); }, [=](mt_mat& m) { m.self_activate(mt_Activate_Type_Tanh, tp); }, false);
		unary<T>(c, size, ch, va, s, "default tanh", [](T x, int) { return (T)(mt_Tanh_Default_Alpha * std::tanh(mt_Tanh_Default_Beta * (double)x)); }, [=](const mt_mat& m) { return m.activate(mt_Activate_Type_Tanh, 0, NULL); }, NULL, false);
		if (size.size() == 2 && ch == 1) {
			vector<T> r(n);
			for (int y = 0; y < size[0]; ++y) { double sum = 0; for (int x = 0; x < size[1]; ++x) sum += std::exp((double)s[y * size[1] + x]); for (int x = 0; x < size[1]; ++x) r[y * size[1] + x] = (T)(std::exp((double)s[y * size[1] + x]) / sum); }
			unary<T>(c, size, ch, va, s, "softmax", [&](T, int i) { return r[i]; }, [](const mt_mat& m) { return m.activate(mt_Activate_Type_Softmax, 0, NULL); }, [](mt_mat& m) { m.self_activate(mt_Activate_Type_Softmax, 0, NULL); }, false);
			for (int i = 0; i < n; ++i) s[i] = (T)(s[i] * 300);
			mt_mat A = make_view(size, Depth_Of<T>::d, ch, va), R;
			fill(A, size, ch, s);
			R = A.activate(mt_Activate_Type_Softmax, 0, NULL);
			vector<T> got = values<T>(R, size, ch);
			for (int y = 0; y < size[0]; ++y) { double sum = 0; for (int x = 0; x < size[1]; ++x) sum += got[y * size[1] + x]; if (!(fabs(sum - 1) < 1e-5)) c.fail("result", "softmax of large values"); }
		}
	}
}
// sums, means, extremes and variances over everything or one dimension
template<class T> static void reductions(Ctx& c, const Ints& size, int ch, int va) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size), D = (int)size.size();
	vector<T> a = numbers<T>(n * ch, 3, false);
	for (int low = 0; low < 3; ++low) {
		vector<T> any = numbers<T>(n * ch, 3, false);
		for (int i = 0; i < n * ch; ++i) a[i] = low == 0 ? any[i] : low == 1 ? (T)(-1 - i % 7) : (T)(1000 + i % 5);
		mt_mat A = make_view(size, d, ch, va);
		fill(A, size, ch, a);
		for (int dim = -1; dim < D; ++dim) {
			Ints rs = size;
			if (dim < 0) rs.assign(D, 1); else rs[dim] = 1;
			vector<vector<T> > parts(total(rs) * ch);
			for (int k = 0; k < n; ++k) {
				Ints at = index_of(size, k);
				if (dim < 0) at.assign(D, 0); else at[dim] = 0;
				for (int q = 0; q < ch; ++q) parts[flat(rs, at) * ch + q].push_back(a[k * ch + q]);
			}
			for (int type = 0; type < 8; ++type) {
				bool unbias = type == mt_mat::Reduce_Type_Unbias_Variance || type == mt_mat::Reduce_Type_Standard_Unbias_Variance;
				if (unbias && parts[0].size() < 2) continue;
				vector<T> r;
				for (size_t i = 0; i < parts.size(); ++i) {
					double sum = 0, mx = parts[i][0], mn = mx, var = 0;
					size_t m = parts[i].size();
					for (size_t j = 0; j < m; ++j) { sum += parts[i][j]; mx = std::max(mx, (double)parts[i][j]); mn = std::min(mn, (double)parts[i][j]); }
					for (size_t j = 0; j < m; ++j) var += (parts[i][j] - sum / m) * (parts[i][j] - sum / m);
					var /= unbias ? m - 1 : m;
					r.push_back((T)(type == mt_mat::Reduce_Type_Sum ? sum : type == mt_mat::Reduce_Type_Mean ? sum / m : type == mt_mat::Reduce_Type_Max ? mx : type == mt_mat::Reduce_Type_Min ? mn
						: type == mt_mat::Reduce_Type_Variance || type == mt_mat::Reduce_Type_Unbias_Variance ? var : sqrt(var)));
				}
				string what = "reduction " + num(type) + " over " + num(dim) + " of " + shape_name(size, ch, d, va);
				mt_mat R = A.reduce((mt_mat::Reduce_Type)type, dim);
				same(c, R, rs, ch, r, what, false);
				if (R.is_memory_shared(A)) c.fail("sharing", what);
				same(c, A, size, ch, a, what + ": operand afterwards");
				c.transitions++;
			}
		}
	}
}
template<class T> static void losses(Ctx& c, const Ints& size, int ch, int va, int vb) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size) * ch;
	vector<T> a = numbers<T>(n, 1, false), b = numbers<T>(n, 2, false);
	for (int ignore = 0; ignore < 2; ++ignore) {
		if (ignore) b[n / 2] = (T)NAN;
		mt_mat A = make_view(size, d, ch, va), B = make_view(size, d, ch, vb);
		fill(A, size, ch, a); fill(B, size, ch, b);
		vector<T> r(ch, 0);
		for (int i = 0; i < n; ++i) if (b[i] == b[i]) r[i % ch] += (a[i] - b[i]) * (a[i] - b[i]) / 2;
		same(c, A.loss(B, mt_Loss_Type_Quadratic), Ints({ 1, 1 }), ch, r, "quadratic loss of " + shape_name(size, ch, d, va) + " and view " + num(vb), false);
		if (size.size() == 2 && ch == 1) {
			vector<T> p(n), q(n, 0);
			double want = 0;
			for (int i = 0; i < n; ++i) p[i] = (T)((1 + i % 7) / 8.0);
			for (int y = 0; y < size[0]; ++y) {
				if (ignore && y == 1) { q[y * size[1]] = (T)NAN; continue; }
				if (size[1] == 1) { q[y] = (T)(y % 2); want -= std::log(y % 2 ? (double)p[y] : 1 - (double)p[y]); }
				else { int hot = (y * 2 + 1) % size[1]; q[y * size[1] + hot] = 1; want -= std::log((double)p[y * size[1] + hot]); }
			}
			fill(A, size, ch, p); fill(B, size, ch, q);
			same(c, A.loss(B, mt_Loss_Type_Logarithmic), Ints({ 1, 1 }), 1, vector<T>(1, (T)want), "logarithmic loss of " + shape_name(size, ch, d, va) + " and view " + num(vb), false);
		}
		c.transitions++;
	}
}
template<class T> static void shapes(Ctx& c, const Ints& size, int ch, int va) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size), D = (int)size.size();
	vector<T> a = numbers<T>(n * ch, 1, false);
	mt_mat A = make_view(size, d, ch, va);
	fill(A, size, ch, a);
	string name = shape_name(size, ch, d, va);
	for (int form = 0; form < 4; ++form) {
		Ints l(D), r(D), s = size;
		for (int i = 0; i < D; ++i) { l[i] = form == 1 ? 0 : (i + 1) % 3; r[i] = form == 2 ? 0 : (i + form) % 2 + (form == 3 ? 1 : 0); s[i] += l[i] + r[i]; }
		vector<f64> fillers;
		for (int q = 0; q < ch; ++q) fillers.push_back(3 + q);
		mt_mat R;
		bool four = form == 3 && ch <= 4;
		if (form == 3 && ch <= 4) R = A.expand(l, r, mt_scalar(3, 4, 5, 6));
		else R = A.expand(D, form == 1 ? NULL : &l[0], form == 2 ? NULL : &r[0], fillers);
		vector<T> want;
		int m = total(s);
		for (int k = 0; k < m; ++k) {
			Ints at = index_of(s, k);
			bool in = true;
			for (int i = 0; i < D; ++i) { at[i] -= l[i]; if (at[i] < 0 || at[i] >= size[i]) in = false; }
			for (int q = 0; q < ch; ++q) want.push_back(in ? a[flat(size, at) * ch + q] : (T)(3 + q));
		}
		same(c, R, s, ch, want, string("expansion") + (four ? " by scalar" : "") + " of " + name);
		if (R.is_memory_shared(A)) c.fail("sharing", "expansion of " + name);
		c.transitions++;
	}
	for (int st = 1; st <= 3; ++st) {
		Ints stride(D), s = size;
		for (int i = 0; i < D; ++i) { stride[i] = 1 + (st + i) % 3; s[i] = (size[i] + stride[i] - 1) / stride[i]; }
		mt_mat R = A.sub_stride(D, &stride[0]);
		vector<T> want;
		int m = total(s);
		for (int k = 0; k < m; ++k) { Ints at = index_of(s, k); for (int i = 0; i < D; ++i) at[i] *= stride[i]; for (int q = 0; q < ch; ++q) want.push_back(a[flat(size, at) * ch + q]); }
		same(c, R, s, ch, want, "every few elements of " + name);
		if (!R.is_memory_shared(A)) c.fail("sharing", "every few elements of " + name);
		c.transitions++;
	}
	// several matrices joined along a dimension or by channels
	for (int dim = 0; dim < D; ++dim) for (int count = 1; count <= 3; ++count) {
		vector<mt_mat> list;
		vector<Ints> ls;
		vector<vector<T> > lv;
		Ints s = size;
		s[dim] = 0;
		for (int i = 0; i < count; ++i) {
			Ints z = size;
			z[dim] = i == 0 ? size[dim] : i == 1 ? 1 : size[dim] + 1;
			mt_mat m = make_view(z, d, ch, (va + i) % VIEWS);
			vector<T> v = numbers<T>(total(z) * ch, i + 1, false);
			fill(m, z, ch, v);
			list.push_back(m); ls.push_back(z); lv.push_back(v);
			s[dim] += z[dim];
		}
		mt_mat R = mt_mat_helper::merge_align_dim(list, dim);
		vector<T> want;
		int m = total(s);
		for (int k = 0; k < m; ++k) {
			Ints at = index_of(s, k);
			int i = 0;
			while (at[dim] >= ls[i][dim]) { at[dim] -= ls[i][dim]; ++i; }
			for (int q = 0; q < ch; ++q) want.push_back(lv[i][flat(ls[i], at) * ch + q]);
		}
		same(c, R, s, ch, want, num(count) + " joined along " + num(dim) + " with " + name);
		for (int i = 0; i < count; ++i) if (R.is_memory_shared(list[i])) c.fail("sharing", "joined " + name);
		if (count == 1 && !mt_mat_helper::merge_align_dim(list, dim, sys_true).is_memory_shared(list[0])) c.fail("sharing", "joining one, shared");
		c.transitions++;
	}
	for (int count = 1; count <= 3; ++count) {
		vector<mt_mat> list;
		vector<vector<T> > lv;
		Ints lc;
		int tc = 0;
		for (int i = 0; i < count; ++i) {
			int q = i == 0 ? ch : i;
			mt_mat m = make_view(size, d, q, (va + i) % VIEWS);
			vector<T> v = numbers<T>(n * q, i + 1, false);
			fill(m, size, q, v);
			list.push_back(m); lv.push_back(v); lc.push_back(q);
			tc += q;
		}
		vector<T> want;
		for (int k = 0; k < n; ++k) for (int i = 0; i < count; ++i) for (int q = 0; q < lc[i]; ++q) want.push_back(lv[i][k * lc[i] + q]);
		mt_mat R = mt_mat_helper::merge_align_channel(list);
		same(c, R, size, tc, want, num(count) + " joined by channels with " + name);
		for (int i = 0; i < count; ++i) if (R.is_memory_shared(list[i])) c.fail("sharing", "joined " + name);
		vector<mt_mat> back;
		R.split(back);
		if ((int)back.size() != tc) c.fail("result", "split of " + name);
		c.transitions++;
	}
}
template<class T> static void run_kind(Ctx& c, int kind, const Ints& size, int ch, int va, int vb, int op) {
	switch (kind) {
	case 0: binary<T>(c, size, ch, va, vb, op); break;
	case 1: scalar<T>(c, size, ch, va, op); break;
	case 2: bias<T>(c, size, ch, va, vb, op); break;
	case 3: masks<T>(c, size, ch, va, vb); break;
	case 4: functions<T>(c, size, ch, va); break;
	case 5: shapes<T>(c, size, ch, va); break;
	}
}
static void any_depth(Ctx& c, int kind, bool two, bool ops, const Ints& chs) {
	int d = c.choose(10);
	const Ints& size = SIZES[c.choose((int)SIZES.size())];
	int ch = chs[c.choose((int)chs.size())], va = c.choose(VIEWS), vb = two ? c.choose(VIEWS) : 0, op = ops ? c.choose(4) : 0;
	if (!c.shard()) return;
	switch (d) {
	case mt_U8: run_kind<u8>(c, kind, size, ch, va, vb, op); break;
	case mt_I8: run_kind<i8>(c, kind, size, ch, va, vb, op); break;
	case mt_U16: run_kind<u16>(c, kind, size, ch, va, vb, op); break;
	case mt_I16: run_kind<i16>(c, kind, size, ch, va, vb, op); break;
	case mt_U32: run_kind<u32>(c, kind, size, ch, va, vb, op); break;
	case mt_I32: run_kind<i32>(c, kind, size, ch, va, vb, op); break;
	case mt_U64: run_kind<u64>(c, kind, size, ch, va, vb, op); break;
	case mt_I64: run_kind<i64>(c, kind, size, ch, va, vb, op); break;
	case mt_F32: run_kind<f32>(c, kind, size, ch, va, vb, op); break;
	case mt_F64: run_kind<f64>(c, kind, size, ch, va, vb, op); break;
	}
	c.nontrivial++;
	c.outcome(mix(mix(mix(d, size.size() * 8 + size[0]), mix(ch, va)), mix(vb * 8 + op, kind)));
}
// more than 65536 elements, sides beyond 32767
static const vector<Ints> LARGE = { { 2, 40000 }, { 40000, 2 }, { 301, 250 }, { 3, 5, 5001 }, { 70001 } };
static void large(Ctx& c) {
	const Ints& size = LARGE[c.choose((int)LARGE.size())];
	int kind = c.choose(8), pick = c.choose(c.thorough ? 3 : 1), d = (pick + kind) % 3, va = (pick * 3 + kind + size[0]) % VIEWS, op = (pick + size[0]) % 4, vb = kind == 0 || kind == 2 || kind == 3 || kind == 7 ? (va * 3 + op + d) % VIEWS : 0;
	if (!c.shard()) return;
	if (kind < 6) {
		if (d == 0) run_kind<u8>(c, kind, size, 1, va, vb, op);
		else if (d == 1) run_kind<i32>(c, kind, size, 2, va, vb, op);
		else run_kind<f64>(c, kind, size, 1, va, vb, op);
	} else if (d) {
		if (kind == 6) reductions<f64>(c, size, d, va);
		else losses<f64>(c, size, d, va, vb);
	}
	c.nontrivial++;
	c.outcome(mix(mix(d, size.size() * 8 + size[0]), mix(va * 8 + kind, vb * 8 + op)));
}
static void real_depth(Ctx& c, int kind, const Ints& chs) {
	int d = c.choose(2);
	const Ints& size = SIZES[c.choose((int)SIZES.size())];
	int ch = chs[c.choose((int)chs.size())], va = c.choose(VIEWS), vb = kind ? c.choose(VIEWS) : 0;
	if (!c.shard()) return;
	if (kind == 0) { if (d) reductions<f64>(c, size, ch, va); else reductions<f32>(c, size, ch, va); }
	else { if (d) losses<f64>(c, size, ch, va, vb); else losses<f32>(c, size, ch, va, vb); }
	c.nontrivial++;
	c.outcome(mix(mix(d, size.size() * 8 + size[0]), mix(ch * 8 + va, vb * 2 + kind)));
}
// every symmetric matrix of small integers
template<class T> static void eigen(Ctx& c, int n, const Ints& alphabet) {
	vector<T> a(n * n);
	for (int y = 0; y < n; ++y) for (int x = y; x < n; ++x) a[y * n + x] = a[x * n + y] = (T)alphabet[c.choose((int)alphabet.size())];
	int view = c.choose(VIEWS);
	if (!c.shard()) return;
	Ints size({ n, n });
	mt_mat A = make_view(size, Depth_Of<T>::d, 1, view), val, vec;
	fill(A, size, 1, a);
	A.symmetry_eigen(val, vec);
	string what = "eigenvalues of";
	for (size_t i = 0; i < a.size(); ++i) what += " " + num((int)a[i]);
	if (!has_shape(val, Ints({ 1, n }), 1, Depth_Of<T>::d) || !has_shape(vec, size, 1, Depth_Of<T>::d)) c.fail("shape", what);
	vector<T> l = values<T>(val, Ints({ 1, n }), 1), v = values<T>(vec, size, 1);
	double e = sizeof(T) == 4 ? 1e-3 : 1e-5;
	for (int k = 0; k < n; ++k) {
		if (k && l[k] > l[k - 1] + e) c.fail("order", what);
		for (int y = 0; y < n; ++y) {
			double s = 0;
			for (int x = 0; x < n; ++x) s += (double)a[y * n + x] * v[k * n + x];
			if (!(fabs(s - (double)l[k] * v[k * n + y]) < e)) c.fail("eigen", what + ": vector " + num(k));
		}
		for (int j = 0; j <= k; ++j) {
			double s = 0;
			for (int x = 0; x < n; ++x) s += (double)v[k * n + x] * v[j * n + x];
			if (!(fabs(s - (j == k)) < e)) c.fail("orthonormal", what + ": vectors " + num(j) + " and " + num(k));
		}
	}
	same(c, A, size, 1, a, what + ": operand afterwards");
	c.transitions++; c.nontrivial++;
	uint64_t h = n;
	for (size_t i = 0; i < a.size(); ++i) h = mix(h, (uint64_t)(int64_t)a[i]);
	c.outcome(mix(h, view));
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups.push_back(Group("two matrices", [](Ctx& c) { any_depth(c, 0, true, true, { 1, 3 }); }));
	s.groups.push_back(Group("matrix and numbers", [](Ctx& c) { any_depth(c, 1, false, true, { 1, 2, 5 }); }));
	s.groups.push_back(Group("matrix and bias", [](Ctx& c) { any_depth(c, 2, true, true, { 1, 2 }); }));
	s.groups.push_back(Group("comparison", [](Ctx& c) { any_depth(c, 3, true, false, { 1, 2 }); }));
	s.groups.push_back(Group("functions", [](Ctx& c) { any_depth(c, 4, false, false, { 1, 2, 5 }); }));
	s.groups.push_back(Group("expand, stride, join", [](Ctx& c) { any_depth(c, 5, false, false, { 1, 2, 5 }); }));
	s.groups.push_back(Group("reductions", [](Ctx& c) { real_depth(c, 0, { 1, 3, 6 }); }));
	s.groups.push_back(Group("losses", [](Ctx& c) { real_depth(c, 1, { 1, 3 }); }));
	s.groups.push_back(Group("matrices of more than 65536 elements", large));
	s.groups.push_back(Group("eigenvalues of 1", [](Ctx& c) { eigen<f64>(c, 1, { -2, 0, 3 }); }));
	s.groups.push_back(Group("eigenvalues of 2", [](Ctx& c) { eigen<f64>(c, 2, { -2, -1, 0, 1, 3 }); }));
	s.groups.push_back(Group("eigenvalues of 2, floats", [](Ctx& c) { eigen<f32>(c, 2, { -2, 0, 1, 3 }); }));
	s.groups.push_back(Group("eigenvalues of 3", [](Ctx& c) { eigen<f64>(c, 3, { -1, 0, 2 }); }));
	s.groups.push_back(Group("two matrices, more channels", [](Ctx& c) { any_depth(c, 0, true, true, { 2, 4, 5 }); }, false));
	s.groups.push_back(Group("eigenvalues of 4", [](Ctx& c) { eigen<f64>(c, 4, { 0, 1 }); }, false));
	s.groups.push_back(Group("eigenvalues of 3, more", [](Ctx& c) { eigen<f64>(c, 3, { -2, -1, 0, 1, 3 }); }, false));
	return run(s, argc, argv);
}
