// The OpenCV entry points basicimg refers to. There is no OpenCV library here, only its headers; these stand-ins
// give the image module the memory handling and the few operations its own code relies on.
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
#include <stdlib.h>
#include <string.h>
#include "cv_stub.h"

namespace cv_stub {
std::vector<Written> written;
bool fail_write = false;
int read_kind = 99, resize_kind = 99;
}

namespace cv {

char* String::allocate(size_t len) {
	// layout as OpenCV's: a reference counter before the text
	size_t total = (len + 1 + 3) & ~(size_t)3;
	int* data = (int*)malloc(total + sizeof(int));
	data[0] = 1;
	cstr_ = (char*)(data + 1);
	len_ = len;
	cstr_[len] = 0;
	return cstr_;
}
void String::deallocate() {
	int* data = (int*)cstr_;
	len_ = 0;
	cstr_ = 0;
	if (data && --data[-1] == 0) free(data - 1);
}

void fastFree(void* p) { if (p) { void* u = ((void**)p)[-1]; free(u); } }
void* fastMalloc(size_t n) {
	char* u = (char*)malloc(n + sizeof(void*) + 64);
	char* p = (char*)(((uintptr_t)(u + sizeof(void*)) + 63) & ~(uintptr_t)63);
	((void**)p)[-1] = u;
	return p;
}

static void setup(Mat& m, int d, const int* sizes, const size_t* steps) {
	m.dims = d;
	size_t es = CV_ELEM_SIZE(m.flags);
	if (d <= 2) {
		m.rows = sizes[0];
		m.cols = d == 2 ? sizes[1] : 1;
		m.size.p = &m.rows;
		m.step.p = m.step.buf;
		m.step.buf[1] = es;
		m.step.buf[0] = steps ? steps[0] : es * m.cols;
		m.dims = 2;
	}
	if (m.step.buf[0] == es * m.cols) m.flags |= Mat::CONTINUOUS_FLAG;
}

void Mat::create(int d, const int* sizes, int type) {
	type &= Mat::TYPE_MASK;
	if (data && d == 2 && dims == 2 && rows == sizes[0] && cols == sizes[1] && (flags & Mat::TYPE_MASK) == type) return;
	release();
	flags = Mat::MAGIC_VAL | type;
	setup(*this, d, sizes, NULL);
	size_t n = (size_t)rows * cols * CV_ELEM_SIZE(type);
	UMatData* um = (UMatData*)calloc(1, sizeof(UMatData));
	um->data = um->origdata = (uchar*)fastMalloc(n ? n : 1);
	um->size = n;
	um->refcount = 1;
	u = um;
	data = um->data;
	datastart = data;
	datalimit = dataend = data + n;
}
Mat::Mat(int d, const int* sizes, int type, void* dt, const size_t* steps)
	: flags(Mat::MAGIC_VAL | (type & Mat::TYPE_MASK)), dims(0), rows(0), cols(0), data((uchar*)dt), datastart((uchar*)dt), dataend(0), datalimit(0), allocator(0), u(0), size(&rows) {
	setup(*this, d, sizes, steps);
	dataend = datalimit = data + step.buf[0] * rows;
}
void Mat::copySize(const Mat&) { abort(); } // only pictures here, and those of two dimensions keep their size inside
void Mat::deallocate() {
	if (u) {
		UMatData* um = u;
		u = NULL;
		if (!(um->flags & UMatData::USER_ALLOCATED)) fastFree(um->origdata);
		free(um);
	}
}
Mat& Mat::operator=(const Scalar& s) {
	for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x)
		for (int c = 0; c < channels(); ++c) if (depth() == CV_8U) data[step.buf[0] * y + (size_t)x * channels() + c] = (uchar)s[c];
	return *this;
}

static Mat* in(InputArray a) { return (Mat*)a.getObj(); }

void Sobel(InputArray s, OutputArray d, int ddepth, int dx, int dy, int ksize, double, double, int) {
	Mat& src = *in(s);
	Mat& dst = *in(d);
	int sz[2] = { src.rows, src.cols };
	dst.create(2, sz, CV_MAKETYPE(ddepth, src.channels()));
	std::vector<int> kx, ky;
	for (int p = 0; p < 2; ++p) {
		int order = p == 0 ? dx : dy;
		std::vector<int>& k = p == 0 ? kx : ky;
		if (ksize == 1) { if (order == 0) k.assign(1, 1); else { k.assign(3, 0); k[0] = -1; k[2] = 1; } continue; }
		k.assign(1, 1);
		for (int i = 0; i < ksize - 1 - order; ++i) { std::vector<int> n(k.size() + 1, 0); for (size_t j = 0; j < k.size(); ++j) { n[j] += k[j]; n[j + 1] += k[j]; } k = n; }
		for (int i = 0; i < order; ++i) { std::vector<int> n(k.size() + 1, 0); for (size_t j = 0; j < k.size(); ++j) { n[j] -= k[j]; n[j + 1] += k[j]; } k = n; }
	}
	struct B { static int at(int p, int n) { if (n == 1) return 0; while (p < 0 || p >= n) p = p < 0 ? -p : 2 * n - 2 - p; return p; } };
	int cn = src.channels();
	for (int y = 0; y < src.rows; ++y) for (int x = 0; x < src.cols; ++x) for (int c = 0; c < cn; ++c) {
		long v = 0;
		for (size_t j = 0; j < ky.size(); ++j) for (size_t i = 0; i < kx.size(); ++i)
			v += (long)ky[j] * kx[i] * src.data[src.step.buf[0] * B::at(y + (int)j - (int)ky.size() / 2, src.rows) + (size_t)B::at(x + (int)i - (int)kx.size() / 2, src.cols) * cn + c];
		uchar* o = dst.data + dst.step.buf[0] * y + ((size_t)x * cn + c) * CV_ELEM_SIZE1(dst.type());
		if (ddepth == CV_16S) *(short*)o = (short)(v < -32768 ? -32768 : v > 32767 ? 32767 : v);
		else if (ddepth == CV_32S) *(int*)o = (int)v;
		else if (ddepth == CV_32F) *(float*)o = (float)v;
		else if (ddepth == CV_64F) *(double*)o = (double)v;
		else *o = (uchar)(v < 0 ? 0 : v > 255 ? 255 : v);
	}
}
Mat imread(const String& name, int kind) {
	cv_stub::read_kind = kind;
	for (size_t i = 0; i < cv_stub::written.size(); ++i) {
		cv_stub::Written& w = cv_stub::written[i];
		if (w.name != name.c_str()) continue;
		Mat m;
		int sz[2] = { w.rows, w.cols };
		m.create(2, sz, CV_MAKETYPE(CV_8U, w.channels));
		memcpy(m.data, w.data.data(), w.data.size());
		return m;
	}
	return Mat();
}
bool imwrite(const String& name, InputArray img, const std::vector<int>&) {
	if (cv_stub::fail_write) return false;
	Mat& m = *in(img);
	cv_stub::Written w;
	w.name = std::string(name.c_str());
	w.rows = m.rows; w.cols = m.cols; w.channels = m.channels();
	for (int y = 0; y < m.rows; ++y) w.data.insert(w.data.end(), m.data + m.step.buf[0] * y, m.data + m.step.buf[0] * y + (size_t)m.cols * m.channels());
	cv_stub::written.push_back(w);
	return true;
}
void resize(InputArray s, OutputArray d, Size size, double, double, int kind) {
	Mat src = *in(s);
	cv_stub::resize_kind = kind;
	Mat& dst = *in(d);
	int sz[2] = { size.height, size.width };
	dst.create(2, sz, src.type());
	for (int y = 0; y < dst.rows; ++y) for (int x = 0; x < dst.cols; ++x)
		memcpy(dst.data + dst.step.buf[0] * y + x * dst.elemSize(), src.data + src.step.buf[0] * (y * src.rows / dst.rows) + (x * src.cols / dst.cols) * src.elemSize(), src.elemSize());
}
void cvtColor(InputArray s, OutputArray d, int code, int) {
	Mat src = *in(s); // may be the same object as the result
	Mat& dst = *in(d);
	int sz[2] = { src.rows, src.cols };
	int dc = code == 0 || code == 9 ? 4 : code == 1 ? 3 : 1;
	dst.create(2, sz, CV_MAKETYPE(CV_8U, dc));
	int sc = src.channels();
	for (int y = 0; y < src.rows; ++y) for (int x = 0; x < src.cols; ++x) {
		uchar* i = src.data + src.step.buf[0] * y + x * sc;
		uchar* o = dst.data + dst.step.buf[0] * y + x * dc;
		if (dc == 1) o[0] = (uchar)((i[0] * 1868 + i[1] * 9617 + i[2] * 4899 + 8192) >> 14);
		else for (int c = 0; c < dc; ++c) o[c] = c == 3 ? 255 : sc == 1 ? i[0] : i[c];
	}
}
}
