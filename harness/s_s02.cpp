// S02: buffers are sequences of bytes with a position, whatever they are kept in; failures are reported.
#include "repo.h"
#include "mc.h"
#include <memory>
using namespace mc;

static string file_name() { char b[32]; snprintf(b, sizeof b, "/b%d", (int)getpid()); return run_dir() + b; }
static void put_file(const string& s) { FILE* f = fopen(file_name().c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

struct Bad { string what; };
static void need(bool ok, const string& what) { if (!ok) { Bad b; b.what = what; throw b; } }
static string num(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }
static string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

enum { MEM_BYTE, MEM_TEXT, FILE_BYTE, FILE_TEXT, HANDLE_BYTE, HANDLE_TEXT, KINDS };
static const char* kind_name[] = {"byte buffer", "string buffer", "byte file", "string file", "byte file of an open handle", "string file of an open handle"};
static bool is_text(int k) { return k & 1; }

// what writes do: the bytes each adds at the position
static const int WRITES = 15, SEEKS = 7;
static string bits(const void* p, size_t n) { return string((const char*)p, n); }
template <class T> static string raw(T v) { return bits(&v, sizeof v); }
static const double F[] = {0.5, -1234.0625};
static string write_bytes(int op, bool text) {
	switch (op) {
	case 0: return text ? "200" : raw<u8>(200);
	case 1: return text ? "q" : "q";
	case 2: return text ? "-12345" : raw<i16>(-12345);
	case 3: return text ? "65535" : raw<u16>(65535);
	case 4: return text ? "-2147483647" : raw<i32>(-2147483647);
	case 5: return text ? "4294967295" : raw<u32>(4294967295u);
	case 6: return text ? "-9007199254740993" : raw<i64>(-9007199254740993ll);
	case 7: return text ? "18446744073709551615" : raw<u64>(~0ull);
	case 8: return text ? "0.5000000" : raw<f32>(0.5f);
	case 9: return text ? "-1234.0625000000000000" : raw<f64>(-1234.0625);
	case 10: return text ? "true" : string(1, '\1');
	case 11: return "hey";
	case 12: return "";
	case 13: return text ? string("x\0y\n", 4) : string("\1\0\2", 3);
	case 14: return text ? "literal" : string("\3\4", 2);
	}
	return "";
}
static void write_op(sys_buffer_writer* w, int op, bool text) {
	sys_buffer_writer* r = w;
	switch (op) {
	case 0: r = w->write((u8)200); break;
	case 1: r = w->write((i8)'q'); break;
	case 2: r = w->write((i16)-12345); break;
	case 3: r = w->write((u16)65535); break;
	case 4: r = w->write((i32)-2147483647); break;
	case 5: r = w->write((u32)4294967295u); break;
	case 6: r = w->write((i64)-9007199254740993ll); break;
	case 7: r = w->write((u64)~0ull); break;
	case 8: r = w->write((f32)0.5f); break;
	case 9: r = w->write((f64)-1234.0625); break;
	case 10: r = w->write(b8(true)); break;
	case 11: r = w->write(string("hey")); break;
	case 12: r = w->write(string()); if (!text) r = ((sys_byte_buffer_writer*)w)->write(vector<u8>()); break;
	case 13: if (text) r = w->write(string("x\0y\n", 4)); else { vector<u8> v; v.push_back(1); v.push_back(0); v.push_back(2); r = ((sys_byte_buffer_writer*)w)->write(v); } break;
	case 14: if (text) r = w->write("literal"); else { u8 a[4] = {9, 3, 4, 9}; r = ((sys_byte_buffer_writer*)w)->write(a + 1, a + 3); } break;
	}
	need(r == w, "write returns another buffer");
}
static void seek_of(int op, long long pos, long long size, long long& offset, sys_File_Seek& type, long long& to) {
	type = sys_File_Seek_Set;
	switch (op) {
	case 0: offset = 0; to = 0; break;
	case 1: offset = to = size / 2; break;
	case 2: offset = to = size; break;
	case 3: type = sys_File_Seek_Cur; offset = pos > 0 ? -1 : 0; to = pos + offset; break;
	case 4: type = sys_File_Seek_Cur; offset = pos < size ? 1 : 0; to = pos + offset; break;
	case 5: type = sys_File_Seek_End; offset = 0; to = size; break;
	case 6: type = sys_File_Seek_End; offset = size > 0 ? -1 : 0; to = size + offset; break;
	}
}
static void model_write(string& data, long long& pos, const string& bytes) {
	if ((long long)data.size() < pos + (long long)bytes.size()) data.resize(pos + bytes.size());
	memcpy(&data[0] + pos, bytes.data(), bytes.size());
	pos += bytes.size();
}

static void writers(Ctx& c, int depth, int writes) {
	int kind = c.choose(KINDS), n = 0;
	int ops[12];
	for (; n < depth; ++n) {
		ops[n] = c.choose(writes + SEEKS + 1);
		if (ops[n] == 0) break;
	}
	if (!c.shard()) return;
	bool text = is_text(kind);
	string said;
	string mem_text;
	vector<u8> mem;
	FILE* f = NULL;
	std::unique_ptr<sys_buffer_writer> w;
	if (kind == MEM_BYTE) w.reset(new sys_byte_buffer_writer(&mem));
	if (kind == MEM_TEXT) w.reset(new sys_string_buffer_writer(&mem_text));
	if (kind == FILE_BYTE) w.reset(new sys_byte_file_buffer_writer(file_name()));
	if (kind == FILE_TEXT) w.reset(new sys_string_file_buffer_writer(file_name()));
	if (kind >= HANDLE_BYTE) f = fopen(file_name().c_str(), "wb");
	if (kind == HANDLE_BYTE) w.reset(new sys_byte_file_buffer_writer(f));
	if (kind == HANDLE_TEXT) w.reset(new sys_string_file_buffer_writer(f));
	string data;
	long long pos = 0;
	try {
		need((bool)(u8)w->is_string_buffer() == text, "kind of buffer");
		for (int i = 0; i < n; ++i) {
			int op = ops[i] - 1;
			if (op < writes) {
				int o = writes == WRITES ? op : (int[]){0, 6, 11, 13}[op];
				said += " write" + num(o);
				write_op(w.get(), o, text);
				model_write(data, pos, write_bytes(o, text));
			} else {
				long long off, to;
				sys_File_Seek type;
				seek_of(op - writes, pos, data.size(), off, type, to);
				said += fmt(" seek(%lld,%d)", off, (int)type);
				w->seek(off, type);
				pos = to;
			}
			c.transitions++;
			need(w->position() == pos, "position " + num(w->position()) + " instead of " + num(pos));
			need(w->get_status() == sys_IO_Status_OK, "status of a buffer without failures");
		}
		w->close();
		need(w->get_status() == sys_IO_Status_OK, "status after closing");
		string got = kind == MEM_BYTE ? string(mem.begin(), mem.end()) : kind == MEM_TEXT ? mem_text : "";
		if (kind >= FILE_BYTE) got = read_file(file_name());
		need(got == data, "content " + jstr(got) + " instead of " + jstr(data));
	} catch (Bad& b) {
		if (f) fclose(f);
		remove(file_name().c_str());
		c.fail("writing", string(kind_name[kind]) + ":" + said + ": " + b.what);
	}
	w.reset();
	if (f) fclose(f);
	if (kind >= FILE_BYTE) remove(file_name().c_str());
	c.nontrivial++;
	c.state(mix(hash_bytes(data.data(), data.size()), pos));
	if (c.want_sample()) c.sample(string(kind_name[kind]) + ":" + said);
}

static string content(int k) {
	switch (k) {
	case 0: return "";
	case 1: return "7";
	case 2: return string("\n", 1);
	case 3: return "ab\ncd\n";
	case 4: return "ab\n\n12";
	case 5: return string("x\0\xff\n\xfe\0z9", 8);
	case 6: return "-12.5e1 tail";
	case 7: { string s; for (int i = 0; i < 40; ++i) s += (char)(i * 37 + 11); return s; }
	}
	return "";
}
template <class T> static void num_read(T got, const string& want, const char* what) { need(bits(&got, sizeof got) == want, string(what) + " differs"); }

static void readers(Ctx& c, int depth, int contents) {
	int kind = c.choose(KINDS), n = 0;
	string data = content(contents == 8 ? c.choose(8) : (int[]){3, 5, 7}[c.choose(3)]);
	bool text = is_text(kind);
	int reads = text ? 9 : 16;
	int ops[12];
	for (; n < depth; ++n) {
		ops[n] = c.choose(reads + SEEKS + 1);
		if (ops[n] == 0) break;
	}
	if (!c.shard()) return;
	if (kind >= FILE_BYTE) put_file(data);
	// the exact bytes, so that reads past them are seen
	u8* exact = (u8*)malloc(data.size() ? data.size() : 1);
	memcpy(exact, data.data(), data.size());
	FILE* f = kind >= HANDLE_BYTE ? fopen(file_name().c_str(), "rb") : NULL;
	std::unique_ptr<sys_buffer_reader> r;
	sys_byte_buffer_reader* br = NULL;
	sys_string_buffer_reader* tr = NULL;
	if (kind == MEM_BYTE) r.reset(new sys_byte_buffer_reader(exact, exact + data.size()));
	if (kind == MEM_TEXT) r.reset(new sys_string_buffer_reader(data));
	if (kind == FILE_BYTE) r.reset(new sys_byte_file_buffer_reader(file_name()));
	if (kind == FILE_TEXT) r.reset(new sys_string_file_buffer_reader(file_name()));
	if (kind == HANDLE_BYTE) r.reset(new sys_byte_file_buffer_reader(f));
	if (kind == HANDLE_TEXT) r.reset(new sys_string_file_buffer_reader(f));
	br = r->to_byte_buffer_reader();
	tr = r->to_string_buffer_reader();
	string said;
	long long pos = 0;
	long long size = data.size();
	bool failed = false;
	try {
		need((bool)(u8)r->is_string_buffer() == text && (br != NULL) == !text && (tr != NULL) == text, "kind of buffer");
		for (int i = 0; i < n; ++i) {
			int op = ops[i] - 1;
			c.transitions++;
			if (op >= reads) {
				long long off, to;
				sys_File_Seek type;
				seek_of(op - reads, pos, size, off, type, to);
				said += fmt(" seek(%lld,%d)", off, (int)type);
				r->seek(off, type);
				pos = to;
			} else {
				said += " read" + num(op);
				static const int NB[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 0, 3, 1, 2, 5};
				static const int NT[] = {1, 0, 1, 3, -1, -1, 1, 2, 5};
				long long want = text ? NT[op] : NB[op];
				if (want < 0) {
					size_t e = data.find('\n', pos);
					want = pos >= size ? 1 : e == string::npos ? size - pos : (long long)e + 1 - pos;
				}
				bool fits = pos + want <= size;
				string w = fits ? data.substr(pos, want) : "";
				string s = "untouched";
				if (!text) {
					switch (op) {
					case 0: { b8 v = br->read_b8(); if (fits) num_read(v.m_data, w, "b8"); break; }
					case 1: { i8 v = br->read_c8(); if (fits) num_read(v, w, "c8"); break; }
					case 2: { u8 v = br->read_u8(); if (fits) num_read(v, w, "u8"); break; }
					case 3: { u16 v = br->read_u16(); if (fits) num_read(v, w, "u16"); break; }
					case 4: { i16 v = br->read_i16(); if (fits) num_read(v, w, "i16"); break; }
					case 5: { u32 v = br->read_u32(); if (fits) num_read(v, w, "u32"); break; }
					case 6: { i32 v = br->read_i32(); if (fits) num_read(v, w, "i32"); break; }
					case 7: { u64 v = br->read_u64(); if (fits) num_read(v, w, "u64"); break; }
					case 8: { i64 v = br->read_i64(); if (fits) num_read(v, w, "i64"); break; }
					case 9: { f32 v = br->read_f32(); if (fits) need(memcmp(&v, w.data(), 4) == 0 || v != v, "f32"); break; }
					case 10: { f64 v = br->read_f64(); if (fits) need(memcmp(&v, w.data(), 8) == 0 || v != v, "f64"); break; }
					case 11: case 12: br->read_str(s, (i32)want); if (fits && !failed) need(s == w, "text " + jstr(s)); break;
					case 13: { u8 v[3] = {0xEE, 0xEE, 0xEE}; br->read(v + 1, 1); if (fits) need(v[1] == (u8)w[0], "raw byte"); need(v[0] == 0xEE && v[2] == 0xEE, "bytes around"); break; }
					case 14: case 15: { vector<u8> v(1, 0xEE); br->read(v, (i32)want); if (fits) need(string(v.begin(), v.end()) == w, "bytes"); break; }
					}
				} else {
					switch (op) {
					case 0: { i8 v = tr->read_char(); if (fits) need(string(1, v) == w, "character"); break; }
					case 1: case 2: case 3: tr->read_str(s, (i32)want); if (fits) need(s == w, "text " + jstr(s)); break;
					case 4: tr->read_line(s); if (fits) need(s == (w[w.size() - 1] == '\n' ? w.substr(0, w.size() - 1) : w), "line " + jstr(s)); break;
					case 5: s = tr->read_line(); if (fits) need(s == (w[w.size() - 1] == '\n' ? w.substr(0, w.size() - 1) : w), "line " + jstr(s)); break;
					case 6: case 7: case 8: { f64 v = tr->read((i32)want); if (fits) { double d = atof(w.c_str()); need(memcmp(&v, &d, 8) == 0 || (v != v && d != d), "number"); } break; }
					}
				}
				if (fits) pos += want; else failed = true;
			}
			need(r->position() == pos, "position " + num(r->position()) + " instead of " + num(pos));
			need(r->size() == size, "size");
			need(r->remain_size() == size - pos, "remaining size");
			need((bool)(u8)r->is_eof() == (pos == size), "end of the data");
			need((r->get_status() != sys_IO_Status_OK) == failed, failed ? "reading past the end is not reported" : "status of a buffer without failures");
		}
	} catch (Bad& b) {
		r.reset();
		if (f) fclose(f);
		free(exact);
		remove(file_name().c_str());
		c.fail("reading", string(kind_name[kind]) + " of " + jstr(data) + ":" + said + ": " + b.what);
	}
	r->close();
	r.reset();
	if (f) fclose(f);
	free(exact);
	if (kind >= FILE_BYTE) remove(file_name().c_str());
	c.nontrivial++;
	c.state(mix(hash_bytes(data.data(), data.size()), pos * 2 + failed));
	if (c.want_sample()) c.sample(string(kind_name[kind]) + ":" + said);
}

// a file whose device fails at a chosen operation
struct Device { string data; size_t pos; int calls, fail_at, how; bool fired; };
static ssize_t d_write(void* p, const char* b, size_t n) {
	Device* d = (Device*)p;
	int k = d->calls++;
	if (k == d->fail_at && d->how != 3) {
		d->fired = true;
		if (d->how == 0) { errno = EIO; return 0; }
		if (d->how == 1) n = (n + 1) / 2 == n ? n - 1 : (n + 1) / 2;
		if (d->how == 2) { d->fail_at = d->calls; errno = ENOSPC; return 0; }   // and from now on
		if (!n) { errno = EIO; return 0; }
	}
	if (d->data.size() < d->pos + n) d->data.resize(d->pos + n);
	memcpy(&d->data[d->pos], b, n);
	d->pos += n;
	return n;
}
static ssize_t d_read(void* p, char* b, size_t n) {
	Device* d = (Device*)p;
	int k = d->calls++;
	size_t left = d->pos < d->data.size() ? d->data.size() - d->pos : 0;
	if (n > left) n = left;
	if (k == d->fail_at) {
		d->fired = true;
		if (d->how == 0) { errno = EIO; return -1; }
		if (d->how == 1) n = (n + 1) / 2;
		if (d->how >= 2) { d->fail_at = d->calls; errno = EIO; return -1; }
	}
	memcpy(b, d->data.data() + d->pos, n);
	d->pos += n;
	return n;
}
static int d_seek(void* p, off64_t* off, int whence) {
	Device* d = (Device*)p;
	long long to = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (long long)d->pos + *off : (long long)d->data.size() + *off;
	if (to < 0) return -1;
	d->pos = to;
	*off = to;
	return 0;
}
static int d_close(void* p) { Device* d = (Device*)p; if (d->how == 3 && d->fail_at >= 0) { d->fired = true; errno = EIO; return -1; } return 0; }

static void write_faults(Ctx& c) {
	int text = c.choose(2), buffering = c.choose(3), how = c.choose(4), fail_at = c.choose(how == 3 ? 1 : 6) - (how == 3 ? 0 : 1), n = 0;
	int ops[4];
	for (; n < 4; ++n) { ops[n] = c.choose(7); if (!ops[n]) break; }
	if (!c.shard()) return;
	Device d = {"", 0, 0, fail_at, how, false};
	cookie_io_functions_t io = {d_read, d_write, d_seek, d_close};
	FILE* f = fopencookie(&d, "w", io);
	char small[4];
	if (buffering == 0) setvbuf(f, NULL, _IONBF, 0);
	if (buffering == 1) setvbuf(f, small, _IOFBF, sizeof small);
	string data, said;
	long long pos = 0;
	sys_IO_Status status;
	{
		std::unique_ptr<sys_buffer_writer> w;
		if (text) w.reset(new sys_string_file_buffer_writer(f, sys_true)); else w.reset(new sys_byte_file_buffer_writer(f, sys_true));
		for (int i = 0; i < n; ++i) {
			int op = ops[i] - 1;
			c.transitions++;
			if (op < 4) {
				string big(op == 3 ? 9000 : 1, 'b');
				int o = op == 0 ? 0 : op == 1 ? 7 : 11;
				said += op == 3 ? " write(9000)" : " write" + num(o);
				if (op == 3) { w->write(big); model_write(data, pos, big); }
				else { write_op(w.get(), o, text); model_write(data, pos, write_bytes(o, text)); }
			} else if (op == 4) { said += " seek(0)"; w->seek(0, sys_File_Seek_Set); pos = 0; }
			else { said += " seek(end)"; w->seek(0, sys_File_Seek_End); pos = data.size(); }
		}
		w->close();
		status = w->get_status();
		w->close();
	}
	string where = fmt("%s, buffering %d, fault %d at %d:", text ? "string file" : "byte file", buffering, how, fail_at) + said;
	if (!d.fired && status != sys_IO_Status_OK) c.fail("an error is reported that did not happen", where);
	if (status == sys_IO_Status_OK && d.data != data) c.fail("lost data is not reported", where + fmt(": %zu bytes of %zu", d.data.size(), data.size()));
	if (how == 3 && status == sys_IO_Status_OK) c.fail("a failing close is not reported", where);
	if (d.fired) c.nontrivial++;
	c.outcome(mix(status, mix(d.fired, hash_bytes(d.data.data(), d.data.size()))));
}

static void read_faults(Ctx& c) {
	int text = c.choose(2), buffering = c.choose(3), how = c.choose(3), fail_at = c.choose(6) - 1, n = 0;
	int ops[4];
	for (; n < 4; ++n) { ops[n] = c.choose(text ? 6 : 5); if (!ops[n]) break; }
	if (!c.shard()) return;
	string data;
	for (int i = 0; i < 60; ++i) data += i % 7 == 6 ? '\n' : (char)('A' + i % 26);
	Device d = {data, 0, 0, fail_at, how, false};
	cookie_io_functions_t io = {d_read, d_write, d_seek, d_close};
	FILE* f = fopencookie(&d, "r", io);
	char small[4];
	if (buffering == 0) setvbuf(f, NULL, _IONBF, 0);
	if (buffering == 1) setvbuf(f, small, _IOFBF, sizeof small);
	string said, wrong;
	{
		std::unique_ptr<sys_buffer_reader> r;
		if (text) r.reset(new sys_string_file_buffer_reader(f, sys_true)); else r.reset(new sys_byte_file_buffer_reader(f, sys_true));
		long long pos = 0;
		for (int i = 0; i < n; ++i) {
			int op = ops[i];
			c.transitions++;
			string got, want;
			if (op == 1) { want = data.substr(pos, 1); said += " one"; if (text) got = string(1, r->to_string_buffer_reader()->read_char()); else got = string(1, r->to_byte_buffer_reader()->read_c8()); pos += 1; }
			if (op == 2) { want = data.substr(pos, 10); said += " str10"; r->read_str(got, 10); pos += 10; }
			if (op == 3) { want = data.substr(pos, 3); said += " str3"; r->read_str(got, 3); pos += 3; }
			if (op == 4) { said += " seek(20)"; r->seek(20, sys_File_Seek_Set); pos = 20; }
			if (op == 5) { size_t e = data.find('\n', pos); want = data.substr(pos, e - pos); said += " line"; r->to_string_buffer_reader()->read_line(got); pos = e + 1; }
			if (r->get_status() != sys_IO_Status_OK) { if (!d.fired) wrong = "an error is reported that did not happen"; break; }
			if (got != want) { wrong = "wrong data without an error"; break; }
		}
	}
	if (!wrong.empty()) c.fail(wrong, fmt("%s, buffering %d, fault %d at %d:", text ? "string file" : "byte file", buffering, how, fail_at) + said);
	if (d.fired) c.nontrivial++;
	c.outcome(mix(d.fired, d.calls));
}

// files that cannot be opened, and buffers used after closing: reported, never a crash
static void not_open(Ctx& c) {
	int kind = c.choose(4), how = c.choose(2), op = c.choose(WRITES + SEEKS + 10);
	if (!c.shard()) return;
	string path = how ? file_name() : run_dir() + "/no such directory/file";
	bool text = kind & 1;
	if (how) put_file("some text");
	try {
		if (kind < 2) {
			std::unique_ptr<sys_buffer_writer> w;
			if (text) w.reset(new sys_string_file_buffer_writer(path)); else w.reset(new sys_byte_file_buffer_writer(path));
			need((w->get_status() != sys_IO_Status_OK) == !how, "status after opening");
			need((bool)(u8)w->is_closed() == !how, "is_closed after opening");
			if (how) { w->close(); need(w->is_closed(), "is_closed after closing"); }
			if (op < WRITES) { write_op(w.get(), op, text); need(w->get_status() != sys_IO_Status_OK || write_bytes(op, text).empty(), "writing nowhere is not reported"); }
			else if (op < WRITES + SEEKS) { w->seek(0, (sys_File_Seek)(op % 3)); need(w->get_status() != sys_IO_Status_OK, "seeking nowhere is not reported"); }
			else w->position();
		} else {
			std::unique_ptr<sys_buffer_reader> r;
			if (text) r.reset(new sys_string_file_buffer_reader(path)); else r.reset(new sys_byte_file_buffer_reader(path));
			need((r->get_status() != sys_IO_Status_OK) == !how, "status after opening");
			need((bool)(u8)r->is_closed() == !how, "is_closed after opening");
			if (how) { r->close(); need(r->is_closed(), "is_closed after closing"); }
			string s = "s";
			if (op < SEEKS) { r->seek(0, (sys_File_Seek)(op % 3)); need(r->get_status() != sys_IO_Status_OK, "seeking nowhere is not reported"); }
			else if (op < 12) { r->position(); r->size(); r->remain_size(); r->is_eof(); }
			else {
				if (op % 4 == 0) r->read_str(s, 1);
				else if (op % 4 == 1) { if (text) r->to_string_buffer_reader()->read_char(); else r->to_byte_buffer_reader()->read_i32(); }
				else if (op % 4 == 2) { if (text) r->to_string_buffer_reader()->read_line(s); else { vector<u8> v; r->to_byte_buffer_reader()->read(v, 2); } }
				else { if (text) r->to_string_buffer_reader()->read(2); else r->to_byte_buffer_reader()->read_f64(); }
				need(r->get_status() != sys_IO_Status_OK, "reading nowhere is not reported");
			}
		}
	} catch (Bad& b) { remove(file_name().c_str()); c.fail("files that are not open", fmt("%s, %s, operation %d: ", text ? "string file" : "byte file", how ? "after closing" : "no such directory", op) + b.what); }
	if (how) remove(file_name().c_str());
	c.nontrivial++;
	c.transitions++;
}

// appending keeps what is there, opening to write drops it
static void reopen(Ctx& c) {
	int text = c.choose(2), n = 1 + c.choose(4), exists = c.choose(2);
	int mode[4], what[4];
	for (int i = 0; i < n; ++i) { mode[i] = c.choose(2); what[i] = c.choose(4); }
	if (!c.shard()) return;
	string data = exists ? "old\n" : "", said = exists ? "existing file" : "new file";
	remove(file_name().c_str());
	if (exists) put_file(data);
	for (int i = 0; i < n; ++i) {
		std::unique_ptr<sys_buffer_writer> w;
		if (text) w.reset(new sys_string_file_buffer_writer(file_name(), b8(mode[i] != 0))); else w.reset(new sys_byte_file_buffer_writer(file_name(), b8(mode[i] != 0)));
		if (!mode[i]) data = "";
		said += mode[i] ? " append" : " write";
		static const int O[] = {12, 11, 5, 13};
		for (int k = 0; k < 2; ++k) { write_op(w.get(), O[what[i]], text); data += write_bytes(O[what[i]], text); }
		bool ok = w->get_status() == sys_IO_Status_OK;
		if (i % 2) w->close();
		w.reset();
		c.transitions++;
		string got = read_file(file_name());
		if (!ok || got != data) { remove(file_name().c_str()); c.fail("opening again", said + (ok ? ": " : ": error reported, ") + jstr(got) + " instead of " + jstr(data)); }
	}
	// every file that was opened is closed again
	remove(file_name().c_str());
	int fd = open("/dev/null", O_RDONLY);
	close(fd);
	static int last = fd;
	if (fd > last) c.fail("files stay open", said);
	put_file("x");
	{ sys_byte_file_buffer_reader a(file_name()); sys_string_file_buffer_reader b(file_name()); a.read_u8(); b.read_char(); }
	remove(file_name().c_str());
	int fd2 = open("/dev/null", O_RDONLY);
	close(fd2);
	if (fd2 != fd) c.fail("files stay open", "after a reader is gone");
	c.nontrivial++;
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { log_logger::release(); };
	s.groups.push_back(Group("writing: sequences of up to 3 of all operations", [](Ctx& c) { writers(c, 3, WRITES); }));
	s.groups.push_back(Group("writing: sequences of up to 4 of 11 operations", [](Ctx& c) { writers(c, 4, 4); }));
	s.groups.push_back(Group("writing: sequences of up to 6 of 11 operations", [](Ctx& c) { writers(c, 6, 4); }, false));
	s.groups.push_back(Group("reading: sequences of up to 3 operations", [](Ctx& c) { readers(c, 3, 8); }));
	s.groups.push_back(Group("reading: sequences of up to 4 operations", [](Ctx& c) { readers(c, 4, 3); }, false));
	s.groups.push_back(Group("device failing while writing", write_faults));
	s.groups.push_back(Group("device failing while reading", read_faults));
	s.groups.push_back(Group("files that are not open", not_open));
	s.groups.push_back(Group("opening files again", reopen));
	return run(s, argc, argv);
}
