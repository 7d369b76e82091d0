// S03: path text functions against their definitions; listing, making, deleting, copying and moving files on a real
// file system, in a scratch directory of each worker and as an unprivileged user.
#include "repo.h"
#include "mc.h"
#include <dirent.h>
using namespace mc;

static string word(Ctx& c, const char* letters, int max_len) {
	int k = (int)strlen(letters);
	string s;
	while ((int)s.size() < max_len) {
		int x = c.choose(k + 1);
		if (!x) break;
		s += letters[x - 1];
	}
	return s;
}

static void texts(Ctx& c, int len) {
	string p = word(c, "/\\.aB", len);
	if (!c.shard()) return;
	size_t s = string::npos;
	for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/' || p[i] == '\\') s = i;
	string name = s == string::npos ? p : p.substr(s + 1), title = name, ext;
	for (size_t i = name.size(); i-- > 0;) if (name[i] == '.') { title = name.substr(0, i); ext = name.substr(i); break; }
	for (size_t i = 0; i < ext.size(); ++i) ext[i] = (char)tolower(ext[i]);
	string got;
	if ((got = sys_path::get_file_name(p)) != name) c.fail("file name", jstr(p) + " gives " + jstr(got));
	if ((got = sys_path::get_file_title(p)) != title) c.fail("file title", jstr(p) + " gives " + jstr(got));
	if ((got = sys_path::get_file_extend_name(p)) != ext) c.fail("extension", jstr(p) + " gives " + jstr(got));
	if (s != string::npos) {
		string dir = p.substr(0, s + 1);
		for (size_t i = 0; i < dir.size(); ++i) if (dir[i] == '\\') dir[i] = '/';
		if ((got = sys_path::get_dir_path(p)) != dir) c.fail("directory of a path", jstr(p) + " gives " + jstr(got));
		if (s + 1 == p.size()) {
			string d = p.substr(0, s), want = d;
			for (size_t i = d.size(); i-- > 0;) if (d[i] == '/' || d[i] == '\\') { want = d.substr(i + 1); break; }
			if ((got = sys_path::get_dir_name(p)) != want) c.fail("directory name", jstr(p) + " gives " + jstr(got));
		}
	}
	if (sys_path::is_dir(p) != (!p.empty() && s + 1 == p.size() && s != string::npos)) c.fail("is_dir", jstr(p));
	c.transitions++; c.nontrivial++;
	c.outcome(hash_bytes(name.data(), name.size(), s));
}

// ---- the file system: relative paths in a scratch directory, without the rights of root ----
typedef std::map<string, string> Tree;   // "d/" -> "", "d/f" -> "=" + content, "d/l" -> "@" + target

static void snap(Tree& t, const string& dir) {
	DIR* d = opendir(dir.empty() ? "." : dir.c_str());
	if (!d) return;
	while (dirent* e = readdir(d)) {
		string n = e->d_name;
		if (n == "." || n == "..") continue;
		string p = dir + n;
		struct stat st;
		if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { t[p + "/"] = ""; snap(t, p + "/"); }
		else if (S_ISLNK(st.st_mode)) { char b[256]; ssize_t k = readlink(p.c_str(), b, sizeof b); t[p] = "@" + string(b, k > 0 ? k : 0); }
		else t[p] = "=" + read_file(p);
	}
	closedir(d);
}
static Tree snap() { Tree t; snap(t, ""); return t; }
static string show(const Tree& t) {
	string s;
	for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) { if (s.size() > 1500) return s + "..."; s += i->first + (i->second.empty() ? "" : i->second.size() > 60 ? "=..." : i->second) + " "; }
	return s;
}
static void seen(Ctx& c, const Tree& after, const Tree& before, const string& what) {
	string a = show(after), b = show(before);
	c.state(hash_bytes(a.data(), a.size()));
	c.state(hash_bytes(b.data(), b.size()));
	if (c.want_sample()) c.sample(what + ": " + b + "-> " + a);
}
static void wipe(const string& dir) {
	chmod(dir.empty() ? "." : dir.c_str(), 0777);
	Tree t;
	DIR* d = opendir(dir.empty() ? "." : dir.c_str());
	vector<string> names;
	if (!d) return;
	while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
	closedir(d);
	for (size_t i = 0; i < names.size(); ++i) {
		string p = dir + names[i];
		struct stat st;
		if (lstat(p.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) { wipe(p + "/"); rmdir(p.c_str()); } else unlink(p.c_str());
	}
}
static void put(const string& p, const string& text) {
	FILE* f = fopen(p.c_str(), "wb");
	if (!f) { fprintf(stderr, "cannot write %s in the scratch directory\n", p.c_str()); _exit(9); }
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
}
static void mk(const string& p) { if (mkdir(p.c_str(), 0777)) { fprintf(stderr, "cannot make %s in the scratch directory\n", p.c_str()); _exit(9); } }

static string scratch;
struct Nobody {
	Nobody() {
		static pid_t made = 0;
		if (made != getpid()) {
			made = getpid();
			char b[64];
			snprintf(b, sizeof b, "/fs%d", (int)getpid());
			scratch = run_dir() + b;
			mkdir(scratch.c_str(), 0777);
			chmod(scratch.c_str(), 0777);
			umask(0);
		}
		// the work goes on below a directory entered beforehand, whose ancestors need not be open to the user
		if (chdir(scratch.c_str())) { fprintf(stderr, "no scratch directory\n"); _exit(9); }
		if (getuid() == 0 && (setresgid(65534, 65534, 0) || setresuid(65534, 65534, 0))) { fprintf(stderr, "cannot become an unprivileged user\n"); _exit(9); }
		wipe("");
	}
	~Nobody() {
		wipe("");
		if (setresuid(0, 0, 0) == 0 && setresgid(0, 0, 0) == 0) {}
		if (chdir(run_dir().c_str())) {}
	}
};

static string lst(vector<string> v) { std::sort(v.begin(), v.end()); string s; for (size_t i = 0; i < v.size(); ++i) s += v[i] + "|"; return s; }

static void listing(Ctx& c) {
	const char* names[] = { "a.txt", "b.txt.c", "txt", "D.TXT", "a.txt.txt" };
	int kind[5];
	for (int i = 0; i < 5; ++i) kind[i] = c.choose(3);
	if (!c.shard()) return;
	Nobody n;
	mk("t");
	put("other.txt", "");
	for (int i = 0; i < 5; ++i) {
		string p = string("t/") + names[i];
		if (kind[i] == 1) put(p, "x");
		if (kind[i] == 2) { mk(p); put(p + "/in.txt", "y"); }
	}
	Tree before = snap();
	const char* exts[] = { "", ".txt", "txt", ".c", ".txt.c", ".none", "a.txt", "a.txt.txt", "a.txt.txt.longer" };
	for (int e = 0; e < 9; ++e) {
		vector<string> fn(2, "old"), fp(1, "old"), wn, wp;
		string ext = exts[e];
		for (int i = 0; i < 5; ++i) {
			string s = names[i];
			if (kind[i] == 1 && s.size() >= ext.size() && s.substr(s.size() - ext.size()) == ext) { wn.push_back(s); wp.push_back("t/" + s); }
		}
		sys_path::get_file_name(fn, "t/", ext);
		sys_path::get_file_path(fp, "t/", ext);
		if (lst(fn) != lst(wn)) c.fail("listing names", "extension " + ext + " of " + show(before) + " gives " + lst(fn));
		if (lst(fp) != lst(wp)) c.fail("listing paths", "extension " + ext + " of " + show(before) + " gives " + lst(fp));
		c.transitions += 2;
	}
	vector<string> dn(1, "old"), wd;
	for (int i = 0; i < 5; ++i) if (kind[i] == 2) wd.push_back(string("t/") + names[i] + "/");
	sys_path::get_dir_path(dn, "t/");
	if (lst(dn) != lst(wd)) c.fail("listing directories", show(before) + " gives " + lst(dn));
	vector<string> none(1, "old"), none2(1, "old"), none3(1, "old");
	sys_path::get_file_name(none, "absent/");
	sys_path::get_file_path(none2, "absent/");
	sys_path::get_dir_path(none3, "absent/");
	if (!none.empty() || !none2.empty() || !none3.empty()) c.fail("listing an absent directory", lst(none) + lst(none2) + lst(none3));
	for (int i = 0; i < 5; ++i) if (sys_path::is_exist(string("t/") + names[i]) != (kind[i] != 0)) c.fail("is_exist", names[i]);
	if (snap() != before) c.fail("listing changes files", show(snap()));
	seen(c, before, before, "listing");
	c.nontrivial++;
	c.outcome(hash_bytes(lst(wd).data(), lst(wd).size()));
}

static void grow(Ctx& c, Tree& t, const string& dir, int depth, int width) {
	int f = c.choose(4);
	if (f == 1) t[dir + "f"] = "=1";
	if (f == 2) t[dir + "l"] = "@" + string("/dev/null/none");
	if (f == 3) { t[dir + "l"] = "@out"; t[dir + ".hidden x"] = "=2"; }
	if (!depth) return;
	for (int k = 0; k < width; ++k) if (c.choose(2)) {
		string d = dir + (k ? "e e/" : "d/");
		t[d] = "";
		grow(c, t, d, depth - 1, width);
	}
}
static void build(const Tree& t) {
	for (Tree::const_iterator i = t.begin(); i != t.end(); ++i) {
		if (i->second.empty()) mk(i->first.substr(0, i->first.size() - 1));
		else if (i->second[0] == '=') put(i->first, i->second.substr(1));
		else {
			string target = i->second.substr(1);
			if (target == "out") { target = ""; for (size_t k = 0; k < i->first.size(); ++k) if (i->first[k] == '/') target += "../"; target += "out"; }
			if (symlink(target.c_str(), i->first.c_str())) { fprintf(stderr, "cannot link\n"); _exit(9); }
		}
	}
}
static void deleting(Ctx& c, int depth, int width) {
	int how = c.choose(4);
	Tree t;
	t["t/"] = "";
	grow(c, t, "t/", depth, width);
	if (!c.shard()) return;
	Nobody n;
	Tree rest;
	rest["out/"] = "";
	rest["out/keep"] = "=k";
	rest["out/sub/"] = "";
	rest["out/sub/keep"] = "=k";
	rest["tt/"] = "";
	rest["tt/f"] = "=n";
	build(rest);
	build(t);
	rest = Tree();
	Tree before = snap(), want;
	for (Tree::iterator i = before.begin(); i != before.end(); ++i) {
		bool in = i->first.compare(0, 2, "t/") == 0;
		bool gone = false;
		if (how == 0) gone = in;
		if (how == 1) gone = in && t.size() == 1;
		if (how == 2) gone = in && i->first != "t/";
		if (how == 3) gone = i->first == "t/f";
		if (!gone) want.insert(*i);
	}
	if (how == 0) sys_path::delete_dir("t/", true);
	if (how == 1) sys_path::delete_dir("t/", false);
	if (how == 2) sys_path::delete_sub_dir("t/");
	if (how == 3) sys_path::delete_file("t/f");
	Tree after = snap();
	static const char* names[] = { "delete with content", "delete when empty", "delete content", "delete file" };
	if (after != want) c.fail(names[how], "of " + show(before) + " leaves " + show(after));
	c.transitions++;
	if (t.size() > 1) c.nontrivial++;
	seen(c, after, before, names[how]);
	c.outcome(hash_bytes(show(after).data(), show(after).size()));
}

static void making(Ctx& c) {
	int depth = 1 + c.choose(3), tail = c.choose(2), state = c.choose(5), lead = c.choose(3), wide = c.choose(3);
	if (!c.shard()) return;
	const char* short_names[] = { "p", "q.r", "s t" };
	vector<string> parts;
	for (int i = 0; i < depth; ++i) parts.push_back(wide == 0 ? short_names[i] : string(wide == 1 ? 120 : 250, (char)('a' + i)));
	Nobody n;
	put("by", "stander");
	string p = lead == 1 ? "./" : "";
	vector<string> dirs;
	string acc;
	for (int i = 0; i < depth; ++i) {
		p += parts[i] + (i + 1 < depth ? (lead == 2 ? "//" : "/") : "");
		acc += parts[i] + "/";
		dirs.push_back(acc);
	}
	if (tail) p += "/";
	bool blocked = false;
	if (state == 1) mk(dirs[0].substr(0, dirs[0].size() - 1));
	if (state == 2) for (int i = 0; i < depth; ++i) mk(dirs[i].substr(0, dirs[i].size() - 1));
	if (state == 3) { if (depth == 1) { wipe(""); return; } put(parts[0], "file"); blocked = true; }
	if (state == 4) { if (depth == 1) { wipe(""); return; } mk(parts[0]); chmod(parts[0].c_str(), 0555); blocked = true; }
	Tree want = snap();
	if (!blocked) for (int i = 0; i < depth; ++i) want[dirs[i]] = "";
	bool r = sys_path::create_multi_dir(p);
	Tree after = snap();
	if (after != want) c.fail("making directories", jstr(p) + " leaves " + show(after));
	if (r == blocked) c.fail("making directories", jstr(p) + (r ? " reports success though a part of it cannot be made" : " reports a failure"));
	if (!blocked && !sys_path::is_exist(p)) c.fail("making directories", jstr(p) + " is said not to exist");
	if (!sys_path::create_multi_dir("")) c.fail("making directories", "none, reports a failure");
	c.transitions++; c.nontrivial++;
	seen(c, after, after, "making " + jstr(p));
	c.outcome(hash_bytes(p.data(), p.size(), r));
}

static void carrying(Ctx& c) {
	static const char* names[] = { "plain", "a b", "it's", "$HOME", "-f", "a;touch x", "`touch x`", "*", "\"q\"", "a\\b", "''", "a\nb", "&", "" };
	int move = c.choose(2), sn = c.choose(13), dn = c.choose(13), src = c.choose(4), dst = c.choose(4), fail = c.choose(2);
	if (sn && dn && sn != dn && !c.thorough) return;
	if (sn == dn && dst != 3 && dst != 2) { if (!c.shard()) return; return; }   // the same file
	if (!c.shard()) return;
	Nobody n;
	put("by", "stander");
	put("zz", "other");
	mk("sub");
	string s = names[sn], d = dst == 2 ? string("absent/") + names[dn] : dst == 3 ? string("sub/") + names[dn] : string(names[dn]);
	string text = src == 1 ? "" : src == 2 ? string("A\0B", 3) : string(70000, 'z');
	if (src) put(s, text);
	if (dst == 1) put(d, "old content, longer");
	if (dst == 3) { put(d, "old"); if (!fail) { chmod(d.c_str(), 0444); if (!move) chmod(d.c_str(), 0644); } }
	Tree before = snap(), want = before;
	bool exists = dst == 1 || dst == 3;
	bool ok = src != 0 && dst != 2 && !(fail && exists);
	if (ok) { want[d] = "=" + text; if (move) want.erase(s); }
	bool r = move ? sys_path::move_file(d, s, fail != 0) : sys_path::copy_file(d, s, fail != 0);
	Tree after = snap();
	string what = string(move ? "moving " : "copying ") + jstr(s) + " to " + jstr(d) + (fail ? " unless it exists" : "") + ", " + show(before);
	if (after != want) c.fail(move ? "moving a file" : "copying a file", what + " leaves " + show(after));
	if (r != ok) c.fail(move ? "moving a file" : "copying a file", what + (r ? " reports success" : " reports a failure"));
	c.transitions++; c.nontrivial++;
	seen(c, after, before, what);
	c.outcome(hash_bytes(what.data(), what.size(), r));
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups.push_back(Group("path texts up to 6 characters", [](Ctx& c) { texts(c, 6); }));
	s.groups.push_back(Group("path texts up to 8 characters", [](Ctx& c) { texts(c, 8); }, false));
	s.groups.push_back(Group("listing", listing));
	s.groups.push_back(Group("deleting chains 3 deep", [](Ctx& c) { deleting(c, 3, 1); }));
	s.groups.push_back(Group("deleting trees 1 deep", [](Ctx& c) { deleting(c, 1, 2); }));
	s.groups.push_back(Group("deleting trees 2 deep", [](Ctx& c) { deleting(c, 2, 2); }, false));
	s.groups.push_back(Group("making directories", making));
	s.groups.push_back(Group("copying and moving", carrying));
	return run(s, argc, argv);
}
